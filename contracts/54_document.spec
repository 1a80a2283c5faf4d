// ---- well-formed documents

// where the first i bytes of a document lead: before it (0), after a brace (1), within a key (2), after a key (3), after a colon (4),
// within a text (5), within a word or number (6), after a value (7), after a comma in a map (8), after a bracket (9), after a comma in
// an array (10); -1 when the text is no document
def blank(b) = b == 32 || b == 9 || b == 10 || b == 13
def inmap(s, i) = nth(s, i, deep(s, i) - 1) == 123
def awaits(p) = p == 4 || p == 9 || p == 10
def phnext(s, i, p, b) = ite(p == 2, ite(lex(s, i+1) == 0, 3, 2), ite(p == 5, ite(lex(s, i+1) == 0, 7, 5), ite(p != 0 && deep(s, i) <= 0, -1, ite(blank(b), ite(p == 0, -1, p), \
  ite(b == 34, ite(p == 1 || p == 8, 2, ite(awaits(p), 5, -1)), ite(b == 58, ite(p == 3, 4, -1), ite(b == 123, ite(p == 0 || awaits(p), 1, -1), ite(b == 91, ite(awaits(p), 9, -1), \
  ite(b == 44, ite(p == 6 || p == 7, ite(inmap(s, i), 8, 10), -1), ite(b == 125, ite(inmap(s, i) && (p == 1 || p == 6 || p == 7), 7, -1), ite(b == 93, ite(!inmap(s, i) && (p == 9 || p == 6 || p == 7), 7, -1), \
  ite(b == 92, -1, ite(awaits(p) || p == 6, 6, -1)))))))))))))
rec ph(s str, i int) int = ite(i <= 0, 0, ite(ph(s, i-1) < 0, -1, phnext(s, i-1, ph(s, i-1), s[i-1])))
// the key last written before position i, with its quotes, and the value that is a text, word or number
rec keytext(s str, i int) str = ite(i <= 0, "", ite(ph(s, i-1) == 2, cat(keytext(s, i-1), chr(s[i-1])), ite(ph(s, i) == 2, chr(s[i-1]), keytext(s, i-1))))
rec token(s str, i int) str = ite(i <= 0, "", ite(ph(s, i-1) == 5 || ph(s, i-1) == 6 && ph(s, i) == 6, cat(token(s, i-1), chr(s[i-1])), ite(ph(s, i) == 5 || ph(s, i) == 6, chr(s[i-1]), token(s, i-1))))
// position i ends an entry: a text by its quote, a word or number by what follows it, a map or array by the bracket it starts with
rec bare(s str, i int) bool = 0 <= i && ph(s, i) == 6 && ph(s, i+1) >= 0 && ph(s, i+1) != 6
rec entry(s str, i int) bool = 0 <= i && (ph(s, i) == 5 && ph(s, i+1) == 7 || bare(s, i) || awaits(ph(s, i)) && opener(s[i]) && ph(s, i+1) >= 0)
// the j-th of the brackets open after i bytes, the bracket whose entry ends at i, and how many entries of bracket p end before i
rec opos(s str, i int, j int) int = ite(i <= 0, 0, ite(lex(s, i-1) == 0 && opener(s[i-1]) && deep(s, i-1) == j, i-1, opos(s, i-1, j)))
rec owner(s str, i int) int = opos(s, i, deep(s, i) - 1)
rec entries(s str, i int, p int) int = ite(i <= 0, 0, entries(s, i-1, p) + ite(entry(s, i-1) && owner(s, i-1) == p, 1, 0))
rec opens(s str, p int) bool = 0 <= p && lex(s, p) == 0 && opener(s[p])
def unquoted(k) = unesc(k[1:len(k)-1], 0)
rec key(s str, i int) str = unquoted(keytext(s, i))
def valtext(s, i) = trim(token(s, ite(ph(s, i) == 5, i+1, i)))
// every word and number has a meaning, no key comes twice in a map
def meaningful(t) = t != "" && !hasquote(t) && implies(numtoken(t), inttoken(t) || dectoken(t))
rec words(s str) bool = forall(i, int, implies(0 <= i && i < len(s) && bare(s, i), meaningful(trim(token(s, i)))), bare(s, i))
def document(s) = forall(i, int, implies(0 <= i && i <= len(s), ph(s, i) >= 0), ph(s, i)) && ph(s, len(s)) == 7 && deep(s, len(s)) == 0 && words(s)
rec keysdiffer(s str) bool = forall(e, int, forall(f, int, implies(0 <= e && e < f && f < len(s) && entry(s, e) && entry(s, f) && owner(s, e) == owner(s, f) && s[owner(s, e)] == 123, key(s, e) != key(s, f)), entry(s, f)), entry(s, e))

// what the parser makes of a document: the container of every opening bracket (cid), and in it one entry after the other
def cont(p) = ghost("cid", p)
def child(c, p, b) = ite(b == 123, mapkind(c) && mapid(c) == cont(p), arrkind(c) && arrid(c) == cont(p))
def written(s, e, c) = ite(opener(s[e]), child(c, e, s[e]), means(valtext(s, e), c))
def themap(s, e) = mapobj(cont(owner(s, e)))
def thearr(s, e) = array(cont(owner(s, e)))
def rank(s, e) = entries(s, e, owner(s, e))
def placed(s, e) = ite(s[owner(s, e)] == 123, rank(s, e) < G_n(themap(s, e)) && G_k(themap(s, e), rank(s, e)) == key(s, e) && G_h(themap(s, e), key(s, e)), rank(s, e) < G_n(thearr(s, e)))
def held_(s, e) = ite(s[owner(s, e)] == 123, G_v(G_v(themap(s, e), key(s, e))), G_v(G_e(thearr(s, e), rank(s, e))))
// the Value of the entry ending at e, once it is in its place
def vp(e) = ghost("value", e)
def contentof(p) = G_v(value(at(p, "json.Value")))
def kept(s, e) = placed(s, e) && written(s, e, held_(s, e))
def size(s, p) = ite(s[p] == 123, G_n(mapobj(cont(p))), G_n(array(cont(p))))
def described(s, n) = forall(p, int, implies(p < n && opens(s, p), size(s, p) == entries(s, n, p)), opens(s, p)) && forall(e, int, implies(e < n && entry(s, e), kept(s, e)), entry(s, e))
