// ---- the parser

// where the first i bytes of a text lead: outside of strings (0), within one (1), after a backslash within one (2)
rec lex(s str, i int) int = ite(i <= 0, 0, ite(lex(s, i-1) == 0, ite(s[i-1] == 34, 1, 0), ite(lex(s, i-1) == 2, 1, ite(s[i-1] == 92, 2, ite(s[i-1] == 34, 0, 1)))))
// how many brackets are open after the first i bytes, and which one is the j-th of them
def opener(b) = b == 123 || b == 91
def closer(b) = b == 125 || b == 93
rec deep(s str, i int) int = ite(i <= 0, 0, ite(lex(s, i-1) != 0, deep(s, i-1), ite(opener(s[i-1]), deep(s, i-1) + 1, ite(closer(s[i-1]), deep(s, i-1) - 1, deep(s, i-1)))))
rec nth(s str, i int, j int) int = ite(i <= 0, 0, ite(lex(s, i-1) == 0 && opener(s[i-1]) && deep(s, i-1) == j, s[i-1], nth(s, i-1, j)))
// every bracket that closes matches the last one open, and nothing follows the end of the first
def closes(s, i) = deep(s, i) > 0 && nth(s, i, deep(s, i) - 1) == ite(s[i] == 125, 123, 91)
rec nests(s str, i int) bool = i <= 0 || nests(s, i-1) && (i == 1 || deep(s, i-1) > 0) && (lex(s, i-1) != 0 || !closer(s[i-1]) || closes(s, i-1))
def balanced(s) = len(s) > 0 && s[0] == 123 && nests(s, len(s)) && deep(s, len(s)) == 0

lemma [C12] braces1(s str, n int) {nests(s, n)} for none : implies(s == "{}" && n == 1, nests(s, n) && deep(s, n) == 1 && lex(s, n) == 0 && nth(s, n, 0) == 123)
lemma [C12] braces(s str, n int) {nests(s, n)} for nests : implies(s == "{}" && n == 2, nests(s, n) && deep(s, n) == 0)
  use braces1(s, 1)

def counter(m, k) = G_h(m, k) && G_v(m, k) != 0 && tagis(G_v(G_v(m, k)), "*int") && asR(G_v(G_v(m, k))) != 0
def counters(m) = counter(m, "{") && counter(m, "}") && counter(m, "[") && counter(m, "]") && counter(m, "opening_quote") && counter(m, "closing_quote")
def mode_() = loopvar("string", "current_mode", 2)
def stack_() = loopvar("[]*json.Value")
def topid(l, j) = ite(mapkind(G_v(l[j])), mapid(G_v(l[j])), arrid(G_v(l[j])))
def ok_(s, i) = ph(s, i) >= 0 && words(s) && keysdiffer(s)
def from(s, o, i, p, t) = o < i && entry(s, o) && owner(s, o) == p && key(s, o) == t
def madep(p) = made(p) && fresh(p) && made(at(p, "json.Value")) && madeplace(contentof(p)) && implies(tagis(contentof(p), "*uint64"), fresh(asR(contentof(p))))
def inplace(s, e) = ite(s[owner(s, e)] == 123, ptr(G_v(themap(s, e), key(s, e))) == vp(e), ptr(G_e(thearr(s, e), rank(s, e))) == vp(e))
def keyvar() = loopvar("string", "temp_key_r", 0)
def valvar() = loopvar("string", "temp_value_r", 1)
def errors_() = loopvar("[]error")
def inkey(p) = p == 3 || p == 4 || p == 5 || p == 6
def fresh_key(p) = p == 0 || p == 1 || p == 7 || p == 8
def bykind(p, m) = implies(p == 1 || p == 2 || p == 3 || p == 4 || p == 8, m) && implies(p == 9 || p == 10, !m)
def modeof(p, m, n) = ite(p == 1 || p == 8, "looking_for_keys", ite(p == 2, "looking_for_key_name", ite(p == 3, "looking_for_key_name_column", ite(p == 4 || p == 9 || p == 10, "mode_looking_for_next_value_or_end", \
  ite(p == 0 || p == 5 || p == 6, "looking_for_value", ite(n == 0, mode_(), ite(m, "looking_for_keys", "mode_looking_for_next_value_or_end")))))))
// an element of the stack: a new Value of a new map or array
def held(v) = v != 0 && made(v) && fresh(v) && fresh(obj(v)) && (mapkind(G_v(v)) && fresh(mapid(G_v(v))) && fresh(G_a(mapobj(mapid(G_v(v))))) || arrkind(G_v(v)) && fresh(arrid(G_v(v))))

func parseJSONMap(json_string, index, mode, metrics)
  parts 4
  also [C11]
  requires a start : !isnil(index) && *index == 0 && !isnil(mode) && *mode == "looking_for_value" && len(json_string) > 0 && json_string[0] == 123
  requires counters : !isnil(metrics) && obj(metrics) != 0 && !fresh(obj(metrics)) && counters(metrics)
  modifies *index
  modifies map obj(metrics)
  maynew r0
  ensures errs : errs(r1)
  ensures exclusive : isnil(r0) == !isnil(r1)
  ensures counters : counters(metrics)
  ensures [C12] only balanced text is accepted : implies(isnil(r1), balanced(json_string))
  loop 0 invariant position : 0 <= *index && *index <= len(json_string)
  loop 0 invariant counters : counters(metrics)
  loop 0 invariant first : implies(*index == 0, len(stack_()) == 0 && isnil(loopvar("*json.Map")) && mode_() == "looking_for_value")
  loop 0 invariant started : implies(*index > 0, !isnil(loopvar("*json.Map")) && fresh(loopvar("*json.Map")) && fresh(obj(loopvar("*json.Map"))))
  loop 0 invariant within : (loopvar("bool", "parsing_string", 0) == (lex(json_string, *index) != 0)) && (loopvar("bool", "next_is_escaped", 1) == (lex(json_string, *index) == 2))
  loop 0 invariant modes : (mode_() == "looking_for_keys" || mode_() == "looking_for_key_name" || mode_() == "looking_for_key_name_column" || mode_() == "looking_for_value" || mode_() == "mode_looking_for_next_value_or_end") \
    && implies(mode_() == "looking_for_keys", !loopvar("bool", "parsing_string", 0)) && implies(mode_() == "looking_for_key_name", loopvar("bool", "parsing_string", 0))
  loop 0 invariant stack is new : fresh(base(stack_()))
  loop 0 invariant top of stack : implies(len(stack_()) > 0, held(stack_()[len(stack_())-1]))
  loop 0 invariant stack : forall(j, int, implies(0 <= j && j < len(stack_()), held(stack_()[j])), stack_()[j])
  loop 0 invariant looking for keys in a map : implies(mode_() == "looking_for_keys" && len(stack_()) > 0, mapkind(G_v(stack_()[len(stack_())-1])))
  loop 0 invariant [C12] brackets : nests(json_string, *index) && len(stack_()) == deep(json_string, *index) && forall(j, int, implies(0 <= j && j < len(stack_()), nth(json_string, *index, j) == ite(mapkind(G_v(stack_()[j])), 123, 91)), stack_()[j])
  ensures [C13] a document is accepted : implies(document(json_string), isnil(r1))
  loop 0 invariant [C13] quotes : implies(ph(json_string, *index) >= 0, (lex(json_string, *index) != 0) == (ph(json_string, *index) == 2 || ph(json_string, *index) == 5))
  loop 0 invariant [C13] kinds : implies(ph(json_string, *index) >= 0, bykind(ph(json_string, *index), inmap(json_string, *index)) && (ph(json_string, *index) == 0) == (*index == 0) && implies(ph(json_string, *index) != 0 && ph(json_string, *index) != 7, deep(json_string, *index) > 0))
  loop 0 invariant [C13] brackets : len(stack_()) == deep(json_string, *index) && forall(j, int, implies(0 <= j && j < len(stack_()), nth(json_string, *index, j) == ite(mapkind(G_v(stack_()[j])), 123, 91)), stack_()[j])
  loop 0 invariant [C13] modes : implies(ph(json_string, *index) >= 0, mode_() == modeof(ph(json_string, *index), mapkind(G_v(stack_()[len(stack_())-1])), len(stack_())))
  loop 0 invariant [C13] key read : implies(ph(json_string, *index) >= 0, ite(fresh_key(ph(json_string, *index)), keyvar() == "", implies(ph(json_string, *index) == 2 || ph(json_string, *index) == 3 || mapkind(G_v(stack_()[len(stack_())-1])) && inkey(ph(json_string, *index)), keyvar() == keytext(json_string, *index))))
  loop 0 invariant [C13] key quoted : implies(ph(json_string, *index) >= 0 && mapkind(G_v(stack_()[len(stack_())-1])) && (inkey(ph(json_string, *index))), quoted(keyvar()))
  loop 0 invariant [C13] key starts : implies(ph(json_string, *index) == 2, len(keyvar()) > 0 && keyvar()[0] == 34)
  loop 0 invariant [C13] value read : implies(ph(json_string, *index) >= 0, valvar() == ite(ph(json_string, *index) == 5 || ph(json_string, *index) == 6, token(json_string, *index), ""))
  loop 0 invariant [C13] value starts : implies(ph(json_string, *index) == 5, len(valvar()) > 0 && valvar()[0] == 34)
  loop 0 assert [C13] a word ends : ph(json_string, *index) >= -1 && implies(words(json_string) && bare(json_string, head(*index)), meaningful(trim(token(json_string, head(*index)))))
  loop 0 assert [C13] the container on top : implies(head(len(stack_()) > 0), head(topid(stack_(), len(stack_())-1)) == cont(owner(json_string, head(*index))) && opens(json_string, owner(json_string, head(*index))) && owner(json_string, head(*index)) < head(*index) \
    && json_string[owner(json_string, head(*index))] == ite(head(mapkind(G_v(stack_()[len(stack_())-1]))), 123, 91))
  loop 0 invariant [C13] what follows : ph(json_string, *index+1) >= -1 && implies(bare(json_string, *index), ph(json_string, *index) == 6)
  loop 0 invariant [C13] no errors : implies(ph(json_string, *index) >= 0 && words(json_string), len(errors_()) == 0)
  ghost cid who origin value
  loop 0 ghost cid = ite(opens(json_string, head(*index)), store(ghost("cid"), head(*index), topid(stack_(), len(stack_())-1)), ghost("cid"))
  loop 0 ghost who = ite(opens(json_string, head(*index)), store(ghost("who"), topid(stack_(), len(stack_())-1), head(*index)), ghost("who"))
  loop 0 ghost value = ite(entry(json_string, head(*index)), store(ghost("value"), head(*index), ite(inmap(json_string, head(*index)), ptr(G_v(themap(json_string, head(*index)), key(json_string, head(*index)))), ptr(G_e(thearr(json_string, head(*index)), rank(json_string, head(*index)))))), ghost("value"))
  loop 0 ghost origin = ite(entry(json_string, head(*index)), ite(inmap(json_string, head(*index)), store(ghost("origin"), ptr(G_v(mapobj(cont(owner(json_string, head(*index)))), key(json_string, head(*index)))), head(*index)), ghost("origin")), ghost("origin"))
  loop 0 invariant [C13] containers : forall(p, int, implies(p < *index && opens(json_string, p), fresh(cont(p)) && made(cont(p)) && ghost("who", cont(p)) == p), opens(json_string, p))
  loop 0 invariant [C13] stack of containers : forall(j, int, implies(0 <= j && j < len(stack_()), topid(stack_(), j) == cont(opos(json_string, *index, j)) && opens(json_string, opos(json_string, *index, j)) && opos(json_string, *index, j) < *index \
    && json_string[opos(json_string, *index, j)] == nth(json_string, *index, j)), stack_()[j])
  loop 0 invariant [C13] origins : implies(ok_(json_string, *index), forall(p, int, forall(t, str, implies(p < *index && opens(json_string, p) && json_string[p] == 123 && G_h(mapobj(cont(p)), t), from(json_string, ghost("origin", ptr(G_v(mapobj(cont(p)), t))), *index, p, t) && made(ptr(G_v(mapobj(cont(p)), t)))), G_h(mapobj(cont(p)), t)), opens(json_string, p)))
  loop 0 invariant [C13] sizes : implies(ok_(json_string, *index), forall(p, int, implies(p < *index && opens(json_string, p), size(json_string, p) == entries(json_string, *index, p)), opens(json_string, p)) && forall(p, int, implies(p >= *index, entries(json_string, *index, p) == 0), entries(json_string, *index, p)))
  loop 0 invariant [C13] owners : implies(ok_(json_string, *index), forall(e, int, implies(e < *index && entry(json_string, e), opens(json_string, owner(json_string, e)) && owner(json_string, e) < e && 0 <= entries(json_string, e, owner(json_string, e)) && implies(opener(json_string[e]), opens(json_string, e))), entry(json_string, e)))
  loop 0 invariant [C13] entries have a place : implies(ok_(json_string, *index), forall(e, int, implies(e < *index && entry(json_string, e), placed(json_string, e) && inplace(json_string, e)), entry(json_string, e)))
  loop 0 invariant [C13] entries exist : implies(ok_(json_string, *index), forall(e, int, implies(e < *index && entry(json_string, e), madep(vp(e))), entry(json_string, e)))
  loop 0 invariant [C13] entries : implies(ok_(json_string, *index), forall(e, int, implies(e < *index && entry(json_string, e), written(json_string, e, contentof(vp(e)))), entry(json_string, e)))
  loop 0 invariant [C13] root : implies(*index > 0, cont(0) == obj(loopvar("*json.Map")))
  ensures [C13] what a document is made into : implies(isnil(r1) && document(json_string) && keysdiffer(json_string), cont(0) == obj(r0) && described(json_string, len(json_string)))
  loop 0 decreases len(json_string) - *index

func Parse(s)
  also [C11]
  maynew r0
  ensures errs : errs(r1)
  ensures a map or errors : isnil(r0) == !isnil(r1)
  ensures [C12] only balanced text is accepted : implies(isnil(r1), balanced(trim(s)))
  ghost cid
  ensures [C13] what a document is made into : implies(isnil(r1) && document(trim(s)) && keysdiffer(trim(s)) && trim(s) != "{}", cont(0) == obj(r0) && described(trim(s), len(trim(s))))
  ensures [C13] nothing between the braces : implies(isnil(r1) && trim(s) == "{}", G_n(r0) == 0 && forall(t, str, !G_h(r0, t)))
