// ---- parsing: tokens

func cloneString(value)
  also [C11,C12]
  maynew r0
  ensures nil or a copy : isnil(r0) == isnil(value) && implies(!isnil(value), *r0 == *value)
func getTimeNow()
  maynew r0
  ensures a time : !isnil(r0)

def quoted(s) = len(s) >= 2 && s[0] == 34 && s[len(s)-1] == 34
func unquote_key_value(key)
  also [C11]
  ensures errs : errs(r1)
  ensures refused unless quoted : isnil(r1) == quoted(key)
  ensures [C13,C14] what stands between the quotes : r0 == ite(quoted(key), unesc(key[1:len(key)-1], 0), "")

// the container at the top of the stack, and the identity of the map or array it holds
def top(l) = (*l)[len(*l)-1]
def topc(l) = G_v(top(l))

// what a token means
def hasquote(t) = scontains(t, "\"")
def numtoken(t) = !hasquote(t) && t != "true" && t != "false" && t != "null" && t != ""
def inttoken(t) = isuint(t) && intval(t) <= 18446744073709551615 || isint(t) && t[0] == 45 && intval(t) >= -9223372036854775808
def dectoken(t) = isf64(t) && scount(t, ".") == 1 && (scount(t, "-") == 0 || scount(t, "-") == 1 && t[0] == 45)
def means(t, c) = ite(hasquote(t), strkind(c) && strof(c) == unesc(t[1:len(t)-1], 0), \
  ite(t == "true", boolkind(c) && boolof(c), ite(t == "false", boolkind(c) && !boolof(c), ite(t == "null", isnil(c), \
  ite(scount(t, ".") == 1, floatkind(c) && ite(isf32(t), tagin(c, "float32", "*float32") && floatof(c) == fconv(fconv32(parsef32(t))), tagin(c, "float64", "*float64") && floatof(c) == parsef64(t)), \
  intkind(c) && intof(c) == intval(t))))))

def tarr(l) = array(arrid(topc(l)))
def tmap(l) = mapobj(mapid(topc(l)))
def appended(l, t) = G_n(tarr(l)) == old(G_n(tarr(l))) + 1 && sameto(tarr(l), old(G_n(tarr(l)))) && means(t, G_v(G_e(tarr(l), old(G_n(tarr(l))))))
def keyof(k) = unesc(k[1:len(k)-1], 0)
def assigned(l, k, t) = put(tmap(l), keyof(k)) && means(t, G_v(G_v(tmap(l), keyof(k))))
def unchanged(l) = implies(arrkind(topc(l)), G_n(tarr(l)) == old(G_n(tarr(l))) && sameto(tarr(l), G_n(tarr(l)))) \
  && implies(mapkind(topc(l)), G_n(tmap(l)) == old(G_n(tmap(l))) && forall(i, int, implies(0 <= i && i < G_n(tmap(l)), G_k(tmap(l), i) == old(G_k(tmap(l), i)))) \
    && forall(t, str, G_h(tmap(l), t) == old(G_h(tmap(l), t)) && G_v(tmap(l), t) == old(G_v(tmap(l), t))))
def newv(v) = fresh(ptr(v)) && made(ptr(v)) && made(obj(v)) && madeplace(G_v(v)) && implies(tagis(G_v(v), "*uint64"), fresh(asR(G_v(v))))
func parseJSONValue(key, text, list)
  also [C11,C12]
  requires a stack of values : isnil(list) || len(*list) == 0 || !isnil(top(list))
  modifies map ite(mapkind(topc(list)), mapid(topc(list)), 0)
  modifies array ite(arrkind(topc(list)), arrid(topc(list)), 0)
  ensures errs : errs(r0)
  ensures [C02,C13] a token without meaning is refused : implies(isnil(r0), ite(hasquote(trim(text)), quoted(trim(text)), implies(numtoken(trim(text)), inttoken(trim(text)) || dectoken(trim(text)))))
  ensures [C02] in an array a number is appended as it is written : implies(isnil(r0) && arrkind(topc(list)) && numtoken(trim(text)), appended(list, trim(text)))
  ensures [C13] in an array the token is appended as what it means : implies(isnil(r0) && arrkind(topc(list)) && trim(text) != "", appended(list, trim(text)))
  ensures [C02] in a map a number is stored as it is written : implies(isnil(r0) && mapkind(topc(list)) && numtoken(trim(text)), assigned(list, trim(key), trim(text)))
  ensures [C13] in a map the token is stored under the key as what it means : implies(isnil(r0) && mapkind(topc(list)) && trim(text) != "", assigned(list, trim(key), trim(text)))
  ensures [C02,C13] a key must be quoted : implies(isnil(r0) && mapkind(topc(list)), quoted(trim(key)))
  ensures [C13] what is stored is new : implies(isnil(r0) && trim(text) != "", ite(arrkind(topc(list)), newv(G_e(tarr(list), old(G_n(tarr(list))))), implies(mapkind(topc(list)), newv(G_v(tmap(list), keyof(trim(key)))))))
  ensures [C13] nothing written stores nothing : implies(trim(text) == "" || !isnil(r0), unchanged(list))
  ensures [C02] a number refused stores nothing : implies(!isnil(r0), unchanged(list))
  ensures [C02,C13] a token that means something is accepted : implies(!isnil(list) && len(*list) > 0 && (arrkind(topc(list)) || mapkind(topc(list)) && quoted(trim(key))) && \
    ite(hasquote(trim(text)), quoted(trim(text)), implies(numtoken(trim(text)), inttoken(trim(text)) || dectoken(trim(text)))), isnil(r0))
