// ---- serialising

fun fmt_s(iface) str
fun timefmt(int, str) str
def errtext(e) = ite(tagis(e, "*errors.errorString") && asR(e) != 0, errmsg(e), fmt_s(e))
def quotedtext(s) = cat("\"", esc(s, len(s)), "\"")
def funckind(c) = tagin(c, "func(string, *string, string, string) []error", "func(json.Map) []error", "*func(json.Map) []error", "*func(string) []error", "func(string) []error")
// content as it is handed over: a Value stands for what it holds
def valid(v) = ite(tagis(v, "json.Value"), asR(v), at(asR(v), "json.Value"))
def inner(v) = ite(vnil(v) || !nested(v), v, G_v(value(valid(v))))
// an entry of a map or array
def ec(e) = ite(e == 0, inil(), G_v(e))

// the text of content, of the first i entries of a map or array, and of the first i elements of a list of texts or errors
hrec textC(c iface) str = ite(vnil(c), "null", ite(strkind(c), quotedtext(strof(c)), ite(boolkind(c), ite(boolof(c), "true", "false"), ite(intkind(c), itoa(intof(c)), \
  ite(tagis(c, "float64"), fmtf64_f(asD(c)), ite(tagis(c, "*float64"), fmtf64_f(at(asR(c), "float64")), ite(tagis(c, "float32"), fmtf32_f(asF(c)), ite(tagis(c, "*float32"), fmtf32_f(at(asR(c), "float32")), \
  ite(mapkind(c), textM(mapid(c)), ite(arrkind(c), textA(arrid(c)), \
  ite(tagis(c, "[]string"), cat("[", bodyL(c, len(elems(c, "[]string"))), "]"), ite(tagis(c, "*[]string"), cat("[", bodyL(c, len(elems(c, "*[]string"))), "]"), \
  ite(tagis(c, "[]error"), cat("[", bodyL(c, len(elems(c, "[]error"))), "]"), ite(tagis(c, "*[]error"), cat("[", bodyL(c, len(elems(c, "*[]error"))), "]"), \
  ite(funckind(c), quotedtext(typestr(tag(c))), ite(tagis(c, "*time.Time"), cat("\"", timefmt(at(asR(c), "time.Time"), "2006-01-02 15:04:05.000000"), "\""), \
  ite(tagis(c, "*error"), quotedtext(errtext(at(asR(c), "error"))), quotedtext(errtext(c)))))))))))))))))))
hrec textM(m int) str = cat("{", bodyM(m, G_n(mapobj(m))), "}")
hrec textA(a int) str = cat("[", bodyA(a, G_n(array(a))), "]")
hrec bodyM(m int, i int) str = ite(i <= 0, "", cat(bodyM(m, i-1), ite(i == 1, "", ","), quotedtext(G_k(mapobj(m), i-1)), ":", textC(ec(G_v(mapobj(m), G_k(mapobj(m), i-1))))))
hrec bodyA(a int, i int) str = ite(i <= 0, "", cat(bodyA(a, i-1), ite(i == 1, "", ","), textC(ec(G_e(array(a), i-1)))))
hrec bodyL(c iface, i int) str = ite(i <= 0, "", cat(bodyL(c, i-1), ite(i == 1, "", ","), ite(tagis(c, "[]string"), quotedtext(elems(c, "[]string")[i-1]), ite(tagis(c, "*[]string"), quotedtext(elems(c, "*[]string")[i-1]), \
  textC(inner(ite(tagis(c, "[]error"), elems(c, "[]error")[i-1], elems(c, "*[]error")[i-1])))))))

// everything in it is of a kind that has a text; from entry i on
hrec hasText(c iface) bool = vnil(c) || strkind(c) || boolkind(c) || intkind(c) || floatkind(c) || funckind(c) || tagin(c, "*errors.errorString", "*error", "*time.Time", "[]string", "*[]string") \
  || mapkind(c) && haveTextM(mapid(c), 0) || arrkind(c) && haveTextA(arrid(c), 0) || tagin(c, "[]error", "*[]error") && haveTextL(c, 0)
hrec haveTextM(m int, i int) bool = i >= G_n(mapobj(m)) || hasText(ec(G_v(mapobj(m), G_k(mapobj(m), i)))) && haveTextM(m, i+1)
hrec haveTextA(a int, i int) bool = i >= G_n(array(a)) || hasText(ec(G_e(array(a), i))) && haveTextA(a, i+1)
hrec haveTextL(c iface, i int) bool = ite(tagis(c, "[]error"), i >= len(elems(c, "[]error")) || hasText(inner(elems(c, "[]error")[i])) && haveTextL(c, i+1), \
  i >= len(elems(c, "*[]error")) || hasText(inner(elems(c, "*[]error")[i])) && haveTextL(c, i+1))

func ConvertInterfaceValueToJSONStringValue(json, value)
  also [C09]
  modifies *json
  ensures errs : errs(r0)
  ensures [C09] nothing without a builder : implies(isnil(json), !isnil(r0))
  ensures [C09] the text of the value is appended : implies(!isnil(json) && hasText(inner(value)), isnil(r0) && *json == cat(old(*json), textC(inner(value))))
  loop 0 invariant [C09] written so far : len(loopvar("[]error")) == 0 && *json == cat(old(*json), "[", bodyL(inner(value), iter_), ite(0 < iter_ && iter_ < len(elems(inner(value), "[]string")), ",", ""))
  loop 1 invariant [C09] written so far : len(loopvar("[]error")) == 0 && *json == cat(old(*json), "[", bodyL(inner(value), iter_), ite(0 < iter_ && iter_ < len(elems(inner(value), "*[]string")), ",", ""))
  loop 2 invariant [C09] written so far : implies(haveTextL(inner(value), 0), haveTextL(inner(value), iter_) && len(loopvar("[]error")) == 0 && *json == cat(old(*json), "[", bodyL(inner(value), iter_), ite(0 < iter_ && iter_ < len(elems(inner(value), "[]error")), ",", "")))
  loop 3 invariant [C09] written so far : implies(haveTextL(inner(value), 0), haveTextL(inner(value), iter_) && len(loopvar("[]error")) == 0 && *json == cat(old(*json), "[", bodyL(inner(value), iter_), ite(0 < iter_ && iter_ < len(elems(inner(value), "*[]error")), ",", "")))

method Map.ToJSONString(json)
  also [C09]
  modifies *json
  ensures errs : errs(r0)
  ensures [C09] nothing without a builder : implies(isnil(json), !isnil(r0))
  ensures [C09] the entries in order between braces are appended : implies(!isnil(json) && haveTextM(obj(self), 0), isnil(r0) && *json == cat(old(*json), textM(obj(self))))
  loop 0 invariant [C09] written so far : implies(haveTextM(obj(self), 0), haveTextM(obj(self), iter_) && len(loopvar("[]error")) == 0 && *json == cat(old(*json), "{", bodyM(obj(self), iter_), ite(0 < iter_ && iter_ < G_n(self), ",", "")))

method Array.ToJSONString(json)
  also [C09]
  modifies *json
  ensures errs : errs(r0)
  ensures [C09] nothing without a builder : implies(isnil(json), !isnil(r0))
  ensures [C09] the elements in order between brackets are appended : implies(!isnil(json) && haveTextA(obj(self), 0), isnil(r0) && *json == cat(old(*json), textA(obj(self))))
  loop 0 invariant [C09] written so far : implies(haveTextA(obj(self), 0), haveTextA(obj(self), iter_) && len(loopvar("[]error")) == 0 && *json == cat(old(*json), "[", bodyA(obj(self), iter_), ite(0 < iter_ && iter_ < G_n(self), ",", "")))
