// ---- cloning

// b is the object that a call of Clone on object a returned; okclone: the call succeeds (while a is not changed)
%each $K in (V) (M) (A)
fun cloned$K(int, int) bool
fun okclone$K(int) bool
%end
def scalar(v) = vnil(v) || intkind(v) || strkind(v) || boolkind(v) || floatkind(v) || timekind(v) || tagin(v, "[]error", "*error", "*errors.errorString")
// a pointer in a clone points to something new
def newptr(v) = implies(tagin(v, "*string", "*bool", "*float32", "*float64", "*int", "*int8", "*int16", "*int32", "*int64", "*uint", "*uint8", "*uint16", "*uint32", "*uint64", "*error", "*time.Time", "*json.Map", "*json.Array"), asR(v) != 0 && fresh(asR(v)))
// content w is a copy of content u
def copyof(u, w) = newptr(w) \
  && implies(vnil(u), isnil(w)) && implies(!vnil(u), !isnil(w)) \
  && implies(intkind(u), intkind(w) && tag(w) == tag(u) && intof(w) == intof(u)) \
  && implies(strkind(u), strkind(w) && tag(w) == tag(u) && strof(w) == strof(u)) \
  && implies(boolkind(u), boolkind(w) && tag(w) == tag(u) && boolof(w) == boolof(u)) \
  && implies(floatkind(u), floatkind(w) && tag(w) == tag(u) && floatof(w) == floatof(u)) \
  && implies(timekind(u), timekind(w) && timeof(w) == timeof(u)) \
  && implies(tagis(u, "*errors.errorString") && !vnil(u), tagis(w, "*error") && errmsg(at(asR(w), "error")) == errmsg(u)) \
  && implies(tagis(u, "*error") && !vnil(u), tagis(w, "*error") && isnil(at(asR(w), "error")) == isnil(at(asR(u), "error")) && implies(!isnil(at(asR(u), "error")), errmsg(at(asR(w), "error")) == errmsg(at(asR(u), "error")))) \
  && implies(mapkind(u), mapkind(w) && fresh(mapid(w)) && clonedM(mapid(u), mapid(w))) \
  && implies(arrkind(u), arrkind(w) && fresh(arrid(w)) && clonedA(arrid(u), arrid(w)))
def clonable(u) = scalar(u) || mapkind(u) && okcloneM(mapid(u)) || arrkind(u) && okcloneA(arrid(u))
// entry d is a clone of entry e
def copyofentry(e, d) = !isnil(d) && fresh(d) && fresh(obj(d)) && ite(isnil(e), isnil(G_v(d)), copyof(G_v(e), G_v(d)))
def clonableentry(e) = isnil(e) || ite(mapkind(G_v(e)), okcloneM(mapid(G_v(e))), ite(arrkind(G_v(e)), okcloneA(arrid(G_v(e))), okcloneV(obj(e))))

method Value.Clone()
  flag errmsg
  assumes [C08] the outcome names the clone : implies(isnil(r1), clonedV(obj(self), obj(r0))) && isnil(r1) == okcloneV(obj(self))
  maynew r0
  ensures errs : errs(r1)
  ensures [C19] exclusive : isnil(r0) == !isnil(r1)
  ensures [C08] the clone is a new object : implies(isnil(r1), !isnil(r0) && fresh(r0) && fresh(obj(r0)))
  ensures [C08] with a copy of the content : implies(isnil(r1), copyof(G_v(self), G_v(r0)))
  ensures [C08] every content of the supported kinds is cloned : implies(clonable(G_v(self)), isnil(r1))

method Array.Clone()
  flag closed
  assumes [C08] the outcome names the clone : implies(isnil(r1), clonedA(obj(self), obj(r0))) && isnil(r1) == okcloneA(obj(self))
  maynew r0
  ensures errs : errs(r1)
  ensures [C19] exclusive : isnil(r0) == !isnil(r1)
  ensures [C08] the clone is a new object : implies(isnil(r1), !isnil(r0) && fresh(r0) && fresh(obj(r0)))
  shows [C08] every element is cloned in order : implies(isnil(r1), G_n(r0) == G_n(self) && forall(i, int, implies(0 <= i && i < G_n(self), copyofentry(G_e(self, i), G_e(r0, i)))))
  shows [C08] refused only when an element is : implies(!isnil(r1), exists(i, int, 0 <= i && i < G_n(self) && !clonableentry(G_e(self, i))))
  loop 0 invariant [C08] cloned so far : implies(len(loopvar("[]error")) == 0, G_n(local("*json.Array")) == iter_ && forall(i, int, implies(0 <= i && i < iter_, copyofentry(G_e(self, i), G_e(local("*json.Array"), i)))))
  loop 0 invariant [C08] a refused element : implies(len(loopvar("[]error")) > 0, exists(i, int, 0 <= i && i < iter_ && !clonableentry(G_e(self, i))))

method Map.Clone()
  flag closed
  assumes [C08] the outcome names the clone : implies(isnil(r1), clonedM(obj(self), obj(r0))) && isnil(r1) == okcloneM(obj(self))
  maynew r0
  ensures errs : errs(r1)
  ensures [C19] exclusive : isnil(r0) == !isnil(r1)
  ensures [C08] the clone is a new object : implies(isnil(r1), !isnil(r0) && fresh(r0) && fresh(obj(r0)))
  shows [C08] the same keys in the same order : implies(isnil(r1), G_n(r0) == G_n(self) && forall(i, int, implies(0 <= i && i < G_n(self), G_k(r0, i) == G_k(self, i))))
  shows [C08] every entry is cloned : implies(isnil(r1), forall(s, str, G_h(r0, s) == G_h(self, s) && implies(G_h(self, s), copyofentry(G_v(self, s), G_v(r0, s)))))
  shows [C08] refused only when an entry is : implies(!isnil(r1), exists(s, str, G_h(self, s) && !clonableentry(G_v(self, s))))
  loop 0 invariant [C08] as many keys so far : implies(len(loopvar("[]error")) == 0, G_n(local("*json.Map")) == iter_ && forall(i, int, implies(0 <= i && i < iter_, G_k(local("*json.Map"), i) == G_k(self, i))))
  loop 0 invariant [C08] cloned so far : implies(len(loopvar("[]error")) == 0, forall(s, str, G_h(local("*json.Map"), s) == (G_h(self, s) && G_x(self, s) < iter_) && implies(G_h(self, s) && G_x(self, s) < iter_, copyofentry(G_v(self, s), G_v(local("*json.Map"), s)))))
  loop 0 invariant [C08] a refused entry : implies(len(loopvar("[]error")) > 0, exists(s, str, G_h(self, s) && G_x(self, s) < iter_ && !clonableentry(G_v(self, s))))
