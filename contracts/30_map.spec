// ---- Map: an insertion-ordered dictionary

// the keys in order (n, k), the entries (h, v), the position of each key (x) and the array of values (a) agree
def wf_Map(m) = 0 <= G_n(m) \
  && forall(i, int, implies(0 <= i && i < G_n(m), G_h(m, G_k(m, i)) && G_x(m, G_k(m, i)) == i), G_k(m, i)) \
  && forall(s, str, implies(G_h(m, s), 0 <= G_x(m, s) && G_x(m, s) < G_n(m) && G_k(m, G_x(m, s)) == s), G_h(m, s)) \
  && G_n(G_a(m)) == G_n(m) \
  && forall(i, int, implies(0 <= i && i < G_n(m), G_e(G_a(m), i) == G_v(m, G_k(m, i))), G_k(m, i))

// what one assignment to key s does to the dictionary, apart from the value itself
def put(m, s) = G_h(m, s) \
  && forall(t, str, implies(t != s, G_h(m, t) == old(G_h(m, t)) && G_v(m, t) == old(G_v(m, t)))) \
  && G_n(m) == old(G_n(m)) + ite(old(G_h(m, s)), 0, 1) \
  && forall(i, int, implies(0 <= i && i < old(G_n(m)), G_k(m, i) == old(G_k(m, i)))) \
  && implies(!old(G_h(m, s)), G_k(m, old(G_n(m))) == s)

// content c is, or points to, the given value of the named type
def hasI(c, x) = intkind(c) && intof(c) == x

func NewMap()
  new r0
  ensures empty : G_n(r0) == 0 && forall(s, str, !G_h(r0, s))
  ensures a list of values of its own : fresh(G_a(r0))
func NewMapValue()
  new r0
  ensures empty : G_n(r0) == 0 && forall(s, str, !G_h(r0, s))
  ensures a list of values of its own : fresh(G_a(r0))

%each $M in (String) (Bool) (Float32) (Float64) (Int) (Int8) (Int16) (Int32) (Int64) (UInt) (UInt8) (UInt16) (UInt32) (UInt64) (Time) (Map) (Array) (Errors) (Func)
method Map.Set$M(s, value)
  also [C03,C05]
  modifies self
  witness MX(k) = ite(!old(G_h(self, s)) && k == s, old(G_n(self)), old(G_x(self, k)))
  ensures one entry is assigned, the order of keys stays and a new key comes last : put(self, s)
  ensures the entry holds what was given : fresh(G_v(self, s)) && fresh(obj(G_v(self, s))) && G_v(G_v(self, s)) == boxof(value)
  ensures [C13] a new one : made(obj(G_v(self, s))) && madeplace(G_v(G_v(self, s)))
%end
%each $M $T in (Int|int) (Int8|int8) (Int16|int16) (Int32|int32) (Int64|int64) (UInt|uint) (UInt8|uint8) (UInt16|uint16) (UInt32|uint32) (UInt64|uint64)
method Map.Set$MValue(s, value)
  also [C03,C05]
  modifies self
  witness MX(k) = ite(!old(G_h(self, s)) && k == s, old(G_n(self)), old(G_x(self, k)))
  ensures one entry is assigned, the order of keys stays and a new key comes last : put(self, s)
  ensures the entry holds what was given : fresh(G_v(self, s)) && fresh(obj(G_v(self, s))) && tagin(G_v(G_v(self, s)), "$T", "*$T") && hasI(G_v(G_v(self, s)), value)
  ensures [C13] a new one : made(obj(G_v(self, s))) && madeplace(G_v(G_v(self, s)))
  ensures [C13] in a place of its own : implies(tagis(G_v(G_v(self, s)), "*$T"), fresh(asR(G_v(G_v(self, s)))))
%end
%each $M $T $A in (String|string|asS) (Bool|bool|asB) (Float32|float32|asF) (Float64|float64|asD)
method Map.Set$MValue(s, value)
  also [C03,C05]
  modifies self
  witness MX(k) = ite(!old(G_h(self, s)) && k == s, old(G_n(self)), old(G_x(self, k)))
  ensures one entry is assigned, the order of keys stays and a new key comes last : put(self, s)
  ensures the entry holds what was given : fresh(G_v(self, s)) && fresh(obj(G_v(self, s))) && (tagis(G_v(G_v(self, s)), "$T") && $A(G_v(G_v(self, s))) == value || tagis(G_v(G_v(self, s)), "*$T") && asR(G_v(G_v(self, s))) != 0 && at(asR(G_v(G_v(self, s))), "$T") == value)
  ensures [C13] a new one : made(obj(G_v(self, s))) && madeplace(G_v(G_v(self, s)))
%end
%each $M in (Map) (Array)
method Map.Set$MValue(s, value)
  also [C03,C05]
  modifies self
  witness MX(k) = ite(!old(G_h(self, s)) && k == s, old(G_n(self)), old(G_x(self, k)))
  ensures one entry is assigned, the order of keys stays and a new key comes last : put(self, s)
  ensures the entry holds what was given : fresh(G_v(self, s)) && fresh(obj(G_v(self, s))) && (tagis(G_v(G_v(self, s)), "json.$M") && asR(G_v(G_v(self, s))) == obj(value) || tagis(G_v(G_v(self, s)), "*json.$M") && asR(G_v(G_v(self, s))) != 0 && at(asR(G_v(G_v(self, s))), "json.$M") == obj(value))
  ensures [C13] a new one : made(obj(G_v(self, s))) && madeplace(G_v(G_v(self, s)))
%end
method Map.SetNil(s)
  also [C03,C05]
  modifies self
  witness MX(k) = ite(!old(G_h(self, s)) && k == s, old(G_n(self)), old(G_x(self, k)))
  ensures one entry is assigned, the order of keys stays and a new key comes last : put(self, s)
  ensures the entry holds nil : fresh(G_v(self, s)) && fresh(obj(G_v(self, s))) && isnil(G_v(G_v(self, s)))
  ensures [C13] a new one : made(obj(G_v(self, s))) && madeplace(G_v(G_v(self, s)))
method Map.SetObjectForMap(s, value)
  also [C03,C05]
  modifies self
  witness MX(k) = ite(!old(G_h(self, s)) && k == s, old(G_n(self)), old(G_x(self, k)))
  ensures one entry is assigned, the order of keys stays and a new key comes last : put(self, s)
  ensures the entry holds what was given : fresh(G_v(self, s)) && fresh(obj(G_v(self, s))) && G_v(G_v(self, s)) == value
method Map.SetValue(s, value)
  also [C03,C05]
  modifies self
  witness MX(k) = ite(!old(G_h(self, s)) && k == s, old(G_n(self)), old(G_x(self, k)))
  ensures one entry is assigned, the order of keys stays and a new key comes last : put(self, s)
  ensures the entry is what was given : G_v(self, s) == value

method Map.RemoveKey(s)
  also [C03]
  modifies self
  witness MX(k) = ite(old(G_h(self, s)) && old(G_x(self, k)) > old(G_x(self, s)), old(G_x(self, k)) - 1, old(G_x(self, k)))
  ensures a present key is removed, an absent one refused : r0 == old(G_h(self, s)) && isnil(r1) == r0
  ensures the entry is gone : !G_h(self, s)
  ensures the other entries stay : forall(t, str, implies(t != s, G_h(self, t) == old(G_h(self, t)) && G_v(self, t) == old(G_v(self, t))))
  ensures the number of keys : G_n(self) == old(G_n(self)) - ite(r0, 1, 0)
  ensures the keys before it stay : forall(i, int, implies(0 <= i && i < G_n(self) && (!r0 || i < old(G_x(self, s))), G_k(self, i) == old(G_k(self, i))))
  ensures the keys after it move up : implies(r0, forall(i, int, implies(old(G_x(self, s)) <= i && i < G_n(self), G_k(self, i) == old(G_k(self, i+1)))))
method Map.HasKey(s)
  also [C03]
  ensures has key : r0 == G_h(self, s)
method Map.GetValue(s)
  also [C03]
  ensures the entry or nil : r0 == ite(G_h(self, s), G_v(self, s), nil)
method Map.GetKeys()
  also [C03]
  ensures the keys in order : len(r0) == G_n(self) && forall(i, int, implies(0 <= i && i < G_n(self), r0[i] == G_k(self, i)))
  ensures a copy : len(r0) == 0 || fresh(base(r0))
method Map.Values()
  also [C03]
  ensures the values in order : !isnil(r0) && G_n(r0) == G_n(self) && forall(i, int, implies(0 <= i && i < G_n(self), G_e(r0, i) == G_v(self, G_k(self, i))))
method Map.IsNull(s)
  ensures [C16,C06] nil test : r0 == vnil(mc(self, s))
method Map.GetObjectForMap(s)
  ensures [C03,C05,C06] the content, nothing when there is none : r0 == ite(vnil(mc(self, s)), inil(), mc(self, s))
method Map.IsNil()
  ensures [C16] a map with entries is not nil : implies(G_n(self) > 0, !r0)
