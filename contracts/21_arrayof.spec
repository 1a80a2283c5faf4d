// ---- Array: reading it whole

// x is what the single read of element e gives (nil for an element that is no value)
%each $T in (Int) (Int8) (Int16) (Int32) (Int64) (UInt) (UInt8) (UInt16) (UInt32) (UInt64) (String) (Bool) (Float32) (Float64)
def one_$T(e, x) = ite(isnil(e), isnil(x), ok_Get$T(obj(e)) && isnil(x) == nil_Get$T(obj(e)) && implies(!isnil(x), *x == val_Get$T(obj(e))))
def bad_$T(e) = !isnil(e) && !ok_Get$T(obj(e))
def one_$TValue(e, x) = !isnil(e) && ok_Get$TValue(obj(e)) && x == val_Get$TValue(obj(e))
def bad_$TValue(e) = isnil(e) || !ok_Get$TValue(obj(e))
%end

%each $T $G in (Int|int) (Int8|int8) (Int16|int16) (Int32|int32) (Int64|int64) (UInt|uint) (UInt8|uint8) (UInt16|uint16) (UInt32|uint32) (UInt64|uint64) (String|string) (Bool|bool) (Float32|float32) (Float64|float64)
method Array.GetArrayOf$T()
  ensures errs : errs(r1)
  ensures [C06,C07] nil elements give nil elements, not a nil list : implies(isnil(r1), !isnil(r0))
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C07] as many as elements and each what its single read gives : implies(isnil(r1), !isnil(r0) && len(*r0) == G_n(self) && forall(i, int, implies(0 <= i && i < G_n(self), one_$T(G_e(self, i), (*r0)[i]))))
  ensures [C07] refused only when an element is : implies(!isnil(r1), exists(i, int, 0 <= i && i < G_n(self) && bad_$T(G_e(self, i))))
  loop 0 invariant [C07] nothing dropped so far : implies(len(loopvar("[]error")) == 0, len(loopvar("[]*$G")) == iter_ && forall(i, int, implies(0 <= i && i < iter_, one_$T(G_e(self, i), loopvar("[]*$G")[i]))))
  loop 0 invariant [C07] a refused element : implies(len(loopvar("[]error")) > 0, exists(i, int, 0 <= i && i < iter_ && bad_$T(G_e(self, i))))
method Array.GetArrayOf$TValue()
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C07] as many as elements and each what its single read gives : implies(isnil(r1), len(r0) == G_n(self) && forall(i, int, implies(0 <= i && i < G_n(self), one_$TValue(G_e(self, i), r0[i]))))
  ensures [C07] refused only when an element is : implies(!isnil(r1), exists(i, int, 0 <= i && i < G_n(self) && bad_$TValue(G_e(self, i))))
  loop 0 invariant [C07] nothing dropped so far : implies(len(loopvar("[]error")) == 0, len(loopvar("[]$G")) == iter_ && forall(i, int, implies(0 <= i && i < iter_, one_$TValue(G_e(self, i), loopvar("[]$G")[i]))))
  loop 0 invariant [C07] a refused element : implies(len(loopvar("[]error")) > 0, exists(i, int, 0 <= i && i < iter_ && bad_$TValue(G_e(self, i))))
%end
