// ---- Map: reading the array under a key whole


%each $T in (Int) (Int8) (Int16) (Int32) (Int64) (UInt) (UInt8) (UInt16) (UInt32) (UInt64) (String) (Bool) (Float32) (Float64)
method Map.GetArrayOf$T(s)
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06,C07] nil reads as nil without error : implies(vnil(mc(self, s)), isnil(r0) && isnil(r1))
  ensures [C06,C07] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(mc(self, s)))
  ensures [C07] no array is refused : implies(!vnil(mc(self, s)) && !arrkind(mc(self, s)), !isnil(r1))
  ensures [C07] as many as elements and each what its single read gives : implies(arrkind(mc(self, s)) && isnil(r1), !isnil(r0) && len(*r0) == G_n(array(arrid(mc(self, s)))) && forall(i, int, implies(0 <= i && i < G_n(array(arrid(mc(self, s)))), one_$T(G_e(array(arrid(mc(self, s))), i), (*r0)[i]))))
  ensures [C07] refused only when an element is : implies(arrkind(mc(self, s)) && !isnil(r1), exists(i, int, 0 <= i && i < G_n(array(arrid(mc(self, s)))) && bad_$T(G_e(array(arrid(mc(self, s))), i))))
%end
%each $T in (Float32) (Float64) (Bool)
method Map.GetArrayOf$TValue(s)
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C07] no array is refused : implies(!vnil(mc(self, s)) && !arrkind(mc(self, s)), !isnil(r1))
  ensures [C07] as many as elements and each what its single read gives : implies(arrkind(mc(self, s)) && isnil(r1), len(r0) == G_n(array(arrid(mc(self, s)))) && forall(i, int, implies(0 <= i && i < G_n(array(arrid(mc(self, s)))), one_$TValue(G_e(array(arrid(mc(self, s))), i), r0[i]))))
  ensures [C07] refused only when an element is : implies(arrkind(mc(self, s)) && !isnil(r1), exists(i, int, 0 <= i && i < G_n(array(arrid(mc(self, s)))) && bad_$TValue(G_e(array(arrid(mc(self, s))), i))))
%end
