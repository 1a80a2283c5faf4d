// ---- Array: a bounds-checked sequence

def sameto(a, n) = forall(i, int, implies(0 <= i && i < n, G_e(a, i) == old(G_e(a, i))))

func NewArray()
  new r0
  ensures empty : G_n(r0) == 0
func NewArrayValue()
  new r0
  ensures empty : G_n(r0) == 0

method Array.Len()
  also [C04]
  ensures the number of elements : r0 == G_n(self)

%each $M in (String) (StringValue) (Bool) (BoolValue) (Float32) (Float32Value) (Float64) (Float64Value) (Int) (IntValue) (Int8) (Int8Value) (Int16) (Int16Value) (Int32) (Int32Value) (Int64) (Int64Value) (UInt) (UIntValue) (UInt8) (UInt8Value) (UInt16) (UInt16Value) (UInt32) (UInt32Value) (UInt64) (UInt64Value) (Map) (MapValue) (Array) (ArrayValue)
method Array.Append$M(value)
  also [C04]
  modifies self
  ensures one more element : G_n(self) == old(G_n(self)) + 1
  ensures the others stay : sameto(self, old(G_n(self)))
  ensures the last holds what was given : fresh(G_e(self, old(G_n(self)))) && fresh(obj(G_e(self, old(G_n(self))))) && G_v(G_e(self, old(G_n(self)))) == boxof(value)
  ensures [C13] a new one : made(obj(G_e(self, old(G_n(self))))) && madeplace(G_v(G_e(self, old(G_n(self)))))
%end
method Array.AppendNil()
  also [C04]
  modifies self
  ensures one more element : G_n(self) == old(G_n(self)) + 1
  ensures the others stay : sameto(self, old(G_n(self)))
  ensures the last holds nil : fresh(G_e(self, old(G_n(self)))) && fresh(obj(G_e(self, old(G_n(self))))) && isnil(G_v(G_e(self, old(G_n(self)))))
  ensures [C13] a new one : made(obj(G_e(self, old(G_n(self))))) && madeplace(G_v(G_e(self, old(G_n(self)))))
method Array.AppendValue(value)
  also [C04]
  modifies self
  ensures one more element : G_n(self) == old(G_n(self)) + 1
  ensures the others stay : sameto(self, old(G_n(self)))
  ensures the last is what was given : G_e(self, old(G_n(self))) == value
method Array.AppendValueValue(value)
  also [C04]
  modifies self
  ensures one more element : G_n(self) == old(G_n(self)) + 1
  ensures the others stay : sameto(self, old(G_n(self)))
  ensures the last is what was given : obj(G_e(self, old(G_n(self)))) == obj(value)

method Array.SetValueAtIndex(index, value)
  also [C04]
  modifies self
  ensures in range or refused : r0 == (0 <= index && index < old(G_n(self))) && isnil(r1) == r0
  ensures the length stays : G_n(self) == old(G_n(self))
  ensures the others stay : forall(i, int, implies(0 <= i && i < G_n(self) && i != index, G_e(self, i) == old(G_e(self, i))))
  ensures the element is replaced : implies(r0, G_e(self, index) == value)
method Array.RemoveValueAtIndex(index)
  also [C04]
  modifies self
  ensures in range or refused : r0 == (0 <= index && index < old(G_n(self))) && isnil(r1) == r0
  ensures refused leaves all : implies(!r0, G_n(self) == old(G_n(self)) && sameto(self, G_n(self)))
  ensures one less : implies(r0, G_n(self) == old(G_n(self)) - 1)
  ensures those before stay : implies(r0, sameto(self, index))
  ensures those after move down : implies(r0, forall(i, int, implies(index <= i && i < G_n(self), G_e(self, i) == old(G_e(self, i+1)))))
method Array.GetValues()
  also [C04]
  ensures the elements : !isnil(r0) && len(*r0) == G_n(self) && forall(i, int, implies(0 <= i && i < G_n(self), (*r0)[i] == G_e(self, i)))
