%map
// ---- Value: integer reads

%each $T $t $LO $HI $M in (Int64|int64|-9223372036854775808|9223372036854775807|) (Int32|int32|-2147483648|2147483647|) (Int16|int16|-32768|32767|) (Int8|int8|-128|127|) (Int|int|-9223372036854775808|9223372036854775807|,C11,C12,C13,C18)
method Value.Get$T()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_Get$T(obj(self)) && implies(isnil(r1), isnil(r0) == nil_Get$T(obj(self)) && implies(!isnil(r0), *r0 == val_Get$T(obj(self))))
  maynew r0
  ensures errs : errs(r1)
  ensures [C19$M] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)) || nested(G_v(self)))
  ensures [C01,C05] an integer is read exactly : implies(!isnil(r0) && intkind(G_v(self)), *r0 == intof(G_v(self)))
  ensures [C01] text is read as the integer it denotes : implies(!isnil(r0) && strkind(G_v(self)), isint(strof(G_v(self))) && *r0 == intval(strof(G_v(self))))
  ensures [C01,C05$M] an integer in range is read : implies(intkind(G_v(self)) && $LO <= intof(G_v(self)) && intof(G_v(self)) <= $HI, !isnil(r0))
  ensures [C01] an integer out of range is refused : implies(intkind(G_v(self)) && !($LO <= intof(G_v(self)) && intof(G_v(self)) <= $HI), !isnil(r1))
  ensures [C01] other content is refused : implies(!isnil(r0), intkind(G_v(self)) || strkind(G_v(self)) || nested(G_v(self)))

method Value.Get$TValue()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_Get$TValue(obj(self)) && implies(isnil(r1), r0 == val_Get$TValue(obj(self)))
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), r0 == 0)
  ensures [C06] nil is refused : implies(vnil(G_v(self)), !isnil(r1))
  ensures [C01,C05] an integer is read exactly : implies(isnil(r1) && intkind(G_v(self)), r0 == intof(G_v(self)))
  ensures [C01] text is read as the integer it denotes : implies(isnil(r1) && strkind(G_v(self)), isint(strof(G_v(self))) && r0 == intval(strof(G_v(self))))
  ensures [C01,C05$M] an integer in range is read : implies(intkind(G_v(self)) && $LO <= intof(G_v(self)) && intof(G_v(self)) <= $HI, isnil(r1))
  ensures [C01] an integer out of range is refused : implies(intkind(G_v(self)) && !($LO <= intof(G_v(self)) && intof(G_v(self)) <= $HI), !isnil(r1))
  ensures [C01] other content is refused : implies(isnil(r1), intkind(G_v(self)) || strkind(G_v(self)) || nested(G_v(self)))
%end

%each $T $HI $M in (UInt64|18446744073709551615|) (UInt32|4294967295|) (UInt16|65535|) (UInt8|255|) (UInt|18446744073709551615|)
method Value.Get$T()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_Get$T(obj(self)) && implies(isnil(r1), isnil(r0) == nil_Get$T(obj(self)) && implies(!isnil(r0), *r0 == val_Get$T(obj(self))))
  maynew r0
  ensures errs : errs(r1)
  ensures [C19$M] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil and the text NULL read as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)) || nested(G_v(self)) || strkind(G_v(self)) && strof(G_v(self)) == "NULL")
  ensures [C01,C05] an integer is read exactly : implies(!isnil(r0) && intkind(G_v(self)), *r0 == intof(G_v(self)))
  ensures [C01] text is read as the integer it denotes : implies(!isnil(r0) && strkind(G_v(self)), isuint(strof(G_v(self))) && *r0 == intval(strof(G_v(self))))
  ensures [C01,C05$M] an integer in range is read : implies(intkind(G_v(self)) && 0 <= intof(G_v(self)) && intof(G_v(self)) <= $HI, !isnil(r0))
  ensures [C01] text of an integer in range is read : implies(strkind(G_v(self)) && isuint(strof(G_v(self))) && 0 <= intval(strof(G_v(self))) && intval(strof(G_v(self))) <= $HI, !isnil(r0))
  ensures [C01] an integer out of range is refused : implies(intkind(G_v(self)) && !(0 <= intof(G_v(self)) && intof(G_v(self)) <= $HI), !isnil(r1))
  ensures [C01] other content is refused : implies(!isnil(r0), intkind(G_v(self)) || strkind(G_v(self)) || nested(G_v(self)))

method Value.Get$TValue()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_Get$TValue(obj(self)) && implies(isnil(r1), r0 == val_Get$TValue(obj(self)))
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), r0 == 0)
  ensures [C06] nil is refused : implies(vnil(G_v(self)), !isnil(r1))
  ensures [C01,C05] an integer is read exactly : implies(isnil(r1) && intkind(G_v(self)), r0 == intof(G_v(self)))
  ensures [C01] text is read as the integer it denotes : implies(isnil(r1) && strkind(G_v(self)), isuint(strof(G_v(self))) && r0 == intval(strof(G_v(self))))
  ensures [C01,C05$M] an integer in range is read : implies(intkind(G_v(self)) && 0 <= intof(G_v(self)) && intof(G_v(self)) <= $HI, isnil(r1))
  ensures [C01] text of an integer in range is read : implies(strkind(G_v(self)) && isuint(strof(G_v(self))) && 0 <= intval(strof(G_v(self))) && intval(strof(G_v(self))) <= $HI, isnil(r1))
  ensures [C01] an integer out of range is refused : implies(intkind(G_v(self)) && !(0 <= intof(G_v(self)) && intof(G_v(self)) <= $HI), !isnil(r1))
  ensures [C01] other content is refused : implies(isnil(r1), intkind(G_v(self)) || strkind(G_v(self)) || nested(G_v(self)))
%end

// ---- Value: type tests

// content of one kind, by value or by a pointer that is not nil
method Value.IsString()
  ensures [C16] string test : r0 == strkind(G_v(self)) || (tagis(G_v(self), "*string") && vnil(G_v(self)))
  ensures [C16] never for other content : implies(r0, tagin(G_v(self), "string", "*string"))
%each $T $t in (Map|json.Map) (Array|json.Array)
method Value.Is$T()
  also [C16]
  ensures type test : r0 == (tagin(G_v(self), "$t", "*$t") && !vnil(G_v(self)))
%end
%each $T $t in (Bool|bool) (Float32|float32) (Float64|float64) (Int8|int8) (Int16|int16) (Int32|int32) (Int64|int64) (UInt8|uint8) (UInt16|uint16) (UInt32|uint32) (UInt64|uint64)
method Value.Is$T()
  ensures [C16] type test : r0 == (tagin(G_v(self), "$t", "*$t") && !vnil(G_v(self)))
%end
method Value.IsInt()
  ensures [C16] any signed integer : r0 == (isSigned(G_v(self)) && !vnil(G_v(self)))
method Value.IsUInt()
  ensures [C16] any unsigned integer : r0 == (isUnsigned(G_v(self)) && !vnil(G_v(self)))
method Value.IsInteger()
  ensures [C16] any integer : r0 == intkind(G_v(self))
method Value.IsFloat()
  ensures [C16] any floating point number : r0 == floatkind(G_v(self))
method Value.IsBoolTrue()
  ensures [C16] stored true : r0 == (boolkind(G_v(self)) && boolof(G_v(self)))
method Value.IsBoolFalse()
  ensures [C16] stored false : r0 == (boolkind(G_v(self)) && !boolof(G_v(self)))
method Value.GetType()
  also [C16]
  ensures name of the type : r0 == ite(tagis(G_v(self), "string"), "string", gtype(G_v(self)))
method Value.IsEmptyString()
  ensures [C16,C17] empty string : r0 == (strkind(G_v(self)) && strof(G_v(self)) == "")
// ---- Value: booleans, text, floating point

method Value.GetString()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_GetString(obj(self)) && implies(isnil(r1), isnil(r0) == nil_GetString(obj(self)) && implies(!isnil(r0), *r0 == val_GetString(obj(self))))
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
  ensures [C17,C05] text is read as stored : implies(strkind(G_v(self)), !isnil(r0) && *r0 == strof(G_v(self)))
  ensures [C17] other content is refused : implies(!isnil(r0), strkind(G_v(self)))
method Value.GetStringValue()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_GetStringValue(obj(self)) && implies(isnil(r1), r0 == val_GetStringValue(obj(self)))
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), r0 == "")
  ensures [C06] nil is refused : implies(vnil(G_v(self)), !isnil(r1))
  ensures [C17,C05] text is read as stored : implies(strkind(G_v(self)), isnil(r1) && r0 == strof(G_v(self)))
  ensures [C17] other content is refused : implies(isnil(r1), strkind(G_v(self)))
method Value.GetBool()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_GetBool(obj(self)) && implies(isnil(r1), isnil(r0) == nil_GetBool(obj(self)) && implies(!isnil(r0), *r0 == val_GetBool(obj(self))))
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
  ensures [C17,C05] a boolean is read as stored : implies(boolkind(G_v(self)), !isnil(r0) && *r0 == boolof(G_v(self)))
  ensures [C17] text is converted as documented : implies(strkind(G_v(self)), isnil(r0) == !booltext(strof(G_v(self))) && implies(!isnil(r0), *r0 == truetext(strof(G_v(self)))))
  ensures [C17] other content is refused : implies(!isnil(r0), boolkind(G_v(self)) || strkind(G_v(self)))
method Value.GetBoolValue()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_GetBoolValue(obj(self)) && implies(isnil(r1), r0 == val_GetBoolValue(obj(self)))
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), !r0)
  ensures [C06] nil is refused : implies(vnil(G_v(self)), !isnil(r1))
  ensures [C17,C05] a boolean is read as stored : implies(boolkind(G_v(self)), isnil(r1) && r0 == boolof(G_v(self)))
  ensures [C17] text is converted as documented : implies(strkind(G_v(self)), isnil(r1) == booltext(strof(G_v(self))) && implies(isnil(r1), r0 == truetext(strof(G_v(self)))))
  ensures [C17] other content is refused : implies(isnil(r1), boolkind(G_v(self)) || strkind(G_v(self)))
method Value.GetFloat64()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_GetFloat64(obj(self)) && implies(isnil(r1), isnil(r0) == nil_GetFloat64(obj(self)) && implies(!isnil(r0), *r0 == val_GetFloat64(obj(self))))
  maynew r0
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
  ensures [C17,C05] a number is read as stored : implies(floatkind(G_v(self)) || intkind(G_v(self)), !isnil(r0) && *r0 == floatof(G_v(self)))
  ensures [C17] text is read as the number it denotes : implies(strkind(G_v(self)) && !isnil(r0), isf64(strof(G_v(self))) && *r0 == parsef64(strof(G_v(self))))
  ensures [C17] other content is refused : implies(!isnil(r0), floatkind(G_v(self)) || intkind(G_v(self)) || strkind(G_v(self)))
method Value.GetFloat64Value()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_GetFloat64Value(obj(self)) && implies(isnil(r1), r0 == val_GetFloat64Value(obj(self)))
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), r0 == f64zero())
  ensures [C06] nil is refused : implies(vnil(G_v(self)), !isnil(r1))
  ensures [C17,C05] a number is read as stored : implies(floatkind(G_v(self)) || intkind(G_v(self)), isnil(r1) && r0 == floatof(G_v(self)))
  ensures [C17] text is read as the number it denotes : implies(strkind(G_v(self)) && isnil(r1), isf64(strof(G_v(self))) && r0 == parsef64(strof(G_v(self))))
  ensures [C17] other content is refused : implies(isnil(r1), floatkind(G_v(self)) || intkind(G_v(self)) || strkind(G_v(self)))
method Value.GetFloat32()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_GetFloat32(obj(self)) && implies(isnil(r1), isnil(r0) == nil_GetFloat32(obj(self)) && implies(!isnil(r0), *r0 == val_GetFloat32(obj(self))))
  maynew r0
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
  ensures [C17,C05] a number is read to six decimals or refused : implies(floatkind(G_v(self)) || intkind(G_v(self)), isnil(r0) == !isf32(dec6(G_v(self))) && implies(!isnil(r0), *r0 == fconv32(parsef32(dec6(G_v(self))))))
  ensures [C17] text is read to six decimals : implies(strkind(G_v(self)) && !isnil(r0), isf64(strof(G_v(self))) && *r0 == fconv32(parsef32(fmtf64_f(parsef64(strof(G_v(self)))))))
  ensures [C17] other content is refused : implies(!isnil(r0), floatkind(G_v(self)) || intkind(G_v(self)) || strkind(G_v(self)))
method Value.GetFloat32Value()
  assumes [C07] the outcome of a single read is one function of the element : isnil(r1) == ok_GetFloat32Value(obj(self)) && implies(isnil(r1), r0 == val_GetFloat32Value(obj(self)))
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), r0 == f32zero())
  ensures [C06] nil is refused : implies(vnil(G_v(self)), !isnil(r1))
  ensures [C17,C05] a number is read to six decimals or refused : implies(floatkind(G_v(self)) || intkind(G_v(self)), isnil(r1) == isf32(dec6(G_v(self))) && implies(isnil(r1), r0 == fconv32(parsef32(dec6(G_v(self))))))
  ensures [C17] text is read to six decimals : implies(strkind(G_v(self)) && isnil(r1), isf64(strof(G_v(self))) && r0 == fconv32(parsef32(fmtf64_f(parsef64(strof(G_v(self)))))))
  ensures [C17] other content is refused : implies(isnil(r1), floatkind(G_v(self)) || intkind(G_v(self)) || strkind(G_v(self)))


// ---- Value: nested objects, functions, errors, times

%each $T in (Map) (Array)
method Value.Get$T()
  also [C05,C06,C07,C08]
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
  ensures the object stored : implies(tagis(G_v(self), "*json.$T") && !vnil(G_v(self)), isnil(r1) && r0 == asR(G_v(self)))
  ensures a handle of the object stored : implies(tagis(G_v(self), "json.$T"), isnil(r1) && !isnil(r0) && obj(r0) == asR(G_v(self)))
  ensures other content is refused : implies(!isnil(r0), tagin(G_v(self), "json.$T", "*json.$T"))
method Value.Get$TValue()
  also [C05,C06,C07,C08]
  ensures errs : errs(r1)
  ensures nil is refused : implies(vnil(G_v(self)), !isnil(r1))
  ensures the object stored : implies(tagis(G_v(self), "*json.$T") && !vnil(G_v(self)), isnil(r1) && obj(r0) == at(asR(G_v(self)), "json.$T"))
  ensures the object stored by value : implies(tagis(G_v(self), "json.$T"), isnil(r1) && obj(r0) == asR(G_v(self)))
  ensures other content is refused : implies(isnil(r1), tagin(G_v(self), "json.$T", "*json.$T"))
%end
method Value.GetFunc()
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
method Value.GetErrors()
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
method Value.GetRunes()
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
method Value.GetTime()
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
  ensures [C05] a time is read as stored : implies(timekind(G_v(self)), !isnil(r0) && *r0 == timeof(G_v(self)))
method Value.GetTimeWithDecimalPlaces(places)
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), isnil(r0))
  ensures [C06] nil reads as nil without error : implies(vnil(G_v(self)), isnil(r0) && isnil(r1))
  ensures [C06] only nil reads as nil : implies(isnil(r0) && isnil(r1), vnil(G_v(self)))
%end

// ---- Value only
method Value.IsNil()
  also [C16,C06]
  ensures nil test : r0 == vnil(G_v(self))
method Value.IsNumber()
  ensures [C16] any number : r0 == (intkind(G_v(self)) || floatkind(G_v(self)))
method Value.IsValueEqualToString(s)
  ensures [C17] both nil or equal text : r0 == ite(isnil(s), vnil(G_v(self)), strkind(G_v(self)) && strof(G_v(self)) == *s)
method Value.IsValueEqualToStringValue(s)
  ensures [C17] equal text : r0 == (strkind(G_v(self)) && strof(G_v(self)) == s)
method Value.GetTimeValue()
  ensures errs : errs(r1)
  ensures [C06] nil is refused : implies(vnil(G_v(self)), !isnil(r1))
  ensures [C05] a time is read as stored : implies(timekind(G_v(self)), isnil(r1) && r0 == timeof(G_v(self)))
trusted func common.GetTime(v)
  why the dependency copies a time and otherwise tries the formats of the time package
  maynew r0
  ensures errs(r1)
  ensures implies(!isnil(r1), isnil(r0))
  ensures implies(isnil(r0) && isnil(r1), isnil(v))
  ensures implies(timekind(v), !isnil(r0) && *r0 == timeof(v))
trusted func common.GetTimeWithDecimalPlaces(v, places)
  why the dependency tries the formats of the time package
  maynew r0
  ensures errs(r1)
  ensures implies(!isnil(r1), isnil(r0))
  ensures implies(isnil(r0) && isnil(r1), isnil(v))
func ConvertInterfaceValueToStringValue(v)
  also [C18]
  ensures errs : errs(r1)
  ensures [C19] exclusive : implies(!isnil(r1), r0 == "")
  ensures [C05,C07] text is itself : implies(strkind(v), isnil(r1) && r0 == strof(v))
  ensures [C05,C07] an integer in decimal : implies(intkind(v), isnil(r1) && r0 == itoa(intof(v)))
  ensures [C05,C07] a boolean by its name : implies(boolkind(v), isnil(r1) && r0 == ite(boolof(v), "true", "false"))

// ---- construction and storage

// content that is no pointer, or a pointer to something that exists by now
def madeplace(c) = isnil(c) || tagin(c, "string", "bool", "float32", "float64", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64") || made(asR(c))
func NewValue(v)
  new r0
  ensures the value holds what it was given : G_v(r0) == v
func NewValueValue(v)
  new r0
  ensures the value holds what it was given : G_v(r0) == v

method Value.GetObject()
  also [C05]
  ensures the content : r0 == G_v(self)

%each $M in (String) (StringValue) (Bool) (BoolValue) (Float32) (Float32Value) (Float64) (Float64Value) (Int) (IntValue) (Int8) (Int8Value) (Int16) (Int16Value) (Int32) (Int32Value) (Int64) (Int64Value) (UInt) (UIntValue) (UInt8) (UInt8Value) (UInt16) (UInt16Value) (UInt32) (UInt32Value) (UInt64) (UInt64Value) (Time) (TimeValue) (Map) (MapValue) (Array) (ArrayValue) (Errors) (ErrorsValue) (Error)
method Value.Set$M(value)
  also [C05]
  modifies self
  ensures the content is what was given : G_v(self) == boxof(value)
%end
%each $M in (Object) (ErrorValue)
method Value.Set$M(value)
  also [C05]
  modifies self
  ensures the content is what was given : G_v(self) == value
%end
method Value.SetNil()
  also [C05]
  modifies self
  ensures the content is nil : isnil(G_v(self))
