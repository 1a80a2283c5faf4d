// ---- vocabulary shared by all contracts

fun itoa(int) str
fun intval(str) int
fun isint(str) bool
fun isuint(str) bool
fun isf64(str) bool
fun isf32(str) bool
fun parsef64(str) f64
fun parsef32(str) f64
fun fmtf64_f(f64) str
fun fmtf32_f(f32) str
// the text of an unsigned integer starts with a digit, that of an integer with a digit or a sign
axiom digits(s str) {isuint(s)} for isuint : implies(isuint(s), len(s) > 0 && 48 <= s[0] && s[0] <= 57)

// library tests of texts: contains, count and the positions white space is trimmed to
fun scontains(str, str) bool
fun scount(str, str) int
fun triml(str) int
fun trimr(str) int
def trim(s) = s[triml(s):trimr(s)]
axiom trims(s str) {triml(s)} for triml : 0 <= triml(s) && triml(s) <= trimr(s) && trimr(s) <= len(s)
// a text that starts and ends with a visible character has no white space around it
def visible(b) = 33 <= b && b <= 126
axiom trimmed(s str) {triml(s)} for triml : implies(len(s) > 0 && visible(s[0]) && visible(s[len(s)-1]), triml(s) == 0 && trimr(s) == len(s))
axiom hasnone(s str) {scontains(s, "\"")} for scontains : implies(len(s) == 0, !scontains(s, "\""))
axiom hasit(s str) {scontains(s, "\"")} for scontains : implies(len(s) > 0 && s[0] == 34, scontains(s, "\""))
axiom counts(s str, t str) {scount(s, t)} for scount : 0 <= scount(s, t)
axiom noquotes(s str) {isint(s), scontains(s, "\"")} for scontains : implies(isint(s), !scontains(s, "\""))
axiom nopoint(s str) {isint(s), scount(s, ".")} for scount : implies(isint(s), scount(s, ".") == 0)
axiom onesign(s str) {isint(s), scount(s, "-")} for scount : implies(isint(s), scount(s, "-") == ite(s[0] == 45, 1, 0))
axiom unsigned(s str) {isuint(s)} for isuint : implies(isuint(s), isint(s) && s[0] != 45 && intval(s) >= 0)
axiom negative(s str) {isint(s)} for isint : implies(isint(s) && s[0] == 45, intval(s) <= 0)

// what the nil test of the library says about the content of a Value
def vnil(v) = !tagis(v, "string") && nilish(v)

// kinds of content
def isI(v) = tagin(v, "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64")
def isPI(v) = tagin(v, "*int", "*int8", "*int16", "*int32", "*int64", "*uint", "*uint8", "*uint16", "*uint32", "*uint64")
def isSigned(v) = tagin(v, "int", "int8", "int16", "int32", "int64", "*int", "*int8", "*int16", "*int32", "*int64")
def isUnsigned(v) = tagin(v, "uint", "uint8", "uint16", "uint32", "uint64", "*uint", "*uint8", "*uint16", "*uint32", "*uint64")
def intkind(v) = (isI(v) || isPI(v)) && !vnil(v)
def strkind(v) = tagin(v, "string", "*string") && !vnil(v)
def nested(v) = tagin(v, "json.Value", "*json.Value")

// what the entry under a key of a map holds: nothing when the key is absent
def mc(m, s) = ite(G_h(m, s) && G_v(m, s) != 0, G_v(G_v(m, s)), inil())
def strof(v) = ite(tagis(v, "string"), asS(v), at(asR(v), "string"))
def pint(v) = ite(tagis(v, "*int"), at(asR(v), "int"), ite(tagis(v, "*int8"), at(asR(v), "int8"), ite(tagis(v, "*int16"), at(asR(v), "int16"), \
  ite(tagis(v, "*int32"), at(asR(v), "int32"), ite(tagis(v, "*int64"), at(asR(v), "int64"), ite(tagis(v, "*uint"), at(asR(v), "uint"), \
  ite(tagis(v, "*uint8"), at(asR(v), "uint8"), ite(tagis(v, "*uint16"), at(asR(v), "uint16"), ite(tagis(v, "*uint32"), at(asR(v), "uint32"), at(asR(v), "uint64"))))))))))
// the integer an integer content denotes
def intof(v) = ite(isI(v), asI(v), pint(v))

def floatkind(v) = tagin(v, "float32", "float64", "*float32", "*float64") && !vnil(v)
def boolkind(v) = tagin(v, "bool", "*bool") && !vnil(v)
def boolof(v) = ite(tagis(v, "bool"), asB(v), at(asR(v), "bool"))
def booltext(s) = s == "1" || s == "true" || s == "0" || s == "false"
def truetext(s) = s == "1" || s == "true"
// the double precision number a number content denotes, and its text with six decimals
def floatof(v) = ite(tagis(v, "float64"), asD(v), ite(tagis(v, "*float64"), at(asR(v), "float64"), ite(tagis(v, "float32"), fconv(asF(v)), ite(tagis(v, "*float32"), fconv(at(asR(v), "float32")), fofint(intof(v))))))
def dec6(v) = fmtf64_f(floatof(v))

def timekind(v) = tagin(v, "time.Time", "*time.Time") && !vnil(v)
def timeof(v) = ite(tagis(v, "time.Time"), asI(v), at(asR(v), "time.Time"))

// nested maps and arrays, and their identity
def mapkind(v) = tagin(v, "json.Map", "*json.Map") && !vnil(v)
def mapid(v) = ite(tagis(v, "json.Map"), asR(v), at(asR(v), "json.Map"))
def arrid(v) = ite(tagis(v, "json.Array"), asR(v), at(asR(v), "json.Array"))
def arrkind(v) = tagin(v, "json.Array", "*json.Array") && !vnil(v)

// errors are reported as a nil slice or a non-empty one
def errs(r) = isnil(r) == (len(r) == 0)

// ---- the outcome of a single typed read of an element, as one unknown function of the element (reading has no effect and
// no input besides the element, so it is one): accepted or refused, nil or not, and the result
%each $T in (Int) (Int8) (Int16) (Int32) (Int64) (UInt) (UInt8) (UInt16) (UInt32) (UInt64)
fun ok_Get$T(int) bool
fun nil_Get$T(int) bool
fun val_Get$T(int) int
fun ok_Get$TValue(int) bool
fun val_Get$TValue(int) int
%end
%each $T $S in (String|str) (Bool|bool) (Float32|f32) (Float64|f64)
fun ok_Get$T(int) bool
fun nil_Get$T(int) bool
fun val_Get$T(int) $S
fun ok_Get$TValue(int) bool
fun val_Get$TValue(int) $S
%end


// every contract without an effect on its own object is part of C15 (the parser reads a text, nothing else), every contract at all of C18
all C15 reads but Parse parseJSONMap parseJSONValue
all C18
