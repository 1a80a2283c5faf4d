package main

import (
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

var intNames = []string{"Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64"}
var intTypes = map[string]reflect.Type{
	"Int": reflect.TypeOf(int(0)), "Int8": reflect.TypeOf(int8(0)), "Int16": reflect.TypeOf(int16(0)), "Int32": reflect.TypeOf(int32(0)), "Int64": reflect.TypeOf(int64(0)),
	"UInt": reflect.TypeOf(uint(0)), "UInt8": reflect.TypeOf(uint8(0)), "UInt16": reflect.TypeOf(uint16(0)), "UInt32": reflect.TypeOf(uint32(0)), "UInt64": reflect.TypeOf(uint64(0)),
}

var edges []*big.Int

func init() {
	for _, b := range []uint{0, 7, 8, 15, 16, 31, 32, 63, 64} {
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Lsh(big.NewInt(1), b)
			v.Add(v, big.NewInt(d))
			edges = append(edges, v, new(big.Int).Neg(v))
		}
	}
}

func typeRange(t reflect.Type) (lo, hi *big.Int) {
	n := uint(t.Bits())
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		hi = new(big.Int).Lsh(big.NewInt(1), n-1)
		lo = new(big.Int).Neg(hi)
		return lo, hi.Sub(hi, big.NewInt(1))
	}
	hi = new(big.Int).Lsh(big.NewInt(1), n)
	return new(big.Int), hi.Sub(hi, big.NewInt(1))
}

func fits(v *big.Int, t reflect.Type) bool {
	lo, hi := typeRange(t)
	return v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0
}

func intIn(v *big.Int, t reflect.Type) reflect.Value {
	r := reflect.New(t).Elem()
	if r.CanInt() {
		r.SetInt(v.Int64())
	} else {
		r.SetUint(v.Uint64())
	}
	return r
}

func bigOf(v reflect.Value) *big.Int {
	if v.CanInt() {
		return big.NewInt(v.Int())
	}
	return new(big.Int).SetUint64(v.Uint())
}

func genInt(r *rand.Rand, t reflect.Type) reflect.Value {
	for {
		var v *big.Int
		switch r.Intn(4) {
		case 0:
			v = big.NewInt(int64(r.Intn(300) - 150))
		case 1:
			v = new(big.Int).SetUint64(r.Uint64())
			if r.Intn(2) == 0 {
				v.Neg(v)
			}
			v.Rsh(v, uint(r.Intn(64)))
		default:
			v = edges[r.Intn(len(edges))]
		}
		if fits(v, t) {
			return intIn(v, t)
		}
	}
}

var someStrings = []string{"", " ", "a", "key", "null", "true", "false", "1", "0", "-1", "5", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.5", "-0.25", "abc", "1e3", "nil", "<nil>", "NULL", "%!s(int=1)", "%d", "100%", "\"", "\\", "\\\"", "a\"b", "\n", "\t\r\b\f", "\x00", "\x1f", "\x7f", "é", "日本", "\U0001F600", "{", "}", "[", "]", ",", ":", "{\"a\":1}", "[1]", "\\u0041", "\\n", "12:30:00", "2020-01-02 03:04:05", "+5", "007", "1_000", "0x10", "<a&b>", "\u2028"}

// near changes a text a little: another case, a byte less or more
func near(r *rand.Rand, s string) string {
	switch r.Intn(5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		if s != "" {
			return strings.ToUpper(s[:1]) + s[1:]
		}
	case 2:
		if s != "" {
			return s[:len(s)-1]
		}
	case 3:
		if s != "" {
			return s[1:]
		}
	}
	return s + string(rune(32+r.Intn(95)))
}

func genString(r *rand.Rand) string {
	if r.Intn(12) == 0 {
		return near(r, []string{"true", "false", "null", "1", "0", "nil", "NULL"}[r.Intn(7)])
	}
	if r.Intn(15) == 0 {
		return near(r, someStrings[r.Intn(len(someStrings))])
	}
	switch r.Intn(5) {
	case 0, 1:
		return someStrings[r.Intn(len(someStrings))]
	case 2:
		return edges[r.Intn(len(edges))].String()
	case 3:
		n := r.Intn(6)
		var rs []rune
		for i := 0; i < n; i++ {
			switch r.Intn(4) {
			case 0:
				rs = append(rs, rune(r.Intn(32)))
			case 1:
				rs = append(rs, []rune("\"\\/{}[],:ub ntrf")[r.Intn(16)])
			case 2:
				rs = append(rs, rune(32+r.Intn(95)))
			default:
				rs = append(rs, []rune("éß日\U0001F600\u2028\ufeff\u00a0")[r.Intn(7)])
			}
		}
		return string(rs)
	}
	return someStrings[r.Intn(len(someStrings))] + someStrings[r.Intn(len(someStrings))]
}

func genFloat64(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return float64(r.Intn(2001)-1000) / 4
	case 1:
		return []float64{0, 1, -1, 0.5, 1e6, -1e-3, 3.402823466e38, -3.402823466e38, 1e300, 123456789.123456}[r.Intn(10)]
	case 2:
		return (r.Float64() - 0.5) * math.Pow(10, float64(r.Intn(12)))
	}
	return float64(r.Intn(100000))
}

func genFloat32(r *rand.Rand) float32 {
	for {
		if f := float32(genFloat64(r)); !math.IsInf(float64(f), 0) {
			return f
		}
	}
}

// genOf makes a value of a type.
func genOf(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	switch t {
	case reflect.TypeOf((*json.Map)(nil)):
		if r.Intn(6) == 0 {
			return reflect.Zero(t)
		}
		return reflect.ValueOf(genMap(r, depth))
	case reflect.TypeOf(json.Map{}):
		return reflect.ValueOf(*genMap(r, depth))
	case reflect.TypeOf((*json.Array)(nil)):
		if r.Intn(6) == 0 {
			return reflect.Zero(t)
		}
		return reflect.ValueOf(genArray(r, depth))
	case reflect.TypeOf(json.Array{}):
		return reflect.ValueOf(*genArray(r, depth))
	case reflect.TypeOf((*json.Value)(nil)):
		return reflect.ValueOf(json.NewValue(genContent(r, depth)))
	case reflect.TypeOf(json.Value{}):
		return reflect.ValueOf(json.NewValueValue(genContent(r, depth)))
	case reflect.TypeOf(time.Time{}):
		return reflect.ValueOf(time.Date(2000+r.Intn(40), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000)*1000, time.UTC))
	case reflect.TypeOf([]error{}):
		n := r.Intn(3)
		es := make([]error, n)
		for i := range es {
			es[i] = errText(genString(r))
		}
		return reflect.ValueOf(es)
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return genInt(r, t)
	case reflect.String:
		return reflect.ValueOf(genString(r))
	case reflect.Bool:
		return reflect.ValueOf(r.Intn(2) == 0)
	case reflect.Float32:
		return reflect.ValueOf(genFloat32(r))
	case reflect.Float64:
		return reflect.ValueOf(genFloat64(r))
	case reflect.Ptr:
		if r.Intn(6) == 0 {
			return reflect.Zero(t)
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(genOf(r, t.Elem(), depth))
		return p
	case reflect.Func:
		return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
			return []reflect.Value{reflect.Zero(reflect.TypeOf([]error{}))}
		})
	case reflect.Interface:
		if t.NumMethod() == 0 {
			v := genContent(r, depth)
			if v == nil {
				return reflect.Zero(t)
			}
			return reflect.ValueOf(v)
		}
		return reflect.ValueOf(errText(genString(r)))
	}
	panic("no generator for " + t.String())
}

type errText string

func (e errText) Error() string { return string(e) }

var scalarTypes = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
}

// genContent makes something a Value can hold.
func genContent(r *rand.Rand, depth int) interface{} {
	k := r.Intn(20)
	switch {
	case k == 0:
		return nil
	case k < 10:
		return genOf(r, scalarTypes[r.Intn(len(scalarTypes))], depth).Interface()
	case k < 14:
		return genOf(r, reflect.PointerTo(scalarTypes[r.Intn(len(scalarTypes))]), depth).Interface()
	}
	if depth <= 0 {
		return genString(r)
	}
	switch k {
	case 14:
		return genMap(r, depth-1)
	case 15:
		return *genMap(r, depth-1)
	case 16:
		return genArray(r, depth-1)
	case 17:
		return *genArray(r, depth-1)
	case 18:
		return (*json.Map)(nil)
	}
	return (*json.Array)(nil)
}

func genMap(r *rand.Rand, depth int) *json.Map {
	m := json.NewMap()
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		m.SetObjectForMap(genString(r), genContent(r, depth-1))
	}
	return m
}

func genArray(r *rand.Rand, depth int) *json.Array {
	a := json.NewArray()
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		a.AppendValue(json.NewValue(genContent(r, depth-1)))
	}
	return a
}

func isNilContent(c interface{}) bool {
	if c == nil {
		return true
	}
	v := reflect.ValueOf(c)
	switch v.Kind() {
	case reflect.Ptr, reflect.Func, reflect.Map, reflect.Slice:
		return v.IsNil()
	}
	return false
}

// plain follows a pointer to a scalar.
func plain(c interface{}) interface{} {
	v := reflect.ValueOf(c)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		switch v.Elem().Kind() {
		case reflect.Struct, reflect.Ptr:
			return c
		}
		return v.Elem().Interface()
	}
	return c
}

var _ = strconv.Itoa
