package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

// holder is a place contents are read from: a Value or an entry of a Map.
type holder struct {
	what string
	o    interface{}
	args []interface{}
}

func holders(c interface{}) []holder {
	m := json.NewMap()
	m.SetObjectForMap("first", 1)
	m.SetObjectForMap("k", c)
	return []holder{
		{fmt.Sprintf("NewValue(%s).", show(c)), json.NewValue(c), nil},
		{fmt.Sprintf("m.SetObjectForMap(\"k\", %s); m.", show(c)), m, []interface{}{"k"}},
	}
}

func (h holder) call(name string, args ...interface{}) []reflect.Value {
	running = h.what + name
	return call(h.o, name, append(append([]interface{}{}, h.args...), args...)...)
}

func (h holder) fail(name, f string, a ...interface{}) {
	failf("%s%s: %s", h.what, name, fmt.Sprintf(f, a...))
}

// read calls a getter and checks the shape of its answer (nil errors or some, and no value beside errors).
func (h holder) read(name string, args ...interface{}) (val reflect.Value, failed bool) {
	rs := h.call(name, args...)
	es := errsOf(rs[1])
	if es != nil && len(es) == 0 {
		h.fail(name, "an empty list of errors")
	}
	for _, e := range es {
		if e == nil {
			h.fail(name, "a nil error in the list")
		}
	}
	if len(es) > 0 && rs[0].Kind() != reflect.Struct && !rs[0].IsZero() {
		h.fail(name, "returns %s beside the errors %v", show(rs[0].Interface()), es)
	}
	return rs[0], len(es) > 0
}

// integerOf gives the integer a content denotes, when it is one or text of one.
func integerOf(c interface{}) (v *big.Int, isInt, isText bool) {
	c = plain(c)
	if c == nil {
		return nil, false, false
	}
	rv := reflect.ValueOf(c)
	switch {
	case rv.Kind() == reflect.String:
		v, ok := new(big.Int).SetString(rv.String(), 10)
		if !ok || strings.Contains(rv.String(), "_") {
			return nil, false, false
		}
		return v, false, true
	case rv.CanInt() || rv.CanUint() && rv.Kind() != reflect.Uintptr:
		return bigOf(rv), true, false
	}
	return nil, false, false
}

func canonical(s string) bool {
	v, ok := new(big.Int).SetString(s, 10)
	return ok && v.String() == s
}

func init() {
	oracles["C01"] = func(r *rand.Rand, n int) string {
		var c interface{}
		if n%3 == 0 {
			t := intTypes[intNames[r.Intn(len(intNames))]]
			if r.Intn(2) == 0 {
				t = reflect.PointerTo(t)
			}
			c = genOf(r, t, 0).Interface()
		} else {
			c = genContent(r, 1)
		}
		v, isInt, isText := integerOf(c)
		nilc := isNilContent(c)
		for _, h := range holders(c) {
			for _, nm := range intNames {
				t := intTypes[nm]
				for _, suffix := range []string{"", "Value"} {
					got, failed := h.read("Get" + nm + suffix)
					var g *big.Int
					if suffix == "" {
						if !failed && !got.IsNil() {
							g = bigOf(got.Elem())
						}
					} else if !failed {
						g = bigOf(got)
					}
					name := "Get" + nm + suffix
					switch {
					case nilc:
						continue
					case v == nil && g != nil:
						h.fail(name, "gives %v though the content denotes no integer", g)
					case g != nil && g.Cmp(v) != 0:
						h.fail(name, "gives %v, not %v", g, v)
					case isInt && fits(v, t) && g == nil:
						h.fail(name, "refuses %v, which fits", v)
					case isInt && !fits(v, t) && !failed:
						h.fail(name, "no error for %v, which does not fit", v)
					case isText && fits(v, t) && g == nil && canonical(plain(c).(string)):
						h.fail(name, "refuses the text %q, which fits", plain(c))
					}
				}
			}
		}
		return ""
	}
	oracles["C05"] = setGet
	oracles["C06"] = missing
	oracles["C19"] = func(r *rand.Rand, n int) string {
		c := genContent(r, 2)
		for _, h := range holders(c) {
			for _, g := range getters(h.o) {
				if g == "GetTimeWithDecimalPlaces" {
					h.read(g, r.Intn(8))
				} else {
					h.read(g)
				}
			}
		}
		return ""
	}
}

// getters lists the reads with a result and errors.
func getters(o interface{}) []string {
	t := reflect.TypeOf(o).Elem()
	var out []string
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Type.Kind() == reflect.Func && strings.HasPrefix(f.Name, "Get") && f.Type.NumOut() == 2 {
			out = append(out, f.Name)
		}
	}
	return out
}

// setGet: what is set through Set<X> comes back through Get<X>.
func setGet(r *rand.Rand, n int) string {
	v := json.NewValue(genContent(r, 0))
	m := json.NewMap()
	m.SetObjectForMap("other", genContent(r, 0))
	if r.Intn(2) == 0 {
		m.SetObjectForMap("k", genContent(r, 0))
	}
	for _, h := range []holder{{"v.", v, nil}, {"m.", m, []interface{}{"k"}}} {
		t := reflect.TypeOf(h.o).Elem()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !strings.HasPrefix(f.Name, "Set") || f.Name == "SetNil" || f.Name == "SetValue" {
				continue
			}
			x := strings.TrimPrefix(f.Name, "Set")
			arg := genOf(r, f.Type.In(f.Type.NumIn()-1), 1)
			h.call(f.Name, arg)
			h2 := holder{fmt.Sprintf("%s%s(%s); %s", h.what, f.Name, show(arg.Interface()), h.what), h.o, h.args}
			switch x {
			case "Object", "ErrorValue", "ObjectForMap":
				g := "GetObject"
				if x == "ObjectForMap" {
					g = "GetObjectForMap"
				}
				got := h2.call(g)[0]
				if isNilContent(arg.Interface()) && isNilContent(got.Interface()) {
					continue
				}
				if !sameContent(got, arg) {
					h2.fail(g, "gives %s", show(got.Interface()))
				}
				continue
			case "Error":
				got := h2.call("GetObject")[0]
				if !sameContent(got, arg) {
					h2.fail("GetObject", "gives %s", show(got.Interface()))
				}
				continue
			}
			base := strings.TrimSuffix(x, "Value")
			for _, g := range []string{"Get" + base, "Get" + base + "Value"} {
				if !has(h.o, g) {
					continue
				}
				got, failed := h2.read(g)
				want := arg
				if want.Kind() == reflect.Ptr && want.IsNil() || (base == "Errors" && want.Kind() == reflect.Slice && want.IsNil()) {
					if strings.HasSuffix(g, "Value") {
						if !failed {
							h2.fail(g, "no error for nil")
						}
					} else if failed || !got.IsNil() {
						h2.fail(g, "gives %s (errors: %v) for nil", show(got.Interface()), failed)
					}
					continue
				}
				if failed {
					h2.fail(g, "fails")
				}
				a, b := deep(got), deep(want)
				if base == "Float32" || base == "Float64" {
					continue // the value is C17's
				}
				if base == "Map" || base == "Array" {
					if !sameFuncs(a, b) {
						h2.fail(g, "gives another object %s", show(got.Interface()))
					}
					continue
				}
				if base == "Func" {
					continue
				}
				if base == "Time" {
					continue
				}
				if fmt.Sprint(a.Interface()) != fmt.Sprint(b.Interface()) || a.Type() != b.Type() {
					h2.fail(g, "gives %s", show(got.Interface()))
				}
			}
		}
	}
	return ""
}

func deep(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return v
}

// sameFuncs: two Maps or Arrays are the same object (they share their closures' state).
func sameFuncs(a, b reflect.Value) bool {
	switch x := a.Interface().(type) {
	case json.Map:
		y, ok := b.Interface().(json.Map)
		if !ok {
			return false
		}
		x.SetObjectForMap("probe\x01", 1)
		ok = y.HasKey("probe\x01")
		x.RemoveKey("probe\x01")
		return ok
	case json.Array:
		y, ok := b.Interface().(json.Array)
		if !ok {
			return false
		}
		n := y.Len()
		x.AppendNil()
		ok = y.Len() == n+1
		x.RemoveValueAtIndex(n)
		return ok
	}
	return false
}

func sameContent(got, want reflect.Value) bool {
	g := got.Interface()
	if want.Kind() == reflect.Interface && want.IsNil() {
		return g == nil
	}
	w := want.Interface()
	if reflect.TypeOf(g) != reflect.TypeOf(w) {
		return false
	}
	t := reflect.TypeOf(g)
	if t != nil && (t.Kind() == reflect.Ptr || t.Comparable()) {
		return g == w
	}
	return show(g) == show(w)
}

// missing: a key that is not there, an entry without a value and a nil entry.
func missing(r *rand.Rand, n int) string {
	m := json.NewMap()
	m.SetObjectForMap("other", genContent(r, 1))
	what := "m has no entry \"k\"; m."
	switch r.Intn(4) {
	case 1:
		m.SetNil("k")
		what = "m.SetNil(\"k\"); m."
	case 2:
		m.SetValue("k", nil)
		what = "m.SetValue(\"k\", nil); m."
	case 3:
		t := reflect.PointerTo(scalarTypes[r.Intn(len(scalarTypes))])
		m.SetObjectForMap("k", reflect.Zero(t).Interface())
		what = fmt.Sprintf("m.SetObjectForMap(\"k\", (%s)(nil)); m.", t)
	}
	hs := []holder{{what, m, []interface{}{"k"}}}
	if r.Intn(2) == 0 {
		hs = append(hs, holder{"NewValue(nil).", json.NewValue(nil), nil})
	} else {
		t := reflect.PointerTo(scalarTypes[r.Intn(len(scalarTypes))])
		hs = append(hs, holder{fmt.Sprintf("NewValue((%s)(nil)).", t), json.NewValue(reflect.Zero(t).Interface()), nil})
	}
	for _, h := range hs {
		for _, g := range getters(h.o) {
			var got reflect.Value
			var failed bool
			if g == "GetTimeWithDecimalPlaces" {
				got, failed = h.read(g, r.Intn(8))
			} else {
				got, failed = h.read(g)
			}
			switch {
			case g == "GetArrayOfBoolValue":
			case strings.HasSuffix(g, "Value"):
				if !failed {
					h.fail(g, "no error though there is no value")
				}
			default:
				if failed {
					h.fail(g, "an error where nil is expected")
				}
				if (got.Kind() == reflect.Ptr || got.Kind() == reflect.Slice) && !got.IsNil() {
					h.fail(g, "gives %s though there is no value", show(got.Interface()))
				}
			}
		}
	}
	return ""
}

// constructed: every function field is there
func constructed(r *rand.Rand, n int) string {
	a, m, v := json.NewArray(), json.NewMap(), json.NewValue(1)
	av, mv, vv := json.NewArrayValue(), json.NewMapValue(), json.NewValueValue(1)
	for _, o := range []interface{}{a, m, v, &av, &mv, &vv} {
		rv := reflect.ValueOf(o).Elem()
		for i := 0; i < rv.NumField(); i++ {
			if rv.Field(i).Kind() == reflect.Func && rv.Type().Field(i).IsExported() && rv.Field(i).IsNil() {
				failf("%s.%s is nil after construction", rv.Type(), rv.Type().Field(i).Name)
			}
		}
	}
	return ""
}
