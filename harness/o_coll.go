package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	json "github.com/matehaxor03/holistic_json/json"
)

type entry struct {
	key string
	val *json.Value
	has bool // val is known
	obj interface{}
}

func init() {
	oracles["C03"] = func(r *rand.Rand, n int) string {
		m := json.NewMap()
		if r.Intn(2) == 0 {
			x := json.NewMapValue()
			m = &x
		}
		var model []entry
		var log []string
		find := func(k string) int {
			for i, e := range model {
				if e.key == k {
					return i
				}
			}
			return -1
		}
		keys := []string{"", "a", "b", "nil", genString(r), genString(r)}
		var setters []reflect.StructField
		mt := reflect.TypeOf(*m)
		for i := 0; i < mt.NumField(); i++ {
			if strings.HasPrefix(mt.Field(i).Name, "Set") {
				setters = append(setters, mt.Field(i))
			}
		}
		bad := func(f string, a ...interface{}) {
			failf("history on a new Map:\n  %s\n%s", strings.Join(log, "\n  "), fmt.Sprintf(f, a...))
		}
		steps := 1 + r.Intn(12)
		for s := 0; s < steps; s++ {
			k := keys[r.Intn(len(keys))]
			if r.Intn(4) == 0 {
				log = append(log, fmt.Sprintf("RemoveKey(%q)", k))
				running = strings.Join(log, "; ")
				ok, err := m.RemoveKey(k)
				i := find(k)
				if ok != (i >= 0) || (err == nil) != ok {
					bad("returns %v, %v", ok, err)
				}
				if i >= 0 {
					model = append(model[:i:i], model[i+1:]...)
				}
			} else {
				f := setters[r.Intn(len(setters))]
				var args []interface{}
				args = append(args, k)
				e := entry{key: k}
				if f.Name != "SetNil" {
					a := genOf(r, f.Type.In(1), 1)
					args = append(args, a)
					switch {
					case f.Name == "SetValue":
						e.val, _ = a.Interface().(*json.Value)
						e.has = true
					case a.Kind() == reflect.Interface && a.IsNil():
					default:
						e.obj = a.Interface()
					}
				}
				var sh []string
				for _, a := range args[1:] {
					sh = append(sh, show(a.(reflect.Value).Interface()))
				}
				log = append(log, fmt.Sprintf("%s(%q, %s)", f.Name, k, strings.Join(sh, ", ")))
				running = strings.Join(log, "; ")
				call(m, f.Name, args...)
				v := m.GetValue(k)
				if e.has && v != e.val {
					bad("GetValue(%q) gives another value", k)
				}
				if !e.has {
					if v == nil {
						bad("GetValue(%q) gives nil", k)
					}
					g, w := v.GetObject(), e.obj
					if !isNilContent(g) || !isNilContent(w) {
						if show(plain1(g)) != show(plain1(w)) || fmt.Sprintf("%T", plain1(g)) != fmt.Sprintf("%T", plain1(w)) {
							bad("the entry %q holds %s", k, show(g))
						}
					}
					e.val = v
				}
				if i := find(k); i >= 0 {
					model[i] = e
				} else {
					model = append(model, e)
				}
			}
			var want []string
			for _, e := range model {
				want = append(want, e.key)
			}
			got := m.GetKeys()
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				bad("GetKeys gives %q, not %q", got, want)
			}
			for i := range got {
				got[i] = "overwritten"
			}
			vs := m.Values()
			if vs.Len() != len(model) {
				bad("Values has %d elements for %d keys", vs.Len(), len(model))
			}
			for i, e := range model {
				if (*vs.GetValues())[i] != e.val {
					bad("element %d of Values is not the value of key %q", i, e.key)
				}
				if m.GetValue(e.key) != e.val {
					bad("GetValue(%q) changed", e.key)
				}
			}
			for _, k := range keys {
				if m.HasKey(k) != (find(k) >= 0) {
					bad("HasKey(%q) gives %v", k, m.HasKey(k))
				}
				if find(k) < 0 && m.GetValue(k) != nil {
					bad("GetValue(%q) gives a value for a missing key", k)
				}
			}
		}
		return ""
	}
	oracles["C04"] = func(r *rand.Rand, n int) string {
		a := json.NewArray()
		if r.Intn(2) == 0 {
			x := json.NewArrayValue()
			a = &x
		}
		var model []*json.Value
		var log []string
		var app []reflect.StructField
		at := reflect.TypeOf(*a)
		for i := 0; i < at.NumField(); i++ {
			if strings.HasPrefix(at.Field(i).Name, "Append") {
				app = append(app, at.Field(i))
			}
		}
		bad := func(f string, x ...interface{}) {
			failf("history on a new Array:\n  %s\n%s", strings.Join(log, "\n  "), fmt.Sprintf(f, x...))
		}
		steps := 1 + r.Intn(12)
		for s := 0; s < steps; s++ {
			idx := r.Intn(len(model)+4) - 2
			switch r.Intn(5) {
			case 0:
				v := json.NewValue(genContent(r, 0))
				log = append(log, fmt.Sprintf("SetValueAtIndex(%d, %s)", idx, show(v)))
				running = strings.Join(log, "; ")
				ok, err := a.SetValueAtIndex(idx, v)
				in := idx >= 0 && idx < len(model)
				if ok != in || (err == nil) != in {
					bad("returns %v, %v", ok, err)
				}
				if in {
					model[idx] = v
				}
			case 1:
				log = append(log, fmt.Sprintf("RemoveValueAtIndex(%d)", idx))
				running = strings.Join(log, "; ")
				ok, err := a.RemoveValueAtIndex(idx)
				in := idx >= 0 && idx < len(model)
				if ok != in || (err == nil) != in {
					bad("returns %v, %v", ok, err)
				}
				if in {
					model = append(model[:idx:idx], model[idx+1:]...)
				}
			default:
				f := app[r.Intn(len(app))]
				var args []interface{}
				var obj interface{}
				var val *json.Value
				isV := false
				if f.Name != "AppendNil" {
					x := genOf(r, f.Type.In(0), 1)
					args = append(args, x)
					obj = x.Interface()
					val, isV = obj.(*json.Value)
					log = append(log, fmt.Sprintf("%s(%s)", f.Name, show(obj)))
				} else {
					log = append(log, "AppendNil()")
				}
				running = strings.Join(log, "; ")
				call(a, f.Name, args...)
				vs := *a.GetValues()
				if len(vs) != len(model)+1 {
					bad("%d elements", len(vs))
				}
				last := vs[len(vs)-1]
				if isV && last != val {
					bad("the last element is not the value given")
				}
				if !isV {
					g := last.GetObject()
					if vv, ok := obj.(json.Value); ok {
						obj = vv.GetObject()
					}
					if !isNilContent(g) || !isNilContent(obj) {
						if show(plain1(g)) != show(plain1(obj)) || fmt.Sprintf("%T", plain1(g)) != fmt.Sprintf("%T", plain1(obj)) {
							bad("the last element holds %s", show(g))
						}
					}
				}
				model = append(model[:len(model):len(model)], last)
			}
			vs := *a.GetValues()
			if a.Len() != len(model) || len(vs) != len(model) {
				bad("Len gives %d, GetValues %d elements, not %d", a.Len(), len(vs), len(model))
			}
			for i := range vs {
				if vs[i] != model[i] {
					bad("element %d is another one than before", i)
				}
			}
		}
		return ""
	}
}

// plain1 follows one pointer, to a Map or an Array too.
func plain1(c interface{}) interface{} {
	v := reflect.ValueOf(c)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return v.Elem().Interface()
	}
	return c
}
