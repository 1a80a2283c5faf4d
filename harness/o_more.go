package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	json "github.com/matehaxor03/holistic_json/json"
)

// state writes down everything reachable from x, with the identity of every Value and pointer when ids is set.
func state(x interface{}, ids bool) string {
	var b strings.Builder
	writeState(&b, x, ids, 0)
	return b.String()
}

func writeState(b *strings.Builder, x interface{}, ids bool, depth int) {
	if depth > 40 {
		failf("content nested without end: %s", b.String()[:100])
	}
	id := func(p uintptr) {
		if ids {
			fmt.Fprintf(b, "@%x", p)
		}
	}
	switch c := x.(type) {
	case nil:
		b.WriteString("nil")
		return
	case *json.Value:
		if c == nil {
			b.WriteString("no Value")
			return
		}
		b.WriteString("Value")
		id(reflect.ValueOf(c).Pointer())
		b.WriteByte('(')
		writeState(b, c.GetObject(), ids, depth+1)
		b.WriteByte(')')
		return
	case json.Value:
		writeState(b, c.GetObject(), ids, depth+1)
		return
	case json.Map:
		b.WriteString("map{")
		for _, k := range c.GetKeys() {
			fmt.Fprintf(b, "%q:", k)
			writeState(b, c.GetValue(k), ids, depth+1)
			b.WriteByte(';')
		}
		b.WriteByte('}')
		vs := c.Values()
		fmt.Fprintf(b, "%d", vs.Len())
		return
	case *json.Map:
		if c == nil {
			b.WriteString("(*Map)(nil)")
			return
		}
		b.WriteByte('*')
		id(reflect.ValueOf(c).Pointer())
		writeState(b, *c, ids, depth+1)
		return
	case json.Array:
		b.WriteString("array[")
		for _, v := range *c.GetValues() {
			writeState(b, v, ids, depth+1)
			b.WriteByte(';')
		}
		fmt.Fprintf(b, "]%d", c.Len())
		return
	case *json.Array:
		if c == nil {
			b.WriteString("(*Array)(nil)")
			return
		}
		b.WriteByte('*')
		id(reflect.ValueOf(c).Pointer())
		writeState(b, *c, ids, depth+1)
		return
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			fmt.Fprintf(b, "(%T)(nil)", x)
			return
		}
		b.WriteByte('&')
		id(v.Pointer())
		x = v.Elem().Interface()
		if _, ok := x.(float64); ok {
			writeState(b, x, ids, depth+1)
			return
		}
	}
	switch c := x.(type) {
	case float64:
		fmt.Fprintf(b, "float64(%x)", math.Float64bits(c))
		return
	case float32:
		fmt.Fprintf(b, "float32(%x)", math.Float32bits(c))
		return
	}
	if v.Kind() == reflect.Func {
		b.WriteString("func")
		return
	}
	fmt.Fprintf(b, "%T(%q)", x, fmt.Sprintf("%v", x))
}

// parts lists the identities of all Values and pointers reachable from x (but for errors and functions).
func parts(x interface{}, out map[uintptr]string, depth int) {
	if depth > 40 {
		return
	}
	add := func(p interface{}) { out[reflect.ValueOf(p).Pointer()] = show(p) }
	switch c := x.(type) {
	case nil:
	case *json.Value:
		if c != nil {
			add(c)
			parts(c.GetObject(), out, depth+1)
		}
	case json.Value:
		parts(c.GetObject(), out, depth+1)
	case json.Map:
		for _, k := range c.GetKeys() {
			parts(c.GetValue(k), out, depth+1)
		}
	case *json.Map:
		if c != nil {
			add(c)
			parts(*c, out, depth+1)
		}
	case json.Array:
		for _, v := range *c.GetValues() {
			parts(v, out, depth+1)
		}
	case *json.Array:
		if c != nil {
			add(c)
			parts(*c, out, depth+1)
		}
	default:
		if v := reflect.ValueOf(x); v.Kind() == reflect.Ptr && !v.IsNil() {
			if _, ok := x.(error); !ok && v.Elem().Type().Size() > 0 {
				add(x)
			}
		}
	}
}

// shape is the state as far as a clone keeps it: content by kind and value, nested objects by handle or pointer alike
func shape(x interface{}) string {
	s := state(x, false)
	s = strings.ReplaceAll(s, "*map{", "map{")
	s = strings.ReplaceAll(s, "*array[", "array[")
	s = strings.ReplaceAll(s, "no Value", "Value(nil)")
	for _, t := range []string{"*json.Map", "*Map", "*json.Array", "*Array"} {
		s = strings.ReplaceAll(s, "("+t+")(nil)", "nil")
	}
	for _, t := range scalarTypes {
		s = strings.ReplaceAll(s, "(*"+t.String()+")(nil)", "nil")
	}
	return s
}

// allOps lists the function fields of an object.
func allOps(o interface{}) []string {
	t := reflect.TypeOf(o).Elem()
	var out []string
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.IsExported() && f.Type.Kind() == reflect.Func {
			out = append(out, f.Name)
		}
	}
	return out
}

func isWrite(name string) bool {
	return strings.HasPrefix(name, "Set") || strings.HasPrefix(name, "Append") || strings.HasPrefix(name, "Remove")
}

// someArgs makes arguments for a function field.
func someArgs(r *rand.Rand, o interface{}, name string) []interface{} {
	t := reflect.ValueOf(o).Elem().FieldByName(name).Type()
	var out []interface{}
	for i := 0; i < t.NumIn(); i++ {
		switch {
		case i == 0 && t.In(0).Kind() == reflect.String && r.Intn(4) > 0:
			if m, ok := o.(*json.Map); ok {
				if ks := m.GetKeys(); len(ks) > 0 {
					out = append(out, ks[r.Intn(len(ks))])
					continue
				}
			}
			out = append(out, genString(r))
		case t.In(i) == reflect.TypeOf((*strings.Builder)(nil)):
			out = append(out, reflect.ValueOf(&strings.Builder{}))
		case t.In(i).Kind() == reflect.Int && !strings.HasPrefix(name, "SetInt") && !strings.HasPrefix(name, "AppendInt"):
			out = append(out, r.Intn(8)-2)
		default:
			out = append(out, genOf(r, t.In(i), 1))
		}
	}
	return out
}

func showArgs(args []interface{}) string {
	var out []string
	for _, a := range args {
		if v, ok := a.(reflect.Value); ok {
			a = v.Interface()
		}
		if _, ok := a.(*strings.Builder); ok {
			out = append(out, "&strings.Builder{}")
			continue
		}
		out = append(out, show(a))
	}
	return strings.Join(out, ", ")
}

// someObject makes a Value, Map or Array.
func someObject(r *rand.Rand) interface{} {
	switch r.Intn(4) {
	case 0:
		return json.NewValue(genContent(r, 3))
	case 1:
		a := genArray(r, 3)
		if r.Intn(3) == 0 {
			a.AppendValue(nil)
		}
		return a
	}
	m := genMap(r, 3)
	if r.Intn(3) == 0 {
		m.SetValue("none", nil)
	}
	return m
}

// change does one random change to something reachable from x.
func change(r *rand.Rand, x interface{}) string {
	switch c := x.(type) {
	case *json.Value:
		if c == nil {
			return ""
		}
		if r.Intn(2) == 0 {
			if s := change(r, c.GetObject()); s != "" {
				return "its content: " + s
			}
		}
		c.SetObject("changed")
		return "SetObject(\"changed\")"
	case json.Map:
		return change(r, &c)
	case json.Array:
		return change(r, &c)
	case *json.Map:
		if c == nil {
			return ""
		}
		ks := c.GetKeys()
		if len(ks) > 0 && r.Intn(4) > 0 {
			k := ks[r.Intn(len(ks))]
			if r.Intn(4) > 0 {
				if s := change(r, c.GetValue(k)); s != "" {
					return fmt.Sprintf("the value of key %q: %s", k, s)
				}
			}
			c.RemoveKey(k)
			return fmt.Sprintf("RemoveKey(%q)", k)
		}
		c.SetInt64Value("added\x02", 77)
		return "SetInt64Value(\"added\\x02\", 77)"
	case *json.Array:
		if c == nil {
			return ""
		}
		n := c.Len()
		if n > 0 && r.Intn(4) > 0 {
			i := r.Intn(n)
			if r.Intn(4) > 0 {
				if s := change(r, (*c.GetValues())[i]); s != "" {
					return fmt.Sprintf("element %d: %s", i, s)
				}
			}
			c.RemoveValueAtIndex(i)
			return fmt.Sprintf("RemoveValueAtIndex(%d)", i)
		}
		c.AppendStringValue("added")
		return "AppendStringValue(\"added\")"
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		e := v.Elem()
		switch {
		case e.CanInt():
			e.SetInt(e.Int() ^ 1)
		case e.CanUint():
			e.SetUint(e.Uint() ^ 1)
		case e.Kind() == reflect.Bool:
			e.SetBool(!e.Bool())
		case e.Kind() == reflect.String:
			e.SetString(e.String() + "!")
		case e.CanFloat():
			e.SetFloat(e.Float() + 1)
		default:
			return ""
		}
		return "what the stored pointer points to"
	}
	return ""
}

// a type test by name: what kinds it is true for
func kindTest(name string, c interface{}) (want, known bool) {
	p := plain(c)
	if isNilContent(c) {
		p = nil
	}
	k := reflect.Invalid
	if p != nil {
		k = reflect.TypeOf(p).Kind()
	}
	is := func(ks ...reflect.Kind) bool {
		for _, x := range ks {
			if k == x {
				return true
			}
		}
		return false
	}
	signed := is(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	unsigned := is(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64)
	float := is(reflect.Float32, reflect.Float64)
	s, isStr := p.(string)
	b, isBool := p.(bool)
	switch name {
	case "IsNil", "IsNull":
		return p == nil, true
	case "IsBool":
		return isBool, true
	case "IsBoolTrue":
		return isBool && b, true
	case "IsBoolFalse":
		return isBool && !b, true
	case "IsString":
		if t := reflect.TypeOf(c); t == reflect.TypeOf((*string)(nil)) && isNilContent(c) {
			return false, false
		}
		return isStr, true
	case "IsEmptyString":
		return isStr && s == "", true
	case "IsFloat":
		return float, true
	case "IsInteger":
		return signed || unsigned, true
	case "IsNumber":
		return signed || unsigned || float, true
	case "IsInt":
		return signed, true
	case "IsUInt":
		return unsigned, true
	case "IsMap":
		switch p.(type) {
		case json.Map, *json.Map:
			return true, true
		}
		return false, true
	case "IsArray":
		switch p.(type) {
		case json.Array, *json.Array:
			return true, true
		}
		return false, true
	}
	for _, t := range scalarTypes {
		if strings.EqualFold("Is"+t.String(), name) {
			return p != nil && reflect.TypeOf(p) == t, true
		}
	}
	return false, false
}

func init() {
	oracles["C07"] = func(r *rand.Rand, n int) string {
		a := json.NewArray()
		t := scalarTypes[r.Intn(len(scalarTypes))]
		text := genOf(r, t, 0).Interface()
		for i := r.Intn(6); i > 0; i-- {
			switch r.Intn(12) {
			case 0:
				a.AppendValue(nil)
			case 1:
				a.AppendNil()
			case 2:
				a.AppendValue(json.NewValue(genContent(r, 0)))
			case 3:
				a.AppendValue(json.NewValue(fmt.Sprint(text)))
			case 4, 5, 6:
				a.AppendValue(json.NewValue(genOf(r, reflect.PointerTo(t), 0).Interface()))
			default:
				a.AppendValue(json.NewValue(genOf(r, t, 0).Interface()))
			}
		}
		m := json.NewMap()
		if r.Intn(2) == 0 {
			m.SetArray("k", a)
		} else {
			m.SetArrayValue("k", *a)
		}
		what := "a = " + strings.ReplaceAll(state(a, false), ";", ", ") + "; a."
		for _, h := range []holder{{what, a, nil}, {what[:len(what)-2] + "m.SetArray(\"k\", a); m.", m, []interface{}{"k"}}} {
			for _, op := range allOps(h.o) {
				if !strings.HasPrefix(op, "GetArrayOf") {
					continue
				}
				single := "Get" + strings.TrimPrefix(op, "GetArrayOf")
				if !has(json.NewValue(1), single) {
					continue
				}
				got, failed := h.read(op)
				refused := -1
				var want []interface{}
				for i, e := range *a.GetValues() {
					if e == nil {
						if strings.HasSuffix(single, "Value") {
							refused = i
						}
						want = append(want, nil)
						continue
					}
					rs := call(e, single)
					if len(errsOf(rs[1])) > 0 {
						refused = i
					}
					want = append(want, rs[0].Interface())
				}
				if failed != (refused >= 0) {
					h.fail(op, "errors: %v, though element %d is refused: %v", failed, refused, refused >= 0)
				}
				if failed {
					continue
				}
				if got.Kind() == reflect.Ptr {
					if got.IsNil() {
						h.fail(op, "gives nil")
					}
					got = got.Elem()
				}
				if got.Len() != len(want) {
					h.fail(op, "gives %d elements for %d", got.Len(), len(want))
				}
				for i := range want {
					g := got.Index(i).Interface()
					if isNilContent(g) && isNilContent(want[i]) {
						continue
					}
					if state(g, false) != state(want[i], false) {
						h.fail(op, "element %d is %s where %s gives %s", i, show(g), single, show(want[i]))
					}
				}
			}
		}
		return ""
	}
	oracles["C08"] = func(r *rand.Rand, n int) string {
		o := someObject(r)
		before := state(o, true)
		running = show(o) + ".Clone()"
		rs := call(o, "Clone")
		if es := errsOf(rs[1]); len(es) > 0 {
			failf("the clone of %s fails: %v", show(o), es)
		}
		c := rs[0].Interface()
		if isNilContent(c) {
			failf("the clone of %s is nil", show(o))
		}
		if state(o, true) != before {
			failf("cloning changes %s", before)
		}
		if s, t := shape(o), shape(c); s != t {
			failf("the clone of\n  %s is\n  %s", s, t)
		}
		mine, its := map[uintptr]string{}, map[uintptr]string{}
		parts(o, mine, 0)
		parts(c, its, 0)
		for p, s := range mine {
			if _, both := its[p]; both {
				failf("the clone of %s shares %s with it", show(o), s)
			}
		}
		x, y, who := c, o, "the clone"
		if r.Intn(2) == 0 {
			x, y, who = o, c, "the original"
		}
		s := state(y, true)
		all := show(o)
		for i := 0; i < 3; i++ {
			if d := change(r, x); d != "" && state(y, true) != s {
				failf("a change of %s (%s) shows in the other, original %s:\n  %s\n  %s", who, d, all, s, state(y, true))
			}
		}
		return ""
	}
	oracles["C15"] = func(r *rand.Rand, n int) string {
		o := someObject(r)
		before, plainly := state(o, true), state(o, false)
		ops := allOps(o)
		for i := 0; i < 12; i++ {
			op := ops[r.Intn(len(ops))]
			if isWrite(op) {
				continue
			}
			args := someArgs(r, o, op)
			running = fmt.Sprintf("x = %s; x.%s(%s)", plainly, op, showArgs(args))
			call(o, op, args...)
			if state(o, true) != before {
				failf("%s changes it to %s", running, state(o, false))
			}
		}
		return ""
	}
	oracles["C16"] = func(r *rand.Rand, n int) string {
		c := genContent(r, 1)
		for _, h := range holders(c) {
			for _, op := range allOps(h.o) {
				if !strings.HasPrefix(op, "Is") || strings.HasPrefix(op, "IsValue") {
					continue
				}
				if _, m := h.o.(*json.Map); m && op == "IsNil" {
					continue
				}
				want, known := kindTest(op, c)
				if got := h.call(op)[0].Bool(); known && got != want {
					h.fail(op, "gives %v", got)
				}
			}
		}
		m := json.NewMap()
		m.SetObjectForMap("other", c)
		for _, op := range allOps(m) {
			if strings.HasPrefix(op, "Is") && op != "IsNil" {
				if got := call(m, op, "k")[0].Bool(); got != (op == "IsNull") {
					failf("a Map without key \"k\": %s(\"k\") gives %v", op, got)
				}
			}
		}
		if m.IsNil() {
			failf("IsNil of a Map with an entry gives true")
		}
		return ""
	}
	oracles["C17"] = func(r *rand.Rand, n int) string {
		c := genContent(r, 1)
		if r.Intn(3) == 0 {
			c = genOf(r, []reflect.Type{reflect.TypeOf(true), reflect.TypeOf(""), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0))}[r.Intn(4)], 0).Interface()
		}
		if isNilContent(c) {
			return ""
		}
		p := plain(c)
		for _, h := range holders(c) {
			get := func(op string) (interface{}, bool) {
				v, failed := h.read(op)
				if failed || v.Kind() == reflect.Ptr && v.IsNil() {
					return nil, false
				}
				if v.Kind() == reflect.Ptr {
					v = v.Elem()
				}
				return v.Interface(), true
			}
			for _, sfx := range []string{"", "Value"} {
				s, isStr := p.(string)
				if g, ok := get("GetString" + sfx); ok != isStr || ok && g != s {
					h.fail("GetString"+sfx, "gives %v, %v", g, ok)
				}
				b, isBool := p.(bool)
				want, any := b, isBool
				if isStr {
					want, any = s == "1" || s == "true", s == "1" || s == "true" || s == "0" || s == "false"
				}
				if g, ok := get("GetBool" + sfx); ok != any || ok && g != want {
					h.fail("GetBool"+sfx, "gives %v, %v", g, ok)
				}
				v := reflect.ValueOf(p)
				var f float64
				num := true
				switch {
				case v.CanFloat():
					f = v.Float()
				case v.CanInt():
					f = float64(v.Int())
				case v.CanUint():
					f = float64(v.Uint())
				case isStr:
					x, err := strconv.ParseFloat(s, 64)
					f, num = x, false
					if g, ok := get("GetFloat64" + sfx); ok && (err != nil || g != f && !math.IsNaN(f)) {
						h.fail("GetFloat64"+sfx, "gives %v", g)
					}
				default:
					num = false
				}
				if num {
					if g, ok := get("GetFloat64" + sfx); !ok || g != f && !math.IsNaN(f) {
						h.fail("GetFloat64"+sfx, "gives %v, %v", g, ok)
					}
					w, err := strconv.ParseFloat(fmt.Sprintf("%f", f), 32)
					if g, ok := get("GetFloat32" + sfx); ok != (err == nil) || ok && g != float32(w) {
						h.fail("GetFloat32"+sfx, "gives %v, %v", g, ok)
					}
				} else if !isStr {
					for _, op := range []string{"GetFloat32", "GetFloat64"} {
						if g, ok := get(op + sfx); ok {
							h.fail(op+sfx, "gives %v", g)
						}
					}
				}
			}
			if v, ok := h.o.(*json.Value); ok {
				s, isStr := p.(string)
				for _, t := range []string{s, "true", "", fmt.Sprint(p)} {
					if v.IsValueEqualToStringValue(t) != (isStr && s == t) {
						h.fail("IsValueEqualToStringValue", "gives %v for %q", !(isStr && s == t), t)
					}
					if v.IsValueEqualToString(&t) != (isStr && s == t) {
						h.fail("IsValueEqualToString", "gives %v for %q", !(isStr && s == t), t)
					}
				}
			}
		}
		return ""
	}
	oracles["C18"] = func(r *rand.Rand, n int) string {
		if n == 0 {
			return constructed(r, n)
		}
		if n%4 == 0 {
			parse(someText(r))
			return ""
		}
		o := someObject(r)
		ops := allOps(o)
		log := "x = " + state(o, false)
		for i := 0; i < 25; i++ {
			op := ops[r.Intn(len(ops))]
			args := someArgs(r, o, op)
			if isWrite(op) && len(args) > 0 {
				// no object inside itself, no nested Value
				if v, ok := args[len(args)-1].(reflect.Value); ok && strings.Contains(v.Type().String(), "func") {
					continue
				}
			}
			log += fmt.Sprintf("\n  x.%s(%s)", op, showArgs(args))
			running = log
			call(o, op, args...)
		}
		return ""
	}
}

var _ = time.Now
