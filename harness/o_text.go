package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf16"

	json "github.com/matehaxor03/holistic_json/json"
)

// ---- documents

type node struct {
	kind string // string int float bool null map array
	s    string
	i    *big.Int
	b    bool
	keys []string
	kids []*node
}

func genDocString(r *rand.Rand) string {
	n := r.Intn(8)
	if r.Intn(3) > 0 {
		n = r.Intn(3)
	}
	var rs []rune
	for i := 0; i < n; i++ {
		switch r.Intn(5) {
		case 0:
			rs = append(rs, rune(r.Intn(33)))
		case 1, 2:
			rs = append(rs, []rune("\"\\/{}[],:ub ntrf")[r.Intn(16)])
		case 3:
			rs = append(rs, rune(32+r.Intn(96)))
		default:
			rs = append(rs, []rune("éß日\U0001F600\u2028\ufeff\u00a0\u0085")[r.Intn(8)])
		}
	}
	return string(rs)
}

func genNode(r *rand.Rand, depth int, floats bool) *node {
	k := r.Intn(9)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0, 1:
		return &node{kind: "string", s: genDocString(r)}
	case 2:
		for {
			v := edges[r.Intn(len(edges))]
			if v.IsInt64() || v.IsUint64() {
				return &node{kind: "int", i: v}
			}
		}
	case 3:
		if floats {
			return &node{kind: "float", s: fmt.Sprintf("%s%d.%0*d", []string{"", "-"}[r.Intn(2)], r.Intn(1000), 1+r.Intn(3), r.Intn(10))}
		}
		return &node{kind: "int", i: big.NewInt(int64(r.Intn(100)))}
	case 4:
		return &node{kind: "bool", b: r.Intn(2) == 0}
	case 5:
		return &node{kind: "null"}
	case 6, 7:
		return genMapNode(r, depth, floats)
	}
	n := &node{kind: "array"}
	for i := r.Intn(4); i > 0; i-- {
		n.kids = append(n.kids, genNode(r, depth-1, floats))
	}
	return n
}

func genMapNode(r *rand.Rand, depth int, floats bool) *node {
	n := &node{kind: "map"}
	seen := map[string]bool{}
	for i := r.Intn(4); i > 0; i-- {
		k := genDocString(r)
		if r.Intn(3) == 0 {
			k = []string{"a", "b", "key", ""}[r.Intn(4)]
		}
		if !seen[k] {
			seen[k] = true
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, genNode(r, depth-1, floats))
		}
	}
	return n
}

func space(r *rand.Rand) string {
	n := 0
	switch r.Intn(6) {
	case 0:
		n = 1
	case 1:
		n = r.Intn(5)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = " \t\r\n"[r.Intn(4)]
	}
	return string(b)
}

func quote(r *rand.Rand, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		hex := func() {
			if c >= 0x10000 {
				h, l := utf16.EncodeRune(c)
				fmt.Fprintf(&b, "\\u%04x\\u%04X", h, l)
			} else if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				fmt.Fprintf(&b, "\\u%04X", c)
			}
		}
		short := strings.IndexRune("\"\\/\b\f\n\r\t", c)
		switch {
		case r.Intn(12) == 0:
			hex()
		case short >= 0 && (c != '/' || r.Intn(2) == 0):
			b.WriteString([]string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`}[map[rune]int{'"': 0, '\\': 1, '/': 2, '\b': 3, '\f': 4, '\n': 5, '\r': 6, '\t': 7}[c]])
		case c < 32:
			hex()
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (n *node) write(r *rand.Rand) string {
	switch n.kind {
	case "string":
		return quote(r, n.s)
	case "int":
		return n.i.String()
	case "float":
		return n.s
	case "bool":
		return strconv.FormatBool(n.b)
	case "null":
		return "null"
	}
	var b strings.Builder
	for i, k := range n.kids {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(space(r))
		if n.kind == "map" {
			b.WriteString(quote(r, n.keys[i]) + space(r) + ":" + space(r))
		}
		b.WriteString(k.write(r) + space(r))
	}
	if n.kind == "map" {
		return "{" + b.String() + "}"
	}
	return "[" + b.String() + "]"
}

func kindOf(c interface{}) string {
	c = plain(c)
	switch c.(type) {
	case nil:
		return "null"
	case *json.Map, json.Map:
		return "map"
	case *json.Array, json.Array:
		return "array"
	case string:
		return "string"
	case bool:
		return "bool"
	case float32, float64:
		return "float"
	}
	if v := reflect.ValueOf(c); v.CanInt() || v.CanUint() {
		return "int"
	}
	return fmt.Sprintf("%T", c)
}

// differs tells where content c is not what the document says; "" when it is.
func (n *node) differs(c interface{}, path string) string {
	if isNilContent(c) {
		c = nil
	}
	if k := kindOf(c); k != n.kind {
		return fmt.Sprintf("%s: %s instead of %s", path, k, n.kind)
	}
	c = plain(c)
	switch n.kind {
	case "string":
		if c.(string) != n.s {
			return fmt.Sprintf("%s: %q instead of %q", path, c, n.s)
		}
	case "bool":
		if c.(bool) != n.b {
			return fmt.Sprintf("%s: %v instead of %v", path, c, n.b)
		}
	case "int":
		if v := bigOf(reflect.ValueOf(c)); v.Cmp(n.i) != 0 {
			return fmt.Sprintf("%s: %v instead of %v", path, v, n.i)
		}
	case "float":
		f, _ := strconv.ParseFloat(n.s, 64)
		if f32, err := strconv.ParseFloat(n.s, 32); err == nil {
			f = f32
		}
		if g := reflect.ValueOf(c).Float(); g != f {
			return fmt.Sprintf("%s: %v instead of %s", path, g, n.s)
		}
	case "map":
		m, ok := c.(*json.Map)
		if !ok {
			v := c.(json.Map)
			m = &v
		}
		ks := m.GetKeys()
		if len(ks) != len(n.keys) {
			return fmt.Sprintf("%s: keys %q instead of %q", path, ks, n.keys)
		}
		for i, k := range n.keys {
			if ks[i] != k {
				return fmt.Sprintf("%s: keys %q instead of %q", path, ks, n.keys)
			}
			v := m.GetValue(k)
			if v == nil {
				return fmt.Sprintf("%s: no value under %q", path, k)
			}
			if d := n.kids[i].differs(v.GetObject(), path+"."+strconv.Quote(k)); d != "" {
				return d
			}
		}
	case "array":
		a, ok := c.(*json.Array)
		if !ok {
			v := c.(json.Array)
			a = &v
		}
		es := *a.GetValues()
		if len(es) != len(n.kids) {
			return fmt.Sprintf("%s: %d elements instead of %d", path, len(es), len(n.kids))
		}
		for i, e := range es {
			var o interface{}
			if e != nil {
				o = e.GetObject()
			}
			if d := n.kids[i].differs(o, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	}
	return ""
}

// build makes the content by the operations of the package.
func (n *node) build(r *rand.Rand) interface{} {
	ptr := r.Intn(2) == 0
	switch n.kind {
	case "string":
		if s := n.s; ptr {
			return &s
		}
		return n.s
	case "bool":
		if b := n.b; ptr {
			return &b
		}
		return n.b
	case "null":
		return nil
	case "float":
		f, _ := strconv.ParseFloat(n.s, 64)
		return f
	case "int":
		for {
			t := intTypes[intNames[r.Intn(len(intNames))]]
			if fits(n.i, t) {
				v := intIn(n.i, t)
				if ptr {
					p := reflect.New(t)
					p.Elem().Set(v)
					return p.Interface()
				}
				return v.Interface()
			}
		}
	case "map":
		m := json.NewMap()
		for i, k := range n.keys {
			m.SetObjectForMap(k, n.kids[i].build(r))
		}
		if ptr {
			return m
		}
		return *m
	}
	a := json.NewArray()
	for _, k := range n.kids {
		c := k.build(r)
		if c == nil && r.Intn(2) == 0 {
			a.AppendValue(nil)
		} else {
			a.AppendValue(json.NewValue(c))
		}
	}
	if ptr {
		return a
	}
	return *a
}

// text is the rendering of the document without white space, as the serialiser writes it.
func (n *node) text() string {
	switch n.kind {
	case "string":
		return `"` + escapeRef(n.s) + `"`
	case "float":
		f, _ := strconv.ParseFloat(n.s, 64)
		return fmt.Sprintf("%f", f)
	case "map", "array":
		var b strings.Builder
		for i, k := range n.kids {
			if i > 0 {
				b.WriteString(",")
			}
			if n.kind == "map" {
				b.WriteString(`"` + escapeRef(n.keys[i]) + `":`)
			}
			b.WriteString(k.text())
		}
		if n.kind == "map" {
			return "{" + b.String() + "}"
		}
		return "[" + b.String() + "]"
	}
	return n.write(rand.New(rand.NewSource(0)))
}

func escapeRef(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			b.WriteString(`\"`)
		case c == '\\':
			b.WriteString(`\\`)
		case c == '\b':
			b.WriteString(`\b`)
		case c == '\f':
			b.WriteString(`\f`)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\r':
			b.WriteString(`\r`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 32:
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func parse(text string) (*json.Map, []error) {
	running = fmt.Sprintf("Parse(%q)", text)
	m, errs := json.Parse(text)
	if (m == nil) == (len(errs) == 0) {
		failf("Parse(%q): result %v beside errors %v", text, m != nil, errs)
	}
	return m, errs
}

// balanced: an object whose braces and brackets outside strings are nested and closed, with nothing around it.
func balanced(text string) bool {
	text = strings.TrimSpace(text)
	var st []byte
	in, esc := false, false
	for i := 0; i < len(text); i++ {
		c := text[i]
		if i == 0 && c != '{' {
			return false
		}
		if i > 0 && len(st) == 0 {
			return false
		}
		switch {
		case in && esc:
			esc = false
		case in && c == '\\':
			esc = true
		case c == '"':
			in = !in
		case in:
		case c == '{' || c == '[':
			st = append(st, c)
		case c == '}' || c == ']':
			if st[len(st)-1] != c-2 {
				return false
			}
			st = st[:len(st)-1]
		}
	}
	return len(text) > 0 && len(st) == 0 && !in
}

func mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	alphabet := "{}[]\",:\\ 0123456789.-truefalsn u\n"
	for k := r.Intn(4); k > 0; k-- {
		i := r.Intn(len(b) + 1)
		switch r.Intn(4) {
		case 0:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 1:
			b = append(b[:i:i], append([]byte{alphabet[r.Intn(len(alphabet))]}, b[i:]...)...)
		case 2:
			if i < len(b) {
				b[i] = alphabet[r.Intn(len(alphabet))]
			}
		default:
			j := r.Intn(len(b) + 1)
			if i > j {
				i, j = j, i
			}
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		}
	}
	return string(b)
}

// mutateBrackets changes, drops, adds, swaps or moves brackets and quotes of a text
func mutateBrackets(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(2); k > 0; k-- {
		var at []int
		for i, c := range b {
			if strings.IndexByte("{}[]\"", c) >= 0 {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			break
		}
		i, j := at[r.Intn(len(at))], at[r.Intn(len(at))]
		switch r.Intn(5) {
		case 0:
			b[i] = "{}[]"[r.Intn(4)]
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b[i], b[j] = b[j], b[i]
		case 3:
			b = append(b[:i:i], append([]byte{"{}[]\""[r.Intn(5)]}, b[i:]...)...)
		default:
			c := b[i]
			b = append(b[:i:i], b[i+1:]...)
			j = r.Intn(len(b) + 1)
			b = append(b[:j:j], append([]byte{c}, b[j:]...)...)
		}
	}
	return string(b)
}

func someText(r *rand.Rand) string {
	switch r.Intn(12) {
	case 7:
		return genMapNode(r, 3, true).write(r)
	case 2, 3:
		return mutateBrackets(r, genMapNode(r, 3, true).write(r))
	case 4, 5:
		return mutateBrackets(r, genMapNode(r, 1+r.Intn(2), true).write(r))
	case 6:
		const brackets = "{}[]"
		b := make([]byte, r.Intn(10))
		for i := range b {
			b[i] = brackets[r.Intn(4)]
			if r.Intn(6) == 0 {
				b[i] = ","[0]
			}
		}
		return "{\"a\":" + string(b) + "}"
	case 0:
		alphabet := "{}[]\",:\\ a1.-\n"
		b := make([]byte, r.Intn(12))
		for i := range b {
			b[i] = alphabet[r.Intn(len(alphabet))]
		}
		if r.Intn(2) == 0 {
			return "{" + string(b) + "}"
		}
		return string(b)
	case 1:
		b := make([]byte, r.Intn(12))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return "{\"a\":\"" + string(b) + "\"}"
	}
	return mutate(r, genMapNode(r, 3, true).write(r))
}

func init() {
	oracles["C13"] = func(r *rand.Rand, n int) string {
		d := genMapNode(r, 3, false)
		text := space(r) + d.write(r) + space(r)
		m, errs := parse(text)
		if errs != nil {
			failf("Parse(%q) refuses a well-formed document: %v", text, errs)
		}
		if x := d.differs(m, ""); x != "" {
			failf("Parse(%q)\n%s", text, x)
		}
		return ""
	}
	oracles["C02"] = func(r *rand.Rand, n int) string {
		var num string
		switch r.Intn(6) {
		case 0:
			num = edges[r.Intn(len(edges))].String()
		case 1:
			num = new(big.Int).Mul(edges[r.Intn(len(edges))], edges[r.Intn(len(edges))]).String()
		case 2:
			num = fmt.Sprintf("%s%d.%d", []string{"", "-"}[r.Intn(2)], r.Intn(1000), r.Intn(1000))
		case 3:
			num = []string{"1.7976931348623157e308", "340282346638528859811704183484516925440.0", "340282366920938463463374607431768211456.5", "0.1", "-0.0", "1e5", "1.5e3", "1.5e+3", "0x10", "1_000", "+5", "--5", "1.2.3", "1-2", "-", ".", "NaN", "Inf", "tru", "nul", "12a", "1 2", "- 5", "007", ".5", "5."}[r.Intn(26)]
		default:
			num = mutate(r, edges[r.Intn(len(edges))].String())
			if strings.ContainsAny(num, "{}[],:\"\\\n") || strings.TrimSpace(num) != num || num == "" || num == "null" || num == "true" || num == "false" {
				return ""
			}
		}
		check := func(text string, c interface{}, errs []error) {
			if errs != nil {
				if v, ok := new(big.Int).SetString(num, 10); ok && canonical(num) && (v.IsInt64() || v.IsUint64()) {
					failf("Parse(%q) refuses the integer: %v", text, errs)
				}
				return
			}
			if v, ok := new(big.Int).SetString(num, 10); ok && !strings.Contains(num, "_") {
				if got := plain(c); kindOf(got) != "int" || bigOf(reflect.ValueOf(got)).Cmp(v) != 0 {
					failf("Parse(%q) stores %s", text, show(c))
				}
				return
			}
			f, err := strconv.ParseFloat(num, 64)
			if err != nil || !strings.Contains(num, ".") {
				failf("Parse(%q) accepts it as %s", text, show(c))
			}
			if f32, err := strconv.ParseFloat(num, 32); err == nil {
				f = f32
			}
			if got := plain(c); kindOf(got) != "float" || reflect.ValueOf(got).Float() != f && !math.IsNaN(f) {
				failf("Parse(%q) stores %s", text, show(c))
			}
		}
		text := "{\"a\":" + num + "}"
		m, errs := parse(text)
		var c interface{}
		if m != nil {
			if v := m.GetValue("a"); v != nil {
				c = v.GetObject()
			}
		}
		check(text, c, errs)
		text = "{\"a\":[" + num + "]}"
		m, errs = parse(text)
		c = nil
		if m != nil {
			if a, _ := m.GetArray("a"); a != nil && a.Len() == 1 && (*a.GetValues())[0] != nil {
				c = (*a.GetValues())[0].GetObject()
			}
		}
		check(text, c, errs)
		return ""
	}
	oracles["C14"] = func(r *rand.Rand, n int) string {
		d := genMapNode(r, 3, false)
		m := json.NewMap()
		for i, k := range d.keys {
			m.SetObjectForMap(k, d.kids[i].build(r))
		}
		var b strings.Builder
		running = "ToJSONString of " + d.text()
		if errs := m.ToJSONString(&b); errs != nil {
			failf("ToJSONString of %s: %v", d.text(), errs)
		}
		back, errs := parse(b.String())
		if errs != nil {
			failf("Parse refuses what ToJSONString wrote: %q: %v", b.String(), errs)
		}
		if x := d.differs(back, ""); x != "" {
			failf("a map written and parsed back differs: %q\n%s", b.String(), x)
		}
		return ""
	}
	oracles["C09"] = func(r *rand.Rand, n int) string {
		d := genMapNode(r, 3, true)
		prefix := genDocString(r)
		var b strings.Builder
		b.WriteString(prefix)
		want := prefix + d.text()
		running = "ToJSONString of " + d.text()
		var errs []error
		if r.Intn(4) == 0 { // lists of texts and of errors, and errors
			var ss []string
			var es []error
			for i := r.Intn(4); i > 0; i-- {
				t := "x" + genDocString(r)
				ss = append(ss, t)
				es = append(es, fmt.Errorf("%s", t))
			}
			t := &node{kind: "array"}
			for _, s := range ss {
				t.kids = append(t.kids, &node{kind: "string", s: s})
			}
			e := fmt.Errorf("%s", "x"+prefix)
			a := json.NewArray()
			want = prefix + "[" + t.text() + ",\"" + escapeRef(e.Error()) + "\"," + t.text() + "]"
			a.AppendValue(json.NewValue([]interface{}{ss, &ss}[r.Intn(2)]))
			a.AppendValue(json.NewValue([]interface{}{e, &e}[r.Intn(2)]))
			a.AppendValue(json.NewValue([]interface{}{es, &es}[r.Intn(2)]))
			if len(ss) == 0 {
				return ""
			}
			errs = a.ToJSONString(&b)
		} else if r.Intn(2) == 0 {
			m := json.NewMap()
			for i, k := range d.keys {
				m.SetObjectForMap(k, d.kids[i].build(r))
			}
			errs = m.ToJSONString(&b)
		} else {
			d.kind = "array"
			want = prefix + d.text()
			a := json.NewArray()
			for _, k := range d.kids {
				a.AppendValue(json.NewValue(k.build(r)))
			}
			errs = a.ToJSONString(&b)
		}
		if errs != nil {
			failf("serialising %s: %v", d.text(), errs)
		}
		if b.String() != want {
			failf("serialising into a builder holding %q gives\n  %q\ninstead of\n  %q", prefix, b.String(), want)
		}
		return ""
	}
	oracles["C10"] = func(r *rand.Rand, n int) string {
		s := genDocString(r)
		if r.Intn(3) == 0 {
			b := make([]byte, r.Intn(6))
			for i := range b {
				b[i] = byte(r.Intn(256))
			}
			s = string(b)
		}
		m := json.NewMap()
		m.SetStringValue("k", s)
		m.SetStringValue(s, "v")
		var b strings.Builder
		running = fmt.Sprintf("rendering of %q", s)
		m.ToJSONString(&b)
		e := escapeRef(s)
		want := `{"k":"` + e + `","` + e + `":"v"}`
		if s == "k" {
			want = `{"k":"v"}`
		}
		if b.String() != want {
			failf("rendering of the text %q\n  %s\ninstead of\n  %s", s, b.String(), want)
		}
		// reading back every way of writing the text
		for _, t := range []string{`"` + e + `"`, quote(r, s)} {
			if t[0] == '"' && !validText(s) && t != `"`+e+`"` {
				continue
			}
			p, errs := parse(`{"k":` + t + `}`)
			if errs != nil {
				failf("Parse({\"k\":%s}) refuses it: %v", t, errs)
			}
			if got := plain(p.GetValue("k").GetObject()); got != s {
				failf("Parse({\"k\":%s}) reads %s instead of %q", t, show(got), s)
			}
		}
		return ""
	}
	oracles["C11"] = func(r *rand.Rand, n int) string {
		parse(someText(r))
		return ""
	}
	oracles["C12"] = func(r *rand.Rand, n int) string {
		t := someText(r)
		if _, errs := parse(t); errs == nil && !balanced(t) {
			failf("Parse(%q) accepts it", t)
		}
		return ""
	}
}

func validText(s string) bool {
	for _, c := range s {
		if c == 0xfffd {
			return false
		}
	}
	return true
}
