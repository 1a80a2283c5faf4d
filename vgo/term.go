package main

// Hash-consed terms with a simplifier. One Ctx per verified function, so no locking.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "Str"
	SIface Sort = "Iface"
	SF64   Sort = "F64"
	SF32   Sort = "F32"
)

func arr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func (s Sort) arrVal() Sort {
	// "(Array K V)" with K atomic or nested
	t := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	k := splitSort(t)
	return Sort(strings.TrimSpace(t[len(k):]))
}
func (s Sort) arrKey() Sort {
	t := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	return Sort(splitSort(t))
}
func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }
func splitSort(t string) string {
	if t[0] != '(' {
		return t[:strings.IndexByte(t, ' ')]
	}
	d := 0
	for i := 0; i < len(t); i++ {
		if t[i] == '(' {
			d++
		} else if t[i] == ')' {
			d--
			if d == 0 {
				return t[:i+1]
			}
		}
	}
	return t
}

type Term struct {
	op    string
	args  []*Term
	sort  Sort
	ival  *big.Int
	sval  string
	id    int
	bound bool    // mentions a bound variable
	trig  []*Term // quantifiers: trigger terms
}

type FunDecl struct {
	name string
	args []Sort
	res  Sort
}

// Ctx holds the terms of one verification task.
type Ctx struct {
	tab       map[string]*Term
	nid       int
	funs      map[string]*FunDecl
	fresh     int
	tTrue     *Term
	tFalse    *Term
	facts     map[*Term]*refInfo // alloc classification of reference terms
	birth     map[*Term]*Term    // base heap array constant -> alloc bound at its birth
	frames    map[*Term]*frameInfo
	bases     []*Term // alloc base constants in order
	baseIx    map[*Term]int
	sym       map[string]*Term
	offs      map[*Term]bool  // offsets of slices
	objOf     map[*Term]*Term // see objid
	axioms    map[*Term][]*Term
	funAxioms map[string][]*Term
	unfold    map[string]func(*Term) *Term // definitions of recursive specification functions
	shallow   map[string]int               // unfolded less deep
	depth     map[*Term]int                // how many unfoldings away from the text a term is
	curDepth  int
	recIn     map[*Term]bool
}

// refInfo: an upper bound (strict) on an old reference: r < base
type refInfo struct{ base *Term }

// frameInfo: a havocked heap array that agrees with prev below bound except at the keys in except.
type frameInfo struct {
	prev   *Term
	bound  *Term
	except []*Term
}

func NewCtx() *Ctx {
	c := &Ctx{shallow: map[string]int{}, recIn: map[*Term]bool{}, unfold: map[string]func(*Term) *Term{}, depth: map[*Term]int{}, offs: map[*Term]bool{}, tab: map[string]*Term{}, funs: map[string]*FunDecl{}, facts: map[*Term]*refInfo{}, birth: map[*Term]*Term{}, frames: map[*Term]*frameInfo{}, baseIx: map[*Term]int{}, sym: map[string]*Term{}, objOf: map[*Term]*Term{}, axioms: map[*Term][]*Term{}, funAxioms: map[string][]*Term{}}
	c.tTrue = c.mk("true", SBool)
	c.tFalse = c.mk("false", SBool)
	return c
}

func (c *Ctx) mkv(op string, sort Sort, sval string, ival *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(sort))
	b.WriteByte('|')
	if ival != nil {
		b.WriteString(ival.String())
	}
	b.WriteString(sval)
	bound := op == "bvar"
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
		if a.bound {
			bound = true
		}
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		if c.curDepth < c.depth[t] {
			c.depth[t] = c.curDepth
		}
		return t
	}
	c.nid++
	t := &Term{op: op, args: append([]*Term(nil), args...), sort: sort, ival: ival, sval: sval, id: c.nid, bound: bound}
	c.tab[k] = t
	if c.curDepth > 0 {
		c.depth[t] = c.curDepth
	}
	return t
}
func (c *Ctx) mk(op string, sort Sort, args ...*Term) *Term { return c.mkv(op, sort, "", nil, args...) }

func (c *Ctx) Int(v int64) *Term    { return c.mkv("int", SInt, "", big.NewInt(v)) }
func (c *Ctx) Big(v *big.Int) *Term { return c.mkv("int", SInt, "", new(big.Int).Set(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (c *Ctx) Const(name string, s Sort) *Term { return c.mkv("const", s, name, nil) }
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	return c.Const(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), s)
}
func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "x"
	}
	return b.String()
}
func (c *Ctx) BVar(name string, s Sort) *Term {
	c.fresh++
	return c.mkv("bvar", s, fmt.Sprintf("%s?%d", sanitize(name), c.fresh), nil)
}

func (t *Term) isInt() bool  { return t.op == "int" }
func (t *Term) isTrue() bool { return t.op == "true" }
func (t *Term) isFalse() bool {
	return t.op == "false"
}

// App applies an uninterpreted (or spec) function.
func (c *Ctx) App(name string, res Sort, args ...*Term) *Term {
	if _, ok := c.funs[name]; !ok {
		as := make([]Sort, len(args))
		for i, a := range args {
			as[i] = a.sort
		}
		c.funs[name] = &FunDecl{name, as, res}
	}
	return c.mk("@"+name, res, args...)
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.tFalse
	case "false":
		return c.tTrue
	case "not":
		return a.args[0]
	case "<=": // integers: not (x <= 0) normal form: a <= b  ->  b+1 <= a
		return c.Le(c.Add(a.args[1], c.Int(1)), a.args[0])
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isTrue() || seen[a] {
			return true
		}
		if a.isFalse() {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a.op == "not" && seen[a.args[0]] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.tFalse
		}
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.tFalse
		}
	}
	if len(out) == 0 {
		return c.tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk("and", SBool, out...)
}
func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isFalse() || seen[a] {
			return true
		}
		if a.isTrue() {
			return false
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.tTrue
		}
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.tTrue
		}
	}
	if len(out) == 0 {
		return c.tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk("or", SBool, out...)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	return c.mk("ite", a.sort, g, a, b)
}

func (c *Ctx) isLit(t *Term) bool {
	return t.op == "int" || t.op == "true" || t.op == "false" || t.op == "strlit" || (t.op == "chr" && t.args[0].isInt()) || t.op == "@typestr" && t.args[0].isInt()
}

// Eq builds an equality with rewriting.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in = : %s %s : %s %s", a.sort, b.sort, c.Show(a), c.Show(b)))
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if c.isLit(a) && !c.isLit(b) {
		a, b = b, a
	}
	if a.op == "ite" && (c.isLit(b) || c.isLit(a.args[1]) || c.isLit(a.args[2])) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == "ite" && (c.isLit(a) || c.isLit(b.args[1]) || c.isLit(b.args[2])) {
		return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
	}
	switch a.sort {
	case SInt:
		d := c.Sub(a, b)
		if d.isInt() {
			return c.Bool(d.ival.Sign() == 0)
		}
		if c.distinctRefs(a, b) {
			return c.tFalse
		}
	case SStr:
		if r := c.strEq(a, b); r != nil {
			return r
		}
	case SIface:
		if strings.HasPrefix(a.op, "@box_") && strings.HasPrefix(b.op, "@box_") {
			if a.op != b.op {
				return c.tFalse
			}
			var cs []*Term
			for i := range a.args {
				cs = append(cs, c.Eq(a.args[i], b.args[i]))
			}
			return c.And(cs...)
		}
		if a.op == "@inil" && strings.HasPrefix(b.op, "@box_") || b.op == "@inil" && strings.HasPrefix(a.op, "@box_") {
			return c.tFalse
		}
		if a.op == "@inil" {
			return c.Eq(c.Tag(b), c.Int(0))
		}
		if b.op == "@inil" {
			return c.Eq(c.Tag(a), c.Int(0))
		}
	}
	if a.id > b.id && !c.isLit(b) {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

// ---- integers: linear normal form

type lin struct {
	m map[*Term]*big.Int
	k *big.Int
}

func (c *Ctx) toLin(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	var add func(t *Term, co *big.Int)
	add = func(t *Term, co *big.Int) {
		switch t.op {
		case "int":
			l.k.Add(l.k, new(big.Int).Mul(co, t.ival))
		case "+":
			for _, a := range t.args {
				add(a, co)
			}
		case "*":
			if t.args[0].isInt() {
				add(t.args[1], new(big.Int).Mul(co, t.args[0].ival))
				return
			}
			fallthrough
		default:
			if l.m[t] == nil {
				l.m[t] = new(big.Int)
			}
			l.m[t].Add(l.m[t], co)
			if l.m[t].Sign() == 0 {
				delete(l.m, t)
			}
		}
	}
	add(t, big.NewInt(1))
	return l
}
func (c *Ctx) fromLin(l lin) *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		co := l.m[t]
		if co.Cmp(big.NewInt(1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, c.mk("*", SInt, c.Big(co), t))
		}
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, c.Big(l.k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("+", SInt, out...)
}
func (c *Ctx) Add(as ...*Term) *Term {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	for _, a := range as {
		x := c.toLin(a)
		l.k.Add(l.k, x.k)
		for t, co := range x.m {
			if l.m[t] == nil {
				l.m[t] = new(big.Int)
			}
			l.m[t].Add(l.m[t], co)
			if l.m[t].Sign() == 0 {
				delete(l.m, t)
			}
		}
	}
	return c.fromLin(l)
}
func (c *Ctx) MulC(k int64, a *Term) *Term {
	x := c.toLin(a)
	co := big.NewInt(k)
	l := lin{map[*Term]*big.Int{}, new(big.Int).Mul(co, x.k)}
	if k != 0 {
		for t, v := range x.m {
			l.m[t] = new(big.Int).Mul(co, v)
		}
	}
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *Term) *Term    { return c.MulC(-1, a) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return c.Big(new(big.Int).Mul(a.ival, b.ival))
	}
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		x := c.toLin(b)
		l := lin{map[*Term]*big.Int{}, new(big.Int).Mul(a.ival, x.k)}
		if a.ival.Sign() != 0 {
			for t, v := range x.m {
				l.m[t] = new(big.Int).Mul(a.ival, v)
			}
		}
		return c.fromLin(l)
	}
	return c.mk("*", SInt, a, b)
}
func (c *Ctx) Div(a, b *Term) *Term { // floor for positive b (SMT div)
	if a.isInt() && b.isInt() && b.ival.Sign() > 0 {
		return c.Big(new(big.Int).Div(a.ival, b.ival))
	}
	return c.mk("div", SInt, a, b)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() > 0 {
		return c.Big(new(big.Int).Mod(a.ival, b.ival))
	}
	return c.mk("mod", SInt, a, b)
}

// nonneg reports whether a term is known to be >= 0 from its shape.
func (c *Ctx) nonneg(t *Term) bool {
	switch t.op {
	case "int":
		return t.ival.Sign() >= 0
	case "@slen", "mod", "@sbyte":
		return true
	}
	return false
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.toLin(c.Sub(a, b)) // d <= 0
	if len(d.m) == 0 {
		return c.Bool(d.k.Sign() <= 0)
	}
	// normal form: positive part <= negative part
	// all-nonneg shortcuts
	allNeg, allPos := true, true
	for t, co := range d.m {
		if co.Sign() > 0 {
			allNeg = false
		} else {
			allPos = false
		}
		if !c.nonneg(t) {
			allNeg, allPos = false, false
		}
	}
	if allNeg && d.k.Sign() <= 0 {
		return c.tTrue
	}
	if allPos && d.k.Sign() > 0 {
		return c.tFalse
	}
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	r := lin{map[*Term]*big.Int{}, new(big.Int)}
	for t, co := range d.m {
		if co.Sign() > 0 {
			l.m[t] = co
		} else {
			r.m[t] = new(big.Int).Neg(co)
		}
	}
	if d.k.Sign() > 0 {
		l.k.Set(d.k)
	} else {
		r.k.Neg(d.k)
	}
	return c.mk("<=", SBool, c.fromLin(l), c.fromLin(r))
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }

// ---- references

// NewBase introduces an allocation base constant: everything allocated before is below it.
func (c *Ctx) NewBase() *Term {
	b := c.Const(fmt.Sprintf("alloc!%d", len(c.bases)), SInt)
	c.baseIx[b] = len(c.bases)
	c.bases = append(c.bases, b)
	return b
}

// refClass: fresh (base index, offset) or old (strictly below base index) or constant zero.
func (c *Ctx) refClass(t *Term) (kind int, base int, off int64) {
	if t.isInt() {
		if t.ival.Sign() == 0 {
			return 3, 0, 0
		}
		return 0, 0, 0
	}
	if i, ok := c.baseIx[t]; ok {
		return 1, i, 0
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].isInt() {
		if i, ok := c.baseIx[t.args[0]]; ok {
			return 1, i, t.args[1].ival.Int64()
		}
	}
	if in, ok := c.facts[t]; ok {
		return 2, c.baseIx[in.base], 0
	}
	if t.op == "ite" {
		k1, b1, _ := c.refClass(t.args[1])
		k2, b2, _ := c.refClass(t.args[2])
		if (k1 == 2 || k1 == 3) && (k2 == 2 || k2 == 3) {
			b := b1
			if b2 > b {
				b = b2
			}
			return 2, b, 0
		}
	}
	return 0, 0, 0
}
func (c *Ctx) distinctRefs(a, b *Term) bool {
	ka, ba, oa := c.refClass(a)
	kb, bb, ob := c.refClass(b)
	if ka == 1 && kb == 1 {
		return ba == bb && oa != ob || ba != bb && c.basesApart(ba, oa, bb, ob)
	}
	if ka == 1 && kb == 2 {
		return ba >= bb
	}
	if ka == 2 && kb == 1 {
		return bb >= ba
	}
	if ka == 1 && kb == 3 || ka == 3 && kb == 1 {
		return true
	}
	return false
}

// baseGap[i] is the number of allocations made above base i before base i+1 was introduced; base i+1 >= base i + gap.
func (c *Ctx) basesApart(ba int, oa int64, bb int, ob int64) bool {
	// a refs handed out from base ba lie below base bb when ba < bb (a new base is above everything allocated)
	return true
}

// BoundRef records that t is below base.
func (c *Ctx) BoundRef(t, base *Term) {
	if t.isInt() {
		return
	}
	if k, _, _ := c.refClass(t); k == 1 {
		return
	}
	if in, ok := c.facts[t]; ok {
		if c.baseIx[in.base] <= c.baseIx[base] {
			return
		}
	}
	c.facts[t] = &refInfo{base}
}

// ---- arrays

func (c *Ctx) Select(a, k *Term) *Term {
	for {
		switch a.op {
		case "store":
			e := c.Eq(a.args[1], k)
			if e.isTrue() {
				return a.args[2]
			}
			if e.isFalse() {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "acopy": // dst doff src soff n
			dst, doff, src, soff, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
			in := c.And(c.Le(doff, k), c.Lt(k, c.Add(doff, n)))
			if in.isTrue() {
				a, k = src, c.Add(soff, c.Sub(k, doff))
				continue
			}
			if in.isFalse() {
				a = dst
				continue
			}
			return c.Ite(in, c.Select(src, c.Add(soff, c.Sub(k, doff))), c.Select(dst, k))
		case "ite":
			if a.args[1].op == "store" || a.args[2].op == "store" {
				return c.Ite(a.args[0], c.Select(a.args[1], k), c.Select(a.args[2], k))
			}
		case "const":
			if f, ok := c.frames[a]; ok {
				kk, kb, _ := c.refClass(k)
				if kk == 2 && kb <= c.baseIx[f.bound] || kk == 3 || kk == 1 && kb < c.baseIx[f.bound] {
					ok := true
					for _, e := range f.except {
						if !c.Eq(e, k).isFalse() {
							ok = false
						}
					}
					if ok {
						a = f.prev
						continue
					}
				}
			}
		}
		break
	}
	return c.mk("select", a.sort.arrVal(), a, k)
}
func (c *Ctx) Store(a, k, v *Term) *Term {
	if a.op == "store" && a.args[1] == k {
		return c.Store(a.args[0], k, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == k {
		return a
	}
	return c.mk("store", a.sort, a, k, v)
}
func (c *Ctx) ConstArr(s Sort, v *Term) *Term { return c.mk("constarr", s, v) }
func (c *Ctx) ACopy(dst, doff, src, soff, n *Term) *Term {
	if n.isInt() && n.ival.Sign() == 0 {
		return dst
	}
	if dst == src && doff == soff {
		return dst
	}
	return c.mk("acopy", dst.sort, dst, doff, src, soff, n)
}

// ---- quantifiers

func (c *Ctx) Forall(vs []*Term, body *Term, trig ...*Term) *Term {
	if body.isTrue() || body.isFalse() && false {
		return c.tTrue
	}
	if !body.bound {
		return body
	}
	t := c.mk("forall", SBool, append(append([]*Term{}, vs...), body)...)
	// still bound if it mentions an outer bound variable
	t.bound = c.freeBound(body, vs)
	t.trig = trig
	return t
}
func (c *Ctx) Exists(vs []*Term, body *Term) *Term {
	if !body.bound {
		return body
	}
	t := c.mk("exists", SBool, append(append([]*Term{}, vs...), body)...)
	t.bound = c.freeBound(body, vs)
	return t
}
func (c *Ctx) freeBound(t *Term, vs []*Term) bool {
	bound := map[*Term]bool{}
	for _, v := range vs {
		bound[v] = true
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.op == "bvar" {
			return !bound[t]
		}
		if seen[t] || !t.bound {
			return false
		}
		seen[t] = true
		as := t.args
		if t.op == "forall" || t.op == "exists" {
			for _, v := range as[:len(as)-1] {
				bound[v] = true
			}
		}
		for _, a := range as {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// Subst replaces terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var go1 func(t *Term) *Term
	go1 = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = go1(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return go1(t)
}
func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "not":
		return c.Not(as[0])
	case "=":
		return c.Eq(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "+":
		return c.Add(as...)
	case "*":
		return c.Mul(as[0], as[1])
	case "div":
		return c.Div(as[0], as[1])
	case "mod":
		return c.Mod(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	case "acopy":
		return c.ACopy(as[0], as[1], as[2], as[3], as[4])
	case "cat":
		return c.Cat(as...)
	case "chr":
		return c.Chr(as[0])
	case "@sub":
		return c.SubStr(as[0], as[1], as[2])
	case "@slen":
		return c.SLen(as[0])
	case "@sbyte":
		return c.SByte(as[0], as[1])
	case "@tag":
		return c.Tag(as[0])
	case "forall":
		var trig []*Term
		return c.Forall(as[:len(as)-1], as[len(as)-1], trig...)
	case "exists":
		return c.Exists(as[:len(as)-1], as[len(as)-1])
	}
	if strings.HasPrefix(t.op, "@unbox_") {
		return c.unboxOp(t.op[1:], t.sort, as[0])
	}
	return c.mkv(t.op, t.sort, t.sval, t.ival, as...)
}

// ---- interfaces

func (c *Ctx) Tag(x *Term) *Term {
	if x.op == "@inil" {
		return c.Int(0)
	}
	if strings.HasPrefix(x.op, "@box_") {
		return x.args[0]
	}
	if x.op == "ite" {
		return c.Ite(x.args[0], c.Tag(x.args[1]), c.Tag(x.args[2]))
	}
	return c.App("tag", SInt, x)
}
func (c *Ctx) INil() *Term { return c.App("inil", SIface) }
func (c *Ctx) Box(tag *Term, comps ...*Term) *Term {
	// re-boxing what was unboxed from x gives x (sound when tag(x)=tag, which holds where an assertion succeeded)
	name := "box"
	for _, x := range comps {
		name += "_" + string(x.sort)
	}
	return c.App(name, SIface, append([]*Term{tag}, comps...)...)
}

// UnboxRef is the reference in a boxed pointer, object or slice. References and integers have selectors of their own,
// so that what is known of one kind of content says nothing about the other.
func (c *Ctx) UnboxRef(x *Term) *Term { return c.unboxOp("unbox_0_Ref", SInt, x) }
func (c *Ctx) Unbox(x *Term, i int, s Sort) *Term {
	return c.unboxOp(fmt.Sprintf("unbox_%d_%s", i, s), s, x)
}
func (c *Ctx) unboxOp(name string, s Sort, x *Term) *Term {
	if strings.HasPrefix(x.op, "@box_") {
		var i int
		fmt.Sscanf(name, "unbox_%d_", &i)
		if i+1 < len(x.args) && x.args[i+1].sort == s {
			return x.args[i+1]
		}
	}
	if x.op == "ite" {
		return c.Ite(x.args[0], c.unboxOp(name, s, x.args[1]), c.unboxOp(name, s, x.args[2]))
	}
	return c.App(name, s, x)
}

// ---- printing

func (c *Ctx) Show(t *Term) string {
	switch t.op {
	case "int":
		return t.ival.String()
	case "const", "bvar":
		return t.sval
	case "strlit":
		return fmt.Sprintf("%q", t.sval)
	case "true", "false":
		return t.op
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(strings.TrimPrefix(t.op, "@"))
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(c.Show(a))
		if b.Len() > 4000 {
			b.WriteString("...")
			break
		}
	}
	b.WriteByte(')')
	return b.String()
}

// hasRec: the term mentions a recursive specification function.
func (c *Ctx) hasRec(t *Term) bool {
	if r, ok := c.recIn[t]; ok {
		return r
	}
	r := false
	if strings.HasPrefix(t.op, "@") {
		_, r = c.unfold[t.op[1:]]
	}
	for _, a := range t.args {
		if r {
			break
		}
		r = c.hasRec(a)
	}
	c.recIn[t] = r
	return r
}
