package main

// Evaluation of contract expressions in a symbolic state.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EV struct {
	v  Val
	ty types.Type
}

type SEnv struct {
	x      *Exec
	st     *State
	old    *State
	pre    *State
	vars   map[string]EV
	fr     *Frame
	inv    *invRun
	what   string
	callee bool            // a contract assumed at a call
	hrecs  map[string]bool // collects the state-dependent functions met
	head   *SEnv           // the start of the iteration
}

func (e *SEnv) fail(f string, a ...interface{}) {
	unsup("contract %s: %s", e.what, fmt.Sprintf(f, a...))
}

func (e *SEnv) with(st *State) *SEnv {
	n := *e
	n.st = st
	return &n
}

func (e *SEnv) bind(name string, v EV) *SEnv {
	n := *e
	n.vars = make(map[string]EV, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

// Bool evaluates a clause to a formula.
func (e *SEnv) Bool(x ast.Expr) *Term {
	v := e.Term(x)
	if v.sort != SBool {
		e.fail("not a formula")
	}
	return v
}

func (e *SEnv) Term(x ast.Expr) *Term {
	v := e.eval(x)
	return e.term(v)
}

func (e *SEnv) term(v EV) *Term {
	switch t := v.v.(type) {
	case *Term:
		return t
	case LocV:
		return e.x.escape(e.st, t)
	case *FuncV:
		return e.x.funcTerm(t)
	case nil:
		e.fail("no value")
	}
	if v.ty != nil {
		ts := e.x.toTerms(e.st, v.v, v.ty)
		if len(ts) == 1 {
			return ts[0]
		}
	}
	e.fail("value %T is not a term", v.v)
	return nil
}

func (e *SEnv) lookupName(n string) (EV, bool) {
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	if e.fr != nil {
		for f := e.fr; f != nil; f = f.caller {
			if v, ok := f.names["&"+n]; ok {
				switch p := v.(type) {
				case LocV:
					return EV{e.x.load(e.st, p, p.loc.typ, token.NoPos), p.loc.typ}, true
				}
			}
			if v, ok := f.names[n]; ok {
				return EV{v, f.nameType(n)}, true
			}
		}
	}
	return EV{}, false
}

func (f *Frame) nameType(n string) types.Type {
	for _, p := range f.fn.Params {
		if p.Name() == n {
			return p.Type()
		}
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && ph.Comment == n {
				return ph.Type()
			}
			if d, ok := in.(*ssa.DebugRef); ok && d.Object() != nil && d.Object().Name() == n && !d.IsAddr {
				return d.X.Type()
			}
		}
	}
	return nil
}

func (e *SEnv) eval(x ast.Expr) EV {
	c := e.x.c
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(x.Value, 0)
			if !ok {
				e.fail("number %s", x.Value)
			}
			return EV{c.Big(b), nil}
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				e.fail("string %s", x.Value)
			}
			return EV{c.Lit(s), nil}
		case token.CHAR:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				e.fail("character %s", x.Value)
			}
			return EV{c.Int(int64([]rune(s)[0])), nil}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return EV{c.tTrue, nil}
		case "false":
			return EV{c.tFalse, nil}
		case "nil":
			return EV{c.Int(0), nil}
		case "inil":
			return EV{c.INil(), nil}
		case "iter_":
			if e.inv != nil && e.inv.iter != nil {
				return EV{e.inv.iter, nil}
			}
			e.fail("no iteration count here")
		}
		if v, ok := e.lookupName(x.Name); ok {
			return v
		}
		if m, ok := e.x.P.db.macros[x.Name]; ok && len(m.params) == 0 {
			return e.eval(m.body)
		}
		if f, ok := e.x.P.db.funs[x.Name]; ok && len(f.args) == 0 {
			return EV{e.x.specApp(f), nil}
		}
		e.fail("unknown name %s", x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return EV{c.Not(e.Term(x.X)), nil}
		case token.SUB:
			return EV{c.Neg(e.Term(x.X)), nil}
		}
	case *ast.StarExpr:
		p := e.eval(x.X)
		if p.ty == nil {
			e.fail("dereference of an untyped value")
		}
		pt, ok := p.ty.Underlying().(*types.Pointer)
		if !ok {
			e.fail("dereference of %s", p.ty)
		}
		return EV{e.deref(p.v, pt.Elem()), pt.Elem()}
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.IndexExpr:
		a := e.eval(x.X)
		i := e.Term(x.Index)
		switch v := a.v.(type) {
		case SliceV:
			el := a.ty.Underlying().(*types.Slice).Elem()
			return EV{e.x.loadElem(e.st, v.base, c.Add(v.off, i), el), el}
		case GoSlice:
			s := e.x.materialise(e.st, v)
			el := a.ty.Underlying().(*types.Slice).Elem()
			return EV{e.x.loadElem(e.st, s.base, c.Add(s.off, i), el), el}
		case *Term:
			if v.sort == SStr {
				return EV{e.x.strByte(v, i), nil}
			}
			if v.sort.isArr() {
				return EV{c.Select(v, i), nil}
			}
		}
		e.fail("index of %T", a.v)
	case *ast.SliceExpr:
		s := e.Term(x.X)
		lo, hi := c.Int(0), c.SLen(s)
		if x.Low != nil {
			lo = e.Term(x.Low)
		}
		if x.High != nil {
			hi = e.Term(x.High)
		}
		return EV{c.SubStr(s, lo, hi), nil}
	case *ast.CallExpr:
		return e.call(x)
	}
	e.fail("expression %T", x)
	return EV{}
}

func (e *SEnv) deref(p Val, el types.Type) Val {
	switch p := p.(type) {
	case LocV:
		return e.x.load(e.st, p, el, token.NoPos)
	case *Term:
		return e.x.loadHeap(e.st, p, el)
	case HeapPtr, ElemPtr:
		return e.x.load(e.st, p, el, token.NoPos)
	}
	e.fail("dereference of %T", p)
	return nil
}

func (e *SEnv) binary(x *ast.BinaryExpr) EV {
	c := e.x.c
	switch x.Op {
	case token.LAND:
		a := e.Term(x.X)
		if a.isFalse() {
			return EV{a, nil}
		}
		return EV{c.And(a, e.Term(x.Y)), nil}
	case token.LOR:
		a := e.Term(x.X)
		if a.isTrue() {
			return EV{a, nil}
		}
		return EV{c.Or(a, e.Term(x.Y)), nil}
	case token.EQL, token.NEQ:
		a, b := e.eval(x.X), e.eval(x.Y)
		t := e.equal(a, b)
		if x.Op == token.NEQ {
			t = c.Not(t)
		}
		return EV{t, nil}
	}
	a, b := e.Term(x.X), e.Term(x.Y)
	switch x.Op {
	case token.ADD:
		if a.sort == SStr {
			return EV{c.Cat(a, b), nil}
		}
		return EV{c.Add(a, b), nil}
	case token.SUB:
		return EV{c.Sub(a, b), nil}
	case token.MUL:
		return EV{c.Mul(a, b), nil}
	case token.QUO:
		return EV{c.Div(a, b), nil}
	case token.REM:
		return EV{c.Mod(a, b), nil}
	case token.LSS:
		return EV{c.Lt(a, b), nil}
	case token.LEQ:
		return EV{c.Le(a, b), nil}
	case token.GTR:
		return EV{c.Lt(b, a), nil}
	case token.GEQ:
		return EV{c.Le(b, a), nil}
	}
	e.fail("operator %s", x.Op)
	return EV{}
}

func (e *SEnv) equal(a, b EV) *Term {
	at, ok1 := a.v.(*Term)
	bt, ok2 := b.v.(*Term)
	if ok1 && ok2 {
		if at.sort != bt.sort && at.sort == SIface && bt.isInt() {
			return e.x.c.Eq(e.x.c.Tag(at), e.x.c.Int(0))
		}
		return e.x.c.Eq(at, bt)
	}
	ty := a.ty
	if ty == nil {
		ty = b.ty
	}
	return e.x.equal(e.st, a.v, b.v, ty)
}

func (x *Exec) specApp(f *FunSig, args ...*Term) *Term {
	t := x.c.App(f.name, f.res, args...)
	if !x.axDone[f.name] {
		x.axDone[f.name] = true
		if r := x.P.db.recs[f.name]; r != nil {
			if len(x.c.unfold) == 0 {
				x.stringAxioms = x.catAxioms()
			}
			x.c.funAxioms[f.name] = append(x.c.funAxioms[f.name], x.stringAxioms...)
			if r.heap {
				x.c.shallow[f.name] = 1
			}
			x.c.unfold[f.name] = func(t *Term) *Term { return x.unfoldRec(r, t) }
		}
		for _, ax := range x.P.db.axiomsFor[f.name] {
			if l := ax.lemma; l != nil {
				if !hasTag(l.tags, x.T.prop) || x.lemma != nil && !x.lemma.after[ax.name] {
					continue
				}
				x.T.deps["lemma "+ax.name] = true
			}
			x.c.funAxioms[f.name] = append(x.c.funAxioms[f.name], x.axiomTerm(ax))
			if strings.Contains(ax.text, "[0]") {
				x.c.funAxioms[f.name] = append(x.c.funAxioms[f.name], x.subAxiom())
			}
		}
	}
	return t
}

// catAxioms: length and bytes of a concatenation, for texts that are concatenations only by way of a definition.
func (x *Exec) catAxioms() []*Term {
	c := x.c
	a, b, i := c.BVar("a", SStr), c.BVar("b", SStr), c.BVar("i", SInt)
	c.App("slen", SInt, c.Const("s0", SStr))
	c.App("sbyte", SInt, c.Const("s0", SStr), c.Int(0))
	ln := func(t *Term) *Term { return c.mk("@slen", SInt, t) }
	by := func(t, i *Term) *Term { return c.mk("@sbyte", SInt, t, i) }
	ab := c.mk("cat", SStr, a, b)
	return []*Term{
		c.Forall([]*Term{a, b}, c.mk("=", SBool, ln(ab), c.Add(ln(a), ln(b))), ab),
		c.Forall([]*Term{a, b, i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.Add(ln(a), ln(b)))), c.mk("=", SBool, by(ab, i), c.Ite(c.Lt(i, ln(a)), by(a, i), by(b, c.Sub(i, ln(a)))))), by(ab, i)),
	}
}

// subAxiom: bytes of a part of a text, for parts that meet an axiom about texts.
func (x *Exec) subAxiom() *Term {
	c := x.c
	a, lo, hi, i := c.BVar("a", SStr), c.BVar("lo", SInt), c.BVar("hi", SInt), c.BVar("i", SInt)
	c.App("sbyte", SInt, c.Const("s0", SStr), c.Int(0))
	c.SubStr(c.Const("s0", SStr), c.Const("i0", SInt), c.Const("i1", SInt))
	by := func(t, i *Term) *Term { return c.mk("@sbyte", SInt, t, i) }
	sub := c.mk("@sub", SStr, a, lo, hi)
	return c.Forall([]*Term{a, lo, hi, i}, c.Implies(c.And(c.Le(c.Int(0), lo), c.Le(c.Int(0), i), c.Lt(c.Add(lo, i), hi)), c.mk("=", SBool, by(sub, i), by(a, c.Add(lo, i)))), by(sub, i))
}

// unfoldRec gives the defining equation of an application of a recursive specification function.
func (x *Exec) unfoldRec(r *RecDef, t *Term) *Term {
	env := &SEnv{x: x, st: x.axState(), vars: map[string]EV{}, what: "definition of " + r.sig.name}
	if r.heap {
		env.st = x.oldSt.clone()
	}
	for i, n := range r.params {
		env.vars[n] = EV{t.args[i], nil}
	}
	return x.c.mk("=", SBool, t, env.Term(r.body))
}

// sameDefs: the definition of r (and of what it uses) reads the same things in the given state as at entry.
func (x *Exec) sameDefs(r *RecDef, st *State, seen map[string]bool) bool {
	if seen[r.sig.name] {
		return true
	}
	seen[r.sig.name] = true
	uses := map[string]bool{}
	body := func(s *State) *Term {
		env := &SEnv{x: x, st: s.clone(), vars: map[string]EV{}, what: "definition of " + r.sig.name, hrecs: uses}
		env.st.eqs, env.st.known = map[*Term]*Term{}, map[*Term]bool{}
		for i, n := range r.params {
			env.vars[n] = EV{x.c.Const("def_"+n, r.sig.args[i]), nil}
		}
		return env.Term(r.body)
	}
	if body(st) != body(x.oldSt) {
		return false
	}
	for u := range uses {
		if !x.sameDefs(x.P.db.recs[u], st, seen) {
			return false
		}
	}
	return true
}

// lemma proves the statement of a lemma for arbitrary arguments; instances of the lemma itself may be used where the
// measure is smaller (and not negative).
func (t *Task) lemma(x *Exec, st *State) {
	l := t.ct.lemma
	x.lemma = l
	c := x.c
	env := &SEnv{x: x, st: st, vars: map[string]EV{}, what: "lemma " + l.ax.name}
	for i, n := range l.ax.vars {
		env.vars[n] = EV{c.Const("l_"+n, l.ax.sorts[i]), nil}
	}
	hyp, goal := []ast.Expr{}, l.ax.body
	for {
		ce, ok := goal.(*ast.CallExpr)
		if !ok || len(ce.Args) != 2 {
			break
		}
		if id, ok := ce.Fun.(*ast.Ident); !ok || id.Name != "implies" {
			break
		}
		hyp = append(hyp, ce.Args[0])
		goal = ce.Args[1]
	}
	for _, h := range hyp {
		x.assume(st, env.Bool(h))
	}
	if r := x.s.Check(st.facts); r == "unsat" {
		return // reported as vacuous
	}
	t.reached = true
	t.exits++
	for _, u := range l.uses {
		n := u.Fun.(*ast.Ident).Name
		d := x.P.db.lemmas[n]
		if d == nil || d != l && !l.after[n] {
			unsup("lemma %s is not stated before %s", n, l.ax.name)
		}
		if len(u.Args) != len(d.ax.vars) {
			unsup("arguments of lemma %s", n)
		}
		e2 := &SEnv{x: x, st: st, vars: map[string]EV{}, what: "lemma " + n}
		for i, a := range u.Args {
			e2.vars[d.ax.vars[i]] = env.eval(a)
		}
		f := e2.Bool(d.ax.body)
		if d == l {
			if l.measure == nil {
				unsup("lemma %s uses itself without a measure", n)
			}
			m, m2 := env.Term(l.measure), e2.Term(l.measure)
			f = c.Implies(c.And(c.Le(c.Int(0), m2), c.Lt(m2, m)), f)
		} else {
			t.deps["lemma "+n] = true
		}
		x.assume(st, f)
	}
	for i, g := range conj(env.Bool(goal)) {
		t.obligation(x, st, "lemma", fmt.Sprintf("%s (part %d)", l.ax.name, i), l.tags, g, token.NoPos)
	}
}

func (x *Exec) axiomTerm(ax *AxiomDef) *Term {
	env := &SEnv{x: x, st: x.axState(), vars: map[string]EV{}, what: "axiom " + ax.name}
	var vs []*Term
	for i, n := range ax.vars {
		b := x.c.BVar(n, ax.sorts[i])
		vs = append(vs, b)
		env.vars[n] = EV{b, nil}
	}
	body := env.Bool(ax.body)
	if len(vs) == 0 {
		return body
	}
	var trig []*Term
	for _, t := range ax.trig {
		trig = append(trig, env.Term(t))
	}
	return x.c.Forall(vs, body, trig...)
}

func (x *Exec) axState() *State {
	return &State{heap: map[string]*Term{}, cells: map[*Loc]Val{}, esc: map[*Loc]*Term{}, eqs: map[*Term]*Term{}, known: map[*Term]bool{}, base: x.c.Const("axbase", SInt), ghost: map[string]Val{}}
}

func (e *SEnv) strArg(x ast.Expr) string {
	b, ok := x.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		e.fail("needs a string literal")
	}
	s, _ := strconv.Unquote(b.Value)
	return s
}

var asSorts = map[string]Sort{"asI": SInt, "asR": SInt, "asS": SStr, "asB": SBool, "asD": SF64, "asF": SF32, "asX": SIface}

func (e *SEnv) call(x *ast.CallExpr) EV {
	c := e.x.c
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		e.fail("call of %T", x.Fun)
	}
	n := id.Name
	a := x.Args
	tm := func(i int) *Term { return e.Term(a[i]) }
	if m, ok := e.x.P.db.macros[n]; ok && len(m.params) == len(a) {
		env := e
		vals := make([]EV, len(a))
		for i := range a {
			vals[i] = e.eval(a[i])
		}
		for i, p := range m.params {
			env = env.bind(p, vals[i])
		}
		env.what = e.what + "/" + n
		return env.eval(m.body)
	}
	if f, ok := e.x.P.db.funs[n]; ok {
		var ts []*Term
		for i := range a {
			t := tm(i)
			if i >= len(f.args) || t.sort != f.args[i] {
				e.fail("argument %d of %s has sort %s", i, n, t.sort)
			}
			ts = append(ts, t)
		}
		if len(ts) != len(f.args) {
			e.fail("arguments of %s", n)
		}
		if r := e.x.P.db.recs[f.name]; r != nil && r.heap {
			if e.x.oldSt == nil {
				e.fail("%s is about the state at entry of the function under proof", f.name)
			}
			// at a call it is about the state before the call; the same when it reads only what has not changed since
			if e.callee && !e.x.sameDefs(r, e.old, map[string]bool{}) {
				return EV{c.Fresh(f.name+"_then", f.res), nil}
			}
			if e.hrecs != nil {
				e.hrecs[f.name] = true
			}
		}
		return EV{e.x.specApp(f, ts...), nil}
	}
	if s, ok := asSorts[n]; ok {
		if n == "asR" {
			return EV{c.UnboxRef(tm(0)), nil}
		}
		return EV{c.Unbox(tm(0), 0, s), nil}
	}
	switch n {
	case "old":
		if e.old == nil {
			return e.eval(a[0])
		}
		return e.with(e.old).eval(a[0])
	case "pre":
		if e.pre == nil {
			e.fail("pre outside a loop")
		}
		return e.with(e.pre).eval(a[0])
	case "head":
		if e.head == nil {
			e.fail("head outside an iteration")
		}
		h := *e.head
		h.vars = e.vars
		return h.eval(a[0])
	case "ghost": // ghost("name"): the ghost variable, ghost("name", i): what it maps i to
		nm := "ghost " + e.strArg(a[0])
		var g *Term
		if v, ok := e.vars[nm]; ok {
			g = v.v.(*Term)
		} else if v, ok := e.st.ghost[nm].(*Term); ok {
			g = v
		} else {
			e.fail("no ghost variable %s", nm)
		}
		if len(a) == 1 {
			return EV{g, nil}
		}
		return EV{c.Select(g, tm(1)), nil}
	case "implies":
		g := tm(0)
		if g.isFalse() {
			return EV{c.tTrue, nil}
		}
		// what can be decided on the path is decided, so that the rest need not make sense elsewhere
		if s := e.x.simp(e.st, g); s.isFalse() {
			return EV{c.tTrue, nil}
		} else if s.isTrue() {
			g = s
		}
		return EV{c.Implies(g, tm(1)), nil}
	case "ite":
		g := e.x.simp(e.st, tm(0))
		if g.isTrue() {
			return e.eval(a[1])
		}
		if g.isFalse() {
			return e.eval(a[2])
		}
		p, q := e.eval(a[1]), e.eval(a[2])
		return EV{c.Ite(g, e.term(p), e.term(q)), p.ty}
	case "forall", "exists":
		v, ok := a[0].(*ast.Ident)
		if !ok {
			e.fail("quantifier variable")
		}
		s, err := sortByName(a[1].(*ast.Ident).Name)
		if err != nil {
			e.fail("%v", err)
		}
		b := c.BVar(v.Name, s)
		env := e.bind(v.Name, EV{b, nil})
		body := env.Bool(a[2])
		if n == "exists" {
			return EV{c.Exists([]*Term{b}, body), nil}
		}
		var trig []*Term
		for _, t := range a[3:] {
			trig = append(trig, env.Term(t))
		}
		return EV{c.Forall([]*Term{b}, body, trig...), nil}
	case "isnil":
		v := e.eval(a[0])
		switch t := v.v.(type) {
		case SliceV:
			return EV{c.Eq(t.base, c.Int(0)), nil}
		case GoSlice, LocV:
			return EV{c.tFalse, nil}
		case *FuncV:
			return EV{e.x.equal(e.st, t, (*FuncV)(nil), v.ty), nil}
		case *Term:
			if t.sort == SIface {
				return EV{c.Eq(c.Tag(t), c.Int(0)), nil}
			}
			return EV{c.Eq(t, c.Int(0)), nil}
		}
		e.fail("isnil of %T", v.v)
	case "len":
		v := e.eval(a[0])
		switch t := v.v.(type) {
		case SliceV:
			return EV{t.len, nil}
		case GoSlice:
			return EV{c.Int(int64(t.hi - t.lo)), nil}
		case *Term:
			if t.sort == SStr {
				return EV{c.SLen(t), nil}
			}
		}
		e.fail("len of %T", v.v)
	case "base", "off", "cap":
		v := e.eval(a[0])
		s := e.x.sliceOf(e.st, v.v)
		switch n {
		case "base":
			return EV{s.base, nil}
		case "off":
			return EV{s.off, nil}
		}
		return EV{s.cap, nil}
	case "tag":
		return EV{c.Tag(tm(0)), nil}
	case "tagis", "tagin":
		t := c.Tag(tm(0))
		var os []*Term
		for _, s := range a[1:] {
			os = append(os, c.Eq(t, c.Int(tagID(e.strArg(s)))))
		}
		return EV{c.Or(os...), nil}
	case "box":
		var ts []*Term
		for i := range a[1:] {
			ts = append(ts, tm(i+1))
		}
		return EV{c.Box(c.Int(tagID(e.strArg(a[0]))), ts...), nil}
	case "boxof":
		v := e.eval(a[0])
		if v.ty == nil {
			e.fail("boxof an untyped value")
		}
		return EV{e.x.box(e.st, v.v, v.ty), nil}
	case "nilish":
		return EV{e.x.nilish(e.st, tm(0)), nil}
	case "gtype":
		t := tm(0)
		return EV{c.Ite(e.x.nilish(e.st, t), c.Lit("nil"), e.x.typestr(c.Tag(t))), nil}
	case "typestr":
		return EV{e.x.typestr(tm(0)), nil}
	case "at": // at(ref, "type")
		tn := e.strArg(a[1])
		var s Sort
		switch {
		case strings.HasPrefix(tn, "json."):
			s = SInt
		case tn == "string" || tn == "strings.Builder":
			s = SStr
		case tn == "bool":
			s = SBool
		case tn == "float64":
			s = SF64
		case tn == "float32":
			s = SF32
		case tn == "error" || tn == "interface {}":
			s = SIface
		default:
			s = SInt
		}
		r := c.Select(e.x.H(e.st, "H:"+tn+":0", arr(SInt, s)), tm(0))
		if b, ok := basicByName[tn]; ok {
			e.x.typedTerm(r, b, nil)
		}
		return EV{r, basicByName[tn]}
	case "elems": // elems(v, "[]T"): the slice a content of type []T or *[]T holds
		tn := e.strArg(a[1])
		var el types.Type
		switch tn {
		case "[]string", "*[]string":
			el = types.Typ[types.String]
		case "[]error", "*[]error":
			el = types.Universe.Lookup("error").Type()
		default:
			e.fail("elems of %s", tn)
		}
		ty := types.NewSlice(el)
		if tn[0] == '*' {
			return EV{e.x.loadHeap(e.st, c.UnboxRef(tm(0)), ty), ty}
		}
		return EV{e.x.unbox(e.st, tm(0), ty), ty}
	case "fresh":
		t := tm(0)
		o := e.old
		if o == nil {
			o = e.st
		}
		return EV{c.Le(c.Add(o.base, c.Int(o.off)), t), nil}
	case "made": // it exists by now
		return EV{c.Lt(tm(0), c.Add(e.st.base, c.Int(e.st.off))), nil}
	case "ptr": // the address as a reference
		return EV{tm(0), nil}
	case "chr":
		return EV{c.Chr(tm(0)), nil}
	case "utf8enc":
		return EV{e.x.utf8enc(tm(0)), nil}
	case "cat":
		var ts []*Term
		for i := range a {
			ts = append(ts, tm(i))
		}
		return EV{c.Cat(ts...), nil}
	case "hasprefix":
		return EV{c.HasPrefixLit(tm(0), e.strArg(a[1])), nil}
	case "hassuffix":
		return EV{c.HasSuffixLit(tm(0), e.strArg(a[1])), nil}
	case "store":
		return EV{c.Store(tm(0), tm(1), tm(2)), nil}
	case "fconv":
		return EV{e.x.floatConv(tm(0), types.Typ[types.Float64]), nil}
	case "fconv32":
		return EV{e.x.floatConv(tm(0), types.Typ[types.Float32]), nil}
	case "array", "mapobj", "value": // the object of that identity
		return EV{e.Term(a[0]), e.x.P.jsonType(map[string]string{"array": "Array", "mapobj": "Map", "value": "Value"}[n])}
	case "inil":
		return EV{c.INil(), types.NewInterfaceType(nil, nil)}
	case "f64zero":
		return EV{c.App("f64_zero", SF64), nil}
	case "f32zero":
		return EV{c.App("f32_zero", SF32), nil}
	case "fofint":
		return EV{c.App("f64_of_int", SF64, tm(0)), nil}
	case "fofint32":
		return EV{c.App("f32_of_int", SF32, tm(0)), nil}
	case "sprintf": // the uninterpreted result of formatting boxed arguments
		var ts []*Term
		for i := range a[1:] {
			ts = append(ts, tm(i+1))
		}
		return EV{e.x.sprintf(e.st, e.strArg(a[0]), ts), nil}
	case "bool":
		return EV{tm(0), nil}
	case "obj":
		k, t := e.object(e.eval(a[0]))
		_ = k
		return EV{t.idTerm(e), nil}
	case "loopvar": // loopvar("type"): the variable of that type the loop changes
		if len(a) == 3 { // loopvar("type", "name", k): of several, the one of that name, otherwise the k-th
			return e.loopVarNamed(e.strArg(a[0]), e.strArg(a[1]), int(tm(2).ival.Int64()))
		}
		return e.loopVar(e.strArg(a[0]))
	case "local": // local("type"): the variable of that type made before the loop
		return e.local(e.strArg(a[0]))
	case "errmsg":
		return EV{c.App("errmsg", SStr, tm(0)), nil}
	}
	if strings.HasPrefix(n, "G_") { // ghost component of an object: G_v(o), G_n(o)...
		kind, o := e.object(e.eval(a[0]))
		return e.ghost(kind, o, n[2:], a[1:])
	}
	// an SMT function used without being declared
	e.fail("unknown function %s", n)
	return EV{}
}

var basicByName = map[string]types.Type{"int": types.Typ[types.Int], "int8": types.Typ[types.Int8], "int16": types.Typ[types.Int16], "int32": types.Typ[types.Int32], "int64": types.Typ[types.Int64], "uint": types.Typ[types.Uint], "uint8": types.Typ[types.Uint8], "uint16": types.Typ[types.Uint16], "uint32": types.Typ[types.Uint32], "uint64": types.Typ[types.Uint64]}

func (e *SEnv) loopVar(ty string) EV {
	if e.inv == nil {
		e.fail("loopvar outside a loop")
	}
	for p, v := range e.inv.phis {
		if fmtTypeName(p.Type()) == ty {
			return EV{v, p.Type()}
		}
	}
	for l := range e.inv.locs {
		if fmtTypeName(l.typ) == ty {
			return EV{e.x.load(e.st, LocV{loc: l}, l.typ, token.NoPos), l.typ}
		}
	}
	// a variable of that type in scope whose address is taken
	var found *Loc
	for fr := e.fr; fr != nil; fr = fr.caller {
		for _, v := range fr.env {
			if lv, ok := v.(LocV); ok && len(lv.path) == 0 && fmtTypeName(lv.loc.typ) == ty && (found == nil || lv.loc.id > found.id) {
				if _, live := e.st.cells[lv.loc]; live {
					found = lv.loc
				}
			}
		}
		if found != nil {
			return EV{e.x.load(e.st, LocV{loc: found}, found.typ, token.NoPos), found.typ}
		}
	}
	e.fail("no variable of type %s changed by the loop", ty)
	return EV{}
}

func (e *SEnv) loopVarNamed(ty, name string, k int) EV {
	if e.inv == nil {
		e.fail("loopvar outside a loop")
	}
	var at *ssa.Phi
	for _, in := range e.inv.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if fmtTypeName(p.Type()) != ty {
			continue
		}
		if p.Comment == name {
			at = p
			break
		}
		if k == 0 {
			at = p
		}
		k--
	}
	if at == nil {
		e.fail("the loop changes no variable %s of type %s", name, ty)
	}
	return EV{e.inv.phis[at], at.Type()}
}

// local: the value of that type that the loop does not change, from the innermost function that has one
func (e *SEnv) local(ty string) EV {
	if e.inv == nil {
		e.fail("local outside a loop")
	}
	for fr := e.fr; fr != nil; fr = fr.caller {
		var at ssa.Value
		for v, x := range fr.env {
			if _, ok := x.(*Term); !ok || fmtTypeName(v.Type()) != ty {
				continue
			}
			if _, ok := v.(*ssa.Const); ok {
				continue
			}
			if in, ok := v.(ssa.Instruction); ok && in.Parent() == e.inv.header.Parent() && (in.Block() == e.inv.header || !in.Block().Dominates(e.inv.header)) {
				continue
			}
			if at == nil || at.Pos() < v.Pos() {
				at = v
			}
		}
		if at != nil {
			return EV{fr.env[at], at.Type()}
		}
	}
	e.fail("no variable of type %s before the loop", ty)
	return EV{}
}

// ---- objects

type objT struct {
	id  *Term
	rep *Rep
}

func (o objT) idTerm(e *SEnv) *Term {
	if o.id != nil {
		return o.id
	}
	e.fail("the object has no identity yet")
	return nil
}

// Rep locates the representation of an object under verification in the variables its closures share.
type Rep struct {
	kind  string
	iface *Loc // Value: the content
	elems *Loc // Array: the elements
	keys  *Loc // Map: keys in order
	gomap Val  // Map: the Go map
	mapT  *types.Map
	vals  Val // Map: the array of values
}

func (e *SEnv) object(v EV) (string, objT) {
	x := e.x
	switch t := v.v.(type) {
	case objT:
		return x.objKindOf(t), t
	case *Term:
		if v.ty == nil {
			e.fail("object of unknown type")
		}
		if k := objKind(v.ty); k != "" {
			if t == x.selfID && x.rep != nil {
				return k, objT{t, x.rep}
			}
			return k, objT{t, nil}
		}
		if k := ptrObjKind(v.ty); k != "" {
			id := x.c.Select(x.H(e.st, "H:json."+k+":0", arr(SInt, SInt)), t)
			if id == x.selfID && x.rep != nil {
				return k, objT{id, x.rep}
			}
			return k, objT{id, nil}
		}
		e.fail("%s is not an object", v.ty)
	case LocV:
		if sv, ok := e.st.cells[t.loc].(StructV); ok {
			return e.object(EV{sv, t.loc.typ})
		}
		// a variable holding an object
		return e.object(EV{x.load(e.st, t, t.loc.typ, token.NoPos), t.loc.typ})
	case StructV:
		k := objKind(v.ty)
		if x.selfID != nil {
			func() {
				defer func() { recover() }()
				if x.structObj(e.st, t, v.ty) != x.selfID {
					k = ""
				}
			}()
			if k != "" && x.rep != nil && x.isSelfStruct(t) {
				return k, objT{x.selfID, x.rep}
			}
			k = objKind(v.ty)
		}
		// methods of one abstract object
		for _, f := range t.f {
			if fv, ok := f.(*FuncV); ok && fv != nil && fv.self != nil {
				return k, objT{fv.self, nil}
			}
		}
		return k, objT{nil, x.repOf(e.st, k, t)}
	}
	e.fail("object from %T", v.v)
	return "", objT{}
}

func (x *Exec) isSelfStruct(t StructV) bool {
	for _, f := range t.f {
		if fv, ok := f.(*FuncV); ok && fv != nil && fv.fn != nil {
			for _, sf := range x.selfs {
				if sf == fv {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) objKindOf(o objT) string {
	if o.rep != nil {
		return o.rep.kind
	}
	return ""
}

// reach collects the variables shared by the closures of an object, and those any of them assigns.
func (x *Exec) reach(st *State, v Val) (locs []*Loc, stored map[*Loc]bool, maps []Val) {
	stored = map[*Loc]bool{}
	seenL := map[*Loc]bool{}
	seenF := map[*FuncV]bool{}
	var walk func(v Val)
	var code func(fn *ssa.Function, binds []Val)
	var wild []types.Type // types written through pointers whose target is not known
	code = func(fn *ssa.Function, binds []Val) {
		res := func(a ssa.Value) (LocV, bool) {
			for i, fv := range fn.FreeVars {
				if fv == a {
					l, ok := binds[i].(LocV)
					return l, ok
				}
			}
			return LocV{}, false
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					a := in.Addr
				root:
					for {
						switch f := a.(type) {
						case *ssa.FieldAddr:
							a = f.X
							continue
						case *ssa.IndexAddr:
							if _, isP := f.X.Type().Underlying().(*types.Pointer); isP {
								a = f.X
								continue
							}
							a = nil // an element of a slice
						}
						break root
					}
					if a == nil {
						break
					}
					if l, ok := res(a); ok {
						stored[l.loc] = true
					} else if _, isA := a.(*ssa.Alloc); !isA {
						wild = append(wild, a.Type().Underlying().(*types.Pointer).Elem())
					}
				case *ssa.MakeClosure:
					var bs []Val
					for _, b := range in.Bindings {
						if l, ok := res(b); ok {
							bs = append(bs, l)
						} else {
							bs = append(bs, nil)
						}
					}
					code(in.Fn.(*ssa.Function), bs)
				case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
				default:
					// the address of a shared variable goes somewhere: it may be assigned there
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						if l, ok := res(*op); ok {
							stored[l.loc] = true
						}
					}
					if cl, ok := in.(*ssa.Call); ok {
						for _, a := range cl.Call.Args {
							if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
								if _, isS := pt.Elem().Underlying().(*types.Struct); !isS {
									wild = append(wild, pt.Elem())
								}
							}
						}
					}
				}
			}
		}
	}
	walk = func(v Val) {
		switch v := v.(type) {
		case *FuncV:
			if v == nil || seenF[v] || v.fn == nil {
				return
			}
			seenF[v] = true
			code(v.fn, v.binds)
			for _, b := range v.binds {
				walk(b)
			}
		case LocV:
			if seenL[v.loc] {
				return
			}
			seenL[v.loc] = true
			locs = append(locs, v.loc)
			if _, esc := st.esc[v.loc]; !esc {
				walk(st.cells[v.loc])
			}
		case StructV:
			for _, f := range v.f {
				walk(f)
			}
		}
	}
	walk(v)
	for _, l := range locs {
		for _, t := range wild {
			if types.Identical(t, l.typ) {
				stored[l] = true
			}
		}
	}
	return
}

func (x *Exec) repOf(st *State, kind string, sv StructV) *Rep {
	locs, _, _ := x.reach(st, sv)
	r := &Rep{kind: kind}
	for _, l := range locs {
		switch u := l.typ.Underlying().(type) {
		case *types.Interface:
			if kind == "Value" && u.NumMethods() == 0 {
				if r.iface != nil {
					if !st.storedIn(x, sv, r.iface) {
						r.iface = l
						continue
					}
					if !st.storedIn(x, sv, l) {
						continue
					}
					unsup("the content of a Value is not one variable")
				}
				r.iface = l
			}
		case *types.Slice:
			if kind == "Array" && ptrObjKind(u.Elem()) == "Value" {
				if r.elems != nil && r.elems != l {
					unsup("the elements of an Array are not one variable")
				}
				r.elems = l
			}
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && kind == "Map" && b.Kind() == types.String {
				if r.keys != nil && r.keys != l {
					unsup("the keys of a Map are not one variable")
				}
				r.keys = l
			}
		case *types.Map:
			if kind == "Map" && ptrObjKind(u.Elem()) == "Value" {
				if r.gomap != nil {
					unsup("the entries of a Map are not one variable")
				}
				r.gomap = LocV{loc: l}
				r.mapT = u
			}
		case *types.Pointer:
			if kind == "Map" && ptrObjKind(l.typ) == "Array" {
				if r.vals != nil {
					unsup("the values of a Map are not one variable")
				}
				r.vals = LocV{loc: l}
			}
			if sl, ok := u.Elem().Underlying().(*types.Slice); ok && kind == "Array" && ptrObjKind(sl.Elem()) == "Value" && r.elems == nil {
				if lv, ok := st.cells[l].(LocV); ok {
					r.elems = lv.loc
				}
			}
		}
	}
	ok := true
	switch kind {
	case "Value":
		ok = r.iface != nil
	case "Array":
		ok = r.elems != nil
	case "Map":
		ok = r.keys != nil && r.gomap != nil && r.vals != nil
	default:
		ok = false
	}
	if !ok {
		unsup("the representation of %s was not recognised", kind)
	}
	return r
}

func (st *State) storedIn(x *Exec, sv StructV, l *Loc) bool {
	_, stored, _ := x.reach(st, sv)
	return stored[l]
}

func gname(kind, comp string) string { return "G:" + kind + ":" + comp }

// ghostComps lists the abstract state of each kind of object.
var ghostComps = map[string][]struct {
	name string
	sort Sort
}{
	"Value": {{"v", SIface}},
	"Array": {{"n", SInt}, {"e", arr(SInt, SInt)}},
	"Map":   {{"n", SInt}, {"k", arr(SInt, SStr)}, {"h", arr(SStr, SBool)}, {"v", arr(SStr, SInt)}, {"x", arr(SStr, SInt)}, {"a", SInt}},
}

func (x *Exec) G(st *State, kind, comp string) *Term {
	for _, g := range ghostComps[kind] {
		if g.name == comp {
			return x.H(st, gname(kind, comp), arr(SInt, g.sort))
		}
	}
	unsup("no ghost component %s of %s", comp, kind)
	return nil
}

func (e *SEnv) ghost(kind string, o objT, comp string, args []ast.Expr) EV {
	x, c := e.x, e.x.c
	vt := types.NewPointer(x.P.jsonType("Value"))
	ld := func(l *Loc) Val { return x.load(e.st, LocV{loc: l}, l.typ, token.NoPos) }
	if o.rep == nil {
		id := o.idTerm(e)
		t := c.Select(x.G(e.st, kind, comp), id)
		switch kind + comp {
		case "Valuev":
			x.typedTerm(t, types.NewInterfaceType(nil, nil), nil)
			return EV{t, types.NewInterfaceType(nil, nil)}
		case "Arrayn", "Mapn":
			if !t.bound {
				if _, done := c.axioms[t]; !done {
					c.axioms[t] = []*Term{c.Le(c.Int(0), t), c.Le(t, c.Int(1<<62))}
				}
			}
			return EV{t, nil}
		case "Arraye", "Mapv":
			if len(args) == 0 {
				return EV{t, nil}
			}
			r := c.Select(t, e.Term(args[0]))
			if !r.bound {
				c.BoundRef(r, x.curBound(e.st))
			}
			return EV{r, vt}
		case "Mapa":
			return EV{t, x.P.jsonType("Array")}
		}
		if len(args) == 0 {
			return EV{t, nil}
		}
		return EV{c.Select(t, e.Term(args[0])), nil}
	}
	switch kind + comp {
	case "Valuev":
		return EV{ld(o.rep.iface), o.rep.iface.typ}
	case "Arrayn":
		return EV{x.sliceOf(e.st, ld(o.rep.elems)).len, nil}
	case "Arraye":
		s := x.sliceOf(e.st, ld(o.rep.elems))
		el := o.rep.elems.typ.Underlying().(*types.Slice).Elem()
		return EV{x.loadElem(e.st, s.base, c.Add(s.off, e.Term(args[0])), el), el}
	case "Mapn":
		return EV{x.sliceOf(e.st, ld(o.rep.keys)).len, nil}
	case "Mapk":
		s := x.sliceOf(e.st, ld(o.rep.keys))
		el := o.rep.keys.typ.Underlying().(*types.Slice).Elem()
		return EV{x.loadElem(e.st, s.base, c.Add(s.off, e.Term(args[0])), el), el}
	case "Maph":
		m := x.load(e.st, o.rep.gomap, nil, token.NoPos).(*Term)
		has, _ := x.mapArrs(e.st, m, o.rep.mapT)
		return EV{c.Select(has, e.Term(args[0])), nil}
	case "Mapv":
		m := x.load(e.st, o.rep.gomap, nil, token.NoPos).(*Term)
		_, vals := x.mapArrs(e.st, m, o.rep.mapT)
		r := c.Select(vals[0], e.Term(args[0]))
		if !r.bound {
			c.BoundRef(r, x.curBound(e.st))
		}
		return EV{r, vt}
	case "Mapx":
		g, ok := e.st.ghost["MX"].(*Term)
		if !ok {
			g = c.Fresh("mx", arr(SStr, SInt))
			e.st.ghost["MX"] = g
		}
		return EV{c.Select(g, e.Term(args[0])), nil}
	case "Mapa":
		p := x.load(e.st, o.rep.vals, nil, token.NoPos)
		_, ao := e.object(EV{p, types.NewPointer(x.P.jsonType("Array"))})
		return EV{ao.idTerm(e), x.P.jsonType("Array")}
	}
	e.fail("ghost component %s of %s", comp, kind)
	return EV{}
}
