package main

// Path-wise symbolic execution of go/ssa code.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const jsonPath = "github.com/matehaxor03/holistic_json/json"
const commonPath = "github.com/matehaxor03/holistic_common/common"

type Val interface{}

type Loc struct {
	id   int
	typ  types.Type
	name string
}

// LocV points to (a part of) a cell kept on the executor's side.
type LocV struct {
	loc  *Loc
	path []int
}

// HeapPtr points to a part of a heap object.
type HeapPtr struct {
	ref  *Term
	typ  types.Type // type of the object ref points to
	path []int
}

// ElemPtr points to an element of a backing array.
type ElemPtr struct {
	base, idx *Term
	elem      types.Type
	path      []int
}

// FieldM is the address of a function field of an abstract object.
type FieldM struct {
	obj   *Term
	kind  string
	field string
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	kind  string // abstract object method
	meth  string
	self  *Term
	term  *Term // opaque
	id    int64
}

type SliceV struct{ base, off, len, cap *Term }
type GoSlice struct {
	loc    *Loc
	lo, hi int
}
type StructV struct{ f []Val }
type ArrV struct{ e []Val }
type TupleV []Val
type MapV struct{ ref *Term }
type IterV struct {
	str *Term
	m   *Term
	typ types.Type
	loc *Loc // position (strings)
}

type State struct {
	heap  map[string]*Term
	cells map[*Loc]Val
	esc   map[*Loc]*Term
	facts *Fact
	eqs   map[*Term]*Term
	known map[*Term]bool
	base  *Term
	off   int64
	path  []string
	dead  bool
	ghost map[string]Val
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), cells: make(map[*Loc]Val, len(s.cells)), esc: make(map[*Loc]*Term, len(s.esc)), facts: s.facts, eqs: make(map[*Term]*Term, len(s.eqs)), known: make(map[*Term]bool, len(s.known)), base: s.base, off: s.off, ghost: make(map[string]Val, len(s.ghost))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	for k, v := range s.eqs {
		n.eqs[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.path = append([]string(nil), s.path...)
	return n
}

type loopRun struct {
	unroll  int
	inv     *invRun
	cleared bool
}

type invRun struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	phis   map[*ssa.Phi]Val // values at the start of the iteration
	entry  *State           // state before the loop
	entryN map[string]Val
	dry    bool
	vari   *Term // variant at the start of the iteration
	iter   *Term
	locs   map[*Loc]bool
	cands  []*cand
	ws     *writeSet
	fixed  bool
	headSt *State
	onBack func(*State)
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	caller *Frame
	loops  map[*ssa.BasicBlock]*loopRun
	depth  int
	names  map[string]Val
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)), caller: f.caller, loops: make(map[*ssa.BasicBlock]*loopRun, len(f.loops)), depth: f.depth, names: make(map[string]Val, len(f.names))}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.loops {
		c := *v
		n.loops[k] = &c
	}
	for k, v := range f.names {
		n.names[k] = v
	}
	return n
}

type Cont func(st *State, res []Val)

type writeSet struct {
	locs  map[*Loc]bool
	heaps map[string]map[*Term]bool
	esc   map[*Loc]bool
	high  map[string]bool                         // written at what may have existed when the function began
	check func(st *State, name string, key *Term) // asks whether a write is to something new
}

func newWriteSet() *writeSet {
	return &writeSet{locs: map[*Loc]bool{}, heaps: map[string]map[*Term]bool{}, esc: map[*Loc]bool{}, high: map[string]bool{}}
}
func (w *writeSet) size() int {
	n := len(w.locs) + len(w.esc) + len(w.high)
	for _, m := range w.heaps {
		n += 1 + len(m)
	}
	return n
}

type Exec struct {
	lemma        *LemmaDef
	stringAxioms []*Term
	P            *Prog
	c            *Ctx
	s            *Solver
	sl           *Solver
	T            *Task
	nloc         int
	funcs        []*FuncV
	rec          []*writeSet // active recorders
	dry          int
	loopOrd      map[*ssa.BasicBlock]int
	paths        int
	steps        int
	selfs        map[string]*FuncV // self methods by field
	selfFn       map[*ssa.Function]string
	selfID       *Term
	selfK        string
	maxPath      int
	curCall      token.Pos
	axDone       map[string]bool
	rep          *Rep
	nloop        int
	oldSt        *State // state at entry
	env          *SEnv  // names of the contract under proof
	spec         *Contract
}

// ---- state helpers

func (x *Exec) newLoc(t types.Type, name string) *Loc {
	x.nloc++
	return &Loc{x.nloc, t, name}
}

func (x *Exec) heapSort(name string, el Sort) Sort { return arr(SInt, el) }

// H returns the current term of a heap array.
func (x *Exec) H(st *State, name string, s Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	t := x.c.Const("H0_"+sanitize(name), s)
	if x.T.heap0 == nil {
		x.T.heap0 = map[string]*Term{}
	}
	x.T.heap0[name] = t
	st.heap[name] = t
	if x.oldSt != nil {
		x.closed(name, t, x.oldSt)
	}
	return t
}

// closed: what existed in st refers to things that existed in st. Stated for the heaps of contracts that ask for it.
func (x *Exec) closed(name string, h *Term, st *State) {
	if _, done := x.c.axioms[h]; done {
		return
	}
	if f := x.closedFact(name, h, st); f != nil {
		x.c.axioms[h] = []*Term{f}
	}
}

// closedAt assumes it of every heap at a loop head.
func (x *Exec) closedAt(st *State) {
	if !x.T.ct.flags["closed"] {
		return
	}
	x.H(st, "G:Value:v", arr(SInt, SIface))
	for _, k := range []string{"Value", "Map", "Array"} {
		x.H(st, "H:json."+k+":0", arr(SInt, SInt))
	}
	var ns []string
	for n := range st.heap {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if f := x.closedFact(n, st.heap[n], st); f != nil {
			x.assume(st, f)
		}
	}
}

func (x *Exec) closedFact(name string, h *Term, st *State) *Term {
	if !x.T.ct.flags["closed"] {
		return nil
	}
	c := x.c
	b := c.Add(st.base, c.Int(st.off))
	r := c.BVar("r", SInt)
	sel := c.Select(h, r)
	fs := strings.SplitN(name, ":", 2)
	ref := strings.HasPrefix(fs[1], "*") || objKindName(strings.TrimSuffix(fs[1], ":0"))
	switch {
	case name == "G:Value:v":
		u := c.UnboxRef(sel)
		return c.Forall([]*Term{r}, c.Implies(c.Lt(r, b), c.Lt(u, b)), u)
	case fs[0] == "H" && ref:
		return c.Forall([]*Term{r}, c.Implies(c.Lt(r, b), c.Lt(sel, b)), sel)
	case name == "G:Array:e" || name == "G:Map:v" || fs[0] == "B" && ref || fs[0] == "MV" && strings.HasSuffix(fs[1], "]*json.Value:0"):
		i := c.BVar("i", h.sort.arrVal().arrKey())
		s2 := c.Select(sel, i)
		return c.Forall([]*Term{r, i}, c.Implies(c.Lt(r, b), c.Lt(s2, b)), s2)
	}
	return nil
}

func objKindName(n string) bool { return n == "json.Value" || n == "json.Map" || n == "json.Array" }

func (x *Exec) setH(st *State, name string, t *Term, key *Term) {
	st.heap[name] = t
	for _, r := range x.rec {
		if r.heaps[name] == nil {
			r.heaps[name] = map[*Term]bool{}
		}
		r.heaps[name][key] = true
		if r.check != nil {
			r.check(st, name, key)
		}
	}
}

func hname(t types.Type, i int) string { return fmt.Sprintf("H:%s:%d", fmtTypeName(t), i) }
func bname(t types.Type, i int) string { return fmt.Sprintf("B:%s:%d", fmtTypeName(t), i) }

func (x *Exec) curBound(st *State) *Term {
	if st.off > 0 {
		nb := x.c.NewBase()
		x.assume(st, x.c.Le(x.c.Add(st.base, x.c.Int(st.off)), nb))
		st.base, st.off = nb, 0
	}
	return st.base
}

func (x *Exec) alloc(st *State) *Term {
	r := x.c.Add(st.base, x.c.Int(st.off))
	st.off++
	return r
}

// bumpAlloc makes room for allocations done by code that is not looked at.
func (x *Exec) bumpAlloc(st *State) (old *Term) {
	old = x.curBound(st)
	nb := x.c.NewBase()
	x.assume(st, x.c.Le(old, nb))
	st.base, st.off = nb, 0
	return old
}

func (x *Exec) assume(st *State, t *Term) {
	if t.isTrue() || st.known[t] {
		return
	}
	if t.isFalse() {
		st.dead = true
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	st.known[t] = true
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if x.c.isLit(b) {
			st.eqs[a] = b
		} else if x.c.isLit(a) {
			st.eqs[b] = a
		}
	}
	st.facts = st.facts.push(t)
}

// simp decides a condition from what is known on the path, without the solver.
func (x *Exec) simp(st *State, t *Term) *Term {
	c := x.c
	if t.isTrue() || t.isFalse() {
		return t
	}
	if st.known[t] {
		return c.tTrue
	}
	if st.known[c.Not(t)] {
		return c.tFalse
	}
	switch t.op {
	case "=":
		a, b := t.args[0], t.args[1]
		if v, ok := st.eqs[a]; ok && c.isLit(b) && v != b {
			if c.Eq(v, b).isFalse() {
				return c.tFalse
			}
		}
		if v, ok := st.eqs[a]; ok && c.isLit(v) {
			if r := c.Eq(v, b); r.isTrue() || r.isFalse() {
				return r
			}
		}
	case "<=":
		a, b := t.args[0], t.args[1]
		ch := false
		if v, ok := st.eqs[a]; ok {
			a, ch = v, true
		}
		if v, ok := st.eqs[b]; ok {
			b, ch = v, true
		}
		if ch {
			if r := c.Le(a, b); r.isTrue() || r.isFalse() {
				return r
			}
		}
	case "not":
		return c.Not(x.simp(st, t.args[0]))
	case "and", "or":
		var out []*Term
		ch := false
		for _, a := range t.args {
			s := x.simp(st, a)
			if s != a {
				ch = true
			}
			out = append(out, s)
		}
		if ch {
			if t.op == "and" {
				return c.And(out...)
			}
			return c.Or(out...)
		}
	case "ite":
		g := x.simp(st, t.args[0])
		if g != t.args[0] {
			return x.simp(st, c.Ite(g, t.args[1], t.args[2]))
		}
	}
	return t
}

// valid reports whether a fact is entailed (asking the solver).
func (x *Exec) valid(st *State, t *Term) bool {
	t = x.simp(st, t)
	if t.isTrue() {
		return true
	}
	if st.dead {
		return true
	}
	if t.isFalse() {
		return x.s.Check(st.facts) == "unsat"
	}
	return x.s.Check(st.facts, x.c.Not(t)) == "unsat"
}

// feasible reports whether the condition may hold.
func (x *Exec) feasible(st *State, t *Term) bool {
	t = x.simp(st, t)
	if t.isFalse() || st.dead {
		return false
	}
	if t.isTrue() {
		return true
	}
	if x.T.ct.parts > 1 { // recursive functions cost much here and exclude little
		var keep []*Fact
		for _, f := range st.facts.list() {
			if f.t.op != "forall" && !x.c.hasRec(f.t) {
				keep = append(keep, f)
			}
		}
		return x.light().check(keep, t) != "unsat"
	}
	return x.s.Check(st.facts, t) != "unsat"
}

func (x *Exec) light() *Solver {
	if x.sl == nil {
		x.sl = NewSolver(x.c, x.T.tmo)
	}
	return x.sl
}

// prove records an obligation.
func (x *Exec) prove(st *State, kind, label string, tags []string, t *Term, pos token.Pos) {
	if x.dry > 0 || st.dead {
		return
	}
	x.T.obligation(x, st, kind, label, tags, t, pos)
}

// fork runs both sides of a condition.
func (x *Exec) fork(st *State, cond *Term, yes, no func(*State)) {
	cond = x.simp(st, cond)
	if st.dead {
		return
	}
	if cond.isTrue() {
		yes(st)
		return
	}
	if cond.isFalse() {
		no(st)
		return
	}
	nc := x.c.Not(cond)
	fy := x.feasible(st, cond)
	if !fy {
		if debugPath {
			var fs []*Term
			for _, f := range st.facts.list() {
				fs = append(fs, f.t)
			}
			os.WriteFile(fmt.Sprintf("/tmp/d/inf%d.smt2", x.c.nid), []byte(x.c.Script(fs, nc, "")), 0o644)
			fmt.Println("infeasible", x.c.nid)
		}
		x.assume(st, nc)
		no(st)
		return
	}
	fn := x.feasible(st, nc)
	if !fn {
		x.assume(st, cond)
		yes(st)
		return
	}
	x.paths++
	if x.paths > x.maxPath {
		unsup("more than %d paths", x.maxPath)
	}
	s2 := st.clone()
	x.assume(st, cond)
	yes(st)
	x.assume(s2, nc)
	no(s2)
}

// ---- values and terms

func (x *Exec) typedTerm(t *Term, ty types.Type, bound *Term) {
	if t.op != "const" && t.op != "select" && !strings.HasPrefix(t.op, "@") {
		return
	}
	c := x.c
	if t.bound {
		return
	}
	if bits, signed, ok := intRange(ty); ok {
		if _, done := c.axioms[t]; done {
			return
		}
		if t.op == "@unbox_0_Int" {
			// the range depends on the type of the content
			var as []*Term
			for i := int64(0); i < tagCount(); i++ {
				if ty := tagType(i); ty != nil {
					if bits, signed, ok := intRange(ty); ok {
						lo, hi := rangeOf(bits, signed)
						as = append(as, c.Implies(c.Eq(c.Tag(t.args[0]), c.Int(i)), c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi)))))
					}
				}
			}
			c.axioms[t] = as
			return
		}
		lo, hi := rangeOf(bits, signed)
		c.axioms[t] = []*Term{c.Le(c.Big(lo), t), c.Le(t, c.Big(hi))}
		return
	}
	if t.sort == SStr {
		// a text that exists fits in memory
		if _, done := c.axioms[t]; !done {
			c.axioms[t] = []*Term{c.Le(c.SLen(t), c.Int(1<<62))}
		}
		return
	}
	switch types.Unalias(ty).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if bound != nil {
			c.BoundRef(t, bound)
		}
	}
	if objKind(ty) != "" && bound != nil {
		c.BoundRef(t, bound)
	}
	if _, ok := types.Unalias(ty).Underlying().(*types.Interface); ok {
		if _, done := c.axioms[t]; !done {
			x.ifaceAxioms(t, bound)
		}
	}
}

func (x *Exec) ifaceAxioms(t *Term, bound *Term) {
	c := x.c
	tg := c.App("tag", SInt, t)
	as := []*Term{c.Le(c.Int(0), tg)}
	c.axioms[t] = as
	_ = bound
}

func rangeOf(bits int, signed bool) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	if signed {
		lo := new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
		hi := new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		return lo, hi
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

// fromTerms builds the value of a type out of its components.
func (x *Exec) fromTerms(st *State, ts []*Term, ty types.Type, bound *Term) Val {
	ty = types.Unalias(ty)
	c := x.c
	if objKind(ty) != "" || isBuilder(ty) || isOpaqueStruct(ty) {
		x.typedTerm(ts[0], ty, bound)
		return ts[0]
	}
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		s := SliceV{ts[0], ts[1], ts[2], ts[3]}
		x.sliceFacts(s, bound)
		return s
	case *types.Struct:
		var f []Val
		i := 0
		for k := 0; k < u.NumFields(); k++ {
			n := len(sortsOf(u.Field(k).Type()))
			f = append(f, x.fromTerms(st, ts[i:i+n], u.Field(k).Type(), bound))
			i += n
		}
		return StructV{f}
	case *types.Signature:
		t := ts[0]
		if t.isInt() {
			if t.ival.Sign() == 0 {
				return (*FuncV)(nil)
			}
		}
		for _, f := range x.funcs {
			if c.Int(-f.id) == t {
				return f
			}
		}
		return &FuncV{term: t}
	}
	x.typedTerm(ts[0], ty, bound)
	return ts[0]
}

func (x *Exec) sliceFacts(s SliceV, bound *Term) {
	c := x.c
	if s.off.op != "int" && s.off.op != "+" && s.off.op != "ite" {
		c.offs[s.off] = true
	}
	if s.len.op == "const" || s.len.op == "select" || strings.HasPrefix(s.len.op, "@") {
		if _, done := c.axioms[s.len]; !done {
			max := c.Int(1 << 62)
			c.axioms[s.len] = []*Term{c.Le(c.Int(0), s.len), c.Le(s.len, s.cap), c.Le(c.Int(0), s.off), c.Le(s.cap, max), c.Le(s.off, max), c.Implies(c.Eq(s.base, c.Int(0)), c.Eq(s.cap, c.Int(0))), c.Le(c.Int(0), s.base)}
		}
	}
	if bound != nil {
		c.BoundRef(s.base, bound)
	}
}

// toTerms gives the components of a value.
func (x *Exec) toTerms(st *State, v Val, ty types.Type) []*Term {
	c := x.c
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case SliceV:
		return []*Term{v.base, v.off, v.len, v.cap}
	case GoSlice:
		s := x.materialise(st, v)
		return []*Term{s.base, s.off, s.len, s.cap}
	case LocV:
		return []*Term{x.escape(st, v)}
	case *FuncV:
		return []*Term{x.funcTerm(v)}
	case MapV:
		return []*Term{v.ref}
	case HeapPtr:
		if len(v.path) == 0 {
			return []*Term{v.ref}
		}
		unsup("pointer into a heap object used as a value")
	case StructV:
		var out []*Term
		u := ty.Underlying().(*types.Struct)
		if objKind(ty) != "" {
			// all fields must be the methods of one abstract object
			return []*Term{x.structObj(st, v, ty)}
		}
		for i, f := range v.f {
			out = append(out, x.toTerms(st, f, u.Field(i).Type())...)
		}
		return out
	case nil:
		unsup("no value for %s", ty)
	}
	_ = c
	unsup("value %T of type %s cannot be a term", v, ty)
	return nil
}

func (x *Exec) structObj(st *State, v StructV, ty types.Type) *Term {
	// the struct under verification itself
	for _, f := range v.f {
		if fv, ok := f.(*FuncV); ok && fv != nil {
			if fv.self != nil {
				return fv.self
			}
			if x.selfID != nil {
				for _, sf := range x.selfs {
					if sf == fv || (sf.fn == fv.fn && fv.fn != nil) {
						return x.selfID
					}
				}
			}
		}
	}
	unsup("struct of closures is not a known object")
	return nil
}

func (x *Exec) funcTerm(f *FuncV) *Term {
	c := x.c
	if f == nil {
		return c.Int(0)
	}
	if f.term != nil {
		return f.term
	}
	if f.self != nil {
		return c.App("fn_"+f.kind+"_"+f.meth, SInt, f.self)
	}
	if f.id == 0 {
		x.funcs = append(x.funcs, f)
		f.id = int64(len(x.funcs))
	}
	return c.Int(-f.id)
}

// escape moves a cell to the heap so that its address can be a term.
func (x *Exec) escape(st *State, p LocV) *Term {
	if len(p.path) != 0 {
		unsup("address of a part of %s escapes", p.loc.name)
	}
	if r, ok := st.esc[p.loc]; ok {
		return r
	}
	// the object under verification
	if sv, ok := st.cells[p.loc].(StructV); ok && objKind(p.loc.typ) != "" {
		id := x.structObj(st, sv, p.loc.typ)
		r := x.alloc(st)
		n := hname(p.loc.typ, 0)
		x.setH(st, n, x.c.Store(x.H(st, n, arr(SInt, SInt)), r, id), r)
		st.esc[p.loc] = r
		for _, w := range x.rec {
			w.esc[p.loc] = true
		}
		return r
	}
	r := x.alloc(st)
	st.esc[p.loc] = r
	for _, w := range x.rec {
		w.esc[p.loc] = true
	}
	v := st.cells[p.loc]
	x.storeHeap(st, r, p.loc.typ, v)
	return r
}

func (x *Exec) storeHeap(st *State, r *Term, ty types.Type, v Val) {
	ts := x.toTerms(st, v, ty)
	ss := sortsOf(ty)
	if len(ss) != len(ts) {
		unsup("components of %s", ty)
	}
	for i, t := range ts {
		n := hname(ty, i)
		x.setH(st, n, x.c.Store(x.H(st, n, arr(SInt, ss[i])), r, t), r)
	}
}

func (x *Exec) loadHeap(st *State, r *Term, ty types.Type) Val {
	ss := sortsOf(ty)
	if ss == nil {
		unsup("load of %s", ty)
	}
	b := x.curBound(st)
	ts := make([]*Term, len(ss))
	for i := range ss {
		ts[i] = x.c.Select(x.H(st, hname(ty, i), arr(SInt, ss[i])), r)
	}
	return x.fromTerms(st, ts, ty, b)
}

func (x *Exec) loadElem(st *State, base, idx *Term, ty types.Type) Val {
	ss := sortsOf(ty)
	if ss == nil {
		unsup("load of %s", ty)
	}
	b := x.curBound(st)
	ts := make([]*Term, len(ss))
	for i := range ss {
		ts[i] = x.c.Select(x.c.Select(x.H(st, bname(ty, i), arr(SInt, arr(SInt, ss[i]))), base), idx)
	}
	return x.fromTerms(st, ts, ty, b)
}

func (x *Exec) storeElem(st *State, base, idx *Term, ty types.Type, v Val) {
	ts := x.toTerms(st, v, ty)
	ss := sortsOf(ty)
	for i, t := range ts {
		n := bname(ty, i)
		h := x.H(st, n, arr(SInt, arr(SInt, ss[i])))
		x.setH(st, n, x.c.Store(h, base, x.c.Store(x.c.Select(h, base), idx, t)), base)
	}
}

func (x *Exec) materialise(st *State, g GoSlice) SliceV {
	c := x.c
	if r, ok := st.esc[g.loc]; ok {
		return SliceV{r, c.Int(int64(g.lo)), c.Int(int64(g.hi - g.lo)), c.Sub(x.goCap(st, g), c.Int(int64(g.lo)))}
	}
	at := g.loc.typ.Underlying().(*types.Array)
	r := x.alloc(st)
	st.esc[g.loc] = r
	for _, w := range x.rec {
		w.esc[g.loc] = true
	}
	a := st.cells[g.loc].(ArrV)
	for i, e := range a.e {
		x.storeElem(st, r, c.Int(int64(i)), at.Elem(), e)
	}
	return SliceV{r, c.Int(int64(g.lo)), c.Int(int64(g.hi - g.lo)), c.Int(int64(len(a.e) - g.lo))}
}
func (x *Exec) goCap(st *State, g GoSlice) *Term {
	return x.c.Int(g.loc.typ.Underlying().(*types.Array).Len())
}

func (x *Exec) zero(ty types.Type) Val {
	c := x.c
	ty = types.Unalias(ty)
	if isBuilder(ty) {
		return c.Lit("")
	}
	if isOpaqueStruct(ty) {
		return c.App("zero_"+sanitize(typeName(ty)), SInt)
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.tFalse
		case u.Info()&types.IsInteger != 0:
			return c.Int(0)
		case u.Info()&types.IsString != 0:
			return c.Lit("")
		case u.Kind() == types.Float64:
			return c.App("f64_zero", SF64)
		case u.Kind() == types.Float32:
			return c.App("f32_zero", SF32)
		}
		return c.Int(0)
	case *types.Pointer, *types.Map, *types.Chan:
		return c.Int(0)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return c.INil()
	case *types.Slice:
		return SliceV{c.Int(0), c.Int(0), c.Int(0), c.Int(0)}
	case *types.Struct:
		var f []Val
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, x.zero(u.Field(i).Type()))
		}
		return StructV{f}
	case *types.Array:
		var e []Val
		if u.Len() > 256 {
			unsup("array of %d elements", u.Len())
		}
		for i := int64(0); i < u.Len(); i++ {
			e = append(e, x.zero(u.Elem()))
		}
		return ArrV{e}
	}
	unsup("zero value of %s", ty)
	return nil
}

// freshVal is an arbitrary value of a type.
func (x *Exec) freshVal(st *State, ty types.Type, name string) Val {
	ss := sortsOf(ty)
	if ss == nil {
		unsup("arbitrary value of %s", ty)
	}
	b := x.curBound(st)
	ts := make([]*Term, len(ss))
	for i, s := range ss {
		n := name
		if len(ss) > 1 {
			n = fmt.Sprintf("%s.%d", name, i)
		}
		ts[i] = x.c.Fresh(n, s)
	}
	return x.fromTerms(st, ts, ty, b)
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		switch s := v.(type) {
		case StructV:
			v = s.f[i]
		case ArrV:
			v = s.e[i]
		default:
			unsup("path into %T", v)
		}
	}
	return v
}
func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch s := v.(type) {
	case StructV:
		f := append([]Val(nil), s.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return StructV{f}
	case ArrV:
		e := append([]Val(nil), s.e...)
		e[path[0]] = setPath(e[path[0]], path[1:], nv)
		return ArrV{e}
	}
	unsup("path into %T", v)
	return nil
}

func (x *Exec) load(st *State, p Val, ty types.Type, pos token.Pos) Val {
	c := x.c
	switch p := p.(type) {
	case LocV:
		if r, ok := st.esc[p.loc]; ok {
			if at, isA := p.loc.typ.Underlying().(*types.Array); isA && len(p.path) >= 1 {
				v := x.loadElem(st, r, c.Int(int64(p.path[0])), at.Elem())
				return getPath(v, p.path[1:])
			}
			if sv, ok := st.cells[p.loc].(StructV); ok && objKind(p.loc.typ) != "" {
				return getPath(sv, p.path)
			}
			return getPath(x.loadHeap(st, r, p.loc.typ), p.path)
		}
		return getPath(st.cells[p.loc], p.path)
	case *Term:
		x.prove(st, "safety", "nil dereference", nil, c.Not(c.Eq(p, c.Int(0))), pos)
		x.assume(st, c.Not(c.Eq(p, c.Int(0))))
		return x.loadHeap(st, p, ty)
	case HeapPtr:
		return getPath(x.loadHeap(st, p.ref, p.typ), p.path)
	case ElemPtr:
		return getPath(x.loadElem(st, p.base, p.idx, p.elem), p.path)
	case FieldM:
		return &FuncV{kind: p.kind, meth: p.field, self: p.obj}
	}
	unsup("load through %T", p)
	return nil
}

func (x *Exec) store(st *State, p Val, ty types.Type, v Val, pos token.Pos) {
	c := x.c
	switch p := p.(type) {
	case LocV:
		if r, ok := st.esc[p.loc]; ok {
			if at, isA := p.loc.typ.Underlying().(*types.Array); isA && len(p.path) >= 1 {
				old := x.loadElem(st, r, c.Int(int64(p.path[0])), at.Elem())
				x.storeElem(st, r, c.Int(int64(p.path[0])), at.Elem(), setPath(old, p.path[1:], v))
				return
			}
			var nv Val = v
			if len(p.path) > 0 {
				nv = setPath(x.loadHeap(st, r, p.loc.typ), p.path, v)
			}
			x.storeHeap(st, r, p.loc.typ, nv)
			return
		}
		st.cells[p.loc] = setPath(st.cells[p.loc], p.path, v)
		for _, w := range x.rec {
			w.locs[p.loc] = true
		}
		return
	case *Term:
		x.prove(st, "safety", "nil dereference", nil, c.Not(c.Eq(p, c.Int(0))), pos)
		x.assume(st, c.Not(c.Eq(p, c.Int(0))))
		x.storeHeap(st, p, ty, v)
		return
	case HeapPtr:
		x.storeHeap(st, p.ref, p.typ, setPath(x.loadHeap(st, p.ref, p.typ), p.path, v))
		return
	case ElemPtr:
		nv := v
		if len(p.path) > 0 {
			nv = setPath(x.loadElem(st, p.base, p.idx, p.elem), p.path, v)
		}
		x.storeElem(st, p.base, p.idx, p.elem, nv)
		return
	case FieldM:
		unsup("store to the function field %s of an object", p.field)
	}
	unsup("store through %T", p)
}

// ---- functions

func (x *Exec) constVal(k *ssa.Const) Val {
	c := x.c
	if k.Value == nil {
		return x.zero(k.Type())
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return c.Bool(constant.BoolVal(k.Value))
	case constant.String:
		return c.Lit(constant.StringVal(k.Value))
	case constant.Int, constant.Float:
		b, _ := k.Type().Underlying().(*types.Basic)
		if b != nil && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(k.Value)
			if f == 0 {
				return x.zero(k.Type())
			}
			if b.Kind() == types.Float32 {
				return c.App("f32_const_"+sanitize(k.Value.ExactString()), SF32)
			}
			return c.App("f64_const_"+sanitize(k.Value.ExactString()), SF64)
		}
		v, ok := new(big.Int).SetString(constant.ToInt(k.Value).ExactString(), 10)
		if ok {
			return c.Big(v)
		}
	}
	unsup("constant %s", k)
	return nil
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Global:
		return HeapPtr{ref: x.c.Const("global_"+sanitize(v.String()), SInt), typ: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				set := out[h]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{h: true}
					out[h] = set
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if set[n] {
						continue
					}
					set[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	return out
}

func (x *Exec) inlineCall(st *State, fr *Frame, fn *ssa.Function, args, binds []Val, k Cont) {
	if len(fn.Blocks) == 0 {
		unsup("call of %s, which has no body here", fn)
	}
	depth := 0
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn {
			unsup("recursive call of %s needs a contract", fn)
		}
		depth++
	}
	if depth > 25 {
		unsup("calls nested too deeply at %s", fn)
	}
	x.T.noteFn(fn)
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, caller: fr, loops: map[*ssa.BasicBlock]*loopRun{}, depth: depth, names: map[string]Val{}}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
		nf.names[p.Name()] = args[i]
	}
	for i, fv := range fn.FreeVars {
		nf.env[fv] = binds[i]
	}
	if fn.Recover != nil {
		unsup("%s uses recover", fn)
	}
	x.block(nf, st, fn.Blocks[0], nil, k)
}

func (x *Exec) block(fr *Frame, st *State, b, pred *ssa.BasicBlock, k Cont) {
	if st.dead {
		return
	}
	x.steps++
	if x.steps > 400000 {
		unsup("too many steps")
	}
	// leaving a loop ends its run
	loops := x.P.loops(fr.fn)
	for h, lr := range fr.loops {
		if !loops[h][b] {
			if lr.inv != nil && lr.inv.dry {
				return // a discovery pass only looks at the body
			}
			delete(fr.loops, h)
		}
	}
	if set, isHead := loops[b]; isHead {
		if pred != nil && set[pred] {
			lr := fr.loops[b]
			if lr == nil {
				unsup("loop entered sideways")
			}
			if lr.inv != nil {
				x.backEdge(fr, st, b, pred, lr.inv)
				return
			}
			lr.unroll++
			if lr.unroll > 40 {
				unsup("loop unrolled too often")
			}
			x.phis(fr, st, b, pred)
			x.instrs(fr, st, b, 0, k)
			return
		}
		x.enterLoop(fr, st, b, pred, set, k)
		return
	}
	x.phis(fr, st, b, pred)
	x.instrs(fr, st, b, 0, k)
}

func (x *Exec) phis(fr *Frame, st *State, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(fr, p.Edges[pi]))
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
		if p.Comment != "" {
			fr.names[p.Comment] = vs[i]
		}
	}
}

var debugPath = os.Getenv("VGO_PATH") != ""

func (x *Exec) instrs(fr *Frame, st *State, b *ssa.BasicBlock, from int, k Cont) {
	if debugPath {
		fmt.Printf("%d: %s.%d\n", x.dry, fr.fn.Name(), b.Index)
	}
	for i := from; i < len(b.Instrs); i++ {
		if st.dead && debugPath {
			fmt.Println("dead at", b.Instrs[i])
		}
		if st.dead {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Call:
			x.call(fr, st, in, func(fr2 *Frame, st *State, res Val) {
				fr2.env[in] = res
				x.instrs(fr2, st, b, i+1, k)
			})
			return
		case *ssa.If:
			cond := x.val(fr, in.Cond).(*Term)
			cond = x.simp(st, cond)
			if cond.isTrue() {
				x.block(fr, st, b.Succs[0], b, k)
				return
			}
			if cond.isFalse() {
				x.block(fr, st, b.Succs[1], b, k)
				return
			}
			for _, lr := range fr.loops {
				if lr.inv == nil && loopHead(fr, b) == lr {
					unsup("the condition of an unrolled loop is not constant")
				}
			}
			f2 := fr.clone()
			x.fork(st, cond, func(st *State) {
				x.block(fr, st, b.Succs[0], b, k)
			}, func(st *State) {
				x.block(f2, st, b.Succs[1], b, k)
			})
			return
		case *ssa.Jump:
			x.block(fr, st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(fr, r))
			}
			for _, lr := range fr.loops {
				if lr.inv != nil && lr.inv.dry {
					return
				}
			}
			k(st, rs)
			return
		case *ssa.Panic:
			x.prove(st, "safety", "reachable panic", nil, x.c.tFalse, in.Pos())
			return
		case *ssa.TypeAssert:
			x.typeAssert(fr, st, in, func(fr2 *Frame, st *State) {
				x.instrs(fr2, st, b, i+1, k)
			})
			return
		default:
			x.simple(fr, st, in)
		}
	}
}

func loopHead(fr *Frame, b *ssa.BasicBlock) *loopRun { return fr.loops[b] }

func (x *Exec) simple(fr *Frame, st *State, in ssa.Instruction) {
	c := x.c
	switch in := in.(type) {
	case *ssa.DebugRef:
		if in.Object() != nil {
			v, ok := fr.env[in.X]
			if !ok {
				if k, isC := in.X.(*ssa.Const); isC {
					defer func() { recover() }()
					fr.names[in.Object().Name()] = x.constVal(k)
				}
				return
			}
			if in.IsAddr {
				fr.names["&"+in.Object().Name()] = v
			} else {
				fr.names[in.Object().Name()] = v
			}
		}
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		l := x.newLoc(t, in.Comment)
		st.cells[l] = x.zero(t)
		fr.env[in] = LocV{loc: l}
		if in.Comment != "" {
			fr.names["&"+in.Comment] = LocV{loc: l}
		}
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, x.val(fr, b))
		}
		fr.env[in] = f
	case *ssa.Store:
		x.store(st, x.val(fr, in.Addr), in.Val.Type(), x.val(fr, in.Val), in.Pos())
	case *ssa.UnOp:
		fr.env[in] = x.unop(fr, st, in)
	case *ssa.BinOp:
		fr.env[in] = x.binop(fr, st, in)
	case *ssa.FieldAddr:
		fr.env[in] = x.fieldAddr(fr, st, in)
	case *ssa.Field:
		v := x.val(fr, in.X)
		switch s := v.(type) {
		case StructV:
			fr.env[in] = s.f[in.Field]
		case *Term:
			if kd := objKind(in.X.Type()); kd != "" {
				fr.env[in] = &FuncV{kind: kd, meth: in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name(), self: s}
				return
			}
			unsup("field of %s", in.X.Type())
		default:
			unsup("field of %T", v)
		}
	case *ssa.IndexAddr:
		fr.env[in] = x.indexAddr(fr, st, in)
	case *ssa.Index:
		v := x.val(fr, in.X)
		idx := x.val(fr, in.Index).(*Term)
		switch s := v.(type) {
		case *Term: // string
			x.bounds(st, idx, c.SLen(s), in.Pos())
			fr.env[in] = x.strByte(s, idx)
		case ArrV:
			if !idx.isInt() {
				unsup("symbolic index into an array value")
			}
			fr.env[in] = s.e[idx.ival.Int64()]
		default:
			unsup("index of %T", v)
		}
	case *ssa.Lookup:
		fr.env[in] = x.lookup(fr, st, in)
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, in)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		r := x.alloc(st)
		ks, vs := mapSorts(mt)
		hn := "MH:" + fmtTypeName(mt)
		x.setH(st, hn, c.Store(x.H(st, hn, arr(SInt, arr(ks, SBool))), r, c.ConstArr(arr(ks, SBool), c.tFalse)), r)
		_ = vs
		fr.env[in] = r
	case *ssa.MakeSlice:
		n := x.val(fr, in.Len).(*Term)
		cp := x.val(fr, in.Cap).(*Term)
		x.prove(st, "safety", "makeslice length", nil, c.And(c.Le(c.Int(0), n), c.Le(n, cp)), in.Pos())
		x.assume(st, c.And(c.Le(c.Int(0), n), c.Le(n, cp)))
		el := in.Type().Underlying().(*types.Slice).Elem()
		r := x.alloc(st)
		ss := sortsOf(el)
		z := x.toTerms(st, x.zero(el), el)
		for i, s := range ss {
			nm := bname(el, i)
			x.setH(st, nm, c.Store(x.H(st, nm, arr(SInt, arr(SInt, s))), r, c.ConstArr(arr(SInt, s), z[i])), r)
		}
		fr.env[in] = SliceV{r, c.Int(0), n, cp}
	case *ssa.Slice:
		fr.env[in] = x.slice(fr, st, in)
	case *ssa.Extract:
		fr.env[in] = x.val(fr, in.Tuple).(TupleV)[in.Index]
	case *ssa.ChangeType:
		fr.env[in] = x.val(fr, in.X)
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, in.X)
	case *ssa.MakeInterface:
		fr.env[in] = x.box(st, x.val(fr, in.X), in.X.Type())
	case *ssa.Convert:
		fr.env[in] = x.convert(st, x.val(fr, in.X), in.X.Type(), in.Type(), in.Pos())
	case *ssa.Range:
		v := x.val(fr, in.X)
		t, ok := v.(*Term)
		if !ok {
			unsup("range over %T", v)
		}
		it := IterV{typ: in.X.Type()}
		if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
			it.m = t
			it.loc = x.newLoc(types.Typ[types.Int], "mapiter")
			st.cells[it.loc] = c.Int(0)
		} else {
			it.str = t
			it.loc = x.newLoc(types.Typ[types.Int], "iter")
			st.cells[it.loc] = c.Int(0)
		}
		fr.env[in] = it
	case *ssa.Next:
		fr.env[in] = x.next(fr, st, in)
	case *ssa.RunDefers:
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
}

// next steps an iterator: strings rune by rune; maps give an arbitrary present key (each key at most once is not modelled).
func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) Val {
	c := x.c
	it := x.val(fr, in.Iter).(IterV)
	if in.IsString {
		pos := st.cells[it.loc].(*Term)
		ok := c.Lt(pos, c.SLen(it.str))
		w := c.App("runewidth", SInt, it.str, pos)
		r := c.App("runeat", SInt, it.str, pos)
		x.assume(st, c.Implies(ok, c.And(c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(pos, w), c.SLen(it.str)), c.Le(c.Int(0), r), c.Le(r, c.Int(0x10FFFF)))))
		st.cells[it.loc] = c.Ite(ok, c.Add(pos, w), pos)
		for _, rc := range x.rec {
			rc.locs[it.loc] = true
		}
		return TupleV{ok, pos, r}
	}
	mt := it.typ.Underlying().(*types.Map)
	has, vals := x.mapArrs(st, it.m, mt)
	okb := c.Fresh("more", SBool)
	key := x.freshVal(st, mt.Key(), "key")
	kt := x.toTerms(st, key, mt.Key())
	x.assume(st, c.Implies(okb, c.And(c.Not(c.Eq(it.m, c.Int(0))), c.Select(has, kt[0]))))
	bd := x.curBound(st)
	var vs []*Term
	for _, v := range vals {
		vs = append(vs, c.Select(v, kt[0]))
	}
	val := x.fromTerms(st, vs, mt.Elem(), bd)
	st.ghost["mapiter"] = it
	return TupleV{okb, key, val}
}

func mapSorts(mt *types.Map) (Sort, []Sort) {
	ks := sortsOf(mt.Key())
	if len(ks) != 1 {
		unsup("map key %s", mt.Key())
	}
	vs := sortsOf(mt.Elem())
	if vs == nil {
		unsup("map element %s", mt.Elem())
	}
	return ks[0], vs
}

func (x *Exec) mapArrs(st *State, m *Term, mt *types.Map) (has *Term, vals []*Term) {
	c := x.c
	ks, vs := mapSorts(mt)
	has = c.Select(x.H(st, "MH:"+fmtTypeName(mt), arr(SInt, arr(ks, SBool))), m)
	for i, s := range vs {
		vals = append(vals, c.Select(x.H(st, fmt.Sprintf("MV:%s:%d", fmtTypeName(mt), i), arr(SInt, arr(ks, s))), m))
	}
	return
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) Val {
	c := x.c
	v := x.val(fr, in.X)
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := v.(*Term)
		idx := x.val(fr, in.Index).(*Term)
		x.bounds(st, idx, c.SLen(s), in.Pos())
		return x.strByte(s, idx)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	m := v.(*Term)
	kt := x.toTerms(st, x.val(fr, in.Index), mt.Key())
	has, vals := x.mapArrs(st, m, mt)
	ok := c.And(c.Not(c.Eq(m, c.Int(0))), c.Select(has, kt[0]))
	z := x.toTerms(st, x.zero(mt.Elem()), mt.Elem())
	b := x.curBound(st)
	var vs []*Term
	for i, a := range vals {
		e := c.Select(a, kt[0])
		x.typedTerm(e, mt.Elem(), b)
		vs = append(vs, c.Ite(ok, e, z[i]))
	}
	if len(vs) == 1 {
		x.refIte(vs[0], mt.Elem(), b)
	}
	r := x.fromTerms(st, vs, mt.Elem(), b)
	if in.CommaOk {
		return TupleV{r, ok}
	}
	return r
}

func (x *Exec) refIte(t *Term, ty types.Type, b *Term) {}

func (x *Exec) mapUpdate(fr *Frame, st *State, in *ssa.MapUpdate) {
	mt := in.Map.Type().Underlying().(*types.Map)
	m := x.val(fr, in.Map).(*Term)
	x.mapSet(st, m, mt, x.val(fr, in.Key), x.val(fr, in.Value), in.Pos())
}

func (x *Exec) mapSet(st *State, m *Term, mt *types.Map, key, v Val, pos token.Pos) {
	c := x.c
	x.prove(st, "safety", "assignment to entry in nil map", nil, c.Not(c.Eq(m, c.Int(0))), pos)
	x.assume(st, c.Not(c.Eq(m, c.Int(0))))
	kt := x.toTerms(st, key, mt.Key())
	vt := x.toTerms(st, v, mt.Elem())
	ks, vs := mapSorts(mt)
	hn := "MH:" + fmtTypeName(mt)
	h := x.H(st, hn, arr(SInt, arr(ks, SBool)))
	x.setH(st, hn, c.Store(h, m, c.Store(c.Select(h, m), kt[0], c.tTrue)), m)
	for i, s := range vs {
		n := fmt.Sprintf("MV:%s:%d", fmtTypeName(mt), i)
		h := x.H(st, n, arr(SInt, arr(ks, s)))
		x.setH(st, n, c.Store(h, m, c.Store(c.Select(h, m), kt[0], vt[i])), m)
	}
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, key Val) {
	c := x.c
	kt := x.toTerms(st, key, mt.Key())
	ks, _ := mapSorts(mt)
	hn := "MH:" + fmtTypeName(mt)
	h := x.H(st, hn, arr(SInt, arr(ks, SBool)))
	x.setH(st, hn, c.Store(h, m, c.Store(c.Select(h, m), kt[0], c.tFalse)), m)
}

func (x *Exec) strByte(s, i *Term) *Term {
	c := x.c
	if l, ok := litOf(s); ok && !i.isInt() && len(l) > 0 && len(l) <= 32 {
		r := c.Int(int64(l[len(l)-1]))
		for j := len(l) - 2; j >= 0; j-- {
			r = c.Ite(c.Eq(i, c.Int(int64(j))), c.Int(int64(l[j])), r)
		}
		return r
	}
	return c.SByte(s, i)
}

func (x *Exec) bounds(st *State, idx, n *Term, pos token.Pos) {
	c := x.c
	t := c.And(c.Le(c.Int(0), idx), c.Lt(idx, n))
	x.prove(st, "safety", "index in range", nil, t, pos)
	x.assume(st, t)
}

func (x *Exec) fieldAddr(fr *Frame, st *State, in *ssa.FieldAddr) Val {
	c := x.c
	p := x.val(fr, in.X)
	et := in.X.Type().Underlying().(*types.Pointer).Elem()
	stt := et.Underlying().(*types.Struct)
	switch p := p.(type) {
	case LocV:
		if _, isT := st.cells[p.loc].(*Term); isT && objKind(et) != "" && len(p.path) == 0 {
			o := x.load(st, p, et, in.Pos()).(*Term)
			return FieldM{o, objKind(et), stt.Field(in.Field).Name()}
		}
		if v, ok := getPathOK(st.cells[p.loc], p.path).(*Term); ok && objKind(et) != "" {
			return FieldM{v, objKind(et), stt.Field(in.Field).Name()}
		}
		return LocV{p.loc, append(append([]int(nil), p.path...), in.Field)}
	case *Term:
		x.prove(st, "safety", "nil dereference", nil, c.Not(c.Eq(p, c.Int(0))), in.Pos())
		x.assume(st, c.Not(c.Eq(p, c.Int(0))))
		if kd := objKind(et); kd != "" {
			o := x.loadHeap(st, p, et).(*Term)
			return FieldM{o, kd, stt.Field(in.Field).Name()}
		}
		return HeapPtr{p, et, []int{in.Field}}
	case HeapPtr:
		return HeapPtr{p.ref, p.typ, append(append([]int(nil), p.path...), in.Field)}
	case ElemPtr:
		return ElemPtr{p.base, p.idx, p.elem, append(append([]int(nil), p.path...), in.Field)}
	}
	unsup("field address of %T", p)
	return nil
}

func getPathOK(v Val, path []int) Val {
	for _, i := range path {
		switch s := v.(type) {
		case StructV:
			v = s.f[i]
		case ArrV:
			v = s.e[i]
		default:
			return nil
		}
	}
	return v
}

func (x *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) Val {
	c := x.c
	p := x.val(fr, in.X)
	idx := x.val(fr, in.Index).(*Term)
	switch p := p.(type) {
	case LocV:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !idx.isInt() {
			unsup("symbolic index into an array variable")
		}
		if idx.ival.Sign() < 0 || idx.ival.Int64() >= at.Len() {
			x.prove(st, "safety", "index in range", nil, c.tFalse, in.Pos())
			st.dead = true
			return nil
		}
		return LocV{p.loc, append(append([]int(nil), p.path...), int(idx.ival.Int64()))}
	case SliceV:
		x.bounds(st, idx, p.len, in.Pos())
		return ElemPtr{p.base, c.Add(p.off, idx), in.X.Type().Underlying().(*types.Slice).Elem(), nil}
	case GoSlice:
		if idx.isInt() && idx.ival.Sign() >= 0 && idx.ival.Int64() < int64(p.hi-p.lo) {
			return LocV{p.loc, []int{p.lo + int(idx.ival.Int64())}}
		}
		s := x.materialise(st, p)
		x.bounds(st, idx, s.len, in.Pos())
		return ElemPtr{s.base, c.Add(s.off, idx), in.X.Type().Underlying().(*types.Slice).Elem(), nil}
	}
	unsup("element address of %T", p)
	return nil
}

func (x *Exec) sliceOf(st *State, v Val) SliceV {
	switch v := v.(type) {
	case SliceV:
		return v
	case GoSlice:
		return x.materialise(st, v)
	}
	unsup("slice value %T", v)
	return SliceV{}
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	c := x.c
	v := x.val(fr, in.X)
	opt := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return x.val(fr, e).(*Term)
	}
	switch s := v.(type) {
	case *Term: // string
		n := c.SLen(s)
		lo := opt(in.Low, c.Int(0))
		hi := opt(in.High, n)
		t := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n))
		x.prove(st, "safety", "slice bounds", nil, t, in.Pos())
		x.assume(st, t)
		return c.SubStr(s, lo, hi)
	case LocV:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		lo, hi := 0, int(at.Len())
		if in.Low != nil {
			t := x.val(fr, in.Low).(*Term)
			if !t.isInt() {
				unsup("symbolic slice of an array")
			}
			lo = int(t.ival.Int64())
		}
		if in.High != nil {
			t := x.val(fr, in.High).(*Term)
			if !t.isInt() {
				unsup("symbolic slice of an array")
			}
			hi = int(t.ival.Int64())
		}
		return GoSlice{s.loc, lo, hi}
	case GoSlice, SliceV:
		sv := x.sliceOf(st, s)
		lo := opt(in.Low, c.Int(0))
		hi := opt(in.High, sv.len)
		mx := opt(in.Max, sv.cap)
		t := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, sv.cap))
		x.prove(st, "safety", "slice bounds", nil, t, in.Pos())
		x.assume(st, t)
		return SliceV{sv.base, c.Add(sv.off, lo), c.Sub(hi, lo), c.Sub(mx, lo)}
	}
	unsup("slice of %T", v)
	return nil
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Val {
	c := x.c
	v := x.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		return x.load(st, v, in.Type(), in.Pos())
	case token.NOT:
		return c.Not(v.(*Term))
	case token.SUB:
		if _, _, ok := intRange(in.Type()); ok {
			return x.wrap(st, c.Neg(v.(*Term)), in.Type())
		}
		if v.(*Term).sort == SF64 {
			return c.App("f64_neg", SF64, v.(*Term))
		}
		return c.App("f32_neg", SF32, v.(*Term))
	}
	unsup("operator %s", in.Op)
	return nil
}

func (x *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	c := x.c
	bits, signed, ok := intRange(ty)
	if !ok {
		return t
	}
	lo, hi := rangeOf(bits, signed)
	in := c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi)))
	if in.isTrue() || x.valid(st, in) {
		return t
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		half := new(big.Int).Rsh(m, 1)
		return c.Sub(c.Mod(c.Add(t, c.Big(half)), c.Big(m)), c.Big(half))
	}
	return c.Mod(t, c.Big(m))
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	a, b := x.val(fr, in.X), x.val(fr, in.Y)
	switch in.Op {
	case token.EQL:
		return x.equal(st, a, b, in.X.Type())
	case token.NEQ:
		return x.c.Not(x.equal(st, a, b, in.X.Type()))
	}
	return x.arith(st, in.Op, a.(*Term), b.(*Term), in.X.Type(), in.Type(), in.Pos())
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, xt, rt types.Type, pos token.Pos) Val {
	c := x.c
	if a.sort == SStr {
		switch op {
		case token.ADD:
			return c.Cat(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt := func(p, q *Term) *Term { return c.App("strlt", SBool, p, q) }
			switch op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.LEQ:
				return c.Not(lt(b, a))
			default:
				return c.Not(lt(a, b))
			}
		}
	}
	if a.sort == SF64 || a.sort == SF32 {
		p := strings.ToLower(string(a.sort))
		switch op {
		case token.LSS:
			return c.App(p+"_lt", SBool, a, b)
		case token.GTR:
			return c.App(p+"_lt", SBool, b, a)
		case token.LEQ:
			return c.App(p+"_le", SBool, a, b)
		case token.GEQ:
			return c.App(p+"_le", SBool, b, a)
		}
		return c.App(p+"_op"+sanitize(op.String())+fmt.Sprint(int(op)), a.sort, a, b)
	}
	switch op {
	case token.ADD:
		return x.wrap(st, c.Add(a, b), rt)
	case token.SUB:
		return x.wrap(st, c.Sub(a, b), rt)
	case token.MUL:
		return x.wrap(st, c.Mul(a, b), rt)
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	case token.QUO, token.REM:
		x.prove(st, "safety", "division by zero", nil, c.Not(c.Eq(b, c.Int(0))), pos)
		x.assume(st, c.Not(c.Eq(b, c.Int(0))))
		if b.isInt() && b.ival.Sign() > 0 && x.valid(st, c.Le(c.Int(0), a)) {
			if op == token.QUO {
				return c.Div(a, b)
			}
			return c.Mod(a, b)
		}
	case token.SHR:
		if b.isInt() && b.ival.IsInt64() && b.ival.Int64() < 64 {
			return c.Div(a, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(b.ival.Int64()))))
		}
	case token.SHL:
		if b.isInt() && b.ival.IsInt64() && b.ival.Int64() < 64 {
			return x.wrap(st, c.Mul(c.Big(new(big.Int).Lsh(big.NewInt(1), uint(b.ival.Int64()))), a), rt)
		}
	case token.AND:
		for i := 0; i < 2; i++ {
			if b.isInt() && b.ival.Sign() >= 0 {
				m := new(big.Int).Add(b.ival, big.NewInt(1))
				if m.BitLen() > 0 && new(big.Int).And(m, b.ival).Sign() == 0 {
					return c.Mod(a, c.Big(m))
				}
			}
			a, b = b, a
		}
	}
	// other bit operations: an arbitrary value of the type
	r := c.App("bitop"+fmt.Sprint(int(op)), SInt, a, b)
	x.typedTerm(r, rt, nil)
	return r
}

func (x *Exec) equal(st *State, a, b Val, ty types.Type) *Term {
	c := x.c
	isNilV := func(v Val) bool {
		switch v := v.(type) {
		case *Term:
			return v.isInt() && v.ival.Sign() == 0
		case SliceV:
			return v.base.isInt() && v.base.ival.Sign() == 0
		case *FuncV:
			return v == nil
		}
		return false
	}
	switch av := a.(type) {
	case LocV, GoSlice, HeapPtr, ElemPtr, FieldM:
		if isNilV(b) {
			return c.tFalse
		}
		if bl, ok := b.(LocV); ok {
			if al, ok := a.(LocV); ok {
				if al.loc != bl.loc {
					return c.tFalse
				}
				if len(al.path) == 0 && len(bl.path) == 0 {
					return c.tTrue
				}
			}
		}
		if al, ok := a.(LocV); ok {
			if bt, ok := b.(*Term); ok {
				return c.Eq(x.escape(st, al), bt)
			}
		}
	case *FuncV:
		if isNilV(b) {
			if av == nil {
				return c.tTrue
			}
			if av.term != nil {
				return c.Eq(av.term, c.Int(0))
			}
			return c.tFalse
		}
		if isNilV(a) {
			return x.equal(st, b, a, ty)
		}
	case SliceV:
		if isNilV(b) {
			return c.Eq(av.base, c.Int(0))
		}
		if isNilV(a) {
			return x.equal(st, b, a, ty)
		}
	case *Term:
		if bt, ok := b.(*Term); ok {
			if at, _ := types.Unalias(ty).Underlying().(*types.Basic); at != nil && at.Info()&types.IsFloat != 0 {
				return c.App(strings.ToLower(string(av.sort))+"_eq", SBool, av, bt)
			}
			return c.Eq(av, bt)
		}
		if _, ok := b.(LocV); ok {
			return x.equal(st, b, a, ty)
		}
	case StructV:
		if bv, ok := b.(StructV); ok {
			u := ty.Underlying().(*types.Struct)
			var cs []*Term
			for i := range av.f {
				cs = append(cs, x.equal(st, av.f[i], bv.f[i], u.Field(i).Type()))
			}
			return c.And(cs...)
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// ---- interfaces

func (x *Exec) box(st *State, v Val, ty types.Type) *Term {
	if _, ok := types.Unalias(ty).Underlying().(*types.Interface); ok {
		return v.(*Term)
	}
	ts := x.toTerms(st, v, ty)
	return x.c.Box(x.c.Int(tagOf(ty)), ts...)
}

func (x *Exec) unbox(st *State, t *Term, ty types.Type) Val {
	ss := sortsOf(ty)
	if ss == nil {
		unsup("unboxing %s", ty)
	}
	b := x.curBound(st)
	ts := make([]*Term, len(ss))
	for i, s := range ss {
		ts[i] = x.c.Unbox(t, i, s)
		if i == 0 && s == SInt && isRefType(ty) {
			ts[i] = x.c.UnboxRef(t)
		}
	}
	return x.fromTerms(st, ts, ty, b)
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, k func(*Frame, *State)) {
	c := x.c
	t := x.val(fr, in.X).(*Term)
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		var ok *Term
		if it.NumMethods() == 0 {
			ok = c.Not(c.Eq(c.Tag(t), c.Int(0)))
		} else {
			ok = c.And(c.Not(c.Eq(c.Tag(t), c.Int(0))), x.implements(c.Tag(t), in.AssertedType))
		}
		if in.CommaOk {
			fr.env[in] = TupleV{c.Ite(ok, t, c.INil()), ok}
		} else {
			x.prove(st, "safety", "type assertion", nil, ok, in.Pos())
			x.assume(st, ok)
			fr.env[in] = t
		}
		k(fr, st)
		return
	}
	ok := c.Eq(c.Tag(t), c.Int(tagOf(in.AssertedType)))
	if !in.CommaOk {
		x.prove(st, "safety", "type assertion", nil, ok, in.Pos())
		x.assume(st, ok)
		fr.env[in] = x.unbox(st, t, in.AssertedType)
		k(fr, st)
		return
	}
	f2 := fr.clone()
	x.fork(st, ok, func(st *State) {
		fr.env[in] = TupleV{x.unbox(st, t, in.AssertedType), c.tTrue}
		k(fr, st)
	}, func(st *State) {
		f2.env[in] = TupleV{x.zero(in.AssertedType), c.tFalse}
		k(f2, st)
	})
}

func (x *Exec) implements(tag *Term, it types.Type) *Term {
	c := x.c
	if tag.isInt() {
		if t := tagType(tag.ival.Int64()); t != nil {
			return c.Bool(types.Implements(t, it.Underlying().(*types.Interface)))
		}
	}
	return c.App("implements_"+sanitize(typeName(it)), SBool, tag)
}

// ---- conversions

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	c := x.c
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		t := v.(*Term)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return x.wrap(st, t, to)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				return c.App("f32_of_int", SF32, t)
			}
			return c.App("f64_of_int", SF64, t)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return x.floatConv(t, tb)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := c.App("int_of_"+strings.ToLower(string(t.sort))+"_"+tb.Name(), SInt, t)
			x.typedTerm(r, to, nil)
			return r
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return x.utf8enc(t)
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			return x.strToSlice(st, v.(*Term), sl)
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			s := x.sliceOf(st, v)
			if bk, _ := sl.Elem().Underlying().(*types.Basic); bk != nil && bk.Kind() == types.Uint8 {
				a := c.Select(x.H(st, bname(sl.Elem(), 0), arr(SInt, arr(SInt, SInt))), s.base)
				r := c.App("bytestr", SStr, a, s.off, s.len)
				x.assume(st, c.Eq(c.SLen(r), s.len))
				j := c.BVar("j", SInt)
				x.assume(st, c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, s.len)), c.Eq(c.SByte(r, j), c.Select(a, c.Add(s.off, j)))), c.SByte(r, j)))
				return r
			}
			r := c.Fresh("runestr", SStr)
			return r
		}
	}
	unsup("conversion from %s to %s", from, to)
	return nil
}

func (x *Exec) floatConv(t *Term, tb *types.Basic) *Term {
	c := x.c
	if tb.Kind() == types.Float32 {
		if t.sort == SF32 {
			return t
		}
		if t.op == "@f64_of_f32" {
			return t.args[0]
		}
		return c.App("f32_of_f64", SF32, t)
	}
	if t.sort == SF64 {
		return t
	}
	return c.App("f64_of_f32", SF64, t)
}

// utf8enc is the text of a rune.
func (x *Exec) utf8enc(t *Term) *Term {
	c := x.c
	if t.isInt() && t.ival.IsInt64() {
		return c.Lit(string(rune(t.ival.Int64())))
	}
	return c.App("utf8enc", SStr, t)
}

func (x *Exec) strToSlice(st *State, s *Term, sl *types.Slice) Val {
	c := x.c
	bk, _ := sl.Elem().Underlying().(*types.Basic)
	if bk == nil {
		unsup("conversion of a string to %s", sl)
	}
	r := x.alloc(st)
	n := bname(sl.Elem(), 0)
	h := x.H(st, n, arr(SInt, arr(SInt, SInt)))
	a := c.Fresh("strarr", arr(SInt, SInt))
	x.setH(st, n, c.Store(h, r, a), r)
	if bk.Kind() == types.Uint8 {
		l := c.SLen(s)
		j := c.BVar("j", SInt)
		x.assume(st, c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, l)), c.Eq(c.Select(a, j), c.SByte(s, j))), c.Select(a, j)))
		return SliceV{r, c.Int(0), l, l}
	}
	// runes
	l := c.App("runecount", SInt, s)
	x.assume(st, c.And(c.Le(c.Int(0), l), c.Le(l, c.SLen(s)), c.Implies(c.Lt(c.Int(0), c.SLen(s)), c.Lt(c.Int(0), l))))
	// the first rune of an ASCII text is its first byte; of a lone other byte it is not an ASCII one
	b0 := c.SByte(s, c.Int(0))
	x.assume(st, c.Implies(c.Lt(c.Int(0), c.SLen(s)), c.Ite(c.Lt(b0, c.Int(128)), c.Eq(c.Select(a, c.Int(0)), b0), c.Le(c.Int(128), c.Select(a, c.Int(0))))))
	return SliceV{r, c.Int(0), l, l}
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
