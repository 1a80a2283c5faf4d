package main

// One verification task: a function or method against its contract, for one property.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var solverErrs sync.Map

type Obl struct {
	Func   string
	Kind   string
	Label  string
	Tags   []string
	Pos    string
	Paths  int
	Status string // proved, failed
	By     string
	Detail string
	Model  string
	ns     int64
}

type Task struct {
	P       *Prog
	ct      *Contract
	prop    string
	heap0   map[string]*Term
	obls    map[string]*Obl
	order   []string
	fns     map[string]bool
	models  map[string]bool
	deps    map[string]bool
	assume  map[string]bool
	loopsN  map[int]string
	err     string
	reached bool
	exits   int
	wall    time.Duration
	x       *Exec
	nQuery  int
	by      map[string]int
	tmo     int
	nFailed int
	covered map[*Clause]bool
	part    int // of parts: only the obligations of this part are discharged here
	parts   int
}

func NewTask(P *Prog, ct *Contract, prop string) *Task {
	return &Task{P: P, ct: ct, prop: prop, obls: map[string]*Obl{}, fns: map[string]bool{}, models: map[string]bool{}, deps: map[string]bool{}, assume: map[string]bool{}, loopsN: map[int]string{}, by: map[string]int{}, covered: map[*Clause]bool{}, tmo: 8000}
}

func (t *Task) noteFn(fn *ssa.Function)  { t.fns[fn.String()+" "+t.P.pos(fn.Pos())] = true }
func (t *Task) noteModel(n string)       { t.models[n] = true }
func (t *Task) assumption(s string)      { t.assume[s] = true }
func (t *Task) useContract(ct *Contract) { t.deps[ct.key] = true }
func (t *Task) noteLoop(x *Exec, ord int, b *ssa.BasicBlock, sp *LoopSpec) {
	n := 0
	if sp != nil {
		n = len(sp.inv)
	}
	t.loopsN[ord] = fmt.Sprintf("%s: %d invariants from the contract", b.Parent().Name(), n)
}

// one failed obligation is enough for the answer; a long run stops there
var anyFailed atomic.Bool
var started = time.Now()

// mine: every run explores all paths of the function and discharges its part of the obligations on each of them.
func (t *Task) mine(id string) bool {
	if t.parts <= 1 {
		return true
	}
	h := fnv.New32a()
	h.Write([]byte(id))
	return int(h.Sum32()>>4)%t.parts == t.part
}

// merge puts the parts together. An obligation counts as its own part left it.
func merge(ts []*Task) *Task {
	t := ts[0]
	for _, u := range ts[1:] {
		for _, id := range u.order {
			o, p := u.obls[id], t.obls[id]
			if p == nil {
				t.obls[id] = o
				t.order = append(t.order, id)
			} else if u.mine(id) {
				t.obls[id] = o
			}
		}
		for k, v := range u.by {
			t.by[k] += v
		}
		for k, v := range u.covered {
			t.covered[k] = v
		}
		if u.err != "" {
			t.err = u.err
		}
		if !u.reached {
			t.reached = false
		}
		for _, m := range []struct{ a, b map[string]bool }{{t.fns, u.fns}, {t.models, u.models}, {t.deps, u.deps}, {t.assume, u.assume}} {
			for k := range m.b {
				m.a[k] = true
			}
		}
		t.nQuery += u.nQuery
		t.wall = max(t.wall, u.wall)
	}
	return t
}

func (t *Task) obligation(x *Exec, st *State, kind, label string, tags []string, f *Term, pos token.Pos) {
	p := t.P.pos(pos)
	id := kind + "|" + label
	if kind == "safety" || kind == "requires" {
		id += "|" + p
	}
	o := t.obls[id]
	if o == nil {
		o = &Obl{Func: t.ct.key, Kind: kind, Label: label, Tags: tags, Pos: p, Status: "proved"}
		t.obls[id] = o
		t.order = append(t.order, id)
	}
	o.Paths++
	if o.Status == "failed" {
		return // reported once
	}
	if !t.mine(id) {
		return // discharged by another run of the same function
	}
	if anyFailed.Load() && time.Since(started) > 5*time.Minute {
		o.By = "not attempted: the answer is known"
		return
	}
	f = x.simp(st, f)
	if f.isTrue() {
		if o.By == "" {
			o.By = "simplifier"
		}
		t.by["simplifier"]++
		return
	}
	if st.dead {
		return
	}
	t.nQuery++
	t0 := time.Now()
	defer func() { o.ns += int64(time.Since(t0)) }()
	if len(x.c.unfold) > 0 && !x.c.hasRec(f) {
		// a goal that does not speak of recursive functions rarely needs the facts that do
		var facts []*Term
		n := 0
		for _, fa := range st.facts.list() {
			if x.c.hasRec(fa.t) {
				n++
				continue
			}
			facts = append(facts, fa.t)
		}
		if n > 0 {
			if d := os.Getenv("VGO_DUMP"); d != "" {
				os.WriteFile(d+"/light_"+sanitize(id)+".smt2", []byte(x.c.Script(facts, f, "")), 0o644)
			}
			if a, _ := RunScript([]string{"z3-new", "-in", "-smt2", "-T:3"}, x.c.Script(facts, f, ""), 4*time.Second); a == "unsat" {
				o.By = "z3 5"
				t.by["z3 5"]++
				return
			}
		}
	}
	if len(x.c.shallow) > 0 {
		// texts given by recursive definitions: rewriting first
		if gs := split(x.c, f, nil, 0); len(gs) <= 64 && t.textGoals(x, st, gs) {
			o.By = "z3 5"
			t.by["z3 5"]++
			return
		}
	}
	r := x.s.Check(st.facts, x.c.Not(f))
	if r == "unsat" {
		o.By = "z3 5"
		t.by["z3 5"]++
		if crossCheck && o.Paths <= 20 {
			t.cross(x, st, f)
		}
		return
	}
	// case by case
	if r != "sat" {
		gs := split(x.c, f, nil, 0)
		if len(gs) >= 1 && len(gs) <= 64 {
			all := true
			for _, g := range gs {
				ex := append(append([]*Term{}, g.hyps...), x.c.Not(g.goal))
				if g.goal.op == "=" && g.goal.args[0].sort == SStr {
					if t.stringGoal(x, st, g.hyps, g.goal, 0) {
						continue
					}
				}
				if a := x.s.Check(st.facts, ex...); a != "unsat" {
					all = false
					f = x.c.Implies(x.c.And(g.hyps...), g.goal)
					r = a
					break
				}
			}
			if all {
				o.By = "z3 5"
				t.by["z3 5"]++
				return
			}
		}
	}
	var facts []*Term
	for _, fa := range st.facts.list() {
		facts = append(facts, fa.t)
	}
	script := x.c.Script(facts, f, "")
	if r != "sat" && t.nFailed < 12 {
		type ans struct{ by, a string }
		ch := make(chan ans, 3)
		bs := [][]string{{"cvc5", "--lang=smt2", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", t.tmo), "-"}, {"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", t.tmo/1000+1)}, {"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", t.tmo/1000+1)}}
		for _, b := range bs {
			go func() {
				a, _ := RunScript(b, script, time.Duration(2*t.tmo)*time.Millisecond)
				ch <- ans{b[0], a}
			}()
		}
		for range bs {
			a := <-ch
			if a.a == "unsat" {
				o.By = a.by
				t.by[a.by]++
				return
			}
			if a.a == "sat" {
				r = "sat"
				break
			}
		}
	}
	t.nFailed++
	anyFailed.Store(true)
	o.Status = "failed"
	o.Detail = fmt.Sprintf("the solver answers %s for the negation of\n  %s\non the path\n%s", r, short(x.c.Show(f), 3000), pathText(x, st))
	if r == "sat" {
		o.Detail += "\n(the solver gave a counterexample in terms of the uninterpreted functions; the search for a running input starts from the contract's oracle)"
	}
	if d := os.Getenv("VGO_DUMP"); d != "" {
		os.WriteFile(d+"/"+sanitize(t.ct.key+"_"+id)+".smt2", []byte(script), 0o644)
	}
}

type subgoal struct {
	hyps []*Term
	goal *Term
}

// split divides a goal: conjunctions, implications, case distinctions and universal quantifiers (by a new constant).
func split(c *Ctx, f *Term, hyps []*Term, depth int) []subgoal {
	with := func(h ...*Term) []*Term { return append(append([]*Term{}, hyps...), h...) }
	if depth < 12 {
		switch f.op {
		case "and":
			var out []subgoal
			for _, a := range f.args {
				out = append(out, split(c, a, hyps, depth+1)...)
			}
			return out
		case "or": // the last part that can be divided is the goal, the others' negations are given
			k := -1
			for i, a := range f.args {
				if a.op == "and" || a.op == "ite" || a.op == "forall" || a.op == "=" && (a.args[0].sort == SBool || a.args[0].sort == SStr) {
					k = i
				}
			}
			if k >= 0 {
				h := hyps
				for i, a := range f.args {
					if i != k {
						h = append(append([]*Term{}, h...), c.Not(a))
					}
				}
				return split(c, f.args[k], h, depth+1)
			}
		case "=":
			if f.args[0].sort == SBool && depth < 8 {
				a, b := f.args[0], f.args[1]
				return append(split(c, b, with(a), depth+1), split(c, a, with(b), depth+1)...)
			}
		case "ite":
			return append(split(c, f.args[1], with(f.args[0]), depth+1), split(c, f.args[2], with(c.Not(f.args[0])), depth+1)...)
		case "forall":
			m := map[*Term]*Term{}
			n := len(f.args) - 1
			for _, v := range f.args[:n] {
				m[v] = c.Fresh("sk", v.sort)
			}
			gs := split(c, c.Subst(f.args[n], m), hyps, depth+1)
			for _, x := range f.trig { // the term that stands for the instance may be in a part split off
				w := c.Subst(x, m)
				for i, g := range gs {
					if len(gs) > 1 && !occurs(w, g.goal) && !anyOccurs(w, g.hyps) {
						gs[i].hyps = append(append([]*Term{}, g.hyps...), c.Eq(c.Fresh("seen", w.sort), w))
					}
				}
			}
			return gs
		}
	}
	return []subgoal{{hyps, f}}
}

func anyOccurs(w *Term, in []*Term) bool {
	for _, t := range in {
		if occurs(w, t) {
			return true
		}
	}
	return false
}

func occurs(w, in *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == w {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(in)
}

// crossCheck: the thorough tier asks a second solver about everything the first one discharged.
var crossCheck bool
var crossOK, crossOpen atomic.Int64
var crossSem = make(chan bool, 8)

func (t *Task) cross(x *Exec, st *State, f *Term) {
	var facts []*Term
	for _, fa := range st.facts.list() {
		facts = append(facts, fa.t)
	}
	script := x.c.Script(facts, f, "")
	crossSem <- true
	defer func() { <-crossSem }()
	for _, b := range [][]string{{"z3", "-in", "-smt2", "-T:5"}, {"cvc5", "--lang=smt2", "--full-saturate-quant", "--tlimit=5000", "-"}} {
		if a, _ := RunScript(b, script, 8*time.Second); a == "unsat" {
			crossOK.Add(1)
			return
		}
	}
	crossOpen.Add(1)
}

func solverNs() int64        { return atomic.LoadInt64(&solverTime) }
func solverCallCount() int64 { return atomic.LoadInt64(&solverCalls) }

func pathText(x *Exec, st *State) string {
	var b strings.Builder
	for _, fa := range st.facts.list() {
		if fa.t.op == "forall" {
			continue
		}
		fmt.Fprintf(&b, "    %s\n", short(x.c.Show(fa.t), 300))
	}
	t := b.String()
	if len(t) > 12000 { // the end of the path tells most
		t = t[:2000] + "\n    ...\n" + t[len(t)-10000:]
	}
	return t
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (t *Task) run() {
	t0 := time.Now()
	c := NewCtx()
	x := &Exec{P: t.P, c: c, T: t, loopOrd: map[*ssa.BasicBlock]int{}, selfs: map[string]*FuncV{}, selfFn: map[*ssa.Function]string{}, maxPath: 6000, axDone: map[string]bool{}, spec: t.ct}
	t.x = x
	x.s = NewSolver(c, t.tmo)
	defer func() {
		x.s.Close()
		if x.sl != nil {
			x.sl.Close()
		}
		t.wall = time.Since(t0)
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				t.err = u.msg
				if x.curCall.IsValid() {
					t.err += " (near " + t.P.pos(x.curCall) + ")"
				}
				return
			}
			if os.Getenv("VGO_PANIC") != "" {
				panic(r)
			}
			t.err = fmt.Sprintf("internal: %v", r)
		}
	}()
	st := &State{heap: map[string]*Term{}, cells: map[*Loc]Val{}, esc: map[*Loc]*Term{}, eqs: map[*Term]*Term{}, known: map[*Term]bool{}, ghost: map[string]Val{}}
	st.base = c.NewBase()
	x.assume(st, c.Le(c.Int(1), st.base))
	x.env = &SEnv{x: x, vars: map[string]EV{}, what: "of " + t.ct.key}
	if t.ct.lemma != nil {
		t.lemma(x, st)
	} else if t.ct.class != "" {
		t.method(x, st)
	} else {
		t.function(x, st)
	}
}

func (t *Task) function(x *Exec, st *State) {
	fn := t.P.json.Func(t.ct.key)
	if fn == nil {
		unsup("the function %s is gone", t.ct.key)
	}
	sig := fn.Signature
	if sig.Params().Len() != len(t.ct.params) {
		unsup("%s has %d parameters, its contract names %d", t.ct.key, sig.Params().Len(), len(t.ct.params))
	}
	var args []Val
	for i, p := range t.ct.params {
		ty := sig.Params().At(i).Type()
		v := x.freshVal(st, ty, p)
		args = append(args, v)
		x.env.vars[p] = EV{v, ty}
	}
	t.requires(x, st)
	for _, g := range t.ct.ghosts {
		st.ghost["ghost "+g] = x.c.Const("ghost0_"+g, arr(SInt, SInt))
	}
	x.oldSt = st.clone()
	x.env.old = x.oldSt
	for n, h := range t.heap0 {
		x.closed(n, h, x.oldSt)
	}
	x.inlineCall(st, nil, fn, args, nil, func(st *State, rs []Val) { t.exit(x, st, rs, sig) })
}

var ctorOf = map[string]string{"Value": "NewValue", "Array": "NewArrayOfValues", "Map": "NewMapOfValues"}

func (t *Task) method(x *Exec, st *State) {
	c := x.c
	ctor := t.P.json.Func(ctorOf[t.ct.class])
	if ctor == nil {
		unsup("the constructor %s is gone", ctorOf[t.ct.class])
	}
	var args []Val
	for i := 0; i < ctor.Signature.Params().Len(); i++ {
		args = append(args, x.zero(ctor.Signature.Params().At(i).Type()))
	}
	x.selfK = t.ct.class
	n := 0
	x.dry++
	spec := x.spec
	x.spec = &Contract{key: "constructor", loops: map[int]*LoopSpec{}, flags: map[string]bool{}}
	x.inlineCall(st, nil, ctor, args, nil, func(st *State, rs []Val) {
		n++
		if n > 1 {
			unsup("the constructor %s has several outcomes for no arguments", ctor.Name())
		}
		x.dry--
		x.spec = spec
		defer func() { x.dry++ }()
		lv, ok := rs[0].(LocV)
		if !ok {
			unsup("the constructor %s does not return a new object", ctor.Name())
		}
		sv, ok := st.cells[lv.loc].(StructV)
		if !ok {
			unsup("the constructor %s does not return a struct of closures", ctor.Name())
		}
		stt := lv.loc.typ.Underlying().(*types.Struct)
		idx := -1
		for i := 0; i < stt.NumFields(); i++ {
			if f, ok := sv.f[i].(*FuncV); ok && f != nil {
				x.selfs[stt.Field(i).Name()] = f
			}
			if stt.Field(i).Name() == t.ct.meth {
				idx = i
			}
		}
		if idx < 0 {
			unsup("%s has no field %s", t.ct.class, t.ct.meth)
		}
		m, _ := sv.f[idx].(*FuncV)
		if m == nil {
			t.obligation(x, st, "ensures", t.ct.key+" is set by the constructor", nil, c.tFalse, ctor.Pos())
			return
		}
		x.selfID = c.Const("self", SInt)
		x.rep = x.repOf(st, t.ct.class, sv)
		locs, stored, _ := x.reach(st, sv)
		// the state between two calls is arbitrary
		esc := st.esc
		st.heap, st.facts, st.known, st.eqs = map[string]*Term{}, nil, map[*Term]bool{}, map[*Term]*Term{}
		ob := c.Add(st.base, c.Int(st.off))
		st.base, st.off = c.NewBase(), 0
		x.assume(st, c.Le(c.Int(1), c.bases[0]))
		x.assume(st, c.Le(ob, st.base))
		for _, l := range sortedLocSlice(locs) {
			if _, isEsc := esc[l]; isEsc {
				continue
			}
			if stored[l] {
				if _, isF := l.typ.Underlying().(*types.Signature); isF {
					unsup("the function variable %s is reassigned by a method", l.name)
				}
				st.cells[l] = x.freshVal(st, l.typ, "self_"+l.name)
			}
		}
		c.BoundRef(x.selfID, st.base)
		for l, r := range esc {
			if k := objKind(l.typ); k != "" && l == lv.loc {
				n := "H:json." + k + ":0"
				x.assume(st, c.Eq(c.Select(x.H(st, n, arr(SInt, SInt)), r), x.selfID))
			}
		}
		st.ghost["MX"] = c.Const("mx0", arr(SStr, SInt))
		x.env.vars["self"] = EV{sv, lv.loc.typ}
		sig := stt.Field(idx).Type().Underlying().(*types.Signature)
		if sig.Params().Len() != len(t.ct.params) {
			unsup("%s has %d parameters, its contract names %d", t.ct.key, sig.Params().Len(), len(t.ct.params))
		}
		var args []Val
		for i, p := range t.ct.params {
			ty := sig.Params().At(i).Type()
			v := x.freshVal(st, ty, p)
			args = append(args, v)
			x.env.vars[p] = EV{v, ty}
		}
		if w := t.P.db.macros["wf_"+t.ct.class]; w != nil {
			e := *x.env
			e.st = st
			x.assume(st, e.bind(w.params[0], e.vars["self"]).Bool(w.body))
		}
		t.requires(x, st)
		x.oldSt = st.clone()
		x.env.old = x.oldSt
		for n, h := range t.heap0 {
			x.closed(n, h, x.oldSt)
		}
		x.callFunc(st, nil, m, args, nil, dummyCall, func(st *State, rs []Val) { t.exit(x, st, rs, sig) })
	})
	x.dry--
	if n == 0 {
		unsup("the constructor %s does not return", ctor.Name())
	}
}

var dummyCall = &ssa.Call{}

func sortedLocSlice(ls []*Loc) []*Loc {
	out := append([]*Loc(nil), ls...)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (t *Task) requires(x *Exec, st *State) {
	e := *x.env
	e.st = st
	for _, r := range t.ct.reqs {
		if hasTag(r.tags, t.prop) {
			x.assume(st, e.Bool(r.expr))
		}
	}
}

func (t *Task) exit(x *Exec, st *State, rs []Val, sig *types.Signature) {
	c := x.c
	if st.dead || x.dry > 0 {
		return
	}
	t.exits++
	if os.Getenv("VGO_TRACE") != "" {
		fmt.Printf("EXIT %d\n%s  results %v\n", t.exits, pathText(x, st), rs)
		for _, n := range sortedKeys(st.heap) {
			fmt.Printf("    %s = %s\n", n, short(x.c.Show(st.heap[n]), 400))
		}
	}
	if !t.reached {
		r := x.s.Check(st.facts)
		if r == "unsat" {
			return
		}
		if r == "sat" || r == "unknown" {
			t.reached = true
		}
	}
	e := *x.env
	env := &e
	env.st = st
	env.old = x.oldSt
	for i := range rs {
		env.vars[fmt.Sprintf("r%d", i)] = EV{rs[i], sig.Results().At(i).Type()}
	}
	// ghost updates
	for _, w := range t.ct.witness {
		switch {
		case strings.HasPrefix(w.label, "MX("):
			v := strings.TrimSuffix(strings.TrimPrefix(w.label, "MX("), ")")
			b := c.BVar(v, SStr)
			val := env.bind(v, EV{b, nil}).Term(w.expr)
			g := c.Fresh("mx", arr(SStr, SInt))
			x.assume(st, c.Forall([]*Term{b}, c.Eq(c.Select(g, b), val), c.Select(g, b)))
			st.ghost["MX"] = g
		default:
			unsup("witness %s", w.label)
		}
	}
	// new results
	for _, n := range append(append([]string{}, t.ct.news...), t.ct.maynews...) {
		var i int
		fmt.Sscanf(n, "r%d", &i)
		f := t.isNew(x, st, rs[i], sig.Results().At(i).Type())
		if hasTag(t.ct.maynews, n) {
			if r, ok := rs[i].(*Term); ok {
				f = c.Or(c.Eq(r, c.Int(0)), f)
			}
		}
		t.obligation(x, st, "ensures", n+" is a new object", nil, f, token.NoPos)
	}
	for _, cl := range t.ct.ens {
		if !hasTag(cl.tags, t.prop) {
			continue
		}
		t.cover(x, st, env, cl)
		t.obligation(x, st, "ensures", clauseName(cl), cl.tags, env.Bool(cl.expr), token.NoPos)
	}
	if t.ct.class != "" {
		if w := t.P.db.macros["wf_"+t.ct.class]; w != nil {
			f := env.bind(w.params[0], env.vars["self"]).Bool(w.body)
			for i, a := range conj(f) {
				t.obligation(x, st, "invariant", fmt.Sprintf("the invariant of %s (part %d)", t.ct.class, i), nil, a, token.NoPos)
			}
		}
	}
	t.frame(x, st, env)
}

// cover notes whether the case a postcondition speaks about can happen at all.
func (t *Task) cover(x *Exec, st *State, env *SEnv, cl *Clause) {
	ce, ok := cl.expr.(*ast.CallExpr)
	if !ok || len(ce.Args) != 2 {
		return
	}
	if id, ok := ce.Fun.(*ast.Ident); !ok || id.Name != "implies" {
		return
	}
	if t.covered[cl] {
		return
	}
	if !t.mine(clauseName(cl)) {
		return
	}
	t.covered[cl] = false
	g := x.simp(st, env.Bool(ce.Args[0]))
	if x.feasible(st, g) {
		t.covered[cl] = true
	}
}

func conj(f *Term) []*Term {
	if f.op == "and" {
		return f.args
	}
	return []*Term{f}
}

// isNew: the pointer (and the object behind it) did not exist at entry.
func (t *Task) isNew(x *Exec, st *State, v Val, ty types.Type) *Term {
	c := x.c
	bound := c.Add(x.oldSt.base, c.Int(x.oldSt.off))
	switch v := v.(type) {
	case LocV:
		if _, ok := x.oldSt.cells[v.loc]; ok {
			return c.tFalse
		}
		return c.tTrue
	case StructV:
		if objKind(ty) != "" {
			var id *Term
			func() {
				defer func() { recover() }()
				id = x.structObj(st, v, ty)
			}()
			if id == nil {
				// closures made during this call
				return c.Bool(!x.isSelfStruct(v))
			}
			return c.Le(bound, id)
		}
	case *Term:
		if objKind(ty) != "" {
			return c.Le(bound, v)
		}
		f := c.Le(bound, v)
		if k := ptrObjKind(ty); k != "" {
			f = c.And(f, c.Le(bound, c.Select(x.H(st, "H:json."+k+":0", arr(SInt, SInt)), v)))
		}
		return f
	}
	unsup("new %T", v)
	return nil
}

// frame: nothing that existed at entry changes except what the contract names.
func (t *Task) frame(x *Exec, st *State, env *SEnv) {
	c := x.c
	old := x.oldSt
	allowed := map[string][]*Term{}
	selfMod := false
	oenv := env.with(old)
	addSlice := func(l *Loc) {
		v := x.load(old, LocV{loc: l}, l.typ, token.NoPos)
		s, ok := v.(SliceV)
		if !ok {
			return
		}
		el := l.typ.Underlying().(*types.Slice).Elem()
		for i := range sortsOf(el) {
			allowed[bname(el, i)] = append(allowed[bname(el, i)], s.base)
		}
		if r, ok := st.esc[l]; ok {
			for i := range sortsOf(l.typ) {
				allowed[hname(l.typ, i)] = append(allowed[hname(l.typ, i)], r)
			}
		}
	}
	obj := func(k string, id *Term) {
		for _, g := range ghostComps[k] {
			n := gname(k, g.name)
			allowed[n] = append(allowed[n], id)
		}
		if k == "Map" {
			n := gname("Array", "n")
			ai := c.Select(x.G(old, "Map", "a"), id)
			allowed[n] = append(allowed[n], ai)
			allowed[gname("Array", "e")] = append(allowed[gname("Array", "e")], ai)
		}
	}
	for _, m := range t.ct.modifies {
		if m == "self" {
			selfMod = true
			r := x.rep
			if r == nil {
				continue
			}
			if r.elems != nil {
				addSlice(r.elems)
			}
			if r.keys != nil {
				addSlice(r.keys)
			}
			if r.iface != nil {
				if e, ok := st.esc[r.iface]; ok {
					allowed[hname(r.iface.typ, 0)] = append(allowed[hname(r.iface.typ, 0)], e)
				}
			}
			if r.gomap != nil {
				mp := x.load(old, r.gomap, nil, token.NoPos).(*Term)
				allowed["MH:"+fmtTypeName(r.mapT)] = append(allowed["MH:"+fmtTypeName(r.mapT)], mp)
				n := fmt.Sprintf("MV:%s:%d", fmtTypeName(r.mapT), 0)
				allowed[n] = append(allowed[n], mp)
			}
			if r.vals != nil {
				_, ao := oenv.object(EV{x.load(old, r.vals, nil, token.NoPos), types.NewPointer(t.P.jsonType("Array"))})
				for _, g := range ghostComps["Array"] {
					n := gname("Array", g.name)
					allowed[n] = append(allowed[n], ao.id)
				}
			}
			continue
		}
		if strings.HasPrefix(m, "*") {
			v := env.vars[m[1:]]
			el := v.ty.Underlying().(*types.Pointer).Elem()
			if r, ok := v.v.(*Term); ok {
				for i := range sortsOf(el) {
					allowed[hname(el, i)] = append(allowed[hname(el, i)], r)
				}
			}
			continue
		}
		v, ok := env.vars[m]
		if !ok {
			unsup("modifies %s", m)
		}
		k, o := oenv.object(v)
		if o.id == nil {
			unsup("modifies %s", m)
		}
		obj(k, o.id)
	}
	for _, m := range t.ct.objects {
		obj(m.kind, oenv.Term(m.expr))
	}
	for _, n := range sortedKeys(st.heap) {
		cur := st.heap[n]
		was := old.heap[n]
		if was == nil {
			was = t.heap0[n]
		}
		if was == nil || cur == was {
			continue
		}
		// references below the allocation bound at entry
		bound := old.base
		if old.off > 0 {
			unsup("allocation bound at entry")
		}
		sk := c.Const("frame_"+sanitize(n), SInt)
		c.BoundRef(sk, bound)
		var ex []*Term
		for _, k := range allowed[n] {
			ex = append(ex, c.Eq(sk, k))
		}
		if strings.HasPrefix(n, "G:") { // nothing is object 0
			ex = append(ex, c.Eq(sk, c.Int(0)))
		}
		goal := c.Eq(c.Select(cur, sk), c.Select(was, sk))
		if goal.isTrue() {
			t.obligation(x, st, "frame", "only what the contract names changes: "+n, nil, goal, token.NoPos)
			continue
		}
		t.obligation(x, st, "frame", "only what the contract names changes: "+n, nil, c.Or(append(ex, goal)...), token.NoPos)
	}
	if t.ct.class != "" && !selfMod {
		for _, l := range sortedLocs2(old.cells) {
			if _, esc := st.esc[l]; esc {
				continue
			}
			a, b := old.cells[l], st.cells[l]
			if same(a, b) {
				continue
			}
			var cs []*Term
			ta, tb := x.toTerms(old, a, l.typ), x.toTerms(st, b, l.typ)
			for i := range ta {
				cs = append(cs, c.Eq(ta[i], tb[i]))
			}
			t.obligation(x, st, "frame", "the object is left as it was: "+l.name, nil, c.And(cs...), token.NoPos)
		}
	}
}

func sortedLocs2(m map[*Loc]Val) []*Loc {
	var out []*Loc
	for l := range m {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func same(a, b Val) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	switch a := a.(type) {
	case StructV:
		bs, ok := b.(StructV)
		if !ok || len(a.f) != len(bs.f) {
			return false
		}
		for i := range a.f {
			if !same(a.f[i], bs.f[i]) {
				return false
			}
		}
		return true
	case ArrV:
		bs, ok := b.(ArrV)
		if !ok || len(a.e) != len(bs.e) {
			return false
		}
		for i := range a.e {
			if !same(a.e[i], bs.e[i]) {
				return false
			}
		}
		return true
	case LocV:
		bl, ok := b.(LocV)
		return ok && a.loc == bl.loc && len(a.path) == 0 && len(bl.path) == 0
	case IterV:
		return true
	}
	return a == b
}
