package main

// Loops: unrolling when the trip count is a constant, otherwise invariants, with frames found by dry runs.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cand struct {
	name string
	f    func(fr *Frame, st *State) *Term
	bad  bool
}

func (x *Exec) edgePhis(fr *Frame, b, pred *ssa.BasicBlock) map[*ssa.Phi]Val {
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	out := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[p] = x.val(fr, p.Edges[pi])
	}
	return out
}

func setPhis(fr *Frame, ph map[*ssa.Phi]Val) {
	for p, v := range ph {
		fr.env[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = v
		}
	}
}

// headCond runs the header on copies and gives the two sides of its integer comparison (lhs < rhs, normalised) when it has one.
func (x *Exec) headCond(fr *Frame, st *State, b *ssa.BasicBlock) (lhs, rhs *Term, cond *Term, ok bool) {
	iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, nil, nil, false
	}
	f2, s2 := fr.clone(), st.clone()
	rec := x.rec
	x.rec = nil
	x.dry++
	defer func() {
		x.dry--
		x.rec = rec
		if r := recover(); r != nil {
			if _, isU := r.(unsupported); !isU {
				panic(r)
			}
			ok = false
		}
	}()
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.Call:
			bi, isB := in.Call.Value.(*ssa.Builtin)
			if !isB || bi.Name() != "len" {
				return nil, nil, nil, false
			}
			done := false
			x.call(f2, s2, in, func(f3 *Frame, s3 *State, res Val) { f2, s2, done = f3, s3, true; f2.env[in] = res })
			if !done {
				return nil, nil, nil, false
			}
		case *ssa.TypeAssert:
			return nil, nil, nil, false
		default:
			x.simple(f2, s2, in)
		}
	}
	cv, isT := x.val(f2, iff.Cond).(*Term)
	if !isT {
		return nil, nil, nil, false
	}
	cond = x.simp(s2, cv)
	if bo, isB := iff.Cond.(*ssa.BinOp); isB {
		if _, _, isI := intRange(bo.X.Type()); isI {
			l, ok1 := x.val(f2, bo.X).(*Term)
			r, ok2 := x.val(f2, bo.Y).(*Term)
			if ok1 && ok2 {
				switch bo.Op {
				case token.LSS:
					return l, r, cond, true
				case token.GTR:
					return r, l, cond, true
				case token.LEQ:
					return l, x.c.Add(r, x.c.Int(1)), cond, true
				case token.GEQ:
					return r, x.c.Add(l, x.c.Int(1)), cond, true
				case token.NEQ:
					return l, r, cond, true
				}
			}
		}
	}
	if ex, isE := iff.Cond.(*ssa.Extract); isE {
		if nx, isN := ex.Tuple.(*ssa.Next); isN && nx.IsString {
			it := x.val(fr, nx.Iter).(IterV)
			return st.cells[it.loc].(*Term), x.c.SLen(it.str), cond, true
		}
	}
	return nil, nil, cond, true
}

func isMapRange(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return true
		}
	}
	return false
}

func (x *Exec) enterLoop(fr *Frame, st *State, b, pred *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, k Cont) {
	c := x.c
	if _, ok := x.loopOrd[b]; !ok {
		x.loopOrd[b] = x.nloop
		x.nloop++
	}
	ord := x.loopOrd[b]
	entryPhis := x.edgePhis(fr, b, pred)
	// constant trip count
	{
		f2 := fr.clone()
		setPhis(f2, entryPhis)
		l, r, _, ok := x.headCond(f2, st, b)
		if d := c.Sub(r, l); ok && l != nil && d.isInt() && d.ival.BitLen() < 6 && x.constBound(b, set) {
			fr.loops[b] = &loopRun{}
			x.phis(fr, st, b, pred)
			x.instrs(fr, st, b, 0, k)
			return
		}
	}
	spec := x.spec.loops[ord]
	entryBound := x.curBound(st)
	ei := c.baseIx[entryBound]
	mark := c.nid
	st0 := st
	fr0 := fr.clone()
	setPhis(fr0, entryPhis)
	var counter *ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, _, isI := intRange(p.Type()); !isI {
			continue
		}
		step := true
		for i, e := range p.Edges {
			if !set[b.Preds[i]] {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != p {
				step = false
				break
			}
			kc, ok := bo.Y.(*ssa.Const)
			if !ok || kc.Value == nil || kc.Int64() != 1 {
				step = false
			}
		}
		if step && (counter == nil || p.Comment == "rangeindex") {
			counter = p
		}
	}
	iterOf := func(f *Frame) *Term {
		if counter == nil {
			return nil
		}
		return c.Sub(f.env[counter].(*Term), entryPhis[counter].(*Term))
	}
	mkInv := func(f *Frame, locs map[*Loc]bool) *invRun {
		iv := &invRun{header: b, blocks: set, ord: ord, phis: map[*ssa.Phi]Val{}, entry: st0, iter: iterOf(f), locs: locs}
		for p := range entryPhis {
			iv.phis[p] = f.env[p]
		}
		return iv
	}
	envAt := func(f *Frame, s *State, iv *invRun) *SEnv {
		e := *x.env
		e.st, e.fr, e.inv, e.pre = s, f, iv, st0
		e.what = fmt.Sprintf("of %s, loop %d", x.spec.key, ord)
		return &e
	}
	// candidates
	var cands []*cand
	add := func(n string, f func(fr *Frame, st *State) *Term) { cands = append(cands, &cand{name: n, f: f}) }
	if counter != nil {
		add("counter low", func(f *Frame, s *State) *Term {
			return c.Le(entryPhis[counter].(*Term), f.env[counter].(*Term))
		})
	}
	if counter != nil && counter.Comment == "rangeindex" {
		add("counter high", func(f *Frame, s *State) *Term {
			return c.Le(f.env[counter].(*Term), c.Big(new(big.Int).Lsh(big.NewInt(1), 62)))
		})
	}
	add("bound", func(f *Frame, s *State) *Term {
		l, r, _, ok := x.headCond(f, s, b)
		if !ok || l == nil {
			return nil
		}
		return c.Le(l, r)
	})
	for _, in := range b.Instrs {
		if nx, ok := in.(*ssa.Next); ok && nx.IsString {
			add("iterator", func(f *Frame, s *State) *Term {
				it := x.val(f, nx.Iter).(IterV)
				p := s.cells[it.loc].(*Term)
				return c.And(c.Le(c.Int(0), p), c.Le(p, c.SLen(it.str)))
			})
		}
	}
	slices := func(get func(f *Frame, s *State) (SliceV, bool), ev SliceV) {
		if ev.len.isInt() && ev.len.ival.Sign() == 0 {
			add("nil iff empty", func(f *Frame, s *State) *Term {
				v, ok := get(f, s)
				if !ok {
					return nil
				}
				return c.Eq(c.Eq(v.base, c.Int(0)), c.Eq(v.len, c.Int(0)))
			})
			add("offset zero", func(f *Frame, s *State) *Term {
				v, ok := get(f, s)
				if !ok {
					return nil
				}
				return c.Eq(v.off, c.Int(0))
			})
			if counter != nil {
				add("one per iteration", func(f *Frame, s *State) *Term {
					v, ok := get(f, s)
					if !ok {
						return nil
					}
					return c.Eq(v.len, iterOf(f))
				})
			}
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ev, ok := entryPhis[p].(SliceV); ok {
			slices(func(f *Frame, s *State) (SliceV, bool) { v, ok := f.env[p].(SliceV); return v, ok }, ev)
		}
	}
	locDone := map[*Loc]bool{}
	addLoc := func(l *Loc) {
		if locDone[l] {
			return
		}
		locDone[l] = true
		if ev, ok := st0.cells[l].(SliceV); ok {
			if _, esc := st0.esc[l]; !esc {
				slices(func(f *Frame, s *State) (SliceV, bool) { v, ok := s.cells[l].(SliceV); return v, ok }, ev)
			}
		}
	}
	candOK := func(cd *cand, f *Frame, s *State) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
				t = nil
			}
		}()
		return cd.f(f, s)
	}
	nEntry := 0
	filterEntry := func() {
		for ; nEntry < len(cands); nEntry++ {
			cd := cands[nEntry]
			t := candOK(cd, fr0, st0)
			if t == nil || !x.valid(st0, t) {
				cd.bad = true
			}
		}
	}
	filterEntry()

	ws := newWriteSet()
	var fnBound *Term
	if x.oldSt != nil && x.oldSt.off == 0 {
		fnBound = x.oldSt.base
	}
	newSince := func(st *State, name string, key *Term) {
		kd, kb, _ := c.refClass(key)
		if kd == 1 && kb >= ei || c.oldTerm(key, mark) || ws.high[name] {
			return
		}
		if fnBound == nil || !x.valid(st, c.Or(c.And(c.Bool(strings.HasPrefix(name, "G:")), c.Eq(key, c.Int(0))), c.Le(fnBound, key))) {
			ws.high[name] = true
			if debugPath {
				fmt.Println("may be old:", name, key)
			}
		}
	}
	head := func(dry bool) (*Frame, *State, *invRun) {
		s, f := st0.clone(), fr0.clone()
		nb := c.NewBase()
		x.assume(s, c.Le(entryBound, nb))
		s.base, s.off = nb, 0
		for _, l := range sortedLocs(ws.locs) {
			if _, ok := st0.cells[l]; !ok {
				continue
			}
			if _, esc := st0.esc[l]; esc {
				continue
			}
			s.cells[l] = x.freshVal(s, l.typ, "loop_"+l.name)
		}
		for _, n := range sortedKeys(ws.heaps) {
			keys := ws.heaps[n]
			cur := st0.heap[n]
			if cur == nil {
				cur = c.Const("H0_"+sanitize(n), x.sortOfHeap(n, s))
			}
			full := false
			var exc []*Term
			for _, key := range sortedTerms(keys) {
				kd, kb, _ := c.refClass(key)
				if kd == 1 && kb >= ei {
					continue
				}
				if c.oldTerm(key, mark) {
					exc = append(exc, key)
					continue
				}
				full = true
			}
			h := c.Fresh("loop_"+n, cur.sort)
			if !full {
				c.frames[h] = &frameInfo{prev: cur, bound: entryBound, except: exc}
			} else if !ws.high[n] {
				// the others are written only at objects made since the function began
				if strings.HasPrefix(n, "G:") {
					exc = append(exc, c.Int(0)) // no object
				}
				c.frames[h] = &frameInfo{prev: cur, bound: fnBound, except: exc}
			}
			s.heap[n] = h
		}
		x.closedAt(s)
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := x.freshVal(s, p.Type(), "phi_"+p.Comment)
			f.env[p] = v
			if p.Comment != "" {
				f.names[p.Comment] = v
			}
		}
		for _, cd := range cands {
			if !cd.bad {
				if t := candOK(cd, f, s); t != nil {
					x.assume(s, t)
				}
			}
		}
		iv := mkInv(f, ws.locs)
		iv.dry = dry
		if spec != nil {
			for _, g := range sortedKeys(spec.ghost) {
				s.ghost["ghost "+g] = c.Fresh("ghost_"+g, arr(SInt, SInt))
			}
			e := envAt(f, s, iv)
			for _, cl := range spec.inv {
				if hasTag(cl.tags, x.T.prop) {
					x.assume(s, e.Bool(cl.expr))
				}
			}
		}
		iv.cands = cands
		iv.ws = ws
		return f, s, iv
	}
	searched := false
	shift := int64(0)
	if counter != nil && counter.Comment == "rangeindex" {
		shift = -1
	}
	searchJ := c.BVar("j", SInt)
	for round := 0; ; round++ {
		if round > 15 {
			unsup("loop %d: the effects of the body were not found", ord)
		}
		before := ws.size()
		nb := 0
		for _, cd := range cands {
			if cd.bad {
				nb++
			}
		}
		f, s, iv := head(true)
		nHead := len(s.facts.list())
		var edges []*Term
		iv.onBack = func(bst *State) {
			if counter == nil {
				return
			}
			cp := f.env[counter].(*Term)
			j := searchJ
			sub := map[*Term]*Term{cp: c.Add(j, c.Int(shift))}
			var q []*Term
			for i, fa := range bst.facts.list() {
				if i < nHead || fa.t.op == "forall" || fa.t.op == "exists" {
					continue
				}
				t := c.Subst(fa.t, sub)
				if t.bound && c.oldTermB(t, mark, j) {
					q = append(q, t)
				}
			}
			edges = append(edges, c.And(q...))
		}
		rec := newWriteSet()
		rec.check = newSince
		x.rec = append(x.rec, rec)
		x.dry++
		f.loops[b] = &loopRun{inv: iv}
		if !s.dead {
			x.instrs(f, s, b, 0, func(*State, []Val) {})
		}
		x.dry--
		x.rec = x.rec[:len(x.rec)-1]
		restart := false
		for l := range rec.esc {
			if _, ok := st0.cells[l]; ok {
				if _, esc := st0.esc[l]; !esc {
					x.escape(st0, LocV{loc: l})
					restart = true
				}
			}
		}
		if restart {
			entryBound = x.curBound(st0)
			ei = c.baseIx[entryBound]
			mark = c.nid
			ws = newWriteSet() // what was seen so far speaks of a state that no longer exists
			continue
		}
		for l := range rec.locs {
			if _, ok := st0.cells[l]; ok {
				ws.locs[l] = true
				addLoc(l)
			}
		}
		for n, ks := range rec.heaps {
			if ws.heaps[n] == nil {
				ws.heaps[n] = map[*Term]bool{}
			}
			for key := range ks {
				kd, kb, _ := c.refClass(key)
				if kd == 1 && kb >= ei {
					continue
				}
				if !c.oldTerm(key, mark) {
					key = c.Const("variant_key", SInt) // one stand-in for all that vary
				}
				ws.heaps[n][key] = true
			}
		}
		filterEntry()
		nb2 := 0
		for _, cd := range cands {
			if cd.bad {
				nb2++
			}
		}
		if !restart && ws.size() == before && nb2 == nb {
			// what every earlier iteration found out about its element
			if searched {
				break
			}
			searched = true
			q := c.Or(edges...)
			if len(edges) == 0 || len(edges) > 8 || q.isTrue() || q.isFalse() || !q.bound {
				break
			}
			add("earlier elements", func(f *Frame, s *State) *Term {
				v := f.env[counter].(*Term)
				lo := entryPhis[counter].(*Term)
				return c.Forall([]*Term{searchJ}, c.Implies(c.And(c.Le(c.Sub(lo, c.Int(shift)), searchJ), c.Lt(searchJ, c.Sub(v, c.Int(shift)))), q))
			})
			filterEntry()
		}
	}
	// the invariants hold on entry
	iv0 := mkInv(fr0, ws.locs)
	if spec != nil {
		e := envAt(fr0, st0, iv0)
		for _, cl := range spec.inv {
			if hasTag(cl.tags, x.T.prop) {
				t := e.Bool(cl.expr)
				x.prove(st0, "loop-entry", fmt.Sprintf("loop %d: %s", ord, clauseName(cl)), cl.tags, t, b.Instrs[0].Pos())
			}
		}
	}
	f, s, iv := head(false)
	if s.dead {
		return
	}
	if spec != nil && len(spec.dec) > 0 {
		iv.vari = envAt(f, s, iv).Term(spec.dec[0].expr)
	} else if l, r, _, ok := x.headCond(f, s, b); ok && l != nil {
		iv.vari = c.Sub(r, l)
	}
	iv.headSt = s.clone()
	f.loops[b] = &loopRun{inv: iv}
	x.T.noteLoop(x, ord, b, spec)
	x.instrs(f, s, b, 0, k)
}

// constBound: the bound compared with in the header is a constant and the counter a plain counter.
func (x *Exec) constBound(b *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var counterLike func(v ssa.Value, d int) bool
	counterLike = func(v ssa.Value, d int) bool {
		if d > 3 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.BinOp:
			return counterLike(v.X, d+1) && counterLike(v.Y, d+1)
		case *ssa.Phi:
			if v.Block() != b {
				return !set[v.Block()]
			}
			for i, e := range v.Edges {
				if !set[b.Preds[i]] {
					continue
				}
				u, ok := e.(*ssa.BinOp)
				if !ok || (u.Op != token.ADD && u.Op != token.SUB) || u.X != v {
					return false
				}
				if _, ok := u.Y.(*ssa.Const); !ok {
					return false
				}
			}
			return true
		case *ssa.Call:
			bi, ok := v.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && (!set[v.Block()] || x.outside(v.Call.Args[0], set))
		case ssa.Instruction:
			return !set[v.Block()]
		}
		return true
	}
	return counterLike(bo.X, 0) && counterLike(bo.Y, 0)
}

func (x *Exec) outside(v ssa.Value, set map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || !set[in.Block()]
}

func (x *Exec) sortOfHeap(n string, st *State) Sort {
	if t, ok := x.T.heap0[n]; ok {
		return t.sort
	}
	unsup("heap array %s", n)
	return ""
}

func sortedLocs(m map[*Loc]bool) []*Loc {
	var out []*Loc
	for l := range m {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// oldTerm: every constant in t existed when the term counter stood at mark, so t denotes one fixed value.
func (c *Ctx) oldTerm(t *Term, mark int) bool {
	if t.id <= mark {
		return true
	}
	if t.op == "const" || t.op == "bvar" {
		return false
	}
	for _, a := range t.args {
		if !c.oldTerm(a, mark) {
			return false
		}
	}
	return len(t.args) > 0 || t.op == "int" || t.op == "strlit" || t.op == "true" || t.op == "false" || t.op == "@inil"
}

// oldTermB: the same for a term over the bound variable j.
func (c *Ctx) oldTermB(t *Term, mark int, j *Term) bool {
	if t == j {
		return true
	}
	if t.op == "bvar" {
		return false
	}
	if t.op == "const" {
		return t.id <= mark
	}
	if t.op == "forall" || t.op == "exists" {
		return false
	}
	for _, a := range t.args {
		if !c.oldTermB(a, mark, j) {
			return false
		}
	}
	return true
}

func (x *Exec) backEdge(fr *Frame, st *State, b, pred *ssa.BasicBlock, inv *invRun) {
	c := x.c
	ph := x.edgePhis(fr, b, pred)
	setPhis(fr, ph)
	if inv.dry {
		if inv.onBack != nil {
			inv.onBack(st)
		}
		for _, cd := range inv.cands {
			if cd.bad {
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
						cd.bad = true
					}
				}()
				t := cd.f(fr, st)
				if t == nil || !x.valid(st, t) {
					cd.bad = true
				}
			}()
		}
		return
	}
	iv := *inv
	iv.phis = map[*ssa.Phi]Val{}
	for p := range ph {
		iv.phis[p] = fr.env[p]
	}
	// the iteration count
	if inv.iter != nil {
		iv.iter = c.Add(inv.iter, c.Int(1))
	}
	for _, cd := range inv.cands {
		if cd.bad {
			continue
		}
		if t := cd.f(fr, st); t != nil {
			x.prove(st, "loop-step", fmt.Sprintf("loop %d: %s", inv.ord, cd.name), nil, t, b.Instrs[0].Pos())
		}
	}
	spec := x.spec.loops[inv.ord]
	e := *x.env
	e.st, e.fr, e.inv, e.pre = st, fr, &iv, inv.entry
	e.what = fmt.Sprintf("of %s, loop %d", x.spec.key, inv.ord)
	if inv.headSt != nil {
		h := e
		h.st, h.inv = inv.headSt, inv
		e.head = &h
	}
	if spec != nil {
		upd := map[string]*Term{}
		for _, g := range sortedKeys(spec.ghost) {
			t := e.Term(spec.ghost[g].expr)
			for t = x.simp(st, t); t.op == "ite"; t = x.simp(st, t) { // what the path decides
				if d := t.args[0]; x.valid(st, d) {
					t = t.args[1]
					x.assume(st, d)
				} else if d = c.Not(d); x.valid(st, d) {
					t = t.args[2]
					x.assume(st, d)
				} else {
					break
				}
			}
			upd["ghost "+g] = t
		}
		for _, g := range sortedKeys(upd) {
			t := upd[g]
			if t.op != "const" {
				n := c.Fresh("next_"+g[6:], t.sort)
				x.assume(st, c.Eq(n, t))
				t = n
			}
			st.ghost[g] = t
		}
		for _, cl := range spec.hint {
			if hasTag(cl.tags, x.T.prop) {
				t := e.Bool(cl.expr)
				x.prove(st, "hint", fmt.Sprintf("loop %d: %s", inv.ord, clauseName(cl)), cl.tags, t, b.Instrs[0].Pos())
				x.assume(st, t)
			}
		}
		for _, cl := range spec.inv {
			if hasTag(cl.tags, x.T.prop) {
				x.prove(st, "loop-step", fmt.Sprintf("loop %d: %s", inv.ord, clauseName(cl)), cl.tags, e.Bool(cl.expr), b.Instrs[0].Pos())
			}
		}
	}
	if inv.vari != nil {
		var nv *Term
		if spec != nil && len(spec.dec) > 0 {
			nv = e.Term(spec.dec[0].expr)
		} else if l, r, _, ok := x.headCond(fr, st, b); ok && l != nil {
			nv = c.Sub(r, l)
		}
		if nv != nil {
			x.prove(st, "terminates", fmt.Sprintf("loop %d makes progress", inv.ord), nil, c.And(c.Lt(nv, inv.vari), c.Le(c.Int(0), inv.vari)), b.Instrs[0].Pos())
		} else {
			x.prove(st, "terminates", fmt.Sprintf("loop %d: no measure", inv.ord), nil, c.tFalse, b.Instrs[0].Pos())
		}
	} else if isMapRange(b) {
		x.T.assumption("a range over a Go map visits every entry once and ends")
	} else {
		x.prove(st, "terminates", fmt.Sprintf("loop %d: no measure", inv.ord), nil, c.tFalse, b.Instrs[0].Pos())
	}
}

var _ = types.Typ
