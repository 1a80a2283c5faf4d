package main

import (
	"fmt"
	"os"
)

// stringGoal proves an equality of texts by rewriting: texts known to equal a concatenation are replaced by it, recursive
// specification functions by their definition where the case is decided, and case distinctions between pieces are made. What
// is left after common pieces cancel goes to the solver, as does every side condition.
func (t *Task) stringGoal(x *Exec, st *State, hyps []*Term, goal *Term, depth int) bool {
	c := x.c
	check := func(f *Term) bool {
		if f.isTrue() {
			return true
		}
		t.nQuery++
		return x.s.Check(st.facts, append(append([]*Term{}, hyps...), c.Not(f))...) == "unsat"
	}
	if goal.op != "=" || goal.args[0].sort != SStr {
		return check(goal)
	}
	a, b := goal.args[0], goal.args[1]
	for round := 0; round < 12; round++ {
		ch := false
		for _, p := range append(append([]*Term{}, pieces(a)...), pieces(b)...) {
			if has(pieces(a), p) && has(pieces(b), p) {
				continue
			}
			if d := t.textDef(x, st, p, check); d != nil {
				m := map[*Term]*Term{p: d}
				a, b, ch = c.SubstCat(a, m), c.SubstCat(b, m), true
				break
			}
		}
		if !ch {
			break
		}
	}
	f := c.Eq(a, b)
	if f.isTrue() {
		return true
	}
	if os.Getenv("VGO_TEXT") != "" {
		fmt.Fprintf(os.Stderr, "text goal, depth %d\n", depth)
		for _, p := range pieces(a) {
			fmt.Fprintf(os.Stderr, "  L %s\n", short(c.Show(p), 300))
		}
		for _, p := range pieces(b) {
			fmt.Fprintf(os.Stderr, "  R %s\n", short(c.Show(p), 300))
		}
	}
	if depth > 6 {
		return check(f)
	}
	for _, p := range append(append([]*Term{}, pieces(a)...), pieces(b)...) {
		if has(pieces(a), p) && has(pieces(b), p) {
			continue
		}
		if p.op == "ite" && (short1(p.args[1]) && short1(p.args[2])) {
			for k := 0; k < 2; k++ {
				h := p.args[0]
				if k == 1 {
					h = c.Not(h)
				}
				m := map[*Term]*Term{p: p.args[1+k]}
				h2 := append(append([]*Term{}, hyps...), h)
				if x.s.Check(st.facts, h2...) == "unsat" {
					continue
				}
				if !t.stringGoal(x, st, h2, x.c.mk("=", SBool, c.SubstCat(a, m), c.SubstCat(b, m)), depth+1) {
					return false
				}
			}
			return true
		}
	}
	// the same application on both sides, up to what is known
	for _, p := range pieces(a) {
		for _, q := range pieces(b) {
			if p == q || p.op != q.op || len(p.op) == 0 || p.op[0] != '@' || len(p.args) != len(q.args) || has(pieces(b), p) || has(pieces(a), q) {
				continue
			}
			var eq []*Term
			for i := range p.args {
				eq = append(eq, c.Eq(p.args[i], q.args[i]))
			}
			if check(c.And(eq...)) {
				return t.stringGoal(x, st, hyps, x.c.mk("=", SBool, c.SubstCat(a, map[*Term]*Term{p: q}), b), depth+1)
			}
		}
	}
	for _, p := range append(append([]*Term{}, pieces(a)...), pieces(b)...) {
		if has(pieces(a), p) && has(pieces(b), p) || len(p.op) == 0 || p.op[0] != '@' {
			continue
		}
		u := c.unfold[p.op[1:]]
		if u == nil || t.behind(c, p, a) || t.behind(c, p, b) {
			continue
		}
		d := u(p).args[1]
		if d.op == "ite" {
			switch {
			case check(d.args[0]):
				d = d.args[1]
			case check(c.Not(d.args[0])):
				d = d.args[2]
			default:
				continue
			}
		}
		m := map[*Term]*Term{p: d}
		return t.stringGoal(x, st, hyps, x.c.mk("=", SBool, c.SubstCat(a, m), c.SubstCat(b, m)), depth+1)
	}
	return check(f)
}

// textGoals: there are equalities of concatenations among the goals, and all goals are proved.
func (t *Task) textGoals(x *Exec, st *State, gs []subgoal) bool {
	n := 0
	for _, g := range gs {
		if g.goal.op == "=" && g.goal.args[0].sort == SStr && (g.goal.args[0].op == "cat" || g.goal.args[1].op == "cat") {
			n++
		}
	}
	if n == 0 {
		return false
	}
	for _, g := range gs {
		if !t.stringGoal(x, st, g.hyps, g.goal, 0) {
			return false
		}
	}
	return true
}

// behind: an application of the same function further on is a piece of a.
func (t *Task) behind(c *Ctx, p, a *Term) bool {
	for _, q := range pieces(a) {
		if q.op == p.op && len(p.args) > 0 {
			if d := c.Sub(q.args[len(q.args)-1], p.args[len(p.args)-1]); d.isInt() && d.ival.Sign() > 0 {
				return true
			}
		}
	}
	return false
}

func short1(t *Term) bool { return t.op == "strlit" || t.op == "chr" && t.args[0].isInt() }

// textDef: a concatenation (or application) that text p is known to equal.
func (t *Task) textDef(x *Exec, st *State, p *Term, check func(*Term) bool) *Term {
	c := x.c
	if p.op == "strlit" || p.op == "ite" || p.op == "cat" || len(p.op) > 0 && p.op[0] == '@' && c.unfold[p.op[1:]] != nil {
		return nil
	}
	for _, fa := range st.facts.list() {
		f := fa.t
		ds := []*Term{f}
		if f.op == "or" {
			ds = f.args
		}
		for _, d := range ds {
			es := []*Term{d}
			if d.op == "and" {
				es = d.args
			}
			for _, e := range es {
				if e.op != "=" || e.args[0].sort != SStr {
					continue
				}
				r := e.args[1]
				if e.args[0] != p {
					if r = e.args[0]; e.args[1] != p {
						continue
					}
				}
				if r.op != "cat" && r.op != "strlit" && !(len(r.op) > 0 && r.op[0] == '@') || has(pieces(r), p) {
					continue
				}
				if f.op == "or" {
					var rest []*Term
					for _, o := range f.args {
						if o != d {
							rest = append(rest, c.Not(o))
						}
					}
					if !check(c.And(rest...)) {
						continue
					}
				}
				return r
			}
		}
	}
	return nil
}

func has(ts []*Term, t *Term) bool {
	for _, u := range ts {
		if u == t {
			return true
		}
	}
	return false
}

// SubstCat replaces pieces of a text.
func (c *Ctx) SubstCat(t *Term, m map[*Term]*Term) *Term {
	var out []*Term
	for _, p := range pieces(t) {
		if d := m[p]; d != nil {
			p = d
		}
		out = append(out, p)
	}
	return c.Cat(out...)
}
