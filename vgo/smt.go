package main

// Printing of terms as SMT-LIB and the solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

var (
	solverTime  int64 // ns
	solverCalls int64
)

func smtName(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!') {
			ok = false
		}
	}
	if ok {
		return s
	}
	return "|" + s + "|"
}

// Printer prints terms and records what has to be declared.
type Printer struct {
	c     *Ctx
	out   *strings.Builder
	decl  map[string]bool
	named map[*Term]bool
}

func NewPrinter(c *Ctx, out *strings.Builder) *Printer {
	return &Printer{c: c, out: out, decl: map[string]bool{}, named: map[*Term]bool{}}
}

const smtPrelude = `(set-option :global-declarations true)
(declare-sort Str 0)
(declare-sort Iface 0)
(declare-sort F64 0)
(declare-sort F32 0)
(declare-fun slen (Str) Int)
(declare-fun sbyte (Str Int) Int)
(declare-fun chr (Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun lit_empty () Str)
(declare-fun tag (Iface) Int)
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))
(assert (= (slen lit_empty) 0))
(assert (forall ((x Str)) (! (=> (= (slen x) 0) (= x lit_empty)) :pattern ((slen x)))))
(assert (forall ((x Str)) (! (>= (slen x) 0) :pattern ((slen x)))))
(assert (forall ((x Int)) (! (and (= (slen (chr x)) 1) (= (sbyte (chr x) 0) x)) :pattern ((chr x)))))
`

func (p *Printer) declFun(name string, as []Sort, r Sort) {
	if p.decl[name] {
		return
	}
	p.decl[name] = true
	switch name {
	case "slen", "sbyte", "chr", "tag", "scat":
		return
	}
	var ss []string
	for _, a := range as {
		ss = append(ss, string(a))
	}
	fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", smtName(name), strings.Join(ss, " "), r)
}

func litName(s string) string {
	if s == "" {
		return "lit_empty"
	}
	var b strings.Builder
	b.WriteString("lit_")
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "_%02x", ch)
		}
	}
	return b.String()
}

// Ref returns the text of a term, defining shared ground terms on the way.
func (p *Printer) Ref(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.ival.String(), "-") + ")"
		}
		return t.ival.String()
	case "bvar":
		return smtName(strings.ReplaceAll(t.sval, "?", "!q"))
	case "const":
		p.declFun(t.sval, nil, t.sort)
		return smtName(t.sval)
	case "strlit":
		n := litName(t.sval)
		if t.sval != "" {
			p.declFun(n, nil, SStr)
		}
		return n
	}
	if p.named[t] {
		return fmt.Sprintf("t%d", t.id)
	}
	s := p.body(t)
	if t.bound || len(s) < 24 {
		return s
	}
	fmt.Fprintf(p.out, "(define-fun t%d () %s %s)\n", t.id, t.sort, s)
	p.named[t] = true
	return fmt.Sprintf("t%d", t.id)
}

func (p *Printer) body(t *Term) string {
	var rs []string
	if t.op == "forall" || t.op == "exists" {
		n := len(t.args) - 1
		var vs []string
		for _, v := range t.args[:n] {
			vs = append(vs, "("+p.Ref(v)+" "+string(v.sort)+")")
		}
		b := p.Ref(t.args[n])
		if len(t.trig) > 0 && t.op == "forall" {
			var ps []string
			for _, x := range t.trig {
				if !p.patOK(x) {
					ps = nil
					break
				}
				ps = append(ps, p.Ref(x))
			}
			if ps == nil {
				return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + b + ")"
			}
			b = "(! " + b + " :pattern (" + strings.Join(ps, " ") + "))"
		}
		return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + b + ")"
	}
	for i, a := range t.args {
		if i == 1 && (t.op == "select" || t.op == "store") && a.sort == SInt {
			if o, r := p.c.splitOff(a); o != nil {
				rs = append(rs, "(ix "+p.Ref(o)+" "+p.Ref(r)+")")
				continue
			}
		}
		rs = append(rs, p.Ref(a))
	}
	switch t.op {
	case "cat":
		r := rs[0]
		for _, x := range rs[1:] {
			r = "(scat " + r + " " + x + ")"
		}
		return r
	case "constarr":
		return "((as const " + string(t.sort) + ") " + rs[0] + ")"
	case "acopy":
		n := "acopy_" + sanitize(string(t.sort))
		p.declFun(n, []Sort{t.sort, SInt, t.sort, SInt, SInt}, t.sort)
		return "(" + n + " " + strings.Join(rs, " ") + ")"
	}
	if strings.HasPrefix(t.op, "@") {
		f := p.c.funs[t.op[1:]]
		if f != nil {
			p.declFun(f.name, f.args, f.res)
		}
		if len(rs) == 0 {
			return smtName(t.op[1:])
		}
		return "(" + smtName(t.op[1:]) + " " + strings.Join(rs, " ") + ")"
	}
	return "(" + t.op + " " + strings.Join(rs, " ") + ")"
}

// splitOff: a position in a backing array as the offset of a slice and the index in the slice.
func (c *Ctx) splitOff(t *Term) (off, rest *Term) {
	if len(c.offs) == 0 {
		return nil, nil
	}
	if c.offs[t] {
		return t, c.Int(0)
	}
	if t.op != "+" {
		return nil, nil
	}
	for _, a := range t.args {
		if c.offs[a] {
			return a, c.Sub(t, a)
		}
	}
	return nil, nil
}

// patOK: the term may stand in a pattern.
func (p *Printer) patOK(t *Term) bool {
	if !t.bound {
		return true
	}
	switch {
	case t.op == "bvar":
		return true
	case t.op == "select":
		if !p.patOK(t.args[0]) {
			return false
		}
		k := t.args[1]
		if o, r := p.c.splitOff(k); o != nil {
			return p.patOK(o) && p.patOK(r)
		}
		return p.patOK(k)
	case strings.HasPrefix(t.op, "@"):
		for _, a := range t.args {
			if !p.patOK(a) {
				return false
			}
		}
		return true
	}
	return false
}

const maxUnfold = 2

// groundAxioms gives the defining facts of a term.
func (c *Ctx) groundAxioms(t *Term) []*Term {
	var out []*Term
	d0 := c.curDepth
	c.curDepth = c.depth[t] + 1
	defer func() { c.curDepth = d0 }()
	rawLen := func(s *Term) *Term { c.App("slen", SInt, c.Lit("ab")); return c.mk("@slen", SInt, s) }
	rawByte := func(s *Term, i *Term) *Term {
		c.App("sbyte", SInt, c.Const("s0", SStr), c.Int(0))
		return c.mk("@sbyte", SInt, s, i)
	}
	eq := func(a, b *Term) *Term { return c.mk("=", SBool, a, b) }
	if as, ok := c.axioms[t]; ok {
		out = append(out, as...)
	}
	switch t.op {
	case "@nilish":
		if !t.bound {
			out = append(out, c.nilishAxioms(t, t.args[0])...)
		}
	case "strlit":
		if t.sval != "" {
			out = append(out, eq(rawLen(t), c.Int(int64(len(t.sval)))))
			if len(t.sval) <= 48 {
				for i := 0; i < len(t.sval); i++ {
					out = append(out, eq(rawByte(t, c.Int(int64(i))), c.Int(int64(t.sval[i]))))
				}
			}
		}
	case "cat":
		var ls []*Term // a part may be a substring out of range: its length only by its own axiom
		for _, a := range t.args {
			if a.op == "@sub" {
				if d := c.Sub(a.args[2], a.args[1]); !d.isInt() {
					ls = append(ls, rawLen(a))
					continue
				}
			}
			ls = append(ls, c.SLen(a))
		}
		out = append(out, eq(rawLen(t), c.Add(ls...)))
		if len(t.args) == 2 {
			for i, a := range t.args {
				if _, isLit := litOf(a); !isLit && a.op != "chr" {
					out = append(out, c.Implies(eq(rawLen(a), c.Int(0)), eq(t, t.args[1-i])))
				}
			}
		}
		if n := len(t.args); n > 2 && n <= 6 && c.depth[t] < 4 { // other ways of bracketing it
			for k := 1; k < n-1; k++ {
				l := t.args[0]
				if k > 1 {
					l = c.mk("cat", SStr, t.args[:k]...)
				}
				out = append(out, eq(t, c.mk("cat", SStr, l, c.mk("cat", SStr, t.args[k:]...))))
			}
		}
	case "@sub":
		out = append(out, c.Implies(c.And(c.Le(c.Int(0), t.args[1]), c.Le(t.args[1], t.args[2]), c.Le(t.args[2], c.SLen(t.args[0]))), eq(rawLen(t), c.SLen(t))))
		// the last byte split off, so that a substring grown byte by byte is recognised
		if d := c.Sub(t.args[2], t.args[1]); !d.isInt() && c.depth[t] < 2 {
			l1 := c.Add(t.args[1], c.Int(1))
			out = append(out, c.Implies(c.Lt(t.args[1], t.args[2]), eq(t, c.mk("cat", SStr, c.Chr(c.SByte(t.args[0], t.args[1])), c.mk("@sub", SStr, t.args[0], l1, t.args[2])))))
			h := c.Sub(t.args[2], c.Int(1))
			out = append(out, c.Implies(c.Lt(t.args[1], t.args[2]), eq(t, c.mk("cat", SStr, c.mk("@sub", SStr, t.args[0], t.args[1], h), c.Chr(c.SByte(t.args[0], h))))))
		}
	case "@utf8enc":
		out = append(out, c.Implies(c.And(c.Le(c.Int(0), t.args[0]), c.Lt(t.args[0], c.Int(128))), eq(t, c.Chr(t.args[0]))))
	case "@sbyte":
		out = append(out, c.mk("<=", SBool, c.Int(0), t), c.Le(t, c.Int(255)))
	case "acopy":
		j := c.BVar("j", SInt)
		dst, doff, src, soff, n := t.args[0], t.args[1], t.args[2], t.args[3], t.args[4]
		l := c.mk("select", t.sort.arrVal(), t, j)
		out = append(out, c.Forall([]*Term{j}, eq(l, c.Ite(c.And(c.Le(doff, j), c.Lt(j, c.Add(doff, n))), c.Select(src, c.Add(soff, c.Sub(j, doff))), c.Select(dst, j))), l))
	case "const":
		if f, ok := c.frames[t]; ok {
			r := c.BVar("r", SInt)
			l := c.mk("select", t.sort.arrVal(), t, r)
			cs := []*Term{c.Lt(r, f.bound)}
			for _, e := range f.except {
				cs = append(cs, c.Not(c.Eq(r, e)))
			}
			out = append(out, c.Forall([]*Term{r}, c.Implies(c.And(cs...), eq(l, c.Select(f.prev, r))), l))
		}
	}
	if strings.HasPrefix(t.op, "@") && c.depth[t] < maxUnfold-c.shallow[t.op[1:]] {
		if u := c.unfold[t.op[1:]]; u != nil {
			out = append(out, u(t))
		}
	}
	if strings.HasPrefix(t.op, "@box_") {
		c.App("tag", SInt, c.Const("i0", SIface))
		out = append(out, eq(c.mk("@tag", SInt, t), t.args[0]))
		for i, a := range t.args[1:] {
			n := fmt.Sprintf("unbox_%d_%s", i, a.sort)
			if i == 0 && a.sort == SInt {
				if !t.args[0].isInt() {
					continue
				}
				if isRefTag(t.args[0].ival.Int64()) {
					n = "unbox_0_Ref"
				}
			}
			c.App(n, a.sort, c.Const("i0", SIface))
			out = append(out, eq(c.mk("@"+n, a.sort, t), a))
		}
	}
	if t.op == "@inil" {
		c.App("tag", SInt, c.Const("i0", SIface))
		out = append(out, eq(c.mk("@tag", SInt, t), c.Int(0)))
	}
	if b, ok := c.facts[t]; ok {
		out = append(out, c.Le(c.Int(0), t), c.Lt(t, b.base))
	}
	return out
}

// Solver is one incremental solver process.
type Solver struct {
	c     *Ctx
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	pr    *Printer
	buf   strings.Builder
	stack []*Fact
	seen  []map[*Term]bool
	seenF []map[string]bool
	log   io.Writer
	tmo   int
	dead  bool
}

// Fact is a node in the persistent list of assertions of a path.
type Fact struct {
	t      *Term
	parent *Fact
	n      int
}

func (f *Fact) push(t *Term) *Fact {
	n := 1
	if f != nil {
		n = f.n + 1
	}
	return &Fact{t, f, n}
}
func (f *Fact) list() []*Fact {
	if f == nil {
		return nil
	}
	out := make([]*Fact, f.n)
	for g := f; g != nil; g = g.parent {
		out[g.n-1] = g
	}
	return out
}

func NewSolver(c *Ctx, tmoMs int) *Solver {
	s := &Solver{c: c, tmo: tmoMs}
	s.start()
	return s
}
func (s *Solver) start() {
	s.pr = NewPrinter(s.c, &s.buf)
	s.buf.Reset()
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReader(out)
	s.stack, s.seen, s.seenF = nil, []map[*Term]bool{{}}, []map[string]bool{{}}
	fmt.Fprintf(&s.buf, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :timeout %d)\n%s", s.tmo, smtPrelude)
	if d := os.Getenv("VGO_LOG"); d != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s/%p.smt2", d, s))
	}
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) isSeen(t *Term) bool {
	for _, m := range s.seen {
		if m[t] {
			return true
		}
	}
	return false
}
func (s *Solver) isSeenF(n string) bool {
	for _, m := range s.seenF {
		if m[n] {
			return true
		}
	}
	return false
}

// assert adds a term and the axioms of its subterms at the current level.
func (s *Solver) assert(t *Term) {
	for _, a := range s.c.axiomClosure([]*Term{t}, s.isSeen, func(t *Term) { s.seen[len(s.seen)-1][t] = true }, s.isSeenF, func(n string) { s.seenF[len(s.seenF)-1][n] = true }) {
		r := s.pr.Ref(a)
		fmt.Fprintf(&s.buf, "(assert %s)\n", r)
	}
}

// axiomClosure lists the terms to assert: the given ones and the axioms of everything in them.
func (c *Ctx) axiomClosure(ts []*Term, seen func(*Term) bool, mark func(*Term), seenF func(string) bool, markF func(string)) []*Term {
	var out []*Term
	work := append([]*Term{}, ts...)
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		out = append(out, t)
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen(t) {
				return
			}
			mark(t)
			for _, a := range t.args {
				walk(a)
			}
			for _, a := range t.trig {
				walk(a)
			}
			if strings.HasPrefix(t.op, "@") {
				n := t.op[1:]
				if as, ok := c.funAxioms[n]; ok && !seenF(n) {
					markF(n)
					work = append(work, as...)
				}
			}
			if !t.bound {
				work = append(work, c.groundAxioms(t)...)
			}
		}
		walk(t)
	}
	return out
}

func (s *Solver) push() {
	s.buf.WriteString("(push 1)\n")
	s.seen = append(s.seen, map[*Term]bool{})
	s.seenF = append(s.seenF, map[string]bool{})
}
func (s *Solver) pop() {
	s.buf.WriteString("(pop 1)\n")
	s.seen = s.seen[:len(s.seen)-1]
	s.seenF = s.seenF[:len(s.seenF)-1]
}

func (s *Solver) sync(f *Fact) { s.syncList(f.list()) }

func (s *Solver) syncList(want []*Fact) {
	n := 0
	for n < len(want) && n < len(s.stack) && want[n] == s.stack[n] {
		n++
	}
	for len(s.stack) > n {
		s.pop()
		s.stack = s.stack[:len(s.stack)-1]
	}
	for ; n < len(want); n++ {
		s.push()
		s.assert(want[n].t)
		s.stack = append(s.stack, want[n])
	}
}

// Check reports sat, unsat or unknown for the facts and the extra terms.
func (s *Solver) Check(f *Fact, extra ...*Term) string {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverTime, int64(time.Since(t0)))
		atomic.AddInt64(&solverCalls, 1)
	}()
	return s.check(f.list(), extra...)
}

func (s *Solver) check(want []*Fact, extra ...*Term) string {
	s.syncList(want)
	s.push()
	for _, e := range extra {
		s.assert(e)
	}
	s.buf.WriteString("(check-sat)\n")
	s.pop()
	r := s.flush()
	return r
}

func (s *Solver) flush() string {
	txt := s.buf.String()
	s.buf.Reset()
	if s.log != nil {
		io.WriteString(s.log, txt)
	}
	go io.WriteString(s.in, txt)
	t0 := time.Now()
	proc := s.cmd.Process
	wd := time.AfterFunc(time.Duration(3*s.tmo)*time.Millisecond, func() { proc.Kill() })
	defer func() {
		wd.Stop()
		if d := time.Since(t0); d > time.Second && os.Getenv("VGO_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "slow query: %.1fs\n", d.Seconds())
			if s.log != nil {
				fmt.Fprintf(s.log, "; slow %.1fs\n", d.Seconds())
			}
		}
	}()
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd.Wait()
			s.start()
			return "unknown"
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unsat", "unknown", "timeout":
			return line
		}
		if strings.HasPrefix(line, "(error") {
			if os.Getenv("VGO_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver:", line)
			}
			s.dead = true
			s.errs(line)
		}
	}
}
func (s *Solver) errs(l string) {
	solverErrs.Store(l, true)
}

// Script prints a stand-alone query.
func (c *Ctx) Script(facts []*Term, goal *Term, extra string) string {
	var b strings.Builder
	b.WriteString(smtPrelude)
	p := NewPrinter(c, &b)
	seen := map[*Term]bool{}
	seenF := map[string]bool{}
	all := append(append([]*Term{}, facts...), c.Not(goal))
	for _, a := range c.axiomClosure(all, func(t *Term) bool { return seen[t] }, func(t *Term) { seen[t] = true }, func(n string) bool { return seenF[n] }, func(n string) { seenF[n] = true }) {
		r := p.Ref(a)
		fmt.Fprintf(&b, "(assert %s)\n", r)
	}
	b.WriteString("(check-sat)\n")
	b.WriteString(extra)
	return b.String()
}

// RunScript gives the answer of a solver for a stand-alone query.
func RunScript(bin []string, script string, timeout time.Duration) (string, string) {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverTime, int64(time.Since(t0)))
		atomic.AddInt64(&solverCalls, 1)
	}()
	cmd := exec.Command(bin[0], bin[1:]...)
	cmd.Stdin = strings.NewReader(script)
	done := make(chan struct{})
	var out []byte
	go func() { out, _ = cmd.CombinedOutput(); close(done) }()
	select {
	case <-done:
	case <-time.After(timeout):
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		<-done
		return "timeout", ""
	}
	txt := string(out)
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l, txt
		}
	}
	return "error", txt
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
