package main

// Calls: builtins, inlined functions, contracts.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func resVal(rs []Val) Val {
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return TupleV(rs)
}

func (x *Exec) call(fr *Frame, st *State, in *ssa.Call, k func(fr *Frame, st *State, res Val)) {
	c := x.c
	x.curCall = in.Pos()
	com := in.Common()
	var args []Val
	for _, a := range com.Args {
		args = append(args, x.val(fr, a))
	}
	if com.IsInvoke() {
		recv := x.val(fr, com.Value).(*Term)
		x.prove(st, "safety", "method call on a nil interface", nil, c.Not(c.Eq(c.Tag(recv), c.Int(0))), in.Pos())
		x.assume(st, c.Not(c.Eq(c.Tag(recv), c.Int(0))))
		if com.Method.Name() == "Error" && len(args) == 0 {
			k(fr, st, c.App("errmsg", SStr, recv))
			return
		}
		unsup("call of interface method %s", com.Method.Name())
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, in, b.Name(), args, k)
		return
	}
	f, ok := x.val(fr, com.Value).(*FuncV)
	if !ok {
		unsup("call of %T", x.val(fr, com.Value))
	}
	if f == nil {
		x.prove(st, "safety", "call of a nil function", nil, c.tFalse, in.Pos())
		st.dead = true
		return
	}
	snap := fr.clone()
	used := false
	cont := func(st *State, rs []Val) {
		g := snap
		if used {
			g = snap.clone()
		} else {
			used = true
			g = snap.clone()
		}
		k(g, st, resVal(rs))
	}
	x.callFunc(st, fr, f, args, com, in, cont)
}

func (x *Exec) callFunc(st *State, fr *Frame, f *FuncV, args []Val, com *ssa.CallCommon, in *ssa.Call, cont Cont) {
	c := x.c
	if f.self != nil {
		key := f.kind + "." + f.meth
		ct := x.P.db.contracts[key]
		if ct == nil {
			unsup("%s has no contract", key)
		}
		sig := com.Signature()
		x.applyContract(st, ct, &EV{f.self, x.P.jsonType(f.kind)}, args, sig, in.Pos(), cont)
		return
	}
	if f.term != nil {
		x.prove(st, "safety", "call of a nil function", nil, c.Not(c.Eq(f.term, c.Int(0))), in.Pos())
		unsup("call of an unknown function value")
	}
	fn := f.fn
	full := fn.String()
	if x.model(st, full, fn, args, in, cont) {
		return
	}
	if fn.Parent() == nil {
		key := fn.Name()
		if fn.Pkg != nil && fn.Pkg != x.P.json {
			key = fn.Pkg.Pkg.Name() + "." + fn.Name()
		}
		if recv := fn.Signature.Recv(); recv != nil {
			key = strings.TrimPrefix(full, "")
		}
		if ct := x.P.db.contracts[key]; ct != nil && ct.class == "" && !ct.flags["inline"] {
			x.applyContract(st, ct, nil, args, fn.Signature, in.Pos(), cont)
			return
		}
	}
	if fn.Name() == "Error" && len(fn.Blocks) == 0 && fn.Signature.Recv() != nil && len(args) == 1 {
		if r, ok := args[0].(*Term); ok && r.sort == SInt {
			x.prove(st, "safety", "nil dereference", nil, c.Not(c.Eq(r, c.Int(0))), in.Pos())
			x.assume(st, c.Not(c.Eq(r, c.Int(0))))
			x.T.noteModel(full)
			cont(st, []Val{c.App("errmsg", SStr, c.Box(c.Int(tagOf(fn.Signature.Recv().Type())), r))})
			return
		}
	}
	x.inlineCall(st, fr, fn, args, f.binds, cont)
}

func (x *Exec) applyContract(st *State, ct *Contract, self *EV, args []Val, sig *types.Signature, pos token.Pos, cont Cont) {
	c := x.c
	x.T.useContract(ct)
	env := &SEnv{x: x, st: st, vars: map[string]EV{}, what: "of " + ct.key}
	if self != nil {
		env.vars["self"] = *self
	}
	off := len(args) - len(ct.params)
	if off < 0 {
		unsup("contract of %s names %d parameters, the call has %d", ct.key, len(ct.params), len(args))
	}
	if off > 0 {
		unsup("contract of %s names %d parameters, the call has %d", ct.key, len(ct.params), len(args))
	}
	for i, p := range ct.params {
		var ty types.Type
		if sig.Recv() != nil {
			if i == 0 {
				ty = sig.Recv().Type()
			} else {
				ty = sig.Params().At(i - 1).Type()
			}
		} else {
			ty = sig.Params().At(i).Type()
		}
		v := args[i]
		if lv, ok := v.(LocV); ok && len(lv.path) == 0 {
			v = x.escape(st, lv)
		}
		if sv, ok := v.(StructV); ok && objKind(ty) != "" {
			v = x.structObj(st, sv, ty)
		}
		env.vars[p] = EV{v, ty}
	}
	for _, r := range ct.reqs {
		if !hasTag(r.tags, x.T.prop) {
			continue
		}
		t := env.Bool(r.expr)
		x.prove(st, "requires", ct.key+": "+clauseName(r), r.tags, t, pos)
		x.assume(st, t)
	}
	if ct.flags["decreasing"] || x.spec == ct {
		// recursion: termination is argued separately (see the assumptions)
		x.T.assumption("recursive calls of " + ct.key + " terminate because the object graph is finite and acyclic (or their argument shrinks)")
	}
	for _, g := range ct.ghosts { // some value; a function with a ghost variable of that name takes it on
		t := c.Fresh("ghost_"+g, arr(SInt, SInt))
		env.vars["ghost "+g] = EV{t, nil}
		if _, ok := st.ghost["ghost "+g]; ok {
			st.ghost["ghost "+g] = t
		}
	}
	pre := st.clone()
	oldBound := x.bumpAlloc(st)
	_ = oldBound
	for _, m := range ct.modifies {
		x.havocLoc(st, env.with(st), m)
	}
	for _, m := range ct.objects {
		x.havocObj(st, m.kind, objT{env.with(pre).Term(m.expr), nil})
	}
	// results
	res := make([]Val, sig.Results().Len())
	var alts func(i int, st *State)
	fin := func(st *State) {
		env := env.with(st)
		env.old = pre
		env.callee = true
		for i := range res {
			env.vars[fmt.Sprintf("r%d", i)] = EV{res[i], sig.Results().At(i).Type()}
		}
		for _, cl := range ct.ens {
			if !hasTag(cl.tags, x.T.prop) || cl.kind == "shows" {
				continue
			}
			x.assume(st, env.Bool(cl.expr))
		}
		for _, cl := range ct.asm {
			if hasTag(cl.tags, x.T.prop) {
				x.T.assumption(ct.key + ": " + clauseName(cl) + " (assumed)")
				x.assume(st, env.Bool(cl.expr))
			}
		}
		if st.dead {
			return
		}
		cont(st, append([]Val(nil), res...))
	}
	alts = func(i int, st *State) {
		if i == len(res) {
			fin(st)
			return
		}
		ty := sig.Results().At(i).Type()
		name := fmt.Sprintf("r%d", i)
		mk := func(st *State) Val {
			if k := objKind(ty); k != "" {
				id := x.alloc(st)
				return id
			}
			r := x.alloc(st)
			if k := ptrObjKind(ty); k != "" {
				id := x.alloc(st)
				n := "H:json." + k + ":0"
				x.setH(st, n, c.Store(x.H(st, n, arr(SInt, SInt)), r, id), r)
			}
			return r
		}
		for _, n := range ct.news {
			if n == name {
				res[i] = mk(st)
				alts(i+1, st)
				return
			}
		}
		for _, n := range ct.maynews {
			if n == name {
				s2 := st.clone()
				b := c.Fresh("some_"+name, SBool)
				x.assume(st, b)
				res[i] = mk(st)
				alts(i+1, st)
				x.assume(s2, c.Not(b))
				res[i] = c.Int(0)
				alts(i+1, s2)
				return
			}
		}
		res[i] = x.freshVal(st, ty, sanitize(ct.key)+"_"+name)
		alts(i+1, st)
	}
	alts(0, st)
}

// havocLoc makes a location named in a modifies clause arbitrary.
func (x *Exec) havocLoc(st *State, env *SEnv, m string) {
	c := x.c
	if strings.HasPrefix(m, "*") {
		v, ok := env.vars[m[1:]]
		if !ok {
			unsup("modifies %s", m)
		}
		el := v.ty.Underlying().(*types.Pointer).Elem()
		r, ok := v.v.(*Term)
		if !ok {
			unsup("modifies %s", m)
		}
		ss := sortsOf(el)
		b := x.curBound(st)
		var ts []*Term
		for i, s := range ss {
			f := c.Fresh("mod", s)
			ts = append(ts, f)
			n := hname(el, i)
			x.setH(st, n, c.Store(x.H(st, n, arr(SInt, s)), r, f), r)
		}
		x.fromTerms(st, ts, el, b)
		return
	}
	v, ok := env.vars[m]
	if !ok {
		unsup("modifies %s", m)
	}
	k, o := env.object(v)
	x.havocObj(st, k, o)
}

func (x *Exec) havocObj(st *State, k string, o objT) {
	c := x.c
	if o.rep != nil {
		unsup("a call that changes the object under verification")
	}
	if x.selfID != nil && x.selfK == k {
		if !x.valid(st, c.Not(c.Eq(o.id, x.selfID))) {
			unsup("a call that may change the object under verification")
		}
	}
	for _, g := range ghostComps[k] {
		if k == "Map" && g.name == "a" {
			continue
		}
		n := gname(k, g.name)
		x.setH(st, n, c.Store(x.G(st, k, g.name), o.id, c.Fresh("g_"+g.name, g.sort)), o.id)
	}
}

func clauseName(c *Clause) string {
	if c.label != "" {
		return c.label
	}
	t := c.text
	if len(t) > 120 {
		t = t[:120] + "..."
	}
	return t
}

// ---- builtins

func (x *Exec) builtin(fr *Frame, st *State, in *ssa.Call, name string, args []Val, k func(*Frame, *State, Val)) {
	c := x.c
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *Term:
			if v.sort == SStr {
				k(fr, st, c.SLen(v))
				return
			}
			if mt, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok {
				k(fr, st, c.Ite(c.Eq(v, c.Int(0)), c.Int(0), x.maplen(st, v, mt)))
				return
			}
		case SliceV:
			if name == "cap" {
				k(fr, st, v.cap)
			} else {
				k(fr, st, v.len)
			}
			return
		case GoSlice:
			if name == "len" {
				k(fr, st, c.Int(int64(v.hi-v.lo)))
				return
			}
		}
	case "append":
		x.append(fr, st, in, args, k)
		return
	case "delete":
		mt := in.Call.Args[0].Type().Underlying().(*types.Map)
		m := args[0].(*Term)
		f2 := fr.clone()
		x.fork(st, c.Eq(m, c.Int(0)), func(st *State) { k(f2, st, nil) }, func(st *State) {
			x.mapDelete(st, m, mt, args[1])
			k(fr, st, nil)
		})
		return
	case "copy":
		d := x.sliceOf(st, args[0])
		el := in.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
		if sv, ok := args[1].(*Term); ok && sv.sort == SStr {
			unsup("copy from a string")
		}
		s := x.sliceOf(st, args[1])
		n := c.Ite(c.Le(d.len, s.len), d.len, s.len)
		for i, so := range sortsOf(el) {
			nm := bname(el, i)
			h := x.H(st, nm, arr(SInt, arr(SInt, so)))
			x.setH(st, nm, c.Store(h, d.base, c.ACopy(c.Select(h, d.base), d.off, c.Select(h, s.base), s.off, n)), d.base)
		}
		k(fr, st, n)
		return
	case "ssa:wrapnilchk":
		k(fr, st, args[0])
		return
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		k(fr, st, r)
		return
	case "panic":
		x.prove(st, "safety", "reachable panic", nil, c.tFalse, in.Pos())
		return
	}
	unsup("builtin %s", name)
}

func (x *Exec) append(fr *Frame, st *State, in *ssa.Call, args []Val, k func(*Frame, *State, Val)) {
	c := x.c
	el := in.Type().Underlying().(*types.Slice).Elem()
	if s, ok := args[1].(*Term); ok && s.sort == SStr {
		unsup("append of a string to bytes")
	}
	src := x.sliceOf(st, args[0])
	ss := sortsOf(el)
	isErr := fmtTypeName(el) == "error"
	// what is added
	var n *Term
	var goElems []Val
	var add SliceV
	if g, ok := args[1].(GoSlice); ok {
		if _, esc := st.esc[g.loc]; !esc {
			a := st.cells[g.loc].(ArrV)
			goElems = a.e[g.lo:g.hi]
			n = c.Int(int64(len(goElems)))
		}
	}
	if n == nil {
		add = x.sliceOf(st, args[1])
		n = add.len
	}
	nl := c.Add(src.len, n)
	x.assume(st, c.Le(nl, c.Int(1<<62))) // memory is finite
	if isErr {
		r := x.alloc(st)
		b := c.Ite(x.simp(st, c.Eq(n, c.Int(0))), src.base, r)
		cp := c.Ite(x.simp(st, c.Eq(n, c.Int(0))), src.cap, nl)
		k(fr, st, SliceV{b, c.Ite(x.simp(st, c.Eq(n, c.Int(0))), src.off, c.Int(0)), nl, cp})
		return
	}
	write := func(st *State, a *Term, off *Term, i int) *Term {
		if goElems != nil {
			for j, e := range goElems {
				a = c.Store(a, c.Add(off, c.Int(int64(j))), x.toTerms(st, e, el)[i])
			}
			return a
		}
		h := x.H(st, bname(el, i), arr(SInt, arr(SInt, ss[i])))
		return c.ACopy(a, off, c.Select(h, add.base), add.off, n)
	}
	fresh := func(fr *Frame, st *State) {
		r := x.alloc(st)
		// elements to be added may need references of their own
		if goElems != nil {
			for _, e := range goElems {
				x.toTerms(st, e, el)
			}
		}
		for i := range ss {
			nm := bname(el, i)
			h := x.H(st, nm, arr(SInt, arr(SInt, ss[i])))
			var a *Term
			if src.len.isInt() && src.len.ival.Sign() == 0 {
				a = c.Select(h, r)
			} else {
				a = c.ACopy(c.Select(h, r), c.Int(0), c.Select(h, src.base), src.off, src.len)
			}
			a = write(st, a, src.len, i)
			x.setH(st, nm, c.Store(x.H(st, nm, h.sort), r, a), r)
		}
		k(fr, st, SliceV{r, c.Int(0), nl, nl})
	}
	if n.isInt() && n.ival.Sign() == 0 {
		k(fr, st, src)
		return
	}
	zeroSrc := src.cap.isInt() && src.cap.ival.Sign() == 0
	if zeroSrc || x.P.appendPure(in) {
		if n.isInt() {
			fresh(fr, st)
			return
		}
		f2 := fr.clone()
		x.fork(st, c.Eq(n, c.Int(0)), func(st *State) { k(f2, st, src) }, func(st *State) { fresh(fr, st) })
		return
	}
	f2 := fr.clone()
	x.fork(st, c.Le(nl, src.cap), func(st *State) {
		if goElems != nil {
			for _, e := range goElems {
				x.toTerms(st, e, el)
			}
		}
		for i := range ss {
			nm := bname(el, i)
			h := x.H(st, nm, arr(SInt, arr(SInt, ss[i])))
			a := write(st, c.Select(h, src.base), c.Add(src.off, src.len), i)
			x.setH(st, nm, c.Store(x.H(st, nm, h.sort), src.base, a), src.base)
		}
		k(fr, st, SliceV{src.base, src.off, nl, src.cap})
	}, func(st *State) { fresh(f2, st) })
}

func (x *Exec) maplen(st *State, v *Term, mt *types.Map) *Term {
	c := x.c
	has, _ := x.mapArrs(st, v, mt)
	r := c.App("maplen_"+sanitize(string(has.sort)), SInt, has)
	x.assume(st, c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(1<<62))))
	j := c.BVar("j", has.sort.arrKey())
	x.assume(st, c.Implies(c.Eq(r, c.Int(0)), c.Forall([]*Term{j}, c.Not(c.Select(has, j)), c.Select(has, j))))
	return r
}

// ---- models of library functions

func (x *Exec) nilish(st *State, t *Term) *Term {
	c := x.c
	if t.op == "ite" {
		return c.Ite(t.args[0], x.nilish(st, t.args[1]), x.nilish(st, t.args[2]))
	}
	tg := x.simp1(st, c.Tag(t))
	if tg.isInt() {
		switch k := nilKind(tg.ival.Int64()); k {
		case "nil":
			return c.tTrue
		case "ptr":
			return c.Eq(c.UnboxRef(t), c.Int(0))
		case "never":
			return c.tFalse
		case "map": // an empty map prints like a nil one
			m := c.UnboxRef(t)
			return c.Or(c.Eq(m, c.Int(0)), c.Eq(x.maplen(st, m, tagType(tg.ival.Int64()).Underlying().(*types.Map)), c.Int(0)))
		}
	}
	return c.App("nilish", SBool, t)
}

// nilishAxioms relates the nil test r of content t to the dynamic type of t.
func (c *Ctx) nilishAxioms(r, t *Term) []*Term {
	var as []*Term
	for i := int64(0); i < tagCount(); i++ {
		g := c.Eq(c.Tag(t), c.Int(i))
		switch nilKind(i) {
		case "nil":
			as = append(as, c.Implies(g, r))
		case "ptr":
			as = append(as, c.Implies(g, c.Eq(r, c.Eq(c.UnboxRef(t), c.Int(0)))))
		case "err":
			as = append(as, c.Implies(c.And(g, c.Eq(c.UnboxRef(t), c.Int(0))), r))
		case "never":
			as = append(as, c.Implies(g, c.Not(r)))
		}
	}
	// text counts as nil only when it starts like one of the nil renderings
	if g := c.Eq(c.Tag(t), c.Int(tagOf(types.Typ[types.String]))); !g.isFalse() {
		u := c.Unbox(t, 0, SStr)
		b := c.SByte(u, c.Int(0))
		var or []*Term
		for _, k := range []byte("<& nm%") {
			or = append(or, c.Eq(b, c.Int(int64(k))))
		}
		as = append(as, c.Implies(c.And(g, r), c.And(c.Le(c.Int(1), c.SLen(u)), c.Or(or...))))
	}
	return as
}

func (x *Exec) simp1(st *State, t *Term) *Term {
	if v, ok := st.eqs[t]; ok && x.c.isLit(v) {
		return v
	}
	return t
}

// nilKind tells what common.IsNil says about values of a dynamic type.
func nilKind(tag int64) string {
	if tag == 0 {
		return "nil"
	}
	if n, _ := tagName(tag); n == "*errors.errorString" || n == "*url.Error" || n == "*exec.ExitError" {
		return "err" // printed by its Error method
	} else if strings.HasPrefix(n, "*") {
		return "ptr"
	}
	t := tagType(tag)
	if t == nil {
		n, _ := tagName(tag)
		if o := types.Universe.Lookup(n); o != nil {
			t = o.Type()
		} else if n == "json.Map" || n == "json.Array" || n == "json.Value" || n == "time.Time" {
			return "never"
		} else {
			return ""
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return "ptr"
	case *types.Map:
		return "map"
	case *types.Basic:
		if u.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
			return "never"
		}
	case *types.Slice:
		return "never"
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && (objKind(t) != "" || n.Obj().Name() == "Time") {
			return "never"
		}
	}
	return ""
}

func (x *Exec) typestr(tag *Term) *Term {
	return x.c.App("typestr", SStr, tag)
}

func (x *Exec) itoa(t *Term) *Term {
	if t.isInt() {
		return x.c.Lit(t.ival.String())
	}
	f := x.P.db.funs["itoa"]
	if f == nil {
		return x.c.App("itoa", SStr, t)
	}
	return x.specApp(f, t)
}

func (x *Exec) fun(name string, res Sort, args ...*Term) *Term {
	if f := x.P.db.funs[name]; f != nil {
		return x.specApp(f, args...)
	}
	return x.c.App(name, res, args...)
}

// sprintf formats boxed arguments.
func (x *Exec) sprintf(st *State, format string, args []*Term) *Term {
	c := x.c
	var out []*Term
	lit := ""
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		if i+1 < len(format) && format[i+1] == '%' {
			lit += "%"
			i++
			continue
		}
		j := i + 1
		for j < len(format) && !(format[j] >= 'a' && format[j] <= 'z' || format[j] >= 'A' && format[j] <= 'Z') {
			j++
		}
		if j >= len(format) || ai >= len(args) {
			lit += "?"
			break
		}
		verb := format[i+1 : j+1]
		i = j
		a := args[ai]
		ai++
		out = append(out, c.Lit(lit))
		lit = ""
		tg := x.simp1(st, c.Tag(a))
		var r *Term
		if verb == "T" {
			r = c.Ite(c.Eq(c.Tag(a), c.Int(0)), c.Lit("<nil>"), x.typestr(c.Tag(a)))
		} else if tg.isInt() {
			n, _ := tagName(tg.ival.Int64())
			switch n {
			case "string":
				if verb == "s" || verb == "v" {
					r = c.Unbox(a, 0, SStr)
				}
			case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
				if verb == "d" || verb == "v" {
					r = x.itoa(c.Unbox(a, 0, SInt))
				} else {
					r = c.App("fmtint_"+sanitize(verb), SStr, c.Unbox(a, 0, SInt))
				}
			case "*errors.errorString":
				if verb == "s" || verb == "v" {
					r = c.Ite(c.Eq(c.UnboxRef(a), c.Int(0)), c.App("fmt_s", SStr, a), c.App("errmsg", SStr, a))
				}
			case "bool":
				if verb == "t" || verb == "v" {
					r = c.Ite(c.Unbox(a, 0, SBool), c.Lit("true"), c.Lit("false"))
				}
			case "float64":
				r = x.fun("fmtf64_"+sanitize(verb), SStr, c.Unbox(a, 0, SF64))
			case "float32":
				r = x.fun("fmtf32_"+sanitize(verb), SStr, c.Unbox(a, 0, SF32))
			}
		}
		if r == nil {
			r = c.App("fmt_"+sanitize(verb), SStr, a)
			if es := tagID("*errors.errorString"); !tg.isInt() && (verb == "s" || verb == "v") {
				r = c.Ite(c.And(c.Eq(c.Tag(a), c.Int(es)), c.Not(c.Eq(c.UnboxRef(a), c.Int(0)))), c.App("errmsg", SStr, a), r)
			}
		}
		out = append(out, r)
	}
	out = append(out, c.Lit(lit))
	return c.Cat(out...)
}

func (x *Exec) varargs(st *State, v Val) []*Term {
	switch v := v.(type) {
	case GoSlice:
		if _, esc := st.esc[v.loc]; !esc {
			var out []*Term
			for _, e := range st.cells[v.loc].(ArrV).e[v.lo:v.hi] {
				out = append(out, e.(*Term))
			}
			return out
		}
	case SliceV:
		if v.len.isInt() && v.len.ival.Sign() == 0 {
			return nil
		}
	}
	return []*Term{x.c.Fresh("fmtarg", SIface)}
}

func (x *Exec) newError(st *State, text *Term) *Term {
	c := x.c
	e := c.Box(c.Int(tagID("*errors.errorString")), x.alloc(st))
	if text != nil {
		m := c.App("errmsg", SStr, e)
		c.axioms[m] = []*Term{c.mk("=", SBool, m, text)}
		if x.T.ct.flags["errmsg"] {
			x.assume(st, c.mk("=", SBool, m, text))
		}
	}
	return e
}

func (x *Exec) errResult(st *State, ok *Term) *Term {
	c := x.c
	return c.Ite(ok, c.INil(), x.newError(st, nil))
}

// builder access: a pointer to a strings.Builder, as a cell or on the heap
func (x *Exec) builderGet(st *State, p Val, ty types.Type, pos token.Pos) *Term {
	return x.load(st, p, ty, pos).(*Term)
}

func (x *Exec) model(st *State, full string, fn *ssa.Function, args []Val, in *ssa.Call, cont Cont) bool {
	c := x.c
	pos := in.Pos()
	T := func(i int) *Term {
		t, ok := args[i].(*Term)
		if !ok {
			unsup("argument %T of %s", args[i], full)
		}
		return t
	}
	ret := func(vs ...Val) bool { cont(st, vs); return true }
	x.T.noteModel(full)
	nilErr := c.INil()
	if recv := fn.Signature.Recv(); recv != nil && strings.HasPrefix(full, "(*strings.Builder).") {
		bt := recv.Type().(*types.Pointer).Elem()
		switch fn.Name() {
		case "WriteString":
			x.store(st, args[0], bt, c.Cat(x.builderGet(st, args[0], bt, pos), T(1)), pos)
			return ret(c.SLen(T(1)), nilErr)
		case "WriteByte":
			x.store(st, args[0], bt, c.Cat(x.builderGet(st, args[0], bt, pos), c.Chr(T(1))), pos)
			return ret(nilErr)
		case "WriteRune":
			t := x.utf8enc(T(1))
			x.store(st, args[0], bt, c.Cat(x.builderGet(st, args[0], bt, pos), t), pos)
			return ret(c.SLen(t), nilErr)
		case "String":
			return ret(x.builderGet(st, args[0], bt, pos))
		case "Len":
			return ret(c.SLen(x.builderGet(st, args[0], bt, pos)))
		case "Reset":
			x.store(st, args[0], bt, c.Lit(""), pos)
			return ret()
		case "Grow":
			return ret()
		}
	}
	switch full {
	case commonPath + ".IsNil":
		return ret(x.nilish(st, T(0)))
	case commonPath + ".GetType":
		t := T(0)
		return ret(c.Ite(x.nilish(st, t), c.Lit("nil"), x.typestr(c.Tag(t))))
	case "fmt.Errorf", "errors.New":
		if full == "errors.New" {
			return ret(x.newError(st, T(0)))
		}
		if f, ok := litOf(T(0)); ok {
			return ret(x.newError(st, x.sprintf(st, f, x.varargs(st, args[1]))))
		}
		return ret(x.newError(st, nil))
	case "fmt.Sprintf":
		if f, ok := litOf(T(0)); ok {
			return ret(x.sprintf(st, f, x.varargs(st, args[1])))
		}
		return ret(c.Fresh("sprintf", SStr))
	case "strings.Clone":
		return ret(T(0))
	case "strings.HasPrefix", "strings.HasSuffix":
		if l, ok := litOf(T(1)); ok {
			if fn.Name() == "HasPrefix" {
				return ret(c.HasPrefixLit(T(0), l))
			}
			return ret(c.HasSuffixLit(T(0), l))
		}
		return ret(c.App(strings.ToLower(fn.Name()), SBool, T(0), T(1)))
	case "strings.Contains":
		return ret(x.fun("scontains", SBool, T(0), T(1)))
	case "strings.ReplaceAll":
		return ret(x.fun("replaceall", SStr, T(0), T(1), T(2)))
	case "strings.Count":
		r := x.fun("scount", SInt, T(0), T(1))
		x.assume(st, c.Le(c.Int(0), r))
		return ret(r)
	case "strings.TrimSpace":
		s := T(0)
		if l, ok := litOf(s); ok {
			return ret(c.Lit(strings.TrimSpace(l)))
		}
		lo, hi := x.fun("triml", SInt, s), x.fun("trimr", SInt, s)
		x.assume(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.SLen(s))))
		return ret(c.SubStr(s, lo, hi))
	case "strings.ToLower", "strings.ToUpper", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Title", "strings.Replace":
		var ts []*Term
		for i := range args {
			ts = append(ts, T(i))
		}
		return ret(c.App("strings_"+fn.Name(), SStr, ts...))
	case "strings.EqualFold", "strings.ContainsRune", "strings.ContainsAny":
		return ret(c.App("strings_"+fn.Name(), SBool, T(0), T(1)))
	case "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.IndexRune", "strings.IndexAny":
		r := c.App("strings_"+fn.Name(), SInt, T(0), T(1))
		x.assume(st, c.And(c.Le(c.Int(-1), r), c.Le(r, c.SLen(T(0)))))
		return ret(r)
	case "strconv.FormatInt", "strconv.FormatUint":
		if b := T(1); b.isInt() && b.ival.Int64() == 10 {
			return ret(x.itoa(T(0)))
		}
		return ret(c.App("formatint", SStr, T(0), T(1)))
	case "strconv.Itoa":
		return ret(x.itoa(T(0)))
	case "strconv.FormatBool":
		return ret(c.Ite(T(0), c.Lit("true"), c.Lit("false")))
	case "strconv.Atoi":
		return x.parseInt(st, T(0), 64, true, cont)
	case "strconv.ParseInt", "strconv.ParseUint":
		b, n := T(1), T(2)
		if b.isInt() && b.ival.Int64() == 10 && n.isInt() {
			bits := int(n.ival.Int64())
			if bits == 0 {
				bits = 64
			}
			return x.parseInt(st, T(0), bits, fn.Name() == "ParseInt", cont)
		}
	case "strconv.ParseFloat":
		if b := T(1); b.isInt() {
			n := "64"
			if b.ival.Int64() == 32 {
				n = "32"
			}
			ok := x.fun("isf"+n, SBool, T(0))
			v := x.fun("parsef"+n, SF64, T(0))
			s2 := st.clone()
			if x.feasible(st, ok) {
				x.assume(st, ok)
				cont(st, []Val{v, nilErr})
			}
			if x.feasible(s2, c.Not(ok)) {
				x.assume(s2, c.Not(ok))
				cont(s2, []Val{c.App("badf"+n, SF64, T(0)), x.newError(s2, nil)})
			}
			return true
		}
	case "strconv.ParseBool":
	case "(time.Time).Format":
		return ret(c.App("timefmt", SStr, T(0), T(1)))
	case "time.Now":
		return ret(c.Fresh("now", SInt))
	case "unicode/utf8.ValidString":
		return ret(x.fun("utf8valid", SBool, T(0)))
	case "unicode/utf8.RuneLen":
	case "unicode/utf8.DecodeRuneInString":
	case "unicode/utf16.IsSurrogate":
		t := T(0)
		return ret(c.And(c.Le(c.Int(0xd800), t), c.Lt(t, c.Int(0xe000))))
	case "unicode/utf16.DecodeRune":
		a, b := T(0), T(1)
		hi := c.And(c.Le(c.Int(0xd800), a), c.Lt(a, c.Int(0xdc00)))
		lo := c.And(c.Le(c.Int(0xdc00), b), c.Lt(b, c.Int(0xe000)))
		v := c.Add(c.MulC(1024, c.Sub(a, c.Int(0xd800))), c.Sub(b, c.Int(0xdc00)), c.Int(0x10000))
		return ret(c.Ite(c.And(hi, lo), v, c.Int(0xfffd)))
	}
	return false
}

func (x *Exec) parseInt(st *State, s *Term, bits int, signed bool, cont Cont) bool {
	c := x.c
	lo, hi := rangeOf(bits, signed)
	name := "isint"
	if !signed {
		name = "isuint"
	}
	v := x.fun("intval", SInt, s)
	is := x.fun(name, SBool, s)
	ok := c.And(is, c.Le(c.Big(lo), v), c.Le(v, c.Big(hi)))
	s2 := st.clone()
	if x.feasible(st, ok) {
		x.assume(st, ok)
		cont(st, []Val{v, c.INil()})
	}
	nok := c.Not(ok)
	if x.feasible(s2, nok) {
		x.assume(s2, nok)
		bad := c.Fresh("badint", SInt)
		c.axioms[bad] = []*Term{c.Le(c.Big(lo), bad), c.Le(bad, c.Big(hi))}
		cont(s2, []Val{bad, x.newError(s2, nil)})
	}
	return true
}
