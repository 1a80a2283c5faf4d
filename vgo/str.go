package main

// Strings: an uninterpreted sort with a concatenation normal form over literals, single bytes and substrings.

import "math/big"

func (c *Ctx) Lit(s string) *Term {
	if len(s) == 1 {
		return c.mk("chr", SStr, c.Int(int64(s[0])))
	}
	return c.mkv("strlit", SStr, s, nil)
}

// litOf returns the literal text of a term.
func litOf(t *Term) (string, bool) {
	if t.op == "strlit" {
		return t.sval, true
	}
	if t.op == "chr" && t.args[0].isInt() {
		return string([]byte{byte(t.args[0].ival.Int64())}), true
	}
	if t.op == "@typestr" && t.args[0].isInt() {
		if s, ok := tagName(t.args[0].ival.Int64()); ok {
			return s, true
		}
	}
	return "", false
}

func (c *Ctx) Chr(b *Term) *Term {
	return c.mk("chr", SStr, b)
}

func (c *Ctx) SLen(s *Term) *Term {
	if l, ok := litOf(s); ok {
		return c.Int(int64(len(l)))
	}
	switch s.op {
	case "chr":
		return c.Int(1)
	case "cat":
		var xs []*Term
		for _, a := range s.args {
			xs = append(xs, c.SLen(a))
		}
		return c.Add(xs...)
	case "@sub":
		return c.Sub(s.args[2], s.args[1])
	case "ite":
		return c.Ite(s.args[0], c.SLen(s.args[1]), c.SLen(s.args[2]))
	}
	return c.App("slen", SInt, s)
}

func (c *Ctx) SByte(s, i *Term) *Term {
	if l, ok := litOf(s); ok && i.isInt() && i.ival.IsInt64() && i.ival.Int64() >= 0 && i.ival.Int64() < int64(len(l)) {
		return c.Int(int64(l[i.ival.Int64()]))
	}
	switch s.op {
	case "chr":
		if i.isInt() && i.ival.Sign() == 0 {
			return s.args[0]
		}
	case "@sub":
		return c.SByte(s.args[0], c.Add(s.args[1], i))
	case "cat":
		off := i
		for _, a := range s.args {
			in := c.Lt(off, c.SLen(a))
			if in.isTrue() && c.Le(c.Int(0), off).isTrue() {
				return c.SByte(a, off)
			}
			if !in.isFalse() {
				break
			}
			off = c.Sub(off, c.SLen(a))
		}
		// index counted from the end
		end := c.Sub(c.SLen(s), i) // distance from the end
		for k := len(s.args) - 1; k >= 0; k-- {
			a := s.args[k]
			if !end.isInt() {
				break
			}
			la := c.SLen(a)
			if c.Le(end, la).isTrue() && end.ival.Sign() > 0 {
				return c.SByte(a, c.Sub(la, end))
			}
			if !c.Lt(la, end).isTrue() {
				break
			}
			end = c.Sub(end, la)
		}
	}
	return c.App("sbyte", SInt, s, i)
}

// SubStr builds s[lo:hi] (bounds are the caller's obligation).
func (c *Ctx) SubStr(s, lo, hi *Term) *Term {
	if lo == hi {
		return c.Lit("")
	}
	if lo.isInt() && lo.ival.Sign() == 0 && hi == c.SLen(s) {
		return s
	}
	if l, ok := litOf(s); ok && lo.isInt() && hi.isInt() {
		a, b := lo.ival.Int64(), hi.ival.Int64()
		if a >= 0 && a <= b && b <= int64(len(l)) {
			return c.Lit(l[a:b])
		}
	}
	if s.op == "@sub" {
		return c.SubStr(s.args[0], c.Add(s.args[1], lo), c.Add(s.args[1], hi))
	}
	if d := c.Sub(hi, lo); d.isInt() && d.ival.Cmp(big.NewInt(1)) == 0 {
		if s.op != "cat" {
			return c.Chr(c.SByte(s, lo))
		}
	}
	if s.op == "cat" {
		// drop whole pieces from the front
		args := s.args
		off := lo
		for len(args) > 0 {
			la := c.SLen(args[0])
			if !c.Le(la, off).isTrue() {
				break
			}
			off = c.Sub(off, la)
			args = args[1:]
		}
		cut := c.Sub(c.SLen(s), hi) // bytes dropped at the end
		for len(args) > 0 {
			la := c.SLen(args[len(args)-1])
			if !c.Le(la, cut).isTrue() {
				break
			}
			cut = c.Sub(cut, la)
			args = args[:len(args)-1]
		}
		z := func(t *Term) bool { return t.isInt() && t.ival.Sign() == 0 }
		if z(off) && z(cut) {
			return c.Cat(args...)
		}
		if len(args) == 1 {
			return c.SubStr(args[0], off, c.Sub(c.SLen(args[0]), cut))
		}
		if len(args) > 1 && len(args) < len(s.args) {
			r := c.Cat(args...)
			return c.SubStr(r, off, c.Sub(c.SLen(r), cut))
		}
		// literal ends can be cut
		if len(args) > 1 {
			if l, ok := litOf(args[0]); ok && off.isInt() && off.ival.Sign() > 0 && off.ival.Int64() < int64(len(l)) {
				r := c.Cat(append([]*Term{c.Lit(l[off.ival.Int64():])}, args[1:]...)...)
				return c.SubStr(r, c.Int(0), c.Sub(c.SLen(r), cut))
			}
			if l, ok := litOf(args[len(args)-1]); ok && cut.isInt() && cut.ival.Sign() > 0 && cut.ival.Int64() < int64(len(l)) {
				r := c.Cat(append(append([]*Term{}, args[:len(args)-1]...), c.Lit(l[:int64(len(l))-cut.ival.Int64()]))...)
				return c.SubStr(r, off, c.SLen(r))
			}
		}
	}
	return c.App("sub", SStr, s, lo, hi)
}

// asSub views a term as source[lo:hi].
func (c *Ctx) asSub(t *Term) (s, lo, hi *Term, ok bool) {
	if t.op == "@sub" {
		return t.args[0], t.args[1], t.args[2], true
	}
	if t.op == "chr" && t.args[0].op == "@sbyte" {
		b := t.args[0]
		return b.args[0], b.args[1], c.Add(b.args[1], c.Int(1)), true
	}
	return nil, nil, nil, false
}

func (c *Ctx) Cat(as ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "cat" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "strlit" && t.sval == "" {
			return
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if l1, ok := litOf(p); ok {
				if l2, ok := litOf(t); ok {
					out[len(out)-1] = c.Lit(l1 + l2)
					return
				}
			}
			if s1, lo1, hi1, ok := c.asSub(p); ok {
				if s2, lo2, hi2, ok := c.asSub(t); ok && s1 == s2 && hi1 == lo2 {
					out[len(out)-1] = c.SubStr(s1, lo1, hi2)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, a := range as {
		add(a)
	}
	if len(out) == 0 {
		return c.Lit("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("cat", SStr, out...)
}

func pieces(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	if t.op == "strlit" && t.sval == "" {
		return nil
	}
	return []*Term{t}
}

// strEq simplifies an equality of strings; nil when it stays as it is.
func (c *Ctx) strEq(a, b *Term) *Term {
	la, oka := litOf(a)
	lb, okb := litOf(b)
	if oka && okb {
		return c.Bool(la == lb)
	}
	if oka {
		a, b, la, lb, oka, okb = b, a, lb, la, okb, oka
	}
	if okb && lb == "" {
		n := c.SLen(a)
		if n.op == "@slen" {
			return c.mk("=", SBool, n, c.Int(0))
		}
		return c.Eq(n, c.Int(0))
	}
	if a.op == "@typestr" && okb {
		if tg, ok := tagByName(lb); ok {
			if impossibleTag(tg) {
				return c.tFalse
			}
			return c.Eq(a.args[0], c.Int(tg))
		}
		return nil
	}
	if a.op == "@typestr" && b.op == "@typestr" {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == "chr" && b.op == "chr" {
		return c.Eq(a.args[0], b.args[0])
	}
	// lengths that can never agree
	d := c.Sub(c.SLen(a), c.SLen(b))
	if d.isInt() && d.ival.Sign() != 0 || c.Lt(c.Int(0), d).isTrue() || c.Lt(d, c.Int(0)).isTrue() {
		return c.tFalse
	}
	pa, pb := pieces(a), pieces(b)
	if len(pa) <= 1 && len(pb) <= 1 {
		if a.op == "@sub" && b.op == "@sub" && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
			return nil
		}
		return nil
	}
	// strip equal ends
	var side []*Term
	ch := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			ch = true
			continue
		}
		lx, okx := litOf(x)
		ly, oky := litOf(y)
		if okx && oky {
			n := len(lx)
			if len(ly) < n {
				n = len(ly)
			}
			if lx[:n] != ly[:n] {
				return c.tFalse
			}
			pa, pb = dropLit(c, pa, lx, n), dropLit(c, pb, ly, n)
			ch = true
			continue
		}
		if x.op == "chr" && oky {
			side = append(side, c.Eq(x.args[0], c.Int(int64(ly[0]))))
			pa, pb = pa[1:], dropLit(c, pb, ly, 1)
			ch = true
			continue
		}
		if y.op == "chr" && okx {
			side = append(side, c.Eq(y.args[0], c.Int(int64(lx[0]))))
			pa, pb = dropLit(c, pa, lx, 1), pb[1:]
			ch = true
			continue
		}
		if x.op == "chr" && y.op == "chr" {
			side = append(side, c.Eq(x.args[0], y.args[0]))
			pa, pb = pa[1:], pb[1:]
			ch = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			ch = true
			continue
		}
		lx, okx := litOf(x)
		ly, oky := litOf(y)
		if okx && oky {
			n := len(lx)
			if len(ly) < n {
				n = len(ly)
			}
			if lx[len(lx)-n:] != ly[len(ly)-n:] {
				return c.tFalse
			}
			pa, pb = cutLit(c, pa, lx, n), cutLit(c, pb, ly, n)
			ch = true
			continue
		}
		if x.op == "chr" && y.op == "chr" {
			side = append(side, c.Eq(x.args[0], y.args[0]))
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			ch = true
			continue
		}
		break
	}
	if !ch {
		return nil
	}
	side = append(side, c.Eq(c.Cat(pa...), c.Cat(pb...)))
	return c.And(side...)
}

func dropLit(c *Ctx, ps []*Term, l string, n int) []*Term {
	if n == len(l) {
		return ps[1:]
	}
	return append([]*Term{c.Lit(l[n:])}, ps[1:]...)
}
func cutLit(c *Ctx, ps []*Term, l string, n int) []*Term {
	if n == len(l) {
		return ps[:len(ps)-1]
	}
	return append(append([]*Term{}, ps[:len(ps)-1]...), c.Lit(l[:len(l)-n]))
}

// HasPrefixLit and HasSuffixLit expand to byte comparisons.
func (c *Ctx) HasPrefixLit(s *Term, l string) *Term {
	cs := []*Term{c.Le(c.Int(int64(len(l))), c.SLen(s))}
	for i := 0; i < len(l); i++ {
		cs = append(cs, c.Eq(c.SByte(s, c.Int(int64(i))), c.Int(int64(l[i]))))
	}
	return c.And(cs...)
}
func (c *Ctx) HasSuffixLit(s *Term, l string) *Term {
	n := c.SLen(s)
	cs := []*Term{c.Le(c.Int(int64(len(l))), n)}
	for i := 0; i < len(l); i++ {
		cs = append(cs, c.Eq(c.SByte(s, c.Add(n, c.Int(int64(i-len(l))))), c.Int(int64(l[i]))))
	}
	return c.And(cs...)
}
