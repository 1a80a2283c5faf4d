package main

// Loading the code under verification as go/ssa, with full debug information and without its test files.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog   *ssa.Program
	json   *ssa.Package
	common *ssa.Package
	fset   *token.FileSet
	mu     sync.Mutex
	lc     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	pure   map[*ssa.Call]bool
	db     *SpecDB
	repo   string
}

func LoadProg(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile,
		Dir:   repo,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
		Tests: false,
	}
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, jsonPath, commonPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	P := &Prog{prog: prog, fset: prog.Fset, lc: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, pure: map[*ssa.Call]bool{}, repo: repo}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no code for %s", p.PkgPath)
		}
		spkgs[i].Build()
		switch p.PkgPath {
		case jsonPath:
			P.json = spkgs[i]
		case commonPath:
			P.common = spkgs[i]
		}
	}
	if P.json == nil || P.common == nil {
		return nil, fmt.Errorf("packages json and common not found")
	}
	P.registerTypes()
	return P, nil
}

var typeText = regexp.MustCompile(`^(\*|\[\])*(map\[.+|func\(.*|[a-z0-9]+(\.[A-Za-z]+)?)$`)

// registerTypes gives every dynamic type and every type name of the code its number before any of the work starts.
func (p *Prog) registerTypes() {
	names := map[string]bool{}
	tys := map[string]types.Type{}
	add := func(t types.Type) {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			tys[fmtTypeName(t)] = t
		}
	}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg != p.json && fn.Pkg != p.common {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.MakeInterface:
					add(i.X.Type())
				case *ssa.TypeAssert:
					add(i.AssertedType)
				case *ssa.BinOp:
					for _, o := range []ssa.Value{i.X, i.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							if v := constant.StringVal(k.Value); typeText.MatchString(v) {
								names[v] = true
							}
						}
					}
				}
			}
		}
	}
	for _, n := range sortedKeys(names) {
		tagID(n)
	}
	var ns []string
	for n := range tys {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		tagOf(tys[n])
	}
}

func (p *Prog) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.lc[fn]; ok {
		return l
	}
	l := loopsOf(fn)
	p.lc[fn] = l
	return l
}

func (p *Prog) pos(t token.Pos) string {
	if !t.IsValid() {
		return ""
	}
	q := p.fset.Position(t)
	return strings.TrimPrefix(q.Filename, p.repo+"/") + fmt.Sprintf(":%d", q.Line)
}

// jsonType finds a named type of the package json.
func (p *Prog) jsonType(n string) types.Type {
	o := p.json.Pkg.Scope().Lookup(n)
	if o == nil {
		return nil
	}
	return o.Type()
}

// appendPure reports that an append may be treated as always copying: its source comes only from nil, earlier appends
// of the same kind and local variables holding them, and the function never writes through elements of that slice type.
func (p *Prog) appendPure(call *ssa.Call) bool {
	p.mu.Lock()
	if r, ok := p.pure[call]; ok {
		p.mu.Unlock()
		return r
	}
	p.mu.Unlock()
	st := call.Type().Underlying().(*types.Slice)
	r := !p.elemStores(call.Parent(), st) && p.linearSource(call.Call.Args[0], call, map[ssa.Value]bool{})
	p.mu.Lock()
	p.pure[call] = r
	p.mu.Unlock()
	return r
}

func (p *Prog) elemStores(fn *ssa.Function, st *types.Slice) bool {
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	_ = top
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a := s.Addr
			for {
				if f, ok := a.(*ssa.FieldAddr); ok {
					a = f.X
					continue
				}
				break
			}
			if ia, ok := a.(*ssa.IndexAddr); ok {
				if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), st.Elem()) {
					return true
				}
			}
		}
	}
	return false
}

func isAppend(v ssa.Value) (*ssa.Call, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return c, ok && b.Name() == "append"
}

func (p *Prog) linearSource(v ssa.Value, user *ssa.Call, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	// at most one append may grow a given slice value
	nApp := 0
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if c, ok := r.(*ssa.Call); ok {
				if _, isA := isAppend(c); isA && c.Call.Args[0] == v {
					nApp++
				}
			}
			if ph, ok := r.(*ssa.Phi); ok {
				_ = ph
			}
		}
	}
	if nApp > 0 {
		// several appends of the same value are fine when they lie on different paths
		if _, isC := v.(*ssa.Const); !isC && !exclusiveAppends(v) {
			return false
		}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.linearSource(e, nil, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if _, ok := isAppend(v); ok {
			return p.linearSource(v.Call.Args[0], v, seen)
		}
		return false
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		// a local variable: every store to it is nil or an append; it is not captured by closures that append
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != al {
					return false // address stored somewhere
				}
				if k, ok := r.Val.(*ssa.Const); ok && k.Value == nil {
					continue
				}
				if c, ok := isAppend(r.Val); ok {
					u, ok := c.Call.Args[0].(*ssa.UnOp)
					if ok && u.X == al {
						continue
					}
				}
				return false
			case *ssa.UnOp, *ssa.DebugRef, *ssa.Return, *ssa.Phi, *ssa.MakeInterface:
			default:
				return false
			}
		}
		return true
	}
	return false
}

// exclusiveAppends: no append of v can be reached from another one without v being computed again.
func exclusiveAppends(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	home := in.Block()
	var apps []*ssa.Call
	for _, r := range *v.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if _, isA := isAppend(c); isA && c.Call.Args[0] == v {
				apps = append(apps, c)
			}
		}
	}
	reach := func(a, b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock{}, a.Succs...)
		for len(work) > 0 {
			n := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[n] || n == home {
				continue
			}
			if n == b {
				return true
			}
			seen[n] = true
			work = append(work, n.Succs...)
		}
		return false
	}
	for i, a := range apps {
		for j, b := range apps {
			if i != j && a.Block() == b.Block() || reach(a.Block(), b.Block()) {
				return false
			}
		}
	}
	return true
}
