package main

// The contract language: a text file of clauses whose expressions are Go expressions with a few extra functions.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	kind  string // requires, ensures, invariant, decreases, assert ...
	tags  []string
	label string
	text  string
	expr  ast.Expr
	loop  int
	file  string
	line  int
}

type Contract struct {
	key      string // "Value.GetInt64", "func NewValue", "common.GetTime"
	class    string
	meth     string
	params   []string
	trusted  bool
	why      string
	pure     bool
	news     []string // results that are always new objects
	maynews  []string // results that are nil or new objects
	modifies []string
	objects  []objMod // objects that may change, named by identity
	also     []string // properties this contract counts for although no clause carries their tag
	reqs     []*Clause
	ens      []*Clause
	asm      []*Clause // assumed by callers and not proved (reported)
	loops    map[int]*LoopSpec
	witness  []*Clause
	parts    int      // how many processes share the obligations
	ghosts   []string // ghost variables: maps from integers to integers
	flags    map[string]bool
	lemma    *LemmaDef
	file     string
	line     int
}

type objMod struct {
	kind string
	expr ast.Expr
}

type LoopSpec struct {
	inv   []*Clause
	dec   []*Clause
	hint  []*Clause
	ghost map[string]*Clause // what each iteration does to a ghost variable
}

type MacroDef struct {
	name   string
	params []string
	body   ast.Expr
}

type FunSig struct {
	name string
	args []Sort
	res  Sort
}

// RecDef: a specification function defined by recursion; lemma statements about such functions are proved by induction.
type RecDef struct {
	sig    *FunSig
	params []string
	body   ast.Expr
	text   string
	heap   bool // about the things of the state in which the function under proof was called
}

type LemmaDef struct {
	ax      *AxiomDef
	tags    []string
	measure ast.Expr
	uses    []*ast.CallExpr // instances of this lemma (of a smaller measure) or of earlier ones
	after   map[string]bool // lemmas stated before this one
}

type AxiomDef struct {
	lemma *LemmaDef
	name  string
	vars  []string
	sorts []Sort
	body  ast.Expr
	trig  []ast.Expr
	why   string
	text  string
}

type SpecDB struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*MacroDef
	funs      map[string]*FunSig
	axioms    []*AxiomDef
	all       map[string][]string
	recs      map[string]*RecDef
	lemmas    map[string]*LemmaDef
	axiomsFor map[string][]*AxiomDef
}

func sortByName(s string) (Sort, error) {
	switch s {
	case "int", "ref":
		return SInt, nil
	case "bool":
		return SBool, nil
	case "str":
		return SStr, nil
	case "iface":
		return SIface, nil
	case "f64":
		return SF64, nil
	case "f32":
		return SF32, nil
	}
	if strings.HasPrefix(s, "arr_") {
		p := strings.SplitN(s[4:], "_", 2)
		if len(p) == 2 {
			k, e1 := sortByName(p[0])
			v, e2 := sortByName(p[1])
			if e1 == nil && e2 == nil {
				return arr(k, v), nil
			}
		}
	}
	return "", fmt.Errorf("unknown sort %q", s)
}

func LoadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{recs: map[string]*RecDef{}, lemmas: map[string]*LemmaDef{}, all: map[string][]string{}, contracts: map[string]*Contract{}, macros: map[string]*MacroDef{}, funs: map[string]*FunSig{}, axiomsFor: map[string][]*AxiomDef{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	if len(files) == 0 {
		return nil, fmt.Errorf("no contracts in %s", dir)
	}
	for _, f := range files {
		if err := db.load(f); err != nil {
			return nil, err
		}
	}
	return db, nil
}

type srcLine struct {
	n int
	s string
}

var valueMethod = regexp.MustCompile(`^method Value\.([A-Za-z0-9$]+)\(([^)]*)\)\s*$`)

// expand unrolls %each blocks: %each $A $B in (x y) (z w) ... %end
func expand(lines []srcLine) ([]srcLine, error) {
	var out []srcLine
	for i := 0; i < len(lines); i++ {
		t := strings.TrimSpace(lines[i].s)
		if !strings.HasPrefix(t, "%each ") && t != "%map" {
			out = append(out, lines[i])
			continue
		}
		d := 1
		j := i + 1
		for ; j < len(lines); j++ {
			u := strings.TrimSpace(lines[j].s)
			if strings.HasPrefix(u, "%each ") || u == "%map" {
				d++
			}
			if u == "%end" {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j == len(lines) {
			return nil, fmt.Errorf("line %d: %%each without %%end", lines[i].n)
		}
		if t == "%map" { // the contracts of Value and the same ones for the entries of a Map
			var body []srcLine
			for _, l := range lines[i+1 : j] {
				body = append(body, l)
			}
			for _, l := range lines[i+1 : j] {
				if strings.HasPrefix(strings.TrimSpace(l.s), "assumes ") {
					continue // about a Value alone
				}
				m := strings.ReplaceAll(l.s, "G_v(self)", "mc(self, s)")
				if h := valueMethod.FindStringSubmatch(m); h != nil {
					ps := "s"
					if strings.TrimSpace(h[2]) != "" {
						ps += ", " + h[2]
					}
					m = "method Map." + h[1] + "(" + ps + ")"
				}
				body = append(body, srcLine{l.n, m})
			}
			ex, err := expand(body)
			if err != nil {
				return nil, err
			}
			out = append(out, ex...)
			i = j
			continue
		}
		head := strings.TrimPrefix(t, "%each ")
		k := strings.Index(head, " in ")
		if k < 0 {
			return nil, fmt.Errorf("line %d: %%each needs in", lines[i].n)
		}
		vars := strings.Fields(head[:k])
		rest := head[k+4:]
		var rows [][]string
		for {
			a := strings.IndexByte(rest, '(')
			if a < 0 {
				break
			}
			b := strings.IndexByte(rest[a:], ')')
			if b < 0 {
				return nil, fmt.Errorf("line %d: unbalanced row", lines[i].n)
			}
			rows = append(rows, strings.Split(rest[a+1:a+b], "|"))
			rest = rest[a+b+1:]
		}
		for _, r := range rows {
			if len(r) != len(vars) {
				return nil, fmt.Errorf("line %d: row %v does not fit %v", lines[i].n, r, vars)
			}
			var rep []string
			for q, v := range vars {
				rep = append(rep, v, strings.TrimSpace(r[q]))
			}
			rp := strings.NewReplacer(rep...)
			var body []srcLine
			for _, l := range lines[i+1 : j] {
				body = append(body, srcLine{l.n, rp.Replace(l.s)})
			}
			ex, err := expand(body)
			if err != nil {
				return nil, err
			}
			out = append(out, ex...)
		}
		i = j
	}
	return out, nil
}

func (db *SpecDB) load(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var raw []srcLine
	cont := ""
	start := 0
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, " //"); k >= 0 {
			l = l[:k]
		}
		if strings.HasPrefix(strings.TrimSpace(l), "//") {
			l = ""
		}
		tl := strings.TrimRight(l, " \t")
		if cont == "" {
			start = i + 1
		}
		if strings.HasSuffix(tl, "\\") {
			cont += strings.TrimSuffix(tl, "\\") + " "
			continue
		}
		raw = append(raw, srcLine{start, cont + tl})
		cont = ""
	}
	lines, err := expand(raw)
	if err != nil {
		return fmt.Errorf("%s: %v", file, err)
	}
	var cur *Contract
	base := filepath.Base(file)
	for _, l := range lines {
		t := strings.TrimSpace(l.s)
		if t == "" {
			continue
		}
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("%s:%d: %s (in %q)", base, l.n, fmt.Sprintf(f, a...), t)
		}
		word := t
		rest := ""
		if k := strings.IndexAny(t, " \t"); k >= 0 {
			word, rest = t[:k], strings.TrimSpace(t[k:])
		}
		switch word {
		case "def":
			k := strings.Index(rest, " = ")
			if k < 0 {
				return fail("def needs =")
			}
			h, err := parser.ParseExpr(rest[:k])
			if err != nil {
				return fail("%v", err)
			}
			m := &MacroDef{}
			switch h := h.(type) {
			case *ast.Ident:
				m.name = h.Name
			case *ast.CallExpr:
				m.name = h.Fun.(*ast.Ident).Name
				for _, a := range h.Args {
					m.params = append(m.params, a.(*ast.Ident).Name)
				}
			}
			m.body, err = parser.ParseExpr(rest[k+3:])
			if err != nil {
				return fail("%v", err)
			}
			db.macros[m.name] = m
		case "all": // all C15 reads | all C18: every contract (without a modifies clause) counts for the property
			fs := strings.Fields(rest)
			db.all[fs[0]] = append([]string{""}, fs[1:]...)
		case "fun": // fun name(sorts) sort
			a, z := strings.IndexByte(rest, '('), strings.IndexByte(rest, ')')
			if a < 0 || z < 0 {
				return fail("bad function")
			}
			f := &FunSig{name: strings.TrimSpace(rest[:a])}
			for _, s := range strings.Split(rest[a+1:z], ",") {
				if s = strings.TrimSpace(s); s == "" {
					continue
				}
				so, err := sortByName(s)
				if err != nil {
					return fail("%v", err)
				}
				f.args = append(f.args, so)
			}
			so, err := sortByName(strings.TrimSpace(rest[z+1:]))
			if err != nil {
				return fail("%v", err)
			}
			f.res = so
			db.funs[f.name] = f
		case "rec", "hrec": // rec name(x sort, ...) sort = body
			k := strings.Index(rest, " = ")
			if k < 0 {
				return fail("rec needs =")
			}
			h := rest[:k]
			a, z := strings.IndexByte(h, '('), strings.IndexByte(h, ')')
			if a < 0 || z < a {
				return fail("rec needs parameters")
			}
			r := &RecDef{sig: &FunSig{name: strings.TrimSpace(h[:a])}, text: rest, heap: word == "hrec"}
			for _, v := range strings.Split(h[a+1:z], ",") {
				fs := strings.Fields(v)
				if len(fs) != 2 {
					return fail("bad parameter %q", v)
				}
				so, err := sortByName(fs[1])
				if err != nil {
					return fail("%v", err)
				}
				r.params = append(r.params, fs[0])
				r.sig.args = append(r.sig.args, so)
			}
			so, err := sortByName(strings.TrimSpace(h[z+1:]))
			if err != nil {
				return fail("%v", err)
			}
			r.sig.res = so
			if r.body, err = parser.ParseExpr(rest[k+3:]); err != nil {
				return fail("%v", err)
			}
			db.recs[r.sig.name] = r
			db.funs[r.sig.name] = r.sig
		case "axiom", "lemma": // axiom name(x sort, y sort) {trigger} for fun : body
			k := strings.Index(rest, " : ")
			if k < 0 {
				return fail("axiom needs :")
			}
			h := rest[:k]
			ax := &AxiomDef{text: rest}
			var tags []string
			if word == "lemma" && strings.HasPrefix(h, "[") {
				q := strings.IndexByte(h, ']')
				for _, t := range strings.Split(h[1:q], ",") {
					tags = append(tags, strings.TrimSpace(t))
				}
				h = strings.TrimSpace(h[q+1:])
			}
			var fors []string
			if q := strings.Index(h, " for "); q >= 0 {
				fors = strings.Fields(h[q+5:])
				h = h[:q]
			}
			if q := strings.IndexByte(h, '{'); q >= 0 {
				e, err := parser.ParseExpr("f(" + strings.TrimSuffix(strings.TrimSpace(h[q+1:]), "}") + ")")
				if err != nil {
					return fail("%v", err)
				}
				ax.trig = e.(*ast.CallExpr).Args
				h = h[:q]
			}
			a, z := strings.IndexByte(h, '('), strings.IndexByte(h, ')')
			if a < 0 || z < a {
				return fail("axiom needs variables")
			}
			ax.name = h[:a]
			for _, v := range strings.Split(h[a+1:z], ",") {
				fs := strings.Fields(v)
				if len(fs) == 0 {
					continue
				}
				if len(fs) != 2 {
					return fail("bad variable %q", v)
				}
				so, err := sortByName(fs[1])
				if err != nil {
					return fail("%v", err)
				}
				ax.vars = append(ax.vars, fs[0])
				ax.sorts = append(ax.sorts, so)
			}
			ax.body, err = parser.ParseExpr(rest[k+3:])
			if err != nil {
				return fail("%v", err)
			}
			if word == "lemma" {
				ax.lemma = &LemmaDef{ax: ax, tags: tags, after: map[string]bool{}}
				for n := range db.lemmas {
					ax.lemma.after[n] = true
				}
				db.lemmas[ax.name] = ax.lemma
				cur = &Contract{key: "lemma " + ax.name, lemma: ax.lemma, loops: map[int]*LoopSpec{}, flags: map[string]bool{}, also: tags, file: base, line: l.n}
				db.contracts[cur.key] = cur
				db.order = append(db.order, cur.key)
				for _, f := range fors {
					db.axiomsFor[f] = append(db.axiomsFor[f], ax)
				}
				continue
			}
			db.axioms = append(db.axioms, ax)
			if len(fors) == 0 {
				return fail("axiom needs for")
			}
			for _, f := range fors {
				db.axiomsFor[f] = append(db.axiomsFor[f], ax)
			}
		case "func", "method", "trusted":
			tr := word == "trusted"
			if tr {
				k := strings.IndexAny(rest, " \t")
				word, rest = rest[:k], strings.TrimSpace(rest[k:])
			}
			a, z := strings.IndexByte(rest, '('), strings.IndexByte(rest, ')')
			if a < 0 || z < a {
				return fail("needs a parameter list")
			}
			cur = &Contract{key: strings.TrimSpace(rest[:a]), trusted: tr, loops: map[int]*LoopSpec{}, flags: map[string]bool{}, file: base, line: l.n}
			for _, p := range strings.Split(rest[a+1:z], ",") {
				if p = strings.TrimSpace(p); p != "" {
					cur.params = append(cur.params, p)
				}
			}
			if word == "method" {
				k := strings.IndexByte(cur.key, '.')
				cur.class, cur.meth = cur.key[:k], cur.key[k+1:]
			}
			if o := db.contracts[cur.key]; o != nil {
				return fail("second contract for %s (first at %s:%d)", cur.key, o.file, o.line)
			}
			db.contracts[cur.key] = cur
			db.order = append(db.order, cur.key)
		default:
			if cur == nil {
				return fail("clause outside a contract")
			}
			if err := cur.clause(word, rest, base, l.n); err != nil {
				return fail("%v", err)
			}
		}
	}
	return nil
}

func (ct *Contract) clause(word, rest, file string, line int) error {
	mk := func(kind, rest string) (*Clause, error) {
		cl := &Clause{kind: kind, file: file, line: line, tags: []string{"*"}}
		rest = strings.TrimSpace(rest)
		if strings.HasPrefix(rest, "[") {
			k := strings.IndexByte(rest, ']')
			cl.tags = nil
			for _, t := range strings.Split(rest[1:k], ",") {
				cl.tags = append(cl.tags, strings.TrimSpace(t))
			}
			rest = strings.TrimSpace(rest[k+1:])
		}
		if k := strings.Index(rest, " : "); k >= 0 {
			cl.label = strings.TrimSpace(rest[:k])
			rest = rest[k+3:]
		}
		cl.text = strings.TrimSpace(rest)
		e, err := parser.ParseExpr(cl.text)
		if err != nil {
			return nil, err
		}
		cl.expr = e
		return cl, nil
	}
	switch word {
	case "measure":
		e, err := parser.ParseExpr(rest)
		if err != nil || ct.lemma == nil {
			return fmt.Errorf("bad measure")
		}
		ct.lemma.measure = e
	case "use":
		e, err := parser.ParseExpr(rest)
		ce, ok := e.(*ast.CallExpr)
		if err != nil || !ok || ct.lemma == nil {
			return fmt.Errorf("bad use")
		}
		ct.lemma.uses = append(ct.lemma.uses, ce)
	case "also":
		for _, p := range strings.Split(strings.Trim(rest, "[]"), ",") {
			ct.also = append(ct.also, strings.TrimSpace(p))
		}
	case "ghost":
		ct.ghosts = append(ct.ghosts, strings.Fields(rest)...)
	case "pure":
		ct.pure = true
	case "why":
		ct.why = rest
	case "new":
		ct.news = append(ct.news, strings.Fields(rest)...)
	case "parts": // the obligations are divided among so many runs of the same function
		ct.parts, _ = strconv.Atoi(strings.TrimSpace(rest))
	case "maynew":
		ct.maynews = append(ct.maynews, strings.Fields(rest)...)
	case "modifies":
		if w := strings.Fields(rest); len(w) > 1 && (w[0] == "map" || w[0] == "array" || w[0] == "value") {
			e, err := parser.ParseExpr(strings.TrimSpace(rest[len(w[0]):]))
			if err != nil {
				return err
			}
			ct.objects = append(ct.objects, objMod{map[string]string{"map": "Map", "array": "Array", "value": "Value"}[w[0]], e})
			break
		}
		for _, m := range strings.Split(rest, ",") {
			ct.modifies = append(ct.modifies, strings.TrimSpace(m))
		}
	case "flag":
		for _, f := range strings.Fields(rest) {
			ct.flags[f] = true
		}
	case "requires":
		c, err := mk(word, rest)
		if err != nil {
			return err
		}
		ct.reqs = append(ct.reqs, c)
	case "assumes":
		c, err := mk(word, rest)
		if err != nil {
			return err
		}
		ct.asm = append(ct.asm, c)
	case "ensures", "shows": // shows: proved, and of no use to callers
		c, err := mk(word, rest)
		if err != nil {
			return err
		}
		ct.ens = append(ct.ens, c)
	case "witness": // witness name(var) = expr
		k := strings.Index(rest, " = ")
		c, err := mk("witness", rest[k+3:])
		if err != nil {
			return err
		}
		c.label = strings.TrimSpace(rest[:k])
		ct.witness = append(ct.witness, c)
	case "loop": // loop N invariant|decreases ...
		fs := strings.SplitN(rest, " ", 3)
		if len(fs) < 3 {
			return fmt.Errorf("bad loop clause")
		}
		n, err := strconv.Atoi(fs[0])
		if err != nil {
			return err
		}
		if ct.loops[n] == nil {
			ct.loops[n] = &LoopSpec{ghost: map[string]*Clause{}}
		}
		if fs[1] == "ghost" { // loop N ghost NAME = expr, where head(e) is e at the start of the iteration
			k := strings.Index(fs[2], " = ")
			if k < 0 {
				return fmt.Errorf("bad ghost clause")
			}
			c, err := mk("ghost", fs[2][k+3:])
			if err != nil {
				return err
			}
			ct.loops[n].ghost[strings.TrimSpace(fs[2][:k])] = c
			break
		}
		c, err := mk(fs[1], fs[2])
		if err != nil {
			return err
		}
		c.loop = n
		switch fs[1] {
		case "invariant":
			ct.loops[n].inv = append(ct.loops[n].inv, c)
		case "decreases":
			ct.loops[n].dec = append(ct.loops[n].dec, c)
		case "assert":
			ct.loops[n].hint = append(ct.loops[n].hint, c)
		default:
			return fmt.Errorf("unknown loop clause %s", fs[1])
		}
	default:
		return fmt.Errorf("unknown clause %s", word)
	}
	return nil
}

// composed: the properties whose clauses together make another one
var composed = map[string][]string{"C14": {"C09", "C10", "C13"}}

// counts: a clause of property t is one of property p.
func counts(t, p string) bool {
	if t == p {
		return true
	}
	for _, q := range composed[p] {
		if q == t {
			return true
		}
	}
	return false
}

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == "*" || counts(t, p) {
			return true
		}
	}
	return false
}
