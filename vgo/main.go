package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func preregister(P *Prog) {
	for _, n := range []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"} {
		tagID(n)
		tagID("*" + n)
	}
	for _, n := range []string{"json.Map", "json.Array", "json.Value", "time.Time"} {
		tagID(n)
		tagID("*" + n)
	}
	for _, n := range []string{"error", "*error", "[]error", "*[]error", "func(string, json.Map) []error", "*func(string, json.Map) []error", "*errors.errorString", "*fmt.wrapError"} {
		tagID(n)
	}
	for n := range basicByName {
		_ = n
	}
}

// uncovered lists the operations of the three classes and the functions of the package without a contract.
func uncovered(P *Prog) []string {
	var out []string
	for _, cl := range []string{"Value", "Map", "Array"} {
		st := P.jsonType(cl).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && P.db.contracts[cl+"."+st.Field(i).Name()] == nil {
				out = append(out, cl+"."+st.Field(i).Name())
			}
		}
	}
	for _, k := range sortedKeys(P.json.Members) {
		if f, ok := P.json.Members[k].(*ssa.Function); ok && P.db.contracts[f.Name()] == nil && f.Name() != "init" {
			out = append(out, f.Name())
		}
	}
	return out
}

// tasksFor lists the contracts that have a clause of their own for a property.
func rootsFor(db *SpecDB, prop string) []string {
	var out []string
	for _, k := range db.order {
		ct := db.contracts[k]
		if ct.trusted {
			continue
		}
		own := false
		if f := db.all[prop]; f != nil {
			own = true
			but := false
			for _, w := range f[1:] {
				if w == "but" {
					but = true
				} else if but && w == k {
					own = false
				}
				if w == "reads" && len(ct.modifies) > 0 && ct.modifies[0] == "self" {
					own = false
				}
			}
		}
		for _, p := range ct.also {
			if counts(p, prop) {
				own = true
			}
		}
		see := func(cl *Clause) {
			for _, t := range cl.tags {
				if counts(t, prop) {
					own = true
				}
			}
		}
		for _, cl := range ct.ens {
			see(cl)
		}
		if own {
			out = append(out, k)
		}
	}
	return out
}

type checkResult struct {
	tasks []*Task
	wall  time.Duration
}

// runProperty verifies every function with a clause for the property and everything their proofs rest on.
func runProperty(P *Prog, prop string, par int, tmo int, only string) *checkResult {
	t0 := time.Now()
	res := &checkResult{}
	seen := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	var start func(k string)
	start = func(k string) {
		ct := P.db.contracts[k]
		if ct == nil || ct.trusted || seen[k] {
			return
		}
		seen[k] = true
		n := max(ct.parts, 1)
		ts := make([]*Task, n)
		var part sync.WaitGroup
		for i := range ts {
			t := NewTask(P, ct, prop)
			t.part, t.parts = i, n
			if tmo > 0 {
				t.tmo = tmo
			}
			ts[i] = t
			part.Add(1)
			go func() {
				defer part.Done()
				sem <- true
				t.run()
				<-sem
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			part.Wait()
			t := merge(ts)
			mu.Lock()
			defer mu.Unlock()
			res.tasks = append(res.tasks, t)
			if only != "" {
				return
			}
			for _, d := range sortedKeys(t.deps) {
				start(d)
			}
			if t.ct.class != "" {
				start(ctorOf[t.ct.class])
			}
		}()
	}
	mu.Lock()
	if only != "" {
		for _, k := range P.db.order {
			if ok, _ := filepath.Match(only, k); ok {
				start(k)
			}
		}
	} else {
		for _, k := range rootsFor(P.db, prop) {
			start(k)
		}
	}
	mu.Unlock()
	wg.Wait()
	sort.Slice(res.tasks, func(i, j int) bool { return res.tasks[i].ct.key < res.tasks[j].ct.key })
	res.wall = time.Since(t0)
	return res
}

func (t *Task) failures() []*Obl {
	var out []*Obl
	for _, id := range t.order {
		if t.obls[id].Status == "failed" {
			out = append(out, t.obls[id])
		}
	}
	if t.err != "" {
		out = append(out, &Obl{Func: t.ct.key, Kind: "verification condition", Label: "the code is within the verifier's reach", Status: "failed", Detail: t.err})
	} else if !t.reached {
		out = append(out, &Obl{Func: t.ct.key, Kind: "vacuity", Label: "the function returns normally for some state its contract allows", Status: "failed", Detail: fmt.Sprintf("no exit was found reachable (%d considered)", t.exits)})
	}
	if t.err == "" && t.reached && len(out) == 0 {
		for _, cl := range t.ct.ens {
			if c, ok := t.covered[cl]; ok && !c {
				out = append(out, &Obl{Func: t.ct.key, Kind: "vacuity", Label: "the case of this postcondition can happen: " + clauseName(cl), Status: "failed", Detail: "no exit was found where it applies"})
			}
		}
	}
	return out
}

func main() {
	root := flag.String("root", "/verif", "the verification directory")
	repo := flag.String("repo", "/repo", "the code")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "verify only contracts matching this pattern (for development)")
	out := flag.String("out", "", "write results as JSON")
	par := flag.Int("par", runtime.NumCPU(), "tasks in parallel")
	tmo := flag.Int("tmo", 0, "solver time limit per query in ms")
	verbose := flag.Bool("v", false, "print every obligation")
	tier := flag.String("check", "", "run as the check of the property: quick or thorough")
	seed := flag.Int64("seed", 1, "seed of the search for a failing input")
	flag.Parse()
	if *tier != "" {
		os.Exit(runCheck(*root, *repo, *prop, *tier, *seed, *par, *tmo))
	}
	db, err := LoadSpecs(filepath.Join(*root, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	t0 := time.Now()
	P, err := LoadProg(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	P.db = db
	preregister(P)
	load := time.Since(t0)
	if *prop == "list" { // what has no contract
		for _, k := range uncovered(P) {
			fmt.Println(k)
		}
		return
	}
	r := runProperty(P, *prop, *par, *tmo, *only)
	nf := 0
	nob := 0
	for _, t := range r.tasks {
		fs := t.failures()
		nf += len(fs)
		nob += len(t.obls)
		if *verbose || *only != "" || len(fs) > 0 {
			fmt.Printf("%-45s %3d obligations, %d failed, %d exits, %d queries, %.1fs\n", t.ct.key, len(t.obls), len(fs), t.exits, t.nQuery, t.wall.Seconds())
		}
		if *verbose {
			for _, id := range t.order {
				o := t.obls[id]
				fmt.Printf("    %-7s %s: %s %s (%d paths, %s, %.1fs)\n", o.Status, o.Kind, o.Label, o.Pos, o.Paths, o.By, float64(o.ns)/1e9)
			}
		}
		for _, o := range fs {
			fmt.Printf("  FAILED %s: %s %s\n", o.Kind, o.Label, o.Pos)
			d := o.Detail
			if *only == "" {
				d = short(d, 1500)
			}
			fmt.Println("    " + strings.ReplaceAll(d, "\n", "\n    "))
		}
	}
	fmt.Printf("%s: %d functions, %d obligations, %d failed; load %.1fs, %.1fs\n", *prop, len(r.tasks), nob, nf, load.Seconds(), r.wall.Seconds())
	if *out != "" {
		b, _ := json.MarshalIndent(report(P, *prop, r), "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if nf > 0 {
		os.Exit(1)
	}
}

type FuncReport struct {
	Function    string         `json:"function"`
	Contract    string         `json:"contract"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	By          map[string]int `json:"solver_answers"`
	Queries     int            `json:"queries"`
	Exits       int            `json:"exits"`
	Loops       []string       `json:"loops,omitempty"`
	Seconds     float64        `json:"seconds"`
	Code        []string       `json:"code_executed"`
	Names       []string       `json:"obligation_names"`
}

type Report struct {
	Property string         `json:"property"`
	Funcs    []FuncReport   `json:"functions"`
	Obls     int            `json:"obligations"`
	Done     int            `json:"discharged"`
	Failed   []*Obl         `json:"failed"`
	Trusted  []string       `json:"trusted"`
	Models   []string       `json:"models"`
	Axioms   []string       `json:"axioms"`
	Assume   []string       `json:"assumptions"`
	By       map[string]int `json:"solver_answers"`
	Wall     float64        `json:"wall"`
	CPU      float64        `json:"task_seconds"`
}

func report(P *Prog, prop string, r *checkResult) *Report {
	rep := &Report{Property: prop, By: map[string]int{}, Wall: r.wall.Seconds()}
	models, trusted, assume, axs := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, t := range r.tasks {
		f := FuncReport{Function: t.ct.key, Contract: fmt.Sprintf("%s:%d", t.ct.file, t.ct.line), By: t.by, Queries: t.nQuery, Exits: t.exits, Seconds: t.wall.Seconds(), Code: sortedKeys(t.fns)}
		for _, id := range t.order {
			o := t.obls[id]
			f.Obligations++
			if o.Status == "proved" {
				f.Discharged++
			}
			nm := o.Kind + ": " + o.Label
			if o.Pos != "" && o.Kind == "safety" {
				nm += " at " + o.Pos
			}
			f.Names = append(f.Names, nm)
		}
		for i := 0; i < len(t.loopsN); i++ {
			f.Loops = append(f.Loops, t.loopsN[i])
		}
		rep.Obls += f.Obligations
		rep.Done += f.Discharged
		rep.CPU += f.Seconds
		rep.Funcs = append(rep.Funcs, f)
		rep.Failed = append(rep.Failed, t.failures()...)
		for m := range t.models {
			models[m] = true
		}
		for a := range t.assume {
			assume[a] = true
		}
		for d := range t.deps {
			if ct := P.db.contracts[d]; ct != nil && ct.trusted {
				trusted[d+": "+ct.why] = true
			}
		}
		for b, n := range t.by {
			rep.By[b] += n
		}
		if t.x != nil {
			for a := range t.x.axDone {
				for _, ax := range P.db.axiomsFor[a] {
					axs[ax.text] = true
				}
			}
		}
	}
	rep.Models, rep.Trusted, rep.Assume, rep.Axioms = sortedKeys(models), sortedKeys(trusted), sortedKeys(assume), sortedKeys(axs)
	return rep
}
