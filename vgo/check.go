package main

// The check of one property: verify, compare with the known findings, look for a failing input, write the evidence.

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct{ prop, key, text string }

// knownFindings reads the committed list. Lines "fixed: ..." suppress nothing.
func knownFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C01 obligation=<name> :: text
		k := strings.Index(l, " :: ")
		if k < 0 {
			continue
		}
		f := finding{text: l[k+4:]}
		h := strings.TrimPrefix(l[:k], "finding: ")
		i := strings.Index(h, " obligation=")
		if i < 0 {
			continue
		}
		f.prop = strings.TrimPrefix(h[:i], "property=")
		f.key = h[i+len(" obligation="):]
		out = append(out, f)
	}
	return out
}

func oblKey(o *Obl) string { return o.Func + ": " + o.Kind + ": " + o.Label }

func runCheck(root, repo, prop, tier string, seed int64, par, tmo int) int {
	t0 := time.Now()
	db, err := LoadSpecs(filepath.Join(root, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	P, err := LoadProg(repo)
	if err != nil {
		fmt.Println("the code does not load:", err)
		return 2
	}
	P.db = db
	preregister(P)
	if tier == "thorough" {
		crossCheck = true
		if tmo == 0 {
			tmo = 30000
		}
	}
	r := runProperty(P, prop, par, tmo, "")
	rep := report(P, prop, r)
	if rep.Obls == 0 || len(rep.Funcs) == 0 {
		fmt.Println("no obligations were generated for", prop)
		return 2
	}
	var open []*Obl
	known := knownFindings(root)
	for _, o := range rep.Failed {
		hit := false
		for _, k := range known {
			if k.prop == prop && k.key == oblKey(o) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				hit = true
			}
		}
		if !hit {
			open = append(open, o)
		}
	}
	code := 0
	harness := ""
	if len(open) > 0 {
		code = 1
		fmt.Printf("%s: %d of %d obligations fail\n", prop, len(open), rep.Obls)
		for _, o := range open {
			fmt.Printf("  %s %s\n", oblKey(o), o.Pos)
		}
		found, out := searchInput(root, repo, prop, seed, 60)
		harness = out
		file := writeReplay(root, prop, seed, open, found, out)
		if found {
			fmt.Println(short(out, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, file)
		}
	} else if tier == "thorough" {
		// the contracts' reading of the code against the running code
		found, out := searchInput(root, repo, prop, seed, 120)
		harness = out
		if found {
			fmt.Println("the oracle for replays disagrees with the running code although every obligation holds:")
			fmt.Println(short(out, 3000))
			code = 1
			file := writeReplay(root, prop, seed, nil, found, out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		}
	}
	if err := writeEvidence(root, prop, tier, seed, rep, len(open), harness, time.Since(t0)); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if code == 0 {
		fmt.Printf("%s: %d obligations of %d functions discharged in %.1fs\n", prop, rep.Done, len(rep.Funcs), time.Since(t0).Seconds())
	}
	return code
}

// searchInput builds the replay program against the code and lets it look for an input that breaks the property.
func searchInput(root, repo, prop string, seed int64, secs int) (bool, string) {
	dir, err := os.MkdirTemp("", "verif-harness-")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(dir)
	fs, _ := filepath.Glob(filepath.Join(root, "harness", "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return false, err.Error()
		}
		os.WriteFile(filepath.Join(dir, filepath.Base(f)), b, 0o644)
	}
	mod, _ := os.ReadFile(filepath.Join(root, "harness", "go.mod"))
	abs, _ := filepath.Abs(repo)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte(strings.ReplaceAll(string(mod), "=> /repo", "=> "+abs)), 0o644)
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+120)*time.Second)
	defer cancel()
	build := exec.CommandContext(ctx, "go", "build", "-o", filepath.Join(dir, "harness.bin"), ".")
	build.Dir = dir
	build.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if b, err := build.CombinedOutput(); err != nil {
		return false, "the replay program does not build against the code: " + string(b)
	}
	run := exec.CommandContext(ctx, filepath.Join(dir, "harness.bin"), prop, strconv.FormatInt(seed, 10), strconv.Itoa(secs))
	run.Dir = dir
	b, err := run.CombinedOutput()
	out := short(string(b), 8000)
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 1 && strings.Contains(out, "FAILING INPUT") {
			return true, out
		}
		if strings.Contains(out, "stack overflow") || strings.Contains(out, "fatal error") {
			return true, "FAILING INPUT\nthe process dies:\n" + out
		}
	}
	return false, out
}

func writeReplay(root, prop string, seed int64, open []*Obl, found bool, harness string) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, prop+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s, seed %d\n\n", prop, seed)
	if found {
		fmt.Fprintf(&b, "A run of the real code that breaks the property:\n%s\n\nTo repeat it: cd %s/harness && go run . %s %d 60\n\n", harness, root, prop, seed)
	} else {
		fmt.Fprintf(&b, "No failing input was found (%s).\n\n", strings.TrimSpace(harness))
	}
	fmt.Fprintf(&b, "Obligations that are not discharged:\n")
	for _, o := range open {
		fmt.Fprintf(&b, "\n== %s %s (%d paths)\n%s\n", oblKey(o), o.Pos, o.Paths, o.Detail)
	}
	os.WriteFile(file, []byte(b.String()), 0o644)
	return file
}

func writeEvidence(root, prop, tier string, seed int64, rep *Report, open int, harness string, wall time.Duration) error {
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	var trusted []string
	trusted = append(trusted, "the verifier /verif/vgo (Go SSA to verification conditions), golang.org/x/tools/go/ssa and the Go compiler's type checker")
	var solvers []string
	for s, n := range rep.By {
		solvers = append(solvers, fmt.Sprintf("%s: %d", s, n))
	}
	sort.Strings(solvers)
	for _, m := range rep.Models {
		trusted = append(trusted, "model of "+m)
	}
	for _, m := range rep.Trusted {
		trusted = append(trusted, "assumed contract of "+m)
	}
	for _, a := range rep.Axioms {
		trusted = append(trusted, "axiom "+a)
	}
	ass := append([]string{}, rep.Assume...)
	ass = append(ass, standing...)
	type fn struct {
		Name  string   `json:"function"`
		Obls  int      `json:"obligations"`
		Done  int      `json:"discharged"`
		Exits int      `json:"exits"`
		Spec  string   `json:"contract"`
		Loops []string `json:"loops,omitempty"`
	}
	var fns []fn
	for _, f := range rep.Funcs {
		fns = append(fns, fn{f.Function, f.Obligations, f.Discharged, f.Exits, f.Contract, f.Loops})
	}
	cov := map[string]interface{}{
		"obligations":         rep.Obls,
		"discharged":          rep.Done,
		"checker_cmd":         fmt.Sprintf("/verif/check %s %s", prop, tier),
		"trusted_base":        trusted,
		"functions":           fns,
		"answers_by_back_end": solvers,
		"solver_seconds":      float64(solverNs()) / 1e9,
		"solver_calls":        solverCallCount(),
	}
	if tier == "thorough" {
		cov["obligation_instances_confirmed_by_a_second_solver"] = crossOK.Load()
		cov["obligation_instances_the_second_solver_left_open"] = crossOpen.Load()
	}
	if harness != "" {
		cov["replay_search"] = short(harness, 2000)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass, "wall_s": wall.Seconds(), "violations": open,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

// standing are the assumptions every proof shares.
var standing = []string{
	"one goroutine uses an object at a time",
	"memory is not exhausted; slices and strings are shorter than 2^62",
	"floating point operations and conversions are uninterpreted functions with the listed axioms; integers are exact with wrap-around",
	"objects are made by the constructors of the package and reached through their function fields; the struct fields are not overwritten by the user",
}
