package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type options struct {
	repo, verif, prop, fn, tier string
	seed                        int
	ms                          int
	verbose                     bool
	noReplay                    bool
}

func main() {
	var o options
	flag.StringVar(&o.repo, "repo", "/repo", "repository")
	flag.StringVar(&o.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&o.prop, "prop", "", "property")
	flag.StringVar(&o.fn, "fn", "", "only this function")
	flag.StringVar(&o.tier, "tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	flag.IntVar(&o.ms, "ms", 20000, "solver time per obligation in ms")
	flag.BoolVar(&o.verbose, "v", false, "list every obligation")
	flag.BoolVar(&o.noReplay, "noreplay", false, "no replay search")
	check := flag.Bool("check", false, "full check: evidence, known findings, replay")
	flag.Parse()
	o.seed, _ = strconv.Atoi(envOr("VERIF_SEED", "1"))
	if o.tier == "thorough" {
		o.ms *= 4
	}
	if *check {
		os.Exit(runCheck(&o))
	}
	t0 := time.Now()
	w, err := open(&o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	reps := w.checkProp(o.prop, o.fn, o.ms)
	bad := printReports(reps, o.verbose)
	fmt.Printf("total %.1fs, solver %.1fs, queries %d, %v, not proved %d\n", time.Since(t0).Seconds(), stats.time.Seconds(), stats.queries, stats.byBack, bad)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func open(o *options) (*World, error) {
	w, err := loadWorld(o.repo)
	if err != nil {
		return nil, err
	}
	return w, w.loadContracts(filepath.Join(o.verif, "contracts"))
}

func printReports(reps []*FnReport, verbose bool) int {
	bad := 0
	for _, r := range reps {
		fmt.Printf("== %s  obligations=%d invs=%d exits=%d/%d %.1fs\n", r.Fn, len(r.Results), r.Invs, r.Reach, r.Exits, r.Dur.Seconds())
		if verbose {
			for _, i := range r.InvDesc {
				fmt.Println("     inv", i)
			}
		}
		for _, x := range r.Results {
			if x.Status != "proved" || verbose {
				fmt.Printf("   %-8s %-10s %s %s [%s %.2fs]\n", x.Status, x.Kind, x.Name, x.Pos, x.Back, x.Dur.Seconds())
				if x.Status != "proved" {
					bad++
					fmt.Printf("            %s %v\n", x.Detail, x.Model)
				}
			}
		}
	}
	return bad
}

// ---- known findings ----

type finding struct{ prop, fn, oblig, what string }

func loadFindings(path string) []finding {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, ln := range strings.Split(string(data), "\n") {
		// known: property=C13 | function | obligation | what fails
		if !strings.HasPrefix(ln, "known: property=") {
			continue
		}
		p := strings.Split(strings.TrimPrefix(ln, "known: property="), "|")
		if len(p) < 4 {
			continue
		}
		out = append(out, finding{strings.TrimSpace(p[0]), strings.TrimSpace(p[1]), strings.TrimSpace(p[2]), strings.TrimSpace(p[3])})
	}
	return out
}

var globalAssumptions = []string{
	"go/ssa (x/tools v0.52.0) is a faithful lowering of the source; the verified text is /repo's working tree, lowered on every run",
	"the verification-condition generator in /verif/govc and the SMT solvers are trusted (no proof certificates)",
	"functions are called sequentially on the objects they are given (no concurrent mutation)",
	"a slice has fewer than 2^46 elements (offset plus capacity); integer arithmetic is exact machine arithmetic with wrap-around",
	"termination is not proved (partial correctness); stack and heap exhaustion are not modelled",
	"floating-point operations are uninterpreted functions with stated lemmas",
	"error values: errors.New/Errorf/Wrap return a fresh non-nil error whose cause is the wrapped one; message text is not modelled",
}

func isKnown(known []finding, prop, fn, name string) bool {
	for _, k := range known {
		if k.prop == prop && k.fn == fn && k.oblig == name {
			return true
		}
	}
	return false
}

// checkOrReplay proves the property.  As soon as an obligation resists the first full attempt (or
// the search takes long) the replay harness looks for a failing input beside the proof search; when
// it finds one, the search is stopped and the obligations open at that point are the failed ones.
func (w *World) checkOrReplay(o *options, known []finding) ([]*FnReport, string) {
	suspects.ch = make(chan struct{}, 1)
	done := make(chan []*FnReport, 1)
	go func() { done <- w.checkProp(o.prop, "", o.ms) }()
	open := func() []Result {
		suspects.mu.Lock()
		defer suspects.mu.Unlock()
		var out []Result
		for _, r := range suspects.all {
			if !isKnown(known, o.prop, r.Fn, r.Name) {
				out = append(out, r)
			}
		}
		return out
	}
	hits := make(chan string, 1)
	late := time.After(100 * time.Second)
	started := false
	look := func() {
		if !started && !o.noReplay {
			started = true
			go func() { hits <- replay(o, open()) }()
		}
	}
	for {
		select {
		case reps := <-done:
			return reps, ""
		case <-suspects.ch:
			if len(open()) > 0 {
				look()
			}
		case <-late:
			look()
		case hit := <-hits:
			if hit == "" {
				continue
			}
			left := open()
			if len(left) == 0 {
				setDeadline(time.Now().Add(45 * time.Second))
			}
			for len(left) == 0 { // the verifier decides: wait for the obligation that fails
				select {
				case reps := <-done:
					return reps, hit
				case <-suspects.ch:
					left = open()
				}
			}
			stopAll()
			select {
			case <-done:
			case <-time.After(5 * time.Second):
			}
			by := map[string]*FnReport{}
			var reps []*FnReport
			for _, r := range left {
				if by[r.Fn] == nil {
					by[r.Fn] = &FnReport{Fn: r.Fn}
					reps = append(reps, by[r.Fn])
				}
				r.Status = "failed"
				by[r.Fn].Results = append(by[r.Fn].Results, r)
			}
			return reps, hit
		}
	}
}

func runCheck(o *options) int {
	t0 := time.Now()
	fail := func(name, detail string) []*FnReport {
		return []*FnReport{{Fn: "(load)", Results: []Result{{Fn: "(load)", Name: name, Kind: "shape", Status: "error", Detail: detail}}}}
	}
	setDeadline(t0.Add(8 * time.Minute))
	known := loadFindings(filepath.Join(o.verif, "known_findings.txt"))
	var reps []*FnReport
	early := ""
	w, err := open(o)
	if err != nil {
		reps = fail("repository and contracts load", err.Error())
	} else {
		reps, early = w.checkOrReplay(o, known)
	}
	var failed []Result
	total, disch, bounded := 0, 0, 0
	printed := map[string]bool{}
	trusted, inlined, fns := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var perFn []map[string]interface{}
	invs := 0
	for _, r := range reps {
		fns[r.Fn] = true
		ob, di := 0, 0
		for _, x := range r.Results {
			total++
			ob++
			if x.Status == "proved" {
				disch++
				di++
				continue
			}
			listed := false
			for _, k := range known {
				if k.prop == o.prop && k.fn == r.Fn && k.oblig == x.Name {
					listed = true
					m := fmt.Sprintf("KNOWN-FINDING: property=%s %s", o.prop, k.what)
					if !printed[m] {
						printed[m] = true
						fmt.Println(m)
					}
				}
			}
			if !listed {
				failed = append(failed, x)
			}
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			inlined[t] = true
		}
		invs += r.Invs
		perFn = append(perFn, map[string]interface{}{"function": r.Fn, "obligations": ob, "discharged": di, "loop_invariants_kept": r.Invs,
			"returns_reachable": r.Reach, "returns": r.Exits})
	}
	if total == 0 {
		failed = append(failed, Result{Fn: "(none)", Name: "obligations generated", Kind: "vacuity", Status: "failed", Detail: "no obligation was generated for this property"})
	}
	_ = bounded
	var tb []string
	for _, t := range sortedKeys(trusted) {
		tb = append(tb, "assumed contract: "+t)
	}
	assume := append([]string{}, globalAssumptions...)
	if w != nil {
		for _, r := range reps {
			if c := w.contracts[r.Fn]; c != nil {
				for _, q := range c.Requires {
					ok := len(q.Tags) == 0
					for _, t := range q.Tags {
						ok = ok || t == o.prop
					}
					if ok {
						assume = append(assume, "precondition of "+r.Fn+": "+q.Src)
					}
				}
			}
		}
		for _, k := range sortedContracts(w.contracts) {
			for _, q := range w.contracts[k].Ensures {
				if q.Assumed && contains1(q.Tags, o.prop) {
					assume = append(assume, "assumed of the results of "+k+": "+q.Src)
				}
			}
		}
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": disch,
			"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", o.prop, o.tier),
			"trusted_base":             append([]string{"govc VC generator", "z3-new 5.3.2 / cvc5 1.1.2 / z3 4.8.12", "go/ssa lowering"}, tb...),
			"functions_under_contract": sortedKeys(fns),
			"per_function":             perFn,
			"inlined_helpers":          sortedKeys(inlined),
			"loop_invariants_kept":     invs,
			"discharged_by_back_end":   stats.byBack,
			"solver_seconds":           round(stats.time.Seconds()),
			"solver_queries":           stats.queries,
		},
		"assumptions": assume, "wall_s": round(wall), "violations": len(failed),
	}
	writeJSON(filepath.Join(o.verif, "evidence", o.prop+".json"), ev)
	fmt.Printf("property=%s functions=%d obligations=%d discharged=%d solver=%.1fs wall=%.1fs\n", o.prop, len(fns), total, disch, stats.time.Seconds(), wall)
	if len(failed) == 0 {
		return 0
	}
	for _, x := range failed {
		fmt.Printf("FAILED OBLIGATION %s: %s [%s] %s %s\n", x.Fn, x.Name, x.Kind, x.Pos, x.Status)
	}
	rp := filepath.Join(o.verif, "replays", o.prop+".json")
	rep := map[string]interface{}{"property": o.prop, "seed": o.seed, "failed_obligations": failed}
	hit := early
	if hit == "" && !o.noReplay {
		hit = replay(o, failed)
	}
	if hit != "" {
		rep["failing_input"] = hit
		rep["how"] = "replay harness /verif/replay run against the real code with this seed"
	} else {
		rep["note"] = "no failing input found; the failed obligations and the solver model are above"
	}
	writeJSON(rp, rep)
	if hit != "" {
		fmt.Println("REPLAYED:", firstLine(hit))
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", o.prop, rp)
	}
	return 1
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func writeJSON(p string, v interface{}) {
	os.MkdirAll(filepath.Dir(p), 0755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0644)
}

// modCopy copies go.mod and go.sum so that the go command never touches the repository's.
func modCopy(repo string) (dir, flags string, err error) {
	dir, err = os.MkdirTemp("", "govcmod")
	if err != nil {
		return
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, e := os.ReadFile(filepath.Join(repo, f))
		if e != nil {
			err = e
			return
		}
		if err = os.WriteFile(filepath.Join(dir, f), b, 0644); err != nil {
			return
		}
	}
	flags = "-mod=mod -modfile=" + filepath.Join(dir, "go.mod")
	return
}

func goEnv(flags string) []string {
	env := append(os.Environ(), "GOFLAGS="+flags, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	return env
}

// replay runs the concrete search harness of the property against the real code.
func replay(o *options, failed []Result) string {
	src := filepath.Join(o.verif, "replay")
	fs, _ := filepath.Glob(filepath.Join(src, "*", "*_test.go"))
	if len(fs) == 0 {
		return ""
	}
	dir, flags, err := modCopy(o.repo)
	defer os.RemoveAll(dir)
	if err != nil {
		return ""
	}
	ov := map[string]map[string]string{"Replace": {}}
	for _, f := range fs {
		sub := filepath.Base(filepath.Dir(f))
		d := o.repo
		if sub != "root" {
			d = filepath.Join(o.repo, sub)
		}
		ov["Replace"][filepath.Join(d, filepath.Base(f))] = f
	}
	writeJSON(filepath.Join(dir, "overlay.json"), ov)
	hints := map[string]bool{}
	for _, x := range failed {
		for _, v := range x.Model {
			hints[v] = true
		}
	}
	out := filepath.Join(dir, "hit.txt")
	secs := "40"
	if o.tier == "thorough" {
		secs = "120"
	}
	for _, pkg := range []string{".", "./fees"} {
		cmd := exec.Command("go", "test", "-overlay", filepath.Join(dir, "overlay.json"), "-vet=off", "-count=1", "-timeout=300s", "-run", "^TestVerifReplay$", pkg)
		cmd.Dir = o.repo
		cmd.Env = append(goEnv(flags), "VERIF_REPLAY_PROP="+o.prop, "VERIF_REPLAY_OUT="+out, "VERIF_REPLAY_SECS="+secs,
			"VERIF_REPLAY_HINTS="+strings.Join(sortedKeys(hints), ","), "VERIF_SEED="+strconv.Itoa(o.seed))
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		err := cmd.Run()
		if b, e := os.ReadFile(out); e == nil && len(b) > 0 {
			return string(b)
		}
		if err != nil && o.verbose {
			fmt.Println("replay harness:", buf.String())
		}
	}
	return ""
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

func contains1(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sortedContracts(m map[string]*Contract) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
