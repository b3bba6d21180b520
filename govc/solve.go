package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solver struct {
	name string
	args func(ms int) []string
}

var solvers = []solver{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", "-memory:2500", fmt.Sprintf("-t:%d", ms)} }},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}},
	{"z3", func(ms int) []string { return []string{"z3", "-in", "-memory:2500", fmt.Sprintf("-t:%d", ms)} }},
	{"z3-new", func(ms int) []string {
		return []string{"z3-new", "-in", "-memory:2500", fmt.Sprintf("-t:%d", ms), "smt.arith.solver=2"}
	}},
}

// deadline ends the proof search of a check; what is undecided then counts as not proved.
var deadline atomic.Pointer[time.Time]

func setDeadline(t time.Time) { deadline.Store(&t) }

// running is cancelled when a failing input makes the rest of the search pointless.
var running, stopAll = context.WithCancel(context.Background())

// suspects collects the obligations that the first full attempt left open.
var suspects struct {
	mu  sync.Mutex
	all []Result
	ch  chan struct{}
}

func suspect(r Result) {
	suspects.mu.Lock()
	defer suspects.mu.Unlock()
	suspects.all = append(suspects.all, r)
	if suspects.ch != nil {
		select {
		case suspects.ch <- struct{}{}:
		default:
		}
	}
}

var sem = make(chan struct{}, 8)

type Stats struct {
	mu      sync.Mutex
	byBack  map[string]int
	time    time.Duration
	queries int
}

var stats = &Stats{byBack: map[string]int{}}

func (s *Stats) add(back string, n int, d time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.byBack[back] += n
	s.time += d
	s.queries++
}

type answer struct {
	status string
	out    string
	back   string
	dur    time.Duration
}

func runSolver(ctx context.Context, s solver, text string, ms int) answer {
	if d := deadline.Load(); d != nil {
		left := int(time.Until(*d).Milliseconds())
		if left <= 0 {
			return answer{status: "unknown", back: s.name}
		}
		if left < ms {
			ms = left
		}
	}
	select {
	case sem <- struct{}{}:
	case <-ctx.Done():
		return answer{status: "unknown", back: s.name}
	}
	defer func() { <-sem }()
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(ctx, time.Duration(ms+3000)*time.Millisecond)
	defer cancel()
	a := s.args(ms)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	r := answer{status: "unknown", back: s.name, dur: time.Since(t0), out: out.String()}
	ls := strings.SplitN(strings.TrimSpace(r.out), "\n", 2)
	switch ls[0] {
	case "unsat", "sat":
		r.status = ls[0]
	}
	return r
}

// decide tries the portfolio: one solver briefly, then all of them side by side.
func decide(text string, ms int) answer {
	q := text + "(check-sat)\n"
	first := ms / 4
	if first > 1500 {
		first = 1500
	}
	a := runSolver(running, solvers[0], q, first)
	if a.status != "unknown" {
		return a
	}
	ctx, cancel := context.WithCancel(running)
	defer cancel()
	ch := make(chan answer, len(solvers))
	for _, i := range []int{3, 1, 0, 2} {
		go func(s solver) { ch <- runSolver(ctx, s, q, ms) }(solvers[i])
	}
	var last answer
	for range solvers {
		b := <-ch
		if b.status != "unknown" {
			b.dur += a.dur
			return b
		}
		last = b
	}
	last.dur += a.dur
	return last
}

// ---- obligations ----

type Result struct {
	Fn     string
	Name   string
	Kind   string
	Status string // proved, failed, unknown, error
	Detail string
	Back   string
	Pos    string
	Model  map[string]string
	Dur    time.Duration
}

func (g *Gen) assertBase(v *VC, idx int) []string {
	var decl []string
	for i := 0; i < idx; i++ {
		a := g.assumps[i]
		if a.Cand != nil {
			if !a.Cand.Alive {
				continue
			}
			n := fmt.Sprintf("cand!%d", a.Cand.ID)
			decl = append(decl, n)
			v.add(n, a.Fact, false)
			continue
		}
		v.add("", a.Fact, false)
	}
	return decl
}

var trace = os.Getenv("GOVC_TRACE") != ""
var debugDir = os.Getenv("GOVC_DUMP")

func dump(name, text string) {
	if debugDir == "" {
		return
	}
	os.MkdirAll(debugDir, 0755)
	n := sanitize(name)
	if len(n) > 120 {
		n = n[:120]
	}
	os.WriteFile(filepath.Join(debugDir, n+".smt2"), []byte(text), 0644)
}

// query builds the SMT text for: assumptions, guard, not goal.
func (g *Gen) query(o *Oblig, rounds, maxInst int, loose bool, lits map[*Term]*Term) (*VC, string) {
	return g.queryWith(g.newVC(), o, rounds, maxInst, loose, lits)
}

func (g *Gen) lightQuery(o *Oblig, rounds, maxInst int, sums bool) string {
	v := g.newVC()
	v.strict, v.sumsFirst = true, sums
	_, text := g.queryWith(v, o, rounds, maxInst, false, nil)
	return text
}

func (g *Gen) queryWith(v *VC, o *Oblig, rounds, maxInst int, loose bool, lits map[*Term]*Term) (*VC, string) {
	for _, a := range sortedTerms(lits) {
		v.add("", a, lits[a] != g.c.True)
	}
	if lits != nil {
		v.fix, v.fixMemo = lits, map[*Term]*Term{}
	}
	v.loose = loose
	v.maxInst = maxInst
	v.add("", o.Guard, false)
	v.inGoal = true
	v.add("", o.Goal, true)
	v.inGoal = false
	for _, x := range o.Extra {
		v.add("", x, false)
	}
	decl := g.assertBase(v, o.Idx)
	v.saturate(rounds)
	text := v.emit(decl)
	var b strings.Builder
	b.WriteString(text)
	for _, d := range decl {
		fmt.Fprintf(&b, "(assert %s)\n", d)
	}
	return v, b.String()
}

func (g *Gen) proveAll(ms int) []Result {
	type job struct {
		o    *Oblig
		v    *VC
		text string
		res  Result
	}
	var jobs []*job
	var wg sync.WaitGroup
	for _, o := range g.obligs {
		j := &job{o: o}
		j.res = Result{Fn: shortName(g.fn.String()), Name: o.Name, Kind: o.Kind, Detail: o.Desc}
		if o.Pos.IsValid() {
			j.res.Pos = fmt.Sprintf("%s:%d", filepath.Base(o.Pos.Filename), o.Pos.Line)
		}
		jobs = append(jobs, j)
		if o.Goal == g.c.True || o.Guard == g.c.False {
			j.res.Status, j.res.Back = "proved", "simplifier"
			stats.add("simplifier", 1, 0)
			continue
		}
		j.res.Status = "unknown"
	}
	for stage := 0; stage < 6; stage++ {
		for i, j := range jobs {
			if j.res.Status != "unknown" && j.res.Status != "sat" {
				continue
			}
			if stage > 2 && stage < 5 && !hasSum(j.o.Goal, map[*Term]bool{}) {
				continue
			}
			var err error
			var text string
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(Unsupported); ok {
							err = u
							return
						}
						panic(r)
					}
				}()
				switch {
				case stage < 3:
					text = g.lightQuery(j.o, stage, 600*(stage+1), false)
				case stage < 5:
					text = g.lightQuery(j.o, stage-1, 600*(stage+1), true)
				default:
					j.v, j.text = g.query(j.o, 5, 6000, false, nil)
					text = j.text
				}
			}()
			if err != nil {
				j.res.Status, j.res.Detail = "error", err.Error()
				continue
			}
			dump(fmt.Sprintf("%s_%d_stage%d_%s", j.res.Fn, i, stage, j.o.Name), text)
			wg.Add(1)
			go func(j *job) {
				defer wg.Done()
				var a answer
				if stage < 5 { // few instances often do
					a = runSolver(running, solvers[0], text+"(check-sat)\n", 1000+1000*stage)
				} else {
					a = decide(text, ms)
				}
				if trace {
					fmt.Fprintf(os.Stderr, "stage %d %s: %s %.2fs %dk\n", stage, j.o.Name, a.status, a.dur.Seconds(), len(text)/1024)
				}
				j.res.Dur += a.dur
				j.res.Back = a.back
				j.res.Status = a.status
				if a.status == "unsat" {
					j.res.Status = "proved"
					stats.add(a.back, 1, a.dur)
				}
			}(j)
		}
		wg.Wait()
	}
	for _, j := range jobs {
		if j.res.Status != "proved" && running.Err() == nil {
			suspect(j.res)
		}
	}
	// second try with deeper instantiation
	for i, j := range jobs {
		if j.res.Status == "sat" || j.res.Status == "unknown" {
			first := j.res.Status
			v, text := g.query(j.o, 9, 20000, true, nil)
			if text == j.text && first == "sat" {
				j.res.Status = "failed"
				g.model(j.v, j.text, &j.res)
				continue
			}
			j.v, j.text = v, text
			dump(fmt.Sprintf("%s_%d_deep_%s", j.res.Fn, i, j.o.Name), j.text)
			wg.Add(1)
			go func(j *job) {
				defer wg.Done()
				a := decide(j.text, ms*2)
				j.res.Dur += a.dur
				j.res.Back = a.back
				switch a.status {
				case "unsat":
					j.res.Status = "proved"
					stats.add(a.back, 1, a.dur)
				case "sat":
					j.res.Status = "failed"
					g.model(j.v, j.text, &j.res)
				default:
					j.res.Status = "unknown"
				}
			}(j)
		}
	}
	wg.Wait()
	for i, j := range jobs {
		if j.res.Status == "unknown" {
			if a := g.bySplit(j.o, fmt.Sprintf("%s_%d_%s", j.res.Fn, i, j.o.Name), ms); a.status == "unsat" {
				j.res.Status, j.res.Back = "proved", a.back
				j.res.Dur += a.dur
				stats.add(a.back, 1, a.dur)
			}
		}
	}
	var out []Result
	for _, j := range jobs {
		out = append(out, j.res)
	}
	return out
}

// cases splits an obligation on the branch conditions that its goal depends on.
func (g *Gen) cases(o *Oblig) []map[*Term]*Term {
	var out []map[*Term]*Term
	var rec func(goal, guard *Term, lits map[*Term]*Term, branch map[*Term]bool, depth int)
	rec = func(goal, guard *Term, lits map[*Term]*Term, branch map[*Term]bool, depth int) {
		if guard == g.c.False || goal == g.c.True {
			return
		}
		var at *Term
		if depth < 8 && len(out) < 64 {
			at = splitAtom(branch, goal, guard)
		}
		if at == nil {
			out = append(out, lits)
			return
		}
		for _, b := range []*Term{g.c.True, g.c.False} {
			m := map[*Term]*Term{at: b, g.c.Not(at): g.c.Not(b)}
			memo := map[*Term]*Term{}
			nl := map[*Term]*Term{at: b, g.c.Not(at): g.c.Not(b)}
			for x, y := range lits {
				if r := g.c.Replace(x, m, memo); r.Op != OTrue && r.Op != OFalse {
					nl[r] = y
				}
			}
			nb := map[*Term]bool{}
			for t := range branch {
				for _, a := range conjuncts(g.c.Replace(t, m, memo)) {
					nb[a], nb[g.c.Not(a)] = true, true
				}
			}
			rec(g.c.Replace(goal, m, memo), g.c.Replace(guard, m, memo), nl, nb, depth+1)
		}
	}
	rec(o.Goal, o.Guard, map[*Term]*Term{}, g.branch, 0)
	return out
}

func sortedTerms(m map[*Term]*Term) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}

// splitAtom picks the branch condition used in most conditional terms.
func splitAtom(branch map[*Term]bool, ts ...*Term) *Term {
	n := map[*Term]int{}
	seen := map[*Term]bool{}
	var atoms func(t *Term)
	atoms = func(t *Term) {
		switch {
		case branch[t] && t.closed() && t.Op != OTrue && t.Op != OFalse:
			if t.Op == ONot {
				t = t.Args[0]
			}
			n[t]++
		case t.Op == OAnd || t.Op == OOr || t.Op == ONot:
			for _, a := range t.Args {
				atoms(a)
			}
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OIte {
			atoms(t.Args[0])
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var best *Term
	for t, k := range n {
		if best == nil || k > n[best] || k == n[best] && t.ID < best.ID {
			best = t
		}
	}
	return best
}

// bySplit decides an obligation case by case.
func (g *Gen) bySplit(o *Oblig, name string, ms int) answer {
	cs := g.cases(o)
	if len(cs) < 2 {
		return answer{status: "unknown"}
	}
	if trace {
		fmt.Fprintf(os.Stderr, "split %s: %d cases\n", name, len(cs))
	}
	var wg sync.WaitGroup
	as := make([]answer, len(cs))
	var open atomic.Bool
	for i, lits := range cs {
		if open.Load() {
			as[i].status = "skipped"
			continue
		}
		_, text := g.query(o, 5, 6000, false, lits)
		dump(fmt.Sprintf("split_%s_%d", name, i), text)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if open.Load() {
				as[i].status = "skipped"
				return
			}
			if as[i] = decide(text, ms); as[i].status != "unsat" {
				open.Store(true)
			}
		}(i)
	}
	wg.Wait()
	r := answer{status: "unsat", back: "case split"}
	for _, a := range as {
		r.dur += a.dur
		if a.status != "unsat" && r.status != "sat" {
			r.status = a.status
		}
		if a.back != "" && a.status == "unsat" {
			r.back = a.back
		}
	}
	if trace {
		fmt.Fprintf(os.Stderr, "  split result %s\n", r.status)
		for i, a := range as {
			if a.status != "unsat" && a.status != "skipped" {
				fmt.Fprintf(os.Stderr, "  case %d %s\n", i, a.status)
			}
		}
	}
	return r
}

// model asks the solver for the values of the function inputs.
func (g *Gen) model(v *VC, text string, r *Result) {
	var names []string
	for _, p := range g.probes {
		if p.T.Op == OVar && strings.Contains(text, "(declare-fun "+sym(p.T.Name)+" ") {
			names = append(names, sym(p.T.Name))
		}
	}
	if len(names) == 0 {
		return
	}
	a := runSolver(running, solvers[0], text+"(check-sat)\n(get-value ("+strings.Join(names, " ")+"))\n", 10000)
	if a.status != "sat" {
		return
	}
	r.Model = map[string]string{}
	for _, ln := range strings.Split(a.out, "\n")[1:] {
		ln = strings.Trim(ln, "() ")
		f := strings.Fields(ln)
		if len(f) >= 2 {
			for _, p := range g.probes {
				if sym(p.T.Name) == f[0] {
					r.Model[p.Name] = strings.Trim(strings.Join(f[1:], " "), "()")
				}
			}
		}
	}
}

// ---- Houdini ----

type session struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func newSession(ms int) (*session, error) {
	s := &session{cmd: exec.Command("z3-new", "-in", "-memory:2500", fmt.Sprintf("-t:%d", ms), "smt.arith.solver=2")}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.out = bufio.NewReader(o)
	return s, s.cmd.Start()
}

func (s *session) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *session) send(t string) { io.WriteString(s.in, t) }
func (s *session) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "error"
	}
	return strings.TrimSpace(l)
}

type hgroup struct {
	obs   []*Oblig
	cands []*Cand
	idx   int
	guard *Term
	entry bool
	quiet bool // held, and nothing it relied on was dropped since
}

// chunk is the number of quantified candidates decided in one query.
const chunk = 6

func (g *Gen) houdini(ms int) error {
	if len(g.cands) == 0 {
		return nil
	}
	var groups []*hgroup
	idx := map[string]*hgroup{}
	nq := map[string]int{}
	put := func(loop, kind string, o *Oblig, c *Cand) {
		k := fmt.Sprintf("%s|%s|%d|%d", loop, kind, o.Guard.ID, o.Idx)
		if hasForall(o.Goal, map[*Term]bool{}) {
			nq[k]++
			k = fmt.Sprintf("%s|q%d", k, nq[k]/chunk)
		}
		h := idx[k]
		if h == nil {
			h = &hgroup{idx: o.Idx, guard: o.Guard, entry: kind == "entry"}
			idx[k] = h
			groups = append(groups, h)
		}
		h.obs = append(h.obs, o)
		h.cands = append(h.cands, c)
	}
	for _, c := range g.cands {
		put(c.Loop, "entry", c.Entry, c)
		for i, o := range c.Back {
			put(c.Loop, fmt.Sprintf("back%d", i), o, c)
		}
	}
	sort.SliceStable(groups, func(i, j int) bool { return groups[i].idx < groups[j].idx })
	for iter := 0; iter < 60; iter++ {
		if d := deadline.Load(); d != nil && time.Until(*d) < 0 {
			break
		}
		changed := false
		for _, entry := range []bool{true, false} {
			ch, err := g.houdiniWave(groups, entry, ms)
			if err != nil {
				return err
			}
			changed = changed || ch
		}
		if !changed {
			return nil
		}
	}
	for _, c := range g.cands {
		c.Alive = false
	}
	return nil
}

// houdiniWave decides the groups of one kind side by side and then drops what did not hold.
func (g *Gen) houdiniWave(groups []*hgroup, entry bool, ms int) (bool, error) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var firstErr error
	dead := map[*Cand]bool{}
	unsure := map[*Oblig]bool{}
	open := map[*hgroup][]int{}
	for _, h := range groups {
		if h.entry != entry || h.quiet {
			continue
		}
		h.quiet = true
		live := g.liveGoals(h)
		if len(live) == 0 {
			continue
		}
		text, alive := g.houdiniGroup(h, live, 2, 1200)
		wg.Add(1)
		go func(h *hgroup) {
			defer wg.Done()
			o := lightRun(h, live, alive, text)
			mu.Lock()
			open[h] = o
			mu.Unlock()
		}(h)
	}
	wg.Wait()
	// written candidates one by one, with the instances that the goal asks for
	for stage := 0; stage < 5; stage++ {
		settled := map[*hgroup]map[int]bool{}
		for _, h := range groups {
			settled[h] = map[int]bool{}
			for _, i := range open[h] {
				if !h.cands[i].Tmpl || stage > 2 && !hasSum(h.obs[i].Goal, map[*Term]bool{}) {
					continue
				}
				rounds := stage
				if stage > 2 {
					rounds--
				}
				text := g.lightQuery(h.obs[i], rounds, 600*(stage+1), stage > 2)
				dump(fmt.Sprintf("hstage_%s_%d_cand%d_%d", shortName(g.fn.String()), h.idx, h.cands[i].ID, stage), text)
				wg.Add(1)
				go func(h *hgroup, i int) {
					defer wg.Done()
					a := runSolver(running, solvers[0], text+"(check-sat)\n", 1000+1000*stage)
					if trace {
						fmt.Fprintf(os.Stderr, "houdini stage %d cand %d: %s %.2fs %dk\n", stage, h.cands[i].ID, a.status, a.dur.Seconds(), len(text)/1024)
					}
					if a.status == "unsat" {
						mu.Lock()
						settled[h][i] = true
						mu.Unlock()
					}
				}(h, i)
			}
		}
		wg.Wait()
		for _, h := range groups {
			var left []int
			for _, i := range open[h] {
				if !settled[h][i] {
					left = append(left, i)
				}
			}
			open[h] = left
		}
	}
	if g.contract != nil && g.contract.LightInv {
		for _, h := range groups {
			var left []int
			for _, i := range open[h] {
				if h.cands[i].Tmpl {
					left = append(left, i)
				} else {
					dead[h.cands[i]] = true
				}
			}
			open[h] = left
		}
	}
	for _, h := range groups {
		if len(open[h]) == 0 {
			continue
		}
		live := open[h]
		text, alive := g.houdiniGroup(h, live, satRounds, 8000)
		wg.Add(1)
		go func(h *hgroup) {
			defer wg.Done()
			d, u, err := houdiniRun(h, live, alive, text, ms)
			mu.Lock()
			defer mu.Unlock()
			for _, o := range u {
				unsure[o] = true
			}
			if err != nil && firstErr == nil {
				firstErr = err
			}
			for _, c := range d {
				dead[c] = true
			}
		}(h)
	}
	wg.Wait()
	if firstErr != nil {
		return false, firstErr
	}
	for _, h := range groups {
		for i, c := range h.cands {
			if unsure[h.obs[i]] && !dead[c] && g.bySplit(h.obs[i], fmt.Sprintf("cand%d", c.ID), ms).status != "unsat" {
				dead[c] = true
			}
		}
	}
	if len(dead) == 0 {
		return false, nil
	}
	min := -1
	for i, a := range g.assumps {
		if a.Cand != nil && dead[a.Cand] {
			min = i
			break
		}
	}
	for c := range dead {
		c.Alive = false
	}
	for _, h := range groups {
		if min >= 0 && h.idx > min {
			h.quiet = false
		}
	}
	return true, nil
}

func hasSum(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == OSum || t.Op == OFold {
		return true
	}
	for _, a := range t.Args {
		if hasSum(a, seen) {
			return true
		}
	}
	return false
}

func hasForall(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == OForall || t.Op == ODist || t.Op == OSum || t.Op == OFold {
		return true
	}
	for _, a := range t.Args {
		if hasForall(a, seen) {
			return true
		}
	}
	return false
}

// liveGoals are the candidates of a group still to be decided.
func (g *Gen) liveGoals(h *hgroup) []int {
	var live []int
	for i := range h.obs {
		if h.cands[i].Alive && h.obs[i].Goal != g.c.True && h.obs[i].Guard != g.c.False {
			live = append(live, i)
		}
	}
	return live
}

// houdiniGroup writes the query of a group.
func (g *Gen) houdiniGroup(h *hgroup, live []int, rounds, maxInst int) (string, []*Cand) {
	build := func(rounds, maxInst int) (string, int) {
		v := g.newVC()
		v.maxInst = maxInst
		v.add("", h.guard, false)
		for _, i := range live {
			v.add(fmt.Sprintf("(not goal!%d)", h.cands[i].ID), h.obs[i].Goal, true)
		}
		decl := g.assertBase(v, h.idx)
		v.saturate(rounds)
		for _, i := range live {
			decl = append(decl, fmt.Sprintf("goal!%d", h.cands[i].ID))
		}
		return v.emit(decl), v.ninst
	}
	tb := time.Now()
	text, n := build(rounds, maxInst)
	if trace {
		fmt.Fprintf(os.Stderr, "houdini %s idx=%d live=%d first=%d text=%dk inst=%d rounds=%d build=%.1fs\n", shortName(g.fn.String()), h.idx, len(live), h.cands[live[0]].ID, len(text)/1024, n, rounds, time.Since(tb).Seconds())
	}
	dump(fmt.Sprintf("houdini_%s_%d_%d_%d_%d", shortName(g.fn.String()), h.idx, h.cands[live[0]].ID, len(live), rounds), text)
	var alive []*Cand
	for i := 0; i < h.idx; i++ {
		if a := g.assumps[i]; a.Cand != nil && a.Cand.Alive {
			alive = append(alive, a.Cand)
		}
	}
	return text, alive
}

// lightRun tries the group with few instances and returns the candidates it could not settle.
func lightRun(h *hgroup, live []int, alive []*Cand, text string) []int {
	sem <- struct{}{}
	defer func() { <-sem }()
	s, err := newSession(400)
	if err != nil {
		return live
	}
	defer s.close()
	s.send(text)
	for _, c := range alive {
		s.send(fmt.Sprintf("(assert cand!%d)\n", c.ID))
	}
	var open []int
	for _, i := range live {
		s.send(fmt.Sprintf("(push)\n(assert (not goal!%d))\n(check-sat)\n(pop)\n", h.cands[i].ID))
		r := s.line()
		if r == "unsat" {
			continue
		}
		open = append(open, i)
		if r != "sat" && r != "unknown" && r != "timeout" {
			return live
		}
	}
	return open
}

func houdiniRun(h *hgroup, live []int, alive []*Cand, text string, ms int) ([]*Cand, []*Oblig, error) {
	sem <- struct{}{}
	defer func() { <-sem }()
	t0 := time.Now()
	defer func() { stats.add("houdini", 0, time.Since(t0)) }()
	s, err := newSession(1500)
	if err != nil {
		return nil, nil, err
	}
	defer func() { s.close() }()
	s.send(text)
	var dead []*Cand
	var unsure []*Oblig
	isDead := map[*Cand]bool{}
	for len(live) > 0 {
		var as, gs []string
		for _, c := range alive {
			if !isDead[c] {
				as = append(as, fmt.Sprintf("cand!%d", c.ID))
			}
		}
		for _, i := range live {
			gs = append(gs, fmt.Sprintf("(not goal!%d)", h.cands[i].ID))
		}
		s.send("(push)\n")
		for _, a := range as {
			s.send("(assert " + a + ")\n")
		}
		s.send("(assert (or false " + strings.Join(gs, " ") + "))\n(check-sat)\n")
		r := s.line()
		var holds func(n, i int) bool
		undecided := map[int]bool{}
		falsified := map[string]bool{}
		switch r {
		case "unsat":
			return dead, unsure, nil
		case "sat":
			var ns []string
			for _, i := range live {
				ns = append(ns, fmt.Sprintf("goal!%d", h.cands[i].ID))
			}
			s.send("(get-value (" + strings.Join(ns, " ") + "))\n(pop)\n(echo \"done\")\n")
			for {
				l := s.line()
				if l == "done" || l == "error" {
					break
				}
				f := strings.Fields(strings.Trim(l, "() "))
				if len(f) == 2 && f[1] == "false" {
					falsified[f[0]] = true
				}
			}
			holds = func(n, i int) bool { return !falsified[fmt.Sprintf("goal!%d", h.cands[i].ID)] }
		}
		if r != "sat" || len(falsified) == 0 {
			// a timeout, or the solver gave up its process or its model (memory): start it afresh
			s.close()
			if s, err = newSession(1500); err != nil {
				return dead, unsure, err
			}
			s.send(text)
			if trace {
				fmt.Fprintf(os.Stderr, "  undecided together: %d\n", len(live))
			}
			// undecided together: decide one by one in fresh processes
			var pre strings.Builder
			pre.WriteString(text)
			for _, a := range as {
				pre.WriteString("(assert " + a + ")\n")
			}
			ok := make([]bool, len(live))
			<-sem
			var wg sync.WaitGroup
			var umu sync.Mutex
			slots := make(chan struct{}, 6)
			for n, i := range live {
				wg.Add(1)
				go func(n, i int) {
					defer wg.Done()
					slots <- struct{}{}
					defer func() { <-slots }()
					a := decide(pre.String()+fmt.Sprintf("(assert (not goal!%d))\n", h.cands[i].ID), ms)
					ok[n] = a.status == "unsat"
					if a.status != "unsat" {
						umu.Lock()
						undecided[n] = true
						umu.Unlock()
					}
				}(n, i)
			}
			wg.Wait()
			sem <- struct{}{}
			holds = func(n, i int) bool { return ok[n] }
		}
		var nl []int
		for n, i := range live {
			if holds(n, i) {
				nl = append(nl, i)
				continue
			}
			if trace {
				fmt.Fprintf(os.Stderr, "  drop %d (%s) %s: %s\n", h.cands[i].ID, r, h.cands[i].Loop, h.cands[i].Desc)
			}
			isDead[h.cands[i]] = true
			if h.cands[i].Tmpl && undecided[n] {
				unsure = append(unsure, h.obs[i])
			} else {
				dead = append(dead, h.cands[i])
			}
		}
		if len(nl) == len(live) {
			return dead, unsure, nil
		}
		live = nl
	}
	return dead, unsure, nil
}

var satRounds = func() int {
	n := 4
	fmt.Sscan(os.Getenv("GOVC_ROUNDS"), &n)
	return n
}()
