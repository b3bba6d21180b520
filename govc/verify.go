package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (w *World) newGen(prop string) *Gen {
	c := NewCtx()
	g := &Gen{c: c, h: NewHeap(c), w: w, prop: prop, keys: map[string]*KeyInfo{}, entry: map[string]*HNode{}, inlined: map[string]bool{}, used: map[string]bool{},
		trusted: map[string]bool{}, gvals: map[*ssa.Global]Val{}, dryWrites: map[string]map[*Term]bool{}, vrange: map[*Term][2]*bigI{}, ufRange: map[string][2]*bigI{}, depths: map[*Term]int{}, mods: map[string][]modLoc{}, branch: map[*Term]bool{}, absMemo: map[*Term]absKey{}, absIDs: map[string]int{}, params: map[*Term]bool{}}
	g.A0 = c.Var("A0", SInt)
	g.axiom(c.Le(c.One, g.A0))
	return g
}

type FnReport struct {
	Fn      string
	Results []Result
	Inlined []string
	Used    []string
	Trusted []string
	Invs    int
	Vacuous bool
	Err     string
	Dur     time.Duration
	Reach   int
	Exits   int
	InvDesc []string
}

func (g *Gen) addProbes(name string, v Val) {
	switch x := v.(type) {
	case *Term:
		if x.Sort == SInt || x.Sort == SBool {
			g.probes = append(g.probes, &Probe{name, x})
		}
	case *SliceV:
		g.probes = append(g.probes, &Probe{"len(" + name + ")", x.Len})
	}
}

func (g *Gen) markParam(v Val) {
	switch x := v.(type) {
	case *Term:
		g.params[x] = true
	case *SliceV:
		g.params[x.Arr] = true
	case *StructV:
		for _, f := range x.F {
			g.markParam(f)
		}
	}
}

// generate symbolically executes the function under its contract.
func (w *World) generate(con *Contract, fn *ssa.Function, prop string, safety bool) (g *Gen, err error) {
	g = w.newGen(prop)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	g.fn, g.contract, g.safety = fn, con, safety
	c := g.c
	if len(con.Params) != len(fn.Params) {
		return g, fmt.Errorf("contract of %s has %d parameters, function has %d", con.Key, len(con.Params), len(fn.Params))
	}
	st := &State{heap: map[string]*HNode{}, alloc: g.A0, guard: c.True}
	f := &Frame{fn: fn, vals: map[ssa.Value]Val{}}
	env := g.newEnv(con, st, st)
	for i, p := range fn.Params {
		v := g.freshVal(p.Type(), p.Name(), g.A0)
		f.vals[p] = v
		g.markParam(v)
		env.vars[con.Params[i]] = TV{v, p.Type()}
		g.addProbes(con.Params[i], v)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			g.pivots = append(g.pivots, v.(*Term))
		}
	}
	g.entrySt = st.clone()
	g.fnEnv = env
	for _, cl := range con.Requires {
		if g.clauseOn(cl) {
			g.axiom(g.evalBool(env, cl.Expr))
		}
	}
	for _, m := range g.evalMods(env, con) {
		g.mods[m.key.Key] = append(g.mods[m.key.Key], m)
		if m.set != nil {
			g.axiom(c.Forall([]*Term{m.set.bv}, c.Implies(c.And(c.Le(m.set.lo, m.set.bv), c.Lt(m.set.bv, m.set.hi)), g.member(m.set, m.set.loc))))
		}
	}
	g.stack = []*ssa.Function{fn}
	if fn.Blocks == nil {
		return g, fmt.Errorf("no body for %s", con.Key)
	}
	exits := g.run(f, st)
	g.exits = exits
	rts := fn.Signature.Results()
	for _, ex := range exits {
		e := g.newEnv(con, ex.st, g.entrySt)
		for k, v := range env.vars {
			e.vars[k] = v
		}
		for i := 0; i < rts.Len(); i++ {
			if i < len(con.Results) {
				e.vars[con.Results[i]] = TV{ex.res[i], rts.At(i).Type()}
			}
		}
		have := map[string]*Term{}
		for _, cl := range con.Ensures {
			if !g.clauseOn(cl) || cl.Assumed {
				continue
			}
			p := g.evalBool(e, cl.Expr)
			o := g.oblig(ex.st, "post", cl.Name(), cl.Tags, p, 0, "postcondition: "+cl.Src)
			for _, u := range cl.Using {
				if q, ok := have[u]; ok {
					o.Extra = append(o.Extra, q)
				} else {
					return g, fmt.Errorf("%s:%d: no clause %q before this one", cl.File, cl.Line, u)
				}
			}
			have[cl.Name()] = p
		}
		g.frameOblig(ex.st)
	}
	return g, nil
}

func (g *Gen) frameOblig(st *State) {
	c := g.c
	ks := map[string]bool{}
	for k := range st.heap {
		ks[k] = true
	}
	l := c.BVar("l#", SLoc)
	ix := c.BVar("i#", SInt)
	off := c.BVar("o#", SInt)
	n := c.BVar("n#", SInt)
	goal := c.True
	for _, k := range sortedKeys(ks) {
		ki := g.keys[k]
		cur, old := g.get(st, ki), g.get(&State{heap: map[string]*HNode{}}, ki)
		if cur == old || strings.HasPrefix(k, "cell:") && onlyFresh(cur, old) {
			continue
		}
		if onlyFresh(cur, old) {
			continue
		}
		cond := c.Lt(g.rid(l), g.A0)
		if ms, ok := g.frameCond(k, l); ok {
			cond = c.And(cond, ms)
		}
		if ki.Elem {
			goal = c.And(goal, c.Forall([]*Term{l, ix}, c.Implies(cond, c.Eq(g.h.ReadA(g.h.Sel(cur, l), ix), g.h.ReadA(g.h.Sel(old, l), ix)))))
			if k == "elem:uint8" {
				goal = c.And(goal, c.Forall([]*Term{l, off, n}, c.Implies(cond, c.Eq(g.h.Content(g.h.Sel(cur, l), off, n), g.h.Content(g.h.Sel(old, l), off, n)))))
			}
			continue
		}
		goal = c.And(goal, c.Forall([]*Term{l}, c.Implies(cond, c.Eq(g.h.Read(cur, l), g.h.Read(old, l)))))
	}
	g.oblig(st, "frame", "modifies only what it declares", nil, goal, 0, "nothing outside the declared footprint changes")
}

// onlyFresh: cur differs from old only at locations allocated during the call.
func onlyFresh(cur, old *HNode) bool {
	for cur != old {
		switch cur.kind {
		case HStore, HStoreArr:
			if rootOf(cur.loc) == nil {
				return false
			}
			cur = cur.prev
		case HIte:
			return onlyFresh(cur.a, old) && onlyFresh(cur.b, old)
		default:
			return false
		}
	}
	return true
}

func (w *World) verifyFn(con *Contract, prop string, safety bool, ms int) *FnReport {
	t0 := time.Now()
	rep := &FnReport{Fn: con.Key}
	defer func() { rep.Dur = time.Since(t0) }()
	fn := w.fns[con.Key]
	if fn == nil {
		if con.Opt {
			return rep
		}
		rep.Results = append(rep.Results, Result{Fn: con.Key, Name: "function exists", Kind: "shape", Status: "failed", Detail: "function under contract not found: " + con.Key})
		return rep
	}
	g, err := w.generate(con, fn, prop, safety)
	if err != nil {
		rep.Err = err.Error()
		rep.Results = append(rep.Results, Result{Fn: con.Key, Name: "translation", Kind: "shape", Status: "error", Detail: err.Error()})
		return rep
	}
	err = func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					err = u
					return
				}
				panic(r)
			}
		}()
		if err := g.houdini(4000); err != nil {
			return err
		}
		rep.Results = g.proveAll(ms)
		// vacuity: some return must be reachable under the assumptions
		var reach atomic.Int64
		var wg sync.WaitGroup
		for i, ex := range g.exits {
			rep.Exits++
			o := &Oblig{Guard: ex.st.guard, Goal: g.c.False, Idx: len(g.assumps)}
			rounds, inst := 3, 3000
			if i >= 3 {
				rounds, inst = 2, 800
			}
			_, text := g.query(o, rounds, inst, false, nil)
			dump(fmt.Sprintf("%s_vac_%d", con.Key, rep.Exits), text)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if a := runSolver(running, solvers[0], text+"(check-sat)\n", 3000); a.status != "unsat" {
					reach.Add(1)
				}
			}()
		}
		wg.Wait()
		rep.Reach = int(reach.Load())
		if rep.Reach == 0 && rep.Exits > 0 {
			rep.Vacuous = true
			rep.Results = append(rep.Results, Result{Fn: con.Key, Name: "not vacuous", Kind: "vacuity", Status: "failed", Detail: "no return of the function is reachable under its precondition"})
		}
		return nil
	}()
	if err != nil {
		rep.Err = err.Error()
		rep.Results = append(rep.Results, Result{Fn: con.Key, Name: "translation", Kind: "shape", Status: "error", Detail: err.Error()})
	}
	for _, cd := range g.cands {
		if cd.Alive {
			rep.Invs++
			rep.InvDesc = append(rep.InvDesc, cd.Loop+": "+cd.Desc)
		}
	}
	rep.Inlined, rep.Used, rep.Trusted = sortedKeys(g.inlined), sortedKeys(g.used), sortedKeys(g.trusted)
	return rep
}

// checkProp verifies every function with clauses of the property and, transitively,
// every contract relied upon.
func (w *World) checkProp(prop string, only string, ms int) []*FnReport {
	var mu sync.Mutex
	var reps []*FnReport
	started := map[string]bool{}
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	var start func(key string)
	start = func(key string) {
		mu.Lock()
		if started[key] {
			mu.Unlock()
			return
		}
		started[key] = true
		mu.Unlock()
		con := w.contracts[key]
		if con == nil || con.Trusted {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			lim <- struct{}{}
			rep := w.verifyFn(con, prop, con.NoPanicAll || con.NoPanic[prop], ms)
			<-lim
			mu.Lock()
			reps = append(reps, rep)
			mu.Unlock()
			if only == "" {
				for _, u := range rep.Used {
					start(u)
				}
			}
		}()
	}
	for _, k := range w.order {
		con := w.contracts[k]
		if con.Trusted {
			continue
		}
		if only != "" {
			if k == only || con.Short() == only {
				start(k)
			}
			continue
		}
		on := false
		for _, cl := range con.Ensures {
			for _, t := range cl.Tags {
				if t == prop && !cl.Assumed {
					on = true
				}
			}
		}
		if on || con.NoPanic[prop] {
			start(k)
		}
	}
	wg.Wait()
	sort.Slice(reps, func(i, j int) bool { return reps[i].Fn < reps[j].Fn })
	return reps
}
