package main

// Loop cutting: headers are havocked, invariants come from contract templates and
// from automatic candidates; a Houdini pass (solve.go) keeps the inductive ones.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type snap struct {
	vals map[ssa.Value]Val
	st   *State
}

// loopVar is something an invariant template can talk about.
type loopVar struct {
	name string
	typ  types.Type
	get  func(s *snap) Val
	own  bool // changes in this loop
	phi  bool
}

type liveCand struct {
	c    *Cand
	eval func(s *snap) *Term
}

type activeLoop struct {
	st    *State
	phis  []*ssa.Phi
	head  *ssa.BasicBlock
	cands []*liveCand
	name  string
}

func (g *Gen) addCand(al *activeLoop, desc string, entry, head *snap, eval func(s *snap) *Term) {
	if g.dry > 0 {
		return
	}
	var e, h *Term
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(Unsupported); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		e, h = eval(entry), eval(head)
		return true
	}()
	if !ok || e == g.c.False || h == g.c.True {
		return
	}
	c := &Cand{ID: len(g.cands), Desc: desc, Alive: true, Loop: al.name, Tmpl: g.tmpl}
	g.cands = append(g.cands, c)
	c.Entry = &Oblig{Name: al.name + ": " + desc, Kind: "inv-entry", Guard: entry.st.guard, Goal: e, Idx: len(g.assumps)}
	al.cands = append(al.cands, &liveCand{c, eval})
	c.head = h
}

// flushCands makes the candidates assumptions at the loop head.
func (g *Gen) flushCands(al *activeLoop) {
	for _, lc := range al.cands {
		g.assumps = append(g.assumps, Assump{Fact: g.c.Implies(al.st.guard, lc.c.head), Cand: lc.c})
	}
}

func (g *Gen) backEdge(f *Frame, al *activeLoop, from *ssa.BasicBlock, est *State) {
	if g.dry > 0 {
		return
	}
	s := &snap{vals: map[ssa.Value]Val{}, st: est}
	for _, p := range al.phis {
		s.vals[p] = g.val(f, p.Edges[predIndex(al.head, from)])
	}
	g.backWith(al, s)
}

func (g *Gen) backWith(al *activeLoop, s *snap) {
	for _, lc := range al.cands {
		goal := lc.eval(s)
		lc.c.Back = append(lc.c.Back, &Oblig{Name: al.name + ": " + lc.c.Desc, Kind: "inv-back", Guard: s.st.guard, Goal: goal, Idx: len(g.assumps)})
	}
}

func (g *Gen) enterLoop(f *Frame, b *ssa.BasicBlock, es []edge, li *loopInfo, order []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*loopInfo) *activeLoop {
	st0 := g.join(f, b, es)
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entry := &snap{vals: map[ssa.Value]Val{}, st: st0.clone()}
	for _, p := range phis {
		entry.vals[p] = f.vals[p]
	}
	// dry run
	dry := func() {
		for _, p := range phis {
			f.vals[p] = g.freshVal(p.Type(), "dry", nil)
		}
		d := st0.clone()
		d.alloc = g.freshAlloc(st0.alloc)
		g.runBlocks(f, d, order, loops, li.blocks, b)
	}
	info := g.dryRun(dry)
	al := &activeLoop{phis: phis, head: b}
	pos := token.NoPos
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	_ = pos
	al.name = fmt.Sprintf("%s loop %d", shortName(f.fn.String()), b.Index)
	st := g.havoc(st0, info, al.name)
	al.st = st
	for _, p := range phis {
		v := g.freshVal(p.Type(), "phi."+p.Comment+p.Name(), st.alloc)
		if t, ok := v.(*Term); ok && p.Comment == "rangeindex" {
			g.vrange[t] = [2]*bigI{bigMinus1, bigMaxLen}
			g.axiom(g.c.And(g.c.Le(g.c.Int(-1), t), g.c.Lt(t, g.c.Int(maxLen))))
		}
		f.vals[p] = v
	}
	head := &snap{vals: map[ssa.Value]Val{}, st: st}
	for _, p := range phis {
		head.vals[p] = f.vals[p]
	}
	if g.dry == 0 {
		vars := g.loopVars(f, b, phis, info)
		g.autoCands(f, al, li, entry, head, vars, info, st0)
		g.templateCands(f, al, entry, head, vars)
		g.flushCands(al)
	}
	for _, p := range phis {
		f.active = append(f.active, activePhi{p, li.blocks})
	}
	return al
}

// syntheticLoop executes body an arbitrary number of times.
func (g *Gen) syntheticLoop(f *Frame, st *State, body func(*State) *State, pos token.Pos) *State {
	info := g.dryRun(func() {
		d := st.clone()
		d.alloc = g.freshAlloc(st.alloc)
		body(d)
	})
	al := &activeLoop{name: shortName(f.fn.String()) + " shuffle"}
	h := g.havoc(st, info, al.name)
	al.st = h
	if g.dry == 0 {
		entry := &snap{st: st.clone(), vals: map[ssa.Value]Val{}}
		head := &snap{st: h.clone(), vals: map[ssa.Value]Val{}}
		vars := g.loopVars(f, nil, nil, info)
		g.autoCands(f, al, nil, entry, head, vars, info, st)
		g.templateCands(f, al, entry, head, vars)
		g.flushCands(al)
	}
	e := body(h.clone())
	if g.dry == 0 {
		g.backWith(al, &snap{st: e, vals: map[ssa.Value]Val{}})
	}
	return h
}

type dryInfo struct {
	keys   []string
	alloc  bool
	writes map[string][]*Term // key -> loop-invariant written locations
	other  map[string]bool    // key has writes at varying locations
}

func (g *Gen) dryRun(body func()) *dryInfo {
	snapID := g.c.n
	snapSyms := map[string]bool{}
	for k := range g.c.heapSym {
		snapSyms[k] = true
	}
	oldAlloc, oldW := g.dryAlloc, g.dryWrites
	g.dryAlloc = false
	g.dryWrites = map[string]map[*Term]bool{}
	g.dry++
	g.dryKeys = append(g.dryKeys, map[string]bool{})
	body()
	keys := g.dryKeys[len(g.dryKeys)-1]
	g.dryKeys = g.dryKeys[:len(g.dryKeys)-1]
	g.dry--
	info := &dryInfo{keys: sortedKeys(keys), alloc: g.dryAlloc, writes: map[string][]*Term{}, other: map[string]bool{}}
	inv := map[*Term]bool{}
	var isInv func(t *Term) bool
	isInv = func(t *Term) bool {
		if r, ok := inv[t]; ok {
			return r
		}
		r := true
		if t.Op == OVar && t.ID > snapID && locCtor(t) == "" && !isStrLit(t) {
			r = false
		}
		if t.Op == OUF && t.ID > snapID {
			if _, hs := g.c.heapSym[t.Name]; hs && !snapSyms[t.Name] {
				// entry symbols created late are still invariant
				n := g.entry[g.c.heapSym[t.Name].Key.Key]
				if n == nil || n.sym.Name != t.Name {
					r = false
				}
			}
		}
		if r {
			for _, a := range t.Args {
				if !isInv(a) {
					r = false
					break
				}
			}
		}
		inv[t] = r
		return r
	}
	for k, m := range g.dryWrites {
		for l := range m {
			if rootOf(l) != nil && !isInv(l) {
				continue // object allocated inside the iteration
			}
			if isInv(l) {
				info.writes[k] = append(info.writes[k], l)
			} else {
				info.other[k] = true
			}
		}
		sort.Slice(info.writes[k], func(i, j int) bool { return info.writes[k][i].ID < info.writes[k][j].ID })
	}
	g.dryAlloc = oldAlloc || (g.dry > 0 && info.alloc)
	if g.dry > 0 && len(g.dryKeys) > 0 {
		for k := range keys {
			g.dryKeys[len(g.dryKeys)-1][k] = true
		}
		for k, m := range g.dryWrites {
			if oldW[k] == nil {
				oldW[k] = map[*Term]bool{}
			}
			for l := range m {
				oldW[k][l] = true
			}
		}
	}
	g.dryWrites = oldW
	return info
}

func (g *Gen) havoc(st0 *State, info *dryInfo, tag string) *State {
	c := g.c
	st := st0.clone()
	if info.alloc {
		st.alloc = g.freshAlloc(st0.alloc)
		g.markAlloc()
	}
	var kept []string
	for _, k := range info.keys {
		ki := g.keys[k]
		if info.other[k] || !constLocs(info.writes[k]) {
			g.set(st, ki, g.h.Base(ki, "L", st.alloc), nil)
			kept = append(kept, k)
			continue
		}
		// Written only at objects allocated inside the iteration, or at fixed objects
		// allocated before the loop: everything else is as it was at the entry. What a
		// heap says about objects not allocated yet is never constrained, so the entry
		// heap also stands for the objects of earlier iterations.
		for _, l := range info.writes[k] {
			n := g.get(st, ki)
			if ki.Elem {
				g.set(st, ki, g.h.StoreArr(n, l, g.h.Sel(g.h.Base(ki, "L", st.alloc), l)), l)
			} else {
				g.set(st, ki, g.h.Store(n, l, g.h.Read(g.h.Base(ki, "L", st.alloc), l)), l)
			}
		}
		if ki.Sort == SLoc && info.alloc {
			l, ix := c.BVar("l#", SLoc), c.BVar("i#", SInt)
			n := g.get(st, ki)
			if ki.Elem {
				g.axiom(c.Forall([]*Term{l, ix}, c.Implies(c.Lt(g.rid(l), st.alloc), c.Lt(g.rid(g.h.ReadA(g.h.Sel(n, l), ix)), st.alloc))))
			} else {
				g.axiom(c.Forall([]*Term{l}, c.Implies(c.Lt(g.rid(l), st.alloc), c.Lt(g.rid(g.h.Read(n, l)), st.alloc))))
			}
		}
	}
	info.keys = kept
	return st
}

// constLocs: every location is a field of an object allocated by this function.
func constLocs(ls []*Term) bool {
	for _, l := range ls {
		for locCtor(l) == "fld" {
			l = l.Args[0]
		}
		if locCtor(l) != "root" {
			return false
		}
	}
	return true
}

// ---- loop variables ----

func (g *Gen) loopVars(f *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, info *dryInfo) []*loopVar {
	var out []*loopVar
	own := map[ssa.Value]bool{}
	for _, p := range phis {
		p := p
		own[p] = true
		out = append(out, &loopVar{name: p.Comment + "." + p.Name(), typ: p.Type(), own: true, phi: true,
			get: func(s *snap) Val { return s.vals[p] }})
	}
	for fr := f; fr != nil; fr = fr.caller {
		at := fr.cur
		if fr == f && b != nil {
			at = b
		}
		seen := map[*ssa.Phi]bool{}
		for _, a := range fr.active {
			p := a.p
			if own[p] || seen[p] || !a.blocks[at] {
				continue
			}
			seen[p] = true
			v := fr.vals[p]
			out = append(out, &loopVar{name: p.Comment + "." + p.Name(), typ: p.Type(), phi: true, get: func(s *snap) Val { return v }})
		}
		for _, blk := range fr.fn.Blocks {
			if fr == f && b != nil && !(blk.Dominates(b) && blk != b) {
				continue
			}
			for _, in := range blk.Instrs {
				sv, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				v, have := fr.vals[sv]
				if !have {
					continue
				}
				if a, ok := in.(*ssa.Alloc); ok {
					t := ptrElem(a.Type())
					loc := v.(*Term)
					if _, isArr := t.Underlying().(*types.Array); isArr {
						continue
					}
					if kindOf(t) != KStruct {
						out = append(out, &loopVar{name: a.Comment, typ: t, own: true,
							get: func(s *snap) Val { return g.load(s.st, t, loc) }})
					}
					out = append(out, &loopVar{name: "&" + a.Comment, typ: a.Type(), get: func(s *snap) Val { return loc }})
					continue
				}
				if _, ok := in.(*ssa.Phi); ok && own[sv] {
					continue
				}
				out = append(out, &loopVar{name: sv.Name(), typ: sv.Type(), get: func(s *snap) Val { return v }})
			}
		}
		for _, p := range fr.fn.Params {
			v := fr.vals[p]
			p := p
			out = append(out, &loopVar{name: p.Name(), typ: p.Type(), get: func(s *snap) Val { return v }})
		}
	}
	return out
}

func (g *Gen) templateCands(f *Frame, al *activeLoop, entry, head *snap, vars []*loopVar) {
	cons := []*Contract{}
	if g.contract != nil {
		cons = append(cons, g.contract)
	}
	for _, con := range cons {
		for _, lt := range con.LoopInvs {
			if !g.clauseOn(lt.Clause) {
				continue
			}
			g.instTemplate(f, al, entry, head, vars, con, lt)
		}
	}
}

func (g *Gen) instTemplate(f *Frame, al *activeLoop, entry, head *snap, vars []*loopVar, con *Contract, lt *LoopInv) {
	type choice struct {
		v   *loopVar
		add int64
	}
	opts := make([][]choice, len(lt.Params))
	taken := make([]map[string]bool, len(lt.Params)) // values that several names stand for count once
	for i, p := range lt.Params {
		t := g.w.resolveType(con.Pkg, p.Type)
		for _, v := range vars {
			if !types.Identical(types.Unalias(v.typ), types.Unalias(t)) {
				continue
			}
			isNum := sortOf0(t) == SInt || sortOf0(t) == SBool || sortOf0(t) == SF64 || sortOf0(t) == SF32
			if isNum && !v.phi && !v.own && !p.Any {
				continue
			}
			if p.Own && !v.own {
				continue
			}
			if sig := varSig(v, entry, head); sig != "" {
				if taken[i] == nil {
					taken[i] = map[string]bool{}
				}
				if taken[i][sig] {
					continue
				}
				taken[i][sig] = true
			}
			opts[i] = append(opts[i], choice{v, 0})
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int && v.phi {
				opts[i] = append(opts[i], choice{v, 1})
			}
		}
		if len(opts[i]) == 0 {
			return
		}
	}
	idx := make([]int, len(opts))
	n := 0
	for {
		pick := make([]choice, len(opts))
		desc := lt.Src + " ["
		dup := false
		for i := range opts {
			pick[i] = opts[i][idx[i]]
			for j := 0; j < i; j++ {
				if pick[j].v == pick[i].v && pick[j].add == pick[i].add {
					dup = true
				}
			}
			desc += lt.Params[i].Name + "=" + pick[i].v.name
			if pick[i].add != 0 {
				desc += "+1"
			}
			desc += " "
		}
		if !dup {
			g.tmpl = true
			g.addCand(al, desc+"]", entry, head, func(s *snap) *Term {
				env := g.newEnv(con, s.st, g.entrySt)
				for k, v := range g.fnEnv.vars {
					env.vars[k] = v
				}
				for i, ch := range pick {
					v := ch.v.get(s)
					if ch.add != 0 {
						v = g.c.AddK(scalar(v), ch.add)
					}
					env.vars[lt.Params[i].Name] = TV{v, ch.v.typ}
				}
				return g.evalBool(env, lt.Expr)
			})
			g.tmpl = false
		}
		n++
		if n > 400 {
			return
		}
		k := len(idx) - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			return
		}
	}
}

// varSig identifies the value of a variable at loop entry and at the loop head.
func varSig(v *loopVar, entry, head *snap) (sig string) {
	defer func() {
		if recover() != nil {
			sig = ""
		}
	}()
	for _, s := range []*snap{entry, head} {
		for _, t := range valComps(v.get(s)) {
			sig += fmt.Sprintf("%d,", t.ID)
		}
		sig += ";"
	}
	return sig
}

func sortOf0(t types.Type) Sort {
	if kindOf(t) == KScalar {
		return sortOf(t)
	}
	return ""
}

// ---- automatic candidates ----

func (g *Gen) autoCands(f *Frame, al *activeLoop, li *loopInfo, entry, head *snap, vars []*loopVar, info *dryInfo, st0 *State) {
	c := g.c
	Ale := st0.alloc
	l := c.BVar("l#", SLoc)
	ix := c.BVar("i#", SInt)
	off := c.BVar("o#", SInt)
	n := c.BVar("n#", SInt)
	for _, k := range info.keys {
		ki := g.keys[k]
		e0 := g.get(st0, ki)
		var fe *HNode
		fe = g.get(&State{heap: map[string]*HNode{}}, ki)
		excl := func(locs []*Term) *Term {
			r := c.True
			for _, w := range locs {
				r = c.And(r, c.Not(c.Eq(l, w)))
			}
			return r
		}
		rel := func(name string, ref *HNode, cond *Term) {
			if ki.Elem {
				g.addCand(al, name+" "+k, entry, head, func(s *snap) *Term {
					return c.Forall([]*Term{l, ix}, c.Implies(cond, c.Eq(g.h.ReadA(g.h.Sel(g.get(s.st, ki), l), ix), g.h.ReadA(g.h.Sel(ref, l), ix))))
				})
				if k == "elem:uint8" {
					g.addCand(al, name+" content "+k, entry, head, func(s *snap) *Term {
						return c.Forall([]*Term{l, off, n}, c.Implies(cond, c.Eq(g.h.Content(g.h.Sel(g.get(s.st, ki), l), off, n), g.h.Content(g.h.Sel(ref, l), off, n))))
					})
				}
				return
			}
			g.addCand(al, name+" "+k, entry, head, func(s *snap) *Term {
				return c.Forall([]*Term{l}, c.Implies(cond, c.Eq(g.h.Read(g.get(s.st, ki), l), g.h.Read(ref, l))))
			})
		}
		rel("unchanged since loop entry", e0, c.Lt(g.rid(l), Ale))
		if ws := info.writes[k]; len(ws) > 0 {
			rel("unchanged since loop entry elsewhere", e0, c.And(c.Lt(g.rid(l), Ale), excl(ws)))
		}
		if ms, ok := g.frameCond(k, l); ok && ms == c.False {
			// nothing to keep
		} else if ok {
			rel("frame", fe, c.And(c.Lt(g.rid(l), g.A0), ms))
			if ws := info.writes[k]; len(ws) > 0 {
				rel("frame elsewhere", e0, c.And(c.Lt(g.rid(l), Ale), ms, excl(ws)))
			}
		} else {
			rel("frame", fe, c.Lt(g.rid(l), g.A0))
		}
	}
	// variables
	var ints, slices []*loopVar
	for _, v := range vars {
		if !v.own {
			continue
		}
		v := v
		switch kindOf(v.typ) {
		case KSlice:
			slices = append(slices, v)
			e := v.get(entry).(*SliceV)
			same := func(s *snap) *Term { x := v.get(s).(*SliceV); return c.Eq(x.Arr, e.Arr) }
			g.addCand(al, v.name+" same or fresh array", entry, head, func(s *snap) *Term {
				x := v.get(s).(*SliceV)
				return c.Or(same(s), c.Le(Ale, g.rid(x.Arr)))
			})
			g.addCand(al, v.name+" same array", entry, head, same)
			g.addCand(al, v.name+" fresh array", entry, head, func(s *snap) *Term {
				x := v.get(s).(*SliceV)
				return c.Or(c.Eq(x.Arr, c.NilLoc), c.Le(g.A0, g.rid(x.Arr)))
			})
			g.addCand(al, v.name+" allocated", entry, head, func(s *snap) *Term {
				x := v.get(s).(*SliceV)
				return c.Lt(g.rid(x.Arr), s.st.alloc)
			})
			g.addCand(al, v.name+" same offset", entry, head, func(s *snap) *Term {
				return c.Eq(v.get(s).(*SliceV).Off, e.Off)
			})
			g.addCand(al, v.name+" same length", entry, head, func(s *snap) *Term {
				return c.Eq(v.get(s).(*SliceV).Len, e.Len)
			})
			g.addCand(al, v.name+" same capacity", entry, head, func(s *snap) *Term {
				return c.Eq(v.get(s).(*SliceV).Cap, e.Cap)
			})
			g.addCand(al, v.name+" well formed", entry, head, func(s *snap) *Term {
				x := v.get(s).(*SliceV)
				return c.And(c.Le(c.Zero, x.Off), c.Le(c.Zero, x.Len), c.Le(x.Len, x.Cap))
			})
		case KScalar:
			if sortOf(v.typ) == SInt {
				ints = append(ints, v)
				e := scalar(v.get(entry))
				g.addCand(al, v.name+" >= initial", entry, head, func(s *snap) *Term { return c.Le(e, scalar(v.get(s))) })
				g.addCand(al, v.name+" <= initial", entry, head, func(s *snap) *Term { return c.Le(scalar(v.get(s)), e) })
				if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					g.addCand(al, v.name+" >= 0", entry, head, func(s *snap) *Term { return c.Le(c.Zero, scalar(v.get(s))) })
					g.addCand(al, v.name+" >= -1", entry, head, func(s *snap) *Term { return c.Le(c.Int(-1), scalar(v.get(s))) })
					g.addCand(al, v.name+" < 2^46", entry, head, func(s *snap) *Term { return c.Lt(scalar(v.get(s)), c.Int(maxLen)) })
				}
			} else if sortOf(v.typ) == SLoc {
				e := scalar(v.get(entry))
				g.addCand(al, v.name+" unchanged", entry, head, func(s *snap) *Term { return c.Eq(scalar(v.get(s)), e) })
			}
		}
	}
	isInt := func(v *loopVar) bool {
		b, ok := v.typ.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int
	}
	for i, a := range ints {
		for _, b := range ints[i+1:] {
			a, b := a, b
			if !types.Identical(a.typ, b.typ) && !(isInt(a) && isInt(b)) {
				continue
			}
			d := c.Sub(scalar(a.get(entry)), scalar(b.get(entry)))
			g.addCand(al, a.name+" - "+b.name+" constant", entry, head, func(s *snap) *Term {
				return c.Eq(c.Sub(scalar(a.get(s)), scalar(b.get(s))), d)
			})
			d2 := c.Add(scalar(a.get(entry)), scalar(b.get(entry)))
			g.addCand(al, a.name+" + "+b.name+" constant", entry, head, func(s *snap) *Term {
				return c.Eq(c.Add(scalar(a.get(s)), scalar(b.get(s))), d2)
			})
			g.addCand(al, a.name+" <= "+b.name+" + d", entry, head, func(s *snap) *Term {
				return c.Le(c.Sub(scalar(a.get(s)), scalar(b.get(s))), d)
			})
			g.addCand(al, a.name+" >= "+b.name+" + d", entry, head, func(s *snap) *Term {
				return c.Le(d, c.Sub(scalar(a.get(s)), scalar(b.get(s))))
			})
		}
	}
	for _, sl := range slices {
		for _, a := range ints {
			a, sl := a, sl
			if !isInt(a) {
				continue
			}
			d := c.Sub(scalar(a.get(entry)), sl.get(entry).(*SliceV).Len)
			g.addCand(al, a.name+" - len("+sl.name+") constant", entry, head, func(s *snap) *Term {
				return c.Eq(c.Sub(scalar(a.get(s)), sl.get(s).(*SliceV).Len), d)
			})
			g.addCand(al, "len("+sl.name+") <= "+a.name+" + d", entry, head, func(s *snap) *Term {
				return c.Le(d, c.Sub(scalar(a.get(s)), sl.get(s).(*SliceV).Len))
			})
		}
	}
	// bounds from comparisons
	if li == nil {
		return
	}
	var blocks []*ssa.BasicBlock
	for b := range li.blocks {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	seen := map[string]bool{}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			if sortOf0(bo.X.Type()) != SInt {
				continue
			}
			for _, side := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				p := phiBase(side[0], al.phis)
				if p == nil {
					continue
				}
				y := side[1]
				if phiBase(y, al.phis) != nil {
					continue
				}
				yv := func(s *snap) *Term { return scalar(g.evalPure(f, al, li, s, y)) }
				key := p.Name() + "?" + y.Name()
				if seen[key] {
					continue
				}
				seen[key] = true
				pv := func(s *snap) *Term { return scalar(s.vals[p]) }
				nm := p.Comment + "." + p.Name()
				g.addCand(al, nm+" <= bound", entry, head, func(s *snap) *Term { return c.Le(pv(s), yv(s)) })
				g.addCand(al, nm+" < bound", entry, head, func(s *snap) *Term { return c.Lt(pv(s), yv(s)) })
				g.addCand(al, nm+" >= bound", entry, head, func(s *snap) *Term { return c.Le(yv(s), pv(s)) })
				g.addCand(al, nm+" in range", entry, head, func(s *snap) *Term { return c.Or(c.Lt(pv(s), yv(s)), c.Eq(pv(s), scalar(entry.vals[p]))) })
			}
		}
	}
}

func phiBase(v ssa.Value, phis []*ssa.Phi) *ssa.Phi {
	switch x := v.(type) {
	case *ssa.Phi:
		for _, p := range phis {
			if p == x {
				return p
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if _, ok := x.Y.(*ssa.Const); ok {
				return phiBase(x.X, phis)
			}
		}
	case *ssa.Convert:
		return phiBase(x.X, phis)
	}
	return nil
}

// evalPure re-evaluates a side-effect free expression at a snapshot.
func (g *Gen) evalPure(f *Frame, al *activeLoop, li *loopInfo, s *snap, v ssa.Value) Val {
	if in, ok := v.(ssa.Instruction); ok && li.blocks[in.Block()] {
		switch x := v.(type) {
		case *ssa.Phi:
			if r, ok := s.vals[x]; ok {
				return r
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				p := g.evalPure(f, al, li, s, x.X)
				if gp, ok := p.(*globalPtr); ok {
					return g.globalVal(gp.g)
				}
				return g.loadPtr(s.st, p, ptrElem(x.X.Type()))
			}
		case *ssa.FieldAddr:
			loc := scalar(g.evalPure(f, al, li, s, x.X))
			sT := ptrElem(x.X.Type())
			ft := structOf(sT).Field(x.Field).Type()
			if kindOf(ft) == KStruct {
				return g.fld(sT, x.Field, loc)
			}
			return &AddrV{Key: fieldKey(sT, x.Field), Typ: ft, Loc: loc}
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if sl, ok := g.evalPure(f, al, li, s, x.Common().Args[0]).(*SliceV); ok {
					return sl.Len
				}
			}
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				a, b := scalar(g.evalPure(f, al, li, s, x.X)), scalar(g.evalPure(f, al, li, s, x.Y))
				if x.Op == token.ADD {
					return g.wrap(g.c.Add(a, b), x.Type(), true)
				}
				return g.wrap(g.c.Sub(a, b), x.Type(), true)
			}
		case *ssa.Convert:
			return g.convert(s.st, g.evalPure(f, al, li, s, x.X), x.X.Type(), x.Type())
		}
		panic(unsup("not a pure bound"))
	}
	return g.val(f, v)
}
