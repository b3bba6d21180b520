package main

// Symbolic execution of go/ssa functions into guarded assumptions and obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	heap  map[string]*HNode
	alloc *Term
	guard *Term
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*HNode, len(s.heap)), alloc: s.alloc, guard: s.guard}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

type Assump struct {
	Fact *Term
	Cand *Cand // if set, only in force while the candidate is alive
	Why  string
}

type Oblig struct {
	Name  string // stable name
	Kind  string // post, pre, frame, safety, inv
	Tags  []string
	Guard *Term
	Goal  *Term
	Idx   int     // assumptions in force: [0,Idx)
	Extra []*Term // obligations of the same return already listed, which this one relies on
	Pos   token.Position
	Desc  string
	Aux   map[string]*Term // named input terms for counterexample reporting
}

type Cand struct {
	ID    int
	Desc  string
	Alive bool
	head  *Term
	Entry *Oblig
	Back  []*Oblig
	Loop  string
	Tmpl  bool // from a contract
}

type Gen struct {
	c     *Ctx
	h     *Heap
	w     *World
	prop  string // property being checked ("" = all)
	keys  map[string]*KeyInfo
	entry map[string]*HNode // entry heap
	A0    *Term

	assumps []Assump
	obligs  []*Oblig
	cands   []*Cand
	safety  bool // emit safety obligations

	dry     int
	dryKeys []map[string]bool

	fn       *ssa.Function
	contract *Contract
	fnEnv    *Env
	entrySt  *State
	inlined  map[string]bool
	used     map[string]bool // contracts relied on
	trusted  map[string]bool
	depth    int
	stack    []*ssa.Function
	gvals    map[*ssa.Global]Val
	modLocs  map[string][]*Term // key -> allowed modified locs (entry evaluated)
	frameSt  []*loopCtx
	retCount int
	probes   []*Probe

	dryAlloc  bool
	dryWrites map[string]map[*Term]bool
	vrange    map[*Term][2]*big.Int
	ufRange   map[string][2]*big.Int
	depths    map[*Term]int
	mods      map[string][]modLoc
	pivots    []*Term
	tmpl      bool
	branch    map[*Term]bool // conditions of branch instructions
	fldID     map[string]int
	exits     []exit
	params    map[*Term]bool
	absMemo   map[*Term]absKey
	absIDs    map[string]int
}

// Probe is a named term whose model value is worth reporting.
type Probe struct {
	Name string
	T    *Term
}

type loopCtx struct {
	phis []phiVar
}

type phiVar struct {
	name string
	typ  types.Type
	phi  *ssa.Phi
}

func (g *Gen) axiom(t *Term) {
	if t == g.c.True || g.dry > 0 {
		return
	}
	g.assumps = append(g.assumps, Assump{Fact: t})
}

func (g *Gen) assume(st *State, t *Term) {
	if g.dry > 0 {
		return
	}
	g.axiom(g.c.Implies(st.guard, t))
}

func (g *Gen) oblig(st *State, kind, name string, tags []string, goal *Term, pos token.Pos, desc string) *Oblig {
	if g.dry > 0 {
		return nil
	}
	if st.guard == g.c.False || goal == g.c.True {
		// trivially discharged, still counted
	}
	o := &Oblig{Name: name, Kind: kind, Tags: tags, Guard: st.guard, Goal: goal, Idx: len(g.assumps), Desc: desc}
	if pos.IsValid() {
		o.Pos = g.w.prog.Fset.Position(pos)
	}
	g.obligs = append(g.obligs, o)
	return o
}

func (g *Gen) safe(st *State, what string, goal *Term, pos token.Pos) {
	if g.dry > 0 || goal == g.c.True {
		return
	}
	if g.safety {
		g.oblig(st, "safety", what, nil, goal, pos, what)
	}
	g.assume(st, goal)
}

// ---- heap access ----

func (g *Gen) keyInfo(key string, elem bool, s Sort, t types.Type, role string) *KeyInfo {
	if k, ok := g.keys[key]; ok {
		return k
	}
	k := &KeyInfo{Key: key, Elem: elem, Sort: s, Typ: t, Role: role}
	if role != "" {
		k.Typ = nil
	}
	g.keys[key] = k
	return k
}

func (g *Gen) get(st *State, k *KeyInfo) *HNode {
	if n, ok := st.heap[k.Key]; ok {
		return n
	}
	if n, ok := g.entry[k.Key]; ok {
		return n
	}
	n := g.h.Base(k, "0", g.A0)
	g.entry[k.Key] = n
	return n
}

func (g *Gen) set(st *State, k *KeyInfo, n *HNode, loc *Term) {
	st.heap[k.Key] = n
	if g.dry > 0 {
		g.dryKeys[len(g.dryKeys)-1][k.Key] = true
		if loc != nil {
			m := g.dryWrites[k.Key]
			if m == nil {
				m = map[*Term]bool{}
				g.dryWrites[k.Key] = m
			}
			m[loc] = true
		}
	}
}

func fieldKey(structT types.Type, i int) string {
	st := structOf(structT)
	return typeKey(structT) + "." + st.Field(i).Name()
}

func (g *Gen) loadLeaf(st *State, base string, t types.Type, loc, idx *Term) Val {
	var ts []*Term
	for _, lc := range leafComps(t) {
		k := g.keyInfo(base+lc.suf, idx != nil, lc.sort, t, lc.role)
		n := g.get(st, k)
		if idx != nil {
			ts = append(ts, g.h.ReadA(g.h.Sel(n, loc), idx))
		} else {
			ts = append(ts, g.h.Read(n, loc))
		}
	}
	return compsVal(t, ts)
}

func (g *Gen) storeLeaf(st *State, base string, t types.Type, loc, idx *Term, v Val) {
	switch v.(type) {
	case *AddrV, *ClosureV:
		v = g.materialize(v)
	}
	cs := valComps(v)
	for i, lc := range leafComps(t) {
		k := g.keyInfo(base+lc.suf, idx != nil, lc.sort, t, lc.role)
		n := g.get(st, k)
		if idx != nil {
			g.set(st, k, g.h.StoreArr(n, loc, g.h.AStore(g.h.Sel(n, loc), idx, cs[i])), loc)
		} else {
			g.set(st, k, g.h.Store(n, loc, cs[i]), loc)
		}
	}
}

// materialize turns an address of a leaf or a closure into an opaque location.
func (g *Gen) materialize(v Val) Val {
	switch x := v.(type) {
	case *AddrV:
		return g.c.Fresh("addr", SLoc)
	case *ClosureV:
		_ = x
		return g.c.Fresh("closure", SLoc)
	}
	return v
}

// load reads a value of type t at location loc (struct types recursively).
func (g *Gen) load(st *State, t types.Type, loc *Term) Val {
	if kindOf(t) == KStruct {
		s := structOf(t)
		v := &StructV{T: t}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, g.loadField(st, t, i, loc))
		}
		return v
	}
	return g.loadLeaf(st, "cell:"+typeKey(t), t, loc, nil)
}

func (g *Gen) loadField(st *State, structT types.Type, i int, loc *Term) Val {
	ft := structOf(structT).Field(i).Type()
	if kindOf(ft) == KStruct {
		return g.load(st, ft, g.fld(structT, i, loc))
	}
	return g.loadLeaf(st, fieldKey(structT, i), ft, loc, nil)
}

func (g *Gen) fld(structT types.Type, i int, loc *Term) *Term {
	return g.c.UF("fld$"+sanitize(fieldKey(structT, i)), SLoc, loc)
}

func (g *Gen) store(st *State, t types.Type, loc *Term, v Val) {
	if kindOf(t) == KStruct {
		s := structOf(t)
		sv := v.(*StructV)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if kindOf(ft) == KStruct {
				g.store(st, ft, g.fld(t, i, loc), sv.F[i])
			} else {
				g.storeLeaf(st, fieldKey(t, i), ft, loc, nil, sv.F[i])
			}
		}
		return
	}
	g.storeLeaf(st, "cell:"+typeKey(t), t, loc, nil, v)
}

func (g *Gen) loadPtr(st *State, p Val, t types.Type) Val {
	switch x := p.(type) {
	case *AddrV:
		return g.loadLeaf(st, x.Key, x.Typ, x.Loc, x.Idx)
	case *Term:
		return g.load(st, t, x)
	}
	panic(unsup("load through %T", p))
}

func (g *Gen) storePtr(st *State, p Val, t types.Type, v Val) {
	switch x := p.(type) {
	case *AddrV:
		g.storeLeaf(st, x.Key, x.Typ, x.Loc, x.Idx, v)
		return
	case *Term:
		g.store(st, t, x, v)
		return
	}
	panic(unsup("store through %T", p))
}

func elemKey(t types.Type) string { return "elem:" + typeKey(t.Underlying()) }

func elemKeyOf(t types.Type) string {
	// byte-like named types share memory with []byte
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8) {
		return "elem:uint8"
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return "elem:" + typeKey(t.Underlying())
	}
	return "elem:" + typeKey(t)
}

func (g *Gen) loadElem(st *State, et types.Type, arr, idx *Term) Val {
	if kindOf(et) == KStruct {
		return g.load(st, et, g.elt(arr, idx))
	}
	return g.loadLeaf(st, elemKeyOf(et), et, arr, idx)
}

func (g *Gen) elt(arr, idx *Term) *Term { return g.c.UF("elt", SLoc, arr, idx) }

func (g *Gen) byteKey() *KeyInfo {
	return g.keyInfo("elem:uint8", true, SInt, types.Typ[types.Uint8], "")
}

// bytesOf is the abstract content of a byte slice in a state.
func (g *Gen) bytesOf(st *State, s *SliceV) *Term {
	n := g.get(st, g.byteKey())
	return g.h.Content(g.h.Sel(n, s.Arr), s.Off, s.Len)
}

func (g *Gen) newLoc(st *State) *Term {
	l := g.c.UF("root", SLoc, st.alloc)
	st.alloc = g.c.AddK(st.alloc, 1)
	g.markAlloc()
	return l
}

// freshBytes allocates a byte slice with the given content.
func (g *Gen) freshBytes(st *State, content *Term) *SliceV {
	arr := g.newLoc(st)
	k := g.byteKey()
	n := g.get(st, k)
	g.set(st, k, g.h.StoreArr(n, arr, g.h.AStr(k, content)), arr)
	l := g.c.BLen(content)
	g.axiom(g.c.And(g.c.Le(g.c.Zero, l), g.c.Le(l, g.c.Int(maxLen))))
	return &SliceV{arr, g.c.Zero, l, l}
}

// ghost components
func (g *Gen) ghostKey(name string, s Sort) *KeyInfo {
	return g.keyInfo("ghost:"+name, false, s, nil, "")
}

// ---- function execution ----

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	env    *Env // contract environment for loop templates (names of the function)
	con    *Contract
	loops  []*loopCtx
	dest   func(st *State, res []Val, pos token.Pos)
	entry  *State
	caller *Frame
	active []activePhi
	cur    *ssa.BasicBlock
}

// activePhi is a loop variable and the blocks of its loop.
type activePhi struct {
	p      *ssa.Phi
	blocks map[*ssa.BasicBlock]bool
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

type exit struct {
	st  *State
	res []Val
}

func (g *Gen) val(f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return g.constVal(x.Value, x.Type())
	case *ssa.Global:
		return g.globalAddr(x)
	case *ssa.Function:
		return &ClosureV{Fn: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := f.vals[v]
	if !ok {
		panic(unsup("value %s (%T) not available in %s", v.Name(), v, f.fn))
	}
	return r
}

func (g *Gen) constVal(v constant.Value, t types.Type) Val {
	c := g.c
	if v == nil {
		return g.zero(t)
	}
	switch sortOf(t) {
	case SBool:
		return c.Bool(constant.BoolVal(v))
	case SInt:
		b, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		if !ok {
			panic(unsup("integer constant %s", v))
		}
		return c.Big(b)
	case SB:
		return g.strLit(constant.StringVal(v))
	case SF32:
		f, _ := constant.Float32Val(v)
		return c.Var(fmt.Sprintf("f32$%v", f), SF32)
	case SF64:
		f, _ := constant.Float64Val(v)
		return c.Var(fmt.Sprintf("f64$%v", f), SF64)
	}
	panic(unsup("constant of type %s", t))
}

func (g *Gen) strLit(s string) *Term {
	if s == "" {
		return g.c.EmptyB
	}
	t := g.c.Var("str$"+fmt.Sprintf("%x", s), SB)
	return t
}

type globalPtr struct{ g *ssa.Global }

func (g *Gen) globalAddr(x *ssa.Global) Val { return &globalPtr{x} }

// globalVal: package variables are treated as initialised once (see trusted base).
func (g *Gen) globalVal(x *ssa.Global) Val {
	if v, ok := g.gvals[x]; ok {
		return v
	}
	t := x.Type().Underlying().(*types.Pointer).Elem()
	name := typeKeyPkg(x.Pkg.Pkg) + "." + x.Name()
	var v Val
	d := g.dry
	g.dry = 0
	defer func() { g.dry = d }()
	if types.IsInterface(t) {
		v = g.c.Var("glob$"+sanitize(name), SLoc)
	} else if kindOf(t) == KSlice {
		v = g.globalSlice(x, t, name)
	} else {
		v = g.freshVal(t, "gv$"+name, g.A0)
	}
	g.gvals[x] = v
	g.trusted["package variable "+name+" keeps its initial value"] = true
	return v
}

func typeKeyPkg(p *types.Package) string {
	return strings.TrimPrefix(p.Path(), "github.com/tokenized/")
}

// globalSlice reads the initial contents of a slice variable from the package initialiser.
func (g *Gen) globalSlice(x *ssa.Global, t types.Type, name string) Val {
	c := g.c
	s := g.freshVal(t, "gv$"+name, g.A0).(*SliceV)
	init := x.Pkg.Func("init")
	if init == nil {
		return s
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			stI, ok := in.(*ssa.Store)
			if !ok || stI.Addr != x {
				continue
			}
			sl, ok := stI.Val.(*ssa.Slice)
			if !ok {
				return s
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return s
			}
			at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok {
				return s
			}
			g.axiom(c.And(c.Eq(s.Len, c.Int(at.Len())), c.Eq(s.Off, c.Zero), c.Not(c.Eq(s.Arr, c.NilLoc))))
			if sortOf(at.Elem()) != SInt {
				return s
			}
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				ci, ok := ia.Index.(*ssa.Const)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if s2, ok := r2.(*ssa.Store); ok && s2.Addr == ia {
						if cv, ok := s2.Val.(*ssa.Const); ok {
							k := g.keyInfo(elemKeyOf(at.Elem()), true, SInt, at.Elem(), "")
							n, ok := g.entry[k.Key]
							if !ok {
								n = g.h.Base(k, "0", g.A0)
								g.entry[k.Key] = n
							}
							iv := g.constVal(ci.Value, types.Typ[types.Int]).(*Term)
							g.axiom(c.Eq(g.h.ReadA(g.h.Sel(n, s.Arr), iv), g.constVal(cv.Value, at.Elem()).(*Term)))
						}
					}
				}
			}
			return s
		}
	}
	return s
}

// loops of a function
type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := m[s]
				if li == nil {
					li = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, a := range m {
		for _, b := range m {
			if a != b && b.blocks[a.head] {
				if a.parent == nil || len(b.blocks) < len(a.parent.blocks) {
					a.parent = b
				}
			}
		}
	}
	return m
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			rec(b.Succs[i])
		}
		out = append(out, b)
	}
	rec(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (g *Gen) run(f *Frame, st *State) []exit {
	fn := f.fn
	if fn.Recover != nil {
		panic(unsup("recover in %s", fn))
	}
	loops := findLoops(fn)
	order := rpo(fn)
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range order {
		pos[b] = i
	}
	for _, b := range order {
		for _, s := range b.Succs {
			if pos[s] <= pos[b] && !s.Dominates(b) {
				panic(unsup("irreducible control flow in %s", fn))
			}
		}
	}
	return g.runBlocks(f, st, order, loops, nil, nil)
}

// runBlocks executes blocks in reverse postorder. only!=nil restricts to a loop body
// (dry run); start is then the loop head.
func (g *Gen) runBlocks(f *Frame, st *State, order []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*loopInfo, only map[*ssa.BasicBlock]bool, start *ssa.BasicBlock) []exit {
	in := map[*ssa.BasicBlock][]edge{}
	back := map[*ssa.BasicBlock]*activeLoop{}
	var exits []exit
	if start == nil {
		start = order[0]
	}
	in[start] = []edge{{nil, st}}
	for _, b := range order {
		if only != nil && !only[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		var cur *State
		f.cur = b
		li := loops[b]
		switch {
		case only != nil && b == start:
			cur = es[0].st // phis were set by the caller
		case li != nil:
			al := g.enterLoop(f, b, es, li, order, loops)
			back[b] = al
			cur = al.st
		case len(es) > 1 && len(es) <= 8 && only == nil && f.caller == nil && g.dry == 0 && plainReturn(b):
			// the ways to reach a return are followed one by one
			for _, e := range es {
				if st := g.join(f, b, []edge{e}); st.guard != g.c.False {
					f.cur = b
					exits = append(exits, *g.execBlock(f, b, st, nil))
				}
			}
			continue
		default:
			cur = g.join(f, b, es)
		}
		if cur.guard == g.c.False && g.dry == 0 {
			continue
		}
		f.cur = b
		ret := g.execBlock(f, b, cur, func(to *ssa.BasicBlock, est *State) {
			if only != nil && (!only[to] || to == start) {
				return
			}
			if al := back[to]; al != nil && to.Dominates(b) {
				g.backEdge(f, al, b, est)
				return
			}
			if est.guard == g.c.False && g.dry == 0 {
				return
			}
			in[to] = append(in[to], edge{b, est})
		})
		if ret != nil {
			exits = append(exits, *ret)
		}
	}
	return exits
}

// plainReturn: nothing but a return, with the values it needs put together.
func plainReturn(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.Return, *ssa.MakeInterface, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType:
		default:
			return false
		}
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}

// split edges: cond for choosing edge i, relative to the joint guard
func (g *Gen) join(f *Frame, b *ssa.BasicBlock, es []edge) *State {
	if len(es) == 1 {
		st := es[0].st
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			f.vals[p] = g.val(f, p.Edges[predIndex(b, es[0].from)])
		}
		return st
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	cur := es[0].st.clone()
	vals := make([]Val, len(phis))
	for i, p := range phis {
		vals[i] = g.val(f, p.Edges[predIndex(b, es[0].from)])
	}
	for _, e := range es[1:] {
		cond := g.choice(e.st.guard, cur.guard)
		for i, p := range phis {
			vals[i] = g.iteVal(cond, g.val(f, p.Edges[predIndex(b, e.from)]), vals[i])
		}
		cur = g.merge(cond, e.st, cur)
	}
	for i, p := range phis {
		f.vals[p] = vals[i]
	}
	return cur
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("pred not found")
}

// choice strips from a the conjuncts it shares with b; the result selects a
// whenever exactly one of the two (mutually exclusive) guards holds.
func (g *Gen) choice(a, b *Term) *Term {
	bs := map[*Term]bool{}
	for _, x := range conjuncts(b) {
		bs[x] = true
	}
	var r []*Term
	for _, x := range conjuncts(a) {
		if !bs[x] {
			r = append(r, x)
		}
	}
	return g.c.And(r...)
}

// merge: state a under cond, else b
func (g *Gen) merge(cond *Term, a, b *State) *State {
	c := g.c
	st := &State{heap: map[string]*HNode{}, guard: c.Or(a.guard, b.guard)}
	ks := map[string]bool{}
	for k := range a.heap {
		ks[k] = true
	}
	for k := range b.heap {
		ks[k] = true
	}
	for _, k := range sortedKeys(ks) {
		ki := g.keys[k]
		st.heap[k] = g.h.Ite(cond, g.get(a, ki), g.get(b, ki))
	}
	if a.alloc == b.alloc {
		st.alloc = a.alloc
	} else if c.allocLe(a.alloc, b.alloc) {
		st.alloc = b.alloc // over-approximating the counter is harmless
	} else if c.allocLe(b.alloc, a.alloc) {
		st.alloc = a.alloc
	} else {
		st.alloc = g.freshAlloc(a.alloc, b.alloc)
	}
	return st
}

func (g *Gen) freshAlloc(lo ...*Term) *Term {
	a := g.c.Fresh("alloc", SInt)
	g.c.allocLo[a] = append([]*Term{}, lo...)
	for _, l := range lo {
		g.axiom(g.c.Le(l, a))
	}
	return a
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (g *Gen) execBlock(f *Frame, b *ssa.BasicBlock, st *State, goTo func(*ssa.BasicBlock, *State)) *exit {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			goTo(b.Succs[0], st)
		case *ssa.If:
			cond := scalar(g.val(f, x.Cond))
			for _, a := range conjuncts(cond) {
				g.branch[a], g.branch[g.c.Not(a)] = true, true
			}
			for _, a := range conjuncts(g.c.Not(cond)) {
				g.branch[a], g.branch[g.c.Not(a)] = true, true
			}
			t := st.clone()
			t.guard = g.c.And(st.guard, cond)
			e := st
			e2 := e.clone()
			e2.guard = g.c.And(st.guard, g.c.Not(cond))
			if b.Succs[0] == b.Succs[1] {
				goTo(b.Succs[0], st)
				return nil
			}
			goTo(b.Succs[0], t)
			goTo(b.Succs[1], e2)
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, g.val(f, r))
			}
			if f.dest != nil {
				f.dest(st, res, x.Pos())
			}
			return &exit{st, res}
		case *ssa.Panic:
			g.safe(st, "explicit panic unreachable", g.c.False, x.Pos())
			return nil
		case *ssa.RunDefers:
		default:
			g.instr(f, st, in)
		}
	}
	return nil
}

func (g *Gen) nonNil(st *State, p Val, what string, pos token.Pos) {
	if t, ok := p.(*Term); ok {
		g.safe(st, "nil dereference ("+what+")", g.c.Not(g.c.Eq(t, g.c.NilLoc)), pos)
	}
}

func ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (g *Gen) instr(f *Frame, st *State, in ssa.Instruction) {
	c := g.c
	switch x := in.(type) {
	case *ssa.Alloc:
		f.vals[x] = g.allocVar(st, ptrElem(x.Type()), x.Comment)
	case *ssa.Store:
		p := g.val(f, x.Addr)
		if _, ok := p.(*globalPtr); ok {
			panic(unsup("assignment to package variable"))
		}
		g.nonNil(st, p, "store", x.Pos())
		g.storePtr(st, p, ptrElem(x.Addr.Type()), g.val(f, x.Val))
	case *ssa.UnOp:
		f.vals[x] = g.unop(f, st, x)
	case *ssa.BinOp:
		f.vals[x] = g.binop(st, x.Op, g.val(f, x.X), g.val(f, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos())
	case *ssa.FieldAddr:
		p := g.val(f, x.X)
		sT := ptrElem(x.X.Type())
		ft := structOf(sT).Field(x.Field).Type()
		loc, ok := p.(*Term)
		if !ok {
			panic(unsup("field address of %T", p))
		}
		g.nonNil(st, p, structOf(sT).Field(x.Field).Name(), x.Pos())
		if kindOf(ft) == KStruct {
			f.vals[x] = g.fld(sT, x.Field, loc)
		} else {
			f.vals[x] = &AddrV{Key: fieldKey(sT, x.Field), Typ: ft, Loc: loc}
		}
	case *ssa.Field:
		f.vals[x] = g.val(f, x.X).(*StructV).F[x.Field]
	case *ssa.IndexAddr:
		base := g.val(f, x.X)
		idx := scalar(g.val(f, x.Index))
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := base.(*SliceV)
			g.safe(st, "index in range", c.And(c.Le(c.Zero, idx), c.Lt(idx, s.Len)), x.Pos())
			f.vals[x] = g.elemAddr(t.Elem(), s.Arr, c.Add(s.Off, idx))
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			loc, ok := base.(*Term)
			if !ok {
				panic(unsup("index of array field"))
			}
			g.safe(st, "index in range", c.And(c.Le(c.Zero, idx), c.Lt(idx, c.Int(at.Len()))), x.Pos())
			f.vals[x] = g.elemAddr(at.Elem(), loc, idx)
		}
	case *ssa.Index:
		base := g.val(f, x.X)
		idx := scalar(g.val(f, x.Index))
		if t, ok := base.(*Term); ok && t.Sort == SB {
			g.safe(st, "index in range", c.And(c.Le(c.Zero, idx), c.Lt(idx, c.BLen(t))), x.Pos())
			f.vals[x] = c.UF("bget", SInt, t, idx)
			return
		}
		r := g.freshVal(x.Type(), "aidx", st.alloc)
		f.vals[x] = r
	case *ssa.Lookup:
		f.vals[x] = g.freshVal(x.Type(), "lookup", st.alloc)
	case *ssa.Slice:
		f.vals[x] = g.slice(f, st, x)
	case *ssa.MakeSlice:
		f.vals[x] = g.makeSlice(st, x.Type().Underlying().(*types.Slice).Elem(), scalar(g.val(f, x.Len)), scalar(g.val(f, x.Cap)), x.Pos())
	case *ssa.MakeClosure:
		cv := &ClosureV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			cv.Bind = append(cv.Bind, g.val(f, b))
		}
		f.vals[x] = cv
	case *ssa.MakeMap, *ssa.MakeChan:
		f.vals[in.(ssa.Value)] = g.newLoc(st)
	case *ssa.MakeInterface:
		f.vals[x] = g.makeIface(st, g.val(f, x.X), x.X.Type())
	case *ssa.ChangeInterface:
		f.vals[x] = g.val(f, x.X)
	case *ssa.ChangeType:
		v := g.val(f, x.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{T: x.Type(), F: s.F}
		}
		f.vals[x] = v
	case *ssa.Convert:
		f.vals[x] = g.convert(st, g.val(f, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		f.vals[x] = g.val(f, x.Tuple).(TupleV)[x.Index]
	case *ssa.TypeAssert:
		f.vals[x] = g.typeAssert(st, g.val(f, x.X), x)
	case *ssa.Call:
		f.vals[x] = g.call(f, st, x)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		panic(unsup("instruction %T", in))
	default:
		panic(unsup("instruction %T (%s) in %s", in, in, f.fn))
	}
}

func (g *Gen) elemAddr(et types.Type, arr, idx *Term) Val {
	if kindOf(et) == KStruct {
		return g.elt(arr, idx)
	}
	return &AddrV{Key: elemKeyOf(et), Typ: et, Loc: arr, Idx: idx}
}

func (g *Gen) allocVar(st *State, t types.Type, comment string) *Term {
	loc := g.newLoc(st)
	if at, ok := t.Underlying().(*types.Array); ok && !isOpaque(t) {
		if comment == "varargs" || comment == "slicelit" || comment == "makeslice" {
			g.initArr(st, at.Elem(), loc)
			return loc
		}
	}
	g.store(st, t, loc, g.zero(t))
	g.initGhost(st, t, loc)
	return loc
}

func (g *Gen) initGhost(st *State, t types.Type, loc *Term) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		switch typeKey(n) {
		case "bytes.Buffer", "bytes.Reader":
			k := g.ghostKey("content", SB)
			g.set(st, k, g.h.Store(g.get(st, k), loc, g.c.EmptyB), loc)
		}
	}
}

func (g *Gen) initArr(st *State, et types.Type, arr *Term) {
	if kindOf(et) == KStruct {
		// element objects are zeroed lazily: zero every leaf of every element
		g.zeroStructElems(st, et, arr)
		return
	}
	z := valComps(g.zero(et))
	for i, lc := range leafComps(et) {
		k := g.keyInfo(elemKeyOf(et)+lc.suf, true, lc.sort, et, lc.role)
		g.set(st, k, g.h.StoreArr(g.get(st, k), arr, g.h.AConst(k, z[i])), arr)
	}
}

// zeroStructElems: the heap at a fresh array's element locations is assumed zero
// (those locations were never constrained before).
func (g *Gen) zeroStructElems(st *State, et types.Type, arr *Term) {
	panic(unsup("allocation of an array of structs (%s)", et))
}

func (g *Gen) makeSlice(st *State, et types.Type, n, cp *Term, pos token.Pos) *SliceV {
	c := g.c
	g.safe(st, "make length not negative", c.And(c.Le(c.Zero, n), c.Le(n, cp)), pos)
	g.assume(st, c.Le(cp, c.Int(maxLen)))
	arr := g.newLoc(st)
	g.initArr(st, et, arr)
	return &SliceV{arr, c.Zero, n, cp}
}

func (g *Gen) makeIface(st *State, v Val, t types.Type) Val {
	tid := g.w.typeID(t)
	switch x := v.(type) {
	case *Term:
		if x.Sort == SLoc {
			return &IfaceV{g.c.UF("ifc", SLoc, x, g.c.Int(int64(tid))), t, v}
		}
	}
	// boxed value
	b := g.newLoc(st)
	return &IfaceV{g.c.UF("ifc", SLoc, b, g.c.Int(int64(tid))), t, v}
}

func (g *Gen) ityp(l *Term) *Term {
	if locCtor(l) == "ifc" {
		return l.Args[1]
	}
	return g.c.UF("ityp", SInt, l)
}
func (g *Gen) iptr(l *Term) *Term {
	if locCtor(l) == "ifc" {
		return l.Args[0]
	}
	if l.Op == OIte {
		return g.c.Ite(l.Args[0], g.iptr(l.Args[1]), g.iptr(l.Args[2]))
	}
	return g.c.UF("iptr", SLoc, l)
}

func (g *Gen) typeAssert(st *State, v Val, x *ssa.TypeAssert) Val {
	c := g.c
	t := scalar(v)
	if types.IsInterface(x.AssertedType) {
		if x.CommaOk {
			ok := c.Fresh("tassert", SBool)
			return TupleV{c.Ite(ok, t, c.NilLoc), c.And(ok, c.Not(c.Eq(t, c.NilLoc)))}
		}
		return t
	}
	ok := c.And(c.Not(c.Eq(t, c.NilLoc)), c.Eq(g.ityp(t), c.Int(int64(g.w.typeID(x.AssertedType)))))
	var val Val
	if iv, is := v.(*IfaceV); is && iv.Dyn != nil && types.Identical(iv.Dyn, x.AssertedType) {
		val = iv.V
	} else if _, isP := x.AssertedType.Underlying().(*types.Pointer); isP {
		val = g.iptr(t)
		c.locB[val.(*Term)] = c.locBound(t)
	} else {
		val = g.freshVal(x.AssertedType, "unboxed", st.alloc)
	}
	if x.CommaOk {
		return TupleV{g.iteVal(ok, val, g.zero(x.AssertedType)), ok}
	}
	g.safe(st, "type assertion", ok, x.Pos())
	return val
}

func (g *Gen) slice(f *Frame, st *State, x *ssa.Slice) Val {
	c := g.c
	base := g.val(f, x.X)
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = scalar(g.val(f, x.Low))
	} else {
		lo = c.Zero
	}
	if x.High != nil {
		hi = scalar(g.val(f, x.High))
	}
	if x.Max != nil {
		mx = scalar(g.val(f, x.Max))
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := base.(*SliceV)
		if hi == nil {
			hi = s.Len
		}
		if mx == nil {
			mx = s.Cap
		}
		g.safe(st, "slice bounds", c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, s.Cap)), x.Pos())
		return &SliceV{s.Arr, c.Add(s.Off, lo), c.Sub(hi, lo), c.Sub(mx, lo)}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		g.safe(st, "slice bounds", c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), x.Pos())
		if al, ok := x.X.(*ssa.Alloc); ok && (al.Comment == "varargs" || al.Comment == "slicelit" || al.Comment == "makeslice") {
			return &SliceV{base.(*Term), lo, c.Sub(hi, lo), c.Sub(mx, lo)}
		}
		if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			// read-only view of a byte array value
			g.nonNil(st, base, "array", x.Pos())
			u := scalar(g.loadPtr(st, base, t.Elem()))
			content := c.UF("hbytes", SB, u)
			if at.Len() != 32 {
				content = c.UF(fmt.Sprintf("hbytes%d", at.Len()), SB, u)
			}
			arr := g.newLoc(st)
			k := g.byteKey()
			g.set(st, k, g.h.StoreArr(g.get(st, k), arr, g.h.AStr(k, content)), arr)
			return &SliceV{arr, lo, c.Sub(hi, lo), c.Sub(mx, lo)}
		}
		panic(unsup("slice of array %s", t))
	case *types.Basic: // string
		s := base.(*Term)
		if hi == nil {
			hi = c.BLen(s)
		}
		g.safe(st, "slice bounds", c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, c.BLen(s))), x.Pos())
		return c.UF("bc$sub", SB, s, lo, c.Sub(hi, lo))
	}
	panic(unsup("slice of %s", x.X.Type()))
}

// ---- arithmetic ----

func (g *Gen) bounds(t *Term) (*big.Int, *big.Int) {
	switch t.Op {
	case OConst:
		return t.C, t.C
	case OLin:
		lo, hi := new(big.Int).Set(t.C), new(big.Int).Set(t.C)
		for i, a := range t.Args {
			l, h := g.bounds(a)
			if t.Coef[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo.Add(lo, new(big.Int).Mul(l, t.Coef[i]))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi.Add(hi, new(big.Int).Mul(h, t.Coef[i]))
			} else {
				hi = nil
			}
		}
		return lo, hi
	case OIte:
		l1, h1 := g.bounds(t.Args[1])
		l2, h2 := g.bounds(t.Args[2])
		var lo, hi *big.Int
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return lo, hi
	case OMod:
		if t.Args[1].isConst() {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].C, big.NewInt(1))
		}
	case OUF:
		if hs, ok := g.c.heapSym[t.Name]; ok {
			if hs.Key.Role == "len" || hs.Key.Role == "cap" || hs.Key.Role == "off" {
				return big.NewInt(0), big.NewInt(maxLen)
			}
			if hs.Key.Typ != nil {
				if lo, hi, ok := intRange(hs.Key.Typ); ok {
					return lo, hi
				}
			}
		}
		if t.Name == "blen" {
			return big.NewInt(0), nil
		}
		if r, ok := g.ufRange[t.Name]; ok {
			return r[0], r[1]
		}
	case OVar:
		if r, ok := g.vrange[t]; ok {
			return r[0], r[1]
		}
		if g.h.nonneg[t] {
			return big.NewInt(0), nil
		}
	}
	return nil, nil
}

// wrap reduces a mathematical result to the range of t. small: at most one
// period away from the range (sums and differences).
func (g *Gen) wrap(x *Term, t types.Type, small bool) *Term {
	c := g.c
	lo, hi, ok := intRange(t)
	if !ok {
		panic(unsup("wrap of type %s", t))
	}
	period := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if x.isConst() {
		v := new(big.Int).Mod(new(big.Int).Sub(x.C, lo), period)
		return c.Big(v.Add(v, lo))
	}
	bl, bh := g.bounds(x)
	loOK := bl != nil && bl.Cmp(lo) >= 0
	hiOK := bh != nil && bh.Cmp(hi) <= 0
	if loOK && hiOK {
		return x
	}
	if small {
		r := x
		if !loOK {
			r = c.Ite(c.Lt(x, c.Big(lo)), c.Add(x, c.Big(period)), r)
		}
		if !hiOK {
			r = c.Ite(c.Lt(c.Big(hi), x), c.Sub(x, c.Big(period)), r)
		}
		return r
	}
	return c.Add(c.Mod(c.Sub(x, c.Big(lo)), c.Big(period)), c.Big(lo))
}

func (g *Gen) bitAndConst(x *Term, m *big.Int) *Term {
	c := g.c
	r := c.Zero
	for i := 0; i < m.BitLen(); {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		lo := new(big.Int).Lsh(big.NewInt(1), uint(i))
		w := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
		r = c.Add(r, c.MulK(c.Mod(c.Div(x, c.Big(lo)), c.Big(w)), lo))
		i = j
	}
	return r
}

func (g *Gen) bitAnd(x, y *Term, t types.Type) *Term {
	if x.isConst() && !y.isConst() {
		x, y = y, x
	}
	lo, _, _ := intRange(t)
	if y.isConst() && y.C.Sign() >= 0 && lo.Sign() >= 0 {
		if x.isConst() {
			return g.c.Big(new(big.Int).And(x.C, y.C))
		}
		return g.bitAndConst(x, y.C)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return g.c.UF("bitand", SInt, x, y)
}

func (g *Gen) binop(st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type, pos token.Pos) Val {
	c := g.c
	switch op {
	case token.EQL:
		return g.eqVal(st, xv, yv, xt)
	case token.NEQ:
		return c.Not(g.eqVal(st, xv, yv, xt))
	}
	x, y := scalar(xv), scalar(yv)
	switch sortOf(xt) {
	case SInt:
		switch op {
		case token.ADD:
			return g.wrap(c.Add(x, y), rt, true)
		case token.SUB:
			return g.wrap(c.Sub(x, y), rt, true)
		case token.MUL:
			return g.wrap(c.Mul(x, y), rt, false)
		case token.QUO:
			g.safe(st, "division by zero", c.Not(c.Eq(y, c.Zero)), pos)
			return g.quo(x, y, rt)
		case token.REM:
			g.safe(st, "division by zero", c.Not(c.Eq(y, c.Zero)), pos)
			return c.Sub(x, c.Mul(y, g.quo(x, y, rt)))
		case token.AND:
			return g.bitAnd(x, y, rt)
		case token.OR:
			return c.Sub(c.Add(x, y), g.bitAnd(x, y, rt))
		case token.XOR:
			return c.Sub(c.Add(x, y), c.MulK(g.bitAnd(x, y, rt), big.NewInt(2)))
		case token.AND_NOT:
			return c.Sub(x, g.bitAnd(x, y, rt))
		case token.SHL:
			if y.isConst() {
				return g.wrap(c.MulK(x, new(big.Int).Lsh(big.NewInt(1), uint(y.C.Uint64()))), rt, false)
			}
		case token.SHR:
			if y.isConst() {
				return c.Div(x, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(y.C.Uint64()))))
			}
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Lt(y, x)
		case token.GEQ:
			return c.Le(y, x)
		}
		if op == token.SHL || op == token.SHR {
			r := g.freshVal(rt, "shift", nil)
			return r
		}
	case SF32, SF64:
		s := sortOf(xt)
		p := "f64."
		if s == SF32 {
			p = "f32."
		}
		switch op {
		case token.ADD, token.MUL:
			if x.ID > y.ID {
				x, y = y, x
			}
			return c.UF(p+map[token.Token]string{token.ADD: "add", token.MUL: "mul"}[op], s, x, y)
		case token.SUB:
			return c.UF(p+"sub", s, x, y)
		case token.QUO:
			return c.UF(p+"quo", s, x, y)
		case token.LSS:
			return c.UF(p+"lt", SBool, x, y)
		case token.GTR:
			return c.UF(p+"lt", SBool, y, x)
		case token.LEQ:
			return c.UF(p+"le", SBool, x, y)
		case token.GEQ:
			return c.UF(p+"le", SBool, y, x)
		}
	case SB:
		switch op {
		case token.ADD:
			return c.Cat(x, y)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return c.Fresh("strcmp", SBool)
		}
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	panic(unsup("operator %s on %s", op, xt))
}

func (g *Gen) quo(x, y *Term, t types.Type) *Term {
	c := g.c
	lo, _, _ := intRange(t)
	if lo.Sign() >= 0 {
		return c.Div(x, y)
	}
	if y.isConst() && y.C.Sign() > 0 {
		if g.h.NonNeg(x) {
			return c.Div(x, y)
		}
		return c.Ite(c.Le(c.Zero, x), c.Div(x, y), c.Sub(c.Zero, c.Div(c.Sub(c.Zero, x), y)))
	}
	// truncated division, sign cases
	ax := c.Ite(c.Le(c.Zero, x), x, c.Sub(c.Zero, x))
	ay := c.Ite(c.Le(c.Zero, y), y, c.Sub(c.Zero, y))
	q := c.Div(ax, ay)
	return g.wrap(c.Ite(c.Eq(c.Le(c.Zero, x), c.Le(c.Zero, y)), q, c.Sub(c.Zero, q)), t, true)
}

func (g *Gen) eqVal(st *State, a, b Val, t types.Type) *Term {
	c := g.c
	switch x := a.(type) {
	case *Term:
		y := scalar(b)
		if x.Sort == SF32 || x.Sort == SF64 {
			if x.ID > y.ID {
				x, y = y, x
			}
			return c.UF(map[Sort]string{SF32: "f32.eq", SF64: "f64.eq"}[x.Sort], SBool, x, y)
		}
		return c.Eq(x, y)
	case *IfaceV:
		return c.Eq(x.T, scalar(b))
	case *SliceV:
		y := b.(*SliceV)
		// only comparison with nil is legal
		return c.Eq(x.Arr, y.Arr)
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, g.eqVal(st, x.F[i], y.F[i], structOf(x.T).Field(i).Type()))
		}
		return c.And(cs...)
	case *AddrV:
		if y, ok := b.(*AddrV); ok {
			if y.Key != x.Key {
				return c.False
			}
			r := c.Eq(x.Loc, y.Loc)
			if x.Idx != nil {
				r = c.And(r, c.Eq(x.Idx, y.Idx))
			}
			return r
		}
		if y, ok := b.(*Term); ok && y == c.NilLoc {
			return c.False
		}
	case *ClosureV:
		if y, ok := b.(*Term); ok && y == c.NilLoc {
			return c.False
		}
	}
	panic(unsup("comparison of %T and %T", a, b))
}

func (g *Gen) unop(f *Frame, st *State, x *ssa.UnOp) Val {
	c := g.c
	v := g.val(f, x.X)
	switch x.Op {
	case token.MUL:
		if gp, ok := v.(*globalPtr); ok {
			return g.globalVal(gp.g)
		}
		g.nonNil(st, v, "load", x.Pos())
		r := g.loadPtr(st, v, ptrElem(x.X.Type()))
		g.loadedAllocated(st, r)
		return r
	case token.NOT:
		return c.Not(scalar(v))
	case token.SUB:
		t := scalar(v)
		if t.Sort == SInt {
			return g.wrap(c.Sub(c.Zero, t), x.Type(), true)
		}
		return c.UF(map[Sort]string{SF32: "f32.neg", SF64: "f64.neg"}[t.Sort], t.Sort, t)
	case token.XOR:
		lo, hi, _ := intRange(x.Type())
		if lo.Sign() < 0 {
			return c.Sub(c.Int(-1), scalar(v))
		}
		return c.Sub(c.Big(hi), scalar(v))
	}
	panic(unsup("unary operator %s", x.Op))
}

// loadedAllocated: a pointer found in memory points to something allocated by now.
func (g *Gen) loadedAllocated(st *State, v Val) {
	if g.dry > 0 {
		return
	}
	switch x := v.(type) {
	case *StructV:
		for _, f := range x.F {
			g.loadedAllocated(st, f)
		}
	case *SliceV:
		g.loadedAllocated(st, x.Arr)
	case *Term:
		if x.Sort == SLoc && x.Op == OUF {
			if hs, ok := g.c.heapSym[x.Name]; ok && hs.Alloc != st.alloc {
				g.assume(st, g.c.Lt(g.rid(x), st.alloc))
			}
		}
	}
}

func (g *Gen) convert(st *State, v Val, from, to types.Type) Val {
	c := g.c
	if kindOf(from) == KSlice {
		s := v.(*SliceV)
		if kindOf(to) == KSlice {
			return s
		}
		if sortOf(to) == SB {
			return g.bytesOf(st, s)
		}
		panic(unsup("conversion %s to %s", from, to))
	}
	if kindOf(to) == KSlice {
		if t, ok := v.(*Term); ok && t.Sort == SB {
			return g.freshBytes(st, t)
		}
	}
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		return g.wrap(t, to, g.oneWrap(from, to))
	case fs == SInt && ts == SF64:
		return c.UF("f64.ofint", SF64, t)
	case fs == SInt && ts == SF32:
		return c.UF("f32.ofint", SF32, t)
	case fs == SF32 && ts == SF64:
		return c.UF("f64.of32", SF64, t)
	case fs == SF64 && ts == SF32:
		return c.UF("f32.of64", SF32, t)
	case (fs == SF64 || fs == SF32) && ts == SInt:
		n := map[Sort]string{SF32: "f32.to.", SF64: "f64.to."}[fs] + typeKey(to.Underlying())
		lo, hi, _ := intRange(to)
		g.ufRange[n] = [2]*big.Int{lo, hi}
		return c.UF(n, SInt, t)
	case fs == ts:
		return t
	case fs == SInt && ts == SB:
		return c.Fresh("runestr", SB)
	}
	panic(unsup("conversion %s to %s", from, to))
}

func (g *Gen) oneWrap(from, to types.Type) bool {
	fl, fh, ok1 := intRange(from)
	tl, th, ok2 := intRange(to)
	if !ok1 || !ok2 {
		return false
	}
	p := new(big.Int).Add(new(big.Int).Sub(th, tl), big.NewInt(1))
	return new(big.Int).Add(fl, p).Cmp(tl) >= 0 && new(big.Int).Sub(fh, p).Cmp(th) <= 0
}
