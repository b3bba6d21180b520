package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func shortName(s string) string { return strings.ReplaceAll(s, "github.com/tokenized/", "") }

func (g *Gen) call(f *Frame, st *State, x *ssa.Call) Val {
	com := x.Common()
	var args []Val
	for _, a := range com.Args {
		args = append(args, g.val(f, a))
	}
	if com.IsInvoke() {
		recv := g.val(f, com.Value)
		t := scalar(recv)
		g.safe(st, "nil interface method call", g.c.Not(g.c.Eq(t, g.c.NilLoc)), x.Pos())
		if iv, ok := recv.(*IfaceV); ok && iv.Dyn != nil {
			if fn := g.w.prog.LookupMethod(iv.Dyn, com.Method.Pkg(), com.Method.Name()); fn != nil {
				return g.callFn(f, st, fn, append([]Val{iv.V}, args...), x)
			}
		}
		it := com.Value.Type()
		name := "(" + shortName(types.TypeString(it, nil)) + ")." + com.Method.Name()
		if h, ok := intrinsics[name]; ok {
			return h(g, f, st, append([]Val{recv}, args...), x)
		}
		if con := g.w.contracts[name]; con != nil {
			sig := com.Method.Type().(*types.Signature)
			ts := []types.Type{it}
			for i := 0; i < sig.Params().Len(); i++ {
				ts = append(ts, sig.Params().At(i).Type())
			}
			return g.applyContract(st, con, name, append([]Val{recv}, args...), ts, sig.Results(), x.Pos())
		}
		panic(unsup("no contract for interface method %s", name))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return g.builtin(f, st, b.Name(), args, x)
	}
	if fn := com.StaticCallee(); fn != nil {
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			return g.callClosure(f, st, f.vals[mc].(*ClosureV), args, x)
		}
		return g.callFn(f, st, fn, args, x)
	}
	if cv, ok := g.val(f, com.Value).(*ClosureV); ok {
		return g.callClosure(f, st, cv, args, x)
	}
	panic(unsup("call of an unknown function value"))
}

func (g *Gen) callClosure(f *Frame, st *State, cv *ClosureV, args []Val, x *ssa.Call) Val {
	if len(cv.Bind) == 0 {
		return g.callFn(f, st, cv.Fn, args, x)
	}
	return g.inline(f, st, cv.Fn, args, cv.Bind)
}

func tupleTypes(t *types.Tuple) []types.Type {
	var r []types.Type
	for i := 0; i < t.Len(); i++ {
		r = append(r, t.At(i).Type())
	}
	return r
}

func (g *Gen) callFn(f *Frame, st *State, fn *ssa.Function, args []Val, x *ssa.Call) Val {
	name := shortName(fn.String())
	if h, ok := intrinsics[name]; ok {
		return h(g, f, st, args, x)
	}
	if con := g.w.contracts[name]; con != nil && g.usable(con, fn) {
		return g.applyContract(st, con, name, args, paramTypes(fn), fn.Signature.Results(), x.Pos())
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks != nil && g.w.inlinable(fn) {
		return g.inline(f, st, fn, args, nil)
	}
	if g.w.pureStd(fn) {
		return g.havocResult(st, fn.Signature.Results(), name)
	}
	panic(unsup("no contract for %s", name))
}

// paramTypes: receiver and parameters, also for functions whose body is not built.
func paramTypes(fn *ssa.Function) []types.Type {
	var ts []types.Type
	if len(fn.Params) > 0 {
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		return ts
	}
	if r := fn.Signature.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	return append(ts, tupleTypes(fn.Signature.Params())...)
}

// usable: a contract whose parameter list no longer fits the function is ignored.
func (g *Gen) usable(con *Contract, fn *ssa.Function) bool {
	if len(con.Params) != len(paramTypes(fn)) || (len(con.Results) != 0 && len(con.Results) != fn.Signature.Results().Len()) {
		return false
	}
	if con.InlineFor[g.prop] {
		return false
	}
	return !con.Broken
}

func (g *Gen) havocResult(st *State, res *types.Tuple, name string) Val {
	a := st.alloc
	st.alloc = g.freshAlloc(a)
	g.markAlloc()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return g.freshVal(res.At(0).Type(), "r$"+name, st.alloc)
	}
	return g.freshVal(res, "r$"+name, st.alloc)
}

func (g *Gen) markAlloc() {
	if g.dry > 0 {
		g.dryAlloc = true
	}
}

func (g *Gen) inline(f *Frame, st *State, fn *ssa.Function, args, bind []Val) Val {
	for _, s := range g.stack {
		if s == fn {
			panic(unsup("recursive call of %s without a contract", fn))
		}
	}
	if len(g.stack) > 14 {
		panic(unsup("inlining too deep at %s", fn))
	}
	if fn.Blocks == nil {
		panic(unsup("no body for %s", fn))
	}
	if g.dry == 0 {
		g.inlined[shortName(fn.String())] = true
	}
	g.stack = append(g.stack, fn)
	defer func() { g.stack = g.stack[:len(g.stack)-1] }()
	nf := &Frame{fn: fn, vals: map[ssa.Value]Val{}, caller: f}
	for i, p := range fn.Params {
		nf.vals[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.vals[p] = bind[i]
	}
	exits := g.run(nf, st.clone())
	return g.mergeExits(st, exits, fn.Signature.Results())
}

func (g *Gen) mergeExits(st *State, exits []exit, rt *types.Tuple) Val {
	if len(exits) == 0 {
		// never returns normally
		st.guard = g.c.False
		switch rt.Len() {
		case 0:
			return nil
		case 1:
			return g.zero(rt.At(0).Type())
		}
		var tv TupleV
		for i := 0; i < rt.Len(); i++ {
			tv = append(tv, g.zero(rt.At(i).Type()))
		}
		return tv
	}
	cur := exits[0].st
	res := exits[0].res
	for _, e := range exits[1:] {
		cond := g.choice(e.st.guard, cur.guard)
		nres := make([]Val, len(res))
		for i := range res {
			nres[i] = g.iteVal(cond, e.res[i], res[i])
		}
		cur = g.merge(cond, e.st, cur)
		res = nres
	}
	*st = *cur
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return TupleV(res)
}

// ---- builtins ----

func (g *Gen) builtin(f *Frame, st *State, name string, args []Val, x *ssa.Call) Val {
	c := g.c
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return v.Len
		case *Term:
			if v.Sort == SB {
				return c.BLen(v)
			}
			if at, ok := x.Common().Args[0].Type().Underlying().(*types.Array); ok {
				return c.Int(at.Len())
			}
		}
	case "cap":
		return args[0].(*SliceV).Cap
	case "append":
		return g.appendTo(st, args[0].(*SliceV), args[1], x.Common().Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		return g.copyTo(st, args[0].(*SliceV), args[1], x.Common().Args[0].Type().Underlying().(*types.Slice).Elem())
	case "min", "max":
		r := scalar(args[0])
		for _, a := range args[1:] {
			y := scalar(a)
			if name == "min" {
				r = c.Ite(c.Le(r, y), r, y)
			} else {
				r = c.Ite(c.Le(r, y), y, r)
			}
		}
		return r
	case "ssa:wrapnilchk":
		g.nonNil(st, args[0], "receiver", x.Pos())
		return args[0]
	case "print", "println":
		return nil
	}
	panic(unsup("builtin %s", name))
}

func (g *Gen) appendTo(st *State, s *SliceV, tv Val, et types.Type) Val {
	c := g.c
	if kindOf(et) == KStruct {
		panic(unsup("append to a slice of structs (%s)", et))
	}
	var n *Term
	var t *SliceV
	var str *Term
	switch v := tv.(type) {
	case *SliceV:
		t, n = v, v.Len
	case *Term:
		if v == c.NilLoc {
			return s
		}
		str, n = v, c.BLen(v)
	}
	if n.isConst() && n.C.Sign() == 0 {
		return s
	}
	newLen := c.Add(s.Len, n)
	g.assume(st, c.Le(newLen, c.Int(maxLen)))
	fits := c.Le(newLen, s.Cap)
	r := g.newLoc(st)
	ncap := c.Fresh("cap", SInt)
	g.h.nonneg[ncap] = true
	g.axiom(c.And(c.Le(c.Zero, ncap), c.Implies(c.Not(fits), c.And(c.Le(newLen, ncap))), c.Le(ncap, c.Int(maxLen))))
	base := elemKeyOf(et)
	for _, lc := range leafComps(et) {
		k := g.keyInfo(base+lc.suf, true, lc.sort, et, lc.role)
		m := g.get(st, k)
		old := g.h.Sel(m, s.Arr)
		var src *ANode
		soff := c.Zero
		if t != nil {
			src, soff = g.h.Sel(m, t.Arr), t.Off
		} else {
			src = g.h.AStr(k, str)
		}
		var zero *Term
		if lc.role != "" {
			zero = map[Sort]*Term{SLoc: c.NilLoc, SInt: c.Zero}[lc.sort]
		} else {
			zero = scalar(g.zero(et))
		}
		if fits != c.True {
			nw := g.h.ASplice(g.h.AConst(k, zero), c.Zero, s.Len, old, s.Off)
			nw = g.splice1(nw, s.Len, newLen, src, soff)
			m = g.h.StoreArr(m, r, nw)
		}
		if fits != c.False {
			lo := c.Add(s.Off, s.Len)
			up := g.splice1(old, lo, c.Add(lo, n), src, soff)
			m = g.h.StoreArr(m, s.Arr, g.h.AIte(fits, up, old))
		}
		g.set(st, k, m, s.Arr)
	}
	return &SliceV{c.Ite(fits, s.Arr, r), c.Ite(fits, s.Off, c.Zero), newLen, c.Ite(fits, s.Cap, ncap)}
}

// splice1 writes [lo,hi) from src; a single element becomes a plain store.
func (g *Gen) splice1(dst *ANode, lo, hi *Term, src *ANode, soff *Term) *ANode {
	if g.c.AddK(lo, 1) == hi {
		return g.h.AStore(dst, lo, g.h.ReadA(src, soff))
	}
	return g.h.ASplice(dst, lo, hi, src, soff)
}

func (g *Gen) copyTo(st *State, d *SliceV, tv Val, et types.Type) Val {
	c := g.c
	if kindOf(et) == KStruct {
		panic(unsup("copy of a slice of structs (%s)", et))
	}
	var n *Term
	var t *SliceV
	var str *Term
	switch v := tv.(type) {
	case *SliceV:
		t, n = v, v.Len
	case *Term:
		str, n = v, c.BLen(v)
	}
	if n != d.Len {
		n = c.Ite(c.Le(n, d.Len), n, d.Len)
	}
	base := elemKeyOf(et)
	for _, lc := range leafComps(et) {
		k := g.keyInfo(base+lc.suf, true, lc.sort, et, lc.role)
		m := g.get(st, k)
		old := g.h.Sel(m, d.Arr)
		var src *ANode
		soff := c.Zero
		if t != nil {
			src, soff = g.h.Sel(m, t.Arr), t.Off
		} else {
			src = g.h.AStr(k, str)
		}
		g.set(st, k, g.h.StoreArr(m, d.Arr, g.h.ASplice(old, d.Off, c.Add(d.Off, n), src, soff)), d.Arr)
	}
	return n
}

// ---- contract application ----

func (g *Gen) applyContract(st *State, con *Contract, name string, args []Val, ts []types.Type, res *types.Tuple, pos token.Pos) Val {
	c := g.c
	if g.dry == 0 {
		if con.Trusted {
			g.trusted[name] = true
		} else {
			g.used[name] = true
		}
	}
	pre := st.clone()
	env := g.newEnv(con, pre, pre)
	for i, p := range con.Params {
		env.vars[p] = TV{args[i], ts[i]}
	}
	if g.dry == 0 {
		for _, cl := range con.Requires {
			if !g.clauseOn(cl) {
				continue
			}
			t := g.evalBool(env, cl.Expr)
			g.oblig(st, "pre", name+": "+cl.Name(), cl.Tags, t, pos, "precondition of "+name+": "+cl.Src)
			g.assume(st, t)
		}
	}
	// frame
	mods := g.evalMods(env, con)
	for _, m := range mods {
		n := g.get(st, m.key)
		switch {
		case m.all:
			g.set(st, m.key, g.h.Base(m.key, "C", nil), c.Fresh("anyl", SLoc))
		case m.set != nil:
			if m.key.Elem {
				panic(unsup("each over element memory"))
			}
			nb := g.h.Base(m.key, "C", nil)
			l := c.BVar("l#", SLoc)
			g.axiom(c.Forall([]*Term{l}, c.Implies(c.Not(g.member(m.set, l)), c.Eq(g.h.Read(nb, l), g.h.Read(n, l)))))
			g.set(st, m.key, nb, g.c.Subst(m.set.loc, map[*Term]*Term{m.set.bv: c.Fresh("anyk", SInt)}))
		case m.key.Elem:
			// a nil slice has no elements to change
			a := g.h.AIte(c.Eq(m.loc, c.NilLoc), g.h.Sel(n, m.loc), g.h.AFresh(m.key))
			g.set(st, m.key, g.h.StoreArr(n, m.loc, a), m.loc)
		default:
			v := g.freshLeaf(m.key, con.Short()+"$"+m.key.Key)
			g.set(st, m.key, g.h.Store(n, m.loc, v), m.loc)
		}
	}
	if !con.Pure {
		st.alloc = g.freshAlloc(pre.alloc)
		g.markAlloc()
	}
	for _, m := range mods {
		if m.set != nil || m.all {
			if n := st.heap[m.key.Key]; n.kind == HBase {
				n.sym.Alloc = st.alloc
			}
			continue
		}
		if m.key.Sort == SLoc && !m.key.Elem {
			v := g.h.Read(st.heap[m.key.Key], m.loc)
			if v.Op == OVar {
				c.locB[v] = st.alloc
				g.axiom(c.Lt(g.rid(v), st.alloc))
			}
		}
		if m.key.Role == "arr" && !m.key.Elem {
			b := strings.TrimSuffix(m.key.Key, ".arr")
			rd := func(suf string) *Term { return g.h.Read(g.get(st, g.keys[b+suf]), m.loc) }
			g.wfSlice(&SliceV{rd(".arr"), rd(".off"), rd(".len"), rd(".cap")}, st.alloc)
		}
	}
	post := st
	env2 := g.newEnv(con, post, pre)
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	var out []Val
	for i := 0; i < res.Len(); i++ {
		rn := fmt.Sprintf("r%d", i)
		if i < len(con.Results) {
			rn = con.Results[i]
		}
		var v Val
		rt := res.At(i).Type()
		v = g.freshVal(rt, con.Short()+"."+rn, st.alloc)
		out = append(out, v)
		env2.vars[rn] = TV{v, rt}
	}
	for _, ef := range con.Effects {
		if !g.clauseOn(ef.Clause) {
			continue
		}
		g.applyEffect(env2, post, ef)
	}
	if g.dry == 0 {
		for _, cl := range con.Ensures {
			if cl.Lemma {
				continue
			}
			if !g.clauseOn(cl) {
				continue
			}
			g.assume(st, g.evalBool(env2, cl.Expr))
		}
	}
	switch len(out) {
	case 0:
		return nil
	case 1:
		return out[0]
	}
	return TupleV(out)
}

func (g *Gen) freshLeaf(k *KeyInfo, name string) *Term {
	v := g.c.Fresh(name, k.Sort)
	if k.Sort == SInt {
		if k.Typ != nil {
			if lo, hi, ok := intRange(k.Typ); ok {
				g.axiom(g.c.And(g.c.Le(g.c.Big(lo), v), g.c.Le(v, g.c.Big(hi))))
				g.vrange[v] = [2]*bigI{lo, hi}
				if lo.Sign() >= 0 {
					g.h.nonneg[v] = true
				}
			}
		} else if k.Role == "len" || k.Role == "off" || k.Role == "cap" {
			g.h.nonneg[v] = true
			g.axiom(g.c.And(g.c.Le(g.c.Zero, v), g.c.Le(v, g.c.Int(maxLen))))
		}
	}
	return v
}

func (g *Gen) clauseOn(cl *Clause) bool {
	if len(cl.Tags) == 0 || g.prop == "" {
		return true
	}
	for _, t := range cl.Tags {
		if t == g.prop {
			return true
		}
	}
	return false
}

// ---- intrinsics ----

type intrinsic func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val

var intrinsics map[string]intrinsic

func (g *Gen) freshError(st *State, cause *Term) *Term {
	l := g.c.UF("ifc", SLoc, g.newLoc(st), g.c.Int(int64(g.w.errTypeID())))
	if cause == nil {
		cause = l
	}
	g.assume(st, g.c.Eq(g.ecause(l), cause))
	return l
}

func (g *Gen) ecause(l *Term) *Term {
	if locCtor(l) == "glob" || locCtor(l) == "nil" {
		return l
	}
	if l.Op == OIte {
		return g.c.Ite(l.Args[0], g.ecause(l.Args[1]), g.ecause(l.Args[2]))
	}
	return g.c.UF("ecause", SLoc, l)
}

func (g *Gen) contentLoc(v Val) *Term {
	t := scalar(v)
	if iv, ok := v.(*IfaceV); ok {
		return g.iptr(iv.T)
	}
	return t
}

func (g *Gen) le(v *Term, width int64) *Term {
	return g.c.UF("le", SB, v, g.c.Int(width))
}

func (g *Gen) writeContent(st *State, loc *Term, b *Term) {
	k := g.ghostKey("content", SB)
	n := g.get(st, k)
	g.set(st, k, g.h.Store(n, loc, g.c.Cat(g.h.Read(n, loc), b)), loc)
}

func init() {
	errNew := func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val { return g.freshError(st, nil) }
	wrap := func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
		e := scalar(args[0])
		r := g.freshError(st, g.ecause(e))
		return g.c.Ite(g.c.Eq(e, g.c.NilLoc), g.c.NilLoc, r)
	}
	pureFresh := func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
		if x.Type() == nil {
			return nil
		}
		if t, ok := x.Type().(*types.Tuple); ok && t.Len() == 0 {
			return nil
		}
		st.alloc = g.freshAlloc(st.alloc)
		g.markAlloc()
		return g.freshVal(x.Type(), "pure", st.alloc)
	}
	intrinsics = map[string]intrinsic{
		"github.com/pkg/errors.New":         errNew,
		"github.com/pkg/errors.Errorf":      errNew,
		"errors.New":                        errNew,
		"fmt.Errorf":                        errNew,
		"github.com/pkg/errors.Wrap":        wrap,
		"github.com/pkg/errors.Wrapf":       wrap,
		"github.com/pkg/errors.WithMessage": wrap,
		"github.com/pkg/errors.WithStack":   wrap,
		"github.com/pkg/errors.Cause": func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
			return g.ecause(scalar(args[0]))
		},
		"fmt.Sprintf": pureFresh, "fmt.Sprint": pureFresh, "fmt.Sprintln": pureFresh,
		"math.Ceil": func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
			return g.c.UF("f64.ceil", SF64, scalar(args[0]))
		},
		"math.Floor": func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
			return g.c.UF("f64.floor", SF64, scalar(args[0]))
		},
		"bytes.Equal": func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
			return g.c.Eq(g.bytesOf(st, args[0].(*SliceV)), g.bytesOf(st, args[1].(*SliceV)))
		},
		"math/rand.Seed":       func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val { return nil },
		"time.Now":             pureFresh,
		"(time.Time).UnixNano": pureFresh,
		"math/rand.Intn":       randN,
		"math/rand.Int63n":     randN,
		"math/rand.Int31n":     randN,
		"math/rand.Shuffle":    shuffle,
		"math/rand.Perm":       nil,
		"encoding/binary.Write": func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
			iv, ok := args[2].(*IfaceV)
			if !ok || iv.Dyn == nil {
				panic(unsup("binary.Write of unknown dynamic type"))
			}
			if oi, ok := args[1].(*IfaceV); !ok || typeKey(oi.Dyn) != "encoding/binary.littleEndian" {
				panic(unsup("binary.Write byte order"))
			}
			lo, hi, ok := intRange(iv.Dyn)
			if !ok {
				panic(unsup("binary.Write of %s", iv.Dyn))
			}
			v := scalar(iv.V)
			width := int64((new(bigI).Sub(hi, lo).BitLen() + 7) / 8)
			if lo.Sign() < 0 {
				v = g.c.Mod(v, g.c.Big(new(bigI).Lsh(bigOne, uint(8*width))))
			}
			g.writeContent(st, g.iptr(scalar(args[0])), g.le(v, width))
			return g.freshVal(x.Type(), "werr", st.alloc)
		},
		"crypto/sha256.New": func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
			l := g.newLoc(st)
			k := g.ghostKey("content", SB)
			g.set(st, k, g.h.Store(g.get(st, k), l, g.c.EmptyB), l)
			return g.c.UF("ifc", SLoc, l, g.c.Int(int64(g.w.typeIDName("crypto/sha256.digest"))))
		},
		"crypto/sha256.Sum256": func(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
			return g.c.UF("sha256", SU, g.bytesOf(st, args[0].(*SliceV)))
		},
	}
	delete(intrinsics, "math/rand.Perm")
}

func randN(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
	n := scalar(args[0])
	g.safe(st, "argument of "+x.Common().StaticCallee().Name()+" is positive", g.c.Lt(g.c.Zero, n), x.Pos())
	r := g.freshVal(x.Type(), "rand", nil).(*Term)
	g.assume(st, g.c.And(g.c.Le(g.c.Zero, r), g.c.Lt(r, n)))
	return r
}

// shuffle: rand.Shuffle(n, swap) calls swap(i,j) some number of times with
// 0 <= i,j < n; modelled as a loop of arbitrary length over arbitrary i, j.
func shuffle(g *Gen, f *Frame, st *State, args []Val, x *ssa.Call) Val {
	n := scalar(args[0])
	cv, ok := args[1].(*ClosureV)
	if !ok {
		panic(unsup("rand.Shuffle with an unknown function"))
	}
	g.safe(st, "argument of Shuffle is not negative", g.c.Le(g.c.Zero, n), x.Pos())
	body := func(s *State) *State {
		i := g.freshVal(types.Typ[types.Int], "shi", nil).(*Term)
		j := g.freshVal(types.Typ[types.Int], "shj", nil).(*Term)
		b := s.clone()
		g.assume(b, g.c.And(g.c.Le(g.c.Zero, i), g.c.Lt(i, n), g.c.Le(g.c.Zero, j), g.c.Lt(j, n)))
		g.inline(f, b, cv.Fn, []Val{i, j}, cv.Bind)
		return b
	}
	al := g.syntheticLoop(f, st, body, x.Pos())
	*st = *al
	return nil
}
