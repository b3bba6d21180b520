package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct{ Arr, Off, Len, Cap *Term }
type StructV struct {
	T types.Type
	F []Val
}
type TupleV []Val
type ClosureV struct {
	Fn   *ssa.Function
	Bind []Val
}

// AddrV is the address of a leaf: a field cell, a variable cell or a slice element.
type AddrV struct {
	Key string     // base key of the leaf
	Typ types.Type // leaf type
	Loc *Term
	Idx *Term // non-nil: element of array Loc
}

// IfaceV carries the statically known dynamic value next to the abstract term.
type IfaceV struct {
	T   *Term
	Dyn types.Type
	V   Val
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		s := p.Path()
		s = strings.TrimPrefix(s, "github.com/tokenized/")
		return s
	})
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func intRange(t types.Type) (*big.Int, *big.Int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil, false
	}
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	s := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(pow(n - 1)), new(big.Int).Sub(pow(n-1), big.NewInt(1)), true
	}
	u := func(n uint) (*big.Int, *big.Int, bool) {
		return big.NewInt(0), new(big.Int).Sub(pow(n), big.NewInt(1)), true
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return s(64)
	case types.Int32:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil, false
}

// kind of value representation for a go type
type VK int

const (
	KScalar VK = iota
	KSlice
	KStruct
	KTuple
	KFunc
)

// opaqueNamed lists struct types treated as indivisible values.
var opaqueNamed = map[string]bool{
	"pkg/bitcoin.Key": true, "pkg/bitcoin.PublicKey": true, "pkg/bitcoin.Signature": true,
	"pkg/bitcoin.RawAddress": true, "time.Time": true, "math/big.Int": true, "pkg/bitcoin.Hash20": true,
	"bytes.Buffer": true, "bytes.Reader": true, "channels.Protocols": true, "encoding/binary.littleEndian": true,
	"sync.Mutex": true, "sync.RWMutex": true,
}

func isOpaque(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return opaqueNamed[typeKey(n)]
	}
	return false
}

func kindOf(t types.Type) VK {
	if isOpaque(t) {
		return KScalar
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return KSlice
	case *types.Struct:
		return KStruct
	case *types.Tuple:
		return KTuple
	case *types.Signature:
		return KFunc
	case *types.Array:
		_ = u
		return KScalar
	}
	return KScalar
}

func sortOf(t types.Type) Sort {
	if isOpaque(t) {
		return SU
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SB
		case u.Kind() == types.Float32:
			return SF32
		case u.Info()&types.IsFloat != 0:
			return SF64
		case u.Kind() == types.UntypedNil:
			return SLoc
		case u.Kind() == types.UnsafePointer:
			return SLoc
		}
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return SLoc
	case *types.Array:
		return SU
	}
	panic(unsup("no sort for type %s", t))
}

func structOf(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

// leaf components of a go type: suffix, sort, type, role
type leafComp struct {
	suf  string
	sort Sort
	role string
}

func leafComps(t types.Type) []leafComp {
	if kindOf(t) == KSlice {
		return []leafComp{{".arr", SLoc, "arr"}, {".off", SInt, "off"}, {".len", SInt, "len"}, {".cap", SInt, "cap"}}
	}
	return []leafComp{{"", sortOf(t), ""}}
}

func (v *SliceV) comps() []*Term { return []*Term{v.Arr, v.Off, v.Len, v.Cap} }

func valComps(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return x.comps()
	case *IfaceV:
		return []*Term{x.T}
	}
	panic(unsup("value %T has no leaf components", v))
}

func compsVal(t types.Type, ts []*Term) Val {
	if len(ts) == 4 {
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}
	}
	return ts[0]
}

func (g *Gen) zero(t types.Type) Val {
	c := g.c
	switch kindOf(t) {
	case KSlice:
		return &SliceV{c.NilLoc, c.Zero, c.Zero, c.Zero}
	case KStruct:
		st := structOf(t)
		v := &StructV{T: t}
		for i := 0; i < st.NumFields(); i++ {
			v.F = append(v.F, g.zero(st.Field(i).Type()))
		}
		return v
	case KFunc:
		return c.NilLoc
	}
	switch sortOf(t) {
	case SInt:
		return c.Zero
	case SBool:
		return c.False
	case SLoc:
		return c.NilLoc
	case SB:
		return c.EmptyB
	case SF32:
		return c.Var("f32$0", SF32)
	case SF64:
		return c.Var("f64$0", SF64)
	}
	return c.Var("zero$"+sanitize(g.zeroName(t)), SU)
}

func (g *Gen) zeroName(t types.Type) string {
	if a, ok := t.Underlying().(*types.Array); ok {
		e := typeKey(a.Elem())
		if e == "byte" {
			e = "uint8"
		}
		return fmt.Sprintf("arr%d.%s", a.Len(), e)
	}
	return typeKey(t)
}

// freshVal makes an unconstrained value of type t (with its type invariants assumed).
func (g *Gen) freshVal(t types.Type, name string, alloc *Term) Val {
	c := g.c
	switch kindOf(t) {
	case KSlice:
		s := &SliceV{c.Fresh(name+".arr", SLoc), c.Fresh(name+".off", SInt), c.Fresh(name+".len", SInt), c.Fresh(name+".cap", SInt)}
		g.wfSlice(s, alloc)
		return s
	case KStruct:
		st := structOf(t)
		v := &StructV{T: t}
		for i := 0; i < st.NumFields(); i++ {
			v.F = append(v.F, g.freshVal(st.Field(i).Type(), name+"."+st.Field(i).Name(), alloc))
		}
		return v
	case KTuple:
		tt := t.(*types.Tuple)
		var v TupleV
		for i := 0; i < tt.Len(); i++ {
			v = append(v, g.freshVal(tt.At(i).Type(), fmt.Sprintf("%s.%d", name, i), alloc))
		}
		return v
	case KFunc:
		x := c.Fresh(name, SLoc)
		return x
	}
	x := c.Fresh(name, sortOf(t))
	if x.Sort == SInt {
		if lo, hi, ok := intRange(t); ok {
			g.axiom(c.And(c.Le(c.Big(lo), x), c.Le(x, c.Big(hi))))
			g.vrange[x] = [2]*big.Int{lo, hi}
			if lo.Sign() >= 0 {
				g.h.nonneg[x] = true
			}
		}
	}
	if x.Sort == SLoc && alloc != nil {
		c.locB[x] = alloc
		g.axiom(c.Lt(g.rid(x), alloc))
	}
	return x
}

const maxLen = int64(1) << 46

func (g *Gen) wfSlice(s *SliceV, alloc *Term) {
	c := g.c
	for _, x := range []*Term{s.Off, s.Len, s.Cap} {
		if x.Op == OVar {
			g.h.nonneg[x] = true
			g.vrange[x] = [2]*big.Int{big.NewInt(0), big.NewInt(maxLen)}
		}
	}
	g.axiom(c.And(c.Le(c.Zero, s.Off), c.Le(c.Zero, s.Len), c.Le(s.Len, s.Cap), c.Le(c.Add(s.Off, s.Cap), c.Int(maxLen))))
	g.axiom(c.Implies(c.Eq(s.Arr, c.NilLoc), c.And(c.Eq(s.Off, c.Zero), c.Eq(s.Cap, c.Zero))))
	if alloc != nil && s.Arr.Op == OVar {
		c.locB[s.Arr] = alloc
		g.axiom(c.Lt(g.rid(s.Arr), alloc))
	}
}

func (g *Gen) rid(l *Term) *Term {
	c := g.c
	switch locCtor(l) {
	case "root":
		return l.Args[0]
	case "fld", "elt", "ifc":
		return g.rid(l.Args[0])
	case "nil":
		return c.Int(-1)
	}
	if l.Op == OIte {
		return c.Ite(l.Args[0], g.rid(l.Args[1]), g.rid(l.Args[2]))
	}
	return c.UF("rid", SInt, l)
}

func (g *Gen) iteVal(cond *Term, a, b Val) Val {
	c := g.c
	if cond == c.True {
		return a
	}
	if cond == c.False {
		return b
	}
	if a == nil || b == nil {
		if a == nil {
			return b
		}
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*IfaceV); ok {
			return c.Ite(cond, x, y.T)
		}
		y, ok := b.(*Term)
		if !ok {
			panic(unsup("merge of %T and %T", a, b))
		}
		return c.Ite(cond, x, y)
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.T == y.T {
				return x
			}
			if x.Dyn != nil && y.Dyn != nil && types.Identical(x.Dyn, y.Dyn) {
				return &IfaceV{c.Ite(cond, x.T, y.T), x.Dyn, g.iteVal(cond, x.V, y.V)}
			}
			return c.Ite(cond, x.T, y.T)
		}
		return c.Ite(cond, x.T, b.(*Term))
	case *SliceV:
		y := b.(*SliceV)
		return &SliceV{c.Ite(cond, x.Arr, y.Arr), c.Ite(cond, x.Off, y.Off), c.Ite(cond, x.Len, y.Len), c.Ite(cond, x.Cap, y.Cap)}
	case *StructV:
		y := b.(*StructV)
		r := &StructV{T: x.T}
		for i := range x.F {
			r.F = append(r.F, g.iteVal(cond, x.F[i], y.F[i]))
		}
		return r
	case TupleV:
		y := b.(TupleV)
		var r TupleV
		for i := range x {
			r = append(r, g.iteVal(cond, x[i], y[i]))
		}
		return r
	case *AddrV:
		y, ok := b.(*AddrV)
		if ok && y.Key == x.Key && (x.Idx == nil) == (y.Idx == nil) {
			r := &AddrV{Key: x.Key, Typ: x.Typ, Loc: c.Ite(cond, x.Loc, y.Loc)}
			if x.Idx != nil {
				r.Idx = c.Ite(cond, x.Idx, y.Idx)
			}
			return r
		}
	case *ClosureV:
		y, ok := b.(*ClosureV)
		if ok && y.Fn == x.Fn {
			r := &ClosureV{Fn: x.Fn}
			for i := range x.Bind {
				r.Bind = append(r.Bind, g.iteVal(cond, x.Bind[i], y.Bind[i]))
			}
			return r
		}
	}
	panic(unsup("merge of %T and %T", a, b))
}

func scalar(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *IfaceV:
		return x.T
	}
	panic(unsup("expected scalar value, got %T", v))
}
