package main

// Hash-consed terms with a light simplifier. Integer sums are kept in a linear
// normal form so that index arithmetic compares syntactically.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SLoc  Sort = "Loc"
	SU    Sort = "U"
	SB    Sort = "BStr"
	SF32  Sort = "F32"
	SF64  Sort = "F64"
)

type Op int

const (
	OConst Op = iota // integer constant
	OTrue
	OFalse
	OVar  // free constant symbol (Name)
	OBVar // bound variable (Name)
	OUF   // uninterpreted function application (Name, Args)
	OLin  // linear sum: Coef[i]*Args[i] + C
	OMul  // nonlinear product of two atoms
	ODiv  // euclidean div by Args[1]
	OMod
	OIte
	OEq  // equality of two same-sort terms (non-Int) or lin = 0 (Args[0])
	OLe0 // Args[0] <= 0
	OAnd
	OOr
	ONot
	OForall // Bound vars BV, body Args[0]
	OSum    // sum over BV[0] in [0,Args[1]) of Args[0]; Name = kind
	OCat    // byte string concatenation, flattened
	ODist   // BV[0]; Args[0] range, rest a tuple: the tuple is injective on the range
	OFold   // concatenation over BV[0] in [0,Args[1]) of Args[0]
)

type Term struct {
	ID   int
	Op   Op
	Sort Sort
	Name string
	Args []*Term
	Coef []*big.Int
	C    *big.Int
	BV   []*Term
	// set of free bound variables (ids), nil if closed
	fbv map[*Term]bool
}

type Ctx struct {
	tab                    map[string]*Term
	n                      int
	fresh                  map[string]int
	heapSym                map[string]*HeapSym // heap base function symbols by name
	locB                   map[*Term]*Term     // loc var -> alloc bound
	allocLo                map[*Term][]*Term   // alloc var -> known lower bounds
	ufSort                 map[string]*UFDecl
	substM                 map[string]*Term
	True, False, Zero, One *Term
	NilLoc                 *Term
	EmptyB                 *Term
	eqMemo                 map[[2]int]*Term
}

type UFDecl struct {
	Args []Sort
	Res  Sort
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, heapSym: map[string]*HeapSym{},
		locB: map[*Term]*Term{}, allocLo: map[*Term][]*Term{}, ufSort: map[string]*UFDecl{}, eqMemo: map[[2]int]*Term{}}
	c.True = c.mk(&Term{Op: OTrue, Sort: SBool})
	c.False = c.mk(&Term{Op: OFalse, Sort: SBool})
	c.Zero = c.Int(0)
	c.One = c.Int(1)
	c.NilLoc = c.Var("nilloc", SLoc)
	c.EmptyB = c.Var("bempty", SB)
	return c
}

func (c *Ctx) key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s", t.Op, t.Sort, t.Name)
	for i, a := range t.Args {
		if t.Coef != nil {
			fmt.Fprintf(&b, "|%s*%d", t.Coef[i].String(), a.ID)
		} else {
			fmt.Fprintf(&b, "|%d", a.ID)
		}
	}
	if t.C != nil {
		fmt.Fprintf(&b, "|c%s", t.C.String())
	}
	for _, v := range t.BV {
		fmt.Fprintf(&b, "|b%d", v.ID)
	}
	return b.String()
}

func (c *Ctx) mk(t *Term) *Term {
	k := c.key(t)
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.n++
	t.ID = c.n
	for _, a := range t.Args {
		for v := range a.fbv {
			if t.fbv == nil {
				t.fbv = map[*Term]bool{}
			}
			t.fbv[v] = true
		}
	}
	if t.Op == OForall || t.Op == OSum || t.Op == OFold || t.Op == ODist {
		if t.fbv != nil {
			m := map[*Term]bool{}
			for v := range t.fbv {
				m[v] = true
			}
			for _, v := range t.BV {
				delete(m, v)
			}
			// the upper bound of a sum must not lose its free variables
			if t.Op == OSum || t.Op == OFold {
				for v := range t.Args[1].fbv {
					m[v] = true
				}
			}
			if len(m) == 0 {
				m = nil
			}
			t.fbv = m
		}
	}
	if t.Op == OBVar {
		t.fbv = map[*Term]bool{t: true}
	}
	c.tab[k] = t
	return t
}

func (t *Term) closed() bool { return len(t.fbv) == 0 }

func (c *Ctx) Int(v int64) *Term { return c.Big(big.NewInt(v)) }
func (c *Ctx) Big(v *big.Int) *Term {
	return c.mk(&Term{Op: OConst, Sort: SInt, C: new(big.Int).Set(v)})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(&Term{Op: OVar, Sort: s, Name: name}) }
func (c *Ctx) BVar(name string, s Sort) *Term {
	return c.mk(&Term{Op: OBVar, Sort: s, Name: name})
}
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), s)
}
func (c *Ctx) FreshName(prefix string) string {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	return fmt.Sprintf("%s!%d", prefix, c.fresh[prefix])
}
func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '@' || r == '!' {
			return r
		}
		return '_'
	}, s)
}

func (c *Ctx) UF(name string, res Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, res)
	}
	d, ok := c.ufSort[name]
	if !ok {
		d = &UFDecl{Res: res}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		c.ufSort[name] = d
	} else {
		if len(d.Args) != len(args) || d.Res != res {
			panic(unsup("inconsistent use of symbol %s", name))
		}
		for i := range args {
			if args[i].Sort != d.Args[i] {
				panic(unsup("sort mismatch for %s arg %d: %s vs %s", name, i, args[i].Sort, d.Args[i]))
			}
		}
	}
	return c.mk(&Term{Op: OUF, Sort: res, Name: name, Args: args})
}

type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return u.Msg }
func unsup(f string, a ...interface{}) Unsupported {
	return Unsupported{fmt.Sprintf(f, a...)}
}

// ---- integers ----

func (t *Term) isConst() bool { return t.Op == OConst }

type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func (c *Ctx) toLin(t *Term) lin {
	switch t.Op {
	case OConst:
		return lin{map[*Term]*big.Int{}, t.C}
	case OLin:
		m := map[*Term]*big.Int{}
		for i, a := range t.Args {
			m[a] = t.Coef[i]
		}
		return lin{m, t.C}
	}
	return lin{map[*Term]*big.Int{t: big.NewInt(1)}, big.NewInt(0)}
}

func (c *Ctx) fromLin(l lin) *Term {
	var as []*Term
	for a, k := range l.m {
		if k.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return c.Big(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && l.c.Sign() == 0 && l.m[as[0]].Cmp(big.NewInt(1)) == 0 {
		return as[0]
	}
	t := &Term{Op: OLin, Sort: SInt, C: new(big.Int).Set(l.c)}
	for _, a := range as {
		t.Args = append(t.Args, a)
		t.Coef = append(t.Coef, new(big.Int).Set(l.m[a]))
	}
	return c.mk(t)
}

func (c *Ctx) linComb(a *Term, ka int64, b *Term, kb int64) *Term {
	if a.Sort != SInt || b.Sort != SInt {
		panic(unsup("non-integer operand of arithmetic (%s,%s)", a.Sort, b.Sort))
	}
	la, lb := c.toLin(a), c.toLin(b)
	m := map[*Term]*big.Int{}
	A, B := big.NewInt(ka), big.NewInt(kb)
	for x, k := range la.m {
		m[x] = new(big.Int).Mul(k, A)
	}
	for x, k := range lb.m {
		v := new(big.Int).Mul(k, B)
		if o, ok := m[x]; ok {
			v.Add(v, o)
		}
		m[x] = v
	}
	cc := new(big.Int).Mul(la.c, A)
	cc.Add(cc, new(big.Int).Mul(lb.c, B))
	return c.fromLin(lin{m, cc})
}

func (c *Ctx) Add(a, b *Term) *Term        { return c.linComb(a, 1, b, 1) }
func (c *Ctx) Sub(a, b *Term) *Term        { return c.linComb(a, 1, b, -1) }
func (c *Ctx) AddK(a *Term, k int64) *Term { return c.Add(a, c.Int(k)) }
func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	la := c.toLin(a)
	m := map[*Term]*big.Int{}
	for x, kk := range la.m {
		m[x] = new(big.Int).Mul(kk, k)
	}
	return c.fromLin(lin{m, new(big.Int).Mul(la.c, k)})
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulK(b, a.C)
	}
	if b.isConst() {
		return c.MulK(a, b.C)
	}
	// push a product with a small ite of constants
	if a.Op == OIte && a.Args[1].isConst() && a.Args[2].isConst() {
		return c.Ite(a.Args[0], c.Mul(a.Args[1], b), c.Mul(a.Args[2], b))
	}
	if b.Op == OIte && b.Args[1].isConst() && b.Args[2].isConst() {
		return c.Mul(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OMul, Sort: SInt, Args: []*Term{a, b}})
}

// Div and Mod are Euclidean (SMT-LIB) operations.
func (c *Ctx) Div(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.C.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.C, b.C, new(big.Int))
		return c.Big(q)
	}
	if b.isConst() && b.C.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return c.mk(&Term{Op: ODiv, Sort: SInt, Args: []*Term{a, b}})
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.C.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.C, b.C, new(big.Int))
		return c.Big(m)
	}
	return c.mk(&Term{Op: OMod, Sort: SInt, Args: []*Term{a, b}})
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(a, b)
	if d.isConst() {
		return c.Bool(d.C.Sign() <= 0)
	}
	return c.mk(&Term{Op: OLe0, Sort: SBool, Args: []*Term{d}})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.AddK(a, 1), b) }

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.Args[0]
	case OLe0: // not (x<=0) == 1-x <= 0
		return c.mk(&Term{Op: OLe0, Sort: SBool, Args: []*Term{c.Sub(c.One, a.Args[0])}})
	}
	if a.Sort != SBool {
		panic(unsup("negation of non-boolean"))
	}
	return c.mk(&Term{Op: ONot, Sort: SBool, Args: []*Term{a}})
}

func (c *Ctx) nary(op Op, unit, zero *Term, as []*Term) *Term {
	set := map[*Term]bool{}
	var out []*Term
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x.Sort != SBool {
			panic(unsup("boolean operator on %s", x.Sort))
		}
		if x == unit || set[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, y := range x.Args {
				if !rec(y) {
					return false
				}
			}
			return true
		}
		if set[c.Not(x)] {
			return false
		}
		set[x] = true
		out = append(out, x)
		return true
	}
	for _, a := range as {
		if !rec(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.mk(&Term{Op: op, Sort: SBool, Args: out})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, c.True, c.False, as) }

func conjuncts(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	if t.Op == OTrue {
		return nil
	}
	return []*Term{t}
}

// Or factors out the conjuncts common to all disjuncts, so the guard of a join
// of the two branches of an if collapses to the guard of the if.
func (c *Ctx) Or(as ...*Term) *Term {
	if len(as) == 2 && as[0].Op != OFalse && as[1].Op != OFalse && (as[0].Op == OAnd || as[1].Op == OAnd) {
		a, b := conjuncts(as[0]), conjuncts(as[1])
		in := map[*Term]bool{}
		for _, x := range a {
			in[x] = true
		}
		var com, rb []*Term
		comset := map[*Term]bool{}
		for _, x := range b {
			if in[x] {
				com = append(com, x)
				comset[x] = true
			} else {
				rb = append(rb, x)
			}
		}
		if len(com) > 0 {
			var ra []*Term
			for _, x := range a {
				if !comset[x] {
					ra = append(ra, x)
				}
			}
			com = append(com, c.nary(OOr, c.False, c.True, []*Term{c.And(ra...), c.And(rb...)}))
			return c.And(com...)
		}
	}
	return c.nary(OOr, c.False, c.True, as)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.nary(OOr, c.False, c.True, []*Term{c.Not(a), b}) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if cond.Op == ONot {
		return c.Ite(cond.Args[0], b, a)
	}
	if a.Sort != b.Sort {
		panic(unsup("ite of different sorts %s %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a == c.True {
			return c.nary(OOr, c.False, c.True, []*Term{cond, b})
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.nary(OOr, c.False, c.True, []*Term{c.Not(cond), a})
		}
		if b == c.False {
			return c.And(cond, a)
		}
	}
	if a.Op == OIte && a.Args[0] == cond {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == cond {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Sort == SB && (a.Op == OCat || b.Op == OCat) {
		// keep what both sides start with outside
		pa, pb := a.parts(), b.parts()
		n := 0
		for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
			n++
		}
		if n > 0 {
			rest := c.Ite(cond, c.Cat(pa[n:]...), c.Cat(pb[n:]...))
			return c.Cat(append(append([]*Term{}, pa[:n]...), rest)...)
		}
	}
	return c.mk(&Term{Op: OIte, Sort: a.Sort, Args: []*Term{cond, a, b}})
}

// ---- equality ----

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(unsup("equality of different sorts %s %s (%s, %s)", a.Sort, b.Sort, a, b))
	}
	switch a.Sort {
	case SInt:
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.C.Sign() == 0)
		}
		if d.Op == OLin && d.Coef[0].Sign() < 0 {
			d = c.MulK(d, big.NewInt(-1))
		}
		return c.mk(&Term{Op: OEq, Sort: SBool, Args: []*Term{d}})
	case SBool:
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.False
		}
	case SLoc:
		return c.eqLoc(a, b)
	case SB:
		if isStrLit(a) && isStrLit(b) {
			return c.False
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
}

func isStrLit(t *Term) bool {
	return t.Op == OVar && (strings.HasPrefix(t.Name, "str$") || t.Name == "bempty")
}

func locCtor(t *Term) string {
	if t.Op == OUF {
		switch {
		case t.Name == "root":
			return "root"
		case t.Name == "elt":
			return "elt"
		case t.Name == "ifc":
			return "ifc"
		case strings.HasPrefix(t.Name, "fld$"):
			return "fld"
		}
	}
	if t.Op == OVar {
		if t.Name == "nilloc" {
			return "nil"
		}
		if strings.HasPrefix(t.Name, "glob$") {
			return "glob"
		}
	}
	return ""
}

func (c *Ctx) eqLoc(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	k := [2]int{a.ID, b.ID}
	if r, ok := c.eqMemo[k]; ok {
		return r
	}
	r := c.eqLoc1(a, b)
	c.eqMemo[k] = r
	return r
}

func (c *Ctx) eqLoc1(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	ca, cb := locCtor(a), locCtor(b)
	if ca != "" && cb != "" {
		if ca != cb {
			return c.False
		}
		switch ca {
		case "root":
			return c.Eq(a.Args[0], b.Args[0])
		case "elt":
			return c.And(c.eqLoc(a.Args[0], b.Args[0]), c.Eq(a.Args[1], b.Args[1]))
		case "ifc":
			return c.And(c.eqLoc(a.Args[0], b.Args[0]), c.Eq(a.Args[1], b.Args[1]))
		case "fld":
			if a.Name != b.Name {
				return c.False
			}
			return c.eqLoc(a.Args[0], b.Args[0])
		case "glob", "nil":
			return c.False
		}
	}
	// age: a fresh root differs from anything allocated earlier
	if x := rootOf(a); x != nil {
		if bd := c.locBound(b); bd != nil && c.allocLe(bd, x.Args[0]) {
			return c.False
		}
	}
	if x := rootOf(b); x != nil {
		if bd := c.locBound(a); bd != nil && c.allocLe(bd, x.Args[0]) {
			return c.False
		}
	}
	if a.Op == OIte && (cb != "" || b.Op != OIte) {
		return c.Ite(a.Args[0], c.eqLoc(a.Args[1], b), c.eqLoc(a.Args[2], b))
	}
	if b.Op == OIte && (ca != "" || a.Op != OIte) {
		return c.Ite(b.Args[0], c.eqLoc(a, b.Args[1]), c.eqLoc(a, b.Args[2]))
	}
	return c.mk(&Term{Op: OEq, Sort: SBool, Args: []*Term{a, b}})
}

// rootOf strips field/element/interface constructors down to a root(...) term.
func rootOf(t *Term) *Term {
	for {
		switch locCtor(t) {
		case "root":
			return t
		case "fld", "elt", "ifc":
			t = t.Args[0]
		default:
			return nil
		}
	}
}

// locBound returns an allocation term A with rid(t) < A, if one is known syntactically.
func (c *Ctx) locBound(t *Term) *Term {
	if b, ok := c.locB[t]; ok {
		return b
	}
	var r *Term
	switch locCtor(t) {
	case "root":
		r = c.AddK(t.Args[0], 1)
	case "fld", "elt", "ifc":
		r = c.locBound(t.Args[0])
	case "nil", "glob":
		r = c.One
	default:
		switch t.Op {
		case OUF:
			if hs, ok := c.heapSym[t.Name]; ok && hs.Alloc != nil && t.Args[0].Sort == SLoc {
				if b := c.locBound(t.Args[0]); b != nil && c.allocLe(b, hs.Alloc) {
					r = hs.Alloc
				}
			}
			if t.Name == "iptr" {
				r = c.locBound(t.Args[0])
			}
		case OIte:
			x, y := c.locBound(t.Args[1]), c.locBound(t.Args[2])
			if x != nil && y != nil {
				if c.allocLe(x, y) {
					r = y
				} else if c.allocLe(y, x) {
					r = x
				}
			}
		}
	}
	c.locB[t] = r
	return r
}

// allocLe reports whether a <= b is known for allocation counters.
func (c *Ctx) allocLe(a, b *Term) bool { return c.allocLeN(a, b, 40) }
func (c *Ctx) allocLeN(a, b *Term, n int) bool {
	if n == 0 || a == nil || b == nil {
		return false
	}
	d := c.Sub(b, a)
	if d.isConst() {
		return d.C.Sign() >= 0
	}
	if a.isConst() {
		return a.C.Cmp(big.NewInt(1)) <= 0 // counters start at 1
	}
	// b = v + k with v an alloc variable
	lb := c.toLin(b)
	if len(lb.m) != 1 || lb.c.Sign() < 0 {
		return false
	}
	for v := range lb.m {
		for _, lo := range c.allocLo[v] {
			if c.allocLeN(a, c.Add(lo, c.Big(lb.c)), n-1) {
				return true
			}
		}
	}
	return false
}

// ---- byte strings ----

func (c *Ctx) Cat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Sort != SB {
			panic(unsup("concatenation of %s", a.Sort))
		}
		if a == c.EmptyB {
			continue
		}
		if a.Op == OCat {
			out = append(out, a.Args...)
		} else {
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return c.EmptyB
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{Op: OCat, Sort: SB, Args: out})
}

func (t *Term) parts() []*Term {
	if t.Op == OCat {
		return t.Args
	}
	return []*Term{t}
}

func (c *Ctx) BLen(b *Term) *Term {
	if b == c.EmptyB {
		return c.Zero
	}
	if b.Op == OCat {
		r := c.Zero
		for _, x := range b.Args {
			r = c.Add(r, c.BLen(x))
		}
		return r
	}
	if b.Op == OIte {
		return c.Ite(b.Args[0], c.BLen(b.Args[1]), c.BLen(b.Args[2]))
	}
	if b.Op == OUF {
		switch b.Name {
		case "bunit":
			return c.One
		case "hbytes":
			return c.Int(32)
		case "le":
			if b.Args[1].isConst() {
				return b.Args[1]
			}
		}
		if strings.HasPrefix(b.Name, "bc$") { // content of a memory region: (.., off, len)
			return b.Args[len(b.Args)-1]
		}
	}
	return c.UF("blen", SInt, b)
}

// BDrop is b without its first n bytes.
func (c *Ctx) BDrop(b, n *Term) *Term {
	if n == c.Zero {
		return b
	}
	if b.Op == OIte {
		return c.Ite(b.Args[0], c.BDrop(b.Args[1], n), c.BDrop(b.Args[2], n))
	}
	if b.Op == OUF && strings.HasPrefix(b.Name, "bc$") && len(b.Args) > 1 {
		a := append([]*Term{}, b.Args...)
		a[len(a)-2] = c.Add(a[len(a)-2], n)
		a[len(a)-1] = c.Sub(a[len(a)-1], n)
		return c.UF(b.Name, SB, a...)
	}
	return c.UF("bc$sub", SB, b, n, c.Sub(c.BLen(b), n))
}

// ---- quantifiers ----

func (c *Ctx) Forall(bv []*Term, body *Term) *Term {
	if body.Op == OTrue || body.Op == OFalse {
		return body
	}
	used := false
	for _, v := range bv {
		if body.fbv[v] {
			used = true
		}
	}
	if !used {
		return body
	}
	return c.mk(&Term{Op: OForall, Sort: SBool, BV: bv, Args: []*Term{body}})
}

func (c *Ctx) Distinct(bv *Term, as []*Term) *Term {
	return c.mk(&Term{Op: ODist, Sort: SBool, BV: []*Term{bv}, Args: as})
}

func (c *Ctx) Sum(kind string, bv, body, hi *Term) *Term {
	if hi.isConst() && hi.C.Sign() <= 0 {
		return c.Zero
	}
	return c.mk(&Term{Op: OSum, Sort: SInt, Name: kind, BV: []*Term{bv}, Args: []*Term{body, hi}})
}
func (c *Ctx) Fold(kind string, bv, body, hi *Term) *Term {
	if hi.isConst() && hi.C.Sign() <= 0 {
		return c.EmptyB
	}
	return c.mk(&Term{Op: OFold, Sort: SB, Name: kind, BV: []*Term{bv}, Args: []*Term{body, hi}})
}

// Subst replaces bound variables (or any leaf terms) and re-simplifies.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return c.subst(t, m, memo)
}

func (c *Ctx) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	// only bound variables are ever substituted
	need := false
	for v := range m {
		if t.fbv[v] {
			need = true
			break
		}
	}
	if !need {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = c.subst(a, m, memo)
	}
	r := c.rebuild(t, as)
	memo[t] = r
	return r
}

// Replace substitutes closed terms everywhere and re-simplifies.
func (c *Ctx) Replace(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		as[i] = c.Replace(a, m, memo)
		same = same && as[i] == a
	}
	r := t
	if !same {
		r = c.rebuild(t, as)
		if x, ok := m[r]; ok {
			r = x
		}
	}
	memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case OUF:
		if t.Name == "blen" {
			return c.BLen(as[0])
		}
		return c.UF(t.Name, t.Sort, as...)
	case OLin:
		r := c.Big(t.C)
		for i := range as {
			r = c.Add(r, c.MulK(as[i], t.Coef[i]))
		}
		return r
	case OMul:
		return c.Mul(as[0], as[1])
	case ODiv:
		return c.Div(as[0], as[1])
	case OMod:
		return c.Mod(as[0], as[1])
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case OEq:
		if len(as) == 1 {
			return c.Eq(as[0], c.Zero)
		}
		return c.Eq(as[0], as[1])
	case OLe0:
		return c.Le(as[0], c.Zero)
	case OAnd:
		return c.And(as...)
	case OOr:
		return c.nary(OOr, c.False, c.True, as)
	case ONot:
		return c.Not(as[0])
	case OForall:
		return c.Forall(t.BV, as[0])
	case ODist:
		return c.Distinct(t.BV[0], as)
	case OSum:
		return c.Sum(t.Name, t.BV[0], as[0], as[1])
	case OFold:
		return c.Fold(t.Name, t.BV[0], as[0], as[1])
	case OCat:
		return c.Cat(as...)
	}
	panic(unsup("rebuild op %d", t.Op))
}

// ---- printing (debug / messages) ----

func (t *Term) String() string { return t.str(7) }
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.Op {
	case OConst:
		return t.C.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar, OBVar:
		return t.Name
	case OLin:
		var p []string
		for i, a := range t.Args {
			if t.Coef[i].Cmp(big.NewInt(1)) == 0 {
				p = append(p, a.str(d-1))
			} else {
				p = append(p, t.Coef[i].String()+"*"+a.str(d-1))
			}
		}
		if t.C.Sign() != 0 {
			p = append(p, t.C.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	}
	names := map[Op]string{OMul: "*", ODiv: "div", OMod: "mod", OIte: "ite", OEq: "=", OLe0: "0>=", OAnd: "and", OOr: "or", ONot: "not", OForall: "forall", OSum: "sum", OCat: "cat", OFold: "fold", ODist: "distinct"}
	n := names[t.Op]
	if t.Op == OUF || n == "" {
		n = t.Name
	}
	var p []string
	for _, v := range t.BV {
		p = append(p, v.Name)
	}
	for _, a := range t.Args {
		p = append(p, a.str(d-1))
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}
