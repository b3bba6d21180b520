package main

// From assumptions and a goal to a ground SMT problem: quantifiers are replaced by
// proxies, positive ones instantiated by matching, negative ones skolemised; sums and
// folds get ground lemma instances; heap symbols get their type and allocation facts.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type assertion struct {
	lit  string // printed literal implying the body, "" for none
	body *Term
	neg  bool
}

type VC struct {
	g         *Gen
	c         *Ctx
	asserts   []assertion
	seenB     map[*Term]int // polarity bits seen
	seenT     map[*Term]bool
	apps      map[string][]*Term
	appIdx    map[string]int
	pos       []*Term
	posSet    map[*Term]bool
	negSet    map[*Term]bool
	done      map[string]bool
	work      []workItem
	sums      []*Term
	facts     []*Term
	litDecl   []string
	ninst     int
	maxInst   int
	strict    bool // breadth first, without the lemmas about sums
	sumsFirst bool // but with those about the sums there are to begin with
	trunc     bool
	loose     bool
	lits      []*Term // string literals
	globs     []*Term
	floc      map[string]int
	trigs     map[*Term][][]*Term
	pivots    []*Term
	inGoal    bool            // adding the goal: its skolem constants are pivots
	fix       map[*Term]*Term // conditions fixed in this case of a case split
	fixMemo   map[*Term]*Term
	axDone    map[string]bool
	prs       map[*Term]*Term
}

type workItem struct {
	t   *Term
	pol int // 1 positive, 2 negative, 3 both
}

func (g *Gen) newVC() *VC {
	v := &VC{g: g, c: g.c, seenB: map[*Term]int{}, seenT: map[*Term]bool{}, apps: map[string][]*Term{}, appIdx: map[string]int{}, posSet: map[*Term]bool{}, negSet: map[*Term]bool{},
		done: map[string]bool{}, maxInst: 12000, trigs: map[*Term][][]*Term{}, axDone: map[string]bool{}}
	v.pivots = g.pivots
	return v
}

func (v *VC) add(lit string, t *Term, neg bool) {
	if v.fix != nil {
		t = v.c.Replace(t, v.fix, v.fixMemo)
	}
	if (t == v.c.True && !neg) || (t == v.c.False && neg) {
		return
	}
	v.asserts = append(v.asserts, assertion{lit, t, neg})
	p := 1
	if neg {
		p = 2
	}
	v.walkB(t, p)
}

func flip(p int) int {
	switch p {
	case 1:
		return 2
	case 2:
		return 1
	}
	return 3
}

func (v *VC) walkB(t *Term, pol int) {
	if v.seenB[t]&pol == pol {
		return
	}
	v.seenB[t] |= pol
	switch t.Op {
	case OAnd, OOr:
		for _, a := range t.Args {
			v.walkB(a, pol)
		}
	case ONot:
		v.walkB(t.Args[0], flip(pol))
	case OIte:
		v.walkB(t.Args[0], 3)
		v.walkB(t.Args[1], pol)
		v.walkB(t.Args[2], pol)
	case OEq:
		for _, a := range t.Args {
			if a.Sort == SBool {
				v.walkB(a, 3)
			} else {
				v.walkT(a)
			}
		}
	case OForall, ODist:
		if pol&1 != 0 && !v.posSet[t] {
			v.posSet[t] = true
			if t.Op == ODist {
				k := t.BV[0]
				inv := v.c.UF(fmt.Sprintf("inv$%d", t.ID), SInt, t.Args[1:]...)
				f := v.c.Forall(t.BV, v.c.Implies(t.Args[0], v.c.Eq(inv, k)))
				v.add(proxy(t), f, false)
			} else {
				v.pos = append(v.pos, t)
			}
		}
		if pol&2 != 0 && !v.negSet[t] {
			v.negSet[t] = true
			v.skolem(t)
		}
	case OLe0, OUF, OVar, OTrue, OFalse:
		v.walkT(t)
	default:
		v.walkT(t)
	}
}

func (v *VC) skolem(t *Term) {
	c := v.c
	if t.Op == ODist {
		s1 := c.Var(fmt.Sprintf("sk1!%d", t.ID), SInt)
		s2 := c.Var(fmt.Sprintf("sk2!%d", t.ID), SInt)
		r := []*Term{c.Not(c.Eq(s1, s2))}
		for i, a := range t.Args {
			x := c.Subst(a, map[*Term]*Term{t.BV[0]: s1})
			y := c.Subst(a, map[*Term]*Term{t.BV[0]: s2})
			if i == 0 {
				r = append(r, x, y)
			} else {
				r = append(r, c.Eq(x, y))
			}
		}
		v.add("(not "+proxy(t)+")", c.And(r...), false)
		return
	}
	m := map[*Term]*Term{}
	for i, b := range t.BV {
		m[b] = c.Var(fmt.Sprintf("sk%d!%d", i, t.ID), b.Sort)
		if b.Sort == SInt && v.inGoal && len(v.pivots) < 4 {
			v.pivots = append(v.pivots[:len(v.pivots):len(v.pivots)], m[b])
		}
	}
	v.add("(not "+proxy(t)+")", c.Subst(t.Args[0], m), true)
}

func proxy(t *Term) string { return fmt.Sprintf("q!%d", t.ID) }

// walkT collects ground applications.
func (v *VC) walkT(t *Term) {
	if v.seenT[t] {
		return
	}
	v.seenT[t] = true
	if !t.closed() {
		return
	}
	if t.Sort == SBool && t.Op != OUF && t.Op != OVar && t.Op != OLe0 && t.Op != OTrue && t.Op != OFalse {
		v.walkB(t, 3)
		return
	}
	switch t.Op {
	case OSum, OFold:
		v.walkT(t.Args[1])
		v.sums = append(v.sums, t)
		return
	}
	for _, a := range t.Args {
		v.walkT(a)
	}
	if t.Op == OUF {
		v.apps[t.Name] = append(v.apps[t.Name], t)
	}
	if t.Op == OVar && strings.HasPrefix(t.Name, "glob$") {
		v.globs = append(v.globs, t)
	}
	if t.Op == OVar && isStrLit(t) {
		v.lits = append(v.lits, t)
	}
	v.termFacts(t)
}

func (v *VC) fact(t *Term) { v.add("", t, false) }

func (v *VC) rid(t *Term) *Term { return v.g.rid(t) }

func (v *VC) termFacts(t *Term) {
	c := v.c
	if t.Sort == SLoc {
		rid := func(x *Term) *Term { return c.UF("rid", SInt, x) }
		tag := func(n int64) { v.fact(c.Eq(c.UF("ctag", SInt, t), c.Int(n))) }
		switch locCtor(t) {
		case "root":
			v.fact(c.Eq(rid(t), t.Args[0]))
			tag(1)
		case "fld":
			v.fact(c.Eq(rid(t), v.rid(t.Args[0])))
			v.fact(c.And(c.Eq(c.UF("ubase", SLoc, t), t.Args[0])))
			tag(1000 + int64(v.fieldID(t.Name)))
		case "elt":
			v.fact(c.Eq(rid(t), v.rid(t.Args[0])))
			v.fact(c.And(c.mkEqRaw(c.UF("ubase", SLoc, t), t.Args[0]), c.Eq(c.UF("uidx", SInt, t), t.Args[1])))
			tag(2)
		case "ifc":
			v.fact(c.Eq(rid(t), v.rid(t.Args[0])))
			v.fact(c.And(c.mkEqRaw(c.UF("iptr", SLoc, t), t.Args[0]), c.Eq(c.UF("ityp", SInt, t), t.Args[1])))
			tag(3)
		case "nil":
			v.fact(c.Eq(rid(t), c.Int(-1)))
			tag(0)
		case "glob":
			v.fact(c.Eq(rid(t), c.Zero))
			tag(100000 + int64(v.fieldID(t.Name)))
		default:
			if t.Op == OUF || t.Op == OVar {
				v.fact(c.Le(c.Int(-1), rid(t)))
			}
			if t.Op == OUF && t.Name == "iptr" {
				v.fact(c.Le(rid(t), v.rid(t.Args[0])))
			}
			if t.Op == OUF && t.Name == "ecause" {
				v.fact(c.Le(rid(t), v.rid(t.Args[0])))
				v.fact(c.Implies(c.Not(c.Eq(t.Args[0], c.NilLoc)), c.Not(c.Eq(t, c.NilLoc))))
			}
		}
	}
	if t.Op != OUF {
		return
	}
	if hs, ok := c.heapSym[t.Name]; ok {
		k := hs.Key
		if t.Sort == SInt {
			if k.Typ != nil && k.Role == "" {
				if lo, hi, ok := intRange(k.Typ); ok {
					v.fact(c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi))))
				}
			}
		}
		if t.Sort == SLoc && hs.Alloc != nil && t.Args[0].Sort == SLoc {
			v.fact(c.Implies(c.Lt(v.rid(t.Args[0]), hs.Alloc), c.Lt(c.UF("rid", SInt, t), hs.Alloc)))
		}
		if k.Role == "len" || k.Role == "arr" || k.Role == "off" || k.Role == "cap" {
			comp := func(r string) *Term {
				n := strings.Replace(t.Name, "."+k.Role+"@", "."+r+"@", 1)
				if n == t.Name && r != k.Role {
					n = strings.Replace(t.Name, "."+k.Role+"!", "."+r+"!", 1)
				}
				h2, ok := c.heapSym[n]
				if !ok {
					return nil
				}
				return c.UF(n, h2.Key.Sort, t.Args...)
			}
			a, o, l, cp := comp("arr"), comp("off"), comp("len"), comp("cap")
			if a != nil && o != nil && l != nil && cp != nil {
				v.fact(c.And(c.Le(c.Zero, o), c.Le(c.Zero, l), c.Le(l, cp), c.Le(c.Add(o, cp), c.Int(maxLen))))
				v.fact(c.Implies(c.Eq(a, c.NilLoc), c.And(c.Eq(o, c.Zero), c.Eq(cp, c.Zero))))
			} else if l != nil && k.Role == "len" {
				v.fact(c.And(c.Le(c.Zero, l), c.Le(l, c.Int(maxLen))))
			}
		}
	}
	if r, ok := v.g.ufRange[t.Name]; ok {
		v.fact(c.And(c.Le(c.Big(r[0]), t), c.Le(t, c.Big(r[1]))))
	}
	switch t.Name {
	case "blen":
		v.fact(c.Le(c.Zero, t))
		v.fact(c.Eq(c.Eq(t, c.Zero), c.Eq(t.Args[0], c.EmptyB)))
	case "bget":
		v.fact(c.And(c.Le(c.Zero, t), c.Le(t, c.Int(255))))
		a := t.Args[0]
		// bytes of a region of memory
		if a.Op == OUF && strings.HasPrefix(a.Name, "bc$") {
			sym := strings.TrimPrefix(a.Name, "bc$")
			if hs, ok := c.heapSym[sym]; ok && hs.Key.Elem && len(a.Args) == 3 {
				v.fact(c.Implies(c.And(c.Le(c.Zero, t.Args[1]), c.Lt(t.Args[1], a.Args[2])), c.Eq(t, c.UF(sym, SInt, a.Args[0], c.Add(a.Args[1], t.Args[1])))))
			}
			if sym == "sub" {
				v.fact(c.Implies(c.And(c.Le(c.Zero, t.Args[1]), c.Lt(t.Args[1], a.Args[2])), c.Eq(t, c.UF("bget", SInt, a.Args[0], c.Add(a.Args[1], t.Args[1])))))
			}
		}
		if a.Op == OUF && a.Name == "bunit" {
			v.fact(c.Implies(c.Eq(t.Args[1], c.Zero), c.Eq(t, a.Args[0])))
		}
	case "bitand":
		v.fact(c.Implies(c.And(c.Le(c.Zero, t.Args[0]), c.Le(c.Zero, t.Args[1])), c.And(c.Le(c.Zero, t), c.Le(t, t.Args[0]), c.Le(t, t.Args[1]))))
	}
	if strings.HasPrefix(t.Name, "hbytes") {
		v.fact(c.Eq(c.UF("un"+t.Name, t.Args[0].Sort, t), t.Args[0]))
	}
	if strings.HasPrefix(t.Name, "bc$") && t.Sort == SB {
		// length of a region, and the empty region
		n := t.Args[len(t.Args)-1]
		v.fact(c.Implies(c.Le(n, c.Zero), c.Eq(t, c.EmptyB)))
		v.fact(c.Implies(c.Lt(c.Zero, n), c.Not(c.Eq(t, c.EmptyB))))
		v.fact(c.Implies(c.Le(c.Zero, n), c.Eq(c.UF("blen", SInt, t), n)))
	}
	v.floatFacts(t)
}

func (c *Ctx) mkEqRaw(a, b *Term) *Term { return c.Eq(a, b) }

func (v *VC) fieldID(n string) int {
	if v.g.fldID == nil {
		v.g.fldID = map[string]int{}
	}
	id, ok := v.g.fldID[n]
	if !ok {
		id = len(v.g.fldID) + 1
		v.g.fldID[n] = id
	}
	return id
}

// ---- instantiation ----

// triggers of a forall: alternative multi-patterns.
func (v *VC) triggers(q *Term) [][]*Term {
	if r, ok := v.trigs[q]; ok {
		return r
	}
	bv := map[*Term]bool{}
	for _, b := range q.BV {
		bv[b] = true
	}
	// candidate patterns: UF apps in which each own bound variable occurs as a
	// linear integer argument or as a plain argument
	type pat struct {
		t    *Term
		vars map[*Term]bool
	}
	var pats []pat
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || len(t.fbv) == 0 {
			return
		}
		seen[t] = true
		if t.Op == OUF && !strings.HasPrefix(t.Name, "inv$") && !strings.HasPrefix(t.Name, "wit$") && t.Name != "rid" && t.Name != "ctag" {
			vars := map[*Term]bool{}
			ok := true
			for _, a := range t.Args {
				if b := linVar(a, bv); b != nil {
					vars[b] = true
				} else if len(a.fbv) > 0 {
					own := false
					for x := range a.fbv {
						if bv[x] {
							own = true
						}
					}
					if own && (a.Op != OUF) {
						ok = false
					}
				}
			}
			if ok && len(vars) > 0 {
				pats = append(pats, pat{t, vars})
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(q.Args[0])
	var out [][]*Term
	for _, p := range pats {
		if len(p.vars) == len(q.BV) {
			out = append(out, []*Term{p.t})
		}
	}
	if len(out) == 0 && len(q.BV) == 2 {
		for i, p := range pats {
			for _, r := range pats[i+1:] {
				u := map[*Term]bool{}
				for x := range p.vars {
					u[x] = true
				}
				for x := range r.vars {
					u[x] = true
				}
				if len(u) == 2 {
					out = append(out, []*Term{p.t, r.t})
				}
			}
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	v.trigs[q] = out
	return out
}

// linVar: a is a bound variable of bv, or an integer linear term with exactly one
// such variable at coefficient +-1.
func linVar(a *Term, bv map[*Term]bool) *Term {
	if a.Op == OBVar && bv[a] {
		return a
	}
	if a.Op == OLin {
		var r *Term
		for i, x := range a.Args {
			own := false
			for b := range x.fbv {
				if bv[b] {
					own = true
				}
			}
			if !own {
				if len(x.fbv) > 0 {
					return nil
				}
				continue
			}
			if !(x.Op == OBVar) || r != nil || a.Coef[i].CmpAbs(bigOne) != 0 {
				return nil
			}
			r = x
		}
		return r
	}
	return nil
}

// mayAlias: two closed terms worth matching although they are written differently.
// Reads of the same field of visibly different objects are not.
func (v *VC) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == OUF && b.Op == OUF {
		if a.Name != b.Name {
			return true
		}
		for i := range a.Args {
			x, y := a.Args[i], b.Args[i]
			if x != y && (x.Sort == SInt || !v.mayAlias(x, y)) {
				return false
			}
		}
		return true
	}
	if a.Op == OVar && b.Op == OVar {
		return !(v.g.params[a] && v.g.params[b])
	}
	if a.Op == OUF {
		a, b = b, a
	}
	if a.Op == OVar && v.g.params[a] && b.Op == OUF {
		if hs, ok := v.c.heapSym[b.Name]; ok && strings.Contains(b.Name, "@0") {
			_ = hs
			return false
		}
	}
	return true
}

func (v *VC) matchArg(pat, t *Term, bv map[*Term]bool, m map[*Term]*Term) bool {
	c := v.c
	if len(pat.fbv) == 0 {
		return pat == t || c.Eq(pat, t) != c.False && (v.loose || v.mayAlias(pat, t))
	}
	if b := linVar(pat, bv); b != nil {
		var val *Term
		if pat == b {
			val = t
		} else {
			k := big.NewInt(0)
			rest := c.Big(pat.C)
			for i, x := range pat.Args {
				if x == b {
					k = pat.Coef[i]
				} else {
					rest = c.Add(rest, c.MulK(x, pat.Coef[i]))
				}
			}
			val = c.Sub(t, rest)
			if k.Sign() < 0 {
				val = c.MulK(val, bigMinus1)
			}
		}
		if !val.closed() {
			return false
		}
		if o, ok := m[b]; ok {
			return o == val
		}
		m[b] = val
		return true
	}
	if pat.Op == OUF {
		// nested application: bind through it when syntactically present
		if t.Op == OUF && t.Name == pat.Name {
			for i := range pat.Args {
				if !v.matchArg(pat.Args[i], t.Args[i], bv, m) {
					return false
				}
			}
			return true
		}
		return true // constrained by other patterns
	}
	return true
}

func (v *VC) instantiate(gen int) bool {
	progress := false
	n := len(v.pos)
	apps := v.apps
	if v.strict { // only terms there were when the round began
		apps = map[string][]*Term{}
		for k, l := range v.apps {
			apps[k] = l
		}
	}
	for i := 0; i < n; i++ {
		q := v.pos[i]
		bv := map[*Term]bool{}
		for _, b := range q.BV {
			bv[b] = true
		}
		for ti, tr := range v.triggers(q) {
			if len(tr) == 1 {
				key := fmt.Sprintf("%d/%d", q.ID, ti)
				list := apps[tr[0].Name]
				start := v.appIdx[key]
				v.appIdx[key] = len(list)
				for _, t := range list[start:] {
					m := map[*Term]*Term{}
					ok := true
					for j := range t.Args {
						if !v.matchArg(tr[0].Args[j], t.Args[j], bv, m) {
							ok = false
							break
						}
					}
					if ok && len(m) == len(q.BV) && v.inst(q, m) {
						progress = true
					}
				}
			} else {
				la, lb := apps[tr[0].Name], apps[tr[1].Name]
				for _, t := range la {
					m0 := map[*Term]*Term{}
					ok := true
					for j := range t.Args {
						if !v.matchArg(tr[0].Args[j], t.Args[j], bv, m0) {
							ok = false
							break
						}
					}
					if !ok {
						continue
					}
					for _, u := range lb {
						m := map[*Term]*Term{}
						for a, b := range m0 {
							m[a] = b
						}
						ok := true
						for j := range u.Args {
							if !v.matchArg(tr[1].Args[j], u.Args[j], bv, m) {
								ok = false
								break
							}
						}
						if ok && len(m) == len(q.BV) && v.inst(q, m) {
							progress = true
						}
					}
				}
			}
			if v.ninst > v.maxInst {
				v.trunc = true
				return false
			}
		}
	}
	return progress
}

func (v *VC) inst(q *Term, m map[*Term]*Term) bool {
	var k strings.Builder
	fmt.Fprintf(&k, "%d", q.ID)
	for _, b := range q.BV {
		fmt.Fprintf(&k, ",%d", m[b].ID)
	}
	if v.done[k.String()] {
		return false
	}
	v.done[k.String()] = true
	v.ninst++
	v.add(proxy(q), v.c.Subst(q.Args[0], m), false)
	return true
}

// ---- sums and folds ----

type absKey struct {
	id    int
	holes []*Term
}

// abstract writes the body of a sum as a function of its closed subterms, so that the
// solver sees sums of the same shape as applications of one function.
func (v *VC) abstract(t *Term) (int, []*Term) {
	if a, ok := v.g.absMemo[t]; ok {
		return a.id, a.holes
	}
	var sb strings.Builder
	num := map[*Term]int{}
	var holes []*Term
	var rec func(x *Term) int
	rec = func(x *Term) int {
		if n, ok := num[x]; ok {
			return n
		}
		var line string
		switch {
		case x == t.BV[0]:
			line = "B"
		case x.Op == OConst:
			line = "c" + x.C.String()
		case x.closed():
			line = "h" + string(x.Sort)
			holes = append(holes, x)
		default:
			line = fmt.Sprintf("%d %s %s", x.Op, x.Name, x.Sort)
			if x.Op == OBVar || x.Op == OForall || x.Op == ODist {
				line += fmt.Sprintf(" id%d", x.ID)
			} else {
				for _, b := range x.BV {
					line += fmt.Sprintf(" v%d", b.ID)
				}
				if x.C != nil {
					line += " +" + x.C.String()
				}
				for i, a := range x.Args {
					line += fmt.Sprintf(" %d", rec(a))
					if i < len(x.Coef) {
						line += "*" + x.Coef[i].String()
					}
				}
			}
		}
		n := len(num)
		num[x] = n
		sb.WriteString(line + ";")
		return n
	}
	rec(t.Args[0])
	key := fmt.Sprintf("%d %s|%s", t.Op, t.Name, sb.String())
	id, ok := v.g.absIDs[key]
	if !ok {
		id = len(v.g.absIDs)
		v.g.absIDs[key] = id
	}
	v.g.absMemo[t] = absKey{id, holes}
	return id, holes
}

func (v *VC) sumLemmas(from int) int {
	c := v.c
	n := len(v.sums)
	at := func(s, k *Term) *Term { return c.Subst(s.Args[0], map[*Term]*Term{s.BV[0]: k}) }
	nfold := 0
	for _, s := range v.sums {
		if s.Op == OFold {
			nfold++
		}
	}
	for i := from; i < n; i++ {
		s := v.sums[i]
		if s.Op == OSum {
			v.fact(c.Implies(c.Le(s.Args[1], c.Zero), c.Eq(s, c.Zero)))
			if v.nonnegBody(s.Args[0]) {
				v.fact(c.Le(c.Zero, s))
				v.fact(c.Implies(c.Lt(c.Zero, s.Args[1]), c.Le(at(s, c.AddK(s.Args[1], -1)), s)))
				if i < 40 {
					v.elemFacts(s)
				}
			}
		} else {
			v.fact(c.Implies(c.Le(s.Args[1], c.Zero), c.Eq(s, c.EmptyB)))
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j || (i < from && j < from) {
				continue
			}
			a, b := v.sums[i], v.sums[j]
			if a.Op != b.Op || a.Name != b.Name {
				continue
			}
			key := fmt.Sprintf("s%d_%d", a.ID, b.ID)
			if v.done[key] {
				continue
			}
			v.done[key] = true
			na, nb := a.Args[1], b.Args[1]
			D := func(d, hi *Term) *Term {
				return c.And(c.Le(c.Zero, d), c.Lt(d, hi), c.Not(c.Eq(at(a, d), at(b, d))))
			}
			sk := func(n string) *Term { return c.Var(fmt.Sprintf("%s!%d_%d", n, a.ID, b.ID), SInt) }
			or := func(ts ...*Term) *Term { return c.nary(OOr, c.False, c.True, ts) }
			if a.Op == OFold && a.Args[0] != b.Args[0] && nfold > 10 {
				continue
			}
			if a.Op == OFold {
				// step: na = nb+1
				diff := c.Eq(na, c.AddK(nb, 1))
				if diff != c.False {
					d := sk("fd")
					var dd *Term = c.False
					if a.Args[0] != b.Args[0] {
						dd = D(d, nb)
					}
					v.fact(or(c.Not(diff), c.Lt(nb, c.Zero), dd, c.Eq(a, c.Cat(b, at(a, nb)))))
					v.fact(or(c.Not(diff), c.Lt(nb, c.Zero), dd, c.Not(c.Eq(at(a, nb), c.EmptyB)), c.Eq(a, b)))
					// a has one more element at a pivot, which is empty
					if a.Args[0] != b.Args[0] {
						for pi, p := range v.pivots {
							d := c.Var(fmt.Sprintf("fp%d!%d_%d", pi, a.ID, b.ID), SInt)
							low := c.And(c.Le(c.Zero, d), c.Lt(d, p), c.Not(c.Eq(at(a, d), at(b, d))))
							high := c.And(c.Le(p, d), c.Lt(d, nb), c.Not(c.Eq(at(a, c.AddK(d, 1)), at(b, d))))
							v.fact(or(c.Not(diff), c.Lt(p, c.Zero), c.Lt(nb, p), low, high, c.Not(c.Eq(at(a, p), c.EmptyB)), c.Eq(a, b)))
						}
					}
				}
				if i < j {
					e := c.Eq(na, nb)
					if e != c.False {
						d := sk("fe")
						var dd *Term = c.False
						if a.Args[0] != b.Args[0] {
							dd = D(d, nb)
						}
						v.fact(or(c.Not(e), dd, c.Eq(a, b)))
					}
				}
				continue
			}
			same := a.Args[0] == b.Args[0]
			// step
			st := c.Eq(na, c.AddK(nb, 1))
			if st != c.False {
				var dd *Term = c.False
				if !same {
					dd = D(sk("sd"), nb)
				}
				v.fact(or(c.Not(st), c.Lt(nb, c.Zero), dd, c.Eq(a, c.Add(b, at(a, nb)))))
				// insertion at a pivot p: a has one element more
				if !same {
					for pi, p := range v.pivots {
						d := c.Var(fmt.Sprintf("sp%d!%d_%d", pi, a.ID, b.ID), SInt)
						lowDiff := c.And(c.Le(c.Zero, d), c.Lt(d, p), c.Not(c.Eq(at(a, d), at(b, d))))
						hiDiff := c.And(c.Le(p, d), c.Lt(d, nb), c.Not(c.Eq(at(a, c.AddK(d, 1)), at(b, d))))
						v.fact(or(c.Not(st), c.Lt(p, c.Zero), c.Lt(nb, p), lowDiff, hiDiff, c.Eq(a, c.Add(b, at(a, p)))))
					}
				}
			}
			if i < j && !same {
				e := c.Eq(na, nb)
				if e != c.False {
					d1, d2, d3 := sk("se1"), sk("se2"), sk("se3")
					del := func(d *Term) *Term { return c.Sub(at(a, d), at(b, d)) }
					ne := c.Not(e)
					v.fact(or(ne, c.Eq(a, b), D(d1, nb)))
					if ps := v.points(a, b); len(ps) > 0 {
						// all positions agree except the points written between the two states
						in := func(p *Term) *Term { return c.And(c.Le(c.Zero, p), c.Lt(p, nb)) }
						for x, p := range ps {
							for y, q := range ps {
								if y < x || y == x && len(ps) > 1 {
									continue
								}
								d := c.Var(fmt.Sprintf("sw%d_%d!%d_%d", x, y, a.ID, b.ID), SInt)
								cp := c.Ite(in(p), del(p), c.Zero)
								cq := c.Ite(c.And(in(q), c.Not(c.Eq(p, q))), del(q), c.Zero)
								v.fact(or(ne, c.And(D(d, nb), c.Not(c.Eq(d, p)), c.Not(c.Eq(d, q))), c.Eq(a, c.Add(b, c.Add(cp, cq)))))
							}
						}
					}
					v.fact(or(ne, c.Not(D(d1, nb)), c.Eq(a, c.Add(b, del(d1))), c.And(D(d2, nb), c.Not(c.Eq(d2, d1)))))
					v.fact(or(ne, c.Not(D(d1, nb)), c.Not(c.And(D(d2, nb), c.Not(c.Eq(d2, d1)))), c.Eq(a, c.Add(b, c.Add(del(d1), del(d2)))),
						c.And(D(d3, nb), c.Not(c.Eq(d3, d1)), c.Not(c.Eq(d3, d2)))))
				}
			}
			if i < j && same {
				v.fact(or(c.Not(c.Eq(na, nb)), c.Eq(a, b)))
			}
			// partial sums of nonnegative terms (b over a prefix of a)
			if c.Lt(na, nb) != c.True && v.nonnegBody(a.Args[0]) {
				var dd *Term = c.False
				if !same {
					dd = D(sk("sm"), nb)
				}
				v.fact(or(c.Lt(na, nb), dd, c.Le(b, a)))
				v.fact(or(c.Le(na, nb), c.Lt(nb, c.Zero), dd, c.Le(c.Add(b, at(a, nb)), a)))
			}
		}
	}
	return n
}

// points are the positions singled out by comparisons in the bodies of two sums.
func (v *VC) points(a, b *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, s := range []*Term{a, b} {
		k := s.BV[0]
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == OEq && len(t.Args) == 2 {
				for i, x := range t.Args {
					p, ok := (*Term)(nil), !x.closed() && t.Args[1-i].closed()
					if ok && v.match(x, t.Args[1-i], k, &p) && p != nil && !contains(r, p) && len(r) < 4 {
						r = append(r, p)
					}
				}
			}
			if t.Op == OEq && len(t.Args) == 1 {
				l := v.c.toLin(t.Args[0])
				if co := l.m[k]; co != nil && co.IsInt64() && (co.Int64() == 1 || co.Int64() == -1) {
					p := v.c.MulK(v.c.Sub(t.Args[0], v.c.MulK(k, co)), big.NewInt(-co.Int64()))
					if p.closed() && !contains(r, p) && len(r) < 4 {
						r = append(r, p)
					}
				}
			}
			for _, x := range t.Args {
				rec(x)
			}
		}
		rec(s.Args[0])
	}
	return r
}

// match finds the value of k for which x is the closed term y.
func (v *VC) match(x, y, k *Term, p **Term) bool {
	if x.closed() {
		return x == y
	}
	if x.Sort == SInt && (x.Op == OLin || x == k) {
		l := v.c.toLin(x)
		if co := l.m[k]; co != nil && co.IsInt64() && co.Int64() == 1 {
			if q := v.c.Sub(y, v.c.Sub(x, k)); q.closed() && (*p == nil || *p == q) {
				*p = q
				return true
			}
		}
	}
	if x.Op != y.Op || x.Name != y.Name || len(x.Args) != len(y.Args) || x.Op == OLin || len(x.BV) > 0 {
		return false
	}
	for i := range x.Args {
		if !v.match(x.Args[i], y.Args[i], k, p) {
			return false
		}
	}
	return true
}

func contains(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func (v *VC) nonnegBody(t *Term) bool { return v.g.h.NonNeg(t) || v.boundsNonNeg(t) }
func (v *VC) boundsNonNeg(t *Term) bool {
	lo, _ := v.g.bounds(t)
	return lo != nil && lo.Sign() >= 0
}

// ---- axioms of specification functions ----

func (v *VC) specAxioms() bool {
	progress := false
	for ai, ax := range v.g.w.axioms {
		if !v.g.clauseOn(&Clause{Tags: ax.Tags}) {
			continue
		}
		lists := make([][]*Term, len(ax.Trig))
		for i, tp := range ax.Trig {
			name := "u$" + tp.fn
			if strings.HasPrefix(tp.fn, "_") {
				name = tp.fn[1:]
			}
			lists[i] = v.apps[name]
		}
		var rec func(i int, env map[string]TV, key string)
		rec = func(i int, vars map[string]TV, key string) {
			if i == len(lists) {
				if v.axDone[key] {
					return
				}
				v.axDone[key] = true
				progress = true
				e := &Env{pkg: ax.Pkg, vars: vars, st: v.g.entrySt, old: v.g.entrySt}
				v.ninst++
				v.fact(v.g.evalBool(e, ax.Body))
				return
			}
			for _, t := range lists[i] {
				nv := map[string]TV{}
				for a, b := range vars {
					nv[a] = b
				}
				ok := true
				for j, p := range ax.Trig[i].params {
					if p == "_" {
						continue
					}
					if o, have := nv[p]; have {
						if o.V != Val(t.Args[j]) {
							ok = false
							break
						}
					}
					nv[p] = TV{t.Args[j], nil}
				}
				if ok {
					rec(i+1, nv, key+fmt.Sprintf(",%d", t.ID))
				}
				if v.ninst > v.maxInst {
					return
				}
			}
		}
		rec(0, map[string]TV{}, fmt.Sprintf("ax%d", ai))
	}
	return progress
}

func (v *VC) saturate(rounds int) {
	from := 0
	if v.sumsFirst {
		v.sumLemmas(0)
	}
	for r := 0; r < rounds; r++ {
		p := v.instantiate(r)
		if v.specAxioms() {
			p = true
		}
		if n := len(v.sums); n > from && r < rounds-1 && !v.strict {
			v.sumLemmas(from)
			from = n
			p = true
		}
		if !p || v.trunc {
			break
		}
	}
	if v.strict {
		for i := 0; i < len(v.sums) && i < 40; i++ {
			if s := v.sums[i]; s.Op == OSum && v.nonnegBody(s.Args[0]) {
				v.fact(v.c.Le(v.c.Zero, s))
				v.elemFacts(s)
			}
		}
	}
}

// elemFacts: no element of a sum of nonnegative terms exceeds it.
func (v *VC) elemFacts(s *Term) {
	c := v.c
	for _, p := range v.pivots {
		at := c.Subst(s.Args[0], map[*Term]*Term{s.BV[0]: p})
		v.fact(c.nary(OOr, c.False, c.True, []*Term{c.Lt(p, c.Zero), c.Le(s.Args[1], p), c.Le(at, s)}))
	}
}

// ---- printing ----

type printer struct {
	b     *strings.Builder
	name  map[*Term]string
	refs  map[*Term]int
	decl  map[string]bool
	decls []string
}

func smtSort(s Sort) string { return string(s) }

func sym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '@' || r == '!') {
			return "|" + s + "|"
		}
	}
	return s
}

func (v *VC) count(p *printer, t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	if t.Op == OForall || t.Op == ODist {
		return
	}
	if t.Op == OSum || t.Op == OFold {
		_, hs := v.abstract(t)
		for _, h := range hs {
			v.count(p, h)
		}
		v.count(p, t.Args[1])
		return
	}
	for _, a := range t.Args {
		v.count(p, a)
	}
}

func (p *printer) declare(name string, args []Sort, res Sort) {
	if p.decl[name] {
		return
	}
	p.decl[name] = true
	var as []string
	for _, a := range args {
		as = append(as, smtSort(a))
	}
	p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", sym(name), strings.Join(as, " "), smtSort(res)))
}

func bigStr(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func (v *VC) pr(p *printer, t *Term) string {
	if n, ok := p.name[t]; ok {
		return n
	}
	s := v.pr1(p, t)
	if p.refs[t] > 1 && len(t.Args) > 0 && t.Op != OForall && t.Op != ODist {
		n := fmt.Sprintf("t!%d", t.ID)
		fmt.Fprintf(p.b, "(define-fun %s () %s %s)\n", n, smtSort(t.Sort), s)
		p.name[t] = n
		return n
	}
	if len(t.Args) == 0 || t.Op == OForall || t.Op == ODist {
		p.name[t] = s
	}
	return s
}

func (v *VC) prList(p *printer, ts []*Term) string {
	var out []string
	for _, a := range ts {
		out = append(out, v.pr(p, a))
	}
	return strings.Join(out, " ")
}

func (v *VC) pr1(p *printer, t *Term) string {
	switch t.Op {
	case OConst:
		return bigStr(t.C)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		p.declare(t.Name, nil, t.Sort)
		return sym(t.Name)
	case OUF:
		d := v.c.ufSort[t.Name]
		p.declare(t.Name, d.Args, d.Res)
		return "(" + sym(t.Name) + " " + v.prList(p, t.Args) + ")"
	case OLin:
		var out []string
		for i, a := range t.Args {
			s := v.pr(p, a)
			if t.Coef[i].Cmp(bigOne) == 0 {
				out = append(out, s)
			} else {
				out = append(out, "(* "+bigStr(t.Coef[i])+" "+s+")")
			}
		}
		if t.C.Sign() != 0 {
			out = append(out, bigStr(t.C))
		}
		if len(out) == 1 {
			return out[0]
		}
		return "(+ " + strings.Join(out, " ") + ")"
	case OMul:
		return "(* " + v.prList(p, t.Args) + ")"
	case ODiv:
		return "(div " + v.prList(p, t.Args) + ")"
	case OMod:
		return "(mod " + v.prList(p, t.Args) + ")"
	case OIte:
		return "(ite " + v.prList(p, t.Args) + ")"
	case OEq:
		if len(t.Args) == 1 {
			// print as an equation between two sides for congruence
			return v.prRel(p, "=", t.Args[0])
		}
		return "(= " + v.prList(p, t.Args) + ")"
	case OLe0:
		return v.prRel(p, "<=", t.Args[0])
	case OAnd:
		return "(and " + v.prList(p, t.Args) + ")"
	case OOr:
		return "(or " + v.prList(p, t.Args) + ")"
	case ONot:
		return "(not " + v.pr(p, t.Args[0]) + ")"
	case OForall, ODist:
		p.declare(proxy(t), nil, SBool)
		return proxy(t)
	case OSum, OFold:
		id, hs := v.abstract(t)
		hs = append(append([]*Term{}, hs...), t.Args[1])
		n := fmt.Sprintf("sum!%d", id)
		var ss []Sort
		for _, h := range hs {
			ss = append(ss, h.Sort)
		}
		p.declare(n, ss, t.Sort)
		return "(" + n + " " + v.prList(p, hs) + ")"
	case OCat:
		p.declare("cat2", []Sort{SB, SB}, SB)
		s := v.pr(p, t.Args[len(t.Args)-1])
		for i := len(t.Args) - 2; i >= 0; i-- {
			s = "(cat2 " + v.pr(p, t.Args[i]) + " " + s + ")"
		}
		return s
	}
	panic(unsup("print op %d", t.Op))
}

// prRel prints lin REL 0 with negative terms moved to the right.
func (v *VC) prRel(p *printer, op string, d *Term) string {
	l := v.c.toLin(d)
	var as []*Term
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	var L, R []string
	put := func(k *big.Int, s string) {
		dst := &L
		kk := new(big.Int).Set(k)
		if k.Sign() < 0 {
			dst = &R
			kk.Neg(kk)
		}
		if s == "" {
			*dst = append(*dst, kk.String())
		} else if kk.Cmp(bigOne) == 0 {
			*dst = append(*dst, s)
		} else {
			*dst = append(*dst, "(* "+kk.String()+" "+s+")")
		}
	}
	for _, a := range as {
		put(l.m[a], v.pr(p, a))
	}
	if l.c.Sign() != 0 {
		put(l.c, "")
	}
	side := func(x []string) string {
		switch len(x) {
		case 0:
			return "0"
		case 1:
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return "(" + op + " " + side(L) + " " + side(R) + ")"
}

// emit prints the whole problem (without check-sat). Returns SMT text.
func (v *VC) emit(extraDecl []string) string {
	p := &printer{b: &strings.Builder{}, name: map[*Term]string{}, refs: map[*Term]int{}, decl: map[string]bool{}}
	for _, a := range v.asserts {
		v.count(p, a.body)
	}
	var body strings.Builder
	for _, a := range v.asserts {
		p.b = &strings.Builder{}
		s := v.pr(p, a.body)
		body.WriteString(p.b.String())
		if a.neg {
			s = "(not " + s + ")"
		}
		if a.lit != "" {
			l := a.lit
			n := strings.TrimSuffix(strings.TrimPrefix(l, "(not "), ")")
			p.declare(n, nil, SBool)
			s = "(=> " + l + " " + s + ")"
		}
		body.WriteString("(assert " + s + ")\n")
	}
	if len(v.lits) > 1 {
		p.b = &strings.Builder{}
		body.WriteString("(assert (distinct " + v.prList(p, v.lits) + "))\n")
	}
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n")
	for _, s := range []Sort{SLoc, SU, SB, SF32, SF64} {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", s)
	}
	for _, d := range extraDecl {
		if !p.decl[d] {
			p.declare(d, nil, SBool)
		}
	}
	for _, d := range p.decls {
		out.WriteString(d + "\n")
	}
	out.WriteString(body.String())
	return out.String()
}
