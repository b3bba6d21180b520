package main

// Functional heap: every heap component (struct field, element memory, cell, ghost)
// is a persistent node; reads are resolved eagerly into ite-chains over base
// function symbols, so the emitted formulas contain no array terms.

import (
	"fmt"
	"go/types"
)

type HeapSym struct {
	Name  string
	Key   *KeyInfo
	Alloc *Term // allocation counter when the symbol was introduced
}

// KeyInfo describes one leaf heap component.
type KeyInfo struct {
	Key  string
	Elem bool // element memory: (arr, idx) -> value
	Sort Sort
	Typ  types.Type // go type of the leaf (nil for ghost)
	Role string     // "", "arr", "off", "len", "cap" for slice components
}

type HKind int

const (
	HBase HKind = iota
	HStore
	HIte
	HStoreArr
)

type HNode struct {
	id   int
	kind HKind
	sym  *HeapSym
	prev *HNode
	loc  *Term
	val  *Term
	arr  *ANode
	cond *Term
	a, b *HNode
}

type AKind int

const (
	ASel  AKind = iota // contents of arr in a base element memory
	ABase              // fresh array symbol
	AConst
	AStore
	ASplice
	AIte
	AStr // bytes of a byte-string term
)

type ANode struct {
	id       int
	kind     AKind
	h        *HNode // ASel: base node
	loc      *Term
	name     string
	key      *KeyInfo
	val      *Term
	idx      *Term
	a, b     *ANode
	dlo, dhi *Term
	soff     *Term
	cond     *Term
}

type Heap struct {
	c      *Ctx
	nid    int
	hmemo  map[[3]int]*Term
	amemo  map[[2]int]*Term
	cmemo  map[[3]int]*Term
	smemo  map[[2]int]*ANode
	nonneg map[*Term]bool
	abases map[string]*KeyInfo
}

func NewHeap(c *Ctx) *Heap {
	return &Heap{c: c, hmemo: map[[3]int]*Term{}, amemo: map[[2]int]*Term{}, cmemo: map[[3]int]*Term{}, smemo: map[[2]int]*ANode{}, nonneg: map[*Term]bool{}, abases: map[string]*KeyInfo{}}
}

func (h *Heap) node(n *HNode) *HNode { h.nid++; n.id = h.nid; return n }
func (h *Heap) anode(n *ANode) *ANode {
	h.nid++
	n.id = h.nid
	return n
}

func (h *Heap) Base(k *KeyInfo, tag string, alloc *Term) *HNode {
	name := h.c.FreshName(k.Key + "@" + tag)
	s := &HeapSym{Name: name, Key: k, Alloc: alloc}
	h.c.heapSym[name] = s
	return h.node(&HNode{kind: HBase, sym: s})
}

func (h *Heap) Store(n *HNode, loc, val *Term) *HNode {
	if n.kind == HStore && n.loc == loc {
		n = n.prev
	}
	return h.node(&HNode{kind: HStore, prev: n, loc: loc, val: val})
}
func (h *Heap) StoreArr(n *HNode, arr *Term, a *ANode) *HNode {
	if n.kind == HStoreArr && n.loc == arr {
		n = n.prev
	}
	return h.node(&HNode{kind: HStoreArr, prev: n, loc: arr, arr: a})
}
func (h *Heap) Ite(c *Term, a, b *HNode) *HNode {
	if a == b || c == h.c.True {
		return a
	}
	if c == h.c.False {
		return b
	}
	return h.node(&HNode{kind: HIte, cond: c, a: a, b: b})
}

func (h *Heap) Read(n *HNode, loc *Term) *Term {
	k := [3]int{n.id, loc.ID, -1}
	if r, ok := h.hmemo[k]; ok {
		return r
	}
	c := h.c
	var r *Term
	if loc.Op == OIte {
		r = c.Ite(loc.Args[0], h.Read(h.assume(n, loc.Args[0], true), loc.Args[1]), h.Read(h.assume(n, loc.Args[0], false), loc.Args[2]))
	} else {
		switch n.kind {
		case HBase:
			r = c.UF(n.sym.Name, n.sym.Key.Sort, loc)
		case HStore:
			e := c.Eq(n.loc, loc)
			if e == c.True {
				r = n.val
			} else if e == c.False {
				r = h.Read(n.prev, loc)
			} else {
				r = c.Ite(e, n.val, h.Read(n.prev, loc))
			}
		case HIte:
			r = c.Ite(n.cond, h.Read(n.a, loc), h.Read(n.b, loc))
		default:
			panic(unsup("scalar read of element memory"))
		}
	}
	h.hmemo[k] = r
	return r
}

// assume picks the branch of top-level HIte nodes decided by cond.
func (h *Heap) assume(n *HNode, cond *Term, val bool) *HNode {
	for n.kind == HIte {
		if n.cond == cond {
			if val {
				n = n.a
			} else {
				n = n.b
			}
		} else if n.cond == h.c.Not(cond) {
			if val {
				n = n.b
			} else {
				n = n.a
			}
		} else {
			break
		}
	}
	return n
}

// Sel returns the contents of array arr in element memory n.
func (h *Heap) Sel(n *HNode, arr *Term) *ANode {
	k := [2]int{n.id, arr.ID}
	if r, ok := h.smemo[k]; ok {
		return r
	}
	c := h.c
	var r *ANode
	if arr.Op == OIte {
		r = h.AIte(arr.Args[0], h.Sel(h.assume(n, arr.Args[0], true), arr.Args[1]), h.Sel(h.assume(n, arr.Args[0], false), arr.Args[2]))
	} else {
		switch n.kind {
		case HBase:
			r = h.anode(&ANode{kind: ASel, h: n, loc: arr, key: n.sym.Key})
		case HStoreArr:
			e := c.Eq(n.loc, arr)
			if e == c.True {
				r = n.arr
			} else if e == c.False {
				r = h.Sel(n.prev, arr)
			} else {
				r = h.AIte(e, n.arr, h.Sel(n.prev, arr))
			}
		case HIte:
			r = h.AIte(n.cond, h.Sel(n.a, arr), h.Sel(n.b, arr))
		default:
			panic(unsup("element read of scalar memory"))
		}
	}
	h.smemo[k] = r
	return r
}

func (h *Heap) AIte(c *Term, a, b *ANode) *ANode {
	if a == b || c == h.c.True {
		return a
	}
	if c == h.c.False {
		return b
	}
	if c.Op == ONot {
		c, a, b = c.Args[0], b, a
	}
	if a.kind == AIte && a.cond == c {
		a = a.a
	}
	if b.kind == AIte && b.cond == c {
		b = b.b
	}
	if a == b {
		return a
	}
	return h.anode(&ANode{kind: AIte, cond: c, a: a, b: b, key: a.key})
}
func (h *Heap) AStore(a *ANode, idx, v *Term) *ANode {
	return h.anode(&ANode{kind: AStore, a: a, idx: idx, val: v, key: a.key})
}
func (h *Heap) ASplice(dst *ANode, dlo, dhi *Term, src *ANode, soff *Term) *ANode {
	if dlo == dhi {
		return dst
	}
	return h.anode(&ANode{kind: ASplice, a: dst, b: src, dlo: dlo, dhi: dhi, soff: soff, key: dst.key})
}
func (h *Heap) AConst(k *KeyInfo, v *Term) *ANode {
	return h.anode(&ANode{kind: AConst, val: v, key: k})
}
func (h *Heap) AFresh(k *KeyInfo) *ANode {
	n := h.c.FreshName("A$" + k.Key)
	h.abases[n] = k
	return h.anode(&ANode{kind: ABase, name: n, key: k})
}
func (h *Heap) AStr(k *KeyInfo, b *Term) *ANode {
	return h.anode(&ANode{kind: AStr, val: b, key: k})
}

func (h *Heap) ReadA(a *ANode, idx *Term) *Term {
	k := [2]int{a.id, idx.ID}
	if r, ok := h.amemo[k]; ok {
		return r
	}
	c := h.c
	var r *Term
	switch a.kind {
	case ASel:
		r = c.UF(a.h.sym.Name, a.key.Sort, a.loc, idx)
	case ABase:
		if _, ok := c.heapSym[a.name]; !ok {
			c.heapSym[a.name] = &HeapSym{Name: a.name, Key: a.key}
		}
		r = c.UF(a.name, a.key.Sort, idx)
	case AConst:
		r = a.val
	case AStore:
		e := c.Eq(a.idx, idx)
		if e == c.True {
			r = a.val
		} else if e == c.False {
			r = h.ReadA(a.a, idx)
		} else {
			r = c.Ite(e, a.val, h.ReadA(a.a, idx))
		}
	case ASplice:
		in := c.And(c.Le(a.dlo, idx), c.Lt(idx, a.dhi))
		if in == c.False {
			r = h.ReadA(a.a, idx)
		} else {
			s := h.ReadA(a.b, c.Add(c.Sub(idx, a.dlo), a.soff))
			if in == c.True {
				r = s
			} else {
				r = c.Ite(in, s, h.ReadA(a.a, idx))
			}
		}
	case AIte:
		r = c.Ite(a.cond, h.ReadA(a.a, idx), h.ReadA(a.b, idx))
	case AStr:
		r = c.UF("bget", SInt, a.val, idx)
	}
	h.amemo[k] = r
	return r
}

// Content is the byte string held in a[off, off+n).
func (h *Heap) Content(a *ANode, off, n *Term) *Term {
	k := [3]int{a.id, off.ID, n.ID}
	if r, ok := h.cmemo[k]; ok {
		return r
	}
	r := h.content(a, off, n)
	h.cmemo[k] = r
	return r
}

func (h *Heap) content(a *ANode, off, n *Term) *Term {
	c := h.c
	if n.isConst() && n.C.Sign() == 0 {
		return c.EmptyB
	}
	if off.Op == OIte {
		return c.Ite(off.Args[0], h.Content(a, off.Args[1], n), h.Content(a, off.Args[2], n))
	}
	end := c.Add(off, n)
	switch a.kind {
	case ASel:
		return c.UF("bc$"+a.h.sym.Name, SB, a.loc, off, n)
	case ABase:
		return c.UF("bc$"+a.name, SB, off, n)
	case AConst:
		return c.UF("bc$zero", SB, n)
	case AStr:
		if off == c.Zero && n == c.BLen(a.val) {
			return a.val
		}
		return c.UF("bc$sub", SB, a.val, off, n)
	case AIte:
		return c.Ite(a.cond, h.Content(a.a, off, n), h.Content(a.b, off, n))
	case ASplice:
		if off == a.dlo && end == a.dhi {
			return h.Content(a.b, a.soff, n)
		}
		if c.Le(end, a.dlo) == c.True || h.NonNeg(c.Sub(a.dlo, end)) {
			return h.Content(a.a, off, n)
		}
		if c.Le(a.dhi, off) == c.True {
			return h.Content(a.a, off, n)
		}
		if h.NonNeg(c.Sub(a.dlo, off)) && h.NonNeg(c.Sub(end, a.dhi)) && h.NonNeg(c.Sub(a.dhi, a.dlo)) {
			return c.Cat(h.Content(a.a, off, c.Sub(a.dlo, off)), h.Content(a.b, a.soff, c.Sub(a.dhi, a.dlo)), h.Content(a.a, a.dhi, c.Sub(end, a.dhi)))
		}
	case AStore:
		if n.isConst() && n.C.IsInt64() && n.C.Int64() <= 8 {
			var p []*Term
			for i := int64(0); i < n.C.Int64(); i++ {
				p = append(p, c.UF("bunit", SB, h.ReadA(a, c.AddK(off, i))))
			}
			return c.Cat(p...)
		}
		if c.Lt(a.idx, off) == c.True || c.Le(end, a.idx) == c.True || h.NonNeg(c.Sub(a.idx, end)) {
			return h.Content(a.a, off, n)
		}
		if c.AddK(a.idx, 1) == end {
			return c.Cat(h.Content(a.a, off, c.AddK(n, -1)), c.UF("bunit", SB, a.val))
		}
	}
	return c.UF(fmt.Sprintf("bc$node%d", a.id), SB, off, n)
}

// NonNeg is a syntactic sufficient test for t >= 0.
func (h *Heap) NonNeg(t *Term) bool {
	switch t.Op {
	case OConst:
		return t.C.Sign() >= 0
	case OLin:
		if t.C.Sign() < 0 {
			return false
		}
		for i, a := range t.Args {
			if t.Coef[i].Sign() < 0 || !h.NonNeg(a) {
				return false
			}
		}
		return true
	case OUF:
		if t.Name == "blen" {
			return true
		}
		if hs, ok := h.c.heapSym[t.Name]; ok {
			switch hs.Key.Role {
			case "len", "cap", "off":
				return true
			}
			if hs.Key.Typ != nil {
				if lo, _, ok := intRange(hs.Key.Typ); ok && lo.Sign() >= 0 {
					return true
				}
			}
		}
	case OVar:
		return h.nonneg[t]
	case OIte:
		return h.NonNeg(t.Args[1]) && h.NonNeg(t.Args[2])
	case OSum:
		return false
	case OMod:
		return true
	}
	return false
}
