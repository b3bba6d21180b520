package main

// Contract files: parsing and evaluation of specification expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Tags    []string
	Expr    ast.Expr
	Src     string
	Lbl     string
	File    string
	Line    int
	Assumed bool     // callers rely on it, nothing proves it (listed with the assumptions)
	Lemma   bool     // proved at the returns for the clauses that use it; callers do not see it
	Using   []string // labels of the clauses before it that its proof relies on
}

func (c *Clause) Name() string {
	if c.Lbl != "" {
		return c.Lbl
	}
	s := strings.Join(strings.Fields(c.Src), " ")
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

type LParam struct {
	Name string
	Type string
	Any  bool
	Own  bool
}

type LoopInv struct {
	*Clause
	Params []LParam
}

type Effect struct {
	*Clause
	LHS ast.Expr
}

type Contract struct {
	Key        string
	Pkg        *PkgCtx
	Params     []string
	Results    []string
	Requires   []*Clause
	Ensures    []*Clause
	Modifies   []*Clause
	Effects    []*Effect
	LoopInvs   []*LoopInv
	Trusted    bool
	Pure       bool
	Broken     bool
	Opt        bool // optional: function may vanish
	InlineFor  map[string]bool
	LightInv   bool            // invariants that are not written in the contract get one quick attempt
	Reveal     map[string]bool // opaque definitions seen through when verifying the body
	Tags       map[string]bool
	NoPanic    map[string]bool // properties whose check includes absence of panics here
	NoPanicAll bool
	File       string
	Line       int
}

func (c *Contract) Short() string {
	i := strings.LastIndex(c.Key, ".")
	return c.Key[i+1:]
}

type Macro struct {
	Name   string
	Params []string
	Body   ast.Expr
	Src    string
	Opaque bool
}

type UFun struct {
	Name string
	Args []Sort
	Res  Sort
	Rng  [2]*big.Int
}

type Axiom struct {
	Name   string
	Params []string // bound to the arguments of applications of Name
	Body   ast.Expr
	Src    string
	Tags   []string
	Pkg    *PkgCtx
	Multi  []string // further trigger functions, each binding params in order
	Trig   []trigPat
}

type trigPat struct {
	fn     string
	params []string
}

type PkgCtx struct {
	Pkg     *types.Package
	SSA     *ssa.Package
	Imports map[string]string
}

func (w *World) loadContracts(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := w.parseSpec(f); err != nil {
			return err
		}
	}
	return nil
}

var specKeywords = map[string]bool{"package": true, "import": true, "define": true, "ufun": true, "axiom": true, "func": true, "trusted": true,
	"requires": true, "ensures": true, "assumes": true, "lemma": true, "modifies": true, "effect": true, "loopinv": true, "pure": true, "optional": true, "inlinefor": true, "nopanic": true, "opaque": true, "reveal": true, "lightinv": true}

type specItem struct {
	kw, text string
	line     int
}

func (w *World) parseSpec(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var items []specItem
	for i, ln := range strings.Split(string(data), "\n") {
		if j := strings.Index(ln, "//"); j >= 0 {
			ln = ln[:j]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		kw := t
		if j := strings.IndexAny(t, " \t"); j >= 0 {
			kw = t[:j]
		}
		if specKeywords[kw] {
			items = append(items, specItem{kw, strings.TrimSpace(t[len(kw):]), i + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected text", file, i+1)
		}
	}
	pc := &PkgCtx{Imports: map[string]string{}}
	var cur *Contract
	fail := func(it specItem, f string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", filepath.Base(file), it.line, fmt.Sprintf(f, a...))
	}
	for _, it := range items {
		switch it.kw {
		case "package":
			npc := &PkgCtx{Imports: map[string]string{}}
			p := w.pkgByPath(it.text)
			if p == nil {
				return fail(it, "unknown package %s", it.text)
			}
			npc.Pkg = p
			npc.SSA = w.prog.Package(p)
			pc = npc
			cur = nil
		case "import":
			p := strings.Fields(it.text)
			pc.Imports[p[0]] = p[1]
		case "define", "opaque":
			opaque := it.kw == "opaque"
			if opaque {
				it.text = strings.TrimPrefix(strings.TrimSpace(it.text), "define")
			}
			name, params, rest, err := parseHead(it.text)
			if err != nil {
				return fail(it, "%v", err)
			}
			rest = strings.TrimSpace(rest)
			if !strings.HasPrefix(rest, "=") {
				return fail(it, "define needs =")
			}
			e, err := parser.ParseExpr(rest[1:])
			if err != nil {
				return fail(it, "%v", err)
			}
			w.macros[name] = &Macro{Name: name, Params: params, Body: e, Src: rest[1:], Opaque: opaque}
		case "ufun":
			name, params, rest, err := parseHead(it.text)
			if err != nil {
				return fail(it, "%v", err)
			}
			u := &UFun{Name: name}
			for _, p := range params {
				s, ok := specSort[p]
				if !ok {
					return fail(it, "sort %s", p)
				}
				u.Args = append(u.Args, s)
			}
			rs := strings.Fields(rest)
			s, ok := specSort[rs[0]]
			if !ok {
				return fail(it, "sort %s", rs[0])
			}
			u.Res = s
			if s == SInt && len(rs) == 3 {
				lo, _ := new(big.Int).SetString(rs[1], 0)
				hi, _ := new(big.Int).SetString(rs[2], 0)
				u.Rng = [2]*big.Int{lo, hi}
			}
			w.ufuns[name] = u
		case "axiom":
			// axiom [tags] {f(a,b), g(c)} body   or   axiom f(a,b): body
			tags, text := splitTags(it.text)
			ax := &Axiom{Tags: tags, Pkg: pc, Src: text}
			if !strings.HasPrefix(text, "{") {
				return fail(it, "axiom needs a {trigger}")
			}
			j := strings.Index(text, "}")
			for _, tr := range splitTop(text[1:j], ',') {
				n, ps, _, err := parseHead(strings.TrimSpace(tr))
				if err != nil {
					return fail(it, "%v", err)
				}
				ax.Trig = append(ax.Trig, trigPat{n, ps})
			}
			e, err := parser.ParseExpr(text[j+1:])
			if err != nil {
				return fail(it, "%v", err)
			}
			ax.Body = e
			w.axioms = append(w.axioms, ax)
		case "func", "trusted":
			text := it.text
			if it.kw == "trusted" {
				text = strings.TrimSpace(strings.TrimPrefix(text, "func"))
			}
			cur = &Contract{Pkg: pc, Trusted: it.kw == "trusted", File: filepath.Base(file), Line: it.line, InlineFor: map[string]bool{}, Reveal: map[string]bool{}, Tags: map[string]bool{}, NoPanic: map[string]bool{}}
			key, rest := splitKey(text)
			name, params, res, err := parseHead("f" + rest)
			_ = name
			if err != nil {
				return fail(it, "%v", err)
			}
			cur.Params = params
			if strings.TrimSpace(res) != "" {
				_, rp, _, err := parseHead("f" + strings.TrimSpace(res))
				if err != nil {
					return fail(it, "%v", err)
				}
				cur.Results = rp
			}
			cur.Key = w.qualify(pc, key)
			w.contracts[cur.Key] = cur
			w.order = append(w.order, cur.Key)
		default:
			if cur == nil {
				return fail(it, "clause outside a contract")
			}
			tags, text := splitTags(it.text)
			for _, t := range tags {
				cur.Tags[t] = true
			}
			cl := &Clause{Tags: tags, File: filepath.Base(file), Line: it.line}
			switch it.kw {
			case "pure":
				cur.Pure = true
				continue
			case "optional":
				cur.Opt = true
				continue
			case "nopanic":
				if len(tags) == 0 {
					cur.NoPanicAll = true
				}
				for _, t := range tags {
					cur.NoPanic[t] = true
				}
				continue
			case "lightinv":
				cur.LightInv = true
				continue
			case "reveal":
				for _, t := range strings.Fields(text) {
					if len(tags) == 0 {
						cur.Reveal[t] = true
					}
					for _, p := range tags {
						cur.Reveal[t+"@"+p] = true
					}
				}
				continue
			case "inlinefor":
				for _, t := range strings.Fields(text) {
					cur.InlineFor[t] = true
				}
				continue
			case "modifies":
				for _, p := range splitTop(text, ',') {
					e, err := parser.ParseExpr(p)
					if err != nil {
						return fail(it, "%v", err)
					}
					cur.Modifies = append(cur.Modifies, &Clause{Tags: tags, Expr: e, Src: p, File: cl.File, Line: cl.Line})
				}
				continue
			case "effect":
				j := strings.Index(text, ":=")
				l, err := parser.ParseExpr(text[:j])
				if err != nil {
					return fail(it, "%v", err)
				}
				e, err := parser.ParseExpr(text[j+2:])
				if err != nil {
					return fail(it, "%v", err)
				}
				cl.Expr, cl.Src = e, text
				cur.Effects = append(cur.Effects, &Effect{cl, l})
				continue
			}
			var lps []LParam
			if it.kw == "loopinv" && strings.HasPrefix(text, "(") {
				j := matchParen(text, 0)
				for _, p := range splitTop(text[1:j], ',') {
					fs := strings.Fields(p)
					lp := LParam{Name: fs[0], Type: fs[len(fs)-1]}
					for _, m := range fs[1 : len(fs)-1] {
						if m == "any" {
							lp.Any = true
						}
						if m == "own" {
							lp.Own = true
						}
					}
					lps = append(lps, lp)
				}
				text = text[j+1:]
			}
			if strings.HasPrefix(strings.TrimSpace(text), "\"") {
				tt := strings.TrimSpace(text)
				j := strings.Index(tt[1:], "\"")
				cl.Lbl = tt[1 : j+1]
				text = tt[j+2:]
				if u := strings.TrimSpace(text); strings.HasPrefix(u, "using ") {
					text = strings.TrimSpace(u[6:])
					for strings.HasPrefix(text, "\"") {
						j := strings.Index(text[1:], "\"")
						cl.Using = append(cl.Using, text[1:j+1])
						text = strings.TrimSpace(text[j+2:])
					}
				}
			}
			e, err := parser.ParseExpr(text)
			if err != nil {
				return fail(it, "%v in %s", err, text)
			}
			cl.Expr, cl.Src = e, strings.TrimSpace(text)
			switch it.kw {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "ensures", "assumes", "lemma":
				cl.Lemma = it.kw == "lemma"
				cl.Assumed = it.kw == "assumes"
				cur.Ensures = append(cur.Ensures, cl)
			case "loopinv":
				cur.LoopInvs = append(cur.LoopInvs, &LoopInv{cl, lps})
			}
		}
	}
	return nil
}

var specSort = map[string]Sort{"int": SInt, "bool": SBool, "loc": SLoc, "hash": SU, "u": SU, "bytes": SB, "f32": SF32, "f64": SF64}

func splitTags(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "[") {
		return nil, s
	}
	j := strings.Index(s, "]")
	var tags []string
	for _, t := range strings.Split(s[1:j], ",") {
		tags = append(tags, strings.TrimSpace(t))
	}
	return tags, strings.TrimSpace(s[j+1:])
}

func matchParen(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" {
		out = append(out, t)
	}
	return out
}

// parseHead: name(a, b) rest
func parseHead(s string) (string, []string, string, error) {
	i := strings.Index(s, "(")
	if i < 0 {
		return "", nil, "", fmt.Errorf("missing ( in %q", s)
	}
	j := matchParen(s, i)
	if j < 0 {
		return "", nil, "", fmt.Errorf("unbalanced in %q", s)
	}
	return strings.TrimSpace(s[:i]), splitTop(s[i+1:j], ','), s[j+1:], nil
}

// splitKey separates "(*T).Name" or "Name" from "(params) (results)".
func splitKey(s string) (string, string) {
	i := 0
	if strings.HasPrefix(s, "(") {
		i = matchParen(s, 0) + 1
	}
	j := i + strings.Index(s[i:], "(")
	return strings.TrimSpace(s[:j]), s[j:]
}

func (w *World) qualify(pc *PkgCtx, key string) string {
	q := func(n string) string {
		if j := strings.Index(n, "."); j >= 0 && !strings.Contains(n, "/") {
			if p, ok := pc.Imports[n[:j]]; ok {
				return p + n[j:]
			}
			return n
		}
		if strings.Contains(n, "/") {
			return n
		}
		return typeKeyPkg(pc.Pkg) + "." + n
	}
	if strings.HasPrefix(key, "(") {
		j := matchParen(key, 0)
		in := key[1:j]
		star := ""
		if strings.HasPrefix(in, "*") {
			star, in = "*", in[1:]
		}
		return "(" + star + q(in) + ")" + key[j+1:]
	}
	return q(key)
}

// ---- evaluation ----

type TV struct {
	V Val
	T types.Type // nil: mathematical / untyped
}

type Env struct {
	con   *Contract
	pkg   *PkgCtx
	vars  map[string]TV
	st    *State
	old   *State
	level int
}

func (g *Gen) newEnv(con *Contract, st, old *State) *Env {
	return &Env{con: con, pkg: con.Pkg, vars: map[string]TV{}, st: st, old: old}
}

func (e *Env) with(k string, v TV) *Env {
	n := *e
	n.vars = make(map[string]TV, len(e.vars)+1)
	for a, b := range e.vars {
		n.vars[a] = b
	}
	n.vars[k] = v
	return &n
}

type specErr struct{ msg string }

func (g *Gen) evalBool(env *Env, x ast.Expr) *Term {
	v := g.eval(env, x)
	t, ok := v.V.(*Term)
	if !ok || t.Sort != SBool {
		panic(unsup("specification clause is not boolean: %s", exprString(x)))
	}
	return t
}

func (g *Gen) evalInt(env *Env, x ast.Expr) *Term {
	v := g.eval(env, x)
	t, ok := v.V.(*Term)
	if !ok || t.Sort != SInt {
		panic(unsup("specification expression is not an integer: %s", exprString(x)))
	}
	return t
}

func exprString(x ast.Expr) string { return types.ExprString(x) }

func (g *Gen) eval(env *Env, x ast.Expr) TV {
	c := g.c
	switch e := x.(type) {
	case *ast.ParenExpr:
		return g.eval(env, e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT, token.CHAR:
			v := constant.MakeFromLiteral(e.Value, e.Kind, 0)
			b, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
			return TV{c.Big(b), nil}
		case token.STRING:
			return TV{g.strLit(constant.StringVal(constant.MakeFromLiteral(e.Value, e.Kind, 0))), nil}
		}
	case *ast.Ident:
		return g.evalIdent(env, e.Name)
	case *ast.StarExpr:
		p := g.eval(env, e.X)
		pt, ok := p.T.Underlying().(*types.Pointer)
		if !ok {
			panic(unsup("spec: * of non-pointer %s", exprString(x)))
		}
		return TV{g.loadPtr(env.st, p.V, pt.Elem()), pt.Elem()}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return TV{c.Not(g.evalBool(env, e.X)), nil}
		case token.SUB:
			return TV{c.Sub(c.Zero, g.evalInt(env, e.X)), nil}
		case token.AND:
			return g.evalAddr(env, e.X)
		}
	case *ast.BinaryExpr:
		return g.evalBinary(env, e)
	case *ast.SelectorExpr:
		return g.evalSelector(env, e)
	case *ast.IndexExpr:
		b := g.eval(env, e.X)
		i := g.evalInt(env, e.Index)
		if s, ok := b.V.(*SliceV); ok {
			et := b.T.Underlying().(*types.Slice).Elem()
			return TV{g.loadElem(env.st, et, s.Arr, c.Add(s.Off, i)), et}
		}
		if t, ok := b.V.(*Term); ok && t.Sort == SB {
			return TV{c.UF("bget", SInt, t, i), nil}
		}
		panic(unsup("spec: cannot index %s", exprString(e.X)))
	case *ast.SliceExpr:
		b := g.eval(env, e.X)
		s := b.V.(*SliceV)
		lo, hi := c.Zero, s.Len
		if e.Low != nil {
			lo = g.evalInt(env, e.Low)
		}
		if e.High != nil {
			hi = g.evalInt(env, e.High)
		}
		return TV{&SliceV{s.Arr, c.Add(s.Off, lo), c.Sub(hi, lo), c.Sub(s.Cap, lo)}, b.T}
	case *ast.CallExpr:
		return g.evalCall(env, e)
	}
	panic(unsup("spec: unsupported expression %s", exprString(x)))
}

func (g *Gen) evalIdent(env *Env, name string) TV {
	c := g.c
	if v, ok := env.vars[name]; ok {
		return v
	}
	switch name {
	case "nil":
		return TV{c.NilLoc, nil}
	case "true":
		return TV{c.True, nil}
	case "false":
		return TV{c.False, nil}
	}
	if env.pkg.Pkg != nil {
		if o := env.pkg.Pkg.Scope().Lookup(name); o != nil {
			return g.evalObj(o)
		}
	}
	if m := g.w.macros[name]; m != nil && len(m.Params) == 0 {
		return g.eval(env, m.Body)
	}
	panic(unsup("spec: unknown name %s", name))
}

func (g *Gen) evalObj(o types.Object) TV {
	switch x := o.(type) {
	case *types.Const:
		return TV{g.constVal(x.Val(), x.Type()), x.Type()}
	case *types.Var:
		sp := g.w.prog.Package(x.Pkg())
		gl, ok := sp.Members[x.Name()].(*ssa.Global)
		if !ok {
			panic(unsup("spec: global %s", x.Name()))
		}
		return TV{g.globalVal(gl), x.Type()}
	}
	panic(unsup("spec: object %s", o.Name()))
}

func deref(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

// findField resolves a (possibly promoted) field to an index path.
func findField(t types.Type, name string) []int {
	_, path, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if path == nil {
		// unexported fields need the package
		if n, ok := types.Unalias(t).(*types.Named); ok {
			_, path, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	return path
}

func (g *Gen) evalSelector(env *Env, e *ast.SelectorExpr) TV {
	if id, ok := e.X.(*ast.Ident); ok {
		if _, isVar := env.vars[id.Name]; !isVar {
			if path, ok := env.pkg.Imports[id.Name]; ok {
				p := g.w.pkgByPath(path)
				if p == nil {
					panic(unsup("spec: package %s", path))
				}
				o := p.Scope().Lookup(e.Sel.Name)
				if o == nil {
					panic(unsup("spec: %s.%s not found", id.Name, e.Sel.Name))
				}
				return g.evalObj(o)
			}
		}
	}
	b := g.eval(env, e.X)
	if b.T == nil {
		panic(unsup("spec: selector on untyped value %s", exprString(e)))
	}
	return g.field(env.st, b, e.Sel.Name)
}

func (g *Gen) field(st *State, b TV, name string) TV {
	bt, isPtr := deref(b.T)
	if _, ok := bt.Underlying().(*types.Struct); !ok {
		panic(unsup("spec: field %s of %s", name, b.T))
	}
	path := findField(bt, name)
	if path == nil {
		panic(unsup("spec: no field %s in %s", name, bt))
	}
	for _, i := range path {
		ft := structOf(bt).Field(i).Type()
		if isPtr {
			b = TV{g.loadField(st, bt, i, scalar(b.V)), ft}
		} else {
			b = TV{b.V.(*StructV).F[i], ft}
		}
		bt, isPtr = deref(ft)
	}
	return b
}

func (g *Gen) evalAddr(env *Env, x ast.Expr) TV {
	switch e := x.(type) {
	case *ast.ParenExpr:
		return g.evalAddr(env, e.X)
	case *ast.SelectorExpr:
		b := g.eval(env, e.X)
		bt, isPtr := deref(b.T)
		if !isPtr {
			// address of a nested struct field
			b = g.evalAddr(env, e.X)
			bt, _ = deref(b.T)
		}
		path := findField(bt, e.Sel.Name)
		loc := scalar(b.V)
		for n, i := range path {
			ft := structOf(bt).Field(i).Type()
			if kindOf(ft) == KStruct {
				loc = g.fld(bt, i, loc)
				bt = ft
				continue
			}
			if n == len(path)-1 {
				return TV{&AddrV{Key: fieldKey(bt, i), Typ: ft, Loc: loc}, types.NewPointer(ft)}
			}
			loc = scalar(g.loadField(env.st, bt, i, loc))
			bt, _ = deref(ft)
		}
		return TV{loc, types.NewPointer(bt)}
	case *ast.IndexExpr:
		b := g.eval(env, e.X)
		s := b.V.(*SliceV)
		et := b.T.Underlying().(*types.Slice).Elem()
		return TV{g.elemAddr(et, s.Arr, g.c.Add(s.Off, g.evalInt(env, e.Index))), types.NewPointer(et)}
	case *ast.StarExpr:
		return g.eval(env, e.X)
	}
	panic(unsup("spec: cannot take the address of %s", exprString(x)))
}

func (g *Gen) evalBinary(env *Env, e *ast.BinaryExpr) TV {
	c := g.c
	switch e.Op {
	case token.LAND:
		return TV{c.And(g.evalBool(env, e.X), g.evalBool(env, e.Y)), nil}
	case token.LOR:
		return TV{c.nary(OOr, c.False, c.True, []*Term{g.evalBool(env, e.X), g.evalBool(env, e.Y)}), nil}
	}
	a, b := g.eval(env, e.X), g.eval(env, e.Y)
	switch e.Op {
	case token.EQL:
		return TV{g.specEq(env, a, b), nil}
	case token.NEQ:
		return TV{c.Not(g.specEq(env, a, b)), nil}
	}
	x, y := scalar(a.V), scalar(b.V)
	if x.Sort == SB && e.Op == token.ADD {
		return TV{c.Cat(x, y), nil}
	}
	if x.Sort != SInt || y.Sort != SInt {
		panic(unsup("spec: operator %s on non-integers in %s", e.Op, exprString(e)))
	}
	switch e.Op {
	case token.ADD:
		return TV{c.Add(x, y), nil}
	case token.SUB:
		return TV{c.Sub(x, y), nil}
	case token.MUL:
		return TV{c.Mul(x, y), nil}
	case token.QUO:
		return TV{c.Div(x, y), nil}
	case token.REM:
		return TV{c.Mod(x, y), nil}
	case token.LSS:
		return TV{c.Lt(x, y), nil}
	case token.LEQ:
		return TV{c.Le(x, y), nil}
	case token.GTR:
		return TV{c.Lt(y, x), nil}
	case token.GEQ:
		return TV{c.Le(y, x), nil}
	case token.AND:
		return TV{g.bitAnd(x, y, types.Typ[types.Uint64]), nil}
	case token.OR:
		return TV{c.Sub(c.Add(x, y), g.bitAnd(x, y, types.Typ[types.Uint64])), nil}
	}
	panic(unsup("spec: operator %s", e.Op))
}

func (g *Gen) specEq(env *Env, a, b TV) *Term {
	c := g.c
	sa, okA := a.V.(*SliceV)
	sb, okB := b.V.(*SliceV)
	switch {
	case okA && okB:
		return c.And(c.Eq(sa.Arr, sb.Arr), c.Eq(sa.Off, sb.Off), c.Eq(sa.Len, sb.Len))
	case okA:
		return c.Eq(sa.Arr, scalar(b.V))
	case okB:
		return c.Eq(sb.Arr, scalar(a.V))
	}
	if x, ok := a.V.(*StructV); ok {
		y := b.V.(*StructV)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, g.specEq(env, TV{x.F[i], nil}, TV{y.F[i], nil}))
		}
		return c.And(cs...)
	}
	if x, ok := a.V.(*AddrV); ok {
		return g.eqVal(env.st, x, b.V, nil)
	}
	return c.Eq(scalar(a.V), scalar(b.V))
}

func (g *Gen) evalCall(env *Env, e *ast.CallExpr) TV {
	c := g.c
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		panic(unsup("spec: call of %s", exprString(e.Fun)))
	}
	arg := func(i int) TV { return g.eval(env, e.Args[i]) }
	term := func(i int) *Term { return scalar(arg(i).V) }
	name := func(i int) string {
		n, ok := e.Args[i].(*ast.Ident)
		if !ok {
			panic(unsup("spec: %s needs a variable name", id.Name))
		}
		return n.Name
	}
	bind := func(n string) (*Env, *Term) {
		b := c.BVar(fmt.Sprintf("t%d#", env.level), SInt)
		ne := env.with(n, TV{b, nil})
		ne.level = env.level + 1
		return ne, b
	}
	// canon names the bound variable after the depth of what it binds, so that the same
	// formula is the same term wherever it stands
	canon := func(b *Term, ts ...*Term) *Term {
		h := 0
		for _, t := range ts {
			if n := g.nesting(t); n > h {
				h = n
			}
		}
		nb := c.BVar(fmt.Sprintf("k%d#", h), SInt)
		m, memo := map[*Term]*Term{b: nb}, map[*Term]*Term{}
		for i, t := range ts {
			ts[i] = c.subst(t, m, memo)
		}
		return nb
	}
	boolT := func(t *Term) TV { return TV{t, nil} }
	switch id.Name {
	case "old":
		ne := *env
		ne.st = env.old
		return g.eval(&ne, e.Args[0])
	case "len":
		v := arg(0)
		if s, ok := v.V.(*SliceV); ok {
			return TV{s.Len, nil}
		}
		return TV{c.BLen(scalar(v.V)), nil}
	case "cap":
		return TV{arg(0).V.(*SliceV).Cap, nil}
	case "int", "int64", "uint64", "uint32", "int32", "uint", "uint8", "byte":
		return TV{term(0), nil}
	case "wrap64":
		return TV{c.Mod(term(0), c.Big(two64)), nil}
	case "wraps64":
		return TV{g.wrap(term(0), types.Typ[types.Int64], false), nil}
	case "wrap32":
		return TV{c.Mod(term(0), c.Big(new(big.Int).Lsh(big.NewInt(1), 32))), nil}
	case "implies":
		a := g.evalBool(env, e.Args[0])
		if a == c.False {
			return boolT(c.True)
		}
		return boolT(c.Implies(a, g.evalBool(env, e.Args[1])))
	case "iff":
		return boolT(c.Eq(g.evalBool(env, e.Args[0]), g.evalBool(env, e.Args[1])))
	case "ite":
		a, b := arg(1), arg(2)
		return TV{g.iteVal(g.evalBool(env, e.Args[0]), a.V, b.V), a.T}
	case "forall": // forall(k, lo, hi, body)
		lo, hi := g.evalInt(env, e.Args[1]), g.evalInt(env, e.Args[2])
		ne, b := bind(name(0))
		body := g.evalBool(ne, e.Args[3])
		ts := []*Term{c.Implies(c.And(c.Le(lo, b), c.Lt(b, hi)), body)}
		b = canon(b, ts...)
		return boolT(c.Forall([]*Term{b}, ts[0]))
	case "exists":
		lo, hi := g.evalInt(env, e.Args[1]), g.evalInt(env, e.Args[2])
		ne, b := bind(name(0))
		body := g.evalBool(ne, e.Args[3])
		ts := []*Term{c.Not(c.And(c.Le(lo, b), c.Lt(b, hi), body))}
		b = canon(b, ts...)
		return boolT(c.Not(c.Forall([]*Term{b}, ts[0])))
	case "distinct": // distinct(k, lo, hi, e1, e2...)
		lo, hi := g.evalInt(env, e.Args[1]), g.evalInt(env, e.Args[2])
		ne, b := bind(name(0))
		as := []*Term{c.And(c.Le(lo, b), c.Lt(b, hi))}
		for _, a := range e.Args[3:] {
			v := g.eval(ne, a).V
			as = append(as, valComps(v)...)
		}
		b = canon(b, as...)
		return boolT(c.Distinct(b, as))
	case "sum": // sum(kind, k, n, body)
		n := g.evalInt(env, e.Args[2])
		ne, b := bind(name(1))
		ts := []*Term{g.evalInt(ne, e.Args[3])}
		b = canon(b, ts...)
		return TV{c.Sum(name(0), b, ts[0], n), nil}
	case "catall":
		n := g.evalInt(env, e.Args[2])
		ne, b := bind(name(1))
		ts := []*Term{scalar(g.eval(ne, e.Args[3]).V)}
		b = canon(b, ts...)
		return TV{c.Fold(name(0), b, ts[0], n), nil}
	case "fresh":
		v := arg(0).V
		l, isS := v.(*SliceV)
		var t *Term
		if isS {
			t = l.Arr
		} else {
			t = scalar(v)
		}
		return boolT(c.And(c.Le(env.old.alloc, g.rid(t)), c.Lt(g.rid(t), env.st.alloc)))
	case "freshornil":
		t := arg(0).V.(*SliceV).Arr
		return boolT(c.nary(OOr, c.False, c.True, []*Term{c.Eq(t, c.NilLoc), c.And(c.Le(env.old.alloc, g.rid(t)), c.Lt(g.rid(t), env.st.alloc))}))
	case "allocated":
		v := arg(0).V
		if s, ok := v.(*SliceV); ok {
			return boolT(c.Lt(g.rid(s.Arr), env.st.alloc))
		}
		return boolT(c.Lt(g.rid(scalar(v)), env.st.alloc))
	case "same":
		a, b := arg(0).V.(*SliceV), arg(1).V.(*SliceV)
		return boolT(c.And(c.Eq(a.Arr, b.Arr), c.Eq(a.Off, b.Off), c.Eq(a.Len, b.Len)))
	case "samearr":
		a, b := arg(0).V.(*SliceV), arg(1).V.(*SliceV)
		return boolT(c.Eq(a.Arr, b.Arr))
	case "bytes":
		v := arg(0)
		if s, ok := v.V.(*SliceV); ok {
			return TV{g.bytesOf(env.st, s), nil}
		}
		return TV{scalar(v.V), nil}
	case "content":
		l := g.contentLocTV(arg(0))
		return TV{g.h.Read(g.get(env.st, g.ghostKey("content", SB)), l), nil}
	case "ecause":
		return TV{g.ecause(term(0)), nil}
	case "iptr":
		return TV{g.iptr(term(0)), nil}
	case "cat":
		var ts []*Term
		for i := range e.Args {
			ts = append(ts, term(i))
		}
		return TV{c.Cat(ts...), nil}
	case "drop":
		return TV{c.BDrop(term(0), term(1)), nil}
	case "emptyb":
		return TV{c.EmptyB, nil}
	case "le":
		w := term(1)
		return TV{c.UF("le", SB, term(0), w), nil}
	case "bunit":
		return TV{c.UF("bunit", SB, term(0)), nil}
	case "hbytes":
		return TV{c.UF("hbytes", SB, term(0)), nil}
	case "zerohash":
		return TV{c.Var("zero$arr32.uint8", SU), nil}
	case "sha256":
		return TV{c.UF("sha256", SU, term(0)), nil}
	case "feeUp", "feeDown":
		return TV{g.feeTerm(id.Name == "feeUp", term(0), term(1)), nil}
	case "f64":
		t := term(0)
		if t.Sort == SF32 {
			return TV{c.UF("f64.of32", SF64, t), nil}
		}
		return TV{c.UF("f64.ofint", SF64, t), nil}
	case "f32":
		t := term(0)
		if t.Sort == SF64 {
			return TV{c.UF("f32.of64", SF32, t), nil}
		}
		return TV{c.UF("f32.ofint", SF32, t), nil}
	case "f64lit":
		return TV{g.constVal(constant.MakeFromLiteral(exprString(e.Args[0]), token.FLOAT, 0), types.Typ[types.Float64]), nil}
	case "f32lit":
		return TV{g.constVal(constant.MakeFromLiteral(exprString(e.Args[0]), token.FLOAT, 0), types.Typ[types.Float32]), nil}
	case "fmul", "flt", "fle", "feq":
		x, y := term(0), term(1)
		t := types.Typ[types.Float64]
		if x.Sort == SF32 {
			t = types.Typ[types.Float32]
		}
		op := map[string]token.Token{"fmul": token.MUL, "flt": token.LSS, "fle": token.LEQ, "feq": token.EQL}[id.Name]
		return TV{g.binop(env.st, op, x, y, t, t, t, token.NoPos), nil}
	case "f2u64":
		t := term(0)
		if t.Sort == SF32 {
			return TV{g.convert(env.st, t, types.Typ[types.Float32], types.Typ[types.Uint64]), nil}
		}
		return TV{g.convert(env.st, t, types.Typ[types.Float64], types.Typ[types.Uint64]), nil}
	case "typeis":
		t := g.w.resolveTypeExpr(env.pkg, e.Args[1])
		l := term(0)
		return boolT(c.And(c.Not(c.Eq(l, c.NilLoc)), c.Eq(g.ityp(l), c.Int(int64(g.w.typeID(t))))))
	case "as": // as(x, T): view of a pointer
		t := g.w.resolveTypeExpr(env.pkg, e.Args[1])
		v := arg(0)
		if v.T != nil && types.IsInterface(v.T) {
			return TV{g.iptr(scalar(v.V)), t}
		}
		return TV{v.V, t}
	}
	if m := g.w.macros[id.Name]; m != nil {
		if len(m.Params) != len(e.Args) {
			panic(unsup("spec: macro %s needs %d arguments", id.Name, len(m.Params)))
		}
		ne := *env
		ne.vars = map[string]TV{}
		for i, p := range m.Params {
			ne.vars[p] = arg(i)
		}
		ne.level = env.level
		v := g.eval(&ne, m.Body)
		if t, ok := v.V.(*Term); ok && m.Opaque && (g.contract == nil || !g.contract.Reveal[m.Name] && !g.contract.Reveal[m.Name+"@"+g.prop]) {
			v.V = g.conceal(m, &ne, t)
		}
		return v
	}
	if u := g.w.ufuns[id.Name]; u != nil {
		if len(u.Args) != len(e.Args) {
			panic(unsup("spec: ufun %s needs %d arguments", id.Name, len(u.Args)))
		}
		var ts []*Term
		for i := range e.Args {
			v := arg(i).V
			if s, ok := v.(*SliceV); ok && u.Args[i] == SB {
				ts = append(ts, g.bytesOf(env.st, s))
				continue
			}
			ts = append(ts, scalar(v))
		}
		if u.Rng[0] != nil {
			g.ufRange["u$"+u.Name] = u.Rng
		}
		return TV{c.UF("u$"+u.Name, u.Res, ts...), nil}
	}
	panic(unsup("spec: unknown function %s", id.Name))
}

// nesting is the number of quantifiers and sums nested in a term.
func (g *Gen) nesting(t *Term) int {
	if len(t.Args) == 0 {
		return 0
	}
	if d, ok := g.depths[t]; ok {
		return d
	}
	d := 0
	for _, a := range t.Args {
		if n := g.nesting(a); n > d {
			d = n
		}
	}
	if len(t.BV) > 0 {
		d++
	}
	g.depths[t] = d
	return d
}

// conceal stands for the value of an opaque definition: a function of the arguments when
// they are plain values, otherwise a constant for equal terms.  Nothing but its range is known.
func (g *Gen) conceal(m *Macro, env *Env, t *Term) *Term {
	var args []*Term
	for _, p := range m.Params {
		x, ok := env.vars[p].V.(*Term)
		if !ok || x.Sort == SLoc {
			args = nil
			break
		}
		args = append(args, x)
	}
	lo, hi := (*big.Int)(nil), (*big.Int)(nil)
	if t.Sort == SInt {
		lo, hi = g.bounds(t)
	}
	if len(args) > 0 {
		n := "opq$" + m.Name
		if t.Sort == SInt {
			max, _ := new(big.Int).SetString("18446744073709551615", 10)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(max) > 0 {
				panic(unsup("spec: opaque %s is not in the range of uint64", m.Name))
			}
			g.ufRange[n] = [2]*big.Int{new(big.Int), max}
		}
		return g.c.UF(n, t.Sort, args...)
	}
	if !t.closed() {
		panic(unsup("spec: opaque %s under a quantifier", m.Name))
	}
	if t.Op == OConst || t.Op == OVar {
		return t
	}
	x := g.c.Var(fmt.Sprintf("opq$%s!%d", m.Name, t.ID), t.Sort)
	if lo != nil && hi != nil {
		g.vrange[x] = [2]*big.Int{lo, hi}
	}
	return x
}

func (g *Gen) contentLocTV(v TV) *Term {
	if iv, ok := v.V.(*IfaceV); ok {
		return g.iptr(iv.T)
	}
	t := scalar(v.V)
	if v.T != nil && types.IsInterface(v.T) {
		return g.iptr(t)
	}
	return t
}

// feeTerm is the exact floating-point expression uint64(ceil(float64(size)*rate)).
func (g *Gen) feeTerm(up bool, size, rate *Term) *Term {
	c := g.c
	if rate.Sort == SF32 {
		rate = c.UF("f64.of32", SF64, rate)
	}
	f64 := types.Typ[types.Float64]
	m := scalar(g.binop(nil, token.MUL, c.UF("f64.ofint", SF64, size), rate, f64, f64, f64, token.NoPos))
	n := "f64.ceil"
	if !up {
		n = "f64.floor"
	}
	return scalar(g.convert(nil, c.UF(n, SF64, m), f64, types.Typ[types.Uint64]))
}

// ---- modifies ----

type modLoc struct {
	key *KeyInfo
	loc *Term // nil when set
	set *eachSet
	all bool // every location of the key
}

type eachSet struct {
	bv, lo, hi, loc *Term
}

func (g *Gen) member(s *eachSet, l *Term) *Term {
	c := g.c
	w := c.UF(fmt.Sprintf("wit$%d_%d_%d", s.loc.ID, s.lo.ID, s.hi.ID), SInt, l)
	return c.And(c.Le(s.lo, w), c.Lt(w, s.hi), c.Eq(c.Subst(s.loc, map[*Term]*Term{s.bv: w}), l))
}

func (g *Gen) leafMods(t types.Type, key string, loc *Term) []modLoc {
	var out []modLoc
	for _, lc := range leafComps(t) {
		out = append(out, modLoc{key: g.keyInfo(key+lc.suf, false, lc.sort, t, lc.role), loc: loc})
	}
	return out
}

func (g *Gen) structMods(t types.Type, loc *Term) []modLoc {
	var out []modLoc
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if kindOf(ft) == KStruct {
			out = append(out, g.structMods(ft, g.fld(t, i, loc))...)
		} else {
			out = append(out, g.leafMods(ft, fieldKey(t, i), loc)...)
		}
	}
	return out
}

func (g *Gen) lvalue(env *Env, x ast.Expr) []modLoc {
	if ce, ok := x.(*ast.CallExpr); ok {
		id := ce.Fun.(*ast.Ident).Name
		switch id {
		case "elems":
			v := g.eval(env, ce.Args[0])
			s := v.V.(*SliceV)
			et := v.T.Underlying().(*types.Slice).Elem()
			if kindOf(et) == KStruct {
				panic(unsup("modifies elems of structs"))
			}
			var out []modLoc
			for _, lc := range leafComps(et) {
				out = append(out, modLoc{key: g.keyInfo(elemKeyOf(et)+lc.suf, true, lc.sort, et, lc.role), loc: s.Arr})
			}
			return out
		case "content":
			return []modLoc{{key: g.ghostKey("content", SB), loc: g.contentLocTV(g.eval(env, ce.Args[0]))}}
		case "any": // any(lvalue): this field or element of every object
			var out []modLoc
			for _, m := range g.lvalue(env, ce.Args[0]) {
				out = append(out, modLoc{key: m.key, all: true})
			}
			return out
		case "each": // each(k, lo, hi, lvalue)
			lo, hi := g.evalInt(env, ce.Args[1]), g.evalInt(env, ce.Args[2])
			b := g.c.BVar(fmt.Sprintf("k%d#", env.level), SInt)
			ne := env.with(ce.Args[0].(*ast.Ident).Name, TV{b, nil})
			ne.level++
			var out []modLoc
			for _, m := range g.lvalue(ne, ce.Args[3]) {
				out = append(out, modLoc{key: m.key, set: &eachSet{b, lo, hi, m.loc}})
			}
			return out
		}
	}
	if se, ok := x.(*ast.StarExpr); ok {
		p := g.eval(env, se.X)
		t, _ := deref(p.T)
		if kindOf(t) == KStruct {
			return g.structMods(t, scalar(p.V))
		}
		if a, ok := p.V.(*AddrV); ok {
			return g.leafMods(a.Typ, a.Key, a.Loc)
		}
		return g.leafMods(t, "cell:"+typeKey(t), scalar(p.V))
	}
	a := g.evalAddr(env, x)
	t, _ := deref(a.T)
	switch v := a.V.(type) {
	case *AddrV:
		if v.Idx != nil {
			panic(unsup("modifies of a single element"))
		}
		return g.leafMods(v.Typ, v.Key, v.Loc)
	case *Term:
		if kindOf(t) == KStruct {
			return g.structMods(t, v)
		}
		return g.leafMods(t, "cell:"+typeKey(t), v)
	}
	panic(unsup("modifies %s", exprString(x)))
}

func (g *Gen) evalMods(env *Env, con *Contract) []modLoc {
	var out []modLoc
	for _, m := range con.Modifies {
		if !g.clauseOn(m) {
			continue
		}
		out = append(out, g.lvalue(env, m.Expr)...)
	}
	return out
}

func (g *Gen) applyEffect(env *Env, post *State, ef *Effect) {
	pe := *env
	pe.st = env.old
	ms := g.lvalue(&pe, ef.LHS)
	if len(ms) != 1 {
		panic(unsup("effect on a compound value"))
	}
	rhs := g.eval(&pe, ef.Expr)
	g.set(post, ms[0].key, g.h.Store(g.get(post, ms[0].key), ms[0].loc, scalar(rhs.V)), ms[0].loc)
}

// frameCond: l is outside the declared modifies set for key k.
func (g *Gen) frameCond(k string, l *Term) (*Term, bool) {
	ms, ok := g.mods[k]
	if !ok || len(ms) == 0 {
		return nil, false
	}
	r := g.c.True
	for _, m := range ms {
		if m.all {
			return g.c.False, true
		}
		if m.set != nil {
			r = g.c.And(r, g.c.Not(g.member(m.set, l)))
		} else {
			r = g.c.And(r, g.c.Not(g.c.Eq(l, m.loc)))
		}
	}
	return r, true
}
