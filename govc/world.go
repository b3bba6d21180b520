package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type bigI = big.Int

var bigOne = big.NewInt(1)
var bigMinus1 = big.NewInt(-1)
var bigMaxLen = big.NewInt(maxLen)

type World struct {
	prog      *ssa.Program
	mu        sync.Mutex
	pkgs      map[string]*types.Package
	contracts map[string]*Contract
	order     []string
	macros    map[string]*Macro
	ufuns     map[string]*UFun
	axioms    []*Axiom
	tids      map[string]int
	repo      string
	fns       map[string]*ssa.Function
}

func loadWorld(repo string) (*World, error) {
	w := &World{pkgs: map[string]*types.Package{}, contracts: map[string]*Contract{}, macros: map[string]*Macro{}, ufuns: map[string]*UFun{}, tids: map[string]int{}, repo: repo, fns: map[string]*ssa.Function{}}
	dir, flags, err := modCopy(repo)
	defer os.RemoveAll(dir)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(flags)}
	ps, err := packages.Load(cfg, ".", "./fees")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	w.prog = prog
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p.Pkg
		if strings.HasPrefix(p.Pkg.Path(), "github.com/tokenized/") {
			p.Build()
		}
	}
	for _, p := range prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), "github.com/tokenized/") {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				w.addFn(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							w.addFn(f)
						}
					}
				}
			}
		}
	}
	return w, nil
}

func (w *World) addFn(f *ssa.Function) { w.fns[shortName(f.String())] = f }

func (w *World) pkgByPath(p string) *types.Package {
	if x, ok := w.pkgs[p]; ok {
		return x
	}
	return w.pkgs["github.com/tokenized/"+p]
}

func (w *World) typeID(t types.Type) int { return w.typeIDName(typeKey(t)) }
func (w *World) typeIDName(s string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if id, ok := w.tids[s]; ok {
		return id
	}
	w.tids[s] = len(w.tids) + 1
	return w.tids[s]
}
func (w *World) errTypeID() int { return w.typeIDName("$error") }

func (w *World) resolveType(pc *PkgCtx, s string) types.Type {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(unsup("type %s: %v", s, err))
	}
	return w.resolveTypeExpr(pc, e)
}

func (w *World) resolveTypeExpr(pc *PkgCtx, e ast.Expr) types.Type {
	switch x := e.(type) {
	case *ast.StarExpr:
		return types.NewPointer(w.resolveTypeExpr(pc, x.X))
	case *ast.ParenExpr:
		return w.resolveTypeExpr(pc, x.X)
	case *ast.UnaryExpr: // &T is not a type; *T in call position parses as StarExpr
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(w.resolveTypeExpr(pc, x.Elt))
		}
	case *ast.Ident:
		if o := types.Universe.Lookup(x.Name); o != nil {
			return o.Type()
		}
		if o := pc.Pkg.Scope().Lookup(x.Name); o != nil {
			return o.Type()
		}
	case *ast.SelectorExpr:
		id := x.X.(*ast.Ident).Name
		if p := w.pkgByPath(pc.Imports[id]); p != nil {
			if o := p.Scope().Lookup(x.Sel.Name); o != nil {
				return o.Type()
			}
		}
	}
	panic(unsup("spec: cannot resolve type %s", types.ExprString(e)))
}

// inlinable: repository code and a short list of small dependency helpers.
func (w *World) inlinable(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if fn.Parent() != nil {
			return w.inlinable(fn.Parent())
		}
		if o := fn.Origin(); o != nil {
			return w.inlinable(o)
		}
		// synthetic wrappers
		return strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound")
	}
	path := p.Pkg.Path()
	if strings.HasPrefix(path, "github.com/tokenized/txbuilder") {
		return true
	}
	return inlineDeps[shortName(fn.String())]
}

var inlineDeps = map[string]bool{
	"(*pkg/wire.MsgTx).AddTxIn": true, "(*pkg/wire.MsgTx).AddTxOut": true, "pkg/wire.NewTxIn": true, "pkg/wire.NewTxOut": true,
	"pkg/wire.VarIntSerializeSize": true, "(*pkg/wire.TxOut).SerializeSize": true, "(*pkg/wire.TxIn).SerializeSize": true,
	"(pkg/wire.TxOut).SerializeSize": true, "(pkg/wire.TxIn).SerializeSize": true,
	"pkg/wire.NewOutPoint": true, "(pkg/wire.OutPoint).Copy": true, "(pkg/wire.TxIn).Copy": true, "(pkg/wire.TxOut).Copy": true,
	"pkg/bitcoin.LockingScriptIsUnspendable": true, "(pkg/bitcoin.Script).Equal": true, "(pkg/bitcoin.Script).Copy": true,
	"(pkg/bitcoin.Script).IsFalseOpReturn": true,
}

// pureStd: standard library functions whose only effect is their result.
func (w *World) pureStd(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "time":
		return fn.Signature.Recv() == nil
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint")
	}
	return false
}
