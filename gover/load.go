package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Global is everything shared by all functions under verification; read-only after loading.
type Global struct {
	dir     string
	modpath string
	fset    *token.FileSet
	pkg     *types.Package
	spkg    *ssa.Package
	prog    *ssa.Program
	spec    *Spec
	pool    *SolverPool

	builtinFuns map[string]*FunDecl
	axioms      []axiom
	commonFun   map[string]bool
	appSimp     map[string]func(c *Ctx, as []*Term) *Term
	defs        map[string]func(c *Ctx, t *Term) []*Term
	recs        map[string]*Macro

	funcs   map[string]*ssa.Function // by short name: "NewXCache", "(*XCache).Set"
	concTys []types.Type             // concrete types that may sit in interfaces
	mutable map[string]bool          // heap components written after publication somewhere in the package
	skip    map[*ssa.Function]map[ssa.Instruction]bool
	loops   map[*ssa.Function]*LoopInfo

	budgetCand, budgetOb int
	deadline             time.Time
	noAux                map[string]bool // helper contracts that failed
	tier                 string
	fnBudget             int
	mu                   sync.Mutex
	typeCache            map[string]types.Type
	keyTypes             map[string]types.Type
	noMerge              bool
	files                []*ast.File
	rxGlobs              map[*ssa.Global]string
}

func Load(dir string) (*Global, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule | packages.NeedExportFile,
		Dir:  dir,
		Env:  os.Environ(),
	}
	cfg.Mode &^= packages.NeedDeps
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("expected one package in %s, got %d", dir, len(ps))
	}
	p := ps[0]
	if len(p.Errors) > 0 {
		return nil, fmt.Errorf("package does not load: %v", p.Errors[0])
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	g := &Global{dir: dir, fset: p.Fset, pkg: p.Types, prog: prog, spkg: spkgs[0], modpath: p.PkgPath,
		funcs: map[string]*ssa.Function{}, skip: map[*ssa.Function]map[ssa.Instruction]bool{}, loops: map[*ssa.Function]*LoopInfo{}, recs: map[string]*Macro{}, typeCache: map[string]types.Type{}, keyTypes: map[string]types.Type{}, files: p.Syntax}
	g.initBuiltins()
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == g.spkg && fn.Synthetic == "" && fn.Parent() == nil {
			g.funcs[g.fnName(fn)] = fn
		}
	}
	for _, m := range g.spkg.Members {
		if fn, ok := m.(*ssa.Function); ok && fn.Synthetic == "" {
			g.funcs[g.fnName(fn)] = fn
		}
		if t, ok := m.(*ssa.Type); ok {
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := prog.MethodSets.MethodSet(ty)
				for i := 0; i < ms.Len(); i++ {
					fn := prog.MethodValue(ms.At(i))
					if fn != nil && fn.Synthetic == "" && fn.Pkg == g.spkg {
						g.funcs[g.fnName(fn)] = fn
					}
				}
			}
		}
	}
	g.collectConcrete()
	return g, nil
}

func (g *Global) qual(p *types.Package) string {
	if p == g.pkg {
		return ""
	}
	return p.Name()
}
func (g *Global) tstr(t types.Type) string { return types.TypeString(t, g.qual) }

// fnName: "NewXCache", "(*XCache).Set"; closures get the parent's name plus a suffix.
func (g *Global) fnName(fn *ssa.Function) string {
	if fn.Signature.Recv() != nil {
		return "(" + g.tstr(fn.Signature.Recv().Type()) + ")." + fn.Name()
	}
	if fn.Pkg != nil && fn.Pkg != g.spkg {
		return fn.Pkg.Pkg.Path() + "." + fn.Name()
	}
	return fn.Name()
}

// collectConcrete finds the concrete types that are boxed in or asserted from interfaces.
func (g *Global) collectConcrete() {
	seen := map[string]types.Type{}
	add := func(t types.Type) {
		t = types.Unalias(t)
		if types.IsInterface(t) {
			return
		}
		if tup, ok := t.(*types.Tuple); ok {
			_ = tup
			return
		}
		seen[g.tstr(t)] = t
	}
	for _, b := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr, types.Float32, types.Float64, types.String} {
		add(types.Typ[b])
	}
	for _, fn := range g.funcs {
		var rec func(fn *ssa.Function)
		rec = func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.MakeInterface:
						add(x.X.Type())
					case *ssa.TypeAssert:
						add(x.AssertedType)
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				rec(a)
			}
		}
		rec(fn)
	}
	// the package's own types that implement its interfaces
	for _, n := range g.pkg.Scope().Names() {
		if tn, ok := g.pkg.Scope().Lookup(n).(*types.TypeName); ok && !types.IsInterface(tn.Type()) {
			p := types.NewPointer(tn.Type())
			if types.NewMethodSet(p).Len() > 0 {
				add(p)
			}
		}
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g.concTys = append(g.concTys, seen[k])
	}
}

// ---- leaves -------------------------------------------------------------------------

func named(t types.Type) (pkg, name string) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path(), n.Obj().Name()
	}
	return "", ""
}

func isLock(t types.Type) bool {
	p, n := named(t)
	return p == "sync" && (n == "Mutex" || n == "RWMutex")
}

func (g *Global) leaves(t types.Type) []*Sort {
	t = types.Unalias(t)
	p, n := named(t)
	if p == "time" && n == "Time" {
		return []*Sort{IntS}
	}
	if p == "sync" {
		return nil
	}
	if p == "strings" && n == "Builder" || p == "bytes" && n == "Buffer" {
		return []*Sort{StrS}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []*Sort{BoolS}
		case u.Info()&types.IsInteger != 0:
			return []*Sort{IntS}
		case u.Info()&types.IsString != 0:
			return []*Sort{StrS}
		case u.Info()&types.IsFloat != 0:
			return []*Sort{FltS}
		case u.Kind() == types.UntypedNil:
			return []*Sort{ValS}
		}
		return []*Sort{OpqS}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []*Sort{IntS}
	case *types.Slice:
		return []*Sort{IntS, IntS, IntS, IntS}
	case *types.Interface:
		return []*Sort{ValS}
	case *types.Struct:
		if p != "" && p != g.modpath {
			return []*Sort{OpqS}
		}
		var r []*Sort
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, g.leaves(u.Field(i).Type())...)
		}
		return r
	case *types.Array:
		if u.Len() > 64 {
			return []*Sort{OpqS}
		}
		var r []*Sort
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, g.leaves(u.Elem())...)
		}
		return r
	case *types.Tuple:
		var r []*Sort
		for i := 0; i < u.Len(); i++ {
			r = append(r, g.leaves(u.At(i).Type())...)
		}
		return r
	}
	return []*Sort{OpqS}
}

// fieldRange: leaf interval of field i of struct type t.
func (g *Global) fieldRange(t types.Type, i int) (lo, n int) {
	st := t.Underlying().(*types.Struct)
	for j := 0; j < i; j++ {
		lo += len(g.leaves(st.Field(j).Type()))
	}
	return lo, len(g.leaves(st.Field(i).Type()))
}

// objKey names the heap component family of objects of type t behind a pointer.
func (g *Global) objKey(t types.Type) string {
	t = types.Unalias(t)
	if a, ok := t.Underlying().(*types.Array); ok {
		return g.elemKey(a.Elem())
	}
	return g.regKey("O:"+g.tstr(t), t)
}
func (g *Global) elemKey(t types.Type) string { return g.regKey("E:"+g.tstr(types.Unalias(t)), t) }
func (g *Global) mapKey(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return g.regKey("M:"+g.tstr(m.Key())+"=>"+g.tstr(m.Elem()), m.Elem())
}
func (g *Global) ctorName(t types.Type) string { return "v:" + g.tstr(types.Unalias(t)) }

func short(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (g *Global) noIfaces() map[string]*types.Interface { return map[string]*types.Interface{} }

// prepare connects the specification and precomputes loop structure.
func (g *Global) prepare() {
	for n, m := range g.spec.macros {
		if m.rec {
			g.recs[n] = m
		}
	}
	var all func(fn *ssa.Function)
	all = func(fn *ssa.Function) {
		if fn.Blocks != nil && g.loops[fn] == nil {
			g.loops[fn] = loopInfo(fn)
		}
		for _, a := range fn.AnonFuncs {
			all(a)
		}
	}
	for _, fn := range g.funcs {
		all(fn)
	}
}

// leafKinds: 'r' for references, 'v' for interface values, 0 otherwise, per leaf.
func (g *Global) leafKinds(t types.Type) []byte {
	t = types.Unalias(t)
	ls := g.leaves(t)
	out := make([]byte, len(ls))
	if len(ls) == 0 {
		return out
	}
	p, _ := named(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice:
		out[0] = 'r'
	case *types.Interface:
		out[0] = 'v'
	case *types.Struct:
		if p != "" && p != g.modpath {
			return out
		}
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			k += copy(out[k:], g.leafKinds(u.Field(i).Type()))
		}
	case *types.Array:
		k := 0
		for k < len(out) {
			n := copy(out[k:], g.leafKinds(u.Elem()))
			if n == 0 {
				break
			}
			k += n
		}
	}
	return out
}

func (g *Global) regKey(key string, t types.Type) string {
	g.mu.Lock()
	g.keyTypes[key] = t
	g.mu.Unlock()
	return key
}

func keyIdx(key string, i int) string { return key + ":" + strconv.Itoa(i) }

func (g *Global) compKind(name string) byte {
	i := strings.LastIndex(name, ":")
	if i < 0 {
		return 0
	}
	key, ix := name[:i], strings.TrimPrefix(name[i+1:], "V")
	g.mu.Lock()
	t := g.keyTypes[key]
	g.mu.Unlock()
	n, err := strconv.Atoi(ix)
	if t == nil || err != nil {
		return 0
	}
	ks := g.leafKinds(t)
	if n >= len(ks) {
		return 0
	}
	return ks[n]
}
