package main

// World: the loaded module, its contracts and everything shared between verifications.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	repo       string
	modPath    string
	prog       *ssa.Program
	pkgs       []*packages.Package
	specs      []*specFile
	contracts  map[string]*Contract
	guarded    map[string]string
	purePkgs   map[string]bool
	boxTypes   map[string]types.Type
	solver     *Solver
	prune      bool
	specFns    map[*types.Func]*specFn
	allSpec    map[*types.Func]*specFn
	specFiles  map[*ast.File]bool
	axioms     []*Clause
	notes      []string
	missing    map[*Contract]string
	decls      map[*types.Func]declInfo
	fns        map[string]*ssa.Function
	setT       *types.TypeName
	houMs      int
	constVal   map[*ssa.Global]*Term
	constTried map[*ssa.Global]bool
	constFn    map[*ssa.Global]*ssa.Function
	overlay    map[string][]byte
	loadErr    map[string][]string // package path -> errors
}

type declInfo struct {
	d *ast.FuncDecl
	p *packages.Package
}

const preludeName = "zz_verif_prelude.go"

func prelude(pkg string) []byte {
	return []byte("package " + pkg + `

type vSet[K comparable] map[K]bool

func vOld[T any](x T) T                       { return x }
func vImp(a, b bool) bool                     { return !a || b }
func vIff(a, b bool) bool                     { return a == b }
func vIte[T any](c bool, a, b T) T            { if c { return a }; return b }
func vAll(f interface{}) bool                 { panic("spec") }
func vAll2(f interface{}) bool                { panic("spec") }
func vEx(f interface{}) bool                  { panic("spec") }
func vEq[A, B any](a A, b B) bool             { panic("spec") }
func vHas(m, k interface{}) bool             { panic("spec") }
func vMem[T any](xs []T, x T) bool            { panic("spec") }
func vPrefix(s, p string) bool                { return len(p) <= len(s) && s[:len(p)] == p }
func vMapSet[M any](m M, k, v interface{}) M  { panic("spec") }
func vMapDel[M any](m M, k interface{}) M     { panic("spec") }
func vContents[M any](m M) M                 { return m }
func vFresh(x interface{}) bool               { panic("spec") }
func vAllocated(x interface{}) bool           { panic("spec") }
func vLocksUnchanged() bool                   { panic("spec") }
func vLocksFree() bool                        { panic("spec") }
func vSame[T any](x T) bool                   { panic("spec") }
func vDyn[T any](x interface{}) bool          { _, ok := x.(T); return ok }
func vCast[T any](x interface{}) T            { return x.(T) }
func vZero[T any]() T                         { var z T; return z }
func vIdent(x interface{}) int                { panic("spec") }
func vFn(x interface{}) int                   { panic("spec") }
func vLoc(xs ...interface{})                  {}
func vMapOf(x interface{}) int                { return 0 }
func vAllOf(x interface{}) int                { return 0 }
func vPointee(x interface{}) int              { return 0 }
func vAllMaps(x interface{}) int              { return 0 }
func vLocks() int                             { return 0 }

var _ = vOld[int]
`)
}

func loadWorld(repo, specDir string) (*World, error) {
	w := &World{repo: repo, contracts: map[string]*Contract{}, guarded: map[string]string{}, purePkgs: map[string]bool{}, boxTypes: map[string]types.Type{},
		specFns: map[*types.Func]*specFn{}, allSpec: map[*types.Func]*specFn{}, specFiles: map[*ast.File]bool{}, missing: map[*Contract]string{},
		decls: map[*types.Func]declInfo{}, fns: map[string]*ssa.Function{}, overlay: map[string][]byte{}, houMs: houMsDefault(), prune: true}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			w.modPath = strings.TrimSpace(l[7:])
		}
	}
	w.specs, err = loadSpecs(specDir)
	if err != nil {
		return nil, err
	}
	for _, f := range w.specs {
		rel, _ := filepath.Rel(specDir, f.path)
		dir := filepath.Join(repo, filepath.Dir(rel))
		f.target = filepath.Join(dir, "zz_verif_"+filepath.Base(rel))
		w.overlay[f.target] = f.out
		name := ""
		for _, l := range strings.Split(string(f.text), "\n") {
			if strings.HasPrefix(l, "package ") {
				name = strings.Fields(l)[1]
				break
			}
		}
		w.overlay[filepath.Join(dir, preludeName)] = prelude(name)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir: repo, Env: os.Environ(), Overlay: w.overlay, Fset: token.NewFileSet()}
	for round := 0; ; round++ {
		w.pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		for _, p := range w.pkgs {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ".go:"); i >= 0 {
					f = f[:i+3]
				}
				if strings.HasPrefix(filepath.Base(f), "zz_verif_") && round < 4 {
					if bad[f] == "" {
						bad[f] = e.Msg
					}
					continue
				}
				other = append(other, p.PkgPath+": "+e.Error())
			}
		}
		if len(bad) == 0 && len(other) > 0 {
			sort.Strings(other)
			return w, fmt.Errorf("type errors:\n%s", strings.Join(other, "\n"))
		}
		if len(bad) == 0 {
			break
		}
		// contracts that do not match the current tree any more: only theirs are lost
		var keep []*specFile
		for _, f := range w.specs {
			if m := bad[f.target]; m != "" {
				delete(w.overlay, f.target)
				for _, c := range f.contracts {
					c.Name = c.Header
					w.missing[c] = "the contract file " + filepath.Base(f.path) + " does not match the tree: " + m
				}
				continue
			}
			keep = append(keep, f)
		}
		if len(keep) == len(w.specs) {
			return w, fmt.Errorf("type errors: %v", bad)
		}
		w.specs = keep
	}
	var sps []*ssa.Package
	w.prog, sps = ssautil.Packages(w.pkgs, ssa.InstantiateGenerics)
	for _, p := range sps {
		if p == nil {
			return nil, fmt.Errorf("a package does not build")
		}
	}
	w.prog.Build()
	for _, p := range w.pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						w.decls[o] = declInfo{fd, p}
					}
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg != nil && w.inModule(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			w.fns[fn.String()] = fn
		}
	}
	byPath := map[string]*packages.Package{}
	for _, p := range w.pkgs {
		byPath[p.PkgPath] = p
		for _, f := range p.Syntax {
			if filepath.Base(w.prog.Fset.Position(f.Pos()).Filename) == preludeName {
				w.specFiles[f] = true
				if w.setT == nil {
					w.setT, _ = p.Types.Scope().Lookup("vSet").(*types.TypeName)
				}
			}
		}
	}
	for _, f := range w.specs {
		rel, _ := filepath.Rel(specDir, f.path)
		pp := w.modPath
		if d := filepath.Dir(rel); d != "." {
			pp += "/" + d
		}
		p := byPath[pp]
		if p == nil {
			return nil, fmt.Errorf("package %s of %s is not in the repository", pp, f.path)
		}
		w.linkSpecs(f, p)
	}
	w.markRec()
	return w, nil
}

func (w *World) inModule(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if fn.Parent() != nil {
			return w.inModule(fn.Parent())
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path() == w.modPath || strings.HasPrefix(o.Pkg().Path(), w.modPath+"/")
		}
		return false
	}
	return p.Pkg.Path() == w.modPath || strings.HasPrefix(p.Pkg.Path(), w.modPath+"/")
}

func (w *World) isPure(fn *ssa.Function) bool {
	if o, ok := fn.Object().(*types.Func); ok {
		return w.pureObj(o)
	}
	return false
}

// pureObj: listed as "pure pkg" or "pure pkg.Func" / "pure (pkg.T).M".
func (w *World) pureObj(o *types.Func) bool {
	if o.Pkg() == nil {
		return false
	}
	return w.purePkgs[o.FullName()] || w.purePkgs[o.Pkg().Path()]
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	if ms.Lookup(m.Pkg(), m.Name()) == nil {
		return nil
	}
	return w.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (w *World) isIntrinsic(o types.Object) bool {
	if o == nil || w.prog == nil {
		return false
	}
	return filepath.Base(w.prog.Fset.Position(o.Pos()).Filename) == preludeName
}

func (w *World) declOf(o *types.Func) (*ast.FuncDecl, *packages.Package) {
	d := w.decls[o]
	return d.d, d.p
}

func (w *World) pureExec() *Exec {
	x := w.newExec(nil, "")
	x.entry = newState()
	return x
}

// setType: the type vSet[K] of a role. Every package has its own vSet, so
// identity is decided on the name and key (see sameRoleType).
func (w *World) setType(k types.Type) types.Type {
	return types.NewMap(k, types.Typ[types.Bool])
}

func (w *World) newExec(c *Contract, prop string) *Exec {
	return &Exec{w: w, c: c, prop: prop, cellT: map[int]types.Type{}, clos: map[*Term]*CloV{}, used: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{},
		loopInv: map[string][]string{}, stops: map[loopKey]int{}, loopCache: map[string]map[string]bool{}, cellName: map[int]string{}, limit: 60000,
		cbSeen: map[string]int{}, cbExits: map[string][][]*Term{}}
}

func newState() *State {
	s := &State{heap: map[string]*Term{}, cells: map[int]Val{}, arrs: map[int]Arr{}, iters: map[int]iterState{}, env: map[int]map[ssa.Value]Val{}, defers: map[int][]deferred{},
		guards: map[*Term]*Term{}, matref: map[int]*Term{}, facts: map[*Term]bool{}, eqs: map[*Term]*Term{}, panicV: map[int]Val{}, loops: map[loopKey]func(*State, *ssa.BasicBlock){}, cellLock: map[int]*Term{}}
	s.top = Const("top0", SInt)
	s.assume(Le(Int(1), s.top))
	return s
}

// isSetRole: a role declared as vSet[K]
func isSetRole(t types.Type) (types.Type, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Name() != "vSet" || n.TypeArgs().Len() != 1 {
		return nil, false
	}
	return n.TypeArgs().At(0), true
}

// constFuncs: package variables of function type that only their declaration
// assigns (and whose address is not taken) are the function they are declared with.
func (w *World) constFuncs() map[*ssa.Global]*ssa.Function {
	if w.constFn != nil {
		return w.constFn
	}
	init := map[*ssa.Global]*ssa.Function{}
	bad := map[*ssa.Global]bool{}
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		isInit := fn.Synthetic != "" && fn.Name() == "init"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if f, ok := in.Val.(*ssa.Function); ok && isInit && in.Addr == g && init[g] == nil {
							init[g] = f
							continue
						}
					}
					bad[g] = true
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		scan(fn)
	}
	w.constFn = map[*ssa.Global]*ssa.Function{}
	for g, f := range init {
		if !bad[g] {
			w.constFn[g] = f
		}
	}
	return w.constFn
}

func houMsDefault() int {
	if v, err := strconv.Atoi(os.Getenv("GOVC_HOUMS")); err == nil {
		return v
	}
	return 1500
}

// constGlobals: package variables of the module which only the package's
// initialisation writes hold what it computes, if that is a closed term.
func (x *Exec) constGlobal(g *ssa.Global) *Term {
	w := x.w
	if w.constVal == nil {
		w.constVal = map[*ssa.Global]*Term{}
		w.constTried = map[*ssa.Global]bool{}
	}
	if v, ok := w.constVal[g]; ok || w.constTried[g] {
		return v
	}
	w.constTried[g] = true
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), w.modPath) || strings.HasPrefix(g.Name(), "init$") {
		return nil
	}
	t := derefT(g.Type())
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Struct, *types.Basic:
		_ = u
	default:
		return nil
	}
	if w.written(g) {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return nil
	}
	var vals []*Term
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("GOVC_STACK") != "" {
					fmt.Fprintln(os.Stderr, "const", g, e)
				}
				vals = nil
			}
		}()
		y := w.newExec(&Contract{Name: "init"}, "")
		y.mode = MFinal
		s := newState()
		s.heap["G:"+g.Pkg.Pkg.Path()+".init$guard"] = False
		y.comp(s, "G:"+g.Pkg.Pkg.Path()+".init$guard", SBool)
		s.heap["G:"+g.Pkg.Pkg.Path()+".init$guard"] = False
		y.initOf = g.Pkg
		y.runFunc(init, nil, nil, s, nil, nil, func(s *State, o Outcome) {
			if o.panicked || s.dead {
				return
			}
			vals = append(vals, s.heap[y.globName(g)])
		})
	}()
	if len(vals) != 1 || vals[0] == nil || !closed(vals[0]) {
		if os.Getenv("GOVC_STACK") != "" {
			fmt.Fprintln(os.Stderr, "not constant:", g, len(vals), vals)
		}
		return nil
	}
	w.constVal[g] = vals[0]
	return vals[0]
}

func closed(t *Term) bool {
	if t.Op == "const" {
		return strings.HasPrefix(t.Name, "fn:")
	}
	for _, a := range t.Args {
		if !closed(a) {
			return false
		}
	}
	return true
}

// written: something but the initialisation may write the variable or an element of
// a slice of its type.
func (w *World) written(g *ssa.Global) bool {
	t := derefT(g.Type())
	sl, _ := t.Underlying().(*types.Slice)
	res := false
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		isInit := fn.Synthetic != "" && fn.Name() == "init"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if isInit {
					continue
				}
				if st, ok := in.(*ssa.Store); ok && sl != nil {
					a := st.Addr
					for {
						if f, ok := a.(*ssa.FieldAddr); ok {
							a = f.X
							continue
						}
						break
					}
					if ia, ok := a.(*ssa.IndexAddr); ok && types.Identical(ia.X.Type().Underlying(), t.Underlying()) {
						res = true
					}
				}
				for _, op := range in.Operands(nil) {
					if (*op) != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.FieldAddr:
						n := 0
						if onlyRead(in, &n, map[ssa.Value]bool{}) && n == 0 {
							continue
						}
					}
					res = true
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if w.inModule(fn) {
			scan(fn)
		}
	}
	return res
}

func fnConsts(t *Term, seen map[*Term]bool, out []*Term) []*Term {
	if seen[t] {
		return out
	}
	seen[t] = true
	if t.Op == "const" && strings.HasPrefix(t.Name, "fn:") {
		return append(out, t)
	}
	for _, a := range t.Args {
		out = fnConsts(a, seen, out)
	}
	return out
}
