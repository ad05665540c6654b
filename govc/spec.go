package main

// Contracts: parsing of the //@ blocks in the specification files, and the
// evaluation of specification expressions (Go expressions over AST + types).

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Kind  string
	Label string
	Props []string
	Text  string
	FnN   string
	Fn    *specFn
	Line  int
	order *OrderT
}

func (c *Clause) activeFor(p string) bool {
	if len(c.Props) == 0 || p == "" {
		return true
	}
	for _, q := range c.Props {
		if p == q {
			return true
		}
	}
	return false
}

type InvT struct {
	Clause
	Roles []*types.Var
	nBase int
}

// OrderT: the order a sort.Slice call of the function has to establish:
// order(a, b, c E, roles…) less(a, b, …) by lemma(a, b, c, …)
type OrderT struct {
	Clause
	By    *Clause
	nBase int
}

type Contract struct {
	Orders []*OrderT
	Name      string // short, for obligation ids
	Short     string
	Key       string
	Header    string
	File      string
	Pkg       *packages.Package
	Requires  []*Clause
	Ensures   []*Clause
	Modifies  []*Clause
	Uses      []*Clause
	Calls     []callsAs
	Invs      []*InvT
	OnPanic   []*Clause
	Trusted   bool
	Pure      bool
	Iface     bool
	MayPanic  bool
	NoPanic   []string // properties
	HasNP     bool
	LoopsOnly bool
	NoFrame   bool
	Optional  bool
	Props     []string
	Sig       *types.Signature
	params    string
	results   string
	nparams   int
	line      int
	kind      string
}

// callsAs: "calls f as NAME": the argument f is called later, under the callback contract NAME.
type callsAs struct {
	param, name string
	props       []string
}

func (c *Contract) active(p string) []*Clause {
	var out []*Clause
	for _, e := range c.Ensures {
		for _, q := range e.Props {
			if p == q || p == "" {
				out = append(out, e)
			}
		}
		if len(e.Props) == 0 {
			out = append(out, e)
		}
	}
	for _, e := range c.OnPanic {
		if e.activeFor(p) {
			out = append(out, e)
		}
	}
	if c.HasNP {
		for _, q := range c.NoPanic {
			if q == p {
				out = append(out, &Clause{Kind: "nopanic"})
			}
		}
	}
	return out
}

type specFn struct {
	name     string
	decl     *ast.FuncDecl
	pkg      *packages.Package
	obj      *types.Func
	rec      bool
	uninterp bool
	abstract bool // uninterpreted outside its package
	params   []*types.Var
	calls    map[*types.Func]bool
}

// ---- parsing the specification files

var reHead = regexp.MustCompile(`^(functype|func|recv|send|go|close|callback)\b\s*(.*)$`)
var reClause = regexp.MustCompile(`^(requires|ensures|modifies|inv|loop|onpanic|axiom|use|order)(\[[^\]]*\])?\s*(.*)$`)

type specFile struct {
	path      string
	target    string // path it is overlaid at
	text      []byte
	contracts []*Contract
	guarded   map[string]string
	axioms    []*Clause
	pure      []string
	uninterp  map[string]bool
	abstract  map[string]bool
	out       []byte
	clauseN   int
}

var clauseCtr int

func parseSpecFile(path string, text []byte) *specFile {
	f := &specFile{path: path, text: text, guarded: map[string]string{}, uninterp: map[string]bool{}, abstract: map[string]bool{}}
	var cur *Contract
	var last *Clause
	var gen bytes.Buffer
	lines := strings.Split(string(text), "\n")
	flushParams := func(c *Contract) {}
	_ = flushParams
	type pend struct {
		c  *Contract
		cl *Clause
		iv *InvT
	}
	var pends []pend
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if !strings.HasPrefix(t, "//@") {
			last = nil
			continue
		}
		t = strings.TrimSpace(t[3:])
		if t == "" || strings.HasPrefix(t, "#") {
			last = nil
			continue
		}
		if m := reClause.FindStringSubmatch(t); m != nil && (cur != nil || m[1] == "axiom") {
			cl := &Clause{Kind: m[1], Line: i + 1}
			if m[2] != "" {
				for _, p := range strings.Split(strings.Trim(m[2], "[]"), ",") {
					cl.Props = append(cl.Props, strings.TrimSpace(p))
				}
			}
			body := m[3]
			if cl.Kind == "ensures" || cl.Kind == "requires" || cl.Kind == "onpanic" || cl.Kind == "axiom" {
				if j := strings.Index(body, ": "); j >= 0 && regexp.MustCompile(`^[\w ,'\-]+$`).MatchString(body[:j]) {
					cl.Label = body[:j]
					body = body[j+2:]
				}
			}
			cl.Text = body
			last = cl
			switch cl.Kind {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case "onpanic":
				cur.OnPanic = append(cur.OnPanic, cl)
			case "use":
				cur.Uses = append(cur.Uses, cl)
			case "order":
				cur.Orders = append(cur.Orders, &OrderT{Clause: *cl})
				cl.order = cur.Orders[len(cur.Orders)-1]
			case "modifies":
				cur.Modifies = append(cur.Modifies, cl)
			case "axiom":
				f.axioms = append(f.axioms, cl)
			case "inv", "loop":
				iv := &InvT{}
				cur.Invs = append(cur.Invs, iv)
				pends = append(pends, pend{cur, cl, iv})
				continue
			}
			pends = append(pends, pend{cur, cl, nil})
			continue
		}
		if strings.HasPrefix(t, "| ") || t == "|" { // continuation
			if last == nil {
				fatal("%s:%d: continuation without clause", path, i+1)
			}
			last.Text += "\n" + t[1:]
			continue
		}
		last = nil
		w := strings.Fields(t)
		switch w[0] {
		case "trusted", "maypanic", "optional", "noframe", "loopsonly":
			if len(w) > 1 {
				fatal("%s:%d: one flag per line", path, i+1)
			}
		}
		switch w[0] {
		case "trusted":
			cur.Trusted = true
			continue
		case "pure":
			if len(w) > 1 {
				f.pure = append(f.pure, w[1:]...)
			} else {
				cur.Pure = true
			}
			continue
		case "maypanic":
			cur.MayPanic = true
			continue
		case "optional":
			cur.Optional = true
			continue
		case "calls":
			if len(w) != 4 || w[2] != "as" {
				fatal("%s:%d: calls f as NAME", path, i+1)
			}
			cur.Calls = append(cur.Calls, callsAs{param: w[1], name: w[3]})
			continue
		case "noframe":
			cur.NoFrame = true
			continue
		case "loopsonly":
			cur.LoopsOnly = true
			continue
		case "props":
			cur.Props = append(cur.Props, w[1:]...)
			continue
		case "uninterpreted":
			for _, n := range w[1:] {
				f.uninterp[n] = true
			}
			continue
		case "abstract":
			for _, n := range w[1:] {
				f.abstract[n] = true
			}
			continue
		case "guarded": // guarded pkg.T.f by lock
			f.guarded[w[1]] = w[3]
			continue
		case "end":
			cur = nil
			continue
		}
		if strings.HasPrefix(t, "nopanic") {
			cur.HasNP = true
			if m := regexp.MustCompile(`\[(.*)\]`).FindStringSubmatch(t); m != nil {
				for _, p := range strings.Split(m[1], ",") {
					cur.NoPanic = append(cur.NoPanic, strings.TrimSpace(p))
				}
			}
			continue
		}
		if m := reHead.FindStringSubmatch(t); m != nil {
			cur = &Contract{Header: m[2], File: filepath.Base(path), line: i + 1, kind: m[1]}
			f.contracts = append(f.contracts, cur)
			continue
		}
		fatal("%s:%d: cannot parse %q", path, i+1, t)
	}
	for _, p := range pends {
		clauseCtr++
		p.cl.FnN = fmt.Sprintf("vc_%d", clauseCtr)
		switch p.cl.Kind {
		case "axiom":
			fmt.Fprintf(&gen, "func %s() bool { return (%s) }\n", p.cl.FnN, p.cl.Text)
		case "inv", "loop":
			roles, body := "", p.cl.Text
			if p.cl.Kind == "loop" {
				// loop(acc []T, k int) expr
				n := matchParen(body)
				if n < 0 {
					fatal("%s:%d: loop roles", path, p.cl.Line)
				}
				roles, body = body[1:n], body[n+1:]
			}
			h := p.c.header()
			ps := h.params
			nb := h.n
			if roles != "" {
				if ps != "" {
					ps += ", "
				}
				ps += roles
			}
			fmt.Fprintf(&gen, "func %s(%s) bool { return (%s) }\n", p.cl.FnN, ps, body)
			p.iv.Clause = *p.cl
			p.iv.nBase = nb
		case "order":
			body := p.cl.Text
			n := matchParen(body)
			if n < 0 {
				fatal("%s:%d: order roles", path, p.cl.Line)
			}
			roles, by := body[1:n], ""
			body = body[n+1:]
			if j := strings.LastIndex(body, " by "); j >= 0 {
				body, by = body[:j], body[j+4:]
			}
			h := p.c.header()
			ps := h.params
			if ps != "" {
				ps += ", "
			}
			ps += roles
			o := p.cl.order
			o.FnN, o.nBase = p.cl.FnN, h.n
			fmt.Fprintf(&gen, "func %s(%s) bool { return (%s) }\n", o.FnN, ps, body)
			if by != "" {
				clauseCtr++
				o.By = &Clause{Kind: "use", Line: o.Line, FnN: fmt.Sprintf("vc_%d", clauseCtr)}
				fmt.Fprintf(&gen, "func %s(%s) { vLoc(%s) }\n", o.By.FnN, ps, by)
			}
		case "modifies":
			h := p.c.header()
			fmt.Fprintf(&gen, "func %s(%s) { vLoc(%s) }\n", p.cl.FnN, h.params, p.cl.Text)
		case "requires", "onpanic":
			h := p.c.header()
			fmt.Fprintf(&gen, "func %s(%s) bool { return (%s) }\n", p.cl.FnN, h.params, p.cl.Text)
		default:
			if p.cl.Kind == "use" {
				p.cl.Text = "vLoc(" + p.cl.Text + ")"
			}
			h := p.c.header()
			ps := h.params
			if h.results != "" {
				if ps != "" {
					ps += ", "
				}
				ps += h.results
			}
			if p.cl.Kind == "use" {
				fmt.Fprintf(&gen, "func %s(%s) { %s }\n", p.cl.FnN, ps, p.cl.Text)
				continue
			}
			fmt.Fprintf(&gen, "func %s(%s) bool { return (%s) }\n", p.cl.FnN, ps, p.cl.Text)
		}
	}
	for _, c := range f.contracts {
		h := c.header()
		clauseCtr++
		c.params = fmt.Sprintf("vh_%d", clauseCtr)
		tgt := ""
		if h.target != "" {
			tgt = h.target
		}
		_ = tgt
		fmt.Fprintf(&gen, "func %s(%s) (%s) { panic(0) }\n", c.params, h.params, h.results)
	}
	f.out = append(append([]byte{}, text...), gen.Bytes()...)
	return f
}

func matchParen(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

type header struct {
	recv, name, params, results string
	target                      string
	n                           int
}

// header of a contract: "(p *Paginate) Window(total int64) (start, end int64, err error)"
// or "pkg.Func(params) (results)".
func (c *Contract) header() header {
	h := header{}
	s := strings.TrimSpace(c.Header)
	var parts []string
	if strings.HasPrefix(s, "(") && c.kind != "recv" && c.kind != "send" && c.kind != "close" {
		n := matchParen(s)
		h.recv = s[1:n]
		parts = append(parts, h.recv)
		s = strings.TrimSpace(s[n+1:])
	}
	i := strings.IndexByte(s, '(')
	if i < 0 {
		fatal("%s:%d: header", c.File, c.line)
	}
	h.name = strings.TrimSpace(s[:i])
	s = s[i:]
	n := matchParen(s)
	if p := strings.TrimSpace(s[1:n]); p != "" {
		parts = append(parts, p)
	}
	h.params = strings.ReplaceAll(strings.Join(parts, ", "), "...", "[]")
	r := strings.TrimSpace(s[n+1:])
	if strings.HasPrefix(r, "(") {
		r = strings.TrimSpace(r[1:matchParen(r)])
	}
	if r != "" && !strings.Contains(r, " ") && !strings.HasPrefix(r, "func") {
		r = "result " + r
	}
	h.results = r
	// number of parameters
	e, err := parser.ParseExpr("func(" + h.params + "){}")
	if err == nil {
		h.n = e.(*ast.FuncLit).Type.Params.NumFields()
	} else {
		fatal("%s:%d: header %q: %v", c.File, c.line, h.params, err)
	}
	return h
}

// ---- linking after type checking

func (w *World) linkSpecs(f *specFile, pkg *packages.Package) {
	funcs := map[string]*ast.FuncDecl{}
	for _, sf := range pkg.Syntax {
		if w.prog.Fset.Position(sf.Pos()).Filename != f.target {
			continue
		}
		for _, d := range sf.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				funcs[fd.Name.Name] = fd
			}
		}
		w.specFiles[sf] = true
	}
	mk := func(n string) *specFn {
		d := funcs[n]
		if d == nil {
			fatal("%s: generated clause %s is missing (type error?)", f.path, n)
		}
		return w.specFnOf(d, pkg)
	}
	for n, d := range funcs {
		if strings.HasPrefix(n, "vc_") || strings.HasPrefix(n, "vh_") {
			continue
		}
		sf := w.specFnOf(d, pkg)
		sf.uninterp = f.uninterp[n]
		sf.abstract = f.abstract[n]
		w.specFns[sf.obj] = sf
	}
	for _, a := range f.axioms {
		a.Fn = mk(a.FnN)
		w.axioms = append(w.axioms, a)
	}
	for _, p := range f.pure {
		w.purePkgs[p] = true
	}
	for k, v := range f.guarded {
		w.guarded[w.modPath+"/"+k] = v
	}
	for _, c := range f.contracts {
		c.Pkg = pkg
		h := c.header()
		hf := mk(c.params)
		sig := hf.obj.Type().(*types.Signature)
		c.nparams = sig.Params().Len()
		c.Sig = sig
		for _, l := range [][]*Clause{c.Requires, c.Ensures, c.OnPanic, c.Modifies, c.Uses} {
			for _, cl := range l {
				cl.Fn = mk(cl.FnN)
			}
		}
		for _, o := range c.Orders {
			o.Fn = mk(o.FnN)
			if o.By != nil {
				o.By.Fn = mk(o.By.FnN)
			}
		}
		for _, iv := range c.Invs {
			iv.Fn = mk(iv.FnN)
			iv.Roles = iv.Fn.params[iv.nBase:]
		}
		key := ""
		switch c.kind {
		case "recv", "send":
			v := sig.Params().At(1)
			key = c.kind + " " + tname(v.Type())
			c.Name = key
		case "close":
			key = "close"
			c.Name = key
		case "callback":
			key = "callback " + h.name
			c.Name = key
		case "functype":
			// first parameter is the function value
			key = "functype " + tname(sig.Params().At(0).Type())
			c.Name = "functype " + shortName(tname(sig.Params().At(0).Type()))
			c.Iface, c.Trusted = true, c.Trusted
			c.Iface = true
		case "func", "go":
			if h.recv != "" {
				rt := sig.Params().At(0).Type()
				base := rt
				if p := derefT(rt); p != nil {
					base = p
				}
				nm, ok := types.Unalias(base).(*types.Named)
				if !ok {
					fatal("%s:%d: receiver of %s", c.File, c.line, h.name)
				}
				if _, isI := base.Underlying().(*types.Interface); isI {
					m, _, _ := types.LookupFieldOrMethod(base, true, nm.Obj().Pkg(), h.name)
					mf, ok := m.(*types.Func)
					if !ok {
						if c.Optional {
							w.notes = append(w.notes, "contract target missing: "+c.Header)
							continue
						}
						w.missing[c] = fmt.Sprintf("no method %s.%s", nm, h.name)
						continue
					}
					key = mf.FullName()
					c.Iface = true
					c.Name = shortName(nm.Obj().Pkg().Path()) + "." + nm.Obj().Name() + "." + h.name
				} else {
					star := ""
					if base != rt {
						star = "*"
					}
					key = "(" + star + tname(base) + ")." + h.name
					c.Name = shortName(tname(base)) + "." + h.name
				}
			} else if i := strings.IndexByte(h.name, '.'); i >= 0 {
				// imported function
				path := ""
				for _, sf := range pkg.Syntax {
					if w.prog.Fset.Position(sf.Pos()).Filename != f.target {
						continue
					}
					for _, im := range sf.Imports {
						p := strings.Trim(im.Path.Value, `"`)
						n := ""
						if im.Name != nil {
							n = im.Name.Name
						} else if ip := pkg.Imports[p]; ip != nil {
							n = ip.Name
						} else {
							n = filepath.Base(p)
						}
						if n == h.name[:i] {
							path = p
						}
					}
				}
				if path == "" {
					fatal("%s:%d: unknown package %s", c.File, c.line, h.name)
				}
				key = path + "." + h.name[i+1:]
				c.Name = shortName(path) + "." + h.name[i+1:]
			} else {
				key = pkg.PkgPath + "." + h.name
				c.Name = shortName(pkg.PkgPath) + "." + h.name
			}
			if c.kind == "go" {
				key = "go " + key
			}
		}
		c.Short = h.name
		c.Key = key
		if c.Optional && (c.kind == "func" || c.kind == "go") && !c.Trusted && !c.Iface {
			// an optional contract whose function is gone or changed its signature does not apply
			if fn := w.target(c); fn == nil || !sameSig(fn, c) {
				w.notes = append(w.notes, "contract target missing: "+c.Header)
				continue
			}
		}
		if o := w.contracts[key]; o != nil {
			// further clauses for the same function
			if o.nparams != c.nparams || o.Sig.Results().Len() != c.Sig.Results().Len() {
				fatal("%s:%d: second contract for %s with another signature", c.File, c.line, key)
			}
			o.Requires = append(o.Requires, c.Requires...)
			o.Ensures = append(o.Ensures, c.Ensures...)
			o.OnPanic = append(o.OnPanic, c.OnPanic...)
			o.Modifies = append(o.Modifies, c.Modifies...)
			o.Uses = append(o.Uses, c.Uses...)
			o.Calls = append(o.Calls, c.Calls...)
			o.Invs = append(o.Invs, c.Invs...)
			o.Orders = append(o.Orders, c.Orders...)
			o.NoPanic = append(o.NoPanic, c.NoPanic...)
			o.HasNP = o.HasNP || c.HasNP
			o.Trusted = o.Trusted || c.Trusted
			o.Pure = o.Pure || c.Pure
			o.MayPanic = o.MayPanic || c.MayPanic
			o.NoFrame = o.NoFrame || c.NoFrame
			o.LoopsOnly = o.LoopsOnly && c.LoopsOnly
			o.Optional = o.Optional && c.Optional
			o.Props = append(o.Props, c.Props...)
			continue
		}
		w.contracts[key] = c
	}
}

func sameSig(fn *ssa.Function, c *Contract) bool {
	if len(fn.Params) != c.nparams || fn.Signature.Results().Len() != c.Sig.Results().Len() {
		return false
	}
	for i, p := range fn.Params {
		if !types.Identical(p.Type(), c.Sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if !types.Identical(fn.Signature.Results().At(i).Type(), c.Sig.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func (w *World) specFnOf(d *ast.FuncDecl, pkg *packages.Package) *specFn {
	obj := pkg.TypesInfo.Defs[d.Name].(*types.Func)
	if f, ok := w.allSpec[obj]; ok {
		return f
	}
	f := &specFn{name: pkg.PkgPath + "." + d.Name.Name, decl: d, pkg: pkg, obj: obj, calls: map[*types.Func]bool{}}
	if sg := obj.Type().(*types.Signature); true {
		if sg.Recv() != nil {
			f.params = append(f.params, sg.Recv())
		}
		for i := 0; i < sg.Params().Len(); i++ {
			f.params = append(f.params, sg.Params().At(i))
		}
	}
	w.allSpec[obj] = f
	if d.Body != nil {
		ast.Inspect(d.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				var id *ast.Ident
				switch fe := ast.Unparen(c.Fun).(type) {
				case *ast.Ident:
					id = fe
				case *ast.SelectorExpr:
					id = fe.Sel
				}
				if id != nil {
					if fo, ok := pkg.TypesInfo.Uses[id].(*types.Func); ok {
						f.calls[fo] = true
					}
				}
			}
			return true
		})
	}
	return f
}

// isRec: does f reach itself through spec function calls
func (w *World) markRec() {
	for _, f := range w.specFns {
		seen := map[*types.Func]bool{}
		var walk func(g *specFn) bool
		walk = func(g *specFn) bool {
			for c := range g.calls {
				if c == f.obj {
					return true
				}
				if !seen[c] {
					seen[c] = true
					if h := w.specFns[c]; h != nil && walk(h) {
						return true
					}
				}
			}
			return false
		}
		f.rec = walk(f)
	}
}

// ---- evaluation

type specEv struct {
	x     *Exec
	s     *State
	old   *State
	vars  map[types.Object]Val
	args  []Val
	res   []Val
	ct    *Contract
	pkg   *packages.Package
	depth int
	quant bool
	rt    []types.Type // result types of the function being evaluated
}

func (x *Exec) newEv(s *State, ct *Contract, args []Val) *specEv {
	return &specEv{x: x, s: s, ct: ct, args: args, vars: map[types.Object]Val{}}
}
func (ev *specEv) bindResults(vs []Val) { ev.res = vs }

// boolFn evaluates a generated clause function on the bound arguments.
func (ev *specEv) boolFn(f *specFn, extra ...Val) *Term {
	args := append(append(append([]Val{}, ev.args...), ev.res...), extra...)
	if len(f.params) < len(args) {
		args = args[:len(f.params)]
	}
	return ev.x.term(ev.s, ev.applyBody(f, args))
}

func (ev *specEv) applyBody(f *specFn, args []Val) Val {
	n := *ev
	n.vars = map[types.Object]Val{}
	n.pkg = f.pkg
	n.depth++
	n.rt = resultTypes(f.obj.Type().(*types.Signature))
	if n.depth > 60 {
		panic(unsupported("specification depth in %s", f.name))
	}
	if len(args) != len(f.params) {
		panic(unsupported("specification arity of %s: %d for %d", f.name, len(args), len(f.params)))
	}
	for i, p := range f.params {
		n.vars[p] = args[i]
	}
	v := n.stmts(f.decl.Body.List)
	if v == nil {
		panic(unsupported("specification function %s does not return", f.name))
	}
	return v
}

func (ev *specEv) locations(f *specFn) []location {
	n := *ev
	n.vars = map[types.Object]Val{}
	n.pkg = f.pkg
	for i, p := range f.params {
		n.vars[p] = ev.args[i]
	}
	call := f.decl.Body.List[0].(*ast.ExprStmt).X.(*ast.CallExpr)
	var out []location
	for _, a := range call.Args {
		out = append(out, n.loc(a)...)
	}
	return out
}

// uses: the lemma calls of a use clause.
func (ev *specEv) uses(cl *Clause, f func(ct *Contract, args []Val)) {
	n := *ev
	n.vars = map[types.Object]Val{}
	n.pkg = cl.Fn.pkg
	all := append(append([]Val{}, ev.args...), ev.res...)
	for i, p := range cl.Fn.params {
		n.vars[p] = all[i]
	}
	call := cl.Fn.decl.Body.List[0].(*ast.ExprStmt).X.(*ast.CallExpr)
	for _, a := range call.Args {
		c, ok := ast.Unparen(a).(*ast.CallExpr)
		if !ok {
			panic(unsupported("use of something else than a lemma"))
		}
		var obj *types.Func
		switch f := ast.Unparen(c.Fun).(type) {
		case *ast.Ident:
			obj, _ = n.pkg.TypesInfo.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			obj, _ = n.pkg.TypesInfo.Uses[f.Sel].(*types.Func)
		}
		if obj == nil {
			panic(unsupported("use of something else than a lemma"))
		}
		fn := ev.x.w.prog.FuncValue(obj)
		ct := ev.x.w.contracts[obj.FullName()]
		if ct == nil && fn != nil {
			ct = ev.x.w.contracts[baseName(fn)]
		}
		if ct == nil || !ev.x.usable(ct) || len(ct.Modifies) > 0 || ct.MayPanic {
			panic(unsupported("use of %s, which is no lemma", obj.FullName()))
		}
		var args []Val
		for i, e := range c.Args {
			args = append(args, n.valAs(e, obj.Type().(*types.Signature).Params().At(i).Type()))
		}
		f(ct, args)
	}
}

func (ev *specEv) loc(e ast.Expr) []location {
	x, s := ev.x, ev.s
	e = ast.Unparen(e)
	t := ev.typ(e)
	switch e := e.(type) {
	case *ast.Ident:
		obj := ev.pkg.TypesInfo.Uses[e]
		if v, ok := obj.(*types.Var); ok {
			if val, ok := ev.vars[v]; ok {
				switch u := t.Underlying().(type) {
				case *types.Map:
					return []location{{kind: "map", ref: x.term(s, val), mt: u}}
				case *types.Slice:
					if sv, ok := val.(*SliceV); ok {
						return []location{{kind: "slice", arr: sv}}
					}
					return nil
				}
			}
			if v.Parent() == v.Pkg().Scope() {
				return []location{{kind: "ghost", comp: "G:" + v.Pkg().Path() + "." + v.Name(), srt: sortOf(v.Type()), t: v.Type()}}
			}
		}
	case *ast.StarExpr:
		v := ev.expr(e.X)
		st := t
		if p, ok := v.(*PtrV); ok && p.kind == PCell {
			if _, m := s.matref[p.cell]; !m {
				return []location{{kind: "cell", cell: p, t: st}}
			}
		}
		return ev.structLocs(x.term(s, v), st)
	case *ast.SelectorExpr:
		if v, ok := ev.pkg.TypesInfo.Uses[e.Sel].(*types.Var); ok && !v.IsField() && v.Parent() == v.Pkg().Scope() {
			return []location{{kind: "ghost", comp: "G:" + v.Pkg().Path() + "." + v.Name(), srt: sortOf(v.Type()), t: v.Type()}}
		}
		base, st, fi, ok := ev.fieldRef(e)
		if ok {
			if p, isP := base.(*PtrV); isP && p.kind == PCell {
				if _, m := s.matref[p.cell]; !m {
					n := *p
					n.path = append(append([]int{}, p.path...), fi)
					return []location{{kind: "cell", cell: &n, t: t}}
				}
			}
			r := x.term(s, base)
			if isStruct(t) {
				return ev.structLocs(SubRef(r, st, fi), t)
			}
			n, srt := fieldComp(st, fi)
			return []location{{kind: "field", comp: n, srt: srt, ref: r, t: t}}
		}
	case *ast.CallExpr:
		name := ev.calleeName(e)
		switch name {
		case "vMapOf": // contents of the map expression
			m := ev.expr(e.Args[0])
			return []location{{kind: "map", ref: x.term(s, m), mt: ev.typ(e.Args[0]).Underlying().(*types.Map)}}
		case "vPointee": // what the pointer in the interface points to
			b := x.term(s, ev.expr(e.Args[0]))
			n, pl, ok := boxParts(b)
			if !ok || pl == nil || x.w.boxTypes[n] == nil || derefT(x.w.boxTypes[n]) == nil {
				panic(unsupported("vPointee of something unknown"))
			}
			return ev.structLocs(pl, derefT(x.w.boxTypes[n]))
		case "vAllOf": // every object's field: vAllOf(p.field)
			se := ast.Unparen(e.Args[0]).(*ast.SelectorExpr)
			bt := ev.typ(se.X)
			if d := derefT(bt); d != nil {
				bt = d
			}
			st := structOf(bt)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == se.Sel.Name {
					n, srt := fieldComp(bt, i)
					return []location{{kind: "comp", comp: n, srt: srt}}
				}
			}
		case "vAllMaps": // contents of every map of this type
			mt := ev.typ(e.Args[0]).Underlying().(*types.Map)
			h, v, l, hs, vs := mapComps(mt)
			return []location{{kind: "comp", comp: h, srt: hs}, {kind: "comp", comp: v, srt: vs}, {kind: "comp", comp: l, srt: ArrOf(SInt, SInt)}}
		case "vLocks":
			return []location{{kind: "comp", comp: "G:$lock", srt: ArrOf(SInt, SInt)}}
		}
	}
	panic(unsupported("modifies location %T", e))
}

func (ev *specEv) structLocs(r *Term, st types.Type) []location {
	var out []location
	u := structOf(st)
	if u == nil {
		n := "P:" + tname(st)
		return []location{{kind: "field", comp: n, srt: ArrOf(SInt, sortOf(st)), ref: r, t: st}}
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isStruct(ft) {
			out = append(out, ev.structLocs(SubRef(r, st, i), ft)...)
			continue
		}
		n, srt := fieldComp(st, i)
		out = append(out, location{kind: "field", comp: n, srt: srt, ref: r, t: ft})
	}
	return out
}

// fieldRef resolves x.f (through embedded fields) to a base pointer, struct type and field index.
func (ev *specEv) fieldRef(e *ast.SelectorExpr) (Val, types.Type, int, bool) {
	sel := ev.pkg.TypesInfo.Selections[e]
	if sel == nil || sel.Kind() != types.FieldVal {
		return nil, nil, 0, false
	}
	v := ev.expr(e.X)
	t := ev.typ(e.X)
	idx := sel.Index()
	for k, i := range idx {
		var st types.Type
		if d := derefT(t); d != nil {
			st = d
		} else {
			return nil, nil, 0, false
		}
		if k == len(idx)-1 {
			return v, st, i, true
		}
		ft := structOf(st).Field(i).Type()
		if isStruct(ft) {
			r := ev.x.fieldAddr(ev.s, v, st, i)
			v = r
			t = types.NewPointer(ft)
		} else {
			v = ev.x.readField(ev.s, ev.x.term(ev.s, v), st, i)
			t = ft
		}
	}
	return nil, nil, 0, false
}

func (ev *specEv) typ(e ast.Expr) types.Type {
	t := ev.pkg.TypesInfo.TypeOf(e)
	if t == nil {
		panic(unsupported("no type for specification expression"))
	}
	return t
}

func (ev *specEv) stmts(list []ast.Stmt) Val {
	for i, st := range list {
		switch st := st.(type) {
		case *ast.ReturnStmt:
			if len(st.Results) == 1 {
				if len(ev.rt) == 1 {
					return ev.valAs(st.Results[0], ev.rt[0])
				}
				return ev.expr(st.Results[0])
			}
			var vs []Val
			for i, r := range st.Results {
				if i < len(ev.rt) {
					vs = append(vs, ev.valAs(r, ev.rt[i]))
				} else {
					vs = append(vs, ev.expr(r))
				}
			}
			return &TupleV{vs}
		case *ast.IfStmt:
			n := *ev
			n.vars = copyVars(ev.vars)
			if st.Init != nil {
				n.simple(st.Init)
			}
			c := n.x.term(n.s, n.expr(st.Cond))
			rest := list[i+1:]
			if c == True {
				return (&n).stmts(append(append([]ast.Stmt{}, st.Body.List...), rest...))
			}
			var els []ast.Stmt
			if st.Else != nil {
				if b, ok := st.Else.(*ast.BlockStmt); ok {
					els = b.List
				} else {
					els = []ast.Stmt{st.Else}
				}
			}
			n2 := n
			n2.vars = copyVars(n.vars)
			if c == False {
				return (&n2).stmts(append(append([]ast.Stmt{}, els...), rest...))
			}
			a := (&n).stmts(append(append([]ast.Stmt{}, st.Body.List...), rest...))
			b := (&n2).stmts(append(append([]ast.Stmt{}, els...), rest...))
			return ev.ite(c, a, b)
		case *ast.SwitchStmt:
			n := *ev
			n.vars = copyVars(ev.vars)
			if st.Init != nil {
				n.simple(st.Init)
			}
			var tag Val
			if st.Tag != nil {
				tag = n.expr(st.Tag)
			}
			rest := list[i+1:]
			var result Val
			var conds []*Term
			var bodies [][]ast.Stmt
			var def []ast.Stmt
			for _, cc := range st.Body.List {
				c := cc.(*ast.CaseClause)
				if c.List == nil {
					def = c.Body
					continue
				}
				var os []*Term
				for _, e := range c.List {
					if tag != nil {
						os = append(os, n.eq(tag, n.expr(e)))
					} else {
						os = append(os, n.x.term(n.s, n.expr(e)))
					}
				}
				conds = append(conds, Or(os...))
				bodies = append(bodies, c.Body)
			}
			m := n
			m.vars = copyVars(n.vars)
			result = (&m).stmts(append(append([]ast.Stmt{}, def...), rest...))
			for j := len(conds) - 1; j >= 0; j-- {
				m := n
				m.vars = copyVars(n.vars)
				if conds[j] == False {
					continue
				}
				result = ev.ite(conds[j], (&m).stmts(append(append([]ast.Stmt{}, bodies[j]...), rest...)), result)
			}
			return result
		case *ast.BlockStmt:
			return ev.stmts(append(append([]ast.Stmt{}, st.List...), list[i+1:]...))
		default:
			ev.simple(st)
		}
	}
	return nil
}

func copyVars(m map[types.Object]Val) map[types.Object]Val {
	n := make(map[types.Object]Val, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (ev *specEv) simple(st ast.Stmt) {
	switch st := st.(type) {
	case *ast.AssignStmt:
		var vs []Val
		if len(st.Rhs) == 1 && len(st.Lhs) > 1 {
			v := ev.multi(st.Rhs[0], len(st.Lhs))
			vs = v
		} else {
			for i, r := range st.Rhs {
				v := ev.expr(r)
				if st.Tok != token.ASSIGN && st.Tok != token.DEFINE {
					op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL}[st.Tok]
					v = ev.binop(op, ev.expr(st.Lhs[i]), v, ev.typ(st.Lhs[i]))
				}
				vs = append(vs, v)
			}
		}
		for i, l := range st.Lhs {
			id, ok := l.(*ast.Ident)
			if !ok {
				ev.assignField(l, vs[i], ev.rhsType(st, i))
				continue
			}
			if id.Name == "_" {
				continue
			}
			obj := ev.pkg.TypesInfo.Defs[id]
			if obj == nil {
				obj = ev.pkg.TypesInfo.Uses[id]
			}
			ev.vars[obj] = ev.coerce(vs[i], ev.rhsType(st, i), obj.Type())
		}
	case *ast.DeclStmt:
		for _, sp := range st.Decl.(*ast.GenDecl).Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, id := range vs.Names {
				obj := ev.pkg.TypesInfo.Defs[id]
				if i < len(vs.Values) {
					ev.vars[obj] = ev.coerce(ev.expr(vs.Values[i]), ev.typ(vs.Values[i]), obj.Type())
				} else {
					ev.vars[obj] = ev.x.zero(obj.Type())
				}
			}
		}
	case *ast.EmptyStmt:
	case *ast.ExprStmt:
	default:
		panic(unsupported("statement %T in specification", st))
	}
}

// assignField: v.f = x on a local struct value
func (ev *specEv) assignField(l ast.Expr, v Val, from types.Type) {
	var path []int
	e := ast.Unparen(l)
	v = ev.coerce(v, from, ev.typ(l))
	for {
		if id, ok := e.(*ast.Ident); ok {
			obj := ev.pkg.TypesInfo.Uses[id]
			cur, ok := ev.vars[obj]
			if !ok || !isStruct(obj.Type()) {
				break
			}
			ev.vars[obj] = ev.x.updPath(cur, obj.Type(), path, v)
			return
		}
		se, ok := e.(*ast.SelectorExpr)
		if !ok {
			break
		}
		sel := ev.pkg.TypesInfo.Selections[se]
		if sel == nil || sel.Kind() != types.FieldVal || sel.Indirect() {
			break
		}
		path = append(append([]int{}, sel.Index()...), path...)
		e = ast.Unparen(se.X)
	}
	panic(unsupported("assignment in specification"))
}

func (ev *specEv) rhsType(st *ast.AssignStmt, i int) types.Type {
	if len(st.Rhs) == len(st.Lhs) {
		return ev.typ(st.Rhs[i])
	}
	if t, ok := ev.typ(st.Rhs[0]).(*types.Tuple); ok {
		return t.At(i).Type()
	}
	if i == 1 {
		return types.Typ[types.Bool]
	}
	return ev.typ(st.Rhs[0])
}

func (ev *specEv) coerce(v Val, from, to types.Type) Val {
	if from == nil || to == nil {
		return v
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return NilAny()
		}
		if _, ok := from.Underlying().(*types.Interface); !ok {
			return ev.x.makeIface(ev.s, v, types.Default(from))
		}
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroTerm(sortOf(to))
	}
	return v
}

func (ev *specEv) ite(c *Term, a, b Val) Val {
	if a == nil || b == nil {
		panic(unsupported("specification branch without value"))
	}
	if ta, ok := a.(*TupleV); ok {
		tb := b.(*TupleV)
		var vs []Val
		for i := range ta.vs {
			vs = append(vs, ev.ite(c, ta.vs[i], tb.vs[i]))
		}
		return &TupleV{vs}
	}
	if ma, ok := a.(*MapV); ok {
		mb := b.(*MapV)
		return &MapV{Ite(c, ma.has, mb.has), Ite(c, ma.val, mb.val), ma.t}
	}
	return Ite(c, ev.x.term(ev.s, a), ev.x.term(ev.s, b))
}

func (ev *specEv) eq(a, b Val) *Term {
	if ma, ok := a.(*MapV); ok {
		if mb, ok := b.(*MapV); ok {
			return And(Eq(ma.has, mb.has), Eq(ma.val, mb.val))
		}
	}
	if pa, ok := a.(*PtrV); ok {
		return ev.x.eqPtr(ev.s, pa, b)
	}
	if pb, ok := b.(*PtrV); ok {
		return ev.x.eqPtr(ev.s, pb, a)
	}
	return Eq(ev.x.term(ev.s, a), ev.x.term(ev.s, b))
}

func (ev *specEv) multi(e ast.Expr, n int) []Val {
	e = ast.Unparen(e)
	if ix, ok := e.(*ast.IndexExpr); ok && n == 2 {
		if mt, ok := ev.typ(ix.X).Underlying().(*types.Map); ok {
			has, v := ev.mapGet(ev.expr(ix.X), mt, ev.x.term(ev.s, ev.expr(ix.Index)))
			return []Val{v, has}
		}
	}
	if ta, ok := e.(*ast.TypeAssertExpr); ok && n == 2 {
		at := ev.typ(ta.Type)
		t := ev.x.term(ev.s, ev.expr(ta.X))
		if _, ok := at.Underlying().(*types.Interface); ok {
			return []Val{t, ev.x.implements(t, at)}
		}
		nm := tname(at)
		ev.x.w.boxTypes[nm] = at
		c := HasType(t, nm)
		return []Val{Ite(c, Unbox(t, nm, sortOf(at)), zeroTerm(sortOf(at))), c}
	}
	v := ev.expr(e)
	if t, ok := v.(*TupleV); ok && len(t.vs) == n {
		return t.vs
	}
	panic(unsupported("multi value specification expression"))
}

func (ev *specEv) mapGet(m Val, mt *types.Map, k *Term) (*Term, *Term) {
	if mv, ok := m.(*MapV); ok {
		// values of absent keys are kept equal to the zero value
		h, v := Select(mv.has, k), Select(mv.val, k)
		if !h.bound && !v.bound && h != True {
			ev.s.assume(Or(h, Eq(v, zeroTerm(mv.val.S.Elem))))
		}
		return h, v
	}
	mr := ev.x.term(ev.s, m)
	if mr.isInt() && mr.N.Sign() == 0 {
		return False, zeroTerm(sortOf(mt.Elem()))
	}
	h := Select(ev.x.mapHas(ev.s, mr, mt), k)
	ev.x.nilMapFact(ev.s, mt)
	v := Select(ev.x.mapVal(ev.s, mr, mt), k)
	if !h.bound && !v.bound && h != True {
		ev.s.assume(Or(h, Eq(v, zeroTerm(sortOf(mt.Elem())))))
	}
	return h, v
}

func (ev *specEv) mapV(m Val, mt *types.Map) *MapV {
	if mv, ok := m.(*MapV); ok {
		return mv
	}
	mr := ev.x.term(ev.s, m)
	_, _, _, hs, vs := mapComps(mt)
	if mr.isInt() && mr.N.Sign() == 0 {
		return &MapV{ConstArr(hs.Elem, False), ConstArr(vs.Elem, zeroTerm(sortOf(mt.Elem()))), mt}
	}
	return &MapV{ev.x.mapHas(ev.s, mr, mt), ev.x.mapVal(ev.s, mr, mt), mt}
}

func (ev *specEv) calleeName(e *ast.CallExpr) string {
	f := ast.Unparen(e.Fun)
	if ix, ok := f.(*ast.IndexExpr); ok {
		f = ix.X
	}
	if ix, ok := f.(*ast.IndexListExpr); ok {
		f = ix.X
	}
	switch f := f.(type) {
	case *ast.Ident:
		return f.Name
	case *ast.SelectorExpr:
		return f.Sel.Name
	}
	return ""
}

func (ev *specEv) term(e ast.Expr) *Term { return ev.x.term(ev.s, ev.expr(e)) }

func (ev *specEv) expr(e ast.Expr) Val {
	x, s := ev.x, ev.s
	if tv, ok := ev.pkg.TypesInfo.Types[e]; ok && tv.Value != nil {
		return ev.constV(tv)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return ev.expr(e.X)
	case *ast.Ident:
		if e.Name == "nil" {
			return zeroTerm(ev.nilSort(e))
		}
		obj := ev.pkg.TypesInfo.Uses[e]
		if obj == nil {
			obj = ev.pkg.TypesInfo.Defs[e]
		}
		if v, ok := ev.vars[obj]; ok {
			return v
		}
		switch o := obj.(type) {
		case *types.Var:
			if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				return x.comp(s, "G:"+o.Pkg().Path()+"."+o.Name(), sortOf(o.Type()))
			}
		case *types.Func:
			if fn := x.w.prog.FuncValue(o); fn != nil {
				return &CloV{fn: fn}
			}
		}
		panic(unsupported("specification name %s", e.Name))
	case *ast.SelectorExpr:
		if o, ok := ev.pkg.TypesInfo.Uses[e.Sel].(*types.Var); ok && !o.IsField() {
			return x.comp(s, "G:"+o.Pkg().Path()+"."+o.Name(), sortOf(o.Type()))
		}
		sel := ev.pkg.TypesInfo.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			panic(unsupported("specification selector %s", e.Sel.Name))
		}
		v := ev.expr(e.X)
		t := ev.typ(e.X)
		for _, i := range sel.Index() {
			if d := derefT(t); d != nil {
				v = ev.readField(v, d, i)
				t = structOf(d).Field(i).Type()
			} else {
				v = x.fieldOf(v, i, structOf(t))
				t = structOf(t).Field(i).Type()
			}
		}
		return v
	case *ast.StarExpr:
		v := ev.expr(e.X)
		switch p := v.(type) {
		case *Term:
			return x.loadRef(s, p, ev.typ(e))
		default:
			_ = p
			return x.load(s, v, ev.typ(e))
		}
	case *ast.IndexExpr:
		bt := ev.typ(e.X)
		if mt, ok := bt.Underlying().(*types.Map); ok {
			_, v := ev.mapGet(ev.expr(e.X), mt, ev.term(e.Index))
			return v
		}
		if _, ok := bt.Underlying().(*types.Signature); ok {
			return ev.expr(e.X)
		}
		return Nth(ev.term(e.X), ev.term(e.Index))
	case *ast.SliceExpr:
		b := ev.term(e.X)
		lo, hi := Int(0), Len(b)
		if e.Low != nil {
			lo = ev.term(e.Low)
		}
		if e.High != nil {
			hi = ev.term(e.High)
		}
		return SubSeq(b, lo, hi)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return Not(ev.term(e.X))
		case token.SUB:
			return Neg(ev.term(e.X))
		}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			a := ev.term(e.X)
			if a == False {
				return False
			}
			return And(a, ev.term(e.Y))
		case token.LOR:
			a := ev.term(e.X)
			if a == True {
				return True
			}
			return Or(a, ev.term(e.Y))
		case token.EQL, token.NEQ:
			r := ev.cmp(e.X, e.Y)
			if e.Op == token.NEQ {
				return Not(r)
			}
			return r
		}
		return ev.binop(e.Op, ev.expr(e.X), ev.expr(e.Y), ev.typ(e.X))
	case *ast.CompositeLit:
		return ev.composite(e)
	case *ast.CallExpr:
		return ev.callE(e)
	case *ast.TypeAssertExpr:
		at := ev.typ(e.Type)
		t := ev.term(e.X)
		if _, ok := at.Underlying().(*types.Interface); ok {
			return t
		}
		n := tname(at)
		x.w.boxTypes[n] = at
		return Unbox(t, n, sortOf(at))
	case *ast.FuncLit:
		return &funcLitV{e, ev}
	}
	panic(unsupported("specification expression %T", e))
}

type funcLitV struct {
	lit *ast.FuncLit
	ev  *specEv
}

func (ev *specEv) readField(v Val, st types.Type, i int) Val {
	x, s := ev.x, ev.s
	switch p := v.(type) {
	case *Term:
		f := structOf(st).Field(i)
		if isStruct(f.Type()) {
			return x.readStruct(s, SubRef(p, st, i), f.Type())
		}
		n, srt := fieldComp(st, i)
		t := Select(x.comp(s, n, srt), p)
		if !t.bound {
			if isRefType(f.Type()) {
				x.refFact(s, t)
			} else if b, ok := f.Type().Underlying().(*types.Basic); ok {
				x.rangeFact(s, t, b)
			}
		}
		return t
	case *PtrV:
		fa := x.fieldAddr(s, p, st, i)
		save := x.prop
		x.prop = ""
		defer func() { x.prop = save }()
		return x.load(s, fa, structOf(st).Field(i).Type())
	}
	panic(unsupported("specification field of %T", v))
}

func (ev *specEv) nilSort(e *ast.Ident) *Sort {
	t := ev.pkg.TypesInfo.TypeOf(e)
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		panic(unsupported("untyped nil"))
	}
	return sortOf(t)
}

func (ev *specEv) isNil(e ast.Expr) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	return ok && id.Name == "nil"
}

func (ev *specEv) cmp(a, b ast.Expr) *Term {
	if ev.isNil(a) {
		a, b = b, a
	}
	if ev.isNil(b) {
		t := ev.typ(a)
		v := ev.expr(a)
		if ev.x.isNilable(t) {
			tv := ev.x.term(ev.s, v)
			return And(Eq(Len(tv), Int(0)), App("isnil:"+tv.S.Name, SBool, tv))
		}
		if _, ok := v.(*PtrV); ok {
			return False
		}
		if _, ok := v.(*CloV); ok {
			return False
		}
		tt := ev.x.term(ev.s, v)
		return Eq(tt, zeroTerm(tt.S))
	}
	va, vb := ev.expr(a), ev.expr(b)
	ta, tb := ev.typ(a), ev.typ(b)
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		vb = ev.x.makeIface(ev.s, vb, types.Default(tb))
	}
	if ib && !ia {
		va = ev.x.makeIface(ev.s, va, types.Default(ta))
	}
	return ev.eq(va, vb)
}

func (ev *specEv) binop(op token.Token, a, b Val, t types.Type) Val {
	ta, tb := ev.x.term(ev.s, a), ev.x.term(ev.s, b)
	switch ta.S.Kind {
	case KInt:
		switch op { // specification integers are mathematical
		case token.ADD:
			return Add(ta, tb)
		case token.SUB:
			return Sub(ta, tb)
		case token.MUL:
			return Mul(ta, tb)
		case token.QUO:
			return GoDiv(ta, tb)
		case token.REM:
			return GoRem(ta, tb)
		case token.LSS:
			return Lt(ta, tb)
		case token.LEQ:
			return Le(ta, tb)
		case token.GTR:
			return Gt(ta, tb)
		case token.GEQ:
			return Ge(ta, tb)
		}
	}
	return ev.x.binop(ev.s, op, ta, tb, t, t)
}

func (ev *specEv) constV(tv types.TypeAndValue) Val {
	t := tv.Type
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolLit(constant.BoolVal(tv.Value))
		case u.Info()&types.IsString != 0:
			if tv.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(tv.Value)
				return StrLit(string(rune(n)))
			}
			return StrLit(constant.StringVal(tv.Value))
		case u.Info()&types.IsInteger != 0:
			return constInt(tv.Value)
		case u.Info()&types.IsFloat != 0:
			return realConst(tv.Value)
		}
	case *types.Interface:
		// constant converted to interface
		switch tv.Value.Kind() {
		case constant.String:
			return Box("string", StrLit(constant.StringVal(tv.Value)))
		case constant.Int:
			return Box("int", constInt(tv.Value))
		case constant.Bool:
			return Box("bool", BoolLit(constant.BoolVal(tv.Value)))
		}
	}
	panic(unsupported("specification constant of type %s", t))
}

func (ev *specEv) composite(e *ast.CompositeLit) Val {
	t := ev.typ(e)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		z := ev.x.zero(t).(*StructV)
		for i, el := range e.Elts {
			fi := i
			ve := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				ve = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fi = j
					}
				}
			}
			z.fs[fi] = ev.valAs(ve, u.Field(fi).Type())
		}
		return z
	case *types.Slice:
		c := EmptySeq(sortOf(t))
		for _, el := range e.Elts {
			c = Snoc(c, ev.x.term(ev.s, ev.valAs(el, u.Elem())))
		}
		return c
	case *types.Map:
		_, _, _, hs, vs := mapComps(u)
		m := &MapV{ConstArr(hs.Elem, False), ConstArr(vs.Elem, zeroTerm(sortOf(u.Elem()))), u}
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := ev.x.term(ev.s, ev.valAs(kv.Key, u.Key()))
			m.has = Store(m.has, k, True)
			m.val = Store(m.val, k, ev.x.term(ev.s, ev.valAs(kv.Value, u.Elem())))
		}
		return m
	}
	panic(unsupported("composite literal %s in specification", t))
}

func (ev *specEv) valAs(e ast.Expr, t types.Type) Val {
	if ev.isNil(e) {
		return zeroTerm(sortOf(t))
	}
	if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
		return ev.composite(c)
	}
	return ev.coerce(ev.expr(e), ev.typ(e), t)
}

func (ev *specEv) inOld() *specEv {
	n := *ev
	if n.old == nil {
		n.old = n.s
	}
	n.s = n.old
	return &n
}

func (ev *specEv) callE(e *ast.CallExpr) Val {
	x, s := ev.x, ev.s
	info := ev.pkg.TypesInfo
	// conversions
	if tv, ok := info.Types[e.Fun]; ok && tv.IsType() {
		if ev.isNil(e.Args[0]) {
			return zeroTerm(sortOf(tv.Type))
		}
		v := ev.expr(e.Args[0])
		ft := ev.typ(e.Args[0])
		if _, ok := tv.Type.Underlying().(*types.Interface); ok {
			return ev.coerce(v, ft, tv.Type)
		}
		if sortOf(ft) == sortOf(tv.Type) {
			return v
		}
		if structOf(tv.Type) != nil {
			if sv, ok := v.(*StructV); ok {
				return &StructV{tv.Type, sv.fs}
			}
			return x.convSort(s, x.term(s, v), sortOf(tv.Type), ft, tv.Type)
		}
		return x.convert(s, v, ft, tv.Type)
	}
	fun := ast.Unparen(e.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	if ix, ok := fun.(*ast.IndexListExpr); ok {
		fun = ix.X
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "len":
				if mt, ok := ev.typ(e.Args[0]).Underlying().(*types.Map); ok {
					return x.mapLenFact(s, ev.term(e.Args[0]), mt)
				}
				return Len(ev.term(e.Args[0]))
			case "append":
				t := ev.term(e.Args[0])
				et := ev.typ(e.Args[0]).Underlying().(*types.Slice).Elem()
				if e.Ellipsis.IsValid() {
					return Cat(t, ev.term(e.Args[1]))
				}
				for _, a := range e.Args[1:] {
					t = Snoc(t, x.term(s, ev.valAs(a, et)))
				}
				return t
			case "min", "max":
				t := ev.term(e.Args[0])
				for _, a := range e.Args[1:] {
					u := ev.term(a)
					if b.Name() == "min" {
						t = Ite(Le(t, u), t, u)
					} else {
						t = Ite(Le(t, u), u, t)
					}
				}
				return t
			}
			panic(unsupported("builtin %s in specification", b.Name()))
		}
		if strings.HasPrefix(id.Name, "v") && x.w.isIntrinsic(info.Uses[id]) {
			return ev.intrinsic(id.Name, e)
		}
		// local function value
		if v, ok := ev.vars[info.Uses[id]]; ok {
			if fl, ok := v.(*funcLitV); ok {
				var args []Val
				for _, a := range e.Args {
					args = append(args, ev.expr(a))
				}
				return fl.apply(args)
			}
		}
	}
	var obj *types.Func
	var args []Val
	var ptypes []types.Type
	switch f := fun.(type) {
	case *ast.Ident:
		obj, _ = info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		obj, _ = info.Uses[f.Sel].(*types.Func)
		if sel := info.Selections[f]; sel != nil && sel.Kind() == types.MethodVal {
			rv := ev.expr(f.X)
			rt := ev.typ(f.X)
			// walk embedded fields
			idx := sel.Index()
			for _, i := range idx[:len(idx)-1] {
				if d := derefT(rt); d != nil {
					rv = ev.readField(rv, d, i)
					rt = structOf(d).Field(i).Type()
				} else {
					rv = x.fieldOf(rv, i, structOf(rt))
					rt = structOf(rt).Field(i).Type()
				}
			}
			args = append(args, rv)
			ptypes = append(ptypes, rt)
		}
	}
	if obj == nil {
		panic(unsupported("call in specification"))
	}
	obj = obj.Origin()
	sig := obj.Type().(*types.Signature)
	np := sig.Params().Len()
	for i, a := range e.Args {
		if sig.Variadic() && i >= np-1 && !e.Ellipsis.IsValid() {
			break
		}
		args = append(args, ev.valAs(a, sig.Params().At(i).Type()))
	}
	if sig.Variadic() && !e.Ellipsis.IsValid() {
		st := sig.Params().At(np - 1).Type()
		c := EmptySeq(sortOf(st))
		for _, a := range e.Args[np-1:] {
			c = Snoc(c, x.term(s, ev.valAs(a, st.Underlying().(*types.Slice).Elem())))
		}
		args = append(args, c)
	}
	if sf := x.w.specFns[obj]; sf != nil {
		return ev.applySpec(sf, args)
	}
	full := obj.FullName()
	if fs, ok := specModels[full]; ok {
		return fs(ev, args)
	}
	if ct := x.w.contracts[full]; ct != nil && ct.Pure {
		vs := x.extResults(s, ct.Key, ct.Sig, args, true)
		return tuple(vs)
	}
	if x.w.pureObj(obj) {
		vs := x.extResults(s, full, sig, args, true)
		return tuple(vs)
	}
	if fn := x.w.prog.FuncValue(obj); fn != nil && x.w.inModule(fn) {
		if d, p := x.w.declOf(obj); d != nil {
			f := x.w.specFnOf(d, p)
			return ev.applyBody(f, args)
		}
	}
	panic(unsupported("function %s in specification", full))
}

func tuple(vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return &TupleV{vs}
}

func (fl *funcLitV) apply(args []Val) Val {
	n := *fl.ev
	n.vars = copyVars(fl.ev.vars)
	i := 0
	for _, f := range fl.lit.Type.Params.List {
		for _, id := range f.Names {
			n.vars[n.pkg.TypesInfo.Defs[id]] = args[i]
			i++
		}
	}
	n.rt = nil
	if sg, ok := n.pkg.TypesInfo.TypeOf(fl.lit).(*types.Signature); ok {
		n.rt = resultTypes(sg)
	}
	return n.stmts(fl.lit.Body.List)
}

func resultTypes(sg *types.Signature) []types.Type {
	var l []types.Type
	for i := 0; i < sg.Results().Len(); i++ {
		l = append(l, sg.Results().At(i).Type())
	}
	return l
}

// applySpec: definitions are unfolded; recursive ones become applications that
// the solver unfolds on demand.
func (ev *specEv) applySpec(f *specFn, args []Val) Val {
	hidden := f.abstract && ev.x.c != nil && ev.x.c.Pkg != f.pkg
	if !f.rec && !f.uninterp && !hidden {
		return ev.applyBody(f, args)
	}
	var ts []*Term
	for i, a := range args {
		if mt, ok := f.params[i].Type().Underlying().(*types.Map); ok {
			mv := ev.mapV(a, mt)
			ts = append(ts, mv.has, mv.val)
			continue
		}
		ts = append(ts, ev.x.term(ev.s, a))
	}
	if hidden {
		g := *f
		g.uninterp = true
		f = &g
	}
	return ev.x.w.specApp(f, ts)
}

func (w *World) specApp(f *specFn, ts []*Term) Val {
	sig := f.obj.Type().(*types.Signature)
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		n := "spec:" + f.name
		if sig.Results().Len() > 1 {
			n += fmt.Sprintf("#%d", i)
		}
		if mt, ok := rt.Underlying().(*types.Map); ok {
			_, _, _, hs, vsrt := mapComps(mt)
			vs = append(vs, &MapV{App(n+".h", hs.Elem, ts...), App(n+".v", vsrt.Elem, ts...), mt})
			w.registerUnfold(f, n+".h", i, 1)
			w.registerUnfold(f, n+".v", i, 2)
			continue
		}
		vs = append(vs, App(n, sortOf(rt), ts...))
		w.registerUnfold(f, n, i, 0)
	}
	return tuple(vs)
}

func (w *World) registerUnfold(f *specFn, name string, res, part int) {
	if f.uninterp {
		return
	}
	if _, ok := unfolders[name]; ok {
		return
	}
	unfolders[name] = func(t *Term) []*Term {
		x := w.pureExec()
		s := x.entry
		var args []Val
		j := 0
		for _, p := range f.params {
			if mt, ok := p.Type().Underlying().(*types.Map); ok {
				args = append(args, &MapV{t.Args[j], t.Args[j+1], mt})
				j += 2
				continue
			}
			args = append(args, t.Args[j])
			j++
		}
		ev := &specEv{x: x, s: s, vars: map[types.Object]Val{}}
		n0 := len(s.heap)
		v := ev.applyBody(f, args)
		if len(s.heap) != n0 {
			panic(unsupported("recursive specification function %s reads the heap", f.name))
		}
		if tu, ok := v.(*TupleV); ok {
			v = tu.vs[res]
		}
		if mv, ok := v.(*MapV); ok {
			if part == 1 {
				return []*Term{Eq(t, mv.has)}
			}
			return []*Term{Eq(t, mv.val)}
		}
		return []*Term{Eq(t, x.term(s, v))}
	}
}

func (ev *specEv) intrinsic(name string, e *ast.CallExpr) Val {
	x, s := ev.x, ev.s
	switch name {
	case "vOld":
		return ev.inOld().expr(e.Args[0])
	case "vImp":
		a := ev.term(e.Args[0])
		if a == False {
			return True
		}
		return Imp(a, ev.term(e.Args[1]))
	case "vIff":
		return Eq(ev.term(e.Args[0]), ev.term(e.Args[1]))
	case "vIte":
		return ev.ite(ev.s.simp(ev.term(e.Args[0])), ev.expr(e.Args[1]), ev.expr(e.Args[2]))
	case "vAll", "vAll2", "vAll3", "vAll4", "vAll5", "vEx", "vEx2", "vEx3":
		fl := ev.expr(e.Args[0]).(*funcLitV)
		var vars []*Term
		var args []Val
		var guard []*Term
		for _, f := range fl.lit.Type.Params.List {
			t := ev.typ(f.Type)
			for _, id := range f.Names {
				v := FreshVar(id.Name, sortOf(t))
				vars = append(vars, v)
				args = append(args, v)
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					guard = append(guard, Le(Int(0), v))
				}
			}
		}
		fl.ev.quant = true
		b := x.term(s, fl.apply(args))
		if strings.HasPrefix(name, "vAll") {
			return mkForall(vars, Imp(And(guard...), b))
		}
		return Not(mkForall(vars, Not(And(append(guard, b)...))))
	case "vEq": // extensional equality of slices / maps contents / anything
		a, b := ev.expr(e.Args[0]), ev.expr(e.Args[1])
		ta, tb := ev.typ(e.Args[0]), ev.typ(e.Args[1])
		if mt, ok := ta.Underlying().(*types.Map); ok {
			mt2 := tb.Underlying().(*types.Map)
			ma, mb := ev.mapV(a, mt), ev.mapV(b, mt2)
			return And(Eq(ma.has, mb.has), Eq(ma.val, mb.val))
		}
		return ev.eq(a, b)
	case "vHas":
		m := ev.expr(e.Args[0])
		mt := ev.typ(e.Args[0]).Underlying().(*types.Map)
		h, _ := ev.mapGet(m, mt, ev.x.term(s, ev.valAs(e.Args[1], mt.Key())))
		return h
	case "vMem": // vMem(xs, x)
		return App("seq.mem", SBool, ev.term(e.Args[0]), ev.x.term(s, ev.valAs(e.Args[1], ev.typ(e.Args[0]).Underlying().(*types.Slice).Elem())))
	case "vPrefix": // vPrefix(s, p): s starts with p
		return PrefixOf(ev.term(e.Args[1]), ev.term(e.Args[0]))
	case "vMapSet":
		mt := ev.typ(e.Args[0]).Underlying().(*types.Map)
		m := ev.mapV(ev.expr(e.Args[0]), mt)
		k := x.term(s, ev.valAs(e.Args[1], mt.Key()))
		v := x.term(s, ev.valAs(e.Args[2], mt.Elem()))
		return &MapV{Store(m.has, k, True), Store(m.val, k, v), mt}
	case "vMapDel":
		mt := ev.typ(e.Args[0]).Underlying().(*types.Map)
		m := ev.mapV(ev.expr(e.Args[0]), mt)
		k := x.term(s, ev.valAs(e.Args[1], mt.Key()))
		return &MapV{Store(m.has, k, False), Store(m.val, k, zeroTerm(m.val.S.Elem)), mt}
	case "vContents": // the contents of a map as a value
		mt := ev.typ(e.Args[0]).Underlying().(*types.Map)
		return ev.mapV(ev.expr(e.Args[0]), mt)
	case "vSeen": // argument is a vSet role
		return ev.expr(e.Args[0])
	case "vFresh": // allocated during the call
		o := ev.old
		if o == nil {
			o = s
		}
		return Gt(ev.term(e.Args[0]), o.top)
	case "vAllocated":
		return And(Le(ev.term(e.Args[0]), s.top), Le(Int(0), ev.term(e.Args[0])))
	case "vLockHeld": // vLockHeld(&x.lock) : lock state
		panic(unsupported("vLockHeld"))
	case "vLocksUnchanged":
		o := ev.old
		if o == nil {
			o = s
		}
		a, b := x.lockComp(s), x.lockComp(o)
		if a == b {
			return True
		}
		r := FreshVar("l", SInt)
		return Forall([]*Term{r}, Eq(Select(a, r), Select(b, r)))
	case "vLocksFree":
		a := x.lockComp(s)
		r := FreshVar("l", SInt)
		return Forall([]*Term{r}, Eq(Select(a, r), Int(0)), []*Term{Select(a, r)})
	case "vSame": // the heap location expression has the value it had at entry
		return ev.eq(ev.expr(e.Args[0]), ev.inOld().expr(e.Args[0]))
	case "vDyn": // vDyn[T](any) : dynamic type is T
		ix := ast.Unparen(e.Fun).(*ast.IndexExpr)
		at := ev.typ(ix.Index)
		n := tname(at)
		x.w.boxTypes[n] = at
		if _, ok := at.Underlying().(*types.Interface); ok {
			return x.implements(ev.term(e.Args[0]), at)
		}
		return HasType(ev.term(e.Args[0]), n)
	case "vCast": // vCast[T](any)
		ix := ast.Unparen(e.Fun).(*ast.IndexExpr)
		at := ev.typ(ix.Index)
		n := tname(at)
		x.w.boxTypes[n] = at
		return Unbox(ev.term(e.Args[0]), n, sortOf(at))
	case "vZero":
		return zeroTerm(sortOf(ev.typ(e)))
	case "vIdent": // identity of a reference valued expression
		return ev.term(e.Args[0])
	case "vFn": // function value identity
		return ev.term(e.Args[0])
	}
	panic(unsupported("intrinsic %s", name))
}

// mkForall chooses instantiation patterns.
func mkForall(vars []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	pats := choosePatterns(vars, body)
	return Forall(vars, body, pats...)
}

func choosePatterns(vars []*Term, body *Term) [][]*Term {
	vs := map[*Term]bool{}
	for _, v := range vars {
		vs[v] = true
	}
	type cand struct {
		t    *Term
		cov  map[*Term]bool
		size int
	}
	var cands []cand
	seen := map[*Term]bool{}
	size := func(t *Term) int {
		n := 0
		m := map[*Term]bool{}
		var w func(*Term)
		w = func(t *Term) {
			if m[t] {
				return
			}
			m[t] = true
			n++
			for _, a := range t.Args {
				w(a)
			}
		}
		w(t)
		return n
	}
	// a usable pattern has only uninterpreted structure above its variables
	var okPat func(t *Term) bool
	okPat = func(t *Term) bool {
		if !t.bound {
			return true
		}
		switch t.Op {
		case "var":
			return true
		case "app", "select", "sel", "mk":
			for _, a := range t.Args {
				if !okPat(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			for _, a := range t.Args {
				walk(a)
			}
			return
		}
		if (t.Op == "app" || t.Op == "select") && okPat(t) {
			used := map[*Term]bool{}
			collectVars(t, used, map[*Term]bool{})
			cov := map[*Term]bool{}
			only := true
			for v := range used {
				if vs[v] {
					cov[v] = true
				} else {
					only = false
				}
			}
			if only && len(cov) > 0 {
				cands = append(cands, cand{t, cov, size(t)})
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	sort.SliceStable(cands, func(i, j int) bool {
		if cands[i].size != cands[j].size {
			return cands[i].size < cands[j].size
		}
		return cands[i].t.id < cands[j].t.id
	})
	used := map[*Term]bool{}
	collectVars(body, used, map[*Term]bool{})
	need := 0
	for _, v := range vars {
		if used[v] {
			need++
		}
	}
	var pats [][]*Term
	for _, c := range cands {
		if len(c.cov) == need {
			// skip candidates that contain an already chosen one
			contains := false
			for _, p := range pats {
				if subterm(p[0], c.t) {
					contains = true
				}
			}
			if !contains {
				pats = append(pats, []*Term{c.t})
			}
			if len(pats) >= 4 {
				break
			}
		}
	}
	if len(pats) > 0 {
		return pats
	}
	// multi-pattern: greedy cover
	cov := map[*Term]bool{}
	var mp []*Term
	for _, c := range cands {
		add := false
		for v := range c.cov {
			if !cov[v] {
				add = true
			}
		}
		if add {
			mp = append(mp, c.t)
			for v := range c.cov {
				cov[v] = true
			}
		}
	}
	if len(cov) == need && len(mp) > 0 {
		return [][]*Term{mp}
	}
	return nil
}

func subterm(a, b *Term) bool {
	if a == b {
		return true
	}
	for _, x := range b.Args {
		if subterm(a, x) {
			return true
		}
	}
	return false
}

// ---- loading

func loadSpecs(dir string) ([]*specFile, error) {
	var out []*specFile
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_spec.go") {
			return err
		}
		bs, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out = append(out, parseSpecFile(p, bs))
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out, err
}
