package main

// Go types to sorts, symbolic values and the symbolic state.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func qual(p *types.Package) string { return p.Path() }
func tname(t types.Type) string    { return types.TypeString(types.Unalias(t), qual) }

var sortMemo = map[string]*Sort{}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SInt
		}
		return SInt
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return SStr
		}
		return SeqOf(sortOf(u.Elem()))
	case *types.Array:
		if isByte(u.Elem()) {
			return SStr
		}
		return SeqOf(sortOf(u.Elem()))
	case *types.Interface:
		return SAny
	case *types.Struct:
		n := tname(t)
		if s, ok := sortMemo[n]; ok {
			return s
		}
		s := mkSort(&Sort{Name: "S_" + n, Kind: KData})
		sortMemo[n] = s
		for i := 0; i < u.NumFields(); i++ {
			s.FNames = append(s.FNames, u.Field(i).Name())
			s.Fields = append(s.Fields, sortOf(u.Field(i).Type()))
		}
		if len(s.Fields) == 0 {
			s.FNames = []string{"_unit"}
			s.Fields = []*Sort{SInt}
		}
		return s
	}
	return SInt
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}
func isStruct(t types.Type) bool { return structOf(t) != nil }
func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

type Val interface{}

type StructV struct {
	t  types.Type
	fs []Val
}
type SliceV struct {
	arr      int
	off, len *Term
	t        types.Type
}
type TupleV struct{ vs []Val }
type CloV struct {
	fn    *ssa.Function
	binds []Val
}
type IterV struct{ id int }
type MapV struct { // map contents as a value (specifications only)
	has, val *Term
	t        *types.Map
}

type PtrKind int

const (
	PCell PtrKind = iota
	PField
	PArr  // pointer to a whole array object
	PElem // element of an array object
	PTerm // element of a frozen sequence term (read only)
	PGlob
	PRefT  // pointer to non-struct heap object: ref term
	PGlobF // field of a struct global
)

type PtrV struct {
	kind PtrKind
	cell int
	path []int
	ref  *Term
	st   types.Type // struct type for PField, object type otherwise
	fld  int
	arr  int
	idx  *Term
	seq  *Term
	glob *ssa.Global
	et   types.Type // pointee type
}

type Arr struct {
	content  *Term
	extended bool
	exact    bool // capacity is exactly the length
}

type iterState struct {
	m        *Term // map ref
	mt       *types.Map
	visited  *Term
	has0     *Term // contents at start
	k        *Term // current key
	count    *Term
	strSeq   *Term
	inserted bool
}

type deferred struct {
	call ssa.CallInstruction
	fn   Val
	args []Val
}

type State struct {
	heap     map[string]*Term
	cells    map[int]Val
	arrs     map[int]Arr
	iters    map[int]iterState
	env      map[int]map[ssa.Value]Val
	defers   map[int][]deferred
	guards   map[*Term]*Term // map ref -> lock ref
	matref   map[int]*Term   // materialised cells
	pc       []*Term
	facts    map[*Term]bool
	eqs      map[*Term]*Term
	top      *Term
	nalloc   int
	dead     bool
	panicV   map[int]Val // frame -> current panic value while unwinding
	trace    []string
	loops    map[loopKey]func(s *State, from *ssa.BasicBlock)
	checked  int
	cellLock map[int]*Term
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)+4), cells: make(map[int]Val, len(s.cells)+4), arrs: make(map[int]Arr, len(s.arrs)+4),
		iters: map[int]iterState{}, env: make(map[int]map[ssa.Value]Val, len(s.env)), defers: map[int][]deferred{}, guards: map[*Term]*Term{}, matref: map[int]*Term{},
		facts: make(map[*Term]bool, len(s.facts)+4), eqs: make(map[*Term]*Term, len(s.eqs)+4), top: s.top, nalloc: s.nalloc, dead: s.dead, panicV: map[int]Val{}, loops: map[loopKey]func(*State, *ssa.BasicBlock){}, checked: s.checked}
	for k, v := range s.loops {
		n.loops[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.arrs {
		n.arrs[k] = v
	}
	for k, v := range s.iters {
		n.iters[k] = v
	}
	for k, v := range s.env {
		m := make(map[ssa.Value]Val, len(v)+4)
		for a, b := range v {
			m[a] = b
		}
		n.env[k] = m
	}
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	for k, v := range s.guards {
		n.guards[k] = v
	}
	for k, v := range s.matref {
		n.matref[k] = v
	}
	for k, v := range s.panicV {
		n.panicV[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.eqs {
		n.eqs[k] = v
	}
	n.cellLock = map[int]*Term{}
	for k, v := range s.cellLock {
		n.cellLock[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return n
}

func (s *State) assume(t *Term) {
	t = s.simp(t)
	switch t.Op {
	case "true":
		return
	case "false":
		s.dead = true
		s.pc = append(s.pc, False)
		return
	case "and":
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.facts[t] {
		return
	}
	s.pc = append(s.pc, t)
	s.facts[t] = true
	if t.Op == "=" && t.Args[1].isLit() {
		s.eqs[t.Args[0]] = t.Args[1]
	}
}

// simp simplifies a condition with the syntactic facts of the path.
func (s *State) simp(t *Term) *Term {
	if t.S != SBool {
		return t
	}
	if s.facts[t] {
		return True
	}
	switch t.Op {
	case "true", "false":
		return t
	case "not":
		return Not(s.simp(t.Args[0]))
	case "and":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, s.simp(a))
		}
		return And(as...)
	case "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, s.simp(a))
		}
		return Or(as...)
	case "=":
		if s.facts[Not(t)] {
			return False
		}
		if l, ok := s.eqs[t.Args[0]]; ok && t.Args[1].isLit() {
			return BoolLit(l == t.Args[1])
		}
	case "le":
		if s.facts[Not(t)] {
			return False
		}
		if s.leFact(t.Args[0]) {
			return True
		}
		if n := Not(t); n.Op == "le" && s.leFact(n.Args[0]) {
			return False
		}
	default:
		if s.facts[Not(t)] {
			return False
		}
	}
	return t
}

// leFact: is l <= 0 implied by one fact with the same linear atoms, or by an equality with a literal?
func (s *State) leFact(l *Term) bool {
	as, cs, n := linParts(l)
	if len(as) == 1 {
		if v, ok := s.eqs[as[0]]; ok && v.isInt() {
			return leZero(Subst(l, map[*Term]*Term{as[0]: v})) == True
		}
	}
	for f := range s.facts {
		if f.Op != "le" {
			continue
		}
		// no new terms here: the order of the facts is arbitrary
		fas, fcs, fn := linParts(f.Args[0])
		if len(fas) != len(as) || n.Cmp(fn) > 0 {
			continue
		}
		same := true
		for i := range as {
			if as[i] != fas[i] || cs[i].Cmp(fcs[i]) != 0 {
				same = false
				break
			}
		}
		if same {
			return true
		}
	}
	return false
}

// ---- heap components

func compSort(name string) *Sort { return compSorts[name] }

var compSorts = map[string]*Sort{}
var refComp = map[string]bool{} // components holding references
var mapHasComp = map[string]bool{}

func (x *Exec) comp(s *State, name string, srt *Sort) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	compSorts[name] = srt
	t := Const("H0:"+name, srt)
	// the component was never touched on this path: same base symbol in every state
	s.heap[name] = t
	return t
}

func fieldComp(st types.Type, i int) (string, *Sort) {
	f := structOf(st).Field(i)
	return "F:" + tname(st) + "." + f.Name(), ArrOf(SInt, sortOf(f.Type()))
}
func subName(st types.Type, i int) string {
	return "sub:" + tname(st) + "." + structOf(st).Field(i).Name()
}
func SubRef(ref *Term, st types.Type, i int) *Term { return App(subName(st, i), SInt, ref) }

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (x *Exec) readField(s *State, ref *Term, st types.Type, i int) Val {
	f := structOf(st).Field(i)
	if isStruct(f.Type()) {
		return x.readStruct(s, SubRef(ref, st, i), f.Type())
	}
	n, srt := fieldComp(st, i)
	t := Select(x.comp(s, n, srt), ref)
	if isRefType(f.Type()) {
		x.refFact(s, t)
	}
	if b, ok := f.Type().Underlying().(*types.Basic); ok {
		x.rangeFact(s, t, b)
	}
	return t
}

// rangeFact: a machine integer read from the heap lies in its type's range.
func (x *Exec) rangeFact(s *State, t *Term, b *types.Basic) {
	if t.bound || b.Info()&types.IsInteger == 0 || t.Op == "int" || t.Op == "lin" {
		return
	}
	lo, hi := intRange(b)
	s.assume(Le(BigInt(lo), t))
	s.assume(Le(t, BigInt(hi)))
}

func (x *Exec) refFact(s *State, t *Term) {
	if t.bound || t.isInt() {
		return
	}
	if _, neg := knownNegative(t); neg {
		return
	}
	s.assume(Le(t, s.top))
}

func (x *Exec) writeField(s *State, ref *Term, st types.Type, i int, v Val) {
	f := structOf(st).Field(i)
	if isStruct(f.Type()) {
		x.writeStruct(s, SubRef(ref, st, i), f.Type(), v)
		return
	}
	n, srt := fieldComp(st, i)
	s.heap[n] = Store(x.comp(s, n, srt), ref, x.term(s, v))
}

func (x *Exec) readStruct(s *State, ref *Term, st types.Type) Val {
	u := structOf(st)
	fs := make([]Val, u.NumFields())
	for i := range fs {
		fs[i] = x.readField(s, ref, st, i)
	}
	return &StructV{st, fs}
}
func (x *Exec) writeStruct(s *State, ref *Term, st types.Type, v Val) {
	u := structOf(st)
	for i := 0; i < u.NumFields(); i++ {
		x.writeField(s, ref, st, i, x.fieldOf(v, i, u))
	}
}
func (x *Exec) fieldOf(v Val, i int, u *types.Struct) Val {
	switch v := v.(type) {
	case *StructV:
		return v.fs[i]
	case *Term:
		return Sel(v, i)
	}
	panic(unsupported("field of %T", v))
}

// term converts a value to a logical term (materialising local cells whose address escapes).
func (x *Exec) term(s *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *StructV:
		srt := sortOf(v.t)
		if len(v.fs) == 0 {
			return Mk(srt, Int(0))
		}
		as := make([]*Term, len(v.fs))
		for i, f := range v.fs {
			as[i] = x.term(s, f)
		}
		return Mk(srt, as...)
	case *SliceV:
		return x.content(s, v)
	case *CloV:
		return x.cloTerm(s, v)
	case *PtrV:
		switch v.kind {
		case PCell:
			return x.materialise(s, v)
		case PRefT:
			return v.ref
		case PField:
			return App("fieldptr:"+tname(v.st)+"."+structOf(v.st).Field(v.fld).Name(), SInt, v.ref)
		case PGlob:
			return Const("globptr:"+v.glob.String(), SInt)
		case PElem:
			c := x.content(s, &SliceV{arr: v.arr, off: Int(0), len: nil})
			_ = c
			return App("elemptr", SInt, Int(int64(v.arr)), v.idx)
		case PTerm:
			return App("elemptr:"+v.seq.S.Name, SInt, v.seq, v.idx)
		}
		panic(unsupported("pointer kind %d escapes", v.kind))
	case nil:
		panic(unsupported("nil value"))
	}
	panic(unsupported("term of %T", v))
}

func (x *Exec) content(s *State, v *SliceV) *Term {
	c := s.arrs[v.arr].content
	if v.len == nil {
		return c
	}
	return SubSeq(c, v.off, Add(v.off, v.len))
}

func (x *Exec) newArr(s *State, content *Term) int {
	x.arrCtr++
	s.arrs[x.arrCtr] = Arr{content: content}
	return x.arrCtr
}

func (x *Exec) sliceOf(s *State, content *Term, t types.Type) *SliceV {
	return &SliceV{arr: x.newArr(s, content), off: Int(0), len: Len(content), t: t}
}

// alloc returns a reference different from every earlier one.
func (x *Exec) alloc(s *State) *Term {
	s.top = Add(s.top, Int(1))
	return s.top
}

func (x *Exec) newCell(s *State, v Val) int {
	x.cellCtr++
	s.cells[x.cellCtr] = v
	return x.cellCtr
}

func (x *Exec) materialise(s *State, p *PtrV) *Term {
	r, ok := s.matref[p.cell]
	rootT := x.cellT[p.cell]
	if !ok {
		r = x.alloc(s)
		x.matLog(p.cell)
		v := s.cells[p.cell]
		s.matref[p.cell] = r
		x.storeRef(s, r, rootT, v)
		delete(s.cells, p.cell)
	}
	return x.pathRef(r, rootT, p.path)
}

func (x *Exec) pathRef(r *Term, t types.Type, path []int) *Term {
	for _, i := range path {
		ft := structOf(t).Field(i).Type()
		if isStruct(ft) {
			r = SubRef(r, t, i)
		} else {
			return App("fieldptr:"+tname(t)+"."+structOf(t).Field(i).Name(), SInt, r)
		}
		t = ft
	}
	return r
}

// storeRef writes a whole object of type t at ref.
func (x *Exec) storeRef(s *State, r *Term, t types.Type, v Val) {
	if isStruct(t) {
		x.writeStruct(s, r, t, v)
		return
	}
	n := "P:" + tname(t)
	s.heap[n] = Store(x.comp(s, n, ArrOf(SInt, sortOf(t))), r, x.term(s, v))
}
func (x *Exec) loadRef(s *State, r *Term, t types.Type) Val {
	if isStruct(t) {
		return x.readStruct(s, r, t)
	}
	n := "P:" + tname(t)
	v := Select(x.comp(s, n, ArrOf(SInt, sortOf(t))), r)
	if isRefType(t) {
		x.refFact(s, v)
	}
	return v
}

func (x *Exec) load(s *State, v Val, pointee types.Type) Val {
	switch p := v.(type) {
	case *Term:
		x.nilCheck(s, p, "nil dereference")
		return x.loadRef(s, p, pointee)
	case *PtrV:
		switch p.kind {
		case PCell:
			if r, ok := s.matref[p.cell]; ok {
				return x.loadAtPath(s, r, x.cellT[p.cell], p.path)
			}
			c := s.cells[p.cell]
			for _, i := range p.path {
				c = x.fieldOf(c, i, nil)
			}
			return c
		case PField:
			x.guardRead(s, p, false)
			v := x.readField(s, p.ref, p.st, p.fld)
			x.guardLoad(s, p, v)
			return v
		case PArr:
			return s.arrs[p.arr].content
		case PElem:
			return x.elemFact(s, selPath(Nth(s.arrs[p.arr].content, p.idx), p.path), p.et)
		case PTerm:
			return x.elemFact(s, selPath(Nth(p.seq, p.idx), p.path), p.et)
		case PGlobF:
			return x.fieldOf(x.loadGlobal(s, p.glob), p.path[0], nil)
		case PGlob:
			return x.loadGlobal(s, p.glob)
		case PRefT:
			return x.loadRef(s, p.ref, pointee)
		}
	}
	panic(unsupported("load through %T", v))
}

func selPath(t *Term, path []int) *Term {
	for _, i := range path {
		t = Sel(t, i)
	}
	return t
}

func (x *Exec) elemFact(s *State, t *Term, et types.Type) *Term {
	if et == nil {
		return t
	}
	if isRefType(et) {
		x.refFact(s, t)
	} else if b, ok := et.Underlying().(*types.Basic); ok {
		x.rangeFact(s, t, b)
	}
	return t
}

func (x *Exec) loadAtPath(s *State, r *Term, t types.Type, path []int) Val {
	for k, i := range path {
		ft := structOf(t).Field(i).Type()
		if k == len(path)-1 && !isStruct(ft) {
			return x.readField(s, r, t, i)
		}
		r = SubRef(r, t, i)
		t = ft
	}
	return x.loadRef(s, r, t)
}

func (x *Exec) store(s *State, v Val, val Val, pointee types.Type) {
	switch p := v.(type) {
	case *Term:
		x.nilCheck(s, p, "nil dereference")
		x.storeRef(s, p, pointee, val)
		return
	case *PtrV:
		switch p.kind {
		case PCell:
			if r, ok := s.matref[p.cell]; ok {
				t := x.cellT[p.cell]
				for k, i := range p.path {
					ft := structOf(t).Field(i).Type()
					if k == len(p.path)-1 && !isStruct(ft) {
						x.writeField(s, r, t, i, val)
						return
					}
					r = SubRef(r, t, i)
					t = ft
				}
				x.storeRef(s, r, t, val)
				return
			}
			s.cells[p.cell] = x.updPath(s.cells[p.cell], x.cellT[p.cell], p.path, val)
			return
		case PField:
			x.guardRead(s, p, true)
			x.writeField(s, p.ref, p.st, p.fld, val)
			return
		case PArr:
			s.arrs[p.arr] = Arr{content: x.term(s, val)}
			return
		case PElem:
			a := s.arrs[p.arr]
			if a.extended && !a.exact {
				panic(unsupported("write into a slice whose backing array may be shared"))
			}
			if len(p.path) > 0 {
				val = x.updPath(Nth(a.content, p.idx), p.st, p.path, val)
			}
			a.content = updSeq(a.content, p.idx, x.term(s, val))
			s.arrs[p.arr] = a
			return
		case PGlob:
			x.storeGlobal(s, p.glob, val)
			return
		case PRefT:
			x.storeRef(s, p.ref, pointee, val)
			return
		case PGlobF:
			x.storeGlobal(s, p.glob, x.updPath(x.loadGlobal(s, p.glob), derefT(p.glob.Type()), p.path, val))
			return
		case PTerm:
			panic(unsupported("write into a slice whose backing array is shared"))
		}
	}
	panic(unsupported("store through %T", v))
}

func updSeq(c, i, v *Term) *Term {
	if i.isInt() && c.Op == "app" && c.Name == "seq.snoc" {
		l := Len(c.Args[0])
		if l.isInt() {
			switch l.N.Cmp(i.N) {
			case 0:
				return Snoc(c.Args[0], v)
			case 1:
				return Snoc(updSeq(c.Args[0], i, v), c.Args[1])
			}
		}
	}
	return Upd(c, i, v)
}

func (x *Exec) updPath(c Val, t types.Type, path []int, v Val) Val {
	if len(path) == 0 {
		return v
	}
	u := structOf(t)
	fs := make([]Val, u.NumFields())
	for i := range fs {
		fs[i] = x.fieldOf(c, i, u)
	}
	fs[path[0]] = x.updPath(fs[path[0]], u.Field(path[0]).Type(), path[1:], v)
	return &StructV{t, fs}
}

// ---- globals

func (x *Exec) globName(g *ssa.Global) string { return "G:" + g.Pkg.Pkg.Path() + "." + g.Name() }
func (x *Exec) loadGlobal(s *State, g *ssa.Global) Val {
	t := derefT(g.Type())
	if fn := x.w.constFuncs()[g]; fn != nil {
		return &CloV{fn: fn}
	}
	if x.initOf == nil {
		if v := x.constGlobal(g); v != nil {
			for _, f := range fnConsts(v, map[*Term]bool{}, nil) {
				s.assume(Gt(f, Int(0)))
				s.assume(Le(f, s.top))
			}
			return v
		}
	}
	v := x.comp(s, x.globName(g), sortOf(t))
	if isRefType(t) {
		x.refFact(s, v)
	}
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), x.w.modPath) {
		switch t.Underlying().(type) {
		case *types.Interface:
			s.assume(Not(Eq(v, NilAny())))
		case *types.Pointer:
			s.assume(Not(Eq(v, x.term(s, x.zero(t)))))
		}
	}
	return v
}
func (x *Exec) storeGlobal(s *State, g *ssa.Global, v Val) {
	x.comp(s, x.globName(g), sortOf(derefT(g.Type())))
	s.heap[x.globName(g)] = x.term(s, v)
}

// ---- zero values

func (x *Exec) zero(t types.Type) Val {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = x.zero(u.Field(i).Type())
		}
		return &StructV{t, fs}
	}
	return zeroTerm(sortOf(t))
}

func zeroTerm(s *Sort) *Term {
	switch s.Kind {
	case KBool:
		return False
	case KInt:
		return Int(0)
	case KReal:
		return RealLit("0.0")
	case KAny:
		return NilAny()
	case KSeq:
		return EmptySeq(s)
	case KData:
		var as []*Term
		for _, f := range s.Fields {
			as = append(as, zeroTerm(f))
		}
		return Mk(s, as...)
	case KArr:
		return ConstArr(s, zeroTerm(s.Elem))
	}
	panic("zero of " + s.Name)
}

// ---- maps

func mapComps(mt *types.Map) (h, v, l string, hs, vs *Sort) {
	n := tname(mt)
	// maps of different named types but identical underlying type share components
	n = types.TypeString(mt.Underlying(), qual)
	hs = ArrOf(SInt, ArrOf(sortOf(mt.Key()), SBool))
	vs = ArrOf(SInt, ArrOf(sortOf(mt.Key()), sortOf(mt.Elem())))
	return "MH:" + n, "MV:" + n, "ML:" + n, hs, vs
}

func (x *Exec) mapHas(s *State, m *Term, mt *types.Map) *Term {
	h, _, _, hs, _ := mapComps(mt)
	if m.isInt() && m.N.Sign() == 0 {
		return ConstArr(hs.Elem, False)
	}
	c := x.comp(s, h, hs)
	mapHasComp[h] = true
	return Select(c, m)
}
func (x *Exec) mapVal(s *State, m *Term, mt *types.Map) *Term {
	_, v, _, _, vs := mapComps(mt)
	return Select(x.comp(s, v, vs), m)
}
func (x *Exec) mapLen(s *State, m *Term, mt *types.Map) *Term {
	_, _, l, _, _ := mapComps(mt)
	return Select(x.comp(s, l, ArrOf(SInt, SInt)), m)
}
func (x *Exec) setMap(s *State, m *Term, mt *types.Map, has, val, ln *Term) {
	h, v, l, hs, vs := mapComps(mt)
	if has != nil {
		s.heap[h] = Store(x.comp(s, h, hs), m, has)
	}
	if val != nil {
		s.heap[v] = Store(x.comp(s, v, vs), m, val)
	}
	if ln != nil {
		s.heap[l] = Store(x.comp(s, l, ArrOf(SInt, SInt)), m, ln)
	}
}

type unsup struct{ msg string }

func (u unsup) Error() string { return u.msg }
func unsupported(f string, a ...interface{}) unsup {
	return unsup{fmt.Sprintf(f, a...)}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
