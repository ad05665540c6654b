package main

// Path-wise symbolic execution of go/ssa functions in continuation passing style.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Mode int

const (
	MDry Mode = iota
	MHoudini
	MFinal
)

type Outcome struct {
	panicked bool
	vals     []Val
	pv       Val
}
type Cont func(s *State, o Outcome)

type Frame struct {
	id      int
	fn      *ssa.Function
	parent  *Frame
	depth   int
	params  []Val
	deferOf *Frame
	info    *fnInfo
}

// VC is one proof obligation instance (one path); several make up an obligation.
type VC struct {
	ID     string
	Props  []string
	Assume []*Term
	Goal   *Term
	Pos    string
	Trace  []string
	V      Verdict
}

type Exec struct {
	w        *World
	c        *Contract
	root     *Frame
	mode     Mode
	prop     string
	cellT    map[int]types.Type
	cellCtr  int
	arrCtr   int
	frameCtr int
	iterCtr  int
	clos     map[*Term]*CloV
	vcs      []*VC
	steps    int
	paths    int
	limit    int
	mats     []*[]int // cells materialised while a recorder is active
	entry    *State
	args     []Val
	used     map[string]bool // contracts used
	assumed  map[string]bool // external functions assumed
	inlined  map[string]bool
	loopInv  map[string][]string
	houQ     int
	allRoles bool // loop clauses: try all variables of the right type
	rolesCut bool // some were not tried
	cellName map[int]string
	noPanic  bool
	reads    *readLog
	initOf   *ssa.Package
	cbSeen   map[string]int
	cbExits  map[string][][]*Term

	stops     map[loopKey]int // loops being analysed: paths end where they leave the loop
	loopCache map[string]map[string]bool
	inLoop    int
	nloops    int
	invOK     int
}

type readLog struct{}

func (x *Exec) matLog(c int) {
	for _, m := range x.mats {
		*m = append(*m, c)
	}
}

type loopKey struct {
	frame int
	block *ssa.BasicBlock
}

// fnInfo: static loop structure
type fnInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	order   map[*ssa.BasicBlock]int
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	in := &fnInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, order: map[*ssa.BasicBlock]int{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := in.headers[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					in.headers[h] = body
					in.order[h] = len(in.order)
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range n.Preds {
						if !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	fnInfos[fn] = in
	return in
}

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	x.frameCtr++
	f := &Frame{id: x.frameCtr, fn: fn, parent: parent, info: infoOf(fn)}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

func (x *Exec) pos(i ssa.Instruction) string {
	p := x.w.prog.Fset.Position(i.Pos())
	if !p.IsValid() {
		return i.Parent().String()
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.w.repo+"/"), p.Line)
}

// runFunc executes fn and calls k for every outcome.
func (x *Exec) runFunc(fn *ssa.Function, args, binds []Val, s *State, parent, deferOf *Frame, k Cont) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: %s", fn))
	}
	n := 0
	for f := parent; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	if n >= 2 {
		panic(unsupported("recursion in %s without a contract", fn))
	}
	fr := x.newFrame(fn, parent)
	if fr.depth > 40 {
		panic(unsupported("call depth in %s", fn))
	}
	fr.params = args
	fr.deferOf = deferOf
	if x.mode == MFinal && parent != nil {
		x.inlined[fn.String()] = true
	}
	env := map[ssa.Value]Val{}
	if len(args) != len(fn.Params) {
		panic(unsupported("arity of %s", fn))
	}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = binds[i]
	}
	s.env[fr.id] = env
	if x.root == nil {
		x.root = fr
	}
	x.block(fr, s, fn.Blocks[0], 0, func(s *State, o Outcome) {
		delete(s.env, fr.id)
		delete(s.defers, fr.id)
		delete(s.panicV, fr.id)
		k(s, o)
	})
}

func (x *Exec) goTo(fr *Frame, s *State, from, to *ssa.BasicBlock, k Cont) {
	for h, body := range fr.info.headers {
		if body[from] && !body[to] && x.stops[loopKey{fr.id, h}] > 0 {
			return
		}
	}
	if body, ok := fr.info.headers[to]; ok {
		key := loopKey{fr.id, to}
		if body[from] {
			if ctx := s.loops[key]; ctx != nil {
				ctx(s, from)
				return
			}
			panic(unsupported("back edge without loop context"))
		}
		x.enterLoop(fr, s, from, to, k)
		return
	}
	x.phis(fr, s, from, to)
	x.block(fr, s, to, 0, k)
}

func (x *Exec) phis(fr *Frame, s *State, from, to *ssa.BasicBlock) {
	var vs []Val
	var ps []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(s, fr, p.Edges[pi]))
	}
	for i, p := range ps {
		s.env[fr.id][p] = vs[i]
	}
}

func (x *Exec) step() {
	x.steps++
	if x.steps%1000 == 0 && x.w.solver.late() {
		panic(unsupported("the time of the check is used up"))
	}
	if x.steps > 4000000 {
		panic(unsupported("too many steps"))
	}
}

func (x *Exec) block(fr *Frame, s *State, b *ssa.BasicBlock, i int, k Cont) {
	for ; i < len(b.Instrs); i++ {
		if s.dead {
			return
		}
		x.step()
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := s.simp(x.tv(s, fr, in.Cond))
			if c == True {
				x.goTo(fr, s, b, b.Succs[0], k)
				return
			}
			if c == False {
				x.goTo(fr, s, b, b.Succs[1], k)
				return
			}
			x.paths++
			if x.paths > x.limit {
				panic(unsupported("too many paths"))
			}
			s2 := s.clone()
			s.assume(c)
			if !s.dead && x.feasible(s) {
				x.goTo(fr, s, b, b.Succs[0], k)
			}
			s2.assume(Not(c))
			if !s2.dead && x.feasible(s2) {
				x.goTo(fr, s2, b, b.Succs[1], k)
			}
			return
		case *ssa.Jump:
			x.goTo(fr, s, b, b.Succs[0], k)
			return
		case *ssa.Return:
			vs := make([]Val, len(in.Results))
			for j, r := range in.Results {
				vs[j] = x.val(s, fr, r)
			}
			k(s, Outcome{vals: vs})
			return
		case *ssa.Panic:
			x.unwind(fr, s, x.val(s, fr, in.X), k)
			return
		case *ssa.RunDefers:
			x.runDefers(fr, s, func(s *State, o Outcome) {
				if o.panicked {
					x.unwind(fr, s, o.pv, k)
					return
				}
				x.block(fr, s, b, i+1, k)
			})
			return
		case *ssa.Defer:
			fv, args := x.callOperands(s, fr, &in.Call)
			s.defers[fr.id] = append(s.defers[fr.id], deferred{in, fv, args})
		case *ssa.Go:
			x.goStmt(fr, s, in)
		case *ssa.Call:
			fv, args := x.callOperands(s, fr, &in.Call)
			x.call(fr, s, in, &in.Call, fv, args, nil, func(s *State, o Outcome) {
				if s.dead {
					return
				}
				if o.panicked {
					x.unwind(fr, s, o.pv, k)
					return
				}
				x.bindResult(fr, s, in, o.vals)
				x.block(fr, s, b, i+1, k)
			})
			return
		case *ssa.Select:
			x.selectStmt(fr, s, in, func(s *State, v Val) {
				s.env[fr.id][in] = v
				x.block(fr, s, b, i+1, k)
			})
			return
		case *ssa.Next:
			it := x.val(s, fr, in.Iter).(*IterV)
			x.next(fr, s, in, it, func(s *State, v Val) {
				s.env[fr.id][in] = v
				x.block(fr, s, b, i+1, k)
			})
			return
		case *ssa.TypeAssert:
			x.typeAssert(fr, s, in, func(s *State, v Val) {
				s.env[fr.id][in] = v
				x.block(fr, s, b, i+1, k)
			})
			return
		default:
			x.instr(fr, s, in)
		}
	}
}

func (x *Exec) bindResult(fr *Frame, s *State, in *ssa.Call, vs []Val) {
	n := in.Call.Signature().Results().Len()
	if _, ok := in.Call.Value.(*ssa.Builtin); ok {
		if len(vs) > 0 {
			s.env[fr.id][in] = vs[0]
		}
		return
	}
	switch {
	case n == 1:
		s.env[fr.id][in] = vs[0]
	case n > 1:
		s.env[fr.id][in] = &TupleV{vs}
	}
}

// feasible: a cheap solver check that prunes contradictory paths.
func (x *Exec) feasible(s *State) bool {
	if !x.w.prune {
		return true
	}
	if len(s.pc) == s.checked {
		return true
	}
	s.checked = len(s.pc)
	x.houQ++
	v := x.w.solver.Prove(x.pcOf(s), False, 120, false)
	return !v.Proved
}

func (x *Exec) pcOf(s *State) []*Term { return s.pc }

func (x *Exec) unwind(fr *Frame, s *State, pv Val, k Cont) {
	if s.dead {
		return
	}
	if pv == nil {
		pv = NilAny()
	}
	s.panicV[fr.id] = pv
	x.runDefers(fr, s, func(s *State, o Outcome) {
		if o.panicked {
			x.unwind(fr, s, o.pv, k)
			return
		}
		if pv, still := s.panicV[fr.id]; still {
			k(s, Outcome{panicked: true, pv: pv})
			return
		}
		// recovered
		if fr.fn.Recover != nil {
			x.block(fr, s, fr.fn.Recover, 0, k)
			return
		}
		res := fr.fn.Signature.Results()
		var vs []Val
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, x.zero(res.At(i).Type()))
		}
		k(s, Outcome{vals: vs})
	})
}

func (x *Exec) runDefers(fr *Frame, s *State, k Cont) {
	ds := s.defers[fr.id]
	if len(ds) == 0 {
		k(s, Outcome{})
		return
	}
	d := ds[len(ds)-1]
	s.defers[fr.id] = ds[: len(ds)-1 : len(ds)-1]
	x.call(fr, s, d.call, d.call.Common(), d.fn, d.args, fr, func(s *State, o Outcome) {
		if s.dead {
			return
		}
		if o.panicked {
			k(s, o)
			return
		}
		x.runDefers(fr, s, k)
	})
}

// ---- values

func (x *Exec) tv(s *State, fr *Frame, v ssa.Value) *Term { return x.term(s, x.val(s, fr, v)) }

func (x *Exec) val(s *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &CloV{fn: v}
	case *ssa.Global:
		return &PtrV{kind: PGlob, glob: v, et: derefT(v.Type())}
	case *ssa.Builtin:
		return nil
	}
	r, ok := s.env[fr.id][v]
	if !ok {
		panic(unsupported("value %s (%T) of %s not available", v.Name(), v, fr.fn))
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolLit(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			return constInt(c.Value)
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.Value)
				return StrLit(string(rune(n)))
			}
			return StrLit(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			return realConst(c.Value)
		}
	case *types.Slice:
		if c.Value.Kind() == constant.String {
			return StrLit(constant.StringVal(c.Value))
		}
	}
	panic(unsupported("constant %s", c))
}

func constInt(v constant.Value) *Term {
	v = constant.ToInt(v)
	if n, ok := constant.Int64Val(v); ok {
		return Int(n)
	}
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	return BigInt(b)
}
func realConst(v constant.Value) *Term {
	f, _ := constant.Float64Val(v)
	str := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(str, ".") {
		str += ".0"
	}
	if strings.HasPrefix(str, "-") {
		return App("rneg", SReal, RealLit(str[1:]))
	}
	return RealLit(str)
}

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	bits := uint(64)
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

// symbolic creates an unconstrained value of a type (with the facts every value of it satisfies).
func (x *Exec) symbolic(s *State, name string, t types.Type) Val {
	v := Fresh(name, sortOf(t))
	x.typeFacts(s, v, t)
	return v
}

func (x *Exec) typeFacts(s *State, v *Term, t types.Type) {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		x.rangeFact(s, v, u)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		x.refFact(s, v)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch f := ft.Underlying().(type) {
			case *types.Basic:
				if f.Info()&types.IsInteger != 0 {
					x.typeFacts(s, Sel(v, i), ft)
				}
			case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
				x.typeFacts(s, Sel(v, i), ft)
			}
		}
	}
}

// ---- plain instructions

func (x *Exec) instr(fr *Frame, s *State, in ssa.Instruction) {
	env := s.env[fr.id]
	switch in := in.(type) {
	case *ssa.Alloc:
		t := derefT(in.Type())
		if a, ok := t.Underlying().(*types.Array); ok {
			if a.Len() > 4096 {
				panic(unsupported("large array"))
			}
			c := EmptySeq(sortOf(t))
			z := x.term(s, x.zero(a.Elem()))
			if c.S == SStr {
				b := make([]byte, a.Len())
				c = StrLit(string(b))
			} else {
				for i := int64(0); i < a.Len(); i++ {
					c = Snoc(c, z)
				}
			}
			id := x.newArr(s, c)
			ar := s.arrs[id]
			ar.exact = true
			s.arrs[id] = ar
			env[in] = &PtrV{kind: PArr, arr: id, et: t}
			return
		}
		id := x.newCell(s, x.zero(t))
		x.cellT[id] = t
		x.cellName[id] = in.Comment
		env[in] = &PtrV{kind: PCell, cell: id, et: t}
	case *ssa.Store:
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			if pt, ok := x.val(s, fr, in.Addr).(*PtrV); ok && pt.kind == PTerm && len(pt.path) == 0 && localWeb(ia.X, in) {
				// the slice is only known under this name from here on
				env[ia.X] = updSeq(x.tv(s, fr, ia.X), pt.idx, x.tv(s, fr, in.Val))
				return
			}
		}
		x.store(s, x.val(s, fr, in.Addr), x.val(s, fr, in.Val), derefT(in.Addr.Type()))
	case *ssa.UnOp:
		env[in] = x.unop(fr, s, in)
	case *ssa.BinOp:
		env[in] = x.binop(s, in.Op, x.val(s, fr, in.X), x.val(s, fr, in.Y), in.X.Type(), in.Type())
	case *ssa.FieldAddr:
		env[in] = x.fieldAddr(s, x.val(s, fr, in.X), derefT(in.X.Type()), in.Field)
	case *ssa.Field:
		env[in] = x.fieldOf(x.val(s, fr, in.X), in.Field, structOf(in.X.Type()))
	case *ssa.IndexAddr:
		env[in] = x.indexAddr(fr, s, in)
	case *ssa.Index:
		v := x.val(s, fr, in.X)
		i := x.tv(s, fr, in.Index)
		t := x.term(s, v)
		x.bounds(s, i, Len(t), x.pos(in))
		env[in] = x.elemFact(s, Nth(t, i), in.Type())
	case *ssa.Lookup:
		env[in] = x.lookup(fr, s, in)
	case *ssa.Slice:
		env[in] = x.slice(fr, s, in)
	case *ssa.MakeSlice:
		n := x.tv(s, fr, in.Len)
		st := sortOf(in.Type())
		et := in.Type().Underlying().(*types.Slice).Elem()
		env[in] = x.sliceOf(s, x.makeSeq(s, st, n, x.term(s, x.zero(et))), in.Type())
	case *ssa.MakeMap:
		r := x.alloc(s)
		mt := in.Type().Underlying().(*types.Map)
		_, _, _, hs, vs := mapComps(mt)
		x.setMap(s, r, mt, ConstArr(hs.Elem, False), ConstArr(vs.Elem, zeroTerm(sortOf(mt.Elem()))), Int(0))
		env[in] = r
	case *ssa.MakeChan:
		env[in] = x.alloc(s)
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := x.tv(s, fr, in.Map)
		x.nilCheck(s, m, "assignment to nil map at "+x.pos(in))
		x.mapGuard(s, m, true, x.pos(in))
		x.mapUpdate(s, m, mt, x.tv(s, fr, in.Key), x.tv(s, fr, in.Value))
	case *ssa.MakeInterface:
		env[in] = x.makeIface(s, x.val(s, fr, in.X), in.X.Type())
	case *ssa.ChangeInterface:
		env[in] = x.val(s, fr, in.X)
	case *ssa.ChangeType:
		v := x.val(s, fr, in.X)
		switch v := v.(type) {
		case *SliceV:
			n := *v
			n.t = in.Type()
			env[in] = &n
		case *StructV:
			if sortOf(in.Type()) != sortOf(v.t) {
				env[in] = &StructV{in.Type(), v.fs}
			} else {
				env[in] = v
			}
		case *Term:
			if so := sortOf(in.Type()); so != v.S {
				env[in] = x.convSort(s, v, so, in.X.Type(), in.Type())
			} else {
				env[in] = v
			}
		default:
			env[in] = v
		}
	case *ssa.Convert:
		env[in] = x.convert(s, x.val(s, fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		env[in] = x.convert(s, x.val(s, fr, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		tv, ok := x.val(s, fr, in.Tuple).(*TupleV)
		if !ok {
			panic(unsupported("extract"))
		}
		env[in] = tv.vs[in.Index]
	case *ssa.MakeClosure:
		c := &CloV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(s, fr, b))
		}
		env[in] = c
	case *ssa.Range:
		env[in] = x.rangeStart(fr, s, in)
	case *ssa.Send:
		x.sendHook(s, x.tv(s, fr, in.Chan), x.tv(s, fr, in.X), in.Chan.Type())
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array"))
	default:
		panic(unsupported("instruction %T", in))
	}
}

func (x *Exec) convSort(s *State, v *Term, so *Sort, from, to types.Type) Val {
	if structOf(from) != nil && structOf(to) != nil {
		var fs []Val
		for i := 0; i < structOf(from).NumFields(); i++ {
			fs = append(fs, Sel(v, i))
		}
		return &StructV{to, fs}
	}
	return App("conv:"+tname(from)+">"+tname(to), so, v)
}

func (x *Exec) makeSeq(s *State, st *Sort, n, z *Term) *Term {
	if n.isInt() && n.N.IsInt64() && n.N.Int64() <= 64 {
		if st == SStr {
			return StrLit(string(make([]byte, n.N.Int64())))
		}
		c := EmptySeq(st)
		for i := int64(0); i < n.N.Int64(); i++ {
			c = Snoc(c, z)
		}
		return c
	}
	c := Fresh("make", st)
	s.assume(Le(Int(0), n))
	s.assume(Eq(App("seq.len", SInt, c), n))
	i := FreshVar("i", SInt)
	e := App("seq.nth", st.Elem, c, i)
	s.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, n)), Eq(e, z)), []*Term{e}))
	return c
}

func (x *Exec) fieldAddr(s *State, v Val, st types.Type, f int) Val {
	ft := structOf(st).Field(f).Type()
	switch p := v.(type) {
	case *PtrV:
		switch p.kind {
		case PCell:
			if r, ok := s.matref[p.cell]; ok && len(p.path) == 0 {
				if isStruct(ft) {
					return SubRef(r, st, f)
				}
				return &PtrV{kind: PField, ref: r, st: st, fld: f, et: ft}
			}
			n := *p
			n.path = append(append([]int{}, p.path...), f)
			n.et = ft
			return &n
		case PElem, PTerm:
			n := *p
			n.path = append(append([]int{}, p.path...), f)
			if len(p.path) == 0 {
				n.st = st
			}
			n.et = ft
			return &n
		case PField:
			panic(unsupported("field address of a pointer field"))
		case PGlob:
			return &PtrV{kind: PGlobF, glob: p.glob, path: []int{f}, et: ft}
		case PRefT:
			panic(unsupported("field address"))
		}
	case *Term:
		x.nilCheck(s, p, "nil dereference of "+tname(st))
		if isStruct(ft) {
			return SubRef(p, st, f)
		}
		return &PtrV{kind: PField, ref: p, st: st, fld: f, et: ft}
	}
	panic(unsupported("field address of %T", v))
}

// nilCheck: dereferencing nil panics; paths on which that happens are not normal
// returns. With nopanic it is an obligation.
func (x *Exec) nilCheck(s *State, t *Term, what string) {
	if _, neg := knownNegative(t); neg {
		return
	}
	c := s.simp(Not(Eq(t, Int(0))))
	if c == True {
		return
	}
	x.noPanicOb(s, c, what)
	s.assume(c)
}

func (x *Exec) noPanicOb(s *State, c *Term, what string) {
	if x.noPanic && x.mode == MFinal {
		x.oblige(s, "nopanic", what, nil, c)
	}
}

func (x *Exec) bounds(s *State, i, n *Term, pos string) {
	c := s.simp(And(Le(Int(0), i), Lt(i, n)))
	if c == True {
		return
	}
	x.noPanicOb(s, c, "index out of range at "+pos)
	s.assume(c)
}

func (x *Exec) indexAddr(fr *Frame, s *State, in *ssa.IndexAddr) Val {
	v := x.val(s, fr, in.X)
	i := x.tv(s, fr, in.Index)
	var et types.Type
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Pointer:
		et = u.Elem().Underlying().(*types.Array).Elem()
	}
	switch v := v.(type) {
	case *SliceV:
		x.bounds(s, i, v.len, x.pos(in))
		return &PtrV{kind: PElem, arr: v.arr, idx: Add(v.off, i), et: et}
	case *Term:
		x.bounds(s, i, Len(v), x.pos(in))
		return &PtrV{kind: PTerm, seq: v, idx: i, et: et}
	case *PtrV:
		if v.kind == PArr {
			x.bounds(s, i, Len(s.arrs[v.arr].content), x.pos(in))
			return &PtrV{kind: PElem, arr: v.arr, idx: i, et: et}
		}
	}
	panic(unsupported("index address of %T", v))
}

func (x *Exec) lookup(fr *Frame, s *State, in *ssa.Lookup) Val {
	k := x.tv(s, fr, in.Index)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		str := x.tv(s, fr, in.X)
		x.bounds(s, k, Len(str), x.pos(in))
		return Nth(str, k)
	}
	m := x.tv(s, fr, in.X)
	x.mapGuard(s, m, false, x.pos(in))
	has, val := x.mapGet(s, m, mt, k)
	if in.CommaOk {
		return &TupleV{[]Val{val, has}}
	}
	return val
}

// mapGet: has, value (zero value when absent)
func (x *Exec) mapGet(s *State, m *Term, mt *types.Map, k *Term) (*Term, *Term) {
	z := zeroTerm(sortOf(mt.Elem()))
	if m.isInt() && m.N.Sign() == 0 {
		return False, z
	}
	has := s.simp(Select(x.mapHas(s, m, mt), k))
	// a nil map has no keys: the components are constrained by nilMap facts
	x.nilMapFact(s, mt)
	if has == False {
		return False, z
	}
	v := Select(x.mapVal(s, m, mt), k)
	if has != True {
		// values of absent keys are kept equal to the zero value
		x.absentZero(s, m, mt, k, has, v, z)
	}
	if isRefType(mt.Elem()) {
		x.refFact(s, v)
	}
	if b, ok := mt.Elem().Underlying().(*types.Basic); ok {
		x.rangeFact(s, v, b)
	}
	return has, v
}

// Invariant of the map model: MV[m][k] is the zero value whenever MH[m][k] is false.
func (x *Exec) absentZero(s *State, m *Term, mt *types.Map, k, has, v, z *Term) {
	s.assume(Or(has, Eq(v, z)))
}

func (x *Exec) nilMapFact(s *State, mt *types.Map) {
	h, _, _, hs, _ := mapComps(mt)
	c := x.comp(s, h, hs)
	// base symbol: nil map is empty
	b := c
	for b.Op == "store" {
		b = b.Args[0]
	}
	if b.Op == "const" {
		f := Eq(Select(b, Int(0)), ConstArr(hs.Elem, False))
		s.assume(f)
	}
}

func (x *Exec) mapUpdate(s *State, m *Term, mt *types.Map, k, v *Term) {
	has := x.mapHas(s, m, mt)
	val := x.mapVal(s, m, mt)
	ln := x.mapLen(s, m, mt)
	was := s.simp(Select(has, k))
	x.setMap(s, m, mt, Store(has, k, True), Store(val, k, v), Add(ln, Ite(was, Int(0), Int(1))))
	for _, id := range sortedIters(s) {
		it := s.iters[id]
		if it.mt == nil || !types.Identical(it.mt.Underlying(), mt.Underlying()) || it.inserted {
			continue
		}
		if it.m == m || s.simp(Eq(it.m, m)) != False && !x.w.solver.Prove(x.pcOf(s), Not(Eq(it.m, m)), 500, false).Proved {
			it.inserted = true
			s.iters[id] = it
		}
	}
}

func (x *Exec) mapDelete(s *State, m *Term, mt *types.Map, k *Term) {
	if m.isInt() {
		return
	}
	x.nilMapFact(s, mt)
	has := x.mapHas(s, m, mt)
	val := x.mapVal(s, m, mt)
	ln := x.mapLen(s, m, mt)
	was := s.simp(Select(has, k))
	x.setMap(s, m, mt, Store(has, k, False), Store(val, k, zeroTerm(sortOf(mt.Elem()))), Sub(ln, Ite(was, Int(1), Int(0))))
}

func (x *Exec) makeIface(s *State, v Val, t types.Type) Val {
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	n := tname(t)
	x.w.boxTypes[n] = t
	if p, ok := v.(*PtrV); ok && (p.kind == PCell) {
		return Box(n, x.term(s, p))
	}
	return Box(n, x.term(s, v))
}

func (x *Exec) slice(fr *Frame, s *State, in *ssa.Slice) Val {
	v := x.val(s, fr, in.X)
	get := func(w ssa.Value, d *Term) *Term {
		if w == nil {
			return d
		}
		return x.tv(s, fr, w)
	}
	chk := func(lo, hi, n *Term) {
		c := s.simp(And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
		if c != True {
			x.noPanicOb(s, c, "slice bounds at "+x.pos(in))
			s.assume(c)
		}
	}
	if in.Max != nil {
		panic(unsupported("three index slice"))
	}
	switch v := v.(type) {
	case *PtrV:
		if v.kind != PArr {
			panic(unsupported("slice of pointer kind %d", v.kind))
		}
		n := Len(s.arrs[v.arr].content)
		lo, hi := get(in.Low, Int(0)), get(in.High, n)
		chk(lo, hi, n)
		return &SliceV{arr: v.arr, off: lo, len: Sub(hi, lo), t: in.Type()}
	case *SliceV:
		n := v.len
		lo, hi := get(in.Low, Int(0)), get(in.High, n)
		// reslicing beyond len up to cap is modelled as a panic
		chk(lo, hi, n)
		return &SliceV{arr: v.arr, off: Add(v.off, lo), len: Sub(hi, lo), t: in.Type()}
	case *Term:
		n := Len(v)
		lo, hi := get(in.Low, Int(0)), get(in.High, n)
		chk(lo, hi, n)
		return SubSeq(v, lo, hi)
	}
	panic(unsupported("slice of %T", v))
}

func (x *Exec) unop(fr *Frame, s *State, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		return x.load(s, x.val(s, fr, in.X), derefT(in.X.Type()))
	case token.NOT:
		return Not(x.tv(s, fr, in.X))
	case token.SUB:
		t := x.tv(s, fr, in.X)
		if t.S == SReal {
			return App("rneg", SReal, t)
		}
		return x.arith(s, Neg(t), in.Type())
	case token.XOR:
		t := x.tv(s, fr, in.X)
		return App("bitnot:"+tname(in.Type().Underlying()), SInt, t)
	case token.ARROW:
		ch := x.tv(s, fr, in.X)
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		v := x.symbolic(s, "recv", et)
		ok := Fresh("recvok", SBool)
		x.recvHook(s, ch, v.(*Term), ok, et)
		if in.CommaOk {
			return &TupleV{[]Val{v, ok}}
		}
		return v
	}
	panic(unsupported("unop %s", in.Op))
}

func (x *Exec) isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice:
		return true
	}
	return false
}

func (x *Exec) eqVals(s *State, a, b Val, t types.Type) *Term {
	// closures compare only against nil
	if c, ok := a.(*CloV); ok {
		_ = c
		return False
	}
	if _, ok := b.(*CloV); ok {
		return False
	}
	if pa, ok := a.(*PtrV); ok {
		return x.eqPtr(s, pa, b)
	}
	if pb, ok := b.(*PtrV); ok {
		return x.eqPtr(s, pb, a)
	}
	ta, tb := x.term(s, a), x.term(s, b)
	if x.isNilable(t) {
		o := ta
		if isEmptySeq(ta) {
			o = tb
		}
		return And(Eq(Len(o), Int(0)), App("isnil:"+o.S.Name, SBool, o))
	}
	return Eq(ta, tb)
}

func (x *Exec) eqPtr(s *State, p *PtrV, o Val) *Term {
	if t, ok := o.(*Term); ok && t.isInt() && t.N.Sign() == 0 {
		return False
	}
	if q, ok := o.(*PtrV); ok && p.kind == q.kind && p.kind == PCell && p.cell == q.cell && len(p.path) == len(q.path) {
		same := true
		for i := range p.path {
			if p.path[i] != q.path[i] {
				same = false
			}
		}
		return BoolLit(same)
	}
	return Eq(x.term(s, p), x.term(s, o))
}

func (x *Exec) binop(s *State, op token.Token, a, b Val, xt, rt types.Type) Val {
	switch op {
	case token.EQL:
		return x.eqVals(s, a, b, xt)
	case token.NEQ:
		return Not(x.eqVals(s, a, b, xt))
	}
	ta, tb := x.term(s, a), x.term(s, b)
	if ta.S == SStr {
		switch op {
		case token.ADD:
			return Cat(ta, tb)
		case token.LSS:
			return strLt(ta, tb)
		case token.GTR:
			return strLt(tb, ta)
		case token.LEQ:
			return Not(strLt(tb, ta))
		case token.GEQ:
			return Not(strLt(ta, tb))
		}
	}
	if ta.S == SReal {
		switch op {
		case token.LSS:
			return rlt(ta, tb)
		case token.GTR:
			return rlt(tb, ta)
		case token.LEQ:
			return Not(rlt(tb, ta))
		case token.GEQ:
			return Not(rlt(ta, tb))
		}
		return App("fop:"+op.String(), SReal, ta, tb)
	}
	if ta.S == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(ta, tb)
		case token.OR, token.LOR:
			return Or(ta, tb)
		}
	}
	switch op {
	case token.ADD:
		return x.arith(s, Add(ta, tb), rt)
	case token.SUB:
		return x.arith(s, Sub(ta, tb), rt)
	case token.MUL:
		return x.arith(s, Mul(ta, tb), rt)
	case token.QUO:
		x.divCheck(s, tb)
		return x.arith(s, GoDiv(ta, tb), rt)
	case token.REM:
		x.divCheck(s, tb)
		return GoRem(ta, tb)
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Gt(ta, tb)
	case token.GEQ:
		return Ge(ta, tb)
	case token.SHL:
		if tb.isInt() && tb.N.IsInt64() && tb.N.Int64() < 63 {
			return x.arith(s, Mul(ta, Int(1<<uint(tb.N.Int64()))), rt)
		}
	}
	v := App("op:"+op.String()+":"+tname(rt.Underlying()), SInt, ta, tb)
	if bt, ok := rt.Underlying().(*types.Basic); ok {
		x.rangeFact(s, v, bt)
	}
	return v
}

func (x *Exec) divCheck(s *State, b *Term) {
	c := s.simp(Not(Eq(b, Int(0))))
	if c != True {
		x.noPanicOb(s, c, "division by zero")
		s.assume(c)
	}
}

func strLt(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return BoolLit(a.Name < b.Name)
	}
	if a == b {
		return False
	}
	return App("strlt", SBool, a, b)
}
func rlt(a, b *Term) *Term {
	if a == b {
		return False
	}
	return intern(&Term{Op: "rlt", Args: []*Term{a, b}, S: SBool})
}

// arith: machine arithmetic. The mathematical result is used when it provably
// fits, otherwise the wrapped value (an uninterpreted function that is the
// identity on the range).
func (x *Exec) arith(s *State, t *Term, rt types.Type) *Term {
	b, ok := rt.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return t
	}
	lo, hi := intRange(b)
	if t.isInt() {
		if t.N.Cmp(lo) >= 0 && t.N.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(new(big.Int).Sub(hi, lo).BitLen()))
		r := new(big.Int).Mod(new(big.Int).Sub(t.N, lo), m)
		return BigInt(r.Add(r, lo))
	}
	if t.bound {
		return t
	}
	inR := And(Le(BigInt(lo), t), Le(t, BigInt(hi)))
	if s.simp(inR) == True {
		return t
	}
	if x.interval(s, t, hi, 1) && x.interval(s, t, lo, -1) {
		return t
	}
	x.houQ++
	if x.w.solver.Prove(s.pc, inR, 300, false).Proved {
		s.assume(inR)
		return t
	}
	w := App("wrap:"+b.Name(), SInt, t)
	s.assume(Or(Not(inR), Eq(w, t)))
	s.assume(And(Le(BigInt(lo), w), Le(w, BigInt(hi))))
	return w
}

// interval: is t <= lim (dir 1) or t >= lim (dir -1) by facts on its atoms
func (x *Exec) interval(s *State, t *Term, lim *big.Int, dir int) bool {
	as, cs, n := linParts(t)
	sum := new(big.Int).Set(n)
	for i, a := range as {
		d := dir * cs[i].Sign()
		b := x.atomBound(s, a, d, 2)
		if b == nil {
			return false
		}
		sum.Add(sum, new(big.Int).Mul(cs[i], b))
	}
	if dir > 0 {
		return sum.Cmp(lim) <= 0
	}
	return sum.Cmp(lim) >= 0
}

var seqMax = new(big.Int).Lsh(big.NewInt(1), 62)

// atomBound: an upper (dir 1) or lower (dir -1) bound of an atom
func (x *Exec) atomBound(s *State, a *Term, dir, depth int) *big.Int {
	if a.isInt() {
		return a.N
	}
	if a.Op == "app" && a.Name == "seq.len" {
		if dir > 0 {
			return seqMax
		}
		return big.NewInt(0)
	}
	if v, ok := s.eqs[a]; ok && v.isInt() {
		return v.N
	}
	var best *big.Int
	for f := range s.facts {
		if f.Op != "le" {
			continue
		}
		as, cs, n := linParts(f.Args[0])
		// a*c + rest + n <= 0
		idx := -1
		for i, b := range as {
			if b == a {
				idx = i
			}
		}
		if idx < 0 || cs[idx].CmpAbs(big.NewInt(1)) != 0 || cs[idx].Sign() != dir {
			continue
		}
		// dir>0: a <= -(rest+n): need lower bound of rest ; dir<0: -a + rest + n <= 0: a >= rest + n: lower bound of rest
		lb := new(big.Int).Set(n)
		ok := true
		for i, b := range as {
			if i == idx {
				continue
			}
			if depth == 0 {
				ok = false
				break
			}
			bb := x.atomBound(s, b, -cs[i].Sign(), depth-1)
			if bb == nil {
				ok = false
				break
			}
			lb.Add(lb, new(big.Int).Mul(cs[i], bb))
		}
		if !ok {
			continue
		}
		var v *big.Int
		if dir > 0 {
			v = new(big.Int).Neg(lb)
			if best == nil || v.Cmp(best) < 0 {
				best = v
			}
		} else {
			v = lb
			if best == nil || v.Cmp(best) > 0 {
				best = v
			}
		}
	}
	return best
}

func (x *Exec) convert(s *State, v Val, from, to types.Type) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if sortOf(from) == SStr && sortOf(to) == SStr {
		t := x.term(s, v)
		if _, isSl := to.Underlying().(*types.Slice); isSl {
			return x.sliceOf(s, t, to)
		}
		return t
	}
	if fok && tok {
		t := x.term(s, v)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			lo1, hi1 := intRange(fb)
			lo2, hi2 := intRange(tb)
			if lo1.Cmp(lo2) >= 0 && hi1.Cmp(hi2) <= 0 {
				return t
			}
			return x.arith(s, t, to)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return App("toreal", SReal, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return App("float32", SReal, t)
			}
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return App("runestr", SStr, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			r := App("toint", SInt, t)
			x.rangeFact(s, r, tb)
			return r
		}
	}
	if sortOf(from) == sortOf(to) {
		return v
	}
	panic(unsupported("conversion %s to %s", from, to))
}

// implements: does the dynamic type of t implement interface it
func (x *Exec) implements(t *Term, it types.Type) *Term {
	if n, _, ok := boxParts(t); ok {
		if n == "nil" {
			return False
		}
		if bt, ok := x.w.boxTypes[n]; ok {
			return BoolLit(types.Implements(bt, it.Underlying().(*types.Interface)))
		}
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], x.implements(t.Args[1], it), x.implements(t.Args[2], it))
	}
	if it.Underlying().(*types.Interface).NumMethods() == 0 {
		return Not(Eq(t, NilAny()))
	}
	name := tname(it)
	if _, ok := it.(*types.Named); !ok {
		name = types.TypeString(it, qual)
	}
	return And(Not(Eq(t, NilAny())), App("impl:"+name, SBool, App("tag", SInt, t)))
}

func (x *Exec) typeAssert(fr *Frame, s *State, in *ssa.TypeAssert, k func(*State, Val)) {
	t := x.tv(s, fr, in.X)
	at := types.Unalias(in.AssertedType)
	var c, v *Term
	if it, ok := at.Underlying().(*types.Interface); ok {
		c, v = x.implements(t, at), t
		_ = it
		if st, ok := in.X.Type().Underlying().(*types.Interface); ok && types.Implements(in.X.Type(), it) && st != nil {
			c = Not(Eq(t, NilAny()))
		}
	} else {
		n := tname(at)
		x.w.boxTypes[n] = at
		c, v = HasType(t, n), Unbox(t, n, sortOf(at))
	}
	c = s.simp(c)
	if !in.CommaOk {
		if c != True {
			x.noPanicOb(s, c, "type assertion at "+x.pos(in))
			s.assume(c)
		}
		x.typeFacts(s, v, at)
		k(s, v)
		return
	}
	if c == True {
		x.typeFacts(s, v, at)
		k(s, &TupleV{[]Val{v, True}})
		return
	}
	if c == False {
		k(s, &TupleV{[]Val{x.zero(at), False}})
		return
	}
	s2 := s.clone()
	s.assume(c)
	if !s.dead {
		x.typeFacts(s, v, at)
		k(s, &TupleV{[]Val{v, True}})
	}
	s2.assume(Not(c))
	if !s2.dead {
		k(s2, &TupleV{[]Val{x.zero(at), False}})
	}
}

// ---- map / string iteration

func (x *Exec) rangeStart(fr *Frame, s *State, in *ssa.Range) Val {
	x.iterCtr++
	id := x.iterCtr
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(unsupported("range over string"))
	}
	m := x.tv(s, fr, in.X)
	x.mapGuard(s, m, false, x.pos(in))
	x.nilMapFact(s, mt)
	has := x.mapHas(s, m, mt)
	s.iters[id] = iterState{m: m, mt: mt, visited: ConstArr(has.S, False), has0: has}
	return &IterV{id}
}

func (x *Exec) next(fr *Frame, s *State, in *ssa.Next, iv *IterV, k func(*State, Val)) {
	it := s.iters[iv.id]
	has := x.mapHas(s, it.m, it.mt)
	x.mapGuard(s, it.m, false, x.pos(in))
	ks := sortOf(it.mt.Key())
	kt, vt := it.mt.Key(), it.mt.Elem()
	zk, zv := zeroTerm(ks), zeroTerm(sortOf(vt))
	s2 := s.clone()
	// another key
	key := Fresh("key", ks)
	s.assume(Select(has, key))
	s.assume(Not(Select(it.visited, key)))
	if !it.inserted {
		s.assume(Select(it.has0, key))
	}
	if !s.dead {
		x.typeFacts(s, key, kt)
		_, v := x.mapGet(s, it.m, it.mt, key)
		it1 := it
		it1.visited = Store(it.visited, key, True)
		it1.k = key
		s.iters[iv.id] = it1
		k(s, &TupleV{[]Val{True, key, v}})
	}
	// exhausted
	if has == it.has0 && !it.inserted {
		s2.assume(Eq(it.visited, has))
		if s2.dead {
			return
		}
		kv := FreshVar("k", ks)
		vis := Select(it.visited, kv)
		hv := Select(has, kv)
		s2.assume(Forall([]*Term{kv}, Eq(vis, hv), []*Term{vis}, []*Term{hv}))
	} else {
		kv := FreshVar("k", ks)
		h, h0, vis := Select(has, kv), Select(it.has0, kv), Select(it.visited, kv)
		if h == False || h0 == False {
			// nothing
		} else if h.Op == "select" {
			s2.assume(Forall([]*Term{kv}, Imp(And(h, h0), vis), []*Term{h}))
		} else {
			s2.assume(Forall([]*Term{kv}, Imp(And(h, h0), vis), []*Term{h0}))
		}
	}
	delete(s2.iters, iv.id)
	if !s2.dead {
		k(s2, &TupleV{[]Val{False, zk, zv}})
	}
}

func (x *Exec) selectStmt(fr *Frame, s *State, in *ssa.Select, k func(*State, Val)) {
	n := len(in.States)
	var recvT []types.Type
	for _, st := range in.States {
		if st.Dir == types.RecvOnly {
			recvT = append(recvT, st.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	for i := 0; i <= n; i++ {
		if i == n && in.Blocking {
			break
		}
		s2 := s.clone()
		vs := []Val{Int(int64(i)), False}
		if i == n {
			vs[0] = Int(-1)
		}
		ri := 0
		for j, st := range in.States {
			if st.Dir != types.RecvOnly {
				if j == i {
					x.sendHook(s2, x.tv(s2, fr, st.Chan), x.tv(s2, fr, st.Send), st.Chan.Type())
				}
				continue
			}
			et := recvT[ri]
			ri++
			if j == i {
				v := x.symbolic(s2, "recv", et)
				ok := Fresh("recvok", SBool)
				x.recvHook(s2, x.tv(s2, fr, st.Chan), v.(*Term), ok, et)
				vs[1] = ok
				vs = append(vs, v)
			} else {
				vs = append(vs, x.zero(et))
			}
		}
		if !s2.dead {
			k(s2, &TupleV{vs})
		}
	}
}

// ---- obligations

func (x *Exec) oblige(s *State, kind, label string, props []string, goal *Term) {
	if x.mode != MFinal {
		return
	}
	g := s.simp(goal)
	id := x.c.Name + "/" + kind
	if label != "" {
		id += "#" + label
	}
	if os.Getenv("GOVC_TRACE") != "" && g != True {
		fmt.Fprintf(os.Stderr, "oblige %s: %s\n", id, g)
	}
	x.vcs = append(x.vcs, &VC{ID: id, Props: props, Assume: s.pc[:len(s.pc):len(s.pc)], Goal: g, Trace: s.trace})
}

// localWeb: slice v was built in this function and never handed out before the write
// at, and the values which may share its backing array are not used after it.
func localWeb(v ssa.Value, at *ssa.Store) bool {
	if reaches(at.Block(), at.Block()) {
		return false
	}
	after := func(b *ssa.BasicBlock, in ssa.Instruction) bool {
		if b != at.Block() {
			return reaches(at.Block(), b)
		}
		for _, i := range b.Instrs {
			if i == ssa.Instruction(at) {
				return true
			}
			if i == in {
				return false
			}
		}
		return true
	}
	before := func(b *ssa.BasicBlock, in ssa.Instruction) bool {
		if b != at.Block() {
			return reaches(b, at.Block())
		}
		return !after(b, in)
	}
	web := map[ssa.Value]bool{}
	var add func(v ssa.Value) bool
	add = func(w ssa.Value) bool {
		if web[w] {
			return true
		}
		if _, ok := w.Type().Underlying().(*types.Slice); !ok {
			return false
		}
		web[w] = true
		// values made after the write come from what it left
		di, _ := w.(ssa.Instruction)
		stale := w != v && !(di != nil && after(di.Block(), di))
		switch d := w.(type) {
		case *ssa.Phi:
			for _, e := range d.Edges {
				if !add(e) {
					return false
				}
			}
		case *ssa.Call:
			b, ok := d.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || !add(d.Call.Args[0]) {
				return false
			}
		case *ssa.MakeSlice:
		case *ssa.Slice:
			// a literal
			al, ok := d.X.(*ssa.Alloc)
			if !ok || d.Low != nil || d.High != nil {
				return false
			}
			for _, r := range *al.Referrers() {
				if r != ssa.Instruction(d) {
					if ia, ok := r.(*ssa.IndexAddr); !ok || !plainAddr(ia) {
						return false
					}
				}
			}
		case *ssa.Const:
			return d.IsNil()
		default:
			return false
		}
		for _, r := range *w.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				if !add(r) {
					return false
				}
				for k, e := range r.Edges {
					if pb := r.Block().Preds[k]; e == w && stale && (pb == at.Block() || reaches(at.Block(), pb)) {
						return false
					}
				}
				continue
			case *ssa.IndexAddr:
				if !plainAddr(r) {
					return false
				}
			case *ssa.Call:
				b, ok := r.Call.Value.(*ssa.Builtin)
				if ok && b.Name() == "append" {
					if r.Call.Args[0] == w && !add(r) {
						return false
					}
				} else if !ok || b.Name() != "len" && b.Name() != "cap" {
					if before(r.Block(), r) {
						return false
					}
				}
			default:
				if before(r.Block(), r) {
					return false
				}
			}
			if stale && after(r.Block(), r) {
				return false
			}
		}
		return true
	}
	return add(v)
}

// plainAddr: the address is only read from and written to.
func plainAddr(a *ssa.IndexAddr) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(a) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
