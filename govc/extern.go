package main

// Built-in models of functions outside the repository.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont)

var models = map[string]modelFn{}
var imodels = map[string]modelFn{}
var specModels = map[string]func(ev *specEv, args []Val) Val{}

func noop(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	} else {
		sig = in.Common().Signature()
	}
	k(s, Outcome{vals: x.extResults(s, "noop", sig, nil, false)})
}

func init() {
	for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		op := op
		m := func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
			x.lockOp(s, args[0], op, x.pos(in))
			if !s.dead {
				k(s, Outcome{})
			}
		}
		models["(*sync.RWMutex)."+op] = m
		if op == "Lock" || op == "Unlock" {
			models["(*sync.Mutex)."+op] = m
		}
	}
	models["fmt.Sprintf"] = func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
		k(s, Outcome{vals: []Val{sprintf(x.term(s, args[0]), x.term(s, args[1]))}})
	}
	specModels["fmt.Sprintf"] = func(ev *specEv, args []Val) Val {
		return sprintf(ev.x.term(ev.s, args[0]), ev.x.term(ev.s, args[1]))
	}
	errf := func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
		v := Fresh("err", SAny)
		s.assume(Not(Eq(v, NilAny())))
		k(s, Outcome{vals: []Val{v}})
	}
	models["fmt.Errorf"] = errf
	models["errors.New"] = errf
	models["strconv.Itoa"] = func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
		k(s, Outcome{vals: []Val{itoa(x.term(s, args[0]))}})
	}
	specModels["strconv.Itoa"] = func(ev *specEv, args []Val) Val { return itoa(ev.x.term(ev.s, args[0])) }
	for n, f := range strFns {
		f := f
		models[n] = func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.term(s, a))
			}
			k(s, Outcome{vals: []Val{f(ts)}})
		}
		specModels[n] = func(ev *specEv, args []Val) Val {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, ev.x.term(ev.s, a))
			}
			return f(ts)
		}
	}
	models["strings.Cut"] = func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
		k(s, Outcome{vals: strCut(x.term(s, args[0]), x.term(s, args[1]))})
	}
	models["strings.CutPrefix"] = func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
		a, b := x.term(s, args[0]), x.term(s, args[1])
		f := PrefixOf(b, a)
		k(s, Outcome{vals: []Val{Ite(f, SubSeq(a, Len(b), Len(a)), a), f}})
	}
	models["github.com/samber/lo.Values"] = func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
		x.mapElems(s, fn, args, false, k)
	}
	models["github.com/samber/lo.Keys"] = func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
		x.mapElems(s, fn, args, true, k)
	}
	models["sort.Slice"] = func(x *Exec, fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Val, k Cont) {
		x.sortSlice(fr, s, in, args, k)
	}
	models["sort.SliceStable"] = models["sort.Slice"]
}

func itoa(t *Term) *Term {
	if t.isInt() {
		return StrLit(t.N.String())
	}
	return UF("ext:strconv.Itoa", SStr, t)
}

var strFns = map[string]func([]*Term) *Term{
	"strings.Contains": func(a []*Term) *Term {
		if a[0].isStr() && a[1].isStr() {
			return BoolLit(strings.Contains(a[0].Name, a[1].Name))
		}
		if a[1].isStr() && a[1].Name == "" {
			return True
		}
		return Ge(strIndex(a[0], a[1]), Int(0))
	},
	"strings.Index":     func(a []*Term) *Term { return strIndex(a[0], a[1]) },
	"strings.IndexByte": func(a []*Term) *Term { return strIndex(a[0], byteStr(a[1])) },
	"strings.IndexRune": func(a []*Term) *Term {
		if a[1].isInt() && a[1].N.Sign() >= 0 && a[1].N.Int64() < 128 {
			return strIndex(a[0], StrLit(string(rune(a[1].N.Int64()))))
		}
		return UF("ext:strings.IndexRune", SInt, a[0], a[1])
	},
	"strings.ContainsRune": func(a []*Term) *Term {
		if a[1].isInt() && a[1].N.Sign() >= 0 && a[1].N.Int64() < 128 {
			return Ge(strIndex(a[0], StrLit(string(rune(a[1].N.Int64())))), Int(0))
		}
		return UF("ext:strings.ContainsRune", SBool, a[0], a[1])
	},
	"strings.SplitN": func(a []*Term) *Term {
		if a[2].isInt() && a[2].N.Int64() == 2 && a[1].isStr() && a[1].Name != "" {
			i := strIndex(a[0], a[1])
			e := EmptySeq(SeqOf(SStr))
			return Ite(Lt(i, Int(0)), Snoc(e, a[0]), Snoc(Snoc(e, SubSeq(a[0], Int(0), i)), SubSeq(a[0], Add(i, Len(a[1])), Len(a[0]))))
		}
		return UF("ext:strings.SplitN", SeqOf(SStr), a[0], a[1], a[2])
	},
	"strings.HasPrefix": func(a []*Term) *Term { return PrefixOf(a[1], a[0]) },
	"strings.HasSuffix": func(a []*Term) *Term {
		if a[0].isStr() && a[1].isStr() {
			return BoolLit(strings.HasSuffix(a[0].Name, a[1].Name))
		}
		return And(Le(Len(a[1]), Len(a[0])), Eq(SubSeq(a[0], Sub(Len(a[0]), Len(a[1])), Len(a[0])), a[1]))
	},
	"strings.TrimPrefix": func(a []*Term) *Term {
		return Ite(PrefixOf(a[1], a[0]), SubSeq(a[0], Len(a[1]), Len(a[0])), a[0])
	},
	"strings.TrimSuffix": func(a []*Term) *Term {
		return Ite(strFnHasSuffix(a[0], a[1]), SubSeq(a[0], Int(0), Sub(Len(a[0]), Len(a[1]))), a[0])
	},
	"strings.ToLower": func(a []*Term) *Term {
		if a[0].isStr() {
			return StrLit(strings.ToLower(a[0].Name))
		}
		return UF("ext:strings.ToLower", SStr, a[0])
	},
	"strings.Split": func(a []*Term) *Term {
		if a[0].isStr() && a[1].isStr() {
			r := EmptySeq(SeqOf(SStr))
			for _, p := range strings.Split(a[0].Name, a[1].Name) {
				r = Snoc(r, StrLit(p))
			}
			return r
		}
		return UF("ext:strings.Split", SeqOf(SStr), a[0], a[1])
	},
	"strings.Join": func(a []*Term) *Term {
		if es := seqElems(a[0]); es != nil && len(es) <= 40 && a[1].isStr() {
			var ps []*Term
			for i, e := range es {
				if i > 0 {
					ps = append(ps, a[1])
				}
				ps = append(ps, e)
			}
			return catList(ps)
		}
		return UF("ext:strings.Join", SStr, a[0], a[1])
	},
	"strings.TrimSpace": func(a []*Term) *Term {
		if a[0].isStr() {
			return StrLit(strings.TrimSpace(a[0].Name))
		}
		return UF("ext:strings.TrimSpace", SStr, a[0])
	},
}

// strIndex: the first position of b in a, -1 if there is none (axioms in otherAxioms).
func strIndex(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return Int(int64(strings.Index(a.Name, b.Name)))
	}
	if b.isStr() && b.Name == "" {
		return Int(0)
	}
	return UF("ext:strings.Index", SInt, a, b)
}

func byteStr(c *Term) *Term {
	if c.isInt() && c.N.IsInt64() && c.N.Int64() >= 0 && c.N.Int64() < 256 {
		return StrLit(string([]byte{byte(c.N.Int64())}))
	}
	return Snoc(EmptySeq(SStr), c)
}

// strCut: strings.Cut
func strCut(a, b *Term) []Val {
	i := strIndex(a, b)
	f := Ge(i, Int(0))
	return []Val{Ite(f, SubSeq(a, Int(0), i), a), Ite(f, SubSeq(a, Add(i, Len(b)), Len(a)), StrLit("")), f}
}

func init() {
	unfolders["ext:strings.Join"] = func(t *Term) []*Term {
		xs, sep := t.Args[0], t.Args[1]
		n := Len(xs)
		last := Sub(n, Int(1))
		pre := SubSeq(xs, Int(0), last)
		return []*Term{Eq(t, Ite(Eq(n, Int(0)), StrLit(""), Ite(Eq(n, Int(1)), Nth(xs, Int(0)), Cat(Cat(UF("ext:strings.Join", SStr, pre, sep), sep), Nth(xs, last)))))}
	}
}

func strFnHasSuffix(a, b *Term) *Term {
	return And(Le(Len(b), Len(a)), Eq(SubSeq(a, Sub(Len(a), Len(b)), Len(a)), b))
}

// seqElems: the elements of a sequence built element by element (nil if unknown).
func seqElems(t *Term) []*Term {
	var es []*Term
	for t.Op == "app" && t.Name == "seq.snoc" {
		es = append([]*Term{t.Args[1]}, es...)
		t = t.Args[0]
	}
	if !isEmptySeq(t) {
		return nil
	}
	if es == nil {
		es = []*Term{}
	}
	return es
}

// sprintf folds %s/%v/%d of strings and literals into concatenations.
func sprintf(f, args *Term) *Term {
	es := seqElems(args)
	if f.isStr() && es != nil {
		var parts []*Term
		lit := ""
		flush := func() {
			if lit != "" {
				parts = append(parts, StrLit(lit))
				lit = ""
			}
		}
		n := 0
		ok := true
		fs := f.Name
		for i := 0; i < len(fs) && ok; i++ {
			if fs[i] != '%' {
				lit += string(fs[i])
				continue
			}
			i++
			if i >= len(fs) {
				ok = false
				break
			}
			if fs[i] == '%' {
				lit += "%"
				continue
			}
			if n >= len(es) {
				ok = false
				break
			}
			spec := i
			for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
				i++
			}
			if i >= len(fs) {
				ok = false
				break
			}
			if i > spec {
				flush()
				parts = append(parts, UF("ext:fmt.verb:"+fs[spec:i+1], SStr, es[n]))
				n++
				continue
			}
			typ, p, isBox := boxParts(es[n])
			n++
			switch {
			case isBox && p != nil && p.S == SStr && (fs[i] == 's' || fs[i] == 'v') && typ == "string":
				flush()
				parts = append(parts, p)
			case isBox && p != nil && p.S == SStr && fs[i] == 'q' && p.isStr():
				lit += strconv.Quote(p.Name)
			case isBox && p != nil && p.S == SInt && (fs[i] == 'd' || fs[i] == 'v') && (typ == "int" || typ == "int64" || typ == "int32"):
				flush()
				parts = append(parts, itoa(p))
			case isBox && p != nil && p.S == SBool && fs[i] == 'v' && typ == "bool":
				flush()
				parts = append(parts, Ite(p, StrLit("true"), StrLit("false")))
			default:
				flush()
				parts = append(parts, UF("ext:fmt.verb:"+string(fs[i]), SStr, es[n-1]))
			}
		}
		flush()
		if ok && n == len(es) {
			return catList(parts)
		}
	}
	return UF("ext:fmt.Sprintf", SStr, f, args)
}

// mapElems: the keys or values of a map in an arbitrary order, each once
// (assumed contract of lo.Keys and lo.Values).
func (x *Exec) mapElems(s *State, fn *ssa.Function, args []Val, keys bool, k Cont) {
	mt, ok := fn.Params[0].Type().Underlying().(*types.Map)
	if !ok {
		panic(unsupported("%s of %s", fn, fn.Params[0].Type()))
	}
	x.assumed[baseName(fn)+": every entry of the map once, in any order"] = true
	m := x.term(s, args[0])
	x.mapGuard(s, m, false, "lo")
	x.nilMapFact(s, mt)
	has, val := x.mapHas(s, m, mt), x.mapVal(s, m, mt)
	ks := sortOf(mt.Key())
	rt := fn.Signature.Results().At(0).Type()
	r := Fresh("elems", sortOf(rt))
	id := fmt.Sprintf("%d", r.id)
	K := func(i *Term) *Term { return App("lo.key!"+id, ks, i) }
	I := func(k *Term) *Term { return App("lo.idx!"+id, SInt, k) }
	i := FreshVar("i", SInt)
	ri := Nth(r, i)
	el := K(i)
	if !keys {
		el = Select(val, K(i))
	}
	s.assume(Eq(Len(r), x.mapLen(s, m, mt)))
	s.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, Len(r))), And(Select(has, K(i)), Eq(ri, el), Eq(I(K(i)), i))), []*Term{ri}, []*Term{K(i)}))
	kv := FreshVar("k", ks)
	body := Imp(Select(has, kv), And(Le(Int(0), I(kv)), Lt(I(kv), Len(r)), Eq(K(I(kv)), kv)))
	pats := [][]*Term{{I(kv)}}
	if h := Select(has, kv); h.Op == "select" {
		pats = append(pats, []*Term{h})
	}
	s.assume(Forall([]*Term{kv}, body, pats...))
	k(s, Outcome{vals: []Val{x.sliceOf(s, r, rt)}})
}

// sortSlice: the slice is permuted, and ordered by less if less is the order the
// contract of the calling function names (assumed contract of package sort).
func (x *Exec) sortSlice(fr *Frame, s *State, in ssa.CallInstruction, args []Val, k Cont) {
	x.assumed["sort.Slice: permutes the slice; sorted if less is a strict weak ordering"] = true
	mi, ok := in.Common().Args[0].(*ssa.MakeInterface)
	if !ok {
		panic(unsupported("sort.Slice of an interface"))
	}
	mv := x.val(s, fr, mi.X)
	sv, ok := mv.(*SliceV)
	if t, isT := mv.(*Term); isT {
		// a slice variable changed in a loop
		if ld, isL := mi.X.(*ssa.UnOp); isL {
			if p, isP := x.val(s, fr, ld.X).(*PtrV); isP && p.kind == PCell {
				x.assumed["sort.Slice of a local variable: no other variable shares its array"] = true
				sv, ok = x.sliceOf(s, t, mi.X.Type()), true
				x.store(s, p, sv, mi.X.Type())
			}
		}
	}
	if !ok {
		panic(unsupported("sort.Slice of %T", x.val(s, fr, mi.X)))
	}
	ar := s.arrs[sv.arr]
	old := x.content(s, sv)
	r := Fresh("sorted", old.S)
	id := fmt.Sprintf("%d", r.id)
	P := func(i *Term) *Term { return App("sort.from!"+id, SInt, i) }
	Q := func(i *Term) *Term { return App("sort.to!"+id, SInt, i) }
	n := Len(old)
	s.assume(Eq(Len(r), n))
	i := FreshVar("i", SInt)
	in0 := func(i *Term) *Term { return And(Le(Int(0), i), Lt(i, n)) }
	s.assume(Forall([]*Term{i}, Imp(in0(i), And(in0(P(i)), Eq(Nth(r, i), Nth(old, P(i))), Eq(Q(P(i)), i))), []*Term{Nth(r, i)}, []*Term{P(i)}))
	s.assume(Forall([]*Term{i}, Imp(in0(i), And(in0(Q(i)), Eq(Nth(r, Q(i)), Nth(old, i)), Eq(P(Q(i)), i))), []*Term{Nth(old, i)}, []*Term{Q(i)}))
	if old.S.Elem == SStr {
		v := FreshVar("v", SStr)
		m0, m1 := App("seq.mem", SBool, old, v), App("seq.mem", SBool, r, v)
		s.assume(Forall([]*Term{v}, Iff(m0, m1), []*Term{m0}, []*Term{m1}))
	}
	s.assume(Eq(App("seq.sub", r.S, r, Int(0), n), r))
	if sv.off.isInt() && sv.off.N.Sign() == 0 && Len(ar.content) == sv.len {
		ar.content = r
	} else {
		ar.content = Cat(Cat(SubSeq(ar.content, Int(0), sv.off), r), SubSeq(ar.content, Add(sv.off, sv.len), Len(ar.content)))
	}
	s.arrs[sv.arr] = ar
	// less is run once on arbitrary elements in an arbitrary arrangement
	a, b, c := Fresh("less.i", SInt), Fresh("less.j", SInt), Fresh("less.k", SInt)
	et := sv.t.Underlying().(*types.Slice).Elem()
	ord, roles := x.orderFor(s, et, args[1])
	if ord != nil && x.mode == MFinal {
		x.orderLaws(s.clone(), ord, roles, Nth(r, a), Nth(r, b), Nth(r, c), And(in0(a), in0(b), in0(c)))
	}
	s2 := s.clone()
	s2.assume(in0(a))
	s2.assume(in0(b))
	if !s2.dead {
		pre := s2.clone()
		x.call(fr, s2, in, &ssa.CallCommon{Value: in.Common().Args[1]}, args[1], []Val{a, b}, nil, func(s3 *State, o Outcome) {
			if s3.dead {
				return
			}
			if o.panicked {
				x.noPanicOb(s3, False, "panic in a comparison")
				return
			}
			if ord != nil && x.mode == MFinal {
				x.orderBy(s3, ord, roles, Nth(r, a), Nth(r, b), Nth(r, b))
			}
			if ord != nil && !s3.dead {
				x.oblige(s3, "sort", "compares as specified", ord.Props, Iff(x.term(s3, o.vals[0]), x.orderLess(s3, ord, roles, Nth(r, a), Nth(r, b))))
			}
			for c, t := range s3.heap {
				if p, ok := pre.heap[c]; ok && p != t {
					x.oblige(s3, "sort", "comparisons change nothing", nil, Eq(p, t))
				}
			}
		})
	}
	if ord != nil {
		p, q := FreshVar("p", SInt), FreshVar("q", SInt)
		g := x.orderLess(s, ord, roles, Nth(r, q), Nth(r, p))
		s.assume(Forall([]*Term{p, q}, Imp(And(Le(Int(0), p), Lt(p, q), Lt(q, n)), Not(g)), []*Term{Nth(r, p), Nth(r, q)}))
	}
	k(s, Outcome{})
}

// orderFor finds the order clause of the function under contract for elements of
// type et; its roles are variables the comparison captures.
func (x *Exec) orderFor(s *State, et types.Type, less Val) (*OrderT, []Val) {
	if x.c == nil {
		return nil, nil
	}
	for _, o := range x.c.Orders {
		if !o.activeFor(x.prop) || len(o.Fn.params) < o.nBase+3 || !types.Identical(o.Fn.params[o.nBase].Type(), et) {
			continue
		}
		var clo *CloV
		switch f := less.(type) {
		case *CloV:
			clo = f
		case *Term:
			clo = x.clos[f]
		}
		var roles []Val
		used := map[int]bool{}
		for _, p := range o.Fn.params[o.nBase+3:] {
			best := -1
			if clo != nil {
				for j, fv := range clo.fn.FreeVars {
					t := fv.Type()
					if isCapturedVar(clo.fn, j) {
						t = derefT(t)
					}
					if !used[j] && types.Identical(t, p.Type()) && (best < 0 || fv.Name() == p.Name()) {
						best = j
					}
				}
			}
			if best < 0 {
				x.oblige(s, "sort", "the comparison uses "+p.Name(), o.Props, False)
				return nil, nil
			}
			used[best] = true
			v := clo.binds[best]
			if isCapturedVar(clo.fn, best) {
				v = x.load(s, v, p.Type())
			}
			roles = append(roles, v)
		}
		return o, roles
	}
	return nil, nil
}

func (x *Exec) orderEv(s *State, o *OrderT, roles []Val, es []*Term) *specEv {
	args := append([]Val{}, x.args...)
	for _, e := range es {
		args = append(args, e)
	}
	ev := x.newEv(s, x.c, args[:o.nBase])
	ev.old = x.entry
	ev.res = append(append([]Val{}, args[o.nBase:]...), roles...)
	return ev
}

func (x *Exec) orderLess(s *State, o *OrderT, roles []Val, a, b *Term) *Term {
	return x.orderEv(s, o, roles, []*Term{a, b, b}).boolFn(o.Fn)
}

func (x *Exec) orderBy(s *State, o *OrderT, roles []Val, a, b, c *Term) {
	if o.By == nil {
		return
	}
	x.orderEv(s, o, roles, []*Term{a, b, c}).uses(o.By, func(ct *Contract, args []Val) {
		if !s.dead {
			x.callContract(nil, s, nil, ct, args, func(*State, Outcome) {})
		}
	})
}

// orderLaws: the order is a strict weak one (with the help of the lemma it names).
func (x *Exec) orderLaws(s *State, o *OrderT, roles []Val, a, b, c *Term, in *Term) {
	s.assume(in)
	if s.dead {
		return
	}
	x.orderBy(s, o, roles, a, b, c)
	if s.dead {
		return
	}
	less := func(p, q *Term) *Term { return x.orderLess(s, o, roles, p, q) }
	x.oblige(s, "sort", "the order is asymmetric", o.Props, Not(And(less(a, b), less(b, a))))
	x.oblige(s, "sort", "the order is negatively transitive", o.Props, Imp(And(Not(less(a, b)), Not(less(b, c))), Not(less(a, c))))
}

var _ = fmt.Sprint
