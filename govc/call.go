package main

// Calls: builtins, models, contracts, inlining, external functions.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callOperands(s *State, fr *Frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(s, fr, a))
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return x.val(s, fr, c.Value), args
}

func (x *Exec) call(fr *Frame, s *State, in ssa.CallInstruction, c *ssa.CallCommon, fv Val, args []Val, deferOf *Frame, k Cont) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(fr, s, in, b, c, args, k)
		return
	}
	if c.IsInvoke() {
		x.invoke(fr, s, in, c, x.term(s, fv), args, k)
		return
	}
	if ct := x.w.contracts["functype "+tname(c.Value.Type())]; ct != nil && x.usable(ct) {
		f := x.term(s, fv)
		if _, ok := x.clos[f]; !ok {
			x.nilCheck(s, f, "call of nil function")
		}
		x.callContract(fr, s, in, ct, append([]Val{f}, args...), k)
		return
	}
	switch f := fv.(type) {
	case *CloV:
		x.callFn(fr, s, in, f.fn, args, f.binds, deferOf, k)
		return
	case *Term:
		if cl, ok := x.clos[f]; ok {
			x.callFn(fr, s, in, cl.fn, args, cl.binds, deferOf, k)
			return
		}
		if f.Op == "ite" {
			s2 := s.clone()
			s.assume(f.Args[0])
			if !s.dead {
				x.call(fr, s, in, c, f.Args[1], args, deferOf, k)
			}
			s2.assume(Not(f.Args[0]))
			if !s2.dead {
				x.call(fr, s2, in, c, f.Args[2], args, deferOf, k)
			}
			return
		}
		x.nilCheck(s, f, "call of nil function")
		n := tname(c.Value.Type())
		x.defaultExt(fr, s, "call of function value "+n, c.Signature(), append([]Val{f}, args...), false, k)
		return
	}
	panic(unsupported("call of %T", fv))
}

func baseName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (x *Exec) callFn(fr *Frame, s *State, in ssa.CallInstruction, fn *ssa.Function, args, binds []Val, deferOf *Frame, k Cont) {
	// method value / bound wrappers
	name := baseName(fn)
	if x.initOf != nil && fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != x.initOf {
		k(s, Outcome{})
		return
	}
	if m, ok := models[name]; ok {
		m(x, fr, s, in, fn, args, k)
		return
	}
	if len(binds) == 0 {
		if ct := x.w.contracts[name]; ct != nil && !ct.LoopsOnly && x.usable(ct) {
			x.callContract(fr, s, in, ct, args, k)
			return
		}
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		x.runFunc(fn, args, binds, s, fr, deferOf, k)
		return
	}
	if x.w.inModule(fn) && len(fn.Blocks) > 0 {
		x.runFunc(fn, args, binds, s, fr, deferOf, k)
		return
	}
	x.defaultExt(fr, s, name, fn.Signature, args, x.w.isPure(fn), k)
}

// usable: a contract without any clause active for the property is not used; the body is executed instead.
func (x *Exec) usable(ct *Contract) bool {
	if ct.Trusted || ct.Iface {
		return true
	}
	if ct == x.c && len(ct.active(x.prop)) > 0 {
		return true
	}
	return len(ct.active(x.prop)) > 0
}

func (x *Exec) invoke(fr *Frame, s *State, in ssa.CallInstruction, c *ssa.CallCommon, recv *Term, args []Val, k Cont) {
	x.nilIface(s, recv)
	if s.dead {
		return
	}
	if n, p, ok := boxParts(recv); ok && p != nil {
		if bt, ok := x.w.boxTypes[n]; ok {
			if fn := x.w.method(bt, c.Method); fn != nil {
				x.callFn(fr, s, in, fn, append([]Val{p}, args...), nil, nil, k)
				return
			}
		}
	}
	if recv.Op == "ite" {
		s2 := s.clone()
		s.assume(recv.Args[0])
		if !s.dead {
			x.invoke(fr, s, in, c, recv.Args[1], args, k)
		}
		s2.assume(Not(recv.Args[0]))
		if !s2.dead {
			x.invoke(fr, s2, in, c, recv.Args[2], args, k)
		}
		return
	}
	name := c.Method.FullName()
	if m, ok := imodels[name]; ok {
		m(x, fr, s, in, nil, append([]Val{recv}, args...), k)
		return
	}
	if ct := x.w.contracts[name]; ct != nil {
		x.callContract(fr, s, in, ct, append([]Val{recv}, args...), k)
		return
	}
	sig := c.Method.Type().(*types.Signature)
	x.defaultExt(fr, s, name, sig, append([]Val{recv}, args...), x.w.pureObj(c.Method), k)
}

func (x *Exec) nilIface(s *State, t *Term) {
	c := s.simp(Not(Eq(t, NilAny())))
	if c == True {
		return
	}
	x.noPanicOb(s, c, "method call on nil interface")
	s.assume(c)
}

// defaultExt: a function outside the module. Pure functions are uninterpreted
// functions of their arguments; others return arbitrary values. Neither changes
// the repository's state (assumption, recorded).
func (x *Exec) defaultExt(fr *Frame, s *State, name string, sig *types.Signature, args []Val, pure bool, k Cont) {
	kind := "returns an arbitrary value"
	if pure {
		kind = "deterministic function of its arguments"
	}
	eff := "no effect on the program state"
	if !pure {
		rest := args
		if len(rest) > sig.Params().Len() {
			rest = rest[len(rest)-sig.Params().Len():]
		}
		for i, a := range rest {
			if i < sig.Params().Len() && x.havocPointee(s, a, sig.Params().At(i).Type(), false) {
				eff = "may write what its pointer arguments point to, no other effect on the program state"
			}
		}
	}
	x.assumed[name+": "+kind+", "+eff] = true
	k(s, Outcome{vals: x.extResults(s, name, sig, args, pure)})
}

// havocPointee: an external function may write what it is given a pointer to: local
// variables, objects of the module, and anything behind an interface.
func (x *Exec) havocPointee(s *State, v Val, t types.Type, must bool) bool {
	t = types.Unalias(t)
	if e := derefT(t); e != nil {
		switch p := v.(type) {
		case *PtrV:
			if p.kind == PArr {
				a := s.arrs[p.arr]
				n := Len(a.content)
				a.content = Fresh("mods", a.content.S)
				s.assume(Eq(Len(a.content), n))
				s.arrs[p.arr] = a
				return true
			}
			if p.kind != PCell && !must && !x.ownType(e) {
				return false
			}
			x.store(s, p, x.symbolic(s, "mod", e), e)
			return true
		case *Term:
			if !must && !x.ownType(e) {
				return false
			}
			for _, l := range x.newEvAt(s).structLocs(p, e) {
				x.havocLoc(s, l)
			}
			return true
		}
		return false
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		b, ok := v.(*Term)
		if !ok {
			return false
		}
		n, pl, ok := boxParts(b)
		if !ok || pl == nil {
			return false
		}
		bt := x.w.boxTypes[n]
		if bt == nil || derefT(bt) == nil {
			return false
		}
		for _, l := range x.newEvAt(s).structLocs(pl, derefT(bt)) {
			x.havocLoc(s, l)
		}
		return true
	}
	return false
}

func (x *Exec) newEvAt(s *State) *specEv { return &specEv{x: x, s: s} }

// ownType: a named type of the module.
func (x *Exec) ownType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), x.w.modPath)
}

func (x *Exec) extResults(s *State, name string, sig *types.Signature, args []Val, pure bool) []Val {
	var vals []Val
	res := sig.Results()
	if !pure {
		for i := 0; i < res.Len(); i++ {
			v := x.symbolic(s, "r:"+shortName(name), res.At(i).Type())
			vals = append(vals, v)
		}
		return vals
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.term(s, a))
	}
	for i := 0; i < res.Len(); i++ {
		n := "ext:" + name
		if res.Len() > 1 {
			n += fmt.Sprintf("#%d", i)
		}
		t := UF(n, sortOf(res.At(i).Type()), ts...)
		x.typeFacts(s, t, res.At(i).Type())
		vals = append(vals, t)
	}
	return vals
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// ---- closures as terms

func (x *Exec) cloTerm(s *State, c *CloV) *Term {
	if len(c.binds) == 0 {
		t := Const("fn:"+c.fn.String(), SInt)
		x.clos[t] = c
		s.assume(Gt(t, Int(0)))
		s.assume(Le(t, s.top))
		return t
	}
	t := x.alloc(s)
	x.clos[t] = c
	return t
}

// ---- contracts at call sites

func (x *Exec) callContract(fr *Frame, s *State, in ssa.CallInstruction, ct *Contract, args []Val, k Cont) {
	x.used[ct.Key] = true
	if ct.Trusted {
		x.assumed["contract of "+ct.Name+" ("+ct.File+")"] = true
	}
	ev := x.newEv(s, ct, args)
	for _, cl := range ct.Requires {
		if !cl.activeFor(x.prop) {
			continue
		}
		g := ev.boolFn(cl.Fn)
		x.oblige(s, "call:"+ct.Name, "requires "+cl.Label, nil, g)
		s.assume(g)
		if s.dead {
			return
		}
	}
	for _, ca := range ct.Calls {
		if cb := x.w.contracts["callback "+ca.name]; cb != nil && len(cb.active(x.prop)) > 0 {
			i := paramIndex(ct.Sig, ca.param)
			if i < 0 {
				panic(unsupported("calls: %s has no parameter %s", ct.Name, ca.param))
			}
			x.callback(s, cb, args[i], ct.Sig, args)
		}
	}
	pre := s.clone()
	// allocation may have happened
	if !ct.Pure {
		nt := Fresh("top", SInt)
		s.assume(Le(s.top, nt))
		s.top = nt
	}
	for _, m := range ct.Modifies {
		if !m.activeFor(x.prop) {
			continue
		}
		x.applyModifies(s, ev, m)
	}
	var vals []Val
	if ct.Pure {
		vals = x.extResults(s, ct.Key, ct.Sig, args, true)
	} else {
		for i := 0; i < ct.Sig.Results().Len(); i++ {
			vals = append(vals, x.symbolic(s, "r:"+ct.Short, ct.Sig.Results().At(i).Type()))
		}
	}
	ev2 := x.newEv(s, ct, args)
	ev2.old = pre
	ev2.bindResults(vals)
	var s3 *State
	if ct.MayPanic {
		s3 = s.clone()
	}
	for _, cl := range ct.Ensures {
		if !cl.activeFor(x.prop) {
			continue
		}
		s.assume(ev2.boolFn(cl.Fn))
		if s.dead {
			break
		}
	}
	if !s.dead {
		k(s, Outcome{vals: vals})
	}
	if s3 != nil {
		ev3 := x.newEv(s3, ct, args)
		ev3.old = pre
		for _, cl := range ct.OnPanic {
			if cl.activeFor(x.prop) && !s3.dead {
				s3.assume(ev3.boolFn(cl.Fn))
			}
		}
	}
	if s3 != nil && !s3.dead {
		k(s3, Outcome{panicked: true, pv: Fresh("panic", SAny)})
	}
}

func (x *Exec) applyModifies(s *State, ev *specEv, m *Clause) {
	// evaluate the location in the pre-state
	for _, l := range ev.locations(m.Fn) {
		x.havocLoc(s, l)
	}
}

type location struct {
	kind  string // field, ghost, map, slice, cell, comp, top
	comp  string
	srt   *Sort
	ref   *Term
	t     types.Type
	mt    *types.Map
	arr   *SliceV
	cell  *PtrV
	field int
}

func (x *Exec) havocLoc(s *State, l location) {
	switch l.kind {
	case "field":
		v := x.symbolic(s, "mod", l.t)
		s.heap[l.comp] = Store(x.comp(s, l.comp, l.srt), l.ref, x.term(s, v))
	case "ghost":
		x.comp(s, l.comp, l.srt)
		if l.t != nil {
			s.heap[l.comp] = x.term(s, x.symbolic(s, "mod", l.t))
		} else {
			s.heap[l.comp] = Fresh("mod", l.srt)
		}
	case "comp":
		x.comp(s, l.comp, l.srt)
		s.heap[l.comp] = Fresh("mod", l.srt)
	case "map":
		_, _, _, hs, vs := mapComps(l.mt)
		x.setMap(s, l.ref, l.mt, Fresh("modh", hs.Elem), Fresh("modv", vs.Elem), Fresh("modl", SInt))
	case "slice":
		a := s.arrs[l.arr.arr]
		a.content = Fresh("mods", a.content.S)
		s.assume(Eq(App("seq.len", SInt, a.content), Len(s.arrs[l.arr.arr].content)))
		s.arrs[l.arr.arr] = a
	case "cell":
		t := l.t
		x.store(s, l.cell, x.symbolic(s, "mod", t), t)
	}
}

// ---- channels, goroutines

func (x *Exec) recvHook(s *State, ch, v, ok *Term, et types.Type) {
	if ct := x.w.contracts["recv "+tname(et)]; ct != nil {
		x.hook(s, ct, []Val{ch, v, ok})
	}
	// a closed channel delivers the zero value
	s.assume(Or(ok, Eq(v, zeroTerm(v.S))))
}

func (x *Exec) sendHook(s *State, ch, v *Term, ct types.Type) {
	et := ct.Underlying().(*types.Chan).Elem()
	if c := x.w.contracts["send "+tname(et)]; c != nil {
		x.hook(s, c, []Val{ch, v})
	}
}

func (x *Exec) hook(s *State, ct *Contract, args []Val) {
	x.used[ct.Key] = true
	ev := x.newEv(s, ct, args)
	pre := s.clone()
	nt := Fresh("top", SInt)
	s.assume(Le(s.top, nt))
	s.top = nt
	for _, m := range ct.Modifies {
		if m.activeFor(x.prop) {
			x.applyModifies(s, ev, m)
		}
	}
	ev2 := x.newEv(s, ct, args)
	ev2.old = pre
	for _, cl := range ct.Ensures {
		if cl.activeFor(x.prop) {
			s.assume(ev2.boolFn(cl.Fn))
		}
	}
}

func (x *Exec) goStmt(fr *Frame, s *State, in *ssa.Go) {
	fv, args := x.callOperands(s, fr, &in.Call)
	name := ""
	if in.Call.IsInvoke() {
		name = in.Call.Method.FullName()
		args = append([]Val{x.term(s, fv)}, args...)
	} else if c, ok := fv.(*CloV); ok {
		name = baseName(c.fn)
	}
	if ct := x.w.contracts["go "+name]; ct != nil {
		x.hook(s, ct, args)
		return
	}
	x.assumed["goroutine "+name+": runs independently, not part of the contract of "+fr.fn.String()] = true
}

// ---- locks

func (x *Exec) lockComp(s *State) *Term { return x.comp(s, "G:$lock", ArrOf(SInt, SInt)) }
func (x *Exec) lockRef(s *State, v Val) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case *PtrV:
		if p.kind == PCell {
			if _, ok := s.matref[p.cell]; !ok {
				if r, ok := s.cellLock[p.cell]; ok {
					return App(fmt.Sprintf("celllock:%v", p.path), SInt, r)
				}
				r := Fresh("celllock", SInt)
				s.assume(Lt(r, Int(0)))
				s.cellLock[p.cell] = r
				t := App(fmt.Sprintf("celllock:%v", p.path), SInt, r)
				s.heap["G:$lock"] = Store(x.lockComp(s), t, Int(0))
				return t
			}
			return x.term(s, p)
		}
		return x.term(s, p)
	}
	panic(unsupported("lock %T", v))
}

func (x *Exec) lockOp(s *State, v Val, op string, pos string) {
	r := x.lockRef(s, v)
	c := x.lockComp(s)
	cur := s.simpT(Select(c, r))
	chk := func(g *Term, label string) {
		if x.prop == "C14" {
			x.oblige(s, "lock", label, []string{"C14"}, g)
		}
		s.assume(g)
	}
	switch op {
	case "Lock":
		chk(Eq(cur, Int(0)), "never acquired while held")
		s.heap["G:$lock"] = Store(c, r, Int(-1))
	case "RLock":
		chk(Eq(cur, Int(0)), "never acquired while held")
		s.heap["G:$lock"] = Store(c, r, Int(1))
	case "Unlock":
		chk(Eq(cur, Int(-1)), "released only when held")
		s.heap["G:$lock"] = Store(c, r, Int(0))
	case "RUnlock":
		chk(Ge(cur, Int(1)), "released only when held")
		s.heap["G:$lock"] = Store(c, r, Int(0))
	}
}

func (s *State) simpT(t *Term) *Term {
	if v, ok := s.eqs[t]; ok {
		return v
	}
	return t
}

func originName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return tname(t)
}

func (x *Exec) guardOf(p *PtrV) (string, bool) {
	g, ok := x.w.guarded[originName(p.st)+"."+structOf(p.st).Field(p.fld).Name()]
	return g, ok
}

func (x *Exec) guardLockRef(p *PtrV, lock string) *Term {
	st := structOf(p.st)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == lock {
			return SubRef(p.ref, p.st, i)
		}
	}
	return nil
}

func (x *Exec) guardRead(s *State, p *PtrV, write bool) {
	if x.prop != "C14" {
		return
	}
	lock, ok := x.guardOf(p)
	if !ok {
		return
	}
	l := x.guardLockRef(p, lock)
	f := structOf(p.st).Field(p.fld).Name()
	if l == nil {
		x.oblige(s, "guard", f+" has its lock "+lock, []string{"C14"}, False)
		return
	}
	x.guardCheck(s, l, write, f)
}

func (x *Exec) guardCheck(s *State, l *Term, write bool, what string) {
	cur := Select(x.lockComp(s), l)
	if write {
		x.oblige(s, "guard", "write of "+what+" under its lock", []string{"C14"}, Eq(cur, Int(-1)))
	} else {
		x.oblige(s, "guard", "read of "+what+" under its lock", []string{"C14"}, Not(Eq(cur, Int(0))))
	}
}

func (x *Exec) guardLoad(s *State, p *PtrV, v Val) {
	if x.prop != "C14" {
		return
	}
	lock, ok := x.guardOf(p)
	if !ok {
		return
	}
	t, isT := v.(*Term)
	if !isT || t.isInt() {
		return
	}
	if _, ok := structOf(p.st).Field(p.fld).Type().Underlying().(*types.Map); !ok {
		return
	}
	if l := x.guardLockRef(p, lock); l != nil {
		s.guards[t] = l
	}
}

func (x *Exec) mapGuard(s *State, m *Term, write bool, pos string) {
	if x.prop != "C14" {
		return
	}
	if l, ok := s.guards[m]; ok {
		x.guardCheck(s, l, write, "map contents")
	}
}

// ---- builtins

func (x *Exec) builtin(fr *Frame, s *State, in ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val, k Cont) {
	ret := func(v Val) { k(s, Outcome{vals: []Val{v}}) }
	switch b.Name() {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			m := x.term(s, args[0])
			x.mapGuard(s, m, false, "")
			ret(x.mapLenFact(s, m, u))
			return
		case *types.Chan:
			ret(Fresh("chlen", SInt))
			return
		}
		if sv, ok := args[0].(*SliceV); ok {
			ret(sv.len)
			return
		}
		ret(s.lenOf(x.term(s, args[0])))
	case "cap":
		n := Fresh("cap", SInt)
		s.assume(Le(Len(x.term(s, args[0])), n))
		ret(n)
	case "append":
		ret(x.appendVals(s, args[0], args[1], c.Args[0].Type()))
	case "copy":
		dst, ok := args[0].(*SliceV)
		if !ok {
			panic(unsupported("copy into frozen slice"))
		}
		src := x.term(s, args[1])
		dl, sl := dst.len, Len(src)
		n := Ite(Le(dl, sl), dl, sl)
		a := s.arrs[dst.arr]
		if a.extended && !a.exact {
			panic(unsupported("copy into a shared backing array"))
		}
		whole := a.content
		nw := Cat(Cat(SubSeq(whole, Int(0), dst.off), SubSeq(src, Int(0), n)), SubSeq(whole, Add(dst.off, n), Len(whole)))
		a.content = nw
		s.arrs[dst.arr] = a
		ret(n)
	case "delete":
		m := x.term(s, args[0])
		mt := c.Args[0].Type().Underlying().(*types.Map)
		x.mapGuard(s, m, true, "")
		if cnd := s.simp(Eq(m, Int(0))); cnd == True {
			k(s, Outcome{})
			return
		} else if cnd != False {
			// deleting from a nil map is a no-op; map 0 never has keys so writing False changes nothing
			x.nilMapFact(s, mt)
			s2 := s.clone()
			s2.assume(cnd)
			if !s2.dead {
				k(s2, Outcome{})
			}
			s.assume(Not(cnd))
			if s.dead {
				return
			}
		}
		x.mapDelete(s, m, mt, x.term(s, args[1]))
		k(s, Outcome{})
	case "close":
		ch := x.term(s, args[0])
		if ct := x.w.contracts["close"]; ct != nil {
			x.hook(s, ct, []Val{ch})
		}
		k(s, Outcome{})
	case "recover":
		if fr.deferOf != nil {
			if pv, ok := s.panicV[fr.deferOf.id]; ok {
				delete(s.panicV, fr.deferOf.id)
				t := x.term(s, pv)
				// since go 1.21 recover of a panic never returns nil
				s.assume(Not(Eq(t, NilAny())))
				ret(t)
				return
			}
		}
		ret(NilAny())
	case "print", "println":
		k(s, Outcome{})
	case "min", "max":
		t := x.term(s, args[0])
		for _, a := range args[1:] {
			u := x.term(s, a)
			if b.Name() == "min" {
				t = Ite(Le(t, u), t, u)
			} else {
				t = Ite(Le(t, u), u, t)
			}
		}
		ret(t)
	case "clear":
		mt, ok := c.Args[0].Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("clear"))
		}
		m := x.term(s, args[0])
		x.mapGuard(s, m, true, "")
		_, _, _, hs, vs := mapComps(mt)
		x.nilCheck(s, m, "clear")
		x.setMap(s, m, mt, ConstArr(hs.Elem, False), ConstArr(vs.Elem, zeroTerm(sortOf(mt.Elem()))), Int(0))
		k(s, Outcome{})
	case "ssa:wrapnilchk":
		if t, ok := args[0].(*Term); ok {
			x.nilCheck(s, t, "nil receiver")
		}
		ret(args[0])
	default:
		panic(unsupported("builtin %s", b.Name()))
	}
}

// mapLenFact: len(m) with the facts relating it to the key set
func (x *Exec) mapLenFact(s *State, m *Term, mt *types.Map) *Term {
	if m.isInt() && m.N.Sign() == 0 {
		return Int(0)
	}
	n := x.mapLen(s, m, mt)
	if n.isInt() {
		return n
	}
	has := x.mapHas(s, m, mt)
	s.assume(Le(Int(0), n))
	s.assume(Le(n, BigInt(seqMax)))
	ks := sortOf(mt.Key())
	empty := ConstArr(has.S, False)
	s.assume(Eq(Eq(n, Int(0)), Eq(has, empty)))
	kv := FreshVar("k", ks)
	h := Select(has, kv)
	if h != False && h != True && h.Op == "select" {
		s.assume(Forall([]*Term{kv}, Or(Not(h), Lt(Int(0), n)), []*Term{h}))
	}
	// not empty: some key exists
	w := UF("anykey:"+ks.Name, ks, has)
	s.assume(Or(Eq(n, Int(0)), Select(has, w)))
	return n
}

func (s *State) lenOf(t *Term) *Term {
	l := Len(t)
	if v, ok := s.eqs[l]; ok && v.isInt() {
		return v
	}
	return l
}

func (x *Exec) appendVals(s *State, a, b Val, t types.Type) Val {
	bt := x.term(s, b)
	if isEmptySeq(bt) {
		return a
	}
	switch v := a.(type) {
	case *SliceV:
		ar := s.arrs[v.arr]
		total := Len(ar.content)
		end := Add(v.off, v.len)
		if d := Sub(total, end); !d.isInt() || d.N.Sign() != 0 {
			// appending in the middle of the backing array overwrites what follows
			if s.simp(Eq(total, end)) != True {
				n := Len(bt)
				fits := s.simp(Le(Add(end, n), total))
				if fits != True || (ar.extended && !ar.exact) {
					panic(unsupported("append in the middle of a backing array"))
				}
				ar.content = Cat(Cat(SubSeq(ar.content, Int(0), end), bt), SubSeq(ar.content, Add(end, n), total))
				s.arrs[v.arr] = ar
				return &SliceV{arr: v.arr, off: v.off, len: Add(v.len, n), t: t}
			}
		}
		if ar.extended && !ar.exact && s.simp(Eq(total, Int(0))) != True {
			panic(unsupported("second append to the same slice (backing array may be shared)"))
		}
		base := SubSeq(ar.content, v.off, end)
		ar.extended = true
		s.arrs[v.arr] = ar
		return x.sliceOf(s, appendSeq(base, bt), t)
	case *Term:
		return x.sliceOf(s, appendSeq(v, bt), t)
	}
	panic(unsupported("append to %T", a))
}

func appendSeq(a, b *Term) *Term {
	return Cat(a, b)
}
