package main

// Callbacks: a function value handed to code outside the module, which calls it
// later, any number of times, from any goroutine. "calls f as NAME" in the contract
// of the external function names the contract the function value has to satisfy.
// It is verified where it is handed over, from a state about which nothing is known
// but the values of captured variables which are assigned exactly once.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func paramIndex(sig *types.Signature, name string) int {
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Name() == name {
			return i
		}
	}
	return -1
}

func (x *Exec) callback(s0 *State, cb *Contract, fv Val, osig *types.Signature, oargs []Val) {
	if x.mode != MFinal {
		return
	}
	x.used[cb.Key] = true
	var clo *CloV
	switch f := fv.(type) {
	case *CloV:
		clo = f
	case *Term:
		clo = x.clos[f]
	}
	if clo == nil {
		x.oblige(s0, cb.Key, "the function is known", nil, False)
		return
	}
	fn := clo.fn
	s := s0.clone()
	// what the captured variables hold, if they are assigned exactly once
	type held struct {
		p *PtrV
		t types.Type
		v Val
	}
	var keep []held
	capt := map[int]Val{} // free variable -> value
	for i, b := range clo.binds {
		if i >= len(fn.FreeVars) {
			break
		}
		pt := derefT(fn.FreeVars[i].Type())
		if !isCapturedVar(fn, i) {
			x.spill(s, b)
			capt[i] = b // captured by value
			continue
		}
		if pt == nil {
			continue
		}
		if !assignedOnce(fn, i) {
			if p, ok := b.(*PtrV); ok && p.kind == PCell {
				if _, mat := s.matref[p.cell]; !mat && len(p.path) == 0 {
					s.cells[p.cell] = x.symbolic(s, fn.FreeVars[i].Name(), pt)
				}
			}
			continue
		}
		v := x.load(s, b, pt)
		if _, isSl := v.(*SliceV); isSl {
			v = x.term(s, v)
		}
		x.spill(s, v)
		capt[i] = v
		if p, ok := b.(*PtrV); ok {
			keep = append(keep, held{p, pt, v})
		} else {
			keep = append(keep, held{nil, pt, v})
		}
	}
	// any state
	nt := Fresh("top", SInt)
	s.assume(Le(s.top, nt))
	s.top = nt
	names := make([]string, 0, len(compSorts))
	for n := range compSorts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s.heap[n] = Fresh("cb:"+n, compSorts[n])
	}
	for a, av := range s.arrs {
		av.content = Fresh("cbarr", av.content.S)
		s.arrs[a] = av
	}
	s.guards = map[*Term]*Term{}
	for _, h := range keep {
		if h.p != nil {
			x.store(s, h.p, h.v, h.t)
		}
	}
	for i, b := range clo.binds {
		if t, ok := b.(*Term); ok && capt[i] != nil && isCapturedVar(fn, i) {
			x.store(s, t, capt[i], derefT(fn.FreeVars[i].Type()))
		}
	}
	// the arguments of the call and the roles
	var args []Val
	for _, p := range fn.Params {
		v := x.symbolic(s, p.Name(), p.Type())
		args = append(args, v)
	}
	bound := append([]Val{}, args...)
	used := map[int]bool{}
	ps := cb.Sig.Params()
	for i := len(args); i < ps.Len(); i++ {
		t, nm := ps.At(i).Type(), ps.At(i).Name()
		var v Val
		best := -1
		for j := range fn.FreeVars {
			ft := fn.FreeVars[j].Type()
			if isCapturedVar(fn, j) {
				ft = derefT(ft)
			}
			if capt[j] == nil || used[j] || !types.Identical(ft, t) {
				continue
			}
			if best < 0 || fn.FreeVars[j].Name() == nm {
				best = j
			}
		}
		if best >= 0 {
			used[best] = true
			v = capt[best]
		} else {
			for j := 0; j < osig.Params().Len() && j < len(oargs); j++ {
				if types.Identical(osig.Params().At(j).Type(), t) {
					v = oargs[j]
					if osig.Params().At(j).Name() == nm {
						break
					}
				}
			}
		}
		if v == nil {
			x.oblige(s0, cb.Key, "captures "+nm, nil, False)
			return
		}
		bound = append(bound, v)
	}
	if len(args) > ps.Len() {
		x.oblige(s0, cb.Key, "signature", nil, False)
		return
	}
	ev := x.newEv(s, cb, bound)
	for _, cl := range cb.Requires {
		if cl.activeFor(x.prop) {
			s.assume(ev.boolFn(cl.Fn))
		}
	}
	if s.dead {
		return
	}
	x.cbSeen[cb.Key]++
	oldEntry, oldC, oldNP, oldArgs := x.entry, x.c, x.noPanic, x.args
	x.entry, x.c, x.noPanic, x.args = s.clone(), cb, false, bound
	// what panics inside may be recovered: only what leaves the function counts
	noPanic := false
	for _, p := range cb.NoPanic {
		if p == x.prop {
			noPanic = true
		}
	}
	entry := x.entry
	defer func() { x.entry, x.c, x.noPanic, x.args = oldEntry, oldC, oldNP, oldArgs }()
	ens := cb.active(x.prop)
	x.runFunc(fn, args, clo.binds, s, nil, nil, func(s *State, o Outcome) {
		if s.dead || x.mode != MFinal {
			return
		}
		ev := x.newEv(s, cb, bound)
		ev.old = entry
		if o.panicked {
			if noPanic {
				x.oblige(s, "nopanic", "", nil, False)
			}
			for _, cl := range ens {
				if cl.Kind == "onpanic" {
					x.oblige(s, "onpanic", cl.Label, cl.Props, ev.boolFn(cl.Fn))
				}
			}
			return
		}
		if n := len(x.cbExits[cb.Key]); n < 12 {
			x.cbExits[cb.Key] = append(x.cbExits[cb.Key], x.pcOf(s)[:len(s.pc):len(s.pc)])
		}
		ev.bindResults(o.vals)
		for _, cl := range ens {
			if cl.Kind == "ensures" {
				lab := cl.Label
				if lab == "" {
					lab = fmt.Sprintf("line %d", cl.Line)
				}
				x.oblige(s, "ensures", lab, cl.Props, ev.boolFn(cl.Fn))
			}
		}
	})
}

// spill moves what a captured pointer points to onto the heap, whose content is
// not known when the function is called later.
func (x *Exec) spill(s *State, v Val) {
	switch v := v.(type) {
	case *PtrV:
		if v.kind == PCell {
			x.term(s, v)
		}
	case *StructV:
		for _, f := range v.fs {
			x.spill(s, f)
		}
	case *CloV:
		for _, b := range v.binds {
			x.spill(s, b)
		}
	}
}

// closuresOf: the places where the closure is made.
func closuresOf(fn *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				out = append(out, mc)
			}
		}
	}
	return out
}

// isCapturedVar: free variable i is (the address of) a variable, not a value.
func isCapturedVar(fn *ssa.Function, i int) bool {
	mcs := closuresOf(fn)
	if len(mcs) == 0 {
		return false
	}
	for _, mc := range mcs {
		switch b := mc.Bindings[i].(type) {
		case *ssa.Alloc:
		case *ssa.FreeVar:
			if !isCapturedVar(b.Parent(), freeIndex(b)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func freeIndex(f *ssa.FreeVar) int {
	for i, v := range f.Parent().FreeVars {
		if v == f {
			return i
		}
	}
	return -1
}

// assignedOnce: the captured variable is written once, before it is captured, and
// its address goes nowhere else.
func assignedOnce(fn *ssa.Function, i int) bool {
	for _, mc := range closuresOf(fn) {
		switch b := mc.Bindings[i].(type) {
		case *ssa.Alloc:
			stores := 0
			if !onlyRead(b, &stores, map[ssa.Value]bool{}) || stores > 1 {
				return false
			}
		case *ssa.FreeVar:
			if !assignedOnce(b.Parent(), freeIndex(b)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func onlyRead(v ssa.Value, stores *int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == v {
				return false
			}
			if _, isA := v.(*ssa.Alloc); !isA {
				return false // written in a closure or field by field
			}
			*stores++
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			if !onlyRead(r, stores, seen) {
				return false
			}
		case *ssa.MakeClosure:
			for j, b := range r.Bindings {
				if b == v && !onlyRead(r.Fn.(*ssa.Function).FreeVars[j], stores, seen) {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
