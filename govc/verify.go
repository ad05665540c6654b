package main

// Verification of one function against its contract, for one property.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	ID     string
	VCs    []*VC
	Proved bool
	Back   map[string]int
	Time   time.Duration
}

type Result struct {
	C        *Contract
	Fn       string
	Obs      []*Obligation
	Err      string // unsupported construct, missing function, …
	Used     map[string]bool
	Assumed  map[string]bool
	Inlined  map[string]bool
	LoopInv  map[string][]string
	InvOK    int
	Exits    int
	Panics   int
	Live     int
	Steps    int
	Queries  int
	VCs      int
	Wall     time.Duration
	Vacuous  string
	Excluded map[string]bool

	Callbacks map[string]int
}

func (r *Result) ok() bool {
	if r.Err != "" || r.Vacuous != "" {
		return false
	}
	for _, o := range r.Obs {
		if !o.Proved {
			return false
		}
	}
	return true
}

func (w *World) target(c *Contract) *ssa.Function {
	key := c.Key
	if c.kind == "go" {
		key = strings.TrimPrefix(key, "go ")
	}
	return w.fns[key]
}

// verify: the roles of loop clauses are first matched with the variables of the
// same name, and, if that does not prove the contract, with all of the same type.
func (w *World) verify(c *Contract, prop string, ms int) *Result {
	r, cut := w.verify1(c, prop, ms, false)
	if !r.ok() && cut {
		w0 := r.Wall
		r, _ = w.verify1(c, prop, ms, true)
		r.Wall += w0
	}
	return r
}

func (w *World) verify1(c *Contract, prop string, ms int, allRoles bool) (r *Result, cut bool) {
	t0 := time.Now()
	r = &Result{C: c}
	defer func() { r.Wall = time.Since(t0) }()
	if m := w.missing[c]; m != "" {
		r.Err = "the function under contract does not exist: " + m
		return
	}
	fn := w.target(c)
	if fn == nil {
		r.Err = "the function under contract does not exist: " + c.Key
		return
	}
	r.Fn = fn.String()
	if !sameSig(fn, c) {
		r.Err = fmt.Sprintf("the signature of %s changed", c.Key)
		return
	}
	x := w.newExec(c, prop)
	x.allRoles = allRoles
	defer func() { cut = x.rolesCut }()
	if c.HasNP {
		for _, p := range c.NoPanic {
			if p == prop {
				x.noPanic = true
			}
		}
	}
	defer func() {
		if e := recover(); e != nil {
			switch u := e.(type) {
			case unsup:
				r.Err = "outside the verifier's reach: " + u.msg
			default:
				r.Err = fmt.Sprintf("verifier error: %v", e)
				if os.Getenv("GOVC_STACK") != "" {
					debug.PrintStack()
				}
			}
			if os.Getenv("GOVC_STACK") == "2" {
				debug.PrintStack()
			}
		}
		r.Used, r.Assumed, r.Inlined, r.LoopInv, r.InvOK, r.Steps, r.Queries = x.used, x.assumed, x.inlined, x.loopInv, x.invOK, x.steps, x.houQ
		r.Callbacks = x.cbSeen
	}()
	s := newState()
	var args []Val
	for _, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = "arg"
		}
		t := p.Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			c := Fresh(n, sortOf(t))
			s.assume(Le(App("seq.len", SInt, c), Int(1<<62)))
			if c.S == SStr {
				args = append(args, c)
				continue
			}
			_ = u
			sv := &SliceV{arr: x.newArr(s, c), off: Int(0), len: Len(c), t: t}
			a := s.arrs[sv.arr]
			a.extended = true // the caller's array may be longer than the slice
			a.exact = true
			s.arrs[sv.arr] = a
			args = append(args, sv)
		default:
			v := x.symbolic(s, n, t).(*Term)
			if v.S == SStr {
				s.assume(Le(App("seq.len", SInt, v), Int(1<<62)))
			}
			args = append(args, v)
		}
	}
	x.args = args
	// a method is never called on a nil receiver by this code base's contracts unless they say so
	ev := x.newEv(s, c, args)
	for _, cl := range c.Requires {
		if cl.activeFor(prop) {
			s.assume(ev.boolFn(cl.Fn))
		}
	}
	if s.dead || w.solver.Prove(x.pcOf(s), False, 2000, false).Proved {
		r.Vacuous = "the precondition is unsatisfiable"
		return
	}
	x.mode = MFinal
	x.entry = s.clone()
	type exit struct{ pc []*Term }
	var exits []exit
	ens := c.active(prop)
	x.runFunc(fn, args, nil, s, nil, nil, func(s *State, o Outcome) {
		if s.dead {
			return
		}
		if x.mode != MFinal {
			return
		}
		ev := x.newEv(s, c, args)
		ev.old = x.entry
		if o.panicked {
			r.Panics++
			if x.noPanic {
				x.oblige(s, "nopanic", "", nil, False)
			}
			for _, cl := range ens {
				if cl.Kind == "onpanic" {
					x.oblige(s, "onpanic", cl.Label, cl.Props, ev.boolFn(cl.Fn))
				}
			}
			return
		}
		r.Exits++
		exits = append(exits, exit{x.pcOf(s)[:len(s.pc):len(s.pc)]})
		ev.bindResults(o.vals)
		for _, cl := range c.Uses {
			if !cl.activeFor(prop) {
				continue
			}
			ev.uses(cl, func(ct *Contract, args []Val) {
				if s.dead {
					return
				}
				x.callContract(nil, s, nil, ct, args, func(*State, Outcome) {})
			})
		}
		if s.dead {
			return
		}
		for _, cl := range ens {
			if cl.Kind == "ensures" {
				lab := cl.Label
				if lab == "" {
					lab = fmt.Sprintf("line %d", cl.Line)
				}
				g := ev.boolFn(cl.Fn)
				if os.Getenv("GOVC_SPLIT") != "" && g.Op == "and" {
					for i, a := range g.Args {
						x.oblige(s, "ensures", fmt.Sprintf("%s.%d", lab, i), cl.Props, a)
					}
					continue
				}
				x.oblige(s, "ensures", lab, cl.Props, g)
			}
		}
		if !c.NoFrame {
			x.frame(s, c, args)
		}
	})
	// discharge
	byID := map[string]*Obligation{}
	var order []string
	type job struct {
		vc  *VC
		scr string
	}
	var jobs []*job
	r.VCs = len(x.vcs)
	for _, vc := range x.vcs {
		o := byID[vc.ID]
		if o == nil {
			o = &Obligation{ID: vc.ID, Back: map[string]int{}}
			byID[vc.ID] = o
			order = append(order, vc.ID)
		}
		o.VCs = append(o.VCs, vc)
		triv := vc.Goal == True
		for _, a := range vc.Assume {
			if a == False || a == vc.Goal {
				triv = true
			}
		}
		if triv {
			vc.V = Verdict{Proved: true, Backend: "simplifier"}
			continue
		}
		jobs = append(jobs, &job{vc, buildScript(vc.Assume, vc.Goal)})
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, j := range jobs {
		j := j
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			j.vc.V = w.solver.ProveScript(j.scr, ms, true)
		}()
	}
	// vacuity: some normal exit (or panic exit, for functions that only panic) must be reachable
	live := make(chan int, 1)
	var escr []string
	for i, e := range exits {
		if i >= 12 {
			break
		}
		escr = append(escr, buildScript(e.pc, False))
	}
	go func() {
		n := 0
		for _, sc := range escr {
			if !w.solver.ProveScript(sc, 400, false).Proved {
				n++
				break
			}
		}
		live <- n
	}()
	wg.Wait()
	r.Live = <-live
	if len(exits) > 0 && r.Live == 0 {
		r.Vacuous = "no normal exit is reachable under the precondition"
	}
	for k := range x.cbSeen {
		ok := false
		for _, pc := range x.cbExits[k] {
			if !w.solver.ProveScript(buildScript(pc, False), 400, false).Proved {
				ok = true
				break
			}
		}
		if !ok {
			r.Vacuous = k + ": no normal exit is reachable"
		}
	}
	for _, id := range order {
		o := byID[id]
		o.Proved = true
		for _, vc := range o.VCs {
			if !vc.V.Proved {
				o.Proved = false
			}
			o.Back[vc.V.Backend]++
			o.Time += vc.V.Time
		}
		r.Obs = append(r.Obs, o)
	}
	if len(r.Obs) == 0 && r.Vacuous == "" {
		r.Vacuous = "no obligation was generated"
	}
	return
}

// frame: everything not listed under modifies keeps its value.
func (x *Exec) frame(s *State, c *Contract, args []Val) {
	ev := x.newEv(x.entry, c, args)
	allowed := map[string][]location{}
	whole := map[string]bool{}
	arrOK := map[int]bool{}
	for _, m := range c.Modifies {
		if !m.activeFor(x.prop) {
			continue
		}
		for _, l := range ev.locations(m.Fn) {
			switch l.kind {
			case "ghost", "comp":
				whole[l.comp] = true
			case "field":
				allowed[l.comp] = append(allowed[l.comp], l)
			case "map":
				h, v, n, _, _ := mapComps(l.mt)
				for _, cn := range []string{h, v, n} {
					allowed[cn] = append(allowed[cn], l)
				}
			case "slice":
				arrOK[l.arr.arr] = true
			}
		}
	}
	var names []string
	for n := range s.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := s.heap[n]
		t0, ok := x.entry.heap[n]
		if !ok {
			t0 = Const("H0:"+n, t.S)
		}
		if t == t0 || whole[n] {
			continue
		}
		if n == "G:$lock" && x.prop != "C14" {
			continue
		}
		if strings.HasPrefix(n, "ML:") {
			continue // lengths follow the contents
		}
		if strings.HasPrefix(n, "G:") && n != "G:$lock" {
			x.oblige(s, "frame", n, nil, Eq(t, t0))
			continue
		}
		r := Fresh("fr", SInt)
		conds := []*Term{Le(App("root", SInt, r), x.entry.top)}
		for _, l := range allowed[n] {
			conds = append(conds, Not(Eq(r, l.ref)))
		}
		x.oblige(s, "frame", n, nil, Imp(And(conds...), Eq(Select(t, r), Select(t0, r))))
	}
	for i, a := range args {
		if sv, ok := a.(*SliceV); ok && !arrOK[sv.arr] {
			if s.arrs[sv.arr].content != x.entry.arrs[sv.arr].content {
				x.oblige(s, "frame", fmt.Sprintf("argument %d", i), nil, Eq(s.arrs[sv.arr].content, x.entry.arrs[sv.arr].content))
			}
		}
	}
}
