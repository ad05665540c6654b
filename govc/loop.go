package main

// Loops: concrete unrolling, or a cut at the header with inferred modification
// sets and Houdini-checked invariants.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 40

func (x *Exec) enterLoop(fr *Frame, s *State, from, to *ssa.BasicBlock, k Cont) {
	x.phis(fr, s, from, to)
	x.loopHead(fr, s, to, 0, k)
}

func (x *Exec) loopHead(fr *Frame, s *State, to *ssa.BasicBlock, n int, k Cont) {
	key := loopKey{fr.id, to}
	if n < maxUnroll && x.concrete(fr, s, to) {
		s.loops[key] = func(s *State, from *ssa.BasicBlock) {
			x.phis(fr, s, from, to)
			x.loopHead(fr, s, to, n+1, k)
		}
		x.block(fr, s, to, 0, k)
		return
	}
	x.cutLoop(fr, s, to, k)
}

// concrete: the header's branch condition is a literal.
func (x *Exec) concrete(fr *Frame, s *State, to *ssa.BasicBlock) bool {
	for _, in := range to.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.If, *ssa.UnOp:
		case *ssa.Call:
			c := in.(*ssa.Call)
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c := s.clone()
	lit := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsup); !ok {
					panic(r)
				}
			}
		}()
		m := x.mode
		x.mode = MDry
		defer func() { x.mode = m }()
		for _, in := range to.Instrs[:len(to.Instrs)-1] {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Call:
				fv, args := x.callOperands(c, fr, &in.Call)
				x.call(fr, c, in, &in.Call, fv, args, nil, func(s *State, o Outcome) { x.bindResult(fr, s, in, o.vals) })
			default:
				x.instr(fr, c, in)
			}
		}
		t := x.tv(c, fr, iff.Cond)
		lit = t == True || t == False
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && t == True {
			// a bound known only from below is not worth unrolling
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if v, ok := x.val(c, fr, o).(*Term); ok && v.S == SInt && !v.isInt() {
					lit = false
				}
			}
		}
	}()
	return lit
}

type loopMod struct {
	cells map[int]bool
	arrs  map[int]bool
	iters map[int]bool // value: insertions happened
	comps map[string]*compMod
	mats  []int
	top   bool
	back  bool
}
type compMod struct {
	full  bool
	fresh bool // writes only to objects allocated in the loop (besides idx)
	idx   map[*Term]bool
}

func (m *loopMod) key() string {
	var l []string
	for c := range m.cells {
		l = append(l, fmt.Sprintf("c%d", c))
	}
	for c := range m.arrs {
		l = append(l, fmt.Sprintf("a%d", c))
	}
	for c, i := range m.iters {
		l = append(l, fmt.Sprintf("i%d%v", c, i))
	}
	for n, c := range m.comps {
		e := fmt.Sprintf("h%s:%v:%v", n, c.full, c.fresh)
		var is []string
		for t := range c.idx {
			is = append(is, fmt.Sprint(t.id))
		}
		sort.Strings(is)
		l = append(l, e+strings.Join(is, ","))
	}
	sort.Strings(l)
	return fmt.Sprint(l, m.top)
}

type cand struct {
	name string
	eval func(s *State) *Term
}

func (x *Exec) cutLoop(fr *Frame, s *State, to *ssa.BasicBlock, k Cont) {
	key := loopKey{fr.id, to}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	mod := &loopMod{cells: map[int]bool{}, arrs: map[int]bool{}, iters: map[int]bool{}, comps: map[string]*compMod{}}
	mode := x.mode
	noK := func(*State, Outcome) {}
	run := func(h *State, m Mode, back func(s *State)) {
		old := x.mode
		x.mode = m
		x.stops[key]++
		h.loops[key] = func(s *State, from *ssa.BasicBlock) {
			if s.dead {
				return
			}
			x.phis(fr, s, from, to)
			back(s)
		}
		defer func() {
			x.mode = old
			x.stops[key]--
		}()
		x.block(fr, h, to, 0, noK)
	}
	// 1. modification set
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("modification set of the loop in %s does not stabilise", fr.fn))
		}
		before := mod.key()
		h, mark := x.havocLoop(fr, s, to, phis, mod)
		h0 := h.clone()
		var mats []int
		x.mats = append(x.mats, &mats)
		run(h, MDry, func(b *State) {
			x.diffLoop(fr, s, h0, b, mod, mark)
		})
		x.mats = x.mats[:len(x.mats)-1]
		restart := false
		for _, c := range mats {
			if _, ok := s.cells[c]; ok {
				x.materialise(s, &PtrV{kind: PCell, cell: c})
				restart = true
			}
		}
		if !restart && mod.key() == before {
			// the candidate invariants can give local variables an address, too
			n := len(s.matref)
			for _, c := range x.candidates(fr, s, to, phis, mod) {
				x.evalCand(s, c)
			}
			if len(s.matref) == n {
				break
			}
		}
	}
	x.nloops++
	nmat := len(s.matref)
	defer func() {
		if len(s.matref) != nmat {
			panic(fmt.Sprintf("internal error: address taken after the modification set of the loop in %s was computed", fr.fn))
		}
	}()
	if mode == MDry {
		h, _ := x.havocLoop(fr, s, to, phis, mod)
		h.loops[key] = func(*State, *ssa.BasicBlock) {}
		x.block(fr, h, to, 0, k)
		return
	}
	// 2. candidates
	ck := x.loopCacheKey(fr, to)
	cands := x.candidates(fr, s, to, phis, mod)
	if only, ok := x.loopCache[ck]; ok && x.inLoop > 0 {
		var l []cand
		for _, c := range cands {
			if only[c.name] {
				l = append(l, c)
			}
		}
		cands = l
	}
	ms := x.w.houMs
	var live []cand
	var initC []cand
	var initT []*Term
	for _, c := range cands {
		if t, ok := x.evalCand(s, c); ok {
			initC = append(initC, c)
			initT = append(initT, s.simp(t))
		}
	}
	for i, ok := range x.proveMany(x.pcOf(s), initT, ms) {
		if ok {
			live = append(live, initC[i])
		} else if os.Getenv("GOVC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %s b%d: init drops %s: %s\n", fr.fn.Name(), to.Index, initC[i].name, initT[i])
		}
	}
	// 3. Houdini
	var h *State
	for round := 0; ; round++ {
		h, _ = x.havocLoop(fr, s, to, phis, mod)
		for _, c := range live {
			if t, ok := x.evalCand(h, c); ok {
				h.assume(t)
			}
		}
		if len(h.matref) != nmat {
			panic(fmt.Sprintf("internal error: address taken at the head of the loop in %s", fr.fn))
		}
		if len(live) == 0 {
			break
		}
		dropped := map[string]bool{}
		x.inLoop++
		alive := false
		vac := os.Getenv("GOVC_VAC") != ""
		run(h.clone(), MHoudini, func(b *State) {
			if vac && !alive && !x.w.solver.Prove(x.pcOf(b), False, ms, false).Proved {
				alive = true
			}
			type pend struct {
				c cand
				t *Term
			}
			var ps []pend
			var all []*Term
			for _, c := range live {
				if dropped[c.name] {
					continue
				}
				t, ok := x.evalCand(b, c)
				if !ok {
					dropped[c.name] = true
					continue
				}
				if t = b.simp(t); t == True {
					continue
				}
				ps = append(ps, pend{c, t})
				all = append(all, t)
			}
			if len(ps) == 0 {
				return
			}
			x.houQ++
			if len(ps) > 1 && x.w.solver.Prove(x.pcOf(b), And(all...), ms, false).Proved {
				return
			}
			oks := []bool{false}
			if len(ps) > 1 {
				var ts []*Term
				for _, p := range ps {
					ts = append(ts, p.t)
				}
				oks = x.proveMany(x.pcOf(b), ts, 2*ms)
			} else {
				x.houQ++
				oks[0] = x.w.solver.Prove(x.pcOf(b), ps[0].t, 2*ms, false).Proved
			}
			for i, p := range ps {
				if !oks[i] {
					dropped[p.c.name] = true
					if d := os.Getenv("GOVC_DROPS"); d != "" {
						dropCtr++
						os.WriteFile(fmt.Sprintf("%s/%03d.smt2", d, dropCtr), []byte("; "+p.c.name+" "+fr.fn.Name()+"\n"+buildScript(x.pcOf(b), p.t)), 0644)
					}
					if os.Getenv("GOVC_LOOP") != "" {
						fmt.Fprintf(os.Stderr, "loop %s b%d: round %d drops %s: %s\n", fr.fn.Name(), to.Index, round, p.c.name, p.t)
					}
				}
			}
		})
		x.inLoop--
		if vac && !alive {
			fmt.Fprintf(os.Stderr, "VACUOUS: the body of loop %s b%d never completes\n", fr.fn.Name(), to.Index)
		}
		if len(dropped) == 0 {
			break
		}
		var l []cand
		for _, c := range live {
			if !dropped[c.name] {
				l = append(l, c)
			}
		}
		live = l
	}
	set := map[string]bool{}
	var names []string
	for _, c := range live {
		set[c.name] = true
		names = append(names, c.name)
	}
	x.loopCache[ck] = set
	if mode == MFinal {
		sort.Strings(names)
		x.loopInv[fmt.Sprintf("%s b%d", fr.fn, to.Index)] = names
		x.invOK += 2 * len(names)
	}
	// 4. final pass
	h.loops[key] = func(*State, *ssa.BasicBlock) {}
	h.trace = append(h.trace, "loop "+fr.fn.Name())
	x.block(fr, h, to, 0, k)
}

var dropCtr int

// proveMany decides several goals under the same assumptions, in parallel.
func (x *Exec) proveMany(pc []*Term, goals []*Term, ms int) []bool {
	out := make([]bool, len(goals))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, g := range goals {
		i, g := i, g
		out[i] = g == True
		for _, a := range pc {
			if a == False || a == g {
				out[i] = true
			}
		}
		if out[i] {
			continue
		}
		x.houQ++
		scr := buildScript(pc, g)
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			out[i] = x.w.solver.ProveScript(scr, ms, false).Proved
		}()
	}
	wg.Wait()
	return out
}

func (x *Exec) loopCacheKey(fr *Frame, b *ssa.BasicBlock) string {
	r := ""
	for f := fr; f != nil; f = f.parent {
		r += f.fn.String() + "/"
	}
	return fmt.Sprintf("%s b%d", r, b.Index)
}

func (x *Exec) evalCand(s *State, c cand) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsup); is {
				if os.Getenv("GOVC_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "candidate %s: %s\n", c.name, u.msg)
				}
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return c.eval(s), true
}

// havocLoop: an arbitrary state at the loop header.
func (x *Exec) havocLoop(fr *Frame, s *State, to *ssa.BasicBlock, phis []*ssa.Phi, mod *loopMod) (*State, int) {
	mark := termCount
	h := s.clone()
	if mod.top {
		nt := Fresh("top", SInt)
		h.assume(Le(s.top, nt))
		h.top = nt
	}
	for _, p := range phis {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		h.env[fr.id][p] = x.symbolic(h, "phi:"+n, p.Type())
	}
	for _, c := range sortedInts(mod.cells) {
		if _, ok := h.matref[c]; ok {
			continue // lives in the heap since
		}
		h.cells[c] = x.symbolicDeep(h, "cell", x.cellT[c])
	}
	for _, a := range sortedInts(mod.arrs) {
		o := h.arrs[a]
		n := Fresh("arr", o.content.S)
		h.assume(Eq(App("seq.len", SInt, n), Len(o.content)))
		o.content = n
		h.arrs[a] = o
	}
	var cs []string
	for c := range mod.comps {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		m := mod.comps[c]
		base := h.heap[c]
		switch {
		case m.full:
			h.heap[c] = Fresh("hv:"+c, base.S)
		case m.fresh:
			n := Fresh("hv:"+c, base.S)
			r := FreshVar("r", SInt)
			h.assume(Forall([]*Term{r}, Imp(Le(App("root", SInt, r), s.top), Eq(Select(n, r), Select(x.idxHavoc(base, m, nil), r))), []*Term{Select(n, r)}))
			b2 := n
			for _, i := range sortedTerms(m.idx) {
				b2 = Store(b2, i, Fresh("hv:"+c, base.S.Elem))
			}
			h.heap[c] = b2
		default:
			b2 := base
			for _, i := range sortedTerms(m.idx) {
				b2 = Store(b2, i, Fresh("hv:"+c, base.S.Elem))
			}
			h.heap[c] = b2
		}
		x.compRange(h, c, m)
	}
	for _, id := range sortedInts(mod.iters) {
		ins := mod.iters[id]
		it := h.iters[id]
		it.visited = Fresh("visited", it.visited.S)
		it.k = nil
		it.inserted = it.inserted || ins
		if !it.inserted {
			kv := FreshVar("k", sortOf(it.mt.Key()))
			h.assume(Forall([]*Term{kv}, Imp(Select(it.visited, kv), Select(it.has0, kv)), []*Term{Select(it.visited, kv)}))
		}
		h.iters[id] = it
	}
	// values defined in the loop are stale
	for v := range h.env[fr.id] {
		if in, ok := v.(ssa.Instruction); ok && fr.info.headers[to][in.Block()] {
			if p, isPhi := v.(*ssa.Phi); isPhi && p.Block() == to {
				continue
			}
			delete(h.env[fr.id], v)
		}
	}
	return h, mark
}

func (x *Exec) idxHavoc(base *Term, m *compMod, _ *State) *Term { return base }

// compRange: havoced pointwise values keep their machine range (read facts add it lazily).
func (x *Exec) compRange(h *State, c string, m *compMod) {}

func (x *Exec) symbolicDeep(s *State, name string, t types.Type) Val {
	if u := structOf(t); u != nil {
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = x.symbolicDeep(s, name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return &StructV{t, fs}
	}
	return x.symbolic(s, name, t)
}

func sortedIters(s *State) []int {
	var l []int
	for k := range s.iters {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}
func sortedInts(m map[int]bool) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}
func sortedTerms(m map[*Term]bool) []*Term {
	var l []*Term
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// diffLoop records what changed between the loop head h and the back edge b.
func (x *Exec) diffLoop(fr *Frame, s, h, b *State, mod *loopMod, mark int) {
	for c, v := range h.cells {
		if w, ok := b.cells[c]; !ok || !sameVal(v, w) {
			if ok {
				mod.cells[c] = true
			}
		}
	}
	for a, v := range h.arrs {
		if w := b.arrs[a]; w.content != v.content {
			mod.arrs[a] = true
		} else if w.extended != v.extended {
			o := s.arrs[a]
			o.extended = true
			s.arrs[a] = o
		}
	}
	for id, v := range h.iters {
		w, ok := b.iters[id]
		if ok && (w.visited != v.visited || w.inserted != v.inserted) {
			mod.iters[id] = mod.iters[id] || w.inserted
		}
	}
	if b.top != h.top {
		mod.top = true
	}
	if len(b.defers[fr.id]) != len(h.defers[fr.id]) {
		panic(unsupported("defer in a loop in %s", fr.fn))
	}
	var bcs []string
	for c := range b.heap {
		bcs = append(bcs, c)
	}
	sort.Strings(bcs)
	for _, c := range bcs {
		w := b.heap[c]
		v, ok := h.heap[c]
		if !ok {
			v = Const("H0:"+c, w.S)
			if v == w {
				continue
			}
			s.heap[c] = v
		}
		if v == w {
			continue
		}
		m := mod.comps[c]
		if m == nil {
			m = &compMod{idx: map[*Term]bool{}}
			mod.comps[c] = m
		}
		if m.full {
			continue
		}
		x.diffComp(s, h, b, v, w, m, mark)
	}
}

func (x *Exec) diffComp(s, h, b *State, v, w *Term, m *compMod, mark int) {
	if w == v {
		return
	}
	switch {
	case w.Op == "store":
		i := w.Args[1]
		if m.idx[i] {
		} else if x.invariantTerm(i, mark) {
			m.idx[i] = true
			if len(m.idx) > 24 {
				m.full = true
				return
			}
		} else {
			rt := i
			for {
				if r, ok := knownNegative(rt); ok && r != nil {
					rt = rt.Args[0]
					continue
				}
				break
			}
			g := b.simp(Lt(s.top, rt))
			if g == True || x.w.solver.Prove(x.pcOf(b), g, 300, false).Proved {
				m.fresh = true
			} else {
				m.full = true
				return
			}
		}
		x.diffComp(s, h, b, v, w.Args[0], m, mark)
	case w.Op == "ite":
		x.diffComp(s, h, b, v, w.Args[1], m, mark)
		x.diffComp(s, h, b, v, w.Args[2], m, mark)
	case v.Op == "store":
		// the head value was itself written at v's indices
		x.diffComp(s, h, b, v.Args[0], w, m, mark)
		m.idx[v.Args[1]] = true
	default:
		m.full = true
	}
}

// invariantTerm: built only from constants that existed before the loop head was created.
func (x *Exec) invariantTerm(t *Term, mark int) bool {
	memo := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if v, ok := memo[t]; ok {
			return v
		}
		r := true
		if t.Op == "const" && t.id > mark && !(strings.HasPrefix(t.Name, "H0:") || strings.HasPrefix(t.Name, "globptr:") || strings.HasPrefix(t.Name, "fn:")) {
			r = false
		}
		if t.bound {
			r = false
		}
		for _, a := range t.Args {
			if !r {
				break
			}
			r = walk(a)
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch p := a.(type) {
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.fs) != len(q.fs) {
			return false
		}
		for i := range p.fs {
			if !sameVal(p.fs[i], q.fs[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		q, ok := b.(*SliceV)
		return ok && p.arr == q.arr && p.off == q.off && p.len == q.len
	case *CloV:
		q, ok := b.(*CloV)
		if !ok || p.fn != q.fn || len(p.binds) != len(q.binds) {
			return false
		}
		for i := range p.binds {
			if !sameVal(p.binds[i], q.binds[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		q, ok := b.(*PtrV)
		return ok && p.kind == q.kind && p.cell == q.cell && fmt.Sprint(p.path) == fmt.Sprint(q.path) && p.ref == q.ref && p.fld == q.fld && p.arr == q.arr && p.idx == q.idx && p.glob == q.glob && p.seq == q.seq
	}
	return false
}

// ---- candidate invariants

type roleSrc struct {
	name  string
	t     types.Type
	get   func(s *State) Val
	prio  int
	set   bool
	alias string // name in the source
}

func (x *Exec) candidates(fr *Frame, s *State, to *ssa.BasicBlock, phis []*ssa.Phi, mod *loopMod) []cand {
	var out []cand
	body := fr.info.headers[to]
	// automatic
	for _, p := range phis {
		p := p
		e := s.env[fr.id][p]
		et, isT := e.(*Term)
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		get := func(s *State) *Term { return x.term(s, s.env[fr.id][p]) }
		if isT {
			out = append(out, cand{nm + "=entry", func(s *State) *Term { return Eq(get(s), et) }})
		} else if sv, ok := e.(*SliceV); ok {
			ct := x.content(s, sv)
			out = append(out, cand{nm + "=entry", func(s *State) *Term { return Eq(get(s), ct) }})
		}
		if isT && et.S == SInt && et.isInt() {
			out = append(out, cand{nm + ">=entry", func(s *State) *Term { return Le(et, get(s)) }})
		}
		// bound from the header comparison
		if iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				var off int64 = -1
				if bo.X == p {
					off = 0
				} else if add, ok := bo.X.(*ssa.BinOp); ok && add.X == p {
					off = 1
				}
				if off >= 0 {
					op := bo.Op.String()
					y := bo.Y
					if op == "<" || op == "<=" {
						out = append(out, cand{nm + "<=bound", func(s *State) *Term {
							yv := x.headVal(fr, s, y)
							if yv == nil {
								return False
							}
							n := yv
							if op == "<=" {
								n = Add(n, Int(1))
							}
							return Le(Add(get(s), Int(off)), n)
						}})
					}
				}
			}
		}
	}
	for cr, c := range sortedInts(mod.cells) {
		c, cr := c, cr+1
		e := s.cells[c]
		if et, ok := e.(*Term); ok {
			out = append(out, cand{fmt.Sprintf("cell#%d=entry", cr), func(s *State) *Term { return Eq(x.term(s, s.cells[c]), et) }})
		}
		if so := sortOf(x.cellT[c]); so.Kind == KData && e != nil {
			e0 := func() (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsup); !ok {
							panic(r)
						}
					}
				}()
				return x.term(s, e)
			}()
			for f := range so.Fields {
				f := f
				if e0 != nil {
					v := Sel(e0, f)
					out = append(out, cand{fmt.Sprintf("cell#%d.%d=entry", cr, f), func(s *State) *Term { return Eq(Sel(x.term(s, s.cells[c]), f), v) }})
				}
			}
		}
	}
	var mcs []string
	for c := range mod.comps {
		mcs = append(mcs, c)
	}
	sort.Strings(mcs)
	for _, c := range mcs {
		c, m := c, mod.comps[c]
		base, ok := s.heap[c]
		if !ok {
			continue
		}
		if m.full || m.fresh {
			if c == "G:$lock" {
				out = append(out, cand{"locks unchanged", func(s *State) *Term {
					r := FreshVar("l", SInt)
					sl := Select(x.comp(s, c, base.S), r)
					return Forall([]*Term{r}, Eq(sl, Select(base, r)), []*Term{sl})
				}})
			} else if m.full && base.S.Kind == KArr && base.S.Key == SInt {
				top := s.top
				out = append(out, cand{"older unchanged: " + c, func(s *State) *Term {
					r := FreshVar("r", SInt)
					sl := Select(x.comp(s, c, base.S), r)
					return Forall([]*Term{r}, Imp(Le(App("root", SInt, r), top), Eq(sl, Select(base, r))), []*Term{sl})
				}})
				if x.entry != nil && x.entry.top != top {
					etop := x.entry.top
					out = append(out, cand{"objects of the caller unchanged: " + c, func(s *State) *Term {
						r := FreshVar("r", SInt)
						sl := Select(x.comp(s, c, base.S), r)
						return Forall([]*Term{r}, Imp(Le(App("root", SInt, r), etop), Eq(sl, Select(base, r))), []*Term{sl})
					}})
				}
			}
			continue
		}
		for _, i := range sortedTerms(m.idx) {
			i := i
			bv := Select(base, i)
			out = append(out, cand{fmt.Sprintf("%s[%d]=entry", c, i.id), func(s *State) *Term { return Eq(Select(s.heap[c], i), bv) }})
		}
	}
	// templates
	type tmpl struct {
		iv   *InvT
		ct   *Contract
		args []Val
	}
	var ts []tmpl
	seenC := map[*Contract]bool{}
	if x.c != nil {
		for _, iv := range x.c.Invs {
			ts = append(ts, tmpl{iv, x.c, x.args})
		}
		seenC[x.c] = true
	}
	for f := fr; f != nil; f = f.parent {
		if ct := x.w.contracts[baseName(f.fn)]; ct != nil && !seenC[ct] {
			seenC[ct] = true
			for _, iv := range ct.Invs {
				ts = append(ts, tmpl{iv, ct, f.params})
			}
		}
	}
	if len(ts) == 0 {
		return out
	}
	var srcs []roleSrc
	for _, p := range phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		srcs = append(srcs, roleSrc{nm, p.Type(), func(s *State) Val { return s.env[fr.id][p] }, 0, false, ""})
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			srcs = append(srcs, roleSrc{nm + "+1", p.Type(), func(s *State) Val { return Add(x.term(s, s.env[fr.id][p]), Int(1)) }, 0, false, ""})
		}
	}
	for cr, c := range sortedInts(mod.cells) {
		c, cr := c, cr+1
		srcs = append(srcs, roleSrc{fmt.Sprintf("cell#%d", cr), x.cellT[c], func(s *State) Val {
			if v, ok := s.cells[c]; ok {
				return v
			}
			return x.load(s, &PtrV{kind: PCell, cell: c}, x.cellT[c])
		}, 0, false, x.cellName[c]})
		if b, ok := x.cellT[c].Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			srcs = append(srcs, roleSrc{fmt.Sprintf("cell#%d+1", cr), x.cellT[c], func(s *State) Val { return Add(x.term(s, s.cells[c]), Int(1)) }, 0, false, ""})
		}
	}
	var its []int
	for id := range s.iters {
		its = append(its, id)
	}
	sort.Ints(its)
	for rk, id := range its {
		id, rk := id, rk+1
		it := s.iters[id]
		srcs = append(srcs, roleSrc{fmt.Sprintf("visited%d", rk), x.w.setType(it.mt.Key()), func(s *State) Val {
			i, ok := s.iters[id]
			if !ok {
				panic(unsupported("iterator gone"))
			}
			return &MapV{has: i.visited, val: i.visited, t: types.NewMap(it.mt.Key(), types.Typ[types.Bool])}
		}, 0, true, ""})
		if it.k != nil {
			srcs = append(srcs, roleSrc{fmt.Sprintf("key%d", rk), it.mt.Key(), func(s *State) Val {
				i, ok := s.iters[id]
				if !ok || i.k == nil {
					panic(unsupported("iterator gone"))
				}
				return i.k
			}, 0, false, ""})
		}
	}
	// values defined outside and used inside
	seen := map[ssa.Value]bool{}
	var ext []ssa.Value
	var order []*ssa.BasicBlock
	for b := range body {
		order = append(order, b)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Index < order[j].Index })
	for _, b := range order {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if i, ok := v.(ssa.Instruction); ok && body[i.Block()] {
					continue
				}
				if _, ok := s.env[fr.id][v]; !ok {
					continue
				}
				ext = append(ext, v)
			}
		}
	}
	for _, v := range ext {
		v := v
		al := v.Name()
		if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
			al = p.Comment
		}
		srcs = append(srcs, roleSrc{v.Name(), v.Type(), func(s *State) Val { return s.env[fr.id][v] }, 1, false, al})
		// the content of a local variable
		if p, ok := s.env[fr.id][v].(*PtrV); ok && p.kind == PCell && len(p.path) == 0 {
			if !mod.cells[p.cell] {
				srcs = append(srcs, roleSrc{"*" + v.Name(), x.cellT[p.cell], func(s *State) Val { return x.load(s, p, x.cellT[p.cell]) }, 1, false, x.cellName[p.cell]})
			}
		}
	}
	// the indexes of enclosing loops
	for d := to.Idom(); d != nil; d = d.Idom() {
		if !reaches(to, d) {
			continue
		}
		for _, in := range d.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			b, isB := p.Type().Underlying().(*types.Basic)
			if _, ok := s.env[fr.id][p].(*Term); !ok || seen[p] || !isB || b.Info()&types.IsInteger == 0 {
				continue
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			srcs = append(srcs, roleSrc{"outer " + nm + " " + p.Name(), p.Type(), func(s *State) Val { return s.env[fr.id][p] }, 1, false, nm})
			srcs = append(srcs, roleSrc{"outer " + nm + "+1 " + p.Name(), p.Type(), func(s *State) Val { return Add(x.term(s, s.env[fr.id][p]), Int(1)) }, 1, false, ""})
		}
	}
	for ti, t := range ts {
		t := t
		if !t.iv.activeFor(x.prop) {
			continue
		}
		lists := make([][]roleSrc, len(t.iv.Roles))
		ok := true
		for i, r := range t.iv.Roles {
			for _, sr := range srcs {
				if kt, ok := isSetRole(r.Type()); ok {
					if sr.set && types.Identical(types.NewMap(kt, types.Typ[types.Bool]), sr.t) {
						lists[i] = append(lists[i], sr)
					}
					continue
				}
				if sr.set {
					continue
				}
				if types.Identical(r.Type(), sr.t) {
					lists[i] = append(lists[i], sr)
				}
			}
			if len(lists[i]) == 0 {
				ok = false
			}
			if !x.allRoles {
				// variables of the role's name come first
				pref := func(names ...string) bool {
					var l []roleSrc
					for _, n := range names {
						for _, sr := range lists[i] {
							if sr.name == n || sr.alias == n {
								l = append(l, sr)
							}
						}
						if len(l) > 0 {
							break
						}
					}
					if len(l) > 0 && len(l) < len(lists[i]) {
						lists[i] = l
						x.rolesCut = true
					}
					return len(l) > 0
				}
				if b, isB := r.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
					pref(r.Name(), "rangeindex+1")
				} else {
					pref(r.Name())
				}
			}
		}
		if !ok {
			continue
		}
		n := 0
		var rec func(i int, cur []roleSrc)
		rec = func(i int, cur []roleSrc) {
			if n > 200 {
				return
			}
			if i == len(lists) {
				n++
				roles := append([]roleSrc{}, cur...)
				nm := fmt.Sprintf("%s:%d(", t.ct.File, t.iv.Line)
				_ = ti
				for j, r := range roles {
					if j > 0 {
						nm += ","
					}
					nm += r.name
				}
				out = append(out, cand{nm + ")", func(s *State) *Term {
					ev := x.newEv(s, t.ct, t.args)
					ev.old = x.entry
					var ex []Val
					for _, r := range roles {
						ex = append(ex, r.get(s))
					}
					return ev.boolFn(t.iv.Fn, ex...)
				}})
				return
			}
			for _, sr := range lists[i] {
				dup := false
				for _, c := range cur {
					if c.name == sr.name {
						dup = true
					}
				}
				if !dup {
					rec(i+1, append(cur, sr))
				}
			}
		}
		rec(0, nil)
	}
	return out
}

// headVal: the value an operand of the header comparison has at the loop head.
func (x *Exec) headVal(fr *Frame, s *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return x.term(s, x.constVal(v))
	}
	if r, ok := s.env[fr.id][v]; ok {
		return x.term(s, r)
	}
	// recomputed in the header: len(x) or a load
	switch in := v.(type) {
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if r, ok := s.env[fr.id][in.Call.Args[0]]; ok {
				if t, ok := r.(*SliceV); ok {
					return t.len
				}
				if t, ok := r.(*Term); ok && t.S.Kind == KSeq {
					return Len(t)
				}
			}
		}
	case *ssa.UnOp:
		if in.Op.String() == "*" {
			if p, ok := s.env[fr.id][in.X]; ok {
				return x.term(s, x.load(s, p, derefT(in.X.Type())))
			}
		}
	case *ssa.BinOp:
		a, b := x.headVal(fr, s, in.X), x.headVal(fr, s, in.Y)
		if a != nil && b != nil && a.S == SInt {
			switch in.Op.String() {
			case "+":
				return Add(a, b)
			case "-":
				return Sub(a, b)
			}
		}
	}
	return nil
}

// reaches tells whether some path leads from block a to block b.
func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		for _, n := range c.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				work = append(work, n)
			}
		}
	}
	return false
}
