package main

// SMT-LIB emission, background axioms and the solver pool.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// extraAxioms maps an uninterpreted function name to facts assumed about it
// whenever it occurs. Every entry is a listed assumption (see evidence).
type axiomDef struct {
	name string
	gen  func() []*Term
}

var extraAxioms = map[string][]*Term{}
var axiomNames = map[*Term]string{}

// unfolders instantiate the definition of recursive spec functions on ground applications.
var unfolders = map[string]func(t *Term) []*Term{}

type scriptBuilder struct {
	sorts     []*Sort
	sseen     map[*Sort]bool
	funs      []string
	fseen     map[string]bool
	fdecl     map[string]*Term // representative application
	lits      []*Term
	seen      map[*Term]bool
	ground    []*Term // ground applications with unfolders
	patDefs   map[*Term]string
	pendingAx []*Term
}

func (b *scriptBuilder) sort(s *Sort) {
	if b.sseen[s] {
		return
	}
	b.sseen[s] = true
	if s.Key != nil {
		b.sort(s.Key)
	}
	if s.Elem != nil {
		b.sort(s.Elem)
	}
	for _, f := range s.Fields {
		b.sort(f)
	}
	b.sorts = append(b.sorts, s)
}

func funKey(t *Term) string {
	n := t.Name
	if strings.HasPrefix(n, "seq.") {
		s := t.S
		switch n {
		case "seq.len", "seq.nth", "seq.mem", "seq.midx", "seq.diff":
			s = t.Args[0].S
		}
		return n + ":" + s.Name
	}
	return n
}

func (b *scriptBuilder) visit(t *Term) {
	if b.seen[t] {
		return
	}
	b.seen[t] = true
	b.sort(t.S)
	for _, a := range t.Args {
		b.visit(a)
	}
	for _, v := range t.Vars {
		b.sort(v.S)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			b.visit(x)
		}
	}
	switch t.Op {
	case "const":
		k := "c " + t.Name
		if !b.fseen[k] {
			b.fseen[k] = true
			b.funs = append(b.funs, fmt.Sprintf("(declare-fun %s () %s)", smtSym(t.Name), t.S.SMT()))
		}
	case "str":
		b.lits = append(b.lits, t)
	case "app":
		k := funKey(t)
		if !b.fseen[k] {
			b.fseen[k] = true
			b.fdecl[k] = t
			if !strings.HasPrefix(t.Name, "seq.") {
				var as []string
				for _, a := range t.Args {
					as = append(as, a.S.SMT())
				}
				b.funs = append(b.funs, fmt.Sprintf("(declare-fun %s (%s) %s)", smtSym(k), strings.Join(as, " "), t.S.SMT()))
			}
			for _, ax := range extraAxioms[t.Name] {
				b.pendingAx = append(b.pendingAx, ax)
			}
		}
		if !t.bound {
			if _, ok := unfolders[t.Name]; ok {
				b.ground = append(b.ground, t)
			}
		}
	}
}

func (b *scriptBuilder) expr(t *Term, defs map[*Term]string) string {
	if n, ok := defs[t]; ok {
		return n
	}
	args := func() string {
		var ps []string
		for _, a := range t.Args {
			ps = append(ps, b.expr(a, defs))
		}
		return strings.Join(ps, " ")
	}
	switch t.Op {
	case "const", "var":
		return smtSym(t.Name)
	case "int":
		return intSMT(t.N)
	case "rlit":
		return t.Name
	case "str":
		return litSym(t.Name)
	case "true", "false":
		return t.Op
	case "not", "and", "or", "ite", "select", "store":
		return "(" + t.Op + " " + args() + ")"
	case "=":
		return "(= " + args() + ")"
	case "le":
		// print as  pos <= neg
		as, cs, n := linParts(t.Args[0])
		var l, r []string
		for i, a := range as {
			if cs[i].Sign() > 0 {
				l = append(l, coefSMT(cs[i], b.expr(a, defs)))
			} else {
				r = append(r, coefSMT(new(big.Int).Neg(cs[i]), b.expr(a, defs)))
			}
		}
		if n.Sign() > 0 {
			l = append(l, n.String())
		} else if n.Sign() < 0 {
			r = append(r, new(big.Int).Neg(n).String())
		}
		return "(<= " + sumSMT(l) + " " + sumSMT(r) + ")"
	case "lin":
		var l []string
		for i, a := range t.Args {
			l = append(l, coefSMT(t.Cs[i], b.expr(a, defs)))
		}
		if t.N.Sign() != 0 {
			l = append(l, intSMT(t.N))
		}
		return sumSMT(l)
	case "mul":
		return "(* " + args() + ")"
	case "rlt":
		return "(< " + args() + ")"
	case "rle":
		return "(<= " + args() + ")"
	case "constarr":
		return "((as const " + t.S.SMT() + ") " + args() + ")"
	case "mk":
		if len(t.Args) == 0 {
			return smtSym("mk_" + t.S.Name)
		}
		return "(" + smtSym("mk_"+t.S.Name) + " " + args() + ")"
	case "sel":
		return "(" + selSym(t.Args[0].S, t.Idx) + " " + args() + ")"
	case "forall", "exists":
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, "("+smtSym(v.Name)+" "+v.S.SMT()+")")
		}
		body := b.expr(t.Args[0], defs)
		if len(t.Pats) > 0 {
			body = "(! " + body
			for _, p := range t.Pats {
				var xs []string
				for _, x := range p {
					xs = append(xs, b.expr(x, b.patDefs))
				}
				body += " :pattern (" + strings.Join(xs, " ") + ")"
			}
			body += ")"
		}
		return "(" + t.Op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	case "app":
		k := smtSym(funKey(t))
		if len(t.Args) == 0 {
			return k
		}
		return "(" + k + " " + args() + ")"
	}
	panic("smt op " + t.Op)
}

func intSMT(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func coefSMT(c *big.Int, e string) string {
	if c.Cmp(big.NewInt(1)) == 0 {
		return e
	}
	return "(* " + intSMT(c) + " " + e + ")"
}
func sumSMT(l []string) string {
	if len(l) == 0 {
		return "0"
	}
	if len(l) == 1 {
		return l[0]
	}
	return "(+ " + strings.Join(l, " ") + ")"
}
func selSym(s *Sort, i int) string { return smtSym(fmt.Sprintf("%s.%d.%s", s.Name, i, s.FNames[i])) }

var litIDs = map[string]int{}
var litMu sync.Mutex

func litSym(s string) string {
	litMu.Lock()
	defer litMu.Unlock()
	id, ok := litIDs[s]
	if !ok {
		id = len(litIDs)
		litIDs[s] = id
	}
	return fmt.Sprintf("lit_%d", id)
}

var buildMu sync.Mutex

// skolemizer names the witnesses of negated quantifiers, so that recursive
// definitions and extensionality are instantiated for them.
type skolemizer struct{ n int }

// pos: t as an assertion; neg: the negation of t as an assertion.
func (k *skolemizer) pos(t *Term) *Term {
	switch t.Op {
	case "not":
		return k.neg(t.Args[0])
	case "and", "or":
		as := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			as[i] = k.pos(a)
			same = same && as[i] == a
		}
		if same {
			return t
		}
		if t.Op == "and" {
			return And(as...)
		}
		return Or(as...)
	}
	return t
}
func (k *skolemizer) neg(t *Term) *Term {
	switch t.Op {
	case "not":
		return k.pos(t.Args[0])
	case "and", "or":
		as := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			as[i] = k.neg(a)
			same = same && as[i] == Not(a)
		}
		if same {
			return Not(t)
		}
		if t.Op == "and" {
			return Or(as...)
		}
		return And(as...)
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range t.Vars {
			k.n++
			m[v] = Const(fmt.Sprintf("sk!%d", k.n), v.S)
		}
		return k.neg(Subst(t.Args[0], m))
	}
	return Not(t)
}

func buildScript(assume []*Term, goal *Term) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	b := &scriptBuilder{sseen: map[*Sort]bool{}, fseen: map[string]bool{}, fdecl: map[string]*Term{}, seen: map[*Term]bool{}}
	var asserts []*Term
	sk := &skolemizer{}
	for _, t := range assume {
		asserts = append(asserts, sk.pos(t))
	}
	asserts = append(asserts, sk.neg(goal))
	for _, t := range asserts {
		b.visit(t)
	}
	// unfold recursive definitions (bounded depth of ground instantiation), add library axioms
	unfolded := map[*Term]bool{}
	axAdded := map[*Term]bool{}
	for round := 0; round < 12; round++ {
		g := b.ground
		b.ground = nil
		var add []*Term
		for _, t := range g {
			if !unfolded[t] && (round < 3 || onLiteralSeq(t)) {
				unfolded[t] = true
				add = append(add, unfolders[t.Name](t)...)
			}
		}
		for len(b.pendingAx) > 0 {
			p := b.pendingAx
			b.pendingAx = nil
			for _, ax := range p {
				if !axAdded[ax] {
					axAdded[ax] = true
					add = append(add, ax)
					b.visit(ax)
				}
			}
		}
		for _, t := range add {
			b.visit(t)
		}
		asserts = append(asserts, add...)
	}
	for len(b.pendingAx) > 0 {
		p := b.pendingAx
		b.pendingAx = nil
		for _, ax := range p {
			if !axAdded[ax] {
				axAdded[ax] = true
				asserts = append(asserts, ax)
				b.visit(ax)
			}
		}
	}
	// extensionality instances for sequence equalities
	var ext []*Term
	for t := range b.seen {
		if t.Op == "=" && t.Args[0].S.Kind == KSeq && !t.bound {
			ext = append(ext, t)
		}
	}
	sort.Slice(ext, func(i, j int) bool { return ext[i].id < ext[j].id })
	for _, t := range ext {
		x, y := t.Args[0], t.Args[1]
		d := App("seq.diff", SInt, x, y)
		asserts = append(asserts, Or(t, Not(Eq(Len(x), Len(y))),
			And(Le(Int(0), d), Lt(d, Len(x)), Not(Eq(App("seq.nth", x.S.Elem, x, d), App("seq.nth", y.S.Elem, y, d))))))
	}
	for _, t := range asserts {
		b.visit(t)
	}
	// ground sequences below quantifiers are known to the solver from the start
	var gseq []*Term
	gseen := map[*Term]bool{}
	var under func(t *Term, q bool)
	type uk struct {
		t *Term
		q bool
	}
	useen := map[uk]bool{}
	under = func(t *Term, q bool) {
		if useen[uk{t, q}] {
			return
		}
		useen[uk{t, q}] = true
		if q && !t.bound && t.Op == "app" && t.S.Kind == KSeq && strings.HasPrefix(t.Name, "seq.") && len(t.Args) > 0 && !gseen[t] {
			gseen[t] = true
			gseq = append(gseq, t)
		}
		for _, a := range t.Args {
			under(a, q || t.Op == "forall")
		}
	}
	for _, t := range asserts {
		under(t, false)
	}
	for _, t := range gseq {
		n := intern(&Term{Op: "app", Name: "seq.len", S: SInt, Args: []*Term{t}})
		f := intern(&Term{Op: "le", S: SBool, Args: []*Term{linScale(n, big.NewInt(-1))}})
		b.visit(f)
		asserts = append(asserts, f)
	}
	var o strings.Builder
	o.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	// sorts
	var datas []*Sort
	for _, s := range b.sorts {
		switch s.Kind {
		case KAny, KSeq, KOther:
			fmt.Fprintf(&o, "(declare-sort %s 0)\n", s.SMT())
		case KData:
			datas = append(datas, s)
		}
	}
	for _, s := range datas { // already in dependency order (no recursion except through Int / Seq)
		fmt.Fprintf(&o, "(declare-datatypes ((%s 0)) (((%s", s.SMT(), smtSym("mk_"+s.Name))
		for i, f := range s.Fields {
			fmt.Fprintf(&o, " (%s %s)", selSym(s, i), f.SMT())
		}
		o.WriteString("))))\n")
	}
	if b.fseen["ext:strings.Index"] {
		for _, f := range []string{"sub", "nth", "len"} {
			b.fseen["seq."+f+":Str"] = true
		}
		b.sort(SStr)
	}
	if b.fseen["ext:strings.Split"] {
		for _, f := range []string{"nth", "len"} {
			b.fseen["seq."+f+":"+SeqOf(SStr).Name] = true
		}
		b.fseen["seq.len:Str"] = true
		b.sort(SStr)
		b.sort(SeqOf(SStr))
	}
	b.seqAxioms(&o)
	for _, f := range b.funs {
		o.WriteString(f + "\n")
	}
	b.otherAxioms(&o)
	// shared ground subterms become macros
	refs := map[*Term]int{}
	var order []*Term
	vis := map[*Term]bool{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if vis[t] {
			return
		}
		vis[t] = true
		for _, a := range t.Args {
			count(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				count(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range asserts {
		count(t)
	}
	defs := map[*Term]string{}
	for _, t := range order {
		if refs[t] > 1 && !t.bound && len(t.Args) > 0 {
			e := b.expr(t, defs)
			if len(e) > 12 {
				n := fmt.Sprintf("$%d", len(defs))
				fmt.Fprintf(&o, "(define-fun %s () %s %s)\n", n, t.S.SMT(), e)
				defs[t] = n
			}
		}
	}
	// ground array updates inside patterns get a name: solvers rewrite them otherwise
	b.patDefs = map[*Term]string{}
	for t, n := range defs {
		b.patDefs[t] = n
	}
	var pats []*Term
	upd := map[*Term]bool{}
	var hasUpd func(t *Term) bool
	hasUpd = func(t *Term) bool {
		if r, ok := upd[t]; ok {
			return r
		}
		r := t.Op == "store" || t.Op == "constarr" || t.Op == "ite"
		for _, a := range t.Args {
			r = hasUpd(a) || r
		}
		upd[t] = r
		return r
	}
	pseen := map[*Term]bool{}
	var inPat func(t *Term)
	inPat = func(t *Term) {
		if pseen[t] {
			return
		}
		pseen[t] = true
		if !t.bound {
			if hasUpd(t) {
				pats = append(pats, t)
			}
			return
		}
		for _, a := range t.Args {
			inPat(a)
		}
	}
	for _, t := range order {
		for _, p := range t.Pats {
			for _, x := range p {
				inPat(x)
			}
		}
	}
	for _, t := range pats {
		n := fmt.Sprintf("pn!%d", t.id)
		fmt.Fprintf(&o, "(declare-fun %s (Int) %s)\n(assert (= (%s 0) %s))\n", n, t.S.SMT(), n, b.expr(t, defs))
		b.patDefs[t] = "(" + n + " 0)"
	}
	for _, t := range asserts {
		if t == True {
			continue
		}
		fmt.Fprintf(&o, "(assert %s)\n", b.expr(t, defs))
	}
	o.WriteString("(check-sat)\n")
	return o.String()
}

func (b *scriptBuilder) seqAxioms(o *strings.Builder) {
	for _, s := range b.sorts {
		if s.Kind != KSeq {
			continue
		}
		S, E := s.SMT(), s.Elem.SMT()
		n := func(f string) string { return smtSym("seq." + f + ":" + s.Name) }
		ln, nth, snoc, cat, sub, upd, empty, diff := n("len"), n("nth"), n("snoc"), n("cat"), n("sub"), n("upd"), n("empty"), n("diff")
		fmt.Fprintf(o, "(declare-fun %s (%s) Int)\n(declare-fun %s (%s Int) %s)\n(declare-fun %s (%s %s) %s)\n(declare-fun %s (%s %s) %s)\n(declare-fun %s (%s Int Int) %s)\n(declare-fun %s (%s Int %s) %s)\n(declare-fun %s () %s)\n(declare-fun %s (%s %s) Int)\n",
			ln, S, nth, S, E, snoc, S, E, S, cat, S, S, S, sub, S, S, upd, S, E, S, empty, S, diff, S, S)
		use := func(f string) bool { return b.fseen["seq."+f+":"+s.Name] }
		p := func(f string, a ...interface{}) { fmt.Fprintf(o, "(assert "+f+")\n", a...) }
		p("(forall ((s %s)) (! (and (>= (%s s) 0) (=> (= (%s s) 0) (= s %s))) :pattern ((%s s))))", S, ln, ln, empty, ln)
		p("(= (%s %s) 0)", ln, empty)
		if use("snoc") {
			p("(forall ((s %s)(x %s)) (! (and (= (%s (%s s x)) (+ (%s s) 1)) (= (%s (%s s x) (%s s)) x)) :pattern ((%s s x))))", S, E, ln, snoc, ln, nth, snoc, ln, snoc)
			p("(forall ((s %s)(x %s)(i Int)) (! (=> (and (<= 0 i) (< i (%s s))) (= (%s (%s s x) i) (%s s i))) :pattern ((%s (%s s x) i))))", S, E, ln, nth, snoc, nth, nth, snoc)
		}
		if use("cat") {
			p("(forall ((s %s)(t %s)) (! (= (%s (%s s t)) (+ (%s s) (%s t))) :pattern ((%s s t))))", S, S, ln, cat, ln, ln, cat)
			p("(forall ((s %s)(t %s)(i Int)) (! (and (=> (and (<= 0 i) (< i (%s s))) (= (%s (%s s t) i) (%s s i))) (=> (and (<= (%s s) i) (< i (+ (%s s) (%s t)))) (= (%s (%s s t) i) (%s t (- i (%s s)))))) :pattern ((%s (%s s t) i))))",
				S, S, ln, nth, cat, nth, ln, ln, ln, nth, cat, nth, ln, nth, cat)
			p("(forall ((s %s)) (! (= (%s s %s) s) :pattern ((%s s %s))))", S, cat, empty, cat, empty)
			p("(forall ((s %s)) (! (= (%s %s s) s) :pattern ((%s %s s))))", S, cat, empty, cat, empty)
			p("(forall ((s %s)(t %s)(u %s)) (! (= (%s s (%s t u)) (%s (%s s t) u)) :pattern ((%s s (%s t u)))))", S, S, S, cat, cat, cat, cat, cat, cat)
			if use("snoc") {
				p("(forall ((s %s)(t %s)(x %s)) (! (= (%s s (%s t x)) (%s (%s s t) x)) :pattern ((%s s (%s t x)))))", S, S, E, cat, snoc, snoc, cat, cat, snoc)
			}
		}
		// sub is total: a sequence is read as infinite junk (the same everywhere) beyond both ends, sub(s,i,j) are the elements i..j-1
		if use("sub") {
			p("(forall ((s %s)(i Int)(j Int)) (! (and (=> (<= i j) (= (%s (%s s i j)) (- j i))) (=> (<= j i) (= (%s s i j) %s)) (=> (and (= i 0) (= j (%s s))) (= (%s s i j) s))) :pattern ((%s s i j))))", S, ln, sub, sub, empty, ln, sub, sub)
			p("(forall ((s %s)(i Int)(j Int)(k Int)) (! (=> (and (<= i j) (<= 0 k) (< k (- j i))) (= (%s (%s s i j) k) (%s s (+ i k)))) :pattern ((%s (%s s i j) k))))", S, nth, sub, nth, nth, sub)
			p("(forall ((s %s)(i Int)(j Int)(k Int)(l Int)) (! (=> (and (<= i j) (<= 0 k) (<= k l) (<= l (- j i))) (= (%s (%s s i j) k l) (%s s (+ i k) (+ i l)))) :pattern ((%s (%s s i j) k l))))", S, sub, sub, sub, sub, sub)
			if use("snoc") {
				p("(forall ((s %s)(i Int)(j Int)) (! (=> (<= i j) (= (%s (%s s i j) (%s s j)) (%s s i (+ j 1)))) :pattern ((%s s i j) (%s s j))))", S, snoc, sub, nth, sub, sub, nth)
				p("(forall ((s %s)(x %s)(i Int)(j Int)) (! (and (=> (and (<= i j) (<= j (%s s))) (= (%s (%s s x) i j) (%s s i j))) (=> (and (<= i (%s s)) (= j (+ (%s s) 1))) (= (%s (%s s x) i j) (%s (%s s i (%s s)) x)))) :pattern ((%s (%s s x) i j))))", S, E, ln, sub, snoc, sub, ln, ln, sub, snoc, snoc, sub, ln, sub, snoc)
			}
			if use("cat") {
				p("(forall ((s %s)(i Int)(j Int)(k Int)) (! (=> (and (<= i j) (<= j k)) (= (%s (%s s i j) (%s s j k)) (%s s i k))) :pattern ((%s s i j) (%s s j k))))", S, cat, sub, sub, sub, sub, sub)
				p("(forall ((s %s)(t %s)(i Int)(j Int)) (! (and (=> (and (<= i j) (<= j (%s s))) (= (%s (%s s t) i j) (%s s i j))) (=> (and (<= (%s s) i) (<= i j) (<= j (+ (%s s) (%s t)))) (= (%s (%s s t) i j) (%s t (- i (%s s)) (- j (%s s)))))) :pattern ((%s (%s s t) i j))))", S, S, ln, sub, cat, sub, ln, ln, ln, sub, cat, sub, ln, ln, sub, cat)
			}
		}
		if use("upd") {
			p("(forall ((s %s)(i Int)(x %s)) (! (= (%s (%s s i x)) (%s s)) :pattern ((%s s i x))))", S, E, ln, upd, ln, upd)
			p("(forall ((s %s)(i Int)(x %s)(j Int)) (! (and (=> (and (= i j) (<= 0 i) (< i (%s s))) (= (%s (%s s i x) j) x)) (=> (not (= i j)) (= (%s (%s s i x) j) (%s s j)))) :pattern ((%s (%s s i x) j))))", S, E, ln, nth, upd, nth, upd, nth, nth, upd)
		}
		if use("mem") {
			mem, midx := n("mem"), n("midx")
			fmt.Fprintf(o, "(declare-fun %s (%s %s) Bool)\n(declare-fun %s (%s %s) Int)\n", mem, S, E, midx, S, E)
			p("(forall ((s %s)(x %s)) (! (=> (%s s x) (and (<= 0 (%s s x)) (< (%s s x) (%s s)) (= (%s s (%s s x)) x))) :pattern ((%s s x))))", S, E, mem, midx, midx, ln, nth, midx, mem)
			p("(forall ((s %s)(i Int)) (! (=> (and (<= 0 i) (< i (%s s))) (%s s (%s s i))) :pattern ((%s s i))))", S, ln, mem, nth, nth)
			if use("snoc") {
				p("(forall ((s %s)(x %s)(y %s)) (! (= (%s (%s s x) y) (or (%s s y) (= x y))) :pattern ((%s (%s s x) y)) :pattern ((%s s y) (%s s x))))", S, E, E, mem, snoc, mem, mem, snoc, mem, snoc)
			}
			if use("cat") {
				cat := n("cat")
				p("(forall ((s %s)(r %s)(x %s)) (! (= (%s (%s s r) x) (or (%s s x) (%s r x))) :pattern ((%s (%s s r) x)) :pattern ((%s s x) (%s s r)) :pattern ((%s r x) (%s s r))))", S, S, E, mem, cat, mem, mem, mem, cat, mem, cat, mem, cat)
			}
			if use("sub") {
				p("(forall ((s %s)(i Int)(j Int)(k Int)(x %s)) (! (=> (and (<= i k) (= j (+ k 1))) (= (%s (%s s i j) x) (or (%s (%s s i k) x) (= x (%s s k))))) :pattern ((%s (%s s i j) x) (%s s i k)) :pattern ((%s (%s s i k) x) (%s s i j))))", S, E, mem, sub, mem, sub, nth, mem, sub, sub, mem, sub, sub)
			}
			p("(forall ((x %s)) (! (not (%s %s x)) :pattern ((%s %s x))))", E, mem, empty, mem, empty)
		}
	}
}

// onLiteralSeq: an argument is a sequence of known elements.
func onLiteralSeq(t *Term) bool {
	for _, a := range t.Args {
		if a.S.Kind == KSeq && a.S != SStr && seqElems(a) != nil {
			return true
		}
	}
	return false
}

func (b *scriptBuilder) otherAxioms(o *strings.Builder) {
	p := func(f string, a ...interface{}) { fmt.Fprintf(o, "(assert "+f+")\n", a...) }
	// string literals
	if len(b.lits) > 0 {
		var ns []string
		hasEmpty := false
		sort.Slice(b.lits, func(i, j int) bool { return b.lits[i].id < b.lits[j].id })
		for _, l := range b.lits {
			n := litSym(l.Name)
			ns = append(ns, n)
			fmt.Fprintf(o, "(declare-fun %s () Str)\n", n)
			if l.Name == "" {
				hasEmpty = true
				p("(= %s |seq.empty:Str|)", n)
			}
			p("(= (|seq.len:Str| %s) %d)", n, len(l.Name))
			for i := 0; i < len(l.Name) && i < 24; i++ {
				p("(= (|seq.nth:Str| %s %d) %d)", n, i, l.Name[i])
			}
			if b.fseen["seq.cat:Str"] && b.fseen["seq.snoc:Str"] && len(l.Name) > 0 && len(l.Name) <= 2 {
				e := "s"
				for i := 0; i < len(l.Name); i++ {
					e = fmt.Sprintf("(|seq.snoc:Str| %s %d)", e, l.Name[i])
				}
				p("(forall ((s Str)) (! (= (|seq.cat:Str| s %s) %s) :pattern ((|seq.cat:Str| s %s))))", n, e, n)
			}
		}
		_ = hasEmpty
		if len(ns) > 1 {
			p("(distinct %s)", strings.Join(ns, " "))
		}
	}
	if b.fseen["seq.nth:Str"] {
		p("(forall ((s Str)(i Int)) (! (and (<= 0 (|seq.nth:Str| s i)) (<= (|seq.nth:Str| s i) 255)) :pattern ((|seq.nth:Str| s i))))")
	}
	var keys []string
	for k := range b.fdecl {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	tagUsed := b.fseen["tag"]
	nilUsed := b.fseen["nil_any"]
	if b.fseen["root"] {
		p("(forall ((r Int)) (! (=> (>= r 0) (= (root r) r)) :pattern ((root r))))")
	}
	if tagUsed && nilUsed {
		p("(= (tag nil_any) 0)")
		p("(forall ((a Any)) (! (=> (= (tag a) 0) (= a nil_any)) :pattern ((tag a))))")
	}
	// make unbox/box pairs complete
	decl := func(k string, args, res string) {
		if !b.fseen[k] {
			b.fseen[k] = true
			fmt.Fprintf(o, "(declare-fun %s (%s) %s)\n", smtSym(k), args, res)
		}
	}
	kind := 0
	for _, k := range keys {
		t := b.fdecl[k]
		switch {
		case strings.HasPrefix(k, "box:"), strings.HasPrefix(k, "unbox:"):
			typ := k[strings.Index(k, ":")+1:]
			var ps *Sort
			if k[0] == 'b' {
				ps = t.Args[0].S
			} else {
				ps = t.S
			}
			if k[0] == 'u' && b.fdecl["box:"+typ] != nil {
				continue
			}
			decl("box:"+typ, ps.SMT(), "Any")
			decl("unbox:"+typ, "Any", ps.SMT())
			decl("tag", "Any", "Int")
			if nilUsed && !tagUsed {
				tagUsed = true
				p("(= (tag nil_any) 0)")
				p("(forall ((a Any)) (! (=> (= (tag a) 0) (= a nil_any)) :pattern ((tag a))))")
			}
			tg := typeTag(typ)
			bx, ub := smtSym("box:"+typ), smtSym("unbox:"+typ)
			p("(forall ((x %s)) (! (and (= (%s (%s x)) x) (= (tag (%s x)) %s)) :pattern ((%s x))))", ps.SMT(), ub, bx, bx, tg.N, bx)
			p("(forall ((a Any)) (! (=> (= (tag a) %s) (= (%s (%s a)) a)) :pattern ((%s a))))", tg.N, bx, ub, ub)
		case strings.HasPrefix(k, "sub:"):
			kind++
			f := smtSym(k)
			decl("subinv", "Int", "Int")
			decl("subkind", "Int", "Int")
			p("(forall ((r Int)) (! (and (< (%s r) 0) (= (subinv (%s r)) r) (= (subkind (%s r)) %d)) :pattern ((%s r))))", f, f, f, kind, f)
			if b.fseen["root"] {
				p("(forall ((r Int)) (! (= (root (%s r)) (root r)) :pattern ((root (%s r)))))", f, f)
			}
		case k == "godiv":
			p("(forall ((a Int)(b Int)) (! (=> (and (>= a 0) (> b 0)) (and (= (godiv a b) (div a b)) (<= (* (godiv a b) b) a) (< a (+ (* (godiv a b) b) b)) (<= 0 (godiv a b)) (<= (godiv a b) a))) :pattern ((godiv a b))))")
			p("(forall ((a Int)(b Int)) (! (=> (and (<= a 0) (> b 0)) (and (= (godiv a b) (- (div (- a) b))) (>= (godiv a b) a) (<= (godiv a b) 0))) :pattern ((godiv a b))))")
		case k == "gorem":
			p("(forall ((a Int)(b Int)) (! (=> (and (>= a 0) (> b 0)) (and (= (gorem a b) (mod a b)) (<= 0 (gorem a b)) (< (gorem a b) b))) :pattern ((gorem a b))))")
		case k == "ext:strings.Index":
			ix := smtSym(k)
			p("(forall ((s Str)(t Str)) (! (and (<= (- 1) (%s s t)) (=> (>= (%s s t) 0) (and (<= (+ (%s s t) (|seq.len:Str| t)) (|seq.len:Str| s)) (= (|seq.sub:Str| s (%s s t) (+ (%s s t) (|seq.len:Str| t))) t) (=> (>= (|seq.len:Str| t) 1) (= (|seq.nth:Str| s (%s s t)) (|seq.nth:Str| t 0))))) (=> (= (|seq.len:Str| t) 0) (= (%s s t) 0))) :pattern ((%s s t))))", ix, ix, ix, ix, ix, ix, ix, ix)
			p("(forall ((s Str)(t Str)(i Int)) (! (=> (and (= (|seq.len:Str| t) 1) (<= 0 i) (< i (|seq.len:Str| s)) (= (|seq.nth:Str| s i) (|seq.nth:Str| t 0))) (and (<= 0 (%s s t)) (<= (%s s t) i))) :pattern ((%s s t) (|seq.nth:Str| s i))))", ix, ix, ix)
		case k == "ext:strings.Split":
			sp := smtSym(k)
			sl, sn := smtSym("seq.len:"+SeqOf(SStr).Name), smtSym("seq.nth:"+SeqOf(SStr).Name)
			p("(forall ((s Str)(t Str)) (! (=> (>= (|seq.len:Str| t) 1) (>= (%s (%s s t)) 1)) :pattern ((%s s t))))", sl, sp, sp)
			if b.fseen["ext:strings.Index"] {
				ix := smtSym("ext:strings.Index")
				p("(forall ((s Str)(t Str)) (! (=> (>= (|seq.len:Str| t) 1) (and (= (>= (%s (%s s t)) 2) (>= (%s s t) 0)) (=> (< (%s s t) 0) (= (%s (%s s t) 0) s)) (=> (>= (%s s t) 0) (= (%s (%s s t) 0) (|seq.sub:Str| s 0 (%s s t)))))) :pattern ((%s s t))))", sl, sp, ix, ix, sn, sp, ix, sn, sp, ix, sp)
			}
		case k == "strlt":
			p("(forall ((a Str)(b Str)) (! (and (not (and (strlt a b) (strlt b a))) (or (strlt a b) (strlt b a) (= a b)) (=> (= a b) (not (strlt a b)))) :pattern ((strlt a b))))")
			p("(forall ((a Str)(b Str)(c Str)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c))))")
		}
	}
}

// ---- solver pool

type solverStat struct {
	Queries  int
	Proved   int
	Time     time.Duration
	MaxTime  time.Duration
	Unknowns int
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type solverKind struct {
	name string
	argv []string
}

var (
	z3New = solverKind{"z3-new", []string{"z3-new", "-in"}}
	z3Old = solverKind{"z3", []string{"z3", "-in"}}
)

type Solver struct {
	mu    sync.Mutex
	idle  map[string][]*proc
	sem   chan bool
	Stats map[string]*solverStat
	cache map[[32]byte]string
	dump  string
	ndump int
	// deadline of a check: what is not proved then counts as not discharged
	deadline time.Time
}

func NewSolver(n int) *Solver {
	return &Solver{idle: map[string][]*proc{}, sem: make(chan bool, n), Stats: map[string]*solverStat{}, cache: map[[32]byte]string{}, dump: os.Getenv("GOVC_DUMP")}
}

func (s *Solver) get(k solverKind) *proc {
	s.mu.Lock()
	if l := s.idle[k.name]; len(l) > 0 {
		p := l[len(l)-1]
		s.idle[k.name] = l[:len(l)-1]
		s.mu.Unlock()
		return p
	}
	s.mu.Unlock()
	cmd := exec.Command(k.argv[0], k.argv[1:]...)
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		fatal("cannot start solver %s: %v", k.name, err)
	}
	return &proc{cmd, in, bufio.NewReader(out)}
}
func (s *Solver) put(k solverKind, p *proc) {
	s.mu.Lock()
	s.idle[k.name] = append(s.idle[k.name], p)
	s.mu.Unlock()
}

// run returns sat / unsat / unknown
func (s *Solver) run(k solverKind, script string, ms int) string {
	s.sem <- true
	defer func() { <-s.sem }()
	p := s.get(k)
	t0 := time.Now()
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		_, err := io.WriteString(p.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :rlimit %d)\n%s", 4*ms, 2500*ms, script))
		if err != nil {
			ch <- res{"", err}
			return
		}
		errs := ""
		for {
			l, err := p.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				if errs != "" {
					l = "error " + errs
				}
				ch <- res{l, nil}
				return
			}
			if strings.HasPrefix(l, "(error") && errs == "" {
				errs = l
			}
			if err != nil {
				ch <- res{"", err}
				return
			}
		}
	}()
	var r res
	select {
	case r = <-ch:
	case <-time.After(time.Duration(ms)*time.Millisecond*5 + 2*time.Second):
		p.cmd.Process.Kill()
		r = res{"timeout", fmt.Errorf("hard timeout")}
	}
	if r.err != nil {
		p.cmd.Process.Kill()
		go p.cmd.Wait()
		if r.l == "" {
			r.l = "unknown"
		}
	} else {
		s.put(k, p)
	}
	d := time.Since(t0)
	s.mu.Lock()
	st := s.Stats[k.name]
	if st == nil {
		st = &solverStat{}
		s.Stats[k.name] = st
	}
	st.Queries++
	st.Time += d
	if d > st.MaxTime {
		st.MaxTime = d
	}
	if r.l == "unsat" {
		st.Proved++
	}
	s.mu.Unlock()
	if strings.HasPrefix(r.l, "error") {
		if os.Getenv("GOVC_DEBUG") != "" {
			os.WriteFile("/tmp/govc-error.smt2", []byte(script), 0644)
		}
		fmt.Fprintf(os.Stderr, "solver %s: %s\n", k.name, r.l)
		if len(r.l) > 300 {
			r.l = r.l[:300]
		}
	}
	return r.l
}

func (s *Solver) runCVC5(script string, ms int) string {
	s.sem <- true
	defer func() { <-s.sem }()
	t0 := time.Now()
	sc := strings.ReplaceAll(strings.ReplaceAll(script, "(set-option :auto_config false)\n", ""), "(set-option :smt.mbqi false)\n", "(set-logic ALL)\n")
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
	cmd.Stdin = strings.NewReader(sc)
	out, _ := cmd.Output()
	l := strings.TrimSpace(string(out))
	if i := strings.IndexByte(l, '\n'); i >= 0 {
		l = l[:i]
	}
	d := time.Since(t0)
	s.mu.Lock()
	st := s.Stats["cvc5"]
	if st == nil {
		st = &solverStat{}
		s.Stats["cvc5"] = st
	}
	st.Queries++
	st.Time += d
	if l == "unsat" {
		st.Proved++
	}
	s.mu.Unlock()
	return l
}

type Verdict struct {
	Proved  bool
	Backend string
	Reason  string
	Time    time.Duration
}

// Prove asks for assume |= goal.
func (s *Solver) Prove(assume []*Term, goal *Term, ms int, fallback bool) Verdict {
	if goal == True {
		return Verdict{Proved: true, Backend: "simplifier"}
	}
	for _, a := range assume {
		if a == False || a == goal {
			return Verdict{Proved: true, Backend: "simplifier"}
		}
	}
	return s.ProveScript(buildScript(assume, goal), ms, fallback)
}

func (s *Solver) late() bool { return !s.deadline.IsZero() && time.Now().After(s.deadline) }

// ProveScript runs the solvers on a finished script (safe for concurrent use).
func (s *Solver) ProveScript(script string, ms int, fallback bool) Verdict {
	t0 := time.Now()
	if s.late() {
		return Verdict{Reason: "the time of the check is used up"}
	}
	key := sha256.Sum256([]byte(script))
	s.mu.Lock()
	if r, ok := s.cache[key]; ok {
		s.mu.Unlock()
		return Verdict{Proved: r != "", Backend: r, Reason: "unknown (cached)"}
	}
	s.mu.Unlock()
	if s.dump != "" {
		s.mu.Lock()
		s.ndump++
		n := s.ndump
		s.mu.Unlock()
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", s.dump, n), []byte(script), 0644)
	}
	v := Verdict{}
	try := func(name string, k func() string) bool {
		if s.late() {
			v.Reason += " (the time of the check is used up)"
			return true
		}
		r := k()
		if v.Reason != "" {
			v.Reason += "; "
		}
		v.Reason += name + ": " + r
		if r == "unsat" {
			v.Proved, v.Backend = true, strings.Fields(name)[0]
		}
		return v.Proved
	}
	z := func(k solverKind, sc string, ms int) func() string { return func() string { return s.run(k, sc, ms) } }
	if !fallback {
		try("z3-new", z(z3New, script, ms))
	} else {
		_ = try("z3-new", z(z3New, script, ms/3)) ||
			try("z3", z(z3Old, script, ms/3)) ||
			try("z3-new reordered", z(z3New, reorder(script, 1), ms/3)) ||
			try("z3 reordered", z(z3Old, reorder(script, 2), ms/3)) ||
			try("z3-new reordered 2", z(z3New, reorder(script, 3), ms/3)) ||
			try("cvc5", func() string { return s.runCVC5(script, ms) })
	}
	v.Time = time.Since(t0)
	s.mu.Lock()
	if v.Proved {
		s.cache[key] = v.Backend
	} else if fallback {
		s.cache[key] = ""
	}
	s.mu.Unlock()
	return v
}

// reorder permutes the assertions: a failed search often succeeds in another order.
func reorder(script string, seed int64) string {
	lines := strings.Split(script, "\n")
	var idx []int
	var as []string
	last := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "(define-fun ") || strings.HasPrefix(l, "(declare-") {
			last = i
		}
	}
	for i, l := range lines {
		if i > last && strings.HasPrefix(l, "(assert ") {
			idx = append(idx, i)
			as = append(as, l)
		}
	}
	rand.New(rand.NewSource(seed)).Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	for i, j := range idx {
		lines[j] = as[i]
	}
	return fmt.Sprintf("(set-option :smt.random_seed %d)\n", seed) + strings.Join(lines, "\n")
}

func (s *Solver) Close() {
	for _, l := range s.idle {
		for _, p := range l {
			p.in.Close()
			p.cmd.Process.Kill()
		}
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(3)
}
