package main

// Terms, sorts and the simplifying constructors. Terms are hash-consed: pointer
// equality is structural equality.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type SortKind int

const (
	KBool SortKind = iota
	KInt
	KReal
	KAny
	KSeq  // Elem; Str is KSeq with Elem Int and its own name
	KArr  // Key, Elem
	KData // Fields
	KOther
)

type Sort struct {
	Name   string
	Kind   SortKind
	Key    *Sort
	Elem   *Sort
	Fields []*Sort
	FNames []string
	id     int
}

var sorts = map[string]*Sort{}

func mkSort(s *Sort) *Sort {
	if o, ok := sorts[s.Name]; ok {
		return o
	}
	s.id = len(sorts)
	sorts[s.Name] = s
	return s
}

var (
	SBool = mkSort(&Sort{Name: "Bool", Kind: KBool})
	SInt  = mkSort(&Sort{Name: "Int", Kind: KInt})
	SReal = mkSort(&Sort{Name: "Real", Kind: KReal})
	SAny  = mkSort(&Sort{Name: "Any", Kind: KAny})
	SStr  = mkSort(&Sort{Name: "Str", Kind: KSeq, Elem: SInt})
)

func SeqOf(e *Sort) *Sort { return mkSort(&Sort{Name: "Seq_" + e.Name, Kind: KSeq, Elem: e}) }
func ArrOf(k, v *Sort) *Sort {
	return mkSort(&Sort{Name: "Arr<" + k.Name + "," + v.Name + ">", Kind: KArr, Key: k, Elem: v})
}

func (s *Sort) SMT() string {
	if s.Kind == KArr {
		return "(Array " + s.Key.SMT() + " " + s.Elem.SMT() + ")"
	}
	return smtSym(s.Name)
}

func smtSym(n string) string {
	ok := len(n) > 0 && !(n[0] >= '0' && n[0] <= '9')
	for i := 0; i < len(n) && ok; i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.$!@~%&*-+<>?^/", c) >= 0) {
			ok = false
		}
	}
	if ok {
		return n
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|"
}

type Term struct {
	Op    string // const var int str true false not and or ite = le lin mul div mod rlit rlt rle select store constarr mk sel app forall exists
	Name  string // const/var/app name, literal text
	Args  []*Term
	S     *Sort
	N     *big.Int   // int literal, lin constant
	Cs    []*big.Int // lin coefficients
	Vars  []*Term    // quantifier variables
	Pats  [][]*Term  // quantifier patterns
	Idx   int        // sel
	id    int
	bound bool // contains bound variables (possibly free in this subterm)
}

var termTab = map[string]*Term{}
var termCount int

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('#')
	b.WriteString(t.Name)
	b.WriteByte('#')
	b.WriteString(strconv.Itoa(t.S.id))
	if t.N != nil {
		b.WriteByte('n')
		b.WriteString(t.N.String())
	}
	for i, a := range t.Args {
		b.WriteByte(',')
		if t.Cs != nil {
			b.WriteString(t.Cs[i].String())
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.id))
		if a.bound {
			t.bound = true
		}
	}
	if t.Op == "sel" {
		b.WriteByte('.')
		b.WriteString(strconv.Itoa(t.Idx))
	}
	for _, v := range t.Vars {
		b.WriteByte('v')
		b.WriteString(strconv.Itoa(v.id))
	}
	for _, p := range t.Pats {
		b.WriteByte('p')
		for _, v := range p {
			b.WriteByte(' ')
			b.WriteString(strconv.Itoa(v.id))
		}
	}
	if t.Op == "var" {
		t.bound = true
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	termTab[k] = t
	return t
}

var (
	True  = intern(&Term{Op: "true", S: SBool})
	False = intern(&Term{Op: "false", S: SBool})
)

func Const(name string, s *Sort) *Term { return intern(&Term{Op: "const", Name: name, S: s}) }

var freshCtr = map[string]int{}

func Fresh(prefix string, s *Sort) *Term {
	freshCtr[prefix]++
	return Const(fmt.Sprintf("%s!%d", prefix, freshCtr[prefix]), s)
}

var varCtr int

func FreshVar(prefix string, s *Sort) *Term {
	varCtr++
	return intern(&Term{Op: "var", Name: fmt.Sprintf("%s?%d", prefix, varCtr), S: s})
}

func BigInt(n *big.Int) *Term { return intern(&Term{Op: "int", S: SInt, N: n}) }
func Int(n int64) *Term       { return BigInt(big.NewInt(n)) }
func StrLit(s string) *Term {
	return intern(&Term{Op: "str", Name: s, S: SStr})
}
func RealLit(s string) *Term { return intern(&Term{Op: "rlit", Name: s, S: SReal}) }
func BoolLit(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) isStr() bool { return t.Op == "str" }
func (t *Term) isLit() bool {
	switch t.Op {
	case "int", "str", "true", "false", "rlit":
		return true
	}
	return false
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "le": // not (l <= 0)  ==>  l > 0  ==> -l+1 <= 0
		return leZero(linAdd(linScale(a.Args[0], big.NewInt(-1)), Int(1)))
	}
	return intern(&Term{Op: "not", Args: []*Term{a}, S: SBool})
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.Op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "and", Args: out, S: SBool})
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.Op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: "or", Args: out, S: SBool})
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	switch c.Op {
	case "true":
		return a
	case "false":
		return b
	case "not":
		return Ite(c.Args[0], b, a)
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.S.Name, b.S.Name, a, b))
	}
	if a.S == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return intern(&Term{Op: "ite", Args: []*Term{c, a, b}, S: a.S})
}

// ---- linear integer arithmetic

func linParts(t *Term) ([]*Term, []*big.Int, *big.Int) {
	switch t.Op {
	case "int":
		return nil, nil, t.N
	case "lin":
		return t.Args, t.Cs, t.N
	}
	return []*Term{t}, []*big.Int{big.NewInt(1)}, big.NewInt(0)
}

func mkLin(m map[*Term]*big.Int, c *big.Int) *Term {
	var as []*Term
	for a, k := range m {
		if k.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return BigInt(c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && c.Sign() == 0 && m[as[0]].Cmp(big.NewInt(1)) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return intern(&Term{Op: "lin", Args: as, Cs: cs, N: c, S: SInt})
}

func linAdd(a, b *Term) *Term {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	for _, t := range []*Term{a, b} {
		as, cs, n := linParts(t)
		c.Add(c, n)
		for i, x := range as {
			if o, ok := m[x]; ok {
				m[x] = new(big.Int).Add(o, cs[i])
			} else {
				m[x] = cs[i]
			}
		}
	}
	return mkLin(m, c)
}

func linScale(a *Term, k *big.Int) *Term {
	m := map[*Term]*big.Int{}
	as, cs, n := linParts(a)
	for i, x := range as {
		m[x] = new(big.Int).Mul(cs[i], k)
	}
	return mkLin(m, new(big.Int).Mul(n, k))
}

func Add(a, b *Term) *Term { return linAdd(a, b) }
func Sub(a, b *Term) *Term { return linAdd(a, linScale(b, big.NewInt(-1))) }
func Neg(a *Term) *Term    { return linScale(a, big.NewInt(-1)) }
func Mul(a, b *Term) *Term {
	if a.isInt() {
		return linScale(b, a.N)
	}
	if b.isInt() {
		return linScale(a, b.N)
	}
	if a.id > b.id {
		a, b = b, a
	}
	// distribute over sums so that products are canonical
	if a.Op == "lin" || b.Op == "lin" {
		as, cs, n := linParts(a)
		bs, ds, k := linParts(b)
		r := BigInt(new(big.Int).Mul(n, k))
		for i, x := range as {
			for j, y := range bs {
				r = linAdd(r, linScale(Mul(x, y), new(big.Int).Mul(cs[i], ds[j])))
			}
			r = linAdd(r, linScale(x, new(big.Int).Mul(cs[i], k)))
		}
		for j, y := range bs {
			r = linAdd(r, linScale(y, new(big.Int).Mul(ds[j], n)))
		}
		return r
	}
	return intern(&Term{Op: "mul", Args: []*Term{a, b}, S: SInt})
}

// Go division (truncated)
func GoDiv(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.N.Sign() != 0 {
		return BigInt(new(big.Int).Quo(a.N, b.N))
	}
	return App("godiv", SInt, a, b)
}
func GoRem(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.N.Sign() != 0 {
		return BigInt(new(big.Int).Rem(a.N, b.N))
	}
	return App("gorem", SInt, a, b)
}

func leZero(l *Term) *Term {
	if l.isInt() {
		return BoolLit(l.N.Sign() <= 0)
	}
	// divide by gcd of coefficients
	as, cs, n := linParts(l)
	g := new(big.Int)
	for _, c := range cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		m := map[*Term]*big.Int{}
		for i, a := range as {
			m[a] = new(big.Int).Quo(cs[i], g)
		}
		// sum <= -n  ==> sum/g <= floor(-n/g)
		k := new(big.Int).Neg(n)
		q, r := new(big.Int).QuoRem(k, g, new(big.Int))
		if r.Sign() < 0 {
			q.Sub(q, big.NewInt(1))
		}
		l = mkLin(m, q.Neg(q))
	}
	// seq lengths are never negative: c - len(..) <= 0 with c <= 0 is true
	if len(as) >= 1 && n.Sign() <= 0 {
		ok := true
		for i, a := range as {
			if !(cs[i].Sign() < 0 && a.Op == "app" && a.Name == "seq.len") {
				ok = false
				break
			}
		}
		if ok {
			return True
		}
	}
	return intern(&Term{Op: "le", Args: []*Term{l}, S: SBool})
}

func Le(a, b *Term) *Term { return leZero(Sub(a, b)) }
func Lt(a, b *Term) *Term { return leZero(Add(Sub(a, b), Int(1))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- equality

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.S.Name, b.S.Name, a, b))
	}
	if a.isLit() && b.isLit() && a.Op != "rlit" {
		return False
	}
	switch a.S.Kind {
	case KBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case KInt:
		d := Sub(a, b)
		if d.isInt() {
			return False
		}
		// sub-refs and box payloads are compared below; normalise sign
		as, cs, n := linParts(d)
		if len(as) == 2 && n.Sign() == 0 && cs[0].CmpAbs(big.NewInt(1)) == 0 && cs[1].Sign() == -cs[0].Sign() && cs[1].CmpAbs(big.NewInt(1)) == 0 {
			x, y := as[0], as[1]
			if x.Op == "app" && y.Op == "app" && strings.HasPrefix(x.Name, "sub:") && strings.HasPrefix(y.Name, "sub:") {
				if x.Name == y.Name {
					return Eq(x.Args[0], y.Args[0])
				}
				return False
			}
		}
		if x, ok := knownNegative(a); ok && x != nil && !isNegRefLike(b) && b.isInt() && b.N.Sign() >= 0 {
			return False
		}
		if x, ok := knownNegative(b); ok && x != nil && a.isInt() && a.N.Sign() >= 0 {
			return False
		}
		if as[0].id > 0 && cs[0].Sign() < 0 {
			d = Neg(d)
		}
		as, cs, n = linParts(d)
		// rebuild as lhs = rhs with single atom on the left
		if len(as) == 1 && cs[0].Cmp(big.NewInt(1)) == 0 {
			return mkEq(as[0], BigInt(new(big.Int).Neg(n)))
		}
		if len(as) == 2 && n.Sign() == 0 && cs[0].Cmp(big.NewInt(1)) == 0 && cs[1].Cmp(big.NewInt(-1)) == 0 {
			return mkEq(as[0], as[1])
		}
		return mkEq(d, Int(0))
	case KAny:
		an, ap, aok := boxParts(a)
		bn, bp, bok := boxParts(b)
		if aok && bok {
			if an != bn {
				return False
			}
			if ap == nil {
				return True
			}
			return Eq(ap, bp)
		}
		if a.Op == "ite" || b.Op == "ite" {
			x, y := a, b
			if x.Op != "ite" {
				x, y = b, a
			}
			if _, _, ok := boxParts(y); ok {
				return Ite(x.Args[0], Eq(x.Args[1], y), Eq(x.Args[2], y))
			}
		}
	case KData:
		if a.Op == "mk" && b.Op == "mk" {
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, Eq(a.Args[i], b.Args[i]))
			}
			return And(cs...)
		}
	case KSeq:
		if a.Op == "app" && b.Op == "app" && a.Name == "seq.snoc" && b.Name == "seq.snoc" {
			return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]))
		}
		x, y := a, b
		if isEmptySeq(x) {
			x, y = y, x
		}
		if isEmptySeq(y) {
			if x.Op == "app" && x.Name == "seq.snoc" {
				return False
			}
			if x.Op == "app" && x.Name == "seq.cat" {
				return And(Eq(x.Args[0], y), Eq(x.Args[1], y))
			}
		}
		// literal prefix stripping for strings
		if a.S == SStr {
			if r := eqStr(a, b); r != nil {
				return r
			}
		}
	}
	if a.isLit() {
		a, b = b, a
	}
	if b.isLit() && a.Op == "ite" && (a.Args[1].isLit() || a.Args[2].isLit()) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	return mkEq(a, b)
}

func knownNegative(t *Term) (*Term, bool) {
	if t.Op == "app" && strings.HasPrefix(t.Name, "sub:") {
		return t, true
	}
	return nil, false
}
func isNegRefLike(t *Term) bool { _, ok := knownNegative(t); return ok }

func mkEq(a, b *Term) *Term {
	if !b.isLit() && a.id > b.id || a.isLit() {
		a, b = b, a
	}
	return intern(&Term{Op: "=", Args: []*Term{a, b}, S: SBool})
}

func eqStr(a, b *Term) *Term {
	pa, pb := catParts(a), catParts(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	i := 0
	changed := false
	for i < len(pa) && i < len(pb) {
		x, y := pa[i], pb[i]
		if x == y {
			i++
			changed = true
			continue
		}
		if x.isStr() && y.isStr() {
			n := len(x.Name)
			if len(y.Name) < n {
				n = len(y.Name)
			}
			if x.Name[:n] != y.Name[:n] {
				return False
			}
			pa = append(append([]*Term{}, pa[:i]...), append([]*Term{StrLit(x.Name[:n]), StrLit(x.Name[n:])}, pa[i+1:]...)...)
			pb = append(append([]*Term{}, pb[:i]...), append([]*Term{StrLit(y.Name[:n]), StrLit(y.Name[n:])}, pb[i+1:]...)...)
			pa = dropEmpty(pa)
			pb = dropEmpty(pb)
			changed = true
			i++
			continue
		}
		break
	}
	if i >= len(pa) || i >= len(pb) {
		// one is a prefix of the other: the rest must be empty
		rest := append(append([]*Term{}, pa[i:]...), pb[i:]...)
		var cs []*Term
		for _, r := range rest {
			cs = append(cs, Eq(r, StrLit("")))
		}
		return And(cs...)
	}
	// common literal suffix
	ra, rb := pa[i:], pb[i:]
	j := 0
	for j < len(ra) && j < len(rb) && ra[len(ra)-1-j] == rb[len(rb)-1-j] {
		j++
		changed = true
	}
	ra, rb = ra[:len(ra)-j], rb[:len(rb)-j]
	if !changed {
		return nil
	}
	return Eq(catList(ra), catList(rb))
}

func dropEmpty(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.isStr() && t.Name == "" {
			continue
		}
		out = append(out, t)
	}
	return out
}

func catParts(t *Term) []*Term {
	if t.Op == "app" && t.Name == "seq.cat" {
		return append(catParts(t.Args[0]), catParts(t.Args[1])...)
	}
	return []*Term{t}
}
func catList(ts []*Term) *Term {
	if len(ts) == 0 {
		return StrLit("")
	}
	r := ts[0]
	for _, t := range ts[1:] {
		r = Cat(r, t)
	}
	return r
}

// ---- applications

func App(name string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: "app", Name: name, S: s, Args: args})
}

// boxes: app "box:<type>" payload ; nil interface is app "nil_any"
func NilAny() *Term { return App("nil_any", SAny) }
func Box(typ string, payload *Term) *Term {
	return App("box:"+typ, SAny, payload)
}
func boxParts(t *Term) (string, *Term, bool) {
	if t.Op == "app" && t.S == SAny {
		if t.Name == "nil_any" {
			return "nil", nil, true
		}
		if strings.HasPrefix(t.Name, "box:") {
			return t.Name[4:], t.Args[0], true
		}
	}
	return "", nil, false
}
func HasType(t *Term, typ string) *Term {
	if n, _, ok := boxParts(t); ok {
		return BoolLit(n == typ)
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], HasType(t.Args[1], typ), HasType(t.Args[2], typ))
	}
	return Eq(App("tag", SInt, t), typeTag(typ))
}
func Unbox(t *Term, typ string, s *Sort) *Term {
	if n, p, ok := boxParts(t); ok && n == typ && p != nil {
		return p
	}
	return App("unbox:"+typ, s, t)
}

var typeTags = map[string]int64{}

func typeTag(typ string) *Term {
	if typ == "nil" {
		return Int(0)
	}
	n, ok := typeTags[typ]
	if !ok {
		n = int64(len(typeTags) + 1)
		typeTags[typ] = n
	}
	return Int(n)
}

// ---- datatypes

func Mk(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("mk arity " + s.Name)
	}
	// mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].Op == "sel" && args[0].Idx == 0 && args[0].Args[0].S == s {
		x := args[0].Args[0]
		all := true
		for i, a := range args {
			if a.Op != "sel" || a.Idx != i || a.Args[0] != x {
				all = false
				break
			}
		}
		if all {
			return x
		}
	}
	for i, a := range args {
		if a.S != s.Fields[i] {
			panic(fmt.Sprintf("mk %s field %s: %s vs %s", s.Name, s.FNames[i], a.S.Name, s.Fields[i].Name))
		}
	}
	return intern(&Term{Op: "mk", S: s, Args: args})
}
func Sel(t *Term, i int) *Term {
	if t.Op == "mk" {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Sel(t.Args[1], i), Sel(t.Args[2], i))
	}
	return intern(&Term{Op: "sel", S: t.S.Fields[i], Args: []*Term{t}, Idx: i})
}

// ---- arrays

func distinctTerms(a, b *Term) bool { return Eq(a, b) == False }

func Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if Eq(a.Args[1], i) == False {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			if a.Args[1].Op == "store" || a.Args[2].Op == "store" || a.Args[1].Op == "constarr" || a.Args[2].Op == "constarr" {
				return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
			}
		}
		break
	}
	return intern(&Term{Op: "select", S: a.S.Elem, Args: []*Term{a, i}})
}

func Store(a, i, v *Term) *Term {
	if a.S.Elem != v.S {
		panic(fmt.Sprintf("store elem sort %s into %s", v.S.Name, a.S.Name))
	}
	if a.S.Key != i.S {
		panic(fmt.Sprintf("store key sort %s into %s", i.S.Name, a.S.Name))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	// push through definitely different indices to overwrite an older write of the same index
	if a.Op == "store" {
		b := a
		var skipped []*Term
		for b.Op == "store" && b.Args[1] != i && Eq(b.Args[1], i) == False {
			skipped = append(skipped, b)
			b = b.Args[0]
		}
		if b.Op == "store" && b.Args[1] == i {
			r := Store(b.Args[0], i, v)
			for k := len(skipped) - 1; k >= 0; k-- {
				r = Store(r, skipped[k].Args[1], skipped[k].Args[2])
			}
			return r
		}
		if v.Op == "select" && v.Args[0] == b && v.Args[1] == i {
			return a
		}
	}
	if a.Op == "constarr" && a.Args[0] == v {
		return a
	}
	return intern(&Term{Op: "store", S: a.S, Args: []*Term{a, i, v}})
}
func ConstArr(s *Sort, v *Term) *Term { return intern(&Term{Op: "constarr", S: s, Args: []*Term{v}}) }

// ---- sequences

func isEmptySeq(t *Term) bool {
	return t.Op == "app" && t.Name == "seq.empty" || t.isStr() && t.Name == ""
}
func EmptySeq(s *Sort) *Term {
	if s == SStr {
		return StrLit("")
	}
	return App("seq.empty", s)
}
func Len(t *Term) *Term {
	if t.isStr() {
		return Int(int64(len(t.Name)))
	}
	if t.Op == "app" {
		switch t.Name {
		case "seq.empty":
			return Int(0)
		case "seq.snoc":
			return Add(Len(t.Args[0]), Int(1))
		case "seq.cat":
			return Add(Len(t.Args[0]), Len(t.Args[1]))
		case "seq.upd":
			return Len(t.Args[0])
		}
	}
	if t.Op == "ite" {
		a, b := Len(t.Args[1]), Len(t.Args[2])
		return Ite(t.Args[0], a, b)
	}
	return App("seq.len", SInt, t)
}
func Nth(t, i *Term) *Term {
	if t.isStr() && i.isInt() && i.N.Sign() >= 0 && i.N.Cmp(big.NewInt(int64(len(t.Name)))) < 0 {
		return Int(int64(t.Name[i.N.Int64()]))
	}
	if t.Op == "app" {
		switch t.Name {
		case "seq.snoc":
			if e := Eq(Len(t.Args[0]), i); e == True {
				return t.Args[1]
			} else if e == False {
				l := Len(t.Args[0])
				if Lt(i, l) == True {
					return Nth(t.Args[0], i)
				}
			}
		case "seq.cat":
			l := Len(t.Args[0])
			if Lt(i, l) == True {
				return Nth(t.Args[0], i)
			}
			if Le(l, i) == True {
				return Nth(t.Args[1], Sub(i, l))
			}
		case "seq.upd":
			if e := Eq(t.Args[1], i); e == False {
				return Nth(t.Args[0], i)
			}
		case "seq.sub":
			// last element of a prefix
			if t.Args[1].isInt() && t.Args[1].N.Sign() == 0 {
				if c := Sub(i, Len(t)); c.isInt() && c.N.Sign() < 0 {
					return Nth(t.Args[0], Add(t.Args[2], c))
				}
			}
			if t.Args[1].isInt() && t.Args[1].N.Sign() >= 0 && i.isInt() && i.N.Sign() >= 0 && t.Args[2].isInt() && Lt(Add(i, t.Args[1]), t.Args[2]) == True {
				return Nth(t.Args[0], Add(i, t.Args[1]))
			}
		}
	}
	if t.Op == "ite" && (t.Args[1].Op == "app" && t.Args[2].Op == "app") {
		return Ite(t.Args[0], Nth(t.Args[1], i), Nth(t.Args[2], i))
	}
	return App("seq.nth", t.S.Elem, t, i)
}
func Snoc(t, x *Term) *Term {
	if x.S != t.S.Elem {
		panic(fmt.Sprintf("snoc %s onto %s", x.S.Name, t.S.Name))
	}
	return App("seq.snoc", t.S, t, x)
}
func Cat(a, b *Term) *Term {
	if a.S != b.S {
		panic("cat sorts " + a.S.Name + " " + b.S.Name)
	}
	if isEmptySeq(a) {
		return b
	}
	if isEmptySeq(b) {
		return a
	}
	if a.isStr() && b.isStr() {
		return StrLit(a.Name + b.Name)
	}
	if b.Op == "app" && b.Name == "seq.snoc" {
		return Snoc(Cat(a, b.Args[0]), b.Args[1])
	}
	if b.Op == "app" && b.Name == "seq.cat" { // left-associate
		return Cat(Cat(a, b.Args[0]), b.Args[1])
	}
	if b.isStr() && a.Op == "app" && a.Name == "seq.cat" && a.Args[1].isStr() {
		return Cat(a.Args[0], StrLit(a.Args[1].Name+b.Name))
	}
	return App("seq.cat", a.S, a, b)
}
func SubSeq(t, i, j *Term) *Term {
	if i == j {
		return EmptySeq(t.S)
	}
	if i.isInt() && i.N.Sign() == 0 && Len(t) == j {
		return t
	}
	if t.isStr() && i.isInt() && j.isInt() {
		a, b := i.N.Int64(), j.N.Int64()
		if 0 <= a && a <= b && b <= int64(len(t.Name)) {
			return StrLit(t.Name[a:b])
		}
	}
	if t.Op == "app" && t.Name == "seq.cat" {
		l := Len(t.Args[0])
		if Le(j, l) == True {
			return SubSeq(t.Args[0], i, j)
		}
		if Le(l, i) == True {
			return SubSeq(t.Args[1], Sub(i, l), Sub(j, l))
		}
		if i.isInt() && i.N.Sign() == 0 && false {
			return nil
		}
		// literal tail: cut inside of it
		if lit := t.Args[1]; lit.isStr() && Le(i, l) == True {
			if c := Sub(Len(t), j); c.isInt() && c.N.Sign() >= 0 && c.N.Cmp(big.NewInt(int64(len(lit.Name)))) <= 0 {
				return Cat(SubSeq(t.Args[0], i, l), StrLit(lit.Name[:len(lit.Name)-int(c.N.Int64())]))
			}
		}
		// literal head: drop it when i is inside/after
		if t.Args[0].isStr() && i.isInt() && i.N.Sign() >= 0 && i.N.Cmp(big.NewInt(int64(len(t.Args[0].Name)))) <= 0 && Len(t) == j {
			return Cat(StrLit(t.Args[0].Name[i.N.Int64():]), t.Args[1])
		}
	}
	if t.Op == "app" && t.Name == "seq.snoc" {
		l := Len(t.Args[0])
		if Le(j, l) == True {
			return SubSeq(t.Args[0], i, j)
		}
		if Eq(j, Len(t)) == True && Le(i, l) == True {
			return Snoc(SubSeq(t.Args[0], i, l), t.Args[1])
		}
	}
	if t.Op == "app" && t.Name == "seq.sub" && i.isInt() && i.N.Sign() >= 0 {
		// sub(sub(x,a,b), i, len(sub(x,a,b))+c) with c <= 0
		a, b := t.Args[1], t.Args[2]
		if true {
			if c := Sub(j, Len(t)); c.isInt() && c.N.Sign() <= 0 && i.N.Sign() == 0 {
				return SubSeq(t.Args[0], a, Add(b, c))
			}
		}
	}
	return App("seq.sub", t.S, t, i, j)
}
func Upd(t, i, x *Term) *Term {
	if t.isStr() && i.isInt() && i.N.Sign() >= 0 && i.N.Cmp(big.NewInt(int64(len(t.Name)))) < 0 && len(t.Name) <= 64 {
		n := int(i.N.Int64())
		r := Snoc(StrLit(t.Name[:n]), x)
		for _, c := range []byte(t.Name[n+1:]) {
			r = Snoc(r, Int(int64(c)))
		}
		return r
	}
	return App("seq.upd", t.S, t, i, x)
}

func PrefixOf(p, s *Term) *Term {
	ps, ss := catParts(p), catParts(s)
	if len(ps) == 1 && ps[0].isStr() && ss[0].isStr() {
		a, b := ps[0].Name, ss[0].Name
		if strings.HasPrefix(b, a) {
			return True
		}
		if len(ss) == 1 || len(a) <= len(b) || !strings.HasPrefix(a, b) {
			return False
		}
	}
	if p == s {
		return True
	}
	if isEmptySeq(p) {
		return True
	}
	return And(Le(Len(p), Len(s)), Eq(SubSeq(s, Int(0), Len(p)), p))
}

// ---- quantifiers

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", vars, body, pats)
}
func quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	used := map[*Term]bool{}
	collectVars(body, used, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if used[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	t := &Term{Op: op, Args: []*Term{body}, Vars: vs, Pats: pats, S: SBool}
	r := intern(t)
	// bound flag: only if other vars remain free
	for _, v := range vs {
		delete(used, v)
	}
	r.bound = len(used) > 0
	return r
}

func collectVars(t *Term, out, seen map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "var" {
		out[t] = true
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		in := map[*Term]bool{}
		collectVars(t.Args[0], in, map[*Term]bool{})
		for _, v := range t.Vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.Args {
		collectVars(a, out, seen)
	}
}

// ---- substitution (rebuilds through the simplifying constructors)

func Subst(t *Term, m map[*Term]*Term) *Term {
	return substMemo(t, m, map[*Term]*Term{})
}
func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = substMemo(a, m, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = rebuild(t, args, func(p *Term) *Term { return substMemo(p, m, memo) })
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term, sub func(*Term) *Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "lin":
		r := BigInt(t.N)
		for i, a := range args {
			r = linAdd(r, linScale(a, t.Cs[i]))
		}
		return r
	case "le":
		return leZero(args[0])
	case "mul":
		return Mul(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "constarr":
		return ConstArr(t.S, args[0])
	case "mk":
		return Mk(t.S, args...)
	case "sel":
		return Sel(args[0], t.Idx)
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, sub(x))
			}
			pats = append(pats, q)
		}
		return quant(t.Op, t.Vars, args[0], pats)
	case "app":
		switch t.Name {
		case "seq.len":
			return Len(args[0])
		case "seq.nth":
			return Nth(args[0], args[1])
		case "seq.snoc":
			return Snoc(args[0], args[1])
		case "seq.cat":
			return Cat(args[0], args[1])
		case "seq.sub":
			return SubSeq(args[0], args[1], args[2])
		case "godiv":
			return GoDiv(args[0], args[1])
		case "gorem":
			return GoRem(args[0], args[1])
		case "tag":
			if n, _, ok := boxParts(args[0]); ok {
				return typeTag(n)
			}
		}
		if strings.HasPrefix(t.Name, "unbox:") {
			return Unbox(args[0], t.Name[6:], t.S)
		}
		if f, ok := foldApp[t.Name]; ok {
			if r := f(args); r != nil {
				return r
			}
		}
		return App(t.Name, t.S, args...)
	}
	n := *t
	n.Args = args
	n.bound = false
	return intern(&n)
}

// foldApp evaluates pure library functions on literal arguments.
var foldApp = map[string]func([]*Term) *Term{}

func UF(name string, s *Sort, args ...*Term) *Term {
	if f, ok := foldApp[name]; ok {
		if r := f(args); r != nil {
			return r
		}
	}
	return App(name, s, args...)
}

// ---- printing (debug)

func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 4000 {
		s = s[:4000] + "…"
	}
	return s
}
func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.Op {
	case "const", "var":
		return t.Name
	case "int":
		return t.N.String()
	case "rlit":
		return t.Name
	case "str":
		return strconv.Quote(t.Name)
	case "true", "false":
		return t.Op
	case "lin":
		var ps []string
		for i, a := range t.Args {
			if t.Cs[i].Cmp(big.NewInt(1)) == 0 {
				ps = append(ps, a.str(d+1))
			} else {
				ps = append(ps, t.Cs[i].String()+"*"+a.str(d+1))
			}
		}
		if t.N.Sign() != 0 {
			ps = append(ps, t.N.String())
		}
		return "(" + strings.Join(ps, " + ") + ")"
	case "le":
		return "(" + t.Args[0].str(d+1) + " <= 0)"
	case "sel":
		return t.Args[0].str(d+1) + "." + t.Args[0].S.FNames[t.Idx]
	case "forall", "exists":
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, v.Name)
		}
		return "(" + t.Op + " " + strings.Join(vs, ",") + " :: " + t.Args[0].str(d+1) + ")"
	}
	n := t.Op
	if t.Op == "app" {
		n = t.Name
	}
	if t.Op == "mk" {
		n = "mk_" + t.S.Name
	}
	var ps []string
	for _, a := range t.Args {
		ps = append(ps, a.str(d+1))
	}
	return n + "(" + strings.Join(ps, ", ") + ")"
}
