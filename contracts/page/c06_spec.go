package page

import (
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/kube"
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
)

// ---- C06 what a part of a search means for the index values m

//@ pure strconv.Quote

const specAdvanced = "__ckube_as__:"

func specQuotedHas(v, value string) bool { return strings.Contains(strconv.Quote(v), value) }

// specValue, specNeg: the value of a part and whether it is negated.
func specNeg(v string) bool { return strings.HasPrefix(v, "!") }
func specValue(v string) string {
	if specNeg(v) {
		return v[1:]
	}
	return v
}

func specIsAdv(t string) bool      { return strings.HasPrefix(t, specAdvanced) }
func specAdvSel(t string) string   { return t[len(specAdvanced):] }
func specKeyOf(t string) string    { return t[:strings.Index(t, "=")] }
func specAfterEq(t string) string  { return t[strings.Index(t, "=")+1:] }
func specIsFuzzy(t string) bool    { return strings.Index(t, "=") < 0 }
func specNoKey(t string) bool      { return strings.HasPrefix(t, "=") }
func specBlank(part string) bool   { return strings.TrimSpace(part) == "" }

//@ uninterpreted specLabels

// specLabels: the index values as a set of labels.
func specLabels(m map[string]string) string { panic(0) }

// specTrimErr: the part t (without surrounding space) is an error for m.
func specTrimErr(m map[string]string, t string) bool {
	if t == "" {
		return false
	}
	if specIsAdv(t) {
		return specAdvSel(t) == "" || !kube.SpecSelOK(specAdvSel(t))
	}
	return !specIsFuzzy(t) && !vHas(m, specKeyOf(t))
}

// specTrimOk: it matches.
func specTrimOk(m map[string]string, t string) bool {
	if t == "" {
		return true
	}
	if specIsAdv(t) {
		return kube.SpecSelHolds(specAdvSel(t), specLabels(m))
	}
	if specIsFuzzy(t) {
		return specNeg(t) != vEx(func(k string) bool { return vHas(m, k) && specQuotedHas(m[k], specValue(t)) })
	}
	return specNeg(specAfterEq(t)) != specQuotedHas(m[specKeyOf(t)], specValue(specAfterEq(t)))
}

func specPartErr(m map[string]string, part string) bool { return specTrimErr(m, strings.TrimSpace(part)) }
func specPartOk(m map[string]string, part string) bool  { return specTrimOk(m, strings.TrimSpace(part)) }

// parts beginning with '=' have no key: nothing is specified about them.
func specPartDefined(part string) bool { return !specNoKey(strings.TrimSpace(part)) }

//@ uninterpreted specSelHolds

func specSelHolds(sel labels.Selector, x string) bool { panic(0) }

//@ func v1.LabelSelectorAsSelector(ps *v1.LabelSelector) (sel labels.Selector, err error)
//@ trusted
//@ requires ps != nil
//@ ensures vImp(kube.SpecLSValid(ps.MatchLabels, ps.MatchExpressions), err == nil)
//@ ensures vImp(err == nil, sel != nil && vAll(func(x string) bool { return vIff(specSelHolds(sel, x), kube.SpecLabelsHold(ps.MatchLabels, x) && kube.SpecAllExprs(ps.MatchExpressions, x)) }))

//@ func (s labels.Selector) Matches(l labels.Labels) (r bool)
//@ trusted
//@ requires vDyn[labels.Set](l)
//@ ensures r == specSelHolds(s, specLabels(vCast[labels.Set](l)))

//@ func Match(m map[string]string, searchParts []string) (ok bool, err error)
//@ requires[C06,C02] vAll(func(j int) bool { return vImp(0 <= j && j < len(searchParts), specPartDefined(searchParts[j])) })
//@ loop[C06,C02](i int) vAll(func(j int) bool { return vImp(0 <= j && j < i, !specPartErr(m, searchParts[j])) })
//@ loop[C06,C02](i int, matched int) 0 <= matched && matched <= i && vIff(matched == i, vAll(func(j int) bool { return vImp(0 <= j && j < i, specPartOk(m, searchParts[j])) }))
//@ loop[C06,C02](i int, all bool) vIff(all, vAll(func(j int) bool { return vImp(0 <= j && j < i, specPartOk(m, searchParts[j])) }))
//@ loop[C06,C02](seen vSet[string], value string) vAll(func(k string) bool { return vImp(vHas(seen, k), !specQuotedHas(m[k], value)) })
//@ ensures[C06,C02] no error hides a malformed part: vImp(err == nil, vAll(func(j int) bool { return vImp(0 <= j && j < len(searchParts), !specPartErr(m, searchParts[j])) }))
//@ ensures[C06,C02] errors only for malformed parts and unknown keys: vImp(err != nil, vEx(func(j int) bool { return 0 <= j && j < len(searchParts) && specPartErr(m, searchParts[j]) }))
//@ ensures[C06,C02] matches iff every part does: vImp(err == nil, vIff(ok, vAll(func(j int) bool { return vImp(0 <= j && j < len(searchParts), specPartOk(m, searchParts[j])) })))
//@ ensures[C02] no match with an error: vImp(err != nil, !ok)
//@ nopanic[C06,C02]

// ---- C06 splitting a search into parts

// specScan reads a search byte by byte: the finished parts, the current part and
// whether a ';' is pending (it is a separator unless another one follows).
type specScanned struct {
	parts []string
	cur   string
	pend  bool
}

func specScan(s string) specScanned {
	if len(s) == 0 {
		return specScanned{parts: []string{}, cur: "", pend: false}
	}
	return specStep(specScan(s[:len(s)-1]), s[len(s)-1])
}

func specStep(st specScanned, c byte) specScanned {
	if c == ';' {
		if st.pend {
			return specScanned{parts: st.parts, cur: st.cur + ";", pend: false}
		}
		return specScanned{parts: st.parts, cur: st.cur, pend: true}
	}
	if st.pend {
		return specScanned{parts: append(st.parts, st.cur), cur: string([]byte{c}), pend: false}
	}
	return specScanned{parts: st.parts, cur: st.cur + string([]byte{c}), pend: false}
}

// specAllParts: all parts of a search, also the empty ones.
func specAllParts(s string) []string {
	st := specScan(s)
	if st.pend {
		return append(append(st.parts, st.cur), "")
	}
	return append(st.parts, st.cur)
}

func specNonEmpty(ps []string) []string {
	if len(ps) == 0 {
		return []string{}
	}
	if ps[len(ps)-1] == "" {
		return specNonEmpty(ps[:len(ps)-1])
	}
	return append(specNonEmpty(ps[:len(ps)-1]), ps[len(ps)-1])
}

// specParts: the parts of a search.
func specParts(s string) []string { return specNonEmpty(specAllParts(s)) }

// specHalf: strings.ReplaceAll(s, ";;", ";"), and whether s ends within a pair.
type specHalved struct {
	out  string
	pend bool
}

func specHalf(s string) specHalved {
	if len(s) == 0 {
		return specHalved{out: "", pend: false}
	}
	return specHalfStep(specHalf(s[:len(s)-1]), s[len(s)-1])
}

func specHalfStep(h specHalved, c byte) specHalved {
	if c == ';' {
		if h.pend {
			return specHalved{out: h.out, pend: false}
		}
		return specHalved{out: h.out + ";", pend: true}
	}
	return specHalved{out: h.out + string([]byte{c}), pend: false}
}

// specDouble: strings.ReplaceAll(s, ";", ";;")
func specDouble(s string) string {
	if len(s) == 0 {
		return ""
	}
	if s[len(s)-1] == ';' {
		return specDouble(s[:len(s)-1]) + ";;"
	}
	return specDouble(s[:len(s)-1]) + string([]byte{s[len(s)-1]})
}

//@ func strings.ReplaceAll(s, old, new string) (r string)
//@ trusted
//@ ensures vImp(old == ";;" && new == ";", r == specHalf(s).out)
//@ ensures vImp(old == ";" && new == ";;", r == specDouble(s))

//@ func (p *Paginate) SearchParts() (r []string)
//@ requires p != nil
//@ loop[C06,C02,C07,C23](i int, start int, parts []string) 0 <= start && start <= i && i <= len(p.Search)
//@ loop[C06,C02,C07,C23](i int, start int, parts []string) vImp(!specScan(p.Search[:i]).pend, vEq(parts, specScan(p.Search[:i]).parts) && specScan(p.Search[:i]).cur == specHalf(p.Search[start:i]).out && !specHalf(p.Search[start:i]).pend)
//@ loop[C06,C02,C07,C23](i int, start int, parts []string) vImp(specScan(p.Search[:i]).pend, start == i && vImp(i < len(p.Search), p.Search[i] != ';') && vEq(parts, append(specScan(p.Search[:i]).parts, specScan(p.Search[:i]).cur)))
//@ loop[C06,C02,C07,C23](i int, parts []string, ps []string) vEq(ps, specNonEmpty(parts[:i]))
//@ ensures[C06,C02] split at single separators: vEq(r, specParts(p.Search))
//@ nopanic[C06,C02]

// ---- C06 building a search from parts and splitting it again

// specApart: the part at index j of a search which is built: only the first one may
// begin with the separator, the others are kept apart from it by a space.
func specApart(j int, part string) string {
	if j > 0 && len(part) > 0 && part[0] == ';' {
		return " " + part
	}
	return part
}
func specApartAll(ps []string) []string {
	if len(ps) == 0 {
		return []string{}
	}
	return append(specApartAll(ps[:len(ps)-1]), specApart(len(ps)-1, ps[len(ps)-1]))
}

func specDoubleAll(ps []string) []string {
	if len(ps) == 0 {
		return []string{}
	}
	return append(specDoubleAll(ps[:len(ps)-1]), specDouble(specApart(len(ps)-1, ps[len(ps)-1])))
}

// specJoined: the search with the given parts.
func specJoined(ps []string) string { return strings.Join(specDoubleAll(ps), ";") }

// specSplittable: no part is empty.
func specSplittable(ps []string) bool {
	return vAll(func(j int) bool { return vImp(0 <= j && j < len(ps), len(ps[j]) > 0) })
}

//@ func (p *Paginate) SetSearchWithParts(parts []string)
//@ requires p != nil
//@ modifies p.Search
//@ loop[C06,C07,C23](i int, pps []string) vEq(pps, specDoubleAll(parts[:i]))
//@ ensures[C06,C07,C23] parts joined by the separator: p.Search == specJoined(parts)
//@ nopanic[C06,C07,C23]

// lemmaAppend: appending the doubled part to a search which ends with a separator,
// or to the empty search.
//@ func lemmaAppend(s string, q string) (u string)
//@ requires len(q) > 0
//@ requires s == "" || specScan(s).pend && q[0] != ';'
//@ loop[C06,C07,C23](j int, u string) 0 <= j && j <= len(q) && u == s + specDouble(q[:j])
//@ loop[C06,C07,C23](j int, u string) vImp(j > 0 && s == "", len(specScan(u).parts) == 0)
//@ loop[C06,C07,C23](j int, u string) vImp(j > 0 && s != "", vEq(specScan(u).parts, append(specScan(s).parts, specScan(s).cur)))
//@ loop[C06,C07,C23](j int, u string) vImp(j > 0, specScan(u).cur == q[:j] && !specScan(u).pend)
//@ ensures[C06,C07,C23] u == s + specDouble(q)
//@ ensures[C06,C07,C23] specScan(u).cur == q && !specScan(u).pend
//@ ensures[C06,C07,C23] vImp(s == "", len(specScan(u).parts) == 0)
//@ ensures[C06,C07,C23] vImp(s != "", vEq(specScan(u).parts, append(specScan(s).parts, specScan(s).cur)))
func lemmaAppend(s string, q string) string {
	u := s
	for j := 0; j < len(q); j++ {
		if q[j] == ';' {
			u = u + ";;"
		} else {
			u = u + string([]byte{q[j]})
		}
	}
	return u
}

//@ func lemmaRoundTrip(parts []string) (s string)
//@ requires specSplittable(parts)
//@ loop[C06,C07,C23](i int, s string) 0 <= i && i <= len(parts) && s == specJoined(parts[:i]) && vEq(specNonEmpty(specApartAll(parts[:i])), specApartAll(parts[:i]))
//@ loop[C06,C07,C23](i int, s string) vIff(i == 0, s == "")
//@ loop[C06,C07,C23](i int, s string) vImp(i > 0, vEq(specScan(s).parts, specApartAll(parts[:i-1])) && specScan(s).cur == specApart(i-1, parts[i-1]) && !specScan(s).pend)
//@ ensures[C06,C07,C23] s == specJoined(parts)
//@ ensures[C06,C07,C23] vEq(specParts(s), specApartAll(parts))
func lemmaRoundTrip(parts []string) string {
	s := ""
	for i := 0; i < len(parts); i++ {
		t := s
		if i > 0 {
			t = s + ";"
		}
		s = lemmaAppend(t, specApart(i, parts[i]))
	}
	return s
}

//@ func specBuildAndSplit(parts []string) (r []string)
//@ requires specSplittable(parts)
//@ ensures[C06] the same parts again: vEq(r, specApartAll(parts))
func specBuildAndSplit(parts []string) []string {
	p := &Paginate{}
	p.SetSearchWithParts(parts)
	lemmaRoundTrip(parts)
	return p.SearchParts()
}

//@ func (p *Paginate) Match(m map[string]string) (ok bool, err error)
//@ requires[C06] p != nil && vAll(func(j int) bool { return vImp(0 <= j && j < len(specParts(p.Search)), specPartDefined(specParts(p.Search)[j])) })
//@ ensures[C06] no error hides a malformed part: vImp(err == nil, vAll(func(j int) bool { return vImp(0 <= j && j < len(specParts(p.Search)), !specPartErr(m, specParts(p.Search)[j])) }))
//@ ensures[C06] errors only for malformed parts and unknown keys: vImp(err != nil, vEx(func(j int) bool { return 0 <= j && j < len(specParts(p.Search)) && specPartErr(m, specParts(p.Search)[j]) }))
//@ ensures[C06] matches iff every part of the search does: vImp(err == nil, vIff(ok, vAll(func(j int) bool { return vImp(0 <= j && j < len(specParts(p.Search)), specPartOk(m, specParts(p.Search)[j])) })))
//@ nopanic[C06]

// ---- C02 the whole search

//@ abstract SpecSearchErr SpecSearchOk SpecSearchDefined

func SpecSearchErr(m map[string]string, search string) bool {
	return vEx(func(j int) bool { return 0 <= j && j < len(specParts(search)) && specPartErr(m, specParts(search)[j]) })
}
func SpecSearchOk(m map[string]string, search string) bool {
	return vAll(func(j int) bool { return vImp(0 <= j && j < len(specParts(search)), specPartOk(m, specParts(search)[j])) })
}

// SpecSearchDefined: every part with '=' has a key.
func SpecSearchDefined(search string) bool {
	return vAll(func(j int) bool { return vImp(0 <= j && j < len(specParts(search)), specPartDefined(specParts(search)[j])) })
}

//@ func (p *Paginate) Match(m map[string]string) (ok bool, err error)
//@ requires[C02] p != nil && SpecSearchDefined(p.Search)
//@ ensures[C02] error iff malformed or unknown key: vIff(err != nil, SpecSearchErr(m, p.Search))
//@ ensures[C02] match iff every part does: vIff(ok, !SpecSearchErr(m, p.Search) && SpecSearchOk(m, p.Search))
