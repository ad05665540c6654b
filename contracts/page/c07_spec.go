package page

import (
	"strconv"
	"strings"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8labels "k8s.io/apimachinery/pkg/labels"

	"github.com/DaoCloud/ckube/kube"
)

// ---- C07 the advanced part of a search, and the search with another one

// specFirst: the first advanced part, "" if there is none.
func specFirst(ps []string) string {
	if len(ps) == 0 {
		return ""
	}
	if specFirst(ps[:len(ps)-1]) != "" {
		return specFirst(ps[:len(ps)-1])
	}
	if specIsAdv(strings.TrimSpace(ps[len(ps)-1])) {
		return strings.TrimSpace(ps[len(ps)-1])
	}
	return ""
}

// specWith: part a and then all parts but the first advanced one.
func specWith(a string, ps []string) []string {
	if len(ps) == 0 {
		return []string{a}
	}
	if specFirst(ps[:len(ps)-1]) == "" && specIsAdv(strings.TrimSpace(ps[len(ps)-1])) {
		return specWith(a, ps[:len(ps)-1])
	}
	return append(specWith(a, ps[:len(ps)-1]), ps[len(ps)-1])
}

//@ func lemmaFirst(ps []string) (r bool)
//@ loop[C07,C23](n int) 0 <= n && n <= len(ps) && vAll(func(i int) bool { return vImp(0 <= i && i < n && specFirst(ps[:i]) == "" && specIsAdv(strings.TrimSpace(ps[i])), specFirst(ps[:n]) == strings.TrimSpace(ps[i])) })
//@ ensures[C07,C23] the first one decides: vAll(func(i int) bool { return vImp(0 <= i && i < len(ps) && specFirst(ps[:i]) == "" && specIsAdv(strings.TrimSpace(ps[i])), specFirst(ps) == strings.TrimSpace(ps[i])) })
func lemmaFirst(ps []string) bool {
	for n := 0; n < len(ps); n++ {
	}
	return true
}

//@ func lemmaNonEmpty(ps []string) (r bool)
//@ loop[C07,C23](n int) 0 <= n && n <= len(ps) && specSplittable(specNonEmpty(ps[:n]))
//@ ensures[C07,C23] no empty part: specSplittable(specNonEmpty(ps))
func lemmaNonEmpty(ps []string) bool {
	for n := 0; n < len(ps); n++ {
	}
	return true
}

//@ func lemmaWith(a string, ps []string) (r bool)
//@ requires len(a) > 0 && specSplittable(ps)
//@ loop[C07,C23](n int) 0 <= n && n <= len(ps) && specSplittable(specWith(a, ps[:n])) && len(specWith(a, ps[:n])) > 0 && specWith(a, ps[:n])[0] == a
//@ ensures[C07,C23] no empty part: specSplittable(specWith(a, ps)) && len(specWith(a, ps)) > 0 && specWith(a, ps)[0] == a
func lemmaWith(a string, ps []string) bool {
	for n := 0; n < len(ps); n++ {
	}
	return true
}

//@ func lemmaApart(ps []string) (r bool)
//@ loop[C07,C23](n int) 0 <= n && n <= len(ps) && len(specApartAll(ps[:n])) == n && vAll(func(j int) bool { return vImp(0 <= j && j < n, specApartAll(ps[:n])[j] == specApart(j, ps[j])) })
//@ ensures[C07,C23] one by one: len(specApartAll(ps)) == len(ps) && vAll(func(j int) bool { return vImp(0 <= j && j < len(ps), specApartAll(ps)[j] == specApart(j, ps[j])) })
func lemmaApart(ps []string) bool {
	for n := 0; n < len(ps); n++ {
	}
	return true
}

// specReqsOf: the requirements of the advanced part of a search.
func specReqsOf(search string) []k8labels.Requirement {
	if specFirst(specParts(search)) == "" || specAdvSel(specFirst(specParts(search))) == "" {
		return []k8labels.Requirement{}
	}
	return kube.SpecReqs(specAdvSel(specFirst(specParts(search))))
}

//@ func (p *Paginate) SearchParts() (r []string)
//@ ensures[C07,C23] split at single separators: vEq(r, specParts(p.Search))

//@ func (p *Paginate) SearchSelector() (ls *v1.LabelSelector, err error)
//@ requires p != nil
//@ loop[C07,C23](i int, ps []string) specFirst(ps[:i]) == ""
//@ use[C07,C23] lemmaFirst(specParts(p.Search))
//@ ensures[C07,C23] result or error: vIff(err == nil, ls != nil)
//@ ensures[C07,C23] a new selector: vImp(err == nil, vFresh(ls))
//@ ensures[C07,C23] conditions of the advanced part: vImp(err == nil, vAll(func(x, k string) bool { return vImp(kube.SpecLabelsHoldBut(ls.MatchLabels, x, k) && kube.SpecAllExprsBut(ls.MatchExpressions, x, k), kube.SpecAllReqsBut(specReqsOf(p.Search), x, k)) }))
//@ ensures[C07,C23] no others: vImp(err == nil, vAll(func(x, k string) bool { return vImp(kube.SpecAllReqsKept(specReqsOf(p.Search), x, k), kube.SpecLabelsHold(ls.MatchLabels, x) && kube.SpecAllExprsBut(ls.MatchExpressions, x, k)) }))
//@ nopanic[C07]

//@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) (err error)
//@ requires p != nil && selector != nil && len(selector.MatchLabels)+len(selector.MatchExpressions) > 0
//@ modifies p.Search
//@ loop[C07,C23](i int, ps []string, pps []string) vEq(pps, specWith(specAdvanced+kube.SpecFormat(selector.MatchLabels, selector.MatchExpressions), ps[:i]))
//@ loop[C07,C23](i int, ps []string, replaced bool) vIff(replaced, specFirst(ps[:i]) != "")
//@ use[C07,C23] lemmaNonEmpty(specAllParts(vOld(p.Search)))
//@ use[C07,C23] lemmaWith(specAdvanced+kube.SpecFormat(selector.MatchLabels, selector.MatchExpressions), specParts(vOld(p.Search)))
//@ use[C07,C23] lemmaRoundTrip(specWith(specAdvanced+kube.SpecFormat(selector.MatchLabels, selector.MatchExpressions), specParts(vOld(p.Search))))
//@ use[C07,C23] lemmaApart(specWith(specAdvanced+kube.SpecFormat(selector.MatchLabels, selector.MatchExpressions), specParts(vOld(p.Search))))
//@ ensures[C07,C23] an error leaves the search: vImp(err != nil, p.Search == vOld(p.Search))
//@ ensures[C07,C23] accepted by the library: vImp(err == nil, kube.SpecLSValid(selector.MatchLabels, selector.MatchExpressions))
//@ ensures[C07,C23] with the meaning of the selector: vImp(err == nil, kube.SpecSelOK(kube.SpecFormat(selector.MatchLabels, selector.MatchExpressions)) && vAll(func(x string) bool { return vIff(kube.SpecSelHolds(kube.SpecFormat(selector.MatchLabels, selector.MatchExpressions), x), kube.SpecLabelsHold(selector.MatchLabels, x) && kube.SpecAllExprs(selector.MatchExpressions, x)) }))
//@ ensures[C07,C23] the selector comes first: vImp(err == nil, len(specParts(p.Search)) > 0 && specParts(p.Search)[0] == specAdvanced+kube.SpecFormat(selector.MatchLabels, selector.MatchExpressions))
//@ ensures[C07,C23] only the advanced part is replaced: vImp(err == nil, vEq(specParts(p.Search), specApartAll(specWith(specAdvanced+kube.SpecFormat(selector.MatchLabels, selector.MatchExpressions), specParts(vOld(p.Search))))))
//@ nopanic[C07]

// SpecIn: label k of x is one of the values.
func SpecIn(x, k string, vs []string) bool {
	return kube.SpecLblHas(x, k) && vMem(vs, kube.SpecLblGet(x, k))
}

// specNew: the selector of a search which was just set.
func specNew(search string) string { return specAdvSel(specParts(search)[0]) }

// SpecRestricted: the search, which was old before, is restricted to the values of key k.
func SpecRestrictedIn(search, old, k string, vs []string) bool {
	return len(specParts(search)) > 0 && specIsAdv(specParts(search)[0]) && kube.SpecSelOK(specNew(search)) &&
		vAll(func(x string) bool { return vImp(kube.SpecSelHolds(specNew(search), x), SpecIn(x, k, vs)) })
}
func specKeepsSelector(search, old, k string) bool {
	return vAll(func(x string) bool {
		return vImp(kube.SpecSelHolds(specNew(search), x), kube.SpecAllReqsBut(specReqsOf(old), x, k))
	})
}
func specAddsNothing(search, old, k string, vs []string) bool {
	return vAll(func(x string) bool {
		return vImp(SpecIn(x, k, vs) && kube.SpecAllReqsKept(specReqsOf(old), x, k), kube.SpecSelHolds(specNew(search), x))
	})
}
func specKeepsParts(search, old string) bool {
	return vEq(specParts(search), specApartAll(specWith(specParts(search)[0], specParts(old))))
}

//@ func (p *Paginate) Namespaces(vs []string) (err error)
//@ requires p != nil
//@ modifies p.Search
//@ loop[C07,C23](mes []v1.LabelSelectorRequirement) len(mes) > 0
//@ loop[C07,C23](i int, mes []v1.LabelSelectorRequirement, es []v1.LabelSelectorRequirement) vAll(func(x string) bool { return vImp(kube.SpecAllExprs(mes, x), SpecIn(x, "namespace", vs) && kube.SpecAllExprsBut(es[:i], x, "namespace")) })
//@ loop[C07,C23](i int, mes []v1.LabelSelectorRequirement, es []v1.LabelSelectorRequirement) vAll(func(x string) bool { return vImp(SpecIn(x, "namespace", vs) && kube.SpecAllExprsBut(es[:i], x, "namespace"), kube.SpecAllExprs(mes, x)) })
//@ ensures[C07,C23] an error leaves the search: vImp(err != nil, p.Search == vOld(p.Search))
//@ ensures[C07,C23] restricted: vImp(err == nil, SpecRestrictedIn(p.Search, vOld(p.Search), "namespace", vs))
//@ ensures[C07,C23] other conditions of the selector kept: vImp(err == nil, specKeepsSelector(p.Search, vOld(p.Search), "namespace"))
//@ ensures[C07,C23] nothing else added: vImp(err == nil, specAddsNothing(p.Search, vOld(p.Search), "namespace", vs))
//@ ensures[C07,C23] other parts kept: vImp(err == nil, specKeepsParts(p.Search, vOld(p.Search)))
//@ nopanic[C07]

//@ func (p *Paginate) Clusters(vs []string) (err error)
//@ requires p != nil
//@ modifies p.Search
//@ loop[C07,C23](mes []v1.LabelSelectorRequirement) len(mes) > 0
//@ loop[C07,C23](i int, mes []v1.LabelSelectorRequirement, es []v1.LabelSelectorRequirement) vAll(func(x string) bool { return vImp(kube.SpecAllExprs(mes, x), SpecIn(x, "cluster", vs) && kube.SpecAllExprsBut(es[:i], x, "cluster")) })
//@ loop[C07,C23](i int, mes []v1.LabelSelectorRequirement, es []v1.LabelSelectorRequirement) vAll(func(x string) bool { return vImp(SpecIn(x, "cluster", vs) && kube.SpecAllExprsBut(es[:i], x, "cluster"), kube.SpecAllExprs(mes, x)) })
//@ ensures[C07,C23] an error leaves the search: vImp(err != nil, p.Search == vOld(p.Search))
//@ ensures[C07,C23] restricted: vImp(err == nil, SpecRestrictedIn(p.Search, vOld(p.Search), "cluster", vs))
//@ ensures[C07,C23] other conditions of the selector kept: vImp(err == nil, specKeepsSelector(p.Search, vOld(p.Search), "cluster"))
//@ ensures[C07,C23] nothing else added: vImp(err == nil, specAddsNothing(p.Search, vOld(p.Search), "cluster", vs))
//@ ensures[C07,C23] other parts kept: vImp(err == nil, specKeepsParts(p.Search, vOld(p.Search)))
//@ nopanic[C07]

// specWithCluster: the parts with two more, which only the cluster satisfies.
func specWithCluster(ps []string, cluster string) []string {
	return append(append(ps, "cluster="+strconv.Quote(cluster)), "cluster=!\\"+strconv.Quote(cluster))
}

//@ func lemmaTwoMore(ps []string, a, b string) (r bool)
//@ requires specSplittable(ps) && len(a) > 0 && len(b) > 0
//@ ensures[C07] no empty part: specSplittable(append(append(ps, a), b))
func lemmaTwoMore(ps []string, a, b string) bool { return true }

//@ func (p *Paginate) InCluster(cluster string)
//@ requires p != nil
//@ modifies p.Search
//@ use[C07] lemmaNonEmpty(specAllParts(vOld(p.Search)))
//@ use[C07] lemmaTwoMore(specParts(vOld(p.Search)), "cluster="+strconv.Quote(cluster), "cluster=!\\"+strconv.Quote(cluster))
//@ use[C07] lemmaRoundTrip(specWithCluster(specParts(vOld(p.Search)), cluster))
//@ ensures[C07] restricted to the cluster: vEq(specParts(p.Search), specApartAll(specWithCluster(specParts(vOld(p.Search)), cluster))) ||
//@ | len(specParts(p.Search)) > 0 && specIsAdv(specParts(p.Search)[0]) && kube.SpecSelOK(specNew(p.Search)) && vAll(func(x string) bool { return vImp(kube.SpecSelHolds(specNew(p.Search), x), kube.SpecLblHas(x, "cluster") && kube.SpecLblGet(x, "cluster") == cluster) })
//@ ensures[C07] other conditions of the search kept: vEq(specParts(p.Search), specApartAll(specWithCluster(specParts(vOld(p.Search)), cluster))) || specKeepsSelector(p.Search, vOld(p.Search), "cluster") && specKeepsParts(p.Search, vOld(p.Search))
//@ nopanic[C07]
