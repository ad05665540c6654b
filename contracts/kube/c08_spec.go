package kube

import (
	"fmt"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8labels "k8s.io/apimachinery/pkg/labels"
)

// ---- C08: long label values

// specPiece: piece number i of a long value, the text after its offset.
func specPiece(value string, i int) string {
	return fmt.Sprintf("%04d.%s", i*eachPartLen, specText(value, i))
}
func specText(value string, i int) string {
	if len(value) <= (i+1)*eachPartLen {
		return value[i*eachPartLen:]
	}
	return value[i*eachPartLen : (i+1)*eachPartLen]
}

// specPieces: the label values a value is split into.
func specPieces(r []string, value string) bool {
	if len(value) <= eachPartLen {
		return len(r) == 1 && r[0] == value
	}
	return (len(r)-1)*eachPartLen < len(value) && len(value) <= len(r)*eachPartLen &&
		vAll(func(j int) bool { return vImp(0 <= j && j < len(r), r[j] == specPiece(value, j)) })
}

// SpecIsPiece: v is one of them.
func SpecIsPiece(v, value string) bool {
	if len(value) <= eachPartLen {
		return v == value
	}
	return vEx(func(j int) bool { return 0 <= j && j*eachPartLen < len(value) && v == specPiece(value, j) })
}

//@ func SplittingValue(value string) (r []string)
//@ ensures[C08,C23] only pieces: vAll(func(v string) bool { return vImp(vMem(r, v), SpecIsPiece(v, value)) })
//@ ensures[C08,C23] every piece: vAll(func(v string) bool { return vImp(SpecIsPiece(v, value), vMem(r, v)) })
//@ loop[C08,C23](i int, res []string) i == len(res)*eachPartLen && 0 <= i && i < len(value) && len(value) > eachPartLen
//@ loop[C08,C23](res []string) vAll(func(j int) bool { return vImp(0 <= j && j < len(res), res[j] == specPiece(value, j)) })
//@ loop[C08,C23](res []string) vAll(func(j int) bool { return vImp(0 <= j && j < len(res), vMem(res, specPiece(value, j))) })
//@ ensures[C08,C23] every piece once, in order: specPieces(r, value)
//@ nopanic[C08,C23]

// SpecAllReqsBut: the labels x satisfy all requirements on other keys than k.
func SpecAllReqsBut(rs []k8labels.Requirement, x, k string) bool {
	if len(rs) == 0 {
		return true
	}
	return SpecAllReqsBut(rs[:len(rs)-1], x, k) && (SpecReqKey(rs[len(rs)-1]) == k || specReqHolds(rs[len(rs)-1], x))
}
func SpecAllExprsBut(es []v1.LabelSelectorRequirement, x, k string) bool {
	if len(es) == 0 {
		return true
	}
	return SpecAllExprsBut(es[:len(es)-1], x, k) && (es[len(es)-1].Key == k || specExprHolds(es[len(es)-1], x))
}
func SpecLabelsHoldBut(m map[string]string, x, k string) bool {
	return vAll(func(l string) bool { return vImp(vHas(m, l) && l != k, SpecLblHas(x, l) && SpecLblGet(x, l) == m[l]) })
}

// SpecHasReqOn, SpecHasExprOn: some condition is on the key k.
func SpecHasReqOn(rs []k8labels.Requirement, k string) bool {
	if len(rs) == 0 {
		return false
	}
	return SpecHasReqOn(rs[:len(rs)-1], k) || SpecReqKey(rs[len(rs)-1]) == k
}
func SpecHasExprOn(es []v1.LabelSelectorRequirement, k string) bool {
	if len(es) == 0 {
		return false
	}
	return SpecHasExprOn(es[:len(es)-1], k) || es[len(es)-1].Key == k
}

// SpecReqIs: the requirement says the same as the expression.
func SpecReqIs(r k8labels.Requirement, e v1.LabelSelectorRequirement) bool {
	return SpecReqKey(r) == e.Key && vIff(SpecOpIn(SpecReqOp(r)), e.Operator == v1.LabelSelectorOpIn) && vIff(SpecOpNotIn(SpecReqOp(r)), e.Operator == v1.LabelSelectorOpNotIn) &&
		vAll(func(v string) bool { return vIff(SpecReqHas(r, v), vMem(e.Values, v)) })
}

// ---- the selector printer of the Kubernetes libraries (trusted)

//@ uninterpreted SpecExprAt

// SpecExprAt: the expression printed as requirement j, -1 if it is from the equality part.
func SpecExprAt(selector string, j int) int { panic(0) }

//@ func v1.FormatLabelSelector(ls *v1.LabelSelector) (r string)
//@ trusted
//@ requires ls != nil
//@ ensures vIff(r != "<error>", SpecLSValid(ls.MatchLabels, ls.MatchExpressions))
//@ ensures vImp(r != "<error>" && len(ls.MatchLabels)+len(ls.MatchExpressions) > 0, SpecSelOK(r))
//@ ensures vImp(r != "<error>" && len(ls.MatchLabels)+len(ls.MatchExpressions) > 0, vAll(func(x string) bool { return vIff(SpecSelHolds(r, x), SpecLabelsHold(ls.MatchLabels, x) && SpecAllExprs(ls.MatchExpressions, x)) }))
//@ ensures[C08,C23] vImp(r != "<error>" && len(ls.MatchLabels)+len(ls.MatchExpressions) > 0, vAll(func(x, k string) bool { return vIff(SpecAllReqsBut(SpecReqs(r), x, k), SpecLabelsHoldBut(ls.MatchLabels, x, k) && SpecAllExprsBut(ls.MatchExpressions, x, k)) }))
//@ ensures[C08,C23] vImp(r != "<error>" && len(ls.MatchLabels)+len(ls.MatchExpressions) > 0, vAll(func(k string) bool { return vIff(SpecHasReqOn(SpecReqs(r), k), SpecHasExprOn(ls.MatchExpressions, k) || vHas(ls.MatchLabels, k)) }))
//@ ensures[C08,C23] vImp(r != "<error>" && len(ls.MatchLabels)+len(ls.MatchExpressions) > 0, vAll(func(j int) bool { return vImp(0 <= j && j < len(SpecReqs(r)), 0 <= SpecExprAt(r, j) && SpecExprAt(r, j) < len(ls.MatchExpressions) && SpecReqIs(SpecReqs(r)[j], ls.MatchExpressions[SpecExprAt(r, j)]) ||
//@ | vHas(ls.MatchLabels, SpecReqKey(SpecReqs(r)[j]))) }))

//@ func ParseToLabelSelector(selector string) (ls *v1.LabelSelector, err error)
//@ loop[C08,C23](i int, ls *v1.LabelSelector) vAll(func(x, k string) bool { return vImp(SpecAllReqsBut(SpecReqs(selector)[:i], x, k), SpecLabelsHoldBut(ls.MatchLabels, x, k) && SpecAllExprsBut(ls.MatchExpressions, x, k)) })
//@ loop[C08,C23](i int, ls *v1.LabelSelector) vAll(func(x, k string) bool { return vImp(SpecLabelsHoldBut(ls.MatchLabels, x, k) && SpecAllExprsBut(ls.MatchExpressions, x, k), SpecAllReqsBut(SpecReqs(selector)[:i], x, k)) })
//@ ensures[C08,C23] result or error: vIff(err == nil, ls != nil)
//@ ensures[C08,C23] only well formed selectors: vImp(err == nil, SpecSyntax(selector))
//@ ensures[C08,C23] a new selector: vImp(err == nil, vFresh(ls) && vFresh(ls.MatchLabels) && ls.MatchLabels != nil)
//@ ensures[C08,C23] the same conditions on every set of keys: vImp(err == nil, vAll(func(x, k string) bool { return vIff(SpecAllReqsBut(SpecReqs(selector), x, k), SpecLabelsHoldBut(ls.MatchLabels, x, k) && SpecAllExprsBut(ls.MatchExpressions, x, k)) }))
//@ nopanic[C08,C23]
