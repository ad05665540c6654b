package kube

import (
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8labels "k8s.io/apimachinery/pkg/labels"
)

// ---- C07

// SpecAllReqsKept: the labels x satisfy all requirements but those on k which are no equality.
func SpecAllReqsKept(rs []k8labels.Requirement, x, k string) bool {
	if len(rs) == 0 {
		return true
	}
	return SpecAllReqsKept(rs[:len(rs)-1], x, k) && (SpecReqKey(rs[len(rs)-1]) == k && !specOpEq(SpecReqOp(rs[len(rs)-1])) || specReqHolds(rs[len(rs)-1], x))
}

//@ uninterpreted SpecFormat

// SpecFormat: a label selector as text.
func SpecFormat(m map[string]string, es []v1.LabelSelectorRequirement) string { panic(0) }

//@ func v1.FormatLabelSelector(ls *v1.LabelSelector) (r string)
//@ trusted
//@ ensures[C07,C23] r == SpecFormat(ls.MatchLabels, ls.MatchExpressions)

//@ func ParseToLabelSelector(selector string) (ls *v1.LabelSelector, err error)
//@ loop[C07,C23](i int, ls *v1.LabelSelector) vAll(func(x, k string) bool { return vImp(SpecAllReqsBut(SpecReqs(selector)[:i], x, k), SpecLabelsHoldBut(ls.MatchLabels, x, k) && SpecAllExprsBut(ls.MatchExpressions, x, k)) })
//@ loop[C07,C23](i int, ls *v1.LabelSelector) vAll(func(x, k string) bool { return vImp(SpecLabelsHoldBut(ls.MatchLabels, x, k) && SpecAllExprsBut(ls.MatchExpressions, x, k), SpecAllReqsBut(SpecReqs(selector)[:i], x, k)) })
//@ loop[C07,C23](i int, ls *v1.LabelSelector) vAll(func(x, k string) bool { return vImp(SpecAllReqsKept(SpecReqs(selector)[:i], x, k), SpecLabelsHold(ls.MatchLabels, x) && SpecAllExprsBut(ls.MatchExpressions, x, k)) })
//@ ensures[C07,C23] result or error: vIff(err == nil, ls != nil)
//@ ensures[C07,C23] a new selector: vImp(err == nil, vFresh(ls) && vFresh(ls.MatchLabels) && ls.MatchLabels != nil)
//@ ensures[C07,C23] conditions on other keys kept: vImp(err == nil, vAll(func(x, k string) bool { return vImp(SpecLabelsHoldBut(ls.MatchLabels, x, k) && SpecAllExprsBut(ls.MatchExpressions, x, k), SpecAllReqsBut(SpecReqs(selector), x, k)) }))
//@ ensures[C07,C23] no condition added: vImp(err == nil, vAll(func(x, k string) bool { return vImp(SpecAllReqsKept(SpecReqs(selector), x, k), SpecLabelsHold(ls.MatchLabels, x) && SpecAllExprsBut(ls.MatchExpressions, x, k)) }))
//@ nopanic[C07]
