package kube

import (
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8labels "k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/selection"
	"k8s.io/apimachinery/pkg/util/sets"
	"k8s.io/apimachinery/pkg/util/validation/field"
)

// ---- the selector parser of the Kubernetes libraries (trusted)

//@ uninterpreted SpecSyntax SpecReqs SpecReqKey SpecReqOp SpecReqHas

//@ uninterpreted SpecKeyOK SpecValueOK

// the keys and values allowed in label selectors
func SpecKeyOK(k string) bool   { panic(0) }
func SpecValueOK(v string) bool { panic(0) }

// SpecReqValid: requirements have allowed keys and values, In and NotIn at least one, Exists none.
func SpecReqValid(r k8labels.Requirement) bool {
	return SpecKeyOK(SpecReqKey(r)) && vAll(func(v string) bool { return vImp(SpecReqHas(r, v), SpecValueOK(v)) }) &&
		vImp(SpecOpIn(SpecReqOp(r)) || SpecOpNotIn(SpecReqOp(r)), SpecReqHas(r, specReqSome(r))) &&
		vImp(SpecReqOp(r) == selection.Exists || SpecReqOp(r) == selection.DoesNotExist, vAll(func(v string) bool { return !SpecReqHas(r, v) }))
}

//@ uninterpreted specReqSome

func specReqSome(r k8labels.Requirement) string { panic(0) }

// SpecExprValid: the expression is accepted by the Kubernetes libraries.
func SpecExprValid(e v1.LabelSelectorRequirement) bool {
	return SpecKeyOK(e.Key) && vAll(func(i int) bool { return vImp(0 <= i && i < len(e.Values), SpecValueOK(e.Values[i])) }) &&
		vIff(e.Operator == v1.LabelSelectorOpIn || e.Operator == v1.LabelSelectorOpNotIn, len(e.Values) > 0)
}

// SpecLSValid: so is the label selector.
func SpecLSValid(m map[string]string, es []v1.LabelSelectorRequirement) bool {
	return SpecExprOps(es) && vAll(func(i int) bool { return vImp(0 <= i && i < len(es), SpecExprValid(es[i])) }) &&
		vAll(func(k string) bool { return vImp(vHas(m, k), SpecKeyOK(k) && SpecValueOK(m[k])) })
}

// SpecSyntax: the string is a well formed selector.
func SpecSyntax(selector string) bool { panic(0) }

// SpecReqs: its requirements.
func SpecReqs(selector string) []k8labels.Requirement { panic(0) }

func SpecReqKey(r k8labels.Requirement) string            { panic(0) }
func SpecReqOp(r k8labels.Requirement) selection.Operator { panic(0) }

// SpecReqHas: the value is one of those of the requirement.
func SpecReqHas(r k8labels.Requirement, v string) bool { panic(0) }

//@ func k8labels.ParseToRequirements(selector string, opts ...field.PathOption) (reqs []k8labels.Requirement, err error)
//@ trusted
//@ ensures vIff(err == nil, SpecSyntax(selector))
//@ ensures vImp(err == nil, vEq(reqs, SpecReqs(selector)))
//@ ensures[C06,C02] vImp(err == nil, vAll(func(i int) bool { return vImp(0 <= i && i < len(reqs), SpecReqValid(reqs[i])) }))

//@ func (r *k8labels.Requirement) Key() (k string)
//@ trusted
//@ ensures k == SpecReqKey(*r)

//@ func (r *k8labels.Requirement) Operator() (o selection.Operator)
//@ trusted
//@ ensures o == SpecReqOp(*r)

//@ func (r *k8labels.Requirement) Values() (vs sets.String)
//@ trusted
//@ ensures vFresh(vs) && vs != nil && vAll(func(v string) bool { return vIff(vHas(vs, v), SpecReqHas(*r, v)) })
// the library only builds equality requirements of one value
//@ ensures vImp(specOpEq(SpecReqOp(*r)), len(vs) == 1)

//@ func (s sets.String) Len() (n int)
//@ trusted
//@ ensures n == len(s)

//@ func (s sets.String) PopAny() (v string, ok bool)
//@ trusted
//@ modifies s
//@ ensures vImp(ok, vOld(vHas(s, v)) && vImp(vOld(len(s)) == 1, vAll(func(w string) bool { return vImp(vOld(vHas(s, w)), w == v) })))
//@ ensures vIff(ok, vOld(len(s)) != 0)

//@ func (s sets.String) List() (r []string)
//@ trusted
//@ ensures vAll(func(v string) bool { return vIff(vMem(r, v), vHas(s, v)) })
//@ ensures vIff(len(r) == 0, vAll(func(v string) bool { return !vHas(s, v) }))

// ---- C09 the meaning of selectors on an (abstract) set of labels x

//@ uninterpreted SpecLblHas SpecLblGet

func SpecLblHas(x, key string) bool   { panic(0) }
func SpecLblGet(x, key string) string { panic(0) }

func specOpEq(o selection.Operator) bool { return o == selection.Equals || o == selection.DoubleEquals }
func SpecOpIn(o selection.Operator) bool { return specOpEq(o) || o == selection.In }
func SpecOpNotIn(o selection.Operator) bool {
	return o == selection.NotIn || o == selection.NotEquals
}
func SpecOpSupported(o selection.Operator) bool {
	return SpecOpIn(o) || SpecOpNotIn(o) || o == selection.Exists || o == selection.DoesNotExist
}

// specReqHolds: the labels x satisfy the requirement.
func specReqHolds(r k8labels.Requirement, x string) bool {
	if SpecOpIn(SpecReqOp(r)) {
		return SpecLblHas(x, SpecReqKey(r)) && SpecReqHas(r, SpecLblGet(x, SpecReqKey(r)))
	}
	if SpecOpNotIn(SpecReqOp(r)) {
		return !(SpecLblHas(x, SpecReqKey(r)) && SpecReqHas(r, SpecLblGet(x, SpecReqKey(r))))
	}
	if SpecReqOp(r) == selection.Exists {
		return SpecLblHas(x, SpecReqKey(r))
	}
	return !SpecLblHas(x, SpecReqKey(r))
}

// SpecAllReqs: they satisfy all requirements.
func SpecAllReqs(rs []k8labels.Requirement, x string) bool {
	if len(rs) == 0 {
		return true
	}
	return SpecAllReqs(rs[:len(rs)-1], x) && specReqHolds(rs[len(rs)-1], x)
}

// specExprHolds: the labels x satisfy the expression of a label selector.
func specExprHolds(e v1.LabelSelectorRequirement, x string) bool {
	if e.Operator == v1.LabelSelectorOpIn {
		return SpecLblHas(x, e.Key) && vMem(e.Values, SpecLblGet(x, e.Key))
	}
	if e.Operator == v1.LabelSelectorOpNotIn {
		return !(SpecLblHas(x, e.Key) && vMem(e.Values, SpecLblGet(x, e.Key)))
	}
	if e.Operator == v1.LabelSelectorOpExists {
		return SpecLblHas(x, e.Key)
	}
	return !SpecLblHas(x, e.Key)
}

// SpecAllExprs: they satisfy all expressions.
func SpecAllExprs(es []v1.LabelSelectorRequirement, x string) bool {
	if len(es) == 0 {
		return true
	}
	return SpecAllExprs(es[:len(es)-1], x) && specExprHolds(es[len(es)-1], x)
}

// SpecLabelsHold: they satisfy the equality part.
func SpecLabelsHold(m map[string]string, x string) bool {
	return vAll(func(k string) bool { return vImp(vHas(m, k), SpecLblHas(x, k) && SpecLblGet(x, k) == m[k]) })
}

func SpecExprOps(es []v1.LabelSelectorRequirement) bool {
	return vAll(func(i int) bool {
		return vImp(0 <= i && i < len(es), es[i].Operator == v1.LabelSelectorOpIn || es[i].Operator == v1.LabelSelectorOpNotIn || es[i].Operator == v1.LabelSelectorOpExists || es[i].Operator == v1.LabelSelectorOpDoesNotExist)
	})
}

// SpecSelOK: the string is a selector and all its operators are supported.
func SpecSelOK(selector string) bool {
	return SpecSyntax(selector) && vAll(func(j int) bool {
		return vImp(0 <= j && j < len(SpecReqs(selector)), SpecOpSupported(SpecReqOp(SpecReqs(selector)[j])))
	})
}

// SpecSelHolds: the labels x satisfy the selector.
func SpecSelHolds(selector, x string) bool { return SpecAllReqs(SpecReqs(selector), x) }

//@ func ParseToLabelSelector(selector string) (ls *v1.LabelSelector, err error)
//@ loop(i int, ls *v1.LabelSelector) ls != nil && vFresh(ls) && vFresh(ls.MatchLabels) && ls.MatchLabels != nil
//@ loop(i int, ls *v1.LabelSelector) vAll(func(x string) bool { return vImp(SpecAllReqs(SpecReqs(selector)[:i], x), SpecLabelsHold(ls.MatchLabels, x)) })
//@ loop(i int, ls *v1.LabelSelector) vAll(func(x string) bool { return vImp(SpecAllReqs(SpecReqs(selector)[:i], x), SpecAllExprs(ls.MatchExpressions, x)) })
//@ loop(i int, ls *v1.LabelSelector) vAll(func(x string) bool { return vImp(SpecLabelsHold(ls.MatchLabels, x) && SpecAllExprs(ls.MatchExpressions, x), SpecAllReqs(SpecReqs(selector)[:i], x)) })
//@ loop(i int, ls *v1.LabelSelector) SpecExprOps(ls.MatchExpressions)
//@ loop(i int) vAll(func(j int) bool { return vImp(0 <= j && j < i, SpecOpSupported(SpecReqOp(SpecReqs(selector)[j]))) })
//@ ensures[C09,C06,C02,C14] result or error: vIff(err == nil, ls != nil)
//@ ensures[C09,C06,C02] only well formed selectors: vImp(err == nil, SpecSyntax(selector))
//@ ensures[C09,C06,C02] unsupported operators are rejected: vImp(err == nil, vAll(func(j int) bool { return vImp(0 <= j && j < len(SpecReqs(selector)), SpecOpSupported(SpecReqOp(SpecReqs(selector)[j]))) }))
//@ ensures[C09,C06,C02] every supported selector is converted: vImp(SpecSyntax(selector) && vAll(func(j int) bool { return vImp(0 <= j && j < len(SpecReqs(selector)), SpecOpSupported(SpecReqOp(SpecReqs(selector)[j]))) }), err == nil)
//@ ensures[C09,C06,C02] all requirements satisfied imply the equality part: vImp(err == nil, vAll(func(x string) bool { return vImp(SpecAllReqs(SpecReqs(selector), x), SpecLabelsHold(ls.MatchLabels, x)) }))
//@ ensures[C09,C06,C02] all requirements satisfied imply the expressions: vImp(err == nil, vAll(func(x string) bool { return vImp(SpecAllReqs(SpecReqs(selector), x), SpecAllExprs(ls.MatchExpressions, x)) }))
//@ ensures[C09,C06,C02] the converted selector implies all requirements: vImp(err == nil, vAll(func(x string) bool { return vImp(SpecLabelsHold(ls.MatchLabels, x) && SpecAllExprs(ls.MatchExpressions, x), SpecAllReqs(SpecReqs(selector), x)) }))
//@ ensures[C09,C06,C02] only defined operators: vImp(err == nil, SpecExprOps(ls.MatchExpressions))
//@ nopanic[C09,C06,C02]
//@ loop[C06,C02](i int, ls *v1.LabelSelector) vAll(func(j int) bool { return vImp(0 <= j && j < len(ls.MatchExpressions), SpecExprValid(ls.MatchExpressions[j])) })
//@ loop[C06,C02](i int, ls *v1.LabelSelector) vAll(func(k string) bool { return vImp(vHas(ls.MatchLabels, k), SpecKeyOK(k) && SpecValueOK(ls.MatchLabels[k])) })
//@ ensures[C06,C02] valid keys and values: vImp(err == nil, SpecLSValid(ls.MatchLabels, ls.MatchExpressions))
