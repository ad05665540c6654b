package page

import (
	"encoding/base64"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8labels "k8s.io/apimachinery/pkg/labels"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/kube"
)

// ---- C08 the query travels as one condition on the key of queries

//@ uninterpreted SpecB64

// SpecB64: the unpadded base64 text.
func SpecB64(s string) string { panic(0) }

//@ func (e base64.Encoding) WithPadding(p rune) (r *base64.Encoding)
//@ trusted
//@ requires p == base64.NoPadding
//@ ensures r != nil

//@ func (e *base64.Encoding) EncodeToString(b []byte) (r string)
//@ trusted
//@ ensures r == SpecB64(string(b))

// SpecPlain: a query that asks for nothing.
func SpecPlain(p Paginate) bool { return kube.SpecJSON(p) == "{}" }

// specPageReq: the requirement is the query, split into label values.
func specPageReq(r k8labels.Requirement, p Paginate) bool {
	return SpecReqKeyIs(r) && !kube.SpecOpIn(kube.SpecReqOp(r)) && kube.SpecOpNotIn(kube.SpecReqOp(r)) &&
		vAll(func(v string) bool { return vIff(kube.SpecReqHas(r, v), kube.SpecIsPiece(v, SpecB64(kube.SpecJSON(p)))) })
}

func specPageExpr(e v1.LabelSelectorRequirement, p Paginate) bool {
	return e.Operator == v1.LabelSelectorOpNotIn &&
		vAll(func(v string) bool { return vIff(vMem(e.Values, v), kube.SpecIsPiece(v, SpecB64(kube.SpecJSON(p)))) })
}

func SpecReqKeyIs(r k8labels.Requirement) bool { return kube.SpecReqKey(r) == constants.PaginateKey }

// SpecOther: the labels x satisfy the other conditions of the selector.
func SpecOther(sel, x string) bool {
	return kube.SpecAllReqsBut(kube.SpecReqs(sel), x, constants.PaginateKey)
}

func specCarried(out string) bool {
	return kube.SpecHasReqOn(kube.SpecReqs(out), constants.PaginateKey)
}

func specCarriesOnly(out string, p Paginate) bool {
	return vAll(func(j int) bool {
		return vImp(0 <= j && j < len(kube.SpecReqs(out)) && SpecReqKeyIs(kube.SpecReqs(out)[j]), specPageReq(kube.SpecReqs(out)[j], p))
	})
}

// SpecCarries: selector out is selector in with the query, and only it, set.
func SpecCarries(out, in string, p Paginate) bool {
	return kube.SpecSelOK(out) && kube.SpecSyntax(in) && specCarried(out) && specCarriesOnly(out, p) &&
		vAll(func(x string) bool { return vImp(SpecOther(in, x), SpecOther(out, x)) }) &&
		vAll(func(x string) bool { return vImp(SpecOther(out, x), SpecOther(in, x)) })
}

//@ func QueryListOptions(options v1.ListOptions, page Paginate) (r v1.ListOptions, err error)
//@ loop[C08,C23](mes []v1.LabelSelectorRequirement) vAll(func(j int) bool { return vImp(kube.SpecMarshals(page) && 0 <= j && j < len(mes) && mes[j].Key == constants.PaginateKey, specPageExpr(mes[j], page)) })
//@ loop[C08,C23](mes []v1.LabelSelectorRequirement) kube.SpecHasExprOn(mes, constants.PaginateKey)
//@ loop[C08,C23](i int, mes []v1.LabelSelectorRequirement, es []v1.LabelSelectorRequirement) vAll(func(x string) bool { return vImp(kube.SpecAllExprsBut(mes, x, constants.PaginateKey), kube.SpecAllExprsBut(es[:i], x, constants.PaginateKey)) })
//@ loop[C08,C23](i int, mes []v1.LabelSelectorRequirement, es []v1.LabelSelectorRequirement) vAll(func(x string) bool { return vImp(kube.SpecAllExprsBut(es[:i], x, constants.PaginateKey), kube.SpecAllExprsBut(mes, x, constants.PaginateKey)) })
//@ ensures[C08,C23] nothing to say: vImp(kube.SpecMarshals(page) && SpecPlain(page), err == nil && vEq(r, options))
//@ ensures[C08,C23] a supported selector: vImp(err == nil && kube.SpecMarshals(page) && !SpecPlain(page), kube.SpecSelOK(r.LabelSelector) && kube.SpecSyntax(options.LabelSelector))
//@ ensures[C08,C23] the query is there: vImp(err == nil && kube.SpecMarshals(page) && !SpecPlain(page), specCarried(r.LabelSelector))
//@ ensures[C08,C23] no other query: vImp(err == nil && kube.SpecMarshals(page) && !SpecPlain(page), specCarriesOnly(r.LabelSelector, page))
//@ ensures[C08,C23] no condition added: vImp(err == nil && kube.SpecMarshals(page) && !SpecPlain(page), vAll(func(x string) bool { return vImp(SpecOther(options.LabelSelector, x), SpecOther(r.LabelSelector, x)) }))
//@ ensures[C08,C23] no condition lost: vImp(err == nil && kube.SpecMarshals(page) && !SpecPlain(page), vAll(func(x string) bool { return vImp(SpecOther(r.LabelSelector, x), SpecOther(options.LabelSelector, x)) }))
//@ nopanic[C08,C23]
