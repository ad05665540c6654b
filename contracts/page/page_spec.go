package page

import (
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

// ---- C03 page windows

//@ func (p *Paginate) Window(total int64) (start, end int64, err error)
//@ requires p != nil && total >= 0
//@ ensures[C03,C02,C05] negative page or size is an error: vIff(err != nil, p.Page < 0 || p.PageSize < 0)
//@ ensures[C03,C02,C05] paging off: vImp(err == nil && (p.Page == 0 || p.PageSize == 0), start == 0 && end == total)
//@ ensures[C03,C02,C05] window inside the result: vImp(err == nil, 0 <= start && start <= end && end <= total)
//@ ensures[C03,C02,C05] exact start: vImp(err == nil && p.Page > 0 && p.PageSize > 0, vImp(specOff(p.Page, p.PageSize) <= total, start == specOff(p.Page, p.PageSize)) && vImp(specOff(p.Page, p.PageSize) > total, start == total))
//@ ensures[C03,C02,C05] exact end: vImp(err == nil && p.Page > 0 && p.PageSize > 0, vImp(p.Page*p.PageSize <= total, end == p.Page*p.PageSize) && vImp(p.Page*p.PageSize > total, end == total))
//@ nopanic[C03,C02,C05]

// specOff is evaluated on mathematical integers: it never overflows here.
func specOff(page, size int64) int64 { return (page - 1) * size }

// ---- C20 cluster markers

func specMarker(cluster string) string { return "dsm-cluster-" + cluster }

func specGetOptions(o v1.GetOptions, m string) v1.GetOptions { o.ResourceVersion = m; return o }
func specCreateOptions(o v1.CreateOptions, m string) v1.CreateOptions { o.FieldManager = m; return o }
func specUpdateOptions(o v1.UpdateOptions, m string) v1.UpdateOptions { o.FieldManager = m; return o }
func specPatchOptions(o v1.PatchOptions, m string) v1.PatchOptions { o.FieldManager = m; return o }
func specDeleteOptions(o v1.DeleteOptions, m string) v1.DeleteOptions { o.DryRun = []string{m}; return o }

//@ func QueryGetOptions(options v1.GetOptions, cluster string) (r v1.GetOptions, err error)
//@ ensures[C20] error iff the field is in use: vIff(err != nil, options.ResourceVersion != "")
//@ ensures[C20] unchanged on error: vImp(err != nil, vEq(r, options))
//@ ensures[C20] marker set and nothing else changed: vImp(err == nil, vEq(r, specGetOptions(options, specMarker(cluster))))
//@ nopanic[C20]

//@ func QueryCreateOptions(options v1.CreateOptions, cluster string) (r v1.CreateOptions, err error)
//@ ensures[C20] error iff the field is in use: vIff(err != nil, options.FieldManager != "")
//@ ensures[C20] unchanged on error: vImp(err != nil, vEq(r, options))
//@ ensures[C20] marker set and nothing else changed: vImp(err == nil, vEq(r, specCreateOptions(options, specMarker(cluster))))
//@ nopanic[C20]

//@ func QueryUpdateOptions(options v1.UpdateOptions, cluster string) (r v1.UpdateOptions, err error)
//@ ensures[C20] error iff the field is in use: vIff(err != nil, options.FieldManager != "")
//@ ensures[C20] unchanged on error: vImp(err != nil, vEq(r, options))
//@ ensures[C20] marker set and nothing else changed: vImp(err == nil, vEq(r, specUpdateOptions(options, specMarker(cluster))))
//@ nopanic[C20]

//@ func QueryPatchOptions(options v1.PatchOptions, cluster string) (r v1.PatchOptions, err error)
//@ ensures[C20] error iff the field is in use: vIff(err != nil, options.FieldManager != "")
//@ ensures[C20] unchanged on error: vImp(err != nil, vEq(r, options))
//@ ensures[C20] marker set and nothing else changed: vImp(err == nil, vEq(r, specPatchOptions(options, specMarker(cluster))))
//@ nopanic[C20]

//@ func QueryDeleteOptions(options v1.DeleteOptions, cluster string) (r v1.DeleteOptions, err error)
//@ ensures[C20] error iff the field is in use: vIff(err != nil, len(options.DryRun) != 0)
//@ ensures[C20] unchanged on error: vImp(err != nil, vEq(r, options))
//@ ensures[C20] marker set and nothing else changed: vImp(err == nil, vEq(r, specDeleteOptions(options, specMarker(cluster))))
//@ nopanic[C20]
