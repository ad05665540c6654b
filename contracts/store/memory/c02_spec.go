package memory

import (
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

// ---- C02 queries. An object tells the key it is cached under: cluster (its
// annotation, see C15), namespace and name.

func specCl(obj interface{}) clusterName { return clusterName(store.GAnno[obj.(v1.Object)][constants.DSMClusterAnno]) }

// specKeyed: every object is cached under the key it tells (C01, C15).
func specKeyed(m *memoryStore, g store.GroupVersionResource) bool {
	return vAll(func(c clusterName, s namespaceName, n string) bool {
		return vImp(specHas(m, g, c, s, n), vDyn[v1.Object](specObj(m, g, c, s, n).Obj) &&
			specCl(specObj(m, g, c, s, n).Obj) == c && specNS(specObj(m, g, c, s, n).Obj) == s && specName(specObj(m, g, c, s, n).Obj) == n)
	})
}

// specCached: x is cached as an object of type g.
func specCached(m *memoryStore, g store.GroupVersionResource, x interface{}) bool {
	return specHas(m, g, specCl(x), specNS(x), specName(x)) && vEq(specObj(m, g, specCl(x), specNS(x), specName(x)).Obj, x)
}
func specIndex(m *memoryStore, g store.GroupVersionResource, x interface{}) map[string]string {
	return specObj(m, g, specCl(x), specNS(x), specName(x)).Index
}

// specExamined: x is cached in the namespace of the query.
func specExamined(m *memoryStore, g store.GroupVersionResource, q store.Query, x interface{}) bool {
	return specCached(m, g, x) && (q.Namespace == "" || q.Namespace == string(specNS(x)))
}
func specWanted(m *memoryStore, g store.GroupVersionResource, q store.Query, x interface{}) bool {
	return specExamined(m, g, q, x) && specMatch(specIndex(m, g, x), q.Search)
}
func specMatch(index map[string]string, search string) bool {
	return !page.SpecSearchErr(index, search) && page.SpecSearchOk(index, search)
}

// specEntry: o is the store entry of its object.
func specEntry(m *memoryStore, g store.GroupVersionResource, o store.Object) bool {
	return specCached(m, g, o.Obj) && vIdent(specIndex(m, g, o.Obj)) == vIdent(o.Index)
}

func specDistinct(os []store.Object) bool {
	return vAll(func(i, j int) bool { return vImp(0 <= i && i < j && j < len(os), !vEq(os[i].Obj, os[j].Obj)) })
}

//@ func sortObjs(objs []store.Object, s string) (r []store.Object, err error)
//@ optional
//@ modifies objs
//@ ensures[C02,C05] the same objects: vAll(func(o store.Object) bool { return vIff(vMem(r, o), vOld(vMem(objs, o))) })
//@ ensures[C02,C05] as many: len(r) == len(objs)
//@ ensures[C02] each once: vImp(vOld(specDistinct(objs)), specDistinct(r))

//@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) (r store.QueryResult)
//@ requires m != nil && specTree(m) && specHas1(m, gvr)
//@ requires[C02] specKeyed(m, gvr) && page.SpecSearchDefined(query.Search)
//@ loop[C02](res []store.Object, s1 vSet[clusterName]) vAll(func(o store.Object) bool { return vIff(vMem(res, o), specEntry(m, gvr, o) && specWanted(m, gvr, query, o.Obj) && s1[specCl(o.Obj)]) })
//@ loop[C02](res []store.Object, s1 vSet[clusterName], c clusterName, s2 vSet[namespaceName]) vAll(func(o store.Object) bool { return vIff(vMem(res, o), specEntry(m, gvr, o) && specWanted(m, gvr, query, o.Obj) && s1[specCl(o.Obj)] && (specCl(o.Obj) != c || s2[specNS(o.Obj)])) })
//@ loop[C02](res []store.Object, s1 vSet[clusterName], c clusterName, s2 vSet[namespaceName], s namespaceName, s3 vSet[string]) vAll(func(o store.Object) bool { return vIff(vMem(res, o), specEntry(m, gvr, o) && specWanted(m, gvr, query, o.Obj) &&
//@ | s1[specCl(o.Obj)] && (specCl(o.Obj) != c || s2[specNS(o.Obj)] && (specNS(o.Obj) != s || s3[specName(o.Obj)]))) })
//@ loop[C02](res []store.Object, s1 vSet[clusterName]) vAll(func(x interface{}) bool { return vImp(specWanted(m, gvr, query, x) && s1[specCl(x)], vMem(res, store.Object{Index: specIndex(m, gvr, x), Obj: x})) })
//@ loop[C02](r store.QueryResult, s1 vSet[clusterName]) vAll(func(x interface{}) bool { return vImp(r.Error == nil && specExamined(m, gvr, query, x) && s1[specCl(x)], !page.SpecSearchErr(specIndex(m, gvr, x), query.Search)) })
//@ loop[C02](r store.QueryResult, s1 vSet[clusterName], c clusterName, s2 vSet[namespaceName]) vAll(func(x interface{}) bool { return vImp(r.Error == nil && specExamined(m, gvr, query, x) && s1[specCl(x)] && (specCl(x) != c || s2[specNS(x)]), !page.SpecSearchErr(specIndex(m, gvr, x), query.Search)) })
//@ loop[C02](r store.QueryResult, s1 vSet[clusterName], c clusterName, s2 vSet[namespaceName], s namespaceName, s3 vSet[string]) vAll(func(x interface{}) bool { return vImp(r.Error == nil && specExamined(m, gvr, query, x) &&
//@ | s1[specCl(x)] && (specCl(x) != c || s2[specNS(x)] && (specNS(x) != s || s3[specName(x)])), !page.SpecSearchErr(specIndex(m, gvr, x), query.Search)) })
//@ loop[C02](res []store.Object) specDistinct(res)
//@ loop[C02](i int, r store.QueryResult, xs []store.Object) len(r.Items) == i && vAll(func(j int) bool { return vImp(0 <= j && j < i, vEq(r.Items[j], xs[j].Obj)) })
//@ ensures[C02] exactly the matching objects: vImp(r.Error == nil && (query.Page == 0 || query.PageSize == 0), vAll(func(x interface{}) bool { return vIff(vMem(r.Items, x), specWanted(m, gvr, query, x)) }))
//@ ensures[C02] each once: vImp(r.Error == nil && (query.Page == 0 || query.PageSize == 0), vAll(func(i, j int) bool { return vImp(0 <= i && i < j && j < len(r.Items), !vEq(r.Items[i], r.Items[j])) }))
//@ ensures[C02] total: vImp(r.Error == nil && (query.Page == 0 || query.PageSize == 0), r.Total == int64(len(r.Items)))
//@ ensures[C02] a malformed search or unknown key is an error: vImp(r.Error == nil, vAll(func(x interface{}) bool { return vImp(specExamined(m, gvr, query, x), !page.SpecSearchErr(specIndex(m, gvr, x), query.Search)) }))
