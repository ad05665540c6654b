package memory

import (
	"github.com/prometheus/client_golang/prometheus"
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/store"
)

//@ pure (k8s.io/apimachinery/pkg/apis/meta/v1.Object).GetNamespace (k8s.io/apimachinery/pkg/apis/meta/v1.Object).GetName

//@ func (v *prometheus.GaugeVec) WithLabelValues(lvs ...string) (g prometheus.Gauge)
//@ trusted
//@ ensures g != nil

// ---- the tree gvr - cluster - namespace - name as a partial function

type specNode1 = syncResourceStore[clusterName, syncResourceStore[namespaceName, syncResourceStore[string, store.Object]]]
type specNode2 = syncResourceStore[namespaceName, syncResourceStore[string, store.Object]]
type specNode3 = syncResourceStore[string, store.Object]

func specN1(m *memoryStore, g store.GroupVersionResource) *specNode1 { return m.resourceMap.resources[g] }
func specN2(m *memoryStore, g store.GroupVersionResource, c clusterName) *specNode2 {
	return m.resourceMap.resources[g].resources[c]
}
func specN3(m *memoryStore, g store.GroupVersionResource, c clusterName, ns namespaceName) *specNode3 {
	return m.resourceMap.resources[g].resources[c].resources[ns]
}

func specHas1(m *memoryStore, g store.GroupVersionResource) bool { return vHas(m.resourceMap.resources, g) }
func specHas2(m *memoryStore, g store.GroupVersionResource, c clusterName) bool {
	return specHas1(m, g) && vHas(specN1(m, g).resources, c)
}
func specHas3(m *memoryStore, g store.GroupVersionResource, c clusterName, ns namespaceName) bool {
	return specHas2(m, g, c) && vHas(specN2(m, g, c).resources, ns)
}
func specHas(m *memoryStore, g store.GroupVersionResource, c clusterName, ns namespaceName, n string) bool {
	return specHas3(m, g, c, ns) && vHas(specN3(m, g, c, ns).resources, n)
}

// specObj: what is stored under a key (meaningful if specHas).
func specObj(m *memoryStore, g store.GroupVersionResource, c clusterName, ns namespaceName, n string) *store.Object {
	return specN3(m, g, c, ns).resources[n]
}

// specTree: every node of the tree belongs to one path only, and so does its map.
func specTree(m *memoryStore) bool { return specTree12(m) && specNodes3(m) && specOwn3(m) && specLeaves(m) }

func specTree12(m *memoryStore) bool {
	return vAll(func(g store.GroupVersionResource) bool {
		return vImp(specHas1(m, g), specN1(m, g) != nil && vAllocated(specN1(m, g)) && vAllocated(specN1(m, g).resources))
	}) &&
		vAll(func(g, h store.GroupVersionResource) bool {
			return vImp(specHas1(m, g) && specHas1(m, h) && g != h, specN1(m, g) != specN1(m, h) &&
				vImp(specN1(m, g).resources != nil, vIdent(specN1(m, g).resources) != vIdent(specN1(m, h).resources)))
		}) &&
		vAll(func(g store.GroupVersionResource, c clusterName) bool {
			return vImp(specHas2(m, g, c), specN2(m, g, c) != nil && vAllocated(specN2(m, g, c)) && vAllocated(specN2(m, g, c).resources))
		}) &&
		vAll(func(g store.GroupVersionResource, c clusterName, h store.GroupVersionResource, d clusterName) bool {
			return vImp(specHas2(m, g, c) && specHas2(m, h, d) && (g != h || c != d), specN2(m, g, c) != specN2(m, h, d) &&
				vImp(specN2(m, g, c).resources != nil, vIdent(specN2(m, g, c).resources) != vIdent(specN2(m, h, d).resources)))
		})
}
func specNodes3(m *memoryStore) bool {
	return vAll(func(g store.GroupVersionResource, c clusterName, s namespaceName) bool {
		return vImp(specHas3(m, g, c, s), specN3(m, g, c, s) != nil && vAllocated(specN3(m, g, c, s)) && vAllocated(specN3(m, g, c, s).resources))
	})
}
func specOwn3(m *memoryStore) bool {
	return vAll(func(g store.GroupVersionResource, c clusterName, s namespaceName, h store.GroupVersionResource, d clusterName, t namespaceName) bool {
		return vImp(specHas3(m, g, c, s) && specHas3(m, h, d, t) && (g != h || c != d || s != t), specN3(m, g, c, s) != specN3(m, h, d, t) &&
			vImp(specN3(m, g, c, s).resources != nil, vIdent(specN3(m, g, c, s).resources) != vIdent(specN3(m, h, d, t).resources)))
	})
}
func specLeaves(m *memoryStore) bool {
	return vAll(func(g store.GroupVersionResource, c clusterName, s namespaceName, n string) bool {
		return vImp(specHas(m, g, c, s, n), specObj(m, g, c, s, n) != nil && vAllocated(specObj(m, g, c, s, n)))
	})
}

// specGet: the object cached under a key, nil if there is none.
func specGet(m *memoryStore, g store.GroupVersionResource, c clusterName, ns namespaceName, n string) interface{} {
	if specHas(m, g, c, ns, n) {
		return specObj(m, g, c, ns, n).Obj
	}
	return nil
}

func specNS(obj interface{}) namespaceName { return namespaceName(obj.(v1.Object).GetNamespace()) }
func specName(obj interface{}) string      { return obj.(v1.Object).GetName() }

// ---- C01

//@ func (m *memoryStore) IsStoreGVR(gvr store.GroupVersionResource) (r bool)
//@ requires m != nil
//@ ensures[C01] exactly the configured types: vIff(r, specHas1(m, gvr))
//@ nopanic[C01]

//@ func (m *memoryStore) Get(gvr store.GroupVersionResource, cluster string, namespace, name string) (r interface{})
//@ requires m != nil && specTree(m)
//@ ensures[C01] the object cached under exactly this key: vEq(r, specGet(m, gvr, clusterName(cluster), namespaceName(namespace), name))
//@ nopanic[C01]

//@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, cluster string, obj interface{}) (ns, name string, o store.Object)
//@ optional
//@ requires m != nil && vDyn[v1.Object](obj) && store.GAnno != nil
//@ modifies vMapOf(store.GAnno), vAllMaps(store.GAnno[v1.Object(nil)])
//@ ensures[C01] namespace of the object: namespaceName(ns) == specNS(obj)
//@ ensures[C01] name of the object: name == specName(obj)
//@ ensures[C01] the object itself: vEq(o.Obj, obj)
//@ nopanic[C01]

//@ func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) (err error)
//@ requires m != nil && specTree(m) && specHas1(m, gvr) && vDyn[v1.Object](obj) && store.GAnno != nil
//@ modifies vAllOf(specN1(m, gvr).resources), vAllOf(specN2(m, gvr, "").resources), vAllOf(specN3(m, gvr, "", "").resources),
//@ | vAllMaps(specN1(m, gvr).resources), vAllMaps(specN2(m, gvr, "").resources), vAllMaps(specN3(m, gvr, "", "").resources), vMapOf(store.GAnno), vAllMaps(store.GAnno[v1.Object(nil)])
//@ ensures[C01] tree: specTree(m)
//@ ensures[C01] the object is cached under its key: vEq(specGet(m, gvr, clusterName(cluster), specNS(obj), specName(obj)), obj)
//@ ensures[C01] no other key changes: vAll(func(g store.GroupVersionResource, c clusterName, s namespaceName, n string) bool {
//@ | return vImp(g != gvr || c != clusterName(cluster) || s != specNS(obj) || n != specName(obj), vEq(specGet(m, g, c, s, n), vOld(specGet(m, g, c, s, n)))) })
//@ ensures[C01] same types: vAll(func(g store.GroupVersionResource) bool { return vIff(specHas1(m, g), vOld(specHas1(m, g))) })
//@ nopanic[C01]

//@ func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) (err error)
//@ requires m != nil && specTree(m) && specHas1(m, gvr) && vDyn[v1.Object](obj) && store.GAnno != nil
//@ modifies vAllOf(specN1(m, gvr).resources), vAllOf(specN2(m, gvr, "").resources), vAllOf(specN3(m, gvr, "", "").resources),
//@ | vAllMaps(specN1(m, gvr).resources), vAllMaps(specN2(m, gvr, "").resources), vAllMaps(specN3(m, gvr, "", "").resources), vMapOf(store.GAnno), vAllMaps(store.GAnno[v1.Object(nil)])
//@ ensures[C01] tree: specTree(m)
//@ ensures[C01] the object is cached under its key: vEq(specGet(m, gvr, clusterName(cluster), specNS(obj), specName(obj)), obj)
//@ ensures[C01] no other key changes: vAll(func(g store.GroupVersionResource, c clusterName, s namespaceName, n string) bool {
//@ | return vImp(g != gvr || c != clusterName(cluster) || s != specNS(obj) || n != specName(obj), vEq(specGet(m, g, c, s, n), vOld(specGet(m, g, c, s, n)))) })
//@ ensures[C01] same types: vAll(func(g store.GroupVersionResource) bool { return vIff(specHas1(m, g), vOld(specHas1(m, g))) })
//@ nopanic[C01]

//@ func (m *memoryStore) OnResourceDeleted(gvr store.GroupVersionResource, cluster string, obj interface{}) (err error)
//@ requires m != nil && specTree(m) && specHas1(m, gvr) && vDyn[v1.Object](obj) && store.GAnno != nil
//@ modifies vAllOf(specN1(m, gvr).resources), vAllOf(specN2(m, gvr, "").resources), vAllOf(specN3(m, gvr, "", "").resources),
//@ | vAllMaps(specN1(m, gvr).resources), vAllMaps(specN2(m, gvr, "").resources), vAllMaps(specN3(m, gvr, "", "").resources), vMapOf(store.GAnno), vAllMaps(store.GAnno[v1.Object(nil)])
//@ ensures[C01] tree: specTree(m)
//@ ensures[C01] nothing is cached under its key: !specHas(m, gvr, clusterName(cluster), specNS(obj), specName(obj))
//@ ensures[C01] no other key changes: vAll(func(g store.GroupVersionResource, c clusterName, s namespaceName, n string) bool {
//@ | return vImp(g != gvr || c != clusterName(cluster) || s != specNS(obj) || n != specName(obj), vEq(specGet(m, g, c, s, n), vOld(specGet(m, g, c, s, n)))) })
//@ ensures[C01] same types: vAll(func(g store.GroupVersionResource) bool { return vIff(specHas1(m, g), vOld(specHas1(m, g))) })
//@ nopanic[C01]

//@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) (err error)
//@ requires m != nil && specTree(m) && specHas1(m, gvr)
//@ modifies vAllOf(specN3(m, gvr, "", "").resources)
//@ ensures[C01] tree: specTree(m)
//@ loop[C01]() vAll(func(g store.GroupVersionResource, c clusterName, s namespaceName) bool {
//@ | return vImp(specHas3(m, g, c, s) && (g != gvr || c != clusterName(cluster)), vIdent(specN3(m, g, c, s).resources) == vOld(vIdent(specN3(m, g, c, s).resources))) })
//@ loop[C01]() vAll(func(s namespaceName, n string) bool {
//@ | return vImp(specHas3(m, gvr, clusterName(cluster), s) && vIdent(specN3(m, gvr, clusterName(cluster), s).resources) != vOld(vIdent(specN3(m, gvr, clusterName(cluster), s).resources)), !vHas(specN3(m, gvr, clusterName(cluster), s).resources, n)) })
//@ loop[C01](i int, vs []*specNode3) vAll(func(j int, n string) bool { return vImp(0 <= j && j < i, !vHas(vs[j].resources, n)) })
//@ loop[C01]() specNodes3(m)
//@ loop[C01]() specOwn3(m)
//@ ensures[C01] nothing of the type and cluster is left: vAll(func(s namespaceName, n string) bool { return !specHas(m, gvr, clusterName(cluster), s, n) })
//@ ensures[C01] no other type or cluster changes: vAll(func(g store.GroupVersionResource, c clusterName, s namespaceName, n string) bool {
//@ | return vImp(g != gvr || c != clusterName(cluster), vEq(specGet(m, g, c, s, n), vOld(specGet(m, g, c, s, n)))) })
//@ ensures[C01] same types: vAll(func(g store.GroupVersionResource) bool { return vIff(specHas1(m, g), vOld(specHas1(m, g))) })
//@ nopanic[C01]

func specMS(s store.Store) *memoryStore { return s.(*memoryStore) }

//@ func NewMemoryStore(indexConf map[store.GroupVersionResource]map[string]string) (r store.Store)
//@ loop(s *memoryStore, seen vSet[store.GroupVersionResource]) vAll(func(g store.GroupVersionResource) bool { return vIff(vHas(s.resourceMap.resources, g), seen[g]) })
//@ loop(s *memoryStore) specTree12(s)
//@ loop(s *memoryStore) vAll(func(g store.GroupVersionResource, c clusterName) bool { return !specHas2(s, g, c) })
//@ loop(s *memoryStore) vImp(s.resourceMap.resources != nil, vFresh(s.resourceMap.resources))
//@ loop(s *memoryStore) vIdent(s.indexConf) == vIdent(indexConf)
//@ ensures[C01,C15] memory store: vDyn[*memoryStore](r) && specMS(r) != nil
//@ ensures[C01] tree: specTree(specMS(r))
//@ ensures[C01] exactly the configured types: vAll(func(g store.GroupVersionResource) bool { return vIff(specHas1(specMS(r), g), vHas(indexConf, g)) })
//@ ensures[C01] empty: vAll(func(g store.GroupVersionResource, c clusterName) bool { return !specHas2(specMS(r), g, c) })
//@ ensures[C15] the index configuration is kept: vIdent(specMS(r).indexConf) == vIdent(indexConf)
//@ nopanic[C01]
