package memory

import (
	"strings"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/store"
)

// ---- C15 indexes

// specRaw: the index is configured as a raw string.
func specRaw(conf string) bool { return !strings.Contains(conf, "{{") && !strings.Contains(conf, "{") }

// specBuiltin: indexes which every Kubernetes object gets.
func specBuiltin(k string) bool {
	return k == "cluster" || k == "is_deleted" || k == "namespace" || k == "name"
}
func specDeleted(obj interface{}) string {
	if obj.(v1.Object).GetDeletionTimestamp() != nil {
		return "true"
	}
	return "false"
}

// specAnnoSep: no object has the index configuration as its annotation map.
func specAnnoSep(m *memoryStore) bool {
	return vAll(func(o v1.Object, g store.GroupVersionResource) bool {
		return vImp(store.GAnno[o] != nil, vIdent(store.GAnno[o]) != vIdent(m.indexConf[g]))
	}) && vAll(func(g store.GroupVersionResource) bool { return vAllocated(m.indexConf[g]) }) && vAll(func(o v1.Object) bool { return vAllocated(store.GAnno[o]) })
}

//@ pure (k8s.io/apimachinery/pkg/apis/meta/v1.Object).GetDeletionTimestamp

//@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, cluster string, obj interface{}) (ns, name string, o store.Object)
//@ optional
//@ requires[C15] m != nil && vDyn[v1.Object](obj) && store.GAnno != nil && specAnnoSep(m)
//@ modifies vMapOf(store.GAnno), vAllMaps(store.GAnno[v1.Object(nil)])
//@ loop[C15](s *store.Object, seen vSet[string]) vAll(func(k string) bool { return vIff(vHas(s.Index, k), seen[k]) })
//@ loop[C15](s *store.Object, seen vSet[string]) vAll(func(k string) bool { return vImp(seen[k] && specRaw(m.indexConf[gvr][k]), s.Index[k] == m.indexConf[gvr][k]) })
//@ loop[C15](s *store.Object) vFresh(s.Index) && s.Index != nil
//@ ensures[C15] fresh index map: vFresh(o.Index) && o.Index != nil
//@ ensures[C15] every configured index: vAll(func(k string) bool { return vImp(vHas(m.indexConf[gvr], k) || specBuiltin(k), vHas(o.Index, k)) })
//@ ensures[C15] only configured indexes: vAll(func(k string) bool { return vImp(vHas(o.Index, k), vHas(m.indexConf[gvr], k) || specBuiltin(k)) })
//@ ensures[C15] raw strings verbatim: vAll(func(k string) bool { return vImp(vHas(m.indexConf[gvr], k) && specRaw(m.indexConf[gvr][k]) && !specBuiltin(k), o.Index[k] == m.indexConf[gvr][k]) })
//@ ensures[C15] cluster: o.Index["cluster"] == cluster
//@ ensures[C15] namespace of the object: o.Index["namespace"] == obj.(v1.Object).GetNamespace() && ns == obj.(v1.Object).GetNamespace()
//@ ensures[C15] name of the object: o.Index["name"] == obj.(v1.Object).GetName() && name == obj.(v1.Object).GetName()
//@ ensures[C15] deletion: o.Index["is_deleted"] == specDeleted(obj)
//@ ensures[C15] the object itself: vEq(o.Obj, obj)
//@ ensures[C15] annotated with its cluster: store.GAnno[obj.(v1.Object)][constants.DSMClusterAnno] == cluster
//@ ensures[C15] other annotations unchanged: vAll(func(k string) bool { return vImp(k != constants.DSMClusterAnno && k != constants.IndexAnno,
//@ | vIff(vHas(store.GAnno[obj.(v1.Object)], k), vOld(vHas(store.GAnno[obj.(v1.Object)], k))) && vImp(vHas(store.GAnno[obj.(v1.Object)], k), store.GAnno[obj.(v1.Object)][k] == vOld(store.GAnno[obj.(v1.Object)][k]))) })
//@ nopanic[C15]

//@ func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) (err error)
//@ requires[C15] m != nil && specTree(m) && specHas1(m, gvr) && vDyn[v1.Object](obj) && store.GAnno != nil && specAnnoSep(m)
//@ ensures[C15] cached: specHas(m, gvr, clusterName(cluster), specNS(obj), specName(obj))
//@ ensures[C15] every configured index: vAll(func(k string) bool { return vImp(vHas(m.indexConf[gvr], k) || specBuiltin(k), vHas(specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index, k)) })
//@ ensures[C15] only configured indexes: vAll(func(k string) bool { return vImp(vHas(specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index, k), vHas(m.indexConf[gvr], k) || specBuiltin(k)) })
//@ ensures[C15] raw strings verbatim: vAll(func(k string) bool { return vImp(vHas(m.indexConf[gvr], k) && specRaw(m.indexConf[gvr][k]) && !specBuiltin(k), specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index[k] == m.indexConf[gvr][k]) })
//@ ensures[C15] cluster: specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index["cluster"] == cluster
//@ ensures[C15] namespace and name: specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index["namespace"] == string(specNS(obj)) && specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index["name"] == specName(obj)
//@ ensures[C15] deletion: specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index["is_deleted"] == specDeleted(obj)
//@ ensures[C15] the object itself: vEq(specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Obj, obj)
//@ ensures[C15] annotated with its cluster: store.GAnno[obj.(v1.Object)][constants.DSMClusterAnno] == cluster
//@ ensures[C15] other annotations unchanged: vAll(func(k string) bool { return vImp(k != constants.DSMClusterAnno && k != constants.IndexAnno,
//@ | vIff(vHas(store.GAnno[obj.(v1.Object)], k), vOld(vHas(store.GAnno[obj.(v1.Object)], k))) && vImp(vHas(store.GAnno[obj.(v1.Object)], k), store.GAnno[obj.(v1.Object)][k] == vOld(store.GAnno[obj.(v1.Object)][k]))) })

//@ func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) (err error)
//@ requires[C15] m != nil && specTree(m) && specHas1(m, gvr) && vDyn[v1.Object](obj) && store.GAnno != nil && specAnnoSep(m)
//@ ensures[C15] cached: specHas(m, gvr, clusterName(cluster), specNS(obj), specName(obj))
//@ ensures[C15] every configured index: vAll(func(k string) bool { return vImp(vHas(m.indexConf[gvr], k) || specBuiltin(k), vHas(specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index, k)) })
//@ ensures[C15] only configured indexes: vAll(func(k string) bool { return vImp(vHas(specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index, k), vHas(m.indexConf[gvr], k) || specBuiltin(k)) })
//@ ensures[C15] raw strings verbatim: vAll(func(k string) bool { return vImp(vHas(m.indexConf[gvr], k) && specRaw(m.indexConf[gvr][k]) && !specBuiltin(k), specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index[k] == m.indexConf[gvr][k]) })
//@ ensures[C15] cluster: specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index["cluster"] == cluster
//@ ensures[C15] namespace and name: specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index["namespace"] == string(specNS(obj)) && specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index["name"] == specName(obj)
//@ ensures[C15] deletion: specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Index["is_deleted"] == specDeleted(obj)
//@ ensures[C15] the object itself: vEq(specObj(m, gvr, clusterName(cluster), specNS(obj), specName(obj)).Obj, obj)
//@ ensures[C15] annotated with its cluster: store.GAnno[obj.(v1.Object)][constants.DSMClusterAnno] == cluster
//@ ensures[C15] other annotations unchanged: vAll(func(k string) bool { return vImp(k != constants.DSMClusterAnno && k != constants.IndexAnno,
//@ | vIff(vHas(store.GAnno[obj.(v1.Object)], k), vOld(vHas(store.GAnno[obj.(v1.Object)], k))) && vImp(vHas(store.GAnno[obj.(v1.Object)], k), store.GAnno[obj.(v1.Object)][k] == vOld(store.GAnno[obj.(v1.Object)][k]))) })
