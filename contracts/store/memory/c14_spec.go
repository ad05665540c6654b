package memory

import (
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/store"
)

// ---- C14: the maps of the tree are only touched under the lock of their node,
// and every operation takes and releases the locks on its own.

//@ guarded store/memory.syncResourceStore.resources by lock

//@ func (m *memoryStore) IsStoreGVR(gvr store.GroupVersionResource) (r bool)
//@ requires[C14] m != nil && vLocksFree()
//@ ensures[C14] locks released: vLocksFree()

//@ func (m *memoryStore) Get(gvr store.GroupVersionResource, cluster string, namespace, name string) (r interface{})
//@ requires[C14] m != nil && specTree(m) && vLocksFree()
//@ ensures[C14] locks released: vLocksFree()

//@ func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) (err error)
//@ requires[C14] m != nil && specTree(m) && specHas1(m, gvr) && vDyn[v1.Object](obj) && store.GAnno != nil && vLocksFree()
//@ ensures[C14] locks released: vLocksFree()

//@ func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) (err error)
//@ requires[C14] m != nil && specTree(m) && specHas1(m, gvr) && vDyn[v1.Object](obj) && store.GAnno != nil && vLocksFree()
//@ ensures[C14] locks released: vLocksFree()

//@ func (m *memoryStore) OnResourceDeleted(gvr store.GroupVersionResource, cluster string, obj interface{}) (err error)
//@ requires[C14] m != nil && specTree(m) && specHas1(m, gvr) && vDyn[v1.Object](obj) && store.GAnno != nil && vLocksFree()
//@ ensures[C14] locks released: vLocksFree()

//@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) (err error)
//@ requires[C14] m != nil && specTree(m) && specHas1(m, gvr) && vLocksFree()
//@ loop[C14]() vLocksFree()
//@ ensures[C14] locks released: vLocksFree()

//@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) (r store.QueryResult)
//@ requires[C14] m != nil && specTree(m) && specHas1(m, gvr) && vLocksFree()
//@ loop[C14]() vLocksUnchanged()
//@ ensures[C14] locks released: vLocksFree()

//@ func NewMemoryStore(indexConf map[store.GroupVersionResource]map[string]string) (r store.Store)
//@ requires[C14] vLocksFree()
//@ loop[C14]() vLocksFree()
//@ ensures[C14] locks released: vLocksFree()

var _ v1.Object

//@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, cluster string, obj interface{}) (ns, name string, o store.Object)
//@ optional
//@ ensures[C14] locks unchanged: vLocksUnchanged()

//@ func sortObjs(objs []store.Object, s string) (r []store.Object, err error)
//@ optional
//@ ensures[C14] no lock is taken: vLocksUnchanged()
