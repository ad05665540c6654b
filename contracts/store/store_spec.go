package store

import (
	"bytes"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

// GAnno: the annotations of the metadata objects (a field behind an interface).
var GAnno map[v1.Object]map[string]string

//@ func (o v1.Object) GetAnnotations() (r map[string]string)
//@ trusted
//@ ensures vIdent(r) == vIdent(GAnno[o])

//@ func (o v1.Object) SetAnnotations(a map[string]string)
//@ trusted
//@ modifies vMapOf(GAnno)
//@ ensures vEq(GAnno, vMapSet(vOld(vContents(GAnno)), o, a))

var _ = bytes.NewBuffer

//@ func bytes.NewBuffer(b []byte) (r *bytes.Buffer)
//@ trusted
//@ ensures r != nil && vFresh(r)

// The cache as seen by its users: GOps is the history of the operations applied
// to it, what it answers depends on that history (C01 states how).

//@ uninterpreted SpecGet SpecStored SpecQuery

// SpecOp: one operation on a store.
type SpecOp struct {
	Kind    int // SpecAdd, …
	Store   Store
	GVR     GroupVersionResource
	Cluster string
	Obj     interface{}
}

const (
	SpecAdd    = 1
	SpecModify = 2
	SpecDelete = 3
	SpecClean  = 4
)

var GOps []SpecOp

// SpecGet: the object cached under a key after the operations.
func SpecGet(ops []SpecOp, s Store, gvr GroupVersionResource, cluster, namespace, name string) interface{} {
	panic(0)
}

// SpecStored: the type is one of those the store caches.
func SpecStored(s Store, gvr GroupVersionResource) bool { panic(0) }

// SpecQuery: the answer to a query after the operations.
func SpecQuery(ops []SpecOp, s Store, gvr GroupVersionResource, q Query) QueryResult { panic(0) }

//@ func (s Store) IsStoreGVR(gvr GroupVersionResource) (r bool)
//@ ensures r == SpecStored(s, gvr)

//@ func (s Store) Get(gvr GroupVersionResource, cluster string, namespace, name string) (r interface{})
//@ ensures vEq(r, SpecGet(GOps, s, gvr, cluster, namespace, name))

//@ func (s Store) OnResourceAdded(gvr GroupVersionResource, cluster string, obj interface{}) (err error)
//@ modifies GOps
//@ ensures vEq(GOps, append(vOld(GOps), SpecOp{SpecAdd, s, gvr, cluster, obj}))

//@ func (s Store) OnResourceModified(gvr GroupVersionResource, cluster string, obj interface{}) (err error)
//@ modifies GOps
//@ ensures vEq(GOps, append(vOld(GOps), SpecOp{SpecModify, s, gvr, cluster, obj}))

//@ func (s Store) OnResourceDeleted(gvr GroupVersionResource, cluster string, obj interface{}) (err error)
//@ modifies GOps
//@ ensures vEq(GOps, append(vOld(GOps), SpecOp{SpecDelete, s, gvr, cluster, obj}))

//@ func (s Store) Clean(gvr GroupVersionResource, cluster string) (err error)
//@ modifies GOps
//@ ensures vEq(GOps, append(vOld(GOps), SpecOp{SpecClean, s, gvr, cluster, nil}))
