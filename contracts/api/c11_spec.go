package api

import (
	"net/http"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/store"
)

// GCode: the status code sent to a client, 0 before.
var GCode map[http.ResponseWriter]int

// GHeader: the header map of a response.
var GHeader map[http.ResponseWriter]http.Header

//@ func (w http.ResponseWriter) WriteHeader(code int)
//@ trusted
//@ modifies vMapOf(GCode)
//@ ensures vEq(GCode, vMapSet(vOld(vContents(GCode)), w, vIte(vOld(GCode[w]) == 0, code, vOld(GCode[w]))))

// GBody: what was sent to a client.
var GBody map[http.ResponseWriter]string

//@ func (w http.ResponseWriter) Write(b []byte) (n int, err error)
//@ trusted
//@ modifies vMapOf(GBody), vMapOf(GCode)
//@ ensures vEq(GBody, vMapSet(vOld(vContents(GBody)), w, vOld(GBody[w])+string(b)))
//@ ensures vEq(GCode, vMapSet(vOld(vContents(GCode)), w, vIte(vOld(GCode[w]) == 0, 200, vOld(GCode[w]))))

//@ func (w http.ResponseWriter) Header() (h http.Header)
//@ trusted
//@ ensures h != nil && vAllocated(h) && vIdent(h) == vIdent(GHeader[w])

//@ uninterpreted SpecHeader

// SpecHeader: the first value of a header.
func SpecHeader(h http.Header, key string) string { panic(0) }

//@ func (h http.Header) Get(key string) (v string)
//@ trusted
//@ ensures v == SpecHeader(h, key)

//@ func (h http.Header) Set(k, v string)
//@ trusted
//@ modifies h

// specStatus: the handler result is this error status and so is the code sent.
func specStatus(r *ReqContext, res interface{}, code int) bool {
	return vDyn[v1.Status](res) && int(res.(v1.Status).Code) == code && GCode[r.Writer] == code
}

// ---- C11

//@ func ProxySingleResources(r *ReqContext, gvr store.GroupVersionResource, cluster, namespace, resource string) (res interface{})
//@ requires r != nil && r.Store != nil && r.Writer != nil && GCode != nil && GCode[r.Writer] == 0
//@ modifies vMapOf(GCode), vAllMaps(GHeader[nil])
//@ ensures[C11] the cached object: vImp(store.SpecGet(store.GOps, r.Store, gvr, cluster, namespace, resource) != nil, vEq(res, store.SpecGet(store.GOps, r.Store, gvr, cluster, namespace, resource)) && GCode[r.Writer] == 0)
//@ ensures[C11] not found: vImp(store.SpecGet(store.GOps, r.Store, gvr, cluster, namespace, resource) == nil, specStatus(r, res, 404))
//@ nopanic[C11]
