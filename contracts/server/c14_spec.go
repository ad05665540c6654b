package server

import (
	"net/http"

	"github.com/gorilla/mux"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/api"
	"github.com/DaoCloud/ckube/store"
)

// ---- C14: what a reload replaces is only touched under the lock

//@ guarded server.muxServer.store by lock
//@ guarded server.muxServer.clusterClients by lock

//@ functype (f HandleFunc)(r *api.ReqContext) (res interface{})
//@ requires[C14] called without the lock: vLocksFree()
//@ ensures[C14] locks unchanged: vLocksUnchanged()
//@ onpanic[C14] vLocksUnchanged()

//@ callback routeHandler(w http.ResponseWriter, req *http.Request, rt *mux.Route)
//@ requires[C14] vLocksFree()
//@ ensures[C14] locks released: vLocksFree()
//@ onpanic[C14] locks released: vLocksFree()

//@ func NewMuxServer(listenAddr string, clusterClients map[string]kubernetes.Interface, s store.Store, externalRouter []func(*mux.Router)) (r Server)
//@ requires[C14] vLocksFree()
//@ loop[C14]() vLocksFree()
//@ ensures[C14] locks released: vLocksFree()

//@ func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface)
//@ modifies *m
//@ requires[C14] m != nil && vLocksFree()
//@ ensures[C14] locks released: vLocksFree()
