package server

import (
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/store"
)

// ---- C19: a reload replaces store and clients together

//@ func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface)
//@ requires m != nil
//@ modifies *m
//@ ensures[C19] store and clients are the new ones: m.store == s && vIdent(m.clusterClients) == vIdent(clis)
