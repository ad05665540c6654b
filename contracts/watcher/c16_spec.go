package watcher

import (
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
)

// ---- C16

func specObj(r runtime.Object) *ObjType { return r.(*ObjType) }

//@ func (o ObjType) DeepCopyObject() (r runtime.Object)
//@ loop[C16](seen vSet[string], m map[string]interface{}) vAll(func(k string) bool { return vIff(vHas(m, k), seen[k]) && vImp(seen[k], vEq(m[k], o.Data[k])) })
//@ ensures[C16] another custom resource object: vDyn[*ObjType](r) && vFresh(specObj(r))
//@ ensures[C16] same type and metadata: vEq(specObj(r).TypeMeta, o.TypeMeta) && vEq(specObj(r).ObjectMeta, o.ObjectMeta)
//@ ensures[C16] same fields: vAll(func(k string) bool { return vIff(vHas(specObj(r).Data, k), vHas(o.Data, k)) && vImp(vHas(o.Data, k), vEq(specObj(r).Data[k], o.Data[k])) })
//@ ensures[C16] its own field table: vFresh(specObj(r).Data) && vIdent(specObj(r).Data) != vIdent(o.Data)
//@ nopanic[C16]

//@ func (o ObjType) GetObjectKind() (r schema.ObjectKind)
//@ ensures[C16] the type of the object: vDyn[*ObjType](r) && vEq(r.(*ObjType).TypeMeta, o.TypeMeta)
//@ nopanic[C16]
