package zzverif

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

func TestVerifC15(t *testing.T) {
	h := vStart(t, "C15")
	exprs := []string{"{.metadata.name}", "{.metadata.namespace}", "{.metadata.labels.app}", "{.metadata.labels}", "{.spec.nodeName}", "{.nosuch.field}", "{.spec.containers[*].name}", "{.status.phase}-{.metadata.uid}", "raw string", "", "100%", "a}b", "{{.metadata.name}}", "{{ default \"none\" .spec.nodeName }}", "{{quote .metadata.name}}", "{{ join \",\" \"a\" \"b\" }}", "{{range $k,$v := .metadata.labels}}{{$k}}={{$v}};{{end}}", "{{.metadata.name", "{{ nofunc }}", "{{.metadata.name}}/{.metadata.name}", "{.metadata.annotations.x}", "{.metadata.deletionTimestamp}", "{{.metadata.nosuch}}"}
	keys := []string{"k1", "k2", "app", "status.phase", "namespace", "name", "cluster", "is_deleted", "z"}
	for run := 0; run < h.n(800, 10000); run++ {
		conf := map[string]string{}
		for i := 1 + h.rng.Intn(6); i > 0; i-- {
			conf[keys[h.rng.Intn(len(keys))]] = exprs[h.rng.Intn(len(exprs))]
		}
		other := map[string]string{"onlyother": "x"}
		s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{podGVR: conf, svcGVR: other})
		meta := metav1.ObjectMeta{Namespace: h.pick("", "a", "kube-system"), Name: h.pick("n", "x-1"), UID: "u1", Generation: 3}
		if h.rng.Intn(3) > 0 {
			meta.Labels = map[string]string{"app": h.pick("web", `q"t`, "", "a;b")}
		}
		if h.rng.Intn(2) == 0 {
			meta.Annotations = map[string]string{"x": h.pick("y", `{"j":1}`, "")}
		}
		if h.rng.Intn(3) == 0 {
			// the cluster and the indexes are never taken over from an older annotation
			if meta.Annotations == nil {
				meta.Annotations = map[string]string{}
			}
			meta.Annotations["ckube.doacloud.io/cluster"] = "stale"
			meta.Annotations["ckube.daocloud.io/indexes"] = `{"stale":"1"}`
		}
		del := "false"
		if h.rng.Intn(3) == 0 {
			now := metav1.NewTime(time.Unix(500, 0))
			meta.DeletionTimestamp = &now
			del = "true"
		}
		var obj interface{}
		switch h.rng.Intn(3) {
		case 0:
			obj = &corev1.Pod{ObjectMeta: meta, Spec: corev1.PodSpec{NodeName: h.pick("", "node1"), Containers: []corev1.Container{{Name: "c1"}, {Name: "c2"}}}, Status: corev1.PodStatus{Phase: "Running"}}
		case 1:
			obj = &appsv1.Deployment{ObjectMeta: meta}
		default:
			obj = &watcher.ObjType{TypeMeta: metav1.TypeMeta{Kind: "W", APIVersion: "x.io/v1"}, ObjectMeta: meta, Data: map[string]interface{}{"spec": map[string]interface{}{"nodeName": "nn", "num": 5}, "status": map[string]interface{}{"phase": "Ready"}}}
		}
		cluster := h.pick("c", "default", "we ird", "")
		want := map[string]string{}
		for k, e := range conf {
			want[k] = evalIndex(e, obj)
		}
		wantAnno := map[string]string{}
		for k, v := range want {
			wantAnno[k] = v
		}
		for _, m := range []map[string]string{want, wantAnno} {
			m["cluster"], m["is_deleted"] = cluster, del
		}
		want["namespace"], want["name"] = meta.Namespace, meta.Name
		before := obj.(runtime.Object).DeepCopyObject().(metav1.Object)
		in := map[string]interface{}{"config": conf, "object": json.RawMessage(js(obj)), "cluster": cluster}
		h.one(in)
		op := h.pick("add", "modify", "add then modify")
		if op == "add then modify" {
			old := mkPod(meta.Namespace, meta.Name, map[string]string{"app": "old"})
			_ = s.OnResourceAdded(podGVR, cluster, old)
		}
		if op == "add" {
			_ = s.OnResourceAdded(podGVR, cluster, obj)
		} else {
			_ = s.OnResourceModified(podGVR, cluster, obj)
		}
		g := s.Get(podGVR, cluster, meta.Namespace, meta.Name)
		got, ok := g.(metav1.Object)
		if !ok {
			h.bad("the object is not cached under its own identity", in, fmt.Sprintf("%T", g), "the object")
			continue
		}
		// the stored index, through searches
		for k, v := range want {
			search := k + "=" + strings.ReplaceAll(strconv.Quote(v), ";", ";;")
			r := s.Query(podGVR, store.Query{Paginate: page.Paginate{Search: search}})
			if r.Error != nil || len(r.Items) != 1 {
				r2 := s.Query(podGVR, store.Query{Paginate: page.Paginate{}})
				h.bad("index "+k+" is not the configured value", in, fmt.Sprint(r.Error, " ", len(r.Items), " annotated ", annos(r2.Items)), v)
			}
		}
		for _, k := range append([]string{"onlyother", "stale", "x"}, keys...) {
			if _, there := want[k]; there {
				continue
			}
			if r := s.Query(podGVR, store.Query{Paginate: page.Paginate{Search: k + "=x"}}); r.Error == nil {
				h.bad("index which is not configured: "+k, in, "present", "absent")
			}
		}
		// the annotations
		an := got.GetAnnotations()
		if an["ckube.doacloud.io/cluster"] != cluster {
			h.bad("cluster annotation", in, an["ckube.doacloud.io/cluster"], cluster)
		}
		gi := map[string]string{}
		_ = json.Unmarshal([]byte(an["ckube.daocloud.io/indexes"]), &gi)
		for _, k := range []string{"namespace", "name"} {
			// the configured value or the object's own
			if gi[k] == want[k] || gi[k] == wantAnno[k] {
				delete(gi, k)
				delete(wantAnno, k)
			}
		}
		if js(gi) != js(wantAnno) {
			h.bad("index annotation", in, gi, wantAnno)
		}
		// everything else is unchanged
		strip := func(o metav1.Object) string {
			a := map[string]string{}
			for k, v := range o.GetAnnotations() {
				if k != "ckube.doacloud.io/cluster" && k != "ckube.daocloud.io/indexes" {
					a[k] = v
				}
			}
			c := o.(runtime.Object).DeepCopyObject().(metav1.Object)
			if len(a) == 0 {
				a = nil
			}
			c.SetAnnotations(a)
			return js(c)
		}
		if strip(got) != strip(before) {
			h.bad("other content changed", in, strip(got), strip(before))
		}
	}
}

func annos(items []interface{}) string {
	s := ""
	for _, it := range items {
		if o, ok := it.(metav1.Object); ok {
			s += o.GetAnnotations()["ckube.daocloud.io/indexes"] + " "
		}
	}
	return s
}
