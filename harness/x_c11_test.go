package zzverif

import (
	"encoding/json"
	"fmt"
	"net/url"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

func TestVerifC11(t *testing.T) {
	h := vStart(t, "C11")
	up := newUpstream(t, "default")
	nodeGVR := store.GroupVersionResource{Group: "", Version: "v1", Resource: "nodes"}
	v2 := store.GroupVersionResource{Group: "apps", Version: "v2", Resource: "deployments"}
	for run := 0; run < h.n(150, 2000); run++ {
		def := h.pick("default", "c1")
		initCfg(def, "")
		conf := stdConf()
		conf[nodeGVR] = stdIndex
		conf[v2] = stdIndex
		s := memory.NewMemoryStore(conf)
		hd, _ := newHandler(s, map[string]kubernetes.Interface{"default": up.cli, "c1": up.cli, "c2": up.cli})
		model := map[string]string{}
		gvrs := []store.GroupVersionResource{podGVR, depGVR, nodeGVR, v2, svcGVR}
		for i := 0; i < 16; i++ {
			g := gvrs[h.rng.Intn(len(gvrs))]
			c, ns, n := h.pick("default", "c1", "c2"), h.pick("a", "b", "a-b"), h.pick("x", "y", "a", "x-y")
			if g == nodeGVR || h.rng.Intn(5) == 0 {
				ns = ""
			}
			uid := fmt.Sprintf("%v/%s/%s/%s#%d", g, c, ns, n, i)
			p := mkPod(ns, n, nil)
			p.Annotations = map[string]string{"uid": uid}
			var o interface{} = p
			if h.rng.Intn(3) == 0 {
				o = &watcher.ObjType{ObjectMeta: p.ObjectMeta, Data: map[string]interface{}{"spec": map[string]interface{}{"a": "b"}}}
			}
			k := fmt.Sprint(g, "|", c, "|", ns, "|", n)
			if h.rng.Intn(5) == 0 {
				_ = s.OnResourceDeleted(g, c, o)
				delete(model, k)
				continue
			}
			_ = s.OnResourceAdded(g, c, o)
			model[k] = uid
		}
		for q := 0; q < 40; q++ {
			g := gvrs[h.rng.Intn(len(gvrs))]
			c, ns, n := h.pick("default", "c1", "c2", "", "", "c"), h.pick("a", "b", "a-b", "zz"), h.pick("x", "y", "a", "x-y", "none")
			if g == nodeGVR || h.rng.Intn(8) == 0 {
				ns = ""
			}
			path := "/apis/" + g.Group + "/" + g.Version
			if g.Group == "" {
				path = "/api/" + g.Version
			}
			if ns != "" {
				path += "/namespaces/" + ns
			}
			path += "/" + g.Resource + "/" + n
			qs := url.Values{}
			if c != "" {
				qs.Set("resourceVersion", "dsm-cluster-"+c)
			}
			want := c
			if want == "" {
				want = def
			}
			k := fmt.Sprint(g, "|", want, "|", ns, "|", n)
			in := map[string]interface{}{"get": path, "cluster": c, "default": def, "cached": model}
			h.one(in)
			w := do(hd, "GET", path+"?"+qs.Encode(), "")
			if len(up.take()) > 0 {
				h.bad("an API server is contacted", in, "forwarded", "cache")
			}
			if model[k] == "" {
				var st metav1.Status
				_ = json.Unmarshal(w.Body.Bytes(), &st)
				if w.Code != 404 || st.Code != 404 || st.Kind != "Status" {
					h.bad("absent object", in, fmt.Sprint(w.Code, " ", w.Body.String()), 404)
				}
				continue
			}
			var o metav1.PartialObjectMetadata
			_ = json.Unmarshal(w.Body.Bytes(), &o)
			if w.Code != 200 || o.Annotations["uid"] != model[k] || o.Name != n || o.Namespace != ns || o.Annotations["ckube.doacloud.io/cluster"] != want {
				h.bad("another object", in, fmt.Sprint(w.Code, " ", w.Body.String()), model[k])
			}
		}
	}
}
