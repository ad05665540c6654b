package zzverif

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/watcher"
)

func TestVerifC18(t *testing.T) {
	h := vStart(t, "C18")
	long := strings.Repeat("long-name-", 7) + "x"
	type pd struct {
		Cluster, NS, Name, Owner, Kind string
		Labels                         map[string]string
	}
	type sv struct {
		Cluster, NS, Name string
		Sel               map[string]string
	}
	lab := func(max int) map[string]string {
		l := map[string]string{}
		for i := h.rng.Intn(max + 1); i > 0; i-- {
			l[h.pick("app", "tier", "v")] = h.pick("web", "db", "1")
		}
		return l
	}
	for run := 0; run < h.n(500, 6000); run++ {
		def := h.pick("default", "c1", "we ird")
		initCfg(def, "")
		s := newStore()
		hd, _ := newHandler(s, nil)
		var pods []pd
		var svcs []sv
		cl := []string{"default", "c1", "c1-x", "we ird"}
		deps := []string{"web", "web-1", "my-web", "w", "web-web", long}
		for i := 0; i < 12; i++ {
			d := deps[h.rng.Intn(len(deps))]
			p := pd{Cluster: cl[h.rng.Intn(len(cl))], NS: h.pick("a", "ab"), Kind: "ReplicaSet", Owner: d + "-6d4cf56db6", Labels: lab(3)}
			p.Name = p.Owner + fmt.Sprintf("-%05d", i)
			if len(p.Name) > 63 {
				p.Name = p.Name[:58] + fmt.Sprintf("%05d", i)
			}
			switch h.rng.Intn(9) {
			case 0:
				p.Name = fmt.Sprintf("adopted%d", i)
			case 1:
				p.Kind = h.pick("StatefulSet", "Job", "DaemonSet")
			case 2:
				p.Kind, p.Owner = "", ""
			}
			o := mkPod(p.NS, p.Name, p.Labels)
			if p.Kind != "" {
				ctl := true
				o.OwnerReferences = []metav1.OwnerReference{{APIVersion: "apps/v1", Kind: p.Kind, Name: p.Owner, Controller: &ctl}}
			}
			pods = append(pods, p)
			if h.rng.Intn(4) == 0 {
				_ = s.OnResourceAdded(podGVR, p.Cluster, &watcher.ObjType{ObjectMeta: o.ObjectMeta, Data: map[string]interface{}{}})
			} else {
				_ = s.OnResourceAdded(podGVR, p.Cluster, o)
			}
		}
		for i := 0; i < 10; i++ {
			x := sv{Cluster: cl[h.rng.Intn(len(cl))], NS: h.pick("a", "ab"), Name: fmt.Sprintf("s%d", i)}
			if h.rng.Intn(5) > 0 {
				x.Sel = lab(2)
			}
			svcs = append(svcs, x)
			var o interface{} = &corev1.Service{ObjectMeta: metav1.ObjectMeta{Namespace: x.NS, Name: x.Name}, Spec: corev1.ServiceSpec{Selector: x.Sel, ClusterIP: "10.0.0.1"}}
			if h.rng.Intn(3) == 0 {
				spec := map[string]interface{}{"clusterIP": "10.0.0.1"}
				if x.Sel != nil {
					m := map[string]interface{}{}
					for k, v := range x.Sel {
						m[k] = v
					}
					spec["selector"] = m
				}
				o = &watcher.ObjType{ObjectMeta: metav1.ObjectMeta{Namespace: x.NS, Name: x.Name}, Data: map[string]interface{}{"spec": spec}}
			} else if x.Sel != nil && len(x.Sel) == 0 {
				// an empty selector does not survive the typed encoding; keep it typed
				o.(*corev1.Service).Spec.Selector = map[string]string{}
			}
			_ = s.OnResourceAdded(svcGVR, x.Cluster, o)
		}
		for q := 0; q < 6; q++ {
			dep, ns := deps[h.rng.Intn(len(deps))], h.pick("a", "ab")
			cluster := h.pick("", "default", "c1", "c1-x", "nope")
			path := "/custom/v1/namespaces/" + ns + "/deployments/" + dep + "/services"
			eff := def
			if cluster != "" {
				path = "/custom/v1/clusters/" + cluster + "/namespaces/" + ns + "/deployments/" + dep + "/services"
				eff = cluster
			}
			in := map[string]interface{}{"get": path, "default": def, "pods": pods, "services": svcs}
			h.one(in)
			want := []string{}
			for _, x := range svcs {
				if x.Sel == nil || x.Cluster != eff || x.NS != ns {
					continue
				}
				for _, p := range pods {
					if p.Cluster != eff || p.NS != ns || p.Kind != "ReplicaSet" || p.Owner[:strings.LastIndex(p.Owner, "-")] != dep {
						continue
					}
					sub := true
					for k, v := range x.Sel {
						if pv, ok := p.Labels[k]; !ok || pv != v {
							sub = false
						}
					}
					if sub {
						want = append(want, x.Name)
						break
					}
				}
			}
			w := do(hd, "GET", path, "")
			var l []corev1.Service
			err := json.Unmarshal(w.Body.Bytes(), &l)
			got := []string{}
			for _, x := range l {
				got = append(got, x.Name)
				if x.Namespace != ns || x.Annotations["ckube.doacloud.io/cluster"] != eff || x.Spec.ClusterIP != "10.0.0.1" {
					h.bad("a service of another cluster or namespace, or incomplete", in, js(x), eff+" "+ns)
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if err != nil || w.Code != 200 || js(got) != js(want) {
				h.bad("services of the deployment", in, fmt.Sprint(w.Code, " ", err, " ", got), want)
			}
		}
	}
}
