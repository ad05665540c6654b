package zzverif

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

func TestVerifC17(t *testing.T) {
	h := vStart(t, "C17")
	all := map[string]string{"app": "{.metadata.labels.app}", "zone": "{.metadata.labels.zone}", "created_at": "{.metadata.creationTimestamp}", "Upper": "{.metadata.labels.app}!", "labels": "{.metadata.labels}", "raw": "constant", "a": "{.metadata.uid}", "name2": "{.metadata.name}x", "cluster2": "k", "namespace2": "{.metadata.namespace}", "b c": "{.spec.nodeName}"}
	for run := 0; run < h.n(300, 4000); run++ {
		conf := map[string]string{"name": "{.metadata.name}"}
		nsIndexed := h.rng.Intn(3) > 0
		if nsIndexed {
			conf["namespace"] = "{.metadata.namespace}"
		}
		ks := sortedKeys(all)
		for _, k := range ks {
			if h.rng.Intn(2) == 0 {
				conf[k] = all[k]
			}
		}
		common.InitConfig(&common.Config{DefaultCluster: "default", Proxies: []common.Proxy{{Version: "v1", Resource: "pods", ListKind: "PodList", Index: conf}}})
		s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{podGVR: conf})
		hd, _ := newHandler(s, nil)
		rows := map[string]map[string]string{}
		for i := h.rng.Intn(7); i > 0; i-- {
			c, ns, n := h.pick("default", "c1"), h.pick("a", "b", ""), fmt.Sprintf("n%d", h.rng.Intn(6))
			p := mkPod(ns, n, map[string]string{"app": h.pick("web", "db"), "zone": h.pick("z1", "", "z2")})
			p.UID = "u" + "id" // every object alike
			p.Spec.NodeName = h.pick("node", "")
			p.CreationTimestamp = metav1.NewTime(time.Unix(int64(h.rng.Intn(1000)), 0))
			if h.rng.Intn(4) == 0 {
				now := metav1.Now()
				p.DeletionTimestamp = &now
			}
			row := map[string]string{}
			for k, e := range conf {
				row[k] = evalIndex(e, p)
			}
			row["cluster"], row["name"], row["is_deleted"] = c, n, fmt.Sprint(p.DeletionTimestamp != nil)
			var o interface{} = p
			if h.rng.Intn(4) == 0 {
				o = &watcher.ObjType{TypeMeta: p.TypeMeta, ObjectMeta: p.ObjectMeta, Data: map[string]interface{}{"spec": map[string]interface{}{"nodeName": p.Spec.NodeName}}}
			}
			_ = s.OnResourceAdded(podGVR, c, o)
			rows[c+"|"+ns+"|"+n] = row
		}
		cols := []string{"cluster", "name"}
		if nsIndexed {
			cols = []string{"cluster", "namespace", "name"}
		}
		rest := []string{"is_deleted"}
		for k := range conf {
			if k != "name" && k != "namespace" {
				rest = append(rest, k)
			}
		}
		sort.Strings(rest)
		cols = append(cols, rest...)
		for q := 0; q < 3; q++ {
			p := page.Paginate{Sort: h.pick("", "name desc", "name")}
			if h.rng.Intn(3) == 0 {
				p.Page, p.PageSize = 1, int64(1+h.rng.Intn(4))
			}
			if p.Clusters([]string{"default", "c1"}) != nil {
				t.Fatal("clusters")
			}
			ls, err := selectorFor(h.pick("", "", "app=web"), p)
			if err != nil {
				continue
			}
			target := "/api/v1/pods?limit=500&labelSelector=" + url.QueryEscape(ls)
			in := map[string]interface{}{"index": conf, "list": target, "objects": rows}
			h.one(in)
			var l struct{ Items []metav1.PartialObjectMetadata }
			_ = json.Unmarshal(do(hd, "GET", target, "").Body.Bytes(), &l)
			w := do(hd, "GET", target, "", "Accept", h.pick("application/json;as=Table;v=v1;g=meta.k8s.io,application/json", "application/json;as=Table"))
			var tb metav1.Table
			if err := json.Unmarshal(w.Body.Bytes(), &tb); err != nil || tb.Kind != "Table" || w.Code != 200 {
				h.bad("no table", in, w.Body.String(), "a table")
				continue
			}
			if len(tb.Rows) != len(l.Items) {
				h.bad("rows", in, len(tb.Rows), len(l.Items))
				continue
			}
			if len(l.Items) == 0 {
				continue
			}
			got := []string{}
			for _, c := range tb.ColumnDefinitions {
				got = append(got, c.Name)
			}
			if js(got) != js(cols) {
				h.bad("columns", in, got, cols)
				continue
			}
			for i, it := range l.Items {
				id := it.Annotations["ckube.doacloud.io/cluster"] + "|" + it.Namespace + "|" + it.Name
				want := []interface{}{}
				for _, c := range cols {
					want = append(want, rows[id][c])
				}
				if js(tb.Rows[i].Cells) != js(want) {
					h.bad("row of "+id, in, js(tb.Rows[i].Cells), js(want))
				}
			}
		}
	}
}
