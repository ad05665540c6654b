package zzverif

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

func TestVerifC02(t *testing.T) {
	h := vStart(t, "C02")
	clusters := []string{"c", "default", "c-2", "we ird", "C"}
	nss := []string{"", "a", "ab", "b", "kube-system"}
	runs := h.n(150, 2000)
	for run := 0; run < runs; run++ {
		s := newStore()
		n := h.rng.Intn(14)
		if run%25 == 24 {
			n = 300
		}
		objs := map[string]qObj{}
		for i := 0; i < n; i++ {
			o := qObj{clusters[h.rng.Intn(len(clusters))], nss[h.rng.Intn(len(nss))], h.pick("n", "nn", "x", "x-1", "Q") + fmt.Sprint(h.rng.Intn(2+n/4)), map[string]string{"app": h.pick("web", "we", `q"t`, "a;b", "", "a=b"), "num": fmt.Sprint(h.rng.Intn(30))}}
			_ = s.OnResourceAdded(podGVR, o.Cluster, o.pod())
			objs[o.Cluster+"|"+o.NS+"|"+o.Name] = o
			// decoys of another resource type
			if i%3 == 0 {
				_ = s.OnResourceAdded(svcGVR, o.Cluster, o.pod())
			}
			// decoys which are gone
			if i%4 == 0 {
				d := mkPod(o.NS, "gone", o.Labels)
				_ = s.OnResourceAdded(podGVR, o.Cluster, d)
				_ = s.OnResourceDeleted(podGVR, o.Cluster, d)
			}
		}
		for q := 0; q < 12; q++ {
			var parts []string
			for k := h.rng.Intn(3); k > 0; k-- {
				parts = append(parts, h.pick("web", "we", "!we", "name=x", "name=!n", "cluster=c", `cluster="c"`, "namespace=a", "app=", "app=!web", "num=1", "a;;b", "1970", "app=a;;b", "__ckube_as__:cluster in (c, default)", "__ckube_as__:app!=web,num in (1,2,3)", "__ckube_as__:app", " name=n ", "", "is_deleted=false", "nosuch=1", "__ckube_as__:", "__ckube_as__:a>>", "__ckube_as__:num>3"))
			}
			search := strings.Join(parts, ";")
			ns := ""
			if h.rng.Intn(2) == 0 {
				ns = nss[h.rng.Intn(len(nss))]
			}
			want := []string{}
			examined, bad := 0, false
			for id, o := range objs {
				if ns != "" && o.NS != ns {
					continue
				}
				examined++
				m, b := matchSearch(o.index(), search)
				bad = bad || b
				if m {
					want = append(want, id)
				}
			}
			sort.Strings(want)
			pg := page.Paginate{Search: search, Sort: h.pick("", "name", "name desc", "num!int"), Page: 0, PageSize: int64(h.rng.Intn(2) * 3)}
			if h.rng.Intn(3) == 0 {
				pg.Page, pg.PageSize = int64(h.rng.Intn(3)), 0
			}
			in := map[string]interface{}{"search": search, "namespace": ns, "objects": objs, "sort": pg.Sort}
			h.one(in)
			res := s.Query(podGVR, store.Query{Namespace: ns, Paginate: pg})
			if bad {
				if res.Error == nil {
					h.bad("malformed search or unknown key gives no error", in, "no error", "an error")
				}
				continue
			}
			if res.Error != nil {
				h.bad("query fails", in, res.Error, "no error")
				continue
			}
			got := []string{}
			for _, it := range res.Items {
				o, ok := it.(metav1.Object)
				if !ok {
					h.bad("result is not the cached object", in, fmt.Sprintf("%T", it), "a pod")
					break
				}
				got = append(got, o.GetAnnotations()["ckube.doacloud.io/cluster"]+"|"+o.GetNamespace()+"|"+o.GetName())
			}
			sort.Strings(got)
			if js(got) != js(want) {
				h.bad("wrong set of objects", in, got, want)
			}
			if res.Total != int64(len(want)) {
				h.bad("total is not the number of matches", in, res.Total, len(want))
			}
		}
	}
}
