package zzverif

import (
	"encoding/json"
	"fmt"
	"net/url"
	"testing"

	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"

	"github.com/DaoCloud/ckube/page"
)

func TestVerifC04(t *testing.T) {
	h := vStart(t, "C04")
	initCfg("default", "")
	for run := 0; run < h.n(60, 700); run++ {
		s := newStore()
		hd, _ := newHandler(s, nil)
		n := h.rng.Intn(12)
		for i := 0; i < n; i++ {
			app := h.pick("web", "db")
			_ = s.OnResourceAdded(podGVR, "default", qObj{"default", h.pick("a", "b"), fmt.Sprintf("n%02d", i), map[string]string{"app": app}}.pod())
			d := &appsv1.Deployment{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: fmt.Sprintf("d%d", i), Labels: map[string]string{"app": app}}}
			_ = s.OnResourceAdded(depGVR, "default", d)
		}
		for q := 0; q < 12; q++ {
			pg := page.Paginate{Page: int64(h.rng.Intn(6)), PageSize: int64(h.rng.Intn(7)), Search: h.pick("", "name=n0", "app=web")}
			lsel := h.pick("", "", "app=web", "app!=web", "app=none")
			dep := h.rng.Intn(3) == 0
			if dep && pg.Search == "name=n0" {
				pg.Search = ""
			}
			path := h.pick("/api/v1/pods", "/api/v1/namespaces/a/pods")
			kind, av := "PodList", "v1"
			if dep {
				path, kind, av = h.pick("/apis/apps/v1/deployments", "/apis/apps/v1/namespaces/a/deployments"), "DeploymentList", "apps/v1"
			}
			in := map[string]interface{}{"path": path, "page": pg, "selector": lsel, "objects": n}
			h.one(in)
			get := func(pg page.Paginate) (int, []byte) {
				ls, err := selectorFor(lsel, pg)
				if err != nil {
					t.Fatal(err)
				}
				w := do(hd, "GET", path+"?labelSelector="+url.QueryEscape(ls), "")
				return w.Code, w.Body.Bytes()
			}
			type list struct {
				Kind, APIVersion string
				Metadata         struct{ RemainingItemCount *int64 }
				Items            []json.RawMessage
			}
			var full, l list
			code, bs := get(page.Paginate{Search: pg.Search})
			_ = json.Unmarshal(bs, &full)
			if code != 200 || full.Kind != kind || full.APIVersion != av {
				h.bad("unpaged list: kind and apiVersion", in, fmt.Sprint(code, full.Kind, full.APIVersion), kind+" "+av)
				continue
			}
			total := int64(len(full.Items))
			code, bs = get(pg)
			_ = json.Unmarshal(bs, &l)
			a, b := c03w(total, pg.Page, pg.PageSize)
			paged := pg.Page != 0 && pg.PageSize != 0
			if paged && pg.Page > 1 && a >= total {
				var st metav1.Status
				_ = json.Unmarshal(bs, &st)
				if code < 400 || st.Kind != "Status" {
					h.bad("page beyond the end is not answered with an error status", in, fmt.Sprint(code, string(bs)), "error status")
				}
				continue
			}
			if code != 200 {
				h.bad("page within range is refused", in, fmt.Sprint(code, string(bs)), 200)
				continue
			}
			if l.Kind != kind || l.APIVersion != av {
				h.bad("kind and apiVersion", in, l.Kind+" "+l.APIVersion, kind+" "+av)
			}
			wantRemain := total - b
			if !paged {
				wantRemain = 0
			}
			got := int64(0)
			if l.Metadata.RemainingItemCount != nil {
				got = *l.Metadata.RemainingItemCount
			}
			if got != wantRemain || (wantRemain > 0 && l.Metadata.RemainingItemCount == nil) {
				h.bad("remaining item count", in, got, wantRemain)
			}
			var li metav1.ListInterface
			switch {
			case dep:
				x := &appsv1.DeploymentList{}
				_ = json.Unmarshal(bs, x)
				li = x
			default:
				x := &corev1.PodList{}
				_ = json.Unmarshal(bs, x)
				li = x
			}
			r := page.MakeupResPaginate(li, pg)
			if r.Total != total {
				h.bad("the client does not recover the total", in, r.Total, total)
			}
			r.Total = pg.Total
			if r != pg {
				h.bad("the client helper changes the page", in, r, pg)
			}
		}
	}
	// the client helper over every small combination
	for remain := int64(-1); remain < 5; remain++ {
		for items := 0; items < 5; items++ {
			for p := int64(0); p < 4; p++ {
				for sz := int64(0); sz < 5; sz++ {
					var rp *int64
					if remain >= 0 {
						r := remain
						rp = &r
					}
					mk := []metav1.ListInterface{
						&corev1.PodList{ListMeta: metav1.ListMeta{RemainingItemCount: rp}, Items: make([]corev1.Pod, items)},
						&unstructured.UnstructuredList{Object: map[string]interface{}{}, Items: make([]unstructured.Unstructured, items)},
					}
					mk[1].SetRemainingItemCount(rp)
					for _, l := range mk {
						want := int64(items)
						if remain > 0 {
							want += remain
						}
						if p > 0 && sz > 0 {
							want += (p - 1) * sz
						}
						h.one(fmt.Sprintf("helper %d %d %d %d %T", remain, items, p, sz, l))
						if got := page.MakeupResPaginate(l, page.Paginate{Page: p, PageSize: sz, Total: 99}).Total; got != want {
							h.bad("MakeupResPaginate", fmt.Sprintf("remaining %d, items %d, page %d, size %d, %T", remain, items, p, sz, l), got, want)
						}
					}
				}
			}
		}
	}
}

func c03w(n, p, s int64) (int64, int64) {
	if p == 0 || s == 0 {
		return 0, n
	}
	a, b := (p-1)*s, p*s
	if a > n {
		a = n
	}
	if b > n {
		b = n
	}
	return a, b
}
