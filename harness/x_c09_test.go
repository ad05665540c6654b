package zzverif

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8slabels "k8s.io/apimachinery/pkg/labels"

	"github.com/DaoCloud/ckube/kube"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/watcher"
)

func TestVerifC09(t *testing.T) {
	h := vStart(t, "C09")
	initCfg("default", "")
	req := func() string {
		k := h.pick("a", "b", "app.kubernetes.io/name")
		return h.pick(k, "!"+k, k+"=1", k+"==2", k+"!=1", k+"=", k+"!=", k+" in (1,2)", k+" in (1)", k+" in (1,)", k+" notin (1,2)", k+" notin (2)", k+" notin ()", k+" in ()", k+"!=2", k+"=2", k+"=1")
	}
	bad := func() string { return h.pick("a>1", "a<3", "a gt 1", "a=1=2", "a in 1", "in (", "=1", "-a", "a=_", "a,,b") }
	labels := func() map[string]string {
		l := map[string]string{}
		for _, k := range []string{"a", "b", "app.kubernetes.io/name"} {
			if h.rng.Intn(3) > 0 {
				l[k] = h.pick("1", "2", "3", "")
			}
		}
		return l
	}
	for run := 0; run < h.n(4000, 60000); run++ {
		var rs []string
		for k := h.rng.Intn(5); k > 0; k-- {
			rs = append(rs, req())
		}
		if h.rng.Intn(8) == 0 {
			rs = append(rs, bad())
		}
		sel := strings.Join(rs, ",")
		h.one(sel)
		_, rej := matchSelector(nil, sel)
		ls, err := kube.ParseToLabelSelector(sel)
		if rej != (err != nil) {
			h.bad("rejection", sel, err, fmt.Sprintf("rejected: %v", rej))
			continue
		}
		if rej {
			continue
		}
		s, err := metav1.LabelSelectorAsSelector(ls)
		if err != nil {
			h.bad("the converted selector is invalid", sel, err, "a selector")
			continue
		}
		for i := 0; i < 12; i++ {
			l := labels()
			want, _ := matchSelector(l, sel)
			if got := s.Matches(k8slabels.Set(l)); got != want {
				h.bad("the converted selector means something else", map[string]interface{}{"selector": sel, "labels": l}, got, want)
				break
			}
		}
	}
	// lists
	for run := 0; run < h.n(100, 1500); run++ {
		st := newStore()
		hd, _ := newHandler(st, nil)
		for i := 0; i < 10; i++ {
			l := labels()
			if h.rng.Intn(3) == 0 {
				_ = st.OnResourceAdded(podGVR, "default", &watcher.ObjType{ObjectMeta: metav1.ObjectMeta{Namespace: "a", Name: fmt.Sprintf("n%d", i), Labels: l}, Data: map[string]interface{}{}})
			} else {
				_ = st.OnResourceAdded(podGVR, "default", mkPod(h.pick("a", "b"), fmt.Sprintf("n%d", i), l))
			}
		}
		for q := 0; q < 6; q++ {
			var rs []string
			for k := 1 + h.rng.Intn(3); k > 0; k-- {
				rs = append(rs, req())
			}
			sel := strings.Join(rs, ",")
			if _, rej := matchSelector(nil, sel); rej {
				continue
			}
			p := page.Paginate{Sort: h.pick("", "name desc", "namespace, name"), Search: h.pick("", "n", "name=!n3")}
			path := h.pick("/api/v1/pods", "/api/v1/namespaces/a/pods")
			list := func(sel string) ([]string, int) {
				ls, err := selectorFor(sel, p)
				if err != nil {
					return nil, -1
				}
				w := do(hd, "GET", path+"?labelSelector="+url.QueryEscape(ls), "")
				var l struct{ Items []json.RawMessage }
				_ = json.Unmarshal(w.Body.Bytes(), &l)
				r := []string{}
				for _, it := range l.Items {
					r = append(r, string(it))
				}
				return r, w.Code
			}
			in := map[string]interface{}{"selector": sel, "page": p, "path": path}
			h.one(in)
			all, code := list("")
			if code != 200 {
				if code != -1 {
					h.bad("list fails", in, code, 200)
				}
				continue
			}
			want := []string{}
			for _, it := range all {
				var o metav1.PartialObjectMetadata
				_ = json.Unmarshal([]byte(it), &o)
				if m, _ := matchSelector(o.Labels, sel); m {
					want = append(want, it)
				}
			}
			got, code := list(sel)
			if code == -1 {
				continue
			}
			if code != 200 || js(got) != js(want) {
				h.bad("list with a selector", in, fmt.Sprint(code, " ", got), want)
			}
		}
	}
}
