package zzverif

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
)

func TestVerifC07(t *testing.T) {
	h := vStart(t, "C07")
	names := []string{"default", "b d", `a"b d`, "c", "cc", "c-1", "we ird", "arn:aws:eks/x", "kind@home", "a,b", "a)b", `q"uote`, "semi;colon", "ü", "e=f", "!neg", strings.Repeat("long", 20), "kubernetes-admin@kubernetes", "C", "in", "notin"}
	listIDs := func(bs []byte) []string {
		var l struct {
			Items []metav1.PartialObjectMetadata
		}
		_ = json.Unmarshal(bs, &l)
		ids := []string{}
		for _, it := range l.Items {
			ids = append(ids, it.Annotations["ckube.doacloud.io/cluster"]+"|"+it.Namespace+"|"+it.Name)
		}
		sort.Strings(ids)
		return ids
	}
	for run := 0; run < h.n(150, 2500); run++ {
		def := names[h.rng.Intn(len(names))]
		initCfg(def, "")
		s := newStore()
		hd, _ := newHandler(s, nil)
		objs := map[string]qObj{}
		cl := []string{def}
		for k := 0; k < 4; k++ {
			cl = append(cl, names[h.rng.Intn(len(names))])
		}
		for i := 0; i < 14; i++ {
			o := qObj{cl[h.rng.Intn(len(cl))], h.pick("a", "ab", "b"), fmt.Sprintf("n%d", h.rng.Intn(9)), map[string]string{"app": h.pick("web", "db", "a;b")}}
			objs[o.id()] = o
			_ = s.OnResourceAdded(podGVR, o.Cluster, o.pod())
		}
		for q := 0; q < 8; q++ {
			user := h.pick("", "app=web", "app=!web", "n1", "name=n;app=db", "app=a;;b", "__ckube_as__:app in (web)", "__ckube_as__:app!=db;name=n", "name=n; __ckube_as__:app=db", "__ckube_as__:app=web;__ckube_as__:name in (n1,n2)", "!n3;", ";;n", ";;;app=web", "__ckube_as__:namespace in (a)")
			if h.rng.Intn(6) == 0 {
				user = fmt.Sprintf("cluster=%q", cl[h.rng.Intn(len(cl))])
				user = strings.ReplaceAll(user, ";", ";;")
			}
			p := page.Paginate{Search: user}
			var clusters, nss []string
			valid := true
			steps := []string{}
			for k := h.rng.Intn(3); k > 0; k-- {
				if h.rng.Intn(3) > 0 {
					var cs []string
					for j := 1 + h.rng.Intn(3); j > 0; j-- {
						cs = append(cs, cl[h.rng.Intn(len(cl))])
					}
					before := p.Search
					if err := p.Clusters(cs); err != nil {
						if p.Search != before {
							h.bad("a refused restriction changes the search", map[string]interface{}{"search": before, "clusters": cs}, p.Search, before)
						}
						valid = false
						break
					}
					clusters = cs
					steps = append(steps, fmt.Sprintf("Clusters%q", cs))
				} else {
					ns := []string{h.pick("a", "b"), h.pick("a", "ab")}
					if err := p.Namespaces(ns); err != nil {
						valid = false
						break
					}
					nss = ns
					steps = append(steps, fmt.Sprintf("Namespaces%q", ns))
				}
			}
			if !valid {
				continue
			}
			in := map[string]interface{}{"default": def, "search": user, "steps": steps, "objects": objs}
			h.one(in)
			want := []string{}
			for id, o := range objs {
				m, bad := matchSearch(o.index(), user)
				if bad {
					t.Fatal("oracle: ", user)
				}
				// a namespace condition of the search set with the same key is the earlier restriction
				if strings.Contains(user, "namespace in") && nss != nil {
					m = true
				}
				if !m || (nss != nil && !has(nss, o.NS)) {
					continue
				}
				if clusters == nil && o.Cluster != def || clusters != nil && !has(clusters, o.Cluster) {
					continue
				}
				want = append(want, id)
			}
			sort.Strings(want)
			ls, err := selectorFor(h.pick("", "name!=x"), p)
			if err != nil {
				continue
			}
			w := do(hd, "GET", "/api/v1/pods?labelSelector="+url.QueryEscape(ls), "")
			if w.Code != 200 {
				h.bad("list fails", in, w.Body.String(), want)
				continue
			}
			if got := listIDs(w.Body.Bytes()); js(got) != js(want) {
				h.bad("list is not the matching objects of the requested clusters", in, got, want)
			}
			// the table form of the request and a request without any selector stay inside too
			if user == "" && len(steps) == 0 {
				if got := listIDs(do(hd, "GET", "/api/v1/pods?limit=500", "").Body.Bytes()); js(got) != js(want) {
					h.bad("plain list leaves the default cluster", in, got, want)
				}
				lw := []string{}
				for _, id := range want {
					if objs[id].Labels["app"] == "web" {
						lw = append(lw, id)
					}
				}
				if got := listIDs(do(hd, "GET", "/api/v1/pods?labelSelector=app%3Dweb", "").Body.Bytes()); js(got) != js(lw) {
					h.bad("list with a label selector leaves the default cluster", in, got, lw)
				}
			}
		}
	}
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
