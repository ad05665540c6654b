package zzverif

import (
	"fmt"
	"net/url"
	"sort"
	"strings"
	"testing"

	k8slabels "k8s.io/apimachinery/pkg/labels"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

func TestVerifC10(t *testing.T) {
	h := vStart(t, "C10")
	ups := map[string]*upstream{}
	clis := map[string]kubernetes.Interface{}
	for _, n := range []string{"default", "c1", "c 2", "dsm-cluster-x", "c"} {
		ups[n] = newUpstream(t, n)
		clis[n] = ups[n].cli
	}
	st := &spyStore{stored: map[store.GroupVersionResource]bool{podGVR: true, depGVR: true}}
	st.get = func(gvr store.GroupVersionResource, c, ns, n string) interface{} { return mkPod(ns, n, nil) }
	hd, _ := newHandler(st, clis)
	names := []string{"", "", "default", "c1", "c 2", "dsm-cluster-x", "c", "nope", "Default"}
	for run := 0; run < h.n(3000, 40000); run++ {
		def := h.pick("default", "default", "c1", "gone")
		initCfg(def, "")
		method := h.pick("GET", "GET", "GET", "GET", "POST", "PUT", "PATCH", "DELETE", "DELETE", "HEAD", "OPTIONS")
		path := h.pick("/api/v1/pods", "/api/v1/namespaces/a/pods", "/api/v1/namespaces/a/pods/x", "/apis/apps/v1/deployments", "/apis/apps/v1/namespaces/a/deployments/d", "/api/v1/secrets", "/apis/apps/v1beta1/deployments", "/api/v1/namespaces/a/pods/x/log", "/version", "/api", "/apis/apps/v1", "/apis/batch/v1/namespaces/n/jobs/j/status", "/api/v1/nodes/n/proxy/metrics", "/openapi/v2", "/api/v1/watch/pods")
		cached := map[string]bool{"/api/v1/pods": true, "/api/v1/namespaces/a/pods": true, "/api/v1/namespaces/a/pods/x": true, "/apis/apps/v1/deployments": true, "/apis/apps/v1/namespaces/a/deployments/d": true}[path]
		q := url.Values{}
		cluster := ""
		way := h.pick("", "", "cluster", "fieldManager", "resourceVersion", "dryRun", "search")
		target := names[h.rng.Intn(len(names))]
		body := ""
		if method != "GET" && method != "HEAD" && h.rng.Intn(3) > 0 {
			body = h.pick(`{"a":1}`, `{"kind":"Pod","metadata":{"name":"x"}}`, `not json`, `{"dryRun":["All"],"gracePeriodSeconds":3}`, ` {"propagationPolicy":"Foreground"} `, `{"unknown":true}`)
		}
		wantBody := body
		marker, param := "", ""
		switch way {
		case "cluster":
			if target != "" {
				q.Set("cluster", target)
				cluster = target
			}
		case "fieldManager", "resourceVersion":
			q.Set(way, "dsm-cluster-"+target)
			cluster, marker = target, way
		case "dryRun":
			if method == "DELETE" {
				body = fmt.Sprintf(`{"kind":"DeleteOptions","apiVersion":"v1","gracePeriodSeconds":5,"dryRun":[%q]}`, "dsm-cluster-"+target)
				wantBody = `{"kind":"DeleteOptions","apiVersion":"v1","gracePeriodSeconds":5}`
				cluster = target
				if h.rng.Intn(2) == 0 {
					body = strings.Replace(body, `"]`, `","All"]`, 1)
					wantBody = `{"kind":"DeleteOptions","apiVersion":"v1","gracePeriodSeconds":5,"dryRun":["All"]}`
				}
			}
		}
		lsel := ""
		if h.rng.Intn(3) == 0 {
			lsel = h.pick("app=web", "a in (x,y),!b", "a!=1", "gen>3", "x=1,x=2", "bad((")
		}
		p := page.Paginate{}
		sent := lsel
		if way == "search" && target != "" {
			// the search names its cluster
			if p.Clusters([]string{target}) == nil {
				if ls, err := selectorFor(lsel, p); err == nil {
					cluster, sent = target, ls
				}
			}
		}
		if sent != "" {
			q.Set("labelSelector", sent)
		}
		if h.rng.Intn(4) == 0 {
			param = h.pick("limit", "timeoutSeconds", "timeout")
			q.Set(param, h.pick("5", "10"))
		}
		other := ""
		if h.rng.Intn(3) == 0 {
			other = h.pick("fieldSelector", "continue", "pretty", "dryRun", "resourceVersionMatch", "fieldManager", "force", "resourceVersion", "Limit", "watch", "x y")
			if other == "fieldManager" && way == other || other == "resourceVersion" && way == other {
				other = ""
			} else if other == "watch" {
				q.Set(other, h.pick("true", "1", "false", "0"))
			} else {
				q.Set(other, h.pick("v", "a=b,c!=d", "", "ü&="))
				if other == "x y" {
					q.Add(other, "second")
				}
			}
		}
		raw := q.Encode()
		in := map[string]interface{}{"method": method, "path": path, "query": raw, "body": body, "default": def}
		h.one(in)
		if cluster == "" {
			cluster = def
		}
		// what may be answered from the cache: parameters other than the allowed four and the marker
		extra := false
		for k := range q {
			if k == "labelSelector" || k == "limit" || k == "timeout" || k == "timeoutSeconds" || k == marker {
				continue
			}
			extra = true
		}
		fromCache := method == "GET" && cached && !extra
		_, selBad := matchSelector(nil, lsel)
		for _, u := range ups {
			u.take()
		}
		st.reset()
		hdr := []string{}
		if method == "PATCH" {
			hdr = []string{"Content-Type", "application/merge-patch+json"}
		}
		w := do(hd, method, path+"?"+raw, body, hdr...)
		n := 0
		var got upReq
		who := ""
		for name, u := range ups {
			for _, r := range u.take() {
				n++
				got, who = r, name
			}
		}
		if fromCache && !selBad {
			if n != 0 || st.touched == 0 {
				h.bad("not answered from the cache", in, fmt.Sprintf("%d forwarded to %q, %d store reads, %d", n, who, st.touched, w.Code), "a store read")
			}
			continue
		}
		if fromCache { // a selector which can not be converted: the API server decides
			if n == 0 && st.touched > 0 {
				continue
			}
		}
		if st.touched != 0 {
			h.bad("the cache is read for a request which is to be forwarded", in, st.queries, "no read")
		}
		if ups[cluster] == nil {
			if n != 0 || w.Code != 404 {
				h.bad("unknown cluster", in, fmt.Sprintf("%d forwarded to %q, status %d", n, who, w.Code), "404 and nothing forwarded")
			}
			continue
		}
		if n != 1 || who != cluster {
			h.bad("not forwarded exactly once to the addressed cluster", in, fmt.Sprintf("%d, %q (status %d %s)", n, who, w.Code, w.Body.String()), cluster)
			continue
		}
		if got.Method != method || got.Path != path {
			h.bad("method or path changed", in, got.Method+" "+got.Path, method+" "+path)
		}
		if method != "GET" && method != "HEAD" {
			if strings.Contains(body, "dsm-cluster-") {
				if jsonNorm(got.Body) != jsonNorm(wantBody) {
					h.bad("body", in, got.Body, wantBody)
				}
			} else if got.Body != wantBody {
				h.bad("body changed", in, got.Body, wantBody)
			}
		}
		gq, _ := url.ParseQuery(got.RawQuery)
		for k := range q {
			if k == marker || k == "labelSelector" || k == "timeout" {
				continue
			}
			if js(gq[k]) != js(q[k]) {
				h.bad("parameter "+k+" changed", in, gq[k], q[k])
			}
		}
		for k := range gq {
			if k == marker {
				h.bad("the cluster marker is forwarded", in, gq[k], "removed")
			}
			if _, ok := q[k]; !ok && k != "timeout" && k != "labelSelector" {
				h.bad("parameter "+k+" appears", in, gq[k], "absent")
			}
		}
		// labels: the same conditions
		strip := func(s string) (k8slabels.Selector, bool) {
			rs, err := k8slabels.ParseToRequirements(s)
			if err != nil {
				return nil, false
			}
			sel := k8slabels.NewSelector()
			for _, r := range rs {
				if r.Key() != "ckube.daocloud.io/query" {
					sel = sel.Add(r)
				}
			}
			return sel, true
		}
		a, okA := strip(sent)
		b, okB := strip(gq.Get("labelSelector"))
		switch {
		case okA != okB || (!okA && sent != gq.Get("labelSelector")):
			h.bad("label selector changed", in, gq.Get("labelSelector"), sent)
		case okA:
			as, bs := reqStrings(a), reqStrings(b)
			if js(as) != js(bs) && !sameOn(h, a, b) {
				h.bad("label conditions changed", in, bs, as)
			}
		}
	}
}

func reqStrings(s k8slabels.Selector) []string {
	rs, _ := s.Requirements()
	r := []string{}
	for _, x := range rs {
		r = append(r, x.String())
	}
	sort.Strings(r)
	return r
}

func sameOn(h *vH, a, b k8slabels.Selector) bool {
	for i := 0; i < 60; i++ {
		s := k8slabels.Set{}
		for _, k := range []string{"app", "a", "b", "x"} {
			if h.rng.Intn(2) == 0 {
				s[k] = h.pick("web", "x", "y", "1", "2")
			}
		}
		if a.Matches(s) != b.Matches(s) {
			return false
		}
	}
	return true
}
