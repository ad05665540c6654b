package zzverif

import (
	"fmt"
	"testing"

	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/store"
)

func TestVerifC12(t *testing.T) {
	h := vStart(t, "C12")
	up := newUpstream(t, "default")
	st := &spyStore{stored: map[store.GroupVersionResource]bool{podGVR: true, svcGVR: true, depGVR: true}}
	st.get = func(gvr store.GroupVersionResource, c, ns, n string) interface{} { return mkPod(ns, n, nil) }
	hd, _ := newHandler(st, map[string]kubernetes.Interface{"default": up.cli})
	paths := []string{"/api/v1/pods", "/api/v1/namespaces/a/pods", "/api/v1/namespaces/a/pods/x", "/api/v1/pods/x", "/apis/apps/v1/deployments", "/apis/apps/v1/deployments/x", "/apis/apps/v1/namespaces/a/deployments", "/apis/apps/v1/namespaces/a/deployments/d", "/api/v1/secrets", "/custom/v1/namespaces/a/deployments/d/services", "/custom/v1/clusters/default/namespaces/a/deployments/d/services", "/", "/version", "/api", "/apis", "/api/v1", "/healthyx", "/healthy/x", "/metrics/x", "/metricsx", "/custom", "/apis/apps/v1/namespaces/a/deployments/d/scale", "/api/v1/watch/pods", "/debug/pprof/", "/custom/v1/namespaces/metrics/deployments/healthy/services", "/api/v1/namespaces/metrics", "/api/healthy/metrics", "/apis/metrics.k8s.io/v1beta1/pods", "/openapi/v2"}
	methods := []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CUSTOM"}
	// every path and method, many header forms
	tokens := []string{"tok", "s3cr3t-token", "Bearer x", "a b", "Tok"}
	for _, path := range paths {
		for _, m := range methods {
			for rep := 0; rep < h.n(3, 24); rep++ {
				tok := tokens[h.rng.Intn(len(tokens))]
				if h.rng.Intn(8) == 0 {
					tok = ""
				}
				initCfg("default", tok)
				var hdr []string
				bad := []string{"", "Bearer ", "Bearer wrong", "basic", "x"}
				if len(tok) > 2 {
					bad = append(bad, "Bearer "+tok[:len(tok)-1], tok[1:], tok[:1], "Bearer "+tok[1:]+tok[:1], swapCase(tok))
				}
				good := []string{"Bearer " + tok, tok, "Bearer " + tok + " ", "x" + tok + "y"}
				auth := bad[h.rng.Intn(len(bad))]
				if h.rng.Intn(3) == 0 {
					auth = good[h.rng.Intn(len(good))]
				}
				if h.rng.Intn(6) > 0 || auth != "" {
					hdr = append(hdr, "Authorization", auth)
				}
				switch h.rng.Intn(5) {
				case 0:
					hdr = append(hdr, "X-Forwarded-For", "127.0.0.1", "Cookie", "token="+tok)
				case 1:
					hdr = append(hdr, "X-Authorization", tok, "Upgrade", "websocket")
				case 2:
					hdr = append(hdr, "Accept", "application/json;as=Table")
				}
				allowed := tok == "" || containsStr(auth, tok)
				q := h.pick("", "?token=", "?watch=true&token=", "?fieldManager=dsm-cluster-default&access_token=", "?labelSelector=a%3Db&t=")
				if q != "" {
					q += "tok"
				}
				in := map[string]interface{}{"method": m, "path": path + q, "token": tok, "authorization": auth, "header": hdr}
				h.one(in)
				up.take()
				st.reset()
				w := do(hd, m, path+q, "", hdr...)
				n := len(up.take())
				if !allowed {
					// a method without any route never reaches a handler; everything else is refused with 401
					if n > 0 || st.touched > 0 {
						h.bad("handled without the token", in, fmt.Sprintf("%d forwarded, %d store accesses, status %d", n, st.touched, w.Code), 401)
					} else if w.Code != 401 && w.Code != 405 && w.Code != 404 {
						h.bad("not refused", in, fmt.Sprint(w.Code, w.Body.String()), 401)
					} else if w.Code != 401 && (m == "GET" || m == "POST" || m == "PUT" || m == "DELETE" || m == "PATCH") {
						h.bad("not answered with 401", in, w.Code, 401)
					}
				} else if (m == "GET" || m == "POST" || m == "DELETE") && w.Code == 401 {
					h.bad("refused with the token", in, w.Code, "handled")
				} else if (m == "GET" || m == "POST" || m == "DELETE") && n+st.touched == 0 && w.Code < 400 {
					h.bad("not handled with the token", in, fmt.Sprint(w.Code, w.Body.String()), "handled")
				}
			}
		}
	}
	// the open endpoints stay open
	initCfg("default", "tok")
	for _, p := range []string{"/healthy", "/metrics"} {
		if w := do(hd, "GET", p, ""); w.Code != 200 {
			h.bad("open endpoint", p, w.Code, 200)
		}
		st.reset()
		up.take()
	}
	// and only them by GET: other methods on them fall through to the proxy
	for _, p := range []string{"/healthy", "/metrics"} {
		for _, m := range []string{"POST", "PUT", "DELETE", "PATCH"} {
			w := do(hd, m, p, "")
			h.one(m + " " + p)
			if len(up.take())+st.touched > 0 || w.Code < 400 {
				h.bad("handled without the token", m+" "+p, w.Code, "refused")
			}
		}
	}
	// concurrent requests are judged each on its own header
	done := make(chan string, 64)
	for g := 0; g < 16; g++ {
		go func(g int) {
			for i := 0; i < 40; i++ {
				if g%2 == 0 {
					if w := do(hd, "GET", "/api/v1/pods", "", "Authorization", "Bearer tok"); w.Code == 401 {
						done <- "refused with the token"
						return
					}
				} else if w := do(hd, "GET", "/api/v1/pods", "", "Authorization", "Bearer wrong"); w.Code != 401 {
					done <- "handled without the token"
					return
				}
			}
			done <- ""
		}(g)
	}
	for g := 0; g < 16; g++ {
		if m := <-done; m != "" {
			h.bad("concurrent requests: "+m, "GET /api/v1/pods", m, "")
		}
	}
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z':
			b[i] = c - 32
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		}
	}
	return string(b)
}
