package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/store"
)

// TestVerifC21: whatever a handler comes back with (the cached object it returns, an
// error, a crash, an answer of the API server), sent through the real server.
func TestVerifC21(t *testing.T) {
	h := vStart(t, "C21")
	initCfg("default", "")
	up := newUpstream(t, "default")
	s := &spyStore{stored: map[store.GroupVersionResource]bool{podGVR: true, svcGVR: true, depGVR: true}}
	hd, _ := newHandler(s, map[string]kubernetes.Interface{"default": up.cli})
	codes := []int32{200, 201, 202, 400, 401, 403, 404, 405, 406, 409, 410, 415, 422, 429, 500, 501, 502, 503, 504}
	type obj struct {
		A string `json:"a"`
		B int    `json:"b"`
	}
	alive := func(in interface{}) {
		s.mu.Lock()
		g := s.get
		s.get = func(store.GroupVersionResource, string, string, string) interface{} { return &obj{"ok", 1} }
		s.mu.Unlock()
		w := do(hd, "GET", "/api/v1/namespaces/a/pods/x", "")
		if w.Code != 200 || w.Body.String() != `{"a":"ok","b":1}` {
			h.bad("the server does not answer afterwards", in, fmt.Sprint(w.Code, " ", w.Body.String()), "200")
		}
		s.mu.Lock()
		s.get = g
		s.mu.Unlock()
	}
	call := func(f func() interface{}) (code int, ctype, body string, crashed interface{}) {
		s.mu.Lock()
		s.get = func(store.GroupVersionResource, string, string, string) interface{} { return f() }
		s.mu.Unlock()
		defer func() { crashed = recover() }()
		w := do(hd, "GET", "/api/v1/namespaces/a/pods/x", "")
		return w.Code, w.Header().Get("Content-Type"), w.Body.String(), nil
	}
	for i := 0; i < h.n(1500, 20000); i++ {
		kind := h.pick("status", "*status", "string", "bytes", "value", "map", "slice", "int", "error", "panic", "panicerr", "runtime", "nilmap")
		in := map[string]interface{}{"result": kind}
		st := metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status"}, Status: h.pick("Failure", "Success"), Message: h.str("a\"<& ü", 8), Reason: metav1.StatusReason(h.pick("NotFound", "x y")), Code: codes[h.rng.Intn(len(codes))]}
		txt := h.str("ab\n\"{}<&", 12)
		m := map[string]interface{}{"k": txt, "n": float64(h.rng.Intn(9)), "code": float64(h.rng.Intn(600))}
		var f func() interface{}
		wantCode, wantBody, isJSON := 200, "", true
		in["text"], in["status"] = txt, st
		switch kind {
		case "status":
			f = func() interface{} { return st }
			wantCode, wantBody = int(st.Code), js(st)
		case "*status":
			f = func() interface{} { return &st }
			wantCode, wantBody = int(st.Code), js(st)
		case "string":
			f = func() interface{} { return txt }
			wantBody, isJSON = txt, false
		case "bytes":
			f = func() interface{} { return []byte(txt) }
			wantBody, isJSON = txt, false
		case "value":
			f = func() interface{} { return obj{txt, 3} }
			wantBody = js(obj{txt, 3})
		case "map":
			f = func() interface{} { return m }
			wantBody = js(m)
		case "slice":
			f = func() interface{} { return []interface{}{txt, m} }
			wantBody = js([]interface{}{txt, m})
		case "int":
			f = func() interface{} { return 7 }
			wantBody = "7"
		case "error":
			f = func() interface{} { return errors.New(txt) }
			wantCode = 500
		case "panic":
			f = func() interface{} { panic(txt) }
			wantCode = 500
		case "panicerr":
			f = func() interface{} { panic(fmt.Errorf("boom %s", txt)) }
			wantCode = 500
		case "runtime":
			f = func() interface{} { var p *obj; return p.A }
			wantCode = 500
		case "nilmap":
			f = func() interface{} { var q map[string]int; q["a"] = 1; return q }
			wantCode = 500
		}
		h.one(in)
		code, ct, body, crashed := call(f)
		if crashed != nil {
			h.bad("the crash of a handler takes the server down", in, fmt.Sprint(crashed), "500")
			continue
		}
		if code != wantCode {
			h.bad("HTTP status", in, fmt.Sprint(code, " ", body), wantCode)
		}
		if wantCode != 500 || kind == "status" || kind == "*status" {
			if body != wantBody {
				h.bad("body", in, body, wantBody)
			}
			if isJSON && ct != "application/json" {
				h.bad("content type", in, ct, "application/json")
			}
		}
		if i%50 == 0 {
			alive(in)
		}
	}
	// error statuses the server makes itself or passes on: the same code in body and HTTP status
	same := func(in string, code int, body string, want int) {
		h.one(in)
		var st metav1.Status
		err := json.Unmarshal([]byte(body), &st)
		if err != nil || code != int(st.Code) || code != want || st.Kind != "Status" && want != 401 {
			h.bad("code of an error answer", in, fmt.Sprint(code, " ", body), want)
		}
	}
	s.mu.Lock()
	s.get = nil
	s.mu.Unlock()
	w := do(hd, "GET", "/api/v1/namespaces/a/pods/x", "")
	same("absent object", w.Code, w.Body.String(), 404)
	w = do(hd, "GET", "/api/v1/secrets?resourceVersion=dsm-cluster-nosuch", "")
	same("unknown cluster", w.Code, w.Body.String(), 404)
	w = do(hd, "PATCH", "/api/v1/namespaces/a/pods/x?fieldManager=dsm-cluster-nosuch", "{}")
	same("unknown cluster, patch", w.Code, w.Body.String(), 404)
	s.mu.Lock()
	s.query = func(store.GroupVersionResource, store.Query) store.QueryResult {
		return store.QueryResult{Error: errors.New("bad query")}
	}
	s.mu.Unlock()
	for _, q := range []string{"", "?labelSelector=a%3D1"} {
		w = do(hd, "GET", "/api/v1/pods"+q, "")
		same("query error"+q, w.Code, w.Body.String(), 400)
	}
	s.mu.Lock()
	s.query = func(store.GroupVersionResource, store.Query) store.QueryResult { return store.QueryResult{Total: 3} }
	s.mu.Unlock()
	ls, _ := selectorFor("", pageOf(5, 2))
	w = do(hd, "GET", "/api/v1/pods?labelSelector="+qEsc(ls), "")
	same("beyond the last page", w.Code, w.Body.String(), 400)
	ls, _ = selectorFor("app=x", pageOf(-1, 2))
	w = do(hd, "GET", "/api/v1/pods?labelSelector="+qEsc(ls), "")
	same("negative page", w.Code, w.Body.String(), 400)
	for _, c := range codes {
		if c < 400 {
			continue
		}
		up.mu.Lock()
		up.status = int(c)
		up.body = js(metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Failure", Message: "m", Reason: "r", Code: c})
		up.mu.Unlock()
		for _, m := range []string{"GET", "PUT", "DELETE", "POST", "PATCH"} {
			w = do(hd, m, "/api/v1/namespaces/a/secrets/x", "")
			same(fmt.Sprint("the API server answers ", m, " with ", c), w.Code, w.Body.String(), int(c))
		}
		w = do(hd, "GET", "/api/v1/namespaces/a/secrets?watch=true", "")
		same(fmt.Sprint("the API server answers a watch with ", c), w.Code, w.Body.String(), int(c))
	}
	up.srv.Close()
	w = do(hd, "GET", "/api/v1/namespaces/a/secrets/x", "")
	h.one("API server gone")
	if w.Code != http.StatusInternalServerError {
		h.bad("the API server can not be reached", "GET", w.Code, 500)
	}
	initCfg("default", "tok")
	w = do(hd, "GET", "/api/v1/pods", "")
	same("no token", w.Code, w.Body.String(), 401)
}
