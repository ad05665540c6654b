package zzverif

// Shared parts of the replay harness: builders, recording stand-ins and oracles
// written from the statements of the properties, not from the code.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"text/template"
	"time"

	"github.com/gorilla/mux"
	"github.com/sirupsen/logrus"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8slabels "k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/selection"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/util/jsonpath"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/log"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

func init() {
	logrus.SetOutput(io.Discard)
	log.AccessLog.SetOutput(io.Discard)
}

var (
	podGVR = store.GroupVersionResource{Group: "", Version: "v1", Resource: "pods"}
	svcGVR = store.GroupVersionResource{Group: "", Version: "v1", Resource: "services"}
	depGVR = store.GroupVersionResource{Group: "apps", Version: "v1", Resource: "deployments"}
)

var stdIndex = map[string]string{
	"namespace":  "{.metadata.namespace}",
	"name":       "{.metadata.name}",
	"app":        "{.metadata.labels.app}",
	"num":        "{.metadata.labels.num}",
	"created_at": "{.metadata.creationTimestamp}",
}

func stdConf() map[store.GroupVersionResource]map[string]string {
	return map[store.GroupVersionResource]map[string]string{podGVR: stdIndex, svcGVR: stdIndex, depGVR: stdIndex}
}

func initCfg(def, token string) {
	common.InitConfig(&common.Config{
		DefaultCluster: def,
		Token:          token,
		Proxies: []common.Proxy{
			{Group: "", Version: "v1", Resource: "pods", ListKind: "PodList", Index: stdIndex},
			{Group: "", Version: "v1", Resource: "services", ListKind: "ServiceList", Index: stdIndex},
			{Group: "apps", Version: "v1", Resource: "deployments", ListKind: "DeploymentList", Index: stdIndex},
		},
	})
}

func newStore() store.Store { return memory.NewMemoryStore(stdConf()) }

func mkPod(ns, name string, labels map[string]string) *corev1.Pod {
	return &corev1.Pod{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name, Labels: labels}}
}

// spyStore records every access; its content is scripted.
type spyStore struct {
	mu      sync.Mutex
	touched int
	queries []store.Query
	qgvr    []store.GroupVersionResource
	gets    []string
	stored  map[store.GroupVersionResource]bool
	get     func(gvr store.GroupVersionResource, cluster, ns, name string) interface{}
	query   func(gvr store.GroupVersionResource, q store.Query) store.QueryResult
}

func (s *spyStore) IsStoreGVR(gvr store.GroupVersionResource) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.stored[gvr]
}
func (s *spyStore) Clean(gvr store.GroupVersionResource, cluster string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.touched++
	return nil
}
func (s *spyStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	return s.Clean(gvr, cluster)
}
func (s *spyStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	return s.Clean(gvr, cluster)
}
func (s *spyStore) OnResourceDeleted(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	return s.Clean(gvr, cluster)
}
func (s *spyStore) Query(gvr store.GroupVersionResource, q store.Query) store.QueryResult {
	s.mu.Lock()
	s.touched++
	s.queries = append(s.queries, q)
	s.qgvr = append(s.qgvr, gvr)
	f := s.query
	s.mu.Unlock()
	if f != nil {
		return f(gvr, q)
	}
	return store.QueryResult{}
}
func (s *spyStore) Get(gvr store.GroupVersionResource, cluster, ns, name string) interface{} {
	s.mu.Lock()
	s.touched++
	s.gets = append(s.gets, fmt.Sprintf("%v|%s|%s|%s", gvr, cluster, ns, name))
	f := s.get
	s.mu.Unlock()
	if f != nil {
		return f(gvr, cluster, ns, name)
	}
	return nil
}
func (s *spyStore) reset() {
	s.mu.Lock()
	s.touched, s.queries, s.qgvr, s.gets = 0, nil, nil, nil
	s.mu.Unlock()
}

// upstream stands for the API server of one cluster.
type upReq struct{ Method, URI, Path, RawQuery, Body, ContentType string }
type upstream struct {
	mu     sync.Mutex
	name   string
	srv    *httptest.Server
	reqs   []upReq
	status int
	body   string
	cfg    rest.Config
	cli    kubernetes.Interface
}

func newUpstream(t *testing.T, name string) *upstream {
	u := &upstream{name: name, status: 200, body: `{"kind":"Status","apiVersion":"v1","status":"Success","from":"` + name + `"}`}
	u.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		bs, _ := io.ReadAll(r.Body)
		u.mu.Lock()
		u.reqs = append(u.reqs, upReq{r.Method, r.RequestURI, r.URL.Path, r.URL.RawQuery, string(bs), r.Header.Get("Content-Type")})
		st, b := u.status, u.body
		u.mu.Unlock()
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(st)
		if r.Method != "HEAD" {
			_, _ = w.Write([]byte(b))
		}
	}))
	t.Cleanup(u.srv.Close)
	u.cfg = rest.Config{Host: u.srv.URL, QPS: 1e6, Burst: 1e6}
	c, err := kubernetes.NewForConfig(&u.cfg)
	if err != nil {
		t.Fatal(err)
	}
	u.cli = c
	return u
}
func (u *upstream) take() []upReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.reqs
	u.reqs = nil
	return r
}

// newHandler is the whole HTTP surface of the server over s and clis.
func newHandler(s store.Store, clis map[string]kubernetes.Interface) (http.Handler, server.Server) {
	var h *mux.Router
	ser := server.NewMuxServer("127.0.0.1:0", clis, s, func(r *mux.Router) { h = r })
	return h, ser
}

func do(h http.Handler, method, target, body string, hdr ...string) *httptest.ResponseRecorder {
	var rd io.Reader
	if body != "" {
		rd = bytes.NewBufferString(body)
	}
	req := httptest.NewRequest(method, target, rd)
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	return w
}

// ---- the search language, from its statement

func splitSearch(search string) []string {
	var parts []string
	cur := ""
	for i := 0; i < len(search); i++ {
		if search[i] == ';' {
			if i+1 < len(search) && search[i+1] == ';' {
				cur += ";"
				i++
				continue
			}
			parts = append(parts, cur)
			cur = ""
			continue
		}
		cur += string(search[i : i+1])
	}
	parts = append(parts, cur)
	var res []string
	for _, p := range parts {
		if p != "" {
			res = append(res, p)
		}
	}
	return res
}

// matchSearch decides whether an index matches a search; err: malformed search or unknown key.
func matchSearch(index map[string]string, search string) (ok bool, bad bool) {
	ok = true
	for _, p := range splitSearch(search) {
		m, b := matchPart(index, p)
		if b {
			bad = true
		}
		ok = ok && m
	}
	return ok && !bad, bad
}

func matchPart(index map[string]string, part string) (bool, bool) {
	part = strings.TrimSpace(part)
	if part == "" {
		return true, false
	}
	if strings.HasPrefix(part, "__ckube_as__:") {
		sel := strings.TrimPrefix(part, "__ckube_as__:")
		if sel == "" {
			return false, true
		}
		return matchSelector(index, sel)
	}
	eq := strings.IndexByte(part, '=')
	key, val := "", part
	if eq >= 0 {
		key, val = part[:eq], part[eq+1:]
	}
	neg := strings.HasPrefix(val, "!")
	if neg {
		val = val[1:]
	}
	if key != "" {
		v, there := index[key]
		if !there {
			return false, true
		}
		return strings.Contains(strconv.Quote(v), val) != neg, false
	}
	some := false
	for _, v := range index {
		if strings.Contains(strconv.Quote(v), val) {
			some = true
		}
	}
	return some != neg, false
}

func matchSelector(set map[string]string, sel string) (bool, bool) {
	reqs, err := k8slabels.ParseToRequirements(sel)
	if err != nil {
		return false, true
	}
	for _, r := range reqs {
		if r.Operator() == selection.GreaterThan || r.Operator() == selection.LessThan {
			return false, true
		}
	}
	for _, r := range reqs {
		if !r.Matches(k8slabels.Set(set)) {
			return false, false
		}
	}
	return true, false
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// selectorFor encodes a page as the client does.
func selectorFor(sel string, p page.Paginate) (string, error) {
	o, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: sel}, p)
	return o.LabelSelector, err
}

// qObj describes one cached pod.
type qObj struct {
	Cluster, NS, Name string
	Labels            map[string]string
}

func (o qObj) id() string { return o.Cluster + "|" + o.NS + "|" + o.Name }
func (o qObj) pod() *corev1.Pod {
	p := mkPod(o.NS, o.Name, o.Labels)
	p.CreationTimestamp = metav1.NewTime(time.Unix(100, 0))
	return p
}

// index is what is configured for pods (stdIndex) plus the built-in indexes.
func (o qObj) index() map[string]string {
	return map[string]string{"cluster": o.Cluster, "namespace": o.NS, "name": o.Name, "app": o.Labels["app"], "num": o.Labels["num"], "created_at": "1970-01-01T00:01:40Z", "is_deleted": "false"}
}

func objID(it interface{}) string {
	o, ok := it.(metav1.Object)
	if !ok {
		return fmt.Sprintf("not an object: %T", it)
	}
	return o.GetAnnotations()["ckube.doacloud.io/cluster"] + "|" + o.GetNamespace() + "|" + o.GetName()
}

// jsonNorm: the JSON value, independent of order and spacing, without null fields.
func jsonNorm(s string) string {
	var v interface{}
	if json.Unmarshal([]byte(s), &v) != nil {
		return s
	}
	if m, ok := v.(map[string]interface{}); ok {
		for k, x := range m {
			if x == nil {
				delete(m, k)
			}
		}
	}
	return js(v)
}

func containsStr(s, sub string) bool { return strings.Contains(s, sub) }

// evalIndex evaluates one configured index on the JSON form of an object.
func evalIndex(expr string, obj interface{}) string {
	bs, _ := json.Marshal(obj)
	m := map[string]interface{}{}
	_ = json.Unmarshal(bs, &m)
	w := &bytes.Buffer{}
	if strings.Contains(expr, "{{") {
		tp, err := template.New("x").Funcs(template.FuncMap{
			"default": func(def string, v interface{}) string {
				if v == nil {
					return def
				}
				return fmt.Sprintf("%s", v)
			},
			"quote": func(v interface{}) string { return fmt.Sprintf("%q", v) },
			"join":  func(sep string, in ...string) string { return strings.Join(in, sep) },
		}).Parse(expr)
		if err != nil {
			return ""
		}
		_ = tp.Execute(w, m)
		return w.String()
	}
	if !strings.Contains(expr, "{") {
		return expr
	}
	jp := jsonpath.New("x").AllowMissingKeys(true)
	_ = jp.Parse(expr)
	_ = jp.Execute(w, m)
	return w.String()
}


func pageOf(n, size int64) page.Paginate { return page.Paginate{Page: n, PageSize: size} }
func qEsc(s string) string               { return url.QueryEscape(s) }
