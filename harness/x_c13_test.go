package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
)

// opStore records the operations the watcher applies, per resource type and cluster.
type opStore struct {
	mu  sync.Mutex
	ops map[string][]string
}

func (s *opStore) rec(gvr store.GroupVersionResource, cluster, op string, obj interface{}) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := fmt.Sprintf("%s/%s/%s@%s", gvr.Group, gvr.Version, gvr.Resource, cluster)
	if obj != nil {
		if o, ok := obj.(metav1.Object); ok {
			op += " " + o.GetNamespace() + "/" + o.GetName() + "#" + o.GetResourceVersion()
		} else {
			op += fmt.Sprintf(" %T", obj)
		}
	}
	s.ops[k] = append(s.ops[k], op)
	// an error of the store changes nothing about what is applied
	return fmt.Errorf("recorded")
}
func (s *opStore) IsStoreGVR(gvr store.GroupVersionResource) bool                { return true }
func (s *opStore) Clean(gvr store.GroupVersionResource, c string) error          { return s.rec(gvr, c, "clean", nil) }
func (s *opStore) OnResourceAdded(g store.GroupVersionResource, c string, o interface{}) error {
	return s.rec(g, c, "add", o)
}
func (s *opStore) OnResourceModified(g store.GroupVersionResource, c string, o interface{}) error {
	return s.rec(g, c, "modify", o)
}
func (s *opStore) OnResourceDeleted(g store.GroupVersionResource, c string, o interface{}) error {
	return s.rec(g, c, "delete", o)
}
func (s *opStore) Query(store.GroupVersionResource, store.Query) store.QueryResult { return store.QueryResult{} }
func (s *opStore) Get(store.GroupVersionResource, string, string, string) interface{} { return nil }
func (s *opStore) all() map[string][]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := map[string][]string{}
	for k, v := range s.ops {
		r[k] = append([]string{}, v...)
	}
	return r
}

// conn is the script of one stream: status (0: 200), events, then close or stay open.
type c13conn struct {
	status int
	events []string
	hold   bool
}

type c13api struct {
	mu     sync.Mutex
	script map[string][]c13conn
	n      map[string]int
	open   map[string]int
	maxOpn map[string]int
	more   chan string
	srv    *httptest.Server
}

func newC13api(t *testing.T, script map[string][]c13conn) *c13api {
	a := &c13api{script: script, n: map[string]int{}, open: map[string]int{}, maxOpn: map[string]int{}, more: make(chan string)}
	a.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		p := r.URL.Path
		if r.URL.Query().Get("watch") != "true" {
			p = "no watch: " + p
		}
		a.mu.Lock()
		i := a.n[p]
		a.n[p]++
		a.open[p]++
		if a.open[p] > a.maxOpn[p] {
			a.maxOpn[p] = a.open[p]
		}
		var c c13conn
		c.hold = true
		if i < len(a.script[p]) {
			c = a.script[p][i]
		}
		a.mu.Unlock()
		defer func() { a.mu.Lock(); a.open[p]--; a.mu.Unlock() }()
		if c.status != 0 {
			w.WriteHeader(c.status)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(200)
		fl := w.(http.Flusher)
		fl.Flush()
		for _, e := range c.events {
			_, _ = w.Write([]byte(e + "\n"))
			fl.Flush()
		}
		if !c.hold {
			return
		}
		for {
			select {
			case <-r.Context().Done():
				return
			case e := <-a.more:
				_, _ = w.Write([]byte(e + "\n"))
				fl.Flush()
			}
		}
	}))
	t.Cleanup(func() { a.srv.CloseClientConnections(); a.srv.Close() })
	return a
}

func TestVerifC13(t *testing.T) {
	h := vStart(t, "C13")
	wGVR := store.GroupVersionResource{Group: "x.io", Version: "v1", Resource: "widgets"}
	common.InitConfig(&common.Config{Proxies: []common.Proxy{
		{Version: "v1", Resource: "pods", ListKind: "PodList"},
		{Group: "x.io", Version: "v1", Resource: "widgets", ListKind: "WidgetList"},
		{Group: "apps", Version: "v1", Resource: "deployments", ListKind: "DeploymentList"},
	}})
	gvrs := map[store.GroupVersionResource][2]string{podGVR: {"/api/v1/pods", `"apiVersion":"v1","kind":"Pod"`}, wGVR: {"/apis/x.io/v1/widgets", `"apiVersion":"x.io/v1","kind":"Widget","spec":{"a":1}`}, depGVR: {"/apis/apps/v1/deployments", `"apiVersion":"apps/v1","kind":"Deployment"`}}
	clusters := []string{"c1", "c2", "c1-x"}
	st := &opStore{ops: map[string][]string{}}
	want := map[string][]string{}
	apis := map[string]*c13api{}
	cfgs := map[string]rest.Config{}
	seq := 0
	events := func(g store.GroupVersionResource, n int) (ev, ops []string) {
		for i := 0; i < n; i++ {
			seq++
			ns, name := h.pick("a", "b"), fmt.Sprintf("n%d", h.rng.Intn(4))
			obj := fmt.Sprintf(`{%s,"metadata":{"namespace":%q,"name":%q,"resourceVersion":"%d"}}`, gvrs[g][1], ns, name, seq)
			id := fmt.Sprintf(" %s/%s#%d", ns, name, seq)
			switch h.rng.Intn(8) {
			case 0, 1, 2:
				ev, ops = append(ev, `{"type":"ADDED","object":`+obj+`}`), append(ops, "add"+id)
			case 3, 4:
				ev, ops = append(ev, `{"type":"MODIFIED","object":`+obj+`}`), append(ops, "modify"+id)
			case 5, 6:
				ev, ops = append(ev, `{"type":"DELETED","object":`+obj+`}`), append(ops, "delete"+id)
			default:
				if h.rng.Intn(2) == 0 {
					ev = append(ev, `{"type":"BOOKMARK","object":`+obj+`}`)
				} else {
					ev = append(ev, `{"type":"ERROR","object":{"kind":"Status","apiVersion":"v1","status":"Failure","code":410,"reason":"Expired"}}`)
				}
			}
		}
		return
	}
	refused := "/api/v1/pods@c2"
	for _, c := range clusters {
		script := map[string][]c13conn{}
		for g, pk := range gvrs {
			k := fmt.Sprintf("%s/%s/%s@%s", g.Group, g.Version, g.Resource, c)
			nconn := 2 + h.rng.Intn(2)
			if c == "c1-x" && g == podGVR {
				nconn = 3 // the empty stream below is closed and reopened
			}
			for i := 0; i < nconn; i++ {
				ev, ops := events(g, 4+h.rng.Intn(30))
				if i == 1 && c == "c1-x" && g == podGVR {
					ev, ops = nil, nil // a stream which delivers nothing but its end
				}
				last := i == nconn-1
				if pk[0]+"@"+c == refused && i == 1 {
					// the second open is refused: nothing may be discarded
					script[pk[0]] = append(script[pk[0]], c13conn{status: 500})
				}
				script[pk[0]] = append(script[pk[0]], c13conn{events: ev, hold: last})
				want[k] = append(append(want[k], "clean"), ops...)
			}
			h.one(fmt.Sprint(k, script[pk[0]]))
		}
		apis[c] = newC13api(t, script)
		cfgs[c] = rest.Config{Host: apis[c].srv.URL, QPS: 1e6, Burst: 1e6}
	}
	w := watcher.NewWatcher(cfgs, []store.GroupVersionResource{podGVR, wGVR, depGVR}, st)
	_ = w.Start()
	deadline := time.Now().Add(40 * time.Second)
	slow := fmt.Sprintf("/v1/pods@c2")
	early := time.Now().Add(14 * time.Second)
	cmp := func(final bool) bool {
		ok := true
		got := st.all()
		for k, w := range want {
			g := got[k]
			if len(g) > len(w) {
				h.bad("more applied than delivered", k, g, w)
				return false
			}
			if js(g) != js(w[:len(g)]) && len(g) > 0 {
				h.bad("not the delivered events in order", k, g, w)
				return false
			}
			if len(g) != len(w) {
				ok = false
			}
		}
		for k := range got {
			if want[k] == nil {
				h.bad("another resource type or cluster changed", k, got[k], "nothing")
				return false
			}
		}
		return ok
	}
	for !cmp(false) && h.nfail == 0 && time.Now().Before(deadline) {
		time.Sleep(50 * time.Millisecond)
		if time.Now().After(early) {
			// everything except the refused stream must be done by now
			early = deadline.Add(time.Hour)
			got := st.all()
			for k := range want {
				if k != slow && len(got[k]) != len(want[k]) {
					h.bad("delivered events are not applied (after 14 s)", k, got[k], want[k])
				}
			}
		}
	}
	if h.nfail == 0 && !cmp(true) {
		h.bad("delivered events are not applied", "all streams", st.all(), want)
	}
	for c, a := range apis {
		a.mu.Lock()
		for p, n := range a.maxOpn {
			if n > 1 {
				h.bad("more than one stream at a time", p+"@"+c, n, 1)
			}
			if strings.HasPrefix(p, "no watch") {
				h.bad("not a watch", p, n, "watch=true")
			}
		}
		a.mu.Unlock()
	}
	// stop: nothing is applied afterwards
	_ = w.Stop()
	time.Sleep(400 * time.Millisecond)
	before := st.all()
	for _, a := range apis {
		for i := 0; i < 5; i++ {
			select {
			case a.more <- fmt.Sprintf(`{"type":"ADDED","object":{"apiVersion":"v1","kind":"Pod","metadata":{"name":"late%d"}}}`, i):
			case <-time.After(50 * time.Millisecond):
			}
		}
	}
	time.Sleep(300 * time.Millisecond)
	if a := st.all(); js(a) != js(before) {
		h.bad("applied after the stop signal", "stop", a, before)
	}
	// stop while a closed stream waits to be reopened: it is not
	st2 := &opStore{ops: map[string][]string{}}
	a2 := newC13api(t, map[string][]c13conn{"/api/v1/pods": {{events: []string{`{"type":"ADDED","object":{"apiVersion":"v1","kind":"Pod","metadata":{"name":"p"}}}`}}}})
	w2 := watcher.NewWatcher(map[string]rest.Config{"z": {Host: a2.srv.URL}}, []store.GroupVersionResource{podGVR}, st2)
	_ = w2.Start()
	for i := 0; i < 100 && len(st2.all()["/v1/pods@z"]) < 2; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	_ = w2.Stop()
	time.Sleep(3500 * time.Millisecond)
	a2.mu.Lock()
	n2 := a2.n["/api/v1/pods"]
	a2.mu.Unlock()
	if n2 != 1 || js(st2.all()["/v1/pods@z"]) != js([]string{"clean", "add /p#"}) {
		h.bad("reopened or changed after stop", "stop while waiting", fmt.Sprint(n2, st2.all()), "one stream")
	}
}
