package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/kubernetes/fake"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

// inTime fails when the operations do not end: a lock is held or acquired twice.
func inTime(h *vH, what string, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		h.bad("does not terminate: a lock is never released", what, "blocked", "terminates")
		return false
	}
}

func TestVerifC14(t *testing.T) {
	h := vStart(t, "C14")
	initCfg("default", "")
	// sequential: every operation, also on its error and panic paths, leaves the locks free
	s := newStore()
	ops := map[string]func(i int){
		"add":       func(i int) { _ = s.OnResourceAdded(podGVR, fmt.Sprintf("c%d", i%3), mkPod("a", fmt.Sprintf("n%d", i%5), nil)) },
		"modify":    func(i int) { _ = s.OnResourceModified(podGVR, fmt.Sprintf("c%d", i%3), mkPod("b", fmt.Sprintf("n%d", i%5), nil)) },
		"delete":    func(i int) { _ = s.OnResourceDeleted(podGVR, fmt.Sprintf("c%d", i%4), mkPod("a", fmt.Sprintf("n%d", i%6), nil)) },
		"clean":     func(i int) { _ = s.Clean(podGVR, fmt.Sprintf("c%d", i%4)) },
		"get":       func(i int) { _ = s.Get(podGVR, fmt.Sprintf("c%d", i%4), "a", fmt.Sprintf("n%d", i%6)) },
		"get other": func(i int) { _ = s.Get(store.GroupVersionResource{Resource: "none"}, "c", "a", "n") },
		"query": func(i int) {
			_ = s.Query(podGVR, store.Query{Paginate: page.Paginate{Page: int64(i % 3), PageSize: 2, Search: []string{"", "n1", "nokey=1", "__ckube_as__:((", "cluster=c1"}[i%5], Sort: []string{"", "name desc", "nokey", "name x y"}[i%4]}})
		},
		"is stored": func(i int) { _ = s.IsStoreGVR(podGVR) },
		"add unknown": func(i int) {
			defer func() { _ = recover() }()
			_ = s.OnResourceAdded(store.GroupVersionResource{Resource: "none"}, "c", mkPod("a", "n", nil))
		},
		"clean unknown": func(i int) {
			defer func() { _ = recover() }()
			_ = s.Clean(store.GroupVersionResource{Resource: "none"}, "c")
		},
		"query unknown": func(i int) {
			defer func() { _ = recover() }()
			_ = s.Query(store.GroupVersionResource{Resource: "none"}, store.Query{})
		},
	}
	names := []string{}
	for n := range ops {
		names = append(names, n)
	}
	hist := []string{}
	for i := 0; i < h.n(400, 5000); i++ {
		n := names[h.rng.Intn(len(names))]
		hist = append(hist, n)
		h.one(fmt.Sprint(n, i))
		if !inTime(h, fmt.Sprint(hist[len(hist)*9/10:]), func() { ops[n](i) }) {
			return
		}
	}
	// a query whose evaluation crashes (an object which is no object) still releases
	spy := newStore()
	_ = inTime(h, "query after a crash", func() {
		func() {
			defer func() { _ = recover() }()
			_ = spy.OnResourceAdded(podGVR, "c", nil)
		}()
		_ = spy.OnResourceAdded(podGVR, "c", mkPod("a", "n", nil))
		_ = spy.Query(podGVR, store.Query{})
	})
	// concurrent: writers, readers and cleaners (run with the race detector)
	if !inTime(h, "concurrent notifications and queries", func() {
		var wg sync.WaitGroup
		for g := 0; g < 10; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < h.n(150, 1500); i++ {
					ops[[]string{"add", "modify", "delete", "clean", "get", "query", "query", "add", "is stored", "get other"}[(g+i)%10]](i*7 + g)
				}
			}(g)
		}
		wg.Wait()
	}) {
		return
	}
	// requests while the store and the clients are replaced: always a matching pair
	type pair struct {
		st  store.Store
		cli map[string]kubernetes.Interface
	}
	pairs := make([]pair, 2)
	ups := []*upstream{newUpstream(t, "u0"), newUpstream(t, "u1")}
	for i := range pairs {
		tag := fmt.Sprint(i)
		sp := &spyStore{stored: map[store.GroupVersionResource]bool{podGVR: true}}
		sp.get = func(store.GroupVersionResource, string, string, string) interface{} { return tag }
		// a resource type which is cached only by store 0 is forwarded with the clients of 1
		sp.stored[depGVR] = i == 0
		pairs[i] = pair{sp, map[string]kubernetes.Interface{"default": ups[i].cli}}
	}
	hd, ser := newHandler(pairs[0].st, pairs[0].cli)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			ser.ResetStore(pairs[i%2].st, pairs[i%2].cli)
		}
	}()
	_ = inTime(h, "requests during reloads", func() {
		var rg sync.WaitGroup
		for g := 0; g < 6; g++ {
			rg.Add(1)
			go func(g int) {
				defer rg.Done()
				for i := 0; i < h.n(60, 600); i++ {
					if g > 0 {
						// only one goroutine forwards: the timeout of a client is shared by its requests
						w := httptest.NewRecorder()
						hd.ServeHTTP(w, httptest.NewRequest("GET", "/api/v1/pods/x", nil))
						if b := w.Body.String(); b != "0" && b != "1" {
							h.bad("request during reload", "GET pod", fmt.Sprint(w.Code, b), "an answer of one of the stores")
							return
						}
						continue
					}
					w := httptest.NewRecorder()
					hd.ServeHTTP(w, httptest.NewRequest("GET", "/apis/apps/v1/namespaces/a/deployments/d", nil))
					// store 0 answers itself; store 1 is only ever used with upstream 1
					if b := w.Body.String(); b != "0" && !containsStr(b, `"from":"u1"`) {
						h.bad("store and clients of different configurations", "GET during reload", fmt.Sprint(w.Code, b), `"0" or upstream u1`)
						return
					}
				}
			}(g)
		}
		rg.Wait()
	})
	close(stop)
	wg.Wait()
	// a crashing handler does not keep the lock
	ps := &spyStore{stored: map[store.GroupVersionResource]bool{podGVR: true}}
	ps.get = func(store.GroupVersionResource, string, string, string) interface{} { panic("boom") }
	hd2, ser2 := newHandler(ps, map[string]kubernetes.Interface{"default": fake.NewSimpleClientset()})
	_ = inTime(h, "reload after a crashed request", func() {
		hd2.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest(http.MethodGet, "/api/v1/pods/x", nil))
		ser2.ResetStore(ps, nil)
		hd2.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest(http.MethodGet, "/api/v1/pods/x", nil))
		ser2.ResetStore(ps, nil)
	})
}
