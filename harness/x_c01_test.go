package zzverif

import (
	"fmt"
	"sync"
	"testing"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"

	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

type c01key struct {
	gvr               store.GroupVersionResource
	cluster, ns, name string
}

func TestVerifC01(t *testing.T) {
	h := vStart(t, "C01")
	// names that collide under careless joining, splitting, trimming or case folding
	gvrs := []store.GroupVersionResource{podGVR, depGVR, {Group: "apps", Version: "v1beta1", Resource: "deployments"}, {Group: "", Version: "v1", Resource: "deployments"}, {Group: "other", Version: "v1", Resource: "deployments"}}
	clusters := []string{"", "c", "c/a", "C", "default", "c-a", "a"}
	nss := []string{"", "a", "a/b", "A", "kube-system", "a-b", "default"}
	names := []string{"", "n", "b/n", "N", "n-1", "b", "a"}
	mk := func(ns, name, ver string) interface{} {
		if h.rng.Intn(4) == 0 {
			return &watcher.ObjType{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name, ResourceVersion: ver}}
		}
		p := mkPod(ns, name, nil)
		p.ResourceVersion = ver
		// nothing of this says whether a notification counts
		if h.rng.Intn(3) == 0 {
			p.Generation = int64(h.rng.Intn(3))
			p.UID = types.UID(h.pick("", "u1", "u2"))
			p.CreationTimestamp = metav1.NewTime(time.Unix(int64(100*h.rng.Intn(3)), 0))
			p.Finalizers = [][]string{nil, {"f"}}[h.rng.Intn(2)]
			p.Labels = []map[string]string{nil, {"a": "b"}, {}}[h.rng.Intn(3)]
			p.Status.Phase = corev1.PodPhase(h.pick("", "Running", "Succeeded", "Failed"))
			p.Kind = h.pick("", "Pod", "Status")
			p.GenerateName = h.pick("", "g-")
		}
		switch h.rng.Intn(4) {
		case 0:
			now := metav1.NewTime(time.Unix(100, 0))
			p.DeletionTimestamp = &now
		case 1:
			p.Annotations = map[string]string{"x": "y"}
		}
		return p
	}
	conf := map[store.GroupVersionResource]map[string]string{}
	for i, g := range gvrs {
		// the stored key never comes from the index
		conf[g] = []map[string]string{stdIndex, {}, {"namespace": "fix", "name": "fix"}, {"name": "{{.metadata.uid}}"}, nil}[i]
	}
	ver := func(o interface{}) string {
		if o == nil {
			return ""
		}
		if oo, ok := o.(metav1.Object); ok {
			return oo.GetNamespace() + "|" + oo.GetName() + "|" + oo.GetResourceVersion()
		}
		return fmt.Sprintf("%T", o)
	}
	runs := h.n(300, 3000)
	for run := 0; run < runs; run++ {
		s := memory.NewMemoryStore(conf)
		model := map[c01key]string{}
		hist := []string{}
		nc, nn, nm := 2+h.rng.Intn(len(clusters)-1), 2+h.rng.Intn(len(nss)-1), 2+h.rng.Intn(len(names)-1)
		ng := len(gvrs)
		if run%2 == 0 {
			// few keys, so that their histories are long
			nc, nn, nm, ng = 1+h.rng.Intn(2), 1+h.rng.Intn(2), 1+h.rng.Intn(2), 1
		}
		off := h.rng.Intn(7)
		check := func() bool {
			for _, g := range gvrs {
				for _, c := range clusters {
					for _, ns := range nss {
						for _, n := range names {
							k := c01key{g, c, ns, n}
							if got := ver(s.Get(g, c, ns, n)); got != model[k] {
								h.bad("lookup differs from the fold of the notifications", map[string]interface{}{"history": hist, "key": fmt.Sprint(k)}, got, model[k])
								return false
							}
						}
					}
				}
			}
			return true
		}
		steps := 3 + h.rng.Intn(40)
		ok := true
		for i := 0; i < steps && ok; i++ {
			g := gvrs[(off+h.rng.Intn(ng))%len(gvrs)]
			c := clusters[(off+h.rng.Intn(nc))%len(clusters)]
			ns := nss[(off+h.rng.Intn(nn))%len(nss)]
			n := names[(off+h.rng.Intn(nm))%len(names)]
			k := c01key{g, c, ns, n}
			v := fmt.Sprintf("v%d", i)
			switch h.rng.Intn(6) {
			case 0:
				v = fmt.Sprint(h.rng.Intn(20)) // resource versions need not grow
			case 1:
				v = h.pick("", "0", "1", "10", "9", "99999999999999999999", "-1")
			}
			switch op := h.rng.Intn(10); {
			case op < 3:
				hist = append(hist, fmt.Sprintf("add %v %s", k, v))
				_ = s.OnResourceAdded(g, c, mk(ns, n, v))
				model[k] = ns + "|" + n + "|" + v
			case op < 6:
				hist = append(hist, fmt.Sprintf("modify %v %s", k, v))
				_ = s.OnResourceModified(g, c, mk(ns, n, v))
				model[k] = ns + "|" + n + "|" + v
			case op < 9:
				hist = append(hist, fmt.Sprintf("delete %v", k))
				_ = s.OnResourceDeleted(g, c, mk(ns, n, v))
				delete(model, k)
			default:
				hist = append(hist, fmt.Sprintf("clean %v %s", g, c))
				_ = s.Clean(g, c)
				for kk := range model {
					if kk.gvr == g && kk.cluster == c {
						delete(model, kk)
					}
				}
			}
			if i%3 == 0 {
				ok = check()
			}
		}
		if ok {
			check()
		}
		h.one(fmt.Sprint(hist))
	}
	// a large population, cleaned and rebuilt
	s := newStore()
	const big = 3000
	for i := 0; i < big; i++ {
		p := mkPod(fmt.Sprintf("ns%d", i%7), fmt.Sprintf("p%d", i), nil)
		_ = s.OnResourceAdded(podGVR, fmt.Sprintf("c%d", i%3), p)
	}
	for i := 0; i < big; i++ {
		if i%5 == 0 {
			_ = s.OnResourceDeleted(podGVR, fmt.Sprintf("c%d", i%3), mkPod(fmt.Sprintf("ns%d", i%7), fmt.Sprintf("p%d", i), nil))
		}
	}
	_ = s.Clean(podGVR, "c1")
	for i := 0; i < big; i++ {
		want := i%5 != 0 && i%3 != 1
		if got := s.Get(podGVR, fmt.Sprintf("c%d", i%3), fmt.Sprintf("ns%d", i%7), fmt.Sprintf("p%d", i)) != nil; got != want {
			h.bad("large population: presence", i, got, want)
		}
	}
	h.one("large population")
	// concurrent notifications for different keys commute
	rounds := h.n(6, 40)
	for r := 0; r < rounds; r++ {
		s := newStore()
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					// every goroutine owns its names, but shares resource types, clusters and namespaces
					c, ns, n := fmt.Sprintf("c%d", i%2), fmt.Sprintf("ns%d", i%3), fmt.Sprintf("g%d-%d", g, i)
					_ = s.OnResourceAdded(podGVR, c, mkPod(ns, n, nil))
					if i%4 == 0 {
						_ = s.OnResourceDeleted(podGVR, c, mkPod(ns, n, nil))
					}
					if i%4 == 1 {
						p := mkPod(ns, n, nil)
						p.ResourceVersion = "m"
						_ = s.OnResourceModified(podGVR, c, p)
					}
				}
			}(g)
		}
		wg.Wait()
		for g := 0; g < 8; g++ {
			for i := 0; i < 60; i++ {
				c, ns, n := fmt.Sprintf("c%d", i%2), fmt.Sprintf("ns%d", i%3), fmt.Sprintf("g%d-%d", g, i)
				got := ver(s.Get(podGVR, c, ns, n))
				want := ns + "|" + n + "|"
				if i%4 == 0 {
					want = ""
				} else if i%4 == 1 {
					want += "m"
				}
				if got != want {
					h.bad("concurrent notifications for different keys", fmt.Sprintf("round %d %s/%s/%s", r, c, ns, n), got, want)
				}
			}
		}
		h.one(fmt.Sprintf("concurrent %d", r))
	}
}
