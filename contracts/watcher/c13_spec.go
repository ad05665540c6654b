package watcher

import (
	"context"
	"time"

	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
)

// ---- C13

// gExp: the operations the events received so far call for.
var gExp []store.SpecOp

// gStreams: the streams opened so far; gDelivered: the last one has delivered.
var gStreams int
var gDelivered bool

// gCur: where the current stream is applied.
var gStore store.Store
var gGVR store.GroupVersionResource
var gCluster string

// gStopped: the stop signal has been seen; gAtStop: the operations applied by then.
var gStopped bool
var gAtStop []store.SpecOp

// a request: the client it uses and its path
var gReqClient map[*rest.Request]*rest.RESTClient
var gReqURI map[*rest.Request]string

//@ uninterpreted specHost

// specHost: the API server a client talks to.
func specHost(c *rest.RESTClient) rest.Config { panic(0) }

//@ func rest.RESTClientFor(config *rest.Config) (c *rest.RESTClient, err error)
//@ trusted
//@ ensures specHost(c).Host == config.Host

//@ func (c *rest.RESTClient) Get() (r *rest.Request)
//@ trusted
//@ modifies[C13] vMapOf(gReqClient)
//@ ensures[C13] r != nil && vEq(gReqClient, vMapSet(vOld(vContents(gReqClient)), r, c))

//@ func (r *rest.Request) RequestURI(uri string) (q *rest.Request)
//@ trusted
//@ modifies[C13] vMapOf(gReqURI)
//@ ensures[C13] q == r && vEq(gReqURI, vMapSet(vOld(vContents(gReqURI)), r, uri))

//@ func (r *rest.Request) Timeout(d time.Duration) (q *rest.Request)
//@ trusted
//@ ensures q == r

// specURL: where the objects of a type are watched.
func specURL(g store.GroupVersionResource) string {
	if g.Group == "" {
		return "/api/" + g.Version + "/" + g.Resource + "?watch=true"
	}
	return "/apis/" + g.Group + "/" + g.Version + "/" + g.Resource + "?watch=true"
}

//@ func (r *rest.Request) Watch(ctx context.Context) (w watch.Interface, err error)
//@ trusted
//@ requires[C13] the stream of this type: gReqURI[r] == specURL(gGVR)
//@ requires[C13] from this cluster: specHost(gReqClient[r]).Host == gHost
//@ modifies gDelivered
//@ ensures !gDelivered && vIff(err == nil, w != nil)

//@ recv struct{}(ch <-chan struct{}, e struct{}, ok bool)
//@ modifies[C13] gStopped, gAtStop
//@ ensures[C13] gStopped && vEq(gAtStop, vIte(vOld(gStopped), vOld(gAtStop), store.GOps))

//@ recv watch.Event(ch <-chan watch.Event, e watch.Event, ok bool)
//@ modifies[C13] gExp, gDelivered
//@ ensures[C13] gDelivered && vEq(gExp, specApply(specFirst(vOld(gExp), vOld(gDelivered)), e, ok))

// specFirst: the first delivery of a stream, be it its end, discards what was cached.
func specFirst(exp []store.SpecOp, delivered bool) []store.SpecOp {
	if delivered {
		return exp
	}
	return append(exp, store.SpecOp{store.SpecClean, gStore, gGVR, gCluster, nil})
}

// specApply: every event that adds, modifies or deletes an object is applied.
func specApply(exp []store.SpecOp, e watch.Event, ok bool) []store.SpecOp {
	if !ok {
		return exp
	}
	if e.Type == watch.Added {
		return append(exp, store.SpecOp{store.SpecAdd, gStore, gGVR, gCluster, e.Object})
	}
	if e.Type == watch.Modified {
		return append(exp, store.SpecOp{store.SpecModify, gStore, gGVR, gCluster, e.Object})
	}
	if e.Type == watch.Deleted {
		return append(exp, store.SpecOp{store.SpecDelete, gStore, gGVR, gCluster, e.Object})
	}
	return exp
}

//@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string)
//@ optional
//@ requires w != nil && w.store != nil && vEq(gStore, w.store) && gGVR == r && gCluster == cluster && gHost == w.clusterConfigs[cluster].Host && vEq(store.GOps, gExp)
//@ requires !gStopped && common.SpecConfigured() && gReqClient != nil && gReqURI != nil
//@ modifies store.GOps, gExp, gDelivered, gStopped, gAtStop, vMapOf(gReqClient), vMapOf(gReqURI)
//@ loop[C13](first bool) vEq(store.GOps, gExp) && first == !gDelivered
//@ loop[C13]() vEq(store.GOps, gExp)
//@ loop[C13]() !gStopped
//@ ensures[C13] exactly the operations the events call for: vEq(store.GOps, gExp)
//@ ensures[C13] ends with its stop signal: gStopped
//@ ensures[C13] nothing is applied after it: vEq(store.GOps, gAtStop)

var gHost string

// ---- one stream for each type and cluster

type specWatch struct {
	GVR     store.GroupVersionResource
	Cluster string
}

// gWatched: how many streams of a type and cluster are watched.
var gWatched map[specWatch]int

//@ go (w *watcher) watchResources(r store.GroupVersionResource, cluster string)
//@ modifies vMapOf(gWatched)
//@ ensures vEq(gWatched, vMapSet(vOld(vContents(gWatched)), specWatch{r, cluster}, vOld(gWatched[specWatch{r, cluster}])+1))

func specCount(w *watcher, i int, g store.GroupVersionResource, c string) int {
	if vMem(w.resources[:i], g) && vHas(w.clusterConfigs, c) {
		return 1
	}
	return 0
}

//@ func (w *watcher) Start() (err error)
//@ requires w != nil && gWatched != nil && vAll(func(i, j int) bool { return vImp(0 <= i && i < j && j < len(w.resources), w.resources[i] != w.resources[j]) })
//@ requires vAll(func(x specWatch) bool { return gWatched[x] == 0 })
//@ modifies vMapOf(gWatched)
//@ loop[C13](i int) vAll(func(g store.GroupVersionResource, c string) bool { return gWatched[specWatch{g, c}] == specCount(w, i, g, c) })
//@ loop[C13](i int, r store.GroupVersionResource, seen vSet[string]) 0 <= i && i < len(w.resources) && r == w.resources[i] && vAll(func(g store.GroupVersionResource, c string) bool { return gWatched[specWatch{g, c}] == specCount(w, i, g, c)+vIte(g == r && seen[c], 1, 0) })
//@ ensures[C13] one stream of every type and cluster, no other: vAll(func(g store.GroupVersionResource, c string) bool { return gWatched[specWatch{g, c}] == specCount(w, len(w.resources), g, c) })

func specW(w Watcher) *watcher { return w.(*watcher) }

//@ func NewWatcher(clusterConfigs map[string]rest.Config, resources []store.GroupVersionResource, store store.Store) (r Watcher)
//@ ensures[C13,C19] watches what it is given: vDyn[*watcher](r) && specW(r) != nil && vEq(specW(r).resources, resources) && vIdent(specW(r).clusterConfigs) == vIdent(clusterConfigs) && vEq(specW(r).store, store)
//@ ensures[C13] can be stopped: specW(r).stop != nil
//@ nopanic[C13]

// gClosed: the channels closed.
var gClosed map[chan struct{}]bool

//@ close(ch chan struct{})
//@ modifies vMapOf(gClosed)
//@ ensures vEq(gClosed, vMapSet(vOld(vContents(gClosed)), ch, true))

//@ func (w *watcher) Stop() (err error)
//@ requires w != nil && w.stop != nil && gClosed != nil
//@ modifies vMapOf(gClosed)
//@ ensures[C13,C19] the stop signal of all streams: gClosed[w.stop]
