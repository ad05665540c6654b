package api

import (
	"context"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/discovery"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
)

// ---- requests to the API servers (k8s.io/client-go/rest, trusted)

// SpecSend: a request to an API server.
type SpecSend struct {
	Client *rest.RESTClient
	Verb   string
	Patch  string
	URI    string
	Body   interface{}
}

// GSent: the requests sent.
var GSent []SpecSend

// gBuilt: a request under construction.
var gBuilt map[*rest.Request]SpecSend

//@ uninterpreted specDiscovery specClient specQuery specEncode specURLText

func specDiscovery(i kubernetes.Interface) discovery.DiscoveryInterface { panic(0) }
func specClient(d discovery.DiscoveryInterface) *rest.RESTClient        { panic(0) }

//@ func (i kubernetes.Interface) Discovery() (d discovery.DiscoveryInterface)
//@ trusted
//@ ensures[C10] d != nil && d == specDiscovery(i)

//@ func (d discovery.DiscoveryInterface) RESTClient() (c rest.Interface)
//@ trusted
//@ ensures[C10] vDyn[*rest.RESTClient](c) && c.(*rest.RESTClient) == specClient(d) && specClient(d) != nil && specClient(d).Client != nil

//@ func (c *rest.RESTClient) Get() (r *rest.Request)
//@ trusted
//@ modifies[C10] vMapOf(gBuilt)
//@ ensures[C10] r != nil && vEq(gBuilt, vMapSet(vOld(vContents(gBuilt)), r, SpecSend{c, "GET", "", "", nil}))

//@ func (c *rest.RESTClient) Post() (r *rest.Request)
//@ trusted
//@ modifies[C10] vMapOf(gBuilt)
//@ ensures[C10] r != nil && vEq(gBuilt, vMapSet(vOld(vContents(gBuilt)), r, SpecSend{c, "POST", "", "", nil}))

//@ func (c *rest.RESTClient) Put() (r *rest.Request)
//@ trusted
//@ modifies[C10] vMapOf(gBuilt)
//@ ensures[C10] r != nil && vEq(gBuilt, vMapSet(vOld(vContents(gBuilt)), r, SpecSend{c, "PUT", "", "", nil}))

//@ func (c *rest.RESTClient) Delete() (r *rest.Request)
//@ trusted
//@ modifies[C10] vMapOf(gBuilt)
//@ ensures[C10] r != nil && vEq(gBuilt, vMapSet(vOld(vContents(gBuilt)), r, SpecSend{c, "DELETE", "", "", nil}))

//@ func (c *rest.RESTClient) Patch(pt types.PatchType) (r *rest.Request)
//@ trusted
//@ modifies[C10] vMapOf(gBuilt)
//@ ensures[C10] r != nil && vEq(gBuilt, vMapSet(vOld(vContents(gBuilt)), r, SpecSend{c, "PATCH", string(pt), "", nil}))

//@ func (c *rest.RESTClient) Verb(verb string) (r *rest.Request)
//@ trusted
//@ modifies[C10] vMapOf(gBuilt)
//@ ensures[C10] r != nil && vEq(gBuilt, vMapSet(vOld(vContents(gBuilt)), r, SpecSend{c, verb, "", "", nil}))

//@ func (r *rest.Request) RequestURI(uri string) (q *rest.Request)
//@ trusted
//@ modifies[C10] vMapOf(gBuilt)
//@ ensures[C10] q == r && vEq(gBuilt, vMapSet(vOld(vContents(gBuilt)), r, SpecSend{vOld(gBuilt[r]).Client, vOld(gBuilt[r]).Verb, vOld(gBuilt[r]).Patch, uri, vOld(gBuilt[r]).Body}))

//@ func (r *rest.Request) Body(obj interface{}) (q *rest.Request)
//@ trusted
//@ modifies[C10] vMapOf(gBuilt)
//@ ensures[C10] q == r && vEq(gBuilt, vMapSet(vOld(vContents(gBuilt)), r, SpecSend{vOld(gBuilt[r]).Client, vOld(gBuilt[r]).Verb, vOld(gBuilt[r]).Patch, vOld(gBuilt[r]).URI, obj}))

//@ func (r *rest.Request) DoRaw(ctx context.Context) (b []byte, err error)
//@ trusted
//@ modifies[C10] GSent
//@ ensures[C10] vEq(GSent, append(vOld(GSent), gBuilt[r]))

//@ func (r *rest.Request) Stream(ctx context.Context) (b io.ReadCloser, err error)
//@ trusted
//@ modifies[C10] GSent
//@ ensures[C10] vEq(GSent, append(vOld(GSent), gBuilt[r])) && vImp(err == nil, b != nil)

// ---- URLs (net/url, trusted)

func specQuery(raw string) url.Values { panic(0) }
func specEncode(q url.Values) string  { panic(0) }
func specURLText(u url.URL) string    { panic(0) }

//@ func (u *url.URL) Query() (q url.Values)
//@ trusted
//@ ensures[C10] q != nil && vFresh(q) && vEq(vContents(q), vContents(specQuery(u.RawQuery)))
//@ ensures[C10] vAll(func(k string) bool { return vImp(vHas(q, k), len(q[k]) > 0) })

//@ func (u *url.URL) String() (s string)
//@ trusted
//@ ensures[C10] s == specURLText(*u)

//@ func (q url.Values) Set(k, v string)
//@ trusted
//@ modifies[C10] q
//@ ensures[C10] vEq(vContents(q), vMapSet(vOld(vContents(q)), k, []string{v}))

//@ func (q url.Values) Del(k string)
//@ trusted
//@ modifies[C10] q
//@ ensures[C10] vEq(vContents(q), vMapDel(vOld(vContents(q)), k))

//@ func (q url.Values) Encode() (s string)
//@ trusted
//@ ensures[C10] s == specEncode(q)

// ---- C10

// specEff: the cluster a request addresses.
func specEff(cluster string) string {
	if cluster == "" {
		return common.SpecConfig().DefaultCluster
	}
	return cluster
}

// specReqBody: what is sent as the body of r.
func specReqBody(r *ReqContext) interface{} {
	if r.Request.Method == http.MethodGet {
		return nil
	}
	return r.Request.Body
}

//@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) (q *rest.Request)
//@ optional
//@ requires r != nil && r.Request != nil && r.Request.URL != nil && gBuilt != nil && vHas(r.ClusterClients, cluster) && r.ClusterClients[cluster] != nil
//@ modifies vMapOf(gBuilt), vAllOf(specClient(nil).Client.Timeout)
//@ ensures[C10] to the cluster: q != nil && gBuilt[q].Client == specClient(specDiscovery(r.ClusterClients[cluster]))
//@ ensures[C10] same method: gBuilt[q].Verb == r.Request.Method
//@ ensures[C10] same kind of patch: vImp(r.Request.Method == http.MethodPatch, gBuilt[q].Patch == SpecHeader(r.Request.Header, "Content-Type"))
//@ ensures[C10] same body: vEq(gBuilt[q].Body, specReqBody(r))

//@ func errorProxy(w http.ResponseWriter, err v1.Status) (res interface{})
//@ optional
//@ requires w != nil && GCode != nil
//@ modifies vMapOf(GCode), vAllMaps(GHeader[nil])
//@ ensures[C10] the status: vDyn[v1.Status](res) && res.(v1.Status).Code == err.Code
//@ ensures[C10] its code is sent: vEq(GCode, vMapSet(vOld(vContents(GCode)), w, vIte(vOld(GCode[w]) == 0, int(err.Code), vOld(GCode[w]))))

// specIsWatch: the request asks for a stream.
func specTruth(s string) bool { return s == "1" || s == "y" || s == "true" }

//@ func isWatchRequest(r *http.Request) (w bool)
//@ optional
//@ requires r != nil && r.URL != nil
//@ ensures[C10] asked for in the query: vImp(vHas(specQuery(r.URL.RawQuery), "watch") && specTruth(strings.ToLower(specQuery(r.URL.RawQuery)["watch"][0])), w)
//@ ensures[C10] or by the path: vImp(strings.Contains(r.URL.Path, "/watch/"), w)
//@ ensures[C10] not otherwise: vImp(w && !strings.Contains(r.URL.Path, "/watch/"), vHas(specQuery(r.URL.RawQuery), "watch") && specTruth(strings.ToLower(specQuery(r.URL.RawQuery)["watch"][0])))

// specWatchQuery: the query of a stream, the server sets the timeout and drops a selector that says nothing.
func specWatchRaw(raw string) string {
	return vIte(vHas(specQuery(raw), "labelSelector") && len(specQuery(raw)["labelSelector"]) == 1 && specQuery(raw)["labelSelector"][0] == "<none>",
		specEncode(vMapDel(vMapSet(vContents(specQuery(raw)), "timeout", []string{"30m"}), "labelSelector")),
		specEncode(vMapSet(vContents(specQuery(raw)), "timeout", []string{"30m"})))
}

//@ func proxyPassWatch(r *ReqContext, cluster string) (res interface{})
//@ optional
//@ requires r != nil && r.Request != nil && vAllocated(r.Request.Header) && r.Request.URL != nil && r.Writer != nil && GCode != nil && GBody != nil && gBuilt != nil && vHas(r.ClusterClients, cluster) && r.ClusterClients[cluster] != nil
//@ modifies vMapOf(GCode), vMapOf(GBody), vAllMaps(GHeader[nil]), GSent, vMapOf(gBuilt), r.Request.URL.RawQuery, vAllOf(specClient(nil).Client.Timeout)
//@ ensures[C10] forwarded once: specSentOnce(r, vOld(GSent), cluster, vOld(SpecHeader(r.Request.Header, "Content-Type")))
//@ ensures[C10] all parameters but the timeout: r.Request.URL.RawQuery == specWatchRaw(vOld(r.Request.URL.RawQuery))

// specSentOnce: one more request was sent, to the client of the cluster, with the method and body of r.
func specSentOnce(r *ReqContext, sent []SpecSend, cluster, patch string) bool {
	return len(GSent) == len(sent)+1 && vEq(GSent, append(sent, GSent[len(sent)])) &&
		GSent[len(sent)].Client == specClient(specDiscovery(r.ClusterClients[cluster])) &&
		GSent[len(sent)].Verb == r.Request.Method &&
		vImp(r.Request.Method == http.MethodPatch, GSent[len(sent)].Patch == patch) &&
		vEq(GSent[len(sent)].Body, specReqBody(r)) &&
		GSent[len(sent)].URI == specURLText(*r.Request.URL)
}

//@ func proxyPass(r *ReqContext, cluster string) (res interface{})
//@ optional
//@ requires r != nil && r.Request != nil && vAllocated(r.Request.Header) && r.Request.URL != nil && r.Writer != nil && GCode != nil && GCode[r.Writer] == 0 && GBody != nil && gBuilt != nil && common.SpecConfigured() && vAll(func(c string) bool { return vImp(vHas(r.ClusterClients, c), r.ClusterClients[c] != nil) })
//@ modifies vMapOf(GCode), vMapOf(GBody), vAllMaps(GHeader[nil]), GSent, vMapOf(gBuilt), r.Request.URL.RawQuery, vAllOf(specClient(nil).Client.Timeout)
//@ ensures[C10] unknown cluster: vImp(!vHas(r.ClusterClients, specEff(cluster)), specStatus(r, res, 404) && vEq(GSent, vOld(GSent)))
//@ ensures[C10] forwarded once: vImp(vHas(r.ClusterClients, specEff(cluster)), specSentOnce(r, vOld(GSent), specEff(cluster), vOld(SpecHeader(r.Request.Header, "Content-Type"))))
//@ ensures[C10] parameters: r.Request.URL.RawQuery == vOld(r.Request.URL.RawQuery) || r.Request.URL.RawQuery == specWatchRaw(vOld(r.Request.URL.RawQuery))

var _ = store.SpecGet
var _ v1.Status
var _ time.Duration
