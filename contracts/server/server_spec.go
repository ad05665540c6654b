package server

import (
	"net/http"
	"strings"

	"github.com/gorilla/mux"
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/api"
	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/kube"
	"github.com/DaoCloud/ckube/store"
)

// ---- routing (github.com/gorilla/mux): which requests a route takes

//@ uninterpreted specTpl specPrefixed

// specTpl: the path template of a route; specPrefixed: whether it takes everything below.
func specTpl(r *mux.Route) string      { panic(0) }
func specPrefixed(r *mux.Route) bool   { panic(0) }

//@ func (r *mux.Router) Path(tpl string) (rt *mux.Route)
//@ trusted
//@ ensures rt != nil && specTpl(rt) == tpl && !specPrefixed(rt)

//@ func (r *mux.Router) PathPrefix(tpl string) (rt *mux.Route)
//@ trusted
//@ ensures rt != nil && specTpl(rt) == tpl && specPrefixed(rt)

//@ func (r *mux.Route) Methods(ms []string) (rt *mux.Route)
//@ trusted
//@ ensures rt == r

//@ func (r *mux.Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) (rt *mux.Route)
//@ trusted
//@ calls f as routeHandler
//@ ensures rt == r

//@ func (r *mux.Router) HandleFunc(tpl string, f func(http.ResponseWriter, *http.Request)) (rt *mux.Route)
//@ trusted
//@ requires[C12] registered outside the guarded routes: tpl == "/metrics" || tpl == "/healthy"
//@ ensures rt != nil && specTpl(rt) == tpl && !specPrefixed(rt)

// ---- requests and answers

// gRuns: how often a route's handler ran; gPanicked, gResult: how it ended; gCode,
// gBody: what it had sent itself by then.
var (
	gRuns     int
	gPanicked bool
	gResult   interface{}
	gCode     int
	gBody     string
)

//@ functype (f HandleFunc)(r *api.ReqContext) (res interface{})
//@ trusted
//@ maypanic
//@ modifies gRuns, gPanicked, gResult, gCode, gBody, vMapOf(api.GCode), vMapOf(api.GBody), vAllMaps(api.GHeader[nil])
//@ ensures gRuns == vOld(gRuns) + 1 && !gPanicked && vEq(gResult, res) && gCode == api.GCode[r.Writer] && gBody == api.GBody[r.Writer]
//@ onpanic gRuns == vOld(gRuns) + 1 && gPanicked && gCode == api.GCode[r.Writer] && gBody == api.GBody[r.Writer]

func specIsErr(v interface{}) bool { _, ok := v.(error); return ok }

// specCode: the code sent is n, unless the handler had sent one.
func specCode(w http.ResponseWriter, n int) bool {
	return api.GCode[w] == vIte(gCode == 0, n, gCode)
}

// specSent: what was sent after the handler.
func specSent(w http.ResponseWriter, s string) bool { return api.GBody[w] == gBody+s }

func specStatusOf(v interface{}) bool {
	return vDyn[v1.Status](v) || vDyn[*v1.Status](v) && v.(*v1.Status) != nil
}
func specStatusCode(v interface{}) int {
	if vDyn[v1.Status](v) {
		return int(v.(v1.Status).Code)
	}
	return int(v.(*v1.Status).Code)
}
func specRaw(v interface{}) bool { return vDyn[string](v) || vDyn[[]byte](v) }
func specText(v interface{}) string {
	if vDyn[string](v) {
		return v.(string)
	}
	return string(v.([]byte))
}

func specExempt(rt *mux.Route) bool {
	return !specPrefixed(rt) && (specTpl(rt) == "/healthy" || specTpl(rt) == "/metrics")
}

// specAllowed: the request carries the configured token, or there is none.
func specAllowed(req *http.Request) bool {
	return common.SpecConfig().Token == "" || strings.Contains(api.SpecHeader(req.Header, "Authorization"), common.SpecConfig().Token)
}

//@ callback routeHandler(w http.ResponseWriter, req *http.Request, rt *mux.Route)
//@ requires common.SpecConfigured() && w != nil && req != nil && api.GCode != nil && api.GBody != nil && api.GCode[w] == 0 && gRuns == 0
//@ ensures[C12] refused without the token: vImp(!specExempt(rt) && !vOld(specAllowed(req)), gRuns == 0 && api.GCode[w] == 401)
//@ ensures[C12] handled with the token: vImp(specExempt(rt) || vOld(specAllowed(req)), gRuns == 1)
//@ ensures[C21] nothing more for nil: vImp(gRuns == 1 && !gPanicked && gResult == nil, api.GCode[w] == gCode && specSent(w, ""))
//@ ensures[C21] an API status with its code: vImp(gRuns == 1 && !gPanicked && gResult != nil && !specIsErr(gResult) && specStatusOf(gResult) && specStatusCode(gResult) >= 100 && kube.SpecMarshals(gResult), specCode(w, specStatusCode(gResult)) && specSent(w, kube.SpecJSON(gResult)))
//@ ensures[C21] text as it is: vImp(gRuns == 1 && !gPanicked && gResult != nil && !specIsErr(gResult) && specRaw(gResult), specCode(w, 200) && specSent(w, specText(gResult)))
//@ ensures[C21] other values with the success code: vImp(gRuns == 1 && !gPanicked && gResult != nil && !specIsErr(gResult) && !specStatusOf(gResult) && !specRaw(gResult) && !vDyn[*v1.Status](gResult) && kube.SpecMarshals(gResult) && !specExempt(rt), specCode(w, 200) && specSent(w, kube.SpecJSON(gResult)))
//@ ensures[C21] 500 for an error: vImp(gRuns == 1 && (gPanicked || gResult != nil && specIsErr(gResult)), specCode(w, 500))
//@ nopanic[C12,C21]

//@ func NewMuxServer(listenAddr string, clusterClients map[string]kubernetes.Interface, s store.Store, externalRouter []func(*mux.Router)) (r Server)
//@ ensures[C12,C21] every route is registered: true
