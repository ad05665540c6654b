package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/pkg/client/fake"
)

// TestVerifC22: random sequences of requests against the real fake server over the
// loopback network, compared with a map after every request.
func TestVerifC22(t *testing.T) {
	h := vStart(t, "C22")
	type res22 struct{ group, version, resource, kind, apiVersion string }
	types := []res22{{"", "v1", "pods", "Pod", "v1"}, {"", "v1", "services", "Service", "v1"}, {"apps", "v1", "deployments", "Deployment", "apps/v1"}, {"apps", "v1beta1", "deployments", "Deployment", "apps/v1beta1"}}
	cfg := js(map[string]interface{}{"default_cluster": "def", "token": "secret", "proxies": []map[string]interface{}{
		{"group": "", "version": "v1", "resource": "pods", "list_kind": "PodList", "index": stdIndex},
		{"group": "", "version": "v1", "resource": "services", "list_kind": "ServiceList", "index": stdIndex},
		{"group": "apps", "version": "v1", "resource": "deployments", "list_kind": "DeploymentList", "index": stdIndex},
		{"group": "apps", "version": "v1beta1", "resource": "deployments", "list_kind": "DeploymentList", "index": stdIndex},
	}})
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := ln.Addr().String()
	ln.Close()
	s, err := fake.NewFakeCKubeServer(addr, cfg)
	if err != nil {
		t.Fatal("harness: ", err)
	}
	defer s.Stop()
	base := s.GetKubeConfig().Host
	cl := &http.Client{Timeout: 30 * time.Second}
	send := func(method, path string, q url.Values, body string) (int, string) {
		req, _ := http.NewRequest(method, base+path+"?"+q.Encode(), bytes.NewBufferString(body))
		r, err := cl.Do(req)
		if err != nil {
			return 0, err.Error()
		}
		defer r.Body.Close()
		bs, _ := io.ReadAll(r.Body)
		return r.StatusCode, string(bs)
	}
	clusters := []string{"def", "c1", "c2"}
	nss := []string{"a", "b", "a-b"}
	names := []string{"x", "y", "x-y", "a"}
	path := func(r res22, ns, name string) string {
		p := "/apis/" + r.group + "/" + r.version
		if r.group == "" {
			p = "/api/" + r.version
		}
		p += "/namespaces/" + ns + "/" + r.resource
		if name != "" {
			p += "/" + name
		}
		return p
	}
	model := map[string]string{} // key -> uid
	key := func(r res22, c, ns, n string) string {
		return strings.Join([]string{r.group, r.version, r.resource, c, ns, n}, "|")
	}
	read := func(r res22, c, ns, n string) string {
		code, b := send("GET", path(r, ns, n), url.Values{"resourceVersion": {"dsm-cluster-" + c}}, "")
		if code == 404 {
			return ""
		}
		var o metav1.PartialObjectMetadata
		_ = json.Unmarshal([]byte(b), &o)
		if code != 200 || o.Namespace != ns || o.Name != n {
			return fmt.Sprint("unexpected answer ", code, " ", b)
		}
		return o.Labels["uid"]
	}
	type evt struct {
		e  fake.Event
		ok bool
	}
	events, good := 0, 0
	for i := 0; i < h.n(350, 3000); i++ {
		r := types[h.rng.Intn(len(types))]
		c, ns, n := clusters[h.rng.Intn(3)], nss[h.rng.Intn(3)], names[h.rng.Intn(4)]
		uid := fmt.Sprint("u", i)
		q := url.Values{}
		marked := c != "def" || h.rng.Intn(2) == 0
		obj := map[string]interface{}{"apiVersion": r.apiVersion, "kind": r.kind, "metadata": map[string]interface{}{"namespace": ns, "name": n, "labels": map[string]string{"uid": uid}}, "spec": map[string]interface{}{"v": i}}
		method := h.pick("POST", "PUT", "DELETE")
		p := path(r, ns, n)
		body := js(obj)
		other := false
		switch method {
		case "POST":
			p = path(r, ns, "")
		case "PUT":
			if h.rng.Intn(5) == 0 { // body names another object
				obj["metadata"].(map[string]interface{})["name"] = names[h.rng.Intn(4)]
				other = true
				body = js(obj)
			}
		case "DELETE":
			d := map[string]interface{}{"kind": "DeleteOptions"}
			if marked {
				d["dryRun"] = []string{"dsm-cluster-" + c}
			}
			body = js(d)
			if !marked && h.rng.Intn(2) == 0 {
				body = ""
			}
		}
		if marked && method != "DELETE" {
			q.Set("fieldManager", "dsm-cluster-"+c)
		}
		in := map[string]interface{}{"request": method + " " + p + "?" + q.Encode(), "body": body, "existing": model}
		h.one(in)
		got := make(chan evt, 1)
		stop := make(chan struct{})
		go func() {
			select {
			case e := <-s.Events():
				got <- evt{e, true}
			case <-stop:
				got <- evt{}
			}
		}()
		time.Sleep(500 * time.Microsecond)
		code, b := send(method, p, q, body)
		select {
		case e := <-got:
			got <- e
		default:
			close(stop)
		}
		e := <-got
		k := key(r, c, ns, n)
		before := model[k]
		fails := (method == "POST") == (before != "")
		if fails {
			if code < 400 {
				h.bad("an impossible request succeeds", in, fmt.Sprint(code, " ", b), "an error")
			}
			if e.ok {
				h.bad("a request that fails emits an event", in, fmt.Sprintf("%+v", e.e), "none")
			}
		} else {
			if code != 200 {
				h.bad("a possible request fails", in, fmt.Sprint(code, " ", b), 200)
			}
			switch method {
			case "POST", "PUT":
				model[k] = uid
			case "DELETE":
				delete(model, k)
			}
			good++
			if e.ok {
				events++
				act := map[string]fake.EventAction{"POST": fake.EventActionAdd, "PUT": fake.EventActionUpdate, "DELETE": fake.EventActionDelete}[method]
				ev := e.e
				if ev.EventAction != act || ev.Group != r.group || ev.Version != r.version || ev.Resource != r.resource || ev.Cluster != c || ev.Namespace != ns || ev.Name != n {
					h.bad("the event describes another change", in, fmt.Sprintf("%+v", ev), fmt.Sprint(act, k))
				}
				var o metav1.PartialObjectMetadata
				_ = json.Unmarshal([]byte(ev.Raw), &o)
				wantUID := uid
				if method == "DELETE" {
					wantUID = before
				}
				if o.Labels["uid"] != wantUID || (!other && o.Name != n) || o.Namespace != ns {
					h.bad("the event carries another object", in, ev.Raw, wantUID)
				}
			}
		}
		// nothing but the addressed object changes
		for _, r2 := range types {
			for _, c2 := range clusters {
				for _, ns2 := range nss {
					for _, n2 := range names {
						k2 := key(r2, c2, ns2, n2)
						if k2 != k && h.rng.Intn(20) != 0 {
							continue
						}
						if g := read(r2, c2, ns2, n2); g != model[k2] {
							h.bad("cached object "+k2+" after the request", in, g, model[k2])
							model[k2] = g
						}
					}
				}
			}
		}
	}
	if events*2 < good {
		h.bad("changes without events", "whole run", events, good)
	}
}
