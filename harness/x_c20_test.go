package zzverif

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"net/url"
	"reflect"
	"testing"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"github.com/DaoCloud/ckube/page"
)

// TestVerifC20: options marked by the client helpers, sent by client-go through the
// real server to recording API servers.
func TestVerifC20(t *testing.T) {
	h := vStart(t, "C20")
	const marker = "dsm-cluster-"
	names := []string{"default", "c1", "c2", "dsm-cluster-c1", "a b", "x/y", "ü", "c1,c2", "c-1", "c=1&fieldManager=2"}
	ups := map[string]*upstream{}
	clis := map[string]kubernetes.Interface{}
	for _, n := range names {
		ups[n] = newUpstream(t, n)
		clis[n] = ups[n].cli
	}
	initCfg("default", "")
	hd, _ := newHandler(newStore(), clis)
	srv := httptest.NewServer(hd)
	t.Cleanup(srv.Close)
	cli, err := kubernetes.NewForConfig(&rest.Config{Host: srv.URL, QPS: 1e6, Burst: 1e6})
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	i64 := func() *int64 {
		if h.rng.Intn(2) == 0 {
			return nil
		}
		v := int64(h.rng.Intn(100))
		return &v
	}
	sent := func(cluster string) (upReq, string) {
		var got []upReq
		at := ""
		for n, u := range ups {
			for _, r := range u.take() {
				got = append(got, r)
				at = n
			}
		}
		want := cluster
		if cluster == "" {
			want = "default"
		}
		if ups[want] == nil {
			if len(got) > 0 {
				return upReq{}, "forwarded to " + at
			}
			return upReq{}, ""
		}
		if len(got) != 1 || at != want {
			return upReq{}, fmt.Sprint("forwarded ", len(got), " times, last to ", at)
		}
		return got[0], ""
	}
	for i := 0; i < h.n(400, 6000); i++ {
		cluster := names[h.rng.Intn(len(names))]
		if h.rng.Intn(8) == 0 {
			cluster = h.str("abc-.=", 6)
			if cluster == "" {
				cluster = "nowhere"
			}
		}
		busy := h.rng.Intn(6) == 0
		kind := h.pick("get", "create", "update", "patch", "delete")
		in := map[string]interface{}{"kind": kind, "cluster": cluster}
		var before, after, want interface{}
		var herr error
		var call func()
		var field string
		var method string
		sec := &corev1.Secret{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "x"}, Data: map[string][]byte{"k": []byte("v")}}
		var del metav1.DeleteOptions
		switch kind {
		case "get":
			o := metav1.GetOptions{TypeMeta: metav1.TypeMeta{Kind: h.pick("", "GetOptions")}}
			if busy {
				o.ResourceVersion = h.pick("0", "12", marker+"c1", " ")
			}
			r, e := page.QueryGetOptions(o, cluster)
			before, after, herr = o, r, e
			w := o
			w.ResourceVersion = marker + cluster
			want, field, method = w, "resourceVersion", "GET"
			call = func() { _, _ = cli.CoreV1().Secrets("ns").Get(ctx, "x", r) }
		case "create":
			o := metav1.CreateOptions{}
			if h.rng.Intn(2) == 0 {
				o.DryRun = []string{"All"}
			}
			if busy {
				o.FieldManager = h.pick("me", marker+"c1", " ")
			}
			r, e := page.QueryCreateOptions(o, cluster)
			before, after, herr = o, r, e
			w := o
			w.FieldManager = marker + cluster
			want, field, method = w, "fieldManager", "POST"
			call = func() { _, _ = cli.CoreV1().Secrets("ns").Create(ctx, sec, r) }
		case "update":
			o := metav1.UpdateOptions{}
			if h.rng.Intn(2) == 0 {
				o.DryRun = []string{"All"}
			}
			if busy {
				o.FieldManager = h.pick("me", marker+"c1", " ")
			}
			r, e := page.QueryUpdateOptions(o, cluster)
			before, after, herr = o, r, e
			w := o
			w.FieldManager = marker + cluster
			want, field, method = w, "fieldManager", "PUT"
			call = func() { _, _ = cli.CoreV1().Secrets("ns").Update(ctx, sec, r) }
		case "patch":
			o := metav1.PatchOptions{}
			if h.rng.Intn(2) == 0 {
				b := h.rng.Intn(2) == 0
				o.Force = &b
			}
			if busy {
				o.FieldManager = h.pick("me", marker+"c1", " ")
			}
			r, e := page.QueryPatchOptions(o, cluster)
			before, after, herr = o, r, e
			w := o
			w.FieldManager = marker + cluster
			want, field, method = w, "fieldManager", "PATCH"
			call = func() {
				_, _ = cli.CoreV1().Secrets("ns").Patch(ctx, "x", types.MergePatchType, []byte(`{"data":{"a":"b"}}`), r)
			}
		case "delete":
			o := metav1.DeleteOptions{GracePeriodSeconds: i64()}
			if h.rng.Intn(2) == 0 {
				p := metav1.DeletePropagationForeground
				o.PropagationPolicy = &p
			}
			if h.rng.Intn(3) == 0 {
				rv := "7"
				o.Preconditions = &metav1.Preconditions{ResourceVersion: &rv}
			}
			if busy {
				o.DryRun = []string{"All"}
			}
			r, e := page.QueryDeleteOptions(o, cluster)
			before, after, herr = o, r, e
			w := o
			w.DryRun = []string{marker + cluster}
			want, method = w, "DELETE"
			del = o
			call = func() { _ = cli.CoreV1().Secrets("ns").Delete(ctx, "x", r) }
		}
		in["options"] = before
		h.one(in)
		if busy {
			if herr == nil || !reflect.DeepEqual(before, after) {
				h.bad("the field is in use", in, fmt.Sprint(js(after), herr), "an error and the same options")
			}
			continue
		}
		if herr != nil || !reflect.DeepEqual(after, want) {
			h.bad("marked options", in, fmt.Sprint(js(after), herr), js(want))
			continue
		}
		call()
		r, bad := sent(cluster)
		if bad != "" {
			h.bad("the addressed cluster", in, bad, "forwarded once to "+cluster)
			continue
		}
		if ups[cluster] == nil {
			continue
		}
		path := "/api/v1/namespaces/ns/secrets/x"
		if kind == "create" {
			path = "/api/v1/namespaces/ns/secrets"
		}
		q, _ := url.ParseQuery(r.RawQuery)
		if r.Method != method || r.Path != path || containsStr(r.RawQuery+r.Body, marker) || (field != "" && q.Get(field) != "") {
			h.bad("the marker is removed and the rest kept", in, js(r), method+" "+path)
		}
		switch kind {
		case "delete":
			var got metav1.DeleteOptions
			_ = json.Unmarshal([]byte(r.Body), &got)
			got.TypeMeta = metav1.TypeMeta{}
			if len(got.DryRun) == 0 {
				got.DryRun = nil
			}
			if !reflect.DeepEqual(got, del) {
				h.bad("delete options after removing the marker", in, r.Body, js(del))
			}
		case "create", "update":
			var got corev1.Secret
			_ = json.Unmarshal([]byte(r.Body), &got)
			if js(got.Data) != js(sec.Data) {
				h.bad("the body of a marked request", in, r.Body, js(sec))
			}
		}
	}
}
