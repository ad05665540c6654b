package zzverif

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
)

// api19 is the API server of one cluster: every watch delivers one object and stays open.
type api19 struct {
	name string
	mu   sync.Mutex
	open map[string]int
	opn  map[string]int
	fwd  int
	srv  *httptest.Server
}

func newAPI19(name string) *api19 {
	a := &api19{name: name, open: map[string]int{}, opn: map[string]int{}}
	kinds := map[string]string{"pods": `"apiVersion":"v1","kind":"Pod"`, "services": `"apiVersion":"v1","kind":"Service"`, "deployments": `"apiVersion":"apps/v1","kind":"Deployment"`, "widgets": `"apiVersion":"x.io/v1","kind":"Widget"`}
	a.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		p := r.URL.Path
		res := p[strings.LastIndex(p, "/")+1:]
		if r.URL.Query().Get("watch") != "true" || kinds[res] == "" {
			a.mu.Lock()
			a.fwd++
			a.mu.Unlock()
			w.Header().Set("Content-Type", "application/json")
			_, _ = w.Write([]byte(`{"kind":"Forwarded","from":"` + name + `"}`))
			return
		}
		a.mu.Lock()
		a.open[p]++
		a.opn[p]++
		a.mu.Unlock()
		defer func() { a.mu.Lock(); a.open[p]--; a.mu.Unlock() }()
		w.Header().Set("Content-Type", "application/json")
		_, _ = w.Write([]byte(fmt.Sprintf(`{"type":"ADDED","object":{%s,"metadata":{"namespace":"ns","name":"%s-%s"}}}`, kinds[res], name, res) + "\n"))
		w.(http.Flusher).Flush()
		<-r.Context().Done()
	}))
	return a
}

func TestVerifC19(t *testing.T) {
	h := vStart(t, "C19")
	dir := os.Getenv("VERIF_TMP")
	bin := filepath.Join(dir, "cacheproxy")
	b := exec.Command("go", "build", "-o", bin, "./cmd/cacheproxy")
	b.Dir = os.Getenv("VERIF_REPO")
	if out, err := b.CombinedOutput(); err != nil {
		t.Fatal("harness: the server does not build: ", string(out))
	}
	apis := map[string]*api19{}
	for _, n := range []string{"c1", "c2", "c3"} {
		apis[n] = newAPI19(n)
		defer func(a *api19) { a.srv.CloseClientConnections(); a.srv.Close() }(apis[n])
	}
	kubecfg := func(current string, extra string, names ...string) string {
		s := "apiVersion: v1\nkind: Config\ncurrent-context: " + current + "\nclusters:\n"
		for _, n := range names {
			s += "- name: cl-" + n + "\n  cluster:\n    server: " + apis[n].srv.URL + "\n"
		}
		if extra == "" {
			s += "users:\n- name: u\n  user: {}\n"
		}
		s += "contexts:\n"
		for _, n := range names {
			s += "- name: " + n + "\n  context:\n    cluster: cl-" + n + "\n    user: u\n"
		}
		return s + extra
	}
	// a context whose client certificate can not be read, after good ones
	broken := "- name: broken\n  context:\n    cluster: cl-c1\n    user: nocert\nusers:\n- name: u\n  user: {}\n- name: nocert\n  user:\n    client-certificate: /nonexistent/cert\n    client-key: /nonexistent/key\n"
	type px struct {
		Group    string            `json:"group"`
		Version  string            `json:"version"`
		Resource string            `json:"resource"`
		ListKind string            `json:"list_kind"`
		Index    map[string]string `json:"index"`
	}
	prox := map[string]px{"pods": {"", "v1", "pods", "PodList", stdIndex}, "services": {"", "v1", "services", "ServiceList", stdIndex}, "deployments": {"apps", "v1", "deployments", "DeploymentList", stdIndex}, "widgets": {"x.io", "v1", "widgets", "WidgetList", stdIndex}}
	paths := map[string]string{"pods": "/api/v1/pods", "services": "/api/v1/services", "deployments": "/apis/apps/v1/deployments", "widgets": "/apis/x.io/v1/widgets"}
	config := func(token string, res ...string) string {
		var ps []px
		for _, r := range res {
			ps = append(ps, prox[r])
		}
		return js(map[string]interface{}{"proxies": ps, "token": token, "default_cluster": "fromconfig"})
	}
	cf, kf := filepath.Join(dir, "config.json"), filepath.Join(dir, "kubeconfig")
	// in place and in one piece: truncating first would let a reload see an empty file, which is a valid kubeconfig
	write := func(f, s string) {
		o, err := os.OpenFile(f, os.O_WRONLY|os.O_CREATE, 0644)
		if err != nil {
			t.Fatal(err)
		}
		defer o.Close()
		if n := 4000 - len(s); n > 0 {
			s += strings.Repeat("\n", n)
		}
		if _, err := o.WriteAt([]byte(s), 0); err != nil {
			t.Fatal(err)
		}
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := ln.Addr().String()
	ln.Close()
	env := []string{"HOME=" + dir, "PATH=" + os.Getenv("PATH")}
	start := func() (*exec.Cmd, chan error) {
		c := exec.Command(bin, "-a", addr, "-c", cf, "-k", kf)
		c.Env = env
		c.Dir = dir
		done := make(chan error, 1)
		if err := c.Start(); err != nil {
			t.Fatal(err)
		}
		go func() { done <- c.Wait() }()
		return c, done
	}
	// loads that fail at the start end the server instead of serving half a configuration
	for i, bad := range []struct{ C, K string }{
		{"{not json", kubecfg("c1", "", "c1", "c2")},
		{config("", "pods"), "{not: [yaml"},
		{config("", "pods"), kubecfg("c1", broken, "c1")},
	} {
		write(cf, bad.C)
		write(kf, bad.K)
		h.one(fmt.Sprint("start with ", bad))
		c, done := start()
		select {
		case err := <-done:
			if err == nil {
				h.bad("a configuration which does not load is served", i, "exit 0", "failure")
			}
		case <-time.After(5 * time.Second):
			h.bad("a configuration which does not load is served", bad, "running", "failure")
			_ = c.Process.Kill()
			<-done
		}
	}
	write(cf, config("", "pods", "deployments"))
	write(kf, kubecfg("c1", "", "c1", "c2"))
	cmd, done := start()
	defer func() { _ = cmd.Process.Kill(); <-done }()
	get := func(path string, hdr ...string) (int, string) {
		req, _ := http.NewRequest("GET", "http://"+addr+path, nil)
		if len(hdr) > 0 {
			req.Header.Set("Authorization", hdr[0])
		}
		r, err := http.DefaultClient.Do(req)
		if err != nil {
			return 0, err.Error()
		}
		defer r.Body.Close()
		bs, _ := io.ReadAll(r.Body)
		return r.StatusCode, string(bs)
	}
	all := func(res string, clusters ...string) string {
		p := page.Paginate{}
		_ = p.Clusters(clusters)
		ls, err := selectorFor("", p)
		if err != nil {
			t.Fatal(err)
		}
		code, body := get(paths[res] + "?labelSelector=" + url.QueryEscape(ls))
		var l struct {
			Kind  string
			From  string
			Items []metav1.PartialObjectMetadata
		}
		_ = json.Unmarshal([]byte(body), &l)
		ids := []string{}
		for _, it := range l.Items {
			ids = append(ids, it.Name)
		}
		sort.Strings(ids)
		return fmt.Sprint(code, " ", l.Kind, l.From, ids)
	}
	streams := func() string {
		s := []string{}
		for _, n := range []string{"c1", "c2", "c3"} {
			a := apis[n]
			a.mu.Lock()
			for p, k := range a.open {
				if k != 0 {
					s = append(s, fmt.Sprintf("%s%s:%d", n, p, k))
				}
			}
			a.mu.Unlock()
		}
		sort.Strings(s)
		return strings.Join(s, " ")
	}
	opened := func() string {
		s := []string{}
		for _, n := range []string{"c1", "c2", "c3"} {
			a := apis[n]
			a.mu.Lock()
			for p, k := range a.opn {
				s = append(s, fmt.Sprintf("%s%s:%d", n, p, k))
			}
			a.mu.Unlock()
		}
		sort.Strings(s)
		return strings.Join(s, " ")
	}
	type state struct{ what, streams string }
	snapshot := func(kind string) (string, []string) {
		var out []string
		switch kind {
		case "first":
			out = []string{all("pods", "c1", "c2"), all("deployments", "c1", "c2"), all("services", "c1"), all("pods", "c3")}
			_, b := get("/api/v1/pods")
			out = append(out, fmt.Sprint(containsStr(b, "c1-pods") && !containsStr(b, "c2-pods")))
		default:
			out = []string{all("pods", "c2", "c3"), all("services", "c2", "c3"), all("widgets", "c2", "c3"), all("deployments", "c3"), all("pods", "c1")}
			_, b := get("/api/v1/pods")
			out = append(out, fmt.Sprint(containsStr(b, "c3-pods") && !containsStr(b, "c2-pods")))
		}
		return streams(), out
	}
	waitFor := func(what, kind, wantStreams string, want []string, max time.Duration) bool {
		end := time.Now().Add(max)
		for {
			s, o := snapshot(kind)
			if s == wantStreams && js(o) == js(want) {
				return true
			}
			if time.Now().After(end) {
				h.bad(what, what, js(o)+" streams: "+s, js(want)+" streams: "+wantStreams)
				return false
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	want1 := []string{"200 PodList[c1-pods c2-pods]", "200 DeploymentList[c1-deployments c2-deployments]", "200 Forwardedc1[]", "200 PodList[]", "true"}
	str1 := "c1/api/v1/pods:1 c1/apis/apps/v1/deployments:1 c2/api/v1/pods:1 c2/apis/apps/v1/deployments:1"
	h.one("first load")
	if !waitFor("the first configuration is not served completely", "first", str1, want1, 15*time.Second) {
		return
	}
	// failing reloads: nothing changes
	hold := func(what string) bool {
		h.one(what)
		o1 := opened()
		time.Sleep(time.Duration(h.n(900, 2500)) * time.Millisecond)
		s, o := snapshot("first")
		if s != str1 || js(o) != js(want1) || opened() != o1 {
			h.bad("a reload that fails changes something", what, js(o)+" streams: "+s+" opened: "+opened(), js(want1)+" streams: "+str1+" opened: "+o1)
			return false
		}
		return true
	}
	write(cf, "{not json")
	if !hold("config is not JSON") {
		return
	}
	write(kf, kubecfg("c3", broken, "c3", "c2"))
	if !hold("config is not JSON, kubeconfig has a context which can not be used") {
		return
	}
	write(cf, config("tok", "services"))
	if !hold("new config, but a context which can not be used follows good ones") {
		return
	}
	write(kf, "{not: [yaml")
	if !hold("new config, but the kubeconfig is no YAML") {
		return
	}
	// a reload that succeeds: everything switches
	h.one("successful reload")
	write(cf, config("", "services", "pods", "widgets"))
	time.Sleep(300 * time.Millisecond)
	write(kf, kubecfg("c3", "", "c3", "c2"))
	want2 := []string{"200 PodList[c2-pods c3-pods]", "200 ServiceList[c2-services c3-services]", "200 WidgetList[c2-widgets c3-widgets]", "200 Forwardedc3[]", "200 PodList[]", "true"}
	str2 := "c2/api/v1/pods:1 c2/api/v1/services:1 c2/apis/x.io/v1/widgets:1 c3/api/v1/pods:1 c3/api/v1/services:1 c3/apis/x.io/v1/widgets:1"
	if !waitFor("a successful reload does not switch completely", "second", str2, want2, 12*time.Second) {
		return
	}
	if code, b := get("/api/v1/secrets?cluster=c1"); code != 404 {
		h.bad("a client of the old configuration is still used", "GET secrets of c1", fmt.Sprint(code, b), 404)
	}
	// and back again, several times in a row
	for i := 0; i < h.n(1, 6); i++ {
		h.one(fmt.Sprint("reload again ", i))
		write(cf, config("", "pods", "deployments"))
		write(kf, kubecfg("c1", "", "c1", "c2"))
		if !waitFor("a second reload does not switch completely", "first", str1, want1, 12*time.Second) {
			return
		}
		write(cf, config("", "services", "pods", "widgets"))
		write(kf, kubecfg("c3", "", "c3", "c2"))
		if !waitFor("a later reload does not switch completely", "second", str2, want2, 12*time.Second) {
			return
		}
	}
	// the token of the loaded configuration
	write(cf, config("tok", "services", "pods", "widgets"))
	end := time.Now().Add(8 * time.Second)
	for {
		code, _ := get("/api/v1/pods")
		code2, _ := get("/api/v1/pods", "Bearer tok")
		if code == 401 && code2 == 200 {
			break
		}
		if time.Now().After(end) {
			h.bad("the token of the new configuration is not in force", "token", fmt.Sprint(code, code2), "401 200")
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
}
