package zzverif

import (
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

// TestVerifC23: the real plugin with a stand-in for kubectl that records its arguments.
func TestVerifC23(t *testing.T) {
	h := vStart(t, "C23")
	dir := os.Getenv("VERIF_TMP")
	bin := filepath.Join(dir, "kubectl-ckube")
	b := exec.Command("go", "build", "-o", bin, "./cmd/ckube-plugin")
	b.Dir = os.Getenv("VERIF_REPO")
	if out, err := b.CombinedOutput(); err != nil {
		t.Fatal("harness: the plugin does not build: ", string(out))
	}
	kubectl := "#!/bin/sh\nfor a in \"$@\"; do printf '%s\\000' \"$a\" >> \"$VERIF_OUT\"; done\nprintf '\\001' >> \"$VERIF_OUT\"\necho answer; echo complaint >&2; exec cat\n"
	if err := os.MkdirAll(filepath.Join(dir, "bin"), 0755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "bin", "kubectl"), []byte(kubectl), 0755); err != nil {
		t.Fatal(err)
	}
	initCfg("default", "")
	// the server decides what the selector of the plugin means
	st := newStore()
	all := []qObj{}
	for _, c := range []string{"default", "c1", "c2", "a-b"} {
		for _, n := range []string{"x", "y"} {
			o := qObj{Cluster: c, NS: "ns", Name: n, Labels: map[string]string{"app": n}}
			all = append(all, o)
			_ = st.OnResourceAdded(podGVR, c, o.pod())
		}
	}
	hd, _ := newHandler(st, nil)
	type run23 struct {
		in      []string
		code    int
		calls   [][]string
		cluster string
		user    []string
		sel     int // position of the selector in user, -1: none
		typ     string
		streams string // what is wrong with them
	}
	mk := func() run23 {
		r := run23{sel: -1}
		r.typ = h.pick("get", "get", "get", "create", "apply")
		words := []string{r.typ, h.pick("pods", "deploy")}
		if r.typ != "apply" && h.rng.Intn(5) == 0 {
			words = append(words, h.pick("get", "create")) // an object of that name
		}
		if r.typ == "create" && h.rng.Intn(2) == 0 {
			words = append(words, "-f", "file.yaml")
		}
		for k := h.rng.Intn(3); k > 0; k-- {
			words = append(words, h.pick("-A", "-o wide", "x y", "-n=ns", "", "--show-labels", "ü"))
		}
		sel := ""
		if r.typ == "get" && h.rng.Intn(2) == 0 {
			sel = h.pick("app=x", "app in (x,y)", "app!=x", "app", "!app", "app=x,app!=y", "")
			if h.rng.Intn(12) == 0 {
				sel = h.pick("app in", "a>1", "=")
			}
			at := 1 + h.rng.Intn(len(words))
			words = append(words[:at:at], append([]string{h.pick("-l", "--selector"), sel}, words[at:]...)...)
			r.sel = at + 1
		}
		r.user = append([]string{}, words...)
		r.in = append([]string{}, words...)
		if h.rng.Intn(6) != 0 {
			r.cluster = h.pick("c1", "c2", "default", "c1,c2", "a-b", "nosuch")
			if h.rng.Intn(10) == 0 {
				r.cluster = h.pick("c 1", "c1,c 2", "ü", "c1;c2", "c1=c2")
			}
			at := h.rng.Intn(len(words) + 1)
			if r.sel >= 0 && at == r.sel { // never between the option and its value
				at = 0
			}
			if r.typ == "create" && at > 2 && h.rng.Intn(2) == 0 {
				at = len(words)
			}
			for at > 0 && at < len(words) && words[at-1] == "-f" {
				at++
			}
			r.in = append(append(append([]string{}, words[:at]...), "--clusters", r.cluster), words[at:]...)
		}
		return r
	}
	runs := make([]run23, h.n(300, 3000))
	for i := range runs {
		runs[i] = mk()
	}
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	for i := range runs {
		wg.Add(1)
		lim <- struct{}{}
		go func(i int) {
			defer func() { <-lim; wg.Done() }()
			out := filepath.Join(dir, fmt.Sprint("out", i))
			c := exec.Command(bin, runs[i].in...)
			c.Dir = dir
			c.Env = []string{"PATH=" + filepath.Join(dir, "bin") + ":" + os.Getenv("PATH"), "VERIF_OUT=" + out, "HOME=" + dir}
			var so, se strings.Builder
			c.Stdin, c.Stdout, c.Stderr = strings.NewReader("the input"), &so, &se
			err := c.Run()
			if ee, ok := err.(*exec.ExitError); ok {
				runs[i].code = ee.ExitCode()
			} else if err != nil {
				runs[i].code = -1
			}
			bs, _ := os.ReadFile(out)
			if len(bs) > 0 {
				if !strings.Contains(so.String(), "answer\nthe input") || !strings.Contains(se.String(), "complaint\n") {
					runs[i].streams = fmt.Sprintf("out %q, err %q", so.String(), se.String())
				}
				for _, call := range strings.Split(strings.TrimSuffix(string(bs), "\x01"), "\x01") {
					args := []string{}
					if call != "" {
						args = strings.Split(strings.TrimSuffix(call, "\x00"), "\x00")
					}
					runs[i].calls = append(runs[i].calls, args)
				}
			}
			_ = os.Remove(out)
		}(i)
	}
	wg.Wait()
	for _, r := range runs {
		in := map[string]interface{}{"args": r.in}
		h.one(in)
		got := fmt.Sprintf("exit %d, kubectl %q", r.code, r.calls)
		if r.streams != "" {
			h.bad("kubectl does not get the streams of the user", in, r.streams, "input, output and errors passed on")
			continue
		}
		if len(r.calls) > 1 {
			h.bad("kubectl runs more than once", in, got, "once")
			continue
		}
		if r.typ == "apply" {
			if len(r.calls) > 0 || r.code == 0 {
				h.bad("an unsupported command runs", in, got, "an error")
			}
			continue
		}
		if r.cluster == "" {
			if len(r.calls) != 1 || !reflect.DeepEqual(r.calls[0], r.user) {
				h.bad("arguments without --clusters", in, got, fmt.Sprintf("%q", r.user))
			}
			continue
		}
		cs := strings.Split(r.cluster, ",")
		sel := ""
		if r.sel >= 0 {
			sel = r.user[r.sel]
		}
		if r.typ == "create" {
			want := append(append([]string{}, r.user...), "--field-manager", "dsm-cluster-"+r.cluster)
			if len(cs) > 1 {
				if len(r.calls) > 0 || r.code == 0 {
					h.bad("create with several clusters", in, got, "an error")
				}
				continue
			}
			if len(r.calls) != 1 || !reflect.DeepEqual(r.calls[0], want) {
				h.bad("arguments of create", in, got, fmt.Sprintf("%q", want))
			}
			continue
		}
		_, badSel := matchSelector(map[string]string{}, sel)
		expressible := !badSel
		for _, c := range cs {
			for _, x := range c {
				if !(x >= 'a' && x <= 'z' || x >= '0' && x <= '9' || x == '-') {
					expressible = false
				}
			}
		}
		if len(r.calls) == 0 {
			if expressible || r.code == 0 {
				h.bad("kubectl is not run", in, got, "kubectl with the cluster query")
			}
			continue
		}
		a := r.calls[0]
		pos := r.sel
		if r.sel < 0 {
			pos = len(r.user) + 1
			if len(a) != len(r.user)+2 || a[pos-1] != "-l" && a[pos-1] != "--selector" {
				h.bad("arguments of get", in, got, "one more selector")
				continue
			}
		} else if len(a) != len(r.user) {
			h.bad("arguments of get", in, got, "a changed selector")
			continue
		}
		for i, x := range r.user {
			if i != pos && a[i] != x {
				h.bad("a user's argument is changed", in, got, fmt.Sprintf("%q", r.user))
			}
		}
		w := httptest.NewRecorder()
		hd.ServeHTTP(w, httptest.NewRequest("GET", "/api/v1/pods?labelSelector="+url.QueryEscape(a[pos]), nil))
		var l struct{ Items []metav1.PartialObjectMetadata }
		_ = json.Unmarshal(w.Body.Bytes(), &l)
		have, want := []string{}, []string{}
		for i := range l.Items {
			have = append(have, objID(&l.Items[i]))
		}
		for _, o := range all {
			inC := false
			for _, c := range cs {
				inC = inC || c == o.Cluster
			}
			ok, _ := matchSelector(o.Labels, sel)
			if inC && (ok || sel == "") {
				want = append(want, o.id())
			}
		}
		sort.Strings(have)
		sort.Strings(want)
		if w.Code != 200 || js(have) != js(want) {
			h.bad("what the server makes of the selector", in, fmt.Sprint(w.Code, have, " ", got), want)
		}
	}
}
