package zzverif

import (
	"fmt"
	"math"
	"net/url"
	"strings"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	k8slabels "k8s.io/apimachinery/pkg/labels"
	"k8s.io/client-go/kubernetes"

	"github.com/DaoCloud/ckube/kube"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

func TestVerifC08(t *testing.T) {
	h := vStart(t, "C08")
	initCfg("default", "")
	up := newUpstream(t, "default")
	st := &spyStore{stored: map[store.GroupVersionResource]bool{podGVR: true}}
	hd, _ := newHandler(st, map[string]kubernetes.Interface{"default": up.cli})
	long := func(n int) string { return h.str("abcxyz0189 =;!", n) }
	lens := []int{0, 1, 5, 20, 40, 41, 42, 43, 55, 56, 57, 60, 112, 113, 200, 500, 2000, 7000, 7400, 7500, 7600, 9000, 20000, 76000}
	accepted := 0
	for run := 0; run < h.n(500, 4000); run++ {
		p := page.Paginate{}
		if h.rng.Intn(4) > 0 {
			p.Page = []int64{0, 1, 2, 3, 100, math.MaxInt64, -1, math.MinInt64}[h.rng.Intn(8)]
			p.PageSize = []int64{0, 1, 10, 50, 1 << 40, -5}[h.rng.Intn(6)]
		}
		if h.rng.Intn(2) == 0 {
			p.Sort = h.pick("name", "name desc,num!int", "é", "<&>", "")
		}
		if h.rng.Intn(2) == 0 {
			p.Total = int64(h.rng.Intn(3))
		}
		n := lens[h.rng.Intn(len(lens))]
		if n >= 2000 && h.rng.Intn(4) > 0 {
			n = h.rng.Intn(60)
		}
		p.Search = strings.Repeat(h.pick("a", "name=x;", "日本", "\"q\" ", "!"), h.rng.Intn(4)) + long(n)
		if n > 1000 {
			p.Search = strings.Repeat("0123456789abcdefg", n/17)
		}
		// the server adds the default cluster when none is named: name one
		if err := p.Clusters([]string{h.pick("default", "c1")}); err != nil {
			continue
		}
		sel := h.pick("", "", "app=web", "app!=web,x in (a,b)", "x", "!x", "x notin (a),y=z", "a=1,a=2", "a==b,a!=c", "ckube.daocloud.io/query=x,app=web", "ckube.daocloud.io/query notin (0000.old,0056.old)", "ckube.daocloud.io/other=x", "app in (web,db),tier,!gone,env=prod,rel notin (x,y)")
		opts := metav1.ListOptions{LabelSelector: sel, Limit: 5, ResourceVersion: "7", FieldSelector: "a=b"}
		in := map[string]interface{}{"page": p, "selector": sel}
		if len(p.Search) > 300 {
			in["page"] = fmt.Sprintf("search of %d characters", len(p.Search))
		}
		o, err := page.QueryListOptions(opts, p)
		if err != nil {
			continue
		}
		h.one(fmt.Sprint(p, sel))
		accepted++
		o2 := o
		o2.LabelSelector = opts.LabelSelector
		if js(o2) != js(opts) {
			h.bad("other options changed", in, js(o2), js(opts))
		}
		for _, lv := range strings.FieldsFunc(o.LabelSelector, func(r rune) bool { return strings.ContainsRune(" ,()=!", r) }) {
			if len(lv) > 63 && !strings.Contains(lv, "/") {
				h.bad("a label value longer than the limit", in, lv, "at most 63 characters")
				break
			}
		}
		other := []string{}
		for _, r := range mustReqs(sel) {
			if r.Key() != "ckube.daocloud.io/query" {
				other = append(other, r.String())
			}
		}
		st.reset()
		w := do(hd, "GET", "/api/v1/pods?labelSelector="+url.QueryEscape(o.LabelSelector), "")
		if len(st.queries) != 1 {
			h.bad("the list is not answered from the cache", in, fmt.Sprint(w.Code, w.Body.String()), "one query")
			continue
		}
		got := st.queries[0].Paginate
		want := p
		if len(other) > 0 { // paging happens after the labels
			want.Page, want.PageSize, want.Total = got.Page, got.PageSize, got.Total
		}
		if got != want {
			h.bad("the server decodes another query", in, got, want)
		}
		// what is forwarded to an API server
		w = do(hd, "GET", "/api/v1/pods?x=y&labelSelector="+url.QueryEscape(o.LabelSelector), "")
		_ = w
		if p.GetClusters()[0] == "default" {
			rs := up.take()
			if len(rs) != 1 {
				h.bad("not forwarded once", in, len(rs), 1)
				continue
			}
			q, _ := url.ParseQuery(rs[0].RawQuery)
			left := []string{}
			fs := q.Get("labelSelector")
			if len(other) == 0 {
				// nothing is left: either no selector, or the harmless original one
				for _, r := range mustReqs(fs) {
					if r.Key() != "ckube.daocloud.io/query" {
						left = append(left, r.String())
					}
				}
				if len(left) > 0 {
					h.bad("label conditions appear", in, left, "none")
				}
				continue
			}
			probe := []k8slabels.Set{}
			for i := 0; i < 40; i++ {
				s := k8slabels.Set{}
				for _, k := range []string{"app", "x", "y", "a", "env", "tier", "gone", "rel", "ckube.daocloud.io/other"} {
					if h.rng.Intn(2) == 0 {
						s[k] = h.pick("web", "db", "a", "b", "z", "1", "2", "prod", "x", "y", "c")
					}
				}
				probe = append(probe, s)
			}
			osel, _ := k8slabels.Parse(strings.Join(other, ","))
			fsel, err := k8slabels.Parse(fs)
			if err != nil {
				h.bad("forwarded selector is invalid", in, fs, other)
				continue
			}
			for _, s := range probe {
				if osel.Matches(s) != fsel.Matches(s) {
					h.bad("other label conditions changed", in, fs, other)
					break
				}
			}
		}
	}
	if accepted < 50 {
		t.Fatal("too few accepted queries: ", accepted)
	}
	// splitting and merging
	for run := 0; run < h.n(400, 4000); run++ {
		n := lens[h.rng.Intn(len(lens))] + h.rng.Intn(3)
		if run%40 == 0 {
			n = 560000 + h.rng.Intn(120) // six digits of offset
		} else if h.rng.Intn(3) > 0 {
			n = h.rng.Intn(400)
		}
		v := []byte(strings.Repeat("x", n))
		for i := range v {
			v[i] = "ABCdef0123456789"[(i*7+i/56)%16]
		}
		parts := kube.SplittingValue(string(v))
		h.one(fmt.Sprintf("split %d", n))
		h.rng.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		if len(parts) > 1 {
			for _, x := range parts {
				if len(x) > 63 {
					h.bad("part longer than a label value", n, x, 63)
				}
			}
		}
		got, err := kube.MergeValues(parts)
		if err != nil || got != string(v) {
			h.bad("merging the parts in another order does not give back the value", fmt.Sprintf("length %d", n), err, "the value")
		}
	}
}

func mustReqs(sel string) []k8slabels.Requirement {
	r, err := k8slabels.ParseToRequirements(sel)
	if err != nil {
		panic(sel + ": " + err.Error())
	}
	return r
}
