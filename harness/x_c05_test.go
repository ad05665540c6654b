package zzverif

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

type c05key struct {
	key  string
	num  bool
	desc bool
}

// c05parse reads a sort request from its statement: items separated by ',', each
// key[!type][ direction].
func c05parse(s string, known map[string]bool) ([]c05key, bool) {
	if s == "" {
		return nil, true
	}
	var ks []c05key
	for _, it := range strings.Split(s, ",") {
		it = strings.TrimSpace(it)
		if it == "" {
			continue
		}
		k := c05key{}
		f := strings.Split(it, " ")
		if len(f) > 2 {
			return nil, false
		}
		if len(f) == 2 {
			switch f[1] {
			case "desc":
				k.desc = true
			case "asc":
			default:
				return nil, false
			}
		}
		g := strings.Split(f[0], "!")
		if len(g) > 2 {
			return nil, false
		}
		if len(g) == 2 {
			switch g[1] {
			case "int":
				k.num = true
			case "str":
			default:
				return nil, false
			}
		}
		k.key = g[0]
		if !known[k.key] {
			return nil, false
		}
		ks = append(ks, k)
	}
	return ks, true
}

func TestVerifC05(t *testing.T) {
	h := vStart(t, "C05")
	runs := h.n(250, 3000)
	for run := 0; run < runs; run++ {
		s := newStore()
		n := h.rng.Intn(9)
		if run%20 == 19 {
			n = 60
		}
		nums := h.pick("0", "1", "2", "3")
		objs := map[string]qObj{}
		for i := 0; i < n; i++ {
			num := ""
			switch nums {
			case "0":
				num = fmt.Sprint(h.rng.Intn(15))
			case "1":
				num = h.pick("1", "10", "9", "2", "-3", "1.5", "1e2", "0x10", "1.50", "+9", "007")
			case "3":
				num = h.pick("16777216", "16777217", "16777218", "2147483648", "4294967296", "-16777217", "0.1", "0.10000000001", "1e300", "-1e300", "1e-300", "0", "9007199254740991", "9007199254740990", "1700000000000", "1700000000001")
			default:
				num = h.pick("1", "2", "10", "", "x", "NaN", "9007199254740993")
			}
			o := qObj{h.pick("c", "b", "default"), h.pick("a", "b", "ab"), h.pick("n", "m") + fmt.Sprint(h.rng.Intn(2+n/2)), map[string]string{"app": h.pick("web", "Web", "we b", "z", "é"), "num": num}}
			objs[o.Cluster+"|"+o.NS+"|"+o.Name] = o
		}
		ids := []string{}
		for id := range objs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		h.rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		for _, id := range ids {
			o := objs[id]
			_ = s.OnResourceAdded(podGVR, o.Cluster, o.pod())
		}
		for q := 0; q < 6; q++ {
			var items []string
			for k := h.rng.Intn(4); k > 0; k-- {
				items = append(items, h.pick("", " ")+h.pick("app", "num", "num!int", "num!int", "num!str", "name", "namespace", "cluster", "is_deleted", "app!str", "app!int", "nosuch", "num!float", "num!int!int", "name!", "", "created_at")+h.pick("", "", " asc", " desc", " desc", " DESC", " desc x", "  desc", " "))
			}
			srt := strings.Join(items, h.pick(",", ", "))
			known := map[string]bool{"cluster": true, "namespace": true, "name": true, "app": true, "num": true, "created_at": true, "is_deleted": true}
			keys, ok := c05parse(srt, known)
			in := map[string]interface{}{"sort": srt, "objects": objs}
			h.one(in)
			if ok {
				for _, k := range keys {
					if k.num {
						for _, o := range objs {
							if f, err := strconv.ParseFloat(o.index()[k.key], 64); err != nil || math.IsNaN(f) {
								ok = false
							}
						}
					}
				}
			}
			want := append([]string{}, ids...)
			sort.Strings(want)
			if ok {
				less := func(a, b qObj) bool {
					ai, bi := a.index(), b.index()
					for _, k := range append(append([]c05key{}, keys...), c05key{key: "cluster"}, c05key{key: "namespace"}, c05key{key: "name"}) {
						lt, gt := ai[k.key] < bi[k.key], ai[k.key] > bi[k.key]
						if k.num {
							x, _ := strconv.ParseFloat(ai[k.key], 64)
							y, _ := strconv.ParseFloat(bi[k.key], 64)
							lt, gt = x < y, x > y
						}
						if k.desc {
							lt, gt = gt, lt
						}
						if lt || gt {
							return lt
						}
					}
					return false
				}
				sort.SliceStable(want, func(i, j int) bool { return less(objs[want[i]], objs[want[j]]) })
			}
			for rep := 0; rep < 2; rep++ {
				res := s.Query(podGVR, store.Query{Paginate: page.Paginate{Sort: srt}})
				if !ok {
					if res.Error == nil && len(objs) > 0 {
						h.bad("invalid sort request gives no error", in, "no error", "an error")
					}
					continue
				}
				if res.Error != nil {
					h.bad("valid sort request fails", in, res.Error, want)
					continue
				}
				got := []string{}
				for _, it := range res.Items {
					o := it.(metav1.Object)
					got = append(got, o.GetAnnotations()["ckube.doacloud.io/cluster"]+"|"+o.GetNamespace()+"|"+o.GetName())
				}
				if js(got) != js(want) {
					h.bad("wrong order", in, got, want)
				}
			}
		}
	}
}
