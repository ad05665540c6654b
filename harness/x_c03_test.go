package zzverif

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"testing"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

// c03window: the elements (p-1)*s .. p*s of a result of n, clipped.
func c03window(n int, p, s int64) (int, int) {
	if p == 0 || s == 0 {
		return 0, n
	}
	clip := func(x *big.Int) int {
		if x.Cmp(big.NewInt(int64(n))) > 0 {
			return n
		}
		return int(x.Int64())
	}
	a := new(big.Int).Mul(big.NewInt(p-1), big.NewInt(s))
	b := new(big.Int).Mul(big.NewInt(p), big.NewInt(s))
	return clip(a), clip(b)
}

func TestVerifC03(t *testing.T) {
	h := vStart(t, "C03")
	initCfg("default", "")
	ext := []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 2, math.MaxInt64/2 + 2, 1 << 32, 1<<32 + 1, 1 << 33, 3037000500, 1 << 62, math.MinInt64, math.MinInt64 + 1, -1, -2, -7, 6148914691236517206, 4611686018427387905}
	num := func(n int) int64 {
		if h.rng.Intn(2) == 0 {
			return int64(1 + h.rng.Intn(4))
		}
		if h.rng.Intn(3) == 0 {
			return ext[h.rng.Intn(len(ext))]
		}
		return int64(h.rng.Intn(n + 4))
	}
	for run := 0; run < h.n(150, 1500); run++ {
		s := newStore()
		hd, _ := newHandler(s, nil)
		n := h.rng.Intn(20)
		sel := []string{}
		for i := 0; i < n; i++ {
			o := qObj{"default", h.pick("a", "b"), fmt.Sprintf("n%02d", i), map[string]string{"app": h.pick("web", "db")}}
			_ = s.OnResourceAdded(podGVR, o.Cluster, o.pod())
		}
		_ = sel
		for q := 0; q < 14; q++ {
			p, sz := num(n), num(n)
			pg := page.Paginate{Page: p, PageSize: sz, Sort: h.pick("", "app desc", "name desc"), Search: h.pick("", "", "n0", "app=web", "zzz")}
			lsel := h.pick("", "", "app=web", "app=web", "app!=web", "app in (web,db)", "!nosuch", "app=none")
			in := map[string]interface{}{"page": p, "size": sz, "search": pg.Search, "sort": pg.Sort, "selector": lsel, "objects": n}
			h.one(in)
			// directly on the store
			all := s.Query(podGVR, store.Query{Paginate: page.Paginate{Sort: pg.Sort, Search: pg.Search}})
			var res store.QueryResult
			crashed := func() (c interface{}) {
				defer func() { c = recover() }()
				res = s.Query(podGVR, store.Query{Paginate: pg})
				return nil
			}()
			if crashed != nil {
				h.bad("the store crashes", in, crashed, "a page")
				continue
			}
			if p < 0 || sz < 0 {
				if res.Error == nil {
					h.bad("negative page or size is no error", in, "no error", "error")
				}
			} else if all.Error == nil {
				a, b := c03window(len(all.Items), p, sz)
				want, got := []string{}, []string{}
				for _, it := range all.Items[a:b] {
					want = append(want, objID(it))
				}
				for _, it := range res.Items {
					got = append(got, objID(it))
				}
				if res.Error != nil || js(got) != js(want) || res.Total != int64(len(all.Items)) {
					h.bad("store: not the window of the full result", in, fmt.Sprint(got, res.Total, res.Error), fmt.Sprint(want, len(all.Items)))
				}
			}
			// and through a list request
			list := func(pg page.Paginate) ([]string, int, string) {
				ls, err := selectorFor(lsel, pg)
				if err != nil {
					return nil, -1, err.Error()
				}
				w := do(hd, "GET", "/api/v1/pods?labelSelector="+url.QueryEscape(ls), "")
				var l struct {
					Items    []json.RawMessage
					Metadata struct{ RemainingItemCount int64 }
				}
				_ = json.Unmarshal(w.Body.Bytes(), &l)
				ids := []string{}
				for _, r := range l.Items {
					ids = append(ids, string(r))
				}
				return ids, w.Code, w.Body.String()
			}
			full := page.Paginate{Sort: pg.Sort, Search: pg.Search}
			fids, code, body := list(full)
			if code != 200 {
				if code != -1 {
					h.bad("full list fails", in, body, 200)
				}
				continue
			}
			ids, code, body := list(pg)
			if code == -1 {
				continue
			}
			if p < 0 || sz < 0 {
				if code < 400 {
					h.bad("list: negative page or size is no error", in, fmt.Sprint(code, " ", body), "error")
				}
				continue
			}
			a, b := c03window(len(fids), p, sz)
			if a == b && p > 1 && sz > 0 {
				// beyond the end: an error instead of a list, never elements
				if len(ids) > 0 || code == 500 {
					h.bad("list: elements or a crash beyond the end", in, fmt.Sprint(code, " ", body), "no elements")
				}
				continue
			}
			if code != 200 || js(ids) != js(fids[a:b]) {
				h.bad("list: not the window of the full list", in, fmt.Sprint(code, ids), fids[a:b])
			}
		}
	}
}
