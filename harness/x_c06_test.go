package zzverif

import (
	"fmt"
	"strings"
	"testing"

	"github.com/DaoCloud/ckube/page"
)

func TestVerifC06(t *testing.T) {
	h := vStart(t, "C06")
	vals := []string{"", "a", "ab", "web-1", `say "hi"`, `back\slash`, "semi;colon", "eq=ual", "!bang", " lead", "tab\there", "nl\n", "é", "日本", "\x00\x7f", "'", "a;b;;c", "__ckube_as__:x", "null", "UPPER"}
	keys := []string{"name", "namespace", "cluster", "app", "a b", "x!y", "dots.a/b"}
	for run := 0; run < h.n(6000, 120000); run++ {
		idx := map[string]string{}
		for _, k := range keys {
			if h.rng.Intn(3) > 0 {
				idx[k] = vals[h.rng.Intn(len(vals))]
				if h.rng.Intn(5) == 0 {
					idx[k] += vals[h.rng.Intn(len(vals))]
				}
			}
		}
		var search string
		if h.rng.Intn(3) == 0 {
			search = h.str("ab=!; n\"\\_", 12)
		} else {
			var ps []string
			for k := 1 + h.rng.Intn(4); k > 0; k-- {
				key := keys[h.rng.Intn(len(keys))]
				v := vals[h.rng.Intn(len(vals))]
				if len(v) > 1 && h.rng.Intn(2) == 0 {
					v = v[h.rng.Intn(len(v)):]
				}
				p := h.pick("", " ") + h.pick("", key+"=", key+"=", key+"=!", "!", "nokey=") + strings.ReplaceAll(v, ";", ";;") + h.pick("", " ")
				switch h.rng.Intn(7) {
				case 0:
					p = h.pick("", "  ") + "__ckube_as__:" + h.pick("name=a", "name", "!name", "app in (a,ab),name!=web-1", "app notin (a)", "cluster=", "", "app>1", "((", "name=a,name=ab", " app = ab ", "nokey!=1", "nokey=1")
				case 1:
					p = h.pick("", " ", ";;", "=", "a=", "name=", "app=!", "name==a")
				}
				ps = append(ps, p)
			}
			search = strings.Join(ps, ";") + h.pick("", "", ";", ";;", " ;")
		}
		skip := false
		for _, p := range splitSearch(search) {
			// an empty key is not covered by the statement
			if strings.HasPrefix(strings.TrimSpace(p), "=") {
				skip = true
			}
		}
		if skip {
			continue
		}
		in := map[string]interface{}{"index": idx, "search": search}
		h.one(in)
		want, bad := matchSearch(idx, search)
		got, err := (&page.Paginate{Search: search}).Match(idx)
		if bad != (err != nil) {
			h.bad("error", in, fmt.Sprint(err), fmt.Sprintf("error expected: %v", bad))
		} else if !bad && got != want {
			h.bad("match", in, got, want)
		}
		// splitting
		ws, gs := splitSearch(search), (&page.Paginate{Search: search}).SearchParts()
		if len(ws)+len(gs) > 0 && js(ws) != js(gs) {
			h.bad("split", in, gs, ws)
		}
	}
	// building and splitting
	for run := 0; run < h.n(4000, 60000); run++ {
		var parts []string
		for k := h.rng.Intn(5); k > 0; k-- {
			p := h.str("ab;;= !é", 8)
			if p == "" {
				continue
			}
			parts = append(parts, p)
		}
		h.one(map[string]interface{}{"parts": parts})
		orig := append([]string{}, parts...)
		p := page.Paginate{Page: 3, PageSize: 4, Sort: "s", Total: 7, Search: "old"}
		p.SetSearchWithParts(parts)
		got := p.SearchParts()
		same := len(got) == len(orig)
		for i := 0; same && i < len(got); i++ {
			same = strings.TrimSpace(got[i]) == strings.TrimSpace(orig[i]) // space around a part has no meaning
		}
		if !same {
			h.bad("parts do not survive building and splitting", orig, got, orig)
		}
		if js(parts) != js(orig) && len(orig) > 0 {
			h.bad("building changes the caller's parts", orig, parts, orig)
		}
		if p.Page != 3 || p.PageSize != 4 || p.Sort != "s" || p.Total != 7 {
			h.bad("building changes other fields", orig, p, "only the search")
		}
	}
}
