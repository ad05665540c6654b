package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "only contracts whose name contains this")
	ms := flag.Int("ms", 20000, "solver limit per obligation (ms)")
	list := flag.Bool("list", false, "list contracts")
	verbose := flag.Bool("v", false, "verbose")
	check := flag.String("check", "", "check a property: verification, replay harness, evidence, verdict")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	if *check != "" {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		lim := *ms
		if tier == "thorough" {
			lim *= 4
		}
		os.Exit(runCheck(checkCfg{*repo, *verif, *check, tier, seed, lim}))
	}
	t0 := time.Now()
	w, err := loadWorld(*repo, *specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	w.solver = NewSolver(8)
	defer w.solver.Close()
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	if *list {
		for k, c := range w.contracts {
			fmt.Println(k, len(c.Ensures), c.Trusted)
		}
		return
	}
	rs := w.run(*prop, *only, *ms)
	bad := 0
	for _, r := range rs {
		printResult(r, *verbose)
		if !r.ok() {
			bad++
		}
	}
	fmt.Printf("%d functions, %d not verified, %v\n", len(rs), bad, time.Since(t0))
	if bad > 0 {
		os.Exit(1)
	}
}

func printResult(r *Result, verbose bool) {
	st := "ok"
	if !r.ok() {
		st = "FAILED"
	}
	fmt.Printf("%-6s %s: %d obligations, %d VCs, %d invariants, %d exits, %d panic exits, %d steps, %v %s %s\n", st, r.C.Name, len(r.Obs), r.VCs, r.InvOK, r.Exits, r.Panics, r.Steps, r.Wall.Round(time.Millisecond), r.Err, r.Vacuous)
	for _, o := range r.Obs {
		if !o.Proved || verbose {
			n := 0
			reason := ""
			for _, v := range o.VCs {
				if !v.V.Proved {
					n++
					reason = v.V.Reason
					if os.Getenv("GOVC_VC") != "" {
						fmt.Printf("    VC goal %s\n      trace %v\n", v.Goal, v.Trace)
						for _, a := range v.Assume {
							fmt.Printf("      | %s\n", a)
						}
					}
				}
			}
			fmt.Printf("    %v %s: %d of %d VCs unproved %s %v\n", o.Proved, o.ID, n, len(o.VCs), reason, o.Back)
		}
	}
	if verbose {
		for l, n := range r.LoopInv {
			fmt.Printf("    loop %s: %s\n", l, strings.Join(n, "; "))
		}
	}
}

// run verifies every contract that states the property and, transitively, the
// contracts those proofs use.
func (w *World) run(prop, only string, ms int) []*Result {
	var todo []*Contract
	done := map[*Contract]bool{}
	var keys []string
	for k := range w.contracts {
		keys = append(keys, k)
	}
	for c := range w.missing {
		if len(c.active(prop)) > 0 && (only == "" || strings.Contains(c.Header, only)) {
			todo = append(todo, c)
		}
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].Header < todo[j].Header })
	sort.Strings(keys)
	for _, k := range keys {
		c := w.contracts[k]
		if c.Trusted || c.Iface || c.kind == "recv" || c.kind == "send" || c.kind == "close" || c.kind == "go" || c.kind == "callback" {
			continue
		}
		tagged := false
		for _, cl := range c.active(prop) {
			if cl.Kind == "nopanic" {
				tagged = true
			}
			for _, p := range cl.Props {
				if p == prop {
					tagged = true
				}
			}
		}
		if prop == "" {
			tagged = true
		}
		if tagged && (only == "" || strings.Contains(c.Name, only)) {
			todo = append(todo, c)
		}
	}
	var out []*Result
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if done[c] {
			continue
		}
		done[c] = true
		r := w.verify(c, prop, ms)
		out = append(out, r)
		if only != "" {
			continue
		}
		var us []string
		for k := range r.Used {
			us = append(us, k)
		}
		sort.Strings(us)
		for _, k := range us {
			u := w.contracts[k]
			if u == nil || u.Trusted || u.Iface || done[u] || u.kind == "recv" || u.kind == "send" || u.kind == "close" || u.kind == "go" || u.kind == "callback" {
				continue
			}
			todo = append(todo, u)
		}
	}
	if only == "" {
		// a callback contract decides nothing if no function is ever registered under it
		for _, k := range keys {
			c := w.contracts[k]
			if c.kind != "callback" || len(c.active(prop)) == 0 {
				continue
			}
			n := 0
			for _, r := range out {
				n += r.Callbacks[k]
			}
			if n == 0 {
				out = append(out, &Result{C: c, Err: "no function is registered under this contract"})
			}
		}
	}
	return out
}
