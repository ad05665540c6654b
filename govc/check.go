package main

// The check of one property: verification of the contracts, the concrete replay
// harness, evidence and verdict.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type harnessResult struct {
	ran      bool
	pass     bool
	failing  []string // failing inputs
	stats    map[string]int
	samples  []string
	output   string
	wall     time.Duration
	buildErr bool
	race     bool
}

// runHarness compiles the harness of the property (files *_<prop>_test.go and
// *_common_test.go of dir) into a package that exists only in an overlay of the
// repository and runs it in a scratch directory.
func runHarness(repo, dir, prop string, w *World) *harnessResult {
	hr := &harnessResult{stats: map[string]int{}, pass: true}
	t0 := time.Now()
	defer func() { hr.wall = time.Since(t0) }()
	low := strings.ToLower(prop)
	own, _ := filepath.Glob(filepath.Join(dir, "*"+low+"_test.go"))
	if len(own) == 0 {
		return hr
	}
	common, _ := filepath.Glob(filepath.Join(dir, "*_common_test.go"))
	tmp, err := os.MkdirTemp("", "verif-harness-")
	if err != nil {
		hr.output = err.Error()
		return hr
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	for _, f := range append(own, common...) {
		repl[filepath.Join(repo, "zzverif", filepath.Base(f))] = f
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	_ = os.WriteFile(ovf, ov, 0644)
	bin := filepath.Join(tmp, "harness.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	var out []byte
	if prop == "C14" {
		// with the race detector where it is available
		build := exec.Command("go", append(append([]string{}, args...), "-race", "./zzverif")...)
		build.Dir = repo
		out, err = build.CombinedOutput()
		hr.race = err == nil
	}
	if !hr.race {
		build := exec.Command("go", append(args, "./zzverif")...)
		build.Dir = repo
		out, err = build.CombinedOutput()
	}
	if err != nil {
		hr.ran, hr.pass, hr.buildErr, hr.output = true, false, true, string(out)
		return hr
	}
	run := filepath.Join(tmp, "run")
	_ = os.Mkdir(run, 0777)
	cmd := exec.Command(bin, "-test.run", "^TestVerif"+prop+"$", "-test.v", "-test.timeout=600s")
	cmd.Dir = run
	cmd.Env = append(os.Environ(), "VERIF_TMP="+run, "VERIF_REPO="+repo)
	out, err = cmd.CombinedOutput()
	hr.ran = true
	hr.output = string(out)
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "VHFAIL "); i >= 0 {
			if s, err := strconv.Unquote(l[i+7:]); err == nil {
				hr.failing = append(hr.failing, s)
			}
		}
		if i := strings.Index(l, "VHSAMPLE "); i >= 0 {
			if s, err := strconv.Unquote(l[i+9:]); err == nil && len(hr.samples) < 6 {
				hr.samples = append(hr.samples, s)
			}
		}
		if i := strings.Index(l, "VHSTAT "); i >= 0 {
			for _, f := range strings.Fields(l[i:]) {
				if j := strings.IndexByte(f, '='); j > 0 {
					n, _ := strconv.Atoi(f[j+1:])
					hr.stats[f[:j]] += n
				}
			}
		}
	}
	if err != nil {
		hr.pass = false
		if len(hr.failing) == 0 {
			if strings.Contains(hr.output, "panic:") || strings.Contains(hr.output, "fatal error:") || strings.Contains(hr.output, "--- FAIL: TestVerif") || strings.Contains(hr.output, "WARNING: DATA RACE") {
				i := strings.Index(hr.output, "panic:")
				for _, m := range []string{"fatal error:", "WARNING: DATA RACE"} {
					if j := strings.Index(hr.output, m); j >= 0 {
						i = j
					}
				}
				if i < 0 {
					i = 0
				}
				e := i + 1500
				if e > len(hr.output) {
					e = len(hr.output)
				}
				hr.failing = append(hr.failing, "the real code crashes, races or fails under the harness: "+hr.output[i:e])
			} else {
				hr.buildErr = true
			}
		}
	}
	return hr
}

type checkCfg struct {
	repo, verif, prop, tier string
	seed                    int
	ms                      int
}

func runCheck(c checkCfg) int {
	t0 := time.Now()
	hdone := make(chan *harnessResult, 1)
	go func() { hdone <- runHarness(c.repo, filepath.Join(c.verif, "harness"), c.prop, nil) }()
	w, err := loadWorld(c.repo, filepath.Join(c.verif, "contracts"))
	var rs []*Result
	loadErr := ""
	if err != nil {
		loadErr = err.Error()
	} else {
		w.solver = NewSolver(8)
		if c.tier != "thorough" {
			w.solver.deadline = t0.Add(600 * time.Second)
		}
		rs = w.run(c.prop, "", c.ms)
		w.solver.Close()
	}
	hr := <-hdone
	// verdict
	obs, dis := 0, 0
	var failed []string
	var fns []map[string]interface{}
	backs := map[string]int{}
	assumed := map[string]bool{}
	inl := map[string]bool{}
	var solverT time.Duration
	inv, vcs := 0, 0
	if loadErr != "" {
		failed = append(failed, "the contracts do not match the current tree: "+loadErr)
	}
	for _, r := range rs {
		printResult(r, false)
		f := map[string]interface{}{"function": r.Fn, "contract": r.C.Name, "obligations": len(r.Obs), "vcs": r.VCs, "loop_invariants": r.InvOK / 2, "normal_exits": r.Exits, "panic_exits": r.Panics, "wall_s": round3(r.Wall)}
		fns = append(fns, f)
		if r.Err != "" {
			failed = append(failed, r.C.Name+": "+r.Err)
			obs++
		}
		if r.Vacuous != "" {
			failed = append(failed, r.C.Name+": vacuous: "+r.Vacuous)
			obs++
		}
		vcs += r.VCs
		inv += r.InvOK
		obs += r.InvOK
		dis += r.InvOK
		for _, o := range r.Obs {
			obs++
			solverT += o.Time
			for b, n := range o.Back {
				if b != "" {
					backs[b] += n
				}
			}
			if o.Proved {
				dis++
				continue
			}
			n := 0
			why := ""
			for _, v := range o.VCs {
				if !v.V.Proved {
					n++
					if why == "" {
						why = v.V.Reason + "; goal: " + v.Goal.String()
					}
				}
			}
			failed = append(failed, fmt.Sprintf("%s: not discharged on %d of %d paths (%s)", o.ID, n, len(o.VCs), why))
		}
		for a := range r.Assumed {
			assumed[a] = true
		}
		for a := range r.Inlined {
			inl[a] = true
		}
	}
	if loadErr == "" && len(rs) == 0 {
		failed = append(failed, "no contract states this property")
	}
	var asl []string
	for a := range assumed {
		asl = append(asl, a)
	}
	asl = append(asl, generalAssumptions...)
	if w != nil {
		for _, a := range w.axioms {
			if a.activeFor(c.prop) {
				asl = append(asl, "axiom: "+strings.TrimSpace(a.Label+" "+a.Text))
			}
		}
	}
	sort.Strings(asl)
	var inlL []string
	for a := range inl {
		inlL = append(inlL, a)
	}
	sort.Strings(inlL)
	viol := 0
	rdir := filepath.Join(c.verif, "work", "replay")
	_ = os.MkdirAll(rdir, 0755)
	rpath := filepath.Join(rdir, c.prop+".txt")
	_ = os.Remove(rpath)
	code := 0
	var rb bytes.Buffer
	if len(failed) > 0 {
		fmt.Fprintf(&rb, "Obligations of property %s that the verifier did not accept:\n", c.prop)
		for _, f := range failed {
			fmt.Fprintf(&rb, "  %s\n", f)
		}
	}
	if len(hr.failing) > 0 {
		fmt.Fprintf(&rb, "\nFailing inputs on the real code (replay: VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s):\n", c.seed, c.tier, c.verif, c.prop)
		for _, f := range hr.failing {
			fmt.Fprintf(&rb, "  %s\n", f)
		}
	}
	if hr.buildErr {
		fmt.Fprintf(&rb, "\nThe replay harness does not build against the current tree:\n%s\n", tail(hr.output, 3000))
	}
	switch {
	case len(hr.failing) > 0:
		_ = os.WriteFile(rpath, rb.Bytes(), 0644)
		fmt.Print(rb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rpath)
		code = 1
		viol = len(hr.failing)
	case len(failed) > 0:
		_ = os.WriteFile(rpath, rb.Bytes(), 0644)
		fmt.Print(rb.String())
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, rpath)
		code = 1
		viol = len(failed)
	}
	var samples []string
	for _, r := range rs {
		for _, o := range r.Obs {
			if len(samples) < 8 {
				samples = append(samples, o.ID)
			}
		}
	}
	cov := map[string]interface{}{
		"obligations":                obs,
		"discharged":                 dis,
		"checker_cmd":                fmt.Sprintf("/verif/check.sh %s (govc: verification conditions from go/ssa of /repo, discharged by z3-new 4.x, z3 4.8.12, cvc5 1.1.2)", c.prop),
		"trusted_base":               []string{"govc (translation of go/ssa to verification conditions, /verif/govc)", "golang.org/x/tools go/packages and go/ssa", "z3 / cvc5", "the Go compiler"},
		"functions_under_contract":   fns,
		"functions_inlined":          inlL,
		"verification_conditions":    vcs,
		"loop_invariant_obligations": inv,
		"discharged_by":              backs,
		"solver_s":                   round3(solverT),
		"samples":                    samples,
	}
	if hr.ran {
		cov["bounded_replay"] = map[string]interface{}{"label": "bounded: concrete runs of the real code, not counted as proved", "cases": hr.stats["cases"], "distinct": hr.stats["distinct"], "passed": hr.pass, "wall_s": round3(hr.wall), "samples": hr.samples, "builds": !hr.buildErr}
	}
	ev := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof", "coverage": cov, "assumptions": asl, "wall_s": round3(time.Since(t0)), "violations": viol}
	bs, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), bs, 0644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %d bounded cases, %v\n", c.prop, len(rs), dis, obs, hr.stats["cases"], time.Since(t0).Round(time.Millisecond))
	return code
}

var generalAssumptions = []string{
	"machine integers wrap (modelled), lengths are below 2^62, strings are sequences of bytes, floats are reals with NaN handled by an uninterpreted predicate",
	"functions outside the repository do not change the repository's state and return as their Go types allow, unless a contract says otherwise; their interface and pointer variables are not nil",
	"paths that panic are excluded unless the contract says nopanic; unknown callbacks do not panic unless their contract says maypanic",
	"no data races (C14 covers the shared state); goroutines are verified separately",
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func round3(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }
