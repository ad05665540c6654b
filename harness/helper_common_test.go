package zzverif

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type vH struct {
	t     *testing.T
	rng   *rand.Rand
	cases int
	seen  map[string]bool
	thor  bool
	name  string
	nfail int
}

// vStart: deterministic source from VERIF_SEED, tier from VERIF_TIER.
func vStart(t *testing.T, name string) *vH {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := &vH{t: t, rng: rand.New(rand.NewSource(seed + 7)), seen: map[string]bool{}, thor: os.Getenv("VERIF_TIER") == "thorough", name: name}
	t.Cleanup(func() { fmt.Printf("VHSTAT %s cases=%d distinct=%d\n", name, h.cases, len(h.seen)) })
	return h
}

func (h *vH) n(quick, thorough int) int {
	if h.thor {
		return thorough
	}
	return quick
}

func (h *vH) one(input interface{}) {
	h.cases++
	if len(h.seen) < 2000000 {
		s, ok := input.(string)
		if !ok {
			b, _ := json.Marshal(input)
			s = string(b)
		}
		if len(h.seen) == 3 && h.cases < 2000 {
			fmt.Printf("VHSAMPLE %s\n", strconv.Quote(s))
		}
		h.seen[s] = true
	}
}

// bad reports a failing input of the real code.
func (h *vH) bad(what string, input interface{}, got, want interface{}) {
	h.nfail++
	if h.nfail > 5 {
		return
	}
	s, ok := input.(string)
	if !ok {
		b, _ := json.Marshal(input)
		s = string(b)
	}
	fmt.Printf("VHFAIL %s\n", strconv.Quote(fmt.Sprintf("%s: %s | input: %s | got: %v | want: %v", h.name, what, s, got, want)))
	h.t.Fail()
}

func (h *vH) pick(xs ...string) string { return xs[h.rng.Intn(len(xs))] }
func (h *vH) str(alphabet string, max int) string {
	n := h.rng.Intn(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[h.rng.Intn(len(alphabet))]
	}
	return string(b)
}
