//go:build go1.21

package zzgov

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Replay is a counterexample of the verifier.
type Replay struct {
	Harness string
	Vals    map[string][]uint64
	Byts    map[string][][]byte
}

// RunNative runs harnesses as ordinary programs: first the recorded
// counterexamples (GOV_REPLAY), then pseudo-random inputs within a time budget.
func RunNative(fns map[string]func(), logf func(string, ...interface{}), fatalf func(string, ...interface{})) {
	prop := os.Getenv("GOV_PROP")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.Atoi(os.Getenv("GOV_BUDGET_MS"))
	if ms == 0 {
		ms = 2000
	}
	var names []string
	for n := range fns {
		if strings.HasPrefix(n, "GovProve_"+prop+"_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if p := os.Getenv("GOV_REPLAY"); p != "" {
		var rs []Replay
		b, err := os.ReadFile(p)
		if err == nil && json.Unmarshal(b, &rs) == nil {
			for _, r := range rs {
				f := fns[r.Harness]
				if f == nil {
					continue
				}
				for k := int64(0); k < 20; k++ {
					in := &Inputs{Vals: map[string][]uint64{}, Byts: map[string][][]byte{}, Rng: rand.New(rand.NewSource(seed + k))}
					for n, v := range r.Vals {
						in.Vals[n] = append([]uint64(nil), v...)
					}
					for n, v := range r.Byts {
						in.Byts[n] = append([][]byte(nil), v...)
					}
					if msg, _ := run1(f, in); msg != "" {
						fatalf("GOVFAIL counterexample of the verifier replayed: harness=%s %s inputs: %s", r.Harness, msg, strings.Join(in.Trace, " "))
						return
					}
				}
			}
		}
		return
	}
	if len(names) == 0 {
		return
	}
	per := time.Duration(ms) * time.Millisecond / time.Duration(len(names))
	for _, n := range names {
		t0 := time.Now()
		runs, eff := 0, 0
		for i := int64(0); time.Since(t0) < per && i < 200000; i++ {
			in := &Inputs{Rng: rand.New(rand.NewSource(seed*1000003 + i))}
			msg, ok := run1(fns[n], in)
			runs++
			if ok {
				eff++
			}
			if msg != "" {
				fatalf("GOVFAIL harness=%s seed=%d run=%d %s inputs: %s", n, seed, i, msg, strings.Join(in.Trace, " "))
				return
			}
			if msg == "" && !ok && i > 50 && eff == 0 && time.Since(t0) > per/4 {
				break
			}
		}
		logf("GOVSTAT %s evaluations=%d distinct=%d", n, runs, eff)
	}
}

func run1(f func(), in *Inputs) (msg string, effective bool) {
	old := In
	In = in
	defer func() { In = old }()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Skip, Unsupported:
				return
			case Failure:
				msg = "assertion failed: " + x.Label
			default:
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	f()
	return "", true
}

func Print(f string, a ...interface{}) { fmt.Printf(f+"\n", a...) }
