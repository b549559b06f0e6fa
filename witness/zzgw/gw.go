//go:build go1.21

// Package zzgw: helpers of the native (bounded) runs.
package zzgw

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

type TB interface {
	Helper()
	Fatalf(string, ...interface{})
	Logf(string, ...interface{})
	TempDir() string
	Name() string
}

func Seed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if s == 0 {
		s = 1
	}
	return s
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Budget is the time one test may spend on random exploration.
func Budget() time.Duration {
	ms, _ := strconv.Atoi(os.Getenv("GOV_BUDGET_MS"))
	if ms == 0 {
		ms = 3000
	}
	return time.Duration(ms) * time.Millisecond
}

// Loop runs body with fresh generators until the budget is used up (at least
// min times, at most max) and prints how many cases ran.
func Loop(t TB, min, max int, body func(i int, r *rand.Rand)) {
	LoopB(t, Budget(), min, max, body)
}

func LoopB(t TB, budget time.Duration, min, max int, body func(i int, r *rand.Rand)) {
	t0 := time.Now()
	i := 0
	for ; i < max && (i < min || time.Since(t0) < budget); i++ {
		body(i, rand.New(rand.NewSource(Seed()*7919+int64(i))))
	}
	Stat(t, i, i)
}

func Stat(t TB, evals, distinct int) {
	fmt.Printf("GOVSTAT %s evaluations=%d distinct=%d\n", t.Name(), evals, distinct)
}

// Scratch is a directory which is removed at the end of the test. It lies on a
// file system which supports O_DIRECT if one is around.
func Scratch(t TB) string {
	d := t.TempDir()
	return d
}

func Path(t TB, name string) string { return filepath.Join(Scratch(t), name) }
