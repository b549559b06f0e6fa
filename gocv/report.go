package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ------------------------------------------------------------ native runs
//
// A native run executes ordinary Go programs against the real code: contract
// harnesses marked //gov:native on concrete inputs (among them the verifier's
// counterexamples), and the bounded stand-ins of /verif/witness.

type nativePkg struct {
	dir     string            // package directory, relative to the repository
	files   map[string]string // witness file in /repo -> in /verif
	harness []string          // native harnesses
	race    bool
	dropped []string
	out     string
	failed  []nativeFail
	err     string
	stats   []string
	ran     bool
	wall    time.Duration
}

type nativeFail struct {
	Test   string
	Output string
	Pkg    string
}

var testRe = regexp.MustCompile(`(?m)^func (TestGov_(C[0-9]+)_\w+)\(`)

func (w *World) nativePackages(prop string) []*nativePkg {
	m := map[string]*nativePkg{}
	get := func(dir string) *nativePkg {
		if m[dir] == nil {
			m[dir] = &nativePkg{dir: dir, files: map[string]string{}}
		}
		return m[dir]
	}
	root := filepath.Join(verifDir, "witness")
	all := map[string]map[string]string{}
	has := map[string]bool{}
	race := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir := filepath.Dir(rel)
		if dir == "zzgw" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		if all[dir] == nil {
			all[dir] = map[string]string{}
		}
		all[dir][filepath.Join(repoDir, rel)] = p
		for _, x := range testRe.FindAllSubmatch(b, -1) {
			if string(x[2]) == prop {
				has[dir] = true
				if bytes.Contains(b, []byte("//gov:race")) {
					race[dir] = true
				}
			}
		}
		return nil
	})
	for dir := range has {
		p := get(dir)
		p.files = all[dir]
		p.race = race[dir]
	}
	for _, h := range w.harness {
		if h.Prop == prop && h.Native && h.Dropped == "" {
			get(strings.TrimPrefix(strings.TrimPrefix(h.Pkg, modPath), "/")).harness = append(get(strings.TrimPrefix(strings.TrimPrefix(h.Pkg, modPath), "/")).harness, h.Name)
		}
	}
	var r []*nativePkg
	for _, p := range m {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].dir < r[j].dir })
	return r
}

func pkgNameOf(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(repoDir, dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b); m != nil {
			return string(m[1])
		}
	}
	return filepath.Base(dir)
}

// runNative builds and runs the test binary of one package.
func (w *World) runNative(p *nativePkg, prop string, o options, replay string, budget time.Duration, tmp string) {
	t0 := time.Now()
	defer func() { p.wall = time.Since(t0) }()
	over := map[string]string{}
	if len(p.harness) > 0 {
		for dst, src := range w.overlayFiles {
			over[dst] = src
		}
	}
	over[filepath.Join(repoDir, "zzgov", "gov.go")] = filepath.Join(verifDir, "gov", "gov.go")
	over[filepath.Join(repoDir, "zzgov", "native.go")] = filepath.Join(verifDir, "gov", "native.go")
	gw, _ := filepath.Glob(filepath.Join(verifDir, "witness", "zzgw", "*.go"))
	for _, f := range gw {
		over[filepath.Join(repoDir, "zzgw", filepath.Base(f))] = f
	}
	if len(p.harness) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport (\n\t\"testing\"\n\n\tgovrt \"%s/zzgov\"\n)\n\nfunc TestGov_%s_native(t *testing.T) {\n\tgovrt.RunNative(map[string]func(){\n", pkgNameOf(p.dir), modPath, prop)
		for _, h := range p.harness {
			fmt.Fprintf(&b, "\t\t%q: %s,\n", h, h)
		}
		fmt.Fprintf(&b, "\t}, func(f string, a ...interface{}) { t.Logf(f, a...); govrt.Print(f, a...) }, t.Fatalf)\n}\n")
		f := filepath.Join(tmp, strings.ReplaceAll(p.dir, "/", "_")+"_run_test.go")
		os.WriteFile(f, []byte(b.String()), 0o644)
		over[filepath.Join(repoDir, p.dir, "zz_gov_run_test.go")] = f
	}
	files := map[string]string{}
	if replay == "" {
		for k, v := range p.files {
			files[k] = v
		}
	}
	bin := filepath.Join(tmp, strings.ReplaceAll(p.dir, "/", "_")+fmt.Sprintf("_%d.test", time.Now().UnixNano()))
	for round := 0; ; round++ {
		ov := map[string]map[string]string{"Replace": {}}
		for k, v := range over {
			ov["Replace"][k] = v
		}
		for k, v := range files {
			ov["Replace"][k] = v
		}
		j, _ := json.Marshal(ov)
		of := bin + ".overlay.json"
		os.WriteFile(of, j, 0o644)
		args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
		if p.race {
			args = append(args, "-race")
		}
		args = append(args, "./"+p.dir)
		cmd := exec.Command("go", args...)
		cmd.Dir = repoDir
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		// drop the witness files which do not compile against this tree
		removed := false
		for dst := range files {
			base := filepath.Base(dst)
			srcb := filepath.Base(files[dst])
			if bytes.Contains(out, []byte("/"+base+":")) || bytes.Contains(out, []byte(files[dst]+":")) || bytes.Contains(out, []byte(srcb+":")) {
				p.dropped = append(p.dropped, base)
				delete(files, dst)
				removed = true
			}
		}
		if !removed || round > 8 {
			p.err = "native test binary does not build: " + tail(string(out), 1500)
			return
		}
	}
	if len(files) == 0 && len(p.harness) == 0 {
		p.err = "no witness file compiles against this tree"
		return
	}
	limit := 300*time.Second + 8*budget
	ctx, cancel := context.WithTimeout(context.Background(), limit+30*time.Second)
	defer cancel()
	run := "^TestGov_" + prop + "_"
	// every test runs in a process of its own: one that panics does not hide the others
	lc := exec.CommandContext(ctx, bin, "-test.list", run)
	lc.Dir = tmp
	lo, _ := lc.Output()
	var names []string
	for _, l := range strings.Split(string(lo), "\n") {
		if strings.HasPrefix(l, "TestGov_") {
			names = append(names, strings.TrimSpace(l))
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, n := range names {
		n := n
		wg.Add(1)
		go func() {
			defer wg.Done()
			nativeSem <- struct{}{}
			defer func() { <-nativeSem }()
			wd, _ := os.MkdirTemp(tmp, "run")
			cmd := exec.CommandContext(ctx, bin, "-test.run", "^"+n+"$", "-test.count=1", "-test.timeout", limit.String())
			cmd.Dir = wd
			cmd.Env = append(os.Environ(), "GOV_PROP="+prop, "VERIF_SEED="+strconv.FormatInt(o.seed, 10), "VERIF_TIER="+o.tier, "TMPDIR="+wd,
				fmt.Sprintf("GOV_BUDGET_MS=%d", budget.Milliseconds()), "GOV_REPLAY="+replay, "GOTRACEBACK=all")
			out, err := cmd.CombinedOutput()
			os.RemoveAll(wd)
			mu.Lock()
			defer mu.Unlock()
			p.ran = true
			for _, l := range strings.Split(string(out), "\n") {
				if i := strings.Index(l, "GOVSTAT "); i >= 0 {
					p.stats = append(p.stats, l[i+8:])
				}
			}
			if err != nil {
				p.failed = append(p.failed, nativeFail{Test: n, Output: headTail(string(out), 6000), Pkg: p.dir})
			}
		}()
	}
	wg.Wait()
	sort.Strings(p.stats)
	sort.Slice(p.failed, func(i, j int) bool { return p.failed[i].Test < p.failed[j].Test })
	os.Remove(bin)
}

var nativeSem = make(chan struct{}, 6)

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func headTail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func (w *World) startNative(o options) (wait func() []*nativePkg) {
	ps := w.nativePackages(o.prop)
	if len(ps) == 0 || o.noWitness {
		return func() []*nativePkg { return nil }
	}
	tmp, err := os.MkdirTemp("", "gocv-native")
	if err != nil {
		return func() []*nativePkg { return nil }
	}
	budget := 8 * time.Second
	if o.tier == "thorough" {
		budget = 90 * time.Second
	}
	var wg sync.WaitGroup
	for _, p := range ps {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.runNative(p, o.prop, o, "", budget, tmp)
		}()
	}
	return func() []*nativePkg {
		wg.Wait()
		os.RemoveAll(tmp)
		return ps
	}
}

// replayModels runs the counterexamples of failed obligations natively.
func (w *World) replayModels(o options, rp *Report) []nativeFail {
	type rep struct {
		Harness string
		Vals    map[string][]uint64
		Byts    map[string][][]byte
	}
	byPkg := map[string][]rep{}
	hs := map[string]*Harness{}
	for _, h := range w.harness {
		hs[h.Name] = h
	}
	for _, v := range rp.failed {
		h := hs[v.Harness]
		if h == nil || !h.Native || len(v.vals) == 0 {
			continue
		}
		r := rep{Harness: v.Harness, Vals: map[string][]uint64{}, Byts: map[string][][]byte{}}
		names := inputNames(v.inputs)
		for i, in := range v.inputs {
			switch {
			case in.n != nil:
				n, err := strconv.ParseUint(v.vals[names[i]+".len"], 10, 64)
				if err != nil || n > 1<<20 {
					continue
				}
				b := make([]byte, n)
				for k := range b {
					if k < 48 {
						x, _ := strconv.ParseUint(v.vals[fmt.Sprintf("%s.%d", names[i], k)], 10, 64)
						b[k] = byte(x)
					}
				}
				r.Byts[in.name] = append(r.Byts[in.name], b)
			case in.kind == "choice":
				r.Vals[in.name] = append(r.Vals[in.name], in.t.val)
			default:
				x, _ := strconv.ParseUint(v.vals[names[i]], 10, 64)
				r.Vals[in.name] = append(r.Vals[in.name], x)
			}
		}
		k := strings.TrimPrefix(strings.TrimPrefix(h.Pkg, modPath), "/")
		byPkg[k] = append(byPkg[k], r)
	}
	var out []nativeFail
	for dir, rs := range byPkg {
		tmp, err := os.MkdirTemp("", "gocv-replay")
		if err != nil {
			continue
		}
		j, _ := json.Marshal(rs)
		f := filepath.Join(tmp, "replay.json")
		os.WriteFile(f, j, 0o644)
		var p *nativePkg
		for _, q := range w.nativePackages(o.prop) {
			if q.dir == dir {
				p = q
			}
		}
		if p != nil && len(p.harness) > 0 {
			w.runNative(p, o.prop, o, f, 5*time.Second, tmp)
			for _, x := range p.failed {
				if strings.HasSuffix(x.Test, "_native") {
					out = append(out, x)
				}
			}
		}
		os.RemoveAll(tmp)
	}
	return out
}

// ------------------------------------------------------------ known findings

type finding struct{ prop, key, text string }

// knownFindings: lines "known: property=<id> key=<substring> <text>".
func knownFindings(prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN-FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var r []finding
	re := regexp.MustCompile(`^known: property=(\S+) key="([^"]+)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			r = append(r, finding{m[1], m[2], m[3]})
		}
	}
	return r
}

// ------------------------------------------------------------ the verdict

func (rp *Report) finish(o options, t0 time.Time, natives []*nativePkg) int {
	w := rp.w
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	rp.print(o)

	var bad []*VC
	bad = append(bad, rp.failed...)
	var nf []nativeFail
	for _, p := range natives {
		nf = append(nf, p.failed...)
		for _, s := range p.stats {
			fmt.Println("native:", s)
		}
		if p.err != "" {
			fmt.Println("native:", p.dir, p.err)
		}
	}
	if len(bad) > 0 && len(nf) == 0 && !o.noWitness {
		nf = w.replayModels(o, rp)
	}
	known := knownFindings(o.prop)
	violations := 0
	usedKnown := map[string]bool{}
	isKnown := func(s string) bool {
		for _, k := range known {
			if strings.Contains(s, k.key) {
				usedKnown[k.key] = true
				return true
			}
		}
		return false
	}
	for i, f := range nf {
		if isKnown(f.Test) {
			continue
		}
		violations++
		path := filepath.Join(dir, "replay", fmt.Sprintf("%s-native-%d.txt", o.prop, i))
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\nfailing run against the real code: %s in package %s (seed %d)\n", o.prop, f.Test, f.Pkg, o.seed)
		fmt.Fprintf(&b, "rerun: VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s\n", o.seed, o.tier, verifDir, o.prop)
		for _, v := range bad {
			fmt.Fprintf(&b, "failed obligation: %s: %s at %s [%s] %s\n", v.Harness, v.Label, v.Pos, v.Status, modelStr(v))
		}
		fmt.Fprintf(&b, "\n%s\n", f.Output)
		os.WriteFile(path, []byte(b.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
	}
	if len(nf) == 0 {
		seen := map[string]bool{}
		n := 0
		for _, v := range bad {
			k := v.Harness + ": " + v.Label
			if seen[k] || isKnown(k) {
				continue
			}
			seen[k] = true
			if n++; n > 8 {
				break
			}
			violations++
			path := filepath.Join(dir, "replay", fmt.Sprintf("%s-obligation-%d.txt", o.prop, n))
			var b strings.Builder
			fmt.Fprintf(&b, "property %s\nfailed obligation: %s: %s\nat %s\nstatus: %s (back end %s, %d ms)\ncounterexample of the verifier: %s\npath: %s\n", o.prop, v.Harness, v.Label, v.Pos, v.Status, v.By, v.Ms, modelStr(v), strings.Join(v.trace, "; "))
			fmt.Fprintf(&b, "\nNo failing input was found by the native runs.\nVerifier output:\n%s\n", headTail(v.Model, 4000))
			os.WriteFile(path, []byte(b.String()), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", o.prop, path)
		}
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.text)
	}
	for _, e := range rp.errs {
		fmt.Println("UNDECIDED", e)
	}

	// evidence
	fns := map[string]bool{}
	specs := map[string]bool{}
	trusted := map[string]bool{}
	invs := map[string]bool{}
	proved := map[string]bool{}
	var hs []map[string]interface{}
	var bounded []string
	for _, h := range w.harness {
		if h.Dropped == "" {
			for _, p := range h.Proves {
				proved[p] = true
			}
		}
	}
	paths, steps := 0, 0
	for _, r := range rp.res {
		for f := range r.Fns {
			if !strings.Contains(f, "GovProve") && !strings.Contains(f, "zzgov") {
				fns[f] = true
			}
		}
		for f := range r.Specs {
			specs[f] = true
		}
		for f := range r.Trusted {
			trusted[f] = true
		}
		for f := range r.Invs {
			invs[f] = true
		}
		paths += r.Paths
		steps += r.Steps
		if r.H.Bounded != "" {
			bounded = append(bounded, r.H.Name+": "+r.H.Bounded)
		}
		ok := r.Trivial
		for _, v := range r.VCs {
			if v.Status == "discharged" {
				ok++
			}
		}
		st := "all obligations discharged"
		if r.Err != "" {
			st = "undecided: " + strings.SplitN(r.Err, "\n", 2)[0]
		} else if ok < r.Trivial+len(r.VCs) {
			st = "failed"
		}
		hs = append(hs, map[string]interface{}{"harness": r.H.Name, "proves": r.H.Proves, "obligations": r.Trivial + len(r.VCs), "discharged": ok, "status": st, "seconds": round1(r.Wall.Seconds())})
	}
	var assumed []string
	for s := range specs {
		if proved[s] {
			continue
		}
		assumed = append(assumed, "contract used without a proof harness: "+s)
	}
	sort.Strings(assumed)
	var nat []map[string]interface{}
	var evals int
	for _, p := range natives {
		for _, s := range p.stats {
			var e, d int
			if i := strings.Index(s, "evaluations="); i >= 0 {
				fmt.Sscanf(s[i:], "evaluations=%d distinct=%d", &e, &d)
			}
			evals += e
		}
		m := map[string]interface{}{"package": p.dir, "runs": p.stats, "seconds": round1(p.wall.Seconds())}
		if len(p.dropped) > 0 {
			m["dropped_files"] = p.dropped
		}
		if p.err != "" {
			m["error"] = tail(p.err, 300)
		}
		nat = append(nat, m)
	}
	secs := map[string]float64{}
	for i, b := range backends {
		secs[b] = round1(float64(atomic.LoadInt64(&solverNanos[i])) / 1e9)
	}
	tb := append([]string{
		"gocv (this verifier: go/ssa symbolic execution, term simplifier, quantifier instantiation)",
		"golang.org/x/tools/go/ssa and the Go type checker",
		"z3 4.8.12, z3-new, cvc5 1.1.2",
		"go-judy (Judy1/JudyL), assumed to be exact ordered sets and maps",
	}, set(trusted)...)
	cov := map[string]interface{}{
		"obligations": rp.obligations, "discharged": rp.discharged,
		"checker_cmd":              fmt.Sprintf("cd %s && ./check.sh %s", verifDir, o.prop),
		"trusted_base":             tb,
		"by_back_end":              rp.by,
		"solver_seconds":           secs,
		"harnesses":                hs,
		"functions_verified":       bset(fns),
		"contracts_used":           bset(specs),
		"loop_invariants":          bset(invs),
		"paths":                    paths,
		"instructions_interpreted": steps,
		"undecided":                rp.errs,
		"bounded_stand_ins":        nat,
		"bounded_evaluations":      evals,
		"bounded_proofs":           bounded,
	}
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "proof",
		"coverage": cov, "wall_s": round1(time.Since(t0).Seconds()), "violations": violations,
		"assumptions": append(append([]string{
			"int, uintptr and pointers are 64 bit; memory allocation does not fail",
			"metrics, logging and time have no effect on the state",
		}, assumed...), w.warnings...),
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, o.prop+".json"), append(j, '\n'), 0o644)
	fmt.Printf("%s: obligations %d, discharged %d, undecided harnesses %d, bounded evaluations %d, violations %d, %.1f s\n", o.prop, rp.obligations, rp.discharged, len(rp.errs), evals, violations, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }
func bset(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func set(m map[string]bool) []string { return bset(m) }
