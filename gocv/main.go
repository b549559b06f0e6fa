package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HResult struct {
	H        *Harness
	VCs      []*VC
	Trivial  int
	Covers   map[string]bool
	Err      string
	Wall     time.Duration
	Paths    int
	Steps    int
	Fns      map[string]int
	Specs    map[string]int
	Invs     map[string]int
	Trusted  map[string]int
	Solver   int
	FeasN    int
	Reshaped map[string]string
	FeasHit  int
}

func (w *World) runHarness(h *Harness) (r *HResult) {
	r = &HResult{H: h}
	t0 := time.Now()
	defer func() { r.Wall = time.Since(t0) }()
	if h.Dropped != "" {
		r.Err = h.Dropped
		return
	}
	e := NewExec(w, h.Name)
	if w.thorough {
		e.limit = 700 * time.Second
	}
	defer e.inc.Close()
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case unsupportedErr:
					r.Err = y.Error()
					if os_debug {
						r.Err += "\n" + string(debug.Stack())
					}
				case abortErr:
					r.Err = y.msg
				default:
					if os_debug {
						panic(x)
					}
					r.Err = fmt.Sprintf("internal error: %v", x)
					if st := string(debug.Stack()); true {
						ls := strings.Split(st, "\n")
						if len(ls) > 24 {
							ls = ls[:24]
						}
						r.Err += "\n" + strings.Join(ls, "\n")
					}
				}
				if e.curSt != nil && os_debug {
					r.Err += "\nat " + e.curPos(e.curSt) + " in " + strings.Join(e.chain(e.curSt), " < ")
				}
			}
		}()
		s := e.newState()
		e.runInits(s)
		e.trivial, e.steps, e.paths = 0, 0, 0
		e.usedFns = map[string]int{}
		e.pushCall(s, Func{fn: h.Fn}, nil, nil)
		ends := e.explore(s, func(x *State) bool { return len(x.fr) == 0 })
		reach := false
		for _, x := range ends {
			if len(x.lockOrd) > 0 {
				e.vcs = append(e.vcs, &VC{Harness: h.Name, Label: "lock discipline: every lock is released", Status: "failed", By: "engine", Pos: x.lockNm[x.lockOrd[0]], done: closed(), trace: x.trace})
			}
			if !reach {
				reach = e.satList(x.pc) != "unsat"
			}
		}
		e.covers["end of harness"] = reach
	}()
	for _, v := range e.vcs {
		<-v.done
	}
	for i, n := 0, 0; i < len(e.vcs) && n < 6; i++ {
		if e.vcs[i].Status == "failed" && e.vcs[i].as != nil {
			n++
			e.escalate(e.vcs[i])
		}
		e.vcs[i].as = nil
	}
	r.VCs, r.Trivial, r.Covers, r.Paths, r.Steps = e.vcs, e.trivial, e.covers, e.paths, e.steps
	r.Fns, r.Specs, r.Invs, r.Trusted = e.usedFns, e.usedSp, e.usedInv, e.trusted
	r.FeasN, r.FeasHit = e.feasN, e.feasHit
	if r.Err == "" {
		r.Err = e.incomplete
	}
	r.Reshaped = e.reshaped
	for k, ok := range e.covers {
		if !ok && r.Err == "" {
			r.Err = "vacuous: " + k + " is not reachable"
		}
	}
	if r.Err == "" && len(e.vcs)+e.trivial == 0 {
		r.Err = "vacuous: no obligations generated"
	}
	return
}

func closed() chan struct{} { c := make(chan struct{}); close(c); return c }

type options struct {
	prop, tier, re string
	seed           int64
	verbose        bool
	noWitness      bool
	dump           string
}

func main() {
	var o options
	flag.StringVar(&o.prop, "prop", "", "property id")
	flag.StringVar(&o.tier, "tier", "", "quick or thorough")
	flag.StringVar(&o.re, "harness", "", "only harnesses matching")
	flag.BoolVar(&o.verbose, "v", false, "verbose")
	flag.BoolVar(&o.noWitness, "nowitness", false, "skip native runs")
	flag.StringVar(&o.dump, "dump", "", "dump failing SMT texts into this directory")
	shapes := flag.Bool("shapes", false, "print the loops, for contracts/loops.txt")
	list := flag.Bool("list", false, "list harnesses")
	flag.StringVar(&repoDir, "repo", repoDir, "")
	flag.StringVar(&verifDir, "verif", verifDir, "")
	flag.Parse()
	if o.tier == "" {
		o.tier = os.Getenv("VERIF_TIER")
	}
	if o.tier != "thorough" {
		o.tier = "quick"
	}
	o.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if o.seed == 0 {
		o.seed = 1
	}
	debug.SetGCPercent(200)
	t0 := time.Now()
	if o.prop != "" {
		deadline = t0.Add(480 * time.Second)
		if o.tier == "thorough" {
			deadline = t0.Add(720 * time.Second)
		}
	}
	w, err := Load(o.tier == "thorough")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		if o.prop != "" && !o.noWitness {
			// the contracts can not be bound to this tree at all: only the
			// bounded stand-ins remain
			w = &World{warnings: []string{"the contracts can not be bound to this tree: " + err.Error()}}
			os.Exit(w.runProp(o, t0))
		}
		os.Exit(2)
	}
	if o.verbose {
		fmt.Printf("loaded in %v, %d harnesses\n", time.Since(t0), len(w.harness))
	}
	if *shapes {
		w.printShapes()
		return
	}
	w.loadShapes()
	if *list {
		for _, h := range w.harness {
			fmt.Println(h.Prop, h.Name, h.Dropped)
		}
		return
	}
	os.Exit(w.runProp(o, t0))
}

func (w *World) runProp(o options, t0 time.Time) int {
	var hs []*Harness
	re := regexp.MustCompile(o.re)
	props := map[string]bool{}
	for _, p := range strings.Split(o.prop, ",") {
		props[p] = true
	}
	for _, h := range w.harness {
		if o.prop != "" && !props[h.Prop] || !re.MatchString(h.Name) || h.Prop == "Z00" && o.prop != "Z00" {
			continue
		}
		if h.Slow && o.tier != "thorough" {
			continue
		}
		hs = append(hs, h)
	}
	full := !(o.prop == "" || o.re != "" || len(props) > 1)
	natives := func() []*nativePkg { return nil }
	if full {
		natives = w.startNative(o)
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	sem := make(chan bool, par)
	res := make([]*HResult, len(hs))
	type done struct {
		i int
		r *HResult
	}
	ch := make(chan done, len(hs))
	for i, h := range hs {
		i, h := i, h
		go func() {
			sem <- true
			r := w.runHarness(h)
			<-sem
			ch <- done{i, r}
		}()
	}
	late := time.After(time.Until(deadline) + 60*time.Second)
wait:
	for range hs {
		select {
		case d := <-ch:
			res[d.i] = d.r
		case <-late:
			break wait
		}
	}
	for i, h := range hs {
		if res[i] == nil {
			res[i] = &HResult{H: h, Err: "the symbolic execution did not end in time"}
		}
	}
	if full {
		w.retry(res)
	}
	rep := w.summarise(o, res)
	if !full {
		rep.print(o)
		if rep.bad() {
			return 1
		}
		return 0
	}
	return rep.finish(o, t0, natives())
}

// retry gives the obligations that ran out of time a second, longer chance,
// when nothing else is running.
func (w *World) retry(res []*HResult) {
	t0 := time.Now()
	for _, r := range res {
		for _, v := range r.VCs {
			if v.Status != "unknown" || v.smt == "" || time.Since(t0) > 240*time.Second {
				continue
			}
			x, rest, by := Solve(v.smt, 30*time.Second, 150*time.Second)
			v.By = by
			switch x {
			case "unsat":
				v.Status, v.By = "discharged", by
			case "sat":
				v.Status, v.By, v.Model = "failed", by, rest
			}
		}
	}
}

type Report struct {
	w           *World
	res         []*HResult
	obligations int
	discharged  int
	trivial     int
	failed      []*VC
	errs        []string
	by          map[string]int
}

func (w *World) summarise(o options, res []*HResult) *Report {
	rp := &Report{w: w, res: res, by: map[string]int{}}
	for _, r := range res {
		rp.trivial += r.Trivial
		rp.by["simplifier (syntactic)"] += r.Trivial
		rp.obligations += r.Trivial + len(r.VCs)
		rp.discharged += r.Trivial
		stale := false
		for _, v := range r.VCs {
			if v.Status == "discharged" {
				rp.discharged++
				rp.by[v.By]++
			} else if v.Status == "unknown" && v.By == outOfBudget {
				rp.errs = append(rp.errs, fmt.Sprintf("%s: %s at %s: the time budget of the check is used up", v.Harness, v.Label, v.Pos))
			} else if len(r.Reshaped) > 0 {
				// an annotation that does not fit its loop any more tells nothing about the code
				stale = true
			} else {
				rp.failed = append(rp.failed, v)
				if o.dump != "" && v.smt != "" {
					os.MkdirAll(o.dump, 0o755)
					os.WriteFile(filepath.Join(o.dump, fmt.Sprintf("%s-%d.smt2", v.Harness, len(rp.failed))), []byte(v.smt), 0o644)
				}
			}
		}
		if stale {
			for _, k := range sortedKeys(r.Reshaped) {
				rp.errs = append(rp.errs, r.H.Name+": "+r.Reshaped[k])
			}
		}
		if r.Err != "" {
			rp.errs = append(rp.errs, r.H.Name+": "+r.Err)
		}
	}
	return rp
}

func (rp *Report) bad() bool { return len(rp.failed) > 0 || len(rp.errs) > 0 }

func (rp *Report) print(o options) {
	for _, r := range rp.res {
		f := 0
		var mx int64
		for _, v := range r.VCs {
			if v.Status != "discharged" {
				f++
			}
			if v.Ms > mx {
				mx = v.Ms
			}
		}
		fmt.Printf("%-60s vc=%-4d triv=%-4d failed=%-3d paths=%-5d steps=%-6d feas=%d/%d %.1fs maxvc=%dms %s\n", r.H.Name, len(r.VCs), r.Trivial, f, r.Paths, r.Steps, r.FeasN-r.FeasHit, r.FeasN, r.Wall.Seconds(), mx, r.Err)
		if o.verbose {
			for _, v := range r.VCs {
				if v.Ms > 3000 {
					fmt.Printf("   slow %dms %s: %s at %s\n", v.Ms, v.By, v.Label, v.Pos)
				}
			}
			fmt.Println("   specs:", keys(r.Specs), "invs:", keys(r.Invs), "trusted:", keys(r.Trusted))
		}
	}
	for _, v := range rp.failed {
		fmt.Printf("FAIL %s [%s] at %s: %s (%s, %dms) %v\n", v.Harness, v.Status, v.Pos, v.Label, v.By, v.Ms, v.trace)
		if len(v.vals) > 0 {
			fmt.Println("   ", modelStr(v))
		}
	}
	for _, s := range rp.w.warnings {
		fmt.Println("warning:", s)
	}
	fmt.Printf("obligations %d discharged %d by %v\n", rp.obligations, rp.discharged, rp.by)
}

func modelStr(v *VC) string {
	var ks []string
	for k := range v.vals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []string
	for _, k := range ks {
		if i := strings.LastIndexByte(k, '.'); i > 0 {
			if _, err := strconv.Atoi(k[i+1:]); err == nil {
				continue
			}
		}
		b = append(b, k+"="+v.vals[k])
	}
	return strings.Join(b, " ")
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func keys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = json.Marshal
var _ = exec.Command
