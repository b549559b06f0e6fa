package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa/ssautil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ state

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops []*loopInfo
	head  map[*ssa.BasicBlock]*loopInfo
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

type deferred struct {
	fn   Func
	args []Value
	call ssa.CallInstruction
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Value
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []deferred
	tok    int
	call   ssa.Value // caller value receiving the result (nil: none)
	isDef  bool      // running as a deferred call
	catch  bool      // gov.Catch boundary
	unwind bool      // unwinding because of a panic
	onRet  func(e *Exec, st *State, r Value)
	iters  map[*loopInfo]int
	cuts   []*cut
}

type lockState struct {
	w bool
	r int
}

type inputRec struct {
	name string
	kind string
	t    *Term
	arr  *Arr
	n    *Term
}

type State struct {
	fr      []*Frame
	heap    map[int]Value
	hTok    int
	tok     int
	pc      []*Term
	pcSet   map[*Term]bool
	locks   map[string]lockState
	lockOrd []string
	uses    map[string]Func
	invs    map[string]Func
	onLock  map[string]Func
	ranks   map[string]int
	lockNm  map[string]string
	guards  map[string]guard
	fails   map[string]Func
	opts    map[string]int
	ret     Value
	dead    bool
	panicV  bool
	panicN  int // panics so far
	inputs  []inputRec
	trace   []string
	poison  bool
	base    int // pc length at the start of a pure evaluation
}

type cut struct {
	loop  *loopInfo
	depth int // index of frame
	limit int // objects with id < limit existed before the loop
	ws    map[string]wloc
	dirty bool
	inv   Func
	entry *State
	ptrs  map[int]Value
	label string
}

type wloc struct {
	obj  int
	path []PElem
}

type VC struct {
	Harness string
	Label   string
	Pos     string
	Status  string // discharged / failed / unknown
	By      string
	Ms      int64
	Model   string
	inputs  []inputRec
	vals    map[string]string
	done    chan struct{}
	trace   []string
	smt     string
	as      []*Term
}

type Exec struct {
	incomplete     string            // why a path could not be followed to its end
	reshaped       map[string]string // loops that are not the ones their invariants were written for
	w              *World
	c              *Ctx
	inc            *IncSolver
	nextObj        int
	nextTok        int
	nextErr        uint64
	globals        map[*ssa.Global]int
	sent           map[*ssa.Global]uint64
	infos          map[*ssa.Function]*fnInfo
	run            *explRun
	pure           int
	quiet          int
	vcs            []*VC
	vcKey          map[string]bool
	trivial        int
	feas           map[string]string
	covers         map[string]bool
	harness        string
	start          time.Time
	limit          time.Duration
	paths          int
	steps          int
	errs           []string
	freshTy        map[string]int
	objName        map[int]string
	unroll         int
	usedFns        map[string]int // functions executed by body (short name)
	usedSp         map[string]int // specs used at call sites
	usedInv        map[string]int
	trusted        map[string]int
	proves         map[string]bool
	failNow        bool
	dbgName        map[*ssa.Function]map[string][]ssa.Value
	skN            int
	depthIn        int
	curSt          *State
	feasN, feasHit int
	boundStack     []*Term
	defs           []*Term
	initVals       map[*ssa.Global]Value
}

type explRun struct {
	work []*State
}

func NewExec(w *World, harness string) *Exec {
	e := &Exec{w: w, c: NewCtx(), inc: NewInc(), globals: map[*ssa.Global]int{}, sent: map[*ssa.Global]uint64{}, infos: map[*ssa.Function]*fnInfo{}, vcKey: map[string]bool{}, feas: map[string]string{}, covers: map[string]bool{}, harness: harness, start: time.Now(), limit: 300 * time.Second, freshTy: map[string]int{}, objName: map[int]string{}, unroll: 80, usedFns: map[string]int{}, usedSp: map[string]int{}, usedInv: map[string]int{}, reshaped: map[string]string{}, trusted: map[string]int{}, proves: map[string]bool{}, dbgName: map[*ssa.Function]map[string][]ssa.Value{}}
	e.nextErr = 1 << 33
	return e
}

func (e *Exec) newState() *State {
	e.nextTok++
	return &State{heap: map[int]Value{}, tok: e.nextTok, hTok: e.nextTok, pcSet: map[*Term]bool{}, locks: map[string]lockState{}, uses: map[string]Func{}, invs: map[string]Func{}, onLock: map[string]Func{}, ranks: map[string]int{}, lockNm: map[string]string{}, fails: map[string]Func{}, opts: map[string]int{}}
}

func (e *Exec) fork(s *State) *State {
	n := *s
	n.fr = append([]*Frame(nil), s.fr...)
	e.nextTok++
	s.tok = e.nextTok
	e.nextTok++
	n.tok = e.nextTok
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcSet = make(map[*Term]bool, len(s.pcSet)+4)
	for k := range s.pcSet {
		n.pcSet[k] = true
	}
	n.locks = make(map[string]lockState, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.lockOrd = append([]string(nil), s.lockOrd...)
	cp := func(m map[string]Func) map[string]Func {
		r := make(map[string]Func, len(m))
		for k, v := range m {
			r[k] = v
		}
		return r
	}
	n.uses, n.invs, n.onLock, n.fails = cp(s.uses), cp(s.invs), cp(s.onLock), cp(s.fails)
	ci := func(m map[string]int) map[string]int {
		r := make(map[string]int, len(m))
		for k, v := range m {
			r[k] = v
		}
		return r
	}
	n.ranks, n.opts = ci(s.ranks), ci(s.opts)
	n.lockNm = map[string]string{}
	for k, v := range s.lockNm {
		n.lockNm[k] = v
	}
	n.inputs = s.inputs[:len(s.inputs):len(s.inputs)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return &n
}

func (e *Exec) top(s *State) *Frame { return s.fr[len(s.fr)-1] }

// wtop returns the top frame, owned by s.
func (e *Exec) wframe(s *State, i int) *Frame {
	f := s.fr[i]
	if f.tok != s.tok {
		n := *f
		n.env = append([]Value(nil), f.env...)
		n.defers = append([]deferred(nil), f.defers...)
		n.cuts = append([]*cut(nil), f.cuts...)
		if f.iters != nil {
			n.iters = map[*loopInfo]int{}
			for k, v := range f.iters {
				n.iters[k] = v
			}
		}
		n.tok = s.tok
		s.fr[i] = &n
		return &n
	}
	return f
}
func (e *Exec) wtop(s *State) *Frame { return e.wframe(s, len(s.fr)-1) }

func (s *State) hget(o int) (Value, bool) { v, ok := s.heap[o]; return v, ok }
func (e *Exec) hset(s *State, o int, v Value) {
	if s.hTok != s.tok {
		m := make(map[int]Value, len(s.heap)+8)
		for k, x := range s.heap {
			m[k] = x
		}
		s.heap = m
		s.hTok = s.tok
	}
	s.heap[o] = v
}

func (e *Exec) alloc(s *State, v Value) Ptr {
	e.nextObj++
	e.hset(s, e.nextObj, v)
	return Ptr{obj: e.nextObj}
}

func (e *Exec) load(s *State, p Ptr) Value {
	if p.obj == 0 {
		panic(unsupported("load through nil"))
	}
	v, ok := s.hget(p.obj)
	if !ok {
		panic(unsupported(fmt.Sprintf("load from unknown object %d %s", p.obj, e.objName[p.obj])))
	}
	return e.loadPath(v, p.path)
}

func (e *Exec) store(s *State, p Ptr, v Value) {
	if p.obj == 0 {
		panic(unsupported("store through nil"))
	}
	e.noteWrite(s, p)
	if len(p.path) == 0 {
		e.hset(s, p.obj, v)
		return
	}
	old, ok := s.hget(p.obj)
	if !ok {
		panic(unsupported("store to unknown object"))
	}
	e.hset(s, p.obj, e.storePath(old, p.path, v))
}

func (e *Exec) noteWrite(s *State, p Ptr) {
	for _, f := range s.fr {
		for _, ct := range f.cuts {
			if p.obj >= ct.limit {
				continue
			}
			var path []PElem
			for _, x := range p.path {
				if x.idx != nil {
					break
				}
				path = append(path, x)
			}
			covered := false
			for i := 0; i <= len(path); i++ {
				if _, ok := ct.ws[(Ptr{p.obj, path[:i]}).key()]; ok {
					covered = true
				}
			}
			if !covered {
				ct.ws[(Ptr{p.obj, path}).key()] = wloc{p.obj, path}
				ct.dirty = true
			}
		}
	}
}

func (e *Exec) assume(s *State, t *Term) {
	if t.isTrue() || s.pcSet[t] {
		return
	}
	if t.isFalse() || s.pcSet[e.c.Not(t)] {
		s.dead = true
		return
	}
	if t.op == OpAnd {
		for _, a := range t.args {
			e.assume(s, a)
		}
		s.pcSet[t] = true
		return
	}
	s.pc = append(s.pc, t)
	s.pcSet[t] = true
}

// ---------------------------------------------------------------- solving

func (e *Exec) closeBounds(ts []*Term) []*Term {
	any := false
	for _, t := range ts {
		if t.bound {
			any = true
		}
	}
	if !any {
		return ts
	}
	m := map[uint64]*Term{}
	for _, t := range ts {
		if !t.bound {
			continue
		}
		for b := range e.c.freeBound(t) {
			if m[b] == nil {
				w := e.c.boundW[b]
				m[b] = e.c.Var(w, fmt.Sprintf("bsk!%d", b))
			}
		}
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		if t.bound {
			out[i] = e.c.Subst(t, m)
		} else {
			out[i] = t
		}
	}
	return out
}

// feasible: "unsat" means the path plus t is impossible.
func (e *Exec) sat(s *State, t *Term) string {
	if t.isFalse() {
		return "unsat"
	}
	if s.pcSet[e.c.Not(t)] {
		return "unsat"
	}
	as := append(append([]*Term(nil), s.pc...), t)
	return e.satList(as)
}

func (e *Exec) satList(as []*Term) string {
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.id
	}
	sort.Ints(ids)
	k := fmt.Sprint(ids)
	e.feasN++
	if r, ok := e.feas[k]; ok {
		e.feasHit++
		return r
	}
	as = e.closeBounds(as)
	out, _ := e.c.Prepare(as, 1, 150)
	r := "sat"
	for _, o := range out {
		if o.isFalse() {
			r = "unsat"
		}
	}
	if r == "sat" {
		out, _ = e.c.abstractNL(out, false)
		r = e.inc.Check(out)
	}
	e.feas[k] = r
	return r
}

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.w.fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	if i := strings.Index(f, "/zz_gov"); i >= 0 {
		f = "contracts:" + f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// posStack returns the innermost position and the repo-level call chain.
func (e *Exec) curPos(s *State) string {
	for i := len(s.fr) - 1; i >= 0; i-- {
		f := s.fr[i]
		if f.blk == nil {
			continue
		}
		for k := f.ip; k >= 0; k-- {
			if k < len(f.blk.Instrs) && f.blk.Instrs[k].Pos().IsValid() {
				return e.pos(f.blk.Instrs[k].Pos())
			}
		}
	}
	return ""
}
func (e *Exec) chain(s *State) []string {
	var r []string
	for i := len(s.fr) - 1; i >= 0; i-- {
		r = append(r, shortFn(s.fr[i].fn))
	}
	return r
}

// check emits an obligation.
func (e *Exec) check(s *State, cond *Term, label string) {
	if s.dead {
		return
	}
	if e.pure > 0 {
		if !cond.isTrue() {
			s.poison = true
			e.assume(s, cond)
		}
		return
	}
	if cond.isTrue() || s.pcSet[cond] {
		e.trivial++
		e.w.noteLabel(e.harness, label, true)
		return
	}
	if e.quiet > 0 {
		e.assume(s, cond)
		return
	}
	neg := e.c.Not(cond)
	as := append(append([]*Term(nil), s.pc...), neg)
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.id
	}
	sort.Ints(ids)
	k := label + fmt.Sprint(ids)
	if !e.vcKey[k] {
		e.vcKey[k] = true
		e.emitVC(s, as, label)
	}
	e.assume(s, cond)
}

func (e *Exec) emitVC(s *State, as []*Term, label string) {
	vc := &VC{Harness: e.harness, Label: label, Pos: e.curPos(s), done: make(chan struct{}), trace: append([]string(nil), s.trace...)}
	if ch := e.chain(s); len(ch) > 0 {
		vc.trace = append(vc.trace, "in "+strings.Join(ch, " < "))
	}
	e.vcs = append(e.vcs, vc)
	t0 := time.Now()
	as = e.closeBounds(as)
	out, _ := e.c.Prepare(as, 1, 400)
	triv := false
	for _, o := range out {
		if o.isFalse() {
			triv = true
		}
	}
	if triv {
		vc.Status, vc.By = "discharged", "simplifier"
		close(vc.done)
		return
	}
	abs, isAbs := e.c.abstractNL(out, false)
	if e.inc.Check(abs) == "unsat" {
		vc.Status, vc.By = "discharged", backends[3]
		vc.Ms = time.Since(t0).Milliseconds()
		close(vc.done)
		return
	}
	rounds, cap := 3, 3000
	if e.w.thorough {
		rounds, cap = 4, 8000
	}
	out, _ = e.c.Prepare(as, rounds, cap)
	absTxt := ""
	if isAbs {
		abs, _ = e.c.abstractNL(out, false)
		if e.inc.Check(abs) == "unsat" {
			vc.Status, vc.By = "discharged", backends[3]
			vc.Ms = time.Since(t0).Milliseconds()
			close(vc.done)
			return
		}
		abs, _ = e.c.abstractNL(out, true)
		absTxt, _ = e.vcText(nil, abs)
		if e.inc.Check(abs) == "unsat" {
			vc.Status, vc.By = "discharged", backends[3]
			vc.Ms = time.Since(t0).Milliseconds()
			close(vc.done)
			return
		}
	}
	txt, gnames := e.vcText(s.inputs, out)
	vc.as = as
	vc.smt = txt
	vc.inputs = s.inputs
	quick, long := 10*time.Second, 60*time.Second
	if e.w.thorough {
		quick, long = 20*time.Second, 240*time.Second
	}
	go func() {
		defer close(vc.done)
		r, rest, by := "", "", ""
		if absTxt != "" {
			r, rest, by = Solve(absTxt, quick, long)
		}
		if r != "unsat" {
			r, rest, by = Solve(txt, quick, long)
		}
		vc.Ms = time.Since(t0).Milliseconds()
		switch r {
		case "unsat":
			vc.Status, vc.By = "discharged", by
			vc.smt = ""
		case "sat":
			vc.Status, vc.By = "failed", by
			vc.Model = rest
			vc.vals = parseModel(rest, gnames)
		default:
			vc.Status, vc.By = "unknown", by
			vc.Model = rest
		}
	}()
}

// vcText prints an obligation with its inputs.
func (e *Exec) vcText(inputs []inputRec, out []*Term) (string, []string) {
	p := NewPrinter()
	var names []string
	for _, o := range out {
		names = append(names, p.T(o))
	}
	var gv []string
	var gnames []string
	for k, nm := range inputNames(inputs) {
		in := inputs[k]
		if in.t != nil {
			gv = append(gv, p.T(e.closeBounds([]*Term{in.t})[0]))
			gnames = append(gnames, nm)
		}
		if in.n != nil {
			gv = append(gv, p.T(in.n))
			gnames = append(gnames, nm+".len")
			for i := 0; i < 48; i++ {
				gv = append(gv, p.T(e.c.Sel(in.arr, e.c.BV(64, uint64(i)))))
				gnames = append(gnames, fmt.Sprintf("%s.%d", nm, i))
			}
		}
	}
	defs := p.Take()
	var b strings.Builder
	b.WriteString(defs)
	for _, n := range names {
		b.WriteString("(assert " + n + ")\n")
	}
	b.WriteString("(check-sat)\n")
	if len(gv) > 0 {
		b.WriteString("(get-value (" + strings.Join(gv, " ") + "))\n")
	}
	return b.String(), gnames
}

// escalate retries a refuted obligation with more instances of the quantified
// hypotheses: the refutation may be due to a missing instance.
func (e *Exec) escalate(vc *VC) {
	if vc.as == nil || vc.Status != "failed" {
		return
	}
	before := len(vc.smt)
	out, _ := e.c.Prepare(vc.as, 6, 12000)
	if abs, is := e.c.abstractNL(out, false); is {
		out = abs
	}
	txt, gnames := e.vcText(vc.inputs, out)
	if len(txt) <= before {
		return
	}
	t0 := time.Now()
	r, rest, by := Solve(txt, 20*time.Second, 60*time.Second)
	vc.Ms += time.Since(t0).Milliseconds()
	switch r {
	case "unsat":
		vc.Status, vc.By, vc.smt, vc.Model, vc.vals = "discharged", by, "", "", nil
	case "sat":
		vc.By, vc.Model, vc.smt = by, rest, txt
		vc.vals = parseModel(rest, gnames)
	}
}

func (e *Exec) failVC(s *State, label, why string) {
	if e.pure > 0 {
		s.poison = true
		s.dead = true
		return
	}
	if e.quiet > 0 {
		s.dead = true
		return
	}
	// report only if reachable
	if e.satList(s.pc) == "unsat" {
		s.dead = true
		return
	}
	e.vcKey[label+"!"] = true
	// go through the solver so that a model is produced
	e.emitVC(s, s.pc, label)
	e.vcs[len(e.vcs)-1].trace = append(e.vcs[len(e.vcs)-1].trace, why)
	s.dead = true
}

// outOfReach ends a path that cannot be followed further: nothing is known to be
// wrong, and nothing is proved either, the harness is undecided.
func (e *Exec) outOfReach(s *State, why string) {
	if e.pure > 0 {
		panic(unsupported(why))
	}
	if e.quiet == 0 && e.incomplete == "" && e.satList(s.pc) != "unsat" {
		e.incomplete = why
	}
	s.dead = true
}

// inputNames makes the names of the inputs of a path unique (x, x@2, ...).
func inputNames(in []inputRec) []string {
	n := map[string]int{}
	var r []string
	for _, i := range in {
		n[i.name]++
		if k := n[i.name]; k > 1 {
			r = append(r, fmt.Sprintf("%s@%d", i.name, k))
		} else {
			r = append(r, i.name)
		}
	}
	return r
}

func parseModel(s string, names []string) map[string]string {
	// ((expr value) ...): values in order
	m := map[string]string{}
	toks := lexSexp(s)
	// parse the outer list
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return nil
		}
		t := toks[pos]
		pos++
		if t == "(" {
			var l []interface{}
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	v := parse()
	l, ok := v.([]interface{})
	if !ok {
		return m
	}
	for i, x := range l {
		if i >= len(names) {
			break
		}
		if p, ok := x.([]interface{}); ok && len(p) == 2 {
			m[names[i]] = bvVal(p[1])
		}
	}
	return m
}
func bvVal(x interface{}) string {
	switch v := x.(type) {
	case string:
		if strings.HasPrefix(v, "#x") {
			var n uint64
			fmt.Sscanf(v[2:], "%x", &n)
			return fmt.Sprint(n)
		}
		if strings.HasPrefix(v, "#b") {
			var n uint64
			for _, ch := range v[2:] {
				n = n<<1 | uint64(ch-'0')
			}
			return fmt.Sprint(n)
		}
		if v == "true" {
			return "1"
		}
		if v == "false" {
			return "0"
		}
		return v
	case []interface{}:
		if len(v) == 3 {
			if s, ok := v[1].(string); ok && strings.HasPrefix(s, "bv") {
				return s[2:]
			}
		}
	}
	return "?"
}
func lexSexp(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r|", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// ---------------------------------------------------------------- exploring

type abortErr struct{ msg string }

func (e *Exec) explore(st *State, stop func(*State) bool) []*State {
	saved := e.run
	r := &explRun{work: []*State{st}}
	e.run = r
	defer func() { e.run = saved }()
	var out []*State
	for len(r.work) > 0 {
		s := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		for !s.dead {
			if stop(s) {
				out = append(out, s)
				break
			}
			e.stepGuard(s)
		}
		e.paths++
		if time.Since(e.start) > e.limit || time.Now().After(deadline) {
			panic(abortErr{"time limit for symbolic execution exceeded"})
		}
		if e.paths > 400000 {
			panic(abortErr{"path limit exceeded"})
		}
	}
	return out
}

func (e *Exec) stepGuard(s *State) {
	if os_debug {
		e.curSt = s
	}
	e.step(s)
}

func (e *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}, head: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) { i.idx[v] = i.n; i.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	lm := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := lm[h]
				if l == nil {
					l = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
					lm[h] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range lm {
		i.loops = append(i.loops, l)
	}
	sort.Slice(i.loops, func(a, b int) bool { return i.loops[a].header.Index < i.loops[b].header.Index })
	for k, l := range i.loops {
		l.ord = k
		i.head[l.header] = l
	}
	e.infos[fn] = i
	return i
}

func (e *Exec) get(s *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return Func{fn: x}
	case *ssa.Builtin:
		return Func{bi: x}
	case *ssa.Global:
		return e.globalPtr(s, x)
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(unsupported("no slot for " + v.Name()))
	}
	r := f.env[i]
	if r == nil {
		panic(unsupported("value not computed: " + v.Name() + " in " + f.fn.String()))
	}
	return r
}

func (e *Exec) set(s *State, v ssa.Value, val Value) {
	f := e.wtop(s)
	f.env[f.info.idx[v]] = val
}

func (e *Exec) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	if w, ok := scalarWidth(t); ok {
		if w == 0 {
			return e.c.Bool(constant.BoolVal(x.Value))
		}
		if isFloat(t) {
			f, _ := constant.Float64Val(x.Value)
			if w == 32 {
				return e.c.BV(32, uint64(math.Float32bits(float32(f))))
			}
			return e.c.BV(64, math.Float64bits(f))
		}
		iv := constant.ToInt(x.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return e.c.BV(w, u)
		}
		i, _ := constant.Int64Val(iv)
		return e.c.BV(w, uint64(i))
	}
	if isString(t) {
		return Str{s: constant.StringVal(x.Value), known: true}
	}
	return Opaque{"const " + t.String()}
}

func (e *Exec) globalPtr(s *State, g *ssa.Global) Ptr {
	if id, ok := e.globals[g]; ok {
		if _, ok := s.heap[id]; ok {
			return Ptr{obj: id}
		}
		// allocated on another path: initialise here as well
		e.hset(s, id, e.globalInit(g))
		return Ptr{obj: id}
	}
	e.nextObj++
	id := e.nextObj
	e.globals[g] = id
	e.objName[id] = g.String()
	e.hset(s, id, e.globalInit(g))
	return Ptr{obj: id}
}

func (e *Exec) globalInit(g *ssa.Global) Value {
	t := g.Type().(*types.Pointer).Elem()
	if e.isErrorType(t) {
		return ErrV{e.c.BV(64, e.w.sentinel(g))}
	}
	if v, ok := e.w.globalVals(e, g, t); ok {
		return v
	}
	return e.zero(t)
}

func (e *Exec) pushCall(s *State, fn Func, args []Value, call ssa.Value) *Frame {
	if len(s.fr) > 200 {
		panic(unsupported("recursion too deep in " + fn.fn.String()))
	}
	info := e.info(fn.fn)
	f := &Frame{fn: fn.fn, info: info, env: make([]Value, info.n), blk: fn.fn.Blocks[0], tok: s.tok, call: call}
	if len(args) != len(fn.fn.Params) {
		panic(unsupported(fmt.Sprintf("arity of %s: %d vs %d", fn.fn, len(args), len(fn.fn.Params))))
	}
	copy(f.env, args)
	for i, b := range fn.binds {
		f.env[len(args)+i] = b
	}
	s.fr = append(s.fr, f)
	e.usedFns[shortFn(fn.fn)]++
	return f
}

func (e *Exec) popReturn(s *State, r Value) {
	f := e.top(s)
	s.fr = s.fr[:len(s.fr)-1]
	s.ret = r
	if f.onRet != nil {
		f.onRet(e, s, r)
		return
	}
	if f.call != nil && len(s.fr) > 0 {
		e.set(s, f.call, r)
	}
}

// doPanic unwinds the top frame(s).
func (e *Exec) doPanic(s *State, why string) {
	if e.pure > 0 {
		s.poison = true
		s.dead = true
		return
	}
	ok := false
	for _, f := range s.fr {
		if f.catch {
			ok = true
		}
	}
	if !ok {
		e.failVC(s, "no panic: "+why, why)
		return
	}
	s.panicV = true
	s.panicN++
	e.unwind(s)
}

func (e *Exec) unwind(s *State) {
	for {
		f := e.wtop(s)
		if len(f.defers) > 0 {
			f.unwind = true
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			n := len(s.fr)
			e.invokeDeferred(s, d)
			if len(s.fr) > n {
				return // continue after it returns
			}
			if s.dead {
				return
			}
			continue
		}
		s.fr = s.fr[:len(s.fr)-1]
		if f.catch {
			s.panicV = false
			if f.onRet != nil {
				f.onRet(e, s, nil)
			}
			return
		}
		if len(s.fr) == 0 {
			s.dead = true
			return
		}
	}
}

func (e *Exec) invokeDeferred(s *State, d deferred) {
	e.callValue(s, d.fn, d.args, nil, d.call)
}

// guard: obligation that cond holds, otherwise the program panics.
func (e *Exec) guard(s *State, cond *Term, why string) {
	if cond.isTrue() {
		if e.pure == 0 {
			e.trivial++
		}
		return
	}
	catching := false
	for _, f := range s.fr {
		if f.catch {
			catching = true
		}
	}
	if catching && e.pure == 0 {
		if e.sat(s, e.c.Not(cond)) != "unsat" {
			o := e.fork(s)
			e.assume(o, e.c.Not(cond))
			if !o.dead {
				o.panicV = true
				o.panicN++
				e.unwind(o)
				if !o.dead {
					e.run.work = append(e.run.work, o)
				}
			}
		}
		e.assume(s, cond)
		return
	}
	e.check(s, cond, "safe: "+why)
}

func (e *Exec) step(s *State) {
	e.steps++
	if e.steps&1023 == 0 && time.Now().After(deadline) {
		panic(abortErr{"time limit for symbolic execution exceeded"})
	}
	f := e.top(s)
	if f.unwind && s.panicV {
		e.unwind(s)
		return
	}
	if f.ip >= len(f.blk.Instrs) {
		panic("fell off block")
	}
	panics := s.panicN
	in := f.blk.Instrs[f.ip]
	switch x := in.(type) {
	case *ssa.DebugRef:
		e.wtop(s).ip++
	case *ssa.Phi:
		panic("phi reached")
	case *ssa.If:
		c := e.get(s, f, x.Cond).(*Term)
		e.branch(s, c, f.blk.Succs[0], f.blk.Succs[1])
	case *ssa.Jump:
		e.goBlock(s, f.blk.Succs[0])
	case *ssa.Return:
		var r Value
		switch len(x.Results) {
		case 0:
			r = Tuple{}
		case 1:
			r = e.get(s, f, x.Results[0])
		default:
			var t Tuple
			for _, v := range x.Results {
				t = append(t, e.get(s, f, v))
			}
			r = t
		}
		e.popReturn(s, r)
	case *ssa.RunDefers:
		wf := e.wtop(s)
		if len(wf.defers) == 0 {
			wf.ip++
			return
		}
		d := wf.defers[len(wf.defers)-1]
		wf.defers = wf.defers[:len(wf.defers)-1]
		e.invokeDeferred(s, d)
	case *ssa.Defer:
		wf := e.wtop(s)
		fn, args := e.callee(s, wf, &x.Call)
		if s.dead {
			return
		}
		wf = e.wtop(s)
		wf.defers = append(wf.defers, deferred{fn, args, x})
		wf.ip++
	case *ssa.Panic:
		e.doPanic(s, "explicit panic at "+e.pos(x.Pos()))
	case *ssa.Go:
		panic(unsupported("go statement"))
	case *ssa.Call:
		fn, args := e.callee(s, f, &x.Call)
		if s.dead || s.panicN != panics {
			return
		}
		e.wtop(s).ip++
		e.callValue(s, fn, args, x, x)
	default:
		if v, ok := in.(ssa.Value); ok {
			r := e.evalInstr(s, f, v)
			if s.dead || s.panicN != panics {
				return
			}
			e.set(s, v, r)
			e.wtop(s).ip++
			return
		}
		switch x := in.(type) {
		case *ssa.Store:
			p := e.get(s, f, x.Addr).(Ptr)
			if p.obj == 0 {
				e.doPanic(s, "nil pointer store at "+e.pos(x.Pos()))
				return
			}
			e.guarded(s, p, true)
			if s.dead {
				return
			}
			e.store(s, p, e.get(s, f, x.Val))
			e.wtop(s).ip++
		default:
			panic(unsupported(fmt.Sprintf("instruction %T at %s", in, e.pos(in.Pos()))))
		}
	}
}

func (e *Exec) branch(s *State, c *Term, a, b *ssa.BasicBlock) {
	if c.isConst() {
		if c.isTrue() {
			e.goBlock(s, a)
		} else {
			e.goBlock(s, b)
		}
		return
	}
	n := e.c.Not(c)
	if s.pcSet[c] {
		e.goBlock(s, a)
		return
	}
	if s.pcSet[n] {
		e.goBlock(s, b)
		return
	}
	fa := e.sat(s, c) != "unsat"
	fb := true
	if fa {
		fb = e.sat(s, n) != "unsat"
	}
	switch {
	case fa && fb:
		o := e.fork(s)
		e.assume(o, n)
		e.assume(s, c)
		if !o.dead {
			e.goBlock(o, b)
			if !o.dead {
				e.run.work = append(e.run.work, o)
			}
		}
		if !s.dead {
			e.goBlock(s, a)
		}
	case fa:
		e.assume(s, c)
		e.goBlock(s, a)
	default:
		e.assume(s, n)
		if !s.dead {
			e.goBlock(s, b)
		}
	}
}

func (e *Exec) goBlock(s *State, to *ssa.BasicBlock) {
	f := e.wtop(s)
	from := f.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.get(s, f, p.Edges[pi]))
	}
	for i, p := range phis {
		f.env[f.info.idx[p]] = vals[i]
	}
	f.prev = from
	f.blk = to
	f.ip = len(phis)
	l := f.info.head[to]
	if l == nil {
		return
	}
	back := l.body[from]
	// active cut on this loop?
	for _, ct := range f.cuts {
		if ct.loop == l && ct.depth == len(s.fr)-1 {
			if back {
				e.cutBack(s, ct, phis)
			}
			return
		}
	}
	key := shortFn(f.fn) + "#" + fmt.Sprint(l.ord)
	if inv, ok := e.findInv(s, f.fn, l, key); ok && e.pure == 0 {
		e.cutLoop(s, l, phis, inv, key)
		return
	}
	if f.iters == nil {
		f.iters = map[*loopInfo]int{}
	}
	if !back {
		f.iters[l] = 0
		return
	}
	f.iters[l]++
	lim := e.unroll
	if v, ok := s.opts["unroll"]; ok {
		lim = v
	}
	if f.iters[l] > lim {
		if e.pure > 0 {
			panic(unsupported("unbounded loop in specification " + key))
		}
		e.outOfReach(s, "loop "+key+" exceeds the unrolling bound and has no applicable invariant")
	}
}

// shape describes what an invariant of the loop depends on: the variables the
// loop changes, whether the head of the loop decides, and the other loops.
func (i *fnInfo) shape(l *loopInfo) string {
	var vs []string
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n := p.Comment
		if len(n) > 1 && n[0] == 't' && n[1] >= '0' && n[1] <= '9' {
			n = "_"
		}
		vs = append(vs, n)
	}
	sort.Strings(vs)
	exit := "body"
	var done *ssa.BasicBlock
	for _, x := range l.header.Succs {
		if !l.body[x] {
			exit, done = "head", x
		}
	}
	// further conditions to go on, before anything else happens
	for b, n := l.header, 1; done != nil; n++ {
		if n > 1 {
			exit = fmt.Sprintf("head%d", n)
		}
		var in *ssa.BasicBlock
		for _, x := range b.Succs {
			if l.body[x] {
				in = x
			}
		}
		if in == nil || in == l.header || len(in.Preds) != 1 || len(in.Succs) != 2 || (in.Succs[0] != done && in.Succs[1] != done) {
			break
		}
		b = in
	}
	return fmt.Sprintf("loops=%d vars=%s exit=%s", len(i.loops), strings.Join(vs, ","), exit)
}

// shapes: the loops the contracts were written for.
func (w *World) loadShapes() {
	w.shapes = map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "contracts", "loops.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if k, v, ok := strings.Cut(l, "\t"); ok {
			w.shapes[k] = v
		}
	}
}

func (w *World) printShapes() {
	e := NewExec(w, "")
	defer e.inc.Close()
	var ls []string
	for fn := range ssautil.AllFunctions(w.prog) {
		f := w.prog.Fset.Position(fn.Pos()).Filename
		if len(fn.Blocks) == 0 || fn.Synthetic != "" || !strings.HasPrefix(f, repoDir+"/") || strings.Contains(f, "zz_gov") {
			continue
		}
		i := e.info(fn)
		for _, l := range i.loops {
			ls = append(ls, fmt.Sprintf("%s#%d\t%s", shortFn(fn), l.ord, i.shape(l)))
		}
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Println(l)
	}
}

func (e *Exec) findInv(s *State, fn *ssa.Function, l *loopInfo, key string) (Func, bool) {
	if v, ok := s.invs[key]; ok {
		return v, true
	}
	return Func{}, false
}

// ------------------------------------------------------------------ loops

func (e *Exec) havoc(s *State, v Value, t types.Type, hint string) Value {
	c := e.c
	switch x := v.(type) {
	case *Term:
		return c.Fresh(x.w, hint)
	case ErrV:
		return ErrV{c.Fresh(64, hint)}
	case *Struct:
		n := &Struct{}
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		for i, fv := range x.f {
			var ft types.Type
			h := fmt.Sprintf("%s.%d", hint, i)
			if st != nil {
				ft = st.Field(i).Type()
				h = hint + "." + st.Field(i).Name()
			}
			n.f = append(n.f, e.havoc(s, fv, ft, h))
		}
		return n
	case *ArrVal:
		return e.freshArr(x.elem, x.n, hint)
	case *VecVal:
		n := &VecVal{}
		for i, fv := range x.v {
			n.v = append(n.v, e.havoc(s, fv, nil, fmt.Sprintf("%s[%d]", hint, i)))
		}
		return n
	case *JudyVal:
		return e.freshJudy(s, x.l, hint)
	case Slice:
		var elem types.Type
		if t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				elem = sl.Elem()
			}
		}
		if elem == nil && x.base.obj != 0 {
			if a, ok := e.load(s, x.base).(*ArrVal); ok {
				elem = a.elem
			}
		}
		if elem != nil {
			if _, ok := flat(elem); ok {
				n, cp := c.Fresh(64, hint+".len"), c.Fresh(64, hint+".cap")
				e.assume(s, c.Ule(n, cp))
				e.assume(s, c.Ule(cp, c.BV(64, 1<<46)))
				p := e.alloc(s, e.freshArr(elem, cp, hint))
				return Slice{base: p, off: c.BV(64, 0), n: n, cap: cp}
			}
		}
		return x
	case Str:
		return Str{id: c.Fresh(64, hint)}
	}
	return v
}

func (e *Exec) freshJudy(s *State, l bool, hint string) *JudyVal {
	c := e.c
	j := &JudyVal{l: l, pres: c.FreshArr(0, hint+".has"), card: c.Fresh(64, hint+".card"), sum: c.Fresh(64, hint+".sum")}
	if l {
		j.val = c.FreshArr(64, hint+".val")
	}
	e.judyFacts(s, j)
	return j
}

// forget drops the quantified hypotheses before a loop body is explored
// (gov.Opt("forget", 1)): the invariant has to carry what the loop needs.
// Dropping hypotheses is sound.
func (e *Exec) forget(s *State) {
	if s.opts["forget"] == 0 {
		return
	}
	var pc []*Term
	set := map[*Term]bool{}
	for _, t := range s.pc {
		if hasQuant(t) {
			continue
		}
		pc = append(pc, t)
		set[t] = true
	}
	s.pc, s.pcSet = pc, set
}

// cutLoop handles entry to a loop with an invariant.
func (e *Exec) cutLoop(s *State, l *loopInfo, phis []*ssa.Phi, inv Func, key string) {
	e.usedInv[key]++
	depth := len(s.fr) - 1
	if was, now := e.w.shapes[key], s.fr[depth].info.shape(l); was != now {
		e.reshaped[key] = fmt.Sprintf("the invariant of %s was written for another loop (%s, now %s)", key, was, now)
	}
	// 1. initially
	t := e.evalInv(s, inv, l)
	e.check(s, t, "loop invariant of "+key+" holds on entry")
	if s.dead {
		return
	}
	ws := map[string]wloc{}
	for round := 0; ; round++ {
		if round > 30 {
			panic(unsupported("write set of loop does not stabilise: " + key))
		}
		ct := &cut{loop: l, depth: depth, ws: ws, inv: inv, label: key, ptrs: map[int]Value{}, limit: e.nextObj + 1}
		b := e.fork(s)
		ct.entry = s
		fr := e.wframe(b, depth)
		for _, p := range phis {
			old := fr.env[fr.info.idx[p]]
			nv := e.havoc(b, old, p.Type(), p.Comment)
			fr = e.wframe(b, depth)
			fr.env[fr.info.idx[p]] = nv
			switch old.(type) {
			case Ptr, Iface, Func:
				ct.ptrs[fr.info.idx[p]] = old
			}
		}
		keys := make([]string, 0, len(ws))
		for k := range ws {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			w := ws[k]
			p := Ptr{w.obj, w.path}
			e.hset(b, p.obj, e.storePath(b.heap[p.obj], p.path, e.havoc(b, e.load(b, p), nil, "lp"+e.objName[p.obj])))
		}
		e.forget(b)
		t := e.evalInv(b, inv, l)
		e.assume(b, t)
		if b.dead {
			panic(unsupported("loop invariant of " + key + " is contradictory"))
		}
		fr = e.wframe(b, depth)
		fr.cuts = append(fr.cuts, ct)
		discover := round == 0 || ct.dirty
		_ = discover
		e.quiet++
		exits := e.runBody(b, ct, depth)
		e.quiet--
		if ct.dirty {
			continue
		}
		// stable: final run with obligations on, unless already quiet
		if e.quiet == 0 {
			ct2 := *ct
			ct2.dirty = false
			b2 := e.fork(s)
			fr := e.wframe(b2, depth)
			for _, p := range phis {
				old := fr.env[fr.info.idx[p]]
				nv := e.havoc(b2, old, p.Type(), p.Comment)
				fr = e.wframe(b2, depth)
				fr.env[fr.info.idx[p]] = nv
			}
			for _, k := range keys {
				w := ws[k]
				p := Ptr{w.obj, w.path}
				e.hset(b2, p.obj, e.storePath(b2.heap[p.obj], p.path, e.havoc(b2, e.load(b2, p), nil, "lp"+e.objName[p.obj])))
			}
			e.forget(b2)
			t := e.evalInv(b2, inv, l)
			e.assume(b2, t)
			fr = e.wframe(b2, depth)
			fr.cuts = append(fr.cuts, &ct2)
			exits = e.runBody(b2, &ct2, depth)
			if ct2.dirty {
				panic(unsupported("loop write set changed between runs: " + key))
			}
		}
		for _, x := range exits {
			// drop the cut from the frame
			if depth < len(x.fr) {
				fr := e.wframe(x, depth)
				var cs []*cut
				for _, c := range fr.cuts {
					if c.loop != l {
						cs = append(cs, c)
					}
				}
				fr.cuts = cs
			}
			e.run.work = append(e.run.work, x)
		}
		s.dead = true
		return
	}
}

func (e *Exec) runBody(b *State, ct *cut, depth int) []*State {
	return e.explore(b, func(x *State) bool {
		if len(x.fr) <= depth {
			return true
		}
		if len(x.fr) == depth+1 {
			f := x.fr[depth]
			if !ct.loop.body[f.blk] {
				return true
			}
		}
		return false
	})
}

func (e *Exec) cutBack(s *State, ct *cut, phis []*ssa.Phi) {
	f := e.top(s)
	for i, old := range ct.ptrs {
		if !sameVal(old, f.env[i]) {
			panic(unsupported("pointer variable modified in loop " + ct.label))
		}
	}
	t := e.evalInv(s, ct.inv, ct.loop)
	if !ct.dirty {
		e.check(s, t, "loop invariant of "+ct.label+" is preserved")
	}
	if len(s.lockOrd) != len(ct.entry.lockOrd) {
		e.failVC(s, "loop "+ct.label+" changes the set of held locks", "")
	}
	s.dead = true
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.key() == y.key()
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case Func:
		y, ok := b.(Func)
		return ok && x.fn == y.fn
	case *Term:
		return a == b
	}
	return false
}

type VarsV struct {
	depth int
	loop  *loopInfo
}

func (e *Exec) evalInv(s *State, inv Func, l *loopInfo) *Term {
	v := VarsV{depth: len(s.fr) - 1, loop: l}
	r := e.pureCall(s, inv, []Value{v})
	return r.(*Term)
}

// ------------------------------------------------------------ pure calls

// pureCall evaluates fn(args) in a copy of s and merges the results; effects
// are discarded.
func (e *Exec) pureCall(s *State, fn Func, args []Value) Value {
	b := e.fork(s)
	base := len(b.pc)
	b.poison = false
	b.base = base
	depth := len(b.fr)
	e.pure++
	e.quiet++
	var outs []*State
	savedDefs := e.defs
	e.defs = nil
	func() {
		defer func() { e.pure--; e.quiet-- }()
		e.callValue(b, fn, args, nil, nil)
		outs = e.explore(b, func(x *State) bool { return len(x.fr) <= depth })
	}()
	c := e.c
	defs := e.defs
	e.defs = savedDefs
	isDef := map[*Term]bool{}
	for _, d := range defs {
		isDef[d] = true
		if d.op == OpAnd {
			for _, a := range d.args {
				isDef[a] = true
			}
		}
		g := d
		if d.bound {
			fb := c.freeBound(d)
			var bs []*Term
			for _, x := range e.boundStack {
				if fb[x.val] {
					bs = append(bs, x)
				}
			}
			g = c.Forall(bs, d)
		}
		if e.pure > 0 {
			e.defs = append(e.defs, g)
		}
		e.assume(s, g)
	}
	rel := func(o *State) []*Term {
		var r []*Term
		for _, t := range o.pc[base:] {
			if !isDef[t] {
				r = append(r, t)
			}
		}
		return r
	}
	poison := b.poison
	var res Value
	var conds []*Term
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		if o.dead {
			continue
		}
		cond := c.And(rel(o)...)
		if o.poison {
			poison = true
		}
		conds = append(conds, cond)
		if res == nil {
			res = o.ret
		} else {
			res = e.merge(s, o, cond, o.ret, res)
		}
	}
	if t, ok := res.(*Term); ok && (t.w == 0) {
		// disjunctive form
		var ds []*Term
		for _, o := range outs {
			ds = append(ds, c.And(append(rel(o), o.ret.(*Term))...))
		}
		if len(outs) > 1 {
			res = c.Or(ds...)
		}
	}
	if res == nil {
		// every path failed
		if fn.fn == nil {
			panic(unsupported("pure builtin"))
		}
		rt := fn.fn.Signature.Results()
		if rt.Len() == 1 {
			if w, ok := scalarWidth(rt.At(0).Type()); ok {
				return e.unknownTerm(s, w)
			}
		}
		panic(unsupported("specification function never returns: " + fn.fn.String()))
	}
	if poison {
		if t, ok := res.(*Term); ok {
			return c.Ite(c.Or(conds...), t, e.unknownTerm(s, t.w))
		}
	}
	return res
}

// unknownTerm: an unconstrained value, as a function of the enclosing bound
// variables.
func (e *Exec) unknownTerm(s *State, w int) *Term {
	e.c.fresh++
	var args []*Term
	for _, b := range e.boundStack {
		args = append(args, b)
	}
	if len(args) == 0 {
		return e.c.Fresh(w, "undef")
	}
	return e.c.App(w, fmt.Sprintf("undef!%d", e.c.fresh), args...)
}

func (e *Exec) merge(s *State, o *State, cond *Term, a, b Value) Value {
	c := e.c
	switch x := a.(type) {
	case *Term:
		return c.Ite(cond, x, b.(*Term))
	case ErrV:
		return ErrV{c.Ite(cond, x.id, b.(ErrV).id)}
	case *Struct:
		y := b.(*Struct)
		n := &Struct{}
		for i := range x.f {
			n.f = append(n.f, e.merge(s, o, cond, x.f[i], y.f[i]))
		}
		return n
	case Tuple:
		y := b.(Tuple)
		var n Tuple
		for i := range x {
			n = append(n, e.merge(s, o, cond, x[i], y[i]))
		}
		return n
	case *ArrVal:
		y := b.(*ArrVal)
		n := &ArrVal{elem: x.elem, n: c.Ite(cond, x.n, y.n)}
		for i := range x.leaves {
			n.leaves = append(n.leaves, c.AIteA(cond, x.leaves[i], y.leaves[i]))
		}
		return n
	case Slice:
		y := b.(Slice)
		if x.base.key() == y.base.key() {
			return Slice{base: x.base, off: c.Ite(cond, x.off, y.off), n: c.Ite(cond, x.n, y.n), cap: c.Ite(cond, x.cap, y.cap)}
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x.key() == y.key() {
			return x
		}
	case Iface:
		if sameVal(a, b) {
			return a
		}
	}
	panic(unsupported(fmt.Sprintf("merge of %T", a)))
}

// ----------------------------------------------------------- instructions

func (e *Exec) u64(t *Term) *Term {
	if t.w == 64 {
		return t
	}
	return e.c.ZExt(t, 64)
}

// idx64 converts an index value to 64-bit according to its type.
func (e *Exec) idx64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return e.c.SExt(t, 64)
	}
	return e.c.ZExt(t, 64)
}

func (e *Exec) evalInstr(s *State, f *Frame, v ssa.Value) Value {
	c := e.c
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		p := e.alloc(s, e.zero(t))
		if x.Comment != "" {
			e.objName[p.obj] = x.Comment
		}
		return p
	case *ssa.BinOp:
		return e.binop(s, x, e.get(s, f, x.X), e.get(s, f, x.Y))
	case *ssa.UnOp:
		a := e.get(s, f, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := a.(Ptr)
			if _, isO := a.(Opaque); isO && noopType(x.Type()) {
				return e.opaqueVal(s, x.Type())
			}
			if !ok {
				panic(unsupported(fmt.Sprintf("load through %T at %s", a, e.pos(x.Pos()))))
			}
			if p.obj == 0 {
				e.doPanic(s, "nil dereference at "+e.curPos(s))
				return nil
			}
			e.guarded(s, p, false)
			return e.load(s, p)
		case token.NOT:
			return c.Not(a.(*Term))
		case token.SUB:
			if isFloat(x.Type()) {
				return c.App(a.(*Term).w, "fneg", a.(*Term))
			}
			return c.Neg(a.(*Term))
		case token.XOR:
			return c.BNot(a.(*Term))
		}
		panic(unsupported("unop " + x.Op.String()))
	case *ssa.ChangeType:
		return e.get(s, f, x.X)
	case *ssa.ChangeInterface:
		a := e.get(s, f, x.X)
		if e.isErrorType(x.X.Type()) && !e.isErrorType(x.Type()) {
			er := a.(ErrV)
			if er.id.isConst() && er.id.val == 0 {
				return Iface{}
			}
			return Iface{t: x.X.Type(), v: a}
		}
		if e.isErrorType(x.Type()) && !e.isErrorType(x.X.Type()) {
			if i, ok := a.(Iface); ok && i.t == nil {
				return ErrV{c.BV(64, 0)}
			}
			return ErrV{c.BV(64, e.newErr())}
		}
		return a
	case *ssa.Convert:
		return e.convert(s, e.get(s, f, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		a := e.get(s, f, x.X)
		if e.isErrorType(x.Type()) {
			return ErrV{c.BV(64, e.newErr())}
		}
		return Iface{t: x.X.Type(), v: a}
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, e.get(s, f, b))
		}
		return Func{fn: x.Fn.(*ssa.Function), binds: bs}
	case *ssa.MakeSlice:
		n := e.idx64(e.get(s, f, x.Len).(*Term), x.Len.Type())
		cp := e.idx64(e.get(s, f, x.Cap).(*Term), x.Cap.Type())
		lim := c.BV(64, 1<<47)
		e.guard(s, c.And(c.Ule(n, cp), c.Ule(cp, lim)), "makeslice size")
		if s.dead {
			return nil
		}
		elem := x.Type().Underlying().(*types.Slice).Elem()
		p := e.alloc(s, e.zeroArr(elem, cp))
		return Slice{base: p, off: c.BV(64, 0), n: n, cap: cp}
	case *ssa.MakeMap:
		return e.alloc(s, &MapVal{})
	case *ssa.MakeChan:
		return Opaque{"chan"}
	case *ssa.Slice:
		return e.sliceOp(s, f, x)
	case *ssa.FieldAddr:
		xv := e.get(s, f, x.X)
		p, ok := xv.(Ptr)
		if !ok {
			if o, isO := xv.(Opaque); isO && noopType(x.X.Type()) {
				return o
			}
			panic(unsupported("field address of non pointer"))
		}
		if p.obj == 0 {
			e.doPanic(s, "nil dereference at "+e.curPos(s))
			return nil
		}
		return p.sub(PElem{f: x.Field})
	case *ssa.Field:
		st, ok := e.get(s, f, x.X).(*Struct)
		if !ok {
			panic(unsupported("field of opaque struct"))
		}
		return st.f[x.Field]
	case *ssa.IndexAddr:
		a := e.get(s, f, x.X)
		i := e.idx64(e.get(s, f, x.Index).(*Term), x.Index.Type())
		switch b := a.(type) {
		case Slice:
			e.guard(s, c.Ult(i, b.n), "index in range at "+e.pos(x.Pos()))
			if s.dead {
				return nil
			}
			return b.base.sub(PElem{idx: c.Add(b.off, i)})
		case Ptr:
			n := uint64(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			if b.obj == 0 {
				e.doPanic(s, "nil array")
				return nil
			}
			e.guard(s, c.Ult(i, c.BV(64, n)), "index in range at "+e.pos(x.Pos()))
			if s.dead {
				return nil
			}
			return b.sub(PElem{idx: i})
		}
		panic(unsupported(fmt.Sprintf("index address of %T", a)))
	case *ssa.Index:
		a := e.get(s, f, x.X)
		i := e.idx64(e.get(s, f, x.Index).(*Term), x.Index.Type())
		if st, ok := a.(Str); ok {
			return e.strIndex(s, st, i)
		}
		n := uint64(x.X.Type().Underlying().(*types.Array).Len())
		e.guard(s, c.Ult(i, c.BV(64, n)), "index in range at "+e.pos(x.Pos()))
		if s.dead {
			return nil
		}
		return e.arrGet(a, i)
	case *ssa.Lookup:
		a := e.get(s, f, x.X)
		if st, ok := a.(Str); ok {
			return e.strIndex(s, st, e.idx64(e.get(s, f, x.Index).(*Term), x.Index.Type()))
		}
		panic(unsupported("map lookup"))
	case *ssa.Extract:
		return e.get(s, f, x.Tuple).(Tuple)[x.Index]
	case *ssa.TypeAssert:
		return e.typeAssert(s, f, x)
	case *ssa.Range:
		panic(unsupported("range over map or string"))
	}
	panic(unsupported(fmt.Sprintf("instruction %T at %s", v, e.pos(v.Pos()))))
}

func (e *Exec) strIndex(s *State, st Str, i *Term) Value {
	if st.known {
		e.guard(s, e.c.Ult(i, e.c.BV(64, uint64(len(st.s)))), "string index")
		if s.dead {
			return nil
		}
		if i.isConst() {
			return e.c.BV(8, uint64(st.s[i.val]))
		}
		r := e.c.BV(8, 0)
		for k := range []byte(st.s) {
			r = e.c.Ite(e.c.Eq(i, e.c.BV(64, uint64(k))), e.c.BV(8, uint64(st.s[k])), r)
		}
		return r
	}
	e.guard(s, e.c.Ult(i, e.strLen(st)), "string index")
	return e.c.App(8, "strat", st.id, i)
}
func (e *Exec) strLen(st Str) *Term {
	if st.known {
		return e.c.BV(64, uint64(len(st.s)))
	}
	return e.c.App(64, "strlen", st.id)
}

type MapVal struct{}

func (e *Exec) newErr() uint64 { e.nextErr++; return e.nextErr }

func (e *Exec) typeAssert(s *State, f *Frame, x *ssa.TypeAssert) Value {
	a := e.get(s, f, x.X)
	ok := false
	var v Value
	switch i := a.(type) {
	case Iface:
		if i.t != nil {
			if types.IsInterface(x.AssertedType) {
				if e.isErrorType(i.t) {
					ok = types.Identical(x.AssertedType, i.t)
				} else {
					ok = types.Implements(i.t, x.AssertedType.Underlying().(*types.Interface))
				}
				v = a
				if ok && e.isErrorType(x.AssertedType) {
					if er, is := i.v.(ErrV); is {
						v = er
					} else {
						v = ErrV{e.c.BV(64, e.newErr())}
					}
				}
			} else {
				ok = types.Identical(i.t, x.AssertedType)
				v = i.v
			}
		}
	case ErrV:
		if types.IsInterface(x.AssertedType) && x.AssertedType.Underlying().(*types.Interface).NumMethods() == 0 {
			v, ok = Iface{t: x.X.Type(), v: a}, true
		} else if e.isErrorType(x.AssertedType) {
			v, ok = a, true
		} else {
			if !x.CommaOk {
				panic(unsupported("type assertion on error value"))
			}
			ok = false
		}
	default:
		panic(unsupported(fmt.Sprintf("type assert on %T", a)))
	}
	if !ok {
		v = e.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{v, e.c.Bool(ok)}
	}
	if !ok {
		e.doPanic(s, "type assertion at "+e.pos(x.Pos()))
		return nil
	}
	return v
}

func (e *Exec) sliceOp(s *State, f *Frame, x *ssa.Slice) Value {
	c := e.c
	a := e.get(s, f, x.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.idx64(e.get(s, f, v).(*Term), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.BV(64, 0)
	}
	switch b := a.(type) {
	case Slice:
		if hi == nil {
			hi = b.n
		}
		cp := b.cap
		if mx != nil {
			e.guard(s, c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, b.cap)), "slice bounds at "+e.pos(x.Pos()))
			cp = mx
		} else {
			e.guard(s, c.And(c.Ule(lo, hi), c.Ule(hi, b.cap)), "slice bounds at "+e.pos(x.Pos()))
		}
		if s.dead {
			return nil
		}
		return Slice{base: b.base, off: c.Add(b.off, lo), n: c.Sub(hi, lo), cap: c.Sub(cp, lo)}
	case Ptr:
		n := c.BV(64, uint64(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		if b.obj == 0 {
			e.doPanic(s, "nil array slice")
			return nil
		}
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		e.guard(s, c.And(c.Ule(lo, hi), c.Ule(hi, cp), c.Ule(cp, n)), "slice bounds at "+e.pos(x.Pos()))
		if s.dead {
			return nil
		}
		return Slice{base: b, off: lo, n: c.Sub(hi, lo), cap: c.Sub(cp, lo)}
	case Str:
		if b.known && lo.isConst() && (hi == nil || hi.isConst()) {
			h := uint64(len(b.s))
			if hi != nil {
				h = hi.val
			}
			if lo.val <= h && h <= uint64(len(b.s)) {
				return Str{s: b.s[lo.val:h], known: true}
			}
		}
		return Str{id: c.Fresh(64, "str")}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", a)))
}

func (e *Exec) convert(s *State, a Value, from, to types.Type) Value {
	c := e.c
	if t, ok := a.(*Term); ok {
		tw, tok := scalarWidth(to)
		if !tok {
			if isString(to) {
				return Str{id: c.Fresh(64, "str")}
			}
			if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				panic(unsupported("integer to pointer"))
			}
			panic(unsupported("convert scalar to " + to.String()))
		}
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case ff && tf:
			if t.w == tw {
				return t
			}
			return c.App(tw, "f2f", t)
		case ff:
			return c.App(tw, fmt.Sprintf("f2i%v", isSigned(to)), t)
		case tf:
			return c.App(tw, fmt.Sprintf("i2f%v", isSigned(from)), t)
		}
		switch {
		case tw == t.w:
			return t
		case tw < t.w:
			return c.Extract(t, 0, tw)
		case isSigned(from):
			return c.SExt(t, tw)
		default:
			return c.ZExt(t, tw)
		}
	}
	if p, ok := a.(Ptr); ok {
		if tw, tok := scalarWidth(to); tok && tw == 64 {
			return e.address(s, p)
		}
		return p
	}
	if st, ok := a.(Str); ok {
		if isString(to) {
			return st
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if st.known {
				n := c.BV(64, uint64(len(st.s)))
				arr := e.zeroArr(sl.Elem(), n).(*ArrVal)
				for i := range []byte(st.s) {
					arr.leaves[0] = c.Store(arr.leaves[0], c.BV(64, uint64(i)), c.BV(8, uint64(st.s[i])))
				}
				p := e.alloc(s, arr)
				return Slice{base: p, off: c.BV(64, 0), n: n, cap: n}
			}
			n := e.strLen(st)
			b := c.FreshBound(64)
			arr := &ArrVal{elem: sl.Elem(), n: n, leaves: []*Arr{c.ALamA(b, c.App(8, "strat", st.id, b))}}
			p := e.alloc(s, arr)
			return Slice{base: p, off: c.BV(64, 0), n: n, cap: n}
		}
	}
	if sl, ok := a.(Slice); ok && isString(to) {
		id := c.Fresh(64, "str")
		e.assume(s, c.Eq(c.App(64, "strlen", id), sl.n))
		return Str{id: id}
	}
	panic(unsupported(fmt.Sprintf("convert %T to %s", a, to)))
}

func (e *Exec) address(s *State, p Ptr) *Term {
	c := e.c
	if p.obj == 0 {
		return c.BV(64, 0)
	}
	t := c.Var(64, fmt.Sprintf("addr!%d", p.obj))
	e.assume(s, c.Ult(t, c.BV(64, 1<<47))) // addresses of programs end there
	// only byte arrays are supported below the object
	if len(p.path) == 0 {
		return t
	}
	if len(p.path) == 1 && p.path[0].idx != nil {
		if av, ok := s.heap[p.obj].(*ArrVal); ok && len(av.leaves) == 1 && av.leaves[0].w == 8 {
			return c.Add(t, p.path[0].idx)
		}
	}
	panic(unsupported("address of interior pointer"))
}

func (e *Exec) binop(s *State, x *ssa.BinOp, a, b Value) Value {
	c := e.c
	switch x.Op {
	case token.EQL:
		return e.equal(s, a, b)
	case token.NEQ:
		return c.Not(e.equal(s, a, b))
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		switch x.Op {
		case token.ADD:
			if sa.known && sb.known {
				return Str{s: sa.s + sb.s, known: true}
			}
			return Str{id: c.Fresh(64, "str")}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if sa.known && sb.known {
				switch x.Op {
				case token.LSS:
					return c.Bool(sa.s < sb.s)
				case token.LEQ:
					return c.Bool(sa.s <= sb.s)
				case token.GTR:
					return c.Bool(sa.s > sb.s)
				}
				return c.Bool(sa.s >= sb.s)
			}
			return c.Fresh(0, "strcmp")
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T,%T", x.Op, a, b)))
	}
	t := x.X.Type()
	if isFloat(t) {
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return c.App(p.w, "f"+x.Op.String(), p, q)
		default:
			return c.App(0, "f"+x.Op.String(), p, q)
		}
	}
	sg := isSigned(t)
	switch x.Op {
	case token.ADD:
		return c.Add(p, q)
	case token.SUB:
		return c.Sub(p, q)
	case token.MUL:
		return c.Mul(p, q)
	case token.QUO, token.REM:
		e.guard(s, c.Not(c.Eq(q, c.BV(q.w, 0))), "division by zero at "+e.pos(x.Pos()))
		if s.dead {
			return nil
		}
		if x.Op == token.QUO {
			if sg {
				return c.SDiv(p, q)
			}
			return c.UDiv(p, q)
		}
		if sg {
			return c.SRem(p, q)
		}
		return c.URem(p, q)
	case token.AND:
		if p.w == 0 {
			return c.And(p, q)
		}
		return c.BAnd(p, q)
	case token.OR:
		if p.w == 0 {
			return c.Or(p, q)
		}
		return c.BOr(p, q)
	case token.XOR:
		return c.BXor(p, q)
	case token.AND_NOT:
		return c.BAnd(p, c.BNot(q))
	case token.SHL, token.SHR:
		cs := isSigned(x.Y.Type())
		if cs {
			e.guard(s, c.Not(c.Slt(q, c.BV(q.w, 0))), "negative shift")
			if s.dead {
				return nil
			}
		}
		cnt := q
		if q.w > p.w {
			cnt = c.Ite(c.Ult(q, c.BV(q.w, uint64(p.w))), c.Extract(q, 0, p.w), c.BV(p.w, uint64(p.w)))
		} else if q.w < p.w {
			cnt = c.ZExt(q, p.w)
		}
		if x.Op == token.SHL {
			return c.Shl(p, cnt)
		}
		if sg {
			return c.AShr(p, cnt)
		}
		return c.LShr(p, cnt)
	case token.LSS:
		if sg {
			return c.Slt(p, q)
		}
		return c.Ult(p, q)
	case token.LEQ:
		if sg {
			return c.Sle(p, q)
		}
		return c.Ule(p, q)
	case token.GTR:
		if sg {
			return c.Slt(q, p)
		}
		return c.Ult(q, p)
	case token.GEQ:
		if sg {
			return c.Sle(q, p)
		}
		return c.Ule(q, p)
	}
	panic(unsupported("binop " + x.Op.String()))
}

func (e *Exec) equal(s *State, a, b Value) *Term {
	c := e.c
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case ErrV:
		if y, ok := b.(ErrV); ok {
			return c.Eq(x.id, y.id)
		}
		if y, ok := b.(Iface); ok && y.t == nil {
			return c.Eq(x.id, c.BV(64, 0))
		}
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			break
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return c.F
		}
		r := c.T
		for i := range x.path {
			if (x.path[i].idx == nil) != (y.path[i].idx == nil) {
				return c.F
			}
			if x.path[i].idx != nil {
				r = c.And(r, c.Eq(x.path[i].idx, y.path[i].idx))
			} else if x.path[i].f != y.path[i].f {
				return c.F
			}
		}
		return r
	case Slice: // only comparable with nil
		y, ok := b.(Slice)
		if ok && y.base.obj == 0 {
			return c.Bool(x.base.obj == 0)
		}
		if ok && x.base.obj == 0 {
			return c.Bool(y.base.obj == 0)
		}
	case Func:
		y := b.(Func)
		return c.Bool(x.fn == y.fn)
	case Str:
		y := b.(Str)
		if x.known && y.known {
			return c.Bool(x.s == y.s)
		}
		if x.id != nil && y.id != nil {
			return c.Or(c.Eq(x.id, y.id), c.Fresh(0, "streq"))
		}
		return c.Fresh(0, "streq")
	case *Struct:
		y := b.(*Struct)
		r := c.T
		for i := range x.f {
			r = c.And(r, e.equal(s, x.f[i], y.f[i]))
		}
		return r
	case *ArrVal:
		y := b.(*ArrVal)
		if x.n.isConst() && x.n.val <= 64 {
			r := c.T
			for i := uint64(0); i < x.n.val; i++ {
				for k := range x.leaves {
					r = c.And(r, c.Eq(c.Sel(x.leaves[k], c.BV(64, i)), c.Sel(y.leaves[k], c.BV(64, i))))
				}
			}
			return r
		}
	case Iface:
		switch y := b.(type) {
		case Iface:
			if x.t == nil || y.t == nil {
				return c.Bool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return c.F
			}
			return e.equal(s, x.v, y.v)
		}
	case Opaque:
		if _, ok := b.(Opaque); ok {
			return c.Fresh(0, "opaqueeq")
		}
		if p, ok := b.(Ptr); ok && p.obj == 0 {
			return c.F
		}
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}

// hasQuant reports whether a quantifier occurs in the boolean structure of t.
func hasQuant(t *Term) bool {
	switch t.op {
	case OpForall:
		return true
	case OpNot, OpAnd, OpOr, OpIte, OpEq:
		for _, a := range t.args {
			if hasQuant(a) {
				return true
			}
		}
	}
	return false
}
