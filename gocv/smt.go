package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/bits"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ------------------------------------------------------- quantifier handling

type quant struct {
	t     *Term
	proxy *Term
	pol   int // 1 positive, 2 negative
	sk    bool
	done  map[string]bool
	pats  [][]pattern
}

type pattern struct {
	arr  *Arr   // family (base array); nil for an equality candidate
	name string // or UF name with argument position
	pos  int
	rest *Term // index = b + rest
	rot  int   // index = rotate of b: low `rot` bits of b are the high part (0: none)
	cand *Term
}

type Prep struct {
	c      *Ctx
	qs     map[*Term]*quant
	order  []*quant
	out    []*Term
	seen   map[*Term]bool
	digs   []*Term
	digSet map[*Term]bool
	pairs  map[[2]int]bool
	memo   map[*Term]*Term
	pool   map[string]map[*Term]bool
	walked map[*Term]bool
	insts  int
	trunc  bool
	polMem map[*Term]int
}

func famA(a *Arr) string             { return "a:" + a.name }
func famU(name string, i int) string { return fmt.Sprintf("u:%s:%d", name, i) }

func (c *Ctx) Prepare(asserts []*Term, rounds, capInst int) (out []*Term, p *Prep) {
	p = &Prep{c: c, qs: map[*Term]*quant{}, seen: map[*Term]bool{}, digSet: map[*Term]bool{}, pairs: map[[2]int]bool{}, memo: map[*Term]*Term{}, pool: map[string]map[*Term]bool{}, walked: map[*Term]bool{}, polMem: map[*Term]int{}}
	for _, a := range asserts {
		p.add(a)
	}
	for r := 0; r < rounds; r++ {
		n0 := len(p.out)
		// skolemize negative quantifiers
		for i := 0; i < len(p.order); i++ {
			q := p.order[i]
			if q.pol&2 != 0 && !q.sk {
				q.sk = true
				m := map[uint64]*Term{}
				for k, b := range q.t.args[1:] {
					m[q.t.coefs[k]] = c.Fresh(b.w, "sk")
				}
				p.add(c.Or(q.proxy, c.Not(c.Subst(q.t.args[0], m))))
			}
		}
		// digest extensionality
		for i := 0; i < len(p.digs); i++ {
			for j := 0; j < i; j++ {
				p.digPair(p.digs[i], p.digs[j])
			}
		}
		// snapshot pools, instantiate
		type inst struct {
			q *quant
			m map[uint64]*Term
		}
		var todo []inst
		for i := 0; i < len(p.order); i++ {
			q := p.order[i]
			if q.pol&1 == 0 {
				continue
			}
			if q.pats == nil {
				q.pats = p.patterns(q.t)
			}
			var cands [][]*Term
			for k := range q.t.coefs {
				set := map[*Term]bool{}
				for _, pt := range q.pats[k] {
					if pt.cand != nil {
						set[pt.cand] = true
						continue
					}
					key := pt.name
					for g := range p.pool[key] {
						w := q.t.args[1+k].w
						x := g
						if pt.rest != nil {
							x = c.Sub(g, pt.rest)
						}
						if pt.rot > 0 {
							// g = concat(b[0:rot], b[rot:w])  => b = concat(g[0:w-rot], g[w-rot:w])
							x = c.Concat(c.Extract(g, 0, w-pt.rot), c.Extract(g, w-pt.rot, pt.rot))
						}
						if x.w == w {
							set[x] = true
						}
					}
				}
				var l []*Term
				for t := range set {
					l = append(l, t)
				}
				sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
				cands = append(cands, l)
			}
			idx := make([]int, len(cands))
			empty := false
			for _, l := range cands {
				if len(l) == 0 {
					empty = true
				}
			}
			if empty {
				continue
			}
			for {
				key := ""
				m := map[uint64]*Term{}
				for k := range cands {
					key += fmt.Sprint(cands[k][idx[k]].id, ",")
					m[q.t.coefs[k]] = cands[k][idx[k]]
				}
				if !q.done[key] {
					q.done[key] = true
					todo = append(todo, inst{q, m})
				}
				k := 0
				for ; k < len(idx); k++ {
					idx[k]++
					if idx[k] < len(cands[k]) {
						break
					}
					idx[k] = 0
				}
				if k == len(idx) {
					break
				}
			}
		}
		for _, it := range todo {
			if p.insts >= capInst {
				p.trunc = true
				break
			}
			p.insts++
			p.add(c.Or(c.Not(it.q.proxy), c.Subst(it.q.t.args[0], it.m)))
		}
		if len(p.out) == n0 {
			break
		}
	}
	// final digest pass
	for i := 0; i < len(p.digs); i++ {
		for j := 0; j < i; j++ {
			p.digPair(p.digs[i], p.digs[j])
		}
	}
	return p.out, p
}

func (p *Prep) digPair(a, b *Term) {
	if a.name != b.name {
		return
	}
	k := [2]int{a.id, b.id}
	if p.pairs[k] {
		return
	}
	p.pairs[k] = true
	c := p.c
	sk := c.Fresh(64, "dsk")
	diff := c.And(c.Ult(sk, a.args[2]), c.Not(c.Eq(c.Sel(a.arr, c.Add(a.args[1], sk)), c.Sel(b.arr, c.Add(b.args[1], sk)))))
	p.add(c.Or(c.Eq(a, b), c.Not(c.Eq(a.args[0], b.args[0])), c.Not(c.Eq(a.args[2], b.args[2])), diff))
}

func (p *Prep) add(a *Term) {
	p.polarity(a, 1)
	t := p.strip(a)
	if t.isTrue() || p.seen[t] {
		return
	}
	p.seen[t] = true
	p.out = append(p.out, t)
	p.collect(t)
}

func (p *Prep) polarity(t *Term, pol int) {
	if t.w != 0 || t.isConst() {
		if t.w != 0 {
			p.polDeep(t)
		}
		return
	}
	if p.polMem[t]&pol == pol {
		return
	}
	p.polMem[t] |= pol
	flip := (pol&1)<<1 | (pol&2)>>1
	switch t.op {
	case OpNot:
		p.polarity(t.args[0], flip)
	case OpAnd, OpOr:
		for _, a := range t.args {
			p.polarity(a, pol)
		}
	case OpIte:
		p.polarity(t.args[0], 3)
		p.polarity(t.args[1], pol)
		p.polarity(t.args[2], pol)
	case OpForall:
		q := p.qs[t]
		if q == nil {
			q = &quant{t: t, proxy: p.c.Var(0, fmt.Sprintf("q!%d", t.id)), done: map[string]bool{}}
			p.qs[t] = q
			p.order = append(p.order, q)
		}
		q.pol |= pol
	default:
		for _, a := range t.args {
			if a.w == 0 {
				p.polarity(a, 3)
			} else {
				p.polDeep(a)
			}
		}
	}
}
func (p *Prep) polDeep(t *Term) {
	if p.polMem[t] == 3 {
		return
	}
	p.polMem[t] = 3
	for _, a := range t.args {
		if a.w == 0 {
			p.polarity(a, 3)
		} else {
			p.polDeep(a)
		}
	}
}

func (p *Prep) strip(t *Term) *Term {
	if t.op == OpForall {
		return p.qs[t].proxy
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := p.memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = p.strip(a)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = p.c.rebuild(t, args, t.arr)
	}
	p.memo[t] = r
	return r
}

func (p *Prep) collect(t *Term) {
	if p.walked[t] {
		return
	}
	p.walked[t] = true
	put := func(k string, x *Term) {
		m := p.pool[k]
		if m == nil {
			m = map[*Term]bool{}
			p.pool[k] = m
		}
		m[x] = true
	}
	switch t.op {
	case OpSel:
		put(famA(t.arr), t.args[0])
	case OpApp:
		for i, a := range t.args {
			put(famU(t.name, i), a)
		}
	case OpDigest:
		if !p.digSet[t] {
			p.digSet[t] = true
			p.digs = append(p.digs, t)
		}
	}
	for _, a := range t.args {
		p.collect(a)
	}
}

// patterns: how ground terms suggest instances for each bound variable.
func (p *Prep) patterns(q *Term) [][]pattern {
	res := make([][]pattern, len(q.coefs))
	pos := map[uint64]int{}
	for i, b := range q.coefs {
		pos[b] = i
	}
	seen := map[*Term]bool{}
	dup := map[string]bool{}
	addp := func(i int, pt pattern) {
		k := fmt.Sprint(i, pt.name, tid(pt.rest), pt.rot, tid(pt.cand))
		if dup[k] {
			return
		}
		dup[k] = true
		res[i] = append(res[i], pt)
	}
	match := func(idx *Term, fam string) {
		if idx.op == OpBound {
			if i, ok := pos[idx.val]; ok {
				addp(i, pattern{name: fam})
			}
			return
		}
		if idx.op == OpLin {
			for k, a := range idx.args {
				if a.op == OpBound && idx.coefs[k] == 1 {
					if i, ok := pos[a.val]; ok {
						rest := p.c.Sub(idx, a)
						if !rest.bound {
							addp(i, pattern{name: fam, rest: rest})
						}
					}
				}
			}
			return
		}
		if idx.op == OpConcat && idx.args[0].op == OpExtract && idx.args[1].op == OpExtract {
			h, l := idx.args[0], idx.args[1]
			if h.args[0] == l.args[0] && h.args[0].op == OpBound && h.val == 0 && l.val == uint64(h.w) && l.w+h.w == h.args[0].w {
				if i, ok := pos[h.args[0].val]; ok {
					addp(i, pattern{name: fam, rot: h.w})
				}
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound && t.op != OpForall {
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OpSel:
			match(t.args[0], famA(t.arr))
		case OpApp:
			for i, a := range t.args {
				match(a, famU(t.name, i))
			}
		case OpEq:
			for s := 0; s < 2; s++ {
				a, b := t.args[s], t.args[1-s]
				if a.op == OpBound && !b.bound {
					if i, ok := pos[a.val]; ok {
						addp(i, pattern{cand: b})
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(q.args[0])
	return res
}

// ------------------------------------------------------------- SMT printing

type Printer struct {
	names map[*Term]string
	decl  map[string]bool
	b     strings.Builder
}

func NewPrinter() *Printer { return &Printer{names: map[*Term]string{}, decl: map[string]bool{}} }

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func bvLit(w int, v uint64) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

func (p *Printer) declare(name string, args []int, w int) {
	if p.decl[name] {
		return
	}
	p.decl[name] = true
	p.b.WriteString("(declare-fun |" + name + "| (")
	for i, a := range args {
		if i > 0 {
			p.b.WriteByte(' ')
		}
		p.b.WriteString(sortOf(a))
	}
	p.b.WriteString(") " + sortOf(w) + ")\n")
}

// T returns an SMT expression for t, emitting definitions first.
func (p *Printer) T(t *Term) string {
	if s, ok := p.names[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return bvLit(t.w, t.val)
	case OpVar:
		p.declare(t.name, nil, t.w)
		s = "|" + t.name + "|"
		p.names[t] = s
		return s
	case OpDigest:
		n := fmt.Sprintf("dig!%d", t.id)
		p.declare(n, nil, t.w)
		s = "|" + n + "|"
		p.names[t] = s
		return s
	}
	a := make([]string, len(t.args))
	for i, x := range t.args {
		a[i] = p.T(x)
	}
	j := strings.Join(a, " ")
	switch t.op {
	case OpNot:
		s = "(not " + j + ")"
	case OpAnd:
		s = "(and " + j + ")"
	case OpOr:
		s = "(or " + j + ")"
	case OpIte:
		s = "(ite " + j + ")"
	case OpEq:
		s = "(= " + j + ")"
	case OpUlt:
		s = "(bvult " + j + ")"
	case OpSlt:
		s = "(bvslt " + j + ")"
	case OpLin:
		var parts []string
		for i, x := range a {
			co := t.coefs[i]
			switch {
			case co == 1:
				parts = append(parts, x)
			case co == mask(t.w):
				parts = append(parts, "(bvneg "+x+")")
			default:
				parts = append(parts, "(bvmul "+bvLit(t.w, co)+" "+x+")")
			}
		}
		if t.val != 0 {
			parts = append(parts, bvLit(t.w, t.val))
		}
		if len(parts) == 1 {
			s = parts[0]
		} else {
			s = "(bvadd " + strings.Join(parts, " ") + ")"
		}
	case OpMul:
		s = "(bvmul " + j + ")"
	case OpUDiv:
		s = "(bvudiv " + j + ")"
	case OpURem:
		s = "(bvurem " + j + ")"
	case OpSDiv:
		s = "(bvsdiv " + j + ")"
	case OpSRem:
		s = "(bvsrem " + j + ")"
	case OpBAnd:
		s = "(bvand " + j + ")"
	case OpBOr:
		s = "(bvor " + j + ")"
	case OpBXor:
		s = "(bvxor " + j + ")"
	case OpShl:
		s = "(bvshl " + j + ")"
	case OpLShr:
		s = "(bvlshr " + j + ")"
	case OpAShr:
		s = "(bvashr " + j + ")"
	case OpZExt:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, j)
	case OpSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, j)
	case OpExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+t.w-1, t.val, j)
	case OpConcat:
		s = "(concat " + j + ")"
	case OpApp:
		ws := make([]int, len(t.args))
		for i, x := range t.args {
			ws[i] = x.w
		}
		p.declare(t.name, ws, t.w)
		if len(a) == 0 {
			s = "|" + t.name + "|"
		} else {
			s = "(|" + t.name + "| " + j + ")"
		}
	case OpSel:
		p.declare(t.arr.name, []int{64}, t.w)
		s = "(|" + t.arr.name + "| " + j + ")"
	default:
		panic("print " + t.String())
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, sortOf(t.w), s)
	p.names[t] = n
	return n
}

func (p *Printer) Take() string {
	s := p.b.String()
	p.b.Reset()
	return s
}

// ---------------------------------------------------------- solver processes

type IncSolver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *Printer
	calls int
	dead  bool
}

var solverNanos [4]int64 // per back end
var solverCalls [4]int64
var backends = []string{"z3-new", "z3", "cvc5", "z3-new(incremental)"}

func NewInc() *IncSolver {
	s := &IncSolver{}
	s.start()
	return s
}
func (s *IncSolver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-memory:3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	s.p = NewPrinter()
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	io.WriteString(s.in, "(set-option :timeout 400)\n(set-option :print-success false)\n")
}
func (s *IncSolver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Check returns "sat","unsat","unknown".
func (s *IncSolver) Check(asserts []*Term) string {
	if s.dead {
		return "unknown"
	}
	s.calls++
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverNanos[3], int64(time.Since(t0)))
		atomic.AddInt64(&solverCalls[3], 1)
	}()
	if s.calls%400 == 0 { // keep the process small
		s.Close()
		s.start()
	}
	var names []string
	for _, a := range asserts {
		names = append(names, s.p.T(a))
	}
	var b strings.Builder
	b.WriteString(s.p.Take())
	b.WriteString("(push)\n")
	for _, n := range names {
		b.WriteString("(assert " + n + ")\n")
	}
	b.WriteString("(check-sat)\n(pop)\n")
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.dead = true
		return "unknown"
	}
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			s.start()
			return "unknown"
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			if l == "timeout" {
				l = "unknown"
			}
			return l
		}
		if strings.HasPrefix(l, "(error") {
			panic("solver error: " + l)
		}
	}
}

func runSolver(ctx context.Context, be int, text string, timeout time.Duration) (string, string) {
	var cmd *exec.Cmd
	ctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	secs := int(timeout / time.Second)
	if secs < 1 {
		secs = 1
	}
	switch be {
	case 0:
		cmd = exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-T:%d", secs), "-memory:3500")
	case 1:
		cmd = exec.CommandContext(ctx, "z3", "-in", fmt.Sprintf("-T:%d", secs), "-memory:3500")
	case 2:
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", secs*1000))
		text = "(set-logic QF_UFBV)\n" + text
	}
	cmd.Stdin = strings.NewReader(text)
	t0 := time.Now()
	o, _ := cmd.Output()
	atomic.AddInt64(&solverNanos[be], int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls[be], 1)
	s := string(o)
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	rest := ""
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		rest = s[i+1:]
	}
	if first != "sat" && first != "unsat" {
		return "unknown", s
	}
	return first, rest
}

var solverSem = make(chan struct{}, 8)

// Solve decides one SMT2 text: a quick attempt, then a portfolio.
func Solve(text string, quick, long time.Duration) (res, rest, by string) {
	if rem := time.Until(deadline); rem < quick+long {
		if rem < time.Second {
			return "unknown", "", outOfBudget
		}
		if long > rem {
			long = rem
		}
	}
	solverSem <- struct{}{}
	if time.Until(deadline) < time.Second {
		<-solverSem
		return "unknown", "", outOfBudget
	}
	res, rest = runSolver(context.Background(), 0, text, quick)
	<-solverSem
	if res != "unknown" {
		return res, rest, backends[0]
	}
	if long == 0 {
		return res, rest, ""
	}
	type R struct {
		res, rest string
		be        int
	}
	ch := make(chan R, 3)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for be := 0; be < 3; be++ {
		be := be
		wg.Add(1)
		go func() {
			defer wg.Done()
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			if ctx.Err() != nil {
				ch <- R{"unknown", "", be}
				return
			}
			r, m := runSolver(ctx, be, text, long)
			ch <- R{r, m, be}
		}()
	}
	for i := 0; i < 3; i++ {
		r := <-ch
		if r.res != "unknown" {
			cancel()
			return r.res, r.rest, backends[r.be]
		}
		rest = r.rest
	}
	if time.Until(deadline) < time.Second {
		by = outOfBudget
	}
	return "unknown", rest, by
}

// deadline bounds the whole check; obligations not decided by then are
// undecided, they are not reported as violations.
var deadline = time.Now().Add(time.Hour)

const outOfBudget = "time budget"

var _ = bits.Len64
