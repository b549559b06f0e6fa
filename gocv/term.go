package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- terms
//
// Terms are hash-consed per Ctx.  w==0 means Bool, otherwise a bit-vector of
// that width (1..64).  Machine integers are exact bit-vectors everywhere.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpBound
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpLin // sum of coeff*arg + val
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract // val = lo ; w = width
	OpConcat
	OpApp    // uninterpreted function name(args)
	OpSel    // base-array application: arr[args[0]]
	OpDigest // digest of arr bytes: args h, off, n
	OpForall // bound ids in coeffs; body args[0]
)

type Term struct {
	id    int
	op    Op
	w     int
	val   uint64
	name  string
	args  []*Term
	coefs []uint64
	arr   *Arr
	bound bool // contains free bound variables

	rlo, rhi uint64 // urange, once rok
	zbits    uint64 // zeros, once zok
	rok, zok bool
}

type Ctx struct {
	tab      map[string]*Term
	atab     map[string]*Arr
	nextID   int
	fresh    int
	bnd      int
	boundW   map[uint64]int
	T, F     *Term
	selMemo  map[[2]int]*Term
	extMemo  map[[3]int]*Term
	substMem map[string]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{boundW: map[uint64]int{}, tab: map[string]*Term{}, atab: map[string]*Arr{}, selMemo: map[[2]int]*Term{}, extMemo: map[[3]int]*Term{}}
	c.T = c.mk(&Term{op: OpConst, w: 0, val: 1})
	c.F = c.mk(&Term{op: OpConst, w: 0, val: 0})
	return c
}

func (c *Ctx) key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d,%d,%d,%s", t.op, t.w, t.val, t.name)
	for _, a := range t.args {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, k := range t.coefs {
		fmt.Fprintf(&b, "*%d", k)
	}
	if t.arr != nil {
		fmt.Fprintf(&b, "@%d", t.arr.id)
	}
	return b.String()
}

func (c *Ctx) mk(t *Term) *Term {
	k := c.key(t)
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.nextID++
	t.id = c.nextID
	if t.op == OpBound {
		t.bound = true
	}
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
	}
	if t.arr != nil && t.arr.bound {
		t.bound = true
	}
	if t.op == OpForall {
		// closed iff free bound vars of the body are only ours
		t.bound = len(c.freeBound(t)) > 0
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) freeBound(t *Term) map[uint64]bool {
	res := map[uint64]bool{}
	seen := map[*Term]bool{}
	aseen := map[*Arr]bool{}
	var walk func(t *Term, excl map[uint64]bool)
	var walkA func(a *Arr, excl map[uint64]bool)
	walk = func(t *Term, excl map[uint64]bool) {
		if len(excl) == 0 {
			if seen[t] {
				return
			}
			seen[t] = true
		}
		if t.op == OpBound {
			if !excl[t.val] {
				res[t.val] = true
			}
			return
		}
		if t.op == OpForall {
			e2 := map[uint64]bool{}
			for k := range excl {
				e2[k] = true
			}
			for _, b := range t.coefs {
				e2[b] = true
			}
			excl = e2
		} else if t.id != 0 && !t.bound {
			return
		}
		for _, a := range t.args {
			walk(a, excl)
		}
		if t.arr != nil {
			walkA(t.arr, excl)
		}
	}
	walkA = func(a *Arr, excl map[uint64]bool) {
		if a == nil || !a.bound {
			return
		}
		if len(excl) == 0 {
			if aseen[a] {
				return
			}
			aseen[a] = true
		}
		for _, x := range a.terms() {
			walk(x, excl)
		}
		for _, x := range a.subs() {
			walkA(x, excl)
		}
	}
	walk(t, nil)
	return res
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) BV(w int, v uint64) *Term { return c.mk(&Term{op: OpConst, w: w, val: v & mask(w)}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Var(w int, name string) *Term { return c.mk(&Term{op: OpVar, w: w, name: name}) }
func (c *Ctx) Fresh(w int, hint string) *Term {
	c.fresh++
	return c.Var(w, fmt.Sprintf("%s!%d", sanitize(hint), c.fresh))
}
func (c *Ctx) FreshBound(w int) *Term {
	c.bnd++
	c.boundW[uint64(c.bnd)] = w
	return c.mk(&Term{op: OpBound, w: w, val: uint64(c.bnd)})
}

func sanitize(s string) string {
	r := []byte(s)
	for i, ch := range r {
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_' || ch == '.' || ch == '!') {
			r[i] = '_'
		}
	}
	return string(r)
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return c.mk(&Term{op: OpNot, args: []*Term{a}})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OpAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OpOr, xs) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OpOr {
		unit, zero = c.F, c.T
	}
	m := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if m[x] {
			return true
		}
		if m[c.Not(x)] {
			return false
		}
		m[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, args: out})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OpIte, w: a.w, args: []*Term{cond, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d (%s, %s)", a.w, b.w, a, b))
	}
	if a == b {
		return c.T
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.F
		}
	} else {
		if a.isConst() && b.isConst() {
			return c.Bool(a.val == b.val)
		}
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.val == 0)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if lo, hi := c.urange(a); b.val < lo || b.val > hi {
				return c.F
			}
			if a.op == OpZExt {
				return c.Eq(a.args[0], c.BV(a.args[0].w, b.val))
			}
			if a.op == OpIte {
				x, y := a.args[1], a.args[2]
				if x.isConst() || y.isConst() {
					ex, ey := c.Eq(x, b), c.Eq(y, b)
					if ex.isConst() || ey.isConst() {
						return c.Ite(a.args[0], ex, ey)
					}
				}
			}
			if a.op == OpConcat {
				lw := a.args[1].w
				return c.And(c.Eq(a.args[0], c.BV(a.args[0].w, b.val>>uint(lw))), c.Eq(a.args[1], c.BV(lw, b.val)))
			}
		}
		if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		// move constants of linear forms: x+c1 = y+c2  ->  x = y+(c2-c1) is left to the solver
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpEq, args: []*Term{a, b}})
}

// urange: cheap unsigned interval
func (c *Ctx) urange(t *Term) (uint64, uint64) {
	if !t.rok {
		t.rlo, t.rhi = c.urange1(t)
		t.rok = true
	}
	return t.rlo, t.rhi
}

func (c *Ctx) urange1(t *Term) (uint64, uint64) {
	switch t.op {
	case OpConst:
		return t.val, t.val
	case OpZExt:
		return c.urange(t.args[0])
	case OpURem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			return 0, t.args[1].val - 1
		}
	case OpUDiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			l, h := c.urange(t.args[0])
			return l / t.args[1].val, h / t.args[1].val
		}
	case OpIte:
		l1, h1 := c.urange(t.args[1])
		l2, h2 := c.urange(t.args[2])
		return min(l1, l2), max(h1, h2)
	case OpConcat:
		l1, h1 := c.urange(t.args[0])
		l2, h2 := c.urange(t.args[1])
		s := uint(t.args[1].w)
		return l1<<s | l2, h1<<s | h2
	case OpLin:
		// no-overflow sums only, positive coefficients
		lo, hi := t.val, t.val
		for i, a := range t.args {
			l, h := c.urange(a)
			ov, h2 := bits.Mul64(h, t.coefs[i])
			if ov != 0 {
				return 0, mask(t.w)
			}
			s, carry := bits.Add64(hi, h2, 0)
			if carry != 0 || s > mask(t.w) {
				return 0, mask(t.w)
			}
			hi = s
			lo += l * t.coefs[i]
		}
		return lo, hi
	}
	return 0, mask(t.w)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ult width %d %d", a.w, b.w))
	}
	if a == b {
		return c.F
	}
	la, ha := c.urange(a)
	lb, hb := c.urange(b)
	if ha < lb {
		return c.T
	}
	if la >= hb {
		return c.F
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	if b.isConst() && b.val == 1 {
		return c.Eq(a, c.BV(a.w, 0))
	}
	return c.mk(&Term{op: OpUlt, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("slt width %d %d", a.w, b.w))
	}
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	_, ha := c.urange(a)
	_, hb := c.urange(b)
	half := uint64(1) << uint(a.w-1)
	if ha < half && hb < half {
		return c.Ult(a, b)
	}
	return c.mk(&Term{op: OpSlt, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- linear normal form

func (c *Ctx) linOf(t *Term) (map[*Term]uint64, uint64) {
	if t.op == OpConst {
		return nil, t.val
	}
	if t.op == OpLin {
		m := map[*Term]uint64{}
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return m, t.val
	}
	return map[*Term]uint64{t: 1}, 0
}

func (c *Ctx) mkLin(w int, m map[*Term]uint64, k uint64) *Term {
	mk := mask(w)
	k &= mk
	var ts []*Term
	for t, co := range m {
		if co&mk != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return c.BV(w, k)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && k == 0 && m[ts[0]]&mk == 1 {
		return ts[0]
	}
	co := make([]uint64, len(ts))
	for i, t := range ts {
		co[i] = m[t] & mk
	}
	return c.mk(&Term{op: OpLin, w: w, val: k, args: ts, coefs: co})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("add width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.BV(a.w, a.val+b.val)
	}
	m, k := c.linOf(a)
	m2, k2 := c.linOf(b)
	r := map[*Term]uint64{}
	for t, v := range m {
		r[t] += v
	}
	for t, v := range m2 {
		r[t] += v
	}
	return c.mkLin(a.w, r, k+k2)
}
func (c *Ctx) MulC(a *Term, k uint64) *Term {
	m, kk := c.linOf(a)
	r := map[*Term]uint64{}
	for t, v := range m {
		r[t] = v * k
	}
	return c.mkLin(a.w, r, kk*k)
}
func (c *Ctx) Neg(a *Term) *Term    { return c.MulC(a, ^uint64(0)) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulC(b, a.val)
	}
	if b.isConst() {
		return c.MulC(a, b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

func isPow2(v uint64) bool { return v != 0 && v&(v-1) == 0 }

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.BV(a.w, a.val/b.val)
		}
		if isPow2(b.val) {
			return c.LShr(a, c.BV(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return c.Ite(c.Eq(b.args[0], c.BV(b.args[0].w, 0)), c.mk(&Term{op: OpUDiv, w: a.w, args: []*Term{a, b}}), c.ZExt(c.UDiv(a.args[0], b.args[0]), a.w))
	}
	return c.mk(&Term{op: OpUDiv, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) URem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.BV(a.w, a.val%b.val)
		}
		if isPow2(b.val) {
			k := bits.TrailingZeros64(b.val)
			if k == 0 {
				return c.BV(a.w, 0)
			}
			return c.ZExt(c.Extract(a, 0, k), a.w)
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return c.Ite(c.Eq(b.args[0], c.BV(b.args[0].w, 0)), c.mk(&Term{op: OpURem, w: a.w, args: []*Term{a, b}}), c.ZExt(c.URem(a.args[0], b.args[0]), a.w))
	}
	return c.mk(&Term{op: OpURem, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext(a.val, a.w), sext(b.val, b.w)
		if y != -1 {
			return c.BV(a.w, uint64(x/y))
		}
		return c.BV(a.w, uint64(-x))
	}
	_, ha := c.urange(a)
	_, hb := c.urange(b)
	half := uint64(1) << uint(a.w-1)
	if ha < half && hb < half {
		return c.UDiv(a, b)
	}
	return c.mk(&Term{op: OpSDiv, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext(a.val, a.w), sext(b.val, b.w)
		if y != -1 {
			return c.BV(a.w, uint64(x%y))
		}
		return c.BV(a.w, 0)
	}
	_, ha := c.urange(a)
	_, hb := c.urange(b)
	half := uint64(1) << uint(a.w-1)
	if ha < half && hb < half {
		return c.URem(a, b)
	}
	return c.mk(&Term{op: OpSRem, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.BV(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// contiguous mask
		lo := bits.TrailingZeros64(b.val)
		m := b.val >> uint(lo)
		if m&(m+1) == 0 {
			n := bits.Len64(m)
			r := c.ZExt(c.Extract(a, lo, n), a.w)
			if lo == 0 {
				return r
			}
			return c.Shl(r, c.BV(a.w, uint64(lo)))
		}
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpBAnd, w: a.w, args: []*Term{a, b}})
}

// known-zero bits mask
func (c *Ctx) zeros(t *Term) uint64 {
	if !t.zok {
		t.zbits = c.zeros1(t)
		t.zok = true
	}
	return t.zbits
}

func (c *Ctx) zeros1(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OpConst:
		return ^t.val & m
	case OpZExt:
		return (m &^ mask(t.args[0].w)) | c.zeros(t.args[0])
	case OpConcat:
		return c.zeros(t.args[0])<<uint(t.args[1].w) | c.zeros(t.args[1])
	case OpBOr:
		return c.zeros(t.args[0]) & c.zeros(t.args[1])
	case OpIte:
		return c.zeros(t.args[1]) & c.zeros(t.args[2])
	case OpLin:
		if len(t.args) == 1 && t.val == 0 && isPow2(t.coefs[0]) {
			k := uint(bits.TrailingZeros64(t.coefs[0]))
			return (c.zeros(t.args[0])<<k | mask(int(k))) & m
		}
		_, hi := c.urange(t)
		return m &^ mask(bits.Len64(hi))
	}
	return 0
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.BV(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	if r := c.mergeOr(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpBOr, w: a.w, args: []*Term{a, b}})
}

// mergeOr: bitwise or of operands with disjoint possible bits, split at a
// boundary, becomes a concat.
func (c *Ctx) mergeOr(a, b *Term) *Term {
	za, zb := c.zeros(a), c.zeros(b)
	m := mask(a.w)
	if (za|zb)&m != m {
		return nil
	}
	// try: b occupies low k bits, a the rest
	try := func(a, b *Term, za, zb uint64) *Term {
		k := bits.Len64(^zb & m)
		if k == 0 || k >= a.w {
			return nil
		}
		if za&mask(k) != mask(k) {
			return nil
		}
		return c.Concat(c.Extract(a, k, a.w-k), c.Extract(b, 0, k))
	}
	if r := try(a, b, za, zb); r != nil {
		return r
	}
	return try(b, a, zb, za)
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.BV(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return c.BNot(a)
		}
	}
	if a == b {
		return c.BV(a.w, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpBXor, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) BNot(a *Term) *Term { // ~a = -a-1
	return c.Sub(c.Neg(a), c.BV(a.w, 1))
}

func (c *Ctx) Shl(a, s *Term) *Term {
	if s.isConst() {
		if s.val >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		return c.MulC(a, uint64(1)<<s.val)
	}
	return c.mk(&Term{op: OpShl, w: a.w, args: []*Term{a, s}})
}
func (c *Ctx) LShr(a, s *Term) *Term {
	if s.isConst() {
		if s.val >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		if s.val == 0 {
			return a
		}
		k := int(s.val)
		return c.ZExt(c.Extract(a, k, a.w-k), a.w)
	}
	return c.mk(&Term{op: OpLShr, w: a.w, args: []*Term{a, s}})
}
func (c *Ctx) AShr(a, s *Term) *Term {
	if s.isConst() && a.isConst() {
		k := s.val
		if k > 63 {
			k = 63
		}
		return c.BV(a.w, uint64(sext(a.val, a.w)>>k))
	}
	return c.mk(&Term{op: OpAShr, w: a.w, args: []*Term{a, s}})
}

func (c *Ctx) ZExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, 0, w)
	}
	if a.isConst() {
		return c.BV(w, a.val)
	}
	if a.op == OpZExt {
		return c.ZExt(a.args[0], w)
	}
	return c.mk(&Term{op: OpZExt, w: w, args: []*Term{a}})
}
func (c *Ctx) SExt(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, 0, w)
	}
	if a.isConst() {
		return c.BV(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OpZExt {
		return c.ZExt(a.args[0], w)
	}
	return c.mk(&Term{op: OpSExt, w: w, args: []*Term{a}})
}
func (c *Ctx) Extract(a *Term, lo, n int) *Term {
	if lo == 0 && n == a.w {
		return a
	}
	if n <= 0 || lo+n > a.w {
		panic("extract range")
	}
	switch a.op {
	case OpLin, OpBOr, OpBAnd, OpBXor:
		k := [3]int{a.id, lo, n}
		if r := c.extMemo[k]; r != nil {
			return r
		}
		r := c.extract1(a, lo, n)
		c.extMemo[k] = r
		return r
	}
	return c.extract1(a, lo, n)
}

func (c *Ctx) extract1(a *Term, lo, n int) *Term {
	switch a.op {
	case OpConst:
		return c.BV(n, a.val>>uint(lo))
	case OpExtract:
		return c.Extract(a.args[0], int(a.val)+lo, n)
	case OpZExt:
		iw := a.args[0].w
		if lo >= iw {
			return c.BV(n, 0)
		}
		if lo+n <= iw {
			return c.Extract(a.args[0], lo, n)
		}
		return c.ZExt(c.Extract(a.args[0], lo, iw-lo), n)
	case OpConcat:
		lw := a.args[1].w
		if lo+n <= lw {
			return c.Extract(a.args[1], lo, n)
		}
		if lo >= lw {
			return c.Extract(a.args[0], lo-lw, n)
		}
		return c.Concat(c.Extract(a.args[0], 0, lo+n-lw), c.Extract(a.args[1], lo, lw-lo))
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], lo, n), c.Extract(a.args[2], lo, n))
		}
	case OpLin:
		if len(a.args) == 1 && a.val == 0 && isPow2(a.coefs[0]) {
			k := bits.TrailingZeros64(a.coefs[0])
			if lo+n <= k {
				return c.BV(n, 0)
			}
			if lo >= k {
				return c.Extract(a.args[0], lo-k, n)
			}
			return c.Concat(c.Extract(a.args[0], 0, lo+n-k), c.BV(k-lo, 0))
		}
		if lo == 0 {
			// low bits of a sum depend on low bits only
			m := map[*Term]uint64{}
			for i, x := range a.args {
				y := c.Extract(x, 0, n)
				mm, kk := c.linOf(y)
				for t, v := range mm {
					m[t] += v * a.coefs[i]
				}
				if kk != 0 {
					one := c.BV(n, 1)
					_ = one
					m2 := kk * a.coefs[i]
					m[nil] += m2
				}
			}
			k := a.val + m[nil]
			delete(m, nil)
			return c.mkLin(n, m, k)
		}
	case OpBOr, OpBAnd, OpBXor:
		x, y := c.Extract(a.args[0], lo, n), c.Extract(a.args[1], lo, n)
		switch a.op {
		case OpBOr:
			return c.BOr(x, y)
		case OpBAnd:
			return c.BAnd(x, y)
		default:
			return c.BXor(x, y)
		}
	}
	return c.mk(&Term{op: OpExtract, w: n, val: uint64(lo), args: []*Term{a}})
}
func (c *Ctx) Concat(hi, lo *Term) *Term {
	if hi.isConst() && hi.val == 0 {
		return c.ZExt(lo, hi.w+lo.w)
	}
	if hi.isConst() && lo.isConst() {
		return c.BV(hi.w+lo.w, hi.val<<uint(lo.w)|lo.val)
	}
	if hi.op == OpExtract && lo.op == OpExtract && hi.args[0] == lo.args[0] && hi.val == lo.val+uint64(lo.w) {
		return c.Extract(hi.args[0], int(lo.val), hi.w+lo.w)
	}
	if hi.op == OpZExt { // concat(zext(x), lo) = zext(concat(x,lo))
		return c.ZExt(c.Concat(hi.args[0], lo), hi.w+lo.w)
	}
	// concat(e(hi), concat(e', rest)) merge
	if lo.op == OpConcat {
		m := c.Concat1(hi, lo.args[0])
		if m != nil {
			return c.Concat(m, lo.args[1])
		}
	}
	if hi.op == OpConcat {
		m := c.Concat1(hi.args[1], lo)
		if m != nil {
			return c.Concat(hi.args[0], m)
		}
		// right-associate
		return c.Concat(hi.args[0], c.Concat(hi.args[1], lo))
	}
	return c.mk(&Term{op: OpConcat, w: hi.w + lo.w, args: []*Term{hi, lo}})
}
func (c *Ctx) Concat1(hi, lo *Term) *Term {
	if hi.isConst() && lo.isConst() {
		return c.BV(hi.w+lo.w, hi.val<<uint(lo.w)|lo.val)
	}
	if hi.op == OpExtract && lo.op == OpExtract && hi.args[0] == lo.args[0] && hi.val == lo.val+uint64(lo.w) {
		return c.Extract(hi.args[0], int(lo.val), hi.w+lo.w)
	}
	// extract at top of x adjacent to x's low part being whole var is covered by Extract normalisation
	return nil
}

func (c *Ctx) App(w int, name string, args ...*Term) *Term {
	return c.mk(&Term{op: OpApp, w: w, name: name, args: args})
}

func (c *Ctx) Forall(bs []*Term, body *Term) *Term {
	if body.isConst() {
		return body
	}
	ids := make([]uint64, len(bs))
	fb := map[uint64]bool{}
	if body.bound {
		fb = c.freeBound(body)
	}
	n := 0
	var use []*Term
	for _, b := range bs {
		if fb[b.val] {
			ids[n] = b.val
			n++
			use = append(use, b)
		}
	}
	if n == 0 {
		return body
	}
	// remember widths through args[1:]
	return c.mk(&Term{op: OpForall, args: append([]*Term{body}, use...), coefs: ids[:n]})
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d", t.val)
	case OpVar:
		return t.name
	case OpBound:
		return fmt.Sprintf("b%d", t.val)
	}
	names := map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "<u", OpUle: "<=u", OpSlt: "<s", OpSle: "<=s", OpLin: "+", OpMul: "*", OpUDiv: "/u", OpURem: "%u", OpSDiv: "/s", OpSRem: "%s", OpBAnd: "&", OpBOr: "|", OpBXor: "^", OpShl: "<<", OpLShr: ">>", OpAShr: ">>s", OpZExt: "zx", OpSExt: "sx", OpExtract: "ex", OpConcat: "cat", OpApp: "app", OpSel: "sel", OpDigest: "digest", OpForall: "forall"}
	var b strings.Builder
	b.WriteString("(" + names[t.op])
	if t.name != "" {
		b.WriteString(":" + t.name)
	}
	if t.op == OpExtract {
		fmt.Fprintf(&b, "[%d+%d]", t.val, t.w)
	}
	if t.op == OpLin && t.val != 0 {
		fmt.Fprintf(&b, " %d", sext(t.val, t.w))
	}
	if t.arr != nil {
		fmt.Fprintf(&b, " @%s", t.arr.name)
	}
	for i, a := range t.args {
		b.WriteString(" ")
		if t.op == OpLin && t.coefs[i] != 1 {
			fmt.Fprintf(&b, "%d*", sext(t.coefs[i], t.w))
		}
		b.WriteString(a.str(d - 1))
	}
	b.WriteString(")")
	return b.String()
}

// ---------------------------------------------------------------- arrays

type AKind uint8

const (
	ABase AKind = iota
	AConst
	AStore
	ACopy
	AIte
	ALam
)

// Arr is a total function from BV64 to BV(w) / Bool.
type Arr struct {
	id                      int
	kind                    AKind
	w                       int
	name                    string
	i, v, dOff, sOff, n, cd *Term
	a, b                    *Arr
	bound                   bool
}

func (a *Arr) terms() []*Term {
	var r []*Term
	for _, t := range []*Term{a.i, a.v, a.dOff, a.sOff, a.n, a.cd} {
		if t != nil {
			r = append(r, t)
		}
	}
	return r
}
func (a *Arr) subs() []*Arr {
	var r []*Arr
	if a.a != nil {
		r = append(r, a.a)
	}
	if a.b != nil {
		r = append(r, a.b)
	}
	return r
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}
func aid(a *Arr) int {
	if a == nil {
		return 0
	}
	return a.id
}

func (c *Ctx) mkArr(a *Arr) *Arr {
	k := fmt.Sprintf("%d,%d,%s,%d,%d,%d,%d,%d,%d,%d,%d", a.kind, a.w, a.name, tid(a.i), tid(a.v), tid(a.dOff), tid(a.sOff), tid(a.n), tid(a.cd), aid(a.a), aid(a.b))
	if x, ok := c.atab[k]; ok {
		return x
	}
	c.nextID++
	a.id = c.nextID
	for _, t := range a.terms() {
		if t.bound && !(a.kind == ALam && (t == a.i || t == a.v)) {
			a.bound = true
		}
	}
	if a.kind == ALam {
		fb := c.freeBound(a.v)
		delete(fb, a.i.val)
		if len(fb) > 0 {
			a.bound = true
		}
	}
	for _, s := range a.subs() {
		if s.bound {
			a.bound = true
		}
	}
	c.atab[k] = a
	return a
}

func (c *Ctx) ABaseA(w int, name string) *Arr { return c.mkArr(&Arr{kind: ABase, w: w, name: name}) }
func (c *Ctx) FreshArr(w int, hint string) *Arr {
	c.fresh++
	return c.ABaseA(w, fmt.Sprintf("%s!%d", sanitize(hint), c.fresh))
}
func (c *Ctx) AConstA(v *Term) *Arr { return c.mkArr(&Arr{kind: AConst, w: v.w, v: v}) }
func (c *Ctx) ALamA(b *Term, body *Term) *Arr {
	return c.mkArr(&Arr{kind: ALam, w: body.w, i: b, v: body})
}
func (c *Ctx) Store(a *Arr, i, v *Term) *Arr {
	if a.w != v.w {
		panic(fmt.Sprintf("store width %d %d", a.w, v.w))
	}
	if a.kind == AStore && a.i == i {
		a = a.a
	}
	if a.kind == AConst && a.v == v {
		return a
	}
	return c.mkArr(&Arr{kind: AStore, w: a.w, i: i, v: v, a: a})
}
func (c *Ctx) CopyA(dst *Arr, dOff *Term, src *Arr, sOff, n *Term) *Arr {
	if n.isConst() && n.val == 0 {
		return dst
	}
	if dst.w != src.w {
		panic("copy width")
	}
	if n.isConst() && n.val <= 16 {
		for k := uint64(0); k < n.val; k++ {
			kk := c.BV(64, k)
			dst = c.Store(dst, c.Add(dOff, kk), c.Sel(src, c.Add(sOff, kk)))
		}
		return dst
	}
	if dst == src && dOff == sOff {
		return dst
	}
	return c.mkArr(&Arr{kind: ACopy, w: dst.w, a: dst, b: src, dOff: dOff, sOff: sOff, n: n})
}
func (c *Ctx) AIteA(cd *Term, a, b *Arr) *Arr {
	if cd.isTrue() || a == b {
		return a
	}
	if cd.isFalse() {
		return b
	}
	return c.mkArr(&Arr{kind: AIte, w: a.w, cd: cd, a: a, b: b})
}

func (c *Ctx) Sel(a *Arr, i *Term) *Term {
	k := [2]int{a.id, i.id}
	if t, ok := c.selMemo[k]; ok {
		return t
	}
	var r *Term
	switch a.kind {
	case ABase:
		r = c.mk(&Term{op: OpSel, w: a.w, args: []*Term{i}, arr: a})
	case AConst:
		r = a.v
	case AStore:
		e := c.Eq(i, a.i)
		if e.isTrue() {
			r = a.v
		} else if e.isFalse() {
			r = c.Sel(a.a, i)
		} else {
			r = c.Ite(e, a.v, c.Sel(a.a, i))
		}
	case ACopy:
		// in range iff (i - dOff) <u n   (wrap-around free because callers keep ranges within 2^63)
		rel := c.Sub(i, a.dOff)
		in := c.Ult(rel, a.n)
		if in.isTrue() {
			r = c.Sel(a.b, c.Add(rel, a.sOff))
		} else if in.isFalse() {
			r = c.Sel(a.a, i)
		} else {
			r = c.Ite(in, c.Sel(a.b, c.Add(rel, a.sOff)), c.Sel(a.a, i))
		}
	case AIte:
		r = c.Ite(a.cd, c.Sel(a.a, i), c.Sel(a.b, i))
	case ALam:
		r = c.Subst(a.v, map[uint64]*Term{a.i.val: i})
	}
	c.selMemo[k] = r
	return r
}

// Subst replaces free bound variables.
func (c *Ctx) Subst(t *Term, m map[uint64]*Term) *Term {
	memo := map[*Term]*Term{}
	amemo := map[*Arr]*Arr{}
	var st func(t *Term) *Term
	var sa func(a *Arr) *Arr
	sa = func(a *Arr) *Arr {
		if a == nil || !a.bound {
			return a
		}
		if r, ok := amemo[a]; ok {
			return r
		}
		var r *Arr
		switch a.kind {
		case AConst:
			r = c.AConstA(st(a.v))
		case AStore:
			r = c.Store(sa(a.a), st(a.i), st(a.v))
		case ACopy:
			r = c.CopyA(sa(a.a), st(a.dOff), sa(a.b), st(a.sOff), st(a.n))
		case AIte:
			r = c.AIteA(st(a.cd), sa(a.a), sa(a.b))
		case ALam:
			r = c.ALamA(a.i, st(a.v))
		default:
			r = a
		}
		amemo[a] = r
		return r
	}
	st = func(t *Term) *Term {
		if !t.bound {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == OpBound {
			if x, ok := m[t.val]; ok {
				r = x
			} else {
				r = t
			}
		} else {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				if t.op == OpForall && i > 0 {
					args[i] = a
					continue
				}
				args[i] = st(a)
			}
			r = c.rebuild(t, args, sa(t.arr))
		}
		memo[t] = r
		return r
	}
	return st(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term, arr *Arr) *Term {
	switch t.op {
	case OpNot:
		return c.Not(a[0])
	case OpAnd:
		return c.And(a...)
	case OpOr:
		return c.Or(a...)
	case OpIte:
		return c.Ite(a[0], a[1], a[2])
	case OpEq:
		return c.Eq(a[0], a[1])
	case OpUlt:
		return c.Ult(a[0], a[1])
	case OpSlt:
		return c.Slt(a[0], a[1])
	case OpLin:
		r := c.BV(t.w, t.val)
		for i, x := range a {
			r = c.Add(r, c.MulC(x, t.coefs[i]))
		}
		return r
	case OpMul:
		return c.Mul(a[0], a[1])
	case OpUDiv:
		return c.UDiv(a[0], a[1])
	case OpURem:
		return c.URem(a[0], a[1])
	case OpSDiv:
		return c.SDiv(a[0], a[1])
	case OpSRem:
		return c.SRem(a[0], a[1])
	case OpBAnd:
		return c.BAnd(a[0], a[1])
	case OpBOr:
		return c.BOr(a[0], a[1])
	case OpBXor:
		return c.BXor(a[0], a[1])
	case OpShl:
		return c.Shl(a[0], a[1])
	case OpLShr:
		return c.LShr(a[0], a[1])
	case OpAShr:
		return c.AShr(a[0], a[1])
	case OpZExt:
		return c.ZExt(a[0], t.w)
	case OpSExt:
		return c.SExt(a[0], t.w)
	case OpExtract:
		return c.Extract(a[0], int(t.val), t.w)
	case OpConcat:
		return c.Concat(a[0], a[1])
	case OpApp:
		return c.App(t.w, t.name, a...)
	case OpSel:
		return c.Sel(arr, a[0])
	case OpDigest:
		return c.mk(&Term{op: OpDigest, w: t.w, name: t.name, args: a, arr: arr})
	case OpForall:
		return c.mk(&Term{op: OpForall, args: append([]*Term{a[0]}, t.args[1:]...), coefs: t.coefs})
	}
	panic("rebuild " + t.String())
}

// Digest of n bytes of arr from off, folded into running state h.
func (c *Ctx) Digest(name string, w int, h *Term, arr *Arr, off, n *Term) *Term {
	return c.mk(&Term{op: OpDigest, w: w, name: name, args: []*Term{h, off, n}, arr: arr})
}
