package main

// abstractNL replaces multiplication and division by non-constant (or, for
// division, non power of two) operands with uninterpreted functions plus true
// facts about them.  Every consequence of the abstraction is a consequence of
// the exact formula, so "unsat" carries over.  With more, facts about quotients
// of related numbers are added, which cost the solver time.
func (c *Ctx) abstractNL(as []*Term, more bool) ([]*Term, bool) {
	memo := map[*Term]*Term{}
	used := false
	var ax []*Term
	seen := map[*Term]bool{}
	type division struct{ p, n, q, r *Term }
	var divs []division
	var walk func(t *Term) *Term
	divAx := func(p, n, q, r *Term) {
		if seen[q] {
			return
		}
		seen[q] = true
		w := p.w
		nz := c.Not(c.Eq(n, c.BV(w, 0)))
		var m *Term
		if n.isConst() {
			m = c.MulC(q, n.val)
			ax = append(ax, c.Ule(q, c.BV(w, mask(w)/n.val)))
		} else {
			m = c.mulUF(q, n)
		}
		ax = append(ax, c.Implies(nz, c.And(c.Eq(p, c.Add(m, r)), c.Ult(r, n), c.Ule(m, p), c.Ule(q, p), c.Ule(r, p))))
		// a multiple of n
		if p.op == OpApp && p.name == nlName("mul", w) && (p.args[0] == n || p.args[1] == n) {
			k := p.args[0]
			if k == n {
				k = p.args[1]
			}
			if k.op == OpApp && k.name == nlName("udiv", w) && k.args[1] == n {
				ax = append(ax, c.Implies(nz, c.And(c.Eq(r, c.BV(w, 0)), c.Eq(q, k))))
			}
		}
		// p = x - x%n is the multiple (x/n)*n, and p = x - x%n + n and
		// p = (x/n)*n + n the next one, unless it wraps around
		multiple := func(x, d *Term) {
			qx := c.App(w, nlName("udiv", w), x, n)
			if d.isConst() && d.val == 0 {
				ax = append(ax, c.Implies(nz, c.And(c.Eq(r, c.BV(w, 0)), c.Eq(q, qx))))
			} else if d == n {
				ax = append(ax, c.Implies(c.And(nz, c.Ule(n, p)), c.And(c.Eq(r, c.BV(w, 0)), c.Eq(q, c.Add(qx, c.BV(w, 1))))))
			}
		}
		if n.isConst() {
			return
		}
		divs = append(divs, division{p, n, q, r})
		lin, _ := c.linOf(p)
		for t, k := range lin {
			if t.op != OpApp {
				continue
			}
			if k&mask(w) == mask(w) && t.name == nlName("urem", w) && t.args[1] == n {
				multiple(t.args[0], c.Sub(c.Add(p, t), t.args[0]))
			}
			if k == 1 && t.name == nlName("mul", w) {
				a, b := t.args[0], t.args[1]
				if a == n {
					a, b = b, a
				}
				if b == n && a.op == OpApp && a.name == nlName("udiv", w) && a.args[1] == n && p != t {
					multiple(a.args[0], c.Sub(p, t))
				}
			}
		}
	}
	walk = func(t *Term) *Term {
		if m, ok := memo[t]; ok {
			return m
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = walk(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		switch t.op {
		case OpMul:
			used = true
			r = c.mulDist(args[0], args[1])
		case OpUDiv, OpURem:
			if args[1].isConst() && isPow2(args[1].val) {
				if ch {
					r = c.rebuild(t, args, t.arr)
				}
				break
			}
			used = true
			q := c.App(t.w, nlName("udiv", t.w), args[0], args[1])
			m := c.App(t.w, nlName("urem", t.w), args[0], args[1])
			divAx(args[0], args[1], q, m)
			if t.op == OpUDiv {
				r = q
			} else {
				r = m
			}
		case OpSDiv, OpSRem:
			if args[1].isConst() && isPow2(args[1].val) {
				if ch {
					r = c.rebuild(t, args, t.arr)
				}
				break
			}
			used = true
			nm := "sdiv"
			if t.op == OpSRem {
				nm = "srem"
			}
			r = c.App(t.w, nlName(nm, t.w), args[0], args[1])
		default:
			if ch {
				r = c.rebuild(t, args, t.arr)
			}
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, 0, len(as))
	for _, a := range as {
		out = append(out, walk(a))
	}
	if !used {
		return as, false
	}
	if !more {
		return append(out, ax...), true
	}
	for _, x := range divs {
		nz := c.Not(c.Eq(x.n, c.BV(x.n.w, 0)))
		ax = append(ax, c.Implies(c.And(nz, c.Ult(x.p, x.n)), c.And(c.Eq(x.r, x.p), c.Eq(x.q, c.BV(x.n.w, 0)))),
			c.Implies(c.And(nz, c.Eq(x.p, x.n)), c.And(c.Eq(x.r, c.BV(x.n.w, 0)), c.Eq(x.q, c.BV(x.n.w, 1)))))
	}
	// p = x + d where d is what x lacks to the next multiple, however that is computed
	for _, x := range divs {
		for _, p := range divs {
			if x.p == p.p || x.n != p.n || len(divs) > 6 {
				continue
			}
			d := c.Sub(p.p, x.p)
			lx, _ := c.linOf(x.p)
			ld, _ := c.linOf(d)
			for t := range lx {
				if ld[t] != 0 {
					d = nil
					break
				}
			}
			if d == nil || len(ld) == 0 {
				continue
			}
			w := p.p.w
			d = c.Add(d, x.r)
			nz := c.Not(c.Eq(p.n, c.BV(w, 0)))
			ax = append(ax, c.Implies(c.And(nz, c.Eq(d, c.BV(w, 0))), c.And(c.Eq(p.r, c.BV(w, 0)), c.Eq(p.q, x.q))),
				c.Implies(c.And(nz, c.Eq(d, p.n), c.Ule(p.n, p.p)), c.And(c.Eq(p.r, c.BV(w, 0)), c.Eq(p.q, c.Add(x.q, c.BV(w, 1))))))
		}
	}
	return append(out, ax...), true
}

func nlName(op string, w int) string {
	switch w {
	case 64:
		return "nl_" + op + "64"
	case 32:
		return "nl_" + op + "32"
	case 16:
		return "nl_" + op + "16"
	}
	return "nl_" + op + "8"
}

func (c *Ctx) mulUF(a, b *Term) *Term {
	if a.isConst() {
		return c.MulC(b, a.val)
	}
	if b.isConst() {
		return c.MulC(a, b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.App(a.w, nlName("mul", a.w), a, b)
}

// mulDist is mulUF with constant offsets of the factors multiplied out
func (c *Ctx) mulDist(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		if _, k := c.linOf(a); k != 0 && !a.isConst() && !b.isConst() {
			return c.Add(c.mulDist(c.Sub(a, c.BV(a.w, k)), b), c.MulC(b, k))
		}
		a, b = b, a
	}
	return c.mulUF(a, b)
}
