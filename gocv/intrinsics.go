package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/thesues/cannyls-go"

func shortName(s string) string {
	// collapse package paths to their last component
	var b strings.Builder
	i := 0
	for i < len(s) {
		j := i
		for j < len(s) && (isIdent(s[j]) || s[j] == '/' || s[j] == '.' || s[j] == '-') {
			j++
		}
		if j > i {
			tok := s[i:j]
			if k := strings.LastIndexByte(tok, '/'); k >= 0 {
				tok = tok[k+1:]
			}
			b.WriteString(tok)
			i = j
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}
func isIdent(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func shortFn(fn *ssa.Function) string { return shortName(fn.String()) }

func (e *Exec) finish(s *State, call ssa.Value, v Value) {
	s.ret = v
	if call != nil && len(s.fr) > 0 {
		e.set(s, call, v)
	}
}

func (e *Exec) callee(s *State, f *Frame, cc *ssa.CallCommon) (Func, []Value) {
	var args []Value
	if cc.IsInvoke() {
		recv := e.get(s, f, cc.Value)
		for _, a := range cc.Args {
			args = append(args, e.get(s, f, a))
		}
		sig := cc.Method.Type().(*types.Signature)
		switch r := recv.(type) {
		case ErrV:
			e.guard(s, e.c.Not(e.c.Eq(r.id, e.c.BV(64, 0))), "method call on nil error")
			return opaqueFn(sig), args
		case Iface:
			if r.t == nil {
				e.doPanic(s, "method "+cc.Method.Name()+" on nil interface at "+e.curPos(s))
				return Func{}, nil
			}
			if _, op := r.v.(Opaque); op {
				return opaqueFn(sig), args
			}
			if er, ok := r.v.(ErrV); ok {
				_ = er
				return opaqueFn(sig), args
			}
			m := e.w.prog.LookupMethod(r.t, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				panic(unsupported("no method " + cc.Method.Name() + " on " + r.t.String()))
			}
			return Func{fn: m}, append([]Value{r.v}, args...)
		case Opaque:
			return opaqueFn(sig), args
		}
		panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
	}
	fv := e.get(s, f, cc.Value)
	for _, a := range cc.Args {
		args = append(args, e.get(s, f, a))
	}
	switch x := fv.(type) {
	case Func:
		return x, args
	case Opaque:
		return opaqueFn(cc.Signature()), args
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func opaqueFn(sig *types.Signature) Func {
	return Func{nat: func(e *Exec, s *State, args []Value, call ssa.Value) {
		e.finish(s, call, e.opaqueResult(s, sig))
	}}
}

func (e *Exec) opaqueVal(s *State, t types.Type) Value {
	if e.isErrorType(t) {
		return ErrV{e.c.Fresh(64, "opqerr")}
	}
	if w, ok := scalarWidth(t); ok {
		return e.c.Fresh(w, "opq")
	}
	if isString(t) {
		return Str{id: e.c.Fresh(64, "opqstr")}
	}
	return Opaque{t.String()}
}
func (e *Exec) opaqueResult(s *State, sig *types.Signature) Value {
	rt := sig.Results()
	switch rt.Len() {
	case 0:
		return Tuple{}
	case 1:
		return e.opaqueVal(s, rt.At(0).Type())
	}
	var r Tuple
	for i := 0; i < rt.Len(); i++ {
		r = append(r, e.opaqueVal(s, rt.At(i).Type()))
	}
	return r
}

// noopType: a type of the packages without effect on the verified state
func noopType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && noopPkg(n.Obj().Pkg().Path())
}

// packages whose functions have no effect on the verified state
func noopPkg(p string) bool {
	switch p {
	case "fmt", "log", "context", "time", modPath + "/metrics", "os/signal", "runtime/debug", "runtime":
		return true
	}
	return strings.HasPrefix(p, "go.opencensus.io/") || strings.HasPrefix(p, "contrib.go.opencensus.io/")
}

func (e *Exec) callValue(s *State, fn Func, args []Value, call ssa.Value, instr ssa.CallInstruction) {
	if fn.nat != nil {
		fn.nat(e, s, args, call)
		return
	}
	if fn.bi != nil {
		e.builtin(s, fn.bi, args, call, instr)
		return
	}
	if fn.fn == nil {
		e.doPanic(s, "call of nil function")
		return
	}
	f := fn.fn
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	if strings.HasPrefix(name, "(") && strings.Contains(name, "/zzgov.") || strings.HasPrefix(name, modPath+"/zzgov.") {
		if e.govCall(s, f, name, args, call) {
			return
		}
	}
	if sp, ok := s.uses[shortName(name)]; ok && sp.fn != f {
		active := false
		for _, fr := range s.fr {
			if fr.fn == sp.fn {
				active = true // a specification calling its own function runs the body
			}
		}
		if !active {
			if types.Identical(sp.fn.Signature.Results(), f.Signature.Results()) && len(sp.fn.Params) == len(f.Params) {
				e.usedSp[shortName(name)]++
				if f.Pkg != nil && !e.w.repoPkgs[f.Pkg.Pkg.Path()] {
					e.trusted[shortName(name)]++ // assumed, not proved
				}
				f2 := Func{fn: sp.fn, binds: sp.binds}
				e.pushCall(s, f2, args, call)
				return
			}
			e.w.warn("specification of " + shortName(name) + " does not match its signature; using the body")
		}
	}
	if e.intrinsic(s, f, name, args, call) {
		return
	}
	if ex := e.w.externFor(name); ex != nil && ex != f {
		e.trusted[shortName(name)]++
		e.pushCall(s, Func{fn: ex}, args, call)
		return
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if noopPkg(pkg) && !isWrapper(f) {
		e.finish(s, call, e.opaqueResult(s, f.Signature))
		return
	}
	if len(f.Blocks) == 0 {
		panic(unsupported("external function " + name + " called at " + e.curPos(s)))
	}
	if e.w.noBody(pkg) && !isWrapper(f) {
		panic(unsupported("function outside the supported packages: " + name + " called at " + e.curPos(s)))
	}
	e.pushCall(s, fn, args, call)
}

func isWrapper(f *ssa.Function) bool { return f.Synthetic != "" && len(f.Blocks) > 0 }

// --------------------------------------------------------------- builtins

func (e *Exec) builtin(s *State, b *ssa.Builtin, args []Value, call ssa.Value, instr ssa.CallInstruction) {
	c := e.c
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if b.Name() == "len" {
				e.finish(s, call, x.n)
			} else {
				e.finish(s, call, x.cap)
			}
			return
		case Str:
			e.finish(s, call, e.strLen(x))
			return
		case Opaque:
			e.finish(s, call, c.Fresh(64, "len"))
			return
		}
	case "copy":
		d := args[0].(Slice)
		var n *Term
		switch src := args[1].(type) {
		case Slice:
			n = c.Ite(c.Ult(d.n, src.n), d.n, src.n)
			e.copySlice(s, d, src, n)
		case Str:
			v := e.convert(s, src, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(Slice)
			n = c.Ite(c.Ult(d.n, v.n), d.n, v.n)
			e.copySlice(s, d, v, n)
		}
		e.finish(s, call, n)
		return
	case "append":
		e.appendOp(s, b, args, call, instr)
		return
	case "recover":
		e.finish(s, call, Iface{})
		return
	case "print", "println", "close", "delete":
		e.finish(s, call, Tuple{})
		return
	case "min", "max":
		sg := isSigned(b.Type().(*types.Signature).Params().At(0).Type())
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if sg {
				lt = c.Slt(t, r)
			} else {
				lt = c.Ult(t, r)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, t, r)
			} else {
				r = c.Ite(lt, r, t)
			}
		}
		e.finish(s, call, r)
		return
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			e.doPanic(s, "nil receiver")
			return
		}
		e.finish(s, call, args[0])
		return
	}
	panic(unsupported("builtin " + b.Name() + fmt.Sprintf(" on %T", args[0])))
}

// copySlice copies n elements.
func (e *Exec) copySlice(s *State, d, src Slice, n *Term) {
	c := e.c
	if d.base.obj == 0 || src.base.obj == 0 {
		return
	}
	if n.isConst() && n.val == 0 {
		return
	}
	dv := e.load(s, d.base)
	sv := e.load(s, src.base)
	da, ok1 := dv.(*ArrVal)
	sa, ok2 := sv.(*ArrVal)
	if ok1 && ok2 {
		na := &ArrVal{elem: da.elem, n: da.n}
		for i := range da.leaves {
			na.leaves = append(na.leaves, c.CopyA(da.leaves[i], d.off, sa.leaves[i], src.off, n))
		}
		e.store(s, d.base, na)
		return
	}
	if n.isConst() && d.off.isConst() && src.off.isConst() {
		var vs []Value
		for i := uint64(0); i < n.val; i++ {
			vs = append(vs, e.arrGet(sv, c.BV(64, src.off.val+i)))
		}
		for i, v := range vs {
			dv = e.arrSet(dv, c.BV(64, d.off.val+uint64(i)), v)
		}
		e.store(s, d.base, dv)
		return
	}
	panic(unsupported("copy of non-scalar slices"))
}

func (e *Exec) appendOp(s *State, b *ssa.Builtin, args []Value, call ssa.Value, instr ssa.CallInstruction) {
	c := e.c
	d := args[0].(Slice)
	var src Slice
	switch x := args[1].(type) {
	case Slice:
		src = x
	case Str:
		src = e.convert(s, x, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(Slice)
	}
	elem := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
	if src.n.isConst() && src.n.val == 0 {
		e.finish(s, call, d)
		return
	}
	nn := c.Add(d.n, src.n)
	_, isFlat := flat(elem)
	if !isFlat {
		// concrete vectors: always reallocate (aliasing through spare capacity is not modelled)
		if !(d.n.isConst() && src.n.isConst() && d.off.isConst() && src.off.isConst()) {
			panic(unsupported("append of non-scalar elements with symbolic length"))
		}
		v := &VecVal{}
		if d.base.obj != 0 {
			dv := e.load(s, d.base)
			for i := uint64(0); i < d.n.val; i++ {
				v.v = append(v.v, e.arrGet(dv, c.BV(64, d.off.val+i)))
			}
		}
		sv := e.load(s, src.base)
		for i := uint64(0); i < src.n.val; i++ {
			v.v = append(v.v, e.arrGet(sv, c.BV(64, src.off.val+i)))
		}
		p := e.alloc(s, v)
		e.finish(s, call, Slice{base: p, off: c.BV(64, 0), n: nn, cap: nn})
		return
	}
	inPlace := func(st *State) {
		e.copySlice(st, Slice{base: d.base, off: c.Add(d.off, d.n), n: src.n, cap: src.n}, src, src.n)
		e.finish(st, call, Slice{base: d.base, off: d.off, n: nn, cap: d.cap})
	}
	realloc := func(st *State) {
		ncap := nn
		if !(nn.isConst()) {
			ncap = c.Fresh(64, "cap")
			e.assume(st, c.Ule(nn, ncap))
			e.assume(st, c.Ule(ncap, c.BV(64, 1<<47)))
		}
		na := e.zeroArr(elem, ncap).(*ArrVal)
		sv := e.load(st, src.base).(*ArrVal)
		for i := range na.leaves {
			l := na.leaves[i]
			if d.base.obj != 0 {
				dv := e.load(st, d.base).(*ArrVal)
				l = c.CopyA(l, c.BV(64, 0), dv.leaves[i], d.off, d.n)
			}
			l = c.CopyA(l, d.n, sv.leaves[i], src.off, src.n)
			na.leaves[i] = l
		}
		p := e.alloc(st, na)
		e.finish(st, call, Slice{base: p, off: c.BV(64, 0), n: nn, cap: ncap})
	}
	e.guard(s, c.Ule(nn, c.BV(64, 1<<47)), "append size")
	if s.dead {
		return
	}
	if d.base.obj == 0 {
		realloc(s)
		return
	}
	fits := c.Ule(nn, d.cap)
	if e.pure > 0 && !fits.isConst() {
		realloc(s)
		return
	}
	e.forkOn(s, fits, inPlace, realloc)
}

// forkOn runs yes/no on the two sides of cond.
func (e *Exec) forkOn(s *State, cond *Term, yes, no func(*State)) {
	n := e.c.Not(cond)
	fa := e.sat(s, cond) != "unsat"
	fb := !fa || e.sat(s, n) != "unsat"
	if fa && fb {
		o := e.fork(s)
		e.assume(o, n)
		if !o.dead {
			no(o)
			if !o.dead {
				e.run.work = append(e.run.work, o)
			}
		}
	}
	if fa {
		e.assume(s, cond)
		if !s.dead {
			yes(s)
		}
		return
	}
	e.assume(s, n)
	if !s.dead {
		no(s)
	}
}

// ------------------------------------------------------------- intrinsics

func (e *Exec) errIsNil(t *Term) *Term { return e.c.Eq(t, e.c.BV(64, 0)) }

func (e *Exec) intrinsic(s *State, f *ssa.Function, name string, args []Value, call ssa.Value) bool {
	c := e.c
	const judy = "github.com/thesues/go-judy."
	if strings.HasPrefix(name, "(*"+judy) {
		return e.judyCall(s, strings.TrimPrefix(name, "(*"+judy), args, call)
	}
	if strings.HasPrefix(name, "(*sync.") {
		return e.syncCall(s, strings.TrimPrefix(name, "(*sync."), args, call)
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		op := strings.TrimPrefix(name, "sync/atomic.")
		p := args[0].(Ptr)
		if p.obj == 0 {
			e.doPanic(s, "atomic on nil")
			return true
		}
		switch {
		case strings.HasPrefix(op, "Load"):
			e.finish(s, call, e.load(s, p))
		case strings.HasPrefix(op, "Store"):
			e.store(s, p, args[1])
			e.finish(s, call, Tuple{})
		case strings.HasPrefix(op, "Add"):
			v := c.Add(e.load(s, p).(*Term), args[1].(*Term))
			e.store(s, p, v)
			e.finish(s, call, v)
		case strings.HasPrefix(op, "Swap"):
			v := e.load(s, p)
			e.store(s, p, args[1])
			e.finish(s, call, v)
		case strings.HasPrefix(op, "CompareAndSwap"):
			v := e.load(s, p)
			eq := e.equal(s, v, args[1])
			e.store(s, p, c.Ite(eq, args[2].(*Term), v.(*Term)))
			e.finish(s, call, eq)
		default:
			return false
		}
		return true
	}
	switch name {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		e.finish(s, call, ErrV{c.BV(64, e.newErr())})
		return true
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
		id := args[0].(ErrV).id
		w := c.Concat(c.BV(1, 1), c.App(63, "wrap", id))
		r := c.Ite(e.errIsNil(id), id, w)
		e.define(s, c.Or(e.errIsNil(id), c.Eq(c.App(64, "cause", w), e.causeOf(id))))
		e.finish(s, call, ErrV{r})
		return true
	case "github.com/pkg/errors.Cause":
		e.finish(s, call, ErrV{e.causeOf(args[0].(ErrV).id)})
		return true
	case "errors.Is":
		a, b := args[0].(ErrV).id, args[1].(ErrV).id
		e.finish(s, call, c.Or(c.Eq(a, b), c.Eq(e.causeOf(a), b)))
		return true
	case "hash/adler32.Checksum":
		sl := args[0].(Slice)
		e.finish(s, call, e.digest(s, sl, c.BV(32, 1)))
		return true
	case "os.IsNotExist", "os.IsExist":
		e.finish(s, call, c.App(0, name, args[0].(ErrV).id))
		return true
	case "sort.Slice":
		e.sortSlice(s, args, call)
		return true
	case "runtime.GC", "runtime.KeepAlive":
		e.finish(s, call, Tuple{})
		return true
	case "(*os.File).Name":
		e.finish(s, call, Str{id: c.Fresh(64, "name")})
		return true
	}
	return false
}

func (e *Exec) causeOf(id *Term) *Term {
	c := e.c
	if id.isConst() && id.val>>63 == 0 {
		return id
	}
	if id.op == OpIte {
		return c.Ite(id.args[0], e.causeOf(id.args[1]), e.causeOf(id.args[2]))
	}
	return c.App(64, "cause", id)
}

func (e *Exec) digest(s *State, sl Slice, h *Term) *Term {
	c := e.c
	if sl.base.obj == 0 {
		return h
	}
	a := e.load(s, sl.base).(*ArrVal)
	return c.Digest("adler32", 32, h, a.leaves[0], sl.off, sl.n)
}

func (e *Exec) sortSlice(s *State, args []Value, call ssa.Value) {
	c := e.c
	ifc := args[0].(Iface)
	sl := ifc.v.(Slice)
	less := args[1].(Func)
	if sl.base.obj == 0 {
		e.finish(s, call, Tuple{})
		return
	}
	old, ok := e.load(s, sl.base).(*ArrVal)
	if !ok {
		panic(unsupported("sort.Slice of non-scalar elements"))
	}
	c.fresh++
	pn, qn := fmt.Sprintf("perm!%d", c.fresh), fmt.Sprintf("pinv!%d", c.fresh)
	na := &ArrVal{elem: old.elem, n: old.n}
	for k, l := range old.leaves {
		na.leaves = append(na.leaves, c.FreshArr(l.w, fmt.Sprintf("sorted!%d.%d", c.fresh, k)))
	}
	e.store(s, sl.base, na)
	x := c.FreshBound(64)
	px, qx := c.App(64, pn, x), c.App(64, qn, x)
	in := c.Ult(x, sl.n)
	e.assume(s, c.Forall([]*Term{x}, c.Implies(in, c.And(c.Ult(px, sl.n), c.Eq(c.App(64, qn, px), x)))))
	e.assume(s, c.Forall([]*Term{x}, c.Implies(in, c.And(c.Ult(qx, sl.n), c.Eq(c.App(64, pn, qx), x)))))
	for k, l := range old.leaves {
		// new[x] = old[perm x], old[x] = new[pinv x], outside unchanged
		nw := na.leaves[k]
		e.assume(s, c.Forall([]*Term{x}, c.Implies(in, c.And(c.Ult(px, sl.n), c.Eq(c.App(64, qn, px), x), c.Eq(c.Sel(nw, c.Add(sl.off, x)), c.Sel(l, c.Add(sl.off, px)))))))
		e.assume(s, c.Forall([]*Term{x}, c.Implies(in, c.And(c.Ult(qx, sl.n), c.Eq(c.App(64, pn, qx), x), c.Eq(c.Sel(l, c.Add(sl.off, x)), c.Sel(nw, c.Add(sl.off, qx)))))))
		e.assume(s, c.Forall([]*Term{x}, c.Implies(c.Not(c.Ult(c.Sub(x, sl.off), sl.n)), c.Eq(c.Sel(nw, x), c.Sel(l, x)))))
	}
	i, j := c.FreshBound(64), c.FreshBound(64)
	e.boundStack = append(e.boundStack, i, j)
	t := e.pureCall(s, less, []Value{j, i}).(*Term)
	e.boundStack = e.boundStack[:len(e.boundStack)-2]
	e.assume(s, c.Forall([]*Term{i, j}, c.Implies(c.And(c.Ult(i, j), c.Ult(j, sl.n)), c.Not(t))))
	e.finish(s, call, Tuple{})
}

// -------------------------------------------------------------------- judy

func (e *Exec) judyAt(s *State, v Value) (*JudyVal, Ptr, bool) {
	p, ok := v.(Ptr)
	if !ok || p.obj == 0 {
		return nil, p, false
	}
	j, ok := e.load(s, p).(*JudyVal)
	return j, p, ok
}

func (e *Exec) judyFacts(s *State, j *JudyVal) {
	c := e.c
	x := c.FreshBound(64)
	// card==0 -> empty ; member -> card>0 ; card < 2^40
	e.assume(s, c.Forall([]*Term{x}, c.Or(c.Not(c.Eq(j.card, c.BV(64, 0))), c.Not(c.Sel(j.pres, x)))))
	e.assume(s, c.Ult(j.card, c.BV(64, 1<<40)))
}

// judyWeight is the ghost weight of an element.
func (e *Exec) judyWeight(j *JudyVal, k, v *Term) *Term {
	c := e.c
	if !j.l {
		return c.ZExt(c.Extract(k, 0, 24), 64)
	}
	return c.App(64, "weight", v)
}

func (e *Exec) judyPut(s *State, p Ptr, j *JudyVal, k, v *Term, present bool) {
	c := e.c
	n := *j
	old := c.Sel(j.pres, k)
	n.pres = c.Store(j.pres, k, c.Bool(present))
	one := c.BV(64, 1)
	if present {
		n.card = c.Ite(old, j.card, c.Add(j.card, one))
		if j.l {
			ov := c.Sel(j.val, k)
			n.val = c.Store(j.val, k, v)
			n.sum = c.Add(c.Ite(old, c.Sub(j.sum, e.judyWeight(j, k, ov)), j.sum), e.judyWeight(j, k, v))
		} else {
			n.sum = c.Ite(old, j.sum, c.Add(j.sum, e.judyWeight(j, k, nil)))
		}
	} else {
		n.card = c.Ite(old, c.Sub(j.card, one), j.card)
		var ov *Term
		if j.l {
			ov = c.Sel(j.val, k)
		}
		n.sum = c.Ite(old, c.Sub(j.sum, e.judyWeight(j, k, ov)), j.sum)
		e.assume(s, c.Implies(old, c.Not(c.Eq(j.card, c.BV(64, 0)))))
	}
	e.store(s, p, &n)
}

// judyFind: the extreme present index in a range; ok false when none.
func (e *Exec) judyFind(s *State, j *JudyVal, dir int, strict bool, k *Term, call ssa.Value) {
	c := e.c
	x := c.FreshBound(64)
	inRange := func(t *Term) *Term {
		switch {
		case dir > 0 && strict:
			return c.Ult(k, t)
		case dir > 0:
			return c.Ule(k, t)
		case strict:
			return c.Ult(t, k)
		default:
			return c.Ule(t, k)
		}
	}
	none := c.Forall([]*Term{x}, c.Implies(inRange(x), c.Not(c.Sel(j.pres, x))))
	r := e.named(64, "idx")
	var mid *Term
	if dir > 0 {
		mid = c.And(inRange(x), c.Ult(x, r))
	} else {
		mid = c.And(inRange(x), c.Ult(r, x))
	}
	some := c.And(c.Sel(j.pres, r), inRange(r), c.Forall([]*Term{x}, c.Implies(mid, c.Not(c.Sel(j.pres, x)))))
	mk := func(r, v, ok *Term) Value {
		if j.l {
			return Tuple{r, v, ok}
		}
		return Tuple{r, ok}
	}
	z := c.BV(64, 0)
	if e.pure > 0 {
		ok := e.named(0, "idxok")
		e.define(s, c.Implies(ok, some))
		e.define(s, c.Or(ok, none))
		v := z
		if j.l {
			v = c.Ite(ok, c.Sel(j.val, r), z)
		}
		e.finish(s, call, mk(c.Ite(ok, r, z), v, ok))
		return
	}
	o := e.fork(s)
	e.assume(o, none)
	if !o.dead && e.satList(o.pc) != "unsat" {
		e.finish(o, call, mk(z, z, c.F))
		e.run.work = append(e.run.work, o)
	}
	e.assume(s, some)
	e.assume(s, c.Not(c.Eq(j.card, z)))
	if s.dead || e.satList(s.pc) == "unsat" {
		s.dead = true
		return
	}
	var v *Term
	if j.l {
		v = c.Sel(j.val, r)
	}
	e.finish(s, call, mk(r, v, c.T))
}

func (e *Exec) judyCall(s *State, m string, args []Value, call ssa.Value) bool {
	c := e.c
	i := strings.Index(m, ").")
	op := m[i+2:]
	j, p, ok := e.judyAt(s, args[0])
	if !ok {
		if p.obj == 0 {
			e.doPanic(s, "nil judy array")
			return true
		}
		panic(unsupported("judy method on non-judy value"))
	}
	arg := func(i int) *Term { return args[i].(*Term) }
	switch op {
	case "Insert":
		e.judyPut(s, p, j, arg(1), arg(2), true)
		e.finish(s, call, Tuple{})
	case "Set":
		old := c.Sel(j.pres, arg(1))
		e.judyPut(s, p, j, arg(1), nil, true)
		e.finish(s, call, c.Not(old))
	case "Unset", "Delete":
		old := c.Sel(j.pres, arg(1))
		e.judyPut(s, p, j, arg(1), nil, false)
		e.finish(s, call, old)
	case "Get":
		pr := c.Sel(j.pres, arg(1))
		v := c.Ite(pr, c.Sel(j.val, arg(1)), c.BV(64, 0))
		e.finish(s, call, Tuple{v, pr})
	case "Test":
		e.finish(s, call, c.Sel(j.pres, arg(1)))
	case "First":
		e.judyFind(s, j, 1, false, arg(1), call)
	case "Next":
		e.judyFind(s, j, 1, true, arg(1), call)
	case "Last":
		e.judyFind(s, j, -1, false, arg(1), call)
	case "Prev":
		e.judyFind(s, j, -1, true, arg(1), call)
	case "FirstEmpty":
		r := c.Fresh(64, "empty")
		x := c.FreshBound(64)
		k := arg(1)
		okT := c.Fresh(0, "emptyok")
		e.assume(s, c.Implies(okT, c.And(c.Not(c.Sel(j.pres, r)), c.Ule(k, r))))
		e.assume(s, c.Forall([]*Term{x}, c.Implies(c.And(okT, c.Ule(k, x), c.Ult(x, r)), c.Sel(j.pres, x))))
		e.assume(s, c.Forall([]*Term{x}, c.Implies(c.And(c.Not(okT), c.Ule(k, x)), c.Sel(j.pres, x))))
		e.assume(s, c.Implies(c.Not(okT), c.Eq(r, c.BV(64, 0))))
		e.finish(s, call, Tuple{r, okT})
	case "CountAll":
		e.finish(s, call, j.card)
	case "CountFrom":
		e.finish(s, call, c.Fresh(64, "count"))
	case "Free":
		z := e.emptyJudy(j.l)
		e.store(s, p, z)
		e.finish(s, call, c.Fresh(64, "freed"))
	case "MemoryUsed":
		e.finish(s, call, c.Fresh(64, "mem"))
	default:
		return false
	}
	return true
}

// -------------------------------------------------------------------- locks

func (e *Exec) syncCall(s *State, m string, args []Value, call ssa.Value) bool {
	i := strings.Index(m, ").")
	typ, op := m[:i], m[i+2:]
	switch typ {
	case "Mutex", "RWMutex":
	default:
		e.finish(s, call, e.c.Fresh(0, "sync"))
		return true
	}
	p := args[0].(Ptr)
	if p.obj == 0 {
		e.doPanic(s, "lock of nil mutex")
		return true
	}
	k := p.key()
	l := s.locks[k]
	nm := s.lockNm[k]
	if nm == "" {
		nm = "a mutex"
	}
	switch op {
	case "Lock", "RLock":
		if l.w || l.r > 0 {
			if s.opts["nolocks"] != 0 {
				s.dead = true // never goes on
				return true
			}
			e.failVC(s, "lock discipline: "+nm+" is acquired while already held (self-deadlock)", op)
			return true
		}
		if r, ok := s.ranks[k]; ok {
			for _, h := range s.lockOrd {
				if hr, ok := s.ranks[h]; ok && hr >= r && s.opts["nolocks"] == 0 {
					e.failVC(s, "lock discipline: "+nm+" is acquired while holding "+s.lockNm[h]+" (lock order)", op)
					return true
				}
			}
		}
		if op == "Lock" {
			l.w = true
		} else {
			l.r++
		}
		s.locks[k] = l
		s.lockOrd = append(append([]string(nil), s.lockOrd...), k)
		e.trivial++
		e.finish(s, call, Tuple{})
		if cb, ok := s.onLock[k]; ok && e.pure == 0 {
			e.callValue(s, cb, nil, nil, nil)
		}
		return true
	case "Unlock", "RUnlock":
		if op == "Unlock" && !l.w || op == "RUnlock" && l.r == 0 {
			if s.opts["nolocks"] != 0 {
				s.dead = true // the program is ended
				return true
			}
			e.failVC(s, "lock discipline: "+nm+" is released while not held", op)
			return true
		}
		if op == "Unlock" {
			l.w = false
		} else {
			l.r--
		}
		s.locks[k] = l
		var o []string
		done := false
		for i := len(s.lockOrd) - 1; i >= 0; i-- {
			if !done && s.lockOrd[i] == k {
				done = true
				continue
			}
			o = append([]string{s.lockOrd[i]}, o...)
		}
		s.lockOrd = o
		if cb, ok := s.onLock["rel:"+k]; ok && e.pure == 0 {
			e.finish(s, call, Tuple{})
			e.callValue(s, cb, nil, nil, nil)
			return true
		}
		e.finish(s, call, Tuple{})
		return true
	}
	return false
}

// guarded reports an access to a variable that gov.Guard puts under locks: to
// change it all of them are needed, to look at it one of them.
func (e *Exec) guarded(s *State, p Ptr, write bool) {
	if len(s.guards) == 0 || e.pure > 0 {
		return
	}
	g, ok := s.guards[p.key()]
	if !ok {
		return
	}
	fr := s.fr[len(s.fr)-1]
	if strings.Contains(e.w.prog.Fset.Position(fr.fn.Pos()).Filename, "zz_gov") {
		return
	}
	any, all := false, true
	for _, k := range g.mus {
		l := s.locks[k]
		any = any || l.w || l.r > 0
		all = all && l.w
	}
	e.trivial++
	if write && !all {
		e.failVC(s, "lock discipline: "+g.name+" is changed without its locks", "")
	} else if !write && !any {
		e.failVC(s, "lock discipline: "+g.name+" is read without a lock", "")
	}
}
