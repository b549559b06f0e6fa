package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var os_debug = os.Getenv("GOCV_DEBUG") != ""

// define adds a total (conservative) definition; it is kept when a pure
// evaluation ends.
func (e *Exec) define(s *State, t *Term) {
	if t.isTrue() {
		return
	}
	if e.pure > 0 {
		e.defs = append(e.defs, t)
	}
	e.assume(s, t)
}

// named returns a fresh term, as a function of the enclosing bound variables.
func (e *Exec) named(w int, hint string) *Term {
	if len(e.boundStack) == 0 {
		return e.c.Fresh(w, hint)
	}
	e.c.fresh++
	return e.c.App(w, fmt.Sprintf("%s!%d", hint, e.c.fresh), e.boundStack...)
}

func (e *Exec) input(s *State, w int, name, kind string) *Term {
	t := e.c.Fresh(w, name)
	s.inputs = append(s.inputs, inputRec{name: name, kind: kind, t: t})
	return t
}

func constStr(v Value) string {
	if s, ok := v.(Str); ok && s.known {
		return s.s
	}
	panic(unsupported("specification argument must be a constant string"))
}

func ifPtr(v Value) Ptr {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported(fmt.Sprintf("specification argument must be a pointer, got %T", v)))
	}
	return p
}
func ifFunc(v Value) Func {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	return v.(Func)
}

func (e *Exec) quantify(s *State, fn Func) ([]*Term, *Term) {
	var bs []*Term
	var args []Value
	for _, p := range fn.fn.Params {
		w, ok := scalarWidth(p.Type())
		if !ok || w == 0 {
			panic(unsupported("quantified variable of type " + p.Type().String()))
		}
		b := e.c.FreshBound(w)
		bs = append(bs, b)
		args = append(args, b)
	}
	n := len(e.boundStack)
	e.boundStack = append(e.boundStack, bs...)
	t := e.pureCall(s, fn, args).(*Term)
	e.boundStack = e.boundStack[:n]
	return bs, t
}

func (e *Exec) govCall(s *State, f *ssa.Function, name string, args []Value, call ssa.Value) bool {
	c := e.c
	op := name[strings.LastIndex(name, "zzgov.")+len("zzgov."):]
	if strings.HasPrefix(op, "Vars)") {
		e.varsCall(s, f, strings.TrimPrefix(op, "Vars)."), args, call)
		return true
	}
	tm := func(i int) *Term { return args[i].(*Term) }
	ret := func(v Value) bool { e.finish(s, call, v); return true }
	none := func() bool { e.finish(s, call, Tuple{}); return true }
	switch op {
	case "U8":
		return ret(e.input(s, 8, constStr(args[0]), "u8"))
	case "U16":
		return ret(e.input(s, 16, constStr(args[0]), "u16"))
	case "U32":
		return ret(e.input(s, 32, constStr(args[0]), "u32"))
	case "U64":
		return ret(e.input(s, 64, constStr(args[0]), "u64"))
	case "I64", "Int":
		return ret(e.input(s, 64, constStr(args[0]), "i64"))
	case "Bool":
		return ret(e.input(s, 0, constStr(args[0]), "bool"))
	case "Choice":
		nm := constStr(args[0])
		n := tm(1)
		for i := uint64(1); i < n.val; i++ {
			o := e.fork(s)
			o.inputs = append(o.inputs, inputRec{name: nm, kind: "choice", t: c.BV(64, i)})
			e.finish(o, call, c.BV(64, i))
			o.trace = append(o.trace, fmt.Sprintf("%s=%d", nm, i))
			e.run.work = append(e.run.work, o)
		}
		s.inputs = append(s.inputs, inputRec{name: nm, kind: "choice", t: c.BV(64, 0)})
		s.trace = append(s.trace, nm+"=0")
		return ret(c.BV(64, 0))
	case "Bytes", "BytesN":
		nm := constStr(args[0])
		n := tm(1)
		if op == "Bytes" {
			l := c.Fresh(64, nm+".len")
			e.assume(s, c.Ule(l, n))
			n = l
		}
		a := e.freshArr(types.Typ[types.Uint8], n, nm)
		p := e.alloc(s, a)
		e.objName[p.obj] = nm
		s.inputs = append(s.inputs, inputRec{name: nm, kind: "bytes", arr: a.leaves[0], n: n})
		return ret(Slice{base: p, off: c.BV(64, 0), n: n, cap: n})
	case "Slice": // Slice[T](name, n): n arbitrary scalar elements
		nm := constStr(args[0])
		n := tm(1)
		elem := f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		p := e.alloc(s, e.freshArr(elem, n, nm))
		return ret(Slice{base: p, off: c.BV(64, 0), n: n, cap: n})
	case "Snapshot":
		sl := args[0].(Slice)
		if sl.base.obj == 0 {
			return ret(sl)
		}
		a, ok := e.load(s, sl.base).(*ArrVal)
		if !ok {
			panic(unsupported("Snapshot of non-scalar slice"))
		}
		p := e.alloc(s, a)
		return ret(Slice{base: p, off: sl.off, n: sl.n, cap: sl.n})
	case "At":
		sl := args[0].(Slice)
		if sl.base.obj == 0 {
			return ret(e.zero(f.Signature.Results().At(0).Type()))
		}
		return ret(e.arrGet(e.load(s, sl.base), c.Add(sl.off, tm(1))))
	case "Zeros":
		n := tm(0)
		p := e.alloc(s, e.zeroArr(types.Typ[types.Uint8], n))
		return ret(Slice{base: p, off: c.BV(64, 0), n: n, cap: n})
	case "Assume":
		e.assume(s, tm(0))
		if s.dead {
			return true
		}
		return none()
	case "Assert":
		e.check(s, tm(1), constStr(args[0]))
		if s.dead {
			return true
		}
		return none()
	case "Fail":
		e.failVC(s, constStr(args[0]), "")
		return true
	case "Cover":
		l := constStr(args[0])
		if e.pure == 0 && e.quiet == 0 && !e.covers[l] {
			e.covers[l] = e.satList(s.pc) != "unsat"
		}
		return none()
	case "Forall", "Forall2", "Forall3", "ForallU32", "ForallU16":
		bs, t := e.quantify(s, ifFunc(args[0]))
		return ret(c.Forall(bs, t))
	case "Exists":
		bs, t := e.quantify(s, ifFunc(args[0]))
		return ret(c.Not(c.Forall(bs, c.Not(t))))
	case "Pure":
		return ret(e.pureCall(s, ifFunc(args[0]), nil))
	case "And":
		return ret(c.And(tm(0), tm(1)))
	case "Or":
		return ret(c.Or(tm(0), tm(1)))
	case "Imp":
		return ret(c.Implies(tm(0), tm(1)))
	case "Iff":
		return ret(c.Eq(tm(0), tm(1)))
	case "Ite":
		return ret(e.merge(s, s, tm(0), args[1], args[2]))
	case "Has":
		j, _, ok := e.judyAt(s, args[0].(Iface).v)
		if !ok {
			panic(unsupported("Has on non-judy"))
		}
		return ret(c.Sel(j.pres, tm(1)))
	case "Val":
		j, _, _ := e.judyAt(s, args[0].(Iface).v)
		return ret(c.Sel(j.val, tm(1)))
	case "Card":
		j, _, _ := e.judyAt(s, args[0].(Iface).v)
		return ret(j.card)
	case "Sum":
		j, _, _ := e.judyAt(s, args[0].(Iface).v)
		return ret(j.sum)
	case "Weight":
		return ret(c.App(64, "weight", tm(0)))
	case "UF1":
		return ret(c.App(64, "uf_"+constStr(args[0]), tm(1)))
	case "UF2":
		return ret(c.App(64, "uf_"+constStr(args[0]), tm(1), tm(2)))
	case "UB1":
		return ret(c.App(0, "ub_"+constStr(args[0]), tm(1)))
	case "Havoc":
		p := ifPtr(args[0])
		var t types.Type
		if i, ok := args[0].(Iface); ok {
			t = i.t.Underlying().(*types.Pointer).Elem()
		}
		e.store(s, p, e.havoc(s, e.load(s, p), t, "hv"))
		return none()
	case "HavocBytes":
		sl := args[0].(Slice)
		if sl.base.obj != 0 {
			a := e.load(s, sl.base).(*ArrVal)
			na := &ArrVal{elem: a.elem, n: a.n}
			for _, l := range a.leaves {
				na.leaves = append(na.leaves, c.CopyA(l, sl.off, c.FreshArr(l.w, "hvb"), sl.off, sl.n))
			}
			e.store(s, sl.base, na)
		}
		return none()
	case "CopyBytes": // spec-level copy: no bounds needed
		d, sr := args[0].(Slice), args[1].(Slice)
		e.copySlice(s, Slice{base: d.base, off: c.Add(d.off, tm(2)), n: d.n, cap: d.cap}, Slice{base: sr.base, off: c.Add(sr.off, tm(3)), n: sr.n, cap: sr.cap}, tm(4))
		return none()
	case "SameBytes": // a[ao:ao+n] == b[bo:bo+n]
		a, b := args[0].(Slice), args[2].(Slice)
		ao, bo, n := tm(1), tm(3), tm(4)
		if n.isConst() && n.val == 0 {
			return ret(c.T)
		}
		if a.base.obj == 0 || b.base.obj == 0 {
			return ret(c.Eq(n, c.BV(64, 0)))
		}
		x := c.FreshBound(64)
		av, bv := e.load(s, a.base).(*ArrVal).leaves[0], e.load(s, b.base).(*ArrVal).leaves[0]
		return ret(c.Forall([]*Term{x}, c.Implies(c.Ult(x, n), c.Eq(c.Sel(av, c.Add(c.Add(a.off, ao), x)), c.Sel(bv, c.Add(c.Add(b.off, bo), x))))))
	case "EqBytes":
		a, b := args[0].(Slice), args[1].(Slice)
		ln := c.Eq(a.n, b.n)
		if a.base.obj == 0 || b.base.obj == 0 {
			return ret(ln)
		}
		x := c.FreshBound(64)
		av, bv := e.load(s, a.base).(*ArrVal).leaves[0], e.load(s, b.base).(*ArrVal).leaves[0]
		return ret(c.And(ln, c.Forall([]*Term{x}, c.Implies(c.Ult(x, a.n), c.Eq(c.Sel(av, c.Add(a.off, x)), c.Sel(bv, c.Add(b.off, x)))))))
	case "Digest":
		return ret(e.digest(s, args[1].(Slice), tm(0)))
	case "Err":
		return ret(ErrV{e.input(s, 64, constStr(args[0]), "err")})
	case "SomeErr":
		t := e.input(s, 64, constStr(args[0]), "err")
		e.assume(s, c.Not(c.Eq(t, c.BV(64, 0))))
		return ret(ErrV{t})
	case "ErrIs":
		a, b := args[0].(ErrV).id, args[1].(ErrV).id
		return ret(c.Or(c.Eq(a, b), c.Eq(e.causeOf(a), b)))
	case "Catch":
		fn := ifFunc(args[0])
		fr := e.pushCall(s, fn, nil, nil)
		fr.catch = true
		fr.onRet = func(e *Exec, s *State, r Value) {
			e.finish(s, call, c.Bool(r == nil))
		}
		return true
	case "Use":
		s.uses = copyFuncs(s.uses)
		s.uses[constStr(args[0])] = ifFunc(args[1])
		return none()
	case "Unuse":
		s.uses = copyFuncs(s.uses)
		delete(s.uses, constStr(args[0]))
		return none()
	case "Invariant":
		s.invs = copyFuncs(s.invs)
		s.invs[fmt.Sprintf("%s#%d", constStr(args[0]), tm(1).val)] = ifFunc(args[2])
		return none()
	case "Lock":
		k := ifPtr(args[0]).key()
		s.lockNm[k] = constStr(args[1])
		if r := tm(2); r.isConst() && r.val > 0 {
			s.ranks[k] = int(r.val)
		}
		return none()
	case "Guard":
		g := guard{name: constStr(args[1])}
		for _, a := range args[2:] {
			if q, ok := a.(Iface); ok && q.v == nil {
				continue
			}
			g.mus = append(g.mus, ifPtr(a).key())
		}
		m := map[string]guard{}
		for k, v := range s.guards {
			m[k] = v
		}
		m[ifPtr(args[0]).key()] = g
		s.guards = m
		return none()
	case "OnLock":
		s.onLock[ifPtr(args[0]).key()] = ifFunc(args[1])
		return none()
	case "OnUnlock":
		s.onLock["rel:"+ifPtr(args[0]).key()] = ifFunc(args[1])
		return none()
	case "Held":
		l := s.locks[ifPtr(args[0]).key()]
		v := uint64(0)
		if l.w {
			v = 2
		} else if l.r > 0 {
			v = 1
		}
		return ret(c.BV(64, v))
	case "HeldCount":
		return ret(c.BV(64, uint64(len(s.lockOrd))))
	case "Opt":
		s.opts[constStr(args[0])] = int(tm(1).val)
		return none()
	case "Addr":
		sl := args[0].(Slice)
		if sl.base.obj == 0 {
			return ret(c.BV(64, 0))
		}
		return ret(e.address(s, sl.base.sub(PElem{idx: sl.off})))
	case "Thorough":
		return ret(c.Bool(e.w.thorough))
	case "SameArray":
		a, b := args[0].(Slice), args[1].(Slice)
		return ret(c.Bool(a.base.key() == b.base.key()))
	case "NewJudyL", "NewJudy1":
		p := e.alloc(s, e.freshJudy(s, op == "NewJudyL", constStr(args[0])))
		return ret(p)
	case "Native":
		return ret(c.F)
	case "Note":
		s.trace = append(s.trace, constStr(args[0]))
		return none()
	}
	return false
}

func copyFuncs(m map[string]Func) map[string]Func {
	r := make(map[string]Func, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

// varsCall: access to the variables of the function whose loop is cut.
func (e *Exec) varsCall(s *State, f *ssa.Function, m string, args []Value, call ssa.Value) {
	v := args[0].(VarsV)
	name := constStr(args[1])
	fr := s.fr[v.depth]
	var val Value
	var outerT types.Type
	if strings.HasPrefix(name, "^") {
		val, outerT = e.outerVar(s, v.depth, name[1:])
	} else {
		val = e.lookupVar(s, fr, v.loop, name)
	}
	if m == "Has" {
		e.finish(s, call, e.c.Bool(val != nil))
		return
	}
	if val == nil {
		panic(unsupported("loop invariant refers to variable " + name + " which " + shortFn(fr.fn) + " does not have"))
	}
	// width check
	rt := f.Signature.Results().At(0).Type()
	if w, ok := scalarWidth(rt); ok {
		t, is := val.(*Term)
		if !is {
			panic(unsupported("loop variable " + name + " is not a scalar"))
		}
		if w > 0 && t.w < w {
			t = e.c.ZExt(t, w)
		} else if t.w > w {
			panic(unsupported("loop variable " + name + " has another width"))
		}
		e.finish(s, call, t)
		return
	}
	if types.IsInterface(rt) && !e.isErrorType(rt) {
		t := outerT
		if t == nil {
			t = e.lookupVarType(fr, v.loop, name)
		}
		if i, ok := val.(Iface); ok {
			e.finish(s, call, i)
			return
		}
		e.finish(s, call, Iface{t: t, v: val})
		return
	}
	e.finish(s, call, val)
}

func (e *Exec) findVar(fr *Frame, l *loopInfo, name string) (ssa.Value, bool) {
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok && p.Comment == name {
			return p, false
		}
	}
	// value named by debug information, defined in a dominating block
	var best ssa.Value
	var bestB *ssa.BasicBlock
	for _, b := range fr.fn.Blocks {
		if b != l.header && !b.Dominates(l.header) || (b == l.header) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.DebugRef:
				if x.Object() != nil && x.Object().Name() == name && !x.IsAddr {
					if _, isF := x.X.(*ssa.Function); isF {
						continue
					}
					if bestB == nil || bestB.Dominates(b) {
						best, bestB = x.X, b
					}
				}
			case *ssa.Phi:
				if x.Comment == name && (bestB == nil || bestB.Dominates(b)) {
					best, bestB = x, b
				}
			}
		}
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				if b == l.header || b.Dominates(l.header) {
					return a, true
				}
			}
		}
	}
	if best != nil {
		return best, false
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			return p, false
		}
	}
	for _, p := range fr.fn.FreeVars {
		if p.Name() == name {
			return p, true
		}
	}
	return nil, false
}

func (e *Exec) lookupVarType(fr *Frame, l *loopInfo, name string) types.Type {
	v, ind := e.findVar(fr, l, name)
	if ind {
		return v.Type().(*types.Pointer).Elem()
	}
	return v.Type()
}

func (e *Exec) lookupVar(s *State, fr *Frame, l *loopInfo, name string) Value {
	v, ind := e.findVar(fr, l, name)
	if v == nil {
		return nil
	}
	val := e.get(s, fr, v)
	if ind {
		return e.load(s, val.(Ptr))
	}
	return val
}

// outerVar: a variable of one of the callers that lives on the heap, because
// a function literal captures it.
func (e *Exec) outerVar(s *State, depth int, name string) (Value, types.Type) {
	for d := depth - 1; d >= 0; d-- {
		fr := s.fr[d]
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
					if p, ok := fr.env[fr.info.idx[a]].(Ptr); ok && p.obj != 0 {
						return e.load(s, p), a.Type().(*types.Pointer).Elem()
					}
				}
			}
		}
	}
	return nil, nil
}

type guard struct {
	name string
	mus  []string
}
