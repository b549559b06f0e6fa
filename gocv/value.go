package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type PElem struct {
	f   int   // field, when idx==nil
	idx *Term // array index
}

type Ptr struct {
	obj  int // 0: nil
	path []PElem
}

type Slice struct {
	base        Ptr // location of the array; obj==0: nil slice
	off, n, cap *Term
}

type Struct struct{ f []Value }

// ArrVal is an array of scalars / structs of scalars, as one functional array per leaf.
type ArrVal struct {
	elem   types.Type
	n      *Term
	leaves []*Arr
}

// VecVal is an array with a concrete length and arbitrary element values.
type VecVal struct{ v []Value }

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type ErrV struct{ id *Term } // values of static type error; id 0 = nil

type Func struct {
	fn    *ssa.Function // nil: nil func
	binds []Value
	bi    *ssa.Builtin
	nat   func(e *Exec, s *State, args []Value, call ssa.Value)
}

type Tuple []Value

type Str struct {
	s     string
	known bool
	id    *Term
}

type Opaque struct{ what string }

type JudyVal struct {
	l    bool // JudyL
	pres *Arr
	val  *Arr
	card *Term
	sum  *Term // ghost: sum of (key & 0xFFFFFF) over members
}

func (e *Exec) isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return typeName(types.Unalias(a))
	}
	return ""
}

// scalarWidth: >=0 if the type is a scalar (bool 0, ints/floats by width)
func scalarWidth(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// flat returns leaf widths when t consists of scalars only.
func flat(t types.Type) ([]int, bool) {
	if w, ok := scalarWidth(t); ok {
		return []int{w}, true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if special(t) != "" {
			return nil, false
		}
		var r []int
		for i := 0; i < u.NumFields(); i++ {
			x, ok := flat(u.Field(i).Type())
			if !ok {
				return nil, false
			}
			r = append(r, x...)
		}
		return r, true
	}
	return nil, false
}

func special(t types.Type) string {
	n := typeName(t)
	switch {
	case n == "github.com/thesues/go-judy.JudyL":
		return "judyL"
	case n == "github.com/thesues/go-judy.Judy1":
		return "judy1"
	case strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.") || n == "os.File" || strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "go.opencensus.io"):
		if _, ok := t.Underlying().(*types.Struct); ok {
			return "opaque"
		}
	}
	return ""
}

func (e *Exec) emptyJudy(l bool) *JudyVal {
	c := e.c
	j := &JudyVal{l: l, pres: c.AConstA(c.F), card: c.BV(64, 0), sum: c.BV(64, 0)}
	if l {
		j.val = c.AConstA(c.BV(64, 0))
	}
	return j
}

func (e *Exec) zero(t types.Type) Value {
	c := e.c
	switch special(t) {
	case "judyL":
		return e.emptyJudy(true)
	case "judy1":
		return e.emptyJudy(false)
	case "opaque":
		return Opaque{typeName(t)}
	}
	if e.isErrorType(t) {
		return ErrV{c.BV(64, 0)}
	}
	if w, ok := scalarWidth(t); ok {
		return c.BV(w, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{s: "", known: true}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		return Opaque{u.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := c.BV(64, 0)
		return Slice{off: z, n: z, cap: z}
	case *types.Struct:
		s := &Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return e.zeroArr(u.Elem(), c.BV(64, uint64(u.Len())))
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Func{}
	case *types.Map:
		return Ptr{}
	case *types.Chan:
		return Opaque{"chan"}
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.zero(u.At(i).Type()))
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

func (e *Exec) zeroArr(elem types.Type, n *Term) Value {
	if ws, ok := flat(elem); ok {
		a := &ArrVal{elem: elem, n: n}
		for _, w := range ws {
			a.leaves = append(a.leaves, e.c.AConstA(e.c.BV(w, 0)))
		}
		return a
	}
	if !n.isConst() || n.val > 4096 {
		// elements not representable as scalars: keep an opaque growable vector
		if n.isConst() {
			panic(unsupported(fmt.Sprintf("array of %d %s", n.val, elem)))
		}
		panic(unsupported("symbolic-length array of " + elem.String()))
	}
	v := &VecVal{v: make([]Value, n.val)}
	for i := range v.v {
		v.v[i] = e.zero(elem)
	}
	return v
}

func (e *Exec) freshArr(elem types.Type, n *Term, hint string) *ArrVal {
	ws, ok := flat(elem)
	if !ok {
		panic(unsupported("fresh array of " + elem.String()))
	}
	a := &ArrVal{elem: elem, n: n}
	for i, w := range ws {
		h := hint
		if len(ws) > 1 {
			h = fmt.Sprintf("%s.%d", hint, i)
		}
		a.leaves = append(a.leaves, e.c.FreshArr(w, h))
	}
	return a
}

// flatten a scalar-only value into its leaves
func flatten(v Value, out *[]*Term) {
	switch x := v.(type) {
	case *Term:
		*out = append(*out, x)
	case *Struct:
		for _, f := range x.f {
			flatten(f, out)
		}
	default:
		panic(unsupported(fmt.Sprintf("flatten %T", v)))
	}
}
func (e *Exec) unflatten(t types.Type, leaves []*Term) (Value, []*Term) {
	if _, ok := scalarWidth(t); ok {
		return leaves[0], leaves[1:]
	}
	u := t.Underlying().(*types.Struct)
	s := &Struct{}
	for i := 0; i < u.NumFields(); i++ {
		var v Value
		v, leaves = e.unflatten(u.Field(i).Type(), leaves)
		s.f = append(s.f, v)
	}
	return s, leaves
}

func (e *Exec) arrGet(a Value, i *Term) Value {
	switch x := a.(type) {
	case *ArrVal:
		var ls []*Term
		for _, l := range x.leaves {
			ls = append(ls, e.c.Sel(l, i))
		}
		v, _ := e.unflatten(x.elem, ls)
		return v
	case *VecVal:
		if !i.isConst() {
			// scalar elements can be selected symbolically
			if len(x.v) > 0 {
				if _, ok := x.v[0].(*Term); ok {
					r := x.v[0].(*Term)
					for k := 1; k < len(x.v); k++ {
						r = e.c.Ite(e.c.Eq(i, e.c.BV(64, uint64(k))), x.v[k].(*Term), r)
					}
					return r
				}
			}
			panic(unsupported("symbolic index into non-scalar array"))
		}
		if i.val >= uint64(len(x.v)) {
			panic(unsupported("vector index out of range"))
		}
		return x.v[i.val]
	}
	panic(unsupported(fmt.Sprintf("arrGet on %T", a)))
}
func (e *Exec) arrSet(a Value, i *Term, v Value) Value {
	switch x := a.(type) {
	case *ArrVal:
		var ls []*Term
		flatten(v, &ls)
		n := &ArrVal{elem: x.elem, n: x.n}
		for k, l := range x.leaves {
			n.leaves = append(n.leaves, e.c.Store(l, i, ls[k]))
		}
		return n
	case *VecVal:
		if !i.isConst() {
			panic(unsupported("symbolic store into non-scalar array"))
		}
		if i.val >= uint64(len(x.v)) {
			panic(unsupported("vector store out of range"))
		}
		n := &VecVal{v: append([]Value(nil), x.v...)}
		n.v[i.val] = v
		return n
	}
	panic(unsupported(fmt.Sprintf("arrSet on %T", a)))
}

func (e *Exec) loadPath(v Value, path []PElem) Value {
	for _, p := range path {
		if p.idx != nil {
			v = e.arrGet(v, p.idx)
		} else {
			s, ok := v.(*Struct)
			if !ok {
				panic(unsupported(fmt.Sprintf("field of %T", v)))
			}
			v = s.f[p.f]
		}
	}
	return v
}
func (e *Exec) storePath(v Value, path []PElem, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx != nil {
		if len(path) == 1 {
			return e.arrSet(v, p.idx, nv)
		}
		return e.arrSet(v, p.idx, e.storePath(e.arrGet(v, p.idx), path[1:], nv))
	}
	s, ok := v.(*Struct)
	if !ok {
		panic(unsupported(fmt.Sprintf("store field of %T", v)))
	}
	n := &Struct{f: append([]Value(nil), s.f...)}
	n.f[p.f] = e.storePath(s.f[p.f], path[1:], nv)
	return n
}

func (p Ptr) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", p.obj)
	for _, x := range p.path {
		if x.idx != nil {
			fmt.Fprintf(&b, "[%d]", x.idx.id)
		} else {
			fmt.Fprintf(&b, ".%d", x.f)
		}
	}
	return b.String()
}

func (p Ptr) sub(x PElem) Ptr {
	return Ptr{p.obj, append(append([]PElem(nil), p.path...), x)}
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string    { return "unsupported: " + u.msg }
func unsupported(s string) unsupportedErr { return unsupportedErr{s} }
