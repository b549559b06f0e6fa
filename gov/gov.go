//go:build go1.21

// Package zzgov is the specification vocabulary used by the contract files.
//
// The verifier (gocv) interprets calls into this package symbolically.  The
// bodies below are the native meaning: they let a contract harness be run as
// an ordinary Go program on concrete inputs, which is how counterexamples of
// the verifier are replayed against the real code.
package zzgov

import (
	"os"
	"bytes"
	"errors"
	"fmt"
	"hash/adler32"
	"math/rand"
	"unsafe"

	judy "github.com/thesues/go-judy"
)

// Skip is panicked when an assumption does not hold for a native input.
type Skip struct{ Why string }

// Failure is panicked when an assertion fails natively.
type Failure struct{ Label string }

// Unsupported is panicked when a harness uses ghost constructs natively.
type Unsupported struct{ What string }

// Inputs of a native run: recorded values are consumed first, in order, then
// pseudo-random ones are generated.
type Inputs struct {
	Vals  map[string][]uint64
	Byts  map[string][][]byte
	Rng   *rand.Rand
	Trace []string
}

var In = &Inputs{Rng: rand.New(rand.NewSource(1))}

var interesting = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 16, 255, 256, 509, 510, 511, 512, 513, 514, 1023, 1024, 1025, 65534, 65535, 65536, 33553919, 33553918, 1 << 24, 1<<24 - 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 - 1, 1 << 40, 1<<62 + 3, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 1}

func (in *Inputs) get(name string, bits uint) uint64 {
	var v uint64
	if l := in.Vals[name]; len(l) > 0 {
		v = l[0]
		in.Vals[name] = l[1:]
	} else {
		switch in.Rng.Intn(4) {
		case 0:
			v = interesting[in.Rng.Intn(len(interesting))]
		case 1:
			v = interesting[in.Rng.Intn(len(interesting))] + uint64(in.Rng.Intn(5)) - 2
		case 2:
			v = in.Rng.Uint64() >> uint(in.Rng.Intn(64))
		default:
			v = uint64(in.Rng.Intn(2000))
		}
	}
	if bits < 64 {
		v &= 1<<bits - 1
	}
	in.Trace = append(in.Trace, fmt.Sprintf("%s=%d", name, v))
	return v
}

func U8(name string) uint8   { return uint8(In.get(name, 8)) }
func U16(name string) uint16 { return uint16(In.get(name, 16)) }
func U32(name string) uint32 { return uint32(In.get(name, 32)) }
func U64(name string) uint64 { return In.get(name, 64) }
func I64(name string) int64  { return int64(In.get(name, 64)) }
func Int(name string) int    { return int(In.get(name, 64)) }
func Bool(name string) bool  { return In.get(name, 1) == 1 }

// Choice returns each of 0..n-1 (the verifier explores all).
func Choice(name string, n int) int { return int(In.get(name, 64) % uint64(n)) }

// Bytes is an arbitrary byte slice of at most max bytes.
func Bytes(name string, max uint64) []byte {
	if l := In.Byts[name]; len(l) > 0 {
		b := l[0]
		In.Byts[name] = l[1:]
		In.Trace = append(In.Trace, fmt.Sprintf("%s=%x", name, b))
		return b
	}
	n := In.get(name+".len", 64)
	if n > max || n > 1<<16 {
		lim := max
		if lim > 3000 {
			lim = 3000
		}
		n %= lim + 1
	}
	return fill(name, n)
}

// BytesN is an arbitrary byte slice of exactly n bytes.
func BytesN(name string, n uint64) []byte {
	if l := In.Byts[name]; len(l) > 0 && uint64(len(l[0])) == n {
		b := l[0]
		In.Byts[name] = l[1:]
		return b
	}
	if n > 1<<26 {
		panic(Skip{"too large"})
	}
	return fill(name, n)
}

func fill(name string, n uint64) []byte {
	b := make([]byte, n)
	In.Rng.Read(b)
	if n <= 64 {
		In.Trace = append(In.Trace, fmt.Sprintf("%s=%x", name, b))
	} else {
		In.Trace = append(In.Trace, fmt.Sprintf("%s=<%d bytes, adler32 %08x>", name, n, adler32.Checksum(b)))
	}
	return b
}

func Slice[T any](name string, n uint64) []T { panic(Unsupported{"Slice"}) }
func Snapshot[T any](b []T) []T              { return append([]T(nil), b...) }
func At[T any](b []T, i uint64) T {
	var z T
	if i < uint64(len(b)) {
		return b[i]
	}
	return z
}
func Zeros(n uint64) []byte { return make([]byte, n) }

func Assume(b bool) {
	if !b {
		panic(Skip{"assumption"})
	}
}
func Assert(label string, b bool) {
	if !b {
		panic(Failure{label})
	}
}
func Fail(label string)  { panic(Failure{label}) }
func Cover(label string) {}
func Note(msg string)    {}

func sample(f func(uint64) bool) bool {
	for i := uint64(0); i < 70; i++ {
		if !f(i) || !f(interesting[i%uint64(len(interesting))]) {
			return false
		}
	}
	return true
}
func Forall(f func(uint64) bool) bool            { return sample(f) }
func ForallU32(f func(uint32) bool) bool         { return sample(func(x uint64) bool { return f(uint32(x)) }) }
func ForallU16(f func(uint16) bool) bool         { return sample(func(x uint64) bool { return f(uint16(x)) }) }
func Forall2(f func(a, b uint64) bool) bool      { panic(Unsupported{"Forall2"}) }
func Forall3(f func(a, b, c uint64) bool) bool   { panic(Unsupported{"Forall3"}) }
func Exists(f func(uint64) bool) bool            { panic(Unsupported{"Exists"}) }
func Pure(f func() bool) bool                    { return f() }
func And(a, b bool) bool                         { return a && b }
func Or(a, b bool) bool                          { return a || b }
func Imp(a, b bool) bool                         { return !a || b }
func Iff(a, b bool) bool                         { return a == b }
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

func Has(j interface{}, k uint64) bool {
	switch x := j.(type) {
	case *judy.JudyL:
		_, ok := x.Get(k)
		return ok
	case *judy.Judy1:
		return x.Test(k)
	}
	panic(Unsupported{"Has"})
}
func Val(j interface{}, k uint64) uint64 {
	v, _ := j.(*judy.JudyL).Get(k)
	return v
}
func Card(j interface{}) uint64 {
	switch x := j.(type) {
	case *judy.JudyL:
		return x.CountAll()
	case *judy.Judy1:
		return x.CountAll()
	}
	panic(Unsupported{"Card"})
}

// Sum is the ghost sum of element weights (low 24 bits of Judy1 keys; Weight
// of JudyL values).
func Sum(j interface{}) uint64    { panic(Unsupported{"Sum"}) }
func Weight(v uint64) uint64      { panic(Unsupported{"Weight"}) }
func UF1(name string, a uint64) uint64    { panic(Unsupported{"UF1"}) }
func UF2(name string, a, b uint64) uint64 { panic(Unsupported{"UF2"}) }
func UB1(name string, a uint64) bool      { panic(Unsupported{"UB1"}) }

func NewJudyL(name string) *judy.JudyL { panic(Unsupported{"NewJudyL"}) }
func NewJudy1(name string) *judy.Judy1 { panic(Unsupported{"NewJudy1"}) }

func Havoc(p interface{})  { panic(Unsupported{"Havoc"}) }
func HavocBytes(b []byte)  { In.Rng.Read(b) }
func CopyBytes(dst, src []byte, dOff, sOff, n uint64) {
	if n == 0 {
		return
	}
	copy(dst[dOff:dOff+n], src[sOff:sOff+n])
}
func SameBytes(a []byte, ao uint64, b []byte, bo uint64, n uint64) bool {
	if n == 0 {
		return true
	}
	if ao+n < ao || bo+n < bo || ao+n > uint64(len(a)) || bo+n > uint64(len(b)) {
		return false
	}
	return bytes.Equal(a[ao:ao+n], b[bo:bo+n])
}
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// Digest is the running Adler-32 value after b, starting from h.
func Digest(h uint32, b []byte) uint32 {
	if h == 1 {
		return adler32.Checksum(b)
	}
	s1, s2 := h&0xffff, h>>16
	for _, x := range b {
		s1 = (s1 + uint32(x)) % 65521
		s2 = (s2 + s1) % 65521
	}
	return s2<<16 | s1
}

var errArbitrary = errors.New("arbitrary error")

func Err(name string) error {
	if In.get(name, 64) == 0 || In.Rng.Intn(4) != 0 {
		return nil
	}
	return errArbitrary
}
func SomeErr(name string) error { return errArbitrary }

func ErrIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		c, ok := err.(interface{ Cause() error })
		if !ok {
			return false
		}
		err = c.Cause()
	}
	return target == nil
}

// Catch reports whether f panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Skip, Failure, Unsupported:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

func Use(fn string, spec interface{}) {}
func Unuse(fn string)                 {}

// Vars gives a loop invariant access to the variables of the function.
type Vars struct{}

func (Vars) U64(name string) uint64      { panic(Unsupported{"Vars"}) }
func (Vars) U32(name string) uint32      { panic(Unsupported{"Vars"}) }
func (Vars) U16(name string) uint16      { panic(Unsupported{"Vars"}) }
func (Vars) Int(name string) int         { panic(Unsupported{"Vars"}) }
func (Vars) Bool(name string) bool       { panic(Unsupported{"Vars"}) }
func (Vars) Err(name string) error       { panic(Unsupported{"Vars"}) }
func (Vars) Any(name string) interface{} { panic(Unsupported{"Vars"}) }
func (Vars) Has(name string) bool        { panic(Unsupported{"Vars"}) }

func Invariant(fn string, loop int, inv func(Vars) bool) {}

// Lock names a mutex and gives it a rank (0: unranked).
func Lock(mu interface{}, name string, rank int) {}

// Guard puts *p under locks: code under contract changes it only with all of
// them held exclusively and looks at it only with one of them held.
func Guard(p interface{}, name string, mu1, mu2 interface{}) {}
func OnLock(mu interface{}, f func())            {}
func OnUnlock(mu interface{}, f func())          {}
func Held(mu interface{}) int                    { panic(Unsupported{"Held"}) }
func HeldCount() int                             { panic(Unsupported{"HeldCount"}) }
func Opt(name string, v int)                     {}

func Addr(b []byte) uint64 {
	if cap(b) == 0 {
		return 0
	}
	return uint64(uintptr(unsafe.Pointer(&b[:1][0])))
}
func SameArray(a, b []byte) bool {
	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
}

// Native is false under the verifier.
func Native() bool { return true }

// Thorough tells which tier is run.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// ---- binary.Read / binary.Write for the fixed-size types the code uses ----
