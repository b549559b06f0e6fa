//go:build go1.21

package lump

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"testing"

	"github.com/thesues/cannyls-go/zzgw"
)

func TestGov_C19_ids(t *testing.T) {
	zzgw.LoopB(t, zzgw.Budget()/3, 2000, 2000000, func(i int, r *rand.Rand) {
		pick := func() uint64 {
			switch r.Intn(4) {
			case 0:
				return []uint64{0, 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0), ^uint64(0) - 1, 1 << 32, 1<<32 - 1}[r.Intn(9)]
			}
			return r.Uint64() >> uint(r.Intn(64))
		}
		a, b := pick(), pick()
		x, y := FromU64(0, a), FromU64(0, b)
		want := 0
		if a < b {
			want = -1
		} else if a > b {
			want = 1
		}
		sgn := func(n int) int {
			if n < 0 {
				return -1
			} else if n > 0 {
				return 1
			}
			return 0
		}
		if sgn(x.Compare(y)) != want || sgn(bytes.Compare(x.GetBytes(), y.GetBytes())) != want {
			t.Fatalf("%d and %d: Compare %d, bytes %d, want %d", a, b, x.Compare(y), bytes.Compare(x.GetBytes(), y.GetBytes()), want)
		}
		if x.U64() != a || len(x.GetBytes()) != 8 || binary.BigEndian.Uint64(x.GetBytes()) != a {
			t.Fatalf("%d is %x", a, x.GetBytes())
		}
		if back, err := FromBytes(x.GetBytes()); err != nil || back != x {
			t.Fatalf("%d -> %x -> %v %v", a, x.GetBytes(), back, err)
		}
		var w bytes.Buffer
		if n, err := x.Write(&w); err != nil || n != 8 || !bytes.Equal(w.Bytes(), x.GetBytes()) {
			t.Fatalf("%d is written as %x: %d %v", a, w.Bytes(), n, err)
		}
		if back, err := FromString(x.String()); err != nil || back != x {
			t.Fatalf("%d -> %q -> %v %v", a, x.String(), back, err)
		}
		if back, err := FromString(fmt.Sprintf("%X", a)); err != nil || back != x {
			t.Fatalf("%X -> %v %v", a, back, err)
		}
		if n := r.Intn(20); n != 8 {
			if id, err := FromBytes(make([]byte, n)); err == nil {
				t.Fatalf("%d bytes were accepted as id %v", n, id)
			}
		}
		if x.IsMax() != (a == ^uint64(0)) {
			t.Fatalf("%d is the largest id: %v", a, x.IsMax())
		}
		if a != ^uint64(0) && x.Inc().U64() != a+1 {
			t.Fatalf("after %d comes %d", a, x.Inc().U64())
		}
	})
}
