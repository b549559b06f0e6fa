//go:build go1.21

package block

import (
	"bytes"
	"math/rand"
	"testing"
	"unsafe"

	"github.com/thesues/cannyls-go/zzgw"
)

func gwAddr(b []byte) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[:1][0]))
}

func TestGov_C18_rounding(t *testing.T) {
	zzgw.LoopB(t, zzgw.Budget()/4, 2000, 3000000, func(i int, r *rand.Rand) {
		n := uint16(512 * (1 + r.Intn(127)))
		bs, err := NewBlockSize(n)
		if err != nil || bs.AsU16() != n || bs.AsU32() != uint32(n) {
			t.Fatalf("block size %d: %v %v", n, bs, err)
		}
		p := r.Uint64() >> uint(1+r.Intn(63))
		if r.Intn(2) == 0 {
			p = p / uint64(n) * uint64(n)
			p += uint64(r.Intn(3)) - 1
		}
		if p > 1<<63 {
			p = 0
		}
		c, f := bs.CeilAlign(p), bs.FloorAlign(p)
		if c%uint64(n) != 0 || c < p || c-p >= uint64(n) || f%uint64(n) != 0 || f > p || p-f >= uint64(n) || bs.IsAligned(p) != (p%uint64(n) == 0) {
			t.Fatalf("block size %d, position %d: ceil %d, floor %d, aligned %v", n, p, c, f, bs.IsAligned(p))
		}
		m, _ := NewBlockSize(uint16(512 * (1 + r.Intn(127))))
		if bs.Contains(m) != (n >= m.AsU16() && n%m.AsU16() == 0) {
			t.Fatalf("%d contains %d: %v", n, m, bs.Contains(m))
		}
		x := uint16(r.Intn(65536))
		if r.Intn(3) == 0 {
			x = []uint16{0, 1, 256, 511, 512, 513, 768, 1024, 65024, 65535}[r.Intn(10)]
		}
		if _, err := NewBlockSize(x); (err == nil) != (x >= 512 && x%512 == 0) {
			t.Fatalf("block size %d: %v", x, err)
		}
	})
}

func TestGov_C18_buffer(t *testing.T) {
	zzgw.Loop(t, 500, 1000000, func(i int, r *rand.Rand) {
		bs, _ := NewBlockSize(uint16(512 * (1 + r.Intn(127))))
		if r.Intn(2) == 0 {
			bs, _ = NewBlockSize(uint16(512 << uint(r.Intn(7))))
		}
		n := int(bs.AsU32())
		size := func() int {
			switch r.Intn(4) {
			case 0:
				return r.Intn(3)
			case 1:
				s := n*(1+r.Intn(3)) + r.Intn(3) - 1
				return s
			}
			return r.Intn(3 * n)
		}
		var ab *AlignedBytes
		var want []byte
		log := ""
		if r.Intn(2) == 0 {
			k := size()
			ab = NewAlignedBytes(k, bs)
			want = make([]byte, k)
			log = "new"
		} else {
			// any address, any length, any spare capacity
			back := make([]byte, 5*n+1024)
			r.Read(back)
			o := r.Intn(n + 1)
			if r.Intn(2) == 0 {
				o = (n - int(gwAddr(back)%uintptr(n))) % n
			}
			k := size()
			c := k + r.Intn(len(back)-o-k+1)
			src := back[o : o+k : c+o]
			want = append([]byte(nil), src...)
			ab = FromBytes(src, bs)
			log = "from"
		}
		check := func(op string) {
			b := ab.AsBytes()
			if len(b) != len(want) || ab.Len() != uint32(len(want)) {
				t.Fatalf("block size %d, %s: %d bytes are exposed, length %d, want %d", n, op, len(b), ab.Len(), len(want))
			}
			if !bytes.Equal(b, want) {
				t.Fatalf("block size %d, %s: the content changed", n, op)
			}
			if cap(b) > 0 && gwAddr(b)%uintptr(n) != 0 {
				t.Fatalf("block size %d, %s: the address is not aligned", n, op)
			}
			if ab.Capacity() < uint64(len(want)) || ab.BlockSize() != bs {
				t.Fatalf("block size %d, %s: capacity %d for %d bytes", n, op, ab.Capacity(), len(want))
			}
		}
		check(log)
		for k := 0; k < 8; k++ {
			switch r.Intn(5) {
			case 0:
				s := size()
				ab.Resize(uint32(s))
				log += " resize"
				want = gwLen(want, s, ab.AsBytes())
			case 1:
				s := size()
				ab.AlignResize(uint32(s))
				log += " alignResize"
				// what is there when it grows past the old end is whatever it was
				want = gwLen(want, (s+n-1)/n*n, ab.AsBytes())
			case 2:
				s := size()
				ab.Truncate(uint32(s))
				log += " truncate"
				if s < len(want) {
					want = want[:s]
				}
			case 3:
				ab.Align()
				log += " align"
				want = gwLen(want, (len(want)+n-1)/n*n, ab.AsBytes())
			default:
				r.Read(want)
				copy(ab.AsBytes(), want)
				log += " fill"
			}
			check(log)
		}
	})
}

// gwLen cuts the expected content or extends it with what is there.
func gwLen(want []byte, n int, got []byte) []byte {
	if n <= len(want) {
		return want[:n]
	}
	w := append([]byte(nil), want...)
	if len(got) >= n {
		return append(w, got[len(want):n]...)
	}
	return append(w, make([]byte, n-len(want))...)
}
