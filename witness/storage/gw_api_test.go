//go:build go1.21

package storage

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/zzgw"
)

func TestGov_C01_contents(t *testing.T) {
	zzgw.Loop(t, 6, 4000, func(i int, r *rand.Rand) {
		g := gwRandom(t, r)
		defer g.done()
		for k := 0; k < 40; k++ {
			switch r.Intn(6) {
			case 0, 1, 2:
				g.put(g.id(), g.bytes(g.size()))
			case 3:
				g.embed(g.id(), g.bytes(r.Intn(g.maxEmb)))
			case 4:
				g.del(g.id())
			default:
				g.step()
			}
			g.contents("after an operation")
		}
	})
}

// every length modulo the block size, and the extremes
func TestGov_C01_lengths(t *testing.T) {
	r := rand.New(rand.NewSource(zzgw.Seed()))
	g := gwNew(t, r, 36<<20+1<<16, 0.001)
	defer g.done()
	n := 0
	for _, base := range []int{0, 512, 8192} {
		for d := 0; d < 520; d++ {
			if base == 8192 && d > 8 && d < 504 {
				continue
			}
			b := g.bytes(base + d)
			if err := g.put(1, b); err != nil {
				g.fatal("put of %d bytes failed: %v", len(b), err)
			}
			g.contents("length")
			n++
		}
	}
	for _, l := range []int{lump.LUMP_MAX_SIZE, lump.LUMP_MAX_SIZE - 1, lump.LUMP_MAX_SIZE - 511, 65535*2 + 1} {
		if err := g.put(2, g.bytes(l)); err != nil {
			g.fatal("put of %d bytes failed: %v", l, err)
		}
		g.contents("large length")
		n++
	}
	// too large
	before := g.s.Usage()
	big := lump.LumpData{Inner: block.NewAlignedBytes(lump.LUMP_MAX_SIZE+1, block.Min())}
	if _, err := g.s.Put(gwId(2), big); err == nil {
		g.fatal("a lump larger than the limit was accepted")
	}
	if err := g.s.PutWithOffset(gwId(3), gwLumpData([]byte{1}), lump.LUMP_MAX_SIZE, 0); err == nil {
		g.fatal("a lump larger than the limit was accepted by PutWithOffset")
	}
	if lump.NewLumpDataAligned(lump.LUMP_MAX_SIZE+1, block.Min()).Inner != nil {
		g.fatal("a buffer larger than the limit was made")
	}
	if _, err := g.s.PutEmbed(gwId(2), make([]byte, 65536)); err == nil {
		g.fatal("an embedded lump larger than the limit was accepted")
	}
	if g.s.Usage() != before {
		g.fatal("a rejected put changed the usage from %+v to %+v", before, g.s.Usage())
	}
	g.contents("after rejected puts")
	zzgw.Stat(t, n, n)
}

func TestGov_C01_embedded(t *testing.T) {
	r := rand.New(rand.NewSource(zzgw.Seed()))
	g := gwNew(t, r, 2<<20, 0.4)
	defer g.done()
	n := 0
	for _, l := range []int{0, 1, 2, 255, 256, 257, 511, 512, 513, 1023, 1024, 32767, 32768, 65534, 65535} {
		id := g.ids[n%len(g.ids)]
		if err := g.embed(id, g.bytes(l)); err != nil {
			g.fatal("embedded put of %d bytes failed: %v", l, err)
		}
		g.contents("embedded length")
		n++
	}
	g.reopen()
	g.contents("embedded lengths, reopened")
	zzgw.Stat(t, n, n)
}

func TestGov_C02_ranges(t *testing.T) {
	zzgw.Loop(t, 10, 4000, func(i int, r *rand.Rand) {
		g := gwNew(t, r, 256<<10, 0.05)
		defer g.done()
		for id := uint64(0); id < 6; id++ {
			if r.Intn(6) == 0 {
				g.embed(id, g.bytes(r.Intn(700)))
			} else {
				g.put(id, g.bytes(g.size()))
			}
		}
		for k := 0; k < 60; k++ {
			id := uint64(r.Intn(7))
			l, had := g.m[id]
			n := len(l.data)
			off, ln := r.Intn(n+3), 0
			switch r.Intn(5) {
			case 0:
				ln = r.Intn(5)
			case 1:
				ln = n - off + r.Intn(4) - 1
			case 2:
				off = off / 512 * 512
				ln = r.Intn(n + 600)
			case 3:
				off = (n/512)*512 - r.Intn(3)
				ln = r.Intn(600)
			default:
				ln = r.Intn(n + 1)
			}
			if off < 0 {
				off = 0
			}
			if ln < 0 {
				ln = 0
			}
			o32, l32 := uint32(off), uint32(ln)
			if r.Intn(20) == 0 {
				o32 = ^uint32(0) - uint32(r.Intn(4))
				off = int(o32)
			}
			if r.Intn(20) == 0 {
				l32 = ^uint32(0) - uint32(r.Intn(4))
				ln = int(l32)
			}
			b, err := g.s.GetWithOffset(gwId(id), o32, l32)
			if !had {
				if err == nil {
					g.fatal("range of an absent lump was read")
				}
			} else if off > n {
				if err == nil {
					g.fatal("lump %d has %d bytes, range %d+%d beyond its end gave %d bytes", id, n, off, ln, len(b))
				}
			} else if err == nil {
				e := off + ln
				if e > n {
					e = n
				}
				if !bytes.Equal(b, l.data[off:e]) {
					g.fatal("lump %d has %d bytes, range %d+%d gave %d bytes, want %d, first difference %d", id, n, off, ln, len(b), e-off, gwDiff(b, l.data[off:e]))
				}
			} else if off+ln <= n {
				g.fatal("lump %d has %d bytes, range %d+%d failed: %v", id, n, off, ln, err)
			}
			// update
			if r.Intn(2) == 0 {
				if ln > 9000 || ln < 0 {
					ln = r.Intn(20)
				}
				g.putOff(id, g.bytes(ln), o32, 0)
				if k%3 == 0 {
					g.contents("after an update in place")
				}
				if _, ok := g.m[6]; ok {
					g.del(6)
				}
			}
		}
		g.contents("after updates in place")
	})
}

// all offsets and lengths around the ends of small lumps
func TestGov_C02_boundaries(t *testing.T) {
	r := rand.New(rand.NewSource(zzgw.Seed()))
	g := gwNew(t, r, 256<<10, 0.05)
	defer g.done()
	n := 0
	sizes := []int{0, 1, 509, 510, 511, 512, 1020, 1021, 1022, 1023, 1024, 1025, 1534, 1535, 1536}
	for _, size := range sizes {
		g.put(1, g.bytes(size))
		g.put(2, g.bytes(700))
		want := g.m[1].data
		pts := []int{}
		for _, p := range []int{0, 1, 510, 511, 512, 513, 1022, 1023, 1024, 1025, size - 2, size - 1, size, size + 1} {
			if p >= 0 && p <= size+1 {
				pts = append(pts, p)
			}
		}
		for _, a := range pts {
			for _, b := range pts {
				if b < a {
					continue
				}
				n++
				got, err := g.s.GetWithOffset(gwId(1), uint32(a), uint32(b-a))
				e := b
				if e > size {
					e = size
				}
				if b <= size && err != nil {
					g.fatal("size %d, range [%d,%d) failed: %v", size, a, b, err)
				}
				if err == nil && (a > size || !bytes.Equal(got, want[a:e])) {
					g.fatal("size %d, range [%d,%d): got %d bytes", size, a, b, len(got))
				}
				if b-a <= 600 {
					g.putOff(1, g.bytes(b-a), uint32(a), 0)
					want = g.m[1].data
				}
			}
		}
		g.contents("boundaries")
	}
	zzgw.Stat(t, n, n)
}

func TestGov_C02_create(t *testing.T) {
	zzgw.Loop(t, 5, 2000, func(i int, r *rand.Rand) {
		g := gwNew(t, r, 512<<10, 0.05)
		defer g.done()
		// old content on the device must not shine through
		for id := uint64(0); id < 5; id++ {
			g.put(id, bytes.Repeat([]byte{0xee}, 4000))
		}
		for id := uint64(0); id < 5; id++ {
			g.del(id)
		}
		for k := 0; k < 12; k++ {
			id := uint64(r.Intn(8))
			g.del(id)
			g.putOff(id, g.bytes(g.size()), uint32(g.size()), uint32(r.Intn(3)*g.size()))
			g.contents("after a creation with offset")
		}
		// limits
		for _, x := range [][2]uint32{{^uint32(0), 0}, {^uint32(0) - 5, 10}, {0, ^uint32(0)}, {0, lump.LUMP_MAX_SIZE + 1}, {lump.LUMP_MAX_SIZE - 2, 0}, {1 << 31, 1 << 31}} {
			g.del(7)
			g.putOff(7, g.bytes(20), x[0], x[1])
			g.contents("after a creation beyond the limit")
		}
	})
}

func TestGov_C06_ranges(t *testing.T) {
	zzgw.Loop(t, 6, 4000, func(i int, r *rand.Rand) {
		g := gwRandom(t, r)
		defer g.done()
		for k := 0; k < 30; k++ {
			switch r.Intn(5) {
			case 0:
				g.put(g.id(), g.bytes(r.Intn(1500)))
			case 1:
				g.embed(g.id(), g.bytes(r.Intn(60)))
			case 2:
				g.step()
			default:
				a, b := g.id(), g.id()
				if r.Intn(3) == 0 {
					b = a
				}
				if r.Intn(3) == 0 && b < ^uint64(0) {
					b++
				}
				lim := uint64(r.Intn(6))
				if r.Intn(3) == 0 {
					lim = ^uint64(0)
				}
				var want []uint64
				for _, x := range g.sorted() {
					if a <= x && x < b && uint64(len(want)) < lim {
						want = append(want, x)
					}
				}
				got := gwU64s(g.s.ListRange(gwId(a), gwId(b), lim))
				if fmt.Sprint(got) != fmt.Sprint(want) {
					g.fatal("ListRange(%d,%d,%d) gives %v, want %v", a, b, lim, got, want)
				}
				if r.Intn(3) == 0 {
					g.delRange(a, b)
				}
			}
			g.listing("after an operation")
			g.space("after an operation")
		}
		g.contents("at the end")
		g.reopen()
		g.all("reopened")
	})
}

func TestGov_C05_listing(t *testing.T) {
	zzgw.Loop(t, 6, 4000, func(i int, r *rand.Rand) {
		g := gwRandom(t, r)
		defer g.done()
		for k := 0; k < 40; k++ {
			g.step()
			g.listing("after an operation")
			x := g.id()
			f, err := g.s.First(gwId(x))
			want, have := uint64(0), false
			for _, y := range g.sorted() {
				if y >= x {
					want, have = y, true
					break
				}
			}
			if have != (err == nil) || have && f.U64() != want {
				g.fatal("First(%d) = %d %v, want %d %v", x, f.U64(), err, want, have)
			}
		}
		g.contents("at the end")
	})
}

func TestGov_C19_generate(t *testing.T) {
	zzgw.Loop(t, 4, 2000, func(i int, r *rand.Rand) {
		g := gwNew(t, r, 128<<10, 0.3)
		defer g.done()
		if r.Intn(2) == 0 {
			g.ids = []uint64{0, 1, 2, 3, ^uint64(0), ^uint64(0) - 1}
		}
		for k := 0; k < 60; k++ {
			if r.Intn(3) > 0 {
				g.embed(g.id(), g.bytes(r.Intn(9)))
			} else {
				g.del(g.id())
			}
			id, ok := g.s.GenerateEmptyId()
			if !ok {
				g.fatal("no id was generated")
			}
			if _, used := g.m[id.U64()]; used {
				g.fatal("the generated id %d is in use", id.U64())
			}
			ids := g.sorted()
			want := uint64(0)
			if len(ids) > 0 {
				if mx := ids[len(ids)-1]; mx < ^uint64(0) {
					want = mx + 1
				} else {
					for _, x := range ids {
						if x == want {
							want++
						}
					}
				}
			}
			if id.U64() != want {
				g.fatal("generated id %d, want %d (ids %v)", id.U64(), want, ids)
			}
			if r.Intn(2) == 0 {
				g.embed(id.U64(), []byte{1})
				g.ids = append(append([]uint64(nil), g.ids...), id.U64())
			}
		}
	})
}

func TestGov_C19_text(t *testing.T) {
	n := 0
	r := rand.New(rand.NewSource(zzgw.Seed()))
	check := func(x uint64) {
		n++
		id := lump.FromU64(0, x)
		back, err := lump.FromString(id.String())
		if err != nil || back != id {
			t.Fatalf("id %d -> %q -> %v %v", x, id.String(), back, err)
		}
		if id.String() != fmt.Sprintf("%x", x) {
			t.Fatalf("id %d is written as %q", x, id.String())
		}
	}
	for _, x := range gwIds {
		check(x)
	}
	for i := 0; i < 5000; i++ {
		check(r.Uint64() >> uint(r.Intn(64)))
	}
	for _, s := range []string{"", "g", "0x1", "-1", "10000000000000000", " 1", "1 ", "1.5", "+1"} {
		if id, err := lump.FromString(s); err == nil {
			t.Fatalf("%q was accepted as id %v", s, id)
		}
	}
	zzgw.Stat(t, n, n)
}

func TestGov_C10_reopen(t *testing.T) {
	zzgw.Loop(t, 6, 4000, func(i int, r *rand.Rand) {
		g := gwRandom(t, r)
		defer g.done()
		if r.Intn(2) == 0 {
			g.maxPut = 800
		}
		n := 10 + r.Intn(60)
		for k := 0; k < n; k++ {
			g.step()
			if r.Intn(12) == 0 {
				g.reopen()
				g.all("reopened")
			}
			if r.Intn(15) == 0 {
				g.image()
			}
		}
		g.all("before the last reopen")
		g.reopen()
		g.all("reopened")
	})
}

// many small records through a tiny journal: every position of the jump
func TestGov_C10_wrap(t *testing.T) {
	zzgw.Loop(t, 3, 2000, func(i int, r *rand.Rand) {
		g := gwNew(t, r, uint64(16+r.Intn(16))<<10, 0.1+0.2*r.Float64())
		defer g.done()
		g.maxEmb, g.maxPut = 40+r.Intn(200), 600
		for k := 0; k < 250; k++ {
			switch r.Intn(8) {
			case 0, 1, 2, 3:
				g.embed(g.id(), g.bytes(r.Intn(g.maxEmb)))
			case 4, 5:
				g.del(g.id())
			case 6:
				g.put(g.id(), g.bytes(r.Intn(600)))
			default:
				g.step()
			}
			if r.Intn(25) == 0 {
				g.reopen()
				g.all("reopened")
			}
		}
		g.reopen()
		g.all("reopened")
	})
}

func TestGov_C11_gc(t *testing.T) {
	zzgw.Loop(t, 6, 4000, func(i int, r *rand.Rand) {
		g := gwNew(t, r, uint64(24+r.Intn(100))<<10, 0.05+0.3*r.Float64())
		defer g.done()
		g.maxEmb, g.maxPut = 20+r.Intn(300), 700
		if r.Intn(3) == 0 {
			g.s.SetAutomaticGcMode(false)
		}
		for k := 0; k < 120; k++ {
			switch r.Intn(10) {
			case 0:
				g.logf("JournalGC")
				g.s.JournalGC()
				g.all("after a collection")
			case 1, 2:
				n := r.Intn(8)
				g.logf("sideJob(%d)", n)
				g.s.RunSideJobOnce(n)
				g.contents("after a side job")
			case 3:
				g.step()
			case 4:
				g.del(g.id())
			case 5:
				g.put(g.id(), g.bytes(r.Intn(700)))
			case 6:
				if r.Intn(4) == 0 {
					g.reopen()
					g.all("reopened")
				}
			default:
				g.embed(g.id(), g.bytes(r.Intn(g.maxEmb)))
			}
		}
		g.all("before reopen")
		g.reopen()
		g.all("reopened")
		g.s.JournalGC()
		g.logf("JournalGC")
		g.all("after the last collection")
		g.reopen()
		g.all("reopened after the last collection")
	})
}

// a collection makes room: with few live lumps the journal never stays full
func TestGov_C11_progress(t *testing.T) {
	zzgw.Loop(t, 3, 500, func(i int, r *rand.Rand) {
		g := gwNew(t, r, 64<<10, 0.2)
		defer g.done()
		for k := 0; k < 400; k++ {
			id := uint64(r.Intn(4))
			if err := g.embed(id, g.bytes(r.Intn(200))); err != nil {
				g.logf("JournalGC")
				g.s.JournalGC()
				g.s.JournalGC()
				if err := g.embed(id, g.bytes(r.Intn(200))); err != nil {
					g.fatal("four small lumps live, and the journal is full after collections: %v", err)
				}
			}
		}
		g.contents("at the end")
		g.reopen()
		g.contents("reopened")
	})
}

func TestGov_C17_full(t *testing.T) {
	zzgw.Loop(t, 6, 4000, func(i int, r *rand.Rand) {
		g := gwNew(t, r, uint64(16+r.Intn(24))<<10, 0.05+0.3*r.Float64())
		defer g.done()
		g.maxPut = 9000
		g.maxEmb = 900
		if r.Intn(2) == 0 {
			g.s.SetAutomaticGcMode(false)
		}
		for k := 0; k < 60; k++ {
			g.step()
			g.all("after an operation")
			if r.Intn(20) == 0 {
				g.reopen()
				g.all("reopened")
			}
		}
		g.reopen()
		g.all("reopened")
	})
}

// fill the data region completely, free everything, fill again: nothing leaks
func TestGov_C17_noLeak(t *testing.T) {
	zzgw.Loop(t, 3, 300, func(i int, r *rand.Rand) {
		g := gwNew(t, r, 64<<10, 0.3)
		defer g.done()
		var first int
		for round := 0; round < 3; round++ {
			n := 0
			for id := uint64(0); id < 200; id++ {
				if _, err := g.s.Put(gwId(id), gwLumpData(make([]byte, 510))); err != nil {
					break
				}
				n++
			}
			if round == 0 {
				first = n
			} else if n != first {
				g.fatal("round %d stored %d lumps, the first stored %d", round, n, first)
			}
			if uint64(n) == g.s.Header().DataRegionSize/512 {
				if u := g.s.Usage(); u.DataFreeBytes != 0 {
					g.fatal("a full store reports free bytes: %+v", u)
				}
			}
			if r.Intn(2) == 0 {
				for id := uint64(0); id < 200; id++ {
					if _, _, err := g.s.Delete(gwId(id)); err != nil {
						g.s.JournalGC()
						g.s.Delete(gwId(id))
					}
				}
			} else {
				if err := g.s.DeleteRange(gwId(0), gwId(200), true); err != nil {
					g.s.JournalGC()
					if err := g.s.DeleteRange(gwId(0), gwId(200), true); err != nil {
						return
					}
				}
			}
			if len(g.s.List()) > 0 {
				return
			}
			if u := g.s.Usage(); u.DataFreeBytes != g.s.Header().DataRegionSize {
				g.fatal("everything was deleted, but only %d of %d bytes are free", u.DataFreeBytes, g.s.Header().DataRegionSize)
			}
			for j := 0; j < 4; j++ {
				g.s.JournalGC()
			}
		}
	})
}

func TestGov_C21_usage(t *testing.T) {
	zzgw.Loop(t, 6, 4000, func(i int, r *rand.Rand) {
		g := gwRandom(t, r)
		defer g.done()
		g.maxPut = 3000 + r.Intn(60000)
		for k := 0; k < 50; k++ {
			g.step()
			if r.Intn(10) == 0 {
				g.reopen()
			}
			u, h := g.s.Usage(), g.s.Header()
			if u.JournalCapacity != h.JournalRegionSize || u.DataCapacity != h.DataRegionSize {
				g.fatal("capacities %+v, header %+v", u, h)
			}
			g.listing("usage")
			g.space("usage")
			js := g.s.JournalSnapshot()
			want := js.Tail - js.UnreleasedHead
			if js.Tail < js.UnreleasedHead {
				want = js.Tail + (h.JournalRegionSize - 512) - js.UnreleasedHead
			}
			if u.JournalUsageBytes != want {
				g.fatal("%d journal bytes are reported in use, head %d tail %d: %d", u.JournalUsageBytes, js.UnreleasedHead, js.Tail, want)
			}
			// the largest lump that can be stored
			n := u.MaxSegmentSize
			if n > lump.LUMP_MAX_SIZE || (u.DataFreeBytes == 0) != (n == 0) {
				g.fatal("largest storable lump %d with %d bytes free", n, u.DataFreeBytes)
			}
			if n > 0 && r.Intn(4) == 0 {
				const id = 77777
				data := g.bytes(int(n))
				if _, err := g.s.Put(gwId(id), gwLumpData(data)); err != nil {
					//the journal may have no room for the record
					if errors.Cause(err) != internalerror.JournalStorageFull {
						g.fatal("a lump of %d bytes, the reported maximum, is refused: %v", n, err)
					}
				} else {
					g.s.Delete(gwId(id))
				}
				if n < lump.LUMP_MAX_SIZE && g.s.Usage().MaxSegmentSize == n {
					if _, err := g.s.Put(gwId(id), gwLumpData(make([]byte, n+1))); err == nil {
						g.fatal("a lump larger than the reported maximum %d was stored", n)
					}
				}
				if _, ok := g.live(id); ok {
					g.s.Delete(gwId(id))
				}
				if _, ok := g.live(id); ok {
					return
				}
			}
		}
	})
}

// a data region that holds more than one lump of the largest size
func TestGov_C21_large(t *testing.T) {
	zzgw.Loop(t, 2, 40, func(i int, r *rand.Rand) {
		g := gwNew(t, r, 512*uint64(66<<10+r.Intn(68<<10)), 0.01)
		defer g.done()
		for k := 0; k < 4; k++ {
			n, free := g.s.Usage().MaxSegmentSize, g.s.Usage().DataFreeBytes
			want := free - 2
			if want > lump.LUMP_MAX_SIZE {
				want = lump.LUMP_MAX_SIZE
			}
			if free == 0 {
				want = 0
			}
			// nothing was deleted, what is free is one run
			if n != want {
				g.fatal("largest storable lump %d with a run of %d bytes free", n, free)
			}
			if n == 0 {
				return
			}
			if r.Intn(3) == 0 {
				n = uint64(r.Intn(int(n)))
			}
			if _, err := g.s.Put(gwId(uint64(k)), gwLumpData(make([]byte, n))); err != nil {
				g.fatal("a lump of %d bytes is refused: %v", n, err)
			}
			g.logf("put %d bytes", n)
		}
	})
}
