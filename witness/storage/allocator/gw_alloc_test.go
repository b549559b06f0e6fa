//go:build go1.21

package allocator

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/zzgw"
	judy "github.com/thesues/go-judy"
)

// gwFreeSet: the free blocks as sorted, maximal intervals [s,e).
type gwFreeSet struct{ s, e []uint64 }

func (f *gwFreeSet) add(s, e uint64) {
	if s >= e {
		return
	}
	f.s, f.e = append(f.s, s), append(f.e, e)
	ix := make([]int, len(f.s))
	for i := range ix {
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return f.s[ix[a]] < f.s[ix[b]] })
	var ns, ne []uint64
	for _, i := range ix {
		if n := len(ne); n > 0 && ne[n-1] >= f.s[i] {
			if f.e[i] > ne[n-1] {
				ne[n-1] = f.e[i]
			}
			continue
		}
		ns, ne = append(ns, f.s[i]), append(ne, f.e[i])
	}
	f.s, f.e = ns, ne
}

func (f *gwFreeSet) covers(s, e uint64) bool {
	for i := range f.s {
		if f.s[i] <= s && e <= f.e[i] {
			return true
		}
	}
	return false
}

func (f *gwFreeSet) touches(s, e uint64) bool {
	for i := range f.s {
		if s < f.e[i] && f.s[i] < e {
			return true
		}
	}
	return false
}

func (f *gwFreeSet) remove(s, e uint64) {
	var ns, ne []uint64
	for i := range f.s {
		if f.e[i] <= s || e <= f.s[i] {
			ns, ne = append(ns, f.s[i]), append(ne, f.e[i])
			continue
		}
		if f.s[i] < s {
			ns, ne = append(ns, f.s[i]), append(ne, s)
		}
		if e < f.e[i] {
			ns, ne = append(ns, e), append(ne, f.e[i])
		}
	}
	f.s, f.e = ns, ne
}

func (f *gwFreeSet) count() (n, max uint64) {
	for i := range f.s {
		l := f.e[i] - f.s[i]
		n += l
		if l > max {
			max = l
		}
	}
	return
}

var gwKinds = []string{"judy", "btree"}

func gwNew(kind string) DataPortionAlloc {
	if kind == "judy" {
		return NewJudyAlloc()
	}
	return NewBtreeAlloc()
}

// gwRestore rebuilds the map from runs [s,e) given in any order.
func gwRestore(a DataPortionAlloc, r *rand.Rand, bs block.BlockSize, blocks uint64, runs []portion.DataPortion) {
	bytes := blocks*uint64(bs.AsU16()) + uint64(r.Intn(int(bs.AsU16())))
	vec := append([]portion.DataPortion{portion.NewDataPortion(0, 0)}, runs...)
	r.Shuffle(len(vec), func(i, j int) { vec[i], vec[j] = vec[j], vec[i] })
	if j, ok := a.(*JudyPortionAlloc); ok && r.Intn(3) == 0 && blocks < 1<<30 {
		arr := &judy.Judy1{}
		arr.Set(uint64(newJudyPortion(0, 0)))
		for _, p := range runs {
			arr.Set(uint64(fromDataPortionToJudy(p)))
		}
		j.RestoreFromIndexWithJudy(bs, bytes, arr)
		return
	}
	a.RestoreFromIndex(bs, bytes, vec)
}

func gwRuns(r *rand.Rand, blocks uint64, n int) (runs []portion.DataPortion, free *gwFreeSet) {
	free = &gwFreeSet{}
	free.add(0, blocks)
	for k := 0; k < n; k++ {
		s := uint64(r.Int63n(int64(blocks)))
		l := uint64(1 + r.Intn(9))
		if r.Intn(4) == 0 {
			l = uint64(1 + r.Intn(65535))
		}
		switch r.Intn(5) {
		case 0:
			s = 0
		case 1:
			if blocks > l {
				s = blocks - l
			}
		case 2: // right behind another one
			if len(runs) > 0 {
				p := runs[r.Intn(len(runs))]
				s = p.Start.AsU64() + uint64(p.Len)
			}
		}
		if s+l > blocks || !free.covers(s, s+l) {
			continue
		}
		runs = append(runs, portion.NewDataPortion(s, uint16(l)))
		free.remove(s, s+l)
	}
	return
}

type gwHist struct {
	t    *testing.T
	what string
	ops  []string
}

func (h *gwHist) op(f string, a ...interface{}) { h.ops = append(h.ops, fmt.Sprintf(f, a...)) }
func (h *gwHist) fail(f string, a ...interface{}) {
	h.t.Helper()
	o := h.ops
	if len(o) > 60 {
		o = o[len(o)-60:]
	}
	h.t.Fatalf("GOVFAIL %s: %s\nhistory: %v", h.what, fmt.Sprintf(f, a...), o)
}

func (h *gwHist) numbers(a DataPortionAlloc, f *gwFreeSet, small bool) {
	h.t.Helper()
	n, max := f.count()
	if a.FreeCount() != n {
		h.fail("%d free blocks reported, there are %d", a.FreeCount(), n)
	}
	if small && a.MaxSegmentSize() != max || a.MaxSegmentSize() > max {
		h.fail("longest free run reported %d, it is %d", a.MaxSegmentSize(), max)
	}
}

// drain allocates everything and checks that exactly the free blocks come out.
func (h *gwHist) drain(a DataPortionAlloc, f *gwFreeSet, small bool) {
	h.t.Helper()
	for size := uint64(65535); size >= 1; size /= 2 {
		for {
			p, err := a.Allocate(uint16(size))
			_, max := f.count()
			if err != nil {
				if small && max >= size {
					h.fail("draining: no run of %d found, the longest free run is %d", size, max)
				}
				break
			}
			s, e := p.Start.AsU64(), p.Start.AsU64()+uint64(p.Len)
			if uint64(p.Len) != size {
				h.fail("draining: %d blocks asked for, %d returned", size, p.Len)
			}
			if !f.covers(s, e) {
				h.fail("draining: blocks %d..%d are handed out, they are not all free", s, e)
			}
			f.remove(s, e)
		}
	}
	if n, _ := f.count(); n != 0 {
		h.fail("%d free blocks are never handed out, first run %d..%d", n, f.s[0], f.e[0])
	}
	if a.FreeCount() != 0 || a.MaxSegmentSize() != 0 {
		h.fail("nothing is free, but %d blocks, longest run %d are reported", a.FreeCount(), a.MaxSegmentSize())
	}
}

// gwHugeRuns: free runs around the longest one entry can hold, between short occupied ones.
func gwHugeRuns(r *rand.Rand) (blocks uint64, runs []portion.DataPortion, free *gwFreeSet) {
	free = &gwFreeSet{}
	for k := 2 + r.Intn(5); k > 0; k-- {
		gap := uint64(r.Intn(4))
		if r.Intn(2) == 0 {
			gap = 1<<24 - uint64(r.Intn(12))
		}
		free.add(blocks, blocks+gap)
		blocks += gap
		for n := 1 + r.Intn(3); n > 0; n-- {
			l := uint64(1 + r.Intn(6))
			runs = append(runs, portion.NewDataPortion(blocks, uint16(l)))
			blocks += l
		}
	}
	if gap := uint64(r.Intn(3)); gap > 0 {
		free.add(blocks, blocks+gap)
		blocks += gap
	}
	return
}

func TestGov_C03_alloc(t *testing.T) {
	zzgw.Loop(t, 60, 100000, func(i int, r *rand.Rand) {
		kind := gwKinds[i%2]
		a := gwNew(kind)
		defer a.Free()
		blocks := uint64(1 + r.Intn(60))
		switch r.Intn(4) {
		case 0:
			blocks = uint64(1 + r.Intn(3000))
		case 1:
			blocks = uint64(1 + r.Intn(1<<20))
		}
		runs, f := gwRuns(r, blocks, r.Intn(12))
		small := i%5 != 4
		if !small { // runs longer than one entry can hold are kept as several
			blocks, runs, f = gwHugeRuns(r)
		}
		h := &gwHist{t: t, what: fmt.Sprintf("%s allocator, %d blocks, occupied %v", kind, blocks, runs)}
		if r.Intn(3) == 0 && small {
			if kind == "judy" {
				a = BuildJudyAlloc(uint32(blocks))
			} else {
				a = BuildBtreeDataPortionAlloc(uint32(blocks))
			}
			runs, f = nil, &gwFreeSet{}
			f.add(0, blocks)
		} else {
			gwRestore(a, r, block.Min(), blocks, runs)
		}
		h.numbers(a, f, small)
		held := append([]portion.DataPortion(nil), runs...)
		for k := 0; k < 120; k++ {
			switch r.Intn(5) {
			case 0, 1:
				size := uint64(1 + r.Intn(6))
				if r.Intn(4) == 0 {
					size = uint64(1 + r.Intn(65535))
				}
				if _, max := f.count(); r.Intn(5) == 0 && max > 0 && max < 65535 {
					size = max + uint64(r.Intn(2))
				}
				h.op("allocate %d", size)
				p, err := a.Allocate(uint16(size))
				_, max := f.count()
				if err != nil {
					if max >= size && small {
						h.fail("refused, the longest free run is %d", max)
					}
					break
				}
				s, e := p.Start.AsU64(), p.Start.AsU64()+uint64(p.Len)
				h.op("-> %d..%d", s, e)
				if uint64(p.Len) != size {
					h.fail("%d blocks returned", p.Len)
				}
				if !f.covers(s, e) {
					h.fail("blocks %d..%d are not all free", s, e)
				}
				f.remove(s, e)
				held = append(held, p)
			case 2, 3:
				if len(held) == 0 {
					break
				}
				x := r.Intn(len(held))
				p := held[x]
				held = append(held[:x], held[x+1:]...)
				if p.Len > 1 && r.Intn(4) == 0 { // release a part only
					c := uint16(1 + r.Intn(int(p.Len)-1))
					held = append(held, portion.NewDataPortion(p.Start.AsU64()+uint64(c), p.Len-c))
					p = portion.NewDataPortion(p.Start.AsU64(), c)
				}
				h.op("release %d..%d", p.Start.AsU64(), p.Start.AsU64()+uint64(p.Len))
				a.Release(p)
				f.add(p.Start.AsU64(), p.Start.AsU64()+uint64(p.Len))
			case 4: // releasing free blocks is refused and changes nothing
				if len(f.s) == 0 {
					break
				}
				x := r.Intn(len(f.s))
				s, l := f.s[x]+uint64(r.Int63n(int64(f.e[x]-f.s[x]))), uint64(1+r.Intn(5))
				if d := uint64(r.Intn(4)); s >= d && r.Intn(2) == 0 {
					s, l = s-d, l+d
				}
				if !f.touches(s, s+l) {
					break
				}
				h.op("release of free blocks %d..%d", s, s+l)
				refused := func() (p bool) {
					defer func() { p = recover() != nil }()
					a.Release(portion.NewDataPortion(s, uint16(l)))
					return false
				}()
				if !refused {
					h.fail("not refused")
				}
			}
			h.numbers(a, f, small)
		}
		h.op("drain")
		h.drain(a, f, small)
	})
}

func TestGov_C04_rebuild(t *testing.T) {
	zzgw.Loop(t, 60, 100000, func(i int, r *rand.Rand) {
		kind := gwKinds[i%2]
		a := gwNew(kind)
		defer a.Free()
		var blocks uint64
		switch r.Intn(6) {
		case 0, 1:
			blocks = uint64(r.Intn(40) + 1)
		case 2:
			blocks = uint64(r.Intn(100000) + 1)
		case 3:
			blocks = 0xFFFFFF*uint64(r.Intn(3)+1) + uint64(r.Intn(3)) - 1
		default:
			blocks = uint64(r.Intn(1<<26) + 1)
		}
		if i%40 == 7 {
			blocks = 1<<31 + uint64(r.Intn(1<<20))
		}
		runs, f := gwRuns(r, blocks, r.Intn(30))
		bs := block.Min()
		if r.Intn(3) == 0 {
			bs, _ = block.NewBlockSize(uint16(512 * (1 + r.Intn(100))))
		}
		h := &gwHist{t: t, what: fmt.Sprintf("%s allocator, %d blocks of %d, occupied %v", kind, blocks, bs, runs)}
		gwRestore(a, r, bs, blocks, runs)
		h.numbers(a, f, blocks < 1<<24)
		if blocks < 1<<27 {
			h.drain(a, f, blocks < 1<<24)
		}
	})
}
