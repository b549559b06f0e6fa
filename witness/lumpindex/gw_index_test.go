//go:build go1.21

package lumpindex

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"

	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/zzgw"
)

type gwLoc struct {
	start uint64
	n     uint16
	emb   bool
}

type gwIndex struct {
	t   *testing.T
	r   *rand.Rand
	x   *LumpIndex
	m   map[uint64]gwLoc
	log []string
}

func (g *gwIndex) fatal(f string, a ...interface{}) {
	g.t.Helper()
	g.t.Fatalf("%s\nhistory: %v", fmt.Sprintf(f, a...), g.log)
}

func (g *gwIndex) id() uint64 {
	switch g.r.Intn(6) {
	case 0:
		return ^uint64(0) - uint64(g.r.Intn(3))
	case 1:
		return 1<<63 + uint64(g.r.Intn(3)) - 1
	case 2:
		return 1<<32 + uint64(g.r.Intn(3)) - 1
	}
	return uint64(g.r.Intn(12))
}

func (g *gwIndex) loc() gwLoc {
	l := gwLoc{start: g.r.Uint64() >> uint(24+g.r.Intn(40)), n: uint16(g.r.Intn(65536) >> uint(g.r.Intn(16))), emb: g.r.Intn(2) == 0}
	switch g.r.Intn(4) {
	case 0:
		l.start = 1<<40 - 1 - uint64(g.r.Intn(2))
	case 1:
		l.n = 65535
	}
	return l
}

func (g *gwIndex) sorted() []uint64 {
	var r []uint64
	for k := range g.m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func gwId(x uint64) lump.LumpId { return lump.FromU64(0, x) }

func gwIds(l []lump.LumpId) []uint64 {
	var r []uint64
	for _, x := range l {
		r = append(r, x.U64())
	}
	return r
}

func (g *gwIndex) is(id uint64, p portion.Portion) {
	g.t.Helper()
	l := g.m[id]
	switch v := p.(type) {
	case portion.DataPortion:
		if l.emb || v.Start != address.AddressFromU64(l.start) || v.Len != l.n {
			g.fatal("id %d is at %+v, stored %+v", id, v, l)
		}
	case portion.JournalPortion:
		if !l.emb || v.Start != address.AddressFromU64(l.start) || v.Len != l.n {
			g.fatal("id %d is at %+v, stored %+v", id, v, l)
		}
	default:
		g.fatal("id %d has %T", id, p)
	}
}

func (g *gwIndex) step() {
	r := g.r
	id := g.id()
	switch k := r.Intn(12); {
	case k < 6:
		l := g.loc()
		g.log = append(g.log, fmt.Sprintf("insert(%d,%+v)", id, l))
		if l.emb {
			g.x.InsertJournalPortion(gwId(id), portion.NewJournalPortion(l.start, l.n))
		} else {
			g.x.InsertDataPortion(gwId(id), portion.NewDataPortion(l.start, l.n))
		}
		g.m[id] = l
	case k < 9:
		g.log = append(g.log, fmt.Sprintf("delete(%d)", id))
		_, had := g.m[id]
		if g.x.Delete(gwId(id)) != had {
			g.fatal("delete of %d, stored: %v", id, had)
		}
		delete(g.m, id)
	}
}

func (g *gwIndex) check() {
	ids := g.sorted()
	if got := gwIds(g.x.List()); fmt.Sprint(got) != fmt.Sprint(ids) {
		g.fatal("List gives %v, want %v", got, ids)
	}
	if g.x.Count() != uint64(len(ids)) {
		g.fatal("%d ids are counted, %d are stored", g.x.Count(), len(ids))
	}
	for k := 0; k < 6; k++ {
		id := g.id()
		p, err := g.x.Get(gwId(id))
		if _, had := g.m[id]; had != (err == nil) {
			g.fatal("Get(%d): %v %v", id, p, err)
		} else if had {
			g.is(id, p)
		}
	}
	mn, ok1 := g.x.Min()
	mx, ok2 := g.x.Max()
	if ok1 != (len(ids) > 0) || ok2 != ok1 || ok1 && (mn.U64() != ids[0] || mx.U64() != ids[len(ids)-1]) {
		g.fatal("smallest %v %v, largest %v %v, stored %v", mn.U64(), ok1, mx.U64(), ok2, ids)
	}
	from := g.id()
	next, have := uint64(0), false
	for _, y := range ids {
		if y >= from {
			next, have = y, true
			break
		}
	}
	if f, err := g.x.First(gwId(from)); (err == nil) != have || have && f.U64() != next {
		g.fatal("First(%d) = %d %v, want %d %v", from, f.U64(), err, next, have)
	}
	empty := uint64(0)
	for _, y := range ids {
		if y == empty {
			empty++
		}
	}
	if f, ok := g.x.FirstEmpty(); !ok || f.U64() != empty {
		g.fatal("FirstEmpty = %d %v, want %d", f.U64(), ok, empty)
	}
}

func gwNewIndex(t *testing.T, r *rand.Rand) *gwIndex {
	return &gwIndex{t: t, r: r, x: NewIndex(), m: map[uint64]gwLoc{}}
}

func TestGov_C05_map(t *testing.T) {
	zzgw.Loop(t, 200, 200000, func(i int, r *rand.Rand) {
		g := gwNewIndex(t, r)
		defer g.x.Free()
		for k := 0; k < 60; k++ {
			g.step()
			if r.Intn(20) == 0 {
				a, b := g.id(), g.id()
				g.delRange(a, b)
			}
			g.check()
		}
	})
}

func (g *gwIndex) delRange(a, b uint64) {
	g.log = append(g.log, fmt.Sprintf("deleteRange(%d,%d)", a, b))
	g.x.DeleteRange(gwId(a), gwId(b))
	for k := range g.m {
		if a <= k && k < b {
			delete(g.m, k)
		}
	}
}

func TestGov_C06_index(t *testing.T) {
	zzgw.Loop(t, 200, 200000, func(i int, r *rand.Rand) {
		g := gwNewIndex(t, r)
		defer g.x.Free()
		for k := 0; k < 40; k++ {
			g.step()
			a, b := g.id(), g.id()
			if r.Intn(3) == 0 && a < ^uint64(0)-3 {
				b = a + uint64(r.Intn(3))
			}
			lim := uint64(r.Intn(5))
			if r.Intn(3) == 0 {
				lim = ^uint64(0)
			}
			var in, want []uint64
			for _, x := range g.sorted() {
				if a <= x && x < b {
					in = append(in, x)
					if uint64(len(want)) < lim {
						want = append(want, x)
					}
				}
			}
			if got := gwIds(g.x.ListRange(gwId(a), gwId(b), lim)); fmt.Sprint(got) != fmt.Sprint(want) {
				g.fatal("ListRange(%d,%d,%d) gives %v, want %v", a, b, lim, got, want)
			}
			var it []uint64
			stop := -1
			if r.Intn(3) == 0 {
				stop = r.Intn(4)
			}
			bad := fmt.Errorf("stop")
			err := g.x.RangeIter(gwId(a), gwId(b), func(id lump.LumpId, p portion.Portion) error {
				if len(it) == stop {
					return bad
				}
				g.is(id.U64(), p)
				it = append(it, id.U64())
				return nil
			})
			w := in
			if stop >= 0 && stop < len(in) {
				w = in[:stop]
				if err != bad {
					g.fatal("RangeIter was stopped with an error and gives %v", err)
				}
			} else if err != nil {
				g.fatal("RangeIter gives %v", err)
			}
			if fmt.Sprint(it) != fmt.Sprint(w) {
				g.fatal("RangeIter(%d,%d) gives %v, want %v", a, b, it, w)
			}
			if r.Intn(5) == 0 {
				g.delRange(a, b)
				g.check()
			}
		}
	})
}

func TestGov_C04_occupied(t *testing.T) {
	zzgw.LoopB(t, zzgw.Budget()/2, 200, 200000, func(i int, r *rand.Rand) {
		g := gwNewIndex(t, r)
		defer g.x.Free()
		for k := 0; k < 30; k++ {
			g.step()
		}
		want := map[string]int{}
		for _, l := range g.m {
			if !l.emb {
				want[fmt.Sprint(l.start, l.n)]++
			}
		}
		got := map[string]int{}
		for _, p := range g.x.DataPortions() {
			if p.Len > 0 || p.Start != 0 {
				got[fmt.Sprint(p.Start.AsU64(), p.Len)]++
			}
		}
		for k, n := range want {
			if k != "0 0" && got[k] != n {
				g.fatal("portion %s is listed %d times, %d lumps are there", k, got[k], n)
			}
		}
		for k := range got {
			if want[k] == 0 {
				g.fatal("portion %s is listed, no lump is there", k)
			}
		}
	})
}
