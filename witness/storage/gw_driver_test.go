//go:build go1.21

package storage

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/zzgw"
)

// A model-based driver over the public API of the store. The model is a map
// from id to bytes; what fails is reported with the operations so far.

type gwLump struct {
	data []byte
	emb  bool
}

type gwRun struct {
	t    *testing.T
	r    *rand.Rand
	dir  string
	path string
	s    *Storage
	m    map[uint64]gwLump
	log  []string
	// switches
	noFull bool
	ids    []uint64
	maxPut int
	maxEmb int
	n      int
	snap   bool
}

var gwIds = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 100, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0) - 1, ^uint64(0)}

func gwNew(t *testing.T, r *rand.Rand, capacity uint64, ratio float64) *gwRun {
	dir, err := os.MkdirTemp("", "gw")
	if err != nil {
		t.Skip(err)
	}
	g := &gwRun{t: t, r: r, dir: dir, path: filepath.Join(dir, "store.lusf"), m: map[uint64]gwLump{}, ids: gwIds, maxPut: 6000, maxEmb: 300}
	s, err := CreateCannylsStorage(g.path, capacity, ratio)
	if err != nil {
		t.Fatalf("create(%d, %v): %v", capacity, ratio, err)
	}
	g.s = s
	g.log = append(g.log, fmt.Sprintf("create(%d,%v)", capacity, ratio))
	return g
}

func gwRandom(t *testing.T, r *rand.Rand) *gwRun {
	caps := []uint64{24 << 10, 64 << 10, 128 << 10, 400 << 10, 1 << 20}
	c := caps[r.Intn(len(caps))]
	ratios := []float64{0.01, 0.05, 0.1, 0.3}
	g := gwNew(t, r, c, ratios[r.Intn(len(ratios))])
	if r.Intn(4) == 0 {
		g.s.SetAutomaticGcMode(false)
		g.logf("autogc off")
	}
	return g
}

func (g *gwRun) done() {
	if g.s != nil {
		g.s.Close()
	}
	os.RemoveAll(g.dir)
}

func (g *gwRun) logf(f string, a ...interface{}) {
	g.log = append(g.log, fmt.Sprintf(f, a...))
}

func (g *gwRun) fatal(f string, a ...interface{}) {
	g.t.Helper()
	l := g.log
	g.t.Fatalf("%s\nhistory (%d operations): %s", fmt.Sprintf(f, a...), len(l), strings.Join(l, "; "))
}

func (g *gwRun) id() uint64 { return g.ids[g.r.Intn(len(g.ids))] }

func gwId(x uint64) lump.LumpId { return lump.FromU64(0, x) }

func gwLumpData(b []byte) lump.LumpData {
	// any block size the buffer of the lump may have
	bs := []block.BlockSize{512, 512, 512, 4096, 1536, 32768}[len(b)%6]
	d := lump.NewLumpDataAligned(len(b), bs)
	copy(d.AsBytes(), b)
	return d
}

func (g *gwRun) bytes(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	if g.r.Intn(5) == 0 {
		for i := range b {
			b[i] = 0xff
		}
	}
	return b
}

func (g *gwRun) size() int {
	switch g.r.Intn(5) {
	case 0:
		return 512*(1+g.r.Intn(4)) - g.r.Intn(6)
	case 1:
		return g.r.Intn(4)
	case 2:
		return 512*(1+g.r.Intn(3)) + g.r.Intn(5)
	}
	return g.r.Intn(g.maxPut)
}

// live reads what the store has for an id now.
func (g *gwRun) live(id uint64) ([]byte, bool) {
	b, err := g.s.Get(gwId(id))
	return b, err == nil
}

// afterFailed takes over what a failed overwriting put left: the old lump or
// no lump, never a mixture.
func (g *gwRun) afterFailed(id uint64, op string) {
	b, ok := g.live(id)
	old, had := g.m[id]
	if !ok {
		delete(g.m, id)
		return
	}
	if !had || !bytes.Equal(b, old.data) {
		g.fatal("%s failed and left something that was never stored for id %d", op, id)
	}
}

func (g *gwRun) put(id uint64, b []byte) error {
	g.logf("put(%d,%d)", id, len(b))
	up, err := g.s.Put(gwId(id), gwLumpData(b))
	_, had := g.m[id]
	if err != nil {
		g.logf("=%v", err)
		g.afterFailed(id, "put")
		return err
	}
	if up != had {
		g.fatal("put reports updated=%v, the lump existed: %v", up, had)
	}
	g.m[id] = gwLump{data: append([]byte(nil), b...)}
	return nil
}

func (g *gwRun) embed(id uint64, b []byte) error {
	g.logf("embed(%d,%d)", id, len(b))
	_, had := g.m[id]
	up, err := g.s.PutEmbed(gwId(id), append([]byte(nil), b...))
	if err != nil {
		g.logf("=%v", err)
		x, ok := g.live(id)
		if ok != had || (had && !bytes.Equal(x, g.m[id].data)) {
			g.fatal("a failed embedded put changed lump %d", id)
		}
		return err
	}
	if up != had {
		g.fatal("embedded put reports updated=%v, the lump existed: %v", up, had)
	}
	g.m[id] = gwLump{data: append([]byte(nil), b...), emb: true}
	return nil
}

func (g *gwRun) del(id uint64) error {
	g.logf("delete(%d)", id)
	old, had := g.m[id]
	up, size, err := g.s.Delete(gwId(id))
	if err != nil {
		g.logf("=%v", err)
		x, ok := g.live(id)
		if ok != had || (had && !bytes.Equal(x, old.data)) {
			g.fatal("a failed delete changed lump %d", id)
		}
		return err
	}
	if up != had {
		g.fatal("delete reports %v, the lump existed: %v", up, had)
	}
	if had {
		if size != gwOnDisk(old) {
			g.fatal("delete of %d reports %d released bytes, want %d", id, size, gwOnDisk(old))
		}
	}
	delete(g.m, id)
	return nil
}

func (g *gwRun) delRange(a, b uint64) error {
	hint := g.r.Intn(4) > 0 // only a hint
	g.logf("deleteRange(%d,%d,%v)", a, b, hint)
	if err := g.s.DeleteRange(gwId(a), gwId(b), hint); err != nil {
		g.logf("=%v", err)
		return err
	}
	for k := range g.m {
		if a <= k && k < b {
			delete(g.m, k)
		}
	}
	return nil
}

func (g *gwRun) putOff(id uint64, b []byte, off, res uint32) error {
	g.logf("putWithOffset(%d,len %d,%d,%d)", id, len(b), off, res)
	old, had := g.m[id]
	var want []byte
	wantErr := false
	if had {
		if old.emb || uint64(off)+uint64(len(b)) > uint64(len(old.data)) {
			wantErr = true
		} else {
			want = append([]byte(nil), old.data...)
			copy(want[off:], b)
		}
	} else {
		n := uint64(off) + uint64(len(b))
		if uint64(res) > n {
			n = uint64(res)
		}
		if n > lump.LUMP_MAX_SIZE {
			wantErr = true
		} else {
			want = make([]byte, n)
			copy(want[off:], b)
		}
	}
	err := g.s.PutWithOffset(gwId(id), gwLumpData(b), off, res)
	if err != nil {
		g.logf("=%v", err)
		x, ok := g.live(id)
		if ok != had || (had && !bytes.Equal(x, old.data)) {
			g.fatal("a failed PutWithOffset changed lump %d", id)
		}
		if had && !wantErr {
			g.fatal("PutWithOffset(%d, %d bytes at %d) into a lump of %d bytes failed: %v", id, len(b), off, len(old.data), err)
		}
		return err
	}
	if wantErr {
		g.fatal("PutWithOffset(%d, %d bytes at %d, reserve %d) was accepted, the lump has %d bytes (exists %v, embedded %v)", id, len(b), off, res, len(old.data), had, old.emb)
	}
	g.m[id] = gwLump{data: want}
	return nil
}

func gwOnDisk(l gwLump) uint32 {
	if l.emb {
		return uint32(len(l.data))
	}
	return uint32((len(l.data) + 2 + 511) / 512 * 512)
}

// contents compares every lump with the model.
func (g *gwRun) contents(when string) {
	g.t.Helper()
	for _, id := range g.ids {
		want, had := g.m[id]
		b, err := g.s.Get(gwId(id))
		if had != (err == nil) {
			g.fatal("%s: lump %d exists %v, Get says %v", when, id, had, err)
		}
		sz, err2 := g.s.GetSize(gwId(id))
		od, err3 := g.s.GetSizeOnDisk(gwId(id))
		if !had {
			if err2 == nil || err3 == nil {
				g.fatal("%s: a size is reported for the absent lump %d", when, id)
			}
			continue
		}
		if !bytes.Equal(b, want.data) {
			g.fatal("%s: lump %d: got %d bytes, want %d, first difference at %d", when, id, len(b), len(want.data), gwDiff(b, want.data))
		}
		if err2 != nil || sz != uint32(len(want.data)) {
			g.fatal("%s: lump %d: size %d %v, want %d", when, id, sz, err2, len(want.data))
		}
		if err3 != nil || od != gwOnDisk(want) {
			g.fatal("%s: lump %d: size on disk %d %v, want %d", when, id, od, err3, gwOnDisk(want))
		}
	}
}

func gwDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func (g *gwRun) sorted() []uint64 {
	var r []uint64
	for k := range g.m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func gwU64s(l []lump.LumpId) []uint64 {
	var r []uint64
	for _, x := range l {
		r = append(r, x.U64())
	}
	return r
}

// listing compares ids, extremes and counts with the model.
func (g *gwRun) listing(when string) {
	g.t.Helper()
	ids := g.sorted()
	if got := gwU64s(g.s.List()); fmt.Sprint(got) != fmt.Sprint(ids) {
		g.fatal("%s: List gives %v, want %v", when, got, ids)
	}
	if n := g.s.Usage().FileCounts; n != uint64(len(ids)) {
		g.fatal("%s: %d lumps are counted, there are %d", when, n, len(ids))
	}
	mn, ok1 := g.s.MinId()
	mx, ok2 := g.s.MaxId()
	if len(ids) == 0 {
		if ok1 || ok2 {
			g.fatal("%s: an empty store has a smallest or largest id", when)
		}
	} else if !ok1 || !ok2 || mn.U64() != ids[0] || mx.U64() != ids[len(ids)-1] {
		g.fatal("%s: smallest and largest id are %v %v, want %v %v", when, mn.U64(), mx.U64(), ids[0], ids[len(ids)-1])
	}
}

func (g *gwRun) usedBlocks() (used uint64) {
	for _, l := range g.m {
		if !l.emb {
			used += uint64(gwOnDisk(l)) / 512
		}
	}
	return
}

// space compares the free blocks with what the lumps occupy.
func (g *gwRun) space(when string) {
	g.t.Helper()
	h := g.s.Header()
	want := h.DataRegionSize/512 - g.usedBlocks()
	if got := g.s.Usage().DataFreeBytes; got != want*512 {
		g.fatal("%s: %d bytes are reported free, %d blocks of %d are not occupied (%d bytes)", when, got, want, h.DataRegionSize/512, want*512)
	}
}

func (g *gwRun) all(when string) {
	g.t.Helper()
	g.contents(when)
	g.listing(when)
	g.space(when)
}

func (g *gwRun) reopen() {
	g.t.Helper()
	g.logf("reopen")
	g.s.Close()
	s, err := OpenCannylsStorage(g.path)
	if err != nil {
		g.fatal("reopen failed: %v", err)
	}
	g.s = s
}

// image opens a copy of the device file.
func (g *gwRun) image() {
	g.t.Helper()
	g.logf("sync+image")
	g.s.Sync()
	b, err := os.ReadFile(g.path)
	if err != nil {
		g.t.Skip(err)
	}
	p2 := filepath.Join(g.dir, "copy.lusf")
	if err := os.WriteFile(p2, b, 0o644); err != nil {
		g.t.Skip(err)
	}
	s, err := OpenCannylsStorage(p2)
	if err != nil {
		g.fatal("an image taken after a sync does not open: %v", err)
	}
	old := g.s
	g.s = s
	g.all("image after sync")
	g.s = old
	s.Close()
	os.Remove(p2)
}

// step performs one random operation.
func (g *gwRun) step() {
	r := g.r
	g.n++
	switch k := r.Intn(22); {
	case k < 5:
		g.put(g.id(), g.bytes(g.size()))
	case k < 9:
		g.embed(g.id(), g.bytes(r.Intn(g.maxEmb)))
	case k < 12:
		g.del(g.id())
	case k < 13:
		a, b := g.id(), g.id()
		if r.Intn(4) > 0 && a > b {
			a, b = b, a
		}
		g.delRange(a, b)
	case k < 16:
		b := g.bytes(g.size())
		off, res := uint32(0), uint32(0)
		id := g.id()
		if l, ok := g.m[id]; ok && r.Intn(4) > 0 && len(l.data) > 0 {
			o := r.Intn(len(l.data))
			off = uint32(o)
			n := r.Intn(len(l.data) - o + 1)
			if r.Intn(3) == 0 {
				n = len(l.data) - o + r.Intn(3)
			}
			b = g.bytes(n)
		} else {
			off = uint32(g.size())
			if r.Intn(2) == 0 {
				res = uint32(g.size() * 2)
			}
		}
		g.putOff(id, b, off, res)
	case k < 17:
		g.logf("JournalGC")
		g.s.JournalGC()
	case k < 20:
		n := 1 + r.Intn(5)
		g.logf("sideJob(%d)", n)
		g.s.RunSideJobOnce(n)
	case k < 21:
		g.logf("sync")
		g.s.Sync()
	default:
		g.logf("flush")
		g.s.Flush()
	}
}

var _ = zzgw.Seed
