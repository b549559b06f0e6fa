//go:build go1.21

package storage

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"testing"

	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage/journal"
	"github.com/thesues/cannyls-go/zzgw"
)

// gwCtl decides which accesses to the device fail.
type gwCtl struct {
	r     *rand.Rand
	armed bool
	left  int // accesses until the first failure
	count int // how many fail then
	hit   int
	what  string
}

var errGwDevice = errors.New("device failure")

func (c *gwCtl) fail(what string) bool {
	if !c.armed {
		return false
	}
	if c.left > 0 {
		c.left--
		return false
	}
	if c.count <= 0 {
		return false
	}
	c.count--
	c.hit++
	c.what += what + " "
	return true
}

// gwFaulty is a device whose accesses may fail; a failed write may have
// written some of its blocks.
type gwFaulty struct {
	nvm.NonVolatileMemory
	c *gwCtl
}

func (f *gwFaulty) Read(b []byte) (int, error) {
	if f.c.fail("read") {
		return 0, errGwDevice
	}
	return f.NonVolatileMemory.Read(b)
}
func (f *gwFaulty) ReadAt(b []byte, o int64) (int, error) {
	if f.c.fail("readAt") {
		return 0, errGwDevice
	}
	return f.NonVolatileMemory.ReadAt(b, o)
}
func (f *gwFaulty) part(n int) int {
	if n < 512 || f.c.r.Intn(2) == 0 {
		return 0
	}
	return f.c.r.Intn(n/512+1) * 512
}
func (f *gwFaulty) Write(b []byte) (int, error) {
	if f.c.fail("write") {
		if k := f.part(len(b)); k > 0 {
			f.NonVolatileMemory.Write(b[:k])
		}
		return -1, errGwDevice
	}
	return f.NonVolatileMemory.Write(b)
}
func (f *gwFaulty) WriteAt(b []byte, o int64) (int, error) {
	if f.c.fail("writeAt") {
		if k := f.part(len(b)); k > 0 {
			f.NonVolatileMemory.WriteAt(b[:k], o)
		}
		return -1, errGwDevice
	}
	return f.NonVolatileMemory.WriteAt(b, o)
}
func (f *gwFaulty) Seek(o int64, w int) (int64, error) {
	if f.c.fail("seek") {
		return -1, errGwDevice
	}
	return f.NonVolatileMemory.Seek(o, w)
}
func (f *gwFaulty) Sync() error {
	if f.c.fail("sync") {
		return errGwDevice
	}
	return f.NonVolatileMemory.Sync()
}
func (f *gwFaulty) Split(p uint64) (nvm.NonVolatileMemory, nvm.NonVolatileMemory, error) {
	a, b, err := f.NonVolatileMemory.Split(p)
	if err != nil {
		return nil, nil, err
	}
	return &gwFaulty{a, f.c}, &gwFaulty{b, f.c}, nil
}

// gwBreak puts a device that may fail under an open store.
func (g *gwRun) gwBreak(c *gwCtl) {
	s := g.s
	s.Sync()
	jn, _ := s.storageHeader.SplitRegion(s.innerNVM)
	jr, err := journal.OpenJournalRegion(&gwFaulty{jn, c})
	if err != nil {
		g.fatal("the journal of an open store does not open: %v", err)
	}
	ix := lumpindex.NewIndex()
	jr.RestoreIndex(ix)
	s.journalRegion, s.index = jr, ix
	s.dataRegion.nvm = &gwFaulty{s.dataRegion.nvm, c}
}

// guarded runs an operation with failures; false: it stopped the process (a
// device that fails while the journal is synced or collected).
func (g *gwRun) guarded(c *gwCtl, f func()) (ok bool) {
	c.armed, c.left, c.count, c.hit, c.what = true, g.r.Intn(9), 1+g.r.Intn(3), 0, ""
	if g.r.Intn(3) == 0 {
		c.left = g.r.Intn(3)
	}
	if g.r.Intn(4) == 0 {
		c.count = 1000
	}
	defer func() {
		c.armed = false
		if x := recover(); x != nil {
			if c.hit == 0 {
				panic(x)
			}
			ok = false
		}
	}()
	f()
	return true
}

// same: a failed operation left lump id as it was.
func (g *gwRun) same(id uint64, op string) {
	b, ok := g.live(id)
	old, had := g.m[id]
	if ok != had || !bytes.Equal(b, old.data) {
		g.fatal("%s failed and changed lump %d (it existed %v with %d bytes, exists %v with %d bytes)", op, id, had, len(old.data), ok, len(b))
	}
}

// one operation on a failing device
func (g *gwRun) faultyStep(c *gwCtl) bool {
	r, id := g.r, g.id()
	old, had := g.m[id]
	var err error
	switch r.Intn(12) {
	case 0, 1, 2:
		b := g.bytes(g.size())
		g.logf("put(%d,%d)!", id, len(b))
		d := gwLumpData(b)
		if !g.guarded(c, func() { _, err = g.s.Put(gwId(id), d) }) {
			return false
		}
		g.logf("[%s] =%v", c.what, err)
		if err == nil {
			g.m[id] = gwLump{data: b}
		} else {
			g.afterFailed(id, "put")
		}
	case 3, 4:
		b := g.bytes(r.Intn(g.maxEmb))
		g.logf("embed(%d,%d)!", id, len(b))
		if !g.guarded(c, func() { _, err = g.s.PutEmbed(gwId(id), append([]byte(nil), b...)) }) {
			return false
		}
		g.logf("[%s] =%v", c.what, err)
		if err == nil {
			g.m[id] = gwLump{data: b, emb: true}
		} else {
			g.same(id, "embedded put")
		}
	case 5, 6:
		g.logf("delete(%d)!", id)
		if !g.guarded(c, func() { _, _, err = g.s.Delete(gwId(id)) }) {
			return false
		}
		g.logf("[%s] =%v", c.what, err)
		if err == nil {
			delete(g.m, id)
		} else {
			g.same(id, "delete")
		}
	case 7:
		a, b := g.id(), g.id()
		g.logf("deleteRange(%d,%d)!", a, b)
		if !g.guarded(c, func() { err = g.s.DeleteRange(gwId(a), gwId(b), true) }) {
			return false
		}
		g.logf("[%s] =%v", c.what, err)
		if err == nil {
			for k := range g.m {
				if a <= k && k < b {
					delete(g.m, k)
				}
			}
		}
	case 8, 9:
		b := g.bytes(g.size())
		off := uint32(g.size())
		if had && len(old.data) > 0 {
			off = uint32(r.Intn(len(old.data)))
			b = g.bytes(r.Intn(len(old.data) - int(off) + 1))
		}
		g.logf("putWithOffset(%d,len %d,%d)!", id, len(b), off)
		d := gwLumpData(b)
		if !g.guarded(c, func() { err = g.s.PutWithOffset(gwId(id), d, off, 0) }) {
			return false
		}
		g.logf("[%s] =%v", c.what, err)
		switch {
		case err == nil && had:
			n := append([]byte(nil), old.data...)
			copy(n[off:], b)
			g.m[id] = gwLump{data: n}
		case err == nil:
			g.m[id] = gwLump{data: append(make([]byte, off), b...)}
		case !had || old.emb:
			g.same(id, "PutWithOffset")
		default:
			x, ok := g.live(id)
			if !ok || len(x) != len(old.data) {
				g.fatal("a failed update lost lump %d, or changed its size", id)
			}
			for i := range x {
				in := i >= int(off) && i < int(off)+len(b)
				if x[i] != old.data[i] && !(in && x[i] == b[i-int(off)]) {
					g.fatal("a failed update of [%d,%d) changed byte %d of lump %d", off, int(off)+len(b), i, id)
				}
			}
			g.m[id] = gwLump{data: x}
		}
	case 10:
		var b []byte
		g.logf("get(%d)!", id)
		if !g.guarded(c, func() { b, err = g.s.Get(gwId(id)) }) {
			return false
		}
		if err == nil && (!had || !bytes.Equal(b, old.data)) {
			g.fatal("a Get on a failing device [%s] returned something else than lump %d", c.what, id)
		}
		if !had || len(old.data) == 0 {
			break
		}
		off := r.Intn(len(old.data))
		n := r.Intn(len(old.data) - off + 1)
		if !g.guarded(c, func() { b, err = g.s.GetWithOffset(gwId(id), uint32(off), uint32(n)) }) {
			return false
		}
		if err == nil && !bytes.Equal(b, old.data[off:off+n]) {
			g.fatal("a GetWithOffset(%d,%d) on a failing device [%s] returned something else than the bytes of lump %d", off, n, c.what, id)
		}
		var sz uint32
		if !g.guarded(c, func() { sz, err = g.s.GetSize(gwId(id)) }) {
			return false
		}
		if err == nil && sz != uint32(len(old.data)) {
			g.fatal("a GetSize on a failing device [%s] returned %d for lump %d of %d bytes", c.what, sz, id, len(old.data))
		}
	default:
		what := []string{"JournalGC", "side job", "flush"}[r.Intn(3)]
		g.logf("%s!", what)
		return g.guarded(c, func() {
			switch what {
			case "JournalGC":
				g.s.JournalGC()
			case "side job":
				g.s.RunSideJobOnce(1 + r.Intn(4))
			default:
				g.s.Flush()
			}
		})
	}
	return true
}

func gwFaults(t *testing.T, ops int) {
	stopped, runs := 0, 0
	zzgw.Loop(t, 8, 100000, func(i int, r *rand.Rand) {
		defer gwQuiet()()
		runs++
		g := gwRandom(t, r)
		g.maxPut = 3000
		c := &gwCtl{r: r}
		defer func() {
			c.armed = false
			os.RemoveAll(g.dir)
		}()
		for k := r.Intn(12); k > 0; k-- {
			g.step()
		}
		g.gwBreak(c)
		for k := 0; k < ops; k++ {
			if r.Intn(3) > 0 {
				g.step()
			} else if !g.faultyStep(c) {
				stopped++
				return
			}
			g.all(fmt.Sprintf("after an operation on a failing device"))
			if r.Intn(15) == 0 {
				g.reopen()
				g.all("reopened")
				g.gwBreak(c)
			}
		}
		g.reopen()
		g.all("reopened")
		g.s.Close()
	})
	t.Logf("%d of %d histories ended with a stop", stopped, runs)
}

// Any access to the device may fail, reads and syncs included.
func TestGov_C17_faults(t *testing.T) { gwFaults(t, 60) }
