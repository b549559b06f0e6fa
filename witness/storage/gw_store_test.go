//go:build go1.21

package storage

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/pkg/errors"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/zzgw"
)

// gwQuiet keeps the messages of the store out of the report.
func gwQuiet() func() {
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stdout = null
	return func() { os.Stdout = out; null.Close() }
}

// The regions of a new store fit in its file, whatever its size and ratio.
func TestGov_C12_newStore(t *testing.T) {
	dir := zzgw.Scratch(t)
	zzgw.Loop(t, 50, 20000, func(i int, r *rand.Rand) {
		defer gwQuiet()()
		capacity := uint64(512 * (4 + r.Intn(60)))
		switch r.Intn(4) {
		case 0:
			capacity = uint64(512 * r.Intn(1<<13))
		case 1:
			capacity = uint64(512 * r.Intn(1<<18))
		}
		ratio := []float64{0, 0.001, 0.01, 0.1, 0.3, 0.5, 0.9, 0.99, 1, r.Float64(), r.Float64()}[r.Intn(11)]
		path := filepath.Join(dir, fmt.Sprintf("n%d.lusf", i))
		defer os.Remove(path)
		var s *Storage
		var err error
		var refused interface{}
		func() {
			defer func() { refused = recover() }()
			s, err = CreateCannylsStorage(path, capacity, ratio)
		}()
		if refused != nil || err != nil {
			return // a file this small, or this ratio, is refused
		}
		defer s.Close()
		h := s.Header()
		bs := uint64(h.BlockSize.AsU16())
		if h.JournalRegionSize%bs != 0 || h.DataRegionSize%bs != 0 || h.RegionSize()%bs != 0 {
			t.Fatalf("store of %d bytes, ratio %v: the regions are not aligned: %+v", capacity, ratio, h)
		}
		if h.RegionSize()+h.JournalRegionSize+h.DataRegionSize > capacity || h.DataRegionSize == 0 || h.JournalRegionSize < 2*bs {
			t.Fatalf("store of %d bytes, ratio %v: regions %d, %d, %d", capacity, ratio, h.RegionSize(), h.JournalRegionSize, h.DataRegionSize)
		}
		if h.DataRegionSize > capacity {
			t.Fatalf("data region of %d bytes", h.DataRegionSize)
		}
		f, err := os.Open(path)
		if err != nil {
			t.Skip(err)
		}
		g, err := nvm.ReadFrom(f)
		f.Close()
		if err != nil || *g != h {
			t.Fatalf("store of %d bytes, ratio %v: header %+v, on the device %+v %v", capacity, ratio, h, g, err)
		}
		if st, err := os.Stat(path); err == nil && uint64(st.Size()) > capacity {
			t.Fatalf("store of %d bytes: the file has %d", capacity, st.Size())
		}
		// and the first and the last block of it can be used
		if h.DataRegionSize <= 1<<20 {
			n := h.DataRegionSize / bs
			for k := uint64(0); k < n && k < 8; k++ {
				b := bytes.Repeat([]byte{byte(k + 1)}, int(bs-2))
				if _, err := s.Put(gwId(k), gwLumpData(b)); err != nil {
					break
				}
			}
			for k := uint64(0); k < n && k < 8; k++ {
				if b, err := s.Get(gwId(k)); err == nil && !bytes.Equal(b, bytes.Repeat([]byte{byte(k + 1)}, int(bs-2))) {
					t.Fatalf("store of %d bytes, ratio %v: lump %d reads back wrong", capacity, ratio, k)
				}
			}
		}
	})
}

// What a reader of the store's snapshot gives is a store with the lumps of the
// moment the snapshot was taken.
func TestGov_C14_store(t *testing.T) {
	zzgw.Loop(t, 4, 2000, func(i int, r *rand.Rand) {
		nvm.DEFAULT_REGION_SHIFT = 20
		defer gwQuiet()()
		g := gwNew(t, r, uint64(r.Intn(3))<<20+uint64(300+r.Intn(900))<<10, 0.05+0.3*r.Float64())
		defer g.done()
		g.maxPut = 3000 + r.Intn(100000)
		for k := 0; k < 15; k++ {
			g.step()
		}
		if r.Intn(2) == 0 {
			g.logf("CreateSnapshot")
			if err := g.s.CreateSnapshot(); err != nil {
				g.fatal("CreateSnapshot: %v", err)
			}
		} else {
			g.logf("GetSnapshotReader")
			if _, err := g.s.GetSnapshotReader(); err != nil {
				g.fatal("GetSnapshotReader: %v", err)
			}
		}
		then := map[uint64]gwLump{}
		for k, v := range g.m {
			then[k] = v
		}
		check := func() {
			rd, err := g.s.GetSnapshotReader()
			if err != nil {
				g.fatal("GetSnapshotReader: %v", err)
			}
			b, err := io.ReadAll(rd)
			if err != nil {
				g.fatal("reading the snapshot: %v", err)
			}
			p := filepath.Join(g.dir, "copy.lusf")
			if err := os.WriteFile(p, b, 0o644); err != nil {
				t.Skip(err)
			}
			s, err := OpenCannylsStorage(p)
			if err != nil {
				g.fatal("the snapshot does not open as a store: %v", err)
			}
			old, now := g.s, g.m
			g.s, g.m = s, then
			g.all("snapshot")
			g.s, g.m = old, now
			s.Close()
			os.Remove(p)
		}
		for k := 0; k < 40; k++ {
			switch r.Intn(12) {
			case 0:
				check()
			case 1:
				g.reopen()
			default:
				g.step()
			}
		}
		g.s.JournalGC()
		g.logf("JournalGC")
		check()
		g.all("with a snapshot")
		g.reopen()
		check()
		g.all("with a snapshot, reopened")
		if r.Intn(2) == 0 {
			g.logf("DeleteSnapshot")
			if err := g.s.DeleteSnapshot(); err != nil {
				g.fatal("DeleteSnapshot: %v", err)
			}
			g.all("without the snapshot")
			g.reopen()
			g.all("without the snapshot, reopened")
		}
	})
}

// ---------------------------------------------------------------- C16

// gwClosed runs every operation against a closed store.
func gwClosed(g *gwRun) {
	s := g.s
	r := g.r
	id := gwId(g.id())
	must := func(op string, err error) {
		if err == nil {
			g.fatal("%s of a closed store gives no error", op)
		}
		if errors.Cause(err) != internalerror.StorageClosed {
			g.fatal("%s of a closed store says %v", op, err)
		}
	}
	empty := func(op string, bad bool) {
		if bad {
			g.fatal("%s of a closed store gives something", op)
		}
	}
	ops := []func(){
		func() { _, err := s.Put(id, gwLumpData(g.bytes(g.size()))); must("Put", err) },
		func() { _, err := s.PutEmbed(id, g.bytes(r.Intn(100))); must("PutEmbed", err) },
		func() {
			must("PutWithOffset", s.PutWithOffset(id, gwLumpData(g.bytes(r.Intn(100))), uint32(r.Intn(100)), 0))
		},
		func() { b, err := s.Get(id); must("Get", err); empty("Get", len(b) > 0) },
		func() { b, err := s.GetWithOffset(id, 0, 1); must("GetWithOffset", err); empty("GetWithOffset", len(b) > 0) },
		func() { _, err := s.GetSize(id); must("GetSize", err) },
		func() { _, err := s.GetSizeOnDisk(id); must("GetSizeOnDisk", err) },
		func() { up, _, err := s.Delete(id); must("Delete", err); empty("Delete", up) },
		func() { must("DeleteRange", s.DeleteRange(gwId(0), gwId(^uint64(0)), r.Intn(2) == 0)) },
		func() { empty("List", len(s.List()) > 0) },
		func() { empty("ListRange", len(s.ListRange(gwId(0), gwId(^uint64(0)), 100)) > 0) },
		func() { _, ok := s.MinId(); empty("MinId", ok) },
		func() { _, ok := s.MaxId(); empty("MaxId", ok) },
		func() { _, err := s.First(gwId(0)); must("First", err) },
		func() { _, ok := s.GenerateEmptyId(); empty("GenerateEmptyId", ok) },
		func() { s.JournalGC() },
		func() { j := s.JournalSnapshot(); empty("JournalSnapshot", len(j.Entries) > 0) },
		func() { s.RunSideJobOnce(3) },
		func() { s.Sync() },
		func() { s.Flush() },
		func() { must("CreateSnapshot", s.CreateSnapshot()) },
		func() { must("DeleteSnapshot", s.DeleteSnapshot()) },
		func() { rd, err := s.GetSnapshotReader(); must("GetSnapshotReader", err); empty("GetSnapshotReader", rd != nil) },
		func() { p, err := s.GetRecord(id); must("GetRecord", err); empty("GetRecord", p != nil) },
		func() { must("WriteRecord", s.WriteRecord(id, portion.NewDataPortion(0, 1))) },
		func() { s.Close() },
		func() { s.SetAutomaticGcMode(true) },
	}
	for _, k := range r.Perm(len(ops)) {
		ops[k]()
	}
}

func TestGov_C16_closed(t *testing.T) {
	zzgw.Loop(t, 20, 5000, func(i int, r *rand.Rand) {
		defer gwQuiet()()
		g := gwRandom(t, r)
		defer g.done()
		for k := 0; k < 15; k++ {
			g.step()
		}
		snap := r.Intn(3) == 0
		if snap {
			nvm.DEFAULT_REGION_SHIFT = 20
			g.s.CreateSnapshot()
		}
		g.logf("Close")
		g.s.Close()
		before := gwFiles(t, g.dir)
		func() {
			defer func() {
				if p := recover(); p != nil {
					g.fatal("an operation of a closed store panicked: %v", p)
				}
			}()
			gwClosed(g)
			gwClosed(g)
		}()
		if after := gwFiles(t, g.dir); after != before {
			g.fatal("operations of a closed store changed its files")
		}
		s, err := OpenCannylsStorage(g.path)
		if err != nil {
			g.fatal("reopen: %v", err)
		}
		closed := g.s
		g.s = s
		g.all("reopened")
		// the old handle stays closed although the file is open again
		g.s = closed
		gwClosed(g)
		g.s = s
		g.all("after operations of the closed handle")
	})
}

func gwFiles(t *testing.T, dir string) string {
	var w bytes.Buffer
	es, err := os.ReadDir(dir)
	if err != nil {
		t.Skip(err)
	}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			t.Skip(err)
		}
		fmt.Fprintf(&w, "%s %d\n", e.Name(), len(b))
		w.Write(b)
	}
	return w.String()
}


var _ = lump.EmptyLump
