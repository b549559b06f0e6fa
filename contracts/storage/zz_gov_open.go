//go:build go1.21

package storage

import (
	"bytes"
	"os"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/allocator"
	"github.com/thesues/cannyls-go/storage/journal"
	"github.com/thesues/cannyls-go/util"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C12, C10, C04: how a store is laid out, created and opened.

// govRaw is a device of which only the size matters.
type govRaw struct {
	*govView
	capacity uint64
	synced   int
	closed   int
	ferr     bool
	out      []byte
	written  int
}

func (d *govRaw) Capacity() uint64           { return d.capacity }
func (d *govRaw) BlockSize() block.BlockSize { return 512 }

// The size of the journal is a floating point computation; whatever it gives,
// the regions must fit. It may refuse (panic), but never overlap or overflow.
//
//gov:proves storage.makeHeader; nvm.DefaultStorageHeader
func GovProve_C12_makeHeader() {
	d := &govRaw{capacity: gov.U64("capacity")}
	// CreateIfAbsent accepts whole blocks only; a file has less than 2^63 bytes
	gov.Assume(d.capacity%512 == 0 && d.capacity < 1<<63)
	ratio := gov.U64("ratio")
	var h nvm.StorageHeader
	if gov.Catch(func() { h = makeHeader(d, govFloat(ratio)) }) {
		return
	}
	j, data := h.JournalRegionSize, h.DataRegionSize
	gov.Assert("a new store has the block size of its device", h.BlockSize == 512)
	gov.Assert("the regions are made of whole blocks", gov.And(j%512 == 0, data%512 == 0))
	gov.Assert("a new store has room for the journal's header and a record, and for data", gov.And(j >= 1024, data >= 512))
	gov.Assert("the sizes can be read back", gov.And(j <= MAX_JOURNAL_REGION_SIZE, data <= MAX_DATA_REGION_SIZE))
	gov.Assert("the regions fit the device, and use all of it", gov.And(j <= d.capacity, gov.And(data <= d.capacity, 512+j+data == d.capacity)))
	gov.Assert("a new store has the version that can be opened", gov.And(h.MajorVersion == nvm.MAJOR_VERSION, h.MinorVersion == nvm.MINOR_VERSION))
}

func govFloat(bits uint64) float64 { return float64(bits) }

// What is written to a new store.
//
//gov:proves storage.CreateCannylsStorage
func GovProve_C12_create() {
	block.GovUseAlignedAny()
	capacity, path := gov.U64("capacity"), "new.lusf"
	file, snap := &nvm.FileNVM{}, &nvm.SnapNVM{}
	h := nvm.StorageHeader{BlockSize: 512, JournalRegionSize: gov.U64("journal"), DataRegionSize: gov.U64("data")}
	headLen := 512
	head := gov.BytesN("head", 512)
	var step, writes, syncs, closes, opens int
	var errs [4]error
	for i := range errs {
		errs[i] = gov.Err("step")
	}
	eh := gov.Err("header")
	gov.Use("nvm.CreateIfAbsent", func(p string, c uint64) (*nvm.FileNVM, error) {
		gov.Assert("the file asked for is created", gov.And(p == path, c == capacity))
		if errs[0] != nil {
			return nil, errs[0]
		}
		return file, nil
	})
	gov.Use("nvm.NewSnapshotNVM", func(f *nvm.FileNVM) (*nvm.SnapNVM, error) {
		gov.Assert("the store is written through its own file", f == file)
		if errs[1] != nil {
			return nil, errs[1]
		}
		return snap, nil
	})
	gov.Use("(*nvm.SnapNVM).BlockSize", func(n *nvm.SnapNVM) block.BlockSize { return 512 })
	gov.Use("storage.makeHeader", func(f nvm.NonVolatileMemory, ratio float64) nvm.StorageHeader { return h })
	gov.Use("(*nvm.StorageHeader).WriteHeaderRegionTo", func(x *nvm.StorageHeader, w interface{ Write([]byte) (int, error) }) error {
		gov.Assert("the header written is the one made", *x == h)
		if eh != nil {
			return eh
		}
		w.Write(head[:headLen])
		return nil
	})
	gov.Use("(*nvm.SnapNVM).Write", func(n *nvm.SnapNVM, buf []byte) (int, error) {
		writes++
		gov.Assert("the first write is at the front", writes == 1 && step == 0)
		step = 1
		gov.Assert("whole blocks are written", len(buf)%512 == 0)
		gov.Assert("the header comes first", gov.SameBytes(buf, 0, head, 0, 512))
		gov.Assert("the journal begins at position 0", gov.Forall(func(x uint64) bool { return gov.Imp(x < 512, gov.At(buf, 512+x) == 0) }))
		gov.Assert("the journal has no record", gov.EqBytes(buf[1024:1024+5], govEnd()))
		if errs[2] != nil {
			return -1, errs[2]
		}
		return len(buf), nil
	})
	gov.Use("(*nvm.SnapNVM).Sync", func(n *nvm.SnapNVM) error {
		syncs++
		gov.Assert("what was written is synced", step == 1)
		step = 2
		return errs[3]
	})
	gov.Use("(*nvm.SnapNVM).Close", func(n *nvm.SnapNVM) error { closes++; return nil })
	s := &Storage{}
	eo := gov.Err("open")
	gov.Use("storage.OpenCannylsStorage", func(p string) (*Storage, error) {
		opens++
		gov.Assert("a store is opened after it was written, synced and closed", step == 2 && closes == 1 && p == path)
		return s, eo
	})
	got, err := CreateCannylsStorage(path, capacity, govFloat(gov.U64("ratio")))
	failed := errs[0] != nil || errs[1] != nil || eh != nil || errs[2] != nil || errs[3] != nil
	if failed {
		gov.Assert("a store that could not be created is reported", err != nil && got == nil)
		gov.Assert("it is not opened", opens == 0)
		return
	}
	gov.Assert("the new store is opened once", opens == 1)
	gov.Assert("its result is reported", got == s && (err == nil) == (eo == nil))
}

// the end record as C07 has it
func govEnd() []byte {
	w := new(bytes.Buffer)
	r := journal.EndOfRecords{}
	r.WriteTo(w)
	return w.Bytes()
}

var _ = os.ErrExist

// govAlloc stands for the free-space map.
type govOpen struct {
	ix       *lumpindex.LumpIndex
	restored bool
	freed    int
}

// How the parts of a store are put together when it is opened.
//
//gov:proves storage.OpenCannylsStorage
func GovProve_C10_open() {
	o := &govOpen{}
	path := "some.lusf"
	file, snap, jn, dn := &nvm.FileNVM{}, &nvm.SnapNVM{}, &nvm.SnapNVM{}, &nvm.SnapNVM{}
	h := &nvm.StorageHeader{BlockSize: 512, JournalRegionSize: gov.U64("journal"), DataRegionSize: gov.U64("data")}
	jr := &journal.JournalRegion{}
	al := &allocator.JudyPortionAlloc{}
	var e [3]error
	for i := range e {
		e[i] = gov.Err("step")
	}
	torn := gov.Choice("regions do not fit", 2) == 1
	gov.Use("nvm.Open", func(p string) (*nvm.FileNVM, *nvm.StorageHeader, error) {
		gov.Assert("the file asked for is opened", p == path)
		if e[0] != nil {
			return nil, nil, e[0]
		}
		return file, h, nil
	})
	gov.Use("nvm.NewSnapshotNVM", func(f *nvm.FileNVM) (*nvm.SnapNVM, error) {
		gov.Assert("the store works through its own file", f == file)
		if e[1] != nil {
			return nil, e[1]
		}
		return snap, nil
	})
	gov.Use("(*nvm.StorageHeader).SplitRegion", func(x *nvm.StorageHeader, n nvm.NonVolatileMemory) (nvm.NonVolatileMemory, nvm.NonVolatileMemory) {
		gov.Assert("the device is split as its header says", x == h && n == nvm.NonVolatileMemory(snap))
		if torn {
			return nil, nil
		}
		return jn, dn
	})
	gov.Use("(*nvm.SnapNVM).BlockSize", func(n *nvm.SnapNVM) block.BlockSize { return 512 })
	gov.Use("journal.OpenJournalRegion", func(n nvm.NonVolatileMemory) (*journal.JournalRegion, error) {
		gov.Assert("the journal is opened on the journal region", n == nvm.NonVolatileMemory(jn))
		if e[2] != nil {
			return nil, e[2]
		}
		return jr, nil
	})
	gov.Use("lumpindex.NewIndex", func() *lumpindex.LumpIndex {
		o.ix = &lumpindex.LumpIndex{}
		return o.ix
	})
	gov.Use("(*journal.JournalRegion).RestoreIndex", func(j *journal.JournalRegion, ix *lumpindex.LumpIndex) {
		gov.Assert("the journal is replayed once, into the new index", j == jr && ix == o.ix && !o.restored)
		o.restored = true
	})
	ps := []portion.DataPortion{{Start: 7, Len: 9}}
	gov.Use("(*lumpindex.LumpIndex).DataPortions", func(ix *lumpindex.LumpIndex) []portion.DataPortion {
		gov.Assert("the lumps of the replayed index occupy space", ix == o.ix && o.restored)
		return ps
	})
	gov.Use("allocator.NewJudyAlloc", func() *allocator.JudyPortionAlloc { return al })
	gov.Use("(*allocator.JudyPortionAlloc).RestoreFromIndex", func(a *allocator.JudyPortionAlloc, bs block.BlockSize, size uint64, v []portion.DataPortion) {
		o.freed++
		gov.Assert("free space is what the lumps leave of the data region", a == al && bs == 512 && size == h.DataRegionSize && len(v) == 1 && v[0] == ps[0])
	})
	gov.Use("(*util.Stopper).RunWorker", func(s *util.Stopper, f func()) {})
	s, err := OpenCannylsStorage(path)
	if e[0] != nil || e[1] != nil || torn || e[2] != nil {
		gov.Assert("a store that could not be opened is reported", err != nil && s == nil)
		return
	}
	gov.Assert("a store can be opened", err == nil && s != nil)
	gov.Assert("the store is open", s.opened)
	gov.Assert("the index is the replayed one", s.index == o.ix && o.restored)
	gov.Assert("the journal is the one replayed", s.journalRegion == jr)
	gov.Assert("the free-space map is the rebuilt one, for the store and its data region", o.freed == 1 && s.alloc == allocator.DataPortionAlloc(al) && s.dataRegion.allocator == allocator.DataPortionAlloc(al))
	gov.Assert("lumps live in the data region", s.dataRegion.nvm == nvm.NonVolatileMemory(dn) && s.dataRegion.block_size == 512)
	gov.Assert("the header is the one read", s.storageHeader == h)
	gov.Assert("the device is the whole one", s.innerNVM == snap)
}
