//go:build go1.21

package storage

import (
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/journal"
	"github.com/thesues/cannyls-go/util"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C15, C16, C17: the operations of a store.
//
// govStore sees a store from one arbitrary lump y and one arbitrary block b.
// Block b is free, or owned by the data lump own, or held by the operation
// under way (mine), or held by another operation under way (none of these).
//
// inv, which holds whenever nobody holds the index lock exclusively: a lump
// whose location covers b owns b, and the lump that owns b has a location
// that covers it.  With others set, everything that other operations may do
// happens whenever the operation does not hold the locks: the state is then
// arbitrary, except that inv holds and that what is mine stays mine.
type govStore struct {
	s                            *Storage
	ix                           *lumpindex.LumpIndex
	y, b, id                     uint64
	start, end                   uint64 // of a range
	free, owned, mine            bool
	own                          uint64
	others, excl, all            bool
	locks, shut, agree, dispatch bool // which assertions are made
	closing, loops               bool
	old                          lumpindex.LumpIndex // at the last acquisition of the index lock
	rangeHit, freed0             bool

	// what the parts were asked for
	puts, updates, deletes, flushes, syncs, gcs, jobs, closed, freed, frees int
	put                                                                     portion.DataPortion
	putErr, recErr, updErr                                                  error
	want                                                                    []byte // what has to be stored
	data                                                                    []byte
	lumpdata                                                                lump.LumpData
	got                                                                     []byte
	offset, reserve                                                         uint32
	size                                                                    uint32
	listed                                                                  []lump.LumpId
	recorded                                                                bool
	modes, jobsAsked, created, dropped, readers                             int
	mode                                                                    bool
	snapErr, flushErr                                                       error
	reader                                                                  *nvm.SnapshotReader
}

func govCov(p portion.DataPortion, b uint64) bool {
	return gov.And(p.Start.AsU64() <= b, b < p.Start.AsU64()+uint64(p.Len))
}

// inv seen from lump x
func (g *govStore) inv(x uint64) bool {
	return gov.And(gov.Imp(lumpindex.GovCovers(g.ix, x, g.b), gov.And(g.owned, g.own == x)),
		gov.And(gov.Imp(g.owned, lumpindex.GovCovers(g.ix, g.own, g.b)),
			gov.And(!gov.And(g.free, g.owned), !gov.And(g.mine, gov.Or(g.free, g.owned)))))
}

// every lump the operation names, and the arbitrary one
func (g *govStore) invs() bool { return gov.And(g.inv(g.y), g.inv(g.id)) }

// what other operations do while the index lock is free
func (g *govStore) interfere() {
	gov.Havoc(g.ix)
	g.own = gov.U64("own'")
	if !g.mine {
		g.free, g.owned = gov.Bool("free'"), gov.Bool("owned'")
	}
	g.s.opened = gov.And(g.s.opened, gov.Bool("open'"))
	gov.Assume(gov.Imp(g.s.opened, g.invs()))
	if g.all {
		gov.Assume(gov.Imp(g.s.opened, g.invAll()))
	}
}

// inv seen from every lump at once
func (g *govStore) invAll() bool {
	return gov.Forall(func(x uint64) bool { return gov.Imp(lumpindex.GovCovers(g.ix, x, g.b), gov.And(g.owned, g.own == x)) })
}

// open: a part of the store is used
func (g *govStore) open() {
	if g.shut && !g.closing {
		gov.Assert("a closed store uses nothing", g.s.opened)
	}
}

func (g *govStore) reads(what string) {
	g.open()
	if g.locks {
		gov.Assert("the index is read under its lock", gov.Held(&g.s.i) > 0)
	}
}

func (g *govStore) writes() {
	g.open()
	if g.locks {
		gov.Assert("the index is changed under its exclusive lock", gov.Held(&g.s.i) == 2)
	}
}

// alone: while the store is closed no other operation is half way
func (g *govStore) alone(what string) {
	if g.shut {
		gov.Assert(what+" while no other operation runs", gov.Held(&g.s.i) == 2)
	}
}

func (g *govStore) journal() {
	g.open()
	if g.locks {
		gov.Assert("the journal is used under its lock", gov.Held(&g.s.jr) == 2)
	}
}

// ---- the index ----

func (g *govStore) useIndex() {
	const T = "(*lumpindex.LumpIndex)."
	var get func(ix *lumpindex.LumpIndex, id lump.LumpId) (portion.Portion, error)
	get = func(ix *lumpindex.LumpIndex, id lump.LumpId) (portion.Portion, error) {
		g.reads("Get")
		gov.Unuse(T + "Get")
		p, err := ix.Get(id)
		gov.Use(T+"Get", get)
		return p, err
	}
	gov.Use(T+"Get", get)
	var min func(ix *lumpindex.LumpIndex) (lump.LumpId, bool)
	min = func(ix *lumpindex.LumpIndex) (lump.LumpId, bool) {
		g.reads("Min")
		gov.Unuse(T + "Min")
		p, ok := ix.Min()
		gov.Use(T+"Min", min)
		return p, ok
	}
	gov.Use(T+"Min", min)
	var max func(ix *lumpindex.LumpIndex) (lump.LumpId, bool)
	max = func(ix *lumpindex.LumpIndex) (lump.LumpId, bool) {
		g.reads("Max")
		gov.Unuse(T + "Max")
		p, ok := ix.Max()
		gov.Use(T+"Max", max)
		return p, ok
	}
	gov.Use(T+"Max", max)
	var first func(ix *lumpindex.LumpIndex, id lump.LumpId) (lump.LumpId, error)
	first = func(ix *lumpindex.LumpIndex, id lump.LumpId) (lump.LumpId, error) {
		g.reads("First")
		gov.Unuse(T + "First")
		p, err := ix.First(id)
		gov.Use(T+"First", first)
		return p, err
	}
	gov.Use(T+"First", first)
	var empty func(ix *lumpindex.LumpIndex) (lump.LumpId, bool)
	empty = func(ix *lumpindex.LumpIndex) (lump.LumpId, bool) {
		g.reads("FirstEmpty")
		gov.Unuse(T + "FirstEmpty")
		p, ok := ix.FirstEmpty()
		gov.Use(T+"FirstEmpty", empty)
		return p, ok
	}
	gov.Use(T+"FirstEmpty", empty)
	gov.Use(T+"List", func(ix *lumpindex.LumpIndex) []lump.LumpId {
		g.reads("List")
		g.listed = []lump.LumpId{lump.FromU64(0, gov.U64("listed"))}
		return g.listed
	})
	gov.Use(T+"ListRange", func(ix *lumpindex.LumpIndex, start, end lump.LumpId, n uint64) []lump.LumpId {
		g.reads("ListRange")
		if g.dispatch {
			gov.Assert("the range asked for is listed", gov.And(gov.And(start.U64() == g.start, end.U64() == g.end), n == g.id))
		}
		g.listed = []lump.LumpId{lump.FromU64(0, gov.U64("listed"))}
		return g.listed
	})
	var iter func(ix *lumpindex.LumpIndex, start, end lump.LumpId, fn func(lump.LumpId, portion.Portion) error) error
	iter = func(ix *lumpindex.LumpIndex, start, end lump.LumpId, fn func(lump.LumpId, portion.Portion) error) error {
		g.reads("RangeIter")
		gov.Unuse(T + "RangeIter")
		err := ix.RangeIter(start, end, fn)
		gov.Use(T+"RangeIter", iter)
		return err
	}
	gov.Use(T+"RangeIter", iter)
	var insData func(ix *lumpindex.LumpIndex, id lump.LumpId, p portion.DataPortion)
	insData = func(ix *lumpindex.LumpIndex, id lump.LumpId, p portion.DataPortion) {
		g.writes()
		gov.Unuse(T + "InsertDataPortion")
		ix.InsertDataPortion(id, p)
		gov.Use(T+"InsertDataPortion", insData)
	}
	gov.Use(T+"InsertDataPortion", insData)
	var insJ func(ix *lumpindex.LumpIndex, id lump.LumpId, p portion.JournalPortion)
	insJ = func(ix *lumpindex.LumpIndex, id lump.LumpId, p portion.JournalPortion) {
		g.writes()
		gov.Unuse(T + "InsertJournalPortion")
		ix.InsertJournalPortion(id, p)
		gov.Use(T+"InsertJournalPortion", insJ)
	}
	gov.Use(T+"InsertJournalPortion", insJ)
	var del func(ix *lumpindex.LumpIndex, id lump.LumpId) bool
	del = func(ix *lumpindex.LumpIndex, id lump.LumpId) bool {
		g.writes()
		gov.Unuse(T + "Delete")
		ok := ix.Delete(id)
		gov.Use(T+"Delete", del)
		return ok
	}
	gov.Use(T+"Delete", del)
	gov.Use(T+"Free", func(ix *lumpindex.LumpIndex) {
		g.writes()
		g.alone("the index is freed")
		g.freed++
		gov.Havoc(ix)
	})
}

// ---- the journal (contracts C10, C11) ----

// moves: the garbage collection may move embedded lumps
func (g *govStore) moves() *lumpindex.LumpIndex {
	old := *g.ix
	gov.Havoc(g.ix)
	return &old
}

func (g *govStore) kept(old *lumpindex.LumpIndex, x uint64) bool {
	return lumpindex.GovKept(old, g.ix, x)
}

// record is what appending a record for id means; gone tells which lumps it removes
func (g *govStore) record(ix *lumpindex.LumpIndex, hit func(x uint64) bool, set func() bool) error {
	g.journal()
	g.writes()
	if g.agree {
		gov.Assert("the record goes with the index of the store", ix == g.ix)
	}
	old := g.moves()
	xs := []uint64{g.y, g.id, g.own}
	if gov.Bool("refused") {
		g.recErr = gov.SomeErr("journal")
		for _, x := range xs {
			gov.Assume(g.kept(old, x))
		}
		return g.recErr
	}
	g.recErr, g.recorded = nil, true
	for _, x := range xs {
		gov.Assume(gov.Ite(hit(x), set(), g.kept(old, x)))
	}
	// the blocks of what was there are nobody's now
	gone := gov.And(g.owned, hit(g.own))
	g.mine, g.owned = gov.Or(g.mine, gone), gov.And(g.owned, !gone)
	return nil
}

func (g *govStore) useJournal() {
	const T = "(*journal.JournalRegion)."
	gov.Use(T+"RecordPut", func(j *journal.JournalRegion, ix *lumpindex.LumpIndex, id lump.LumpId, p portion.DataPortion) error {
		if g.dispatch {
			gov.Assert("the lump is recorded under its id", id.U64() == g.id)
			gov.Assert("at the place where it was stored", p == g.put)
		}
		err := g.record(ix, func(x uint64) bool { return x == id.U64() }, func() bool { return lumpindex.GovData(g.ix, id.U64(), p) })
		if err == nil {
			if govCov(p, g.b) {
				if g.agree {
					gov.Assert("a lump is recorded only on blocks which the operation holds", g.mine)
				}
				g.mine, g.owned, g.own = false, true, id.U64()
			}
		}
		return err
	})
	gov.Use(T+"RecordEmbed", func(j *journal.JournalRegion, ix *lumpindex.LumpIndex, id lump.LumpId, data []byte) error {
		if g.dispatch {
			gov.Assert("the lump is recorded under its id", id.U64() == g.id)
			gov.Assert("the data given is recorded", gov.EqBytes(data, g.data))
		}
		if len(data) > lump.MAX_EMBEDDED_SIZE {
			g.recErr = internalerror.InvalidInput
			return g.recErr
		}
		return g.record(ix, func(x uint64) bool { return x == id.U64() }, func() bool { return lumpindex.GovEmbedded(g.ix, id.U64(), uint64(len(data))) })
	})
	gov.Use(T+"RecordDelete", func(j *journal.JournalRegion, ix *lumpindex.LumpIndex, id lump.LumpId) error {
		if g.dispatch {
			gov.Assert("the deletion of the lump is recorded", id.U64() == g.id)
		}
		g.deletes++
		return g.record(ix, func(x uint64) bool { return x == id.U64() }, func() bool { return !lumpindex.GovHas(g.ix, id.U64()) })
	})
	gov.Use(T+"RecordDeleteRange", func(j *journal.JournalRegion, ix *lumpindex.LumpIndex, start, end lump.LumpId) error {
		if g.dispatch {
			gov.Assert("the range is recorded", gov.And(start.U64() == g.start, end.U64() == g.end))
		}
		hit := func(x uint64) bool { return gov.And(start.U64() <= x, x < end.U64()) }
		g.journal()
		g.writes()
		old := g.moves()
		xs := []uint64{g.y, g.id, g.own}
		if gov.Bool("refused") {
			g.recErr = gov.SomeErr("journal")
			for _, x := range xs {
				gov.Assume(g.kept(old, x))
			}
			return g.recErr
		}
		g.recErr, g.recorded = nil, true
		for _, x := range xs {
			gov.Assume(gov.Ite(hit(x), !lumpindex.GovHas(g.ix, x), g.kept(old, x)))
		}
		g.rangeHit = gov.And(g.owned, hit(g.own))
		g.mine = gov.Or(g.mine, g.rangeHit)
		g.owned = gov.And(g.owned, !g.rangeHit)
		g.freed0 = g.free
		return nil
	})
	gov.Use(T+"GetEmbededData", func(j *journal.JournalRegion, p portion.JournalPortion) ([]byte, error) {
		g.journal()
		if g.locks {
			gov.Assert("an embedded lump is read while the index can not change", gov.Held(&g.s.i) > 0)
		}
		if g.dispatch {
			gov.Assert("the embedded lump asked for is read", gov.And(lumpindex.GovEmbedded(g.ix, g.id, uint64(p.Len)), p.Start.AsU64() == lumpindex.GovVal(g.ix, g.id)&(1<<40-1)))
		}
		if err := gov.Err("device"); err != nil {
			g.recErr = err
			return nil, err
		}
		g.got = gov.BytesN("embedded", uint64(p.Len))
		return g.got, nil
	})
	moved := func(ix *lumpindex.LumpIndex) {
		g.journal()
		g.writes()
		old := g.moves()
		for _, x := range []uint64{g.y, g.id, g.own} {
			gov.Assume(g.kept(old, x))
		}
	}
	gov.Use(T+"GcAllEntries", func(j *journal.JournalRegion, ix *lumpindex.LumpIndex) { moved(ix); g.gcs++ })
	gov.Use(T+"RunSideJobOnce", func(j *journal.JournalRegion, ix *lumpindex.LumpIndex, n int) {
		moved(ix)
		g.jobs++
		g.jobsAsked = n
	})
	gov.Use(T+"Sync", func(j *journal.JournalRegion) { g.journal(); g.syncs++ })
	gov.Use(T+"Flush", func(j *journal.JournalRegion) error {
		g.journal()
		g.flushes++
		g.flushErr = gov.Err("device")
		return g.flushErr
	})
	gov.Use(T+"JournalEntries", func(j *journal.JournalRegion) (uint64, uint64, uint64, []journal.JournalEntry) {
		g.journal()
		return gov.U64("released"), gov.U64("head"), gov.U64("tail"), []journal.JournalEntry{{Record: journal.EndOfRecords{}}}
	})
	gov.Use(T+"SetAutomaticGcMode", func(j *journal.JournalRegion, gc bool) {
		if g.locks {
			gov.Assert("the journal is used under its lock", gov.Held(&g.s.jr) == 2)
		}
		g.modes++
		g.mode = gc
	})
	gov.Use(T+"Usage", func(j *journal.JournalRegion) uint64 { return gov.U64("journal usage") })
}

// ---- the data region (contracts C01, C02) ----

// owns: what is read or updated belongs to a lump, and stays with it
func (g *govStore) uses(p portion.DataPortion, lock int) {
	g.open()
	if g.locks {
		gov.Assert("the blocks of a lump are used under the lock that keeps them from being reused", gov.Held(&g.s.i) >= lock)
	}
	if g.agree {
		gov.Assert("what is used belongs to a lump", gov.Imp(govCov(p, g.b), g.owned))
	}
	if g.dispatch {
		gov.Assert("the lump asked for is used", lumpindex.GovData(g.ix, g.id, p))
	}
}

// resized: the data is extended to whole blocks, with its trailer
func (g *govStore) resized(data lump.LumpData) {
	var bs block.BlockSize = 512
	data.Inner.Resize(uint32(bs.CeilAlign(uint64(data.Inner.Len()) + LUMP_DATA_TRAILER_SIZE)))
}

func (g *govStore) useRegion() {
	const T = "(*storage.DataRegion)."
	gov.Use(T+"Put", func(r *DataRegion, data lump.LumpData) (portion.DataPortion, error) {
		if !g.others {
			// an operation under way may be overtaken by Close
			g.open()
		}
		g.puts++
		g.lumpdata = data
		if g.dispatch {
			gov.Assert("the data given is stored", gov.EqBytes(data.AsBytes(), g.want))
		}
		if gov.Bool("store fails") {
			g.putErr = gov.SomeErr("data region")
			g.resized(data)
			return portion.DataPortion{}, g.putErr
		}
		g.resized(data)
		s, l := gov.U64("start"), gov.U16("blocks")
		gov.Assume(gov.And(l > 0, s < 1<<40-1<<16))
		p := portion.NewDataPortion(s, l)
		g.put = p
		if gov.Or(!g.others, gov.Held(&g.s.i) > 0) {
			// C03: what is allocated was free
			gov.Assume(gov.Imp(govCov(p, g.b), g.free))
		}
		gov.Assume(gov.Imp(govCov(p, g.b), !g.mine))
		if govCov(p, g.b) {
			g.mine, g.free, g.owned = true, false, false
		}
		return p, nil
	})
	gov.Use(T+"Release", func(r *DataRegion, p portion.DataPortion) {
		g.open()
		g.frees++
		if govCov(p, g.b) {
			if g.agree {
				gov.Assert("only blocks that no lump uses are given back, once", g.mine)
			}
			g.mine, g.free = false, true
		}
	})
	gov.Use(T+"Update", func(r *DataRegion, p portion.DataPortion, off uint32, payload []byte) error {
		g.uses(p, 2)
		g.updates++
		if g.dispatch {
			gov.Assert("the bytes given are written at the offset given", gov.And(off == g.offset, gov.EqBytes(payload, g.data)))
		}
		g.updErr = gov.Err("update")
		return g.updErr
	})
	gov.Use(T+"Get", func(r *DataRegion, p portion.DataPortion) (lump.LumpData, error) {
		g.uses(p, 1)
		if err := gov.Err("device"); err != nil {
			g.recErr = err
			return lump.LumpData{}, err
		}
		ab := block.GovAligned("stored", gov.U32("size")&0x3FFFFFF, 512)
		g.got = ab.AsBytes()
		return lump.NewLumpDataWithAb(ab), nil
	})
	gov.Use(T+"GetSize", func(r *DataRegion, p portion.DataPortion) (uint32, error) {
		g.uses(p, 1)
		if err := gov.Err("device"); err != nil {
			g.recErr = err
			return 0, err
		}
		g.size = gov.U32("size")
		return g.size, nil
	})
	gov.Use(T+"GetWithOffset", func(r *DataRegion, p portion.DataPortion, off, n uint32) ([]byte, error) {
		g.uses(p, 1)
		if g.dispatch {
			gov.Assert("the range asked for is read", gov.And(off == uint32(g.start), n == uint32(g.end)))
		}
		if err := gov.Err("device"); err != nil {
			g.recErr = err
			return nil, err
		}
		g.got = gov.Bytes("stored", 1<<26)
		return g.got, nil
	})
}

// ---- the free-space map and the device, used directly ----

type govMap struct {
	govFree
	g *govStore
}

func (m *govMap) MaxSegmentSize() uint64 { return gov.U64("max") }
func (m *govMap) FreeCount() uint64      { return gov.U64("free blocks") }
func (m *govMap) Free() {
	m.g.open()
	if m.g.locks {
		gov.Assert("the free-space map is freed under its lock", gov.Held(&m.g.s.dataRegion.Mutex) == 2)
	}
	m.g.alone("the free-space map is freed")
	m.g.freed++
}

func (g *govStore) useDevice() {
	const T = "(*nvm.SnapNVM)."
	snap := func() {
		g.open()
		if g.locks {
			gov.Assert("snapshots are taken and dropped under the journal lock", gov.Held(&g.s.jr) == 2)
		}
	}
	gov.Use(T+"BlockSize", func(n *nvm.SnapNVM) block.BlockSize { return 512 })
	gov.Use(T+"CreateSnapshotIfNeeded", func(n *nvm.SnapNVM) error {
		snap()
		if g.dispatch {
			gov.Assert("the journal is synced before the snapshot is taken", g.syncs > 0)
		}
		g.created++
		g.snapErr = gov.Err("snapshot")
		return g.snapErr
	})
	gov.Use(T+"DeleteSnapshot", func(n *nvm.SnapNVM) error {
		snap()
		g.dropped++
		g.snapErr = gov.Err("snapshot")
		return g.snapErr
	})
	gov.Use(T+"GetSnapshotReader", func(n *nvm.SnapNVM) (*nvm.SnapshotReader, error) {
		snap()
		if g.dispatch {
			gov.Assert("the journal is synced before the snapshot is taken", g.syncs > 0)
		}
		g.readers++
		if g.snapErr = gov.Err("snapshot"); g.snapErr != nil {
			return nil, g.snapErr
		}
		g.reader = &nvm.SnapshotReader{}
		return g.reader, nil
	})
	gov.Use(T+"Sync", func(n *nvm.SnapNVM) error { g.open(); return gov.Err("device") })
	gov.Use(T+"Close", func(n *nvm.SnapNVM) error {
		g.open()
		if g.shut {
			gov.Assert("the journal is synced before the device is closed", g.syncs > 0)
		}
		g.alone("the device is closed")
		g.closed++
		return nil
	})
	gov.Use("(*util.Stopper).Stop", func(s *util.Stopper) { g.open() })
}

// govAnyStore is any store; closed: it was closed before.
func govAnyStore(others, closed bool) *govStore {
	g := &govStore{ix: lumpindex.GovAnyIndex(), y: gov.U64("lump"), b: gov.U64("block"), id: gov.U64("id"), start: gov.U64("range start"), end: gov.U64("range end"),
		free: gov.Bool("free"), owned: gov.Bool("owned"), own: gov.U64("owner"), others: others}
	gov.Assume(g.b < 1<<40)
	m := &govMap{g: g}
	g.s = &Storage{
		storageHeader:         &nvm.StorageHeader{BlockSize: 512, JournalRegionSize: gov.U64("journal size"), DataRegionSize: gov.U64("data size")},
		dataRegion:            &DataRegion{allocator: m, block_size: 512},
		journalRegion:         &journal.JournalRegion{},
		index:                 g.ix,
		innerNVM:              &nvm.SnapNVM{},
		alloc:                 m,
		updateCapacityStopper: &util.Stopper{},
		opened:                !closed,
	}
	gov.Lock(&g.s.i, "the index lock", 1)
	gov.Lock(&g.s.jr, "the journal lock", 2)
	gov.Lock(&g.s.dataRegion.Mutex, "the free-space lock", 3)
	gov.Opt("nolocks", 1)
	gov.Assume(gov.Or(closed, g.invs()))
	g.useIndex()
	g.useJournal()
	g.useRegion()
	g.useDevice()
	block.GovUseFromBytes()
	block.GovUseAlignedAny()
	gov.OnLock(&g.s.i, func() {
		if g.others && !closed {
			g.interfere()
		}
		g.excl = gov.Held(&g.s.i) == 2
		g.old = *g.ix
	})
	gov.OnUnlock(&g.s.i, func() {
		if g.locks && !g.excl {
			gov.Assert("the index only changes under its exclusive lock", lumpindex.GovSame(&g.old, g.ix, g.y))
		}
		if g.agree && g.excl && g.closed == 0 {
			gov.Assert("every lump owns its blocks and every block in use has its lump", gov.Imp(g.s.opened, g.inv(g.y)))
		}
	})
	gov.OnLock(&g.s.jr, func() {
		if g.others && !closed && gov.Held(&g.s.i) == 0 {
			g.s.opened = gov.And(g.s.opened, gov.Bool("open''"))
		}
	})
	return g
}

const govOps = 28

// result of an operation
type govRes struct {
	err   error
	have  bool // something was returned
	ok    bool
	id    lump.LumpId
	data  []byte
	size  uint32
	list  []lump.LumpId
	fails bool // the operation has an error to report
}

// run calls operation op.
func (g *govStore) run(op int) (r govRes) {
	s, id := g.s, lump.FromU64(0, g.id)
	start, end := lump.FromU64(0, g.start), lump.FromU64(0, g.end)
	r.fails = true
	switch op {
	case 0:
		n := gov.U32("lump size")
		gov.Assume(n < 1<<27)
		d := lump.NewLumpDataWithAb(block.GovAligned("lump data", n, 512))
		g.data = gov.Snapshot(d.AsBytes())
		g.want = g.data
		r.ok, r.err = s.Put(id, d)
	case 1:
		g.data = gov.Bytes("embedded data", lump.MAX_EMBEDDED_SIZE+10)
		r.ok, r.err = s.PutEmbed(id, g.data)
	case 2:
		d := lump.NewLumpDataWithAb(block.GovAligned("lump data", gov.U32("lump size")&0x7FFFFFF, 512))
		g.data = gov.Snapshot(d.AsBytes())
		g.offset, g.reserve = gov.U32("offset"), gov.U32("reservation")
		gov.Use("storage.paddingWithZero", func(payload []byte, off, res uint32) []byte {
			if g.dispatch {
				gov.Assert("the payload is padded as asked for", gov.And(gov.EqBytes(payload, g.data), gov.And(off == g.offset, res == g.reserve)))
				gov.Assert("nothing larger than the largest lump is made", gov.And(uint64(off)+uint64(len(payload)) <= lump.LUMP_MAX_SIZE, res <= lump.LUMP_MAX_SIZE))
			}
			g.want = gov.Bytes("padded", lump.LUMP_MAX_SIZE)
			return g.want
		})
		r.err = s.PutWithOffset(id, d, g.offset, g.reserve)
	case 3:
		r.ok, r.size, r.err = s.Delete(id)
	case 4:
		r.err = s.DeleteRange(start, end, gov.Bool("has data"))
	case 5:
		r.data, r.err = s.Get(id)
		r.have = r.data != nil
	case 6:
		r.data, r.err = s.GetWithOffset(id, uint32(g.start), uint32(g.end))
		r.have = r.data != nil
	case 7:
		r.size, r.err = s.GetSize(id)
		r.have = r.size != 0
	case 8:
		r.size, r.err = s.GetSizeOnDisk(id)
		r.have = r.size != 0
	case 9:
		r.list = s.List()
		r.have, r.fails = len(r.list) != 0, false
	case 10:
		r.list = s.ListRange(start, end, g.id)
		r.have, r.fails = len(r.list) != 0, false
	case 11:
		r.id, r.ok = s.MinId()
		r.have, r.fails = r.ok, false
	case 12:
		r.id, r.ok = s.MaxId()
		r.have, r.fails = r.ok, false
	case 13:
		r.id, r.err = s.First(id)
	case 14:
		r.id, r.ok = s.GenerateEmptyId()
		r.have, r.fails = r.ok, false
	case 15:
		s.JournalGC()
		r.fails = false
	case 16:
		j := s.JournalSnapshot()
		r.have, r.fails = len(j.Entries) != 0, false
	case 17:
		s.RunSideJobOnce(gov.Int("jobs"))
		r.fails = false
	case 18:
		s.Sync()
		r.fails = false
	case 19:
		s.Flush()
		r.fails = false
	case 20:
		r.err = s.CreateSnapshot()
	case 21:
		r.err = s.DeleteSnapshot()
	case 22:
		var rd *nvm.SnapshotReader
		rd, r.err = s.GetSnapshotReader()
		r.have = rd != nil
	case 23:
		var p *portion.DataPortion
		p, r.err = s.GetRecord(id)
		r.have = p != nil
	case 24:
		p := portion.NewDataPortion(gov.U64("start")&(1<<40-1), gov.U16("blocks"))
		g.put = p
		r.err = s.WriteRecord(id, p)
	case 25:
		g.closing = s.opened
		s.Close()
		r.fails = false
	case 26:
		s.SetAutomaticGcMode(gov.Bool("gc"))
		r.fails = false
	case 27:
		s.Usage()
		r.fails = false
	}
	return
}

func (g *govStore) ops(n int) int { return gov.Choice("op", n) }

//gov:proves (*storage.Storage).PutEmbed; (*storage.Storage).Delete; (*storage.Storage).deleteIfExist; (*storage.Storage).Get; (*storage.Storage).GetWithOffset; (*storage.Storage).GetSize; (*storage.Storage).GetSizeOnDisk; (*storage.Storage).List; (*storage.Storage).ListRange; (*storage.Storage).MinId; (*storage.Storage).MaxId; (*storage.Storage).First; (*storage.Storage).GenerateEmptyId; (*storage.Storage).JournalGC; (*storage.Storage).JournalSnapshot; (*storage.Storage).RunSideJobOnce; (*storage.Storage).Sync; (*storage.Storage).Flush; (*storage.Storage).CreateSnapshot; (*storage.Storage).DeleteSnapshot; (*storage.Storage).GetSnapshotReader; (*storage.Storage).GetRecord; (*storage.Storage).WriteRecord; (*storage.Storage).Close; (*storage.Storage).SetAutomaticGcMode; (*storage.Storage).Usage; (*storage.Storage).Put; (*storage.Storage).put; (*storage.Storage).PutWithOffset; (*storage.Storage).updateIfExist
func GovProve_C15_ops() {
	g := govAnyStore(true, false)
	gov.Opt("nolocks", 0)
	g.locks = true
	gov.Guard(&g.s.opened, "the open flag", &g.s.i, &g.s.jr)
	op := g.ops(govOps)
	gov.Assume(op != 4)
	gov.Catch(func() { g.run(op) })
	gov.Assert("no lock is held when an operation returns", gov.HeldCount() == 0)
}

// rangeLoops gives DeleteRange the invariants of its loops: what was collected
// covers b exactly if b belongs to a lump of the range, and only once.
func (g *govStore) rangeLoops() {
	if !g.loops {
		any := func(v gov.Vars) bool { return true }
		gov.Invariant("(*lumpindex.LumpIndex).RangeIter", 0, any)
		gov.Invariant("(*storage.Storage).DeleteRange", 0, func(v gov.Vars) bool {
			return uint64(v.Int("rangeindex")+1) <= uint64(len(v.Any("released").([]portion.DataPortion)))
		})
		return
	}
	covered := func(ps []portion.DataPortion, n uint64) bool {
		return gov.Exists(func(i uint64) bool { return gov.And(i < n, govCov(gov.At(ps, i), g.b)) })
	}
	gov.Invariant("(*lumpindex.LumpIndex).RangeIter", 0, func(v gov.Vars) bool {
		ps := v.Any("^released").([]portion.DataPortion)
		cur, ok, val := v.U64("indexNum"), v.Bool("ok"), v.U64("value")
		n := uint64(len(ps))
		in := gov.And(g.owned, gov.And(g.start <= g.own, g.own < g.end))
		return gov.And(gov.And(gov.Imp(ok, gov.And(gov.And(lumpindex.GovHas(g.ix, cur), val == lumpindex.GovVal(g.ix, cur)), cur >= g.start)), true), gov.And(
			gov.Imp(gov.And(in, gov.Or(!ok, g.own < cur)), covered(ps, n)), gov.And(
				gov.Forall(func(i uint64) bool {
					return gov.Imp(gov.And(i < n, govCov(gov.At(ps, i), g.b)), gov.And(in, gov.Or(!ok, g.own < cur)))
				}),
				gov.Forall2(func(i, j uint64) bool {
					return !gov.And(gov.And(i < j, j < n), gov.And(govCov(gov.At(ps, i), g.b), govCov(gov.At(ps, j), g.b)))
				}))))
	})
	gov.Invariant("(*storage.Storage).DeleteRange", 0, func(v gov.Vars) bool {
		ps := v.Any("released").([]portion.DataPortion)
		done := uint64(v.Int("rangeindex") + 1)
		did := covered(ps, done)
		return gov.And(gov.And(g.frees >= 0, done <= uint64(len(ps))), gov.And(g.mine == gov.And(g.rangeHit, !did), g.free == gov.Or(g.freed0, did)))
	})
}

func (g *govStore) deleteRange() error {
	g.rangeLoops()
	return g.s.DeleteRange(lump.FromU64(0, g.start), lump.FromU64(0, g.end), gov.Bool("has data"))
}

//gov:proves (*storage.Storage).DeleteRange
func GovProve_C15_deleteRange() {
	g := govAnyStore(true, false)
	gov.Opt("nolocks", 0)
	g.locks = true
	gov.Guard(&g.s.opened, "the open flag", &g.s.i, &g.s.jr)
	gov.Catch(func() { g.deleteRange() })
	gov.Assert("no lock is held when an operation returns", gov.HeldCount() == 0)
}

//gov:proves (*storage.Storage).DeleteRange
func GovProve_C17_deleteRange() {
	g := govAnyStore(true, false)
	g.agree, g.all, g.loops = true, true, true
	g.deleteRange()
	gov.Assert("no block is lost", gov.Imp(g.s.opened, !g.mine))
}

// Whatever other operations do in between.
//
//gov:proves (*storage.Storage).Put; (*storage.Storage).put; (*storage.Storage).PutEmbed; (*storage.Storage).PutWithOffset; (*storage.Storage).updateIfExist; (*storage.Storage).Delete; (*storage.Storage).deleteIfExist; (*storage.Storage).JournalGC; (*storage.Storage).RunSideJobOnce; (*storage.Storage).Get; (*storage.Storage).GetSize; (*storage.Storage).GetWithOffset
func GovProve_C17_ops() {
	g := govAnyStore(true, false)
	g.agree = true
	op := g.ops(govOps)
	gov.Assume(op != 4 && op != 24 && op != 25)
	g.run(op)
	gov.Assert("no block is lost", gov.Imp(g.s.opened, !g.mine))
}

// What an operation that fails leaves behind.
//
//gov:proves (*storage.Storage).Put; (*storage.Storage).put; (*storage.Storage).PutEmbed; (*storage.Storage).PutWithOffset; (*storage.Storage).updateIfExist; (*storage.Storage).Delete; (*storage.Storage).deleteIfExist; (*storage.Storage).DeleteRange
func GovProve_C17_failed() {
	g := govAnyStore(false, false)
	before := *g.ix
	op := g.ops(5)
	var r govRes
	if op == 4 {
		r.err = g.deleteRange()
	} else {
		r = g.run(op)
	}
	if op != 4 {
		gov.Assert("other lumps are unaffected", gov.Imp(g.y != g.id, g.kept(&before, g.y)))
	}
	if r.err == nil {
		gov.Assert("success is reported only if nothing failed", g.recErr == nil && g.putErr == nil && g.updErr == nil)
		return
	}
	gov.Assert("nothing has failed in between unnoticed", gov.Or(!g.recorded, op == 0))
	switch op {
	case 0:
		gov.Assert("a failed put leaves the old lump or none", gov.Or(g.kept(&before, g.id), !lumpindex.GovHas(g.ix, g.id)))
	case 4:
		gov.Assert("a failed range deletion leaves every lump", g.kept(&before, g.y))
	default:
		gov.Assert("a failed operation leaves the lump as it was", g.kept(&before, g.id))
	}
}

//gov:proves (*storage.Storage).PutEmbed; (*storage.Storage).Delete; (*storage.Storage).deleteIfExist; (*storage.Storage).Get; (*storage.Storage).GetWithOffset; (*storage.Storage).GetSize; (*storage.Storage).GetSizeOnDisk; (*storage.Storage).List; (*storage.Storage).ListRange; (*storage.Storage).MinId; (*storage.Storage).MaxId; (*storage.Storage).First; (*storage.Storage).GenerateEmptyId; (*storage.Storage).JournalGC; (*storage.Storage).JournalSnapshot; (*storage.Storage).RunSideJobOnce; (*storage.Storage).Sync; (*storage.Storage).Flush; (*storage.Storage).CreateSnapshot; (*storage.Storage).DeleteSnapshot; (*storage.Storage).GetSnapshotReader; (*storage.Storage).GetRecord; (*storage.Storage).WriteRecord; (*storage.Storage).Close; (*storage.Storage).Put; (*storage.Storage).PutWithOffset; (*storage.Storage).updateIfExist; (*storage.Storage).DeleteRange
func GovProve_C16_closed() {
	g := govAnyStore(false, true)
	g.shut = true
	op := g.ops(26)
	var r govRes
	if op == 4 {
		r.fails, r.err = true, g.deleteRange()
	} else {
		r = g.run(op)
	}
	if op == 0 || op == 2 {
		gov.Assert("a closed store stores nothing", r.err != nil)
		gov.Assert("it says that it is closed", gov.Or(len(g.data) > lump.LUMP_MAX_SIZE, gov.ErrIs(r.err, internalerror.StorageClosed)))
	} else if r.fails {
		gov.Assert("a closed store says so", gov.ErrIs(r.err, internalerror.StorageClosed))
	}
	gov.Assert("a closed store has nothing", !r.have && !r.ok && r.size == 0)
	gov.Assert("it stays closed", !g.s.opened)
}

//gov:proves (*storage.Storage).Close
func GovProve_C16_close() {
	g := govAnyStore(false, false)
	g.shut = true
	g.closing = true
	g.s.Close()
	gov.Assert("the store is closed", !g.s.opened)
	gov.Assert("the device is closed", g.closed == 1)
	gov.Assert("the index and the free-space map are freed", g.freed == 2)
	g.closing = false
	syncs := g.syncs
	g.s.Close()
	gov.Assert("closing again does nothing", g.closed == 1 && g.freed == 2 && g.syncs == syncs)
}

// The store may be closed while an operation waits for its locks.
//
//gov:proves (*storage.Storage).PutEmbed; (*storage.Storage).Delete; (*storage.Storage).deleteIfExist; (*storage.Storage).Get; (*storage.Storage).GetWithOffset; (*storage.Storage).GetSize; (*storage.Storage).GetSizeOnDisk; (*storage.Storage).List; (*storage.Storage).ListRange; (*storage.Storage).MinId; (*storage.Storage).MaxId; (*storage.Storage).First; (*storage.Storage).GenerateEmptyId; (*storage.Storage).JournalGC; (*storage.Storage).JournalSnapshot; (*storage.Storage).RunSideJobOnce; (*storage.Storage).Sync; (*storage.Storage).Flush; (*storage.Storage).CreateSnapshot; (*storage.Storage).DeleteSnapshot; (*storage.Storage).GetSnapshotReader; (*storage.Storage).GetRecord; (*storage.Storage).WriteRecord; (*storage.Storage).Close; (*storage.Storage).Put; (*storage.Storage).put; (*storage.Storage).PutWithOffset; (*storage.Storage).updateIfExist; (*storage.Storage).DeleteRange
func GovProve_C16_overtaken() {
	g := govAnyStore(true, false)
	g.shut = true
	op := g.ops(25)
	if op == 4 {
		g.deleteRange()
	} else {
		g.run(op)
	}
}

//gov:proves (*storage.Storage).Put; (*storage.Storage).put; (*storage.Storage).PutEmbed; (*storage.Storage).Get; (*storage.Storage).GetSize; (*storage.Storage).GetSizeOnDisk
func GovProve_C01_store() {
	g := govAnyStore(false, false)
	g.dispatch = true
	before := *g.ix
	had := lumpindex.GovHas(g.ix, g.id)
	ops := []int{0, 1, 5, 7, 8}
	op := ops[gov.Choice("op", 5)]
	r := g.run(op)
	gov.Assert("other lumps are as they were", gov.Imp(g.y != g.id, g.kept(&before, g.y)))
	switch op {
	case 0:
		if r.err == nil {
			gov.Assert("the lump is where its data was stored", g.puts == 1 && lumpindex.GovData(g.ix, g.id, g.put))
			gov.Assert("whether there was one before is reported", r.ok == had)
		}
		if len(g.data) > lump.LUMP_MAX_SIZE {
			gov.Assert("a lump larger than the limit is rejected", r.err != nil)
			gov.Assert("and changes nothing", gov.And(g.kept(&before, g.id), g.puts == 0 && !g.recorded))
		}
		if r.err != nil && g.recErr == nil && g.putErr == nil {
			gov.Assert("only a lump larger than the limit is rejected", len(g.data) > lump.LUMP_MAX_SIZE)
		}
	case 1:
		if r.err == nil {
			gov.Assert("the lump is embedded", lumpindex.GovEmbedded(g.ix, g.id, uint64(len(g.data))))
			gov.Assert("whether there was one before is reported", r.ok == had)
		} else {
			gov.Assert("a rejected lump changes nothing", g.kept(&before, g.id))
			gov.Assert("the error of the journal is reported", r.err == g.recErr)
		}
	case 5:
		gov.Assert("a lump that does not exist is not returned", gov.Or(had, r.err != nil))
		if r.err == nil {
			gov.Assert("the stored bytes are returned", gov.EqBytes(r.data, g.got))
		} else if had {
			gov.Assert("a stored lump is returned unless the device fails", r.err == g.recErr)
		}
	case 7:
		gov.Assert("a lump that does not exist has no size", gov.Or(had, r.err != nil))
		if r.err == nil {
			gov.Assert("the size is that of the stored bytes", gov.Ite(lumpindex.GovEmbedded(g.ix, g.id, uint64(len(g.got))), uint64(r.size) == uint64(len(g.got)), r.size == g.size))
		} else if had {
			gov.Assert("a stored lump has a size unless the device fails", r.err == g.recErr)
		}
	case 8:
		gov.Assert("a stored lump has a size on disk", (r.err == nil) == had)
		if r.err == nil {
			v := lumpindex.GovVal(g.ix, g.id)
			n := v >> 40 & 0xFFFF
			gov.Assert("the size on disk is its blocks, or the length of an embedded lump", uint64(r.size) == gov.Ite(v>>63 == 1, n*512, n))
		}
	}
}

//gov:proves (*storage.Storage).GetWithOffset; (*storage.Storage).PutWithOffset; (*storage.Storage).updateIfExist; (*storage.Storage).put
func GovProve_C02_store() {
	g := govAnyStore(false, false)
	g.dispatch = true
	before := *g.ix
	had := lumpindex.GovHas(g.ix, g.id)
	embedded := gov.And(had, lumpindex.GovVal(g.ix, g.id)>>63 == 0)
	if gov.Choice("op", 2) == 0 {
		r := g.run(6)
		off, n := uint64(uint32(g.start)), uint64(uint32(g.end))
		g.start, g.end = off, n
		gov.Assert("a lump that does not exist is not returned", gov.Or(had, r.err != nil))
		if r.err != nil {
			if embedded && g.recErr == nil {
				gov.Assert("only a range that lies beyond the end is rejected", off+n > uint64(len(g.got)))
			}
			return
		}
		if embedded {
			gov.Assert("a range beyond the end of an embedded lump is rejected", off+n <= uint64(len(g.got)))
			gov.Assert("the range of the embedded lump is returned", gov.And(uint64(len(r.data)) == n, gov.SameBytes(r.data, 0, g.got, off, n)))
		} else {
			gov.Assert("the range that was read is returned", gov.EqBytes(r.data, g.got))
		}
	} else {
		r := g.run(2)
		gov.Assert("other lumps are as they were", gov.Imp(g.y != g.id, g.kept(&before, g.y)))
		if had {
			gov.Assert("an existing lump stays where it is", gov.And(g.kept(&before, g.id), g.puts == 0 && !g.recorded))
			gov.Assert("it is updated in place, once", gov.Or(embedded, gov.And(g.updates == 1, r.err == g.updErr)))
			gov.Assert("an embedded lump is not updated", gov.Imp(embedded, gov.And(r.err != nil, g.updates == 0)))
			return
		}
		tooBig := gov.Or(uint64(g.offset)+uint64(len(g.data)) > lump.LUMP_MAX_SIZE, g.reserve > lump.LUMP_MAX_SIZE)
		if tooBig {
			gov.Assert("a lump larger than the limit is rejected", r.err != nil)
			gov.Assert("and changes nothing", g.puts == 0 && !g.recorded)
		} else if r.err == nil {
			gov.Assert("the padded lump is stored", g.puts == 1 && lumpindex.GovData(g.ix, g.id, g.put))
		} else {
			gov.Assert("only a failure is reported", g.recErr != nil || g.putErr != nil)
		}
	}
}

//gov:proves (*storage.Storage).GenerateEmptyId; (*lumpindex.LumpIndex).Max; (*lumpindex.LumpIndex).FirstEmpty
func GovProve_C19_generate() {
	g := govAnyStore(false, false)
	x := g.y
	id, have := g.s.GenerateEmptyId()
	n := id.U64()
	none := gov.Forall(func(k uint64) bool { return !lumpindex.GovHas(g.ix, k) })
	if !have {
		gov.Assert("there is no new id only if all are in use", gov.Forall(func(k uint64) bool { return lumpindex.GovHas(g.ix, k) }))
		return
	}
	gov.Assert("a generated id is not in use", !lumpindex.GovHas(g.ix, n))
	if none {
		gov.Assert("an empty store begins with the first id", n == 0)
	} else if !lumpindex.GovHas(g.ix, ^uint64(0)) {
		gov.Assert("otherwise it is one after the largest", gov.And(n > 0, gov.And(lumpindex.GovHas(g.ix, n-1), gov.Imp(x >= n, !lumpindex.GovHas(g.ix, x)))))
	} else {
		gov.Assert("otherwise it is the smallest unused one", gov.Imp(x < n, lumpindex.GovHas(g.ix, x)))
	}
}

//gov:proves (*storage.Storage).Usage; (*storage.Storage).Header; (*lumpindex.LumpIndex).Count
func GovProve_C21_usage() {
	g := govAnyStore(false, false)
	free, max, used := gov.U64("n free"), gov.U64("n max"), gov.U64("n used")
	gov.Assume(max <= free && free < 1<<40)
	g.s.alloc = &govCounts{free: free, max: max}
	gov.Use("(*journal.JournalRegion).Usage", func(j *journal.JournalRegion) uint64 { return used })
	var bs block.BlockSize = 512
	if gov.Choice("block size", 2) == 1 {
		bs = 4096
	}
	g.s.storageHeader.BlockSize = bs
	u := g.s.Usage()
	h := g.s.Header()
	gov.Assert("the capacities are those of the header", gov.And(u.JournalCapacity == h.JournalRegionSize, u.DataCapacity == h.DataRegionSize))
	gov.Assert("the number of lumps is exact", u.FileCounts == g.ix.Count())
	gov.Assert("the free bytes are the free blocks", u.DataFreeBytes == free*uint64(bs))
	gov.Assert("the journal usage is that of the journal", u.JournalUsageBytes == used)
	most := max*uint64(bs) - LUMP_DATA_TRAILER_SIZE
	gov.Assert("the largest lump that can be stored is exact", u.MaxSegmentSize == gov.Ite(max == 0, 0, gov.Ite(most > lump.LUMP_MAX_SIZE, lump.LUMP_MAX_SIZE, most)))
}

type govCounts struct {
	govFree
	free, max uint64
}

func (c *govCounts) MaxSegmentSize() uint64 { return c.max }
func (c *govCounts) FreeCount() uint64      { return c.free }

//gov:proves (*storage.Storage).DeleteRange; (*storage.Storage).ListRange; (*lumpindex.LumpIndex).RangeIter
func GovProve_C06_store() {
	g := govAnyStore(false, false)
	g.dispatch = true
	before := *g.ix
	if gov.Choice("op", 2) == 0 {
		r := g.run(10)
		gov.Assert("what was listed is returned", len(r.list) == 1 && len(g.listed) == 1 && r.list[0] == g.listed[0])
		return
	}
	g.loops = true
	gov.Assume(g.invAll())
	owned, own, free := g.owned, g.own, g.free
	err := g.deleteRange()
	if err != nil {
		gov.Assert("only a refused record is reported", err == g.recErr)
		return
	}
	in := gov.And(g.start <= g.y, g.y < g.end)
	gov.Assert("exactly the lumps of the range are gone", gov.Ite(in, !lumpindex.GovHas(g.ix, g.y), g.kept(&before, g.y)))
	gov.Assert("exactly the blocks of the removed lumps are freed", g.free == gov.Or(free, gov.And(owned, gov.And(g.start <= own, own < g.end))))
}

// The raw record operations.
//
//gov:proves (*storage.Storage).WriteRecord; (*storage.Storage).GetRecord
func GovProve_C17_records() {
	g := govAnyStore(false, false)
	g.dispatch = true
	before := *g.ix
	if gov.Choice("op", 2) == 0 {
		r := g.run(24)
		gov.Assert("other lumps are as they were", gov.Imp(g.y != g.id, g.kept(&before, g.y)))
		gov.Assert("it fails exactly when the journal refuses the record", r.err == g.recErr)
		if r.err != nil {
			gov.Assert("a refused record changes nothing", g.kept(&before, g.id))
		} else {
			gov.Assert("the lump is where the record says", g.recorded && lumpindex.GovData(g.ix, g.id, g.put))
		}
		return
	}
	p, err := g.s.GetRecord(lump.FromU64(0, g.id))
	had := lumpindex.GovHas(g.ix, g.id)
	gov.Assert("a data lump, and only a data lump, has a place in the data region", (err == nil) == gov.And(had, lumpindex.GovVal(g.ix, g.id)>>63 == 1))
	if err == nil {
		gov.Assert("it is the one last stored", lumpindex.GovData(g.ix, g.id, *p))
	}
	gov.Assert("looking changes nothing", lumpindex.GovSame(&before, g.ix, g.y))
}

// The operations that pass a question on to the index.
//
//gov:proves (*storage.Storage).List; (*storage.Storage).MinId; (*storage.Storage).MaxId; (*storage.Storage).First
func GovProve_C05_store() {
	g := govAnyStore(false, false)
	before := *g.ix
	x := g.y
	op := []int{9, 11, 12, 13}[gov.Choice("op", 4)]
	r := g.run(op)
	if op == 9 {
		gov.Assert("what the index lists is returned", len(r.list) == 1 && len(g.listed) == 1 && r.list[0] == g.listed[0])
	}
	gov.Assert("looking changes nothing", lumpindex.GovSame(&before, g.ix, x))
}

//gov:proves (*storage.Storage).MinId; (*storage.Storage).MaxId; (*storage.Storage).First; (*lumpindex.LumpIndex).Min; (*lumpindex.LumpIndex).Max; (*lumpindex.LumpIndex).First
func GovProve_C05_storeExtremes() {
	g := govAnyStore(false, false)
	x := g.y
	has := lumpindex.GovHas(g.ix, x)
	switch gov.Choice("op", 3) {
	case 0:
		id, ok := g.s.MinId()
		gov.Assert("only an empty store has no smallest id", gov.Imp(has, ok))
		gov.Assert("it is the smallest one", gov.Imp(ok, gov.And(lumpindex.GovHas(g.ix, id.U64()), gov.Imp(has, id.U64() <= x))))
	case 1:
		id, ok := g.s.MaxId()
		gov.Assert("only an empty store has no largest id", gov.Imp(has, ok))
		gov.Assert("it is the largest one", gov.Imp(ok, gov.And(lumpindex.GovHas(g.ix, id.U64()), gov.Imp(has, id.U64() >= x))))
	case 2:
		id, err := g.s.First(lump.FromU64(0, g.id))
		gov.Assert("there is a next id unless all are below", gov.Imp(gov.And(has, x >= g.id), err == nil))
		gov.Assert("it is the smallest one that is not below", gov.Imp(err == nil, gov.And(gov.And(lumpindex.GovHas(g.ix, id.U64()), id.U64() >= g.id), gov.Imp(gov.And(has, x >= g.id), id.U64() <= x))))
	}
}

// The operations that are for the journal reach it, once, and nothing else.
//
//gov:proves (*storage.Storage).JournalGC; (*storage.Storage).RunSideJobOnce; (*storage.Storage).SetAutomaticGcMode; (*storage.Storage).Sync; (*storage.Storage).Flush
func GovProve_C11_store() {
	g := govAnyStore(false, false)
	switch gov.Choice("op", 5) {
	case 0:
		g.s.JournalGC()
		gov.Assert("the garbage is collected", g.gcs == 1 && g.jobs == 0)
	case 1:
		n := gov.Int("jobs")
		g.s.RunSideJobOnce(n)
		gov.Assert("the side job is run as often as asked for", g.jobs == 1 && g.jobsAsked == n)
	case 2:
		on := gov.Bool("gc")
		g.s.SetAutomaticGcMode(on)
		gov.Assert("the mode is set", g.modes == 1 && g.mode == on)
	case 3:
		g.s.Sync()
		gov.Assert("the journal is synced", g.syncs == 1)
	case 4:
		g.s.Flush()
		gov.Assert("the journal is flushed", g.flushes == 1)
	}
	gov.Assert("nothing is recorded", !g.recorded && g.puts == 0 && g.frees == 0)
}

// A snapshot holds everything that was done before it.
//
//gov:proves (*storage.Storage).CreateSnapshot; (*storage.Storage).DeleteSnapshot; (*storage.Storage).GetSnapshotReader
func GovProve_C14_store() {
	g := govAnyStore(false, false)
	g.dispatch = true
	switch gov.Choice("op", 3) {
	case 0:
		err := g.s.CreateSnapshot()
		gov.Assert("a snapshot is taken, and its failure reported", g.created == 1 && err == g.snapErr)
	case 1:
		err := g.s.DeleteSnapshot()
		gov.Assert("the snapshot is dropped, and a failure reported", g.dropped == 1 && err == g.snapErr)
	case 2:
		r, err := g.s.GetSnapshotReader()
		gov.Assert("a failure is reported", (err == nil) == (g.snapErr == nil))
		if err == nil {
			gov.Assert("the reader of the snapshot is returned", g.readers == 1 && r == g.reader)
		}
	}
}
