//go:build go1.21

package journal

import (
	"io"

	"github.com/phf/go-queue/queue"
	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/nvm"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C12: the journal header, and what a new or reopened journal looks like.

// govSplit is a device that can be split (C13: two views that tile it).
type govSplit struct {
	*govDev
	at uint64
	ok bool
}

func (d *govSplit) Split(p uint64) (nvm.NonVolatileMemory, nvm.NonVolatileMemory, error) {
	d.at = p
	if p > uint64(len(d.data)) || p%uint64(d.bs) != 0 {
		return nil, nil, internalerror.InvalidInput
	}
	d.ok = true
	l := &govDev{data: gov.Snapshot(d.data)[:p], bs: d.bs, faulty: d.faulty}
	r := &govDev{data: gov.Snapshot(d.data)[p:], bs: d.bs, faulty: d.faulty}
	return l, r, nil
}

func govBE64(b []byte) (v uint64) {
	for i := uint64(0); i < 8; i++ {
		v = v<<8 | uint64(gov.At(b, i))
	}
	return
}

func govHeaderDev() *govDev {
	return &govDev{data: gov.BytesN("header", 512), pos: gov.U64("devpos"), bs: 512, faulty: gov.Choice("faulty", 2) == 1}
}

//gov:proves (*journal.JournalHeaderRegion).WriteTo; (*journal.JournalHeaderRegion).ReadFrom; journal.NewJournalHeadRegion
func GovProve_C12_journalHeader() {
	block.GovUseAlignedAny()
	d := govHeaderDev()
	was := gov.Snapshot(d.data)
	h := NewJournalHeadRegion(d)
	head := gov.U64("head")
	if gov.Choice("again", 2) == 1 {
		// whatever the buffer was used for before
		gov.HavocBytes(h.ab.AsBytes())
	}
	err := h.WriteTo(head)
	if !d.faulty {
		gov.Assert("the head can be stored", err == nil)
	}
	if err != nil {
		gov.Assert("a head that could not be stored is reported once at most one write was tried", d.writes <= 1)
		return
	}
	gov.Assert("the header is written once", d.writes == 1)
	gov.Assert("the device has the head", govBE64(d.data) == head)
	_ = was
	d.faulty = false
	got, err := NewJournalHeadRegion(d).ReadFrom()
	gov.Assert("the head stored reads back", gov.And(err == nil, got == head))
	got, err = h.ReadFrom()
	gov.Assert("the head stored reads back, also through the region that wrote it", gov.And(err == nil, got == head))
}

//gov:proves (*journal.JournalHeaderRegion).ReadFrom
func GovProve_C12_journalHeaderRead() {
	block.GovUseAlignedAny()
	d := govHeaderDev()
	was := gov.Snapshot(d.data)
	got, err := NewJournalHeadRegion(d).ReadFrom()
	if err == nil {
		gov.Assert("the head is what the first eight bytes say", got == govBE64(was))
	} else {
		gov.Assert("only a device error keeps the head from being read", d.faulty)
	}
	gov.Assert("reading the head changes nothing", gov.EqBytes(d.data, was))
}

//gov:proves journal.OpenJournalRegion; journal.NewJournalRingBuffer; journal.NewJournalNvmBuffer
func GovProve_C12_openJournal() {
	block.GovUseAlignedAny()
	d := &govSplit{govDev: &govDev{data: gov.Bytes("device", 1<<40), bs: 512, faulty: gov.Choice("faulty", 2) == 1}}
	gov.Assume(uint64(len(d.data))%512 == 0)
	was := gov.Snapshot(d.data)
	jr, err := OpenJournalRegion(d)
	gov.Assert("the first block is the header", d.at == 512)
	if !d.faulty && len(was) >= 512 {
		gov.Assert("a journal can be opened", err == nil)
	}
	if err != nil {
		gov.Assert("a failed open yields no journal", jr == nil)
		return
	}
	head := govBE64(was)
	r := jr.ring
	gov.Assert("the ring begins at the head stored", gov.And(r.head == head, gov.And(r.tail == head, r.unreleasedHead == head)))
	gov.Assert("the ring has the rest of the journal", r.Capacity() == uint64(len(was))-512)
	ring := r.nvm.nvm.(*govDev)
	gov.Assert("the ring works on what follows the header", gov.Forall(func(x uint64) bool {
		return gov.Imp(x < uint64(len(was))-512, gov.At(ring.data, x) == gov.At(was, 512+x))
	}))
	gov.Assert("nothing is buffered", gov.And(r.nvm.writeBuf.Len() == 0, !r.nvm.maybeDirty))
	gov.Assert("nothing waits for collection", jr.gcQueue.Len() == 0)
	gov.Assert("the next sync is a full interval away, collection is automatic", gov.And(jr.syncCountDown == SYNC_INTERVAL, jr.gcAfterAppend))
	gov.Assert("reading the head writes nothing", ring.writes == 0)
}

//gov:proves journal.InitialJournalRegion
func GovProve_C12_newJournal() {
	bs := block.BlockSize(512 << uint(gov.Choice("block size", 7)))
	w := &govSink{data: gov.BytesN("was", 1<<16)}
	InitialJournalRegion(w, bs)
	gov.Assert("a new journal begins at position 0", gov.Forall(func(x uint64) bool { return gov.Imp(x < uint64(bs), gov.At(w.data, x) == 0) }))
	gov.Assert("the header has one block", w.pos == uint64(bs)+END_OF_RECORDS_SIZE)
	govUseStd()
	rec, err := ReadRecordFrom(&govSink{data: w.data[bs : uint64(bs)+END_OF_RECORDS_SIZE]})
	_, isEnd := rec.(EndOfRecords)
	gov.Assert("a new journal has no record", gov.And(err == nil, isEnd))
}

//gov:proves (*journal.JournalRingBuffer).Head; (*journal.JournalRingBuffer).Tail; (*journal.JournalRingBuffer).isEmpty; (*journal.JournalRegion).SetAutomaticGcMode; (*journal.JournalRingBuffer).Sync; (*journal.JournalRingBuffer).Flush
func GovProve_C11_accessors() {
	r := &JournalRingBuffer{head: gov.U64("head"), tail: gov.U64("tail"), unreleasedHead: gov.U64("unreleased"), nvm: &JournalNvmBuffer{}}
	j := &JournalRegion{ring: r, gcQueue: &queue.Queue{}, syncCountDown: 7, gcAfterAppend: gov.Choice("was", 2) == 1}
	was := *r
	gov.Assert("head and tail are the ring's", gov.And(r.Head() == was.head, r.Tail() == was.tail))
	gov.Assert("the ring is empty when head and tail meet", r.isEmpty() == (was.head == was.tail))
	on := gov.Choice("gc", 2) == 1
	j.SetAutomaticGcMode(on)
	gov.Assert("the mode of collection is the one set, nothing else changes", gov.And(j.gcAfterAppend == on, gov.And(*r == was, j.syncCountDown == 7)))
	flushed, synced := 0, 0
	var e1, e2 error = gov.Err("flush"), gov.Err("sync")
	gov.Use("(*journal.JournalNvmBuffer).Flush", func(b *JournalNvmBuffer) error { flushed++; return e1 })
	gov.Use("(*journal.JournalNvmBuffer).Sync", func(b *JournalNvmBuffer) error { synced++; return e2 })
	gov.Assert("a flush flushes the buffer and reports its result", r.Flush() == e1 && flushed == 1 && synced == 0)
	gov.Assert("a sync syncs the buffer and reports its result", r.Sync() == e2 && flushed == 1 && synced == 1)
	gov.Assert("neither moves the ring", *r == was)
}

// what the store lists of the journal, from the iterator's contract
//
//gov:proves (*journal.JournalRegion).JournalEntries
func GovProve_C10_entries() {
	r := &JournalRingBuffer{head: gov.U64("head"), tail: gov.U64("tail"), unreleasedHead: gov.U64("unreleased")}
	was := *r
	j := &JournalRegion{ring: r}
	n, i := gov.U64("n"), uint64(0)
	gov.Assume(n < 1<<40)
	pos := gov.Slice[uint64]("pos", n)
	gov.Use("(*journal.JournalRingBuffer).ReadIter", func(r *JournalRingBuffer) ReadIter { return ReadIter{ring: r} })
	gov.Use("(journal.ReadIter).PopFront", func(it ReadIter) (JournalEntry, error) {
		if i == n {
			return JournalEntry{}, internalerror.NoEntries
		}
		i++
		return JournalEntry{Start: address.Address(gov.At(pos, i-1))}, nil
	})
	gov.Invariant("(*journal.JournalRegion).JournalEntries", 0, func(v gov.Vars) bool {
		es := v.Any("entries").([]JournalEntry)
		return gov.And(i <= n, uint64(len(es)) == i)
	})
	u, h, t, es := j.JournalEntries()
	gov.Assert("the ring's positions are reported", gov.And(u == was.unreleasedHead, gov.And(h == was.head, t == was.tail)))
	gov.Assert("every record is listed once, in order", uint64(len(es)) == n)
	gov.Assert("nothing changes", gov.And(r.head == was.head, gov.And(r.tail == was.tail, r.unreleasedHead == was.unreleasedHead)))
}

// their order, for up to four records (gocv has no symbolic slices of entries)
//
//gov:bounded
func GovProve_C10_entriesOrder() {
	j := &JournalRegion{ring: &JournalRingBuffer{}}
	n, i := gov.Choice("n", 5), 0
	var all [4]JournalEntry
	for k := range all {
		all[k] = JournalEntry{Start: address.Address(gov.U64("pos")), Record: DeleteRecord{}}
	}
	gov.Use("(*journal.JournalRingBuffer).ReadIter", func(r *JournalRingBuffer) ReadIter { return ReadIter{ring: r} })
	gov.Use("(journal.ReadIter).PopFront", func(it ReadIter) (JournalEntry, error) {
		if i == n {
			return JournalEntry{}, internalerror.NoEntries
		}
		i++
		return all[i-1], nil
	})
	_, _, _, es := j.JournalEntries()
	gov.Assert("every record is listed once", len(es) == n)
	for k := range es {
		gov.Assert("the records are listed in order", es[k].Start == all[k].Start)
	}
}

// the contract of io.ReadFull that C07 uses
//
//gov:slow
//gov:proves io.ReadFull; io.ReadAtLeast
func GovProve_C07_readFull() {
	src := &govSink{data: gov.Bytes("source", 1<<20), pos: gov.U64("pos")}
	gov.Assume(src.pos <= uint64(len(src.data)))
	at, rest := src.pos, uint64(len(src.data))-src.pos
	buf := gov.Bytes("buf", 1<<17)
	l := uint64(len(buf))
	gov.Invariant("io.ReadAtLeast", 0, func(v gov.Vars) bool {
		n := v.Int("n")
		return gov.And(gov.And(gov.And(gov.And(n >= 0, n <= 1<<17), gov.And(uint64(n) <= l, src.pos <= 1<<20)), gov.Or(v.Err("err") == nil, src.pos == uint64(len(src.data)))), gov.And(gov.And(src.pos == at+uint64(n), src.pos <= uint64(len(src.data))), gov.SameBytes(buf, 0, src.data, at, uint64(n))))
	})
	n, err := io.ReadFull(src, buf)
	gov.Assert("it succeeds exactly if there is enough", (err == nil) == (l <= rest))
	if err == nil {
		gov.Assert("exactly the buffer is read", gov.And(uint64(n) == l, src.pos == at+l))
		gov.Assert("with the bytes of the source", gov.SameBytes(buf, 0, src.data, at, l))
	}
}
