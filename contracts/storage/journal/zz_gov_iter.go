//go:build go1.21

package journal

import (
	"bufio"
	"io"

	"github.com/klauspost/readahead"
	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C10: the iterators walk the records in the order they lie in the ring, from
// its head over the jump to the front to the end mark.
//
// govTape is the ring seen through a sequential reader: any records at any
// positions.  at is where the reader stands; rec is the last record read,
// from is where it began.
type govTape struct {
	reader   interface{}
	at, from uint64
	rec      JournalRecord
	front    bool // a jump to the front was read
	opened   bool
}

// what C07 says a reader gets: one record, or an error
func (t *govTape) read(r io.Reader) (JournalRecord, error) {
	gov.Assert("records are read through the iterator's own reader", interface{}(r) == t.reader)
	if err := gov.SomeErr("reader"); gov.Bool("unreadable") {
		gov.Assume(err != internalerror.NoEntries)
		return nil, err
	}
	t.from = t.at
	id := lump.FromU64(0, gov.U64("id"))
	switch gov.Choice("kind", 6) {
	case 0:
		t.rec = PutRecord{LumpID: id, DataPortion: portion.DataPortion{Start: address.Address(gov.U64("start")), Len: gov.U16("len")}}
	case 1:
		t.rec = EmbedRecord{LumpID: id, Data: gov.Bytes("data", lump.MAX_EMBEDDED_SIZE)}
	case 2:
		t.rec = DeleteRecord{LumpID: id}
	case 3:
		t.rec = DeleteRange{Start: id, End: lump.FromU64(0, gov.U64("end"))}
	case 4:
		t.rec = EndOfRecords{}
	case 5:
		t.rec = GoToFront{}
		t.front = true
	}
	t.at += uint64(t.rec.ExternalSize())
	return t.rec, nil
}

func (t *govTape) seek(offset int64, whence int) (int64, error) {
	gov.Assert("the reader is only moved to where a record begins", whence == io.SeekStart)
	gov.Assert("it is moved to the front only after a jump to the front", gov.Imp(t.opened, t.front && offset == 0))
	t.at = uint64(offset)
	return offset, nil
}

func govSameEntry(a, b JournalRecord) bool {
	switch v := a.(type) {
	case PutRecord:
		w, ok := b.(PutRecord)
		return ok && v == w
	case EmbedRecord:
		w, ok := b.(EmbedRecord)
		return ok && v.LumpID == w.LumpID && gov.EqBytes(v.Data, w.Data)
	case DeleteRecord:
		w, ok := b.(DeleteRecord)
		return ok && v == w
	case DeleteRange:
		w, ok := b.(DeleteRange)
		return ok && v == w
	}
	return false
}

func govNewTape() *govTape {
	t := &govTape{at: gov.U64("at"), opened: true}
	gov.Assume(t.at < 1<<40-1<<20)
	gov.Use("journal.ReadRecordFrom", func(r io.Reader) (JournalRecord, error) { return t.read(r) })
	return t
}

// check is the contract of PopFront: pos is where the ring says the reader
// stands, before is what it said at the call.
func (t *govTape) check(entry JournalEntry, err error, pos, before uint64) {
	if err == nil {
		gov.Assert("the record read is returned", govSameEntry(entry.Record, t.rec))
		gov.Assert("with the position where it begins", entry.Start.AsU64() == t.from)
		gov.Assert("the ring follows behind it", pos == t.at)
		gov.Assert("it lies at the front or where the reader stood", t.from == before || t.front && t.from == 0)
		return
	}
	_, end := t.rec.(EndOfRecords)
	if err == internalerror.NoEntries {
		gov.Assert("the journal ends only at its end mark", end)
		gov.Assert("the ring stays before the end mark", pos == t.from)
	}
}

// again is the contract of PopFront used for its call of itself
func (t *govTape) again(pos uint64) (JournalEntry, error) {
	gov.Assert("reading goes on at the front", t.at == 0)
	gov.Assert("and the ring knows", pos == 0)
	if gov.Bool("end") {
		t.rec, t.from, t.at = EndOfRecords{}, 0, 12
		return JournalEntry{}, internalerror.NoEntries
	}
	if err := gov.SomeErr("reader'"); gov.Bool("unreadable'") {
		gov.Assume(err != internalerror.NoEntries)
		return JournalEntry{}, err
	}
	t.rec = DeleteRecord{LumpID: lump.FromU64(0, gov.U64("id'"))}
	t.from, t.at = 0, uint64(t.rec.ExternalSize())
	return JournalEntry{Start: address.AddressFromU64(0), Record: t.rec}, nil
}

func (t *govTape) cut(first *bool) bool {
	if *first {
		*first = false
		return false
	}
	return true
}

//gov:proves (*journal.DequeueIter).PopFront; (journal.JournalEntry).End
func GovProve_C10_dequeue() {
	t := govNewTape()
	ring := &JournalRingBuffer{head: t.at, tail: gov.U64("tail"), unreleasedHead: gov.U64("released")}
	tail, released := ring.tail, ring.unreleasedHead
	it := &DequeueIter{ring: ring, readBuf: &SeekableReader{}, isSecondLoop: gov.Bool("second")}
	t.reader = it.readBuf
	second := it.isSecondLoop
	gov.Use("(*journal.SeekableReader).Seek", func(r *SeekableReader, off int64, whence int) (int64, error) {
		gov.Use("(*journal.DequeueIter).PopFront", func(j *DequeueIter) (JournalEntry, error) {
			gov.Assert("the same iterator goes on", j == it && it.isSecondLoop)
			e, err := t.again(ring.head)
			if err == nil {
				ring.head = t.at
			}
			return e, err
		})
		return t.seek(off, whence)
	})
	before := ring.head
	var entry JournalEntry
	var err error
	if gov.Catch(func() { entry, err = it.PopFront() }) {
		gov.Assert("only a second jump to the front is not followed", second && t.front)
		return
	}
	t.check(entry, err, ring.head, before)
	gov.Assert("only the head of the ring moves", gov.And(ring.tail == tail, ring.unreleasedHead == released))
}

// govAhead is the read-ahead reader
type govAhead struct {
	readahead.ReadSeekCloser
	t      *govTape
	cut    func()
	closed bool
}

func (a *govAhead) Seek(off int64, whence int) (int64, error) {
	if a.cut != nil {
		a.cut()
	}
	return a.t.seek(off, whence)
}
func (a *govAhead) Read(p []byte) (int, error) {
	gov.Fail("records are read by ReadRecordFrom")
	return 0, nil
}
func (a *govAhead) Close() error { a.closed = true; return nil }

//gov:proves (journal.BufferedIter).PopFront; (journal.BufferedIter).Close; (journal.JournalEntry).End
func GovProve_C10_buffered() {
	t := govNewTape()
	ring := &JournalRingBuffer{tail: t.at, head: gov.U64("head"), unreleasedHead: gov.U64("released")}
	head, released := ring.head, ring.unreleasedHead
	a := &govAhead{t: t}
	it := BufferedIter{ring: ring, fastReader: a}
	t.reader = it.fastReader
	a.cut = func() {
		gov.Use("(journal.BufferedIter).PopFront", func(j BufferedIter) (JournalEntry, error) {
			gov.Assert("the same iterator goes on", j.ring == ring && j.fastReader == it.fastReader)
			e, err := t.again(ring.tail)
			if err == nil {
				ring.tail = t.at
			}
			return e, err
		})
	}
	before := ring.tail
	entry, err := it.PopFront()
	t.check(entry, err, ring.tail, before)
	gov.Assert("only the tail of the ring moves", gov.And(ring.head == head, ring.unreleasedHead == released))
	it.Close()
	gov.Assert("the reader is closed with its iterator", a.closed)
}

//gov:proves (journal.ReadIter).PopFront
func GovProve_C10_readIter() {
	t := govNewTape()
	buf := &JournalNvmBuffer{}
	ring := &JournalRingBuffer{nvm: buf, tail: gov.U64("tail"), head: gov.U64("head"), unreleasedHead: gov.U64("released")}
	saved := *ring
	t.reader = buf
	it := ReadIter{ring: ring}
	gov.Use("(*journal.JournalNvmBuffer).Position", func(jb *JournalNvmBuffer) uint64 { return t.at })
	gov.Use("(*journal.JournalNvmBuffer).Seek", func(jb *JournalNvmBuffer, off int64, whence int) (int64, error) {
		gov.Use("(journal.ReadIter).PopFront", func(j ReadIter) (JournalEntry, error) {
			gov.Assert("the same iterator goes on", j.ring == ring)
			return t.again(0)
		})
		return t.seek(off, whence)
	})
	before := t.at
	entry, err := it.PopFront()
	if err != nil {
		_, end := t.rec.(EndOfRecords)
		gov.Assert("the journal ends only at its end mark", gov.Imp(err == internalerror.NoEntries, end))
	} else {
		t.check(entry, err, t.at, before)
	}
	gov.Assert("reading moves nothing", *ring == saved)
}

// Where the iterators begin.
//
//gov:proves (*journal.JournalRingBuffer).DequeueIter; (*journal.JournalRingBuffer).BufferedIter; (*journal.JournalRingBuffer).ReadIter; journal.createSeekableReader; (*journal.SeekableReader).Seek
func GovProve_C10_begin() {
	buf := &JournalNvmBuffer{}
	ring := &JournalRingBuffer{nvm: buf, tail: gov.U64("tail"), head: gov.U64("head"), unreleasedHead: gov.U64("released")}
	gov.Assume(ring.head < 1<<40 && ring.unreleasedHead < 1<<40)
	saved := *ring
	t := &govTape{at: gov.U64("at")}
	fresh := true // nothing read ahead from another position
	gov.Use("(*journal.JournalNvmBuffer).Seek", func(jb *JournalNvmBuffer, off int64, whence int) (int64, error) {
		gov.Assert("the journal is read", jb == buf)
		if err := gov.Err("seek"); err != nil {
			return 0, err
		}
		fresh = false
		return t.seek(off, whence)
	})
	gov.Use("bufio.NewReaderSize", func(rd io.Reader, size int) *bufio.Reader {
		gov.Assert("the journal is read", rd == io.Reader(buf))
		return &bufio.Reader{}
	})
	gov.Use("(*bufio.Reader).Reset", func(b *bufio.Reader, rd io.Reader) {
		gov.Assert("the journal is read", rd == io.Reader(buf))
		fresh = true
	})
	gov.Use("(*bufio.Reader).Buffered", func(b *bufio.Reader) int { return gov.Int("buffered") })
	var ahead *govAhead
	gov.Use("readahead.NewReadSeekerSize", func(rd io.ReadSeeker, buffers, size int) (readahead.ReadSeekCloser, error) {
		gov.Assert("the journal is read", rd == io.ReadSeeker(buf))
		ahead = &govAhead{t: t}
		return ahead, nil
	})
	which := gov.Choice("iterator", 3)
	if gov.Catch(func() {
		switch which {
		case 0:
			it := ring.DequeueIter()
			gov.Assert("it knows its ring", it.ring == ring && !it.isSecondLoop && it.readBuf.f == buf)
			gov.Assert("a dequeue begins at the head", t.at == saved.head)
			gov.Assert("nothing read before is kept", fresh)
		case 1:
			it := ring.BufferedIter()
			gov.Assert("it knows its ring", it.ring == ring && it.fastReader == readahead.ReadSeekCloser(ahead))
			gov.Assert("a replay begins at the head", t.at == saved.head)
		case 2:
			it := ring.ReadIter()
			gov.Assert("it knows its ring", it.ring == ring)
			gov.Assert("a listing begins at the released head", t.at == saved.unreleasedHead)
		}
	}) {
		return // the device failed
	}
	gov.Assert("the ring is where it was", *ring == saved)
}

// An embedded payload is read back from where its record holds it.
//
//gov:proves (*journal.JournalRegion).GetEmbededData; (*journal.JournalRingBuffer).ReadEmbededBuffer
func GovProve_C11_embedded() {
	govUseFlat()
	// the contract of Seek proved in C08
	gov.Use("(*journal.JournalNvmBuffer).Seek", func(jb *JournalNvmBuffer, off int64, whence int) (int64, error) {
		gov.Assert("the payload is sought from the start", whence == io.SeekStart)
		jb.position = uint64(off)
		return off, nil
	})
	faulty := gov.Choice("faulty", 2) == 1
	d := &govDev{data: gov.Bytes("journal", 1<<40), faulty: faulty}
	old := gov.Snapshot(d.data)
	jb := &JournalNvmBuffer{nvm: d, position: gov.U64("position")}
	ring := &JournalRingBuffer{nvm: jb, unreleasedHead: gov.U64("unreleased"), head: gov.U64("head"), tail: gov.U64("tail")}
	saved := *ring
	jr := &JournalRegion{ring: ring}
	start, l := gov.U64("start"), gov.U16("len")
	gov.Assume(start < 1<<40 && start+uint64(l) <= uint64(len(d.data)))
	buf, err := jr.GetEmbededData(portion.NewJournalPortion(start, l))
	if !faulty {
		gov.Assert("a payload inside the journal can be read", err == nil)
	}
	if err == nil {
		gov.Assert("it is as long as the index says", len(buf) == int(l))
		gov.Assert("it is what the journal has there", gov.SameBytes(buf, 0, old, start, uint64(l)))
	} else {
		gov.Assert("nothing is returned with an error", buf == nil)
	}
	gov.Assert("the ring is where it was", *ring == saved)
	gov.Assert("the journal is as it was", gov.SameBytes(d.data, 0, old, 0, uint64(len(old))))
}
