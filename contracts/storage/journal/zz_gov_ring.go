//go:build go1.21

package journal

import (
	"io"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C09: the journal ring.

// govUseFlat installs the contract of the journal buffer proved in C08: a
// flat byte array, here d.data; an access which the device refuses has no
// effect.
func govUseFlat() {
	gov.Use("(*journal.JournalNvmBuffer).Write", func(jb *JournalNvmBuffer, buf []byte) (int, error) {
		d := jb.nvm.(*govDev)
		n := uint64(len(buf))
		if jb.position+n > uint64(len(d.data)) {
			return 0, internalerror.InconsistentState
		}
		if err := d.err(); err != nil {
			return 0, err
		}
		gov.CopyBytes(d.data, buf, jb.position, 0, n)
		jb.position += n
		return len(buf), nil
	})
	gov.Use("(*journal.JournalNvmBuffer).Read", func(jb *JournalNvmBuffer, buf []byte) (int, error) {
		d := jb.nvm.(*govDev)
		gov.Assert("the position lies inside the journal", jb.position <= uint64(len(d.data)))
		if err := d.err(); err != nil {
			gov.HavocBytes(buf)
			return -1, err
		}
		rest := uint64(len(d.data)) - jb.position
		n := gov.Ite(uint64(len(buf)) < rest, uint64(len(buf)), rest)
		gov.CopyBytes(buf, d.data, 0, jb.position, n)
		jb.position += n
		return int(n), nil
	})
	flush := func(jb *JournalNvmBuffer) error { return jb.nvm.(*govDev).err() }
	gov.Use("(*journal.JournalNvmBuffer).Flush", flush)
	gov.Use("(*journal.JournalNvmBuffer).Sync", flush)
}

// govRec is any record: C07 proves that a record writes exactly the bytes it
// declares.
type govRec struct {
	data []byte
	tag  byte
}

func (g govRec) WriteTo(w io.Writer) error { _, err := w.Write(g.data); return err }
func (g govRec) ExternalSize() uint32      { return uint32(len(g.data)) }
func (g govRec) CheckSum() uint32          { return 0 }
func (g govRec) Tag() byte                 { return g.tag }

// govRingInv: the tail leaves room for its end mark, outside the unreleased records.
func govRingInv(ring *JournalRingBuffer, c uint64) bool {
	h, t := ring.unreleasedHead, ring.tail
	return gov.And(gov.And(h <= c, gov.And(t <= c, t+END_OF_RECORDS_SIZE <= c)), gov.Or(t >= h, t+END_OF_RECORDS_SIZE <= h))
}

func govAnyRing(bs block.BlockSize, faulty bool) (*JournalRingBuffer, *govDev) {
	govUseFlat()
	d := &govDev{data: gov.Bytes("journal", 1<<40), bs: bs, faulty: faulty}
	c := uint64(len(d.data))
	gov.Assume(c%uint64(bs) == 0)
	jb := &JournalNvmBuffer{nvm: d, position: gov.U64("position")}
	ring := &JournalRingBuffer{nvm: jb, unreleasedHead: gov.U64("unreleased"), head: gov.U64("head"), tail: gov.U64("tail"), usage: gov.U64("usage")}
	gov.Assume(govRingInv(ring, c))
	return ring, d
}

// x lies between the released head and the tail
func govUsed(h, t, c, x uint64) bool {
	return gov.Ite(h <= t, gov.And(h <= x, x < t), gov.And(x < c, gov.Or(h <= x, x < t)))
}

func govEnqueue(bs block.BlockSize) {
	faulty := gov.Choice("faulty", 2) == 1
	ring, d := govAnyRing(bs, faulty)
	var rec JournalRecord
	var payload uint64
	embed := gov.Choice("embed", 2) == 1
	bytes := gov.Bytes("record", 65536+32)
	if embed {
		payload = uint64(len(bytes)) - EMBEDDED_DATA_OFFSET
		gov.Assume(len(bytes) >= EMBEDDED_DATA_OFFSET && payload <= lump.MAX_EMBEDDED_SIZE)
		rec = EmbedRecord{LumpID: lump.FromU64(0, gov.U64("id")), Data: gov.BytesN("data", payload)}
		gov.Use("(journal.EmbedRecord).WriteTo", func(e EmbedRecord, w io.Writer) error { _, err := w.Write(bytes); return err })
	} else {
		gov.Assume(len(bytes) >= END_OF_RECORDS_SIZE)
		rec = govRec{data: bytes}
	}
	n := uint64(len(bytes))
	old := gov.Snapshot(d.data)
	before := *ring
	h, t, c := ring.unreleasedHead, ring.tail, uint64(len(d.data))

	p, err := ring.Enqueue(rec)

	gov.Assert("unreleased records stay as they are", gov.Forall(func(x uint64) bool {
		return gov.Imp(govUsed(h, t, c, x), gov.At(d.data, x) == gov.At(old, x))
	}))
	gov.Assert("nothing is released", gov.And(ring.unreleasedHead == h, ring.head == before.head))
	// is there enough free space?
	room := gov.Or(gov.Ite(t < h, bs.CeilAlign(t+n+END_OF_RECORDS_SIZE) <= h, t+n+END_OF_RECORDS_SIZE <= c),
		gov.And(t >= h, bs.CeilAlign(n+END_OF_RECORDS_SIZE) <= h))
	if err != nil {
		gov.Assert("the ring is as it was", gov.And(ring.tail == t, gov.Or(ring.usage == before.usage, ring.usage == gov.Ite(h <= t, t-h, t+c-h))))
		gov.Assert("the end mark is as it was", gov.SameBytes(d.data, t, old, t, END_OF_RECORDS_SIZE))
		gov.Assert("no position is reported", gov.And(p.Start == 0, p.Len == 0))
		if !faulty {
			gov.Assert("a refused append says the journal is full", err == internalerror.JournalStorageFull)
			gov.Assert("the journal is full only without enough free space", !room)
			gov.Assert("a refused append writes nothing", gov.SameBytes(d.data, 0, old, 0, c))
		}
		return
	}
	gov.Assert("a record is appended only into enough free space", room)
	s := ring.tail - n
	gov.Assert("the record begins at the tail or at the front", gov.Or(s == t, gov.And(s == 0, t+n+END_OF_RECORDS_SIZE > c)))
	gov.Assert("the record is written there", gov.SameBytes(d.data, s, bytes, 0, n))
	gov.Assert("the end mark follows it", gov.And(govBE(d.data, ring.tail, 4) == 0x00010001, gov.At(d.data, ring.tail+4) == TAG_END_OF_RECORDS))
	gov.Assert("the jump leads to it", gov.Or(s == t, gov.And(govBE(d.data, t, 4) == 0x00020002, gov.At(d.data, t+4) == TAG_GO_TO_FRONT)))
	if embed {
		gov.Assert("the position reported is that of the payload", gov.And(p.Start.AsU64() == s+EMBEDDED_DATA_OFFSET, uint64(p.Len) == payload))
	} else {
		gov.Assert("no position is reported", gov.And(p.Start == 0, p.Len == 0))
	}
	nt := ring.tail
	gov.Assert("usage is the distance from the released head to the tail", ring.Usage() == gov.Ite(h <= nt, nt-h, nt+c-h))
	gov.Assert("the ring stays well formed", govRingInv(ring, c))
	gov.Assert("a full ring is not taken for an empty one", gov.Or(nt != h, n == 0))
}

//gov:proves (*journal.JournalRingBuffer).Usage; (*journal.JournalRingBuffer).DoStoreUsage; (*journal.JournalRingBuffer).ReleaseBytesUntil; journal.NewJournalRingBuffer; (*journal.JournalRingBuffer).Capacity
func GovProve_C09_release() {
	ring, d := govAnyRing(512, false)
	old := gov.Snapshot(d.data)
	t, hd, c := ring.tail, ring.head, uint64(len(d.data))
	gov.Assert("capacity", ring.Capacity() == c)
	h := gov.U64("until")
	gov.Assume(h <= c)
	ring.ReleaseBytesUntil(h)
	gov.Assert("released up to there", ring.unreleasedHead == h)
	gov.Assert("usage is the distance from the released head to the tail", ring.Usage() == gov.Ite(h <= t, t-h, t+c-h))
	gov.Assert("nothing else changes", gov.And(ring.tail == t, gov.And(ring.head == hd, gov.SameBytes(d.data, 0, old, 0, c))))
	r := NewJournalRingBuffer(ring.nvm, h)
	gov.Assert("a new ring is empty", gov.And(r.Head() == h, gov.And(r.Tail() == h, r.Usage() == 0)))
}

//gov:proves (*journal.JournalRingBuffer).ReadEmbededBuffer
func GovProve_C09_embedded() {
	ring, d := govAnyRing(512, gov.Choice("faulty", 2) == 1)
	c := uint64(len(d.data))
	p, n := gov.U64("at"), gov.U64("n")
	gov.Assume(n <= lump.MAX_EMBEDDED_SIZE && p <= c && p+n <= c)
	old := gov.Snapshot(d.data)
	before := *ring
	buf := gov.BytesN("buf", n)
	err := ring.ReadEmbededBuffer(p, buf)
	gov.Assert("reading a payload fails only if the device does", err == nil || d.faulty)
	gov.Assert("it returns the bytes at its position", gov.Or(err != nil, gov.SameBytes(buf, 0, d.data, p, n)))
	gov.Assert("reading changes nothing", gov.And(gov.SameBytes(d.data, 0, old, 0, c), gov.And(ring.tail == before.tail, gov.And(ring.head == before.head, ring.unreleasedHead == before.unreleasedHead))))
}

//gov:proves (*journal.JournalRingBuffer).Enqueue; (*journal.JournalRingBuffer).checkFreeSpace; (*journal.JournalRingBuffer).isOverFlow
func GovProve_C09_enqueue512() { govEnqueue(512) }

//gov:proves (*journal.JournalRingBuffer).Enqueue; (*journal.JournalRingBuffer).checkFreeSpace; (*journal.JournalRingBuffer).isOverFlow
func GovProve_C09_enqueue1024() { govEnqueue(1024) }

//gov:proves (*journal.JournalRingBuffer).Enqueue; (*journal.JournalRingBuffer).checkFreeSpace; (*journal.JournalRingBuffer).isOverFlow
func GovProve_C09_enqueue2048() { govEnqueue(2048) }

//gov:proves (*journal.JournalRingBuffer).Enqueue; (*journal.JournalRingBuffer).checkFreeSpace; (*journal.JournalRingBuffer).isOverFlow
func GovProve_C09_enqueue4096() { govEnqueue(4096) }

//gov:proves (*journal.JournalRingBuffer).Enqueue; (*journal.JournalRingBuffer).checkFreeSpace; (*journal.JournalRingBuffer).isOverFlow
func GovProve_C09_enqueue8192() { govEnqueue(8192) }

//gov:proves (*journal.JournalRingBuffer).Enqueue; (*journal.JournalRingBuffer).checkFreeSpace; (*journal.JournalRingBuffer).isOverFlow
func GovProve_C09_enqueue16384() { govEnqueue(16384) }

//gov:proves (*journal.JournalRingBuffer).Enqueue; (*journal.JournalRingBuffer).checkFreeSpace; (*journal.JournalRingBuffer).isOverFlow
func GovProve_C09_enqueue32768() { govEnqueue(32768) }

// C21: the usage of the journal is the distance from its released head to its tail.
//
//gov:proves (*journal.JournalRegion).Usage; (*journal.JournalRingBuffer).Usage; (*journal.JournalRingBuffer).DoStoreUsage; (*journal.JournalRingBuffer).ReleaseBytesUntil; (*journal.JournalRingBuffer).Enqueue
func GovProve_C21_journalUsage() {
	ring, d := govAnyRing(512, true)
	c := uint64(len(d.data))
	used := func() uint64 {
		h, t := ring.unreleasedHead, ring.tail
		return gov.Ite(h <= t, t-h, t+c-h)
	}
	gov.Assume(ring.usage == used())
	jr := &JournalRegion{ring: ring}
	if gov.Choice("op", 2) == 0 {
		bytes := gov.Bytes("record", 65536+32)
		gov.Assume(len(bytes) >= END_OF_RECORDS_SIZE)
		ring.Enqueue(govRec{data: bytes})
	} else {
		h := gov.U64("until")
		gov.Assume(h <= c)
		ring.ReleaseBytesUntil(h)
	}
	gov.Assert("usage is the distance from the released head to the tail", jr.Usage() == used())
}
