//go:build go1.21

package journal

import (
	"io"

	"github.com/phf/go-queue/queue"
	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/portion"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C10, C11: the journal describes the index.
//
// govLog is the sequence of records in the journal, oldest first, seen from
// one arbitrary lump y: last is the last record that affects y.  Records
// before stored are released on the device; [q,qb) waits in the garbage
// collection queue; the ring's head is at record d.
type govLog struct {
	kind, id, pos, a, b     []uint64
	n, q, qb, d, stored     uint64
	y, last                 uint64
	payload                 []byte // of y, if it is embedded
	dirty, faulty, ok, read bool
	ix                      *lumpindex.LumpIndex
	jr                      *JournalRegion
	tail, cap               uint64
}

const (
	gPut   = 0 // a: start, b: length
	gEmbed = 1 // a: length
	gDel   = 2
	gRange = 3 // id <= x < a
	gNone  = ^uint64(0)
)

// record i affects lump x
func (g *govLog) affects(i, x uint64) bool {
	return gov.Ite(gov.At(g.kind, i) == gRange, gov.And(gov.At(g.id, i) <= x, x < gov.At(g.a, i)), gov.At(g.id, i) == x)
}

// what the index has for y is what record k leaves there
func (g *govLog) describes(k uint64) bool {
	return gov.Pure(func() bool {
		p, err := g.ix.Get(lump.FromU64(0, g.y))
		kind := gov.At(g.kind, k)
		if err != nil {
			return gov.Or(k == gNone, gov.Or(kind == gDel, kind == gRange))
		}
		switch v := p.(type) {
		case portion.DataPortion:
			return gov.And(gov.And(k != gNone, kind == gPut), gov.And(v.Start.AsU64() == gov.At(g.a, k), uint64(v.Len) == gov.At(g.b, k)))
		case portion.JournalPortion:
			return gov.And(gov.And(gov.And(k != gNone, kind == gEmbed), uint64(len(g.payload)) == gov.At(g.a, k)),
				gov.And(v.Start.AsU64() == gov.At(g.pos, k)+EMBEDDED_DATA_OFFSET, uint64(v.Len) == gov.At(g.a, k)))
		}
		return false
	})
}

func (g *govLog) live() bool {
	return gov.And(g.last != gNone, gov.Or(gov.At(g.kind, g.last) == gPut, gov.At(g.kind, g.last) == gEmbed))
}

// inv: replaying the journal from the head stored on the device gives y what
// the index has, and so does replaying it without the records already collected.
func (g *govLog) inv() bool {
	return gov.And(gov.And(gov.And(
		gov.And(g.stored <= g.q, gov.And(g.q <= g.qb, gov.And(g.qb == g.d, gov.And(g.d <= g.n, g.n < 1<<40)))),
		gov.Or(g.last == gNone, gov.And(gov.And(g.stored <= g.last, g.last < g.n), g.affects(g.last, g.y)))), gov.And(
		gov.Forall(func(j uint64) bool {
			return gov.Imp(gov.And(gov.And(g.stored <= j, j < g.n), gov.Or(g.last == gNone, j > g.last)), !g.affects(j, g.y))
		}),
		gov.Forall(func(j uint64) bool {
			return gov.Imp(gov.And(gov.And(g.stored <= j, j < g.n), gov.And(g.last != gNone, j != g.last)), gov.At(g.pos, j) != gov.At(g.pos, g.last))
		}))),
		gov.And(g.describes(g.last), gov.Imp(g.live(), g.last >= g.q)))
}

func (g *govLog) check(when string) {
	gov.Assert("the collection queue holds the records between the collected ones and the head, in order", gov.And(gov.And(g.stored <= g.q, g.q <= g.qb), gov.And(g.qb == g.d, g.d <= g.n)))
	gov.Assert("the last record that affects a lump is still in the journal", gov.Or(g.last == gNone, gov.And(g.stored <= g.last, g.last < g.n)))
	gov.Assert("replaying the journal gives every lump what the index has", g.describes(g.last))
	gov.Assert("a record that describes the location of a lump is not collected", gov.Imp(g.live(), g.last >= g.q))
	gov.Assert("the journal and the index agree", g.inv())
}

// record i, read back from the journal
func (g *govLog) entry(i uint64) JournalEntry {
	id := lump.FromU64(0, gov.At(g.id, i))
	e := JournalEntry{Start: address.Address(gov.At(g.pos, i))}
	switch gov.At(g.kind, i) {
	case gPut:
		e.Record = PutRecord{LumpID: id, DataPortion: portion.DataPortion{Start: address.Address(gov.At(g.a, i)), Len: uint16(gov.At(g.b, i))}}
	case gEmbed:
		data := gov.BytesN("embedded", gov.At(g.a, i))
		gov.Assume(gov.Imp(i == g.last, gov.EqBytes(data, g.payload)))
		e.Record = EmbedRecord{LumpID: id, Data: data}
	case gDel:
		e.Record = DeleteRecord{LumpID: id}
	default:
		e.Record = DeleteRange{Start: id, End: lump.FromU64(0, gov.At(g.a, i))}
	}
	return e
}

// what the journal can hold: C07 accepts nothing else
func (g *govLog) valid() bool {
	return gov.Forall(func(i uint64) bool {
		k, a, b := gov.At(g.kind, i), gov.At(g.a, i), gov.At(g.b, i)
		return gov.And(gov.And(k <= gRange, gov.At(g.pos, i) < 1<<40-1<<20), gov.And(
			gov.Imp(k == gPut, gov.And(a <= address.MAX_ADDRESS, b <= 0xFFFF)), gov.Imp(k == gEmbed, a <= lump.MAX_EMBEDDED_SIZE)))
	})
}

// enqueue puts a record behind the last one.
func (g *govLog) enqueue(rec JournalRecord, newPayload bool) uint64 {
	i, p := g.n, gov.U64("position")
	gov.Assume(p < 1<<40-1<<20)
	// C09: it begins in space that no unreleased record uses
	gov.Assume(gov.Forall(func(j uint64) bool { return gov.Imp(gov.And(g.stored <= j, j < g.n), gov.At(g.pos, j) != p) }))
	g.pos[i] = p
	switch v := rec.(type) {
	case PutRecord:
		g.kind[i], g.id[i], g.a[i], g.b[i] = gPut, v.LumpID.U64(), v.DataPortion.Start.AsU64(), uint64(v.DataPortion.Len)
	case EmbedRecord:
		if v.LumpID.U64() == g.y {
			if newPayload {
				g.payload = v.Data
			}
			gov.Assert("a moved payload is the one of its lump", gov.EqBytes(v.Data, g.payload))
		}
		g.kind[i], g.id[i], g.a[i] = gEmbed, v.LumpID.U64(), uint64(len(v.Data))
	case DeleteRecord:
		g.kind[i], g.id[i] = gDel, v.LumpID.U64()
	case DeleteRange:
		g.kind[i], g.id[i], g.a[i] = gRange, v.Start.U64(), v.End.U64()
	default:
		gov.Fail("only lump records are appended")
	}
	g.n++
	g.dirty = true
	if g.affects(i, g.y) {
		g.last = i
	}
	return p
}

func (g *govLog) err() error {
	err := gov.Err("device")
	gov.Assume(err != io.EOF && err != internalerror.NoEntries)
	return err
}

// the position of record i, or of the end mark behind the last one
func (g *govLog) at(i uint64) uint64 { return gov.Ite(i < g.n, gov.At(g.pos, i), g.tail) }

var govG *govLog

// govNewLog is any journal with its index.
func govNewLog(newPayload bool) *govLog {
	const max = 1 << 40
	lumpindex.GovUseDeleteRange()
	g := &govLog{kind: gov.Slice[uint64]("kind", max), id: gov.Slice[uint64]("ids", max), pos: gov.Slice[uint64]("pos", max),
		a: gov.Slice[uint64]("a", max), b: gov.Slice[uint64]("b", max), n: gov.U64("records"), q: gov.U64("collected"), qb: gov.U64("queued"),
		d: gov.U64("headat"), stored: gov.U64("stored"), y: gov.U64("lump"), last: gov.U64("last"),
		payload: gov.Bytes("payload", lump.MAX_EMBEDDED_SIZE), dirty: gov.Bool("dirty"), ix: lumpindex.GovAnyIndex()}
	gov.Assume(g.valid() && g.n < 1<<39)
	g.jr = &JournalRegion{ring: &JournalRingBuffer{}, gcQueue: &queue.Queue{}, headerRegion: &JournalHeaderRegion{},
		syncCountDown: gov.Int("countdown"), gcAfterAppend: gov.Bool("autogc")}

	// the ring (C09)
	gov.Use("(*journal.JournalRingBuffer).Enqueue", func(r *JournalRingBuffer, rec JournalRecord) (portion.JournalPortion, error) {
		gov.Assert("the record goes to the ring of the journal", r == g.jr.ring)
		if err := gov.SomeErr("full"); gov.Bool("refused") {
			return portion.JournalPortion{}, err
		}
		p := g.enqueue(rec, newPayload)
		g.tail = gov.U64("tail")
		if e, ok := rec.(EmbedRecord); ok {
			return portion.NewJournalPortion(p+EMBEDDED_DATA_OFFSET, uint16(len(e.Data))), nil
		}
		return portion.JournalPortion{}, nil
	})
	flush := func(r *JournalRingBuffer) error {
		if err := g.err(); err != nil {
			return err
		}
		g.dirty = false
		return nil
	}
	gov.Use("(*journal.JournalRingBuffer).Flush", flush)
	gov.Use("(*journal.JournalRingBuffer).Sync", flush)
	gov.Use("(*journal.JournalRingBuffer).Capacity", func(r *JournalRingBuffer) uint64 { return gov.U64("capacity") })
	gov.Use("(*journal.JournalRingBuffer).Usage", func(r *JournalRingBuffer) uint64 { return gov.U64("usage") })
	gov.Use("(*journal.JournalRingBuffer).Tail", func(r *JournalRingBuffer) uint64 { return g.at(g.n) })
	gov.Use("(*journal.JournalRingBuffer).DoStoreUsage", func(r *JournalRingBuffer) {})
	gov.Use("(*journal.JournalRingBuffer).isEmpty", func(r *JournalRingBuffer) bool { return g.d == g.n })
	gov.Use("(*journal.JournalRingBuffer).ReleaseBytesUntil", func(r *JournalRingBuffer, head uint64) {
		gov.Assert("only space before the head stored on the device is released", g.ok)
		gov.Assert("it is released up to that head", head == g.at(g.stored))
	})
	gov.Use("(*journal.JournalHeaderRegion).WriteTo", func(h *JournalHeaderRegion, head uint64) error {
		gov.Assert("the head stored on the device is that of the ring", head == g.at(g.d))
		gov.Assert("every record before it is collected", g.q == g.d)
		gov.Assert("every record that describes a lump lies behind it", gov.Imp(g.live(), g.last >= g.d))
		gov.Assert("moved records are on the device before the old ones are released", !g.dirty)
		if err := g.err(); err != nil {
			return err
		}
		g.ok = true
		g.stored = g.d
		if g.last != gNone && g.last < g.d {
			// what is left of y was deleted before
			g.last = gNone
		}
		return nil
	})
	// the queue
	gov.Use("(*queue.Queue).Len", func(q *queue.Queue) int { return int(g.qb - g.q) })
	gov.Use("(*queue.Queue).PopFront", func(q *queue.Queue) interface{} {
		if g.q == g.qb {
			return nil
		}
		g.q++
		return g.entry(g.q - 1)
	})
	gov.Use("(*queue.Queue).PushFront", func(q *queue.Queue, v interface{}) {
		g.q--
		g.same(v.(JournalEntry), g.q)
	})
	gov.Use("(*queue.Queue).PushBack", func(q *queue.Queue, v interface{}) {
		g.same(v.(JournalEntry), g.qb)
		g.qb++
	})
	// the iterators
	gov.Use("(*journal.JournalRingBuffer).DequeueIter", func(r *JournalRingBuffer) DequeueIter {
		r.head = g.at(g.d)
		return DequeueIter{ring: r}
	})
	gov.Use("(*journal.DequeueIter).PopFront", func(it *DequeueIter) (JournalEntry, error) {
		if err := g.err(); err != nil {
			return JournalEntry{}, err
		}
		if g.d == g.n {
			return JournalEntry{}, internalerror.NoEntries
		}
		g.d++
		g.jr.ring.head = g.at(g.d)
		return g.entry(g.d - 1), nil
	})
	g.jr.ring.head = g.at(g.d)
	return g
}

// same: e is record i
func (g *govLog) same(e JournalEntry, i uint64) {
	gov.Assert("the position of the record is kept", e.Start.AsU64() == gov.At(g.pos, i))
	k, id := gov.At(g.kind, i), gov.At(g.id, i)
	switch v := e.Record.(type) {
	case PutRecord:
		gov.Assert("the record is kept", gov.And(gov.And(k == gPut, v.LumpID.U64() == id), gov.And(v.DataPortion.Start.AsU64() == gov.At(g.a, i), uint64(v.DataPortion.Len) == gov.At(g.b, i))))
	case EmbedRecord:
		gov.Assert("the record is kept", gov.And(gov.And(k == gEmbed, v.LumpID.U64() == id), gov.And(uint64(len(v.Data)) == gov.At(g.a, i), gov.Imp(i == g.last, gov.EqBytes(v.Data, g.payload)))))
	case DeleteRecord:
		gov.Assert("the record is kept", gov.And(k == gDel, v.LumpID.U64() == id))
	case DeleteRange:
		gov.Assert("the record is kept", gov.And(k == gRange, gov.And(v.Start.U64() == id, v.End.U64() == gov.At(g.a, i))))
	default:
		gov.Fail("no other record is kept")
	}
}

//gov:proves (*journal.JournalRegion).append
func GovProve_C10_append() {
	g := govNewLog(true)
	gov.Assume(g.inv())
	before := *g.ix
	n, last := g.n, g.last
	id := lump.FromU64(0, gov.U64("id"))
	var rec JournalRecord
	switch gov.Choice("record", 4) {
	case 0:
		start := gov.U64("start")
		gov.Assume(start <= address.MAX_ADDRESS)
		rec = PutRecord{LumpID: id, DataPortion: portion.NewDataPortion(start, gov.U16("len"))}
	case 1:
		rec = EmbedRecord{LumpID: id, Data: gov.Bytes("data", lump.MAX_EMBEDDED_SIZE)}
	case 2:
		rec = DeleteRecord{LumpID: id}
	case 3:
		rec = DeleteRange{Start: id, End: lump.FromU64(0, gov.U64("end"))}
	}
	err := g.jr.append(g.ix, rec)
	if err != nil {
		gov.Assert("a refused record changes nothing", gov.And(gov.And(g.n == n, g.last == last), lumpindex.GovSame(&before, g.ix, g.y)))
	} else {
		gov.Assert("exactly one record is appended", g.n == n+1)
	}
	g.check("append")
}

// govUseFill is the contract of fillGCQueue, proved by GovProve_C11_fill.
func (g *govLog) useFill() {
	gov.Use("(*journal.JournalRegion).fillGCQueue", func(jr *JournalRegion) {
		gov.Assert("the queue is filled when it is empty", g.q == g.qb)
		g.moved(false)
	})
}

// moved: the journal was changed by the garbage collection
func (g *govLog) moved(appended bool) {
	gov.Assert("the journal and the index agree before a collection", g.inv())
	if appended {
		const max = 1 << 40
		live, old := g.live(), *g.ix
		gov.Havoc(g.ix)
		g.kind, g.id, g.pos = gov.Slice[uint64]("kind'", max), gov.Slice[uint64]("ids'", max), gov.Slice[uint64]("pos'", max)
		g.a, g.b = gov.Slice[uint64]("a'", max), gov.Slice[uint64]("b'", max)
		n := g.n
		g.n, g.tail = gov.U64("records'"), gov.U64("tail'")
		g.stored, g.q, g.d, g.dirty = gov.U64("stored'"), gov.U64("collected'"), gov.U64("head'"), gov.Bool("dirty'")
		g.qb, g.last = g.d, gov.U64("last'")
		gov.Assume(gov.And(g.valid(), gov.And(g.inv(), g.n >= n && g.n < 1<<39)))
		gov.Assume(g.live() == live)
		gov.Assume(g.kept(&old))
	} else {
		g.stored, g.q, g.d, g.dirty = gov.U64("stored'"), gov.U64("collected'"), gov.U64("head'"), gov.Bool("dirty'")
		g.qb, g.last = g.d, gov.U64("last'")
		gov.Assume(g.inv())
	}
	g.jr.ring.head = g.at(g.d)
}

// kept: the index still has y, at the same place or as long as it was
func (g *govLog) kept(old *lumpindex.LumpIndex) bool {
	return gov.Pure(func() bool {
		y := lump.FromU64(0, g.y)
		p, e1 := old.Get(y)
		r, e2 := g.ix.Get(y)
		if e1 != nil || e2 != nil {
			return e1 != nil && e2 != nil
		}
		switch v := p.(type) {
		case portion.DataPortion:
			w, ok := r.(portion.DataPortion)
			return ok && v == w
		case portion.JournalPortion:
			w, ok := r.(portion.JournalPortion)
			return ok && v.Len == w.Len
		}
		return false
	})
}

// useGc is the contract of gcOnce, proved by GovProve_C11_gcOnce.
func (g *govLog) useGc() {
	gov.Use("(*journal.JournalRegion).gcOnce", func(jr *JournalRegion, ix *lumpindex.LumpIndex) error {
		gov.Assert("the journal is collected with its index", ix == g.ix)
		g.moved(true)
		return g.err()
	})
}

func (g *govLog) checkKept(when string, live bool, before *lumpindex.LumpIndex) {
	g.check(when)
	gov.Assert("collecting keeps every lump", g.live() == live)
	gov.Assert("no lump appears, disappears or changes", g.kept(before))
}

//gov:proves (*journal.JournalRegion).gcOnce; (*journal.JournalRegion).isGarbage; (*journal.JournalRegion).append
func GovProve_C11_gcOnce() {
	g := govNewLog(false)
	gov.Assume(g.inv())
	g.useFill()
	live, before := g.live(), *g.ix
	n := g.n
	gov.Invariant("(*journal.JournalRegion).gcOnce", 0, func(v gov.Vars) bool {
		return gov.And(g.inv(), gov.And(g.n == n, lumpindex.GovSame(&before, g.ix, g.y)))
	})
	err := g.jr.gcOnce(g.ix)
	g.checkKept("collection", live, &before)
	gov.Assert("one record is moved at most", gov.Or(g.n == n, gov.And(g.n == n+1, err == nil)))
}

//gov:proves (*journal.JournalRegion).fillGCQueue; (*journal.JournalRegion).writeUnusedJournalHeader
func GovProve_C11_fill() {
	g := govNewLog(false)
	gov.Assume(g.inv() && g.q == g.qb)
	before := *g.ix
	live, n := g.live(), g.n
	gov.Invariant("(*journal.JournalRegion).fillGCQueue", 0, func(v gov.Vars) bool {
		return gov.And(gov.And(g.inv(), g.live() == live), gov.And(g.n == n, gov.And(g.jr.ring.head == g.at(g.d), lumpindex.GovSame(&before, g.ix, g.y))))
	})
	if gov.Catch(func() { g.jr.fillGCQueue() }) {
		return // the device failed
	}
	g.check("filling the queue")
	gov.Assert("nothing is moved", g.n == n)
	gov.Assert("the index is untouched", lumpindex.GovSame(&before, g.ix, g.y))
	gov.Assert("the ring is at the first record that is not queued", g.jr.ring.head == g.at(g.d))
}

//gov:proves (*journal.JournalRegion).GcAllEntries; (*journal.JournalRegion).gcAllEntriesInQueue; (*journal.JournalRegion).writeUnusedJournalHeader
func GovProve_C11_gcAll() {
	g := govNewLog(false)
	gov.Assume(g.inv())
	g.useFill()
	g.useGc()
	live, before := g.live(), *g.ix
	inv := func(v gov.Vars) bool {
		return gov.And(gov.And(g.inv(), gov.And(g.live() == live, g.valid())), gov.And(g.kept(&before), gov.And(g.n < 1<<39, g.jr.ring.head == g.at(g.d))))
	}
	gov.Invariant("(*journal.JournalRegion).GcAllEntries", 0, inv)
	gov.Invariant("(*journal.JournalRegion).gcAllEntriesInQueue", 0, inv)
	if gov.Catch(func() { g.jr.GcAllEntries(g.ix) }) {
		return // the device failed
	}
	g.checkKept("collecting everything", live, &before)
}

//gov:proves (*journal.JournalRegion).RunSideJobOnce; (*journal.JournalRegion).trySync; (*journal.JournalRegion).Sync
func GovProve_C11_sideJob() {
	g := govNewLog(false)
	gov.Assume(g.inv())
	g.useFill()
	g.useGc()
	live, before := g.live(), *g.ix
	gov.Invariant("(*journal.JournalRegion).RunSideJobOnce", 0, func(v gov.Vars) bool {
		return gov.And(gov.And(g.inv(), gov.And(g.live() == live, g.valid())), gov.And(g.kept(&before), gov.And(g.n < 1<<39, g.jr.ring.head == g.at(g.d))))
	})
	if gov.Catch(func() { g.jr.RunSideJobOnce(g.ix, gov.Int("jobs")) }) {
		return // the device failed
	}
	g.checkKept("side job", live, &before)
}

// An appended record takes effect at once, and the collection after it keeps it.
//
//gov:proves (*journal.JournalRegion).RecordPut; (*journal.JournalRegion).RecordEmbed; (*journal.JournalRegion).RecordDelete; (*journal.JournalRegion).RecordDeleteRange; (*journal.JournalRegion).appendWithGC; (*journal.JournalRegion).append; (*journal.JournalRegion).trySync
func GovProve_C11_record() {
	g := govNewLog(true)
	gov.Assume(g.inv())
	g.useGc()
	live, before := g.live(), *g.ix
	payload := g.payload
	id, end := gov.U64("id"), gov.U64("end")
	lid := lump.FromU64(0, id)
	start, l := gov.U64("start"), gov.U16("len")
	gov.Assume(start <= address.MAX_ADDRESS)
	data := gov.Bytes("data", lump.MAX_EMBEDDED_SIZE+10)
	op := gov.Choice("record", 4)
	var err error
	if gov.Catch(func() {
		switch op {
		case 0:
			err = g.jr.RecordPut(g.ix, lid, portion.NewDataPortion(start, l))
		case 1:
			err = g.jr.RecordEmbed(g.ix, lid, data)
		case 2:
			err = g.jr.RecordDelete(g.ix, lid)
		case 3:
			err = g.jr.RecordDeleteRange(g.ix, lid, lump.FromU64(0, end))
		}
	}) {
		return // the device failed
	}
	g.check("record")
	if op == 1 {
		gov.Assert("a payload that is too long is refused", gov.Imp(len(data) > lump.MAX_EMBEDDED_SIZE, err != nil))
	}
	hit := gov.Ite(op == 3, gov.And(id <= g.y, g.y < end), id == g.y)
	if err != nil || !hit {
		gov.Assert("other lumps are as they were", gov.And(g.live() == live, gov.And(g.kept(&before), gov.EqBytes(g.payload, payload))))
		return
	}
	p, e := g.ix.Get(lump.FromU64(0, g.y))
	switch op {
	case 0:
		v, ok := p.(portion.DataPortion)
		gov.Assert("the index has what was recorded", ok && v.Start.AsU64() == start && v.Len == l)
	case 1:
		v, ok := p.(portion.JournalPortion)
		gov.Assert("the index has what was recorded", ok && int(v.Len) == len(data))
		gov.Assert("the payload is the one given", gov.EqBytes(g.payload, data))
	default:
		gov.Assert("what was deleted is gone", e != nil)
	}
}

//gov:proves (*journal.JournalRegion).RestoreIndex
func GovProve_C10_restore() {
	g := govNewLog(false)
	// a journal of n records and an empty index
	g.stored, g.q, g.qb, g.d = 0, 0, 0, 0
	empty := lumpindex.NewIndex()
	full := g.ix
	gov.Assume(g.inv())
	g.ix = empty
	read := uint64(0)
	gov.Use("(*journal.JournalRingBuffer).BufferedIter", func(r *JournalRingBuffer) BufferedIter { return BufferedIter{ring: r} })
	gov.Use("(journal.BufferedIter).PopFront", func(it BufferedIter) (JournalEntry, error) {
		if err := g.err(); err != nil {
			return JournalEntry{}, err
		}
		if read == g.n {
			return JournalEntry{}, internalerror.NoEntries
		}
		read++
		return g.entry(read - 1), nil
	})
	gov.Use("(journal.BufferedIter).Close", func(it BufferedIter) {})
	gov.Invariant("(*journal.JournalRegion).RestoreIndex", 0, func(v gov.Vars) bool {
		return gov.And(read <= g.n, gov.Ite(g.last == gNone, g.describes(gNone), gov.Imp(read > g.last, g.describes(g.last))))
	})
	if gov.Catch(func() { g.jr.RestoreIndex(g.ix) }) {
		return // the journal could not be read
	}
	gov.Assert("every record is applied", read == g.n)
	y := lump.FromU64(0, g.y)
	had, e1 := full.Get(y)
	has, e2 := g.ix.Get(y)
	gov.Assert("a lump is found again exactly if it was stored", (e1 == nil) == (e2 == nil))
	if e1 == nil && e2 == nil {
		gov.Assert("the rebuilt index has what the index had", had == has)
	}
}
