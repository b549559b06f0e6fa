//go:build go1.21

package journal

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/adler32"
	"math/rand"
	"reflect"
	"testing"

	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/zzgw"
)

// gwFaulty fails the n-th access from now on (n<0: never), once or for good.
type gwFaulty struct {
	nvm.NonVolatileMemory
	in      int
	forGood bool
	hit     bool
	writes  int
}

var gwErr = errors.New("injected device error")

func (f *gwFaulty) fail() bool {
	if f.in < 0 {
		return false
	}
	if f.in == 0 {
		f.hit = true
		if !f.forGood {
			f.in = -1
		}
		return true
	}
	f.in--
	return false
}
func (f *gwFaulty) Seek(o int64, w int) (int64, error) {
	if f.fail() {
		return -1, gwErr
	}
	return f.NonVolatileMemory.Seek(o, w)
}
func (f *gwFaulty) Read(b []byte) (int, error) {
	if f.fail() {
		return -1, gwErr
	}
	return f.NonVolatileMemory.Read(b)
}
func (f *gwFaulty) Write(b []byte) (int, error) {
	if f.fail() {
		return -1, gwErr
	}
	f.writes++
	return f.NonVolatileMemory.Write(b)
}
func (f *gwFaulty) Sync() error {
	if f.fail() {
		return gwErr
	}
	return f.NonVolatileMemory.Sync()
}

func gwU64(r *rand.Rand) uint64 {
	switch r.Intn(3) {
	case 0:
		return r.Uint64()
	case 1:
		return r.Uint64() >> uint(r.Intn(64))
	}
	return ^uint64(0) - uint64(r.Intn(3))
}

func gwRecord(r *rand.Rand, maxData int) JournalRecord {
	id := lump.FromU64(0, gwU64(r))
	switch r.Intn(5) {
	case 0:
		return PutRecord{LumpID: id, DataPortion: portion.NewDataPortion(gwU64(r)&(1<<40-1), uint16(gwU64(r)))}
	case 1, 2:
		d := make([]byte, r.Intn(maxData+1))
		r.Read(d)
		return EmbedRecord{LumpID: id, Data: d}
	case 3:
		return DeleteRecord{LumpID: id}
	}
	return DeleteRange{Start: id, End: lump.FromU64(0, gwU64(r))}
}

func gwRead(b []byte) (rec JournalRecord, rest int, err error, panicked interface{}) {
	rd := bytes.NewReader(b)
	defer func() {
		if p := recover(); p != nil {
			panicked = p
		}
	}()
	rec, err = ReadRecordFrom(rd)
	return rec, rd.Len(), err, nil
}

type gwBadWriter struct {
	n   int
	bad bool
}

func (w *gwBadWriter) Write(p []byte) (int, error) {
	if w.n == 0 {
		w.bad = true
		w.n = -1
		return 0, gwErr
	}
	w.n--
	return len(p), nil
}

func TestGov_C07_records(t *testing.T) {
	zzgw.Loop(t, 200, 200000, func(i int, r *rand.Rand) {
		var rec JournalRecord
		switch {
		case i == 0:
			rec = EndOfRecords{}
		case i == 1:
			rec = GoToFront{}
		case i == 2:
			rec = EmbedRecord{LumpID: lump.FromU64(0, 7), Data: bytes.Repeat([]byte{0xab}, lump.MAX_EMBEDDED_SIZE)}
		case i%50 == 3:
			rec = gwRecord(r, lump.MAX_EMBEDDED_SIZE)
		default:
			rec = gwRecord(r, 40)
		}
		var w bytes.Buffer
		if err := rec.WriteTo(&w); err != nil {
			t.Fatalf("GOVFAIL writing %#v: %v", rec, err)
		}
		raw := append([]byte(nil), w.Bytes()...)
		if uint32(len(raw)) != rec.ExternalSize() {
			t.Fatalf("GOVFAIL %.200v: %d bytes written, %d declared", rec, len(raw), rec.ExternalSize())
		}
		tail := make([]byte, r.Intn(20))
		r.Read(tail)
		got, rest, err, pan := gwRead(append(append([]byte(nil), raw...), tail...))
		if pan != nil || err != nil {
			t.Fatalf("GOVFAIL %.200v is not read back: %v %v", rec, err, pan)
		}
		if e, ok := got.(EmbedRecord); ok && len(e.Data) == 0 {
			e.Data = []byte{}
			got = e
		}
		if !reflect.DeepEqual(got, rec) {
			t.Fatalf("GOVFAIL %.200v is read back as %.200v", rec, got)
		}
		if rest != len(tail) {
			t.Fatalf("GOVFAIL %.200v: the reader is left %d bytes before the end of the record", rec, rest-len(tail))
		}
		if adler32.Checksum(raw[4:]) != binary.BigEndian.Uint32(raw) {
			t.Fatalf("GOVFAIL %.200v is accepted with checksum %#x, that of its bytes is %#x", rec, raw[:4], adler32.Checksum(raw[4:]))
		}
		// altered bytes
		for k := 0; k < 30; k++ {
			bad := append([]byte(nil), raw...)
			p := r.Intn(len(bad))
			if k < len(bad) && k < 24 {
				p = k
			}
			if r.Intn(2) == 0 {
				bad[p] ^= 1 << uint(r.Intn(8))
			} else {
				bad[p] = byte(r.Intn(256))
			}
			if k == 29 {
				bad[4] = byte([]int{2, 7, 0xff, 9}[r.Intn(4)])
			}
			if bytes.Equal(bad, raw) {
				continue
			}
			all := append(append([]byte(nil), bad...), tail...)
			got, rest, err, pan := gwRead(all)
			if pan != nil {
				t.Fatalf("GOVFAIL %.200v with byte %d changed from %#x to %#x: panic %v", rec, p, raw[p], bad[p], pan)
			}
			if err == nil {
				n := len(all) - rest
				if got == nil || n < 5 || adler32.Checksum(all[4:n]) != binary.BigEndian.Uint32(all) {
					t.Fatalf("GOVFAIL %.200v with byte %d changed from %#x to %#x is accepted as %.200v", rec, p, raw[p], bad[p], got)
				}
			} else if got != nil {
				t.Fatalf("GOVFAIL a rejected record is returned")
			}
		}
		// truncated
		for k := 0; k < 4; k++ {
			n := r.Intn(len(raw))
			if _, _, err, pan := gwRead(raw[:n]); err == nil || pan != nil {
				t.Fatalf("GOVFAIL %.200v cut to %d of %d bytes is accepted (%v)", rec, n, len(raw), pan)
			}
		}
		// a writer that fails once
		bw := &gwBadWriter{n: r.Intn(6)}
		if err := rec.WriteTo(bw); (err != nil) != bw.bad {
			t.Fatalf("GOVFAIL %.200v: a failed write is reported as %v", rec, err)
		}
	})
}

func TestGov_C08_flat(t *testing.T) {
	zzgw.Loop(t, 100, 100000, func(i int, r *rand.Rand) {
		size := 512 * (1 + r.Intn(12))
		if r.Intn(4) == 0 {
			size = 512 * (1 + r.Intn(200))
		}
		vec := make([]byte, size)
		r.Read(vec)
		flat := append([]byte(nil), vec...)
		mem, _ := nvm.NewFromVec(vec)
		dev := &gwFaulty{NonVolatileMemory: mem, in: -1}
		jb := NewJournalNvmBuffer(dev)
		pos := 0
		var hist []string
		fail := func(f string, a ...interface{}) {
			t.Fatalf("GOVFAIL size %d case %d: %s\nhistory: %v", size, i, fmt.Sprintf(f, a...), hist)
		}
		for k := 0; k < 60; k++ {
			dev.in, dev.hit = -1, false
			if i%3 == 1 && r.Intn(4) == 0 {
				dev.in, dev.forGood = r.Intn(5), r.Intn(2) == 0
			}
			n := r.Intn(700)
			switch r.Intn(3) {
			case 0:
				n = r.Intn(30)
			case 1:
				n = r.Intn(3000)
			}
			switch op := r.Intn(8); op {
			case 0, 1:
				pos = r.Intn(size + 1)
				if r.Intn(3) == 0 {
					pos = pos / 512 * 512
				}
				hist = append(hist, fmt.Sprintf("seek %d", pos))
				whence, off := r.Intn(3), int64(pos)
				switch whence {
				case 1:
					off -= int64(jb.Position())
				case 2:
					off -= int64(size)
				}
				if p, err := jb.Seek(off, whence); err != nil || p != int64(pos) {
					fail("seek from %d: %v", whence, err)
				}
				if r.Intn(6) == 0 {
					if _, err := jb.Seek(int64(r.Intn(size)), 3+r.Intn(3)); err == nil {
						fail("a seek from nowhere is accepted")
					}
				}
			case 2, 3, 4:
				b := make([]byte, n)
				r.Read(b)
				hist = append(hist, fmt.Sprintf("write %d at %d", n, pos))
				w := dev.writes
				m, err := jb.Write(b)
				if pos+n > size {
					if err == nil {
						fail("a write past the end is accepted")
					}
					if dev.writes != w {
						fail("a refused write writes to the device")
					}
				} else if err != nil {
					if !dev.hit {
						fail("write: %v", err)
					}
				} else {
					if m != n {
						fail("short write %d of %d", m, n)
					}
					copy(flat[pos:], b)
					pos += n
				}
			case 5, 6:
				b := make([]byte, n)
				hist = append(hist, fmt.Sprintf("read %d at %d", n, pos))
				m, err := jb.Read(b)
				if err != nil {
					if !dev.hit {
						fail("read: %v", err)
					}
					break
				}
				want := n
				if pos+n > size {
					want = size - pos
				}
				if m != want {
					fail("read %d instead of %d bytes", m, want)
				}
				if !bytes.Equal(b[:m], flat[pos:pos+m]) {
					fail("read returns other bytes than were written")
				}
				pos += m
			case 7:
				flush := jb.Flush
				if r.Intn(3) == 0 {
					flush = jb.Sync
				}
				hist = append(hist, "flush or sync")
				err := flush()
				if err == nil && dev.hit {
					fail("a flush reports success although the device failed")
				}
				if err != nil && !dev.hit {
					fail("flush: %v", err)
				}
				if err == nil && !bytes.Equal(mem.AsBytes(), flat) {
					fail("after a flush the device differs from the array")
				}
			}
			if jb.Position() != uint64(pos) {
				fail("position %d instead of %d", jb.Position(), pos)
			}
		}
		dev.in = -1
		if err := jb.Flush(); err != nil || !bytes.Equal(mem.AsBytes(), flat) {
			fail("finally the device differs from the array (%v)", err)
		}
	})
}

type gwEntry struct {
	start uint64
	rec   JournalRecord
}

func gwSame(a, b JournalRecord) bool {
	x, ok1 := a.(EmbedRecord)
	y, ok2 := b.(EmbedRecord)
	if ok1 && ok2 {
		return x.LumpID == y.LumpID && bytes.Equal(x.Data, y.Data)
	}
	return reflect.DeepEqual(a, b)
}

// gwReplay reads the journal from head to its end without changing it.
func gwReplay(ring *JournalRingBuffer) (es []gwEntry, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	it := ring.ReadIter()
	for n := 0; n < 100000; n++ {
		e, err := it.PopFront()
		if err == internalerror.NoEntries {
			return es, nil
		}
		if err != nil {
			return nil, err
		}
		es = append(es, gwEntry{e.Start.AsU64(), e.Record})
	}
	return nil, errors.New("endless journal")
}

func gwRing(t *testing.T, i int, r *rand.Rand, faults bool) {
	size := 512 * (1 + r.Intn(10))
	vec := make([]byte, size)
	if r.Intn(2) == 0 {
		r.Read(vec)
	}
	mem, _ := nvm.NewFromVec(vec)
	dev := &gwFaulty{NonVolatileMemory: mem, in: -1}
	head := uint64(0)
	if r.Intn(2) == 0 {
		head = uint64(r.Intn(size - 5))
	}
	jb := NewJournalNvmBuffer(dev)
	jb.Seek(int64(head), 0)
	EndOfRecords{}.WriteTo(jb)
	ring := NewJournalRingBuffer(jb, head)
	var model []gwEntry // the unreleased records
	var hist []string
	fail := func(f string, a ...interface{}) {
		t.Fatalf("GOVFAIL ring of %d bytes, head %d, case %d: %s\nhistory: %v", size, head, i, fmt.Sprintf(f, a...), hist)
	}
	check := func(ring *JournalRingBuffer, what string) {
		es, err := gwReplay(ring)
		if err != nil {
			fail("%s: the journal can not be read: %v", what, err)
		}
		if len(es) != len(model) {
			fail("%s: %d unreleased records are read, not %d", what, len(es), len(model))
		}
		for k := range es {
			if !gwSame(es[k].rec, model[k].rec) || es[k].start != model[k].start {
				fail("%s: unreleased record %d changed: %.100v at %d instead of %.100v at %d", what, k, es[k].rec, es[k].start, model[k].rec, model[k].start)
			}
		}
	}
	maxd := []int{30, 300, 2000}[r.Intn(3)]
	deq := 0 // how many of them have been dequeued, but not released
	for k := 0; k < 80; k++ {
		dev.in, dev.hit = -1, false
		switch r.Intn(8) {
		default:
			rec := gwRecord(r, maxd)
			if faults && r.Intn(3) == 0 {
				dev.in, dev.forGood = r.Intn(8), r.Intn(2) == 0
			}
			before := *ring
			hist = append(hist, fmt.Sprintf("enqueue %T of %d bytes at %d", rec, rec.ExternalSize(), ring.tail))
			p, err := ring.Enqueue(rec)
			dev.in = -1
			if err != nil {
				if err != internalerror.JournalStorageFull && !dev.hit {
					fail("enqueue: %v", err)
				}
				after := *ring
				if after.head != before.head || after.tail != before.tail || after.unreleasedHead != before.unreleasedHead || after.usage != before.usage {
					fail("a failed append (%v) changed the ring from %d/%d/%d to %d/%d/%d", err, before.unreleasedHead, before.head, before.tail, after.unreleasedHead, after.head, after.tail)
				}
				if err == internalerror.JournalStorageFull {
					// there must not have been room, neither behind the tail nor at the front
					need := uint64(rec.ExternalSize()) + 5
					h, tl := before.unreleasedHead, before.tail
					room := false
					blk := (tl + need + 511) / 512 * 512
					if h > tl {
						room = blk <= h
					} else {
						room = tl+need <= uint64(size) || (need+511)/512*512 <= h
					}
					if room && len(model) == 0 {
						room = true
					}
					if room {
						fail("full although %d bytes fit: head %d tail %d", need, h, tl)
					}
				}
				hist = append(hist, "-> "+err.Error())
			} else {
				start := before.tail
				if uint64(rec.ExternalSize())+5+before.tail > uint64(size) {
					start = 0
				}
				model = append(model, gwEntry{start, rec})
				if e, ok := rec.(EmbedRecord); ok {
					if p.Start.AsU64() != start+EMBEDDED_DATA_OFFSET || int(p.Len) != len(e.Data) {
						fail("payload reported at %d+%d", p.Start.AsU64(), p.Len)
					}
				} else if p.Start != 0 || p.Len != 0 {
					fail("a position is reported for %T", rec)
				}
				if ring.tail != start+uint64(rec.ExternalSize()) {
					fail("tail %d after a record at %d of %d bytes", ring.tail, start, rec.ExternalSize())
				}
			}
		case 0: // release some of the oldest records
			n := r.Intn(len(model) + 1)
			if r.Intn(3) == 0 {
				n = len(model)
			}
			if r.Intn(2) == 0 {
				n = deq
			}
			if n == 0 {
				continue
			}
			hist = append(hist, fmt.Sprintf("release %d of %d", n, len(model)))
			var h uint64
			if n == deq {
				h = ring.head
			} else if n == len(model) {
				h = ring.tail
			} else {
				h = model[n].start
			}
			if n > deq {
				ring.head = h
			}
			ring.ReleaseBytesUntil(h)
			model = append([]gwEntry(nil), model[n:]...)
			if deq -= n; deq < 0 {
				deq = 0
			}
		case 2: // take some of the oldest records for collection; their space stays theirs until the release
			n := r.Intn(len(model) + 2)
			hist = append(hist, fmt.Sprintf("dequeue %d of %d", n, len(model)-deq))
			if err := ring.Flush(); err != nil {
				fail("flush: %v", err)
			}
			it := ring.DequeueIter()
			for ; n > 0; n-- {
				e, err := it.PopFront()
				if err == internalerror.NoEntries && deq == len(model) {
					break
				}
				if err != nil || deq == len(model) {
					fail("dequeue: %v, %d records are left", err, len(model)-deq)
				}
				if e.Start.AsU64() != model[deq].start || !gwSame(e.Record, model[deq].rec) {
					fail("dequeued %.100v at %d instead of %.100v at %d", e.Record, e.Start, model[deq].rec, model[deq].start)
				}
				deq++
				if ring.head != model[deq-1].start+uint64(model[deq-1].rec.ExternalSize()) {
					fail("head %d after the record at %d of %d bytes is dequeued", ring.head, model[deq-1].start, model[deq-1].rec.ExternalSize())
				}
			}
		case 1:
			hist = append(hist, "flush")
			if err := ring.Flush(); err != nil {
				fail("flush: %v", err)
			}
			// the device alone holds the journal now
			j2 := NewJournalNvmBuffer(mem)
			r2 := NewJournalRingBuffer(j2, ring.unreleasedHead)
			check(r2, "on the device")
		}
		check(ring, "after the operation")
		var used uint64
		if ring.tail >= ring.unreleasedHead {
			used = ring.tail - ring.unreleasedHead
		} else {
			used = ring.tail + uint64(size) - ring.unreleasedHead
		}
		if len(hist) > 0 && ring.usage != 0 && ring.Usage() != used {
			fail("usage %d instead of %d", ring.Usage(), used)
		}
		for _, e := range model {
			if x, ok := e.rec.(EmbedRecord); ok {
				b := make([]byte, len(x.Data))
				if err := ring.ReadEmbededBuffer(e.start+EMBEDDED_DATA_OFFSET, b); err != nil || !bytes.Equal(b, x.Data) {
					fail("embedded payload at %d is not read back (%v)", e.start, err)
				}
			}
		}
	}
}

func TestGov_C09_ring(t *testing.T) {
	zzgw.Loop(t, 100, 100000, func(i int, r *rand.Rand) { gwRing(t, i, r, false) })
}

func TestGov_C17_ringFaults(t *testing.T) {
	zzgw.Loop(t, 100, 100000, func(i int, r *rand.Rand) { gwRing(t, i, r, true) })
}
