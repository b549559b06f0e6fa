//go:build go1.21

package journal

import (
	"hash"
	"io"

	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C07: journal records.

// govSink is a sequential byte device: what is written is appended at pos,
// what is read comes from pos, and it may fail at any access.
type govSink struct {
	data   []byte
	pos    uint64
	faulty bool
	failed bool
}

func (g *govSink) Write(p []byte) (int, error) {
	if g.faulty {
		if err := gov.Err("writer"); err != nil {
			g.failed = true
			return 0, err
		}
	}
	gov.CopyBytes(g.data, p, g.pos, 0, uint64(len(p)))
	g.pos += uint64(len(p))
	return len(p), nil
}

func (g *govSink) Read(p []byte) (int, error) {
	// a reader may return fewer bytes than asked for
	l, rest := uint64(len(p)), uint64(len(g.data))-g.pos
	if l == 0 {
		return 0, nil
	}
	if rest == 0 {
		g.failed = true
		return 0, io.EOF
	}
	n := gov.U64("read")
	gov.Assume(n > 0 && n <= l && n <= rest)
	gov.CopyBytes(p, g.data, 0, g.pos, n)
	g.pos += n
	return int(n), nil
}

// govHash is Adler-32: the running digest of everything written to it.
type govHash struct{ h uint32 }

func (g *govHash) Write(p []byte) (int, error) { g.h = gov.Digest(g.h, p); return len(p), nil }
func (g *govHash) Sum32() uint32               { return g.h }
func (g *govHash) Sum(b []byte) []byte         { gov.Fail("not used"); return nil }
func (g *govHash) Reset()                      { g.h = 1 }
func (g *govHash) Size() int                   { return 4 }
func (g *govHash) BlockSize() int              { return 4 }

// the contracts assumed of the standard library
func govUseStd() {
	gov.Use("adler32.New", func() hash.Hash32 { return &govHash{h: 1} })
	gov.Use("io.ReadFull", func(r io.Reader, buf []byte) (int, error) {
		g := r.(*govSink)
		if g.faulty {
			if err := gov.Err("reader"); err != nil {
				g.failed = true
				return 0, err
			}
		}
		l, rest := uint64(len(buf)), uint64(len(g.data))-g.pos
		if l <= rest {
			gov.CopyBytes(buf, g.data, 0, g.pos, l)
			g.pos += l
			return len(buf), nil
		}
		gov.CopyBytes(buf, g.data, 0, g.pos, rest)
		g.pos = uint64(len(g.data))
		g.failed = true
		if rest == 0 {
			return 0, io.EOF
		}
		return int(rest), io.ErrUnexpectedEOF
	})
}

// govAnyRecord is every record the journal can be asked to write.
func govAnyRecord() JournalRecord {
	id := lump.FromU64(0, gov.U64("id"))
	switch gov.Choice("record", 6) {
	case 0:
		return EndOfRecords{}
	case 1:
		return GoToFront{}
	case 2:
		start := gov.U64("start")
		gov.Assume(start <= address.MAX_ADDRESS)
		return PutRecord{LumpID: id, DataPortion: portion.NewDataPortion(start, gov.U16("len"))}
	case 3:
		return EmbedRecord{LumpID: id, Data: gov.Bytes("data", lump.MAX_EMBEDDED_SIZE)}
	case 4:
		return DeleteRecord{LumpID: id}
	}
	return DeleteRange{Start: id, End: lump.FromU64(0, gov.U64("end"))}
}

func govBE(b []byte, o, n uint64) uint64 {
	v := uint64(0)
	for i := uint64(0); i < n; i++ {
		v = v<<8 | uint64(gov.At(b, o+i))
	}
	return v
}

func govSameRecord(a, b JournalRecord) bool {
	switch x := a.(type) {
	case EndOfRecords:
		_, ok := b.(EndOfRecords)
		return ok
	case GoToFront:
		_, ok := b.(GoToFront)
		return ok
	case PutRecord:
		y, ok := b.(PutRecord)
		return ok && x.LumpID == y.LumpID && x.DataPortion == y.DataPortion
	case EmbedRecord:
		y, ok := b.(EmbedRecord)
		return ok && x.LumpID == y.LumpID && gov.EqBytes(x.Data, y.Data)
	case DeleteRecord:
		y, ok := b.(DeleteRecord)
		return ok && x.LumpID == y.LumpID
	case DeleteRange:
		y, ok := b.(DeleteRange)
		return ok && x.Start == y.Start && x.End == y.End
	}
	return false
}

//gov:proves journal.ReadRecordFrom; (journal.EndOfRecords).WriteTo; (journal.GoToFront).WriteTo; (journal.PutRecord).WriteTo; (journal.EmbedRecord).WriteTo; (journal.DeleteRecord).WriteTo; (journal.DeleteRange).WriteTo
func GovProve_C07_roundTrip() {
	govUseStd()
	rec := govAnyRecord()
	at := gov.U64("at")
	g := &govSink{data: gov.Bytes("medium", 1<<40), pos: at}
	size := uint64(rec.ExternalSize())
	gov.Assume(at <= 1<<40 && at+size <= uint64(len(g.data)))
	before := gov.Snapshot(g.data)
	err := rec.WriteTo(g)
	gov.Assert("writing succeeds", err == nil)
	gov.Assert("as many bytes as declared are written", g.pos == at+size)
	gov.Assert("nothing else is written", gov.Forall(func(x uint64) bool {
		return gov.Imp(gov.And(x < uint64(len(g.data)), gov.Or(x < at, x >= at+size)), gov.At(g.data, x) == gov.At(before, x))
	}))
	g.pos = at
	got, err := ReadRecordFrom(g)
	gov.Assert("the record is read back", err == nil)
	gov.Assert("it is the same record", govSameRecord(rec, got))
	gov.Assert("the reader is left at the end of the record", g.pos == at+size)
	gov.Assert("the record read declares the same size", uint64(got.ExternalSize()) == size)
}

// the checksum of the tag and fields found at o, for a record of size n
func govSum(d []byte, o, n uint64, parts ...uint64) uint32 {
	h := uint32(1)
	p := o
	for _, l := range parts {
		h = gov.Digest(h, d[p:p+l])
		p += l
	}
	return h
}

//gov:proves journal.ReadRecordFrom
func GovProve_C07_accept() {
	govUseStd()
	at := gov.U64("at")
	g := &govSink{data: gov.Bytes("medium", 1<<40), pos: at}
	gov.Assume(at <= uint64(len(g.data)))
	d := gov.Snapshot(g.data)
	n := uint64(len(d)) - at
	got, err := ReadRecordFrom(g)
	if err != nil {
		gov.Assert("no record is returned with an error", got == nil)
		return
	}
	gov.Assert("a truncated record is rejected", !g.failed)
	size := uint64(got.ExternalSize())
	gov.Assert("an accepted record lies inside the medium", size <= n)
	gov.Assert("the reader is left at its end", g.pos == at+size)
	stored := uint32(govBE(d, at, 4))
	tag := gov.At(d, at+4)
	switch x := got.(type) {
	case EndOfRecords:
		gov.Assert("tag", tag == 0)
		gov.Assert("the stored checksum is Adler-32 of the tag", stored == 0x00010001)
	case GoToFront:
		gov.Assert("tag", tag == 1)
		gov.Assert("the stored checksum is Adler-32 of the tag", stored == 0x00020002)
	case PutRecord:
		gov.Assert("tag", tag == 3)
		gov.Assert("id", x.LumpID.U64() == govBE(d, at+5, 8))
		gov.Assert("length", uint64(x.DataPortion.Len) == govBE(d, at+13, 2))
		gov.Assert("start", x.DataPortion.Start.AsU64() == govBE(d, at+15, 5))
		gov.Assert("the stored checksum is that of the tag and the fields", stored == govSum(d, at+4, n, 1, 8, 7))
	case EmbedRecord:
		gov.Assert("tag", tag == 4)
		gov.Assert("id", x.LumpID.U64() == govBE(d, at+5, 8))
		gov.Assert("length", uint64(len(x.Data)) == govBE(d, at+13, 2))
		gov.Assert("payload", gov.SameBytes(x.Data, 0, d, at+15, uint64(len(x.Data))))
		gov.Assert("the stored checksum is that of the tag and the fields", stored == govSum(d, at+4, n, 1, 8, 2, uint64(len(x.Data))))
	case DeleteRecord:
		gov.Assert("tag", tag == 5)
		gov.Assert("id", x.LumpID.U64() == govBE(d, at+5, 8))
		gov.Assert("the stored checksum is that of the tag and the fields", stored == govSum(d, at+4, n, 1, 8))
	case DeleteRange:
		gov.Assert("tag", tag == 6)
		gov.Assert("start", x.Start.U64() == govBE(d, at+5, 8))
		gov.Assert("end", x.End.U64() == govBE(d, at+13, 8))
		gov.Assert("the stored checksum is that of the tag and the fields", stored == govSum(d, at+4, n, 1, 8, 8))
	default:
		gov.Fail("no other record is accepted")
	}
}

// A record that could not be written or read completely is reported.
//
//gov:proves journal.ReadRecordFrom; (journal.EndOfRecords).WriteTo; (journal.GoToFront).WriteTo; (journal.PutRecord).WriteTo; (journal.EmbedRecord).WriteTo; (journal.DeleteRecord).WriteTo; (journal.DeleteRange).WriteTo
func GovProve_C07_faults() {
	govUseStd()
	g := &govSink{data: gov.Bytes("medium", 1<<40), faulty: true}
	if gov.Choice("op", 2) == 0 {
		rec := govAnyRecord()
		gov.Assume(uint64(rec.ExternalSize()) <= uint64(len(g.data)))
		err := rec.WriteTo(g)
		gov.Assert("a failed write is reported", (err != nil) == g.failed)
		return
	}
	rec, err := ReadRecordFrom(g)
	gov.Assert("a failed read is reported", gov.Imp(g.failed, err != nil))
	gov.Assert("with no record", gov.Iff(err != nil, rec == nil))
	gov.Assert("any other refusal says the journal is corrupted", gov.Or(err == nil, gov.Or(g.failed, gov.ErrIs(err, internalerror.StorageCorrupted))))
}
