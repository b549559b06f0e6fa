//go:build go1.21

package nvm

import (
	"io"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/util"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C14: writes while there is a snapshot.
//
// then is what the device held when the snapshot was taken, of which raw
// bytes existed; x is any of them. What the snapshot shows at x is in the
// snapshot if its region was saved, and on the device otherwise.
type govTaken struct {
	*govSnap
	raw  *SnapNVM // the device
	self *SnapNVM // the view used
	then []byte
	x    uint64
}

func (t *govTaken) region() uint64 { return t.x / t.r }

func (t *govTaken) shown() bool {
	bf := t.bf
	return gov.Ite(gov.Has(&bf.tree, t.region()),
		gov.At(t.k.data, bf.dataStart+gov.Val(&bf.tree, t.region())*t.r+t.x%t.r) == gov.At(t.then, t.x),
		gov.At(t.d.data, t.x) == gov.At(t.then, t.x))
}

func govAnyTaken(shift uint16) *govTaken {
	t := &govTaken{govSnap: govSnapOf(shift), then: gov.BytesN("taken", govDiskMax), x: gov.U64("byte")}
	d := t.d
	file := govAnyView(d)
	file.viewStart, file.splited = 0, false
	c := file.viewEnd
	gov.Assume(gov.And(c&511 == 0, file.cursor_position&511 == 0))
	// regions are counted with 32 bits
	gov.Assume(c < 1<<50)
	gov.Assume(gov.And(t.x < t.bf.rawCapacity, gov.And(t.x < c, t.bf.rawCapacity <= d.size)))
	t.raw = &SnapNVM{originFile: file}
	t.raw.rawSnapNVM = t.raw
	t.raw.ab = block.NewAlignedBytes(int(t.r), block.Min())
	gov.HavocBytes(t.raw.ab.AsBytes())
	t.raw.myBackfile = t.bf
	t.self = t.raw
	if gov.Choice("split", 2) == 1 {
		v := govAnyView(d)
		v.splited = true
		gov.Assume(gov.And(v.viewEnd <= c, gov.And(v.viewStart&511 == 0, gov.And(v.viewEnd&511 == 0, v.cursor_position&511 == 0))))
		t.self = &SnapNVM{originFile: v, rawSnapNVM: t.raw, splited: true}
	}
	gov.Assume(t.shown())
	gov.Lock(&t.raw.mu, "snapshot", 1)
	gov.Lock(&t.bf.RWMutex, "snapshot file", 2)
	return t
}

// the contracts of the snapshot file (C14_save, C14_copyOffset)
func (t *govTaken) useFile() {
	bf := t.bf
	gov.Use("(*nvm.BackingFile).WriteOffset", func(b *BackingFile, buf []byte, off uint32) error {
		gov.Assert("the snapshot of the device is used", b == bf)
		gov.Assert("a whole region is saved", uint64(len(buf)) == t.r)
		gov.Assert("once", !gov.Has(&bf.tree, uint64(off)))
		gov.Assert("while nothing is written", gov.Held(&t.raw.mu) == 2)
		was := gov.Snapshot(t.k.data)
		saved := gov.Has(&bf.tree, t.region())
		n := gov.Val(&bf.tree, t.region())
		gov.HavocBytes(t.k.data)
		gov.Assume(gov.Imp(saved, gov.SameBytes(t.k.data, bf.dataStart+n*t.r, was, bf.dataStart+n*t.r, t.r)))
		if err := gov.Err("save"); err != nil {
			t.k.failed = true
			return err
		}
		to := gov.U64("saved at")
		gov.Assume(to < 1<<32 && gov.Imp(saved, to != n))
		bf.tree.Insert(uint64(off), to)
		gov.Assume(gov.SameBytes(t.k.data, bf.dataStart+to*t.r, buf, 0, t.r))
		return nil
	})
	gov.Use("(*nvm.BackingFile).GetCopyOffset", func(b *BackingFile, start, end uint64) ([]uint32, []uint32) {
		gov.Assert("the snapshot of the device is asked", b == bf)
		no := gov.U64("to save")
		gov.Assume(no < 1<<32)
		o := gov.Slice[uint32]("to save", no)
		n0, n1 := start/t.r, (end-1)/t.r
		at := func(j uint64) uint64 { return uint64(gov.At(o, j)) }
		in := func(x uint64) bool { return gov.And(start < end, gov.And(n0 <= x, x <= n1)) }
		gov.Assume(gov.Forall(func(j uint64) bool { return gov.Imp(j < no, gov.And(in(at(j)), !gov.Has(&bf.tree, at(j)))) }))
		q := t.region()
		gov.Assume(gov.Imp(gov.And(in(q), !gov.Has(&bf.tree, q)), gov.Exists(func(j uint64) bool { return gov.And(j < no, at(j) == q) })))
		gov.Assume(gov.Forall2(func(a, b uint64) bool { return gov.Imp(gov.And(a < b, b < no), at(a) < at(b)) }))
		return nil, o
	})
}

// govUseViews: reads and writes of views of d by their contracts (C13, C14_readFull)
func govUseViews(d *govDisk) {
	gov.Use("util.ReadFull", func(r io.ReaderAt, buf []byte, from int64) (int, error) {
		return d.readFull(r.(*FileNVM), buf, from)
	})
	gov.Use("(*nvm.FileNVM).RawSize", func(v *FileNVM) int64 { return int64(d.size) })
	write := func(v *FileNVM, buf []byte, p uint64, at bool) (int, error) {
		c, L := v.Capacity(), uint64(len(buf))
		if gov.Or(gov.Or(p > c, !govAligned512(L)), gov.And(at, !govAligned512(p))) {
			return -1, internalerror.InvalidInput
		}
		s, want := v.viewStart+p, gov.Ite(L < c-p, L, c-p)
		if d.onWrite != nil {
			d.onWrite(s, want)
		}
		err := d.fail()
		n := want
		if err != nil {
			n = gov.U64("written")
			gov.Assume(n <= want)
		}
		gov.CopyBytes(d.data, buf, s, 0, n)
		d.size = gov.Ite(gov.And(n > 0, s+n > d.size), s+n, d.size)
		if err != nil {
			return -1, err
		}
		v.cursor_position += gov.Ite(at, 0, want)
		return int(want), nil
	}
	gov.Use("(*nvm.FileNVM).Write", func(v *FileNVM, buf []byte) (int, error) { return write(v, buf, v.Position(), false) })
	gov.Use("(*nvm.FileNVM).WriteAt", func(v *FileNVM, buf []byte, off int64) (int, error) { return write(v, buf, uint64(off), true) })
}

// readFull: all there is in the view and in the file is read.
func (d *govDisk) readFull(v *FileNVM, buf []byte, from int64) (int, error) {
	c, p, L := v.Capacity(), uint64(from), uint64(len(buf))
	gov.Assert("what is read is aligned, and begins inside of the view", gov.And(gov.And(govAligned512(p), p < c), gov.And(L > 0, govAligned512(L))))
	gov.HavocBytes(buf)
	if err := d.fail(); err != nil {
		n := gov.Int("read")
		gov.Assume(n < len(buf))
		return n, err
	}
	s := v.viewStart + p
	have := gov.Ite(s < d.size, d.size-s, 0)
	have = gov.Ite(have < c-p, have, c-p)
	n := gov.Ite(have < L, have, L)
	gov.Assume(gov.SameBytes(buf, 0, d.data, s, n))
	if n == L {
		return int(n), nil
	}
	if n == 0 {
		return 0, io.EOF
	}
	return int(n), io.ErrUnexpectedEOF
}

//gov:proves util.ReadFull; (*nvm.FileNVM).ReadAt
func GovProve_C14_readFull() {
	d := govAnyDisk(gov.Choice("faulty", 2) == 1)
	v := govAnyView(d)
	d.only(v.viewStart, v.viewEnd)
	before := *v
	buf := gov.Bytes("buffer", 1<<40)
	off := gov.I64("offset")
	c, p, L := v.Capacity(), uint64(off), uint64(len(buf))
	gov.Assume(gov.And(govAligned512(c), gov.And(gov.And(govAligned512(p), p < c), gov.And(L > 0, govAligned512(L)))))
	disk, size := gov.Snapshot(d.data), d.size
	n, err := util.ReadFull(v, buf, off)
	gov.Assert("reading changes nothing", gov.And(*v == before, gov.And(d.size == size, gov.SameBytes(d.data, 0, disk, 0, govDiskMax))))
	s := v.viewStart + p
	have := gov.Ite(s < d.size, d.size-s, 0)
	have = gov.Ite(have < c-p, have, c-p)
	want := gov.Ite(have < L, have, L)
	if d.err != nil {
		gov.Assert("a failure is reported", err != nil && n < len(buf) && err != io.EOF && err != io.ErrUnexpectedEOF)
		return
	}
	gov.Assert("all there is is read", n >= 0 && uint64(n) == want)
	gov.Assert("as it is", gov.SameBytes(buf, 0, d.data, s, want))
	gov.Assert("less than asked for is told", gov.And((err == nil) == (want == L), gov.And(gov.Imp(err == io.EOF, want == 0), gov.Imp(err != nil, err == io.EOF || err == io.ErrUnexpectedEOF))))
}

func (t *govTaken) loops(disk []byte, size uint64) {
	bf, before := t.bf, *t.self.originFile
	raw := *t.raw.originFile
	had := gov.Has(&bf.tree, t.region())
	inv := func(v gov.Vars) bool {
		i, o := uint64(v.Int("i")), v.Any("onOrigin").([]uint32)
		no := uint64(len(o))
		return gov.And(gov.And(gov.And(gov.And(i <= no, gov.Imp(had, gov.Has(&bf.tree, t.region()))), t.shown()), gov.And(t.d.size == size, gov.SameBytes(t.d.data, 0, disk, 0, govDiskMax))), gov.And(gov.And(
			gov.And(*t.self.originFile == before, *t.raw.originFile == raw),
			gov.Forall(func(j uint64) bool { return gov.Imp(j < i, gov.Has(&bf.tree, uint64(gov.At(o, j)))) })),
			gov.Forall(func(j uint64) bool { return gov.Imp(gov.And(i <= j, j < no), !gov.Has(&bf.tree, uint64(gov.At(o, j)))) })))
	}
	gov.Invariant("(*nvm.SnapNVM).Write", 0, inv)
	gov.Invariant("(*nvm.SnapNVM).WriteAt", 0, inv)
}

func (t *govTaken) write(at bool) {
	d, v := t.d, t.self.originFile
	t.useFile()
	govUseViews(d)
	before, raw := *v, *t.raw.originFile
	disk := gov.Snapshot(d.data)
	size := d.size
	t.loops(disk, size)
	c := v.Capacity()
	buf := gov.Bytes("buffer", 1<<32)
	old := gov.Snapshot(buf)
	L := uint64(len(buf))
	wrote := false
	d.onWrite = func(off, n uint64) {
		gov.Assert("the device is written while nobody reads it", gov.Held(&t.raw.mu) == 2)
		gov.Assert("old data is saved before the new bytes reach the device", gov.And(t.shown(), gov.Imp(gov.And(off <= t.x, t.x < off+n), gov.Has(&t.bf.tree, t.region()))))
		wrote = true
	}
	p := before.cursor_position - before.viewStart
	var n int
	var err error
	if at {
		off := gov.I64("offset")
		p = uint64(off)
		n, err = t.self.WriteAt(buf, off)
	} else {
		n, err = t.self.Write(buf)
	}
	gov.Assert("all locks are released", gov.HeldCount() == 0)
	gov.Assert("the snapshot shows what was there when it was taken", t.shown())
	gov.Assert("the buffer is not changed", gov.EqBytes(buf, old))
	if t.self != t.raw {
		gov.Assert("other views stay", *t.raw.originFile == raw)
	}
	y := gov.U64("any byte")
	gov.Assume(y < govDiskMax)
	if err != nil {
		gov.Assert("a failed write leaves the view as it is", *v == before)
		gov.Assert("only a failure of a file, or a misaligned position or length, or one outside of the view, is refused",
			gov.Or(gov.Or(d.err != nil, t.k.failed), gov.Or(gov.Or(p > c, gov.And(at, !govAligned512(p))), !govAligned512(L))))
		gov.Assert("a write refused, or whose old data can not be saved, writes nothing", gov.Or(wrote, gov.And(gov.SameBytes(d.data, 0, disk, 0, govDiskMax), d.size == size)))
		return
	}
	gov.Assert("a position outside of the view is refused", p <= c)
	gov.Assert("a misaligned position or length is refused", gov.And(gov.Or(!at, govAligned512(p)), govAligned512(L)))
	want := gov.Ite(L < c-p, L, c-p)
	gov.Assert("as much is written as fits into the view", n >= 0 && uint64(n) == want)
	s := before.viewStart + p
	gov.Assert("exactly the bytes addressed are written", gov.Ite(gov.And(s <= y, y < s+want), gov.At(d.data, y) == gov.At(buf, y-s), gov.At(d.data, y) == gov.At(disk, y)))
	gov.Assert("the cursor moves behind what was written", v.cursor_position == before.cursor_position+gov.Ite(at, 0, want))
}

//gov:proves (*nvm.SnapNVM).Write; (*nvm.SnapNVM).Lock; (*nvm.SnapNVM).Unlock
func GovProve_C14_write() {
	govAnyTaken(25).write(false)
}

//gov:proves (*nvm.SnapNVM).WriteAt
func GovProve_C14_writeAt() {
	govAnyTaken(25).write(true)
}

// govReader is any reader of the snapshot, at any position pos, with what it
// has buffered.
func (t *govTaken) reader() *SnapshotReader {
	bf := t.bf
	r := &SnapshotReader{snap: t.raw, offset: gov.U64("reader offset"), waterHighMark: gov.Int("high"), waterLowMark: gov.Int("low")}
	r.buf = block.NewAlignedBytes(int(t.r), block.Min())
	gov.HavocBytes(r.buf.AsBytes())
	gov.Assume(gov.And(r.offset <= bf.rawCapacity, gov.And(r.waterLowMark >= 0, gov.And(r.waterLowMark <= r.waterHighMark, r.waterHighMark <= int(t.r)))))
	gov.Assume(t.readerOK(r))
	return r
}

// the bytes buffered are the ones before offset, from the start of its region
func (t *govTaken) readerOK(r *SnapshotReader) bool {
	high, low := uint64(r.waterHighMark), uint64(r.waterLowMark)
	b := r.buf.AsBytes()
	from := r.offset - high
	return gov.And(gov.And(r.offset <= t.bf.rawCapacity, gov.And(low <= high, high <= t.r)), gov.Imp(low < high, gov.And(gov.And(high <= r.offset, from%t.r == 0), gov.And(high <= uint64(len(b)),
		gov.Imp(gov.And(from <= t.x, t.x < r.offset), gov.At(b, t.x-from) == gov.At(t.then, t.x))))))
}

func govReaderAt(r *SnapshotReader) uint64 { return r.offset - uint64(r.waterHighMark-r.waterLowMark) }

func (t *govTaken) useReads() {
	bf, d := t.bf, t.d
	govUseViews(d)
	gov.Use("(*nvm.BackingFile).ReadFromOffset", func(b *BackingFile, buf []byte, at uint32) (int, error) {
		gov.Assert("the snapshot of the device is read", b == bf)
		gov.Assert("a whole region is read", uint64(len(buf)) == t.r)
		gov.Assert("while nothing is written", gov.Held(&t.raw.mu) >= 1)
		gov.HavocBytes(buf)
		if err := gov.Err("snapshot file"); err != nil {
			gov.Assume(gov.And(err != io.EOF, err != io.ErrUnexpectedEOF))
			t.k.failed = true
			n := gov.Int("read")
			gov.Assume(n < len(buf))
			return n, err
		}
		gov.Assume(gov.SameBytes(buf, 0, t.k.data, bf.dataStart+uint64(at)*t.r, t.r))
		return len(buf), nil
	})
	gov.Use("(*nvm.BackingFile).GetCopyOffset", func(b *BackingFile, start, end uint64) ([]uint32, []uint32) {
		gov.Assert("the snapshot of the device is asked", b == bf)
		n0 := start / t.r
		gov.Assert("for one region", gov.And(start < end, n0 == (end-1)/t.r))
		if gov.Has(&bf.tree, n0) {
			return []uint32{uint32(gov.Val(&bf.tree, n0))}, nil
		}
		return nil, []uint32{uint32(n0)}
	})
}

// Reading a snapshot gives what was there when it was taken.
//
//gov:proves (*nvm.SnapshotReader).Read; (*nvm.SnapNVM).RLock; (*nvm.SnapNVM).RUnlock
func GovProve_C14_reader() {
	t := govAnyTaken(25)
	gov.Assume(t.self == t.raw)
	bf, d := t.bf, t.d
	gov.Assume(gov.And(bf.rawCapacity <= t.raw.originFile.viewEnd, govAligned512(bf.rawCapacity)))
	r := t.reader()
	t.useReads()
	disk, size, back := gov.Snapshot(d.data), d.size, gov.Snapshot(t.k.data)
	pos := govReaderAt(r)
	buf := gov.Bytes("buffer", 1<<40)
	n, err := r.Read(buf)
	gov.Assert("all locks are released", gov.HeldCount() == 0)
	gov.Assert("reading changes nothing", gov.And(d.size == size, gov.And(gov.SameBytes(d.data, 0, disk, 0, govDiskMax), gov.SameBytes(t.k.data, 0, back, 0, govBackMax))))
	gov.Assert("the reader stays well formed", t.readerOK(r))
	if err != nil {
		gov.Assert("a failed read leaves the reader where it is", gov.And(n == 0, govReaderAt(r) == pos))
		gov.Assert("the end is told exactly at the end", gov.Or(gov.Or(d.err != nil, t.k.failed), gov.And(err == io.EOF, pos == bf.rawCapacity)))
		return
	}
	m := uint64(n)
	gov.Assert("bytes are read unless the snapshot ends", gov.And(n >= 0, gov.And(m <= uint64(len(buf)), gov.Imp(gov.And(len(buf) > 0, true), n > 0))))
	gov.Assert("the reader moves behind them", gov.And(govReaderAt(r) == pos+m, pos+m <= bf.rawCapacity))
	gov.Assert("they are what was there when the snapshot was taken", gov.Imp(gov.And(pos <= t.x, t.x < pos+m), gov.At(buf, t.x-pos) == gov.At(t.then, t.x)))
}

//gov:proves (*nvm.SnapshotReader).Seek
func GovProve_C14_seek() {
	t := govAnyTaken(25)
	gov.Assume(t.self == t.raw)
	r := t.reader()
	t.useReads()
	pos := govReaderAt(r)
	off, whence := gov.I64("offset"), gov.Int("whence")
	gov.Assume(whence != io.SeekEnd) // which panics: it is not supported
	was := *r
	to, err := r.Seek(off, whence)
	gov.Assert("the reader stays well formed", t.readerOK(r))
	want := off
	if whence == io.SeekCurrent {
		want += int64(pos)
	}
	valid := gov.And(gov.Or(whence == io.SeekStart, whence == io.SeekCurrent), gov.And(want >= 0, uint64(want) <= t.bf.rawCapacity))
	gov.Assert("exactly a position outside of the snapshot is refused", (err == nil) == valid)
	if err != nil {
		gov.Assert("a refused seek changes nothing", *r == was)
		return
	}
	gov.Assert("the new position is returned", to == want)
	gov.Assert("and read from next", govReaderAt(r) == uint64(want))
}

// A saved region is read back whole.
//
//gov:proves (*nvm.BackingFile).ReadFromOffset; util.ReadFull
func GovProve_C14_readBack() {
	g := govSnapOf(20 + uint16(gov.Choice("region shift", 6)))
	buf := gov.Bytes("buffer", 1<<26)
	at := gov.U32("region")
	gov.Assume(gov.And(uint64(at) < g.count, g.k.size >= g.bf.dataEnd))
	n, err := g.bf.ReadFromOffset(buf, at)
	gov.Assert("exactly a whole region can be read", gov.Imp(uint64(len(buf)) != g.r, err != nil))
	if err != nil {
		gov.Assert("a failure is reported", gov.And(n < len(buf) || n == 0, gov.Or(g.k.failed, uint64(len(buf)) != g.r)))
		return
	}
	gov.Assert("it is as it was saved", gov.And(uint64(n) == g.r, gov.SameBytes(buf, 0, g.k.data, g.bf.dataStart+uint64(at)*g.r, g.r)))
}
