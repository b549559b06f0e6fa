//go:build go1.21

package journal

import (
	"io"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/nvm"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C08: the journal buffer is a flat byte array.

// govDev is the contract of the device view the buffer works on: a flat byte
// array of whole blocks, which may fail at any access.  Its preconditions are
// the ones the real views check (C13): whole aligned blocks inside the view.
type govDev struct {
	data   []byte
	pos    uint64
	bs     block.BlockSize
	faulty bool
	writes int
}

func (d *govDev) err() error {
	if d.faulty {
		err := gov.Err("device")
		gov.Assume(err != io.EOF)
		return err
	}
	return nil
}

func (d *govDev) Seek(offset int64, whence int) (int64, error) {
	gov.Assert("the device is addressed from its start", whence == io.SeekStart)
	gov.Assert("the device is addressed inside itself and on a block boundary", gov.And(offset >= 0, gov.And(uint64(offset) <= uint64(len(d.data)), uint64(offset)%uint64(d.bs) == 0)))
	if err := d.err(); err != nil {
		return -1, err
	}
	d.pos = uint64(offset)
	return offset, nil
}

func (d *govDev) Read(buf []byte) (int, error) {
	gov.Assert("whole blocks are read", uint64(len(buf))%uint64(d.bs) == 0)
	if err := d.err(); err != nil {
		gov.HavocBytes(buf)
		return -1, err
	}
	rest := uint64(len(d.data)) - d.pos
	n := gov.Ite(uint64(len(buf)) < rest, uint64(len(buf)), rest)
	gov.CopyBytes(buf, d.data, 0, d.pos, n)
	d.pos += n
	if gov.And(n == 0, len(buf) != 0) {
		return 0, io.EOF
	}
	return int(n), nil
}

func (d *govDev) Write(buf []byte) (int, error) {
	d.writes++
	gov.Assert("whole blocks are written", uint64(len(buf))%uint64(d.bs) == 0)
	gov.Assert("they lie inside the device", d.pos+uint64(len(buf)) <= uint64(len(d.data)))
	if err := d.err(); err != nil {
		// any part of the addressed bytes may have been written
		part := gov.BytesN("torn", uint64(len(buf)))
		gov.CopyBytes(d.data, part, d.pos, 0, uint64(len(buf)))
		return -1, err
	}
	gov.CopyBytes(d.data, buf, d.pos, 0, uint64(len(buf)))
	d.pos += uint64(len(buf))
	return len(buf), nil
}

func (d *govDev) Close() error                               { return nil }
func (d *govDev) ReadAt(buf []byte, off int64) (int, error)  { gov.Fail("not used"); return 0, nil }
func (d *govDev) WriteAt(buf []byte, off int64) (int, error) { gov.Fail("not used"); return 0, nil }
func (d *govDev) Sync() error                                { return d.err() }
func (d *govDev) Position() uint64                           { return d.pos }
func (d *govDev) Capacity() uint64                           { return uint64(len(d.data)) }
func (d *govDev) BlockSize() block.BlockSize                 { return d.bs }
func (d *govDev) RawSize() int64                             { return -1 }
func (d *govDev) Split(p uint64) (nvm.NonVolatileMemory, nvm.NonVolatileMemory, error) {
	gov.Fail("not used")
	return nil, nil, nil
}

// govBufInv is the representation invariant of the buffer.
func govBufInv(jb *JournalNvmBuffer, d *govDev) bool {
	n, bs := uint64(jb.writeBuf.Len()), uint64(d.bs)
	w, o := jb.writeBuf.AsBytes(), jb.writeBufOffset
	return gov.And(gov.And(gov.And(o%bs == 0, n%bs == 0), gov.And(o <= uint64(len(d.data)), n <= uint64(len(d.data))-o)),
		gov.Or(jb.maybeDirty, gov.Forall(func(x uint64) bool {
			return gov.Imp(x < n, gov.At(w, x) == gov.At(d.data, o+x))
		})))
}

func govAnyBuffer(bs block.BlockSize) (*JournalNvmBuffer, *govDev) {
	block.GovUseAligned()
	d := &govDev{data: gov.Bytes("device", 1<<40), pos: gov.U64("devpos"), bs: bs}
	gov.Assume(uint64(len(d.data))%uint64(bs) == 0)
	n, r := gov.U32("buffered"), gov.U32("readbuf")
	// the journal syncs its buffer long before it reaches this size
	gov.Assume(n < 1<<29 && r < 1<<29)
	jb := &JournalNvmBuffer{nvm: d, position: gov.U64("position"), writeBuf: block.GovAligned("writebuf", n, bs),
		readBuf: block.GovAligned("readbuf", r, bs), writeBufOffset: gov.U64("offset"), maybeDirty: gov.Bool("dirty")}
	gov.Assume(govBufInv(jb, d))
	gov.Assume(jb.position <= uint64(len(d.data)))
	return jb, d
}

// govUseFlush installs the contract of flushWriteBuffer, which govFlush proves.
func govUseFlush(d *govDev) {
	gov.Use("(*journal.JournalNvmBuffer).flushWriteBuffer", func(jb *JournalNvmBuffer) error {
		f := govView(jb, d)
		c := uint64(len(d.data))
		if jb.writeBuf.Len() != 0 && jb.maybeDirty {
			d.data = gov.BytesN("flushed", c)
		}
		if err := d.err(); err != nil {
			gov.Assume(f.same(govFlat{d.data, f.w, f.off}))
			return err
		}
		gov.Assume(gov.Forall(func(x uint64) bool { return gov.Imp(x < c, gov.At(d.data, x) == f.at(x)) }))
		if jb.writeBuf.Len() != 0 && jb.maybeDirty {
			n := gov.U32("kept")
			gov.Assume(n < 1<<29)
			jb.writeBuf = block.GovAligned("kept", n, d.bs)
			jb.writeBufOffset, jb.maybeDirty = gov.U64("keptoffset"), false
			gov.Assume(govBufInv(jb, d))
		}
		return nil
	})
}

// govFlat is the flat array the buffer stands for.
type govFlat struct {
	data, w []byte
	off     uint64
}

func govView(jb *JournalNvmBuffer, d *govDev) govFlat {
	return govFlat{gov.Snapshot(d.data), gov.Snapshot(jb.writeBuf.AsBytes()), jb.writeBufOffset}
}

func (f govFlat) at(x uint64) byte {
	return gov.Ite(x-f.off < uint64(len(f.w)), gov.At(f.w, x-f.off), gov.At(f.data, x))
}

func (f govFlat) same(g govFlat) bool {
	n := uint64(len(f.data))
	return gov.Forall(func(x uint64) bool { return gov.Imp(x < n, f.at(x) == g.at(x)) })
}

func govWrite(bs block.BlockSize) {
	jb, d := govAnyBuffer(bs)
	govUseFlush(d)
	d.faulty = gov.Choice("faulty", 2) == 1
	f := govView(jb, d)
	pos := jb.position
	buf := gov.Bytes("buf", 1<<24)
	n, err := jb.Write(buf)
	g := govView(jb, d)
	l, c := uint64(len(buf)), uint64(len(d.data))
	if err != nil {
		gov.Assert("a refused write changes nothing", f.same(g))
		gov.Assert("a refused write does not move", jb.position == pos)
		gov.Assert("a write is refused only if it does not fit or the device fails", gov.Or(d.faulty, pos+l > c))
		gov.Assert("a write that does not fit does not touch the device", gov.Or(pos+l <= c, d.writes == 0))
	} else {
		gov.Assert("a write that does not fit is refused", pos+l <= c)
		gov.Assert("all bytes are written", n == len(buf))
		gov.Assert("the position follows the bytes", jb.position == pos+l)
		gov.Assert("exactly the addressed bytes change", gov.Forall(func(x uint64) bool {
			return gov.Imp(x < c, g.at(x) == gov.Ite(x-pos < l, gov.At(buf, x-pos), f.at(x)))
		}))
	}
	gov.Assert("the buffer stays well formed", govBufInv(jb, d))
}

func govRead(bs block.BlockSize) {
	jb, d := govAnyBuffer(bs)
	govUseFlush(d)
	d.faulty = gov.Choice("faulty", 2) == 1
	f := govView(jb, d)
	pos := jb.position
	buf := gov.Bytes("buf", 1<<24)
	n, err := jb.Read(buf)
	l, c := uint64(len(buf)), uint64(len(d.data))
	gov.Assert("a read changes nothing", f.same(govView(jb, d)))
	if err != nil {
		gov.Assert("a read fails only if the device does", d.faulty)
		gov.Assert("a failed read does not move", jb.position == pos)
	} else {
		want := gov.Ite(pos+l <= c, l, c-pos)
		gov.Assert("as many bytes as there are", uint64(n) == want)
		gov.Assert("the position follows the bytes", jb.position == pos+want)
		gov.Assert("a read returns the latest bytes", gov.Forall(func(x uint64) bool {
			return gov.Imp(x < want, gov.At(buf, x) == f.at(pos+x))
		}))
	}
	gov.Assert("the buffer stays well formed", govBufInv(jb, d))
}

func govFlush(bs block.BlockSize) {
	jb, d := govAnyBuffer(bs)
	d.faulty = gov.Choice("faulty", 2) == 1
	f := govView(jb, d)
	pos := jb.position
	n, dirty := jb.writeBuf.Len(), jb.maybeDirty
	var err error
	op := gov.Choice("op", 3)
	switch op {
	case 0:
		err = jb.Flush()
	case 1:
		err = jb.Sync()
	case 2:
		err = jb.Close()
	}
	gov.Assert("a flush changes nothing", f.same(govView(jb, d)))
	gov.Assert("a flush does not move", jb.position == pos)
	gov.Assert("a clean buffer is left alone", gov.Or(gov.And(gov.Or(dirty, op > 0), n > 0), d.writes == 0))
	gov.Assert("a flush fails only if the device does", err == nil || d.faulty)
	if err == nil {
		gov.Assert("and the buffer is clean", gov.Or(!jb.maybeDirty, jb.writeBuf.Len() == 0))
		gov.Assert("afterwards the device holds the array", gov.Forall(func(x uint64) bool {
			return gov.Imp(x < uint64(len(d.data)), gov.At(d.data, x) == f.at(x))
		}))
	}
	gov.Assert("the buffer stays well formed", govBufInv(jb, d))
}

//gov:proves (*journal.JournalNvmBuffer).Seek; journal.NewJournalNvmBuffer; (*journal.JournalNvmBuffer).Position; (*journal.JournalNvmBuffer).Capacity
func GovProve_C08_seek() {
	jb, d := govAnyBuffer(512)
	f := govView(jb, d)
	pos, c := jb.position, uint64(len(d.data))
	p := gov.I64("p")
	wh := gov.Int("whence")
	n, err := jb.Seek(p, wh)
	gov.Assert("the three ways to seek are known", (err == nil) == (wh == io.SeekStart || wh == io.SeekCurrent || wh == io.SeekEnd))
	if err == nil {
		want := uint64(p)
		if wh == io.SeekCurrent {
			want += pos
		} else if wh == io.SeekEnd {
			want += c
		}
		gov.Assert("a seek moves to the position asked for", jb.Position() == want && uint64(n) == want)
	} else {
		gov.Assert("a refused seek does not move", jb.Position() == pos)
	}
	gov.Assert("a seek changes nothing", f.same(govView(jb, d)))
	gov.Assert("capacity", jb.Capacity() == c)

	nb := NewJournalNvmBuffer(d)
	gov.Assert("a new buffer is well formed", govBufInv(nb, d))
	gov.Assert("a new buffer shows the device", gov.And(nb.Position() == 0, nb.writeBuf.Len() == 0))
}

//gov:proves (*journal.JournalNvmBuffer).Write; (*journal.JournalNvmBuffer).isOverflow
func GovProve_C08_write512() { govWrite(512) }

//gov:proves (*journal.JournalNvmBuffer).Write; (*journal.JournalNvmBuffer).isOverflow
//gov:slow
func GovProve_C08_write1024() { govWrite(1024) }

//gov:proves (*journal.JournalNvmBuffer).Write; (*journal.JournalNvmBuffer).isOverflow
//gov:slow
func GovProve_C08_write2048() { govWrite(2048) }

//gov:proves (*journal.JournalNvmBuffer).Write; (*journal.JournalNvmBuffer).isOverflow
func GovProve_C08_write4096() { govWrite(4096) }

//gov:proves (*journal.JournalNvmBuffer).Write; (*journal.JournalNvmBuffer).isOverflow
//gov:slow
func GovProve_C08_write8192() { govWrite(8192) }

//gov:proves (*journal.JournalNvmBuffer).Write; (*journal.JournalNvmBuffer).isOverflow
//gov:slow
func GovProve_C08_write16384() { govWrite(16384) }

//gov:proves (*journal.JournalNvmBuffer).Write; (*journal.JournalNvmBuffer).isOverflow
//gov:slow
func GovProve_C08_write32768() { govWrite(32768) }

//gov:proves (*journal.JournalNvmBuffer).Read; (*journal.JournalNvmBuffer).isDirty
func GovProve_C08_read512() { govRead(512) }

//gov:proves (*journal.JournalNvmBuffer).Read; (*journal.JournalNvmBuffer).isDirty
//gov:slow
func GovProve_C08_read1024() { govRead(1024) }

//gov:proves (*journal.JournalNvmBuffer).Read; (*journal.JournalNvmBuffer).isDirty
//gov:slow
func GovProve_C08_read2048() { govRead(2048) }

//gov:proves (*journal.JournalNvmBuffer).Read; (*journal.JournalNvmBuffer).isDirty
func GovProve_C08_read4096() { govRead(4096) }

//gov:proves (*journal.JournalNvmBuffer).Read; (*journal.JournalNvmBuffer).isDirty
//gov:slow
func GovProve_C08_read8192() { govRead(8192) }

//gov:proves (*journal.JournalNvmBuffer).Read; (*journal.JournalNvmBuffer).isDirty
//gov:slow
func GovProve_C08_read16384() { govRead(16384) }

//gov:proves (*journal.JournalNvmBuffer).Read; (*journal.JournalNvmBuffer).isDirty
//gov:slow
func GovProve_C08_read32768() { govRead(32768) }

//gov:proves (*journal.JournalNvmBuffer).Flush; (*journal.JournalNvmBuffer).Sync; (*journal.JournalNvmBuffer).Close; (*journal.JournalNvmBuffer).flushWriteBuffer
func GovProve_C08_flush512() { govFlush(512) }

//gov:proves (*journal.JournalNvmBuffer).Flush; (*journal.JournalNvmBuffer).Sync; (*journal.JournalNvmBuffer).Close; (*journal.JournalNvmBuffer).flushWriteBuffer
//gov:slow
func GovProve_C08_flush1024() { govFlush(1024) }

//gov:proves (*journal.JournalNvmBuffer).Flush; (*journal.JournalNvmBuffer).Sync; (*journal.JournalNvmBuffer).Close; (*journal.JournalNvmBuffer).flushWriteBuffer
//gov:slow
func GovProve_C08_flush2048() { govFlush(2048) }

//gov:proves (*journal.JournalNvmBuffer).Flush; (*journal.JournalNvmBuffer).Sync; (*journal.JournalNvmBuffer).Close; (*journal.JournalNvmBuffer).flushWriteBuffer
func GovProve_C08_flush4096() { govFlush(4096) }

//gov:proves (*journal.JournalNvmBuffer).Flush; (*journal.JournalNvmBuffer).Sync; (*journal.JournalNvmBuffer).Close; (*journal.JournalNvmBuffer).flushWriteBuffer
//gov:slow
func GovProve_C08_flush8192() { govFlush(8192) }

//gov:proves (*journal.JournalNvmBuffer).Flush; (*journal.JournalNvmBuffer).Sync; (*journal.JournalNvmBuffer).Close; (*journal.JournalNvmBuffer).flushWriteBuffer
//gov:slow
func GovProve_C08_flush16384() { govFlush(16384) }

//gov:proves (*journal.JournalNvmBuffer).Flush; (*journal.JournalNvmBuffer).Sync; (*journal.JournalNvmBuffer).Close; (*journal.JournalNvmBuffer).flushWriteBuffer
//gov:slow
func GovProve_C08_flush32768() { govFlush(32768) }
