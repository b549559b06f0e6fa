//go:build go1.21

package storage

import (
	"io"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C01, C02: lumps in the data region.

// govView is the contract of the device view the data region works on (C13):
// whole aligned blocks inside the view; any access may fail, and a failed
// write may leave anything in the blocks it addressed.
type govView struct {
	data   []byte
	bs     uint64
	faulty bool
	reads  int
	writes int
	loose  bool // only whether it is used is of interest
}

func (d *govView) err() error {
	if d.faulty {
		err := gov.Err("device")
		gov.Assume(err != io.EOF && !gov.ErrIs(err, internalerror.InvalidInput))
		return err
	}
	return nil
}

func (d *govView) inside(off int64, n int) {
	if d.loose {
		return
	}
	gov.Assert("whole blocks are addressed", gov.And(uint64(off)%d.bs == 0, uint64(n)%d.bs == 0))
	gov.Assert("the access lies inside the device", gov.And(gov.And(off >= 0, uint64(off) <= uint64(len(d.data))), uint64(n) <= uint64(len(d.data))-uint64(off)))
}

func (d *govView) ReadAt(buf []byte, off int64) (int, error) {
	d.inside(off, len(buf))
	d.reads++
	if err := d.err(); err != nil {
		gov.HavocBytes(buf)
		return -1, err
	}
	if d.loose {
		gov.HavocBytes(buf)
		return len(buf), nil
	}
	gov.CopyBytes(buf, d.data, 0, uint64(off), uint64(len(buf)))
	return len(buf), nil
}

func (d *govView) WriteAt(buf []byte, off int64) (int, error) {
	d.inside(off, len(buf))
	d.writes++
	if d.loose {
		return len(buf), d.err()
	}
	if err := d.err(); err != nil {
		part := gov.BytesN("torn", uint64(len(buf)))
		gov.CopyBytes(d.data, part, uint64(off), 0, uint64(len(buf)))
		return -1, err
	}
	gov.CopyBytes(d.data, buf, uint64(off), 0, uint64(len(buf)))
	return len(buf), nil
}

func (d *govView) Seek(offset int64, whence int) (int64, error) { gov.Fail("not used"); return 0, nil }
func (d *govView) Read(buf []byte) (int, error)                 { gov.Fail("not used"); return 0, nil }
func (d *govView) Write(buf []byte) (int, error)                { gov.Fail("not used"); return 0, nil }
func (d *govView) Close() error                                 { return nil }
func (d *govView) Sync() error                                  { return d.err() }
func (d *govView) Position() uint64                             { return 0 }
func (d *govView) Capacity() uint64                             { return uint64(len(d.data)) }
func (d *govView) BlockSize() block.BlockSize                   { return block.BlockSize(d.bs) }
func (d *govView) RawSize() int64                               { return -1 }
func (d *govView) Split(p uint64) (nvm.NonVolatileMemory, nvm.NonVolatileMemory, error) {
	gov.Fail("not used")
	return nil, nil, nil
}

// govFree is the contract of the free-space map (C03) as one call sees it: an
// allocation yields a run of the requested length inside the region, none of
// whose blocks is in use, or fails without effect.
type govFree struct {
	region   *DataRegion
	blocks   uint64
	got      portion.DataPortion
	held     bool
	allocs   int
	released int
	locks    bool // C15
}

func (f *govFree) Allocate(n uint16) (portion.DataPortion, error) {
	if f.locks {
		gov.Assert("the free map is used under its lock", gov.Held(&f.region.Mutex) == 2)
	}
	gov.Assert("at least one block is asked for", n > 0)
	f.allocs++
	if gov.Bool("full") {
		return portion.DataPortion{}, internalerror.StorageFull
	}
	p := portion.DataPortion{Start: 0, Len: n}
	s := gov.U64("start")
	gov.Assume(s < f.blocks && uint64(n) <= f.blocks-s)
	p = portion.NewDataPortion(s, n)
	f.got, f.held = p, true
	return p, nil
}

func (f *govFree) Release(p portion.DataPortion) {
	if f.locks {
		gov.Assert("the free map is used under its lock", gov.Held(&f.region.Mutex) == 2)
	}
	gov.Assert("only what was allocated is released, once", f.held && p == f.got)
	f.held = false
	f.released++
}

func (f *govFree) RestoreFromIndex(bs block.BlockSize, n uint64, v []portion.DataPortion) {
	gov.Fail("not used")
}
func (f *govFree) MaxSegmentSize() uint64                       { return gov.U64("max") }
func (f *govFree) FreeCount() uint64                            { return gov.U64("free") }
func (f *govFree) GetAllocationBitStatus(n, t uint64) []float64 { return nil }
func (f *govFree) MemoryUsed() uint64                           { return 0 }
func (f *govFree) Display()                                     {}
func (f *govFree) Free()                                        {}

func govAnyRegion(faulty bool) (*DataRegion, *govView, *govFree) {
	block.GovUseAligned()
	d := &govView{data: gov.Bytes("device", 1<<49), bs: 512, faulty: faulty}
	gov.Assume(uint64(len(d.data))%512 == 0)
	f := &govFree{blocks: uint64(len(d.data)) / 512}
	r := NewDataRegion(f, d)
	f.region = r
	gov.Lock(&r.Mutex, "free map", 3)
	gov.Opt("nolocks", 1)
	return r, d, f
}

// govStored: the portion holds a lump of n bytes: its data, padding of less
// than a block, and the length of the padding in the last two bytes.
func govStored(data []byte, p portion.DataPortion, n uint64) bool {
	e := (p.Start.AsU64() + uint64(p.Len)) * 512
	pad := uint64(gov.At(data, e-2))<<8 | uint64(gov.At(data, e-1))
	return gov.And(pad < 512, n+pad+2 == uint64(p.Len)*512)
}

// govAnyLump: any lump of n bytes in the region.
func govAnyLump(d *govView) (portion.DataPortion, uint64) {
	s, l := gov.U64("start"), gov.U16("blocks")
	c := uint64(len(d.data)) / 512
	gov.Assume(s < c && uint64(l) <= c-s && l > 0)
	p := portion.NewDataPortion(s, l)
	n := gov.U64("size")
	gov.Assume(n <= lump.LUMP_MAX_SIZE)
	gov.Assume(govStored(d.data, p, n))
	return p, n
}

func govPut(bs block.BlockSize) {
	r, d, f := govAnyRegion(gov.Choice("faulty", 2) == 1)
	n := gov.U32("size")
	gov.Assume(n <= lump.LUMP_MAX_SIZE)
	in := lump.NewLumpDataWithAb(block.GovAligned("lump", n, bs))
	want, old := gov.Snapshot(in.AsBytes()), gov.Snapshot(d.data)

	p, err := r.Put(in)

	s, l := f.got.Start.AsU64()*512, uint64(f.got.Len)*512
	if f.allocs > 0 && f.got.Len != 0 {
		gov.Assert("a lump takes its bytes and the trailer, rounded up to whole blocks", gov.And(l >= uint64(n)+2, l < uint64(n)+2+512))
	}
	gov.Assert("one run of blocks is asked for", f.allocs == 1)
	gov.Assert("nothing outside the allocated blocks changes", gov.Forall(func(x uint64) bool {
		return gov.Imp(gov.And(x < uint64(len(old)), gov.Or(f.got.Len == 0, gov.Or(x < s, x >= s+l))), gov.At(d.data, x) == gov.At(old, x))
	}))
	if err != nil {
		gov.Assert("a failed put keeps no blocks", !f.held)
		gov.Assert("it reports none", p.Len == 0)
		gov.Assert("a put fails only when the region is full or the device fails", gov.Or(f.got.Len == 0, d.faulty))
		return
	}
	gov.Assert("the blocks stay allocated", f.held && f.released == 0)
	gov.Assert("they are the ones reported", p == f.got)
	gov.Assert("the bytes of the lump are stored", gov.SameBytes(d.data, s, want, 0, uint64(n)))
	gov.Assert("its size can be recovered", govStored(d.data, p, uint64(n)))
}

//gov:proves (*storage.DataRegion).Put; (*storage.DataRegion).Release; (*storage.DataRegion).shiftBlockSize; storage.NewDataRegion
func GovProve_C01_put512() { govPut(512) }

//gov:proves (*storage.DataRegion).Put
func GovProve_C01_put1024() { govPut(1024) }

//gov:proves (*storage.DataRegion).Put
func GovProve_C01_put4096() { govPut(4096) }

//gov:proves (*storage.DataRegion).Put
func GovProve_C01_put32768() { govPut(32768) }

//gov:proves (*storage.DataRegion).Get; (*storage.DataRegion).GetSize; util.ReadFull
func GovProve_C01_get() {
	r, d, f := govAnyRegion(gov.Choice("faulty", 2) == 1)
	p, n := govAnyLump(d)
	old := gov.Snapshot(d.data)
	if gov.Choice("what", 2) == 0 {
		l, err := r.Get(p)
		gov.Assert("reading fails only when the device does", gov.Or(err == nil, d.faulty))
		if err == nil {
			b := l.AsBytes()
			gov.Assert("exactly the stored number of bytes is returned", uint64(len(b)) == n)
			gov.Assert("exactly the stored bytes are returned", gov.SameBytes(b, 0, old, p.Start.AsU64()*512, n))
		}
	} else {
		m, err := r.GetSize(p)
		gov.Assert("reading fails only when the device does", gov.Or(err == nil, d.faulty))
		gov.Assert("exactly the stored number of bytes is reported", gov.Or(err != nil, uint64(m) == n))
	}
	gov.Assert("reading changes nothing", gov.And(d.writes == 0, f.allocs == 0 && f.released == 0))
	gov.Assert("a lump on disk takes whole blocks", uint64(p.SizeOnDisk(512)) == (n+2+511)/512*512)
}

//gov:proves (*storage.DataRegion).GetWithOffset; (*storage.DataRegion).readBlocks
func GovProve_C02_range() {
	r, d, f := govAnyRegion(gov.Choice("faulty", 2) == 1)
	p, n := govAnyLump(d)
	off, length := gov.U32("offset"), gov.U32("length")
	from, to := uint64(off), uint64(off)+uint64(length)
	b, err := r.GetWithOffset(p, off, length)
	if err != nil {
		gov.Assert("a range inside the lump is refused only when the device fails", gov.Or(d.faulty, to > n))
		gov.Assert("nothing is returned", len(b) == 0)
	} else {
		gov.Assert("a range that starts behind the end is refused", from <= n)
		gov.Assert("the range is cut at the end of the lump", from+uint64(len(b)) == gov.Ite(to < n, to, n))
		gov.Assert("exactly the bytes of the range are returned", gov.SameBytes(b, 0, d.data, p.Start.AsU64()*512+from, uint64(len(b))))
	}
	gov.Assert("reading changes nothing", gov.And(d.writes == 0, f.allocs == 0 && f.released == 0))
}

//gov:proves (*storage.DataRegion).Update; (*storage.DataRegion).readBlocks
func GovProve_C02_update() {
	r, d, f := govAnyRegion(gov.Choice("faulty", 2) == 1)
	p, n := govAnyLump(d)
	b := gov.Bytes("payload", 1<<32-1)
	off := gov.U32("offset")
	old := gov.Snapshot(d.data)
	s, l := p.Start.AsU64()*512, uint64(p.Len)*512
	err := r.Update(p, off, b)
	fits := uint64(off)+uint64(len(b)) <= n
	if err == nil {
		gov.Assert("a write that would pass the end is refused", fits)
		gov.Assert("exactly the addressed bytes change", gov.Forall(func(x uint64) bool {
			i := x - (s + uint64(off))
			return gov.Imp(x < uint64(len(old)), gov.At(d.data, x) == gov.Ite(i < uint64(len(b)), gov.At(b, i), gov.At(old, x)))
		}))
		gov.Assert("the size stays", govStored(d.data, p, n))
	} else {
		gov.Assert("a write inside the lump is refused only when the device fails", gov.Or(!fits, d.faulty))
		gov.Assert("a refused write has no effect", gov.Or(d.writes == 0, gov.And(fits, d.faulty)))
		gov.Assert("nothing outside the lump changes", gov.Forall(func(x uint64) bool {
			return gov.Imp(gov.And(x < uint64(len(old)), gov.Or(x < s, x >= s+l)), gov.At(d.data, x) == gov.At(old, x))
		}))
	}
	gov.Assert("no block is allocated or released", f.allocs == 0 && f.released == 0)
}

//gov:proves storage.paddingWithZero
func GovProve_C02_padding() {
	b := gov.Bytes("payload", lump.LUMP_MAX_SIZE)
	off, res := gov.U32("offset"), gov.U32("reservation")
	// what PutWithOffset lets through
	gov.Assume(uint64(off)+uint64(len(b)) <= lump.LUMP_MAX_SIZE && res <= lump.LUMP_MAX_SIZE)
	p := paddingWithZero(b, off, res)
	end := uint64(off) + uint64(len(b))
	gov.Assert("the size is the reservation or the end of the payload", uint64(len(p)) == gov.Ite(end > uint64(res), end, uint64(res)))
	gov.Assert("the payload is at its offset, zeros are elsewhere", gov.Forall(func(x uint64) bool {
		return gov.Imp(x < uint64(len(p)), gov.At(p, x) == gov.Ite(gov.And(x >= uint64(off), x < end), gov.At(b, x-uint64(off)), 0))
	}))
}

//gov:proves (*storage.DataRegion).Put; (*storage.DataRegion).Release; (*storage.DataRegion).Update; (*storage.DataRegion).Get; (*storage.DataRegion).GetSize; (*storage.DataRegion).GetWithOffset; (*storage.DataRegion).readBlocks
func GovProve_C15_region() {
	r, d, f := govAnyRegion(true)
	gov.Opt("nolocks", 0)
	f.locks, d.loose = true, true
	block.GovUseAlignedAny()
	op := gov.Choice("op", 6)
	gov.Catch(func() {
		if op == 0 {
			n := gov.U32("size")
			gov.Assume(n <= lump.LUMP_MAX_SIZE)
			r.Put(lump.NewLumpDataWithAb(block.GovAligned("lump", n, 512)))
			return
		}
		p := portion.NewDataPortion(gov.U64("start")&(1<<40-1), gov.U16("blocks"))
		switch op {
		case 1:
			f.got, f.held = p, true
			r.Release(p)
		case 2:
			r.Update(p, gov.U32("offset"), gov.Bytes("payload", lump.LUMP_MAX_SIZE))
		case 3:
			r.Get(p)
		case 4:
			r.GetSize(p)
		case 5:
			r.GetWithOffset(p, gov.U32("offset"), gov.U32("length"))
		}
	})
	gov.Assert("the lock is released", gov.HeldCount() == 0)
}
