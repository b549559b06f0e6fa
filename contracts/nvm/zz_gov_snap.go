//go:build go1.21

package nvm

import (
	"hash"
	"io"
	"os"

	"github.com/thesues/cannyls-go/block"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C14: snapshots.
//
// govBack is the file of a snapshot (os.File is assumed to behave like this).
type govBack struct {
	f      *os.File
	data   []byte
	size   uint64
	pos    uint64
	faulty bool
	failed bool
}

const govBackMax = 1 << 58

func (k *govBack) seek(off int64, whence int) (int64, error) {
	gov.Assert("the snapshot file is addressed from its start", whence == io.SeekStart && off >= 0)
	k.pos = uint64(off)
	return off, nil
}

func (k *govBack) readAt(b []byte, off int64) (int, error) {
	n := uint64(len(b))
	gov.Assert("the snapshot file is read inside itself", gov.And(off >= 0, uint64(off) < govBackMax))
	if err := k.fail(); err != nil {
		gov.HavocBytes(b)
		return 0, err
	}
	have := gov.Ite(uint64(off) < k.size, k.size-uint64(off), 0)
	if have < n {
		gov.CopyBytes(b, k.data, 0, uint64(off), have)
		return int(have), io.EOF
	}
	gov.CopyBytes(b, k.data, 0, uint64(off), n)
	return len(b), nil
}

func (k *govBack) fail() error {
	if !k.faulty {
		return nil
	}
	err := gov.Err("snapshot file")
	if err != nil {
		gov.Assume(gov.And(err != io.EOF, err != io.ErrUnexpectedEOF))
		k.failed = true
	}
	return err
}

func (k *govBack) write(b []byte) (int, error) {
	n := uint64(len(b))
	err := k.fail()
	if err != nil {
		n = gov.U64("written")
		gov.Assume(n <= uint64(len(b)))
	}
	gov.CopyBytes(k.data, b, k.pos, 0, n)
	k.size = gov.Ite(k.pos+n > k.size, k.pos+n, k.size)
	k.pos += n
	return int(n), err
}

func govAnyBack() *govBack {
	k := &govBack{f: &os.File{}, data: gov.BytesN("snapshot file", govBackMax), size: gov.U64("snapshot size"), pos: gov.U64("snapshot cursor"), faulty: gov.Bool("snapshot faulty")}
	gov.Assume(k.size < 1<<57 && k.pos < 1<<57)
	return k
}

// govSnap is any snapshot of count saved regions.
type govSnap struct {
	d     *govDisk
	k     *govBack
	bf    *BackingFile
	count uint64
	r     uint64 // size of a region
}

type govHash struct{ h uint32 }

func (g *govHash) Write(p []byte) (int, error) { g.h = gov.Digest(g.h, p); return len(p), nil }
func (g *govHash) Sum32() uint32               { return g.h }
func (g *govHash) Sum(b []byte) []byte         { gov.Fail("not used"); return nil }
func (g *govHash) Reset()                      { g.h = 1 }
func (g *govHash) Size() int                   { return 4 }
func (g *govHash) BlockSize() int              { return 4 }

func govAnySnap() *govSnap {
	shift := 20 + uint16(gov.Choice("region shift", 6))
	return govSnapOf(shift)
}

func govSnapOf(shift uint16) *govSnap {
	g := &govSnap{d: govAnyDisk(gov.Bool("disk faulty")), k: govAnyBack(), count: gov.U64("saved"), r: 1 << shift}
	govUseFiles(g.d, g.k)
	gov.Use("adler32.New", func() hash.Hash32 { return &govHash{h: 1} })
	j := gov.U64("journal size")
	gov.Assume(j < 1<<40 && g.count < 1<<31)
	g.bf = &BackingFile{file: g.k.f, JournalStart: 512, JournalEnd: 512 + 12*g.count, journalMaxSize: j, dataStart: 512 + j, dataEnd: 512 + j + g.count<<shift,
		maxCapacity: gov.U64("max capacity"), rawCapacity: gov.U64("raw capacity"), regionSize: g.r}
	gov.Havoc(&g.bf.tree)
	gov.Assume(12*g.count <= j)
	gov.Assume(gov.Forall(func(i uint64) bool {
		return gov.Imp(gov.Has(&g.bf.tree, i), gov.And(i < 1<<32, gov.Val(&g.bf.tree, i) < g.count))
	}))
	return g
}

// wf: what a snapshot holds apart from the content
func (g *govSnap) wf() bool {
	bf := g.bf
	return gov.And(gov.And(bf.JournalEnd == 512+12*g.count, bf.dataEnd == bf.dataStart+g.count*g.r), gov.Forall(func(i uint64) bool {
		return gov.Imp(gov.Has(&bf.tree, i), gov.And(i < 1<<32, gov.Val(&bf.tree, i) < g.count))
	}))
}

// A region is saved at most once, beside the ones saved before.
//
//gov:proves (*nvm.BackingFile).WriteOffset; (nvm.BitmapEntry).WriteTo; (nvm.BitmapEntry).CheckSum; (nvm.BitmapEntry).Size
func GovProve_C14_save() {
	g := govAnySnap()
	bf, k := g.bf, g.k
	buf := gov.Bytes("region", 1<<26)
	old := gov.Snapshot(buf)
	off := gov.U32("offset")
	had := gov.Has(&bf.tree, uint64(off))
	// there is room for one entry per region of the device, and this one has none yet
	gov.Assume(gov.Or(had, 12*g.count+12 <= bf.journalMaxSize))
	was := gov.Snapshot(k.data)
	r0 := gov.U64("saved region")
	has0 := gov.Has(&bf.tree, r0)
	v0 := gov.Val(&bf.tree, r0)
	count := g.count
	var err error
	panicked := gov.Catch(func() { err = bf.WriteOffset(buf, off) })
	gov.Assert("what is saved is not changed", gov.EqBytes(buf, old))
	gov.Assert("a region saved before stays where it is", gov.Imp(has0, gov.And(gov.Has(&bf.tree, r0), gov.Val(&bf.tree, r0) == v0)))
	x := gov.U64("byte")
	gov.Assert("and keeps its content", gov.Imp(gov.And(has0, x < g.r), gov.At(k.data, bf.dataStart+v0*g.r+x) == gov.At(was, bf.dataStart+v0*g.r+x)))
	gov.Assert("the entries of the regions saved before stay", gov.Imp(x < 12*count, gov.At(k.data, 512+x) == gov.At(was, 512+x)))
	gov.Assert("exactly another region saved before, or another size, is refused", panicked == gov.Or(had, uint64(len(buf)) != g.r))
	if panicked || err != nil {
		gov.Assert("only a failure of the file is reported", panicked || k.failed)
		gov.Assert("a region refused, or not saved, is not taken for saved", gov.Imp(!has0, !gov.Has(&bf.tree, r0)))
		gov.Assert("and does not count", g.wf())
		return
	}
	gov.Assert("a region is saved once", !had)
	gov.Assert("a whole region is saved", uint64(len(buf)) == g.r)
	gov.Assert("the region is saved now, behind the others", gov.And(gov.Has(&bf.tree, uint64(off)), gov.Val(&bf.tree, uint64(off)) == count))
	gov.Assert("no other region is", gov.Imp(gov.And(!has0, r0 != uint64(off)), !gov.Has(&bf.tree, r0)))
	gov.Assert("with its content", gov.SameBytes(k.data, bf.dataStart+count*g.r, old, 0, g.r))
	e := 512 + 12*count
	gov.Assert("and an entry that tells so", gov.And(govBE(k.data, e+4, 4) == uint64(off), gov.And(govBE(k.data, e+8, 4) == count, govBE(k.data, e, 4) == uint64(BitmapEntry{OriginOffset: off, SnapOffset: uint32(count)}.CheckSum()))))
	g.count++
	gov.Assert("the snapshot stays well formed", g.wf())
	gov.Assert("the file ends with the last region", gov.Or(k.size == bf.dataEnd, k.size > bf.dataEnd))
}

//gov:proves nvm.ReadRecordFrom; (nvm.BitmapEntry).WriteTo; (nvm.BitmapEntry).CheckSum
func GovProve_C14_entry() {
	gov.Use("adler32.New", func() hash.Hash32 { return &govHash{h: 1} })
	b := gov.Bytes("entry", 20)
	gov.Assume(len(b) >= 12) // what is shorter is behind the file
	src := &govSource{data: b}
	var e BitmapEntry
	ok := !gov.Catch(func() { e = ReadRecordFrom(src) })
	sum := uint64(gov.Digest(1, gov.Snapshot(b)[4:12]))
	gov.Assert("exactly an entry with its checksum is accepted", ok == (govBE(b, 0, 4) == sum))
	if ok {
		gov.Assert("it is as stored", gov.And(uint64(e.OriginOffset) == govBE(b, 4, 4), uint64(e.SnapOffset) == govBE(b, 8, 4)))
		gov.Assert("it takes the space it declares", src.pos == e.Size())
		w := &govSink{data: gov.Zeros(64)}
		gov.Assert("it can be written", e.WriteTo(w) == nil && w.pos == 12)
		gov.Assert("as it was read", gov.SameBytes(w.data, 0, b, 0, 12))
	}
}

// Which regions have to be saved.
//
//gov:proves (*nvm.BackingFile).GetCopyOffset
func GovProve_C14_copyOffset() {
	g := govAnySnap()
	bf := g.bf
	start, end, q := gov.U64("start"), gov.U64("end"), gov.U64("region")
	gov.Assume(end <= 1<<51)
	n0, n1 := start/g.r, (end-1)/g.r
	gov.Invariant("(*nvm.BackingFile).GetCopyOffset", 0, func(v gov.Vars) bool {
		i, o, k := v.U64("i"), v.Any("onOrigin").([]uint32), v.Any("onBacking").([]uint32)
		no, nk := uint64(len(o)), uint64(len(k))
		at := func(j uint64) uint64 { return uint64(gov.At(o, j)) }
		one := gov.And(nk == gov.Ite(gov.Has(&bf.tree, n0), uint64(1), 0), gov.And(no == 1-nk, gov.Imp(nk == 1, uint64(gov.At(k, 0)) == gov.Val(&bf.tree, n0))))
		return gov.And(gov.And(gov.And(n0 <= i, i <= n1+1), gov.And(gov.Imp(i == n0, gov.And(no == 0, nk == 0)), gov.Imp(i == n0+1, one))), gov.And(gov.And(
			gov.Forall(func(j uint64) bool { return gov.Imp(j < no, gov.And(gov.And(n0 <= at(j), at(j) < i), !gov.Has(&bf.tree, at(j)))) }),
			gov.Forall2(func(a, b uint64) bool { return gov.Imp(gov.And(a < b, b < no), at(a) < at(b)) })),
			gov.Imp(gov.And(gov.And(n0 <= q, q < i), !gov.Has(&bf.tree, q)), gov.Exists(func(j uint64) bool { return gov.And(j < no, at(j) == q) }))))
	})
	k, o := bf.GetCopyOffset(start, end)
	no := uint64(len(o))
	at := func(j uint64) uint64 { return uint64(gov.At(o, j)) }
	in := func(x uint64) bool { return gov.And(start < end, gov.And(n0 <= x, x <= n1)) }
	gov.Assert("only regions of the range that are not saved have to be", gov.Forall(func(j uint64) bool { return gov.Imp(j < no, gov.And(in(at(j)), !gov.Has(&bf.tree, at(j)))) }))
	gov.Assert("every one of them", gov.Imp(gov.And(in(q), !gov.Has(&bf.tree, q)), gov.Exists(func(j uint64) bool { return gov.And(j < no, at(j) == q) })))
	gov.Assert("each once", gov.Forall2(func(a, b uint64) bool { return gov.Imp(gov.And(a < b, b < no), at(a) < at(b)) }))
	if start < end && n0 == n1 {
		gov.Assert("a region is either saved or not", uint64(len(k))+no == 1)
		gov.Assert("a saved region is found", gov.Imp(gov.Has(&bf.tree, n0), gov.And(len(k) == 1, uint64(gov.At(k, 0)) == gov.Val(&bf.tree, n0))))
	}
	gov.Assert("nothing changes", g.wf())
}

var _ = block.MIN
