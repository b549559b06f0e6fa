//go:build go1.21

package nvm

import (
	"io"

	"github.com/thesues/cannyls-go/block"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C12: the superblock.

// govSink takes what is written to it, and may fail.
type govSink struct {
	data   []byte
	pos    uint64
	failed bool
	faulty bool
}

func (g *govSink) Write(p []byte) (int, error) {
	if g.faulty {
		if err := gov.Err("writer"); err != nil {
			g.failed = true
			return 0, err
		}
	}
	gov.CopyBytes(g.data, p, g.pos, 0, uint64(len(p)))
	g.pos += uint64(len(p))
	return len(p), nil
}

// govSource reads like a file: as much as was asked for, until its end.
type govSource struct {
	data []byte
	pos  uint64
}

func (g *govSource) Read(p []byte) (int, error) {
	l, rest := uint64(len(p)), uint64(len(g.data))-g.pos
	if l == 0 {
		return 0, nil
	}
	if rest == 0 {
		return 0, io.EOF
	}
	if l <= rest {
		gov.CopyBytes(p, g.data, 0, g.pos, l)
		g.pos += l
		return len(p), nil
	}
	gov.CopyBytes(p, g.data, 0, g.pos, rest)
	g.pos += rest
	return int(rest), nil
}

func govBE(b []byte, o, n uint64) (v uint64) {
	for i := uint64(0); i < n; i++ {
		v = v<<8 | uint64(gov.At(b, o+i))
	}
	return
}

func govAnyHeader() *StorageHeader {
	h := &StorageHeader{MajorVersion: gov.U16("major"), MinorVersion: gov.U16("minor"), BlockSize: block.BlockSize(gov.U16("block size")),
		JournalRegionSize: gov.U64("journal size"), DataRegionSize: gov.U64("data size")}
	copy(h.UUID[:], gov.BytesN("uuid", 16))
	return h
}

func govHeaderOK(h *StorageHeader) bool {
	bs := uint64(h.BlockSize)
	return gov.And(gov.And(h.MajorVersion == MAJOR_VERSION, h.MinorVersion == MINOR_VERSION),
		gov.And(gov.And(bs >= 512, bs&511 == 0), gov.And(h.JournalRegionSize < 1<<40, h.DataRegionSize <= (1<<40-1)*512)))
}

//gov:proves (*nvm.StorageHeader).WriteTo; nvm.ReadFrom
func GovProve_C12_roundtrip() {
	h := govAnyHeader()
	gov.Assume(govHeaderOK(h))
	was := *h
	w := &govSink{data: gov.Zeros(600)}
	err := h.WriteTo(w)
	gov.Assert("a header can be written", err == nil)
	gov.Assert("it has the size it declares", w.pos == uint64(FULL_HEADER_SIZE))
	gov.Assert("writing does not change it", *h == was)
	got, err := ReadFrom(&govSource{data: w.data})
	gov.Assert("what was written is accepted", err == nil)
	if err == nil {
		gov.Assert("and read back unchanged", *got == was)
	}
}

// Any bytes presented as a header.
//
//gov:proves nvm.ReadFrom
func GovProve_C12_read() {
	b := gov.Bytes("file", 4096)
	h, err := ReadFrom(&govSource{data: b})
	valid := gov.And(len(b) >= int(FULL_HEADER_SIZE), gov.And(gov.And(govBE(b, 0, 4) == 0x6c757366, govBE(b, 4, 2) == 38), gov.And(govBE(b, 6, 2) == 2, govBE(b, 8, 2) == 1)))
	bs := govBE(b, 10, 2)
	valid = gov.And(valid, gov.And(gov.And(bs >= 512, bs&511 == 0), gov.And(govBE(b, 28, 8) < 1<<40, govBE(b, 36, 8) <= (1<<40-1)*512)))
	gov.Assert("exactly a well-formed header is accepted", (err == nil) == valid)
	gov.Assert("a header or an error is returned", (err == nil) == (h != nil))
	if err != nil || h == nil {
		return
	}
	gov.Assert("its fields are the ones stored", gov.And(govHeaderOK(h), gov.And(uint64(h.BlockSize) == bs, gov.And(h.JournalRegionSize == govBE(b, 28, 8), h.DataRegionSize == govBE(b, 36, 8)))))
	gov.Assert("its uuid is the one stored", gov.SameBytes(h.UUID[:], 0, b, 12, 16))
}

//gov:proves (*nvm.StorageHeader).WriteHeaderRegionTo; (*nvm.StorageHeader).WriteTo; (*nvm.StorageHeader).RegionSize; (*nvm.StorageHeader).StorageSize
func GovProve_C12_region() {
	h := govAnyHeader()
	gov.Assume(govHeaderOK(h))
	w := &govSink{data: gov.Bytes("was there", 1<<20), faulty: true}
	gov.Assume(len(w.data) >= 1<<17)
	err := h.WriteHeaderRegionTo(w)
	gov.Assert("a failed write is reported", (err != nil) == w.failed)
	r, bs := h.RegionSize(), uint64(h.BlockSize)
	gov.Assert("the header region is the smallest number of whole blocks", gov.And(r == bs, r >= uint64(FULL_HEADER_SIZE)))
	gov.Assert("the size of the store is that of its regions", h.StorageSize() == r+h.JournalRegionSize+h.DataRegionSize)
	if err == nil {
		gov.Assert("the header region is filled", w.pos == r)
		x := gov.U64("byte")
		gov.Assert("with zeros behind the header", gov.Imp(gov.And(uint64(FULL_HEADER_SIZE) <= x, x < r), gov.At(w.data, x) == 0))
		gov.Assert("behind its magic number", govBE(w.data, 0, 4) == 0x6c757366)
	}
}

//gov:proves (*nvm.StorageHeader).SplitRegion; (*nvm.FileNVM).Split
func GovProve_C12_split() {
	d := govAnyDisk(false)
	v := govAnyView(d)
	h := govAnyHeader()
	gov.Assume(govHeaderOK(h))
	before := *v
	c, r := v.Capacity(), h.RegionSize()
	a, b := h.SplitRegion(v)
	fits := gov.And(gov.And(r <= c, h.JournalRegionSize&511 == 0), h.JournalRegionSize <= c-r)
	gov.Assert("exactly regions that do not fit are refused", gov.And((a == nil) == !fits, (b == nil) == !fits))
	if a == nil || b == nil {
		return
	}
	j, k := a.(*FileNVM), b.(*FileNVM)
	gov.Assert("the regions follow each other", gov.And(j.viewStart == before.viewStart+r, gov.And(j.viewEnd == j.viewStart+h.JournalRegionSize, k.viewStart == j.viewEnd)))
	gov.Assert("and end with the store", gov.And(k.viewEnd == before.viewEnd, gov.Imp(c == h.StorageSize(), k.Capacity() == h.DataRegionSize)))
	gov.Assert("they are regions of the same device", j.file == d.f && k.file == d.f)
}
