//go:build go1.21

package block

import (
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C18: aligned buffers.

func govBS() BlockSize {
	bs, err := NewBlockSize(gov.U16("blocksize"))
	gov.Assume(err == nil)
	return bs
}

//gov:native
//gov:proves block.NewBlockSize; block.Min; (block.BlockSize).Contains
func GovProve_C18_blockSize() {
	n := gov.U16("n")
	bs, err := NewBlockSize(n)
	gov.Assert("accepted exactly the non-zero multiples of 512", (err == nil) == (n != 0 && n%512 == 0))
	if err == nil {
		gov.Assert("value", bs.AsU16() == n && bs.AsU32() == uint32(n))
	}
	gov.Assert("Min is 512", Min().AsU16() == 512)
	m := BlockSize(gov.U16("m"))
	gov.Assume(m != 0)
	gov.Assert("Contains", BlockSize(n).Contains(m) == (n >= uint16(m) && n%uint16(m) == 0))
}

//gov:native
//gov:proves (block.BlockSize).CeilAlign; (block.BlockSize).FloorAlign; (block.BlockSize).IsAligned
func GovProve_C18_align() {
	bs := govBS()
	n := uint64(bs.AsU16())
	p := gov.U64("pos")
	f := bs.FloorAlign(p)
	gov.Assert("floor is aligned", f%n == 0 && bs.IsAligned(f))
	gov.Assert("floor is below and near", f <= p && p-f < n)
	gov.Assert("IsAligned", bs.IsAligned(p) == (p%n == 0))
	gov.Assume(p <= 1<<63)
	c := bs.CeilAlign(p)
	gov.Assert("ceil is aligned", c%n == 0)
	gov.Assert("ceil is above and near", c >= p && c-p < n)
}

// Buffers: the contracts are proved for every block size that is a power of
// two (and, in the thorough tier, for 1536 and 65024); the other multiples of
// 512 are run natively.
func govPow2BS() BlockSize {
	if gov.Native() {
		return govBS()
	}
	if gov.Thorough() {
		switch gov.Choice("other", 3) {
		case 1:
			return 1536
		case 2:
			return 65024
		}
	}
	return BlockSize(512 << uint(gov.Choice("log2", 7)))
}

// the representation invariant of an aligned buffer
func govABInv(ab *AlignedBytes) bool {
	n := uint64(ab.block.AsU16())
	return gov.And(gov.And(gov.Or(len(ab.buf) == 0, (gov.Addr(ab.buf)+uint64(ab.offset))%n == 0), uint64(ab.offset) < n),
		uint64(ab.offset)+ab.block.CeilAlign(uint64(ab.len)) <= uint64(len(ab.buf)))
}

func govAnyAB(bs BlockSize) *AlignedBytes {
	n := gov.U32("len")
	gov.Assume(n <= 1<<30)
	if gov.Native() {
		if n > 10000 {
			n %= 10000
		}
		ab := NewAlignedBytes(int(n), bs)
		gov.HavocBytes(ab.buf)
		return ab
	}
	ab := &AlignedBytes{buf: gov.Bytes("buf", 1<<31), len: n, block: bs, offset: gov.U16("offset")}
	gov.Assume(gov.Addr(ab.buf) < 1<<47)
	gov.Assume(govABInv(ab))
	return ab
}

func govCheckAB(ab *AlignedBytes, n uint32) {
	gov.Assert("the buffer has the length asked for", ab.Len() == n)
	b := ab.AsBytes()
	gov.Assert("exactly its length is exposed", uint64(len(b)) == uint64(n))
	gov.Assert("the address is aligned to the block size", n == 0 || gov.Addr(b)%uint64(ab.block.AsU16()) == 0)
	gov.Assert("there is room for whole blocks", govABInv(ab))
}

//gov:native
//gov:proves block.NewAlignedBytes; (*block.AlignedBytes).Len; (*block.AlignedBytes).AsBytes
func GovProve_C18_new() {
	bs := govPow2BS()
	n := gov.U32("n")
	gov.Assume(n <= 1<<30)
	if gov.Native() {
		n %= 10000
	}
	ab := NewAlignedBytes(int(n), bs)
	govCheckAB(ab, n)
	gov.Assert("block size", ab.BlockSize() == bs)
	b := ab.AsBytes()
	gov.Assert("a new buffer is zero", gov.Forall(func(i uint64) bool { return gov.Imp(i < uint64(n), gov.At(b, i) == 0) }))
}

//gov:native
//gov:proves (*block.AlignedBytes).Resize
func GovProve_C18_resize() {
	ab := govAnyAB(govPow2BS())
	old, n := gov.Snapshot(ab.AsBytes()), gov.U32("n")
	gov.Assume(n <= 1<<30)
	if gov.Native() {
		n %= 20000
	}
	ab.Resize(n)
	govCheckAB(ab, n)
	b := ab.AsBytes()
	gov.Assert("content is kept", gov.Forall(func(i uint64) bool {
		return gov.Imp(gov.And(i < uint64(n), i < uint64(len(old))), gov.At(b, i) == gov.At(old, i))
	}))
}

//gov:native
//gov:proves (*block.AlignedBytes).Align; (*block.AlignedBytes).AlignResize; (*block.AlignedBytes).Truncate
func GovProve_C18_alignBuffer() {
	ab := govAnyAB(govPow2BS())
	old := gov.Snapshot(ab.AsBytes())
	var n uint32
	switch gov.Choice("op", 3) {
	case 0:
		gov.Assert("Align returns the buffer", ab.Align() == ab)
		n = uint32(ab.block.CeilAlign(uint64(len(old))))
	case 1:
		m := gov.U32("n")
		gov.Assume(m <= 1<<30)
		if gov.Native() {
			m %= 20000
		}
		ab.AlignResize(m)
		n = uint32(ab.block.CeilAlign(uint64(m)))
	case 2:
		m := gov.U32("n")
		ab.Truncate(m)
		n = gov.Ite(m < uint32(len(old)), m, uint32(len(old)))
	}
	govCheckAB(ab, n)
	b := ab.AsBytes()
	gov.Assert("content is kept", gov.Forall(func(i uint64) bool {
		return gov.Imp(gov.And(i < uint64(n), i < uint64(len(old))), gov.At(b, i) == gov.At(old, i))
	}))
}

//gov:native
//gov:proves block.FromBytes
func GovProve_C18_fromBytes() {
	bs := govPow2BS()
	var src []byte
	if gov.Native() {
		k, c := gov.U64("srclen")%3000, gov.U64("cap")%3000
		if k > c {
			k = c
		}
		src = make([]byte, c)[:k]
		gov.HavocBytes(src)
	} else {
		b := gov.Bytes("src", 1<<30)
		k := gov.U64("srclen")
		gov.Assume(k <= uint64(len(b)))
		gov.Assume(gov.Addr(b) < 1<<47)
		src = b[:k]
	}
	old := gov.Snapshot(src)
	ab := FromBytes(src, bs)
	govCheckAB(ab, uint32(len(old)))
	b := ab.AsBytes()
	gov.Assert("it holds exactly the bytes of the slice", gov.EqBytes(b, old))
	ab.Align()
	govCheckAB(ab, uint32(bs.CeilAlign(uint64(len(old)))))
}

// ---- for the callers in other packages ----

// GovUseAligned installs the contract of Resize (proved by
// GovProve_C18_resize): the length is as asked for, what both lengths cover
// is kept, any further bytes are arbitrary.
func GovUseAligned() {
	gov.Use("(*block.AlignedBytes).Resize", func(ab *AlignedBytes, n uint32) {
		gov.Assert("the buffer stays below 1 GiB", n <= 1<<30)
		old := ab.AsBytes()
		nb := gov.BytesN("resized", ab.block.CeilAlign(uint64(n)))
		gov.CopyBytes(nb, old, 0, 0, gov.Ite(uint64(n) < uint64(len(old)), uint64(n), uint64(len(old))))
		ab.buf, ab.offset, ab.len = nb, 0, n
	})
}

// GovUseAlignedAny: the same without the content, for callers whose data does
// not matter.
func GovUseAlignedAny() {
	gov.Use("(*block.AlignedBytes).Resize", func(ab *AlignedBytes, n uint32) {
		if n > 1<<30 {
			panic("too large")
		}
		ab.buf, ab.offset, ab.len = gov.BytesN("resized", ab.block.CeilAlign(uint64(n))), 0, n
	})
}

// GovAligned is any aligned buffer of n bytes.
func GovAligned(name string, n uint32, bs BlockSize) *AlignedBytes {
	b := gov.BytesN(name, bs.CeilAlign(uint64(n)))
	return &AlignedBytes{buf: b, len: n, block: bs, offset: 0}
}


// GovUseFromBytes installs the contract of FromBytes (proved by
// GovProve_C18_fromBytes): a buffer that holds exactly the bytes given.
func GovUseFromBytes() {
	gov.Use("block.FromBytes", func(b []byte, bs BlockSize) *AlignedBytes {
		n := uint64(len(b))
		nb := gov.BytesN("copied", bs.CeilAlign(n))
		gov.CopyBytes(nb, b, 0, 0, n)
		return &AlignedBytes{buf: nb, len: uint32(n), block: bs, offset: 0}
	})
}
