//go:build go1.21

package lump

import (
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C19: the identifier codec is a bijection and the order is the numeric order.

//gov:native
//gov:proves (lump.LumpId).GetBytes; lump.FromBytes; lump.FromU64; (lump.LumpId).U64
func GovProve_C19_bytesRoundTrip() {
	x := gov.U64("id")
	id := FromU64(gov.U64("hi"), x)
	gov.Assert("U64 is the value given", id.U64() == x)
	b := id.GetBytes()
	gov.Assert("eight bytes", len(b) == 8)
	for i := 0; i < 8; i++ {
		gov.Assert("big-endian byte", b[i] == byte(x>>(56-8*uint(i))))
	}
	back, err := FromBytes(b)
	gov.Assert("decoding succeeds", err == nil)
	gov.Assert("decoding inverts encoding", back == id)
}

//gov:native
//gov:proves lump.FromBytes
func GovProve_C19_fromBytes() {
	b := gov.Bytes("b", 64)
	id, err := FromBytes(b)
	if len(b) != 8 {
		gov.Assert("only 8 byte encodings are accepted", err != nil)
		return
	}
	gov.Assert("every 8 byte encoding is accepted", err == nil)
	gov.Assert("encoding inverts decoding", gov.EqBytes(id.GetBytes(), b))
}

//gov:native
//gov:proves (lump.LumpId).Compare; (lump.LumpId).IsMax; (lump.LumpId).Inc; lump.EmptyLump
func GovProve_C19_order() {
	x, y := gov.U64("x"), gov.U64("y")
	a, b := FromU64(0, x), FromU64(0, y)
	c := a.Compare(b)
	gov.Assert("Compare is negative exactly when less", (c < 0) == (x < y))
	gov.Assert("Compare is positive exactly when greater", (c > 0) == (x > y))
	gov.Assert("Compare is zero exactly when equal", (c == 0) == (x == y))
	gov.Assert("equality is numeric", (a == b) == (x == y))
	gov.Assert("IsMax", a.IsMax() == (x == ^uint64(0)))
	gov.Assert("Inc is the successor", a.IsMax() || a.Inc().U64() == x+1)
	gov.Assert("EmptyLump is id 0", EmptyLump().U64() == 0)
}

// The hexadecimal text.  strconv is assumed: what ParseUint gives for the text
// that FormatUint made in the same base is the number; it rejects every text
// that is not one of at most so many bits.
//
//gov:proves (lump.LumpId).String; lump.FromString
func GovProve_C19_text() {
	x := gov.U64("id")
	gov.Use("strconv.FormatUint", func(v uint64, base int) string {
		gov.Assert("the text of an id is its number in base 16", gov.And(v == x, base == 16))
		return "the text"
	})
	malformed := gov.Choice("malformed", 2) == 1
	gov.Use("strconv.ParseUint", func(s string, base, bits int) (uint64, error) {
		gov.Assert("the text is read as it is", s == "the text")
		gov.Assert("a text is read in base 16", base == 16)
		gov.Assert("ids of all 64 bits are read", gov.Or(bits == 64, bits == 0))
		if malformed {
			return gov.U64("rest"), gov.SomeErr("syntax")
		}
		return x, nil
	})
	s := FromU64(gov.U64("hi"), x).String()
	gov.Assert("the text is the number in base 16", s == "the text")
	id, err := FromString(s)
	if malformed {
		gov.Assert("malformed text is rejected", gov.And(err != nil, gov.ErrIs(err, internalerror.InvalidInput)))
		return
	}
	gov.Assert("well-formed text is accepted", err == nil)
	gov.Assert("reading the text inverts writing it", id.U64() == x)
}

// The buffer for a lump of so many bytes.
//
//gov:proves lump.NewLumpDataAligned; lump.NewLumpDataWithAb; (lump.LumpData).AsBytes
func GovProve_C18_lumpData() {
	bs := block.BlockSize(512 << uint(gov.Choice("log2", 7))) // as the contracts of the buffer
	size := gov.Int("size")
	gov.Assume(size >= 0)
	d := NewLumpDataAligned(size, bs)
	if size > LUMP_MAX_SIZE {
		gov.Assert("there is no buffer for a lump above the limit", d.Inner == nil)
		return
	}
	gov.Assert("there is a buffer for a lump up to the limit", d.Inner != nil)
	gov.Assert("it has the bytes of the lump", len(d.AsBytes()) == size)
	e := NewLumpDataWithAb(d.Inner)
	gov.Assert("a lump has the bytes of its buffer", gov.And(e.Inner == d.Inner, gov.SameArray(e.AsBytes(), d.AsBytes())))
}
