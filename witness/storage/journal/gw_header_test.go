//go:build go1.21

package journal

import (
	"bytes"
	"math/rand"
	"testing"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/zzgw"
)

// The start of the journal reads back unchanged, and nothing but its block is
// written.
func TestGov_C12_journalHeader(t *testing.T) {
	zzgw.LoopB(t, zzgw.Budget()/4, 200, 200000, func(i int, r *rand.Rand) {
		b := make([]byte, 512*(1+r.Intn(4)))
		r.Read(b)
		keep := append([]byte(nil), b...)
		m, err := nvm.NewFromVec(b)
		if err != nil {
			t.Fatal(err)
		}
		h := NewJournalHeadRegion(m)
		x := uint64(0)
		wrote := false
		for k := 0; k < 6; k++ {
			switch r.Intn(4) {
			case 0:
				m.Seek(int64(512*r.Intn(len(b)/512+1)), 0)
			case 1, 2:
				x = r.Uint64() >> uint(r.Intn(64))
				if err := h.WriteTo(x); err != nil {
					t.Fatal(err)
				}
				wrote = true
			}
			if wrote {
				g := h
				if r.Intn(2) == 0 {
					g = NewJournalHeadRegion(m)
				}
				if y, err := g.ReadFrom(); err != nil || y != x {
					t.Fatalf("head %d was written, %d %v read", x, y, err)
				}
			}
			if !bytes.Equal(b[512:], keep[512:]) {
				t.Fatalf("writing the head changed bytes behind its block")
			}
		}
	})
}
