//go:build go1.21

package storage

import (
	"math/rand"
	"os/signal"
	"syscall"
	"testing"

	"github.com/thesues/cannyls-go/zzgw"
)

// gwFull runs f while no file can be written past n bytes.
func gwFull(n uint64, f func()) {
	var old syscall.Rlimit
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	lim := old
	lim.Cur = n
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// A device that refuses writes to a part of the data region: what fails leaves
// index, journal and free space in agreement.
func TestGov_C17_device(t *testing.T) {
	zzgw.Loop(t, 6, 4000, func(i int, r *rand.Rand) {
		defer gwQuiet()()
		g := gwNew(t, r, uint64(64+r.Intn(200))<<10, 0.1+0.2*r.Float64())
		defer g.done()
		g.maxPut = 3000 + r.Intn(9000)
		h := g.s.Header()
		start := h.RegionSize() + h.JournalRegionSize
		for k := 0; k < 70; k++ {
			if r.Intn(3) == 0 {
				g.step()
			} else {
				lim := start + uint64(r.Intn(int(h.DataRegionSize)))
				if r.Intn(2) == 0 {
					lim = start + uint64(r.Intn(1+int(g.usedBlocks()+4)*512))
				}
				g.logf("no writes past %d:", lim)
				id := g.id()
				gwFull(lim, func() {
					switch _, had := g.m[id]; {
					case r.Intn(3) > 0:
						b := g.bytes(g.size())
						_, err := g.s.Put(gwId(id), gwLumpData(b))
						g.logf("put(%d,%d)=%v", id, len(b), err)
						if err == nil {
							g.m[id] = gwLump{data: b}
						} else {
							g.afterFailed(id, "put")
						}
					case !had:
						b := g.bytes(g.size())
						off := uint32(g.size())
						err := g.s.PutWithOffset(gwId(id), gwLumpData(b), off, 0)
						g.logf("putWithOffset(%d,%d,%d)=%v", id, len(b), off, err)
						if err == nil {
							g.m[id] = gwLump{data: append(make([]byte, off), b...)}
						} else {
							g.afterFailed(id, "PutWithOffset")
						}
					default:
						g.del(id)
					}
				})
			}
			g.all("after an operation")
			if r.Intn(20) == 0 {
				g.reopen()
				g.all("reopened")
			}
		}
		g.reopen()
		g.all("reopened")
		// nothing leaked: everything can be deleted and is free then
		for _, id := range g.sorted() {
			if g.del(id) != nil {
				return
			}
		}
		g.space("empty")
	})
}
