//go:build go1.21

package storage

//gov:race

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/thesues/cannyls-go/zzgw"
)

// Close while operations run: each of them completes or reports the closed
// store, and what completed is there after reopening.
func TestGov_C16_running(t *testing.T) {
	zzgw.Loop(t, 10, 3000, func(i int, r *rand.Rand) {
		defer gwQuiet()()
		g := gwNew(t, r, 1<<20, 0.3)
		defer g.done()
		for id := uint64(0); id < 20; id++ {
			g.put(id, g.bytes(r.Intn(2000)))
		}
		type res struct {
			id   uint64
			data []byte
			gone bool
		}
		out := make([][]res, 4)
		var wg sync.WaitGroup
		bad := make(chan string, 100)
		for w := 0; w < 4; w++ {
			w := w
			q := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad <- fmt.Sprintf("an operation panicked while the store was closed: %v", p)
					}
				}()
				for k := 0; ; k++ {
					id := uint64(1000*(w+1) + q.Intn(8))
					b := make([]byte, q.Intn(1500))
					q.Read(b)
					var err error
					x := res{id: id, data: b}
					switch q.Intn(4) {
					case 0:
						_, err = g.s.Put(gwId(id), gwLumpData(b))
					case 1:
						b = b[:len(b)/8]
						x.data = b
						_, err = g.s.PutEmbed(gwId(id), b)
					case 2:
						_, _, err = g.s.Delete(gwId(id))
						x.gone = true
					default:
						x := uint64(q.Intn(20))
						if y, e := g.s.Get(gwId(x)); e == nil && !bytes.Equal(y, g.m[x].data) {
							bad <- fmt.Sprintf("lump %d has %d other bytes while the store is closed", x, len(y))
							return
						}
						kept := 0
						l := g.s.List()
						for _, y := range l {
							if y.U64() < 20 {
								kept++
							}
						}
						if len(l) != 0 && kept != 20 {
							bad <- fmt.Sprintf("%d of 20 lumps are listed while the store is closed", kept)
							return
						}
						g.s.GetSizeOnDisk(gwId(3))
						g.s.RunSideJobOnce(1)
						g.s.Flush()
						if k > 3000 {
							return
						}
						continue
					}
					if err != nil {
						if len(g.s.List()) == 0 { // closed
							return
						}
						x.gone = true
						x.data = nil
						// full: find out what is left
						if y, e := g.s.Get(gwId(id)); e == nil {
							x.gone, x.data = false, y
						} else if len(g.s.List()) == 0 {
							return
						}
					}
					out[w] = append(out[w], x)
					if k > 3000 {
						return
					}
				}
			}()
		}
		for k := r.Intn(3000); k > 0; k-- {
			g.s.MinId()
		}
		g.s.Close()
		wg.Wait()
		select {
		case m := <-bad:
			g.fatal("%s", m)
		default:
		}
		s, err := OpenCannylsStorage(g.path)
		if err != nil {
			g.fatal("reopen after a concurrent close: %v", err)
		}
		g.s = s
		for _, l := range out {
			last := map[uint64]res{}
			for _, x := range l {
				last[x.id] = x
			}
			n := 0
			for id, x := range last {
				y, err := s.Get(gwId(id))
				if (err == nil) == x.gone || err == nil && !bytes.Equal(x.data, y) {
					n++ // the operation that observed the close may have completed
				}
			}
			if n > 1 {
				g.fatal("%d operations that completed before the close are lost", n)
			}
		}
		for id := uint64(0); id < 20; id++ {
			if y, err := s.Get(gwId(id)); err != nil || !bytes.Equal(y, g.m[id].data) {
				g.fatal("lump %d is lost: %v", id, err)
			}
		}
	})
}
