//go:build go1.21

package storage

//gov:race

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/zzgw"
)

// gwStamp makes bytes that tell which lump and which version they are.
func gwStamp(id, version uint64, n int) []byte {
	b := make([]byte, 16+n)
	binary.BigEndian.PutUint64(b, id)
	binary.BigEndian.PutUint64(b[8:], version)
	for i := 16; i < len(b); i++ {
		b[i] = byte(id*31 + version*7 + uint64(i))
	}
	return b
}

func gwStamped(b []byte, id uint64) bool {
	if len(b) < 16 || binary.BigEndian.Uint64(b) != id {
		return false
	}
	return bytes.Equal(b, gwStamp(id, binary.BigEndian.Uint64(b[8:]), len(b)-16))
}

// Many goroutines use one store under the race detector. Each owns some ids and
// knows what they hold, all of them overwrite and read a few shared ones.
func TestGov_C15_stress(t *testing.T) {
	zzgw.Loop(t, 2, 400, func(i int, r *rand.Rand) {
		nvm.DEFAULT_REGION_SHIFT = 20
		restore := gwQuiet()
		defer restore()
		g := gwNew(t, r, 700<<10, 0.15+0.2*r.Float64())
		defer g.done()
		if r.Intn(4) == 0 {
			g.s.SetAutomaticGcMode(false)
		}
		var wg sync.WaitGroup
		var ticks int64
		var failed atomic.Value
		fail := func(f string, a ...interface{}) {
			failed.CompareAndSwap(nil, fmt.Sprintf(f, a...))
		}
		const workers = 6
		models := make([]map[uint64][]byte, workers)
		for w := 0; w < workers; w++ {
			w := w
			m := map[uint64][]byte{}
			models[w] = m
			q := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						b := make([]byte, 8192)
						fail("panic: %v\n%s", p, b[:runtime.Stack(b, false)])
					}
				}()
				base := uint64(1000 * (w + 1))
				for k := 0; k < 250 && failed.Load() == nil; k++ {
					atomic.AddInt64(&ticks, 1)
					id := base + uint64(q.Intn(6))
					shared := uint64(q.Intn(4))
					switch q.Intn(20) {
					case 0, 1, 2:
						b := gwStamp(id, uint64(k), q.Intn(3000))
						if _, err := g.s.Put(gwId(id), gwLumpData(b)); err == nil {
							m[id] = b
						} else if _, err := g.s.Get(gwId(id)); err != nil {
							delete(m, id)
						}
					case 3, 4:
						b := gwStamp(id, uint64(k), q.Intn(300))
						if _, err := g.s.PutEmbed(gwId(id), b); err == nil {
							m[id] = b
						}
					case 5:
						if _, _, err := g.s.Delete(gwId(id)); err == nil {
							delete(m, id)
						}
					case 6:
						a, b := base+uint64(q.Intn(6)), base+uint64(q.Intn(7))
						if err := g.s.DeleteRange(gwId(a), gwId(b), q.Intn(2) == 0 || true); err == nil {
							for x := a; x < b; x++ {
								delete(m, x)
							}
						}
					case 7:
						old, ok := m[id]
						if y, err := g.s.GetRecord(gwId(id)); ok && err == nil && y != nil {
							n := q.Intn(len(old))
							c := append([]byte(nil), old...)
							q.Read(c[n:])
							if err := g.s.PutWithOffset(gwId(id), gwLumpData(c[n:]), uint32(n), 0); err != nil {
								fail("an update in place failed: %v", err)
							}
							m[id] = c
						}
					case 8:
						if _, ok := m[id]; !ok {
							b := gwStamp(id, uint64(k), q.Intn(1000))
							if err := g.s.PutWithOffset(gwId(id), gwLumpData(b), 100, 0); err == nil {
								m[id] = append(make([]byte, 100), b...)
							}
						}
					case 9, 10:
						g.s.Put(gwId(shared), gwLumpData(gwStamp(shared, uint64(w*1000+k), q.Intn(2500))))
					case 11:
						g.s.Delete(gwId(shared))
					case 12, 13:
						if b, err := g.s.Get(gwId(shared)); err == nil && !gwStamped(b, shared) {
							fail("lump %d has %d bytes that were never stored together", shared, len(b))
						}
					case 14:
						if b, err := g.s.GetWithOffset(gwId(shared), 0, 8); err == nil && binary.BigEndian.Uint64(b) != shared {
							fail("range of lump %d shows another lump", shared)
						}
						g.s.GetSize(gwId(shared))
						g.s.GetSizeOnDisk(gwId(shared))
					case 15:
						l := g.s.List()
						for j := 1; j < len(l); j++ {
							if l[j-1].U64() >= l[j].U64() {
								fail("List is not in order")
							}
						}
						g.s.ListRange(gwId(0), gwId(5000), 7)
						g.s.MinId()
						g.s.MaxId()
						g.s.First(gwId(shared))
						g.s.GenerateEmptyId()
					case 16:
						switch q.Intn(4) {
						case 0:
							g.s.JournalGC()
						case 1:
							g.s.RunSideJobOnce(1 + q.Intn(5))
						case 2:
							g.s.Sync()
						default:
							g.s.Flush()
						}
					case 17:
						g.s.Usage()
						g.s.Header()
						g.s.JournalSnapshot()
						g.s.SetAutomaticGcMode(q.Intn(3) > 0)
					case 18:
						switch q.Intn(8) {
						case 0:
							g.s.CreateSnapshot()
						case 1:
							if w == 0 {
								g.s.DeleteSnapshot()
							}
						case 2:
							if w == 0 {
								if rd, err := g.s.GetSnapshotReader(); err == nil {
									io.CopyN(io.Discard, rd, 100000)
								}
							}
						}
					default:
						if b, ok := m[id]; ok {
							y, err := g.s.Get(gwId(id))
							if err != nil || !bytes.Equal(b, y) {
								fail("lump %d, used by one goroutine only, has other bytes: %d %v, want %d", id, len(y), err, len(b))
							}
						} else if _, err := g.s.Get(gwId(id)); err == nil {
							fail("lump %d, used by one goroutine only, came back", id)
						}
					}
				}
			}()
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		last, since := int64(-1), time.Now()
	wait:
		for {
			select {
			case <-done:
				break wait
			case <-time.After(200 * time.Millisecond):
			}
			if n := atomic.LoadInt64(&ticks); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 60*time.Second {
				b := make([]byte, 1<<20)
				b = b[:runtime.Stack(b, true)]
				os.Stderr.Write(b)
				os.Stderr.WriteString("\nGOVFAIL no operation completes any more: deadlock\n")
				os.Exit(2) // a panic would run the deferred Close, which waits for the locks
			}
		}
		if m := failed.Load(); m != nil {
			t.Fatal(m)
		}
		check := func(when string) {
			for w, m := range models {
				for k := 0; k < 7; k++ {
					id := uint64(1000*(w+1) + k)
					want, had := m[id]
					b, err := g.s.Get(gwId(id))
					if had != (err == nil) || had && !bytes.Equal(b, want) {
						t.Fatalf("%s: lump %d exists %v, got %d bytes %v, want %d", when, id, had, len(b), err, len(want))
					}
				}
			}
			used := uint64(0)
			n := 0
			for _, id := range g.s.List() {
				n++
				if p, err := g.s.GetRecord(id); err == nil {
					used += uint64(p.Len)
				}
				if id.U64() < 4 {
					if b, err := g.s.Get(id); err != nil || !gwStamped(b, id.U64()) {
						t.Fatalf("%s: shared lump %d has bytes that were never stored together: %v", when, id.U64(), err)
					}
				}
			}
			u, h := g.s.Usage(), g.s.Header()
			if u.DataFreeBytes != h.DataRegionSize-used*512 || u.FileCounts != uint64(n) {
				t.Fatalf("%s: %d bytes of %d are free, the lumps occupy %d blocks; %d lumps counted, %d listed", when, u.DataFreeBytes, h.DataRegionSize, used, u.FileCounts, n)
			}
		}
		check("at the end")
		g.reopen()
		check("reopened")
	})
}
