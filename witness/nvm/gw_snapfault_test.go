//go:build go1.21

package nvm

import (
	"bytes"
	"math/rand"
	"os"
	"os/signal"
	"syscall"
	"testing"

	"github.com/thesues/cannyls-go/zzgw"
)

// gwFull runs f while no file can grow past n bytes, as on a full disk.
func gwFull(n int64, f func()) {
	var old syscall.Rlimit
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	lim := old
	lim.Cur = uint64(n)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// A region that can not be saved keeps the write from happening, and the
// snapshot stays as it was, now and after a reopening.
func TestGov_C14_full(t *testing.T) {
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	zzgw.Loop(t, 6, 3000, func(i int, r *rand.Rand) {
		out := os.Stdout
		os.Stdout = null
		defer func() { os.Stdout = out }()
		g := gwNewSnap(t, r)
		defer os.RemoveAll(g.dir)
		defer func() {
			if p := recover(); p != nil {
				g.fatal("panic: %v", p)
			}
		}()
		g.create()
		for k := 0; k < r.Intn(4); k++ {
			g.write()
		}
		size := int64(0)
		if st, err := os.Stat(g.snapFile()); err == nil {
			size = st.Size()
		}
		lim := size + int64(r.Intn(2*gwRegion))
		if r.Intn(3) == 0 {
			lim = size + int64(r.Intn(40))
		}
		for k := 0; k < 3; k++ {
			x := g.views[r.Intn(len(g.views))]
			n := len(x.data)
			off := 512 * r.Intn(n/512+1)
			buf := gwBuf(512 * (1 + r.Intn(3000)))
			r.Read(buf)
			d := g.cap - cap(x.data)
			keep := append([]byte(nil), g.cur...)
			at := r.Intn(2) == 0
			var m int
			var err error
			if !at {
				x.v.Seek(int64(off), 0)
			}
			gwFull(lim, func() {
				if at {
					m, err = x.v.WriteAt(buf, int64(off))
				} else {
					m, err = x.v.Write(buf)
				}
			})
			g.f.logf("%s: %d bytes at %d with files limited to %d: %d %v", x.name, len(buf), off, lim, m, err)
			now, rerr := os.ReadFile(g.path)
			if rerr != nil {
				t.Skip(rerr)
			}
			now = append(now, make([]byte, g.cap-len(now))...)
			if err == nil {
				copy(x.data[off:], buf[:m])
				if j := gwDiff(now, g.cur); j < len(now) {
					g.fatal("the device differs from what was written at %d", j)
				}
			} else {
				// nothing outside of the addressed bytes changed
				e := d + off + gwMin(len(buf), n-off)
				if !bytes.Equal(now[:d+off], keep[:d+off]) || !bytes.Equal(now[e:], keep[e:]) {
					g.fatal("a failed write changed other bytes")
				}
				copy(g.cur, now)
			}
			g.whole()
		}
		g.reopen(false)
		g.whole()
		for k := 0; k < 3; k++ {
			g.hit = map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true, 5: true, 6: true}
			g.write()
		}
		g.whole()
		g.device()
		g.reopen(false)
		g.whole()
		g.s.Close()
	})
}

// A snapshot that can not be created is not there afterwards.
func TestGov_C14_createFails(t *testing.T) {
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	zzgw.LoopB(t, zzgw.Budget()/3, 3, 300, func(i int, r *rand.Rand) {
		out := os.Stdout
		os.Stdout = null
		defer func() { os.Stdout = out }()
		g := gwNewSnap(t, r)
		defer os.RemoveAll(g.dir)
		var err error
		gwFull(int64(r.Intn(60)), func() { err = g.s.CreateSnapshotIfNeeded() })
		g.f.logf("snapshot that does not fit: %v", err)
		if err == nil {
			g.old = append([]byte{}, g.cur[:g.rawLen()]...)
			g.hit = map[int]bool{}
		}
		g.write()
		if err != nil && r.Intn(2) == 0 {
			g.create()
		}
		g.write()
		g.reopen(false)
		g.write()
		g.whole()
		g.s.Close()
	})
}
