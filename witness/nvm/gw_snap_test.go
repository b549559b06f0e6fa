//go:build go1.21

package nvm

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/thesues/cannyls-go/zzgw"
)

// A model of a device with at most one snapshot. Regions of 1 MiB, the smallest
// the format allows.

const gwRegion = 1 << 20

type gwSnap struct {
	t     *testing.T
	r     *rand.Rand
	dir   string
	name  string
	path  string
	cap   int
	s     *SnapNVM
	views []*gwView
	cur   []byte // the device
	old   []byte // the device when the snapshot was taken, nil without snapshot
	hit   map[int]bool
	rds   []*gwReader
	f     gwFail
	torn  int64
}

type gwReader struct {
	r   *SnapshotReader
	pos int
}

func (g *gwSnap) fatal(s string, a ...interface{}) {
	g.t.Helper()
	g.t.Fatalf("%s\ndevice %q of %d bytes, history: %s", fmt.Sprintf(s, a...), g.name, g.cap, strings.Join(g.f.log, "; "))
}

func gwNewSnap(t *testing.T, r *rand.Rand) *gwSnap {
	DEFAULT_REGION_SHIFT = 20
	dir, err := os.MkdirTemp("", "gwsnap")
	if err != nil {
		t.Skip(err)
	}
	name := "store"
	if r.Intn(3) == 0 { // any name, also one with characters that mean something in a pattern
		name = []string{"s[0-9]e", "s*", "a?b", `x\y`, "store_2", "[", "a b", "%s", "_"}[r.Intn(9)]
	}
	g := &gwSnap{t: t, r: r, dir: dir, name: name, path: filepath.Join(dir, name+".lusf")}
	g.cap = gwRegion*(1+r.Intn(4)) + 512*r.Intn(2048)
	f, err := CreateIfAbsent(g.path, uint64(g.cap))
	if err != nil {
		t.Skip(err)
	}
	g.cur = make([]byte, g.cap)
	n := g.cap
	if r.Intn(3) == 0 {
		// the file does not reach the end of the device
		n = 512 * r.Intn(g.cap/512+1)
	}
	r.Read(g.cur[:n])
	if err := os.WriteFile(g.path, g.cur[:n], 0o644); err != nil {
		t.Skip(err)
	}
	g.open(f)
	// the snapshot of another store next to it
	os.WriteFile(filepath.Join(dir, name+"_2_6ba7b810-9dad-11d1-80b4-00c04fd430c8_lusf.snapshot"), []byte("not yours"), 0o644)
	return g
}

func (g *gwSnap) open(f *FileNVM) {
	s, err := NewSnapshotNVM(f)
	if err != nil {
		g.fatal("open: %v", err)
	}
	g.s = s
	g.split()
	g.rds = nil
}

func (g *gwSnap) split() {
	g.views = []*gwView{{v: g.s, data: g.cur, name: "root"}}
	x := g.views[0]
	for k := 0; k < 2; k++ {
		p := 512 * g.r.Intn(len(x.data)/512+1)
		if g.r.Intn(3) == 0 {
			p = p / gwRegion * gwRegion
		}
		a, b, err := x.v.Split(uint64(p))
		if err != nil {
			g.fatal("split: %v", err)
		}
		g.f.logf("%s.Split(%d)", x.name, p)
		g.views = append(g.views, &gwView{v: a, data: x.data[:p], name: x.name + "L"}, &gwView{v: b, data: x.data[p:], name: x.name + "R"})
		x = g.views[len(g.views)-1]
	}
}

// snapFiles are the files that belong to a snapshot of this device.
func (g *gwSnap) snapFiles(suffix string) (m []string) {
	es, _ := os.ReadDir(g.dir)
	for _, e := range es {
		if n := e.Name(); strings.HasPrefix(n, g.name+"_") && !strings.HasPrefix(n, g.name+"_2_6ba") && n != g.name+".lusf" && strings.HasSuffix(n, suffix) {
			m = append(m, filepath.Join(g.dir, n))
		}
	}
	return
}

func (g *gwSnap) snapFile() string {
	m := g.snapFiles("_lusf.snapshot")
	if len(m) != 1 {
		g.fatal("there are %d snapshot files", len(m))
	}
	return m[0]
}

func (g *gwSnap) rawLen() int {
	st, err := os.Stat(g.path)
	if err != nil {
		g.t.Skip(err)
	}
	return int(st.Size())
}

func (g *gwSnap) create() {
	n := g.rawLen()
	g.f.logf("snapshot(%d bytes)", n)
	err := g.s.CreateSnapshotIfNeeded()
	if g.old != nil {
		if err == nil {
			g.fatal("a second snapshot was created")
		}
		return
	}
	if err != nil {
		g.fatal("snapshot: %v", err)
	}
	g.old = append([]byte{}, g.cur[:n]...)
	g.hit = map[int]bool{}
	g.snapFile()
}

func (g *gwSnap) reader() *gwReader {
	had := g.old != nil
	n := g.rawLen()
	g.f.logf("reader")
	r, err := g.s.GetSnapshotReader()
	if err != nil {
		g.fatal("reader: %v", err)
	}
	if !had {
		g.old = append([]byte{}, g.cur[:n]...)
		g.hit = map[int]bool{}
	}
	x := &gwReader{r: r}
	g.rds = append(g.rds, x)
	return x
}

// write through a view with Write or WriteAt
func (g *gwSnap) write() {
	r := g.r
	x := g.views[r.Intn(len(g.views))]
	n := len(x.data)
	off := 512 * r.Intn(n/512+1)
	var ln int
	switch r.Intn(8) {
	case 0:
		ln = 0
	case 1:
		ln = gwRegion + 512*r.Intn(2048)
	case 2: // up to and past the border of a region
		d := 0
		if len(g.views) > 0 {
			d = len(g.cur) - len(x.data)
			if strings.HasSuffix(x.name, "L") {
				d = 0
			}
		}
		b := (d+off)/gwRegion*gwRegion + gwRegion - d
		off = b - 512*r.Intn(4)
		if off < 0 || off > n {
			off = 0
		}
		ln = 512 * r.Intn(8)
	case 3:
		off = 512 * (n / 512)
		off -= 512 * r.Intn(3)
		if off < 0 {
			off = 0
		}
		ln = 2048
	case 4:
		ln = 2 * gwRegion
	default:
		ln = 512 * (1 + r.Intn(20))
	}
	buf := gwBuf(ln)
	r.Read(buf)
	at := r.Intn(2) == 0
	var m int
	var err error
	pos := x.v.Position()
	if at {
		g.f.logf("%s.WriteAt(%d,%d)", x.name, ln, off)
		m, err = x.v.WriteAt(buf, int64(off))
		if x.v.Position() != pos {
			g.fatal("%s: WriteAt moved the position from %d to %d", x.name, pos, x.v.Position())
		}
	} else {
		g.f.logf("%s.Seek(%d) Write(%d)", x.name, off, ln)
		if _, err := x.v.Seek(int64(off), io.SeekStart); err != nil {
			g.fatal("seek to %d: %v", off, err)
		}
		m, err = x.v.Write(buf)
		if err == nil && x.v.Position() != uint64(off+m) {
			g.fatal("%s: %d bytes written at %d, position %d", x.name, m, off, x.v.Position())
		}
	}
	w := gwMin(ln, n-off)
	if err != nil || m != w {
		g.fatal("%s: write of %d bytes at %d of %d gives %d %v", x.name, ln, off, n, m, err)
	}
	copy(x.data[off:], buf[:w])
	if g.old != nil && w > 0 {
		// which regions were touched
		d := g.cap - cap(x.data)
		for k := (d + off) / gwRegion; k <= (d+off+w-1)/gwRegion; k++ {
			g.hit[k] = true
		}
		g.saved()
	}
}

// saved: a region is saved at most once, and only if it was written.
func (g *gwSnap) saved() {
	st, err := os.Stat(g.snapFile())
	if err != nil {
		g.t.Skip(err)
	}
	regions := (g.cap + gwRegion - 1) / gwRegion
	start := 512 + (regions*12+511)/512*512
	if max := int64(start + len(g.hit)*gwRegion); st.Size() > max && st.Size() > g.torn {
		g.fatal("%d regions were written, the snapshot file has %d bytes, more than %d", len(g.hit), st.Size(), max)
	}
}

func (g *gwSnap) device() {
	b, err := os.ReadFile(g.path)
	if err != nil {
		g.t.Skip(err)
	}
	if len(b) > g.cap {
		g.fatal("the file grew to %d bytes", len(b))
	}
	b = append(b, make([]byte, g.cap-len(b))...)
	if i := gwDiff(b, g.cur); i < len(b) {
		g.fatal("the device differs from what was written at %d", i)
	}
	if g.old != nil {
		return
	}
}

func gwDiff(a, b []byte) int {
	if bytes.Equal(a, b) {
		return len(a)
	}
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// read some bytes with one reader
func (g *gwSnap) read() {
	r := g.r
	var x *gwReader
	if len(g.rds) == 0 || r.Intn(4) == 0 {
		x = g.reader()
	} else {
		x = g.rds[r.Intn(len(g.rds))]
	}
	if r.Intn(3) == 0 {
		to := int64(r.Intn(len(g.old) + 1))
		if r.Intn(4) == 0 {
			to = int64(len(g.old) / gwRegion * gwRegion)
		}
		wh := r.Intn(2)
		off := to
		if wh == 1 {
			off = to - int64(x.pos)
		}
		g.f.logf("reader.Seek(%d,%d)", off, wh)
		got, err := x.r.Seek(off, wh)
		if err != nil || got != to {
			g.fatal("seek to %d of %d gives %d %v", to, len(g.old), got, err)
		}
		x.pos = int(to)
		for _, bad := range []int64{-1, int64(len(g.old)) + 1, 1 << 62} {
			if _, err := x.r.Seek(bad, 0); err == nil {
				g.fatal("seek to %d of %d was accepted", bad, len(g.old))
			}
		}
	}
	for k := 0; k < 1+r.Intn(4); k++ {
		n := []int{0, 1, 511, 512, 4096, 100000, gwRegion - 1, gwRegion, gwRegion + 1, 3 * gwRegion}[r.Intn(10)]
		buf := make([]byte, n)
		g.f.logf("reader.Read(%d)", n)
		m, err := x.r.Read(buf)
		if m < 0 || m > n || x.pos+m > len(g.old) {
			g.fatal("snapshot of %d bytes: Read(%d) at %d gives %d %v", len(g.old), n, x.pos, m, err)
		}
		if err == io.EOF && x.pos+m < len(g.old) || err != nil && err != io.EOF || err == nil && m == 0 && n > 0 {
			g.fatal("snapshot of %d bytes: Read(%d) at %d gives %d %v", len(g.old), n, x.pos, m, err)
		}
		if i := gwDiff(buf[:m], g.old[x.pos:x.pos+m]); i < m {
			g.fatal("the snapshot shows another byte at %d", x.pos+i)
		}
		x.pos += m
	}
}

func (g *gwSnap) whole() {
	if g.old == nil {
		return
	}
	x := g.reader()
	g.rds = g.rds[:len(g.rds)-1]
	var b []byte
	var err error
	if g.r.Intn(2) == 0 {
		b, err = io.ReadAll(x.r)
	} else {
		var w bytes.Buffer
		_, err = io.CopyBuffer(struct{ io.Writer }{&w}, struct{ io.Reader }{x.r}, make([]byte, 1+g.r.Intn(2*gwRegion)))
		b = w.Bytes()
	}
	if err != nil || len(b) != len(g.old) {
		g.fatal("reading the whole snapshot gives %d bytes %v, want %d", len(b), err, len(g.old))
	}
	if i := gwDiff(b, g.old); i < len(b) {
		g.fatal("the snapshot shows another byte at %d", i)
	}
}

func (g *gwSnap) reopen(torn bool) {
	g.f.logf("reopen")
	if err := g.s.Close(); err != nil {
		g.fatal("close: %v", err)
	}
	if torn && g.old != nil {
		// a crash while a region was being saved
		g.f.logf("torn region")
		p := g.snapFile()
		b, err := os.ReadFile(p)
		if err != nil {
			g.t.Skip(err)
		}
		regions := (g.cap + gwRegion - 1) / gwRegion
		start := 512 + (regions*12+511)/512*512
		if len(b) < start {
			b = append(b, make([]byte, start-len(b))...)
		}
		if (len(b)-start)/gwRegion < regions {
			n := (len(b) - start) / gwRegion
			b = b[:start+n*gwRegion]
			e := BitmapEntry{OriginOffset: uint32(g.r.Intn(regions)), SnapOffset: uint32(n)}
			var w bytes.Buffer
			e.WriteTo(&w)
			copy(b[512+12*n:start], w.Bytes()[:g.r.Intn(13)])
			tail := make([]byte, g.r.Intn(gwRegion))
			g.r.Read(tail)
			os.WriteFile(p, append(b, tail...), 0o644)
			g.torn = int64(len(b) + len(tail))
		}
	}
	f, err := CreateIfAbsent(g.path, uint64(g.cap))
	if err == nil {
		g.fatal("a file that exists was created")
	}
	// Open needs a store header: build the view by hand over the same file
	f, err = gwOpenRaw(g.path, g.cap)
	if err != nil {
		g.fatal("reopen: %v", err)
	}
	g.open(f)
}

// gwOpenRaw opens a device that has no store header: under another name it is
// created, then gets its place.
func gwOpenRaw(path string, capacity int) (*FileNVM, error) {
	old := path + ".was"
	if err := os.Rename(path, old); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(old)
	if err != nil {
		return nil, err
	}
	os.Remove(old)
	f, err := CreateIfAbsent(path, uint64(capacity))
	if err != nil {
		return nil, err
	}
	return f, os.WriteFile(path, b, 0o755)
}

func (g *gwSnap) delete() {
	g.f.logf("delete snapshot")
	if err := g.s.DeleteSnapshot(); err != nil {
		g.fatal("delete: %v", err)
	}
	g.old = nil
	g.rds = nil
	g.torn = 0
	if m := g.snapFiles(""); len(m) > 0 {
		g.fatal("the deleted snapshot is still there: %v", m)
	}
}

func TestGov_C14_model(t *testing.T) {
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	zzgw.Loop(t, 6, 5000, func(i int, r *rand.Rand) {
		out := os.Stdout
		os.Stdout = null
		defer func() { os.Stdout = out }()
		g := gwNewSnap(t, r)
		defer os.RemoveAll(g.dir)
		defer func() {
			if p := recover(); p != nil {
				g.fatal("panic: %v", p)
			}
		}()
		for k := 0; k < 14; k++ {
			switch q := r.Intn(20); {
			case q < 9:
				g.write()
			case q < 12 && g.old == nil:
				g.create()
			case q < 14 && g.old != nil:
				g.read()
			case q < 15:
				g.whole()
			case q < 17:
				g.reopen(r.Intn(2) == 0)
			case q < 18 && g.old != nil && r.Intn(2) == 0:
				g.delete()
			case q < 19:
				if g.old != nil {
					g.create()
				} else {
					g.write()
				}
			default:
				if g.old != nil {
					g.read()
				}
			}
			if r.Intn(4) == 0 {
				g.device()
			}
		}
		g.whole()
		g.device()
		g.reopen(false)
		g.whole()
		g.s.Close()
	})
}

// the header of a snapshot file
func TestGov_C14_header(t *testing.T) {
	zzgw.LoopB(t, zzgw.Budget()/3, 100, 50000, func(i int, r *rand.Rand) {
		h := BackingFileHeader{MajorVersion: SNAP_MAJOR_VERSION, MinorVersion: SNAP_MINOR_VERSION, RegionShift: uint16(20 + r.Intn(6)), MaxCapacity: r.Uint64() >> uint(4+r.Intn(50)), RawCapacity: r.Uint64() >> uint(r.Intn(60)), CreateTime: r.Int63()}
		r.Read(h.UUID[:])
		h.JournalSize = fromMaxCapacityToJournalSize(h.MaxCapacity, h.RegionShift)
		n := (h.MaxCapacity + 1<<h.RegionShift - 1) >> h.RegionShift
		if h.JournalSize < 12*n || h.JournalSize%512 != 0 {
			t.Fatalf("%d regions of 12 bytes do not fit in %d", n, h.JournalSize)
		}
		var w bytes.Buffer
		if err := h.WriteTo(&w); err != nil {
			t.Fatal(err)
		}
		b := append(w.Bytes(), make([]byte, 512)...)
		g, err := readBackingFileHeaderFrom(bytes.NewReader(b))
		if err != nil || g.UUID != h.UUID || g.RegionShift != h.RegionShift || g.MaxCapacity != h.MaxCapacity || g.JournalSize != h.JournalSize || g.RawCapacity != h.RawCapacity {
			t.Fatalf("%+v was written, %+v read: %v", h, g, err)
		}
		e := BitmapEntry{OriginOffset: r.Uint32(), SnapOffset: r.Uint32()}
		w.Reset()
		if err := e.WriteTo(&w); err != nil {
			t.Fatal(err)
		}
		if got := ReadRecordFrom(bytes.NewReader(w.Bytes())); got != e || uint64(w.Len()) != e.Size() || binary.BigEndian.Uint32(w.Bytes()) != e.CheckSum() {
			t.Fatalf("%+v was written, %+v read", e, got)
		}
	})
}
