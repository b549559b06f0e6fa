//go:build go1.21

package nvm

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"unsafe"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/zzgw"
)

// ---------------------------------------------------------------- C12

func gwHeader(r *rand.Rand) *StorageHeader {
	h := DefaultStorageHeader()
	h.BlockSize, _ = block.NewBlockSize(uint16(512 * (1 + r.Intn(127))))
	r.Read(h.UUID[:])
	h.JournalRegionSize = r.Uint64() % (MAX_JOURNAL_REGION_SIZE + 1) >> uint(r.Intn(40))
	h.DataRegionSize = r.Uint64() % (MAX_DATA_REGION_SIZE + 1) >> uint(r.Intn(49))
	if r.Intn(4) == 0 {
		h.JournalRegionSize = MAX_JOURNAL_REGION_SIZE - uint64(r.Intn(2))
	}
	if r.Intn(4) == 0 {
		h.DataRegionSize = MAX_DATA_REGION_SIZE - uint64(r.Intn(2))
	}
	return h
}

func gwRead(b []byte) (h *StorageHeader, err error) {
	defer func() {
		if p := recover(); p != nil {
			panic(fmt.Sprintf("reading the header %x panicked: %v", b, p))
		}
	}()
	return ReadFrom(bytes.NewReader(b))
}

func TestGov_C12_header(t *testing.T) {
	zzgw.Loop(t, 300, 200000, func(i int, r *rand.Rand) {
		h := gwHeader(r)
		var w, reg bytes.Buffer
		if err := h.WriteTo(&w); err != nil {
			t.Fatal(err)
		}
		if err := h.WriteHeaderRegionTo(&reg); err != nil {
			t.Fatal(err)
		}
		bs := uint64(h.BlockSize.AsU16())
		if h.RegionSize() < uint64(w.Len()) || h.RegionSize()%bs != 0 || h.RegionSize()-uint64(w.Len()) >= bs {
			t.Fatalf("header region of %d bytes for %d bytes of header, block size %d", h.RegionSize(), w.Len(), bs)
		}
		if uint64(reg.Len()) != h.RegionSize() || !bytes.Equal(reg.Bytes()[:w.Len()], w.Bytes()) || len(bytes.Trim(reg.Bytes()[w.Len():], "\x00")) != 0 {
			t.Fatalf("header region is not the header followed by zeros: %x", reg.Bytes())
		}
		if h.StorageSize() != h.RegionSize()+h.JournalRegionSize+h.DataRegionSize {
			t.Fatalf("storage size of %+v is %d", h, h.StorageSize())
		}
		for _, b := range [][]byte{w.Bytes(), reg.Bytes()} {
			g, err := gwRead(b)
			if err != nil || *g != *h {
				t.Fatalf("%+v was written, %+v read: %v", *h, g, err)
			}
		}
		// altered: a field that must have one value, or a bounded one
		b := append([]byte(nil), reg.Bytes()...)
		what, bad := "", false
		switch r.Intn(7) {
		case 0:
			k := r.Intn(4)
			b[k] ^= byte(1 + r.Intn(255))
			what, bad = "magic number", true
		case 1:
			k := 4 + r.Intn(6)
			b[k] ^= byte(1 + r.Intn(255))
			what, bad = "header length or version", true
		case 2:
			x := uint16(r.Intn(65536))
			if r.Intn(2) == 0 {
				x = []uint16{0, 256, 512, 768, 1024, 65024, 65535}[r.Intn(7)]
			}
			binary.BigEndian.PutUint16(b[10:], x)
			what, bad = fmt.Sprintf("block size %d", x), x%512 != 0 || x == 0
		case 3:
			x := MAX_JOURNAL_REGION_SIZE + 1 + r.Uint64()>>uint(1+r.Intn(63))
			binary.BigEndian.PutUint64(b[28:], x)
			what, bad = fmt.Sprintf("journal size %d", x), true
		case 4:
			x := MAX_DATA_REGION_SIZE + 1 + r.Uint64()>>uint(1+r.Intn(63))
			binary.BigEndian.PutUint64(b[36:], x)
			what, bad = fmt.Sprintf("data size %d", x), true
		case 5:
			b = b[:r.Intn(w.Len())]
			what, bad = fmt.Sprintf("truncated to %d bytes", len(b)), true
		case 6:
			x := uint16(r.Intn(300))
			binary.BigEndian.PutUint16(b[4:], x)
			what, bad = fmt.Sprintf("header length %d", x), x != HEADER_SIZE
		}
		g, err := gwRead(b)
		if bad != (err != nil) {
			t.Fatalf("%s: read gives %+v %v", what, g, err)
		}
	})
}

// the two regions split from a device tile it
func TestGov_C12_split(t *testing.T) {
	zzgw.LoopB(t, zzgw.Budget()/3, 50, 2000, func(i int, r *rand.Rand) {
		h := DefaultStorageHeader()
		if r.Intn(2) == 0 {
			h.BlockSize, _ = block.NewBlockSize(uint16(512 * (1 + r.Intn(4))))
		}
		h.JournalRegionSize = 512 * uint64(r.Intn(20))
		h.DataRegionSize = 512 * uint64(r.Intn(20))
		m, err := New(h.StorageSize())
		if err != nil {
			t.Fatal(err)
		}
		r.Read(m.AsBytes())
		j, d := h.SplitRegion(m)
		if j == nil || d == nil {
			t.Fatalf("regions of %+v can not be split", h)
		}
		if j.Capacity() != h.JournalRegionSize || d.Capacity() != h.DataRegionSize {
			t.Fatalf("regions of %d and %d bytes, header %+v", j.Capacity(), d.Capacity(), h)
		}
		a, b := make([]byte, j.Capacity()), make([]byte, d.Capacity())
		io.ReadFull(j, a)
		io.ReadFull(d, b)
		if !bytes.Equal(append(append([]byte(nil), m.AsBytes()[:h.RegionSize()]...), append(a, b...)...), m.AsBytes()) {
			t.Fatalf("regions of %+v do not tile the device", h)
		}
		// a device which is too small has no such regions
		if h.JournalRegionSize > 0 {
			small, _ := New(h.RegionSize() + h.JournalRegionSize - 512)
			if j, d := h.SplitRegion(small); j != nil || d != nil {
				t.Fatalf("regions of %+v were split from a device of %d bytes", h, small.Capacity())
			}
		}
	})
}

// ---------------------------------------------------------------- C13

// gwView is a view and the bytes it should show.
type gwView struct {
	v    NonVolatileMemory
	data []byte // a window of the bytes of the device
	pos  int
	name string
}

type gwFail struct{ log []string }

func (f *gwFail) logf(s string, a ...interface{}) { f.log = append(f.log, fmt.Sprintf(s, a...)) }

func gwViews(t *testing.T, r *rand.Rand, root NonVolatileMemory, data []byte, f *gwFail) []*gwView {
	vs := []*gwView{{v: root, data: data, name: "root"}}
	leaves := []*gwView{}
	for k := 0; k < 1+r.Intn(3); k++ {
		x := vs[r.Intn(len(vs))]
		p := uint64(512 * r.Intn(len(x.data)/512+1))
		a, b, err := x.v.Split(p)
		if err != nil {
			t.Fatalf("split of %s (%d bytes) at %d: %v", x.name, len(x.data), p, err)
		}
		f.logf("%s.Split(%d)", x.name, p)
		l := &gwView{v: a, data: x.data[:p], name: fmt.Sprintf("%s<%d", x.name, p)}
		m := &gwView{v: b, data: x.data[p:], name: fmt.Sprintf("%s>%d", x.name, p)}
		vs = append(vs, l, m)
		leaves = append(leaves, l, m)
		for _, y := range []*gwView{l, m} {
			if y.v.Capacity() != uint64(len(y.data)) || y.v.Position() != 0 {
				t.Fatalf("%s: capacity %d, position %d, want %d, 0", y.name, y.v.Capacity(), y.v.Position(), len(y.data))
			}
		}
		for _, bad := range []uint64{uint64(len(x.data)) + 512, p + 1, ^uint64(511), 1 << 63} {
			if _, _, err := x.v.Split(bad); err == nil {
				t.Fatalf("split of %s (%d bytes) at %d was accepted", x.name, len(x.data), bad)
			}
		}
	}
	return vs
}

// gwBuf is a buffer at an aligned address.
func gwBuf(n int) []byte {
	b := make([]byte, n+512)
	o := 0
	for uintptr(unsafe.Pointer(&b[o]))%512 != 0 {
		o++
	}
	return b[o : o+n : o+n]
}

func gwMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func gwCase(r *rand.Rand, n int) (off int64, ln int) {
	off = int64(512 * r.Intn(n/512+2))
	ln = 512 * r.Intn(5)
	switch r.Intn(12) {
	case 0:
		off += int64(1 + r.Intn(511))
	case 1:
		ln += 1 + r.Intn(511)
	case 2:
		off = -512 * int64(1+r.Intn(4))
	case 3:
		off = int64(n)
	case 4:
		off = 1<<62 + 512*int64(r.Intn(9))
	case 5:
		ln = n + 512*r.Intn(3)
	case 6:
		off = -1 << 63
	}
	return
}

// step runs one access against a view and its model.
func (x *gwView) step(t *testing.T, r *rand.Rand, f *gwFail, seekEnd bool) {
	fail := func(s string, a ...interface{}) {
		t.Helper()
		t.Fatalf("%s (%d bytes): %s\nhistory: %s", x.name, len(x.data), fmt.Sprintf(s, a...), strings.Join(f.log, "; "))
	}
	defer func() {
		if p := recover(); p != nil {
			fail("panic: %v", p)
		}
	}()
	n := len(x.data)
	off, ln := gwCase(r, n)
	switch r.Intn(5) {
	case 0, 1: // Seek
		wh := r.Intn(3)
		if !seekEnd && wh == 2 {
			wh = 0
		}
		var abs int64
		switch wh {
		case 0:
			abs = off
		case 1:
			if r.Intn(2) == 0 {
				off = -off
			}
			abs = int64(x.pos) + off
		case 2:
			off = -off
			abs = int64(n) + off
		}
		f.logf("%s.Seek(%d,%d)", x.name, off, wh)
		ok := off%512 == 0 && abs >= 0 && abs <= int64(n)
		got, err := x.v.Seek(off, wh)
		if ok != (err == nil) || ok && got != abs {
			fail("Seek(%d,%d) at %d gives %d %v, want %d (valid %v)", off, wh, x.pos, got, err, abs, ok)
		}
		if ok {
			x.pos = int(abs)
		}
	case 2: // Read
		buf := gwBuf(ln)
		m, err := x.v.Read(buf)
		f.logf("%s.Read(%d)", x.name, ln)
		if x.pos == n {
			if err == nil && m > 0 {
				fail("Read at the end gives %d bytes", m)
			}
		} else if ln%512 != 0 {
			if err == nil {
				fail("Read of %d bytes was accepted", ln)
			}
		} else {
			w := gwMin(ln, n-x.pos)
			if err != nil || m != w || !bytes.Equal(buf[:m], x.data[x.pos:x.pos+w]) {
				fail("Read(%d) at %d gives %d %v, want %d and the bytes of the device", ln, x.pos, m, err, w)
			}
			x.pos += w
		}
	case 3: // Write
		buf := gwBuf(ln)
		r.Read(buf)
		f.logf("%s.Write(%d)", x.name, ln)
		m, err := x.v.Write(buf)
		if ln%512 != 0 {
			if err == nil {
				fail("Write of %d bytes was accepted", ln)
			}
		} else {
			w := gwMin(ln, n-x.pos)
			if m > w || m < w && err == nil && w > 0 || w == ln && err != nil {
				fail("Write(%d) at %d gives %d %v, want %d", ln, x.pos, m, err, w)
			}
			if m > 0 {
				copy(x.data[x.pos:], buf[:m])
				x.pos += m
			}
		}
	default:
		at := r.Intn(2) == 0
		valid := off >= 0 && off <= int64(n) && off%512 == 0
		buf := gwBuf(ln)
		r.Read(buf)
		keep := append([]byte(nil), buf...)
		var m int
		var err error
		if at {
			f.logf("%s.ReadAt(%d,%d)", x.name, ln, off)
			m, err = x.v.ReadAt(buf, off)
		} else {
			f.logf("%s.WriteAt(%d,%d)", x.name, ln, off)
			m, err = x.v.WriteAt(buf, off)
		}
		if !valid || ln%512 != 0 && off < int64(n) {
			if err == nil {
				fail("access of %d bytes at %d was accepted", ln, off)
			}
			if !valid && at && !bytes.Equal(keep, buf) {
				fail("a rejected read changed the buffer")
			}
		} else if off < int64(n) {
			w := gwMin(ln, n-int(off))
			if m != w || err != nil && err != io.EOF {
				fail("access of %d bytes at %d gives %d %v, want %d", ln, off, m, err, w)
			}
			if at && !bytes.Equal(buf[:w], x.data[off:int(off)+w]) {
				fail("ReadAt(%d,%d) does not give the bytes of the device", ln, off)
			}
			if !at {
				copy(x.data[off:], buf[:w])
			}
		} else if m > 0 {
			fail("access of %d bytes at the end gives %d", ln, m)
		}
	}
	if x.v.Position() != uint64(x.pos) || x.v.Capacity() != uint64(n) {
		fail("position %d, capacity %d, want %d, %d", x.v.Position(), x.v.Capacity(), x.pos, n)
	}
}

func gwDevice(t *testing.T, r *rand.Rand, kind int, dir string, size int) (root NonVolatileMemory, model []byte, content func() []byte, closer func()) {
	model = make([]byte, size)
	r.Read(model)
	if kind == 0 {
		v := append([]byte(nil), model...)
		m, err := NewFromVec(v)
		if err != nil {
			t.Fatal(err)
		}
		return m, model, func() []byte { return v }, func() {}
	}
	p := filepath.Join(dir, fmt.Sprintf("d%d.lusf", r.Int63()))
	f, err := CreateIfAbsent(p, uint64(size))
	if err != nil {
		t.Skip(err)
	}
	// the file is longer than the device and a part of it was never written
	whole := append(append([]byte(nil), model...), bytes.Repeat([]byte{0xaa}, 4096)...)
	if r.Intn(3) == 0 {
		k := 512 * r.Intn(size/512+1)
		for i := range model[k:] {
			model[k+i] = 0
		}
		whole = whole[:k]
	}
	if err := os.WriteFile(p, whole, 0o644); err != nil {
		t.Skip(err)
	}
	content = func() []byte {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Skip(err)
		}
		if len(b) > size && !bytes.Equal(b[size:], bytes.Repeat([]byte{0xaa}, len(b)-size)) {
			t.Fatal("something was written past the end of the device")
		}
		if len(b) < size {
			b = append(b, make([]byte, size-len(b))...)
		}
		return b[:size]
	}
	if kind == 1 {
		return f, model, content, func() { f.Close(); os.Remove(p) }
	}
	s, err := NewSnapshotNVM(f)
	if err != nil {
		t.Fatal(err)
	}
	return s, model, content, func() { s.Close(); os.Remove(p) }
}

func gwViewsRun(t *testing.T, kind int) {
	dir := zzgw.Scratch(t)
	zzgw.Loop(t, 20, 20000, func(i int, r *rand.Rand) {
		size := 512 * (1 + r.Intn(16))
		root, model, content, closer := gwDevice(t, r, kind, dir, size)
		defer closer()
		f := &gwFail{}
		if len(content()) != size {
			t.Fatal("device has another size")
		}
		short := kind > 0
		vs := gwViews(t, r, root, model, f)
		for k := 0; k < 60; k++ {
			x := vs[r.Intn(len(vs))]
			if short && kind > 0 {
				x.stepShort(t, r, f)
			} else {
				x.step(t, r, f, true)
			}
			if k%10 == 9 && !bytes.Equal(content(), model) {
				t.Fatalf("the bytes of the device are not those that were written\nhistory: %s", strings.Join(f.log, "; "))
			}
		}
	})
}

// stepShort is step for a device whose file may be shorter than the device: a
// ReadAt there may be short, everything else is the same.
func (x *gwView) stepShort(t *testing.T, r *rand.Rand, f *gwFail) {
	y := gwShort{x.v}
	v := x.v
	x.v = y
	x.step(t, r, f, true)
	x.v = v
}

type gwShort struct{ NonVolatileMemory }

func (s gwShort) ReadAt(b []byte, off int64) (int, error) {
	n, err := s.NonVolatileMemory.ReadAt(b, off)
	if err == io.EOF && n >= 0 {
		c := s.Capacity()
		w := len(b)
		if uint64(off)+uint64(w) > c {
			w = int(c - uint64(off))
		}
		for i := n; i < w; i++ {
			b[i] = 0
		}
		return w, nil
	}
	return n, err
}

func TestGov_C13_memory(t *testing.T) { gwViewsRun(t, 0) }
func TestGov_C13_file(t *testing.T)   { gwViewsRun(t, 1) }
func TestGov_C13_snap(t *testing.T)   { gwViewsRun(t, 2) }
