//go:build go1.21

package nvm

import (
	"io"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C13: views of memory, and of a device with snapshots.

func govAnyMemory() *MemoryNVM {
	m := &MemoryNVM{vec: gov.Bytes("memory", 1<<50), position: gov.U64("position")}
	gov.Assume(gov.And(govAligned512(uint64(len(m.vec))), m.position <= uint64(len(m.vec))))
	gov.Lock(&m.RWMutex, "memory", 1)
	return m
}

//gov:proves (*nvm.MemoryNVM).Read; (*nvm.MemoryNVM).ReadAt; (*nvm.MemoryNVM).isValid; (*nvm.MemoryNVM).Position; (*nvm.MemoryNVM).Capacity; (*nvm.MemoryNVM).AsBytes
func GovProve_C13_memoryRead() {
	m := govAnyMemory()
	c, p := m.Capacity(), m.Position()
	gov.Assert("the capacity is that of the memory", gov.And(c == uint64(len(m.vec)), m.BlockSize() == block.Min()))
	gov.Assert("it is what is read", gov.SameArray(m.AsBytes(), m.vec) || c == 0)
	was := gov.Snapshot(m.vec)
	buf, old := govBuf()
	L := uint64(len(buf))
	at := gov.Choice("at", 2) == 1
	pos := p
	var n int
	var err error
	if at {
		off := gov.I64("offset")
		pos = uint64(off)
		n, err = m.ReadAt(buf, off)
	} else {
		n, err = m.Read(buf)
	}
	gov.Assert("all locks are released", gov.HeldCount() == 0)
	gov.Assert("reading changes nothing", gov.EqBytes(m.vec, was))
	valid := gov.And(gov.And(pos < c, govAligned512(L)), gov.Or(!at, govAligned512(pos)))
	gov.Assert("exactly a misaligned position or length, or one outside of the memory, is refused", (err == nil) == valid)
	if err != nil {
		gov.Assert("what is refused changes nothing", gov.And(m.position == p, gov.EqBytes(buf, old)))
		return
	}
	want := gov.Ite(L < c-pos, L, c-pos)
	gov.Assert("as much is read as there is", n >= 0 && uint64(n) == want)
	gov.Assert("exactly the bytes there", gov.SameBytes(buf, 0, m.vec, pos, want))
	gov.Assert("and no byte behind them is changed", gov.SameBytes(buf, want, old, want, L-want))
	gov.Assert("the position moves behind what was read", m.position == p+gov.Ite(at, 0, want))
}

//gov:proves (*nvm.MemoryNVM).Write; (*nvm.MemoryNVM).WriteAt; (*nvm.MemoryNVM).isValid
func GovProve_C13_memoryWrite() {
	m := govAnyMemory()
	c, p := m.Capacity(), m.Position()
	was := gov.Snapshot(m.vec)
	buf, old := govBuf()
	L := uint64(len(buf))
	at := gov.Choice("at", 2) == 1
	pos := p
	var n int
	var err error
	if at {
		off := gov.I64("offset")
		pos = uint64(off)
		n, err = m.WriteAt(buf, off)
	} else {
		n, err = m.Write(buf)
	}
	gov.Assert("all locks are released", gov.HeldCount() == 0)
	gov.Assert("the buffer is not changed", gov.EqBytes(buf, old))
	gov.Assert("the memory keeps its size", m.Capacity() == c)
	valid := gov.And(gov.And(gov.Or(pos < c, gov.And(!at, pos == c)), govAligned512(L)), gov.Or(!at, govAligned512(pos)))
	gov.Assert("exactly a misaligned position or length, or one outside of the memory, is refused", (err == nil) == valid)
	if err != nil {
		gov.Assert("what is refused changes nothing", gov.And(m.position == p, gov.EqBytes(m.vec, was)))
		return
	}
	want := gov.Ite(L < c-pos, L, c-pos)
	gov.Assert("as much is written as fits", n >= 0 && uint64(n) == want)
	x := gov.U64("byte")
	gov.Assume(x < c)
	gov.Assert("exactly the bytes addressed are written", gov.At(m.vec, x) == gov.Ite(gov.And(pos <= x, x < pos+want), gov.At(buf, x-pos), gov.At(was, x)))
	gov.Assert("the position moves behind what was written", m.position == p+gov.Ite(at, 0, want))
}

//gov:proves (*nvm.MemoryNVM).Seek; (*nvm.MemoryNVM).Split; nvm.New; nvm.NewFromVec; nvm.ConvertToOffset; (*nvm.MemoryNVM).BlockSize
func GovProve_C13_memory() {
	m := govAnyMemory()
	c, p := m.Capacity(), m.Position()
	was := gov.Snapshot(m.vec)
	switch gov.Choice("operation", 4) {
	case 0:
		off, whence := gov.I64("offset"), gov.Int("whence")
		pos, err := m.Seek(off, whence)
		govSought(p, c, m.Position(), off, whence, pos, err)
		gov.Assert("the position stays inside the memory", m.position <= c)
	case 1:
		at := gov.U64("split at")
		a, b, err := m.Split(at)
		gov.Assert("exactly a misaligned position, or one outside of the view, is refused", (err == nil) == gov.And(govAligned512(at), at <= c))
		gov.Assert("splitting does not move", m.position == p)
		if err != nil {
			gov.Assert("it says why", gov.ErrIs(err, internalerror.InvalidInput))
			return
		}
		l, r := a.(*MemoryNVM), b.(*MemoryNVM)
		gov.Assert("the two views tile the view", gov.And(l.Capacity() == at, r.Capacity() == c-at))
		gov.Assert("their cursors are at their start", gov.And(l.Position() == 0, r.Position() == 0))
		gov.Assert("they hold its bytes", gov.And(gov.SameBytes(l.vec, 0, was, 0, at), gov.SameBytes(r.vec, 0, was, at, c-at)))
		gov.Assert("they are views of the same memory", (at == 0 || gov.Addr(l.vec) == gov.Addr(m.vec)) && (at == c || gov.Addr(r.vec) == gov.Addr(m.vec)+at))
	case 2:
		size := gov.U64("size")
		gov.Assume(size < 1<<40)
		n, err := New(size)
		gov.Assert("exactly a misaligned size is refused", (err == nil) == govAligned512(size))
		if err == nil {
			gov.Assert("new memory has its size", gov.And(n.Capacity() == size, n.Position() == 0))
			x := gov.U64("byte")
			gov.Assert("and is zero", gov.Imp(x < size, gov.At(n.vec, x) == 0))
		}
	default:
		v := gov.Bytes("vector", 1<<40)
		n, err := NewFromVec(v)
		gov.Assert("exactly a misaligned size is refused", (err == nil) == govAligned512(uint64(len(v))))
		if err == nil {
			gov.Assert("the memory is the vector", gov.And(n.Capacity() == uint64(len(v)), n.Position() == 0) && (len(v) == 0 || gov.Addr(n.vec) == gov.Addr(v)))
		}
	}
	gov.Assert("all locks are released", gov.HeldCount() == 0)
	gov.Assert("the memory is not changed", gov.EqBytes(m.vec, was))
}

// A device with snapshots does what its file does, under its lock.
//
//gov:proves (*nvm.SnapNVM).Read; (*nvm.SnapNVM).ReadAt; (*nvm.SnapNVM).Write; (*nvm.SnapNVM).WriteAt; (*nvm.SnapNVM).Seek; (*nvm.SnapNVM).Split; (*nvm.SnapNVM).Position; (*nvm.SnapNVM).Capacity; (*nvm.SnapNVM).BlockSize; (*nvm.SnapNVM).RawSize; (*nvm.SnapNVM).Sync
func GovProve_C13_snap() {
	d := govAnyDisk(false)
	raw := govAnyView(d)
	v := govAnyView(d)
	s := &SnapNVM{originFile: raw}
	s.rawSnapNVM = s
	t := s
	if gov.Choice("split", 2) == 1 {
		t = &SnapNVM{originFile: v, rawSnapNVM: s, splited: true}
	} else {
		v = raw
	}
	gov.Lock(&s.mu, "snapshot", 1)
	before := *v
	buf := gov.Bytes("buffer", 1<<40)
	n0, off, whence, err0 := gov.Int("n"), gov.I64("offset"), gov.Int("whence"), gov.Err("file")
	moved := gov.U64("moved")
	var calls, mode int
	called := func(f *FileNVM, want int) {
		gov.Assert("the file of the view is used", f == v)
		gov.Assert("under the lock", gov.Held(&s.mu) >= want)
		f.cursor_position = moved
		calls++
	}
	mine := func(b []byte) bool { return len(b) == len(buf) && (len(b) == 0 || gov.Addr(b) == gov.Addr(buf)) }
	gov.Use("(*nvm.FileNVM).Read", func(f *FileNVM, b []byte) (int, error) {
		called(f, 1)
		gov.Assert("into the buffer", mine(b) && mode == 1)
		return n0, err0
	})
	gov.Use("(*nvm.FileNVM).ReadAt", func(f *FileNVM, b []byte, o int64) (int, error) {
		called(f, 1)
		gov.Assert("into the buffer from there", mine(b) && o == off && mode == 2)
		return n0, err0
	})
	gov.Use("(*nvm.FileNVM).Write", func(f *FileNVM, b []byte) (int, error) {
		gov.Assert("where the view is", f.cursor_position == before.cursor_position)
		called(f, 2)
		gov.Assert("from the buffer", mine(b) && mode == 3)
		return n0, err0
	})
	gov.Use("(*nvm.FileNVM).WriteAt", func(f *FileNVM, b []byte, o int64) (int, error) {
		called(f, 2)
		gov.Assert("from the buffer to there", mine(b) && o == off && mode == 4)
		return n0, err0
	})
	mode = gov.Choice("operation", 9)
	var n int
	var err error
	switch mode {
	case 0:
		gov.Use("(*nvm.FileNVM).Seek", func(f *FileNVM, o int64, w int) (int64, error) {
			called(f, 2)
			gov.Assert("there", o == off && w == whence)
			return int64(n0), err0
		})
		var p int64
		p, err = t.Seek(off, whence)
		n = int(p)
	case 1:
		n, err = t.Read(buf)
	case 2:
		n, err = t.ReadAt(buf, off)
	case 3:
		gov.Assume(gov.And(govAligned512(before.cursor_position), govAligned512(before.viewStart)))
		n, err = t.Write(buf)
	case 4:
		n, err = t.WriteAt(buf, off)
	case 5:
		gov.Use("(*nvm.FileNVM).Split", func(f *FileNVM, at uint64) (NonVolatileMemory, NonVolatileMemory, error) {
			called(f, 1)
			gov.Assert("at the position", at == uint64(off))
			if err0 != nil {
				return nil, nil, err0
			}
			return &FileNVM{viewStart: 1}, &FileNVM{viewStart: 2}, nil
		})
		a, b, err := t.Split(uint64(off))
		gov.Assert("its answer is returned", err == err0)
		if err == nil {
			l, r := a.(*SnapNVM), b.(*SnapNVM)
			gov.Assert("both views write through the snapshot of the device", gov.And(gov.And(l.rawSnapNVM == s, r.rawSnapNVM == s), gov.And(l.splited, r.splited)))
			gov.Assert("left and right", gov.And(l.originFile.viewStart == 1, r.originFile.viewStart == 2))
		}
		gov.Assert("all locks are released", gov.HeldCount() == 0)
		return
	case 6:
		gov.Assert("the position is that of the view", t.Position() == v.Position())
		gov.Assert("the capacity is that of the view", t.Capacity() == v.Capacity())
		gov.Assert("a block has 512 bytes", t.BlockSize() == block.Min())
		gov.Assert("all locks are released", gov.HeldCount() == 0)
		return
	case 7:
		gov.Use("(*nvm.FileNVM).RawSize", func(f *FileNVM) int64 {
			gov.Assert("the size of the device is asked", f == raw)
			return off
		})
		gov.Assert("the size of the file is returned", t.RawSize() == off)
		gov.Assert("all locks are released", gov.HeldCount() == 0)
		return
	default:
		gov.Use("(*nvm.FileNVM).Sync", func(f *FileNVM) error {
			gov.Assert("the device is synced", f == raw)
			calls++
			return err0
		})
		err = t.Sync()
		gov.Assert("its answer is returned", gov.And(calls == 1, err == err0))
		gov.Assert("all locks are released", gov.HeldCount() == 0)
		return
	}
	gov.Assert("the file is used once", calls == 1)
	gov.Assert("its answer is returned", gov.And(n == n0, err == err0))
	gov.Assert("all locks are released", gov.HeldCount() == 0)
}

var _ = io.EOF
