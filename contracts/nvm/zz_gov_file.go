//go:build go1.21

package nvm

import (
	"io"
	"os"

	"github.com/thesues/cannyls-go/internalerror"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C13: device views.

// govDisk is the file below the views (os.File is assumed to behave like
// this): bytes, of which the first size exist.
type govDisk struct {
	f      *os.File
	data   []byte
	size   uint64
	faulty bool
	closed bool
	// the only bytes that may be accessed
	from, to uint64
	err      error
	onWrite  func(off, n uint64)
}

func (d *govDisk) fail() error {
	if !d.faulty {
		return nil
	}
	if err := gov.Err("disk"); err != nil {
		gov.Assume(gov.And(err != io.EOF, err != io.ErrUnexpectedEOF)) // which only say that the file ends
		d.err = err
		return err
	}
	return nil
}

const govDiskMax = 1 << 60

func govAnyDisk(faulty bool) *govDisk {
	d := &govDisk{f: &os.File{}, data: gov.BytesN("disk", govDiskMax), size: gov.U64("file size"), faulty: faulty, to: govDiskMax}
	gov.Assume(d.size <= govDiskMax)
	// what does not exist yet reads as zeros when it comes to exist
	gov.Assume(gov.Forall(func(i uint64) bool { return gov.Imp(gov.And(d.size <= i, i < govDiskMax), gov.At(d.data, i) == 0) }))
	govUseFiles(d, nil)
	return d
}

func (d *govDisk) readAt(b []byte, off int64) (int, error) {
	n := uint64(len(b))
	gov.Assert("reads stay inside the view", gov.And(gov.And(off >= 0, uint64(off) >= d.from), gov.And(uint64(off) <= d.to, n <= d.to-uint64(off))))
	if err := d.fail(); err != nil {
		gov.HavocBytes(b)
		m := gov.U64("read")
		gov.Assume(gov.Or(m < n, m == 0)) // all that was asked for is no failure
		return int(m), err
	}
	have := gov.Ite(uint64(off) < d.size, d.size-uint64(off), 0)
	if have < n {
		gov.CopyBytes(b, d.data, 0, uint64(off), have)
		return int(have), io.EOF
	}
	gov.CopyBytes(b, d.data, 0, uint64(off), n)
	return len(b), nil
}

func (d *govDisk) writeAt(b []byte, off int64) (int, error) {
	n := uint64(len(b))
	gov.Assert("writes stay inside the view", gov.And(gov.And(off >= 0, uint64(off) >= d.from), gov.And(uint64(off) <= d.to, n <= d.to-uint64(off))))
	if d.onWrite != nil {
		d.onWrite(uint64(off), n)
	}
	err := d.fail()
	if err != nil {
		n = gov.U64("written")
		gov.Assume(n <= uint64(len(b)))
	}
	gov.CopyBytes(d.data, b, uint64(off), 0, n)
	d.size = gov.Ite(gov.And(n > 0, uint64(off)+n > d.size), uint64(off)+n, d.size)
	return int(n), err
}

// govUseFiles: d is the file of the device, k the one of a snapshot.
func govUseFiles(d *govDisk, k *govBack) {
	gov.Use("(*os.File).ReadAt", func(f *os.File, b []byte, off int64) (int, error) {
		if k != nil && f == k.f {
			return k.readAt(b, off)
		}
		gov.Assert("the file of the device is read", f == d.f)
		return d.readAt(b, off)
	})
	gov.Use("(*os.File).WriteAt", func(f *os.File, b []byte, off int64) (int, error) {
		gov.Assert("the file of the device is written", f == d.f)
		return d.writeAt(b, off)
	})
	gov.Use("(*os.File).Seek", func(f *os.File, off int64, whence int) (int64, error) {
		if k != nil && f == k.f {
			if err := k.fail(); err != nil {
				return 0, err
			}
			return k.seek(off, whence)
		}
		return off, d.fail()
	})
	gov.Use("(*os.File).Close", func(f *os.File) error {
		if k != nil && f == k.f {
			return nil
		}
		d.closed = true
		return nil
	})
	if k != nil {
		gov.Use("(*os.File).Read", func(f *os.File, b []byte) (int, error) {
			gov.Assert("the file of the snapshot is read", f == k.f)
			n, err := k.readAt(b, int64(k.pos))
			k.pos += uint64(n)
			return n, err
		})
		gov.Use("(*os.File).Write", func(f *os.File, b []byte) (int, error) {
			gov.Assert("the file of the snapshot is written", f == k.f)
			return k.write(b)
		})
		gov.Use("(*os.File).Sync", func(f *os.File) error { return k.fail() })
	}
}

// govAnyView is any view of the disk, with any cursor.
func govAnyView(d *govDisk) *FileNVM {
	v := &FileNVM{file: d.f, viewStart: gov.U64("view start"), viewEnd: gov.U64("view end"), cursor_position: gov.U64("cursor"), splited: gov.Bool("split")}
	gov.Assume(govViewOK(v))
	return v
}

func govViewOK(v *FileNVM) bool {
	return gov.And(gov.And(v.viewStart <= v.cursor_position, v.cursor_position <= v.viewEnd), v.viewEnd <= govDiskMax)
}

func (d *govDisk) only(from, to uint64) { d.from, d.to = from, to }

// rejected: an access that must be refused, or cut down to nothing
func govAligned512(x uint64) bool { return x&511 == 0 }

// govBuf is any buffer
func govBuf() ([]byte, []byte) {
	buf := gov.Bytes("buffer", 1<<40)
	return buf, gov.Snapshot(buf)
}

//gov:proves (*nvm.FileNVM).ReadAt; (*nvm.FileNVM).Read; (*nvm.FileNVM).Position; (*nvm.FileNVM).Capacity; (*nvm.FileNVM).ViewStart; (*nvm.FileNVM).ViewEnd
func GovProve_C13_fileRead() {
	d := govAnyDisk(gov.Choice("faulty", 2) == 1)
	v := govAnyView(d)
	d.only(v.viewStart, v.viewEnd)
	before := *v
	c := v.Capacity()
	gov.Assert("the view's bounds", gov.And(v.ViewStart() == before.viewStart, gov.And(v.ViewEnd() == before.viewEnd, gov.And(c == before.viewEnd-before.viewStart, v.Position() == before.cursor_position-before.viewStart))))
	buf, old := govBuf()
	disk := gov.Snapshot(d.data)
	L := uint64(len(buf))
	gov.Invariant("(*nvm.FileNVM).Read", 0, func(x gov.Vars) bool {
		i, n, l := uint64(x.Int("i")), uint64(x.Int("n")), x.U64("len")
		return gov.And(gov.And(n <= i, i <= l), gov.And(gov.SameBytes(buf, 0, disk, before.cursor_position, n),
			gov.Forall(func(k uint64) bool { return gov.Imp(gov.And(n <= k, k < i), gov.At(buf, k) == 0) })))
	})
	at := gov.Choice("at", 2) == 1
	var n int
	var err error
	p := before.cursor_position - before.viewStart
	if at {
		off := gov.I64("offset")
		p = uint64(off)
		n, err = v.ReadAt(buf, off)
	} else {
		n, err = v.Read(buf)
	}
	gov.Assert("reading changes nothing on the device", gov.SameBytes(d.data, 0, disk, 0, govDiskMax))
	if err != nil {
		gov.Assert("a failed read leaves the view as it is", *v == before)
		if d.err == nil {
			gov.Assert("only a misaligned position or length, or one outside of the view, is refused",
				gov.Or(gov.Or(p >= c, gov.And(at, !govAligned512(p))), gov.Or(!govAligned512(L), gov.And(err == io.EOF, before.viewStart+p+gov.Ite(L < c-p, L, c-p) > d.size))))
			gov.Assert("what is refused reads nothing", gov.Or(gov.EqBytes(buf, old), err == io.EOF))
		}
		return
	}
	gov.Assert("a position outside of the view is refused", p <= c)
	gov.Assert("a misaligned position is refused", gov.Or(!at, govAligned512(p)))
	gov.Assert("a misaligned length is refused", govAligned512(L))
	want := gov.Ite(L < c-p, L, c-p)
	gov.Assert("as much is read as there is", n >= 0 && uint64(n) == want)
	gov.Assert("exactly the bytes of the device there are read", gov.SameBytes(buf, 0, d.data, before.viewStart+p, want))
	gov.Assert("the cursor moves behind what was read", v.cursor_position == before.cursor_position+gov.Ite(at, 0, want))
	gov.Assert("the view stays", gov.And(v.viewStart == before.viewStart, v.viewEnd == before.viewEnd))
}

//gov:proves (*nvm.FileNVM).WriteAt; (*nvm.FileNVM).Write
func GovProve_C13_fileWrite() {
	d := govAnyDisk(gov.Choice("faulty", 2) == 1)
	v := govAnyView(d)
	d.only(v.viewStart, v.viewEnd)
	before := *v
	c := v.Capacity()
	buf, old := govBuf()
	disk := gov.Snapshot(d.data)
	size := d.size
	L := uint64(len(buf))
	at := gov.Choice("at", 2) == 1
	var n int
	var err error
	p := before.cursor_position - before.viewStart
	if at {
		off := gov.I64("offset")
		p = uint64(off)
		n, err = v.WriteAt(buf, off)
	} else {
		n, err = v.Write(buf)
	}
	gov.Assert("the buffer is not changed", gov.EqBytes(buf, old))
	x := gov.U64("byte")
	gov.Assume(x < govDiskMax)
	if err != nil {
		gov.Assert("a failed write leaves the view as it is", *v == before)
		gov.Assert("what is refused writes nothing", gov.Or(d.err != nil, gov.And(gov.SameBytes(d.data, 0, disk, 0, govDiskMax), d.size == size)))
		gov.Assert("only a misaligned position or length, or one outside of the view, is refused",
			gov.Or(d.err != nil, gov.Or(gov.Or(p > c, gov.And(at, !govAligned512(p))), !govAligned512(L))))
		gov.Assert("a failed write changes at most the bytes addressed", gov.Or(gov.At(d.data, x) == gov.At(disk, x), gov.And(gov.And(p <= c, x >= before.viewStart+p), x < before.viewStart+p+gov.Ite(L < c-p, L, c-p))))
		return
	}
	gov.Assert("a position outside of the view is refused", p <= c)
	gov.Assert("a misaligned position is refused", gov.Or(!at, govAligned512(p)))
	gov.Assert("a misaligned length is refused", govAligned512(L))
	want := gov.Ite(L < c-p, L, c-p)
	gov.Assert("as much is written as fits into the view", n >= 0 && uint64(n) == want)
	s := before.viewStart + p
	gov.Assert("exactly the bytes addressed are written", gov.Ite(gov.And(s <= x, x < s+want), gov.At(d.data, x) == gov.At(buf, x-s), gov.At(d.data, x) == gov.At(disk, x)))
	gov.Assert("the cursor moves behind what was written", v.cursor_position == before.cursor_position+gov.Ite(at, 0, want))
	gov.Assert("the view stays", gov.And(v.viewStart == before.viewStart, v.viewEnd == before.viewEnd))
}

//gov:proves (*nvm.FileNVM).Seek; nvm.ConvertToOffset
func GovProve_C13_fileSeek() {
	d := govAnyDisk(false)
	v := govAnyView(d)
	before := *v
	off, whence := gov.I64("offset"), gov.Int("whence")
	pos, err := v.Seek(off, whence)
	govSought(before.cursor_position-before.viewStart, before.viewEnd-before.viewStart, v.Position(), off, whence, pos, err)
	gov.Assert("the bounds of the view stay", gov.And(v.viewStart == before.viewStart, v.viewEnd == before.viewEnd))
	gov.Assert("the cursor stays inside the view", govViewOK(v))
}

// govSought is the contract of a seek from position p in a view of c bytes, now at position now.
func govSought(p, c, now uint64, off int64, whence int, pos int64, err error) {
	base := gov.Ite(whence == io.SeekStart, 0, gov.Ite(whence == io.SeekCurrent, int64(p), int64(c)))
	want := base + off
	valid := gov.And(gov.Or(whence == io.SeekStart, gov.Or(whence == io.SeekCurrent, whence == io.SeekEnd)), gov.And(govAligned512(uint64(off)),
		gov.Ite(off < 0, gov.And(off > -1<<61, want >= 0), gov.And(off <= 1<<61, want <= int64(c)))))
	if err != nil {
		gov.Assert("only a misaligned position, or one outside of the view, is refused", !valid)
		gov.Assert("a refused seek leaves the cursor", now == p)
		return
	}
	gov.Assert("a misaligned position, or one outside of the view, is refused", valid)
	gov.Assert("the new position is returned", pos == want)
	gov.Assert("and used by the next access", now == uint64(want))
}

//gov:proves (*nvm.FileNVM).Split; (*nvm.FileNVM).Close; (*nvm.FileNVM).BlockSize
func GovProve_C13_fileSplit() {
	d := govAnyDisk(false)
	v := govAnyView(d)
	before := *v
	c := v.Capacity()
	p := gov.U64("position")
	a, b, err := v.Split(p)
	gov.Assert("splitting leaves the view as it is", *v == before)
	gov.Assert("exactly a misaligned position, or one outside of the view, is refused", (err != nil) == gov.Or(!govAligned512(p), p > c))
	if err != nil {
		gov.Assert("it says why", gov.ErrIs(err, internalerror.InvalidInput))
		return
	}
	l, r := a.(*FileNVM), b.(*FileNVM)
	gov.Assert("the two views tile the view", gov.And(gov.And(l.viewStart == before.viewStart, l.viewEnd == before.viewStart+p), gov.And(r.viewStart == l.viewEnd, r.viewEnd == before.viewEnd)))
	gov.Assert("they are views of the same device", l.file == d.f && r.file == d.f)
	gov.Assert("their cursors are at their start", gov.And(l.Position() == 0, r.Position() == 0))
	gov.Assert("a block of a view is 512 bytes", gov.And(l.BlockSize() == 512, r.BlockSize() == 512))
	l.Close()
	r.Close()
	gov.Assert("closing a view leaves the device open", !d.closed)
	if !v.splited {
		v.Close()
		gov.Assert("closing the device closes it", d.closed)
	}
}
