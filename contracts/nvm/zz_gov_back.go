//go:build go1.21

package nvm

import (
	"io"
	"os"
	"strings"
	"time"

	uuid "github.com/satori/go.uuid"
	"github.com/thesues/cannyls-go/internalerror"
	judy "github.com/thesues/go-judy"
	gov "github.com/thesues/cannyls-go/zzgov"
)

// C14: the file of a snapshot: its header, its creation, and opening it again.

type govInfo struct{ size uint64 }

func (i govInfo) Name() string       { return "" }
func (i govInfo) Size() int64        { return int64(i.size) }
func (i govInfo) Mode() os.FileMode  { return 0 }
func (i govInfo) ModTime() time.Time { return time.Time{} }
func (i govInfo) IsDir() bool        { return false }
func (i govInfo) Sys() interface{}   { return nil }

// govJournalRoom is the room for one entry per region of a device of c bytes.
func govJournalRoom(c uint64, shift uint16) uint64 {
	r := (c + uint64(1)<<shift - 1) >> shift
	return (12*r + 511) / 512 * 512
}

func govAnyBackHeader() *BackingFileHeader {
	h := &BackingFileHeader{MajorVersion: gov.U16("major"), MinorVersion: gov.U16("minor"), RegionShift: 20 + uint16(gov.Choice("region shift", 6)),
		MaxCapacity: gov.U64("max capacity"), JournalSize: gov.U64("journal size"), RawCapacity: gov.U64("raw capacity")}
	copy(h.UUID[:], gov.BytesN("uuid", 16))
	return h
}

func govBackHeaderOK(h *BackingFileHeader) bool {
	return gov.And(gov.And(h.MajorVersion == SNAP_MAJOR_VERSION, h.MinorVersion == SNAP_MINOR_VERSION),
		gov.And(gov.And(h.RegionShift >= 20, h.RegionShift <= 25), h.JournalSize == fromMaxCapacityToJournalSize(h.MaxCapacity, h.RegionShift)))
}

//gov:proves nvm.fromMaxCapacityToJournalSize
func GovProve_C14_journalRoom() {
	c := gov.U64("capacity")
	gov.Assume(c < 1<<56)
	shift := 20 + uint16(gov.Choice("region shift", 6))
	j := fromMaxCapacityToJournalSize(c, shift)
	gov.Assert("there is room for an entry of every region", j/12 >= (c+uint64(1)<<shift-1)>>shift)
	gov.Assert("in whole blocks", j&511 == 0)
	gov.Assert("and no more", j < 12*((c+uint64(1)<<shift-1)>>shift)+512)
}

//gov:proves (*nvm.BackingFileHeader).WriteTo; nvm.readBackingFileHeaderFrom
func GovProve_C14_headerRoundtrip() {
	h := govAnyBackHeader()
	gov.Assume(govBackHeaderOK(h))
	was := *h
	w := &govSink{data: gov.Bytes("file", 4096), faulty: gov.Bool("faulty")}
	gov.Assume(len(w.data) >= 512)
	err := h.WriteTo(w)
	gov.Assert("a failed write is reported", (err != nil) == w.failed)
	gov.Assert("writing does not change it", *h == was)
	if err != nil {
		return
	}
	gov.Assert("it fits before the entries", w.pos <= 512)
	got, err := readBackingFileHeaderFrom(&govSource{data: w.data})
	gov.Assert("what was written is accepted", err == nil)
	if err == nil {
		gov.Assert("and read back unchanged", gov.And(gov.And(got.RegionShift == was.RegionShift, got.UUID == was.UUID), gov.And(got.MaxCapacity == was.MaxCapacity, gov.And(got.JournalSize == was.JournalSize, got.RawCapacity == was.RawCapacity))))
	}
}

// Any bytes presented as the header of a snapshot.
//
//gov:proves nvm.readBackingFileHeaderFrom
func GovProve_C14_headerRead() {
	b := gov.Bytes("file", 4096)
	gov.Assume(len(b) >= 58 || len(b) == 0)
	h, err := readBackingFileHeaderFrom(&govSource{data: b})
	if len(b) == 0 {
		gov.Assert("an empty file is refused", err != nil)
		return
	}
	shift := govBE(b, 24, 2)
	room := uint64(0)
	if shift >= 20 && shift <= 25 {
		room = fromMaxCapacityToJournalSize(govBE(b, 26, 8), uint16(shift))
	}
	valid := gov.And(gov.And(govBE(b, 0, 4) == 0x736e6170, gov.And(govBE(b, 4, 2) == 0, govBE(b, 6, 2) == 3)), gov.And(gov.And(shift >= 20, shift <= 25), govBE(b, 34, 8) == room))
	gov.Assert("exactly a well-formed header is accepted", (err == nil) == valid)
	if err == nil {
		gov.Assert("its fields are the ones stored", gov.And(gov.And(govBackHeaderOK(h), uint64(h.RegionShift) == shift), gov.And(h.MaxCapacity == govBE(b, 26, 8), gov.And(h.JournalSize == govBE(b, 34, 8), h.RawCapacity == govBE(b, 50, 8)))))
	}
}

// Opening the file of a snapshot of count regions, the last of them perhaps
// followed by a part of one that was being saved.
//
//gov:proves nvm.OpenBackingFile
func GovProve_C14_open() {
	k := govAnyBack()
	k.faulty = false
	d := &govDisk{f: &os.File{}}
	govUseFiles(d, k)
	h := govAnyBackHeader()
	gov.Assume(gov.And(govBackHeaderOK(h), h.MaxCapacity < 1<<50))
	r, start := uint64(1)<<h.RegionShift, 512+h.JournalSize
	count, q, at := gov.U64("saved"), gov.U32("region"), gov.U64("saved at")
	gov.Assume(gov.And(12*count <= h.JournalSize, count < 1<<31))
	// the entries (C14_save): entry i tells where region i of the file belongs, each region once
	orgs := gov.Slice[uint32]("entries", count)
	org := func(i uint64) uint32 { return gov.At(orgs, i) }
	gov.Assume(gov.Forall(func(i uint64) bool { return gov.Imp(gov.And(i < count, i != at), org(i) != q) }))
	has := gov.And(at < count, org(at) == q)
	gov.Assume(gov.Or(gov.And(count == 0, k.size < start+r), gov.And(k.size >= start+count*r, k.size < start+count*r+r)))
	size := k.size
	was := gov.Snapshot(k.data)
	missing := gov.Choice("missing", 2) == 1
	gov.Use("os.OpenFile", func(name string, flag int, perm os.FileMode) (*os.File, error) {
		gov.Assert("the snapshot is opened", name == "snap")
		gov.Assert("as it is", flag == os.O_RDWR)
		if missing {
			return nil, gov.SomeErr("open")
		}
		return k.f, nil
	})
	gov.Use("(*os.File).Stat", func(f *os.File) (os.FileInfo, error) { return govInfo{k.size}, nil })
	gov.Use("nvm.readBackingFileHeaderFrom", func(rd io.Reader) (*BackingFileHeader, error) {
		gov.Assert("the header is in the file", rd.(*os.File) == k.f)
		k.pos = gov.U64("behind the header")
		return h, nil
	})
	gov.Use("nvm.ReadRecordFrom", func(rd io.Reader) BitmapEntry {
		gov.Assert("the entries are in the file", rd.(*os.File) == k.f)
		gov.Assert("an entry is read that was written", gov.And(k.pos >= 512, gov.And((k.pos-512)%12 == 0, (k.pos-512)/12 < count)))
		i := (k.pos - 512) / 12
		k.pos += 12
		gov.Assume(uint64(org(i)) == govBE(k.data, 512+12*i+4, 4)) // what orgs is
		return BitmapEntry{OriginOffset: org(i), SnapOffset: uint32(i)}
	})
	gov.Invariant("nvm.OpenBackingFile", 0, func(v gov.Vars) bool {
		i := v.U64("i")
		tree := v.Any("tree").(judy.JudyL)
		t := &tree
		return gov.And(gov.And(i <= count, k.pos == 512+12*i), gov.And(gov.And(v.U64("dataEnd") == start+count*r, gov.Has(t, uint64(q)) == gov.And(has, at < i)), gov.Imp(gov.And(has, at < i), gov.Val(t, uint64(q)) == at)))
	})
	bf, err := OpenBackingFile("snap")
	gov.Assert("exactly a file that can not be opened is refused", (err != nil) == missing)
	if err != nil {
		gov.Assert("it says why", gov.ErrIs(err, internalerror.InvalidInput))
		return
	}
	gov.Assert("the snapshot is not changed", gov.And(k.size == size, gov.SameBytes(k.data, 0, was, 0, govBackMax)))
	gov.Assert("it has the regions saved", gov.And(gov.Has(&bf.tree, uint64(q)) == has, gov.Imp(has, gov.Val(&bf.tree, uint64(q)) == at)))
	gov.Assert("at the same places", gov.And(gov.And(bf.dataStart == start, bf.regionSize == r), gov.And(bf.file == k.f, bf.fileName == "snap")))
	gov.Assert("the next region is saved behind them", gov.And(bf.dataEnd == start+count*r, gov.And(bf.JournalStart == 512, bf.JournalEnd == 512+12*count)))
	gov.Assert("it shows as many bytes as before", gov.And(bf.rawCapacity == h.RawCapacity, gov.And(bf.maxCapacity == h.MaxCapacity, bf.journalMaxSize == h.JournalSize)))
}

// govDir is the directory of a snapshot: which of its two names exist, and
// what the file holds.
type govDir struct {
	k          *govBack
	tmp, final string
	hasTmp     bool
	hasFinal   bool
	synced     bool
	closed     bool
	failed     bool
}

func govUseDir(k *govBack) *govDir {
	g := &govDir{k: k, tmp: "p_u_lusf.snapshot.tmp", final: "p_u_lusf.snapshot"}
	fail := func() error {
		err := gov.Err("directory")
		if err != nil {
			g.failed = true
		}
		return err
	}
	gov.Use("go.uuid.NewV4", func() (id uuid.UUID) {
		copy(id[:], gov.BytesN("uuid", 16))
		return
	})
	gov.Use("(go.uuid.UUID).String", func(uuid.UUID) string { return "u" })
	gov.Use("os.OpenFile", func(name string, flag int, perm os.FileMode) (*os.File, error) {
		if err := fail(); err != nil {
			return nil, err
		}
		gov.Assert("the file is created", flag&os.O_CREATE != 0 && flag&os.O_RDWR != 0)
		gov.Assert("no snapshot of that name is searched for yet", name == g.tmp)
		g.hasTmp = true
		k.pos = 0
		return k.f, nil
	})
	gov.Use("(*os.File).Sync", func(f *os.File) error {
		err := k.fail()
		g.synced = err == nil
		return err
	})
	gov.Use("(*os.File).Close", func(f *os.File) error {
		g.closed = true
		return nil
	})
	gov.Use("os.Rename", func(from, to string) error {
		gov.Assert("the new file gets its name", from == g.tmp && to == g.final && g.hasTmp)
		gov.Assert("when its header is complete", g.synced && k.pos == 58)
		if err := fail(); err != nil {
			return err
		}
		g.hasTmp, g.hasFinal = false, true
		return nil
	})
	gov.Use("os.Remove", func(name string) error {
		gov.Assert("only a file of this snapshot is removed", name == g.tmp || name == g.final)
		if name == g.tmp {
			g.hasTmp = false
		} else {
			if err := fail(); err != nil {
				return err
			}
			g.hasFinal = false
		}
		return nil
	})
	return g
}

func govNoSnap(d *govDisk) *SnapNVM {
	v := govAnyView(d)
	v.viewStart, v.splited = 0, false
	gov.Assume(v.viewEnd < 1<<50)
	s := &SnapNVM{originFile: v, prefix: "p"}
	s.rawSnapNVM = s
	gov.Lock(&s.mu, "snapshot", 1)
	gov.Use("(*nvm.FileNVM).RawSize", func(v *FileNVM) int64 { return int64(d.size) })
	return s
}

// A new snapshot shows the device as it is.
//
//gov:proves (*nvm.SnapNVM).CreateSnapshotIfNeeded; (*nvm.SnapNVM).createSnapshotIfNeeded; nvm.CreateBackingFile; (*nvm.SnapNVM).GetSnapshotReader; nvm.newSnapshotReader
func GovProve_C14_create() {
	k := govAnyBack()
	k.size = 0
	d := govAnyDisk(false)
	govUseFiles(d, k)
	dir := govUseDir(k)
	s := govNoSnap(d)
	v := *s.originFile
	disk, size := gov.Snapshot(d.data), d.size
	d.onWrite = func(off, n uint64) { gov.Fail("the device is not written") }
	read := gov.Choice("reader", 2) == 1
	var r *SnapshotReader
	var err error
	if read {
		r, err = s.GetSnapshotReader()
	} else {
		err = s.CreateSnapshotIfNeeded()
	}
	gov.Assert("all locks are released", gov.HeldCount() == 0)
	gov.Assert("the device is not changed", gov.And(d.size == size, gov.And(*s.originFile == v, gov.SameBytes(d.data, 0, disk, 0, govDiskMax))))
	bf := s.myBackfile
	if err != nil {
		gov.Assert("only a failure is reported", dir.failed || k.failed)
		gov.Assert("then there is no snapshot, and no file of one", bf == nil && !dir.hasTmp && !dir.hasFinal)
		return
	}
	gov.Assert("the snapshot is found when the store is opened again", dir.hasFinal && !dir.hasTmp && !dir.closed && bf.fileName == dir.final)
	gov.Assert("no region is saved yet", gov.Card(&bf.tree) == 0)
	gov.Assert("it shows all the bytes there are", gov.And(bf.rawCapacity == size, bf.maxCapacity == v.viewEnd))
	R := bf.regionSize
	gov.Assert("in regions of the size of its buffer", gov.And(R == 1<<DEFAULT_REGION_SHIFT, uint64(s.ab.Len()) == R))
	gov.Assert("entries and regions are behind the header", gov.And(bf.JournalStart == 512, gov.And(bf.JournalEnd == 512, gov.And(bf.dataStart == 512+bf.journalMaxSize, bf.dataEnd == bf.dataStart))))
	gov.Assert("there is room for all entries", bf.journalMaxSize >= 12*((v.viewEnd+R-1)/R))
	h, err := readBackingFileHeaderFrom(&govSource{data: k.data})
	gov.Assert("the header tells so", err == nil)
	if err == nil {
		gov.Assert("when it is opened again", gov.And(gov.And(uint64(1)<<h.RegionShift == R, h.RawCapacity == size), gov.And(h.MaxCapacity == bf.maxCapacity, h.JournalSize == bf.journalMaxSize)))
	}
	if read {
		gov.Assert("it is read from its start", gov.And(r.snap == s, gov.And(r.offset == 0, gov.And(r.waterHighMark == 0, r.waterLowMark == 0))))
		gov.Assert("region by region", uint64(r.buf.Len()) == R)
	}
	_ = dir
}

// A snapshot stays until it is deleted.
//
//gov:proves (*nvm.SnapNVM).CreateSnapshotIfNeeded; (*nvm.SnapNVM).GetSnapshotReader; (*nvm.SnapNVM).DeleteSnapshot; (*nvm.BackingFile).Delete; (*nvm.SnapNVM).Close; (*nvm.BackingFile).Close
func GovProve_C14_stays() {
	t := govAnyTaken(25)
	dir := govUseDir(t.k)
	dir.hasFinal = true
	t.bf.fileName = dir.final
	gov.Use("os.OpenFile", func(name string, flag int, perm os.FileMode) (*os.File, error) {
		gov.Fail("no other snapshot is made")
		return nil, nil
	})
	s, raw := t.self, t.raw
	t.d.onWrite = func(off, n uint64) { gov.Fail("the device is not written") }
	switch gov.Choice("operation", 4) {
	case 0:
		err := s.CreateSnapshotIfNeeded()
		gov.Assert("there is one snapshot at most", err != nil)
	case 1:
		r, err := s.GetSnapshotReader()
		gov.Assert("the device's snapshot can be read", (err == nil) == (s == raw))
		if err == nil {
			gov.Assert("from its start", gov.And(r.snap == raw, govReaderAt(r) == 0))
			gov.Assert("region by region", uint64(r.buf.Len()) == t.r)
		}
	case 2:
		var err error
		panicked := gov.Catch(func() { err = s.DeleteSnapshot() })
		gov.Assert("all locks are released", gov.HeldCount() == 0)
		gov.Assert("a view does not delete the snapshot", (err != nil) == (s != raw))
		gov.Assert("a failure of the file is a failure", panicked == gov.And(s == raw, dir.failed))
		if err == nil && !panicked {
			gov.Assert("the snapshot is gone", raw.myBackfile == nil && !dir.hasFinal)
		} else {
			gov.Assert("the snapshot stays", raw.myBackfile == t.bf && dir.hasFinal)
		}
		return
	default:
		gov.Use("(*nvm.FileNVM).Close", func(*FileNVM) error { return nil })
		err := s.Close()
		gov.Assert("a view is not closed", gov.Imp(s != raw, err != nil && !dir.closed))
		gov.Assert("the file of the snapshot is closed with the device", gov.Imp(s == raw, dir.closed))
	}
	gov.Assert("all locks are released", gov.HeldCount() == 0)
	gov.Assert("the snapshot stays", raw.myBackfile == t.bf && dir.hasFinal)
	gov.Assert("and shows what it did", t.shown())
}

// Opening a device: its snapshot, if it has one, is found and goes on.
//
//gov:proves nvm.NewSnapshotNVM
func GovProve_C14_attach() {
	f := &FileNVM{path: "d/p.lusf"}
	n := gov.Choice("snapshots", 2)
	globErr, openErr := gov.Choice("directory fails", 2) == 1, gov.Choice("open fails", 2) == 1
	bf := &BackingFile{regionSize: uint64(1) << (20 + gov.Choice("region", 8))}
	opened := 0
	gov.Use("strings.NewReplacer", func(p ...string) *strings.Replacer { return &strings.Replacer{} })
	gov.Use("(*strings.Replacer).Replace", func(r *strings.Replacer, s string) string { return s })
	gov.Use("filepath.Dir", func(p string) string {
		gov.Assert("the directory of the device", p == "d/p.lusf")
		return "d"
	})
	gov.Use("filepath.Base", func(p string) string { return "p.lusf" })
	gov.Use("filepath.Join", func(e ...string) string {
		if len(e) == 2 {
			return e[0] + "/" + e[1]
		}
		return "?"
	})
	gov.Use("filepath.Glob", func(pattern string) ([]string, error) {
		if globErr {
			return nil, gov.SomeErr("directory")
		}
		if n == 0 {
			return nil, nil
		}
		return []string{"d/p_u_lusf.snapshot"}, nil
	})
	gov.Use("nvm.OpenBackingFile", func(name string) (*BackingFile, error) {
		gov.Assert("the file found is opened", n == 1 && name == "d/p_u_lusf.snapshot")
		opened++
		if openErr {
			return nil, gov.SomeErr("open")
		}
		return bf, nil
	})
	var s *SnapNVM
	var err error
	if gov.Catch(func() { s, err = NewSnapshotNVM(f) }) {
		gov.Assert("only a directory that can not be read stops the process", globErr)
		return
	}
	if globErr {
		gov.Assert("a directory that can not be read is an error", err != nil)
		return
	}
	gov.Assert("a snapshot that can not be opened is an error", (err != nil) == (n == 1 && openErr))
	if err != nil {
		return
	}
	gov.Assert("it is opened once", opened == n)
	gov.Assert("the device is the whole file", s.originFile == f && s.rawSnapNVM == s && !s.splited)
	gov.Assert("new snapshots are made next to it", s.prefix == "d/p")
	if n == 1 {
		gov.Assert("the snapshot goes on", s.myBackfile == bf)
		gov.Assert("with a buffer of one region", uint64(s.ab.Len()) == bf.regionSize)
	} else {
		gov.Assert("there is none", s.myBackfile == nil)
	}
}
