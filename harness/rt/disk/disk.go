// Package disk is a simulated disk: files with a volatile page cache and a durable image. A
// crash keeps what was synced and an arbitrary part of what was not.
package disk

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/rt"
)

// Disk is the disk of one run.
type Disk struct {
	files map[string]*inode // names as they are
	names map[string]*inode // names as they would be after a power loss
	// Yield makes every disk call a scheduling point.
	Yield bool
	// Per 10000 probabilities of failures.
	WriteErr, SyncErr, OpenErr int
	// ReadErr is for reads that the files' owner asks about with ReadFault.
	ReadErr int
	// Split makes writes of several pages take more than one step.
	Split bool
	// SpareHeader spares the last sync of a bbolt commit.
	SpareHeader bool
	// Torn allows single writes to be cut at sector boundaries in a crash.
	Torn bool
	// Mode of losing unsynced writes in a crash: 0 all lost, 1 random subset, 2 all kept.
	Writes, Syncs int64
	// FullAt, if positive, is the number of bytes after which writes that grow a file fail.
	FullAt int64
	Off    bool // no more faults
}

type inode struct {
	name    string
	data    []byte // page cache
	durable []byte
	pending []write
	maps    map[*Mapping]struct{}
	lock    *rt.Proc
	locked  bool
	dead    bool // replaced by a crash: handles of the past are void
}

type write struct {
	off   int64
	b     []byte
	trunc bool
}

// Mapping is a read-only memory map kept in step with the file.
type Mapping struct {
	B []byte
	f *File
}

// New makes an empty disk and puts it in the run.
func New() *Disk { return &Disk{files: map[string]*inode{}, names: map[string]*inode{}} }

var current *Disk

var live = map[*byte]*Mapping{}

// Use makes d the disk of the running simulation.
func Use(d *Disk) { current, live = d, map[*byte]*Mapping{} }

// Remember and Recall keep track of mappings by their first byte.
func Remember(m *Mapping) { live[&m.B[0]] = m }

// Recall returns and forgets a mapping.
func Recall(p *byte) *Mapping {
	m := live[p]
	delete(live, p)
	return m
}

// File replaces os.File.
type File struct {
	d    *Disk
	in   *inode
	name string
	pos  int64
	ro   bool
	dir  bool
	sync bool     // every write is durable when it returns
	proc *rt.Proc // whose handle it is
}

func (d *Disk) point(what string) {
	if d.Yield {
		rt.Yield("disk." + what)
	}
}

func (d *Disk) fail(what string, per10k int) bool {
	if d.Off || per10k <= 0 {
		return false
	}
	s := rt.Current()
	if s == nil || !s.Chance("disk", per10k) {
		return false
	}
	s.Fault("disk." + what)
	return true
}

// ReadFault is the error of a read that fails.
func ReadFault() error {
	if d := current; d != nil && d.fail("read", d.ReadErr) {
		return &fs.PathError{Op: "read", Path: "/d", Err: syscall.EIO}
	}
	return nil
}

func mine() *rt.Proc {
	if t := rt.Self(); t != nil {
		return t.Proc
	}
	return nil
}

// alive stops what a dead process left running.
func (f *File) alive() {
	if f.proc != nil && f.proc.Dead {
		rt.Halt()
	}
}

// OpenFile replaces os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	d := current
	if d == nil {
		return nil, errors.New("no simulated disk")
	}
	d.point("open")
	if d.fail("open", d.OpenErr) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EMFILE}
	}
	in, ok := d.files[name]
	if ok && flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	}
	if !ok {
		if flag&os.O_CREATE == 0 {
			for n := range d.files {
				if strings.HasPrefix(n, strings.TrimSuffix(name, "/")+"/") {
					return &File{d: d, in: &inode{name: name, maps: map[*Mapping]struct{}{}}, name: name, dir: true, proc: mine()}, nil
				}
			}
			return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
		}
		in = &inode{name: name, maps: map[*Mapping]struct{}{}}
		d.files[name] = in
	}
	if flag&os.O_TRUNC != 0 && len(in.data) > 0 {
		in.data = nil
		in.pending = append(in.pending, write{trunc: true})
	}
	return &File{d: d, in: in, name: name, ro: flag&(os.O_WRONLY|os.O_RDWR) == 0, sync: flag&syscall.O_DSYNC != 0, proc: mine()}, nil
}

// Open replaces os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create replaces os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// MkdirAll replaces os.MkdirAll.
func MkdirAll(name string, perm os.FileMode) error { return nil }

// Rename replaces os.Rename.
func Rename(from, to string) error {
	d := current
	d.point("rename")
	in, ok := d.files[from]
	if !ok {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if d.fail("rename", d.OpenErr) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EIO}
	}
	delete(d.files, from)
	d.files[to] = in
	in.name = to
	return nil
}

// Stat replaces os.Stat.
func Stat(name string) (os.FileInfo, error) {
	d := current
	d.point("stat")
	in, ok := d.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return info{in.name, int64(len(in.data))}, nil
}

// Remove replaces os.Remove.
func Remove(name string) error {
	d := current
	d.point("remove")
	if _, ok := d.files[name]; !ok {
		return &fs.PathError{Op: "remove", Path: name, Err: fs.ErrNotExist}
	}
	if d.fail("remove", d.OpenErr) {
		return &fs.PathError{Op: "remove", Path: name, Err: syscall.EIO}
	}
	delete(d.files, name)
	return nil
}

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return 0600 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }
func (f *File) Stat() (os.FileInfo, error) {
	return info{f.name, int64(len(f.in.data))}, nil
}

func (f *File) gone() bool { return f.in.dead }

// WriteAt writes to the page cache.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	d := f.d
	d.point("write")
	f.alive()
	if f.gone() {
		return 0, fs.ErrClosed
	}
	if d.fail("write", d.WriteErr) {
		// A short write: part of it reached the cache, by whole pages of it.
		s := rt.Current()
		n := 0
		if first := int(4096 - off%4096); len(b) > first {
			if k := s.Choose("disk", (len(b)-first+4095)/4096+1); k > 0 {
				n = first + (k-1)*4096
			}
		}
		f.apply(b[:n], off)
		if s.Choose("disk", 2) == 1 {
			return n, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EIO}
		}
		return n, &fs.PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}
	}
	if !d.Off && d.FullAt > 0 && off+int64(len(b)) > int64(len(f.in.data)) && off+int64(len(b)) > d.FullAt {
		if s := rt.Current(); s != nil {
			s.Fault("disk.full")
		}
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}
	}
	d.Writes++
	if first := 4096 - off%4096; d.Split && int64(len(b)) > first {
		// A process that is killed may have got only a part of it to the cache.
		k := first
		if s := rt.Current(); s != nil {
			k += 4096 * int64(s.Choose("disk", int((int64(len(b))-first+4095)/4096)))
		}
		f.apply(b[:k], off)
		d.point("write-mid")
		f.alive()
		if f.gone() {
			return 0, fs.ErrClosed
		}
		f.apply(b[k:], off+k)
	} else {
		f.apply(b, off)
	}
	if f.sync {
		d.point("write-sync")
		f.alive()
		if f.gone() {
			return 0, fs.ErrClosed
		}
		f.flush()
	}
	return len(b), nil
}

func put(data []byte, b []byte, off int64) []byte {
	if need := off + int64(len(b)); need > int64(len(data)) {
		data = append(data, make([]byte, need-int64(len(data)))...)
	}
	copy(data[off:], b)
	return data
}

func (f *File) apply(b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	in := f.in
	in.data = put(in.data, b, off)
	for m := range in.maps {
		if off < int64(len(m.B)) {
			copy(m.B[off:], b)
		}
	}
	in.pending = append(in.pending, write{off: off, b: append([]byte(nil), b...)})
}

// ReadAt reads from the page cache.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(f.in.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.in.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// Read and Seek and Write are the sequential forms.
func (f *File) Read(b []byte) (int, error) {
	n, err := f.ReadAt(b, f.pos)
	f.pos += int64(n)
	if n > 0 {
		return n, nil
	}
	return n, err
}

// Write see Read.
func (f *File) Write(b []byte) (int, error) {
	n, err := f.WriteAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

// Seek see Read.
func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = off
	case io.SeekCurrent:
		f.pos += off
	default:
		f.pos = int64(len(f.in.data)) + off
	}
	return f.pos, nil
}

// Truncate sets the size.
func (f *File) Truncate(n int64) error {
	d := f.d
	d.point("truncate")
	f.alive()
	if f.gone() {
		return fs.ErrClosed
	}
	if !d.Off && d.FullAt > 0 && n > d.FullAt {
		if s := rt.Current(); s != nil {
			s.Fault("disk.full")
		}
		return &fs.PathError{Op: "truncate", Path: f.name, Err: syscall.ENOSPC}
	}
	if d.fail("truncate", d.WriteErr) {
		return &fs.PathError{Op: "truncate", Path: f.name, Err: syscall.EIO}
	}
	f.in.data = resize(f.in.data, n)
	f.in.pending = append(f.in.pending, write{off: n, trunc: true})
	return nil
}

func resize(b []byte, n int64) []byte {
	if int64(len(b)) >= n {
		return b[:n:n]
	}
	return append(b, make([]byte, n-int64(len(b)))...)
}

// Sync makes everything written so far durable.
func (f *File) Sync() error {
	d := f.d
	d.point("sync")
	f.alive()
	if f.gone() {
		return fs.ErrClosed
	}
	if !f.header() && d.fail("sync", d.SyncErr) {
		return &fs.PathError{Op: "sync", Path: f.name, Err: syscall.EIO}
	}
	d.Syncs++
	if f.dir {
		in := func(n string) bool { return strings.HasPrefix(n, strings.TrimSuffix(f.name, "/")+"/") }
		for n := range d.names {
			if in(n) {
				delete(d.names, n)
			}
		}
		for n, i := range d.files {
			if in(n) {
				d.names[n] = i
			}
		}
		return nil
	}
	// As journaling file systems do, syncing a file makes its name durable too.
	for n, in := range d.names {
		if in == f.in && d.files[n] != in {
			delete(d.names, n)
		}
	}
	for n, in := range d.files {
		if in == f.in {
			d.names[n] = in
		}
	}
	f.flush()
	return nil
}

// header says that the sync is the last one of a bbolt commit. After that has failed, bbolt carries
// on from the commit it reported as failed, and reuses pages that older reads still use.
func (f *File) header() bool {
	if !f.d.SpareHeader || strings.HasSuffix(f.name, ".new") {
		return false
	}
	for _, w := range f.in.pending {
		if !w.trunc && w.off < 2*4096 {
			return true
		}
	}
	return false
}

func (f *File) flush() {
	for _, w := range f.in.pending {
		if w.trunc {
			f.in.durable = resize(f.in.durable, w.off)
		} else {
			f.in.durable = put(f.in.durable, w.b, w.off)
		}
	}
	f.in.pending = nil
}

// Close closes the handle.
func (f *File) Close() error { return nil }

// Lock takes the advisory lock of the file for the calling process.
func (f *File) Lock() bool {
	in := f.in
	if in.locked && (in.lock == nil || !in.lock.Dead) {
		return false
	}
	in.locked = true
	if t := rt.Self(); t != nil {
		in.lock = t.Proc
	} else {
		in.lock = nil
	}
	return true
}

// Unlock releases it.
func (f *File) Unlock() { f.in.locked, f.in.lock = false, nil }

// Map maps n bytes.
func (f *File) Map(n int) *Mapping {
	m := &Mapping{B: make([]byte, n), f: f}
	copy(m.B, f.in.data)
	f.in.maps[m] = struct{}{}
	return m
}

// Forget ends the mapping that b is.
func Forget(b []byte) {
	if m := Recall(&b[0]); m != nil {
		m.f.Unmap(m)
	}
}

// ReadDir replaces ioutil.ReadDir.
func ReadDir(name string) ([]os.FileInfo, error) {
	d := current
	d.point("readdir")
	var rv []os.FileInfo
	p := strings.TrimSuffix(name, "/") + "/"
	for n, in := range d.files {
		if strings.HasPrefix(n, p) && !strings.Contains(n[len(p):], "/") {
			rv = append(rv, info{n[len(p):], int64(len(in.data))})
		}
	}
	sort.Slice(rv, func(i, j int) bool { return rv[i].Name() < rv[j].Name() })
	return rv, nil
}

// ReadFile replaces ioutil.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	return append([]byte{}, f.in.data...), nil
}

// WriteFile replaces ioutil.WriteFile.
func WriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	return err
}

// Walk replaces filepath.Walk; what uses it only measures.
func Walk(string, filepath.WalkFunc) error { return nil }

// Unmap ends a mapping.
func (f *File) Unmap(m *Mapping) { delete(f.in.maps, m) }

// Crash is a power loss: every file becomes what was durable plus an arbitrary part of
// what was written since. keep: 0 nothing unsynced survives, 1 a random subset, 2 everything.
func (d *Disk) Crash(s *rt.Sim, keep int) {
	from := d.names
	if keep == 2 || keep == 1 && s.Choose("crash", 2) == 1 {
		from = d.files
	}
	for _, in := range d.files {
		in.dead = true
	}
	names := make([]string, 0, len(from))
	for n := range from {
		names = append(names, n)
	}
	sort.Strings(names)
	d.files = map[string]*inode{}
	for _, n := range names {
		in := from[n]
		in.dead = true
		img := append([]byte(nil), in.durable...)
		lost, torn := 0, 0
		for _, w := range in.pending {
			k := keep == 2
			if keep == 1 {
				k = s.Choose("crash", 2) == 1
			}
			if !k {
				lost++
				continue
			}
			if w.trunc {
				img = resize(img, w.off)
				continue
			}
			b, off := w.b, w.off
			tear := 0
			if d.Torn && keep == 1 && len(b) > 512 {
				tear = s.Choose("crash", 4)
			}
			if tear == 2 { // its beginning only
				torn++
				img = put(img, b[:512*s.Choose("crash", (len(b)+511)/512)], off)
				continue
			}
			if tear == 3 { // each sector on its own
				torn++
				for o := 0; o < len(b); o += 512 {
					e := o + 512
					if e > len(b) {
						e = len(b)
					}
					if s.Choose("crash", 2) == 1 {
						img = put(img, b[o:e], off+int64(o))
					}
				}
				continue
			}
			img = put(img, b, off)
		}
		for i := 0; i < lost; i++ {
			s.Count("fault.disk.lost-write")
		}
		for i := 0; i < torn; i++ {
			s.Count("fault.disk.torn-write")
		}
		d.files[n] = &inode{name: n, data: append([]byte(nil), img...), durable: img, maps: map[*Mapping]struct{}{}}
	}
	d.names = map[string]*inode{}
	for n, in := range d.files {
		d.names[n] = in
	}
}

// WriteBack makes everything durable, as the operating system does in its own time.
func (d *Disk) WriteBack() {
	for _, in := range d.files {
		(&File{in: in}).flush()
	}
	d.names = map[string]*inode{}
	for n, in := range d.files {
		d.names[n] = in
	}
}

// KillProcess is the end of a process without power loss: the page cache survives,
// locks are released.
func (d *Disk) KillProcess(p *rt.Proc) {
	for _, in := range d.files {
		if in.locked && in.lock == p {
			in.locked, in.lock = false, nil
		}
	}
}
