// Package xos replaces package os in simulation builds: an in-memory file
// system with a page cache, a durable image and injected faults.
package xos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/simrt/sim"
)

const sector = 512

// Faults are the per-run disk fault rates; they apply to paths accepted by Match.
type Faults struct {
	WriteErr  float64 `json:"write_err,omitempty"`
	SyncErr   float64 `json:"sync_err,omitempty"`
	ShortWr   float64 `json:"short_write,omitempty"`
	NoSpace   float64 `json:"enospc,omitempty"`
	ReadErr   float64 `json:"read_err,omitempty"`
	ShortRead float64 `json:"short_read,omitempty"`
	OpenErr   float64 `json:"open_err,omitempty"`
	TruncErr  float64 `json:"trunc_err,omitempty"`
	StatErr   float64 `json:"stat_err,omitempty"`
	MmapErr   float64 `json:"mmap_err,omitempty"`
	SlowOp    float64 `json:"slow_op,omitempty"`
}

type pend struct {
	off   int64
	data  []byte
	trunc int64 // -1: not a truncate
}

type inode struct {
	data    []byte // page cache
	dur     []byte // durable content
	durable bool   // directory entry durable
	pending []pend
	maps    []*mapping
	mode    fs.FileMode
	mtime   time.Time
	dir     bool
	locks   map[*File]bool // holder -> exclusive
	lockQ   sim.WaitQ
}

type mapping struct {
	buf []byte
	f   *File
}

type FS struct {
	nodes map[string]*inode
	F     Faults
	Match func(path string) bool
	On    bool // faults enabled
	// OnOp runs before every operation on a matched file; it may kill the process.
	OnOp func(op, path string)
	Ops  int
	full bool
	str  *sim.Stream
	// Injected counts faults that made an operation fail.
	Injected int
	// OnFault runs when a fault makes an operation fail.
	OnFault func(kind string)
	// LastOff is where the last write to a matched file began.
	LastOff int64
	env     map[string]string
	tmp     int
	open    map[*File]struct{}
	// undo takes back the renames and removals that a power loss may still
	// take back, oldest first.
	undo []func()
}

// Disk returns the file system of the current run.
func Disk() *FS {
	return sim.Ext("fs", func() any {
		f := &FS{nodes: map[string]*inode{}, str: sim.GetStream("disk"), env: map[string]string{}, open: map[*File]struct{}{}}
		for _, d := range []string{"/", "/tmp", "/etc", "/var", "/data"} {
			f.nodes[d] = &inode{dir: true, mode: fs.ModeDir | 0o755, durable: true}
		}
		return f
	}).(*FS)
}

func clean(p string) string {
	if !path.IsAbs(p) {
		p = "/data/" + p
	}
	return path.Clean(p)
}

// Put stores a durable file (harness).
func (d *FS) Put(p string, data []byte) {
	p = clean(p)
	d.mkParents(p)
	d.nodes[p] = &inode{data: append([]byte(nil), data...), dur: append([]byte(nil), data...), durable: true, mode: 0o644, mtime: sim.Now()}
}

func (d *FS) mkParents(p string) {
	for q := path.Dir(p); ; q = path.Dir(q) {
		if d.nodes[q] == nil {
			d.nodes[q] = &inode{dir: true, mode: fs.ModeDir | 0o755, durable: true}
		}
		if q == "/" {
			return
		}
	}
}

// Del removes a file (harness).
func (d *FS) Del(p string) { delete(d.nodes, clean(p)) }

// Get returns the page cache content of a file (harness).
func (d *FS) Get(p string) ([]byte, bool) {
	n := d.nodes[clean(p)]
	if n == nil {
		return nil, false
	}
	return n.data, true
}

// Pending returns the number of unsynced operations on a file.
func (d *FS) Pending(p string) int {
	n := d.nodes[clean(p)]
	if n == nil {
		return 0
	}
	return len(n.pending)
}

func (d *FS) match(p string) bool { return d.Match == nil || d.Match(p) }

func (d *FS) fault(p float64, kind string) bool {
	if !d.On || p <= 0 {
		return false
	}
	if d.str.Chance(p) {
		sim.Fault("disk." + kind)
		d.Injected++
		if d.OnFault != nil {
			d.OnFault(kind)
		}
		return true
	}
	return false
}

// pre is called at the start of each operation.
func (d *FS) pre(op, p string) bool {
	sim.SyncPoint()
	d.Ops++
	if !d.match(p) {
		return false
	}
	if d.OnOp != nil {
		d.OnOp(op, p)
	}
	if d.On && d.F.SlowOp > 0 && d.str.Chance(d.F.SlowOp) {
		sim.Fault("disk.slow")
		sim.Sleep(time.Duration(1+d.str.Choose(2000)) * time.Millisecond)
	}
	return true
}

// PowerLoss drops the page cache: an arbitrary subset of the unsynced sectors survives.
func (d *FS) PowerLoss() {
	st := sim.GetStream("powerloss")
	if len(d.undo) > 0 {
		kept := st.Choose(len(d.undo) + 1)
		for i := len(d.undo) - 1; i >= kept; i-- {
			sim.Fault("disk.lostrename")
			d.undo[i]()
		}
		d.undo = nil
	}
	names := make([]string, 0, len(d.nodes))
	for p := range d.nodes {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		n := d.nodes[p]
		if n.dir {
			continue
		}
		if !n.durable {
			if st.Choose(2) == 0 {
				delete(d.nodes, p)
				continue
			}
			n.durable = true
		}
		if len(n.pending) > 0 {
			sim.Fault("disk.powerloss.pending")
		}
		mode := st.Choose(4) // 0: lose all, 1: random sectors, 2: prefix of operations, 3: keep all
		cut := -1
		if mode == 2 {
			cut = st.Choose(len(n.pending) + 1)
		}
		for i, w := range n.pending {
			switch mode {
			case 0:
				continue
			case 2:
				if i >= cut {
					continue
				}
			}
			if w.trunc >= 0 {
				if mode == 1 && st.Choose(2) == 0 {
					continue
				}
				n.dur = setSize(n.dur, w.trunc)
				continue
			}
			if mode != 1 {
				n.dur = writeAt(n.dur, w.off, w.data)
				continue
			}
			// sector by sector
			off := w.off
			data := w.data
			for len(data) > 0 {
				k := sector - int(off%sector)
				if k > len(data) {
					k = len(data)
				}
				if st.Choose(2) == 1 {
					n.dur = writeAt(n.dur, off, data[:k])
				} else {
					sim.Fault("disk.lostsector")
				}
				off += int64(k)
				data = data[k:]
			}
		}
		n.pending = nil
		n.data = append([]byte(nil), n.dur...)
		n.maps = nil
		n.locks = nil
	}
	sim.Fault("powerloss")
}

func setSize(b []byte, n int64) []byte {
	if int64(len(b)) >= n {
		return b[:n:n]
	}
	return append(b, make([]byte, n-int64(len(b)))...)
}

func writeAt(b []byte, off int64, data []byte) []byte {
	if end := off + int64(len(data)); end > int64(len(b)) {
		b = setSize(b, end)
	}
	copy(b[off:], data)
	return b
}

func (n *inode) write(off int64, data []byte) {
	n.data = writeAt(n.data, off, data)
	for _, m := range n.maps {
		if off < int64(len(m.buf)) {
			copy(m.buf[off:], data)
		}
	}
	n.pending = append(n.pending, pend{off: off, data: append([]byte(nil), data...), trunc: -1})
	n.mtime = sim.Now()
}

func (n *inode) truncate(sz int64) {
	old := int64(len(n.data))
	n.data = setSize(n.data, sz)
	for _, m := range n.maps {
		for i := sz; i < old && i < int64(len(m.buf)); i++ {
			m.buf[i] = 0
		}
	}
	n.pending = append(n.pending, pend{trunc: sz})
	n.mtime = sim.Now()
}

// File is *os.File.
type File struct {
	name  string
	path  string
	n     *inode
	off   int64
	flag  int
	close bool
	proc  *sim.Proc
	std   int // 1 stdin, 2 stdout, 3 stderr
	dirAt int
	fd    uintptr
}

type Stdio struct {
	In        []byte
	inOff     int
	Out, Err  []byte
	InErrAt   int     // >=0: reading fails at this offset
	OutErrAt  int     // >=0: writing fails at this offset
	InShort   float64 // probability of a short read
	OutFailed bool
	InFailed  bool
}

func NewStdio(in []byte) *Stdio { return &Stdio{In: in, InErrAt: -1, OutErrAt: -1} }

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

func stdio() *Stdio {
	p := sim.CurProc()
	if p == nil {
		return nil
	}
	s, _ := p.Values["stdio"].(*Stdio)
	if s == nil {
		s = NewStdio(nil)
		p.Values["stdio"] = s
	}
	return s
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if !sim.Active() {
		return nil, perr("open", name, errors.New("outside of simulation"))
	}
	if sim.Dying() {
		return nil, perr("open", name, os.ErrClosed)
	}
	d := Disk()
	p := clean(name)
	if d.pre("open", p) && d.fault(d.F.OpenErr, "openerr") {
		return nil, perr("open", name, syscall.EIO)
	}
	n := d.nodes[p]
	switch {
	case n == nil && flag&os.O_CREATE == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case n == nil:
		if pd := d.nodes[path.Dir(p)]; pd == nil || !pd.dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &inode{mode: perm, mtime: sim.Now()}
		d.nodes[p] = n
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, perr("open", name, syscall.EEXIST)
	case n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0:
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && len(n.data) > 0 {
		n.truncate(0)
	}
	f := &File{name: name, path: p, n: n, flag: flag, proc: sim.CurProc()}
	d.open[f] = struct{}{}
	if f.proc != nil {
		f.proc.OnDeath(func() { f.drop() })
	}
	sim.Logf("open %s", p)
	return f, nil
}

func (f *File) drop() {
	if f.close {
		return
	}
	f.close = true
	if f.n != nil {
		f.unlock()
	}
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) bad(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.close || sim.Dying() {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) readAt(b []byte, off int64, op string) (int, error) {
	if err := f.bad(op); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return f.readStd(b)
	}
	d := Disk()
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	m := d.pre("read", f.path)
	if m && d.fault(d.F.ReadErr, "readerr") {
		return 0, perr("read", f.name, syscall.EIO)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := 0
	if f.n.busy(f) && len(b) > sector*8 {
		// Somebody else may write to the file. A read is not atomic, it
		// sees some pages before and others after such writes.
		for n < len(b) && off+int64(n) < int64(len(f.n.data)) {
			if n > 0 {
				d.pre("read", f.path)
				if off+int64(n) >= int64(len(f.n.data)) {
					break
				}
			}
			k := sector*8 - int((off+int64(n))%(sector*8))
			if k > len(b)-n {
				k = len(b) - n
			}
			n += copy(b[n:n+k], f.n.data[off+int64(n):])
		}
	} else {
		n = copy(b, f.n.data[off:])
	}
	if m && op == "read" && n > 1 && d.On && d.F.ShortRead > 0 && d.str.Chance(d.F.ShortRead) {
		n = 1 + d.str.Choose(n-1)
		sim.Fault("disk.shortread")
	}
	return n, nil
}

// busy tells whether somebody else has the file for writing.
func (n *inode) busy(f *File) bool {
	for h, ex := range n.locks {
		if ex && h != f {
			return true
		}
	}
	return false
}

func (f *File) readStd(b []byte) (int, error) {
	s := stdio()
	sim.SyncPoint()
	if s == nil || f.std != 1 {
		return 0, io.EOF
	}
	if s.InErrAt >= 0 && s.inOff >= s.InErrAt {
		if !s.InFailed {
			sim.Fault("stdin.readerr")
		}
		s.InFailed = true
		return 0, perr("read", f.name, syscall.EIO)
	}
	if s.inOff >= len(s.In) {
		return 0, io.EOF
	}
	end := len(s.In)
	if s.InErrAt >= 0 && s.InErrAt < end {
		end = s.InErrAt
	}
	n := copy(b, s.In[s.inOff:end])
	if n > 1 && s.InShort > 0 && sim.GetStream("stdin").Chance(s.InShort) {
		n = 1 + sim.GetStream("stdin").Choose(n-1)
		sim.Fault("stdin.shortread")
	}
	s.inOff += n
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	n, err := f.readAt(b, f.off, "read")
	f.off += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	t := 0
	for t < len(b) {
		n, err := f.readAt(b[t:], off+int64(t), "readat")
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return f.writeStd(b)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	d := Disk()
	if d.pre("write", f.path) {
		d.LastOff = off
		if d.fault(d.F.WriteErr, "writeerr") {
			return 0, perr("write", f.name, syscall.EIO)
		}
		if d.fault(d.F.NoSpace, "enospc") {
			k := 0
			if len(b) > sector {
				k = sector * d.str.Choose(len(b)/sector)
			}
			if k > 0 {
				f.n.write(off, b[:k])
			}
			return k, perr("write", f.name, syscall.ENOSPC)
		}
		if len(b) > 1 && d.fault(d.F.ShortWr, "shortwrite") {
			k := 1 + d.str.Choose(len(b)-1)
			f.n.write(off, b[:k])
			return k, perr("write", f.name, syscall.EIO)
		}
	}
	f.n.write(off, b)
	return len(b), nil
}

func (f *File) writeStd(b []byte) (int, error) {
	if !sim.Active() {
		return len(b), nil
	}
	s := stdio()
	// no yield: loggers write here while holding real locks
	if s == nil {
		return len(b), nil
	}
	if f.std == 3 {
		s.Err = append(s.Err, b...)
		return len(b), nil
	}
	if s.OutErrAt >= 0 && len(s.Out)+len(b) > s.OutErrAt {
		k := s.OutErrAt - len(s.Out)
		if k < 0 {
			k = 0
		}
		s.Out = append(s.Out, b[:k]...)
		if !s.OutFailed {
			sim.Fault("stdout.writeerr")
		}
		s.OutFailed = true
		return k, perr("write", f.name, syscall.ENOSPC)
	}
	s.Out = append(s.Out, b...)
	return len(b), nil
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.n != nil && f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	n, err := f.writeAt(b, f.offset())
	if f != nil {
		f.off += int64(n)
	}
	return n, err
}

func (f *File) offset() int64 {
	if f == nil {
		return 0
	}
	return f.off
}

func (f *File) WriteString(s string) (int, error)        { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.writeAt(b, off) }
func (f *File) ReadFrom(r io.Reader) (int64, error)      { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)       { return io.Copy(w, onlyReader{f}) }
func (f *File) SetDeadline(time.Time) error              { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error          { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error         { return os.ErrNoDeadline }
func (f *File) Chmod(m os.FileMode) error                { return nil }
func (f *File) Chown(int, int) error                     { return nil }
func (f *File) Chdir() error                             { return nil }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	case io.SeekEnd:
		f.off = int64(len(f.n.data)) + off
	}
	return f.off, nil
}

func (f *File) Truncate(sz int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	d := Disk()
	if d.pre("truncate", f.path) {
		if d.fault(d.F.TruncErr, "truncerr") {
			return perr("truncate", f.name, syscall.EIO)
		}
		if sz > int64(len(f.n.data)) && d.fault(d.F.NoSpace, "enospc") {
			return perr("truncate", f.name, syscall.ENOSPC)
		}
	}
	f.n.truncate(sz)
	return nil
}

func (f *File) Sync() error {
	if err := f.bad("sync"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	d := Disk()
	if d.pre("sync", f.path) && d.fault(d.F.SyncErr, "syncerr") {
		return perr("sync", f.name, syscall.EIO)
	}
	f.n.sync()
	d.undo = nil
	if f.n.dir {
		for _, c := range d.list(f.path) {
			d.nodes[path.Join(f.path, c)].durable = true
		}
	}
	if d.OnOp != nil && d.match(f.path) {
		d.OnOp("synced", f.path)
	}
	return nil
}

func (n *inode) sync() {
	n.dur = append(n.dur[:0:0], n.data...)
	n.pending = nil
	n.durable = true
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != 0 || sim.Dying() {
		return nil
	}
	if f.close {
		return perr("close", f.name, os.ErrClosed)
	}
	sim.SyncPoint()
	f.drop()
	return nil
}

// SimFlock takes an advisory lock without waiting; EWOULDBLOCK if held.
func (f *File) SimFlock(exclusive bool) error {
	if err := f.bad("flock"); err != nil {
		return err
	}
	Disk().pre("flock", f.path)
	n := f.n
	for h, ex := range n.locks {
		if h != f && (ex || exclusive) {
			return syscall.EWOULDBLOCK
		}
	}
	if n.locks == nil {
		n.locks = map[*File]bool{}
	}
	n.locks[f] = exclusive
	return nil
}

func (f *File) unlock() {
	delete(f.n.locks, f)
}

// SimFunlock releases it.
func (f *File) SimFunlock() error {
	if f.n != nil {
		f.unlock()
	}
	return nil
}

// SimMmap maps the file read-only and shared.
func (f *File) SimMmap(sz int) ([]byte, error) {
	if err := f.bad("mmap"); err != nil {
		return nil, err
	}
	if d := Disk(); d.pre("mmap", f.path) && d.fault(d.F.MmapErr, "mmaperr") {
		return nil, syscall.ENOMEM
	}
	m := &mapping{buf: make([]byte, sz), f: f}
	copy(m.buf, f.n.data)
	f.n.maps = append(f.n.maps, m)
	return m.buf, nil
}

// SimMunmap removes the mapping; later reads see poison instead of a fault.
func (f *File) SimMunmap(b []byte) error {
	if f == nil || f.n == nil || len(b) == 0 {
		return nil
	}
	for i, m := range f.n.maps {
		if &m.buf[0] == &b[0] {
			f.n.maps = append(f.n.maps[:i:i], f.n.maps[i+1:]...)
			for j := range m.buf {
				m.buf[j] = 0xdb
			}
			break
		}
	}
	return nil
}

type fileInfo struct {
	name string
	n    *inode
}

func (i fileInfo) Name() string               { return i.name }
func (i fileInfo) Size() int64                { return int64(len(i.n.data)) }
func (i fileInfo) Mode() fs.FileMode          { return i.n.mode }
func (i fileInfo) ModTime() time.Time         { return i.n.mtime }
func (i fileInfo) IsDir() bool                { return i.n.dir }
func (i fileInfo) Sys() any                   { return nil }
func (i fileInfo) Type() fs.FileMode          { return i.n.mode.Type() }
func (i fileInfo) Info() (fs.FileInfo, error) { return i, nil }

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return fileInfo{f.name, &inode{mode: fs.ModeNamedPipe | 0o600}}, nil
	}
	return fileInfo{path.Base(f.path), f.n}, nil
}

func Stat(name string) (os.FileInfo, error) {
	if sim.Dying() {
		return nil, perr("stat", name, os.ErrClosed)
	}
	d := Disk()
	p := clean(name)
	if d.pre("stat", p) && d.fault(d.F.StatErr, "staterr") {
		return nil, perr("stat", name, syscall.EIO)
	}
	n := d.nodes[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return fileInfo{path.Base(p), n}, nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func (d *FS) list(dir string) []string {
	pre := dir
	if pre != "/" {
		pre += "/"
	}
	var out []string
	for p := range d.nodes {
		if strings.HasPrefix(p, pre) && p != dir && !strings.Contains(p[len(pre):], "/") {
			out = append(out, p[len(pre):])
		}
	}
	sort.Strings(out)
	return out
}

// List returns the names in a directory (harness and path/filepath).
func (d *FS) List(dir string) []string { return d.list(clean(dir)) }

func ReadDir(name string) ([]os.DirEntry, error) {
	d := Disk()
	p := clean(name)
	if d.pre("readdir", p) && d.fault(d.F.ReadErr, "readerr") {
		return nil, perr("readdirent", name, syscall.EIO)
	}
	n := d.nodes[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []os.DirEntry
	for _, e := range d.list(p) {
		out = append(out, fileInfo{e, d.nodes[path.Join(p, e)]})
	}
	return out, nil
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	all, err := ReadDir(f.path)
	if err != nil {
		return nil, err
	}
	rest := all[min(f.dirAt, len(all)):]
	if n <= 0 {
		f.dirAt = len(all)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if len(rest) > n {
		rest = rest[:n]
	}
	f.dirAt += len(rest)
	return rest, nil
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	l, err := f.ReadDir(n)
	var out []os.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Remove(name string) error {
	d := Disk()
	p := clean(name)
	d.pre("remove", p)
	if d.nodes[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if len(d.list(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	n := d.nodes[p]
	d.undo = append(d.undo, func() { d.nodes[p] = n })
	delete(d.nodes, p)
	return nil
}

func RemoveAll(name string) error {
	d := Disk()
	p := clean(name)
	for q := range d.nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(d.nodes, q)
		}
	}
	return nil
}

func Rename(o, n string) error {
	d := Disk()
	po, pn := clean(o), clean(n)
	d.pre("rename", po)
	nd := d.nodes[po]
	if nd == nil {
		return &os.LinkError{Op: "rename", Old: o, New: n, Err: syscall.ENOENT}
	}
	old := d.nodes[pn]
	d.undo = append(d.undo, func() {
		d.nodes[po] = nd
		if old != nil {
			d.nodes[pn] = old
		} else {
			delete(d.nodes, pn)
		}
	})
	delete(d.nodes, po)
	d.nodes[pn] = nd
	return nil
}

func Mkdir(name string, perm os.FileMode) error {
	d := Disk()
	p := clean(name)
	if d.nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d.nodes[path.Dir(p)] == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	d.nodes[p] = &inode{dir: true, mode: fs.ModeDir | perm, durable: true}
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	d := Disk()
	d.mkParents(clean(name) + "/x")
	return nil
}

func Truncate(name string, sz int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(sz)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	d := Disk()
	d.tmp++
	return OpenFile(path.Join(dir, strings.Replace(pattern, "*", "", 1)+"."+itoa(d.tmp)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	d := Disk()
	d.tmp++
	p := path.Join(dir, strings.Replace(pattern, "*", "", 1)+"."+itoa(d.tmp))
	return p, Mkdir(p, 0o700)
}

func itoa(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func Chmod(string, os.FileMode) error            { return nil }
func Chown(string, int, int) error               { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Link(o, n string) error                     { return syscall.EPERM }
func Symlink(o, n string) error                  { return syscall.EPERM }
func Readlink(n string) (string, error)          { return "", perr("readlink", n, syscall.EINVAL) }
func Chdir(string) error                         { return nil }
func Getwd() (string, error)                     { return "/data", nil }
func TempDir() string                            { return "/tmp" }
func Hostname() (string, error)                  { return "simhost", nil }
func Getpid() int                                { return 4242 }
func Getppid() int                               { return 1 }
func Getuid() int                                { return 1000 }
func Geteuid() int                               { return 1000 }
func Exit(code int)                              { sim.Exit(code) }

func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func LookupEnv(k string) (string, bool) {
	if !sim.Active() {
		return "", false
	}
	v, ok := Disk().env[k]
	return v, ok
}
func Setenv(k, v string) error {
	if sim.Active() {
		Disk().env[k] = v
	}
	return nil
}
func Unsetenv(k string) error {
	if sim.Active() {
		delete(Disk().env, k)
	}
	return nil
}
func Environ() []string                     { return nil }
func Clearenv()                             {}
func ExpandEnv(s string) string             { return os.Expand(s, Getenv) }
func NewFile(fd uintptr, name string) *File { return nil }
func Pipe() (*File, *File, error)           { return nil, nil, syscall.EMFILE }
func DirFS(dir string) fs.FS                { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func pageSize() int { return 4096 }

// Getpagesize is fixed, so that runs do not depend on the machine.
func Getpagesize() int { return pageSize() }
