package os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/simrt"
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Args   = []string{"goirlib"}
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}

	Interrupt Signal = os.Interrupt
	Kill      Signal = os.Kill
)

func IsExist(err error) bool                    { return os.IsExist(err) }
func IsNotExist(err error) bool                 { return os.IsNotExist(err) }
func IsPermission(err error) bool               { return os.IsPermission(err) }
func IsTimeout(err error) bool                  { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func NewSyscallError(s string, err error) error { return os.NewSyscallError(s, err) }

func Exit(code int)                                 { simrt.ExitNow(code, "os.Exit") }
func Getenv(string) string                          { return "" }
func LookupEnv(string) (string, bool)               { return "", false }
func Setenv(string, string) error                   { return nil }
func Unsetenv(string) error                         { return nil }
func Environ() []string                             { return nil }
func Clearenv()                                     {}
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func Expand(s string, m func(string) string) string { return os.Expand(s, m) }
func Getpid() int                                   { return 4242 }
func Getppid() int                                  { return 1 }
func Getuid() int                                   { return 0 }
func Geteuid() int                                  { return 0 }
func Getgid() int                                   { return 0 }
func Getegid() int                                  { return 0 }
func Getpagesize() int                              { return 4096 }
func Hostname() (string, error)                     { return "sim", nil }
func TempDir() string                               { return "/tmp" }
func UserHomeDir() (string, error)                  { return "/work", nil }
func UserCacheDir() (string, error)                 { return "/tmp", nil }
func UserConfigDir() (string, error)                { return "/tmp", nil }
func Executable() (string, error)                   { return "/work/goirlib", nil }

type info struct {
	name  string
	size  int64
	mode  FileMode
	mtime int64
	id    int
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() FileMode     { return i.mode }
func (i *info) Type() FileMode     { return i.mode.Type() }
func (i *info) ModTime() time.Time { return time.Unix(0, i.mtime).UTC() }
func (i *info) IsDir() bool        { return i.mode.IsDir() }
func (i *info) Sys() any           { return nil }
func (i *info) String() string     { return fs.FormatFileInfo(i) }

func mkInfo(name string, n *inode) *info {
	sz := int64(len(n.data))
	if n.dir {
		sz = 4096
	}
	return &info{path.Base(name), sz, n.mode, n.mtime, n.id}
}

func SameFile(a, b FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.id == y.id
}

type dirent struct {
	f    *FS
	dir  string
	name string
	mode FileMode
}

func (d *dirent) Name() string            { return d.name }
func (d *dirent) IsDir() bool             { return d.mode.IsDir() }
func (d *dirent) Type() FileMode          { return d.mode.Type() }
func (d *dirent) Info() (FileInfo, error) { return Lstat(d.dir + "/" + d.name) }
func (d *dirent) String() string          { return fs.FormatDirEntry(d) }

// File is an open file of the simulated file system.
type File struct {
	f      *FS
	name   string
	n      *inode
	flag   int
	pos    int64
	closed bool
	std    bool
	dirPos int
	ents   []string
}

func perr(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

func mustFS() *FS {
	f := cur()
	if f == nil {
		panic("simulated os used outside a simulation")
	}
	return f
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if name == DevNull {
		return &File{name: name, std: true}, nil
	}
	f := mustFS()
	kind := "open"
	if flag&O_CREATE != 0 {
		kind = "create"
	} else if flag&O_TRUNC != 0 {
		kind = "truncate"
	}
	if err, _ := f.op(kind, name); err != nil {
		return nil, perr("open", name, err)
	}
	d, base, n, err := f.walkTo(name)
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	switch {
	case err == nil:
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && acc != O_RDONLY {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if acc != O_WRONLY && f.denied(n, 0400) || acc != O_RDONLY && f.denied(n, 0200) {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&O_TRUNC != 0 && !n.dir {
			f.touch(name)
			if len(n.data) > 0 {
				n.data = nil
				f.wrote(n)
			}
		}
	case err == syscall.ENOENT && d != nil && flag&O_CREATE != 0:
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if f.denied(d, 0300) {
			return nil, perr("open", name, syscall.EACCES)
		}
		f.touch(name)
		n = f.newInode(perm & 0777 &^ umask)
		f.linkAt(d, base, n)
	default:
		return nil, perr("open", name, err)
	}
	h := &File{f: f, name: name, n: n, flag: flag}
	f.handles[h] = true
	f.after(kind, name)
	return h, nil
}

func NewFile(fd uintptr, name string) *File { return &File{name: name, std: true} }

func (h *File) ok(op string) error {
	if h == nil {
		return ErrInvalid
	}
	if h.closed {
		return perr(op, h.name, ErrClosed)
	}
	return nil
}

func (h *File) Name() string { return h.name }
func (h *File) Fd() uintptr  { return 3 }

func (h *File) Close() error {
	if err := h.ok("close"); err != nil {
		return err
	}
	if h.std {
		return nil
	}
	if simrt.Killed() {
		h.closed = true
		return nil
	}
	err, _ := h.f.op("close", h.name)
	h.closed = true
	delete(h.f.handles, h)
	if err != nil {
		return perr("close", h.name, err)
	}
	h.f.after("close", h.name)
	return nil
}

func (h *File) Read(p []byte) (int, error) {
	if err := h.ok("read"); err != nil {
		return 0, err
	}
	if h.std {
		return 0, io.EOF
	}
	if h.n.dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if err, _ := h.f.op("read", h.name); err != nil {
		return 0, perr("read", h.name, err)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.pos >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, h.n.data[h.pos:])
	h.pos += int64(n)
	h.f.after("read", h.name)
	return n, nil
}

func (h *File) ReadAt(p []byte, off int64) (int, error) {
	if err := h.ok("read"); err != nil {
		return 0, err
	}
	if err, _ := h.f.op("read", h.name); err != nil {
		return 0, perr("read", h.name, err)
	}
	if off < 0 {
		return 0, perr("readat", h.name, errors.New("negative offset"))
	}
	if off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, h.n.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (h *File) writeAt(p []byte, off *int64) (int, error) {
	if err := h.ok("write"); err != nil {
		return 0, err
	}
	if h.std {
		return len(p), nil
	}
	if h.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	f := h.f
	total := 0
	rest := p
	chunks := 1
	if !f.quiet() && len(p) > 1 && f.ChunkMax > 1 {
		chunks = 1 + f.s.Choose(f.ChunkMax)
	}
	for c := 0; ; c++ {
		err, short := f.op("write", h.name)
		if err != nil {
			return total, perr("write", h.name, err)
		}
		part := rest
		if left := chunks - c; left > 1 && len(rest) > 1 {
			part = rest[:1+f.s.Uint(int64(len(rest)-1))]
		}
		if short {
			part = part[:len(part)/2]
		}
		if h.flag&O_APPEND != 0 {
			*off = int64(len(h.n.data))
		}
		end := *off + int64(len(part))
		if end > int64(len(h.n.data)) {
			nd := make([]byte, end)
			copy(nd, h.n.data)
			h.n.data = nd
		} else {
			h.n.data = append([]byte(nil), h.n.data...)
		}
		copy(h.n.data[*off:], part)
		f.wrote(h.n)
		f.touch(h.name)
		*off = end
		total += len(part)
		rest = rest[len(part):]
		f.after("write", h.name)
		if short {
			return total, perr("write", h.name, syscall.ENOSPC)
		}
		if len(rest) == 0 {
			return total, nil
		}
	}
}

func (h *File) Write(p []byte) (int, error) {
	if h == nil {
		return 0, ErrInvalid
	}
	return h.writeAt(p, &h.pos)
}
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *File) WriteAt(p []byte, off int64) (int, error) {
	if h == nil {
		return 0, ErrInvalid
	}
	if h.flag&O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	return h.writeAt(p, &off)
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	if err := h.ok("seek"); err != nil {
		return 0, err
	}
	if h.std {
		return 0, nil
	}
	switch whence {
	case 1:
		off += h.pos
	case 2:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = off
	if h.n.dir {
		h.ents = nil
	}
	return off, nil
}

func (h *File) Sync() error {
	if err := h.ok("sync"); err != nil {
		return err
	}
	if h.std {
		return nil
	}
	kind := "fsync"
	if h.n.dir {
		kind = "syncdir"
	}
	if err, _ := h.f.op(kind, h.name); err != nil {
		return perr("sync", h.name, err)
	}
	if !h.n.dir {
		h.n.syncData()
	}
	h.f.commit(h.n)
	h.f.after(kind, h.name)
	return nil
}

func (h *File) Truncate(size int64) error {
	if err := h.ok("truncate"); err != nil {
		return err
	}
	if h.flag&(O_WRONLY|O_RDWR) == 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	return h.f.truncate(h.name, h.n, size)
}

func (f *FS) truncate(name string, n *inode, size int64) error {
	if err, _ := f.op("truncate", name); err != nil {
		return perr("truncate", name, err)
	}
	if size < 0 {
		return perr("truncate", name, syscall.EINVAL)
	}
	nd := make([]byte, size)
	copy(nd, n.data)
	n.data = nd
	f.wrote(n)
	f.touch(name)
	f.after("truncate", name)
	return nil
}

func (h *File) Stat() (FileInfo, error) {
	if err := h.ok("stat"); err != nil {
		return nil, err
	}
	if h.std {
		return &info{name: h.name}, nil
	}
	if err, _ := h.f.op("stat", h.name); err != nil {
		return nil, perr("stat", h.name, err)
	}
	return mkInfo(h.name, h.n), nil
}
func (h *File) Chmod(m FileMode) error {
	if err := h.ok("chmod"); err != nil {
		return err
	}
	h.n.mode = h.n.mode&^0777 | m&0777
	return nil
}
func (h *File) Chown(uid, gid int) error         { return h.ok("chown") }
func (h *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (h *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (h *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }

func (h *File) names(op string, n int) ([]string, error) {
	if err := h.ok(op); err != nil {
		return nil, err
	}
	if err, _ := h.f.op("readdir", h.name); err != nil {
		return nil, perr(op, h.name, err)
	}
	if !h.n.dir {
		return nil, perr(op, h.name, syscall.ENOTDIR)
	}
	if h.ents == nil {
		h.ents = sortedKids(h.n.kids)
		if len(h.ents) > 1 && !h.f.quiet() { // directory order is the file system's business
			r := h.f.s.Choose(len(h.ents))
			h.ents = append(append([]string(nil), h.ents[r:]...), h.ents[:r]...)
		}
		h.dirPos = 0
	}
	l := h.ents[h.dirPos:]
	if n > 0 && len(l) > n {
		l = l[:n]
	}
	h.dirPos += len(l)
	if n > 0 && len(l) == 0 {
		return nil, io.EOF
	}
	h.f.after("readdir", h.name)
	return l, nil
}

func (h *File) Readdirnames(n int) ([]string, error) { return h.names("readdirent", n) }
func (h *File) ReadDir(n int) ([]DirEntry, error) {
	l, err := h.names("readdirent", n)
	var out []DirEntry
	for _, x := range l {
		if k := h.n.kids[x]; k != nil {
			out = append(out, &dirent{h.f, h.name, x, k.mode})
		}
	}
	return out, err
}
func (h *File) Readdir(n int) ([]FileInfo, error) {
	l, err := h.names("readdirent", n)
	var out []FileInfo
	for _, x := range l {
		if k := h.n.kids[x]; k != nil {
			out = append(out, mkInfo(x, k))
		}
	}
	return out, err
}

func ReadDir(name string) ([]DirEntry, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	l, err := h.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	var out []byte
	f := h.f
	// read in up to two pieces: a concurrent writer may get in between
	first := 0
	if !f.quiet() && !h.n.dir && len(h.n.data) > 1 {
		first = int(f.s.Uint(int64(len(h.n.data))))
	}
	for {
		sz := len(h.n.data) - int(h.pos)
		if first > 0 {
			sz, first = first, 0
		}
		if sz < 512 {
			sz = 512
		}
		buf := make([]byte, sz)
		n, err := h.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	h, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	if len(data) > 0 {
		_, err = h.Write(data)
	}
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func stat(op, name string) (FileInfo, error) {
	f := mustFS()
	if err, _ := f.op("stat", name); err != nil {
		return nil, perr(op, name, err)
	}
	_, _, n, err := f.walkTo(name)
	if err != nil {
		return nil, perr(op, name, err)
	}
	return mkInfo(name, n), nil
}
func Stat(name string) (FileInfo, error)  { return stat("stat", name) }
func Lstat(name string) (FileInfo, error) { return stat("lstat", name) }

func Mkdir(name string, perm FileMode) error {
	f := mustFS()
	if err, _ := f.op("mkdir", name); err != nil {
		return perr("mkdir", name, err)
	}
	d, base, _, err := f.walkTo(name)
	if err == nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err != syscall.ENOENT || d == nil {
		return perr("mkdir", name, err)
	}
	if f.denied(d, 0300) {
		return perr("mkdir", name, syscall.EACCES)
	}
	f.touch(name)
	n := f.newDir()
	n.mode = ModeDir | perm&0777&^umask
	f.linkAt(d, base, n)
	f.after("mkdir", name)
	return nil
}

func MkdirAll(p string, perm FileMode) error {
	fi, err := Stat(p)
	if err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	i := len(p)
	for i > 0 && p[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && p[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := MkdirAll(p[:j-1], perm); err != nil {
			return err
		}
	}
	err = Mkdir(p, perm)
	if err != nil {
		fi, e2 := Lstat(p)
		if e2 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	f := mustFS()
	if err, _ := f.op("remove", name); err != nil {
		return perr("remove", name, err)
	}
	d, base, n, err := f.walkTo(name)
	if err != nil {
		return perr("remove", name, err)
	}
	if d == nil {
		return perr("remove", name, syscall.EBUSY)
	}
	if f.denied(d, 0300) {
		return perr("remove", name, syscall.EACCES)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	f.touch(name)
	f.unlinkAt(d, base)
	f.after("remove", name)
	return nil
}

func RemoveAll(p string) error {
	f := mustFS()
	if p == "" {
		return nil
	}
	if strings.HasSuffix(p, ".") && (p == "." || strings.HasSuffix(p, "/.")) {
		return perr("RemoveAll", p, syscall.EINVAL)
	}
	_, _, n, err := f.walkTo(p)
	if err != nil {
		if err == syscall.ENOENT || err == syscall.ENOTDIR {
			return nil
		}
		return perr("unlinkat", p, err)
	}
	if n.dir {
		for _, k := range sortedKids(n.kids) {
			if err := RemoveAll(p + "/" + k); err != nil {
				return err
			}
		}
	}
	if err := Remove(p); err != nil && !IsNotExist(err) {
		return err
	}
	return nil
}

func lerr(op, a, b string, err error) error { return &LinkError{Op: op, Old: a, New: b, Err: err} }

func Rename(oldpath, newpath string) error {
	f := mustFS()
	if err, _ := f.op("rename", newpath); err != nil {
		return lerr("rename", oldpath, newpath, err)
	}
	od, ob, on, err := f.walkTo(oldpath)
	if err != nil {
		return lerr("rename", oldpath, newpath, err)
	}
	nd, nb, nn, err := f.walkTo(newpath)
	if err != nil && (err != syscall.ENOENT || nd == nil) {
		return lerr("rename", oldpath, newpath, err)
	}
	if od == nil || nd == nil {
		return lerr("rename", oldpath, newpath, syscall.EBUSY)
	}
	if f.denied(od, 0300) || f.denied(nd, 0300) {
		return lerr("rename", oldpath, newpath, syscall.EACCES)
	}
	if nn != nil {
		if nn == on {
			return nil
		}
		switch {
		case nn.dir: // Go refuses to rename onto a directory
			return lerr("rename", oldpath, newpath, syscall.EEXIST)
		case on.dir:
			return lerr("rename", oldpath, newpath, syscall.ENOTDIR)
		}
	}
	if on.dir { // not into itself
		ap, bp := path.Clean(f.abs(oldpath)), path.Clean(f.abs(newpath))
		if strings.HasPrefix(bp+"/", ap+"/") {
			return lerr("rename", oldpath, newpath, syscall.EINVAL)
		}
	}
	f.touch(oldpath)
	f.touch(newpath)
	delete(od.kids, ob)
	nd.kids[nb] = on
	if f.PerDir && od != nd {
		f.meta(nd, func() { nd.dkids[nb] = on })
		f.meta(od, func() { delete(od.dkids, ob) })
	} else {
		f.meta(nd, func() { delete(od.dkids, ob); nd.dkids[nb] = on })
	}
	f.after("rename", newpath)
	return nil
}

func Link(oldname, newname string) error {
	f := mustFS()
	if err, _ := f.op("link", newname); err != nil {
		return lerr("link", oldname, newname, err)
	}
	_, _, n, err := f.walkTo(oldname)
	if err != nil {
		return lerr("link", oldname, newname, err)
	}
	d, b, _, err := f.walkTo(newname)
	if err == nil {
		return lerr("link", oldname, newname, syscall.EEXIST)
	}
	if err != syscall.ENOENT || d == nil {
		return lerr("link", oldname, newname, err)
	}
	if n.dir {
		return lerr("link", oldname, newname, syscall.EPERM)
	}
	if f.denied(d, 0300) {
		return lerr("link", oldname, newname, syscall.EACCES)
	}
	f.touch(newname)
	f.linkAt(d, b, n)
	f.after("link", newname)
	return nil
}

func Symlink(a, b string) error         { return lerr("symlink", a, b, syscall.EPERM) }
func Readlink(a string) (string, error) { return "", perr("readlink", a, syscall.EINVAL) }
func Chmod(name string, m FileMode) error {
	f := mustFS()
	if err, _ := f.op("chmod", name); err != nil {
		return perr("chmod", name, err)
	}
	_, _, n, err := f.walkTo(name)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = n.mode&^0777 | m&0777
	return nil
}
func Chown(name string, uid, gid int) error  { return nil }
func Lchown(name string, uid, gid int) error { return nil }
func Chtimes(name string, a, m time.Time) error {
	f := mustFS()
	if err, _ := f.op("chtimes", name); err != nil {
		return perr("chtimes", name, err)
	}
	_, _, n, err := f.walkTo(name)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.mtime = m.UnixNano()
	return nil
}
func Truncate(name string, size int64) error {
	f := mustFS()
	_, _, n, err := f.walkTo(name)
	if err != nil {
		return perr("truncate", name, err)
	}
	if f.denied(n, 0200) {
		return perr("truncate", name, syscall.EACCES)
	}
	if n.dir {
		return perr("truncate", name, syscall.EISDIR)
	}
	return f.truncate(name, n, size)
}
func Getwd() (string, error) { return mustFS().cwd, nil }
func Chdir(dir string) error {
	f := mustFS()
	_, _, n, err := f.walkTo(dir)
	if err != nil {
		return perr("chdir", dir, err)
	}
	if !n.dir {
		return perr("chdir", dir, syscall.ENOTDIR)
	}
	f.cwd = path.Clean(f.abs(dir))
	return nil
}

func tempName(dir, pattern string, try func(string) error) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.ContainsRune(pattern, '/') {
		return "", perr("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	f := mustFS()
	for {
		f.nextID++
		name := dir + "/" + pre + strconv.Itoa(100000000+f.nextID*7919) + suf
		err := try(name)
		if IsExist(err) {
			continue
		}
		return name, err
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	var h *File
	_, err := tempName(dir, pattern, func(n string) (e error) {
		h, e = OpenFile(n, O_RDWR|O_CREATE|O_EXCL, 0600)
		return
	})
	if err != nil {
		return nil, err
	}
	return h, nil
}

func MkdirTemp(dir, pattern string) (string, error) {
	n, err := tempName(dir, pattern, func(n string) error { return Mkdir(n, 0700) })
	if err != nil {
		return "", err
	}
	return n, nil
}

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }
func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, perr("open", name, ErrInvalid)
	}
	return Open(string(d) + "/" + name)
}
func (d dirFS) ReadFile(name string) ([]byte, error)       { return ReadFile(string(d) + "/" + name) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(string(d) + "/" + name) }
func (d dirFS) Stat(name string) (fs.FileInfo, error)      { return Stat(string(d) + "/" + name) }
