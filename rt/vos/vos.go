// Package vos stands in for os: an in-memory file system that the harness
// inspects, whose every operation is a scheduling point and a place where a
// fault or a crash can be injected. Nothing here touches the real file system.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/browles/drip/zzv/rt/vs"
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = io.SeekStart
	SEEK_CUR = io.SeekCurrent
	SEEK_END = io.SeekEnd

	ModeDir        = os.ModeDir
	ModeAppend     = os.ModeAppend
	ModeExclusive  = os.ModeExclusive
	ModeTemporary  = os.ModeTemporary
	ModeSymlink    = os.ModeSymlink
	ModeDevice     = os.ModeDevice
	ModeNamedPipe  = os.ModeNamedPipe
	ModeSocket     = os.ModeSocket
	ModeCharDevice = os.ModeCharDevice
	ModeIrregular  = os.ModeIrregular
	ModeType       = os.ModeType
	ModePerm       = os.ModePerm

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone
	Interrupt           = os.Interrupt
	Kill                = os.Kill
	Args                = []string{"drip"}
	Stdin               = os.Stdin
	Stdout              = os.Stdout
	Stderr              = os.Stderr

	IsNotExist   = os.IsNotExist
	IsExist      = os.IsExist
	IsPermission = os.IsPermission
	IsTimeout    = os.IsTimeout
	Getenv       = func(string) string { return "" }
	LookupEnv    = func(string) (string, bool) { return "", false }
	Getpid       = func() int { return 4711 }
	Getpagesize  = os.Getpagesize
	TempDir      = func() string { return "/tmp" }
	Hostname     = func() (string, error) { return "host", nil }
	UserHomeDir  = func() (string, error) { return "/home", nil }
	Getwd        = func() (string, error) { return "/cwd", nil }
)

func Exit(code int) { vs.Fatal("os.Exit(" + strconv.Itoa(code) + ")") }

// Node is a file or directory.
type Node struct {
	Dir     bool
	Data    []byte
	ents    []ent // sorted by name
	mode    FileMode
	mtime   time.Time
	Dirty   bool // written since the last sync
	Ino     int
	deleted bool
	// huge files are not held: they have a size and a function for their content
	size int64
	at   func(off int64) byte
}

func (n *Node) length() int64 {
	if n.at != nil {
		return n.size
	}
	return int64(len(n.Data))
}

type ent struct {
	name string
	n    *Node
}

func (d *Node) find(name string) int {
	for i := range d.ents {
		if d.ents[i].name == name {
			return i
		}
	}
	return -1
}

func (d *Node) get(name string) *Node {
	if i := d.find(name); i >= 0 {
		return d.ents[i].n
	}
	return nil
}

func (d *Node) set(name string, n *Node) {
	if i := d.find(name); i >= 0 {
		d.ents[i].n = n
		return
	}
	i := 0
	for i < len(d.ents) && d.ents[i].name < name {
		i++
	}
	d.ents = append(d.ents, ent{})
	copy(d.ents[i+1:], d.ents[i:])
	d.ents[i] = ent{name, n}
}

func (d *Node) del(name string) {
	if i := d.find(name); i >= 0 {
		n := make([]ent, 0, len(d.ents))
		n = append(n, d.ents[:i]...)
		n = append(n, d.ents[i+1:]...)
		d.ents = n
	}
}

// Op describes one file-system operation about to be performed.
type Op struct {
	Kind string // open create read write sync close stat readdir mkdir rename remove truncate link chmod
	Path string
	To   string
	Size int
	Mut  bool // changes the file system
	N    int  // sequence number
}

// Verdict tells what to do with an operation.
type Verdict struct {
	Err   error // fail with this error ...
	Short int   // ... after performing this many bytes of a write or read (with Err or, for reads, alone)
	Part  bool  // Short is meaningful
	Crash bool  // freeze the file system at this point (after Short bytes of a write)
}

// FS is a file system.
type FS struct {
	root   *Node
	ino    int
	seq    int
	Frozen bool
	Hook   func(*Op) Verdict
	Quiet  bool     // operations are no scheduling points
	Open   int      // open handles
	Touch  []string // paths given to operations that change the tree
	Trail  bool
}

var errFrozen = syscall.EIO

func NewFS() *FS {
	f := &FS{}
	f.root = f.node(true)
	return f
}

// Cur is the file system of the execution in progress.
var Cur = NewFS()

func (f *FS) node(dir bool) *Node {
	f.ino++
	return &Node{Dir: dir, mode: 0o644, mtime: vs.Now(), Ino: f.ino}
}

func abs(name string) string {
	if name == "" {
		return ""
	}
	if name[0] != '/' {
		name = "/cwd/" + name
	}
	return path.Clean(name)
}

func split(p string) []string {
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

// lookup resolves a path; trailing errors like the kernel.
func (f *FS) lookup(name string) (*Node, error) {
	p := abs(name)
	if p == "" {
		return nil, syscall.ENOENT
	}
	n := f.root
	for _, c := range split(p) {
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		if n = n.get(c); n == nil {
			return nil, syscall.ENOENT
		}
	}
	if strings.HasSuffix(name, "/") && !n.Dir {
		return nil, syscall.ENOTDIR
	}
	return n, nil
}

func (f *FS) parent(name string) (*Node, string, error) {
	p := abs(name)
	if p == "" {
		return nil, "", syscall.ENOENT
	}
	if p == "/" {
		return nil, "", syscall.EEXIST
	}
	if strings.IndexByte(name, 0) >= 0 {
		return nil, "", syscall.EINVAL
	}
	d, err := f.lookup(path.Dir(p))
	if err != nil {
		return nil, "", err
	}
	if !d.Dir {
		return nil, "", syscall.ENOTDIR
	}
	b := path.Base(p)
	if len(b) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return d, b, nil
}

// begin is called at the start of every operation.
func (f *FS) begin(kind, p, to string, size int, mut bool) Verdict {
	if !f.Quiet {
		vs.Point("fs." + kind)
	}
	if f.Frozen {
		return Verdict{Err: errFrozen}
	}
	f.seq++
	if f.Trail && mut {
		f.Touch = append(f.Touch, abs(p))
		if to != "" {
			f.Touch = append(f.Touch, abs(to))
		}
	}
	if f.Hook == nil {
		return Verdict{}
	}
	v := f.Hook(&Op{Kind: kind, Path: p, To: to, Size: size, Mut: mut, N: f.seq})
	if v.Crash && !v.Part {
		f.Frozen = true
		v.Err = errFrozen
	}
	return v
}

func perr(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

type info struct {
	name string
	n    *Node
	size int64
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.size }
func (i *info) Mode() FileMode {
	if i.n.Dir {
		return i.n.mode&0o777 | ModeDir
	}
	return i.n.mode & 0o777
}
func (i *info) ModTime() time.Time      { return i.n.mtime }
func (i *info) IsDir() bool             { return i.n.Dir }
func (i *info) Sys() any                { return nil }
func (i *info) Type() FileMode          { return i.Mode().Type() }
func (i *info) Info() (FileInfo, error) { return i, nil }
func (i *info) String() string          { return i.name }

func mkinfo(name string, n *Node) *info {
	sz := n.length()
	if n.Dir {
		sz = 4096
	}
	return &info{name: path.Base(name), n: n, size: sz}
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n == y.n
}

func Stat(name string) (FileInfo, error) {
	f := Cur
	if v := f.begin("stat", name, "", 0, false); v.Err != nil {
		return nil, perr("stat", name, v.Err)
	}
	n, err := f.lookup(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return mkinfo(abs(name), n), nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm FileMode) error {
	f := Cur
	if v := f.begin("mkdir", name, "", 0, true); v.Err != nil {
		return perr("mkdir", name, v.Err)
	}
	return f.mkdir(name, perm)
}

func (f *FS) mkdir(name string, perm FileMode) error {
	d, b, err := f.parent(name)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if d.get(b) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	n := f.node(true)
	n.mode = perm
	d.set(b, n)
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	f := Cur
	if v := f.begin("mkdir", name, "", 0, true); v.Err != nil {
		return perr("mkdir", name, v.Err)
	}
	return f.mkdirAll(name, perm)
}

func (f *FS) mkdirAll(name string, perm FileMode) error {
	p := abs(name)
	if p == "" {
		return perr("mkdir", name, syscall.ENOENT)
	}
	n := f.root
	for _, c := range split(p) {
		if !n.Dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		if len(c) > 255 {
			return perr("mkdir", name, syscall.ENAMETOOLONG)
		}
		x := n.get(c)
		if x == nil {
			x = f.node(true)
			x.mode = perm
			n.set(c, x)
		}
		n = x
	}
	if !n.Dir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	return nil
}

// tempName mirrors os: the last * of the pattern is replaced.
func tempName(pattern string, k int) (string, error) {
	if strings.ContainsRune(pattern, '/') {
		return "", perr("createtemp", pattern, errPattern)
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return pre + strconv.Itoa(1000+k) + suf, nil
}

type strErr string

func (e strErr) Error() string { return string(e) }

const errPattern = strErr("pattern contains path separator")

func CreateTemp(dir, pattern string) (*File, error) {
	f := Cur
	if dir == "" {
		dir = "/tmp"
	}
	v := f.begin("create", dir+"/"+pattern, "", 0, true)
	if v.Err != nil {
		return nil, perr("open", dir+"/"+pattern, v.Err)
	}
	for k := 0; ; k++ {
		b, err := tempName(pattern, f.ino+k)
		if err != nil {
			return nil, err
		}
		p := dir + "/" + b
		if _, err := f.lookup(p); err == nil {
			continue
		}
		return f.open(p, O_RDWR|O_CREATE|O_EXCL, 0o600)
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	f := Cur
	if dir == "" {
		dir = "/tmp"
	}
	v := f.begin("mkdir", dir+"/"+pattern, "", 0, true)
	if v.Err != nil {
		return "", perr("mkdirtemp", dir+"/"+pattern, v.Err)
	}
	for k := 0; ; k++ {
		b, err := tempName(pattern, f.ino+k)
		if err != nil {
			return "", err
		}
		p := dir + "/" + b
		if _, err := f.lookup(p); err == nil {
			continue
		}
		if err := f.mkdir(p, 0o700); err != nil {
			return "", err
		}
		return p, nil
	}
}

func Rename(from, to string) error {
	f := Cur
	lerr := func(e error) error { return &LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if v := f.begin("rename", from, to, 0, true); v.Err != nil {
		return lerr(v.Err)
	}
	d1, b1, err := f.parent(from)
	if err != nil {
		return lerr(err)
	}
	n := d1.get(b1)
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	d2, b2, err := f.parent(to)
	if err != nil {
		return lerr(err)
	}
	o := d2.get(b2)
	if o == n {
		return nil
	}
	if n.Dir && strings.HasPrefix(abs(to)+"/", abs(from)+"/") {
		return lerr(syscall.EINVAL)
	}
	if o != nil {
		switch {
		case o.Dir && !n.Dir:
			return lerr(syscall.EEXIST)
		case !o.Dir && n.Dir:
			return lerr(syscall.ENOTDIR)
		case o.Dir && len(o.ents) > 0:
			return lerr(syscall.ENOTEMPTY)
		}
	}
	d1.del(b1)
	d2.set(b2, n)
	return nil
}

func Link(from, to string) error {
	f := Cur
	if v := f.begin("link", from, to, 0, true); v.Err != nil {
		return &LinkError{Op: "link", Old: from, New: to, Err: v.Err}
	}
	n, err := f.lookup(from)
	if err == nil && n.Dir {
		err = syscall.EPERM
	}
	var d *Node
	var b string
	if err == nil {
		d, b, err = f.parent(to)
	}
	if err == nil && d.get(b) != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return &LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	d.set(b, n)
	return nil
}

func Remove(name string) error {
	f := Cur
	if v := f.begin("remove", name, "", 0, true); v.Err != nil {
		return perr("remove", name, v.Err)
	}
	d, b, err := f.parent(name)
	if err != nil {
		return perr("remove", name, err)
	}
	n := d.get(b)
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.Dir && len(n.ents) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	d.del(b)
	return nil
}

func RemoveAll(name string) error {
	f := Cur
	if name == "" {
		return nil
	}
	d, b, err := f.parent(name)
	var n *Node
	if err == nil {
		n = d.get(b)
	}
	if n == nil {
		// one step all the same: the kernel is asked
		if v := f.begin("remove", name, "", 0, false); v.Err != nil {
			return perr("unlinkat", name, v.Err)
		}
		return nil
	}
	// children first, each a step of its own: a crash can come in between
	if n.Dir {
		names := make([]string, 0, len(n.ents))
		for _, e := range n.ents {
			names = append(names, e.name)
		}
		for _, c := range names {
			if err := RemoveAll(abs(name) + "/" + c); err != nil {
				return err
			}
		}
	}
	if v := f.begin("remove", name, "", 0, true); v.Err != nil {
		return perr("unlinkat", name, v.Err)
	}
	d.del(b)
	return nil
}

func Truncate(name string, size int64) error {
	f := Cur
	if v := f.begin("truncate", name, "", int(size), true); v.Err != nil {
		return perr("truncate", name, v.Err)
	}
	n, err := f.lookup(name)
	if err == nil && n.Dir {
		err = syscall.EISDIR
	}
	if err != nil {
		return perr("truncate", name, err)
	}
	n.resize(size)
	return nil
}

func (n *Node) resize(size int64) {
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
	n.Dirty = true
}

func Chmod(name string, mode FileMode) error {
	f := Cur
	if v := f.begin("chmod", name, "", 0, false); v.Err != nil {
		return perr("chmod", name, v.Err)
	}
	n, err := f.lookup(name)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = mode
	return nil
}

func Chtimes(name string, a, m time.Time) error {
	f := Cur
	n, err := f.lookup(name)
	if err != nil {
		return perr("chtimes", name, err)
	}
	n.mtime = m
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	f := Cur
	if v := f.begin("readdir", name, "", 0, false); v.Err != nil {
		return nil, perr("open", name, v.Err)
	}
	n, err := f.lookup(name)
	if err == nil && !n.Dir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	return n.list(), nil
}

func (n *Node) list() []DirEntry {
	out := make([]DirEntry, 0, len(n.ents))
	for _, e := range n.ents {
		out = append(out, mkinfo(e.name, e.n))
	}
	return out
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f := Cur
	kind, mut := "open", false
	if flag&(O_CREATE|O_TRUNC) != 0 {
		kind, mut = "create", true
	}
	if v := f.begin(kind, name, "", 0, mut); v.Err != nil {
		return nil, perr("open", name, v.Err)
	}
	return f.open(name, flag, perm)
}

func (f *FS) open(name string, flag int, perm FileMode) (*File, error) {
	n, err := f.lookup(name)
	if err == syscall.ENOENT && flag&O_CREATE != 0 {
		d, b, e := f.parent(name)
		if e != nil {
			return nil, perr("open", name, e)
		}
		n = f.node(false)
		n.mode = perm
		d.set(b, n)
		err = nil
	} else if err == nil && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		err = syscall.EEXIST
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	wr := flag&(O_WRONLY|O_RDWR) != 0
	if n.Dir && (wr || flag&O_CREATE != 0) {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if wr && flag&O_TRUNC != 0 && len(n.Data) > 0 {
		n.Data = nil
		n.Dirty = true
	}
	f.Open++
	return &File{fs: f, name: name, n: n, rd: flag&O_WRONLY == 0, wr: wr, app: flag&O_APPEND != 0}, nil
}

// File is an open file.
type File struct {
	fs          *FS
	name        string
	n           *Node
	off         int64
	rd, wr, app bool
	closed      bool
	dirDone     bool
}

func (f *File) Name() string {
	if f == nil {
		panic("nil *File")
	}
	return f.name
}

func (f *File) Fd() uintptr { return 99 }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	v := f.fs.begin("close", f.name, "", 0, false)
	f.closed = true
	f.fs.Open--
	if v.Err != nil {
		return perr("close", f.name, v.Err)
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	n, err := f.readAt(p, f.off)
	f.off += int64(n)
	if err == nil && n == 0 && len(p) > 0 {
		err = io.EOF
	}
	return n, err
}

func (f *File) readAt(p []byte, off int64) (int, error) {
	if f.n.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if !f.rd {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	v := f.fs.begin("read", f.name, "", len(p), false)
	if v.Err != nil && !v.Part {
		return 0, perr("read", f.name, v.Err)
	}
	if off >= f.n.length() {
		return 0, nil
	}
	var n int
	if f.n.at != nil {
		for n = 0; n < len(p) && off+int64(n) < f.n.size; n++ {
			p[n] = f.n.at(off + int64(n))
		}
	} else {
		n = copyBytes(p, f.n.Data[off:])
	}
	if v.Part && v.Short < n {
		n = v.Short
		if v.Err != nil {
			return n, perr("read", f.name, v.Err)
		}
	}
	return n, nil
}

func copyBytes(dst, src []byte) int { return copy(dst, src) }

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, strErr("negative offset"))
	}
	total := 0
	for len(p) > 0 {
		n, err := f.readAt(p, off)
		total += n
		if err != nil {
			return total, err
		}
		if n == 0 {
			return total, io.EOF
		}
		p = p[n:]
		off += int64(n)
	}
	return total, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.app {
		f.off = int64(len(f.n.Data))
	}
	n, err := f.writeAt(p, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) writeAt(p []byte, off int64) (int, error) {
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	v := f.fs.begin("write", f.name, "", len(p), true)
	if v.Err != nil && !v.Part {
		return 0, perr("write", f.name, v.Err)
	}
	q := p
	if v.Part && v.Short < len(q) {
		q = q[:v.Short]
	}
	if end := off + int64(len(q)); end > int64(len(f.n.Data)) && len(q) > 0 {
		if end <= int64(cap(f.n.Data)) {
			f.n.Data = f.n.Data[:end]
		} else {
			d := make([]byte, end, end+end/2)
			copy(d, f.n.Data)
			f.n.Data = d
		}
	}
	if len(q) > 0 {
		copyBytes(f.n.Data[off:], q)
		f.n.Dirty = true
	}
	if v.Crash {
		f.fs.Frozen = true
		return len(q), perr("write", f.name, errFrozen)
	}
	if v.Part && len(q) < len(p) || v.Err != nil {
		e := v.Err
		if e == nil {
			e = syscall.ENOSPC
		}
		return len(q), perr("write", f.name, e)
	}
	return len(p), nil
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("writeat", f.name, strErr("negative offset"))
	}
	return f.writeAt(p, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ f *File }

func (o onlyWriter) Write(p []byte) (int, error) { return o.f.Write(p) }

type onlyReader struct{ f *File }

func (o onlyReader) Read(p []byte) (int, error) { return o.f.Read(p) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(onlyWriter{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, onlyReader{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += f.n.length()
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if v := f.fs.begin("stat", f.name, "", 0, false); v.Err != nil {
		return nil, perr("stat", f.name, v.Err)
	}
	return mkinfo(f.name, f.n), nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if v := f.fs.begin("sync", f.name, "", 0, false); v.Err != nil {
		return perr("sync", f.name, v.Err)
	}
	f.n.Dirty = false
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if !f.wr {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	if v := f.fs.begin("truncate", f.name, "", int(size), true); v.Err != nil {
		return perr("truncate", f.name, v.Err)
	}
	f.n.resize(size)
	return nil
}

func (f *File) Chmod(mode FileMode) error { f.n.mode = mode; return nil }

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if !f.n.Dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if f.dirDone {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	f.dirDone = true
	return f.n.list(), nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

func (f *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }

var _ fs.File = (*File)(nil)

// ---- for harnesses ----

// Put creates a file with its directories, without any scheduling point.
func (f *FS) Put(name string, data []byte) {
	f.mkdirAll(path.Dir(name), 0o755)
	d, b, err := f.parent(name)
	if err != nil {
		panic(err)
	}
	n := f.node(false)
	n.Data = append([]byte(nil), data...)
	d.set(b, n)
}

func (f *FS) Mkdir(name string) { f.mkdirAll(name, 0o755) }

// PutHuge makes a file of the size whose bytes a function tells. It can only be read.
func (f *FS) PutHuge(name string, size int64, at func(off int64) byte) {
	f.Put(name, nil)
	n, _ := f.lookup(name)
	n.size, n.at = size, at
}

// Get returns the content of a file, nil if there is none.
func (f *FS) Get(name string) []byte {
	n, err := f.lookup(name)
	if err != nil || n.Dir {
		return nil
	}
	if n.Data == nil {
		return []byte{}
	}
	return n.Data
}

func (f *FS) Exists(name string) bool { _, err := f.lookup(name); return err == nil }

// Files lists all files with their contents, in path order.
func (f *FS) Files() (names []string, data [][]byte) {
	f.walk("", f.root, func(p string, n *Node) {
		if !n.Dir {
			names = append(names, p)
			data = append(data, n.Data)
		}
	})
	return
}

// Tree lists every path (directories end in /).
func (f *FS) Tree() (names []string) {
	f.walk("", f.root, func(p string, n *Node) {
		if n.Dir {
			p += "/"
		}
		names = append(names, p)
	})
	return
}

func (f *FS) walk(p string, n *Node, fn func(string, *Node)) {
	if p != "" {
		fn(p, n)
	}
	for _, e := range n.ents {
		f.walk(p+"/"+e.name, e.n, fn)
	}
}

// Clone copies the file system (no hook, not frozen).
func (f *FS) Clone() *FS {
	g := &FS{ino: f.ino, Quiet: f.Quiet, Trail: f.Trail}
	seen := map[*Node]*Node{}
	g.root = cloneNode(f.root, seen)
	return g
}

func cloneNode(n *Node, seen map[*Node]*Node) *Node {
	if c := seen[n]; c != nil {
		return c
	}
	c := &Node{Dir: n.Dir, Data: append([]byte(nil), n.Data...), mode: n.mode, mtime: n.mtime, Dirty: n.Dirty, Ino: n.Ino}
	seen[n] = c
	for _, e := range n.ents {
		c.ents = append(c.ents, ent{e.name, cloneNode(e.n, seen)})
	}
	return c
}

// DirtyFiles lists the files whose data has not been synced.
func (f *FS) DirtyFiles() (out []*Node) {
	f.walk("", f.root, func(p string, n *Node) {
		if !n.Dir && n.Dirty {
			out = append(out, n)
		}
	})
	return
}

// Reset starts an execution with an empty file system.
func Reset() *FS {
	Cur = NewFS()
	return Cur
}
