// Package memfs stands for the file system in symbolic runs; natively it uses a scratch directory.
package memfs

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/jsonmodel"
	"github.com/sjansen/pgutil/internal/zzverif/sym"
)

const root = "/scratch"

var (
	dir     string
	links   map[string]string
	dirs    map[string]bool
	handles map[*os.File]*handle
)

type handle struct {
	name, path string
	off        int
	flag       int
	closed     bool
}

// Setup makes an empty working directory.
func Setup() (done func()) {
	jsonmodel.Files = map[string]string{}
	if !sym.Native() {
		dir = root
		links = map[string]string{}
		dirs = map[string]bool{root: true, "/": true, "/dev": true}
		handles = map[*os.File]*handle{}
		jsonmodel.Resolve = resolve
		return func() {}
	}
	old, err := os.Getwd()
	check(err)
	dir, err = os.MkdirTemp("", "memfs")
	check(err)
	dir, err = filepath.EvalSymlinks(dir)
	check(err)
	check(os.Chdir(dir))
	return func() {
		check(os.Chdir(old))
		os.RemoveAll(dir)
	}
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// Dir is the working directory.
func Dir() string { return dir }

// Put makes a file.
func Put(name, text string) {
	if sym.Native() {
		check(os.WriteFile(filepath.Join(dir, name), []byte(text), 0600))
		return
	}
	jsonmodel.Files[dir+"/"+name] = text
}

// Mkdir makes a directory.
func Mkdir(name string) {
	if sym.Native() {
		check(os.Mkdir(filepath.Join(dir, name), 0700))
		return
	}
	dirs[dir+"/"+name] = true
}

// Link makes a symbolic link.
func Link(target, name string) {
	if sym.Native() {
		check(os.Symlink(target, filepath.Join(dir, name)))
		return
	}
	links[dir+"/"+name] = target
}

// All returns what the files contain.
func All() map[string]string {
	out := map[string]string{}
	if !sym.Native() {
		for k, v := range jsonmodel.Files {
			out[strings.TrimPrefix(k, dir+"/")] = v
		}
		return out
	}
	check(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			check(err)
			out[strings.TrimPrefix(p, dir+"/")] = string(b)
		}
		return err
	}))
	return out
}

// Open counts the files that were not closed.
func Open() int {
	n := 0
	for _, h := range handles {
		if !h.closed {
			n++
		}
	}
	return n
}

func abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = dir + "/" + name
	}
	return filepath.Clean(name)
}

func resolve(name string) string {
	p := abs(name)
	for i := 0; i < 4; i++ {
		t, ok := links[p]
		if !ok {
			break
		}
		if !strings.HasPrefix(t, "/") {
			t = filepath.Dir(p) + "/" + t
		}
		p = filepath.Clean(t)
	}
	return p
}

func exists(p string) bool {
	_, ok := jsonmodel.Files[p]
	return ok || p == "/dev/full"
}

func fails(op, name string, err error) error {
	return &os.PathError{Op: op, Path: name, Err: err}
}

// OpenFile stands for os.OpenFile.
//
//verif:stub os.OpenFile
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if name == "" {
		return nil, fails("open", name, syscall.ENOENT)
	}
	p := resolve(name)
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case dirs[p] && write:
		return nil, fails("open", name, syscall.EISDIR)
	case dirs[p]:
	case exists(p) && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, fails("open", name, syscall.EEXIST)
	case exists(p):
		if write && flag&os.O_TRUNC != 0 && p != "/dev/full" {
			jsonmodel.Files[p] = ""
		}
	case flag&os.O_CREATE == 0 || !dirs[filepath.Dir(p)] || strings.HasSuffix(name, "/"):
		return nil, fails("open", name, syscall.ENOENT)
	default:
		jsonmodel.Files[p] = ""
	}
	f := new(os.File)
	handles[f] = &handle{name: name, path: p, flag: flag}
	return f, nil
}

func handleOf(f *os.File) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.closed {
		return nil, fails("use", h.name, os.ErrClosed)
	}
	return h, nil
}

// Write stands for (*os.File).Write.
//
//verif:stub (*os.File).Write
func Write(f *os.File, b []byte) (int, error) { return WriteString(f, string(b)) }

// WriteString stands for (*os.File).WriteString.
//
//verif:stub (*os.File).WriteString
func WriteString(f *os.File, s string) (int, error) {
	h, err := handleOf(f)
	if err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, fails("write", h.name, syscall.EBADF)
	}
	if h.path == "/dev/full" {
		return 0, fails("write", h.name, syscall.ENOSPC)
	}
	old := jsonmodel.Files[h.path]
	if h.flag&os.O_APPEND != 0 {
		h.off = len(old)
	}
	for len(old) < h.off {
		old += "\x00"
	}
	rest := ""
	if len(old) > h.off+len(s) {
		rest = old[h.off+len(s):]
	}
	jsonmodel.Files[h.path] = old[:h.off] + s + rest
	h.off += len(s)
	return len(s), nil
}

// ReadFrom stands for (*os.File).ReadFrom.
//
//verif:stub (*os.File).ReadFrom
func ReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := Write(f, b)
	return int64(n), err
}

// Read stands for (*os.File).Read.
//
//verif:stub (*os.File).Read
func Read(f *os.File, b []byte) (int, error) {
	h, err := handleOf(f)
	if err != nil {
		return 0, err
	}
	s := jsonmodel.Files[h.path]
	if h.off >= len(s) {
		return 0, io.EOF
	}
	n := copy(b, s[h.off:])
	h.off += n
	return n, nil
}

// Truncate stands for (*os.File).Truncate.
//
//verif:stub (*os.File).Truncate
func Truncate(f *os.File, size int64) error {
	h, err := handleOf(f)
	if err != nil {
		return err
	}
	if s := jsonmodel.Files[h.path]; int64(len(s)) > size {
		jsonmodel.Files[h.path] = s[:size]
	}
	return nil
}

// Close stands for (*os.File).Close.
//
//verif:stub (*os.File).Close
func Close(f *os.File) error {
	h, err := handleOf(f)
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

// Sync stands for (*os.File).Sync.
//
//verif:stub (*os.File).Sync
func Sync(f *os.File) error {
	_, err := handleOf(f)
	return err
}

// Name stands for (*os.File).Name.
//
//verif:stub (*os.File).Name
func Name(f *os.File) string { return handles[f].name }

// Fd stands for (*os.File).Fd.
//
//verif:stub (*os.File).Fd
func Fd(f *os.File) uintptr { return 9 }

// IsTerminal stands for isatty.IsTerminal.
//
//verif:stub github.com/mattn/go-isatty.IsTerminal
func IsTerminal(fd uintptr) bool { return false }

type info struct {
	path string
	mode os.FileMode
	size int64
}

func (i *info) Name() string       { return filepath.Base(i.path) }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() os.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.mode.IsDir() }
func (i *info) Sys() interface{}   { return nil }

func stat(op, name, p string) (os.FileInfo, error) {
	switch s, ok := jsonmodel.Files[p]; {
	case name == "":
	case ok:
		return &info{p, 0600, int64(len(s))}, nil
	case dirs[p]:
		return &info{p, os.ModeDir | 0700, 0}, nil
	case p == "/dev/full":
		return &info{p, os.ModeDevice | os.ModeCharDevice | 0600, 0}, nil
	}
	return nil, fails(op, name, syscall.ENOENT)
}

// Stat stands for os.Stat.
//
//verif:stub os.Stat
func Stat(name string) (os.FileInfo, error) { return stat("stat", name, resolve(name)) }

// FileStat stands for (*os.File).Stat.
//
//verif:stub (*os.File).Stat
func FileStat(f *os.File) (os.FileInfo, error) {
	h, err := handleOf(f)
	if err != nil {
		return nil, err
	}
	return stat("stat", h.name, h.path)
}

// Lstat stands for os.Lstat.
//
//verif:stub os.Lstat
func Lstat(name string) (os.FileInfo, error) {
	p := abs(name)
	if _, ok := links[p]; ok {
		return &info{p, os.ModeSymlink | 0700, 0}, nil
	}
	return stat("lstat", name, p)
}

// SameFile stands for os.SameFile.
//
//verif:stub os.SameFile
func SameFile(a, b os.FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.path == y.path
}

// Readlink stands for os.Readlink.
//
//verif:stub os.Readlink
func Readlink(name string) (string, error) {
	if t, ok := links[abs(name)]; ok {
		return t, nil
	}
	return "", fails("readlink", name, syscall.EINVAL)
}

// Remove stands for os.Remove.
//
//verif:stub os.Remove
func Remove(name string) error {
	p := abs(name)
	if _, ok := links[p]; ok {
		delete(links, p)
		return nil
	}
	if _, ok := jsonmodel.Files[p]; ok {
		delete(jsonmodel.Files, p)
		return nil
	}
	return fails("remove", name, syscall.ENOENT)
}

// Rename stands for os.Rename.
//
//verif:stub os.Rename
func Rename(from, to string) error {
	a, b := abs(from), abs(to)
	s, ok := jsonmodel.Files[a]
	if !ok || !dirs[filepath.Dir(b)] {
		return fails("rename", from, syscall.ENOENT)
	}
	if dirs[b] {
		return fails("rename", from, errors.New("file exists"))
	}
	delete(links, b)
	delete(jsonmodel.Files, a)
	jsonmodel.Files[b] = s
	return nil
}

// Chmod stands for os.Chmod and (*os.File).Chmod.
//
//verif:stub os.Chmod
func Chmod(name string, mode os.FileMode) error { return nil }

// FileChmod stands for (*os.File).Chmod.
//
//verif:stub (*os.File).Chmod
func FileChmod(f *os.File, mode os.FileMode) error { return nil }

// CreateTemp stands for os.CreateTemp.
//
//verif:stub os.CreateTemp
func CreateTemp(d, pattern string) (*os.File, error) {
	if d == "" {
		d = "/tmp"
	}
	return OpenFile(filepath.Join(d, strings.Replace(pattern, "*", "", -1)+"123456"), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// Getwd stands for os.Getwd.
//
//verif:stub os.Getwd
func Getwd() (string, error) { return dir, nil }
