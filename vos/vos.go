// Package vos holds the engine's models of the operating system: the bodies
// that stand in for functions of the standard library that talk to the kernel.
// A function S_pkg_Func replaces pkg.Func, S_pkg_Type_Method replaces a method.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"syscall"
	"time"

	"github.com/google/codesearch/internal/vsym"
)

type node struct {
	name string
	mode fs.FileMode
	data []byte
	kids map[string]*node
	link string
}

type handle struct {
	name   string
	n      *node
	pos    int
	flag   int
	closed bool
	std    int
}

var (
	root    = &node{name: "/", mode: fs.ModeDir | 0755, kids: map[string]*node{}}
	handles = map[*os.File]*handle{}
	fds     = map[uintptr]*handle{}
	nextFd  = uintptr(10)
	tmpSeq  int
	env     = map[string]string{"HOME": "/home", "TMPDIR": ""}
	stdout  []byte
	stderr  []byte
	stdin   string
	chunks  []int
	cwd     = "/w"

	// Crash point: the operation with this number does not happen and the program dies there.
	Ops     int
	CrashAt = -1
	Torn    int // for a write at the crash point: bytes that still reach the file
	FailAt  = -1
	Trace   []string
)

func init() {
	errors.ErrUnsupported = errors.New("unsupported operation")
	os.Stdin = mkstd("/dev/stdin", 1)
	os.Stdout = mkstd("/dev/stdout", 2)
	os.Stderr = mkstd("/dev/stderr", 3)
	os.Args = []string{"prog"}
	MkdirAll("/tmp")
	MkdirAll("/home")
	MkdirAll("/w")
	os.ErrInvalid = fs.ErrInvalid
	os.ErrPermission = fs.ErrPermission
	os.ErrExist = fs.ErrExist
	os.ErrNotExist = fs.ErrNotExist
	os.ErrClosed = fs.ErrClosed
	filepath.SkipDir = fs.SkipDir
	filepath.SkipAll = fs.SkipAll
}

func mkstd(name string, k int) *os.File {
	f := new(os.File)
	handles[f] = &handle{name: name, std: k, n: &node{name: name, mode: 0600}}
	return f
}

// split returns the cleaned absolute path's elements.
func split(p string) []string {
	if p == "" {
		return nil
	}
	if p[0] != '/' {
		p = cwd + "/" + p
	}
	var r []string
	i := 0
	for i < len(p) {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		if j > i {
			e := p[i:j]
			switch e {
			case ".":
			case "..":
				if len(r) > 0 {
					r = r[:len(r)-1]
				}
			default:
				r = append(r, e)
			}
		}
		i = j
	}
	return r
}

func walk(p string, follow bool, depth int) (*node, error) {
	if p == "" {
		return nil, syscallErr("ENOENT")
	}
	n := root
	es := split(p)
	for i, e := range es {
		if n.mode&fs.ModeDir == 0 {
			return nil, syscallErr("ENOTDIR")
		}
		if n.mode&0100 == 0 {
			return nil, fs.ErrPermission
		}
		k := n.kids[e]
		if k == nil {
			return nil, fs.ErrNotExist
		}
		if k.mode&fs.ModeSymlink != 0 && (follow || i < len(es)-1) {
			if depth > 8 {
				return nil, syscallErr("ELOOP")
			}
			t := k.link
			if t[0] != '/' {
				t = "/" + joinEls(es[:i]) + "/" + t
			}
			var err error
			k, err = walk(t, true, depth+1)
			if err != nil {
				return nil, err
			}
		}
		n = k
	}
	return n, nil
}

func joinEls(es []string) string {
	r := ""
	for i, e := range es {
		if i > 0 {
			r += "/"
		}
		r += e
	}
	return r
}

func syscallErr(s string) error {
	switch s {
	case "ENOENT":
		return fs.ErrNotExist
	}
	return errors.New(s)
}

func parent(p string) (*node, string, error) {
	es := split(p)
	if len(es) == 0 {
		return nil, "", fs.ErrExist
	}
	d, err := walk("/"+joinEls(es[:len(es)-1]), true, 0)
	if err != nil {
		return nil, "", err
	}
	if d.mode&fs.ModeDir == 0 {
		return nil, "", syscallErr("ENOTDIR")
	}
	return d, es[len(es)-1], nil
}

// MkdirAll creates a directory for the harness.
func MkdirAll(p string) {
	n := root
	for _, e := range split(p) {
		k := n.kids[e]
		if k == nil {
			k = &node{name: e, mode: fs.ModeDir | 0755, kids: map[string]*node{}}
			n.kids[e] = k
		}
		n = k
	}
}

// event counts operations that change the file system. It reports the
// crash point by ending the program.
func event(what string) (crash bool) {
	Ops++
	if Ops-1 == CrashAt {
		return true
	}
	return false
}

func failing() bool { return Ops-1 == FailAt }

func die() { os.Exit(137) }

func perr(op, path string, err error) error {
	return &fs.PathError{Op: op, Path: path, Err: err}
}

func S_os_OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	if full() {
		return nil, perr("open", name, errors.New("too many open files"))
	}
	n, err := walk(name, true, 0)
	if err != nil {
		if flag&os.O_CREATE == 0 || err != fs.ErrNotExist {
			return nil, perr("open", name, err)
		}
		d, base, err := parent(name)
		if err != nil {
			return nil, perr("open", name, err)
		}
		if event("create " + name) {
			die()
		}
		if failing() {
			return nil, perr("open", name, errors.New("injected failure"))
		}
		n = &node{name: base, mode: perm & 0777}
		d.kids[base] = n
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			return nil, perr("open", name, fs.ErrExist)
		}
		if n.mode&fs.ModeDir != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, errors.New("is a directory"))
		}
		if n.mode&0400 == 0 {
			return nil, perr("open", name, fs.ErrPermission)
		}
		if flag&os.O_TRUNC != 0 {
			if event("truncate " + name) {
				die()
			}
			if failing() {
				return nil, perr("open", name, errors.New("injected failure"))
			}
			n.data = nil
		}
	}
	f := new(os.File)
	handles[f] = &handle{name: name, n: n, flag: flag}
	held++
	return f, nil
}

// held counts the open files, mapped the mappings.
var (
	held   int
	most   int // that may be open; 0 is no limit
	mapped = map[*byte]bool{}
)

func full() bool { return most > 0 && held >= most }

func S_vsym_Held() int { return held + len(mapped) }

func S_os_Open(name string) (*os.File, error) { return S_os_OpenFile(name, os.O_RDONLY, 0) }
func S_os_Create(name string) (*os.File, error) {
	return S_os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func S_os_TempDir() string {
	if d := env["TMPDIR"]; d != "" {
		return d
	}
	return "/tmp"
}

func S_os_CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = S_os_TempDir()
	}
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	for {
		tmpSeq++
		name := dir + "/" + pre + itoa(1000000+tmpSeq) + suf
		f, err := S_os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

func S_os_MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = S_os_TempDir()
	}
	tmpSeq++
	name := dir + "/" + pattern + itoa(1000000+tmpSeq)
	return name, S_os_Mkdir(name, 0700)
}

func S_os_Mkdir(name string, perm fs.FileMode) error {
	d, base, err := parent(name)
	if err != nil {
		return perr("mkdir", name, err)
	}
	if d.kids[base] != nil {
		return perr("mkdir", name, fs.ErrExist)
	}
	d.kids[base] = &node{name: base, mode: fs.ModeDir | perm&0777, kids: map[string]*node{}}
	return nil
}

func S_os_MkdirAll(name string, perm fs.FileMode) error {
	MkdirAll(name)
	return nil
}

func S_os_Symlink(target, name string) error {
	d, base, err := parent(name)
	if err != nil {
		return perr("symlink", name, err)
	}
	d.kids[base] = &node{name: base, mode: fs.ModeSymlink | 0777, link: target}
	return nil
}

func S_os_Chmod(name string, mode fs.FileMode) error {
	n, err := walk(name, true, 0)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = n.mode&^0777 | mode&0777
	return nil
}

func S_os_Remove(name string) error {
	d, base, err := parent(name)
	if err != nil {
		return perr("remove", name, err)
	}
	n := d.kids[base]
	if n == nil {
		return perr("remove", name, fs.ErrNotExist)
	}
	if n.mode&fs.ModeDir != 0 && len(n.kids) > 0 {
		return perr("remove", name, errors.New("directory not empty"))
	}
	if event("remove " + name) {
		die()
	}
	if failing() {
		return perr("remove", name, errors.New("injected failure"))
	}
	delete(d.kids, base)
	return nil
}

func S_os_RemoveAll(name string) error {
	d, base, err := parent(name)
	if err != nil {
		return nil
	}
	if event("removeall " + name) {
		die()
	}
	delete(d.kids, base)
	return nil
}

func S_os_Rename(from, to string) error {
	d1, b1, err := parent(from)
	if err != nil {
		return perr("rename", from, err)
	}
	n := d1.kids[b1]
	if n == nil {
		return perr("rename", from, fs.ErrNotExist)
	}
	d2, b2, err := parent(to)
	if err != nil {
		return perr("rename", to, err)
	}
	if event("rename " + from + " " + to) {
		die()
	}
	if failing() {
		return perr("rename", from, errors.New("injected failure"))
	}
	delete(d1.kids, b1)
	d2.kids[b2] = n
	return nil
}

func S_os_Truncate(name string, size int64) error {
	n, err := walk(name, true, 0)
	if err != nil {
		return perr("truncate", name, err)
	}
	if event("truncate " + name) {
		die()
	}
	n.resize(int(size))
	return nil
}

func (n *node) resize(size int) {
	if size <= len(n.data) {
		n.data = n.data[:size:size]
		return
	}
	n.data = append(n.data, make([]byte, size-len(n.data))...)
}

func S_os_ReadFile(name string) ([]byte, error) {
	if full() {
		return nil, perr("open", name, errors.New("too many open files"))
	}
	n, err := walk(name, true, 0)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n.mode&fs.ModeDir != 0 {
		return nil, perr("read", name, errors.New("is a directory"))
	}
	if n.mode&0400 == 0 {
		return nil, perr("open", name, fs.ErrPermission)
	}
	return append([]byte{}, n.data...), nil
}

func S_os_WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := S_os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	return err
}

type finfo struct {
	name string
	size int64
	mode fs.FileMode
	n    *node
}

func (f *finfo) Name() string       { return f.name }
func (f *finfo) Size() int64        { return f.size }
func (f *finfo) Mode() fs.FileMode  { return f.mode }
func (f *finfo) ModTime() time.Time { return time.Time{} }
func (f *finfo) IsDir() bool        { return f.mode&fs.ModeDir != 0 }
func (f *finfo) Sys() any           { return nil }

func info(path string, n *node) fs.FileInfo {
	es := split(path)
	b := "/"
	if len(es) > 0 {
		b = es[len(es)-1]
	}
	return &finfo{name: b, size: int64(len(n.data)), mode: n.mode, n: n}
}

func S_os_Stat(name string) (fs.FileInfo, error) {
	n, err := walk(name, true, 0)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return info(name, n), nil
}

func S_os_Lstat(name string) (fs.FileInfo, error) {
	n, err := walk(name, false, 0)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return info(name, n), nil
}

func S_path_filepath_EvalSymlinks(name string) (string, error) {
	if _, err := walk(name, true, 0); err != nil {
		return "", perr("lstat", name, err)
	}
	es := split(filepath.Clean(name))
	links := false
	for i := 0; i < len(es); i++ {
		n, err := walk("/"+joinEls(es[:i+1]), false, 0)
		if err != nil {
			return "", err
		}
		if n.mode&fs.ModeSymlink != 0 {
			t := n.link
			if t[0] != '/' {
				t = "/" + joinEls(es[:i]) + "/" + t
			}
			es = append(split(filepath.Clean(t)), es[i+1:]...)
			i = -1
			links = true
		}
	}
	if !links {
		return filepath.Clean(name), nil
	}
	return "/" + joinEls(es), nil
}

func S_os_Readlink(name string) (string, error) {
	n, err := walk(name, false, 0)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if n.mode&fs.ModeSymlink == 0 {
		return "", perr("readlink", name, syscallErr("EINVAL"))
	}
	return n.link, nil
}

func S_os_Link(old, name string) error {
	n, err := walk(old, false, 0)
	if err != nil {
		return perr("link", old, err)
	}
	d, base, err := parent(name)
	if err != nil {
		return perr("link", name, err)
	}
	if d.kids[base] != nil {
		return perr("link", name, fs.ErrExist)
	}
	d.kids[base] = n
	return nil
}

func S_os_SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*finfo)
	y, ok2 := b.(*finfo)
	return ok1 && ok2 && x.n == y.n
}

func sortedKids(n *node) []string {
	var names []string
	for k := range n.kids {
		names = append(names, k)
	}
	sort.Strings(names)
	return names
}

type dirent struct{ i fs.FileInfo }

func (d dirent) Name() string               { return d.i.Name() }
func (d dirent) IsDir() bool                { return d.i.IsDir() }
func (d dirent) Type() fs.FileMode          { return d.i.Mode().Type() }
func (d dirent) Info() (fs.FileInfo, error) { return d.i, nil }

func S_os_ReadDir(name string) ([]fs.DirEntry, error) {
	if full() {
		return nil, perr("open", name, errors.New("too many open files"))
	}
	n, err := walk(name, true, 0)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n.mode&fs.ModeDir == 0 {
		return nil, perr("readdirent", name, errors.New("not a directory"))
	}
	if n.mode&0400 == 0 {
		return nil, perr("open", name, fs.ErrPermission)
	}
	var r []fs.DirEntry
	for _, k := range sortedKids(n) {
		r = append(r, dirent{info(k, n.kids[k])})
	}
	return r, nil
}

func S_os_File_Readdirnames(f *os.File, n int) ([]string, error) {
	h := handles[f]
	if h.n.mode&fs.ModeDir == 0 {
		return nil, perr("readdirent", h.name, errors.New("not a directory"))
	}
	return sortedKids(h.n), nil
}

func S_os_File_ReadDir(f *os.File, n int) ([]fs.DirEntry, error) {
	return S_os_ReadDir(handles[f].name)
}

func S_os_File_Name(f *os.File) string { return handles[f].name }

func S_os_File_Stat(f *os.File) (fs.FileInfo, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	h := handles[f]
	if h == nil || h.closed {
		return nil, perr("stat", h.name, fs.ErrClosed)
	}
	return info(h.name, h.n), nil
}

func S_os_File_Fd(f *os.File) uintptr {
	for fd, h := range fds {
		if h == handles[f] {
			return fd
		}
	}
	nextFd++
	fds[nextFd] = handles[f]
	return nextFd
}

func S_os_File_Close(f *os.File) error {
	if f == nil {
		return fs.ErrInvalid
	}
	h := handles[f]
	if h == nil || h.closed {
		return fs.ErrClosed
	}
	h.closed = true
	if h.std == 0 {
		held--
	}
	return nil
}

func S_os_File_Sync(f *os.File) error { return nil }

func S_os_File_Read(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	h := handles[f]
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	if h.std == 1 {
		if len(b) == 0 {
			return 0, nil
		}
		if stdin == "" {
			return 0, io.EOF
		}
		k := len(stdin)
		if len(chunks) > 0 {
			k = min(chunks[0], k)
			chunks = chunks[1:]
		}
		n := copy(b, stdin[:k])
		stdin = stdin[n:]
		return n, nil
	}
	if h.n.mode&fs.ModeDir != 0 {
		return 0, perr("read", h.name, errors.New("is a directory"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.pos:])
	h.pos += n
	return n, nil
}

func S_os_File_ReadAt(f *os.File, b []byte, off int64) (int, error) {
	h := handles[f]
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	if off >= int64(len(h.n.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, h.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (h *handle) put(b []byte) {
	d := h.n.data
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(d)
	}
	if h.pos > len(d) {
		d = append(d, make([]byte, h.pos-len(d))...)
	}
	if h.pos == len(d) {
		d = append(d, b...)
	} else {
		n := copy(d[h.pos:], b)
		d = append(d, b[n:]...)
	}
	h.pos += len(b)
	h.n.data = d
}

func S_os_File_Write(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	h := handles[f]
	if h.closed {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	switch h.std {
	case 2:
		stdout = append(stdout, b...)
		return len(b), nil
	case 3:
		stderr = append(stderr, b...)
		return len(b), nil
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, errors.New("bad file descriptor"))
	}
	if event("write " + h.name) {
		if Torn > 0 {
			k := Torn
			if k > len(b) {
				k = len(b)
			}
			h.put(b[:k])
		}
		die()
	}
	if failing() {
		return 0, perr("write", h.name, errors.New("injected failure"))
	}
	h.put(b)
	return len(b), nil
}

func S_os_File_WriteString(f *os.File, s string) (int, error) { return S_os_File_Write(f, []byte(s)) }

func S_os_File_WriteAt(f *os.File, b []byte, off int64) (int, error) {
	h := handles[f]
	p := h.pos
	h.pos = int(off)
	n, err := S_os_File_Write(f, b)
	h.pos = p
	return n, err
}

func S_os_File_Truncate(f *os.File, size int64) error {
	h := handles[f]
	if event("truncate " + h.name) {
		die()
	}
	h.n.resize(int(size))
	return nil
}

func S_os_File_Seek(f *os.File, off int64, whence int) (int64, error) {
	h := handles[f]
	switch whence {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = len(h.n.data) + int(off)
	}
	return int64(h.pos), nil
}

type plainReader struct{ f *os.File }

func (r plainReader) Read(b []byte) (int, error) { return r.f.Read(b) }

type plainWriter struct{ f *os.File }

func (w plainWriter) Write(b []byte) (int, error) { return w.f.Write(b) }

func S_os_File_ReadFrom(f *os.File, r io.Reader) (int64, error) {
	return io.Copy(plainWriter{f}, r)
}

func S_os_File_WriteTo(f *os.File, w io.Writer) (int64, error) {
	return io.Copy(w, plainReader{f})
}

func S_os_Getenv(k string) string { return env[k] }
func S_os_LookupEnv(k string) (string, bool) {
	v, ok := env[k]
	return v, ok
}
func S_os_Setenv(k, v string) error {
	env[k] = v
	return nil
}
func S_os_Unsetenv(k string) error {
	delete(env, k)
	return nil
}
func S_os_Getwd() (string, error)       { return cwd, nil }
func S_os_UserHomeDir() (string, error) { return env["HOME"], nil }
func S_os_Hostname() (string, error)    { return "host", nil }
func S_os_Getpid() int                  { return 42 }
func S_os_Exit(code int)                { exit(code) }
func S_os_IsNotExist(err error) bool    { return under(err) == fs.ErrNotExist }
func S_os_IsExist(err error) bool       { return under(err) == fs.ErrExist }
func S_os_IsPermission(err error) bool  { return under(err) == fs.ErrPermission }
func S_path_filepath_unixAbs()          {}
func S_path_filepath_Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(cwd, p), nil
}

func under(err error) error {
	switch e := err.(type) {
	case *fs.PathError:
		return e.Err
	case *os.LinkError:
		return e.Err
	}
	return err
}

// exit ends the running program; the engine implements it.
func exit(code int) { panic("exit") }

// runMain runs the main function of a command; the engine implements it.
func runMain(name string) int { panic("runMain") }

func S_errors_Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if m, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range m.Unwrap() {
				if S_errors_Is(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

func S_syscall_Mmap(fd int, off int64, length int, prot int, flags int) ([]byte, error) {
	h := fds[uintptr(fd)]
	if h == nil || h.closed {
		return nil, errors.New("bad file descriptor")
	}
	if length <= 0 {
		return nil, errors.New("invalid argument")
	}
	d := make([]byte, length)
	copy(d, h.n.data[off:])
	mapped[&d[0]] = true
	return d, nil
}

func S_syscall_Munmap(b []byte) error {
	if len(b) == 0 || len(b) != cap(b) || !mapped[&b[0]] {
		return errors.New("invalid argument")
	}
	delete(mapped, &b[0])
	// what reads it now reads nothing good
	for i := range b {
		b[i] = 0xff
	}
	return nil
}

var _ = syscall.Mmap

// implemented by the engine
func release(p *sync.Pool)     {}
func acquire(p *sync.Pool)     {}
func shared(p *sync.Pool) bool { return false }

var pools = map[*sync.Pool][]any{}

func S_sync_Pool_Get(p *sync.Pool) any {
	if shared(p) {
		acquire(p)
		if l := pools[p]; len(l) > 0 {
			x := l[len(l)-1]
			pools[p] = l[:len(l)-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func S_sync_Pool_Put(p *sync.Pool, x any) {
	if shared(p) {
		release(p)
		pools[p] = append(pools[p], x)
	}
}

func S_time_Now() time.Time                           { return time.Time{} }
func S_time_Since(t time.Time) time.Duration          { return 0 }
func S_time_Time_Sub(t, u time.Time) time.Duration    { return 0 }
func S_time_Sleep(d time.Duration)                    {}
func S_time_Time_String(t time.Time) string           { return "time" }
func S_time_Time_Format(t time.Time, f string) string { return "time" }
func S_time_Duration_String(d time.Duration) string   { return "0s" }
func S_time_Date(y int, m time.Month, d, h, mi, s, ns int, l *time.Location) time.Time {
	return time.Time{}
}

// logPrefix is what log.SetPrefix has set in this process.
var logPrefix string

func logText(s string) {
	stderr = append(stderr, logPrefix...)
	stderr = append(stderr, "time "...)
	stderr = append(stderr, s...)
	if len(s) == 0 || s[len(s)-1] != '\n' {
		stderr = append(stderr, '\n')
	}
}

// logf formats messages about names and errors. Numbers, which may be symbolic
// and which no property is about, are left as they are in the format.
func logf(f string, a []any) string {
	for _, x := range a {
		switch x.(type) {
		case string, error, fmt.Stringer:
		default:
			return f
		}
	}
	return fmt.Sprintf(f, a...)
}

func logp(a []any) string {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		switch x := x.(type) {
		case string:
			s += x
		case error:
			s += x.Error()
		case fmt.Stringer:
			s += x.String()
		}
	}
	return s
}

func S_log_Printf(f string, a ...any)                   { logText(logf(f, a)) }
func S_log_Print(a ...any)                              { logText(logp(a)) }
func S_log_Println(a ...any)                            { logText(logp(a)) }
func S_log_Fatalf(f string, a ...any)                   { logText(logf(f, a)); exit(1) }
func S_log_Fatal(a ...any)                              { logText(logp(a)); exit(1) }
func S_log_Fatalln(a ...any)                            { logText(logp(a)); exit(1) }
func S_log_Panicf(f string, a ...any)                   { panic(f) }
func S_log_Panic(a ...any)                              { panic("log.Panic") }
func S_log_SetPrefix(p string)                          { logPrefix = p }
func S_log_SetFlags(f int)                              {}
func S_log_SetOutput(w io.Writer)                       {}
func S_log_Flags() int                                  { return 0 }
func S_log_Prefix() string                              { return "" }
func S_log_Default() *log.Logger                        { return nil }
func S_runtime_pprof_StartCPUProfile(w io.Writer) error { return nil }
func S_runtime_pprof_StopCPUProfile()                   {}

func S_vsym_TempDir() string { return "/w" }

func S_vsym_Run(p *vsym.Proc) { runProc(p, nil) }

func S_vsym_RunChunks(p *vsym.Proc, sizes []int) { runProc(p, sizes) }

func runProc(p *vsym.Proc, sizes []int) {
	stdout, stderr, logPrefix = nil, nil, ""
	stdin = p.Stdin
	chunks = append([]int{}, sizes...)
	old := env
	env = map[string]string{}
	for k, v := range old {
		env[k] = v
	}
	for _, kv := range p.Env {
		for i := 0; i < len(kv); i++ {
			if kv[i] == '=' {
				env[kv[:i]] = kv[i+1:]
				break
			}
		}
	}
	dir := cwd
	if p.Dir != "" {
		cwd = p.Dir
	}
	os.Args = append([]string{p.Name}, p.Args...)
	Ops, CrashAt, FailAt, Torn = 0, p.Kill-1, p.Fail-1, p.Torn
	oldHeld, oldMapped := held, mapped
	held, most, mapped = 0, p.Files, map[*byte]bool{}
	p.Code = runMain(p.Name)
	held, most, mapped = oldHeld, 0, oldMapped
	p.Ops = Ops
	CrashAt, FailAt = -1, -1
	p.Stdout, p.Stderr = string(stdout), string(stderr)
	env = old
	cwd = dir
}

var syncMaps = map[*sync.Map]map[any]any{}

func smap(m *sync.Map) map[any]any {
	x := syncMaps[m]
	if x == nil {
		x = map[any]any{}
		syncMaps[m] = x
	}
	return x
}

// implemented by the engine
func releaseMap(m *sync.Map) {}
func acquireMap(m *sync.Map) {}

func S_sync_Map_Store(m *sync.Map, k, v any) { releaseMap(m); smap(m)[k] = v }
func S_sync_Map_Load(m *sync.Map, k any) (any, bool) {
	acquireMap(m)
	v, ok := smap(m)[k]
	return v, ok
}
func S_sync_Map_LoadOrStore(m *sync.Map, k, v any) (any, bool) {
	acquireMap(m)
	if v, ok := smap(m)[k]; ok {
		return v, true
	}
	S_sync_Map_Store(m, k, v)
	return v, false
}
func S_sync_Map_Delete(m *sync.Map, k any) { delete(smap(m), k) }

// S_vsym_Go runs f, g and f again as two threads would, and looks for memory that
// one of them writes and the other uses.
func S_vsym_Go(f, g func()) {
	vsym.Thread(1)
	f()
	vsym.Thread(2)
	g()
	vsym.Thread(1)
	f()
	vsym.Thread(0)
	if r := vsym.Races(); r != "" {
		vsym.Note(r)
		vsym.Fail("two searches use the same memory at the same time")
	}
}

func S_sync_Map_Range(m *sync.Map, f func(k, v any) bool) {
	acquireMap(m)
	for k, v := range smap(m) {
		if !f(k, v) {
			return
		}
	}
}

func sliceSwap(x any, i, j int) { panic("sliceSwap") }

func S_internal_reflectlite_Swapper(x any) func(i, j int) {
	return func(i, j int) { sliceSwap(x, i, j) }
}

func S_archive_zip_msDosTimeToTime(d, t uint16) time.Time { return time.Time{} }

// no setting is changed by the environment
func S_internal_godebug_Setting_Value(s any) string  { return "" }
func S_internal_godebug_Setting_IncNonDefault(s any) {}
