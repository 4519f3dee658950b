// Package vos stands in for package os in the code under test. Calls on paths
// inside a watched directory are recorded and can be made to fail; everything
// else goes straight to package os.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/folbricht/routedns/internal/vsched"
)

// Op is a recorded operation.
type Op struct {
	Kind string // create write truncate sync syncdir chmod rename unlink link mkdir, or a call without effect: open read stat close readdir
	Path string
	To   string
	Ino  int
	Off  int64
	Data []byte
	Size int64
	Mode os.FileMode
	Err  bool // the call was made to fail
	Tag  int  // set by the driver
}

// FS is a watched directory.
type FS struct {
	mu   sync.Mutex
	Dir  string
	Log  []Op
	Tag  int
	Fail func(n int, op Op) (short bool, err error)
	Step func(n int) // called before each operation
	n    int
	inos map[string]int
	next int
	Init map[string]File0
	busy bool
}

// File0 is a file as found when watching started.
type File0 struct {
	Ino  int
	Data []byte
	Mode os.FileMode
}

var (
	mu     sync.Mutex
	active *FS
)

// Watch starts recording operations in dir.
func Watch(dir string) *FS {
	dir, _ = filepath.Abs(dir)
	w := &FS{Dir: dir, inos: map[string]int{}, Init: map[string]File0{}}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !e.Type().IsRegular() {
			continue
		}
		p := filepath.Join(dir, e.Name())
		b, _ := os.ReadFile(p)
		st, _ := os.Lstat(p)
		w.next++
		w.inos[p] = w.next
		w.Init[p] = File0{w.next, b, st.Mode().Perm()}
	}
	mu.Lock()
	active = w
	mu.Unlock()
	return w
}

// Stop ends recording.
func Stop() {
	mu.Lock()
	active = nil
	mu.Unlock()
}

func abs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}

func watching(paths ...string) *FS {
	mu.Lock()
	w := active
	mu.Unlock()
	if w == nil || w.busy {
		return nil
	}
	for _, p := range paths {
		a := abs(p)
		if a == w.Dir || strings.HasPrefix(a, w.Dir+"/") {
			return w
		}
	}
	return nil
}

// begin numbers an operation and decides whether it fails.
func (w *FS) begin(op Op) (short bool, err error) {
	vsched.PointIO()
	w.mu.Lock()
	n := w.n
	w.n++
	w.mu.Unlock()
	if w.Step != nil {
		w.busy = true
		w.Step(n)
		w.busy = false
	}
	if w.Fail != nil {
		short, err = w.Fail(n, op)
		if err != nil && !short {
			op.Err = true
			op.Data = nil
			w.add(op)
		}
	}
	return short, err
}

func (w *FS) add(op Op) {
	w.mu.Lock()
	op.Tag = w.Tag
	w.Log = append(w.Log, op)
	w.mu.Unlock()
}

func (w *FS) ino(path string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.inos[abs(path)]
}

// call handles operations that leave no trace.
func call(kind, path string) error {
	w := watching(path)
	if w == nil {
		return nil
	}
	op := Op{Kind: kind, Path: abs(path)}
	_, err := w.begin(op)
	if err != nil {
		return &fs.PathError{Op: kind, Path: path, Err: err}
	}
	w.add(op)
	return nil
}

// File wraps an open file.
type File struct {
	*os.File
	w   *FS
	ino int
	dir bool
}

var (
	Stdout = &File{File: os.Stdout}
	Stderr = &File{File: os.Stderr}
	Stdin  = &File{File: os.Stdin}
)

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	w := watching(name)
	if w == nil {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{File: f}, nil
	}
	op := Op{Kind: "open", Path: abs(name)}
	if flag&os.O_CREATE != 0 {
		op.Kind = "create"
	} else if flag&os.O_TRUNC != 0 {
		op.Kind = "truncate"
	}
	if _, err := w.begin(op); err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	return w.open(name, flag, perm)
}

func (w *FS) open(name string, flag int, perm os.FileMode) (*File, error) {
	p := abs(name)
	_, lerr := os.Stat(p)
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		w.add(Op{Kind: "open", Path: p})
		return nil, err
	}
	st, _ := f.Stat()
	w.mu.Lock()
	created := lerr != nil && flag&os.O_CREATE != 0
	if created {
		w.next++
		w.inos[p] = w.next
	}
	ino := w.inos[p]
	w.mu.Unlock()
	switch {
	case created:
		w.add(Op{Kind: "create", Path: p, Ino: ino, Mode: st.Mode().Perm()})
	case flag&os.O_TRUNC != 0:
		w.add(Op{Kind: "truncate", Path: p, Ino: ino})
	default:
		w.add(Op{Kind: "open", Path: p, Ino: ino})
	}
	return &File{File: f, w: w, ino: ino, dir: st.IsDir()}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	d := dir
	if d == "" {
		d = os.TempDir()
	}
	w := watching(d)
	if w == nil {
		f, err := os.CreateTemp(dir, pattern)
		if err != nil {
			return nil, err
		}
		return &File{File: f}, nil
	}
	if _, err := w.begin(Op{Kind: "create", Path: filepath.Join(abs(d), pattern)}); err != nil {
		return nil, &fs.PathError{Op: "open", Path: filepath.Join(d, pattern), Err: err}
	}
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	p := abs(f.Name())
	w.mu.Lock()
	w.next++
	ino := w.next
	w.inos[p] = ino
	w.mu.Unlock()
	w.add(Op{Kind: "create", Path: p, Ino: ino, Mode: 0o600})
	return &File{File: f, w: w, ino: ino}, nil
}

func (f *File) rec() *FS {
	if f.w == nil || f.w.busy {
		return nil
	}
	mu.Lock()
	defer mu.Unlock()
	if active != f.w {
		return nil
	}
	return f.w
}

func (f *File) Write(b []byte) (int, error) {
	w := f.rec()
	if w == nil {
		return f.File.Write(b)
	}
	off, _ := f.File.Seek(0, io.SeekCurrent)
	op := Op{Kind: "write", Path: abs(f.Name()), Ino: f.ino, Off: off}
	short, err := w.begin(op)
	if err != nil && !short {
		return 0, &fs.PathError{Op: "write", Path: f.Name(), Err: err}
	}
	if short {
		b = b[:len(b)/2]
	}
	n, werr := f.File.Write(b)
	op.Data = append([]byte(nil), b[:n]...)
	w.add(op)
	if err != nil {
		return n, &fs.PathError{Op: "write", Path: f.Name(), Err: err}
	}
	return n, werr
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	w := f.rec()
	if w == nil {
		return f.File.WriteAt(b, off)
	}
	op := Op{Kind: "write", Path: abs(f.Name()), Ino: f.ino, Off: off}
	short, err := w.begin(op)
	if err != nil && !short {
		return 0, &fs.PathError{Op: "write", Path: f.Name(), Err: err}
	}
	if short {
		b = b[:len(b)/2]
	}
	n, werr := f.File.WriteAt(b, off)
	op.Data = append([]byte(nil), b[:n]...)
	w.add(op)
	if err != nil {
		return n, err
	}
	return n, werr
}

type onlyWriter struct{ io.Writer }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

func (f *File) Read(b []byte) (int, error) {
	if w := f.rec(); w != nil {
		op := Op{Kind: "read", Path: abs(f.Name())}
		if _, err := w.begin(op); err != nil {
			return 0, &fs.PathError{Op: "read", Path: f.Name(), Err: err}
		}
		w.add(op)
	}
	return f.File.Read(b)
}

func (f *File) WriteTo(wr io.Writer) (int64, error) {
	return io.Copy(wr, struct{ io.Reader }{f})
}

func (f *File) effect(op Op, do func() error) error {
	w := f.rec()
	if w == nil {
		return do()
	}
	op.Path, op.Ino = abs(f.Name()), f.ino
	if _, err := w.begin(op); err != nil {
		return &fs.PathError{Op: op.Kind, Path: f.Name(), Err: err}
	}
	if err := do(); err != nil {
		return err
	}
	w.add(op)
	return nil
}

func (f *File) Sync() error {
	k := "sync"
	if f.dir {
		k = "syncdir"
	}
	return f.effect(Op{Kind: k}, f.File.Sync)
}

func (f *File) Truncate(n int64) error {
	return f.effect(Op{Kind: "truncate", Size: n}, func() error { return f.File.Truncate(n) })
}

func (f *File) Chmod(m os.FileMode) error {
	return f.effect(Op{Kind: "chmod", Mode: m.Perm()}, func() error { return f.File.Chmod(m) })
}

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.effect(Op{Kind: "stat"}, func() error { return nil }); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

func (f *File) Close() error {
	w := f.rec()
	if w == nil {
		return f.File.Close()
	}
	// A closed file is closed whatever close reports.
	if err := f.File.Close(); err != nil {
		return err
	}
	op := Op{Kind: "close", Path: abs(f.Name()), Ino: f.ino}
	if _, err := w.begin(op); err != nil {
		return &fs.PathError{Op: "close", Path: f.Name(), Err: err}
	}
	w.add(op)
	return nil
}

func effect(op Op, name string, do func() error) error {
	w := watching(op.Path, op.To)
	if w == nil {
		return do()
	}
	op.Path = abs(op.Path)
	if op.To != "" {
		op.To = abs(op.To)
	}
	if _, err := w.begin(op); err != nil {
		return &fs.PathError{Op: name, Path: op.Path, Err: err}
	}
	if err := do(); err != nil {
		return err
	}
	w.mu.Lock()
	switch op.Kind {
	case "rename":
		op.Ino = w.inos[op.Path]
		w.inos[op.To] = op.Ino
		delete(w.inos, op.Path)
	case "link":
		op.Ino = w.inos[op.Path]
		w.inos[op.To] = op.Ino
	case "unlink":
		op.Ino = w.inos[op.Path]
		delete(w.inos, op.Path)
	case "truncate", "chmod":
		op.Ino = w.inos[op.Path]
	}
	w.mu.Unlock()
	w.add(op)
	return nil
}

func Rename(a, b string) error {
	return effect(Op{Kind: "rename", Path: a, To: b}, "rename", func() error { return os.Rename(a, b) })
}

func Remove(p string) error {
	return effect(Op{Kind: "unlink", Path: p}, "remove", func() error { return os.Remove(p) })
}

func RemoveAll(p string) error {
	return effect(Op{Kind: "unlink", Path: p}, "remove", func() error { return os.RemoveAll(p) })
}

func Link(a, b string) error {
	return effect(Op{Kind: "link", Path: a, To: b}, "link", func() error { return os.Link(a, b) })
}

func Symlink(a, b string) error { return os.Symlink(a, b) }

func Truncate(p string, n int64) error {
	return effect(Op{Kind: "truncate", Path: p, Size: n}, "truncate", func() error { return os.Truncate(p, n) })
}

func Chmod(p string, m os.FileMode) error {
	return effect(Op{Kind: "chmod", Path: p, Mode: m.Perm()}, "chmod", func() error { return os.Chmod(p, m) })
}

func Chtimes(p string, a, m time.Time) error {
	if err := call("chtimes", p); err != nil {
		return err
	}
	return os.Chtimes(p, a, m)
}

func Mkdir(p string, m os.FileMode) error {
	return effect(Op{Kind: "mkdir", Path: p}, "mkdir", func() error { return os.Mkdir(p, m) })
}

func MkdirAll(p string, m os.FileMode) error {
	return effect(Op{Kind: "mkdir", Path: p}, "mkdir", func() error { return os.MkdirAll(p, m) })
}

func MkdirTemp(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }

func Stat(p string) (os.FileInfo, error) {
	if err := call("stat", p); err != nil {
		return nil, err
	}
	return os.Stat(p)
}

func Lstat(p string) (os.FileInfo, error) {
	if err := call("stat", p); err != nil {
		return nil, err
	}
	return os.Lstat(p)
}

func ReadDir(p string) ([]os.DirEntry, error) {
	if err := call("readdir", p); err != nil {
		return nil, err
	}
	return os.ReadDir(p)
}

func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(p string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}
