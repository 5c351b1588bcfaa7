// Package simhttp replaces http.Dir: the same directory tree, with faults and
// scheduling points at every operation on it.
package simhttp

import (
	"io/fs"
	"net/http"

	"verifsim/simrt"
)

// Op is one operation on the file system.
type Op struct {
	Kind string // open stat read seek readdir close
	Name string
	Max  int // read: bytes asked for; the hook may lower it
}

// Hook, when set, sees every operation and may fail or delay it.
var Hook func(op *Op) error

// Dir is http.Dir under simulation.
type Dir string

type file struct {
	http.File
	name   string
	closed bool
}

func hook(op *Op) error {
	simrt.Y(-12)
	if h := Hook; h != nil && simrt.Active() {
		return h(op)
	}
	return nil
}

func (d Dir) Open(name string) (http.File, error) {
	if err := hook(&Op{Kind: "open", Name: name}); err != nil {
		return nil, err
	}
	f, err := http.Dir(d).Open(name)
	if err != nil {
		return nil, err
	}
	hook(&Op{Kind: "opened", Name: name})
	return &file{File: f, name: name}, nil
}

func (f *file) Stat() (fs.FileInfo, error) {
	if err := hook(&Op{Kind: "stat", Name: f.name}); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

func (f *file) Read(p []byte) (int, error) {
	op := &Op{Kind: "read", Name: f.name, Max: len(p)}
	if err := hook(op); err != nil {
		return 0, err
	}
	if op.Max > 0 && op.Max < len(p) {
		p = p[:op.Max]
	}
	return f.File.Read(p)
}

func (f *file) Seek(off int64, whence int) (int64, error) {
	if err := hook(&Op{Kind: "seek", Name: f.name}); err != nil {
		return 0, err
	}
	return f.File.Seek(off, whence)
}

func (f *file) Readdir(n int) ([]fs.FileInfo, error) {
	if err := hook(&Op{Kind: "readdir", Name: f.name}); err != nil {
		return nil, err
	}
	return f.File.Readdir(n)
}

func (f *file) Close() error {
	if !f.closed {
		f.closed = true
		hook(&Op{Kind: "closed", Name: f.name})
	}
	err := hook(&Op{Kind: "close", Name: f.name})
	if e := f.File.Close(); e != nil {
		return e
	}
	return err
}
