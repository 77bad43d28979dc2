package main

import (
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
)

// An operation of the file system made through package os.
type fsOp struct {
	op   string // open, write, truncate, sync, rename, remove, mkdir, link, read, seek
	name string
	size int
	flag int
}

// True if the operation could change anything.
func (o fsOp) mutating() bool {
	switch o.op {
	case "read", "seek":
		return false
	case "open":
		return o.flag&(os.O_CREATE|os.O_TRUNC) != 0
	}
	return true
}

// Decides about the operations in a directory: what is returned as in fs hooks of
// the instrumented package os.
type fsHook func(o fsOp) (int, error)

var fsHooks sync.Map // directory with a trailing slash -> fsHook
var fsAnywhere struct {
	sync.Mutex
	hook fsHook
}

func dispatchFS(op, name string, size, flag int) (int, error) {
	o := fsOp{op, name, size, flag}
	dir, _ := filepath.Split(name)
	if h, ok := fsHooks.Load(dir); ok {
		return h.(fsHook)(o)
	}
	fsAnywhere.Lock()
	h := fsAnywhere.hook
	fsAnywhere.Unlock()
	if h != nil {
		return h(o)
	}
	return size, nil
}

func setFSHook(dir string, h fsHook) {
	if h == nil {
		fsHooks.Delete(dir)
	} else {
		fsHooks.Store(dir, h)
	}
}

// Counts the operations of a directory and makes one of them fail.
type fsFault struct {
	sync.Mutex
	at       int  // which operation fails
	only     bool // count the mutating operations only
	partial  int  // how many bytes of a failing write get through
	crash    bool // nothing gets through after that operation
	burst    int  // how many operations fail (unless it's a crash)
	n        int
	hit      *fsOp
	after    int // mutating operations attempted after the fault
	excluded string
}

func (f *fsFault) hook(o fsOp) (int, error) {
	f.Lock()
	defer f.Unlock()
	if f.only && !o.mutating() {
		return o.size, nil
	}
	k := f.n
	f.n++
	if k < f.at {
		return o.size, nil
	}
	if k == f.at {
		f.hit = &o
		if o.op == "write" && o.size > 0 {
			p := f.partial
			if p >= o.size {
				p = o.size - 1
				if f.crash && f.partial == 1<<30 {
					p = o.size // completed, but the process doesn't know
				}
			}
			return p, syscall.EIO
		}
		return 0, syscall.EIO
	}
	if f.crash {
		if o.mutating() {
			f.after++
			return 0, syscall.EIO
		}
		return o.size, nil
	}
	if k < f.at+f.burst {
		return 0, syscall.EIO
	}
	return o.size, nil
}

func (f *fsFault) fired() bool {
	f.Lock()
	defer f.Unlock()
	return f.hit != nil
}

func (f *fsFault) what() string {
	f.Lock()
	defer f.Unlock()
	if f.hit == nil {
		return "no fault"
	}
	return f.hit.op + " " + filepath.Base(f.hit.name)
}

func inside(dir, name string) bool {
	abs, err := filepath.Abs(name)
	if err != nil {
		return false
	}
	return strings.HasPrefix(abs, filepath.Clean(dir)+"/")
}
