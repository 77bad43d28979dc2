package main

import (
	"errors"
	"io"
	"os"
)

// A mutating operation on a file.
type fileOp struct {
	kind string // write or truncate
	off  int64
	data []byte
	size int64
}

var errInjected = errors.New("injected fault")

// An in-memory file with the semantics of os.File. It logs mutating operations
// and can fail any operation.
type memFile struct {
	data   []byte
	pos    int64
	closed int
	ops    []fileOp
	nth    int // index of the next operation of any kind
	calls  []string
	plain  bool // nobody is interested in the operations
	// Decides whether the operation fails and, for a write, after how many bytes.
	fault  func(nth int, kind string, size int) (int, error)
	failed int // operations that were made to fail
}

func newMemFile(data []byte) *memFile {
	return &memFile{data: append([]byte{}, data...)}
}

func (m *memFile) hook(kind string, size int) (int, error) {
	if m.closed > 0 && kind != "close" {
		return 0, os.ErrClosed
	}
	n := m.nth
	m.nth++
	if m.fault != nil {
		size, err := m.fault(n, kind, size)
		if err != nil {
			m.failed++
		}
		return size, err
	}
	return size, nil
}

func (m *memFile) Read(b []byte) (int, error) {
	n, err := m.hook("read", len(b))
	if err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if m.pos >= int64(len(m.data)) {
		return 0, io.EOF
	}
	if n < len(b) && n > 0 {
		b = b[:n] // a short read is legal
	}
	n = copy(b, m.data[m.pos:])
	m.pos += int64(n)
	return n, nil
}

func applyOp(data []byte, op fileOp, torn int) []byte {
	if op.kind == "truncate" {
		if op.size <= int64(len(data)) {
			return data[:op.size]
		}
		return append(data, make([]byte, op.size-int64(len(data)))...)
	}
	w := op.data
	if torn >= 0 && torn < len(w) {
		w = w[:torn]
	}
	end := op.off + int64(len(w))
	if len(w) == 0 {
		return data
	}
	if end > int64(len(data)) {
		data = append(data, make([]byte, end-int64(len(data)))...)
	}
	copy(data[op.off:], w)
	return data
}

func (m *memFile) Write(b []byte) (int, error) {
	n, err := m.hook("write", len(b))
	if err == nil {
		n = len(b)
	}
	if m.plain && n > 0 {
		if gap := int(m.pos) - len(m.data); gap > 0 {
			m.data = append(m.data, make([]byte, gap)...)
		}
		m.data = append(m.data, b[copy(m.data[m.pos:], b[:n]):n]...)
		m.pos += int64(n)
	} else if n > 0 {
		op := fileOp{kind: "write", off: m.pos, data: append([]byte{}, b[:n]...)}
		m.ops = append(m.ops, op)
		m.data = applyOp(m.data, op, -1)
		m.pos += int64(n)
	}
	return n, err
}

func (m *memFile) Seek(offset int64, whence int) (int64, error) {
	if _, err := m.hook("seek", 0); err != nil {
		return 0, err
	}
	pos := offset
	switch whence {
	case io.SeekCurrent:
		pos += m.pos
	case io.SeekEnd:
		pos += int64(len(m.data))
	}
	if pos < 0 {
		return 0, errors.New("seek: invalid argument")
	}
	m.pos = pos
	return pos, nil
}

func (m *memFile) Truncate(size int64) error {
	if _, err := m.hook("truncate", 0); err != nil {
		return err
	}
	op := fileOp{kind: "truncate", size: size}
	m.ops = append(m.ops, op)
	m.data = applyOp(m.data, op, -1)
	return nil
}

func (m *memFile) Close() error {
	_, err := m.hook("close", 0)
	m.closed++
	if m.closed > 1 && err == nil {
		return os.ErrClosed
	}
	return err
}

// The contents of a file after the first k operations and the first torn bytes
// of the next one (if torn > 0).
func imageAt(initial []byte, ops []fileOp, k int, torn int) []byte {
	data := append([]byte{}, initial...)
	for i := 0; i < k; i++ {
		data = applyOp(data, ops[i], -1)
	}
	if torn > 0 && k < len(ops) {
		data = applyOp(data, ops[k], torn)
	}
	return data
}

// Walks through all the states a file can be left in by a crash: after every
// operation and in the middle of every write (at every byte of short ones, at
// several points of long ones). Stops when f returns false.
func crashImages(c *kase, initial []byte, ops []fileOp, f func(k, torn int, image []byte) bool) {
	data := append([]byte{}, initial...)
	for k := 0; ; k++ {
		if !f(k, 0, append([]byte{}, data...)) {
			return
		}
		if k == len(ops) {
			return
		}
		if ops[k].kind == "write" {
			for _, torn := range tears(c, len(ops[k].data)) {
				if !f(k, torn, applyOp(append([]byte{}, data...), ops[k], torn)) {
					return
				}
			}
		}
		data = applyOp(data, ops[k], -1)
	}
}

func tears(c *kase, size int) []int {
	var t []int
	if size <= 24 {
		for i := 1; i < size; i++ {
			t = append(t, i)
		}
		return t
	}
	t = append(t, 1, 17, 18, 19, size/2, size-1)
	for i := 0; i < 4; i++ {
		t = append(t, 1+c.Intn(size-1))
	}
	return t
}

// A plain read-write-seeker over a memFile without Truncate and Close.
type rws struct{ *memFile }
