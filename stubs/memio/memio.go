// Package memio stands in for vimagination.zapto.org/memio, which is not in
// the sandbox: the parts of it that limage uses, as its documentation says.
package memio

import (
	"errors"
	"io"
)

// Buffer is a queue of bytes.
type Buffer []byte

// Read takes bytes from the front.
func (s *Buffer) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}

	if len(*s) == 0 {
		return 0, io.EOF
	}

	n := copy(p, *s)
	*s = (*s)[n:]

	return n, nil
}

// Write adds bytes at the end.
func (s *Buffer) Write(p []byte) (int, error) {
	*s = append(*s, p...)

	return len(p), nil
}

// ReadMem reads from memory.
type ReadMem struct {
	data []byte
	pos  int64
}

// Open reads from the given bytes.
func Open(data []byte) *ReadMem {
	return &ReadMem{data: data}
}

// ReadAt reads at the given offset.
func (b *ReadMem) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("invalid offset")
	}

	if off >= int64(len(b.data)) {
		return 0, io.EOF
	}

	n := copy(p, b.data[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

// Read reads at the current position.
func (b *ReadMem) Read(p []byte) (int, error) {
	if b.pos >= int64(len(b.data)) {
		return 0, io.EOF
	}

	n := copy(p, b.data[b.pos:])
	b.pos += int64(n)

	return n, nil
}

// Seek moves the current position.
func (b *ReadMem) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += b.pos
	case io.SeekEnd:
		offset += int64(len(b.data))
	}

	b.pos = offset

	return offset, nil
}

// ReadWriteMem writes to memory.
type ReadWriteMem struct {
	data *[]byte
	pos  int64
}

// Create empties the bytes and writes to them.
func Create(data *[]byte) *ReadWriteMem {
	*data = (*data)[:0]

	return &ReadWriteMem{data: data}
}

// WriteAt writes at the given offset.
func (b *ReadWriteMem) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("invalid offset")
	}

	if need := int(off) + len(p); need > len(*b.data) {
		if need > cap(*b.data) {
			n := make([]byte, need, 2*need)
			copy(n, *b.data)
			*b.data = n
		} else {
			o := len(*b.data)
			*b.data = (*b.data)[:need]
			for i := o; i < need; i++ {
				(*b.data)[i] = 0
			}
		}
	}

	return copy((*b.data)[off:], p), nil
}

// Write writes at the current position.
func (b *ReadWriteMem) Write(p []byte) (int, error) {
	n, err := b.WriteAt(p, b.pos)
	b.pos += int64(n)

	return n, err
}
