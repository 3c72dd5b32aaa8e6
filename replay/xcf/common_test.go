package xcf

import "io"

// file is a file in memory.
type file []byte

func (f *file) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(*f) {
		*f = append(*f, make([]byte, n-len(*f))...)
	}
	copy((*f)[off:], p)
	return len(p), nil
}

func (f file) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(f)) {
		return 0, io.EOF
	}
	n := copy(p, f[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
