package internal_test

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/internal/vreplay"
)

// src is a seekable reader with short reads and errors.
type src struct {
	data   []byte
	pos    int64
	plan   []int // for every call: <0 an error, else the most it reads
	failed bool
}

var errSrc = errors.New("source failed")

func (s *src) next() int {
	if len(s.plan) == 0 {
		return 1 << 20
	}
	n := s.plan[0]
	s.plan = s.plan[1:]
	return n
}

func (s *src) Read(p []byte) (int, error) {
	k := s.next()
	fail := k < 0
	if fail {
		k = -k - 1
	}
	if k > len(p) {
		k = len(p)
	}
	n := 0
	if s.pos < int64(len(s.data)) {
		n = copy(p[:k], s.data[s.pos:])
	}
	s.pos += int64(n)
	if fail {
		s.failed = true
		return n, errSrc
	}
	if n == 0 && len(p) > 0 && s.pos >= int64(len(s.data)) {
		s.failed = true
		return 0, io.EOF
	}
	return n, nil
}

func (s *src) Seek(off int64, whence int) (int64, error) {
	if s.next() < 0 {
		s.failed = true
		return 0, errSrc
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	s.pos = off
	return off, nil
}

type plain struct{ io.Reader }

func TestReplay_C12(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		s := &src{data: make([]byte, r.Intn(40))}
		r.Read(s.data)
		if r.Trial()%50 == 0 {
			br := bytes.NewReader(s.data)
			r.Check(internal.GetReaderAt(br) == io.ReaderAt(br), "a ReaderAt is not used directly")
			r.Check(internal.GetReaderAt(bufio.NewReader(br)) == io.ReaderAt(br), "a buffered ReaderAt is not used directly")
			r.Check(internal.GetReaderAt(plain{br}) == nil, "an unusable reader was accepted")
			r.Check(internal.GetReaderAt(bufio.NewReader(plain{br})) == nil, "an unusable buffered reader was accepted")
		}
		s.pos = int64(r.Intn(45))
		for i := r.Intn(12); i > 0; i-- {
			k := 1 + r.Intn(8)
			if r.Intn(6) == 0 {
				k = -1 - r.Intn(4)
			}
			s.plan = append(s.plan, k)
		}
		plan, log := append([]int(nil), s.plan...), ""
		r.About(func() string { return fmt.Sprintf("source of %d bytes, faults %v, reads%s", len(s.data), plan, log) })
		var in io.Reader = s
		if r.Bool() {
			in = bufio.NewReaderSize(s, 16)
		}
		ra := internal.GetReaderAt(in)
		r.Check(ra != nil, "a reader that seeks was not accepted")
		for i := 0; i < 6; i++ {
			p, off := make([]byte, r.Intn(20)), int64(r.Intn(45))
			log += fmt.Sprintf(" %d@%d", len(p), off)
			s.failed = false
			type res struct {
				n   int
				err error
			}
			c := make(chan res, 1)
			go func() {
				n, err := ra.ReadAt(p, off)
				c <- res{n, err}
			}()
			var g res
			select {
			case g = <-c:
			case <-time.After(10 * time.Second):
				r.Check(false, "read %d does not return", i)
			}
			r.Check(g.n >= 0 && g.n <= len(p), "n = %d", g.n)
			r.Check(g.n == len(p) || g.err != nil, "read %d bytes without an error", g.n)
			r.Check(g.err == nil || s.failed, "error %v", g.err)
			for j := 0; j < g.n; j++ {
				r.Check(off+int64(j) < int64(len(s.data)) && p[j] == s.data[off+int64(j)], "byte %d of the read at %d is wrong", j, off)
			}
		}
	})
}
