//go:build verif

package internal

import (
	"bufio"
	"io"
	"unsafe"

	"vimagination.zapto.org/limage/internal/vspec"
)

// world is the state of the reader that is being read: where it stands, how many bytes
// it has, whether it has reported an error, and how many locks are held. The byte at
// offset i is Pure("data", i).
var world struct {
	pos, size int64
	failed    bool
	held      int
	unguarded bool
}

// newWorld makes the reader stand anywhere.
func newWorld() {
	world.pos, world.size = vspec.Any[int64]("pos"), vspec.Any[int64]("size")
	vspec.Assume(0 <= world.pos && 0 <= world.size)
	world.failed, world.held = false, 0
}

type mutexState struct{}

//@ assume an io.Reader returns 0 <= n <= len(p) bytes of what follows its position and any error, an io.Seeker moves to the place asked for or fails and stands anywhere

// @ model (*sync.Mutex).Lock
// @ shadow sync.Mutex mutexState
func model_Lock(m *mutexState) {
	vspec.Assert("the lock is free", world.held == 0)
	world.held++
}

// @ model (*sync.Mutex).Unlock
func model_Unlock(m *mutexState) {
	vspec.Assert("the lock is held", world.held > 0)
	world.held--
}

// @ model invoke (io.Seeker).Seek
func model_Seek(s io.Seeker, off int64, whence int) (int64, error) {
	vspec.Assert("moved only under the lock", world.held > 0 || world.unguarded)
	p := off
	switch whence {
	case io.SeekCurrent:
		p += world.pos
	case io.SeekEnd:
		p += world.size
	}
	if p < 0 || vspec.Any[bool]("seek fails") {
		err := vspec.Any[error]("seek error")
		vspec.Assume(err != nil)
		world.pos = vspec.Any[int64]("somewhere")
		vspec.Assume(0 <= world.pos)
		world.failed = true
		return vspec.Any[int64]("nowhere"), err
	}
	world.pos = p
	return p, nil
}

// @ model invoke (io.Reader).Read
func model_Read(r io.Reader, p []byte) (int, error) {
	vspec.Assert("read only under the lock", world.held > 0 || world.unguarded)
	n := vspec.Any[int]("n")
	vspec.Assume(0 <= n && n <= len(p))
	vspec.Assume(n == 0 || world.pos+int64(n) <= world.size)
	vspec.FillPure(p[:n], "data", world.pos)
	vspec.FillPure(p[n:], "scratch", vspec.Any[int64]("scratch"))
	world.pos += int64(n)
	err := vspec.Any[error]("read error")
	if err != nil {
		world.failed = true
	}
	return n, err
}

func at(i int64) byte { return vspec.Pure[byte]("data", i) }

// @ contract C12 (*readerAt).ReadAt
func contract_readerAt_ReadAt(r *readerAt, p []byte, off int64) {
	vspec.Requires(r != nil && r.ReadSeeker != nil && 0 <= off && off < 1<<62)
	newWorld()
	vspec.Candidate(func(n int) bool {
		return 0 <= n && n <= len(p) && world.pos == off+int64(n) && (n == 0 || world.pos <= world.size)
	})
	vspec.Candidate(func(n int) bool {
		return vspec.Forall(0, n, func(i int) bool { return p[i] == at(off+int64(i)) })
	})
	vspec.Candidate(func(err error) bool { return err == nil || world.failed })
	n, err := r.ReadAt(p, off)
	vspec.EndCandidates()
	vspec.Ensures("at most the length of the buffer", 0 <= n && n <= len(p))
	vspec.Ensures("the bytes at the offset", vspec.Forall(0, n, func(i int) bool { return p[i] == at(off+int64(i)) }))
	vspec.Ensures("fills the buffer or reports an error", n == len(p) || err != nil)
	vspec.Ensures("no error unless the reader had one", err == nil || world.failed)
	vspec.Ensures("the lock is free again", world.held == 0)
}

// bufioState is bufio.Reader as the library has it.
type bufioState struct {
	buf          []byte
	rd           io.Reader
	r, w         int
	err          error
	lastByte     int
	lastRuneSize int
}

// @ contract C12 GetReaderAt
func contract_GetReaderAt(r io.Reader) {
	vspec.Requires(r != nil)
	newWorld()
	world.unguarded = true
	b, ok := r.(*bufio.Reader)
	vspec.Requires(!ok || b != nil)
	got := GetReaderAt(r)
	if ok {
		r = (*bufioState)(unsafe.Pointer(b)).rd
	}
	if ra, ok := r.(io.ReaderAt); ok {
		vspec.Ensures("a ReaderAt is used directly", got == ra)
		return
	}
	s, ok := r.(io.ReadSeeker)
	if !ok {
		vspec.Ensures("unusable", got == nil)
		return
	}
	a, ok := got.(*readerAt)
	vspec.Ensures("a reader that seeks", ok && a.ReadSeeker == s)
	// reads through it work: the lock is free
	vspec.Ensures("the lock is free", world.held == 0)
}
