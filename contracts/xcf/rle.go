//go:build verif

package xcf

import (
	"io"

	"vimagination.zapto.org/byteio"
	"vimagination.zapto.org/limage/internal/vspec"
	"vimagination.zapto.org/memio"
)

//@ assume byteio reads and writes big endian numbers one after the other, and does nothing after the first error

// Where a reader of the run-length code stands between two bytes.
const (
	atOp = iota
	atValue
	atRunHi
	atRunLo
	atLitHi
	atLitLo
	atLit
)

// coded is a reader of the run-length code, as the format has it: what it expects next, the
// length of the run or literal it is in, and the number of bytes decoded. The bytes
// that should be decoded are want(0), want(1)...
var coded struct {
	phase, count, out, pos, read, copied int
	broken                               bool
}

func want(i int) byte { return vspec.Pure[byte]("want", int64(i)) }

// decodeByte takes the next byte of the coded.
func decodeByte(b byte) {
	switch coded.phase {
	case atOp:
		switch {
		case b < 127:
			coded.phase, coded.count = atValue, int(b)+1
		case b == 127:
			coded.phase = atRunHi
		case b == 128:
			coded.phase = atLitHi
		default:
			coded.phase, coded.count = atLit, 256-int(b)
		}
	case atRunHi:
		coded.phase, coded.count = atRunLo, int(b)<<8
	case atRunLo:
		coded.phase, coded.count = atValue, coded.count|int(b)
		vspec.Assert("a run has a length", coded.count > 0)
	case atLitHi:
		coded.phase, coded.count = atLitLo, int(b)<<8
	case atLitLo:
		coded.phase, coded.count = atLit, coded.count|int(b)
		vspec.Assert("a literal has a length", coded.count > 0)
	case atValue:
		start := coded.out
		vspec.Assert("a run repeats the byte", vspec.Forall(0, coded.count, func(i int) bool { return want(start+i) == b }))
		coded.out += coded.count
		coded.phase = atOp
	case atLit:
		vspec.Assert("a literal has the bytes", want(coded.out) == b)
		coded.out++
		coded.count--
		if coded.count == 0 {
			coded.phase = atOp
		}
	}
}

// sink takes what is written.
type sink struct{}

func (sink) Write(p []byte) (int, error) {
	if coded.phase == atLit {
		start := coded.out
		vspec.Assert("a literal has the length written before it", len(p) <= coded.count)
		vspec.Assert("a literal has the bytes", vspec.Forall(0, len(p), func(i int) bool { return want(start+i) == p[i] }))
		coded.out += len(p)
		coded.count -= len(p)
		if coded.count == 0 {
			coded.phase = atOp
		}
		return len(p), nil
	}
	vspec.Assert("no more than one length and byte", len(p) <= 4)
	if len(p) > 0 {
		decodeByte(p[0])
	}
	if len(p) > 1 {
		decodeByte(p[1])
	}
	if len(p) > 2 {
		decodeByte(p[2])
	}
	if len(p) > 3 {
		decodeByte(p[3])
	}
	return len(p), nil
}

func newSink() *writer {
	return &writer{StickyBigEndianWriter: &byteio.StickyBigEndianWriter{Writer: sink{}}}
}

// @ contract C30 (*writer).WriteRLEData
func contract_WriteRLEData(data []byte, run int, last byte) {
	vspec.Requires(len(data) <= 65535 && 0 <= run && run <= 65535)
	start := vspec.Any[int]("start")
	vspec.Requires(0 <= start && start < 1<<40)
	coded.phase, coded.out = atOp, start
	vspec.FillPure(data, "want", int64(start))
	vspec.Requires(vspec.Forall(0, run, func(i int) bool { return want(start+len(data)+i) == last }))
	w := newSink()
	vspec.Candidate(func(n int) bool { return n < len(data) })
	vspec.Candidate(func(n int) bool {
		return vspec.Forall(0, n+1, func(i int) bool { return data[i] == data[0] })
	})
	w.WriteRLEData(data, run, last)
	vspec.EndCandidates()
	vspec.Ensures("nothing is left open", coded.phase == atOp)
	vspec.Ensures("decodes to the bytes and the run", coded.out == start+len(data)+run)
	vspec.Ensures("no error", w.Err == nil)
}

// @ modular (*writer).WriteRLEData
// @ for C30
func modular_WriteRLEData(w *writer, data []byte, run int, last byte) {
	vspec.Assert("lengths of 16 bits", len(data) <= 65535 && 0 <= run && run <= 65535)
	vspec.Assert("nothing is left open", coded.phase == atOp)
	start := coded.out
	vspec.Assert("the literal has the bytes", vspec.Forall(0, len(data), func(i int) bool { return want(start+i) == data[i] }))
	vspec.Assert("the run repeats the byte", vspec.Forall(0, run, func(i int) bool { return want(start+len(data)+i) == last }))
	coded.out += len(data) + run
}

// @ contract C30 (*writer).WriteRLE
func contract_WriteRLE(data []byte) {
	vspec.Requires(len(data) <= 65535)
	coded.phase, coded.out = atOp, 0
	vspec.FillPure(data, "want", 0)
	w := newSink()
	for _, k := range [...]int{0, 1} { // the bytes before number n+k are done
		k := k
		vspec.Candidate(func(n, run, written int) bool {
			return 0 <= run && run <= n+k && n+k <= len(data) && 0 <= written && written <= n+k-run && (n+k == 0 || run > 0)
		})
		vspec.Candidate(func(n, run int, last byte) bool {
			return vspec.Forall(n+k-run, n+k, func(i int) bool { return want(i) == last })
		})
	}
	vspec.Candidate(func(written int) bool { return coded.out == written })
	w.WriteRLE(data)
	vspec.EndCandidates()
	vspec.Ensures("nothing is left open", coded.phase == atOp)
	vspec.Ensures("decodes to the bytes", coded.out == len(data))
	vspec.Ensures("no error", w.Err == nil)
}

// source gives the bytes of a code, or fails; coded follows what it gives, and defines want.
type source struct{}

//@ assume the reader of a run-length code gives all the bytes it is asked for or reports an error; a code has less than 2^40 bytes

func (source) Read(p []byte) (int, error) {
	if vspec.Any[bool]("ends") {
		n := vspec.Any[int]("n")
		vspec.Assume(0 <= n && n < len(p))
		err := vspec.Any[error]("read error")
		vspec.Assume(err != nil)
		coded.broken = true
		return n, err
	}
	vspec.Assume(coded.pos < 1<<40 && coded.out < 1<<56)
	vspec.FillPure(p, "in", int64(coded.pos))
	coded.pos += len(p)
	coded.read += len(p)
	if vspec.Select(coded.phase == atLit, true, false) {
		vspec.Assert("reads no more than the literal", len(p) <= coded.count)
		start := coded.out
		vspec.Assume(vspec.Forall(0, len(p), func(i int) bool { return want(start+i) == p[i] }))
		coded.out += len(p)
		coded.count -= len(p)
		coded.phase = vspec.If(coded.count == 0, atOp, atLit)
		return len(p), nil
	}
	vspec.Assert("reads a byte or a length", len(p) <= 2)
	if len(p) > 0 {
		follow(p[0])
	}
	if len(p) > 1 {
		follow(p[1])
	}
	return len(p), nil
}

// follow takes the next byte of any code, and defines what it decodes to.
func follow(b byte) {
	ph, n, start := coded.phase, coded.count, coded.out
	if vspec.Select(ph == atValue, true, false) {
		vspec.Assume(vspec.Forall(start, start+n, func(i int) bool { return want(i) == b }))
		coded.out, coded.phase = start+n, atOp
		return
	}
	if vspec.Select(ph == atOp, true, false) {
		coded.count = vspec.If(b < 127, int(b)+1, 256-int(b))
		coded.phase = vspec.If(b < 127, atValue, vspec.If(b == 127, atRunHi, vspec.If(b == 128, atLitHi, atLit)))
		return
	}
	hi := vspec.Select(ph == atRunHi, true, ph == atLitHi)
	coded.count = vspec.Select(hi, int(b)*256, n+int(b))
	left := coded.count
	coded.phase = vspec.Select(ph == atRunHi, atRunLo, vspec.Select(ph == atLitHi, atLitLo,
		vspec.Select(ph == atRunLo, atValue, vspec.If(left == 0, atOp, atLit))))
}

// ahead is the number of bytes decoded and not yet given out.
func ahead(r *rle) int { return vspec.If(r.repeatByte, int(r.count), 0) }

// The reader notes what is left of the last run or literal.
func between(r *rle) bool {
	return vspec.If(r.count == 0, coded.phase == atOp, true)
}

func inRun(r *rle) bool {
	c := int(r.count)
	from := coded.out - c
	isOp := coded.phase == atOp
	run := vspec.Forall(from, coded.out, func(i int) bool { return want(i) == r.data })
	return vspec.If(c == 0, true, vspec.If(r.repeatByte, vspec.If(isOp, run, false), true))
}

func inLit(r *rle) bool {
	c := int(r.count)
	isLit, lit := coded.phase == atLit, coded.count == c
	return vspec.If(c == 0, true, vspec.If(r.repeatByte, true, vspec.If(isLit, lit, false)))
}

// @ contract C30 (*rle).Read
func contract_rle_Read(p []byte, dv rle) {
	r := &dv
	r.Reader = &byteio.StickyBigEndianReader{Reader: source{}}
	coded.phase, coded.count, coded.out, coded.pos = vspec.Any[int]("phase"), vspec.Any[int]("count"), vspec.Any[int]("out"), vspec.Any[int]("pos")
	coded.broken = false
	vspec.Requires(0 <= coded.out && coded.out < 1<<40 && 0 <= coded.pos && coded.pos < 1<<40)
	vspec.Requires(between(r))
	vspec.Requires(inRun(r))
	vspec.Requires(inLit(r))
	given := coded.out - ahead(r)
	vspec.Requires(0 <= given)
	vspec.Outer(func(q []byte, n int) bool { return 0 <= n && n <= len(p) && vspec.Eq(q, p[n:]) })
	vspec.Outer(func(n int) bool { return vspec.If(r.Reader.Err != nil, true, coded.out-ahead(r) == given+n) })
	vspec.Outer(func() bool { return vspec.If(r.Reader.Err != nil, true, between(r)) })
	vspec.Outer(func() bool { return vspec.If(r.Reader.Err != nil, true, inRun(r)) })
	vspec.Outer(func() bool { return vspec.If(r.Reader.Err != nil, true, inLit(r)) })
	vspec.Outer(func() bool { return (r.Reader.Err != nil) == coded.broken })
	done := func() int { return coded.out - ahead(r) - given } // the number of bytes given out
	vspec.Outer(func(n int) bool { return 0 <= n && n <= len(p) })
	vspec.Candidate(func() bool {
		return r.Reader.Err != nil || vspec.Forall(0, done(), func(i int) bool { return p[i] == want(given+i) })
	})
	for _, k := range [...]int{0, 1} {
		k := k
		vspec.Candidate(func(n int) bool {
			return vspec.Forall(done(), done()+n+k, func(i int) bool { return p[i] == r.data })
		})
	}
	n, err := r.Read(p)
	vspec.EndCandidates()
	vspec.Ensures("no more bytes than asked for", 0 <= n && n <= len(p))
	vspec.Ensures("an error only when the code ended or goes on", err == nil || coded.broken || r.count != 0)
	if err == nil {
		vspec.Ensures("the code did not end", !coded.broken)
		vspec.Ensures("as many bytes as asked for", n == len(p))
		vspec.Ensures("the bytes the code stands for", vspec.Forall(0, n, func(i int) bool { return p[i] == want(given+i) }))
		vspec.Ensures("goes on where it stopped", coded.phase == atOp && r.count == 0)
	}
}

// What readRLE writes to its buffer is compared with what it read.
// @ model (*vimagination.zapto.org/memio.Buffer).Write
// @ for C30
func model_Buffer_Write(b *memio.Buffer, p []byte) (int, error) {
	at := coded.copied
	vspec.Assert("copies the bytes of the code", vspec.Forall(0, len(p), func(i int) bool { return p[i] == vspec.Pure[byte]("in", int64(at+i)) }) || coded.broken)
	coded.copied += len(p)
	return len(p), nil
}

//@ assume io.CopyN copies as many bytes as it is told to or reports an error

// @ model io.CopyN
// @ for C30
func model_CopyN(dst io.Writer, src io.Reader, n int64) (int64, error) {
	b := make([]byte, n)
	if k, err := src.Read(b); err != nil {
		return int64(k), err
	}
	dst.Write(b)
	return n, nil
}

// @ contract C30 (*decoder).readRLE
func contract_readRLE(count int) {
	vspec.Requires(0 <= count && count < 1<<31)
	d := new(decoder)
	d.reader.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: source{}}
	coded.phase, coded.count, coded.out, coded.pos = atOp, 0, vspec.Any[int]("out"), vspec.Any[int]("pos")
	coded.broken = false
	vspec.Requires(0 <= coded.out && coded.out < 1<<40 && 0 <= coded.pos && coded.pos < 1<<40)
	coded.copied = coded.pos
	start := coded.out
	vspec.Outer(func() bool { return (d.Err != nil) == coded.broken })
	vspec.Outer(func(left int) bool {
		return coded.broken || coded.phase == atOp && coded.out == start+count-left && coded.copied == coded.pos
	})
	vspec.Outer(func(left int) bool { return -65535 <= left && left <= count })
	buf := new(memio.Buffer)
	err := d.readRLE(count, buf)
	vspec.EndCandidates()
	if !coded.broken {
		vspec.Ensures("an error when the code stands for more bytes", (err != nil) == (coded.out != start+count))
		vspec.Ensures("the code is copied", coded.phase == atOp && coded.copied == coded.pos)
		vspec.Ensures("at least as many bytes as wanted", coded.out >= start+count)
	} else {
		vspec.Ensures("the error is kept", d.Err != nil)
	}
}
