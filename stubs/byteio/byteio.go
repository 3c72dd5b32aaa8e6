// Package byteio stands in for vimagination.zapto.org/byteio, which is not in
// the sandbox: the parts of it that limage uses, as its documentation says.
package byteio

import (
	"io"
	"math"
)

// StickyBigEndianReader reads big endian numbers, and stops at the first error.
type StickyBigEndianReader struct {
	io.Reader
	buffer [8]byte
	Err    error
	Count  int64
}

// Read reads bytes.
func (e *StickyBigEndianReader) Read(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}

// ReadUint8 reads a byte.
func (e *StickyBigEndianReader) ReadUint8() uint8 {
	if e.Err != nil {
		return 0
	}

	var n int

	n, e.Err = io.ReadFull(e.Reader, e.buffer[:1])
	e.Count += int64(n)

	if e.Err != nil {
		return 0
	}

	return e.buffer[0]
}

// ReadUint16 reads a 16 bit number.
func (e *StickyBigEndianReader) ReadUint16() uint16 {
	if e.Err != nil {
		return 0
	}

	var n int

	n, e.Err = io.ReadFull(e.Reader, e.buffer[:2])
	e.Count += int64(n)

	if e.Err != nil {
		return 0
	}

	return uint16(e.buffer[0])<<8 | uint16(e.buffer[1])
}

// ReadUint32 reads a 32 bit number.
func (e *StickyBigEndianReader) ReadUint32() uint32 {
	if e.Err != nil {
		return 0
	}

	var n int

	n, e.Err = io.ReadFull(e.Reader, e.buffer[:4])
	e.Count += int64(n)

	if e.Err != nil {
		return 0
	}

	return uint32(e.buffer[0])<<24 | uint32(e.buffer[1])<<16 | uint32(e.buffer[2])<<8 | uint32(e.buffer[3])
}

// ReadInt32 reads a signed 32 bit number.
func (e *StickyBigEndianReader) ReadInt32() int32 {
	return int32(e.ReadUint32())
}

// ReadUint64 reads a 64 bit number.
func (e *StickyBigEndianReader) ReadUint64() uint64 {
	if e.Err != nil {
		return 0
	}

	var n int

	n, e.Err = io.ReadFull(e.Reader, e.buffer[:8])
	e.Count += int64(n)

	if e.Err != nil {
		return 0
	}

	return uint64(e.buffer[0])<<56 | uint64(e.buffer[1])<<48 | uint64(e.buffer[2])<<40 | uint64(e.buffer[3])<<32 | uint64(e.buffer[4])<<24 | uint64(e.buffer[5])<<16 | uint64(e.buffer[6])<<8 | uint64(e.buffer[7])
}

// ReadFloat32 reads a 32 bit float.
func (e *StickyBigEndianReader) ReadFloat32() float32 {
	return math.Float32frombits(e.ReadUint32())
}

// StickyBigEndianWriter writes big endian numbers, and stops at the first error.
type StickyBigEndianWriter struct {
	io.Writer
	buffer [8]byte
	Err    error
	Count  int64
}

// Write writes bytes.
func (e *StickyBigEndianWriter) Write(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}

// WriteUint8 writes a byte.
func (e *StickyBigEndianWriter) WriteUint8(i uint8) {
	if e.Err != nil {
		return
	}

	e.buffer[0] = i

	var n int

	n, e.Err = e.Writer.Write(e.buffer[:1])
	e.Count += int64(n)
}

// WriteUint16 writes a 16 bit number.
func (e *StickyBigEndianWriter) WriteUint16(i uint16) {
	if e.Err != nil {
		return
	}

	e.buffer[0] = byte(i >> 8)
	e.buffer[1] = byte(i)

	var n int

	n, e.Err = e.Writer.Write(e.buffer[:2])
	e.Count += int64(n)
}

// WriteUint32 writes a 32 bit number.
func (e *StickyBigEndianWriter) WriteUint32(i uint32) {
	if e.Err != nil {
		return
	}

	e.buffer[0] = byte(i >> 24)
	e.buffer[1] = byte(i >> 16)
	e.buffer[2] = byte(i >> 8)
	e.buffer[3] = byte(i)

	var n int

	n, e.Err = e.Writer.Write(e.buffer[:4])
	e.Count += int64(n)
}

// WriteInt32 writes a signed 32 bit number.
func (e *StickyBigEndianWriter) WriteInt32(i int32) {
	e.WriteUint32(uint32(i))
}

// BigEndianWriter writes big endian numbers.
type BigEndianWriter struct {
	io.Writer
	buffer [8]byte
}

// WriteUint8 writes a byte.
func (e *BigEndianWriter) WriteUint8(i uint8) (int, error) {
	e.buffer[0] = i

	return e.Writer.Write(e.buffer[:1])
}

// WriteUint16 writes a 16 bit number.
func (e *BigEndianWriter) WriteUint16(i uint16) (int, error) {
	e.buffer[0] = byte(i >> 8)
	e.buffer[1] = byte(i)

	return e.Writer.Write(e.buffer[:2])
}
