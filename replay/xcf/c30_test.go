package xcf

import (
	"bytes"
	"fmt"
	"testing"

	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/memio"
)

// expand decodes run-length coded bytes, as the format says.
func expand(code []byte) (out []byte, ok bool) {
	for len(code) > 0 {
		c := code[0]
		code = code[1:]
		n, same := 0, c <= 127
		switch {
		case c < 127:
			n = int(c) + 1
		case c > 128:
			n = 256 - int(c)
		default:
			if len(code) < 2 {
				return out, false
			}
			n = int(code[0])<<8 | int(code[1])
			code = code[2:]
		}
		if same {
			if len(code) == 0 {
				return out, false
			}
			out = append(out, bytes.Repeat(code[:1], n)...)
			code = code[1:]
		} else {
			if len(code) < n {
				return append(out, code...), false
			}
			out = append(out, code[:n]...)
			code = code[n:]
		}
	}
	return out, true
}

// channel is a run of bytes with repeats of all sorts of lengths.
func channel(r *vreplay.R) []byte {
	lens := []int{1, 1, 2, 2, 3, 3, 4, 4, 5, 7, 63, 126, 127, 128, 129, 130, 255, 256, 257, 300, 1000}
	var b []byte
	for n := r.Intn(12); n > 0; n-- {
		l := lens[r.Intn(len(lens))]
		if r.Intn(40) == 0 {
			l = []int{32767, 32768, 40000, 60000}[r.Intn(4)]
		}
		if r.Intn(2) == 0 {
			b = append(b, bytes.Repeat([]byte{byte(r.Intn(4))}, l)...)
		} else {
			for ; l > 0; l-- {
				b = append(b, byte(r.Intn(256)>>uint(r.Intn(8))))
			}
		}
	}
	if len(b) > 65535 {
		b = b[:65535]
	}
	if r.Intn(60) == 0 {
		b = bytes.Repeat([]byte{7}, 65535)
	}
	return b
}

func TestReplay_C30(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		data := channel(r)
		r.About(func() string { return fmt.Sprintf("%d bytes % x", len(data), data) })
		var f file
		w := newWriter(&f)
		w.WriteRLE(data)
		r.Check(w.Err == nil, "error: %v", w.Err)
		got, ok := expand(f)
		r.Check(ok && bytes.Equal(got, data), "code % x", []byte(f))

		code := []byte(f)
		if r.Intn(2) == 0 {
			code = nil
			for n := 1 + r.Intn(6); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					code = append(code, byte(r.Intn(127)), byte(r.Intn(256)))
				case 1:
					code = append(code, 127, byte(r.Intn(3)), byte(r.Intn(256)), byte(r.Intn(256)))
				case 2:
					k := r.Intn(600)
					code = append(code, 128, byte(k>>8), byte(k))
					code = append(code, channelOf(r, k)...)
				default:
					k := 1 + r.Intn(127)
					code = append(code, byte(256-k))
					code = append(code, channelOf(r, k)...)
				}
			}
		}
		want, _ := expand(code)
		cut := 0
		if r.Intn(3) == 0 && len(code) > 0 {
			cut = 1 + r.Intn(len(code))
		}
		r.About(func() string { return fmt.Sprintf("code % x without its last %d bytes", code, cut) })
		short := file(code[:len(code)-cut])
		d := rle{Reader: newReader(short).StickyBigEndianReader}
		p := make([]byte, len(want))
		n, err := d.Read(p)
		if cut == 0 {
			r.Check(err == nil && n == len(want) && bytes.Equal(p, want), "read %d of %d, %v", n, len(want), err)
		} else {
			if full, _ := expand(short); len(full) < len(want) {
				r.Check(err != nil, "no error at the end")
			}
		}
		if cut == 0 {
			// a piece that ends inside of a run
			k := r.Intn(len(want) + 1)
			d = rle{Reader: newReader(short).StickyBigEndianReader}
			p = make([]byte, len(want))
			d.Read(p[:k])
			_, err = d.Read(p[k:])
			r.Check(err == nil && bytes.Equal(p, want), "read after %d bytes: %v", k, err)
		}

		dec := decoder{reader: newReader(file(code))}
		var buf memio.Buffer
		err = dec.readRLE(len(want), &buf)
		r.Check(err == nil && dec.Err == nil, "readRLE: %v %v", err, dec.Err)
		got, ok = expand(buf)
		r.Check(ok && bytes.Equal(got, want), "readRLE copied % x", []byte(buf))
		if len(want) > 0 && !(len(code) > 1 && code[0] == 127) {
			dec = decoder{reader: newReader(file(code))}
			buf = nil
			err = dec.readRLE(1, &buf)
			if k := code[0]; k != 0 && k != 255 && k != 128 {
				r.Check(err == ErrInvalidRLE, "readRLE of too few: %v", err)
			}
		}
	})
}

func channelOf(r *vreplay.R, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}
