HEAD = '''package xcf

import (
	"bytes"
	"io"
	"testing"
)

type mem []byte

func (f *mem) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p); n > len(*f) {
		*f = append(*f, make([]byte, n-len(*f))...)
	}
	copy((*f)[off:], p)
	return len(p), nil
}

func (f mem) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(f)) {
		return 0, io.EOF
	}
	n := copy(p, f[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

var _ = bytes.Equal

'''

ROUND = HEAD + '''func TestDemo(t *testing.T) {
	for _, data := range %s {
		var f mem
		w := newWriter(&f)
		w.WriteRLE(data)
		got := make([]byte, len(data))
		d := rle{Reader: newReader(f).StickyBigEndianReader}
		if _, err := d.Read(got); err != nil || !bytes.Equal(got, data) {
			t.Fatalf("%%d bytes do not come back: %%v", len(data), err)
		}
	}
}
'''

PROPS = HEAD.replace('''	"io"
''', '''	"image"
	"io"
''').replace('''	"testing"
''', '''	"testing"

	"vimagination.zapto.org/limage"
''') + '''func TestDemo(t *testing.T) {
	var f mem
	e := encoder{writer: newWriter(&f)}
	im := limage.Layer{LayerBounds: image.Rect(0, 0, 5, 7), Transparency: %s, Mode: limage.Composite%s}
	groups := []uint32{%s}
	writeProperties(&e, im, 3, -4, groups, nil, nil)
	e.WriteUint32(0)
	d := decoder{reader: newReader(f)}
	d.ReadUint32()
	d.ReadUint32()
	d.ReadUint32()
	d.ReadString()
	var l layer
	l.readProperties(&d)
	if d.Err != nil {
		t.Fatal(d.Err)
	}
	if l.Transparency != im.Transparency || l.Mode != im.Mode || l.LayerBounds.Min != image.Pt(3, -4) {
		t.Fatalf("%%+v", l)
	}
	if len(groups) > 1 {
		if len(l.itemPath) != len(groups) {
			t.Fatal(l.itemPath)
		}
		for n, g := range groups {
			if l.itemPath[n] != rune(g) {
				t.Fatal(l.itemPath)
			}
		}
	}
}
'''

TILE = HEAD.replace('''	"io"
''', '''	"image"
	"io"
''') + '''func TestDemo(t *testing.T) {
	const w, h = %s
	at := func(x, y int) byte { return byte(x*7 + y*13 + x/64*31) }
	c := CompressedGray{compressedImage{width: w, tile: -1}, image.Rect(0, 0, w, h)}
	for y := 0; y < h; y += 64 {
		for x := 0; x < w; x += 64 {
			var data []byte
			for j := y; j < y+64 && j < h; j++ {
				for i := x; i < x+64 && i < w; i++ {
					data = append(data, at(i, j))
				}
			}
			c.tiles = append(c.tiles, [][]byte{append([]byte{128, byte(len(data) >> 8), byte(len(data))}, data...)})
		}
	}
	for _, p := range []image.Point{%s} {
		if got := c.GrayAt(p.X, p.Y).Y; got != at(p.X, p.Y) {
			t.Fatalf("%%v: %%d, not %%d", p, got, at(p.X, p.Y))
		}
	}
}
'''

COLOUR = HEAD.replace('''	"io"
''', '''	"image/color"
	"io"
''') + '''func TestDemo(t *testing.T) {
	e := new(encoder)
%s}
'''

SEEDS = [
 dict(id='c30-run-127', property='C30', pkg='xcf',
  edits=[('xcf/rle.go', '''	if run > 0 {
		if run < 128 {''', '''	if run > 0 {
		if run <= 128 {''')],
  demo=ROUND % '[][]byte{bytes.Repeat([]byte{9}, 128)}',
  needs='a run of exactly 128 equal bytes', breaks='the run is written with the code that announces a long run, so what follows is taken for its length'),
 dict(id='c30-read-carry', property='C30', pkg='xcf',
  edits=[('xcf/rle.go', '''		r.count -= uint16(c)
		p = p[c:]''', '''		r.count -= uint16(c)
		r.count &= 0x7fff
		p = p[c:]''')],
  demo=HEAD + '''func TestDemo(t *testing.T) {
	data := make(mem, 40003)
	data[0], data[1], data[2] = 128, 40000>>8, 40000&255
	for i := range data[3:] {
		data[i+3] = byte(i * 7)
	}
	d := rle{Reader: newReader(data).StickyBigEndianReader}
	got := make([]byte, 40000)
	d.Read(got[:1000])
	if _, err := d.Read(got[1000:]); err != nil || !bytes.Equal(got, data[3:]) {
		t.Fatal("the rest of a long literal is lost", err)
	}
}
''',
  needs='a run of more than 32768 bytes that is read in pieces', breaks='what is left of a long run is cut down after the first piece'),
 dict(id='c30-literal-len', property='C30', pkg='xcf',
  edits=[('xcf/rle.go', '''			if len(data) < 128 {
				w.WriteUint8(255 - uint8(len(data)-1))''', '''			if len(data) <= 128 {
				w.WriteUint8(255 - uint8(len(data)-1))''')],
  demo=HEAD + '''func TestDemo(t *testing.T) {
	data := make([]byte, 129)
	for i := range data[:128] {
		data[i] = byte(i * 5)
	}
	data[128] = data[127]
	for _, n := range []int{127, 128, 129} {
		var f mem
		w := newWriter(&f)
		w.WriteRLE(data[:n])
		got := make([]byte, n)
		d := rle{Reader: newReader(f).StickyBigEndianReader}
		if _, err := d.Read(got); err != nil || !bytes.Equal(got, data[:n]) {
			t.Fatalf("%d bytes do not come back: %v", n, err)
		}
	}
}
''',
  needs='a literal of exactly 128 bytes', breaks='its length is coded as 128, which announces a long literal'),
 dict(id='c31-path-len', property='C31', pkg='xcf',
  edits=[('xcf/layer_encode.go', '''		e.WriteUint32(4 * uint32(len(groups)))
''', '''		e.WriteUint32(uint32(uint8(4 * len(groups))))
''')],
  demo=PROPS % ('0', 'Normal', ', '.join(str(i) for i in range(70))),
  needs='a layer 64 or more groups deep', breaks='the length of the item path wraps round'),
 dict(id='c31-mode-merge', property='C31', pkg='xcf',
  edits=[('xcf/layer_decode.go', '''	case 59:
''', '''	case 59, 60:
'''), ('xcf/layer_decode.go', '''	case 60:
''', '''	case 62:
''')],
  demo=PROPS % ('0', 'Split', '0'),
  needs='a layer with the Split mode', breaks='Split is read back as Merge'),
 dict(id='c31-opacity', property='C31', pkg='xcf',
  edits=[('xcf/layer_encode.go', '''	e.WriteUint32(255 - uint32(im.Transparency))
''', '''	e.WriteUint32(uint32(255-im.Transparency) &^ (uint32(im.Transparency) >> 7 & 1))
''')],
  demo=PROPS % ('130', 'Normal', '0'),
  needs='a layer more than half transparent, with an even transparency', breaks='its opacity is one less'),
 dict(id='c32-last-column', property='C32', pkg='xcf',
  edits=[('xcf/compressed.go', '''	if x < c.width & ^63 {
''', '''	if x/64 < (c.width-1)/64 {
''')],
  demo=TILE % ('128, 10', '{0, 0}, {70, 0}, {127, 0}, {3, 9}, {70, 5}'),
  needs='a width that is a multiple of 64, and a pixel below the first row in the last column of tiles', breaks='every row of the tile reads as its first'),
 dict(id='c32-tiles-a-row', property='C32', pkg='xcf',
  edits=[('xcf/compressed.go', '''((c.width+63)/64)''', '''(c.width/64+1)''')],
  demo=TILE % ('64, 200', '{0, 0}, {63, 63}, {1, 64}, {60, 130}'),
  needs='a width that is a multiple of 64 and a height over 64', breaks='the pixel is read from the wrong tile'),
 dict(id='c32-tile-byte', property='C32', pkg='xcf',
  edits=[('xcf/compressed.go', '''tile != c.tile {''', '''c.tile < 0 || uint8(tile) != uint8(c.tile) {''')],
  demo=TILE % ('64*20, 64*20', '{0, 0}, {64*16 + 5, 64*12 + 3}, {1, 2}'),
  needs='a pixel that is read right after one that is 256 tiles before it', breaks='the tile that was decoded last is taken for the right one'),
 dict(id='c35-premultiplied', property='C35', pkg='xcf',
  edits=[('xcf/image_encode.go', '''	rgba := color.NRGBAModel.Convert(c).(color.NRGBA)
	e.colourBuf[0] = rgba.R
''', '''	rgba := color.RGBAModel.Convert(c).(color.RGBA)
	e.colourBuf[0] = rgba.R
''')],
  demo=COLOUR % '''	e.rgbAlphaToBuf(color.NRGBA{200, 100, 50, 128})
	if e.colourBuf != [4]byte{200, 100, 50, 128} {
		t.Fatal(e.colourBuf)
	}
''',
  needs='a translucent pixel', breaks='its colour is written multiplied by its alpha'),
 dict(id='c35-mask-red', property='C35', pkg='xcf',
  edits=[('xcf/image_encode.go', '''	e.colourBuf[0] = color.GrayModel.Convert(c).(color.Gray).Y
''', '''	r, _, _, _ := c.RGBA()
	e.colourBuf[0] = uint8(r >> 8)
''')],
  demo=COLOUR % '''	e.grayToBuf(color.RGBA{200, 100, 50, 255})
	if want := color.GrayModel.Convert(color.RGBA{200, 100, 50, 255}).(color.Gray).Y; e.colourBuf[0] != want {
		t.Fatal(e.colourBuf, want)
	}
''',
  needs='a mask that is not gray', breaks='its red is written for its brightness'),
 dict(id='c35-channels', property='C35', pkg='xcf',
  edits=[('xcf/image_decode.go', '''	case 3, 5:
		if bpp != 2 {
''', '''	case 3, 5:
		if bpp < 2 {
''')],
  demo=COLOUR % '''	_ = e
	for _, n := range []uint32{1, 3, 4} {
		d := decoder{reader: newReader(mem{})}
		if d.validBPP(3, n) || d.Err == nil {
			t.Fatal(n, "channels for gray and alpha")
		}
	}
	if d := (&decoder{reader: newReader(mem{})}); !d.validBPP(5, 2) || d.Err != nil {
		t.Fatal(d.Err)
	}
	var _ color.Color
''',
  needs='a file with three channels for a gray image with alpha', breaks='it is not refused'),
]
