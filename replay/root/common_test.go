package limage_test

import (
	"fmt"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/lcolor"
)

// px is one of the pixel buffers seen through one interface.
type px struct {
	image.Image
	kind string
}

func (p px) set(x, y int, v [3]uint8) {
	switch m := p.Image.(type) {
	case *limage.RGB:
		m.SetRGB(x, y, lcolor.RGB{R: v[0], G: v[1], B: v[2]})
	case *limage.GrayAlpha:
		m.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: v[0], A: v[1]})
	case *limage.PalettedAlpha:
		m.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: v[0], A: v[1]})
	}
}

func (p px) get(x, y int) [3]uint8 {
	switch m := p.Image.(type) {
	case *limage.RGB:
		c := m.RGBAt(x, y)
		return [3]uint8{c.R, c.G, c.B}
	case *limage.GrayAlpha:
		c := m.GrayAlphaAt(x, y)
		return [3]uint8{c.Y, c.A}
	case *limage.PalettedAlpha:
		c := m.IndexAlphaAt(x, y)
		return [3]uint8{c.I, c.A}
	}
	panic("kind")
}

// raw is the element of Pix that belongs to a point inside the bounds.
func (p px) raw(x, y int) [3]uint8 {
	switch m := p.Image.(type) {
	case *limage.RGB:
		c := m.Pix[(y-m.Rect.Min.Y)*m.Stride+x-m.Rect.Min.X]
		return [3]uint8{c.R, c.G, c.B}
	case *limage.GrayAlpha:
		c := m.Pix[(y-m.Rect.Min.Y)*m.Stride+x-m.Rect.Min.X]
		return [3]uint8{c.Y, c.A}
	case *limage.PalettedAlpha:
		c := m.Pix[(y-m.Rect.Min.Y)*m.Stride+x-m.Rect.Min.X]
		return [3]uint8{c.I, c.A}
	}
	panic("kind")
}

func (p px) norm(v [3]uint8) [3]uint8 {
	if p.kind != "RGB" {
		v[2] = 0
	}
	return v
}

func (p px) sub(r image.Rectangle) px {
	return px{p.Image.(interface {
		SubImage(image.Rectangle) image.Image
	}).SubImage(r), p.kind}
}

func palette() lcolor.AlphaPalette {
	var p lcolor.AlphaPalette
	for i := 0; i < 256; i++ {
		p = append(p, color.RGBA{uint8(i), uint8(255 - i), uint8(i * 7), 255})
	}
	return p
}

var pal256 = palette()

func newPx(r *vreplay.R, b image.Rectangle) px {
	if r.Intn(4) == 0 { // rows longer than the image is wide
		st := b.Dx() + r.Intn(3)
		n := st*b.Dy() + r.Intn(2)
		switch r.Intn(3) {
		case 0:
			return px{&limage.RGB{Pix: make([]lcolor.RGB, n), Stride: st, Rect: b}, "RGB"}
		case 1:
			return px{&limage.GrayAlpha{Pix: make([]lcolor.GrayAlpha, n), Stride: st, Rect: b}, "GrayAlpha"}
		}
		return px{&limage.PalettedAlpha{Pix: make([]lcolor.IndexedAlpha, n), Stride: st, Rect: b, Palette: pal256}, "PalettedAlpha"}
	}
	switch r.Intn(3) {
	case 0:
		return px{limage.NewRGB(b), "RGB"}
	case 1:
		return px{limage.NewGrayAlpha(b), "GrayAlpha"}
	}
	return px{limage.NewPalettedAlpha(b, pal256), "PalettedAlpha"}
}

func (p px) fill(r *vreplay.R) {
	b := p.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			p.set(x, y, p.norm([3]uint8{r.U8(), r.U8(), r.U8()}))
		}
	}
}

func near(r *vreplay.R, b image.Rectangle) (int, int) {
	return b.Min.X - 2 + r.Intn(b.Dx()+4), b.Min.Y - 2 + r.Intn(b.Dy()+4)
}

func snap(p px, b image.Rectangle) map[image.Point][3]uint8 {
	m := map[image.Point][3]uint8{}
	b = b.Inset(-2)
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			m[image.Pt(x, y)] = p.get(x, y)
		}
	}
	return m
}

func rgbaOf(c color.Color) string {
	if c == nil {
		return "nil"
	}
	r, g, b, a := c.RGBA()
	return fmt.Sprintf("%x,%x,%x,%x", r, g, b, a)
}
