package limage_test

import (
	"fmt"
	"image"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

// one shows the same colour everywhere.
type one struct {
	c color.Color
	b image.Rectangle
}

func (o one) At(x, y int) color.Color { return o.c }
func (o one) Bounds() image.Rectangle { return o.b }
func (o one) ColorModel() color.Model { return color.NRGBA64Model }

func TestReplay_C04(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		b := r.Rect(4)
		b.Max = b.Max.Add(image.Pt(1, 1))
		b = b.Sub(b.Min)
		in := leaf(r, b)
		if r.Bool() {
			in = one{r.Color(), b}
		}
		off := image.Pt(r.Intn(21)-10, r.Intn(21)-10)
		l := limage.Layer{LayerBounds: b.Add(off), Image: in, Transparency: r.U8()}
		x, y := near(r, b)
		what := fmt.Sprintf("Layer{LayerBounds: %v, Transparency: %d, Image: %s}.At(%d,%d), content %v", l.LayerBounds, l.Transparency, describe(in), x+off.X, y+off.Y, in.At(x, y))
		r.About(func() string { return what })
		want := in.At(x, y)
		got := l.At(x+off.X, y+off.Y)
		judge(r, got, want, 255-l.Transparency)
		r.Check(l.Bounds() == l.LayerBounds, "bounds %v", l.Bounds())

		mb := r.Rect(5)
		if r.Bool() {
			mb = b
		}
		m := image.NewGray(mb)
		for i := range m.Pix {
			m.Pix[i] = r.U8()
		}
		o := uint8(0)
		if image.Pt(x, y).In(mb) {
			o = m.Pix[(y-mb.Min.Y)*m.Stride+x-mb.Min.X]
		}
		what = fmt.Sprintf("MaskedImage{%s, mask %v}.At(%d,%d), content %v, mask value %d", describe(in), mb, x, y, want, o)
		judge(r, limage.MaskedImage{Image: in, Mask: m}.At(x, y), want, o)
	})
}

func judge(r *vreplay.R, got, c color.Color, o uint8) {
	switch o {
	case 255:
		r.Check(sameColor(got, c), "got %v, want the colour itself %v", got, c)
	case 0:
		r.Check(rgbaOf(got) == "0,0,0,0", "got %v, want transparent", got)
	default:
		r.Check(straight(got) == fade(c, o), "got %v, want %v", got, fade(c, o))
	}
}
