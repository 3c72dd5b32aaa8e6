package lcolor_test

import (
	"fmt"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/lcolor"
)

type straightener interface {
	color.Color
	ToNRGBA() color.NRGBA64
}

func wide(n uint8) uint16 { return uint16(n) * 257 }

func TestReplay_C11(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		rgb := lcolor.RGB{R: r.U8(), G: r.U8(), B: r.U8()}
		ga := lcolor.GrayAlpha{Y: r.U8(), A: r.U8()}
		hv := lcolor.HSVA{H: r.U16(), S: r.U16(), V: r.U16(), A: r.U16()}
		hl := lcolor.HSLA{H: r.U16(), S: r.U16(), L: r.U16(), A: r.U16()}
		r.About(func() string { return fmt.Sprintf("%+v %+v %+v %+v", rgb, ga, hv, hl) })
		y := wide(ga.Y)
		r.Check(rgb.ToNRGBA() == color.NRGBA64{wide(rgb.R), wide(rgb.G), wide(rgb.B), one}, "RGB as %v", rgb.ToNRGBA())
		r.Check(ga.ToNRGBA() == color.NRGBA64{y, y, y, wide(ga.A)}, "GrayAlpha as %v", ga.ToNRGBA())
		for _, c := range []straightener{rgb, ga, hv, hl} {
			n := c.ToNRGBA()
			rr, gg, bb, aa := c.RGBA()
			r.Check(rr <= aa && gg <= aa && bb <= aa && aa <= one, "%T: RGBA %d %d %d %d", c, rr, gg, bb, aa)
			r2, g2, b2, a2 := n.RGBA()
			r.Check(rr == r2 && gg == g2 && bb == b2 && aa == a2, "%T: RGBA %d %d %d %d of %v", c, rr, gg, bb, aa, n)
			r.Check(internal.ColourToNRGBA(c) == n, "%T: straight form %v, want %v", c, internal.ColourToNRGBA(c), n)
		}
		r.Check(lcolor.RGBModel.Convert(rgb) == color.Color(rgb), "RGB model: %v", lcolor.RGBModel.Convert(rgb))
		op := lcolor.GrayAlpha{Y: ga.Y, A: 255}
		r.Check(lcolor.GrayAlphaModel.Convert(op) == color.Color(op), "GrayAlpha model: %v", lcolor.GrayAlphaModel.Convert(op))

		c := r.Color()
		r.About(func() string { return fmt.Sprintf("%T%v", c, c) })
		rr, gg, bb, aa := c.RGBA()
		g := lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)
		r.Check(uint32(g.A) == aa>>8, "GrayAlpha model: %v", g)
		n := lcolor.RGBModel.Convert(c).(lcolor.RGB)
		r.Check(uint32(n.R) == rr>>8 && uint32(n.G) == gg>>8 && uint32(n.B) == bb>>8, "RGB model: %v", n)
		s := internal.ColourToNRGBA(c)
		switch k := c.(type) {
		case color.NRGBA64:
			r.Check(s == k, "straight form %v", s)
		case color.NRGBA:
			r.Check(s == color.NRGBA64{wide(k.R), wide(k.G), wide(k.B), wide(k.A)}, "straight form %v", s)
		default:
			w := color.NRGBA64Model.Convert(c)
			r.Check(w == color.Color(s), "straight form %v, want %v", s, w)
		}
		var p color.Palette
		for i := r.Intn(6); i >= 0; i-- {
			p = append(p, color.NRGBA64{r.U16(), r.U16(), r.U16(), one})
		}
		r.About(func() string { return fmt.Sprintf("palette %v, colour %T%v", p, c, c) })
		w := p.Convert(c).(color.NRGBA64)
		w.A = uint16(aa)
		got := internal.ColourToNRGBA(lcolor.AlphaPalette(p).Convert(c))
		r.Check(got == w, "palette: %v, want %v", got, w)
		r.Check(lcolor.AlphaPalette(p).Index(c) == p.Index(c), "palette index %d", lcolor.AlphaPalette(p).Index(c))
	})
}
