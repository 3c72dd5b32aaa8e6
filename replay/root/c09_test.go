package limage_test

import (
	"fmt"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/lcolor"
)

func TestReplay_C09(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		b, t := r.NRGBA64(), r.NRGBA64()
		m := []limage.Composite{limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue, limage.CompositeLuminosity}[r.Intn(5)]
		r.About(func() string { return fmt.Sprintf("mode %v, bottom %v, top %v", m, b, t) })
		g := straight(m.Composite(b, t))
		r.Check(g.A == b.A, "alpha %d, want that of the bottom", g.A)
		if b.A == 0 {
			return
		}
		hb, ht, lb, lt := lcolor.RGBToHSV(b), lcolor.RGBToHSV(t), lcolor.RGBToHSL(b), lcolor.RGBToHSL(t)
		var c color.NRGBA64
		switch m {
		case limage.CompositeHue:
			if t.R == t.G && t.G == t.B {
				r.Check(g == b, "got %v for a gray top, want the bottom", g)
				return
			}
			hb.H = ht.H
			c = hb.ToNRGBA()
		case limage.CompositeSaturation:
			hb.S = ht.S
			c = hb.ToNRGBA()
		case limage.CompositeValue:
			hb.V = ht.V
			c = hb.ToNRGBA()
			r.Check(b.A != one16 || t.A != one16 || top3(g) == top3(t), "largest channel of %v is not that of the top", g)
		case limage.CompositeColor:
			lt.L = lb.L
			c = lt.ToNRGBA()
		case limage.CompositeLuminosity:
			lb.L = lt.L
			c = lb.ToNRGBA()
		}
		x := func(b16, c16 uint16) uint16 { return mixed(int(b.A), int(b16), low(b.A, t.A), int(c16)) }
		want := color.NRGBA64{x(b.R, c.R), x(b.G, c.G), x(b.B, c.B), b.A}
		r.Check(g == want, "got %v, want %v", g, want)
	})
}

func top3(c color.NRGBA64) uint16 {
	m := c.R
	if c.G > m {
		m = c.G
	}
	if c.B > m {
		m = c.B
	}
	return m
}
