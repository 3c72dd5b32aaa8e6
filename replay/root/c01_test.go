package limage_test

import (
	"fmt"
	"image"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/lcolor"
)

func TestReplay_C01(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		b := r.Rect(5)
		p := newPx(r, b)
		log := fmt.Sprintf("New%s(%v)", p.kind, b)
		r.About(func() string { return log })
		r.Check(p.Bounds() == b, "a new image has bounds %v", p.Bounds())
		for q, v := range snap(p, b) {
			r.Check(v == [3]uint8{}, "a new image has pixel %v at %v", v, q)
		}
		base := p
		if r.Intn(3) == 0 {
			s := r.Rect(5)
			p.fill(r)
			p = p.sub(s)
			log += fmt.Sprintf(".SubImage(%v)", s)
			b = p.Bounds()
		}
		_ = base
		for i := 0; i < 6; i++ {
			x, y := near(r, b)
			was := snap(p, b)
			in := image.Pt(x, y).In(b)
			var want [3]uint8
			exact := true
			if r.Intn(3) > 0 {
				want = p.norm([3]uint8{r.U8(), r.U8(), r.U8()})
				log += fmt.Sprintf(" store %v at (%d,%d)", want, x, y)
				p.set(x, y, want)
			} else {
				c := r.Color()
				cr, cg, cb, ca := c.RGBA()
				log += fmt.Sprintf(" Set(%d,%d,%#v)", x, y, c)
				switch m := p.Image.(type) {
				case *limage.RGB:
					want = [3]uint8{uint8(cr >> 8), uint8(cg >> 8), uint8(cb >> 8)}
					m.Set(x, y, c)
				case *limage.GrayAlpha:
					want = [3]uint8{color.GrayModel.Convert(c).(color.Gray).Y, uint8(ca >> 8)}
					m.Set(x, y, c)
				case *limage.PalettedAlpha:
					if m.Palette == nil {
						continue
					}
					want = [3]uint8{uint8(color.Palette(m.Palette).Index(c)), uint8(ca >> 8)}
					m.Set(x, y, c)
				}
			}
			_ = exact
			if in {
				r.Check(p.raw(x, y) == want, "the element of Pix for (%d,%d) is %v after storing %v", x, y, p.raw(x, y), want)
			}
			r.Check(p.Bounds() == b, "the bounds changed to %v", p.Bounds())
			for q, v := range snap(p, b) {
				if in && q == image.Pt(x, y) {
					r.Check(v == want, "pixel %v reads back as %v", q, v)
				} else {
					r.Check(v == was[q], "pixel %v changed from %v to %v", q, was[q], v)
				}
				if !q.In(b) {
					r.Check(v == [3]uint8{}, "pixel %v outside reads as %v", q, v)
				}
				switch m := p.Image.(type) {
				case *limage.RGB:
					r.Check(m.At(q.X, q.Y) == color.Color(lcolor.RGB{R: v[0], G: v[1], B: v[2]}), "At%v is %v", q, m.At(q.X, q.Y))
				case *limage.GrayAlpha:
					r.Check(m.At(q.X, q.Y) == color.Color(lcolor.GrayAlpha{Y: v[0], A: v[1]}), "At%v is %v", q, m.At(q.X, q.Y))
				case *limage.PalettedAlpha:
					if m.Palette != nil {
						c := pal256[v[0]].(color.RGBA)
						r.Check(m.At(q.X, q.Y) == color.Color(color.NRGBA{c.R, c.G, c.B, v[1]}), "At%v is %v", q, m.At(q.X, q.Y))
					}
				}
			}
		}
		c := r.Color()
		cr, cg, cb, ca := c.RGBA()
		switch m := p.Image.(type) {
		case *limage.RGB:
			r.Check(m.ColorModel().Convert(c) == color.Color(lcolor.RGB{R: uint8(cr >> 8), G: uint8(cg >> 8), B: uint8(cb >> 8)}), "model converts %#v to %#v", c, m.ColorModel().Convert(c))
		case *limage.GrayAlpha:
			g, ok := m.ColorModel().Convert(c).(lcolor.GrayAlpha)
			r.Check(ok && g.A == uint8(ca>>8), "model converts %#v to %#v", c, m.ColorModel().Convert(c))
		}
	})
}
