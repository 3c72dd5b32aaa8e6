package limage_test

import (
	"image"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

func TestReplay_C06(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		g := anyLayers(r, 1, true)
		r.About(func() string { return describe(g) })
		var hull image.Rectangle
		for _, l := range g {
			b := l.LayerBounds
			if b.Empty() {
				continue
			}
			if hull.Empty() {
				hull = b
				continue
			}
			if b.Min.X < hull.Min.X {
				hull.Min.X = b.Min.X
			}
			if b.Min.Y < hull.Min.Y {
				hull.Min.Y = b.Min.Y
			}
			if b.Max.X > hull.Max.X {
				hull.Max.X = b.Max.X
			}
			if b.Max.Y > hull.Max.Y {
				hull.Max.Y = b.Max.Y
			}
		}
		got := g.Bounds()
		r.Check(got == hull || got.Empty() && hull.Empty(), "bounds %v, want %v", got, hull)
		_, pal := g[0].Image.ColorModel().(color.Palette)
		_, pal2 := g.ColorModel().(color.Palette)
		r.Check(pal == pal2, "colour model is not that of the first layer")
		for y := hull.Min.Y - 1; y < hull.Max.Y+1; y++ {
			for x := hull.Min.X - 1; x < hull.Max.X+1; x++ {
				want := color.Color(color.Alpha{})
				random := false
				for i := len(g) - 1; i >= 0; i-- {
					l := g[i]
					b := l.LayerBounds
					if l.Invisible || x < b.Min.X || y < b.Min.Y || x >= b.Max.X || y >= b.Max.Y {
						continue
					}
					c := l.At(x, y)
					switch {
					case pal && l.Mode != limage.CompositeDissolve:
						if n := straight(c); n.A > 0x7fff {
							n.A = 0xffff
							want, random = n, false
						}
					case l.Mode == limage.CompositeDissolve:
						if n := straight(c); n.A == 0xffff {
							want, random = n, false
						} else if n.A != 0 {
							random = true
						} else {
							want = straight(want)
						}
					default:
						want = l.Mode.Composite(want, c)
					}
				}
				if c := g.At(x, y); !random {
					r.Check(straight(c) == straight(want), "at (%d,%d): %v, want %v", x, y, c, want)
				}
			}
		}
	})
}
