package limage_test

import (
	"fmt"
	"image"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

func TestReplay_C05(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		g := anyLayers(r, 2, false)
		what := describe(g)
		s := r.Rect(6)
		r.About(func() string { return fmt.Sprintf("%s SubImage(%v)", what, s) })
		before := shot(g)
		var ls []string
		for _, l := range g {
			ls = append(ls, shot(l))
			c := l.SubImageLayer(s)
			crop(r, l, c, s)
			d, ok := l.SubImage(s).(limage.Layer)
			r.Check(ok, "Layer.SubImage is no Layer")
			crop(r, l, d, s)
		}
		sub, ok := g.SubImage(s).(limage.Image)
		r.Check(ok && len(sub) == len(g), "Image.SubImage has %d layers, want %d", len(sub), len(g))
		for i, l := range g {
			crop(r, l, sub[i], s)
			r.Check(shot(l) == ls[i], "layer %d of the original changed", i)
		}
		r.Check(shot(g) == before, "the original changed")
	})
}

func crop(r *vreplay.R, l, c limage.Layer, s image.Rectangle) {
	want := l.LayerBounds.Intersect(s)
	r.Check(c.Bounds() == want || c.Bounds().Empty() && want.Empty(), "bounds %v, want %v", c.Bounds(), want)
	r.Check(c.Name == l.Name && c.Mode == l.Mode && c.Invisible == l.Invisible && c.Transparency == l.Transparency, "attributes changed: %s %s", describe(c), describe(l))
	for y := want.Min.Y; y < want.Max.Y; y++ {
		for x := want.Min.X; x < want.Max.X; x++ {
			p, q := c.At(x, y), l.At(x, y)
			r.Check(sameColor(p, q), "at (%d,%d): %v, want %v of %s", x, y, p, q, describe(l))
		}
	}
}

func shot(im image.Image) string {
	b := im.Bounds()
	s := fmt.Sprint(b)
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			s += rgbaOf(im.At(x, y)) + ";"
		}
	}
	return s
}
