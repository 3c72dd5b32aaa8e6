package ora_test

import (
	"fmt"
	"image"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/ora"
)

func TestReplay_C24(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		d := newDocument(r, 1+r.Intn(8))
		text := d.text(r)
		r.About(func() string { return text })
		im, err := ora.Decode(pack(d.entries(r, text)))
		r.Check(err == nil, "not decoded: %v", err)
		canvas := image.Rect(0, 0, d.w, d.h)
		var cmp func(where string, ls limage.Image, ns []*node, vis image.Rectangle, o, at image.Point)
		// o is the origin of the decoded stack, at that of the stack in the document
		cmp = func(where string, ls limage.Image, ns []*node, vis image.Rectangle, o, at image.Point) {
			ns = layersIn(ns)
			r.Check(len(ls) == len(ns), "%s: %d layers, want %d", where, len(ls), len(ns))
			for i, l := range ls {
				n := ns[i]
				name := fmt.Sprintf("%s/%d", where, i)
				place := l.LayerBounds.Add(o)
				seen := place.Intersect(vis)
				r.Check(place.In(canvas), "%s: %v is outside the canvas %v", name, place, canvas)
				p := at.Add(image.Pt(n.x, n.y))
				if n.kind == "stack" {
					g, ok := l.Image.(limage.Image)
					r.Check(ok, "%s: not a group: %T", name, l.Image)
					cmp(name, g, n.in, seen, place.Min, p)
					for y := -1; y <= d.h; y++ {
						for x := -1; x <= d.w; x++ {
							if q := image.Pt(x, y); !q.In(canvas) {
								_, _, _, a := g.At(x-place.Min.X, y-place.Min.Y).RGBA()
								r.Check(a == 0, "%s: shows something at %v, outside of the canvas %v", name, q, canvas)
							}
						}
					}
					continue
				}
				should := n.im.Bounds().Add(p).Intersect(canvas)
				r.Check(should.In(seen), "%s: shown in %v, want %v", name, seen, should)
				for y := place.Min.Y; y < place.Max.Y; y++ {
					for x := place.Min.X; x < place.Max.X; x++ {
						is, want := l.Image.At(x-place.Min.X, y-place.Min.Y), n.im.At(x-p.X, y-p.Y)
						r.Check(samePixel(is, want), "%s: at %d,%d %v, want %v", name, x, y, is, want)
					}
				}
			}
		}
		cmp("", im, d.in, canvas, image.Point{}, image.Point{})
	})
}
