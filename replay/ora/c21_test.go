package ora_test

import (
	"archive/zip"
	"bytes"
	"image"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/ora"
)

func TestReplay_C21(t *testing.T) {
	ok := map[limage.Composite]bool{}
	for _, m := range modes {
		ok[m] = true
	}
	names := []string{"", "a", "<&\">'", "日本", " space ", "x", "hidden", "0"}
	vreplay.Run(t, func(r *vreplay.R) {
		mk := func(im image.Image, b image.Rectangle) limage.Layer {
			return limage.Layer{Image: im, LayerBounds: b, Name: names[r.Intn(len(names))], Transparency: uint8(r.Intn(256)), Invisible: r.Bool(), Mode: limage.Composite(r.Intn(40))}
		}
		const size = 12
		g := limage.Image{{Image: filled(r, image.Rect(0, 0, size, size)), LayerBounds: image.Rect(0, 0, size, size)}}
		for i := r.Intn(3); i >= 0; i-- {
			w, h := 1+r.Intn(6), 1+r.Intn(6)
			p := image.Pt(r.Intn(size+6)-6, r.Intn(size+6)-6)
			im := image.Image(filled(r, image.Rect(0, 0, w, h)))
			if r.Intn(4) == 0 {
				im = limage.Image{mk(im, image.Rect(0, 0, w, h))}
			}
			g = append(g, mk(im, image.Rect(0, 0, w, h).Add(p)))
		}
		r.About(func() string { return show(g) })
		canvas := image.Rectangle{Max: g.Bounds().Size()}
		var b bytes.Buffer
		if ora.Encode(&b, g) != nil {
			return
		}
		zr, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
		r.Check(err == nil, "not an archive: %v", err)
		back, err := ora.Decode(zr)
		r.Check(err == nil, "not decoded: %v", err)
		var cmp func(a, b limage.Image, canvas image.Rectangle)
		cmp = func(a, b limage.Image, canvas image.Rectangle) {
			r.Check(len(a) == len(b), "%d layers, want %d", len(b), len(a))
			for i := range a {
				x, y := a[i], b[i]
				r.Check(y.Name == x.Name, "layer %d: name %q, want %q", i, y.Name, x.Name)
				r.Check(y.Invisible == x.Invisible, "layer %d: hidden %v, want %v", i, y.Invisible, x.Invisible)
				r.Check(y.Transparency == x.Transparency, "layer %d: transparency %d, want %d", i, y.Transparency, x.Transparency)
				mode := x.Mode
				if !ok[mode] {
					mode = limage.CompositeNormal
				}
				r.Check(y.Mode == mode, "layer %d: mode %d, want %d", i, y.Mode, mode)
				want := x.LayerBounds.Intersect(canvas)
				if want.Empty() {
					continue
				}
				r.Check(y.LayerBounds == want, "layer %d: placed %v, want %v", i, y.LayerBounds, want)
				if h, ok := x.Image.(limage.Image); ok {
					k, _ := y.Image.(limage.Image)
					if want == x.LayerBounds {
						cmp(h, k, canvas.Sub(x.LayerBounds.Min))
					}
					continue
				}
				y.Transparency = 0
				for py := want.Min.Y; py < want.Max.Y; py++ {
					for px := want.Min.X; px < want.Max.X; px++ {
						p, q := x.Image.At(px-x.LayerBounds.Min.X, py-x.LayerBounds.Min.Y), y.At(px, py)
						pr, pg, pb, pa := p.RGBA()
						qr, qg, qb, qa := q.RGBA()
						r.Check(pr == qr && pg == qg && pb == qb && pa == qa, "layer %d: pixel %d,%d is %v, want %v", i, px, py, q, p)
					}
				}
			}
		}
		cmp(g, back, canvas)
	})
}
