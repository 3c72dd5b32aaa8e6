package ora_test

import (
	"archive/zip"
	"bytes"
	"fmt"
	"image"
	"image/png"
	"strings"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/ora"
)

func TestReplay_C26(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		w, h := 1+r.Intn(700), 1+r.Intn(700)
		switch r.Intn(6) {
		case 0:
			w, h = 257+r.Intn(300), 1+r.Intn(4)
		case 1:
			w, h = 1+r.Intn(4), 257+r.Intn(300)
		case 2:
			w, h = 257, 254+r.Intn(6)
		case 3:
			w, h = 257+r.Intn(3000), 1+r.Intn(20)
		}
		if w <= 256 && h <= 256 {
			w += 256
		}
		src := filled(r, image.Rect(0, 0, w, h).Add(image.Pt(r.Intn(20)-10, r.Intn(20)-10)))
		var m image.Image = src
		if r.Intn(3) == 0 {
			m = limage.Image{{Image: filled(r, image.Rect(0, 0, w, h)), LayerBounds: image.Rect(0, 0, w, h).Add(image.Pt(r.Intn(9)-4, r.Intn(9)-4))}}
		}
		r.About(func() string { return fmt.Sprintf("%T%v", m, m.Bounds()) })
		var b bytes.Buffer
		if ora.Encode(&b, m) != nil {
			return
		}
		zr, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
		r.Check(err == nil, "not an archive: %v", err)
		for _, f := range zr.File {
			if f.Name != "Thumbnails/thumbnail.png" {
				continue
			}
			c, err := content(f)
			r.Check(err == nil, "thumbnail: %v", err)
			th, err := png.Decode(strings.NewReader(c))
			r.Check(err == nil, "thumbnail: %v", err)
			tw, ht := th.Bounds().Dx(), th.Bounds().Dy()
			r.Check(tw <= 256 && ht <= 256 && (w < h || tw == 256) && (h < w || ht == 256), "%d x %d", tw, ht)
			abs := func(x int) int {
				if x < 0 {
					return -x
				}
				return x
			}
			if w >= h {
				r.Check(abs(ht*w-256*h) <= w, "%d x %d is not in proportion", tw, ht)
			} else {
				r.Check(abs(tw*h-256*w) <= h, "%d x %d is not in proportion", tw, ht)
			}
			for k := 0; k < 600; k++ {
				x, y := r.Int(0, tw-1), r.Int(0, ht-1)
				p, q := m.At(m.Bounds().Min.X+x*w/tw, m.Bounds().Min.Y+y*h/ht), th.At(x, y)
				pr, pg, pb, pa := p.RGBA()
				qr, qg, qb, qa := q.RGBA()
				r.Check(pr == qr && pg == qg && pb == qb && pa == qa, "pixel %d,%d is %v, want %v", x, y, q, p)
			}
			return
		}
		r.Check(false, "no thumbnail")
	})
}
