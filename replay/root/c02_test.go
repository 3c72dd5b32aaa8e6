package limage_test

import (
	"fmt"
	"image"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

func TestReplay_C02(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		b := r.Rect(5)
		p := newPx(r, b)
		p.fill(r)
		log := fmt.Sprintf("New%s(%v)", p.kind, b)
		r.About(func() string { return log })
		for n := 0; n < 2; n++ {
			rc := r.Rect(6)
			if r.Intn(6) == 0 {
				rc = image.Rectangle{Min: image.Pt(r.Intn(9)-4, r.Intn(9)-4), Max: image.Pt(r.Intn(9)-4, r.Intn(9)-4)}
			}
			b := p.Bounds()
			log += fmt.Sprintf(".SubImage(%v)", rc)
			was := snap(p, b)
			s := p.sub(rc)
			want := rc.Intersect(b)
			r.Check(fmt.Sprintf("%T", s.Image) == fmt.Sprintf("%T", p.Image), "type %T", s.Image)
			r.Check(s.Bounds() == want || s.Bounds().Empty() && want.Empty(), "bounds %v, want %v", s.Bounds(), want)
			for q, v := range snap(p, b) {
				r.Check(v == was[q], "the original changed at %v", q)
			}
			for q, v := range snap(s, s.Bounds()) {
				if q.In(want) {
					r.Check(v == p.get(q.X, q.Y), "pixel %v is %v in the sub-image, %v in the image", q, v, p.get(q.X, q.Y))
					v2 := p.norm([3]uint8{r.U8(), r.U8(), r.U8()})
					m := snap(p, b)
					s.set(q.X, q.Y, v2)
					m[q] = v2
					for z, w := range snap(p, b) {
						r.Check(w == m[z], "after storing %v at %v of the sub-image the image has %v at %v", v2, q, w, z)
					}
					v3 := p.norm([3]uint8{r.U8(), r.U8(), r.U8()})
					p.set(q.X, q.Y, v3)
					r.Check(s.get(q.X, q.Y) == v3, "a store through the image at %v is not seen", q)
				}
			}
			if m, ok := s.Image.(*limage.PalettedAlpha); ok && !want.Empty() {
				r.Check(len(m.Palette) == 256 && &m.Palette[0] == &pal256[0], "the palette is not kept")
			}
			p = s
		}
	})
}
