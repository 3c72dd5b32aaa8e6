package limage_test

import (
	"fmt"
	"testing"

	"vimagination.zapto.org/limage/internal/vreplay"
)

func TestReplay_C03(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		b := r.Rect(4)
		p := newPx(r, b)
		log := fmt.Sprintf("New%s(%v)", p.kind, b)
		r.About(func() string { return log })
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				v := [3]uint8{r.U8(), 255, r.U8()}
				if r.Intn(12) == 0 {
					v[1] = r.U8()
				}
				p.set(x, y, p.norm(v))
				if v[1] != 255 {
					log += fmt.Sprintf(" alpha %d at (%d,%d)", v[1], x, y)
				}
			}
		}
		if r.Bool() {
			s := r.Rect(5)
			p = p.sub(s)
			log += fmt.Sprintf(" SubImage(%v)", s)
			b = p.Bounds()
		}
		want := true
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				if p.kind != "RGB" && p.get(x, y)[1] != 255 {
					want = false
				}
			}
		}
		got := p.Image.(interface{ Opaque() bool }).Opaque()
		r.Check(got == want, "Opaque is %v, want %v", got, want)
	})
}
