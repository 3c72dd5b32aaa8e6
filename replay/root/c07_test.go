package limage_test

import (
	"fmt"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

func TestReplay_C07(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		bc, tc := r.Color(), r.Color()
		b, t := straight(bc), straight(tc)
		m := limage.Composite(r.Intn(50))
		f := modeFormulas[m]
		if f == nil {
			return
		}
		r.About(func() string { return fmt.Sprintf("mode %d, bottom %T%v, top %T%v", m, bc, bc, tc, tc) })
		g := straight(m.Composite(bc, tc))
		if b.A == 0 {
			r.Check(g.A == 0, "a transparent bottom gave %v", g)
			return
		}
		x := func(b16, t16 uint16) uint16 {
			return mixed(int(b.A), int(b16), low(b.A, t.A), f(int(b16), int(t16)))
		}
		want := color.NRGBA64{x(b.R, t.R), x(b.G, t.G), x(b.B, t.B), b.A}
		r.Check(g == want, "got %v, want %v", g, want)
	})
}
