package limage_test

import (
	"fmt"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

func TestReplay_C08(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		bc, tc := r.Color(), r.Color()
		b, t := straight(bc), straight(tc)
		m := limage.Composite(r.Intn(44))
		if r.Intn(10) == 0 {
			m = limage.Composite(r.Uint32())
		}
		r.About(func() string { return fmt.Sprintf("mode %d, bottom %T%v, top %T%v", m, bc, bc, tc, tc) })
		rs := m.Composite(bc, tc)
		r.Check(rs != nil, "no colour")
		g := straight(rs)
		switch {
		case m == limage.CompositeBehind:
			r.Check(g == b, "got %v, want the bottom", g)
		case m == limage.CompositeDissolve:
			full := t
			full.A = 0xffff
			r.Check(g == b && t.A != 0xffff || g == full && t.A != 0, "got %v", g)
		case modeFormulas[m] != nil || m >= limage.CompositeHue && m <= limage.CompositeValue || m == limage.CompositeLuminosity:
			r.Check(g.A == b.A, "alpha %d, want that of the bottom", g.A)
			r.Check(t.A != 0 || b.A == 0 || g == b, "transparent top changed the bottom to %v", g)
		default:
			if m == limage.CompositeDestinationAtop {
				b, t = t, b
			}
			if b.A == 0 && t.A == 0 {
				r.Check(g.A == 0, "nothing over nothing gave %v", g)
				return
			}
			x := func(b16, t16 uint16) uint16 { return mixed(int(b.A), int(b16), int(t.A), int(t16)) }
			want := color.NRGBA64{x(b.R, t.R), x(b.G, t.G), x(b.B, t.B), uint16(one16 - (one16-int(b.A))*(one16-int(t.A))/one16)}
			r.Check(g == want, "got %v, want %v", g, want)
		}
	})
}
