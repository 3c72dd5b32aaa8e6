package lcolor_test

import (
	"fmt"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/lcolor"
)

func near16(a, b uint16) bool { return int(a)-int(b) <= 16 && int(b)-int(a) <= 16 }

func nearColour(a, b color.NRGBA64) bool {
	return near16(a.R, b.R) && near16(a.G, b.G) && near16(a.B, b.B) && a.A == b.A
}

func span(c color.NRGBA64) (mn, mx int) {
	mn, mx = int(c.R), int(c.R)
	for _, n := range []uint16{c.G, c.B} {
		if int(n) < mn {
			mn = int(n)
		}
		if int(n) > mx {
			mx = int(n)
		}
	}
	return
}

// inSextant tells whether a hue lies where the order of the channels puts it.
func inSextant(c color.NRGBA64, h uint16) bool {
	r, g, b := c.R, c.G, c.B
	k := func(n int) bool {
		lo, hi := n*0xffff/6, (n+1)*0xffff/6
		return int(h) >= lo-1 && int(h) <= hi+1 || n == 5 && h == 0
	}
	return r >= g && g >= b && k(0) || g >= r && r >= b && k(1) || g >= b && b >= r && k(2) ||
		b >= g && g >= r && k(3) || b >= r && r >= g && k(4) || r >= b && b >= g && k(5)
}

func TestReplay_C10(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		c := r.NRGBA64()
		r.About(func() string { return fmt.Sprintf("colour %v", c) })
		mn, mx := span(c)
		v := lcolor.RGBToHSV(c)
		r.Check(v.A == c.A && int(v.V) == mx, "%+v", v)
		l := lcolor.RGBToHSL(c)
		r.Check(l.A == c.A && int(l.L) == (mx+mn)/2, "%+v", l)
		r.Check((v.S == 0) == (mn == mx) && (l.S == 0) == (mn == mx), "saturation: %+v %+v", v, l)
		if mn != mx {
			r.Check(int(v.S) == one*(mx-mn)/mx, "saturation: %+v", v)
			room := mx + mn
			if room > one {
				room = 2*one - room
			}
			r.Check(int(l.S) == one*(mx-mn)/room, "saturation: %+v", l)
			r.Check(inSextant(c, v.H) && inSextant(c, l.H), "hue: %+v %+v", v, l)
			r.Check(nearColour(v.ToNRGBA(), c), "back from HSV: %v", v.ToNRGBA())
			r.Check(nearColour(l.ToNRGBA(), c), "back from HSL: %v", l.ToNRGBA())
		} else {
			r.Check(v.ToNRGBA() == c && l.ToNRGBA() == c, "gray back: %v %v", v.ToNRGBA(), l.ToNRGBA())
		}

		q := lcolor.HSVA{H: r.U16(), S: r.U16(), V: r.U16(), A: r.U16()}
		r.About(func() string { return fmt.Sprintf("%+v", q) })
		n := q.ToNRGBA()
		mn, mx = span(n)
		ch := int(q.V) * int(q.S) / one
		r.Check(n.A == q.A && mn == int(q.V)-ch && mx == int(q.V), "got %v", n)
		p := lcolor.HSLA{H: r.U16(), S: r.U16(), L: r.U16(), A: r.U16()}
		r.About(func() string { return fmt.Sprintf("%+v", p) })
		n = p.ToNRGBA()
		mn, mx = span(n)
		ch = 2 * int(p.L)
		if ch > one {
			ch = 2*one - ch
		}
		ch = ch * int(p.S) / one
		r.Check(n.A == p.A && mn == int(p.L)-ch/2 && mx == mn+ch, "got %v", n)
	})
}
