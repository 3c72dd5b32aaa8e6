//go:build verif

package lcolor

import (
	"image/color"

	"vimagination.zapto.org/limage/internal/vspec"
)

type Z = vspec.Z

// own is a colour in non-premultiplied form, as internal.ColourToNRGBA gives it (C11
// says which colour that is).
func own(c color.Color) color.NRGBA64 {
	if n, ok := c.(color.NRGBA64); ok {
		return n
	}
	return vspec.Pure[color.NRGBA64]("own", c)
}

// @ modular vimagination.zapto.org/limage/internal.ColourToNRGBA
// @ for C09 C10
func modular_ColourToNRGBA(c color.Color) color.NRGBA64 { return own(c) }

func largest(x, y, z Z) Z {
	if x >= y && x >= z {
		return x
	}
	if y >= z {
		return y
	}
	return z
}

func smallest(x, y, z Z) Z {
	if x <= y && x <= z {
		return x
	}
	if y <= z {
		return y
	}
	return z
}

// sextants is six times the hue of a colour that is not gray: its place on the circle
// red, yellow, green, cyan, blue, magenta, in units of 1/0xffff of a sextant.
func sextants(r, g, b Z) Z {
	const one = 0xffff
	if r >= g && r >= b {
		if g >= b {
			return one * (g - b) / (r - b)
		}
		return 6*one - one*(b-g)/(r-g)
	}
	if g >= b {
		if b >= r {
			return 2*one + one*(b-r)/(g-r)
		}
		return 2*one - one*(r-b)/(g-b)
	}
	if r >= g {
		return 4*one + one*(r-g)/(b-g)
	}
	return 4*one - one*(g-r)/(b-r)
}

// @ contract C09,C10 RGBToHSV
// @ merge
func contract_RGBToHSV(c color.Color) {
	n := own(c)
	r, g, b := Z(n.R), Z(n.G), Z(n.B)
	mx, mn := largest(r, g, b), smallest(r, g, b)
	got := RGBToHSV(c)
	vspec.Ensures("alpha", got.A == n.A)
	vspec.Ensures("value is the largest channel", Z(got.V) == mx)
	if mx == mn {
		vspec.Ensures("grays have no saturation", got.S == 0)
		return
	}
	vspec.Ensures("saturation is chroma by value", Z(got.S) == 0xffff*(mx-mn)/mx)
	vspec.Ensures("only grays have no saturation", got.S != 0)
	vspec.Ensures("hue", Z(got.H) == sextants(r, g, b)/6)
}

// @ contract C09,C10 RGBToHSL
// @ merge
func contract_RGBToHSL(c color.Color) {
	n := own(c)
	r, g, b := Z(n.R), Z(n.G), Z(n.B)
	mx, mn := largest(r, g, b), smallest(r, g, b)
	got := RGBToHSL(c)
	vspec.Ensures("alpha", got.A == n.A)
	vspec.Ensures("lightness is the mean of the largest and smallest channel", Z(got.L) == (mx+mn)/2)
	if mx == mn {
		vspec.Ensures("grays have no saturation", got.S == 0)
		return
	}
	if mx+mn <= 0xffff {
		vspec.Ensures("saturation of dark colours", Z(got.S) == 0xffff*(mx-mn)/(mx+mn))
	} else {
		vspec.Ensures("saturation of light colours", Z(got.S) == 0xffff*(mx-mn)/(2*0xffff-mx-mn))
	}
	vspec.Ensures("only grays have no saturation", got.S != 0)
	vspec.Ensures("hue", Z(got.H) == sextants(r, g, b)/6)
}

// wheel is the colour at place h (in 1/0xffff of a sextant) of the circle with chroma c.
func wheel(h, c Z) (r, g, b Z) {
	const one = 0xffff
	k := h / one
	f := h - k*one // place in the sextant
	switch k {
	case 0: // red to yellow
		return c, f * c / one, 0
	case 1: // yellow to green
		return (one - f) * c / one, c, 0
	case 2: // green to cyan
		return 0, c, f * c / one
	case 3: // cyan to blue
		return 0, (one - f) * c / one, c
	case 4: // blue to magenta
		return f * c / one, 0, c
	default: // magenta to red
		return c, 0, (one - f) * c / one
	}
}

// lifted asserts that got has the given hue, chroma c and smallest channel m.
func lifted(got color.NRGBA64, hue, c, m Z) {
	r, g, b := Z(got.R)-m, Z(got.G)-m, Z(got.B)-m
	vspec.Ensures("no channel below the smallest", r >= 0 && g >= 0 && b >= 0)
	vspec.Ensures("no channel above the largest", r <= c && g <= c && b <= c)
	h := hue * 6
	if hue == 0xffff {
		h = 0
	}
	wr, wg, wb := wheel(h, c)
	vspec.Ensures("red by hue and chroma", r == wr)
	vspec.Ensures("green by hue and chroma", g == wg)
	vspec.Ensures("blue by hue and chroma", b == wb)
}

// @ contract C09,C10 (HSVA).ToNRGBA
func contract_HSVA_ToNRGBA(h HSVA) {
	got := h.ToNRGBA()
	vspec.Ensures("alpha", got.A == h.A)
	if h.S == 0 {
		vspec.Ensures("no saturation gives a gray", got.R == h.V && got.G == h.V && got.B == h.V)
		return
	}
	c := Z(h.V) * Z(h.S) / 0xffff
	lifted(got, Z(h.H), c, Z(h.V)-c)
}

// @ contract C09,C10 (HSLA).ToNRGBA
func contract_HSLA_ToNRGBA(h HSLA) {
	got := h.ToNRGBA()
	vspec.Ensures("alpha", got.A == h.A)
	if h.S == 0 {
		vspec.Ensures("no saturation gives a gray", got.R == h.L && got.G == h.L && got.B == h.L)
		return
	}
	c := 2 * Z(h.L)
	if c > 0xffff {
		c = 2*0xffff - c
	}
	c = c * Z(h.S) / 0xffff
	lifted(got, Z(h.H), c, Z(h.L)-c/2)
}

// named is x as a value of its own, so that products are taken of it as a whole.
func named(x Z) Z {
	v := vspec.Any[Z]("named")
	vspec.Assume(v == x)
	return v
}

func close16(x, y Z) bool { return x-y <= 16 && y-x <= 16 }

// back asserts that hue h6/6, chroma c and smallest channel m give r, g, b but for 16.
func back(r, g, b, c, m Z) {
	h6 := sextants(r, g, b)
	h := named(h6 / 6 * 6)
	e := named(h6 - h)
	vspec.Assert("hue lost by rounding", 0 <= e && e <= 5)
	vspec.Assert("hue short of the full circle", h < 6*0xffff)
	wr, wg, wb := wheel(h, c)
	vspec.Ensures("red comes back", close16(wr+m, r))
	vspec.Ensures("green comes back", close16(wg+m, g))
	vspec.Ensures("blue comes back", close16(wb+m, b))
}

// The formulas of the contracts above turn every colour into itself but for 16.
//
// @ lemma C10 roundtrip_HSV
func lemma_roundtrip_HSV(r16, g16, b16 uint16) {
	r, g, b := Z(r16), Z(g16), Z(b16)
	mx, mn := largest(r, g, b), smallest(r, g, b)
	vspec.Requires(mx != mn)
	s := named(0xffff * (mx - mn) / mx)
	c := named(mx * s / 0xffff)
	vspec.Assert("chroma comes back", mx-mn-1 <= c && c <= mx-mn)
	back(r, g, b, c, mx-c)
}

// @ lemma C10 roundtrip_HSL
func lemma_roundtrip_HSL(r16, g16, b16 uint16) {
	const one = 0xffff
	r, g, b := Z(r16), Z(g16), Z(b16)
	mx, mn := largest(r, g, b), smallest(r, g, b)
	vspec.Requires(mx != mn)
	sum, ch := mx+mn, mx-mn
	room := sum
	if sum > one {
		room = 2*one - sum
	}
	s := named(one * ch / room)
	l := named(sum / 2)
	c2 := 2 * l
	if c2 > one {
		c2 = 2*one - c2
	}
	c := named(c2 * s / one)
	vspec.Assert("chroma comes back", ch-3 <= c && c <= ch+1)
	m := named(l - c/2)
	vspec.Assert("smallest channel comes back", mn-2 <= m && m <= mn+2)
	back(r, g, b, c, m)
}
