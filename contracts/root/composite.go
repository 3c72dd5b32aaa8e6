//go:build verif

package limage

import (
	"image/color"

	"vimagination.zapto.org/limage/internal/vspec"
)

type Z = vspec.Z

// formula is the blend formula of a mode on channels 0..0xffff of bottom (x) and top (y);
// Z computes without wrapping and with quotients rounded down.
func formula(c Composite, x, y Z) Z {
	const one, half = 0xffff, 0x7fff
	switch c {
	case CompositeMultiply:
		return x * y / one
	case CompositeScreen:
		return one - (one-x)*(one-y)/one
	case CompositeOverlay, CompositeSoftLight:
		// (1-y)*x^2 + y*(1-(1-x)^2), with x and y exchanged as the XCF document has it
		return (one-y)*(x*x/one)/one + y*(one-(one-y)*(one-y)/one)/one
	case CompositeDifference:
		if x > y {
			return x - y
		}
		return y - x
	case CompositeAddition:
		return within(x + y)
	case CompositeSubtract:
		return within(x - y)
	case CompositeDarkenOnly:
		if x < y {
			return x
		}
		return y
	case CompositeLightenOnly:
		if x > y {
			return x
		}
		return y
	case CompositeDivide:
		return ratio(x, y)
	case CompositeDodge:
		return ratio(x, one-y)
	case CompositeBurn:
		return one - ratio(one-x, y)
	case CompositeHardLight:
		if y <= half {
			return x * (2 * y) / one
		}
		return one - (one-x)*(2*(one-y))/one
	case CompositeGrainExtract:
		return within(x - y + half)
	case CompositeGrainMerge:
		return within(x + y - half)
	}
	return 0
}

// ratio is x/y with 0/0 = 0 and x/0 infinite, brought into range.
func ratio(x, y Z) Z {
	if y == 0 {
		if x == 0 {
			return 0
		}
		return 0xffff
	}
	return within(0xffff * x / y)
}

func least(x, y uint16) uint16 {
	if x < y {
		return x
	}
	return y
}

func within(x Z) Z {
	if x < 0 {
		return 0
	}
	if x > 0xffff {
		return 0xffff
	}
	return x
}

// mix is blend: (1-k)*x1 + k*x2 with k = a2 / (1-(1-a1)(1-a2)).
func mix(a1, x1, a2, x2 Z) Z {
	k := 0xffff * a2 / (0xffff - (0xffff-a1)*(0xffff-a2)/0xffff)
	return (0xffff-k)*x1/0xffff + k*x2/0xffff
}

// own is a colour in non-premultiplied form, as internal.ColourToNRGBA gives it (C11
// says which colour that is): an unknown function of the colour, the identity on
// colours that are in that form.
func own(c color.Color) color.NRGBA64 {
	if n, ok := c.(color.NRGBA64); ok {
		return n
	}
	return vspec.Pure[color.NRGBA64]("own", c)
}

// @ modular vimagination.zapto.org/limage/internal.ColourToNRGBA
// @ for C07 C08 C09
func modular_ColourToNRGBA(c color.Color) color.NRGBA64 { return own(c) }

// channels asserts that mode c treats the three channels alike and by its formula.
func channels(c Composite, bottom, top color.Color) {
	b, t := own(bottom), own(top)
	got := straight(c.Composite(bottom, top))
	if b.A == 0 {
		vspec.Ensures("a transparent bottom stays transparent", got.A == 0)
		return
	}
	ma := least(b.A, t.A)
	vspec.Ensures("alpha of the bottom", got.A == b.A)
	vspec.Ensures("red", Z(got.R) == mix(Z(b.A), Z(b.R), Z(ma), formula(c, Z(b.R), Z(t.R))))
	vspec.Ensures("green", Z(got.G) == mix(Z(b.A), Z(b.G), Z(ma), formula(c, Z(b.G), Z(t.G))))
	vspec.Ensures("blue", Z(got.B) == mix(Z(b.A), Z(b.B), Z(ma), formula(c, Z(b.B), Z(t.B))))
}

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Multiply(b, t color.Color) { channels(CompositeMultiply, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Screen(b, t color.Color) { channels(CompositeScreen, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Overlay(b, t color.Color) { channels(CompositeOverlay, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_SoftLight(b, t color.Color) { channels(CompositeSoftLight, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Difference(b, t color.Color) { channels(CompositeDifference, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Addition(b, t color.Color) { channels(CompositeAddition, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Subtract(b, t color.Color) { channels(CompositeSubtract, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_DarkenOnly(b, t color.Color) { channels(CompositeDarkenOnly, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_LightenOnly(b, t color.Color) { channels(CompositeLightenOnly, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Divide(b, t color.Color) { channels(CompositeDivide, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Dodge(b, t color.Color) { channels(CompositeDodge, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_Burn(b, t color.Color) { channels(CompositeBurn, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_HardLight(b, t color.Color) { channels(CompositeHardLight, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_GrainExtract(b, t color.Color) { channels(CompositeGrainExtract, b, t) }

// @ contract C07 (Composite).Composite
// @ merge
func contract_Composite_GrainMerge(b, t color.Color) { channels(CompositeGrainMerge, b, t) }
