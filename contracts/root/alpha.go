//go:build verif

package limage

import (
	"image/color"

	"vimagination.zapto.org/limage/internal/vspec"
	"vimagination.zapto.org/limage/lcolor"
)

//@ assume math/rand.Int31n(n) returns any number in [0,n)

// @ model math/rand.Int31n
func model_Int31n(n int32) int32 {
	vspec.Assert("Int31n needs a positive bound", n > 0)
	r := vspec.Any[int32]("random")
	vspec.Assume(0 <= r && r < n)
	return r
}

// The colour-space conversions are unknown functions of the colour here; C10 says which.

func hsv(c color.NRGBA64) lcolor.HSVA     { return vspec.Pure[lcolor.HSVA]("hsv", c) }
func hsl(c color.NRGBA64) lcolor.HSLA     { return vspec.Pure[lcolor.HSLA]("hsl", c) }
func fromHSV(h lcolor.HSVA) color.NRGBA64 { return vspec.Pure[color.NRGBA64]("fromHSV", h) }
func fromHSL(h lcolor.HSLA) color.NRGBA64 { return vspec.Pure[color.NRGBA64]("fromHSL", h) }

// @ modular vimagination.zapto.org/limage/lcolor.RGBToHSV
// @ for C08 C09
func modular_RGBToHSV(c color.Color) lcolor.HSVA { return hsv(own(c)) }

// @ modular vimagination.zapto.org/limage/lcolor.RGBToHSL
// @ for C08 C09
func modular_RGBToHSL(c color.Color) lcolor.HSLA { return hsl(own(c)) }

// @ modular (vimagination.zapto.org/limage/lcolor.HSVA).ToNRGBA
// @ for C08 C09
func modular_HSVA_ToNRGBA(h lcolor.HSVA) color.NRGBA64 { return fromHSV(h) }

// @ modular (vimagination.zapto.org/limage/lcolor.HSLA).ToNRGBA
// @ for C08 C09
func modular_HSLA_ToNRGBA(h lcolor.HSLA) color.NRGBA64 { return fromHSL(h) }

// ownFormula: the modes that are not composed like Normal.
func ownFormula(c Composite) bool {
	switch c {
	case CompositeMultiply, CompositeScreen, CompositeOverlay, CompositeDifference, CompositeAddition,
		CompositeSubtract, CompositeDarkenOnly, CompositeLightenOnly, CompositeDivide, CompositeDodge,
		CompositeBurn, CompositeHardLight, CompositeSoftLight, CompositeGrainExtract, CompositeGrainMerge,
		CompositeHue, CompositeSaturation, CompositeColor, CompositeValue, CompositeLuminosity:
		return true
	}
	return false
}

// over is Normal: top over bottom.
func over(got, b, t color.NRGBA64) {
	if b.A == 0 && t.A == 0 {
		vspec.Ensures("nothing over nothing is transparent", got.A == 0)
		return
	}
	vspec.Ensures("alpha is a1+a2-a1*a2", Z(got.A) == 0xffff-(0xffff-Z(b.A))*(0xffff-Z(t.A))/0xffff)
	vspec.Ensures("red is mixed by alpha", Z(got.R) == mix(Z(b.A), Z(b.R), Z(t.A), Z(t.R)))
	vspec.Ensures("green is mixed by alpha", Z(got.G) == mix(Z(b.A), Z(b.G), Z(t.A), Z(t.G)))
	vspec.Ensures("blue is mixed by alpha", Z(got.B) == mix(Z(b.A), Z(b.B), Z(t.A), Z(t.B)))
	if t.A == 0xffff {
		vspec.Ensures("an opaque top replaces the bottom", got == t)
	}
	if t.A == 0 {
		vspec.Ensures("a transparent top leaves the bottom", got == b)
	}
}

// @ contract C08 (Composite).Composite
// @ merge
func contract_Composite_Normal(c Composite, b, t color.Color) {
	vspec.Requires(!ownFormula(c) && c != CompositeBehind && c != CompositeDissolve && c != CompositeDestinationAtop)
	over(straight(c.Composite(b, t)), own(b), own(t))
}

// @ contract C08 (Composite).Composite
// @ merge
func contract_Composite_DestinationAtop(b, t color.Color) {
	over(straight(CompositeDestinationAtop.Composite(b, t)), own(t), own(b))
}

// @ contract C08 (Composite).Composite
func contract_Composite_Behind(b, t color.Color) {
	vspec.Ensures("the bottom", straight(CompositeBehind.Composite(b, t)) == own(b))
}

// @ contract C08 (Composite).Composite
func contract_Composite_Dissolve(bottom, top color.Color) {
	b, t := own(bottom), own(top)
	got := straight(CompositeDissolve.Composite(bottom, top))
	full := t
	full.A = 0xffff
	vspec.Ensures("the bottom or the top made opaque", got == b || got == full)
	if t.A == 0 {
		vspec.Ensures("never a transparent top", got == b)
	}
	if t.A == 0xffff {
		vspec.Ensures("always an opaque top", got == full)
	}
}

// @ contract C08 (Composite).Composite
// @ merge
func contract_Composite_Own(c Composite, bottom, top color.Color) {
	vspec.Requires(ownFormula(c))
	b, t := own(bottom), own(top)
	r := c.Composite(bottom, top)
	vspec.Ensures("some colour", r != nil)
	got := straight(r)
	vspec.Ensures("alpha of the bottom", got.A == b.A)
	if t.A == 0 && b.A != 0 {
		vspec.Ensures("a transparent top leaves the bottom", got == b)
	}
}

// component asserts that got is the bottom with the colour x mixed in.
func component(got, b, t, x color.NRGBA64) {
	vspec.Ensures("alpha of the bottom", got.A == b.A)
	if b.A == 0 {
		return
	}
	ma := least(b.A, t.A)
	vspec.Ensures("red", Z(got.R) == mix(Z(b.A), Z(b.R), Z(ma), Z(x.R)))
	vspec.Ensures("green", Z(got.G) == mix(Z(b.A), Z(b.G), Z(ma), Z(x.G)))
	vspec.Ensures("blue", Z(got.B) == mix(Z(b.A), Z(b.B), Z(ma), Z(x.B)))
	if b.A == 0xffff && t.A == 0xffff {
		vspec.Ensures("with opaque colours the component is taken whole", got.R == x.R && got.G == x.G && got.B == x.B)
	}
}

// @ contract C09 (Composite).Composite
// @ merge
func contract_Composite_Hue(bottom, top color.Color) {
	b, t := own(bottom), own(top)
	got := straight(CompositeHue.Composite(bottom, top))
	if t.R == t.G && t.G == t.B {
		vspec.Ensures("a gray has no hue", got == b || b.A == 0 && got.A == 0)
		return
	}
	component(got, b, t, fromHSV(lcolor.HSVA{H: hsv(t).H, S: hsv(b).S, V: hsv(b).V, A: hsv(b).A}))
}

// @ contract C09 (Composite).Composite
// @ merge
func contract_Composite_Saturation(bottom, top color.Color) {
	b, t := own(bottom), own(top)
	got := straight(CompositeSaturation.Composite(bottom, top))
	component(got, b, t, fromHSV(lcolor.HSVA{H: hsv(b).H, S: hsv(t).S, V: hsv(b).V, A: hsv(b).A}))
}

// @ contract C09 (Composite).Composite
// @ merge
func contract_Composite_Value(bottom, top color.Color) {
	b, t := own(bottom), own(top)
	got := straight(CompositeValue.Composite(bottom, top))
	component(got, b, t, fromHSV(lcolor.HSVA{H: hsv(b).H, S: hsv(b).S, V: hsv(t).V, A: hsv(b).A}))
}

// @ contract C09 (Composite).Composite
// @ merge
func contract_Composite_Color(bottom, top color.Color) {
	b, t := own(bottom), own(top)
	got := straight(CompositeColor.Composite(bottom, top))
	component(got, b, t, fromHSL(lcolor.HSLA{H: hsl(t).H, S: hsl(t).S, L: hsl(b).L, A: hsl(t).A}))
}

// @ contract C09 (Composite).Composite
// @ merge
func contract_Composite_Luminosity(bottom, top color.Color) {
	b, t := own(bottom), own(top)
	got := straight(CompositeLuminosity.Composite(bottom, top))
	component(got, b, t, fromHSL(lcolor.HSLA{H: hsl(b).H, S: hsl(b).S, L: hsl(t).L, A: hsl(b).A}))
}
