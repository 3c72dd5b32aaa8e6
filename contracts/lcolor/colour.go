//go:build verif

package lcolor

import (
	"image/color"

	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/internal/vspec"
)

// premultiplied asserts that r, g, b, a are the premultiplied form of n.
func premultiplied(r, g, b, a uint32, n color.NRGBA64) {
	vspec.Ensures("alpha in range", a <= 0xffff)
	vspec.Ensures("no channel above alpha", r <= a && g <= a && b <= a)
	vspec.Ensures("alpha of the colour", a == uint32(n.A))
	vspec.Ensures("red of the colour", Z(r) == Z(n.R)*Z(n.A)/0xffff)
	vspec.Ensures("green of the colour", Z(g) == Z(n.G)*Z(n.A)/0xffff)
	vspec.Ensures("blue of the colour", Z(b) == Z(n.B)*Z(n.A)/0xffff)
}

// @ contract C11 (RGB).RGBA
func contract_RGB_RGBA(c RGB) {
	r, g, b, a := c.RGBA()
	premultiplied(r, g, b, a, color.NRGBA64{R: uint16(c.R) * 257, G: uint16(c.G) * 257, B: uint16(c.B) * 257, A: 0xffff})
}

// @ contract C11 (RGB).ToNRGBA
func contract_RGB_ToNRGBA(c RGB) {
	vspec.Ensures("channels spread to 16 bits, opaque", c.ToNRGBA() == color.NRGBA64{R: uint16(c.R) * 257, G: uint16(c.G) * 257, B: uint16(c.B) * 257, A: 0xffff})
}

// @ contract C11 (GrayAlpha).RGBA
func contract_GrayAlpha_RGBA(c GrayAlpha) {
	r, g, b, a := c.RGBA()
	y := uint16(c.Y) * 257
	premultiplied(r, g, b, a, color.NRGBA64{R: y, G: y, B: y, A: uint16(c.A) * 257})
}

// @ contract C11 (GrayAlpha).ToNRGBA
func contract_GrayAlpha_ToNRGBA(c GrayAlpha) {
	y := uint16(c.Y) * 257
	vspec.Ensures("gray spread to 16 bits", c.ToNRGBA() == color.NRGBA64{R: y, G: y, B: y, A: uint16(c.A) * 257})
}

// @ modular (HSVA).ToNRGBA
// @ for C11
func modular_HSVA_ToNRGBA(h HSVA) color.NRGBA64 { return vspec.Pure[color.NRGBA64]("fromHSV", h) }

// @ modular (HSLA).ToNRGBA
// @ for C11
func modular_HSLA_ToNRGBA(h HSLA) color.NRGBA64 { return vspec.Pure[color.NRGBA64]("fromHSL", h) }

// @ contract C11 (HSVA).RGBA
func contract_HSVA_RGBA(c HSVA) {
	r, g, b, a := c.RGBA()
	premultiplied(r, g, b, a, c.ToNRGBA())
}

// @ contract C11 (HSLA).RGBA
func contract_HSLA_RGBA(c HSLA) {
	r, g, b, a := c.RGBA()
	premultiplied(r, g, b, a, c.ToNRGBA())
}

// @ contract C11 vimagination.zapto.org/limage/internal.ColourToNRGBA
func contract_ColourToNRGBA(c color.Color) {
	vspec.Requires(c != nil)
	got := internal.ColourToNRGBA(c)
	switch c := c.(type) {
	case color.NRGBA64:
		vspec.Ensures("a non-premultiplied colour is itself", got == c)
		return
	case color.NRGBA:
		vspec.Ensures("an 8-bit non-premultiplied colour is spread to 16 bits", got == color.NRGBA64{R: uint16(c.R) * 257, G: uint16(c.G) * 257, B: uint16(c.B) * 257, A: uint16(c.A) * 257})
		return
	}
	if n, ok := c.(interface{ ToNRGBA() color.NRGBA64 }); ok {
		vspec.Ensures("a colour that knows its non-premultiplied form", got == n.ToNRGBA())
		return
	}
	r, g, b, a := c.RGBA()
	vspec.Ensures("alpha of the colour", uint32(got.A) == a)
	if a == 0 {
		return
	}
	once := func(n uint16, p uint32) bool {
		d := Z(p) - Z(n)*Z(a)/0xffff
		return d == 0 || d == 1
	}
	vspec.Ensures("red comes back when multiplied by alpha", once(got.R, r))
	vspec.Ensures("green comes back when multiplied by alpha", once(got.G, g))
	vspec.Ensures("blue comes back when multiplied by alpha", once(got.B, b))
	if a == 0xffff {
		vspec.Ensures("opaque colours exactly", uint32(got.R) == r && uint32(got.G) == g && uint32(got.B) == b)
	}
}

// @ contract C11 rgbColourModel
func contract_rgbColourModel(c color.Color) {
	vspec.Requires(c != nil)
	v, is := c.(RGB)
	vspec.Split(is)
	got, ok := RGBModel.Convert(c).(RGB)
	vspec.Ensures("a colour of the model", ok)
	if is {
		vspec.Ensures("the identity on its own colours", got == v)
	}
	r, g, b, _ := c.RGBA()
	vspec.Ensures("the high byte of each channel", uint32(got.R) == r/256 && uint32(got.G) == g/256 && uint32(got.B) == b/256)
}

// @ contract C11 grayAlphaColourModel
func contract_grayAlphaColourModel(c color.Color) {
	vspec.Requires(c != nil)
	v, is := c.(GrayAlpha)
	vspec.Split(is)
	got, ok := GrayAlphaModel.Convert(c).(GrayAlpha)
	vspec.Ensures("a colour of the model", ok)
	r, g, b, a := c.RGBA()
	vspec.Ensures("alpha is kept", uint32(got.A) == a/256)
	if is && v.A == 0xff {
		vspec.Ensures("the identity on its own opaque colours", got == v)
	}
	if r == g && g == b {
		d := Z(got.Y) - Z(r)/256
		vspec.Ensures("grays keep their brightness", d == 0 || d == 1 && r%256 > 127)
	}
}

//@ assume image/color.Palette.Convert returns the nearest colour of a palette that is not empty

// @ model (image/color.Palette).Convert
func model_Palette_Convert(p color.Palette, c color.Color) color.Color {
	if len(p) == 0 {
		return nil
	}
	i := vspec.Pure[int]("color.Palette.Index", p, c)
	vspec.Assume(0 <= i && i < len(p))
	return p[i]
}

// @ contract C11 (AlphaPalette).Convert
func contract_AlphaPalette_Convert(p AlphaPalette, c color.Color) {
	vspec.Requires(c != nil && len(p) > 0)
	i := color.Palette(p).Index(c)
	vspec.Requires(p[i] != nil)
	got := internal.ColourToNRGBA(p.Convert(c))
	r, g, b, a := p[i].RGBA()
	vspec.Requires(a == 0xffff)
	_, _, _, ca := c.RGBA()
	vspec.Ensures("alpha of the colour", uint32(got.A) == ca)
	vspec.Ensures("the nearest colour of the palette", uint32(got.R) == r && uint32(got.G) == g && uint32(got.B) == b)
}

// @ contract C11 (AlphaPalette).Index
func contract_AlphaPalette_Index(p AlphaPalette, c color.Color) {
	vspec.Requires(c != nil && len(p) > 0)
	vspec.Ensures("the nearest colour of the palette", p.Index(c) == color.Palette(p).Index(c))
}
