//go:build verif

package limage

import (
	"image/color"

	"vimagination.zapto.org/limage/internal/vspec"
	"vimagination.zapto.org/limage/lcolor"
)

// rgba8 is the 8-bit form of the components a colour reports.
func rgba8(c color.Color) (r, g, b, a uint8) {
	cr, cg, cb, ca := c.RGBA()
	return uint8(cr >> 8), uint8(cg >> 8), uint8(cb >> 8), uint8(ca >> 8)
}

//@ contract C01 (*RGB).Set
func contract_RGB_Set(m *RGB, x, y int, c color.Color, qx, qy int) {
	vspec.Requires(wfRGB(m) && c != nil)
	b, was := m.Rect, m.RGBAt(qx, qy)
	m.Set(x, y, c)
	vspec.Ensures("bounds kept", m.Bounds() == b && wfRGB(m))
	got := m.RGBAt(qx, qy)
	if qx == x && qy == y && inside(x, y, b) {
		cr, cg, cb, _ := rgba8(c)
		vspec.Ensures("converted colour reads back", got == lcolor.RGB{R: cr, G: cg, B: cb})
	} else {
		vspec.Ensures("other pixels unchanged", got == was)
	}
}

//@ contract C01 (*RGB).At
func contract_RGB_At(m *RGB, x, y int) {
	vspec.Requires(wfRGB(m))
	c, ok := m.At(x, y).(lcolor.RGB)
	vspec.Ensures("the pixel", ok && c == m.RGBAt(x, y))
}

//@ contract C01 (*GrayAlpha).Set
func contract_GrayAlpha_Set(m *GrayAlpha, x, y int, c color.Color, qx, qy int) {
	vspec.Requires(wfGrayAlpha(m) && c != nil)
	b, was := m.Rect, m.GrayAlphaAt(qx, qy)
	m.Set(x, y, c)
	vspec.Ensures("bounds kept", m.Bounds() == b && wfGrayAlpha(m))
	got := m.GrayAlphaAt(qx, qy)
	if qx == x && qy == y && inside(x, y, b) {
		_, _, _, ca := rgba8(c)
		vspec.Ensures("gray of the colour reads back", got.Y == color.GrayModel.Convert(c).(color.Gray).Y)
		vspec.Ensures("alpha of the colour reads back", got.A == ca)
	} else {
		vspec.Ensures("other pixels unchanged", got == was)
	}
}

//@ contract C01 (*GrayAlpha).At
func contract_GrayAlpha_At(m *GrayAlpha, x, y int) {
	vspec.Requires(wfGrayAlpha(m))
	c, ok := m.At(x, y).(lcolor.GrayAlpha)
	vspec.Ensures("the pixel", ok && c == m.GrayAlphaAt(x, y))
}

//@ model (image/color.Palette).Index
//@ assume color.Palette.Index is a pure function returning an index of the palette (0 for an empty one); that it is the nearest entry is the Go library's contract
func model_Palette_Index(p color.Palette, c color.Color) int {
	i := vspec.Pure[int]("color.Palette.Index", p, c)
	vspec.Assume(i >= 0 && (i < len(p) || i == 0))
	return i
}

//@ contract C01 (*PalettedAlpha).Set
func contract_PalettedAlpha_Set(m *PalettedAlpha, x, y int, c color.Color, qx, qy int) {
	vspec.Requires(wfPalettedAlpha(m) && c != nil && len(m.Palette) >= 1 && len(m.Palette) <= 256)
	b, was := m.Rect, m.IndexAlphaAt(qx, qy)
	m.Set(x, y, c)
	vspec.Ensures("bounds kept", m.Bounds() == b && wfPalettedAlpha(m))
	got := m.IndexAlphaAt(qx, qy)
	if qx == x && qy == y && inside(x, y, b) {
		_, _, _, ca := rgba8(c)
		vspec.Ensures("nearest palette entry reads back", int(got.I) == color.Palette(m.Palette).Index(c))
		vspec.Ensures("alpha of the colour reads back", got.A == ca)
	} else {
		vspec.Ensures("other pixels unchanged", got == was)
	}
}

//@ contract C01 (*PalettedAlpha).At
func contract_PalettedAlpha_At(m *PalettedAlpha, x, y int) {
	vspec.Requires(wfPalettedAlpha(m) && len(m.Palette) >= 1)
	ia := m.IndexAlphaAt(x, y)
	vspec.Requires(int(ia.I) < len(m.Palette) && m.Palette[ia.I] != nil)
	c, ok := m.At(x, y).(color.NRGBA)
	cr, cg, cb, _ := rgba8(m.Palette[ia.I])
	vspec.Ensures("palette colour with the pixel's alpha", ok && c == color.NRGBA{R: cr, G: cg, B: cb, A: ia.A})
}

//@ contract C01 (*PalettedAlpha).At
func contract_PalettedAlpha_At_noPalette(m *PalettedAlpha, x, y int) {
	vspec.Requires(wfPalettedAlpha(m) && m.Palette == nil)
	vspec.Ensures("no colour without a palette", m.At(x, y) == nil)
}

//@ contract C01 (*RGB).ColorModel
func contract_ColorModels(r *RGB, g *GrayAlpha, p *PalettedAlpha, c color.Color) {
	vspec.Requires(r != nil && g != nil && p != nil && c != nil)
	cr, cg, cb, ca := rgba8(c)
	vspec.Ensures("RGB model converts to RGB", vspec.Eq(r.ColorModel().Convert(c).(lcolor.RGB), lcolor.RGB{R: cr, G: cg, B: cb}))
	vspec.Ensures("GrayAlpha model keeps alpha", g.ColorModel().Convert(c).(lcolor.GrayAlpha).A == ca)
	_, ok := p.ColorModel().(lcolor.AlphaPalette)
	vspec.Ensures("palette model", ok)
}
