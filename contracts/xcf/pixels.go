//go:build verif

package xcf

import (
	"image"
	"image/color"

	"vimagination.zapto.org/byteio"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vspec"
	"vimagination.zapto.org/limage/lcolor"
)

//@ assume the channels of a colour are the ones its colour model (C10-C12) converts it to, the nearest entry of a palette is the one color.Palette finds

// room tells that a buffer of n pixels holds every pixel of r.
func room(n, stride int, r image.Rectangle) bool {
	const lim = 1 << 30
	return -lim <= r.Min.X && r.Min.X < r.Max.X && r.Max.X <= lim && -lim <= r.Min.Y && r.Min.Y < r.Max.Y && r.Max.Y <= lim &&
		stride >= r.Max.X-r.Min.X && stride <= 2*lim && n >= (r.Max.Y-r.Min.Y-1)*stride+(r.Max.X-r.Min.X)
}

// @ contract C35 (rgbImageReader).ReadColour
func contract_rgb_ReadColour(m *limage.RGB, x, y, qx, qy int, r, g, b byte) {
	vspec.Requires(m != nil && room(len(m.Pix), m.Stride, m.Rect) && image.Pt(x, y).In(m.Rect))
	want := m.RGBAt(qx, qy)
	if qx == x && qy == y {
		want = lcolor.RGB{R: r, G: g, B: b}
	}
	rgbImageReader{m}.ReadColour(x, y, []byte{r, g, b})
	vspec.Ensures("the pixel and no other", m.RGBAt(qx, qy) == want)
}

// @ contract C35 (rgbaImageReader).ReadColour
func contract_rgba_ReadColour(m *image.NRGBA, x, y, qx, qy int, r, g, b, a byte) {
	vspec.Requires(m != nil && room(len(m.Pix)/4, m.Stride/4, m.Rect) && m.Stride%4 == 0 && image.Pt(x, y).In(m.Rect))
	want := m.NRGBAAt(qx, qy)
	if qx == x && qy == y {
		want = color.NRGBA{R: r, G: g, B: b, A: a}
	}
	rgbaImageReader{m}.ReadColour(x, y, []byte{r, g, b, a})
	vspec.Ensures("the pixel and no other", m.NRGBAAt(qx, qy) == want)
}

// @ contract C35 (grayImageReader).ReadColour
func contract_gray_ReadColour(m *image.Gray, x, y, qx, qy int, v byte) {
	vspec.Requires(m != nil && room(len(m.Pix), m.Stride, m.Rect) && image.Pt(x, y).In(m.Rect))
	want := m.GrayAt(qx, qy)
	if qx == x && qy == y {
		want = color.Gray{Y: v}
	}
	grayImageReader{m}.ReadColour(x, y, []byte{v})
	vspec.Ensures("the pixel and no other", m.GrayAt(qx, qy) == want)
}

// @ contract C35 (indexedImageReader).ReadColour
func contract_indexed_ReadColour(m *image.Paletted, x, y, qx, qy int, v byte) {
	vspec.Requires(m != nil && room(len(m.Pix), m.Stride, m.Rect) && image.Pt(x, y).In(m.Rect))
	want := m.ColorIndexAt(qx, qy)
	if qx == x && qy == y {
		want = v
	}
	indexedImageReader{m}.ReadColour(x, y, []byte{v})
	vspec.Ensures("the pixel and no other", m.ColorIndexAt(qx, qy) == want)
}

// @ contract C35 (grayAlphaImageReader).ReadColour
func contract_grayAlpha_ReadColour(m *limage.GrayAlpha, x, y, qx, qy int, v, a byte) {
	vspec.Requires(m != nil && room(len(m.Pix), m.Stride, m.Rect) && image.Pt(x, y).In(m.Rect))
	want := m.GrayAlphaAt(qx, qy)
	if qx == x && qy == y {
		want = lcolor.GrayAlpha{Y: v, A: a}
	}
	grayAlphaImageReader{m}.ReadColour(x, y, []byte{v, a})
	vspec.Ensures("the pixel and no other", m.GrayAlphaAt(qx, qy) == want)
}

// @ contract C35 (palettedAlphaReader).ReadColour
func contract_palettedAlpha_ReadColour(m *limage.PalettedAlpha, x, y, qx, qy int, v, a byte) {
	vspec.Requires(m != nil && room(len(m.Pix), m.Stride, m.Rect) && image.Pt(x, y).In(m.Rect))
	want := m.IndexAlphaAt(qx, qy)
	if qx == x && qy == y {
		want = lcolor.IndexedAlpha{I: v, A: a}
	}
	palettedAlphaReader{m}.ReadColour(x, y, []byte{v, a})
	vspec.Ensures("the pixel and no other", m.IndexAlphaAt(qx, qy) == want)
}

// @ contract C35 (*encoder).rgbAlphaToBuf
func contract_rgbAlphaToBuf(c color.Color) {
	vspec.Requires(c != nil)
	e := new(encoder)
	want := color.NRGBAModel.Convert(c).(color.NRGBA)
	e.rgbAlphaToBuf(c)
	vspec.Ensures("red, green, blue and alpha", e.colourBuf == [4]byte{want.R, want.G, want.B, want.A})
}

// @ contract C35 (*encoder).grayAlphaToBuf
func contract_grayAlphaToBuf(c color.Color) {
	vspec.Requires(c != nil)
	e := new(encoder)
	want := lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)
	e.grayAlphaToBuf(c)
	vspec.Ensures("gray and alpha", e.colourBuf[0] == want.Y && e.colourBuf[1] == want.A)
}

// @ contract C35 (*encoder).grayToBuf
func contract_grayToBuf(c color.Color) {
	vspec.Requires(c != nil)
	e := new(encoder)
	e.grayToBuf(c)
	vspec.Ensures("gray", e.colourBuf[0] == color.GrayModel.Convert(c).(color.Gray).Y)
}

// @ contract C35 (*encoder).paletteAlphaToBuf
func contract_paletteAlphaToBuf(c color.Color, p lcolor.AlphaPalette) {
	vspec.Requires(c != nil)
	e := new(encoder)
	e.colourPalette = p
	want := color.NRGBAModel.Convert(c).(color.NRGBA)
	e.paletteAlphaToBuf(c)
	vspec.Ensures("the number of the entry nearest to the colour without its alpha", e.colourBuf[0] == uint8(color.Palette(p).Index(lcolor.RGB{R: want.R, G: want.G, B: want.B})))
	vspec.Ensures("its alpha", e.colourBuf[1] == want.A)
}

// @ contract C35 (*decoder).validBPP
func contract_validBPP(mode, bpp uint32) {
	vspec.Requires(mode < 6)
	d := new(decoder)
	d.reader.StickyBigEndianReader = new(byteio.StickyBigEndianReader)
	n := uint32(3)
	switch mode {
	case 1:
		n = 4
	case 2, 4:
		n = 1
	case 3, 5:
		n = 2
	}
	vspec.Ensures("the number of channels of the mode", d.validBPP(mode, bpp) == (bpp == n))
	vspec.Ensures("an error otherwise", (d.Err == nil) == (bpp == n))
}
