//go:build verif

package limage

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume images inside layers are immutable while looked at: At, Bounds and ColorModel of an image.Image of a type not in this module are functions of the image and the point, never a nil colour, and do not panic
//@ assume a color.Color of a type not known here satisfies the contract of color.Color (r, g, b <= a <= 0xffff), and its ToNRGBA, if it has one, represents the same colour

// straight is the colour in non-premultiplied form.
func straight(c color.Color) color.NRGBA64 {
	switch c := c.(type) {
	case color.NRGBA:
		return color.NRGBA64{R: uint16(c.R) * 257, G: uint16(c.G) * 257, B: uint16(c.B) * 257, A: uint16(c.A) * 257}
	case color.NRGBA64:
		return c
	}
	if n, ok := c.(interface {
		ToNRGBA() color.NRGBA64
	}); ok {
		return n.ToNRGBA()
	}
	r, g, b, a := c.RGBA()
	if a == 0 {
		return color.NRGBA64{}
	}
	if a == 0xffff {
		return color.NRGBA64{R: uint16(r), G: uint16(g), B: uint16(b), A: 0xffff}
	}
	return color.NRGBA64{R: uint16(r * 0xffff / a), G: uint16(g * 0xffff / a), B: uint16(b * 0xffff / a), A: uint16(a)}
}

// faded asserts that got is c with its alpha scaled by o/255.
func faded(got, c color.Color, o uint8) {
	vspec.Ensures("some colour", got != nil)
	if o == 255 {
		vspec.Ensures("full opacity gives the very colour", vspec.Eq(got, c))
	} else if o == 0 {
		r, g, b, a := got.RGBA()
		vspec.Ensures("no opacity gives a fully transparent colour", r == 0 && g == 0 && b == 0 && a == 0)
	} else {
		n, s := straight(got), straight(c)
		vspec.Ensures("red, green and blue unchanged", n.R == s.R && n.G == s.G && n.B == s.B)
		vspec.Ensures("alpha scaled and rounded down", uint32(n.A) == uint32(o)*257*uint32(s.A)/0xffff)
	}
}

// @ contract C04 (Layer).At
func contract_Layer_At(l Layer, x, y int) {
	vspec.Requires(l.Image != nil && anyRect(l.LayerBounds) && coord(x) && coord(y))
	in := l.Image.At(x-l.LayerBounds.Min.X, y-l.LayerBounds.Min.Y)
	vspec.Requires(in != nil)
	got := l.At(x, y)
	faded(got, in, 255-l.Transparency)
}

// @ contract C04 (Layer).Bounds
func contract_Layer_Bounds(l Layer) {
	vspec.Ensures("the layer's bounds", l.Bounds() == l.LayerBounds)
}

func wfGray(m *image.Gray) bool { return m != nil && wfBuf(len(m.Pix), m.Stride, m.Rect) }

// @ contract C04 (MaskedImage).At
func contract_MaskedImage_At(m MaskedImage, x, y int) {
	vspec.Requires(m.Image != nil && wfGray(m.Mask) && coord(x) && coord(y))
	o := uint8(0)
	if inside(x, y, m.Mask.Rect) {
		o = m.Mask.Pix[(y-m.Mask.Rect.Min.Y)*m.Mask.Stride+(x-m.Mask.Rect.Min.X)]
	}
	in := m.Image.At(x, y)
	vspec.Requires(in != nil)
	got := m.At(x, y)
	faded(got, in, o)
}
