//go:build verif

package limage

import (
	"image"

	"vimagination.zapto.org/limage/internal/vspec"
	"vimagination.zapto.org/limage/lcolor"
)

//@ assume image rectangles have coordinates in [-2^30, 2^30] and pixel buffers fewer than 2^46 elements; inside these bounds the index arithmetic is proved free of wrap-around

const lim = 1 << 30

func coord(x int) bool { return -lim <= x && x <= lim }

// wfRect: a well-formed rectangle.
func wfRect(r image.Rectangle) bool {
	return coord(r.Min.X) && coord(r.Min.Y) && coord(r.Max.X) && coord(r.Max.Y) && r.Min.X <= r.Max.X && r.Min.Y <= r.Max.Y
}

func anyRect(r image.Rectangle) bool {
	return coord(r.Min.X) && coord(r.Min.Y) && coord(r.Max.X) && coord(r.Max.Y)
}

func isEmpty(r image.Rectangle) bool { return r.Min.X >= r.Max.X || r.Min.Y >= r.Max.Y }

func inside(x, y int, r image.Rectangle) bool {
	return r.Min.X <= x && x < r.Max.X && r.Min.Y <= y && y < r.Max.Y
}

// wfBuf: a buffer of n pixels holds every pixel of r.
func wfBuf(n, stride int, r image.Rectangle) bool {
	if !wfRect(r) || stride > 2*lim {
		return false
	}
	if isEmpty(r) { // only made by the constructors
		return stride == r.Max.X-r.Min.X || r.Min.Y == r.Max.Y
	}
	return stride >= r.Max.X-r.Min.X && n >= (r.Max.Y-r.Min.Y-1)*stride+(r.Max.X-r.Min.X)
}

// sect is the intersection of two rectangles, empty rectangles being all alike.
func sameRect(a, b image.Rectangle) bool { return a == b || isEmpty(a) && isEmpty(b) }

func sectOf(a, b image.Rectangle) image.Rectangle {
	if a.Min.X < b.Min.X {
		a.Min.X = b.Min.X
	}
	if a.Min.Y < b.Min.Y {
		a.Min.Y = b.Min.Y
	}
	if a.Max.X > b.Max.X {
		a.Max.X = b.Max.X
	}
	if a.Max.Y > b.Max.Y {
		a.Max.Y = b.Max.Y
	}
	return a
}

// ---- RGB

func wfRGB(m *RGB) bool { return m != nil && wfBuf(len(m.Pix), m.Stride, m.Rect) }

// @ contract C01 NewRGB
func contract_NewRGB(r image.Rectangle, qx, qy int) {
	vspec.Requires(wfRect(r) && (r.Max.X-r.Min.X) < 1<<23 && (r.Max.Y-r.Min.Y) < 1<<23)
	m := NewRGB(r)
	vspec.Ensures("bounds as requested", m.Bounds() == r && wfRGB(m))
	vspec.Ensures("zero pixels", m.RGBAt(qx, qy) == lcolor.RGB{})
}

// @ contract C01 (*RGB).RGBAt
func contract_RGB_RGBAt(m *RGB, x, y int) {
	vspec.Requires(wfRGB(m))
	v := m.RGBAt(x, y)
	if !inside(x, y, m.Rect) {
		vspec.Ensures("zero outside", v == lcolor.RGB{})
	} else {
		vspec.Ensures("pixel inside", v == m.Pix[(y-m.Rect.Min.Y)*m.Stride+(x-m.Rect.Min.X)])
	}
}

// @ contract C01 (*RGB).SetRGB
func contract_RGB_SetRGB(m *RGB, x, y int, c lcolor.RGB, qx, qy int) {
	vspec.Requires(wfRGB(m))
	b, was := m.Rect, m.RGBAt(qx, qy)
	m.SetRGB(x, y, c)
	vspec.Ensures("bounds kept", m.Bounds() == b && wfRGB(m))
	got := m.RGBAt(qx, qy)
	if qx == x && qy == y && inside(x, y, b) {
		vspec.Ensures("stored pixel reads back", got == c)
	} else {
		vspec.Ensures("other pixels unchanged", got == was)
	}
}

// @ contract C02 (*RGB).SubImage
func contract_RGB_SubImage(m *RGB, r image.Rectangle, qx, qy int, x, y int, c lcolor.RGB) {
	vspec.Requires(wfRGB(m) && anyRect(r))
	b := m.Rect
	sub := m.SubImage(r)
	vspec.Ensures("bounds are the intersection", sameRect(sub.Bounds(), sectOf(r, b)))
	s, ok := sub.(*RGB)
	vspec.Ensures("same type", ok)
	vspec.Ensures("well formed", wfRGB(s))
	if inside(qx, qy, s.Bounds()) {
		vspec.Ensures("same pixel at the same place", s.RGBAt(qx, qy) == m.RGBAt(qx, qy))
	}
	vspec.Ensures("original unchanged", m.Rect == b)
	if !isEmpty(s.Rect) && inside(x, y, s.Rect) {
		// a store through either image is seen through the other
		was := m.RGBAt(qx, qy)
		s.SetRGB(x, y, c)
		vspec.Ensures("store through the sub-image is seen", m.RGBAt(x, y) == c && s.RGBAt(x, y) == c)
		if qx != x || qy != y {
			vspec.Ensures("store through the sub-image changes nothing else", m.RGBAt(qx, qy) == was)
		}
		was = m.RGBAt(qx, qy)
		m.SetRGB(x, y, lcolor.RGB{})
		vspec.Ensures("store through the original is seen", s.RGBAt(x, y) == lcolor.RGB{})
	}
}

// ---- GrayAlpha

func wfGrayAlpha(m *GrayAlpha) bool { return m != nil && wfBuf(len(m.Pix), m.Stride, m.Rect) }

// @ contract C01 NewGrayAlpha
func contract_NewGrayAlpha(r image.Rectangle, qx, qy int) {
	vspec.Requires(wfRect(r) && (r.Max.X-r.Min.X) < 1<<23 && (r.Max.Y-r.Min.Y) < 1<<23)
	m := NewGrayAlpha(r)
	vspec.Ensures("bounds as requested", m.Bounds() == r && wfGrayAlpha(m))
	vspec.Ensures("zero pixels", m.GrayAlphaAt(qx, qy) == lcolor.GrayAlpha{})
}

// @ contract C01 (*GrayAlpha).GrayAlphaAt
func contract_GrayAlpha_GrayAlphaAt(m *GrayAlpha, x, y int) {
	vspec.Requires(wfGrayAlpha(m))
	v := m.GrayAlphaAt(x, y)
	if !inside(x, y, m.Rect) {
		vspec.Ensures("zero outside", v == lcolor.GrayAlpha{})
	} else {
		vspec.Ensures("pixel inside", v == m.Pix[(y-m.Rect.Min.Y)*m.Stride+(x-m.Rect.Min.X)])
	}
}

// @ contract C01 (*GrayAlpha).SetGrayAlpha
func contract_GrayAlpha_SetGrayAlpha(m *GrayAlpha, x, y int, c lcolor.GrayAlpha, qx, qy int) {
	vspec.Requires(wfGrayAlpha(m))
	b, was := m.Rect, m.GrayAlphaAt(qx, qy)
	m.SetGrayAlpha(x, y, c)
	vspec.Ensures("bounds kept", m.Bounds() == b && wfGrayAlpha(m))
	got := m.GrayAlphaAt(qx, qy)
	if qx == x && qy == y && inside(x, y, b) {
		vspec.Ensures("stored pixel reads back", got == c)
	} else {
		vspec.Ensures("other pixels unchanged", got == was)
	}
}

// @ contract C02 (*GrayAlpha).SubImage
func contract_GrayAlpha_SubImage(m *GrayAlpha, r image.Rectangle, qx, qy int, x, y int, c lcolor.GrayAlpha) {
	vspec.Requires(wfGrayAlpha(m) && anyRect(r))
	b := m.Rect
	sub := m.SubImage(r)
	vspec.Ensures("bounds are the intersection", sameRect(sub.Bounds(), sectOf(r, b)))
	s, ok := sub.(*GrayAlpha)
	vspec.Ensures("same type", ok)
	vspec.Ensures("well formed", wfGrayAlpha(s))
	if inside(qx, qy, s.Bounds()) {
		vspec.Ensures("same pixel at the same place", s.GrayAlphaAt(qx, qy) == m.GrayAlphaAt(qx, qy))
	}
	vspec.Ensures("original unchanged", m.Rect == b)
	if !isEmpty(s.Rect) && inside(x, y, s.Rect) {
		// a store through either image is seen through the other
		was := m.GrayAlphaAt(qx, qy)
		s.SetGrayAlpha(x, y, c)
		vspec.Ensures("store through the sub-image is seen", m.GrayAlphaAt(x, y) == c && s.GrayAlphaAt(x, y) == c)
		if qx != x || qy != y {
			vspec.Ensures("store through the sub-image changes nothing else", m.GrayAlphaAt(qx, qy) == was)
		}
		was = m.GrayAlphaAt(qx, qy)
		m.SetGrayAlpha(x, y, lcolor.GrayAlpha{})
		vspec.Ensures("store through the original is seen", s.GrayAlphaAt(x, y) == lcolor.GrayAlpha{})
	}
}

// ---- PalettedAlpha

func wfPalettedAlpha(m *PalettedAlpha) bool { return m != nil && wfBuf(len(m.Pix), m.Stride, m.Rect) }

// @ contract C01 NewPalettedAlpha
func contract_NewPalettedAlpha(r image.Rectangle, qx, qy int, pal lcolor.AlphaPalette) {
	vspec.Requires(wfRect(r) && (r.Max.X-r.Min.X) < 1<<23 && (r.Max.Y-r.Min.Y) < 1<<23)
	m := NewPalettedAlpha(r, pal)
	vspec.Ensures("bounds as requested", m.Bounds() == r && wfPalettedAlpha(m))
	vspec.Ensures("zero pixels", m.IndexAlphaAt(qx, qy) == lcolor.IndexedAlpha{})
	vspec.Ensures("palette kept", vspec.Eq(m.Palette, pal))
}

// @ contract C01 (*PalettedAlpha).IndexAlphaAt
func contract_PalettedAlpha_IndexAlphaAt(m *PalettedAlpha, x, y int) {
	vspec.Requires(wfPalettedAlpha(m))
	v := m.IndexAlphaAt(x, y)
	if !inside(x, y, m.Rect) {
		vspec.Ensures("zero outside", v == lcolor.IndexedAlpha{})
	} else {
		vspec.Ensures("pixel inside", v == m.Pix[(y-m.Rect.Min.Y)*m.Stride+(x-m.Rect.Min.X)])
	}
}

// @ contract C01 (*PalettedAlpha).SetIndexAlpha
func contract_PalettedAlpha_SetIndexAlpha(m *PalettedAlpha, x, y int, c lcolor.IndexedAlpha, qx, qy int) {
	vspec.Requires(wfPalettedAlpha(m))
	b, was := m.Rect, m.IndexAlphaAt(qx, qy)
	m.SetIndexAlpha(x, y, c)
	vspec.Ensures("bounds kept", m.Bounds() == b && wfPalettedAlpha(m))
	got := m.IndexAlphaAt(qx, qy)
	if qx == x && qy == y && inside(x, y, b) {
		vspec.Ensures("stored pixel reads back", got == c)
	} else {
		vspec.Ensures("other pixels unchanged", got == was)
	}
}

// @ contract C02 (*PalettedAlpha).SubImage
func contract_PalettedAlpha_SubImage(m *PalettedAlpha, r image.Rectangle, qx, qy int, x, y int, c lcolor.IndexedAlpha) {
	vspec.Requires(wfPalettedAlpha(m) && anyRect(r))
	b := m.Rect
	sub := m.SubImage(r)
	vspec.Ensures("bounds are the intersection", sameRect(sub.Bounds(), sectOf(r, b)))
	s, ok := sub.(*PalettedAlpha)
	vspec.Ensures("same type", ok)
	vspec.Ensures("well formed", wfPalettedAlpha(s))
	if inside(qx, qy, s.Bounds()) {
		vspec.Ensures("same pixel at the same place", s.IndexAlphaAt(qx, qy) == m.IndexAlphaAt(qx, qy))
		vspec.Ensures("same palette", vspec.Eq(s.Palette, m.Palette))
	}
	vspec.Ensures("original unchanged", m.Rect == b)
	if !isEmpty(s.Rect) && inside(x, y, s.Rect) {
		// a store through either image is seen through the other
		was := m.IndexAlphaAt(qx, qy)
		s.SetIndexAlpha(x, y, c)
		vspec.Ensures("store through the sub-image is seen", m.IndexAlphaAt(x, y) == c && s.IndexAlphaAt(x, y) == c)
		if qx != x || qy != y {
			vspec.Ensures("store through the sub-image changes nothing else", m.IndexAlphaAt(qx, qy) == was)
		}
		was = m.IndexAlphaAt(qx, qy)
		m.SetIndexAlpha(x, y, lcolor.IndexedAlpha{})
		vspec.Ensures("store through the original is seen", s.IndexAlphaAt(x, y) == lcolor.IndexedAlpha{})
	}
}
