//go:build verif

package limage

import "vimagination.zapto.org/limage/internal/vspec"

// @ contract C03 (*RGB).Opaque
func contract_RGB_Opaque(m *RGB) {
	vspec.Requires(wfRGB(m))
	vspec.Ensures("always opaque", m.Opaque())
}

// @ contract C03 (*GrayAlpha).Opaque
func contract_GrayAlpha_Opaque(m *GrayAlpha, qx, qy int) {
	vspec.Requires(wfGrayAlpha(m))
	if m.Opaque() {
		if inside(qx, qy, m.Rect) {
			vspec.Ensures("true only if every pixel is opaque", m.GrayAlphaAt(qx, qy).A == 255)
		}
	} else {
		vspec.Ensures("false only if some pixel is translucent", !vspec.Forall(m.Rect.Min.Y, m.Rect.Max.Y, func(y int) bool {
			return vspec.Forall(m.Rect.Min.X, m.Rect.Max.X, func(x int) bool {
				return m.Pix[(y-m.Rect.Min.Y)*m.Stride+(x-m.Rect.Min.X)].A == 255
			})
		}))
	}
}

// @ contract C03 (*PalettedAlpha).Opaque
func contract_PalettedAlpha_Opaque(m *PalettedAlpha, qx, qy int) {
	vspec.Requires(wfPalettedAlpha(m))
	if m.Opaque() {
		if inside(qx, qy, m.Rect) {
			vspec.Ensures("true only if every pixel is opaque", m.IndexAlphaAt(qx, qy).A == 255)
		}
	} else {
		vspec.Ensures("false only if some pixel is translucent", !vspec.Forall(m.Rect.Min.Y, m.Rect.Max.Y, func(y int) bool {
			return vspec.Forall(m.Rect.Min.X, m.Rect.Max.X, func(x int) bool {
				return m.Pix[(y-m.Rect.Min.Y)*m.Stride+(x-m.Rect.Min.X)].A == 255
			})
		}))
	}
}
