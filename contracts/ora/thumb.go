//go:build verif

package ora

import (
	"image"

	"vimagination.zapto.org/limage/internal/vspec"
)

// @ contract C26 newThumbnail
func contract_thumbnail(m image.Image, x, y int) {
	vspec.Requires(m != nil)
	w, h := sizes(m)
	vspec.Requires(1 <= w && 1 <= h && (w > 256 || h > 256))
	scaled(newThumbnail(m), m, x, y)
}

// scaled: t is a scaled copy of m.
func scaled(t, m image.Image, x, y int) {
	b := m.Bounds()
	w, h := b.Max.X-b.Min.X, b.Max.Y-b.Min.Y
	tb := t.Bounds()
	tw, th := tb.Max.X, tb.Max.Y
	vspec.Ensures("at the origin and not empty", tb.Min.X == 0 && tb.Min.Y == 0 && tw >= 1 && th >= 1)
	vspec.Ensures("at most 256 pixels a side", tw <= 256 && th <= 256)
	if w >= h {
		vspec.Ensures("the larger side has 256 pixels", tw == 256)
		vspec.Ensures("the other side in proportion", th*w-256*h <= w && 256*h-th*w <= w)
	}
	if h >= w {
		vspec.Ensures("the larger side has 256 pixels", th == 256)
		vspec.Ensures("the other side in proportion", tw*h-256*w <= h && 256*w-tw*h <= h)
	}
	vspec.Requires(0 <= x && x < tw && 0 <= y && y < th)
	px, py := b.Min.X+x*w/tw, b.Min.Y+y*h/th
	vspec.Ensures("the pixel lies in the image", px < b.Max.X && py < b.Max.Y)
	vspec.Ensures("the pixel at the proportional place", vspec.Eq(t.At(x, y), m.At(px, py)))
	vspec.Ensures("the colour model of the image", vspec.Eq(t.ColorModel(), m.ColorModel()))
}
