//go:build verif

package limage

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume the compositing of two colours is abstracted in C05 and C06 to one function of mode, bottom and top (C07-C09 say which); Dissolve draws the same random number on both sides

// flat is the colour of the layers from i on, composed bottom to top.
//
// @ opaque
func flat(g Image, i, x, y int) color.Color {
	if i >= len(g) {
		return color.Alpha{}
	}
	below := flat(g, i+1, x, y)
	l := g[i]
	if l.Invisible || !inside(x, y, l.LayerBounds) {
		return below
	}
	_, pal := g[0].ColorModel().(color.Palette)
	return step(below, l.At(x, y), l.Mode, pal)
}

// step composes one layer with what is below it.
func step(below, top color.Color, mode Composite, pal bool) color.Color {
	if pal && mode != CompositeDissolve {
		if n := straight(top); n.A > 0x7fff {
			return color.NRGBA64{R: n.R, G: n.G, B: n.B, A: 0xffff}
		}
		return below
	}
	return mode.Composite(below, top)
}

// @ modular transparency
// @ for C05 C06 C24
func modular_transparency(c color.Color, o uint8) color.Color {
	r := vspec.Pure[color.Color]("transparency", c, o)
	vspec.Assume(r != nil)
	return r
}

// wfLayer: the coordinates of the layer are in range and its image is well formed.
func wfLayer(l Layer) bool { return l.Image != nil && wfRect(l.LayerBounds) }

// @ contract C06,C24 (Image).At
// @ abstract (Composite).Composite
func contract_Image_At(g Image, x, y int) {
	vspec.Requires(coord(x) && coord(y))
	vspec.Requires(vspec.Forall(0, len(g), func(i int) bool { return wfLayer(g[i]) }))
	vspec.Candidate(func(c color.Color, i int) bool { return vspec.Eq(c, flat(g, i+1, x, y)) })
	vspec.Candidate(func(c color.Color, i int) bool { return vspec.Eq(c, flat(g, i, x, y)) })
	vspec.Candidate(func(c color.Color, i int) bool { return vspec.Eq(c, flat(g, len(g)-i, x, y)) })
	vspec.Candidate(func(c color.Color, i int) bool { return vspec.Eq(c, flat(g, len(g)-1-i, x, y)) })
	c := g.At(x, y)
	vspec.Ensures("the visible covering layers composed bottom to top", vspec.Eq(c, flat(g, 0, x, y)))
}

// hull is the smallest rectangle holding the non-empty layers from i on.
//
// @ opaque
func hull(g Image, i int) image.Rectangle {
	if i <= 0 {
		return image.Rectangle{}
	}
	r, b := hull(g, i-1), g[i-1].LayerBounds
	if isEmpty(b) {
		return r
	}
	if isEmpty(r) {
		return b
	}
	if b.Min.X < r.Min.X {
		r.Min.X = b.Min.X
	}
	if b.Min.Y < r.Min.Y {
		r.Min.Y = b.Min.Y
	}
	if b.Max.X > r.Max.X {
		r.Max.X = b.Max.X
	}
	if b.Max.Y > r.Max.Y {
		r.Max.Y = b.Max.Y
	}
	return r
}

// @ contract C06 (Image).Bounds
func contract_Image_Bounds(g Image) {
	vspec.Requires(vspec.Forall(0, len(g), func(i int) bool { return anyRect(g[i].LayerBounds) }))
	vspec.Candidate(func(r image.Rectangle, i int) bool { return sameRect(r, hull(g, i+1)) && anyRect(r) })
	vspec.Candidate(func(r image.Rectangle, i int) bool { return sameRect(r, hull(g, i)) && anyRect(r) })
	vspec.Ensures("the smallest rectangle holding every layer", sameRect(g.Bounds(), hull(g, len(g))))
}

func oneOf(a, b bool) bool { return vspec.If(a, true, b) }
func both(a, b bool) bool  { return vspec.If(a, b, false) }

func zeroOrNot(r image.Rectangle) bool {
	return oneOf(both(r.Min.X < r.Max.X, r.Min.Y < r.Max.Y), both(both(r.Min.X == 0, r.Min.Y == 0), both(r.Max.X == 0, r.Max.Y == 0)))
}

func upTo(r image.Rectangle, n int) bool {
	return both(both(both(-n <= r.Min.X, r.Min.X <= n), both(-n <= r.Min.Y, r.Min.Y <= n)), both(both(-n <= r.Max.X, r.Max.X <= n), both(-n <= r.Max.Y, r.Max.Y <= n)))
}

func covers(r, b image.Rectangle) bool {
	return oneOf(oneOf(b.Min.X >= b.Max.X, b.Min.Y >= b.Max.Y), both(both(r.Min.X <= b.Min.X, r.Min.Y <= b.Min.Y), both(b.Max.X <= r.Max.X, b.Max.Y <= r.Max.Y)))
}

// what the contract of C24 in package ora uses
//
// @ contract C24 (Image).Bounds
func contract_Image_Bounds_place(g Image, k, n int) {
	vspec.Requires(0 <= k && k < len(g) && 0 <= n && n <= lim)
	vspec.Requires(vspec.Forall(0, len(g), func(i int) bool { return both(upTo(g[i].LayerBounds, n), zeroOrNot(g[i].LayerBounds)) }))
	vspec.Candidate(func(r image.Rectangle, i int) bool {
		return upTo(r, n) && zeroOrNot(r) && oneOf(k > i, covers(r, g[k].LayerBounds))
	})
	vspec.Candidate(func(r image.Rectangle, i int) bool {
		return upTo(r, n) && zeroOrNot(r) && oneOf(k >= i, covers(r, g[k].LayerBounds))
	})
	r := g.Bounds()
	vspec.Ensures("in range", upTo(r, n))
	vspec.Ensures("without a place only if all layers are", zeroOrNot(r))
	vspec.Ensures("covers its layers", covers(r, g[k].LayerBounds))
}

// @ contract C06 (Image).ColorModel
func contract_Image_ColorModel(g Image) {
	vspec.Requires(len(g) > 0 && g[0].Image != nil)
	vspec.Ensures("the colour model of the first layer", vspec.Eq(g.ColorModel(), g[0].ColorModel()))
}
