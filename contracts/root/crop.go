//go:build verif

package limage

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume the images inside layers are well formed at every depth: no nil image, layer or mask, coordinates in range, masks with as many pixels as their bounds need

// gx, gy is the point that the contract of shiftImage speaks about; it is arbitrary.
func gx() int { return vspec.Pure[int]("gx") }
func gy() int { return vspec.Pure[int]("gy") }

// what an image at any depth shows is given by its own contract
//
// @ modular (Image).At
// @ for C05 C24
func modular_Image_At(g Image, x, y int) color.Color {
	vspec.Assert("coordinates in range", -4*lim <= x && x <= 4*lim && -4*lim <= y && y <= 4*lim)
	return flat(g, 0, x, y)
}

// @ modular shiftImage
// @ for C05 C24
func modular_shiftImage(im image.Image, d image.Point) image.Image {
	vspec.Assert("there is an image", im != nil)
	vspec.Assert("offset in range", -2*lim <= d.X && d.X <= 2*lim && -2*lim <= d.Y && d.Y <= 2*lim)
	r := vspec.Any[image.Image]("shifted")
	vspec.Assume(r != nil)
	vspec.Assume(vspec.Eq(r.At(gx(), gy()), im.At(gx()+d.X, gy()+d.Y)))
	return r
}

func wfLayers(g Image) bool {
	return vspec.Forall(0, len(g), func(i int) bool { return wfLayer(g[i]) })
}

func wfContent(im image.Image) bool {
	switch im := im.(type) {
	case Image:
		return wfLayers(im)
	case *Image:
		return im != nil && wfLayers(*im)
	case Text:
		return im.Image != nil
	case *Text:
		return im != nil && im.Image != nil
	case MaskedImage:
		return im.Image != nil && wfGray(im.Mask)
	case *MaskedImage:
		return im != nil && im.Image != nil && wfGray(im.Mask)
	}
	return im != nil
}

// split treats the kinds of image separately.
func split(im image.Image) {
	_, a := im.(Image)
	_, b := im.(*Image)
	_, c := im.(Text)
	_, d := im.(*Text)
	_, e := im.(MaskedImage)
	_, f := im.(*MaskedImage)
	vspec.Split(a)
	vspec.Split(b)
	vspec.Split(c)
	vspec.Split(d)
	vspec.Split(e)
	vspec.Split(f)
}

func layersOf(im image.Image) (Image, bool) {
	switch im := im.(type) {
	case Image:
		return im, true
	case *Image:
		return *im, true
	}
	return nil, false
}

// @ contract C05,C24 shiftImage
// @ abstract step
func contract_shiftImage(im image.Image, d image.Point, qx, qy int) {
	vspec.Requires(wfContent(im))
	vspec.Requires(-2*lim <= d.X && d.X <= 2*lim && -2*lim <= d.Y && d.Y <= 2*lim)
	vspec.Requires(coord(gx()) && coord(gy()) && coord(gx()+d.X) && coord(gy()+d.Y) && coord(qx) && coord(qy))
	split(im)
	was := im.At(qx, qy)
	vspec.Candidate(func(h Image, n int) bool {
		g, ok := layersOf(im)
		return ok && len(h) == len(g) && vspec.Forall(0, n, func(i int) bool { return i >= len(g) || sameShifted(h[i], g[i], d) })
	})
	vspec.Candidate(func(h Image, n int) bool {
		g, ok := layersOf(im)
		return ok && len(h) == len(g) && vspec.Forall(0, n+1, func(i int) bool { return i >= len(g) || sameShifted(h[i], g[i], d) })
	})
	r := shiftImage(im, d)
	vspec.EndCandidates()
	vspec.Ensures("an image", r != nil)
	if g, ok := layersOf(im); ok {
		if h, ok := layersOf(r); ok {
			vspec.Ensures("as many layers", len(h) == len(g))
			vspec.Candidate(func(i int) bool {
				return i <= len(g) && vspec.Eq(flat(h, i, gx(), gy()), flat(g, i, gx()+d.X, gy()+d.Y))
			})
			for i := len(g); i > 0; i-- {
			}
			vspec.EndCandidates()
		}
	}
	vspec.Ensures("the same colours, moved", vspec.Eq(r.At(gx(), gy()), im.At(gx()+d.X, gy()+d.Y)))
	vspec.Ensures("the original unchanged", vspec.Eq(im.At(qx, qy), was))
}

func sameShifted(h, g Layer, d image.Point) bool {
	return h.Invisible == g.Invisible && h.Mode == g.Mode && h.Transparency == g.Transparency && vspec.Eq(h.Image, g.Image) &&
		h.LayerBounds.Min.X == g.LayerBounds.Min.X-d.X && h.LayerBounds.Min.Y == g.LayerBounds.Min.Y-d.Y &&
		h.LayerBounds.Max.X == g.LayerBounds.Max.X-d.X && h.LayerBounds.Max.Y == g.LayerBounds.Max.Y-d.Y
}

// @ contract C05,C24 (Layer).SubImageLayer
func contract_Layer_SubImageLayer(l Layer, r image.Rectangle, qx, qy int) {
	vspec.Requires(wfLayer(l) && anyRect(r))
	b := sectOf(r, l.LayerBounds)
	vspec.Requires(gx() == qx-b.Min.X && gy() == qy-b.Min.Y)
	s := l.SubImageLayer(r)
	cropped(l, s, b, qx, qy)
}

// @ contract C05 (Layer).SubImage
func contract_Layer_SubImage(l Layer, r image.Rectangle, qx, qy int) {
	vspec.Requires(wfLayer(l) && anyRect(r))
	b := sectOf(r, l.LayerBounds)
	vspec.Requires(gx() == qx-b.Min.X && gy() == qy-b.Min.Y)
	s, ok := l.SubImage(r).(Layer)
	vspec.Ensures("a layer", ok)
	cropped(l, s, b, qx, qy)
}

func cropped(l, s Layer, b image.Rectangle, qx, qy int) {
	vspec.Ensures("bounds are the intersection", sameRect(s.Bounds(), b))
	vspec.Ensures("name, mode, visibility and transparency kept", s.Name == l.Name && s.Mode == l.Mode && s.Invisible == l.Invisible && s.Transparency == l.Transparency)
	if inside(qx, qy, b) {
		vspec.Ensures("same colour at the same place", vspec.Eq(s.At(qx, qy), l.At(qx, qy)))
	}
}

// @ contract C05 (Image).SubImage
// @ abstract (Layer).SubImageLayer
func contract_Image_SubImage(g Image, r image.Rectangle, k int) {
	vspec.Requires(anyRect(r) && 0 <= k && k < len(g))
	was, want := g[k], g[k].SubImageLayer(r)
	vspec.Candidate(func(h Image, n int) bool { return len(h) == len(g) && (k > n || vspec.Eq(h[k], want)) })
	vspec.Candidate(func(h Image, n int) bool { return len(h) == len(g) && (k >= n || vspec.Eq(h[k], want)) })
	vspec.Candidate(func(h Image, n int) bool { return len(h) == n && (k >= n || vspec.Eq(h[k], want)) })
	vspec.Candidate(func(h Image, n int) bool { return len(h) == n+1 && (k > n || vspec.Eq(h[k], want)) })
	h, ok := g.SubImage(r).(Image)
	vspec.Ensures("a layered image", ok)
	vspec.Ensures("as many layers", len(h) == len(g))
	vspec.Ensures("each layer cropped, in the same order", vspec.Eq(h[k], want))
	vspec.Ensures("the original unchanged", vspec.Eq(g[k], was))
}
