//go:build verif

package ora

import (
	"archive/zip"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume the positions, offsets and sizes in a document stay within 2^27

const far = limage.Lim / 8

// all and some are && and || that do not make the verifier treat cases separately.
func all(bs ...bool) bool {
	r := true
	for _, b := range bs {
		r = vspec.If(r, b, false)
	}
	return r
}

func some(bs ...bool) bool {
	r := false
	for _, b := range bs {
		r = vspec.If(r, true, b)
	}
	return r
}

func near(p image.Point, n int) bool {
	return all(-n <= p.X, p.X <= n, -n <= p.Y, p.Y <= n)
}

func empty(r image.Rectangle) bool { return some(r.Min.X >= r.Max.X, r.Min.Y >= r.Max.Y) }

func inside(x, y int, r image.Rectangle) bool {
	return all(r.Min.X <= x, x < r.Max.X, r.Min.Y <= y, y < r.Max.Y)
}

func lower(a, b int) int { return vspec.If(a < b, a, b) }
func upper(a, b int) int { return vspec.If(a < b, b, a) }

func rect(x0, y0, x1, y1 int) image.Rectangle {
	return image.Rectangle{Min: image.Point{X: x0, Y: y0}, Max: image.Point{X: x1, Y: y1}}
}

// @ modular (image.Rectangle).Empty
// @ for C24
func modular_Empty(r image.Rectangle) bool { return empty(r) }

// @ contract C24 (image.Rectangle).Empty
func contract_Empty(r image.Rectangle) {
	vspec.Ensures("no point", r.Empty() == empty(r))
}

// @ modular (image.Rectangle).Union
// @ for C24
func modular_Union(r, s image.Rectangle) image.Rectangle {
	u := rect(lower(r.Min.X, s.Min.X), lower(r.Min.Y, s.Min.Y), upper(r.Max.X, s.Max.X), upper(r.Max.Y, s.Max.Y))
	return vspec.If(empty(r), s, vspec.If(empty(s), r, u))
}

// @ contract C24 (image.Rectangle).Union
func contract_Union(r, s image.Rectangle) {
	vspec.Ensures("the smallest rectangle holding both", r.Union(s) == modular_Union(r, s))
}

// @ modular (image.Rectangle).Intersect
// @ for C24
func modular_Intersect(r, s image.Rectangle) image.Rectangle {
	b := rect(upper(r.Min.X, s.Min.X), upper(r.Min.Y, s.Min.Y), lower(r.Max.X, s.Max.X), lower(r.Max.Y, s.Max.Y))
	return vspec.If(empty(b), image.Rectangle{}, b)
}

// @ contract C24 (image.Rectangle).Intersect
func contract_Intersect(r, s image.Rectangle) {
	vspec.Ensures("what is in both", r.Intersect(s) == modular_Intersect(r, s))
}

// q is the point that the contract speaks about, in the coordinates of the parent; it is
// arbitrary.
func qx() int { return vspec.Pure[int]("qx") }
func qy() int { return vspec.Pure[int]("qy") }

// kth is the layer of a stack that the contract speaks about; it is arbitrary.
func kth() int { return vspec.Pure[int]("kth") }

// within tells whether no point of r is outside b.
func within(r, b image.Rectangle) bool {
	return some(empty(r), all(b.Min.X <= r.Min.X, b.Min.Y <= r.Min.Y, r.Max.X <= b.Max.X, r.Max.Y <= b.Max.Y))
}

// boundsOf is what C06 says about the bounds of a layered image.
//
// @ opaque
func boundsOf(g limage.Image) image.Rectangle { return vspec.Any[image.Rectangle]("bounds") }

// placed is the stack that was read, before it was changed.
var placed struct {
	any            bool
	limits, offset image.Point
	layers         limage.Image
	shift          image.Point // what makes the positions start at the origin
}

// @ modular (decoder).readStack
// @ for C24
func modular_readStack_place(d decoder, offset image.Point) (limage.Image, error) {
	if vspec.Any[bool]("layers cannot be read") {
		return nil, someError()
	}
	g := vspec.Any[limage.Image]("layers")
	vspec.Assume(g != nil)
	// nothing is outside the canvas
	vspec.Assume(vspec.Forall(0, len(g), func(i int) bool {
		b := g[i].LayerBounds
		return all(g[i].Image != nil, near(b.Min, 4*far), near(b.Max, 4*far), some(!empty(b), b == image.Rectangle{}))
	}))
	// contract_Image_Bounds_place in the contracts of limage
	b := boundsOf(g)
	vspec.Assume(all(near(b.Min, 4*far), near(b.Max, 4*far), some(!empty(b), b == image.Rectangle{})))
	if k := kth(); k >= 0 && k < len(g) {
		vspec.Assume(within(g[k].LayerBounds, b))
	}
	h := make(limage.Image, len(g))
	copy(h, g)
	placed.any, placed.limits, placed.offset, placed.layers = true, d.limits, offset, h
	placed.shift = b.Union(image.Rectangle{Max: b.Max}).Min
	return g, nil
}

// @ modular (vimagination.zapto.org/limage.Image).Bounds
// @ for C24
func modular_Image_Bounds_place(g limage.Image) image.Rectangle { return boundsOf(g) }

// @ modular (vimagination.zapto.org/limage.Layer).SubImageLayer
// @ for C24
func modular_SubImageLayer_place(l limage.Layer, r image.Rectangle) limage.Layer {
	vspec.Assert("a well-formed layer", l.Image != nil && limage.AnyRect(l.LayerBounds) && limage.AnyRect(r))
	vspec.Assert("ordered bounds", all(l.LayerBounds.Min.X <= l.LayerBounds.Max.X, l.LayerBounds.Min.Y <= l.LayerBounds.Max.Y))
	c := l
	c.LayerBounds = modular_Intersect(r, l.LayerBounds)
	c.Image = vspec.Any[image.Image]("cropped")
	vspec.Assume(c.Image != nil)
	crop.any, crop.arg = true, l
	if inside(qx(), qy(), c.LayerBounds) {
		vspec.Assume(vspec.Eq(c.At(qx(), qy()), l.At(qx(), qy())))
	}
	return c
}

func shifted(h, g limage.Layer, d image.Point) bool {
	return all(h.Invisible == g.Invisible, h.Mode == g.Mode, h.Transparency == g.Transparency, vspec.Eq(h.Image, g.Image),
		h.LayerBounds.Min.X == g.LayerBounds.Min.X-d.X, h.LayerBounds.Min.Y == g.LayerBounds.Min.Y-d.Y,
		h.LayerBounds.Max.X == g.LayerBounds.Max.X-d.X, h.LayerBounds.Max.Y == g.LayerBounds.Max.Y-d.Y)
}

// @ contract C24 (decoder).readLayer
// @ abstract vimagination.zapto.org/limage.step
func contract_readLayer_place(d decoder, offset image.Point) {
	open(&d)
	f, p := doc.file, doc.pos
	vspec.Requires(wfArchive(d.zr))
	vspec.Requires(p > 0 && kind(f, p-1) == isStart && isLayer(f, p-1))
	fs := d.zr.File
	s := start(f, p-1)
	group := s.Name.Local == "stack"
	m := metaOf(s.Attr, 0, meta{ok: true})
	xy := image.Point{X: m.x, Y: m.y}
	vspec.Requires(near(d.limits, far) && near(offset, far) && near(xy, far))
	vspec.Requires(-far <= qx() && qx() <= far && -far <= qy() && qy() <= far)
	if e := entryNo(fs, m.src, 0); !group && e >= 0 && e < len(fs) {
		b := pictureOf(fs[e]).Bounds()
		vspec.Requires(all(near(b.Min, far), near(b.Max, far), b.Min.X <= b.Max.X, b.Min.Y <= b.Max.Y))
	}
	placed.any, crop.any = false, false
	for _, k := range [...]int{0, 1} {
		k := k
		vspec.Candidate(func(i int) bool {
			return i+k >= 0 && !placed.any && doc.file == f && entryNo(fs, m.src, 0) == entryNo(fs, m.src, i+k)
		})
		vspec.Candidate(func(g limage.Image, n int) bool {
			h := placed.layers
			return placed.any && len(g) == len(h) &&
				vspec.Forall(0, n+k, func(i int) bool { return i >= len(g) || shifted(g[i], h[i], placed.shift) }) &&
				vspec.Forall(n+k, len(g), func(i int) bool { return i < 0 || shifted(g[i], h[i], image.Point{}) })
		})
	}
	l, err := d.readLayer(s, offset)
	vspec.EndCandidates()
	if err != nil {
		return
	}
	canvas := rect(-offset.X, -offset.Y, d.limits.X-offset.X, d.limits.Y-offset.Y)
	vspec.Ensures("nothing outside the canvas", within(l.LayerBounds, canvas))
	vspec.Ensures("no other empty bounds than those without a place", some(!empty(l.LayerBounds), l.LayerBounds == image.Rectangle{}))
	x, y := qx()-m.x, qy()-m.y
	in := inside(qx(), qy(), l.LayerBounds)
	if !group {
		im := pictureOf(fs[entryNo(fs, m.src, 0)])
		if inside(qx(), qy(), canvas) && inside(x, y, im.Bounds()) {
			vspec.Ensures("covers its image", in)
		}
		if in {
			vspec.Ensures("each pixel at its place", vspec.Eq(l.At(qx(), qy()), limage.Faded(im.At(x, y), 255-l.Transparency)))
		}
		return
	}
	vspec.Ensures("its layers are placed inside it", placed.any && placed.limits == d.limits && placed.offset.X == offset.X+m.x && placed.offset.Y == offset.Y+m.y)
	g := placed.layers
	if k := kth(); k >= 0 && k < len(g) && inside(qx(), qy(), canvas) && inside(x, y, g[k].LayerBounds) {
		vspec.Ensures("covers its layers", in)
	}
	if in {
		moved(l, g, x, y)
		vspec.Ensures("each pixel at its place", vspec.Eq(l.At(qx(), qy()), limage.Faded(limage.Flat(g, 0, x, y), 255-l.Transparency)))
	}
}

// moved is the lemma that layers that were all moved look the same, moved.
func moved(l limage.Layer, g limage.Image, x, y int) {
	if crop.any {
		l = crop.arg
	}
	h, ok := l.Image.(limage.Image)
	if !ok {
		return
	}
	u, v := qx()-l.LayerBounds.Min.X, qy()-l.LayerBounds.Min.Y
	vspec.Candidate(func(i int) bool {
		return i <= len(g) && len(h) == len(g) && vspec.Eq(limage.Flat(h, i, u, v), limage.Flat(g, i, x, y))
	})
	for i := len(g); i > 0; i-- {
	}
	vspec.EndCandidates()
}

// @ contract C24 Decode
func contract_Decode_place(zr *zip.Reader) {
	vspec.Requires(wfArchive(zr))
	st := stackOf(zr.File, 0, nil)
	h := headerOf(st.file, 0)
	placed.any = false
	vspec.Candidate(func() bool { return !placed.any })
	im, err := Decode(zr)
	vspec.EndCandidates()
	if err == nil {
		vspec.Ensures("the canvas is the size of the image", placed.any && placed.limits.X == h.w && placed.limits.Y == h.h)
		vspec.Ensures("starts at the origin", placed.offset.X == 0 && placed.offset.Y == 0)
		vspec.Ensures("as many layers", len(im) == len(placed.layers))
		if k := kth(); k >= 0 && k < len(im) {
			vspec.Ensures("the layers stay in their place", shifted(im[k], placed.layers[k], image.Point{}))
		}
	}
}
