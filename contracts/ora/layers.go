//go:build verif

package ora

import (
	"archive/zip"
	"encoding/xml"
	"image"
	"io"
	"strconv"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume decoded images are single images, not layered ones, with bounds that do not start left of or above the origin

// meta is what the attributes of an element say about its layer.
type meta struct {
	ok           bool
	name, src    string
	x, y         int
	mode         limage.Composite
	hidden       bool
	transparency uint8
}

// modeOf is the mode with an OpenRaster name; m if there is none.
func modeOf(name string, m limage.Composite) limage.Composite {
	for _, t := range [...]struct {
		name string
		mode limage.Composite
	}{
		{"svg:src-over", limage.CompositeNormal},
		{"svg:multiply", limage.CompositeMultiply},
		{"svg:screen", limage.CompositeScreen},
		{"svg:overlay", limage.CompositeOverlay},
		{"svg:darken", limage.CompositeDarkenOnly},
		{"svg:lighten", limage.CompositeLightenOnly},
		{"svg:color-dodge", limage.CompositeDodge},
		{"svg:color-burn", limage.CompositeBurn},
		{"svg:hard-light", limage.CompositeHardLight},
		{"svg:soft-light", limage.CompositeSoftLight},
		{"svg:difference", limage.CompositeDifference},
		{"svg:color", limage.CompositeColor},
		{"svg:luminosity", limage.CompositeLuminosity},
		{"svg:hue", limage.CompositeHue},
		{"svg:saturation", limage.CompositeSaturation},
		{"svg:plus", limage.CompositePlus},
		{"svg:dst-in", limage.CompositeDestinationIn},
		{"svg:dst-out", limage.CompositeDestinationOut},
		{"svg:src-atop", limage.CompositeSourceAtop},
		{"svg:dst-atop", limage.CompositeDestinationAtop},
	} {
		m = vspec.If(name == t.name, t.mode, m)
	}
	return m
}

// metaOf reads the attributes from number i on; m is what those before have said.
//
// @ opaque
func metaOf(as []xml.Attr, i int, m meta) meta {
	if i < 0 || i >= len(as) {
		return m
	}
	n, v := as[i].Name.Local, as[i].Value
	x, notInt := strconv.Atoi(v)
	o, notFloat := strconv.ParseFloat(v, 64)
	bad := vspec.If(n == "opacity", notFloat != nil, vspec.If(n == "x", notInt != nil, vspec.If(n == "y", notInt != nil, false)))
	m.name = vspec.If(n == "name", v, m.name)
	m.src = vspec.If(n == "src", v, m.src)
	m.x = vspec.If(n == "x", x, m.x)
	m.y = vspec.If(n == "y", x, m.y)
	m.hidden = vspec.If(n == "visibility", v == "hidden", m.hidden)
	m.mode = vspec.If(n == "composite-op", modeOf(v, m.mode), m.mode)
	m.transparency = vspec.If(n == "opacity", uint8(255*(1-o)+0.5), m.transparency)
	return vspec.If(bad, meta{}, metaOf(as, i+1, m))
}

// @ modular processLayerAttrs
// @ for C23 C24
func modular_processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
	m := metaOf(s.Attr, 0, meta{ok: true})
	if !m.ok {
		return "", someError()
	}
	*l = limage.Layer{Name: m.name, Mode: m.mode, Invisible: m.hidden, Transparency: m.transparency}
	l.LayerBounds.Min = image.Point{X: m.x, Y: m.y}
	return m.src, nil
}

// @ contract C23,C24 processLayerAttrs
func contract_processLayerAttrs(s xml.StartElement) {
	var l limage.Layer
	for _, k := range [...]int{0, 1} {
		k := k
		vspec.Candidate(func(src string, i int) bool {
			return i+k >= 0 && vspec.Eq(metaOf(s.Attr, 0, meta{ok: true}), metaOf(s.Attr, i+k, said(l, src))) && rest(l)
		})
	}
	src, err := processLayerAttrs(&l, s)
	vspec.EndCandidates()
	m := metaOf(s.Attr, 0, meta{ok: true})
	vspec.Ensures("fails exactly when a number cannot be read", (err == nil) == m.ok)
	if err == nil {
		vspec.Ensures("what the attributes say", vspec.Eq(m, said(l, src)) && rest(l))
	}
}

func said(l limage.Layer, src string) meta {
	return meta{true, l.Name, src, l.LayerBounds.Min.X, l.LayerBounds.Min.Y, l.Mode, l.Invisible, l.Transparency}
}

func rest(l limage.Layer) bool {
	return l.Image == nil && l.LayerBounds.Max == image.Point{}
}

// isLayer tells whether the element at p is a layer or a group of layers.
func isLayer(f *zip.File, p int) bool {
	n := start(f, p).Name.Local
	return vspec.If(n == "stack", true, n == "layer")
}

// entryNo is the number of the first entry with a name from number i on, or -1.
//
// @ opaque
func entryNo(fs []*zip.File, name string, i int) int {
	if i < 0 || i >= len(fs) {
		return -1
	}
	if fs[i].Name == name {
		return i
	}
	return entryNo(fs, name, i+1)
}

func decodes(f *zip.File) bool { return vspec.Pure[bool]("decodes", f) }

// pictureOf is the image in an entry.
func pictureOf(f *zip.File) image.Image {
	im := vspec.Pure[image.Image]("picture", f)
	vspec.Assume(im != nil)
	_, a := im.(limage.Image)
	_, b := im.(*limage.Image)
	vspec.Assume(!a && !b)
	m := im.Bounds().Min
	vspec.Assume(m.X >= 0 && m.Y >= 0)
	return im
}

// @ model image.Decode
func model_Decode(r io.Reader) (image.Image, string, error) {
	o, ok := r.(*opened)
	vspec.Assert("decodes an entry", ok)
	if !decodes(o.file) {
		return nil, "", someError()
	}
	return pictureOf(o.file), vspec.Any[string]("format"), nil
}

// good tells whether the layers from p on, to the end of their stack, can be read.
//
// @ opaque
func good(fs []*zip.File, f *zip.File, p int) bool {
	if p < 0 || p >= tokens(f) {
		return false
	}
	switch kind(f, p) {
	case isStart:
		q := list(f, p+1)
		if q < 0 || isLayer(f, p) && !goodLayer(fs, f, p+1) {
			return false
		}
		return good(fs, f, q)
	case isEnd:
		return true
	}
	return good(fs, f, p+1)
}

// goodLayer tells whether the layer whose content starts at p can be read.
//
// @ opaque
func goodLayer(fs []*zip.File, f *zip.File, p int) bool {
	s := start(f, p-1)
	m := metaOf(s.Attr, 0, meta{ok: true})
	if !m.ok || list(f, p) < 0 {
		return false
	}
	if s.Name.Local == "stack" {
		return good(fs, f, p)
	}
	e := entryNo(fs, m.src, 0)
	return e >= 0 && e < len(fs) && opens(fs[e]) && decodes(fs[e])
}

// layerAt is what reading the layer whose content starts at p gives.
func layerAt(zr *zip.Reader, f *zip.File, p int, limits, offset image.Point) limage.Layer {
	return vspec.Pure[limage.Layer]("layer", zr, f, p, limits.X, limits.Y, offset.X, offset.Y)
}

// children adds the layers from p on, to the end of their stack.
//
// @ opaque
func children(s vspec.Seq, zr *zip.Reader, f *zip.File, p int, limits, offset image.Point) vspec.Seq {
	if p < 0 || p >= tokens(f) {
		return s
	}
	switch kind(f, p) {
	case isStart:
		if isLayer(f, p) {
			s = vspec.Snoc(s, layerAt(zr, f, p+1, limits, offset))
		}
		return children(s, zr, f, list(f, p+1), limits, offset)
	case isEnd:
		return s
	}
	return children(s, zr, f, p+1, limits, offset)
}

// @ modular (decoder).readLayer
// @ for C23 C24
func modular_readLayer(d decoder, s xml.StartElement, offset image.Point) (limage.Layer, error) {
	p := doc.pos
	vspec.Assert("the element before", p > 0 && kind(doc.file, p-1) == isStart && isLayer(doc.file, p-1) && vspec.Eq(s, start(doc.file, p-1)))
	if !goodLayer(d.zr.File, doc.file, p) {
		doc.pos = vspec.Any[int]("position")
		return vspec.Any[limage.Layer]("partial layer"), someError()
	}
	doc.pos = list(doc.file, p)
	return layerAt(d.zr, doc.file, p, d.limits, offset), nil
}

// @ contract C23,C24 (decoder).readStack
func contract_readStack(d decoder, offset image.Point) {
	open(&d)
	vspec.Requires(wfArchive(d.zr))
	f, p, fs := doc.file, doc.pos, d.zr.File
	vspec.Candidate(func() bool {
		return doc.file == f && doc.pos >= 0 && list(f, doc.pos) == list(f, p) && good(fs, f, doc.pos) == good(fs, f, p)
	})
	vspec.Candidate(func(i limage.Image) bool {
		return vspec.Eq(children(vspec.View(i), d.zr, f, doc.pos, d.limits, offset), children(vspec.Nil(), d.zr, f, p, d.limits, offset))
	})
	i, err := d.readStack(offset)
	vspec.EndCandidates()
	vspec.Ensures("fails exactly when a layer cannot be read", (err == nil) == good(fs, f, p))
	if err != nil {
		vspec.Ensures("no partial image", i == nil)
		return
	}
	vspec.Ensures("a layer for every layer and stack element directly inside, in their order",
		vspec.Eq(vspec.View(i), children(vspec.Nil(), d.zr, f, p, d.limits, offset)))
	vspec.Ensures("stops behind the end of the stack", doc.pos == list(f, p))
}

// got is the last stack that was read, where, and one of its layers.
var got struct {
	any            bool
	pos            int
	limits, offset image.Point
	layers         limage.Image
	k              int
	child          limage.Layer
}

// @ modular (decoder).readStack
// @ for C23
func modular_readStack(d decoder, offset image.Point) (limage.Image, error) {
	p := doc.pos
	if !good(d.zr.File, doc.file, p) {
		doc.pos = vspec.Any[int]("position")
		return nil, someError()
	}
	vspec.Assume(list(doc.file, p) >= 0)
	doc.pos = list(doc.file, p)
	g := vspec.Any[limage.Image]("layers")
	k := vspec.Any[int]("child")
	vspec.Assume(k >= 0 && g != nil)
	got.any, got.pos, got.limits, got.offset, got.layers, got.k = true, p, d.limits, offset, g, k
	if k < len(g) {
		got.child = g[k]
	}
	return g, nil
}

// crop is the last layer that was cropped, and what it became.
var crop struct {
	any      bool
	arg, res limage.Layer
}

// @ model (vimagination.zapto.org/limage.Layer).SubImageLayer
// @ for C23
func model_SubImageLayer(l limage.Layer, r image.Rectangle) limage.Layer {
	c := l
	c.Image = vspec.Any[image.Image]("cropped")
	c.LayerBounds = vspec.Any[image.Rectangle]("bounds")
	crop.any, crop.arg, crop.res = true, l, c
	return c
}

// @ model (vimagination.zapto.org/limage.Image).Bounds
// @ for C23
func model_Image_Bounds(g limage.Image) image.Rectangle {
	return vspec.Any[image.Rectangle]("bounds")
}

// @ contract C23 (decoder).readLayer
func contract_readLayer(d decoder, offset image.Point) {
	open(&d)
	f, p := doc.file, doc.pos
	vspec.Requires(wfArchive(d.zr))
	vspec.Requires(p > 0 && kind(f, p-1) == isStart && isLayer(f, p-1))
	fs := d.zr.File
	s := start(f, p-1)
	group := s.Name.Local == "stack"
	m := metaOf(s.Attr, 0, meta{ok: true})
	got.any, crop.any = false, false
	for _, k := range [...]int{0, 1} {
		k := k
		vspec.Candidate(func(i int) bool {
			return i+k >= 0 && !got.any && doc.file == f && doc.pos == p && entryNo(fs, m.src, 0) == entryNo(fs, m.src, i+k)
		})
	}
	vspec.Candidate(func(g limage.Image) bool {
		return got.any && (got.k >= len(g) || sameLayer(g[got.k], got.child))
	})
	l, err := d.readLayer(s, offset)
	vspec.EndCandidates()
	vspec.Ensures("fails exactly when the layer cannot be read", (err == nil) == goodLayer(fs, f, p))
	if err != nil {
		return
	}
	vspec.Ensures("stops behind the end of the element", doc.file == f && doc.pos == list(f, p))
	vspec.Ensures("name, mode, visibility and transparency as the attributes say",
		l.Name == m.name && l.Mode == m.mode && l.Invisible == m.hidden && l.Transparency == m.transparency)
	im := l.Image
	if crop.any {
		vspec.Ensures("the cropped image", vspec.Eq(im, crop.res.Image))
		im = crop.arg.Image
	}
	if !group {
		vspec.Ensures("the image from the entry the source names", vspec.Eq(im, pictureOf(fs[entryNo(fs, m.src, 0)])))
		return
	}
	vspec.Ensures("the stack inside is read", got.any && got.pos == p && got.limits == d.limits)
	g, ok := im.(limage.Image)
	vspec.Ensures("a group", ok)
	if ok {
		vspec.Ensures("as many layers", len(g) == len(got.layers))
		if got.k < len(g) {
			vspec.Ensures("the same layers in the same order", sameLayer(g[got.k], got.child))
		}
	}
}

func sameLayer(a, b limage.Layer) bool {
	return a.Name == b.Name && a.Mode == b.Mode && a.Invisible == b.Invisible && a.Transparency == b.Transparency && vspec.Eq(a.Image, b.Image)
}

// @ contract C23 Decode
func contract_Decode(zr *zip.Reader) {
	vspec.Requires(wfArchive(zr))
	st := stackOf(zr.File, 0, nil)
	h := headerOf(st.file, 0)
	p := body(st.file, h.pos)
	got.any = false
	vspec.Candidate(func() bool {
		return doc.file == st.file && !got.any && body(st.file, doc.pos) == p
	})
	im, err := Decode(zr)
	vspec.EndCandidates()
	vspec.Ensures("fails exactly when something is missing or invalid",
		(err == nil) == (st.ok && opens(st.file) && h.ok && p >= 0 && good(zr.File, st.file, p)))
	if err != nil {
		vspec.Ensures("no image", im == nil)
		return
	}
	vspec.Ensures("the layers of the first stack", got.any && got.pos == p && vspec.Eq(im, got.layers))
	if got.k < len(im) {
		vspec.Ensures("unchanged", vspec.Eq(im[got.k], got.child))
	}
}

var (
	_ *zip.File
	_ io.Reader
)
