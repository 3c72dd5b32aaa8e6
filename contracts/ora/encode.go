//go:build verif

package ora

import (
	"archive/zip"
	"encoding/xml"
	"image"
	"image/png"
	"io"
	"strconv"
	"unsafe"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume archive/zip, encoding/xml and image/png do what their documentation says, or report a failure: an entry can be written until the next one is made, the elements reach the entry when the encoder is flushed, and the archive is complete when it is closed
//@ assume images inside layers are well formed at every depth: no nil image

// kinds of entries in the archive
const (
	mimeEntry = iota + 1
	stackEntry
	mergedEntry
	thumbEntry
	layerEntry
)

// made is the archive that was made.
var made struct {
	failed  bool // a step has failed
	closed  bool
	dest    io.Writer
	entries int // how many entries
	first   int
	stored  bool
	mimes   int
	stacks  int
	mergeds int
	thumbs  int
	mime    string
	head    string // what precedes the elements of the document
	w, h    string // attributes of the image element
	images  int
	merged  image.Image
	thumb   image.Image
	unsent  bool      // elements are waiting in the encoder
	layers  vspec.Seq // the names of the other entries and the images in them
	doc     vspec.Seq // the elements of the document
}

func fail() error {
	err := vspec.Any[error]("failure")
	if err != nil {
		made.failed = true
	}
	return err
}

// sure is a failure that certainly happens.
func sure() error {
	err := vspec.Any[error]("failure")
	vspec.Assume(err != nil)
	made.failed = true
	return err
}

type zipState struct{ w io.Writer }

// @ model archive/zip.NewWriter
// @ shadow archive/zip.Writer zipState
func model_NewWriter(w io.Writer) *zipState {
	made.dest = w
	return &zipState{w}
}

type entry struct{ number, kind int }

// @ model (*archive/zip.Writer).Create
func model_Create(z *zipState, name string) (io.Writer, error) {
	return newEntry(name, zip.Deflate)
}

// @ model (*archive/zip.Writer).CreateHeader
func model_CreateHeader(z *zipState, h *zip.FileHeader) (io.Writer, error) {
	return newEntry(h.Name, h.Method)
}

func newEntry(name string, method uint16) (io.Writer, error) {
	if made.closed {
		return nil, sure()
	}
	if err := fail(); err != nil {
		return nil, err
	}
	made.entries++
	kind := layerEntry
	switch name {
	case "mimetype":
		kind = mimeEntry
		made.mimes++
		made.stored = method == zip.Store
	case "stack.xml":
		kind = stackEntry
		made.stacks++
	case "mergedimage.png":
		kind = mergedEntry
		made.mergeds++
	case "Thumbnails/thumbnail.png":
		kind = thumbEntry
		made.thumbs++
	default:
		made.layers = vspec.Snoc(made.layers, name)
	}
	if made.entries == 1 {
		made.first = kind
	}
	return &entry{made.entries, kind}, nil
}

func (e *entry) Write(p []byte) (int, error) {
	if made.closed || e.number != made.entries {
		return 0, sure()
	}
	if err := fail(); err != nil {
		return 0, err
	}
	switch e.kind {
	case mimeEntry:
		made.mime += string(p)
	case stackEntry:
		vspec.Assert("nothing is put between the elements", made.images == 0)
		made.head += string(p)
	default:
		vspec.Assert("only images in the other entries", false)
	}
	return len(p), nil
}

// @ model image/png.Encode
func model_png_Encode(w io.Writer, m image.Image) error {
	e, ok := w.(*entry)
	vspec.Assert("written to the archive", ok)
	if !ok || made.closed || e.number != made.entries {
		return sure()
	}
	if err := fail(); err != nil {
		return err
	}
	switch e.kind {
	case mergedEntry:
		made.merged = m
	case thumbEntry:
		made.thumb = m
	case layerEntry:
		made.layers = vspec.Snoc(made.layers, m)
	default:
		vspec.Assert("no image in the mime type or the document", false)
	}
	return nil
}

// @ model (*image/png.Encoder).Encode
func model_png_Encoder_Encode(c *png.Encoder, w io.Writer, m image.Image) error {
	return model_png_Encode(w, m)
}

// @ model (*archive/zip.Writer).Close
func model_zip_Close(z *zipState) error {
	if made.closed {
		return sure()
	}
	made.closed = true
	return fail()
}

// @ model (*archive/zip.Writer).Flush
func model_zip_Flush(z *zipState) error { return fail() }

type xmlState struct{ entry int }

// @ model encoding/xml.NewEncoder
// @ shadow encoding/xml.Encoder xmlState
func model_NewEncoder(w io.Writer) *xmlState {
	e, ok := w.(*entry)
	vspec.Assert("the document is written to the archive", ok && e.kind == stackEntry)
	return &xmlState{e.number}
}

// @ model (*encoding/xml.Encoder).Indent
func model_Indent(e *xmlState, prefix, indent string) {}

// token is an element of the document.
type token struct {
	end       bool
	name, src string
}

// @ model (*encoding/xml.Encoder).EncodeToken
// @ for C20 C22 C26
func model_EncodeToken(e *xmlState, t xml.Token) error {
	if made.closed || e.entry != made.entries {
		return sure()
	}
	if err := fail(); err != nil {
		return err
	}
	made.unsent = true
	switch t := t.(type) {
	case xml.StartElement:
		k := token{name: t.Name.Local}
		if k.name != "stack" {
			for _, a := range t.Attr {
				switch {
				case k.name == "layer" && a.Name.Local == "src":
					k.src = a.Value
				case k.name == "image" && a.Name.Local == "w":
					made.w = a.Value
				case k.name == "image" && a.Name.Local == "h":
					made.h = a.Value
				}
			}
		}
		if k.name == "image" {
			made.images++
		}
		made.doc = vspec.Snoc(made.doc, k)
	case xml.EndElement:
		made.doc = vspec.Snoc(made.doc, token{end: true, name: t.Name.Local})
	}
	return nil
}

// @ model (*encoding/xml.Encoder).Flush
func model_Flush(e *xmlState) error {
	if made.unsent && (made.closed || e.entry != made.entries) {
		return sure()
	}
	made.unsent = false
	return fail()
}

// @ model (*encoding/xml.Encoder).Close
func model_xml_Close(e *xmlState) error { return model_Flush(e) }

func layersOf(im image.Image) (limage.Image, bool) {
	switch im := im.(type) {
	case limage.Image:
		return im, true
	case *limage.Image:
		return *im, true
	}
	return nil, false
}

func wf(im image.Image) bool {
	p, ok := im.(*limage.Image)
	return im != nil && (!ok || p != nil)
}

// wfAll: the images of the layers are well formed.
func wfAll(im image.Image) bool {
	g, ok := layersOf(im)
	return !ok || vspec.Forall(0, len(g), func(i int) bool { return wf(g[i].Image) })
}

// leaves is the number of layers at any depth that are not layered images.
//
// @ opaque
func leaves(im image.Image) int {
	if g, ok := layersOf(im); ok {
		return leavesIn(g, len(g))
	}
	return 1
}

// @ opaque
func leavesIn(g limage.Image, i int) int {
	if i <= 0 {
		return 0
	}
	return leavesIn(g, i-1) + leaves(g[i-1].Image)
}

func nameOf(n int) string { return "data/" + strconv.Itoa(n) + ".png" }

// files is s followed by the names and contents of the entries of the leaves of im, the
// first of which has the number n+1.
//
// @ opaque
func files(s vspec.Seq, im image.Image, n int) vspec.Seq {
	if g, ok := layersOf(im); ok {
		return filesIn(s, g, len(g), n)
	}
	return vspec.Snoc(vspec.Snoc(s, nameOf(n+1)), im)
}

// @ opaque
func filesIn(s vspec.Seq, g limage.Image, i, n int) vspec.Seq {
	if i <= 0 {
		return s
	}
	return files(filesIn(s, g, i-1, n), g[i-1].Image, n+leavesIn(g, i-1))
}

// elements is s followed by the elements for im.
//
// @ opaque
func elements(s vspec.Seq, im image.Image, n int) vspec.Seq {
	if g, ok := layersOf(im); ok {
		s = vspec.Snoc(s, token{name: "stack"})
		return vspec.Snoc(elementsIn(s, g, len(g), n), token{end: true, name: "stack"})
	}
	s = vspec.Snoc(s, token{name: "layer", src: nameOf(n + 1)})
	return vspec.Snoc(s, token{end: true, name: "layer"})
}

// @ opaque
func elementsIn(s vspec.Seq, g limage.Image, i, n int) vspec.Seq {
	if i <= 0 {
		return s
	}
	return elements(elementsIn(s, g, i-1, n), g[i-1].Image, n+leavesIn(g, i-1))
}

// @ modular writeLayers
func modular_writeLayers(z *zip.Writer, l limage.Layer, n int) (int, error) {
	vspec.Assert("an image", wf(l.Image))
	vspec.Assert("the archive is open", !made.closed && !made.unsent)
	made.entries = vspec.Any[int]("entries")
	vspec.Assume(0 < made.entries)
	if err := fail(); err != nil {
		return vspec.Any[int]("number"), err
	}
	made.layers = files(made.layers, l.Image, n)
	return n + leaves(l.Image), nil
}

func someArchive() {
	made.failed, made.closed, made.unsent = false, false, false
	made.entries, made.images = vspec.Any[int]("entries"), vspec.Any[int]("images")
	vspec.Assume(0 < made.entries && made.entries < 1<<62)
	made.layers, made.doc = vspec.Any[vspec.Seq]("layers"), vspec.Any[vspec.Seq]("doc")
}

// @ contract C20,C22 writeLayers
func contract_writeLayers(z *zip.Writer, l limage.Layer, n int) {
	vspec.Requires(z != nil && wf(l.Image) && wfAll(l.Image) && 0 <= n)
	someArchive()
	s := made.layers
	g, _ := layersOf(l.Image)
	vspec.Candidate(func(k, i int) bool {
		return made.failed || vspec.Eq(made.layers, filesIn(s, g, i+1, n)) && k == n+leavesIn(g, i+1)
	})
	vspec.Candidate(func(k, i int) bool {
		return made.failed || vspec.Eq(made.layers, filesIn(s, g, i, n)) && k == n+leavesIn(g, i)
	})
	vspec.Candidate(func() bool { return !made.failed })
	vspec.Candidate(func(err error) bool { return err == nil })
	k, err := writeLayers(z, l, n)
	vspec.EndCandidates()
	vspec.Ensures("every failure is reported", err != nil || !made.failed)
	if err == nil {
		vspec.Ensures("an entry for every leaf", vspec.Eq(made.layers, files(s, l.Image, n)))
		vspec.Ensures("the number of leaves", k == n+leaves(l.Image))
	}
}

// @ modular writeStack
// @ for C20 C22 C26
func modular_writeStack(e *xml.Encoder, l limage.Layer, n int) (int, error) {
	vspec.Assert("an image", wf(l.Image))
	if made.closed || entryOf(e) != made.entries {
		return vspec.Any[int]("number"), sure()
	}
	made.unsent = true
	if err := fail(); err != nil {
		return vspec.Any[int]("number"), err
	}
	made.doc = elements(made.doc, l.Image, n)
	return n + leaves(l.Image), nil
}

func entryOf(e *xml.Encoder) int { return (*xmlState)(unsafe.Pointer(e)).entry }

// @ modular writeGroupStack
// @ for C20 C22
func modular_writeGroupStack(e *xml.Encoder, g limage.Image, attrs []xml.Attr, n int) (int, error) {
	vspec.Assert("images", vspec.Forall(0, len(g), func(i int) bool { return wf(g[i].Image) }))
	vspec.Assert("the document is being written", !made.closed && entryOf(e) == made.entries)
	made.unsent = true
	if err := fail(); err != nil {
		return vspec.Any[int]("number"), err
	}
	made.doc = vspec.Snoc(made.doc, token{name: "stack"})
	made.doc = vspec.Snoc(elementsIn(made.doc, g, len(g), n), token{end: true, name: "stack"})
	return n + leavesIn(g, len(g)), nil
}

func stackLoop(s vspec.Seq, g limage.Image, n int) {
	s = vspec.Snoc(s, token{name: "stack"})
	vspec.Candidate(func(k, i int) bool {
		return made.failed || vspec.Eq(made.doc, elementsIn(s, g, i+1, n)) && k == n+leavesIn(g, i+1)
	})
	vspec.Candidate(func(k, i int) bool {
		return made.failed || vspec.Eq(made.doc, elementsIn(s, g, i, n)) && k == n+leavesIn(g, i)
	})
	vspec.Candidate(func() bool { return !made.failed })
	vspec.Candidate(func(err error) bool { return err == nil })
}

// @ contract C20,C22 writeGroupStack
func contract_writeGroupStack(e *xml.Encoder, g limage.Image, attrs []xml.Attr, n int) {
	vspec.Requires(e != nil && 0 <= n)
	vspec.Requires(vspec.Forall(0, len(g), func(i int) bool { return wf(g[i].Image) }))
	someArchive()
	vspec.Requires(entryOf(e) == made.entries)
	images, entries := made.images, made.entries
	s := made.doc
	stackLoop(s, g, n)
	k, err := writeGroupStack(e, g, attrs, n)
	vspec.EndCandidates()
	vspec.Ensures("every failure is reported", err != nil || !made.failed)
	if err == nil {
		want := vspec.Snoc(elementsIn(vspec.Snoc(s, token{name: "stack"}), g, len(g), n), token{end: true, name: "stack"})
		vspec.Ensures("the elements of the layers", vspec.Eq(made.doc, want))
		vspec.Ensures("the number of leaves", k == n+leavesIn(g, len(g)))
		vspec.Ensures("no image element, no new entry", made.images == images && made.entries == entries && !made.closed)
	}
}

// @ contract C20,C22 writeStack
// @ timeout 120
func contract_writeStack(e *xml.Encoder, l limage.Layer, n int) {
	vspec.Requires(e != nil && wf(l.Image) && wfAll(l.Image) && 0 <= n)
	someArchive()
	vspec.Requires(entryOf(e) == made.entries)
	images, entries := made.images, made.entries
	s := made.doc
	g, _ := layersOf(l.Image)
	stackLoop(s, g, n)
	k, err := writeStack(e, l, n)
	vspec.EndCandidates()
	vspec.Ensures("every failure is reported", err != nil || !made.failed)
	if err == nil {
		vspec.Ensures("the elements of the layer", vspec.Eq(made.doc, elements(s, l.Image, n)))
		vspec.Ensures("the number of leaves", k == n+leaves(l.Image))
		vspec.Ensures("no image element, no new entry", made.images == images && made.entries == entries && !made.closed)
	}
}

// @ modular newThumbnail
// @ for C20 C22
func modular_newThumbnail(m image.Image) thumbnail {
	return vspec.Any[thumbnail]("thumbnail")
}

// content is the image that is written: that of a layer without its attributes.
func content(m image.Image) image.Image {
	switch m := m.(type) {
	case limage.Layer:
		return m.Image
	case *limage.Layer:
		return m.Image
	}
	return m
}

func wfWhole(m image.Image) bool {
	p, ok := m.(*limage.Layer)
	return wf(m) && (!ok || p != nil) && wf(content(m)) && wfAll(content(m))
}

func encode(w io.Writer, m image.Image) error {
	made.failed, made.closed, made.unsent = false, false, false
	made.entries, made.first, made.mimes, made.stacks, made.mergeds, made.thumbs, made.images = 0, 0, 0, 0, 0, 0, 0
	made.stored = false
	made.dest, made.merged, made.thumb = nil, nil, nil
	made.mime, made.head, made.w, made.h = "", "", "", ""
	made.layers, made.doc = vspec.Nil(), vspec.Nil()
	return Encode(w, m)
}

const most = 1 << 24

// kinds treats the kinds of image separately.
func kinds(m image.Image) {
	_, a := m.(limage.Layer)
	vspec.Split(a)
	_, b := m.(*limage.Layer)
	vspec.Split(b)
	_, c := m.(limage.Image)
	vspec.Split(c)
	_, d := m.(*limage.Image)
	vspec.Split(d)
}

func sizes(m image.Image) (w, h int) {
	b := m.Bounds()
	vspec.Requires(-most <= b.Min.X && b.Min.X <= most && -most <= b.Min.Y && b.Min.Y <= most)
	w, h = b.Max.X-b.Min.X, b.Max.Y-b.Min.Y
	vspec.Requires(0 <= w && w <= most && 0 <= h && h <= most)
	return w, h
}

// @ contract C20 Encode
// @ abstract (vimagination.zapto.org/limage.Image).Bounds
func contract_Encode(w io.Writer, m image.Image) {
	kinds(m)
	vspec.Requires(w != nil && wfWhole(m))
	width, height := sizes(m)
	if err := encode(w, m); err != nil {
		return
	}
	vspec.Ensures("to the writer", made.dest == w)
	vspec.Ensures("first the mime type, not compressed", made.first == mimeEntry && made.stored)
	vspec.Ensures("one entry of each kind", made.mimes == 1 && made.stacks == 1 && made.mergeds == 1 && made.thumbs == 1)
	vspec.Ensures("the mime type", made.mime == "image/openraster")
	vspec.Ensures("the document starts with the XML header", made.head == xml.Header || made.head == "")
	vspec.Ensures("the size", made.images == 1 && made.w == strconv.Itoa(width) && made.h == strconv.Itoa(height))
	vspec.Ensures("the whole image", vspec.Eq(made.merged, m))
	im := content(m)
	vspec.Ensures("an entry for every leaf", vspec.Eq(made.layers, files(vspec.Nil(), im, 0)))
	doc := vspec.Snoc(vspec.Nil(), token{name: "image"})
	if _, ok := layersOf(im); ok {
		doc = elements(doc, im, 0)
	} else {
		doc = vspec.Snoc(doc, token{name: "stack"})
		doc = elements(doc, im, 0)
		doc = vspec.Snoc(doc, token{end: true, name: "stack"})
	}
	doc = vspec.Snoc(doc, token{end: true, name: "image"})
	vspec.Ensures("the document", vspec.Eq(made.doc, doc))
}

// @ contract C22 Encode
// @ abstract (vimagination.zapto.org/limage.Image).Bounds
func contract_Encode_failures(w io.Writer, m image.Image) {
	kinds(m)
	vspec.Requires(w != nil && wfWhole(m))
	sizes(m)
	err := encode(w, m)
	vspec.Ensures("every failure is reported", err != nil || !made.failed)
	if err == nil {
		vspec.Ensures("everything was written", !made.unsent && made.closed)
	}
}

// @ contract C26 Encode
// @ abstract (vimagination.zapto.org/limage.Image).Bounds (vimagination.zapto.org/limage.Image).At (vimagination.zapto.org/limage.Image).ColorModel
// @ abstract (vimagination.zapto.org/limage.Layer).At (vimagination.zapto.org/limage.Layer).ColorModel
func contract_Encode_thumbnail(w io.Writer, m image.Image, x, y int) {
	kinds(m)
	vspec.Requires(w != nil && wfWhole(m))
	width, height := sizes(m)
	vspec.Requires(1 <= width && 1 <= height && (width > 256 || height > 256))
	if encode(w, m) == nil {
		vspec.Ensures("a thumbnail", made.thumbs == 1 && made.thumb != nil)
		scaled(made.thumb, m, x, y)
	}
}
