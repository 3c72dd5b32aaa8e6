//go:build verif

package ora

import (
	"archive/zip"
	"encoding/xml"
	"errors"
	"image"
	"image/color"
	"io"
	"strconv"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume an entry of an archive has the same content, and the same failures, each time it is opened
//@ assume image.Decode of an entry gives an image or reports a failure

// doc is the document that is being read and the position among its tokens.
var doc struct {
	file *zip.File
	pos  int
}

const (
	isStart = iota + 1
	isEnd
)

// the document in f: its length and its tokens
func tokens(f *zip.File) int { return vspec.Pure[int]("tokens", f) }
func kind(f *zip.File, p int) int {
	return vspec.Pure[int]("kind", f, p)
}
func start(f *zip.File, p int) xml.StartElement {
	return xml.StartElement{
		Name: xml.Name{Space: vspec.Pure[string]("space", f, p), Local: vspec.Pure[string]("local", f, p)},
		Attr: vspec.Pure[[]xml.Attr]("attrs", f, p),
	}
}

func someError() error {
	err := vspec.Any[error]("some error")
	vspec.Assume(err != nil)
	return err
}

// @ model (*encoding/xml.Decoder).Token
func model_Token(x *xml.Decoder) (xml.Token, error) {
	f, p := doc.file, doc.pos
	if p < 0 || p >= tokens(f) {
		return nil, someError()
	}
	doc.pos = p + 1
	switch kind(f, p) {
	case isStart:
		return start(f, p), nil
	case isEnd:
		return xml.EndElement{Name: xml.Name{Local: vspec.Pure[string]("local", f, p)}}, nil
	}
	t := vspec.Any[xml.Token]("other token")
	vspec.Assume(t != nil)
	_, a := t.(xml.StartElement)
	_, b := t.(xml.EndElement)
	vspec.Assume(!a && !b)
	return t, nil
}

// @ model (*encoding/xml.Decoder).Skip
func model_Skip(x *xml.Decoder) error { return skip() }

func skip() error {
	p := list(doc.file, doc.pos)
	if p < 0 {
		doc.pos = vspec.Any[int]("position")
		return someError()
	}
	doc.pos = p
	return nil
}

// @ model encoding/xml.NewDecoder
func model_NewDecoder(r io.Reader) *xml.Decoder {
	o, ok := r.(*opened)
	vspec.Assert("reads the document", ok)
	doc.file, doc.pos = o.file, 0
	return vspec.FreshPtr[xml.Decoder]("decoder")
}

// opened is an open entry.
type opened struct{ file *zip.File }

func (o *opened) Read(p []byte) (int, error) {
	return vspec.Any[int]("read"), vspec.Any[error]("read error")
}

func (o *opened) Close() error { return vspec.Any[error]("close error") }

func opens(f *zip.File) bool       { return vspec.Pure[bool]("opens", f) }
func contentOf(f *zip.File) string { return vspec.Pure[string]("content", f) }

// @ model (*archive/zip.File).Open
func model_Open(f *zip.File) (io.ReadCloser, error) {
	if !opens(f) {
		return nil, someError()
	}
	return &opened{f}, nil
}

// @ model io.ReadFull
// @ for C23 C24 C25
func model_ReadFull(r io.Reader, p []byte) (int, error) {
	o, ok := r.(*opened)
	vspec.Assert("reads an entry", ok)
	s := contentOf(o.file)
	if len(s) < len(p) || !vspec.Pure[bool]("reads", o.file) {
		return vspec.Any[int]("read"), someError()
	}
	for i := range p {
		p[i] = s[i]
	}
	return len(p), nil
}

// @ model errors.Is
func model_Is(err, target error) bool {
	return err == target || err != nil && vspec.Pure[bool]("is", err, target)
}

// list is the position behind the end of the element whose content is at p, or -1 when
// the document is cut short.
//
// @ opaque
func list(f *zip.File, p int) int {
	if p < 0 || p >= tokens(f) {
		return -1
	}
	switch kind(f, p) {
	case isStart:
		q := list(f, p+1)
		if q < 0 {
			return -1
		}
		return list(f, q)
	case isEnd:
		return p + 1
	}
	return list(f, p+1)
}

// leave is the position behind the ends of the k innermost elements that p is inside of.
//
// @ opaque
func leave(f *zip.File, p, k int) int {
	if p < 0 {
		return -1
	}
	if k <= 0 {
		return p
	}
	return leave(f, list(f, p), k-1)
}

// @ modular (decoder).skipTag
func modular_skipTag(d decoder) error { return skip() }

func open(d *decoder) {
	doc.file = vspec.FreshPtr[zip.File]("file")
	doc.pos = vspec.Any[int]("position")
	vspec.Assume(0 <= doc.pos && tokens(doc.file) < 1<<62)
	vspec.Assume(d.x != nil && d.zr != nil)
}

// @ contract C23 (decoder).skipTag
func contract_skipTag(d decoder) {
	open(&d)
	f, p := doc.file, doc.pos
	for _, n := range [...]int{0, 1} { // k or k+1 elements are open
		n := n
		vspec.Candidate(func(k int) bool {
			leave(f, list(f, doc.pos), k+n-1)
			return k >= 0 && doc.file == f && doc.pos >= 0 && (doc.pos == p && k <= 1 || doc.pos <= tokens(f) && k <= doc.pos-p+1) && leave(f, doc.pos, k+n) == vspec.If(list(f, p) < 0, -1, list(f, p))
		})
	}
	vspec.Candidate(func() bool { return doc.file == f && doc.pos >= 0 && list(f, doc.pos) == list(f, p) })
	err := d.skipTag()
	vspec.EndCandidates()
	if err == nil {
		vspec.Ensures("stops behind the end of the element", doc.pos == list(f, p))
	} else {
		vspec.Ensures("fails only if the document is cut short", list(f, p) < 0)
	}
}

// firstStart is the position of the first start element from p on, or -1.
//
// @ opaque
func firstStart(f *zip.File, p int) int {
	if p < 0 || p >= tokens(f) {
		return -1
	}
	if kind(f, p) == isStart {
		return p
	}
	return firstStart(f, p+1)
}

// size is what a list of attributes says about the size of the image.
type size struct {
	ok   bool
	w, h int
}

// sizeOf reads the attributes from number i on, where those before have given the width
// w, if hasW, and the height h, if hasH.
//
// @ opaque
func sizeOf(as []xml.Attr, i int, hasW, hasH bool, w, h int) size {
	if i < 0 || i >= len(as) {
		return size{hasW && hasH, w, h}
	}
	v, err := strconv.Atoi(as[i].Value)
	switch as[i].Name.Local {
	case "w":
		if err != nil {
			return size{}
		}
		return sizeOf(as, i+1, true, hasH, v, h)
	case "h":
		if err != nil {
			return size{}
		}
		return sizeOf(as, i+1, hasW, true, w, v)
	}
	return sizeOf(as, i+1, hasW, hasH, w, h)
}

// header is what the document says about the image.
type header struct {
	ok   bool
	w, h int
	pos  int // behind the start of the image
}

// @ opaque
func headerOf(f *zip.File, p int) header {
	p = firstStart(f, p)
	if p < 0 {
		return header{}
	}
	t := start(f, p)
	if t.Name.Local != "image" {
		return header{}
	}
	s := sizeOf(t.Attr, 0, false, false, 0, 0)
	if !s.ok {
		return header{}
	}
	return header{true, s.w, s.h, p + 1}
}

// @ modular (*decoder).getDimensions
func modular_getDimensions(d *decoder) error {
	h := headerOf(doc.file, doc.pos)
	if !h.ok {
		doc.pos = vspec.Any[int]("position")
		d.limits = vspec.Any[image.Point]("limits")
		return someError()
	}
	doc.pos = h.pos
	d.limits = image.Point{X: h.w, Y: h.h}
	return nil
}

// @ contract C23,C24,C25 (*decoder).getDimensions
func contract_getDimensions(dv decoder) {
	d := &dv
	open(d)
	f, p := doc.file, doc.pos
	zr, x := d.zr, d.x
	vspec.Candidate(func() bool { return doc.file == f && doc.pos >= 0 && firstStart(f, doc.pos) == firstStart(f, p) })
	for _, k := range [...]int{0, 1} { // the number of the next attribute is i or i+1
		k := k
		vspec.Candidate(func(w, h bool, i int) bool {
			as := start(f, doc.pos-1).Attr
			x, y := 0, 0
			if w {
				x = d.limits.X
			}
			if h {
				y = d.limits.Y
			}
			return i+k >= 0 && sizeOf(as, 0, false, false, 0, 0) == sizeOf(as, i+k, w, h, x, y)
		})
	}
	err := d.getDimensions()
	vspec.EndCandidates()
	h := headerOf(f, p)
	vspec.Ensures("fails exactly when there is no image element with a size", (err == nil) == h.ok)
	vspec.Ensures("nothing else is changed", d.zr == zr && d.x == x && doc.file == f)
	if err == nil {
		vspec.Ensures("the size", d.limits.X == h.w && d.limits.Y == h.h)
		vspec.Ensures("stops behind the start of the image", doc.pos == h.pos)
	}
}

// stack is the document of an archive, as far as its entries tell.
type stack struct {
	ok   bool
	file *zip.File
}

// mime tells whether the mimetype entry f is what it has to be.
//
// @ opaque
func mime(f *zip.File) bool {
	const want = "image/openraster"
	if f.UncompressedSize64 != uint64(len(want)) || !opens(f) || !vspec.Pure[bool]("reads", f) {
		return false
	}
	s := contentOf(f)
	if len(s) < len(want) {
		return false
	}
	for i := 0; i < len(want); i++ {
		if s[i] != want[i] {
			return false
		}
	}
	return true
}

// @ modular checkMime
func modular_checkMime(f *zip.File) bool {
	vspec.Assert("there is an entry", f != nil)
	return mime(f)
}

// @ contract C23,C25 checkMime
func contract_checkMime(f *zip.File) {
	vspec.Requires(f != nil)
	vspec.Ensures("the size and the content are right", checkMime(f) == mime(f))
}

// stackOf is the document of an archive with the entries fs; st is what was found before
// number i.
//
// @ opaque
func stackOf(fs []*zip.File, i int, st *zip.File) stack {
	if i < 0 || i >= len(fs) {
		return stack{st != nil, st}
	}
	switch fs[i].Name {
	case "stack.xml":
		st = fs[i]
	case "mimetype":
		if !mime(fs[i]) {
			return stack{}
		}
	}
	return stackOf(fs, i+1, st)
}

func wfArchive(zr *zip.Reader) bool {
	return zr != nil && vspec.Forall(0, len(zr.File), func(i int) bool { return zr.File[i] != nil })
}

// @ modular (*decoder).getStack
func modular_getStack(d *decoder) (*zip.File, error) {
	vspec.Assert("there is an archive", d.zr != nil)
	st := stackOf(d.zr.File, 0, nil)
	if !st.ok {
		return nil, someError()
	}
	vspec.Assume(st.file != nil)
	return st.file, nil
}

// @ contract C23,C25 (*decoder).getStack
func contract_getStack(dv decoder) {
	d := &dv
	vspec.Requires(wfArchive(d.zr))
	for _, k := range [...]int{0, 1} {
		k := k
		vspec.Candidate(func(st *zip.File, err error, i int) bool {
			return i+k >= 0 && (err == nil) == (st != nil) && stackOf(d.zr.File, 0, nil) == stackOf(d.zr.File, i+k, st)
		})
		vspec.Candidate(func(st *zip.File, i int) bool {
			return i+k >= 0 && stackOf(d.zr.File, 0, nil) == stackOf(d.zr.File, i+k, st)
		})
	}
	f, err := d.getStack()
	vspec.EndCandidates()
	st := stackOf(dv.zr.File, 0, nil)
	vspec.Ensures("fails exactly when there is no document or a wrong mimetype", (err == nil) == st.ok)
	if err == nil {
		vspec.Ensures("the last entry named stack.xml", f == st.file && f != nil)
	}
}

// @ contract C25 DecodeConfig
func contract_DecodeConfig(zr *zip.Reader) {
	vspec.Requires(wfArchive(zr))
	c, err := DecodeConfig(zr)
	st := stackOf(zr.File, 0, nil)
	h := headerOf(st.file, 0)
	vspec.Ensures("succeeds exactly when the header is there", (err == nil) == (st.ok && opens(st.file) && h.ok))
	if err == nil {
		vspec.Ensures("the size of the image", c.Width == h.w && c.Height == h.h)
		vspec.Ensures("the colour model", c.ColorModel == color.NRGBAModel)
	}
}

// body is where the content of the first stack element from p on starts, or -1.
//
// @ opaque
func body(f *zip.File, p int) int {
	if p < 0 || p >= tokens(f) {
		return -1
	}
	if kind(f, p) != isStart {
		return body(f, p+1)
	}
	if start(f, p).Name.Local == "stack" {
		return p + 1
	}
	q := list(f, p+1)
	if q < 0 {
		return -1
	}
	return body(f, q)
}

// reading is what is known when the layers are read.
var reading struct {
	any    bool
	limits image.Point
	pos    int
}

// @ modular (decoder).readStack
// @ for C25
func modular_readStack_header(d decoder, offset image.Point) (limage.Image, error) {
	reading.any, reading.limits, reading.pos = true, d.limits, doc.pos
	return vspec.Any[limage.Image]("layers"), vspec.Any[error]("error")
}

// @ contract C25 Decode
func contract_Decode_header(zr *zip.Reader) {
	vspec.Requires(wfArchive(zr))
	st := stackOf(zr.File, 0, nil)
	h := headerOf(st.file, 0)
	good := st.ok && opens(st.file) && h.ok
	reading.any = false
	vspec.Candidate(func() bool {
		return doc.file == st.file && !reading.any && body(st.file, doc.pos) == body(st.file, h.pos)
	})
	im, err := Decode(zr)
	vspec.EndCandidates()
	vspec.Ensures("fails without the header", good || err != nil && im == nil)
	vspec.Ensures("does not fail before the layers for another reason", !good || reading.any || body(st.file, h.pos) < 0)
	if reading.any {
		vspec.Ensures("the size of the image", reading.limits.X == h.w && reading.limits.Y == h.h)
	}
}

var (
	_ = errors.Is
	_ color.Model
	_ limage.Image
)
