package ora_test

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"strconv"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

// node is a layer, a group or something else in a document.
type node struct {
	kind, name, op string
	x, y           int
	hidden         bool
	opacity        string
	src            string
	im             *image.NRGBA
	in             []*node
}

// document is an archive that is made from parts.
type document struct {
	w, h  int
	in    []*node
	files map[string][]byte
}

func quote(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// write adds a node to the text of a document.
func (n *node) write(r *vreplay.R, b *strings.Builder) {
	filler := func() {
		switch r.Intn(8) {
		case 0:
			b.WriteString("<!-- <layer/> -->")
		case 1:
			b.WriteString(" text\n")
		case 2:
			b.WriteString("<?pi?>")
		}
	}
	as := []string{}
	add := func(k, v string) { as = append(as, fmt.Sprintf(" %s=\"%s\"", k, quote(v))) }
	if n.kind == "layer" || n.kind == "stack" {
		if n.name != "" || r.Bool() {
			add("name", n.name)
		}
		if n.x != 0 || r.Bool() {
			add("x", strconv.Itoa(n.x))
		}
		if n.y != 0 || r.Bool() {
			add("y", strconv.Itoa(n.y))
		}
		if n.hidden {
			add("visibility", "hidden")
		} else if r.Bool() {
			add("visibility", "visible")
		}
		if n.opacity != "" {
			add("opacity", n.opacity)
		}
		if n.op != "" {
			add("composite-op", n.op)
		}
		if r.Intn(4) == 0 {
			add("other", "7")
		}
	}
	if n.src != "" {
		add("src", n.src)
	}
	for i := len(as) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		as[i], as[j] = as[j], as[i]
	}
	b.WriteString("<" + n.kind + strings.Join(as, ""))
	if len(n.in) == 0 && r.Bool() {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	filler()
	for _, c := range n.in {
		c.write(r, b)
		filler()
	}
	b.WriteString("</" + n.kind + ">")
}

var ops = map[string]limage.Composite{"svg:src-over": limage.CompositeNormal, "svg:multiply": limage.CompositeMultiply, "svg:plus": limage.CompositePlus, "svg:dst-in": limage.CompositeDestinationIn, "svg:color-burn": limage.CompositeBurn, "unknown": limage.CompositeNormal}

// nodes makes the content of a stack.
func (d *document) nodes(r *vreplay.R, depth, spread int) []*node {
	var out []*node
	for i := r.Intn(4); i > 0; i-- {
		n := &node{kind: "layer"}
		switch k := r.Intn(8); {
		case k < 2 && depth < 3:
			n.kind = "stack"
			n.in = d.nodes(r, depth+1, spread)
		case k == 2:
			n.kind = []string{"other", "Layer", "text"}[r.Intn(3)]
			n.in = d.nodes(r, depth+2, spread)
			out = append(out, n)
			continue
		}
		n.name = []string{"", "a", "<&\">", "日本"}[r.Intn(4)]
		n.hidden = r.Intn(4) == 0
		n.opacity = []string{"", "1", "0", "0.5", "0.2"}[r.Intn(5)]
		if r.Bool() {
			for n.op = range ops {
				if r.Bool() {
					break
				}
			}
		}
		if spread > 0 {
			n.x, n.y = r.Intn(2*spread)-spread, r.Intn(2*spread)-spread
		}
		if n.kind == "layer" {
			n.im = filled(r, image.Rect(0, 0, 1+r.Intn(6), 1+r.Intn(6)))
			n.src = fmt.Sprintf("data/%d.png", len(d.files))
			var b bytes.Buffer
			png.Encode(&b, n.im)
			d.files[n.src] = b.Bytes()
			if r.Intn(4) == 0 {
				n.in = d.nodes(r, depth+2, spread)
			}
		}
		out = append(out, n)
	}
	return out
}

func newDocument(r *vreplay.R, spread int) *document {
	d := &document{w: 4 + r.Intn(8), h: 4 + r.Intn(8), files: map[string][]byte{}}
	d.in = d.nodes(r, 0, spread)
	if r.Intn(64) == 0 { // many layers
		n := 24 + r.Intn(48)
		for len(d.in) < n {
			d.in = append(d.in, d.nodes(r, 2, spread)...)
		}
	}
	if len(d.files) > 0 && r.Intn(4) == 0 { // entries no layer names
		var b bytes.Buffer
		png.Encode(&b, filled(r, image.Rect(0, 0, 9, 9)))
		for _, n := range []string{"old/data/0.png", "Data/0.png", "data/0.png2", "0.png", "data/00.png"} {
			d.files[n] = b.Bytes()
		}
	}
	return d
}

func (d *document) text(r *vreplay.R) string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\"?>\n")
	fmt.Fprintf(&b, "<image h=\"%d\" w=\"%d\">", d.h, d.w)
	if r.Intn(4) == 0 {
		b.WriteString("<other><stack><layer src=\"none\"/></stack></other>")
	}
	(&node{kind: "stack", in: d.in}).write(r, &b)
	b.WriteString("</image>")
	return b.String()
}

const mime = "image/openraster"

// entry is one file of an archive.
type entry struct {
	name    string
	content []byte
}

func (d *document) entries(r *vreplay.R, text string) []entry {
	es := []entry{{"mimetype", []byte(mime)}, {"stack.xml", []byte(text)}}
	for n, c := range d.files {
		es = append(es, entry{n, c})
	}
	for i := len(es) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		es[i], es[j] = es[j], es[i]
	}
	return es
}

func pack(es []entry) *zip.Reader {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, e := range es {
		f, err := w.Create(e.name)
		if err != nil {
			panic(err)
		}
		f.Write(e.content)
	}
	w.Close()
	zr, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
	if err != nil {
		panic(err)
	}
	return zr
}

func samePixel(a, b color.Color) bool {
	return color.NRGBA64Model.Convert(a) == color.NRGBA64Model.Convert(b)
}

// layersIn are the nodes that become layers.
func layersIn(ns []*node) []*node {
	var out []*node
	for _, n := range ns {
		if n.kind == "layer" || n.kind == "stack" {
			out = append(out, n)
		}
	}
	return out
}
