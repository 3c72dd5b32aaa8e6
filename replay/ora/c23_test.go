package ora_test

import (
	"fmt"
	"image"
	"math"
	"strconv"
	"strings"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/ora"
)

func TestReplay_C23(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		d := newDocument(r, 0)
		d.w, d.h = 20, 20
		var all func(ns []*node) []*node
		all = func(ns []*node) (out []*node) {
			for _, n := range layersIn(ns) {
				out = append(append(out, n), all(map[bool][]*node{true: n.in}[n.kind == "stack"])...)
			}
			return out
		}
		nodes := all(d.in)
		bad := false
		var n *node
		if len(nodes) > 0 {
			n = nodes[r.Intn(len(nodes))]
		}
		mark := ""
		switch r.Intn(8) {
		case 0:
			if n != nil && n.kind == "layer" {
				n.src, bad = []string{"", "none", "stack.xml"}[r.Intn(3)], true
			}
		case 1:
			if n != nil && n.kind == "layer" {
				d.files[n.src], bad = []byte("no image"), true
			}
		case 2:
			if n != nil {
				n.opacity, bad = "x", true
			}
		case 3:
			if n != nil {
				n.name, mark = "mark", []string{"x=\"y\" ", "y=\"1.5\" "}[r.Intn(2)]
			}
		}
		text := d.text(r)
		if mark != "" {
			k := strings.Index(text, "name=\"mark\"")
			rest := text[k:]
			if !strings.Contains(text[strings.LastIndexByte(text[:k], '<'):k+strings.IndexByte(rest, '>')], mark[:2]+"\"") {
				text, bad = text[:k]+mark+rest, true
			}
		}
		switch r.Intn(16) {
		case 0:
			if k := strings.LastIndex(text, "</stack>"); k >= 0 {
				text, bad = text[:k], true
			}
		case 1:
			text, bad = strings.ReplaceAll(text, "stack", "heap"), true
		case 2:
			text, bad = "<image w=\"4\"/>", true
		}
		es := d.entries(r, text)
		switch r.Intn(16) {
		case 0:
			for i := range es {
				if es[i].name == "mimetype" {
					es[i].content, bad = []byte([]string{"", "image/openrastes", "image/openraster ", "image/openraste"}[r.Intn(4)]), true
				}
			}
		case 1:
			for i := range es {
				if es[i].name == "stack.xml" {
					es[i].name, bad = "stack", true
				}
			}
		}
		r.About(func() string { return text })
		im, err := ora.Decode(pack(es))
		r.Check((err != nil) == bad, "error %v, want one: %v", err, bad)
		if bad {
			r.Check(im == nil, "an image with an error")
			return
		}
		var cmp func(where string, ls limage.Image, ns []*node)
		cmp = func(where string, ls limage.Image, ns []*node) {
			ns = layersIn(ns)
			r.Check(len(ls) == len(ns), "%s: %d layers, want %d", where, len(ls), len(ns))
			for i, l := range ls {
				n, name := ns[i], fmt.Sprintf("%s/%d", where, i)
				r.Check(l.Name == n.name && l.Invisible == n.hidden && l.Mode == ops[n.op], "%s: %q hidden %v mode %d, want %q %v %s", name, l.Name, l.Invisible, l.Mode, n.name, n.hidden, n.op)
				o := 1.0
				if n.opacity != "" {
					o, _ = strconv.ParseFloat(n.opacity, 64)
				}
				r.Check(math.Abs(float64(l.Transparency)-255*(1-o)) <= 1, "%s: transparency %d, opacity %s", name, l.Transparency, n.opacity)
				if n.kind == "stack" {
					g, ok := l.Image.(limage.Image)
					r.Check(ok, "%s: not a group: %T", name, l.Image)
					cmp(name, g, n.in)
					continue
				}
				b := n.im.Bounds()
				r.Check(l.Image.Bounds() == b, "%s: bounds %v, want %v", name, l.Image.Bounds(), b)
				for y := b.Min.Y; y < b.Max.Y; y++ {
					for x := b.Min.X; x < b.Max.X; x++ {
						r.Check(samePixel(l.Image.At(x, y), n.im.At(x, y)), "%s: another pixel at %v", name, image.Pt(x, y))
					}
				}
			}
		}
		cmp("", im, d.in)
	})
}
