package ora_test

import (
	"archive/zip"
	"bytes"
	"image"
	"image/png"
	"strconv"
	"strings"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/ora"
)

func TestReplay_C20(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		var m image.Image = tree(r, 0)
		in := m
		switch r.Intn(8) {
		case 0:
			in = filled(r, image.Rect(1, -2, 2+r.Intn(4), 3))
			m = in
		case 1:
			m = limage.Layer{Image: in, LayerBounds: image.Rect(3, 4, 12, 9), Name: "a"}
		case 2:
			m = &limage.Layer{Image: in, LayerBounds: image.Rect(3, 4, 12, 9)}
		case 3:
			in = filled(r, image.Rect(0, 0, 3, 3))
			m = limage.Layer{Image: in, LayerBounds: image.Rect(0, 0, 3, 3), Mode: limage.CompositeScreen}
		case 4:
			g := m.(limage.Image)
			m, in = &g, &g
		}
		r.About(func() string { return show(m) })
		var b bytes.Buffer
		if err := ora.Encode(&b, m); err != nil {
			return
		}
		zr, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
		r.Check(err == nil, "not an archive: %v", err)
		r.Check(zr.File[0].Name == "mimetype" && zr.File[0].Method == zip.Store, "first %q, method %d", zr.File[0].Name, zr.File[0].Method)
		c := map[string]string{}
		pngs := 0
		for _, f := range zr.File {
			_, dup := c[f.Name]
			r.Check(!dup, "two entries %q", f.Name)
			c[f.Name], err = content(f)
			r.Check(err == nil, "entry %q: %v", f.Name, err)
			if strings.HasPrefix(c[f.Name], "\x89PNG") {
				pngs++
			}
		}
		r.Check(c["mimetype"] == "image/openraster", "mimetype %q", c["mimetype"])
		same := func(name string, m image.Image) {
			want, err := viaPNG(m)
			r.Check(err == nil, "oracle: %v", err)
			got, err := png.Decode(strings.NewReader(c[name]))
			r.Check(err == nil, "entry %q: %v", name, err)
			d := samePixels(got, want)
			r.Check(d == "", "entry %q: %s", name, d)
		}
		same("mergedimage.png", m)
		doc, err := parse(c["stack.xml"])
		r.Check(err == nil, "document: %v in %s", err, c["stack.xml"])
		r.Check(len(doc.in) == 1 && doc.in[0].name == "image", "root element of %s", c["stack.xml"])
		img := doc.in[0]
		w, _ := img.attr("w")
		h, _ := img.attr("h")
		r.Check(w == strconv.Itoa(m.Bounds().Dx()) && h == strconv.Itoa(m.Bounds().Dy()), "size %s x %s, want %v", w, h, m.Bounds())
		r.Check(len(img.in) == 1 && img.in[0].name == "stack", "image element of %s", c["stack.xml"])
		leaves := 0
		seen := map[string]bool{}
		var walk func(e *elem, m image.Image)
		walk = func(e *elem, m image.Image) {
			g, ok := layersOf(m)
			if ok {
				r.Check(e.name == "stack" && len(e.in) == len(g), "element %s with %d inside, want a stack of %d", e.name, len(e.in), len(g))
				for i, l := range g {
					walk(e.in[i], l.Image)
				}
				return
			}
			leaves++
			src, ok := e.attr("src")
			r.Check(e.name == "layer" && len(e.in) == 0 && ok && !seen[src], "element %s %q with %d inside, want a layer of its own", e.name, src, len(e.in))
			seen[src] = true
			same(src, m)
		}
		if _, ok := layersOf(in); ok {
			walk(img.in[0], in)
		} else {
			r.Check(len(img.in[0].in) == 1, "stack of one layer")
			walk(img.in[0].in[0], in)
		}
		r.Check(pngs == leaves+2, "%d images for %d leaves", pngs, leaves)
	})
}
