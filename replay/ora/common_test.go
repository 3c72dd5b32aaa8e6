package ora_test

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

// elem is an element of a stack document.
type elem struct {
	name  string
	attrs []xml.Attr
	in    []*elem
}

func (e *elem) attr(name string) (string, bool) {
	for _, a := range e.attrs {
		if a.Name.Local == name {
			return a.Value, true
		}
	}
	return "", false
}

func parse(doc string) (*elem, error) {
	d := xml.NewDecoder(strings.NewReader(doc))
	root := &elem{}
	open := []*elem{root}
	for {
		t, err := d.Token()
		if err == io.EOF {
			if len(open) != 1 {
				return nil, io.ErrUnexpectedEOF
			}
			return root, nil
		} else if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			e := &elem{name: t.Name.Local, attrs: t.Attr}
			top := open[len(open)-1]
			top.in = append(top.in, e)
			open = append(open, e)
		case xml.EndElement:
			open = open[:len(open)-1]
		}
	}
}

func content(f *zip.File) (string, error) {
	r, err := f.Open()
	if err != nil {
		return "", err
	}
	defer r.Close()
	b, err := io.ReadAll(r)
	return string(b), err
}

// viaPNG is the image as a PNG keeps it.
func viaPNG(m image.Image) (image.Image, error) {
	var b bytes.Buffer
	if err := png.Encode(&b, m); err != nil {
		return nil, err
	}
	return png.Decode(&b)
}

func samePixels(a, b image.Image) string {
	if a.Bounds() != b.Bounds() {
		return fmt.Sprintf("bounds %v and %v", a.Bounds(), b.Bounds())
	}
	for y := a.Bounds().Min.Y; y < a.Bounds().Max.Y; y++ {
		for x := a.Bounds().Min.X; x < a.Bounds().Max.X; x++ {
			p, q := color.NRGBA64Model.Convert(a.At(x, y)), color.NRGBA64Model.Convert(b.At(x, y))
			if p != q {
				return fmt.Sprintf("at %d,%d %v and %v", x, y, p, q)
			}
		}
	}
	return ""
}

// filled is an image whose pixels differ from those of others.
func filled(r *vreplay.R, b image.Rectangle) *image.NRGBA {
	m := image.NewNRGBA(b)
	r.Read(m.Pix)
	for i := 3; i < len(m.Pix); i += 4 {
		m.Pix[i] = 255
	}
	return m
}

var modes = []limage.Composite{limage.CompositeNormal, limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDarkenOnly, limage.CompositeLightenOnly,
	limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight, limage.CompositeDifference,
	limage.CompositeColor, limage.CompositeLuminosity, limage.CompositeHue, limage.CompositeSaturation, limage.CompositePlus,
	limage.CompositeDestinationIn, limage.CompositeDestinationOut, limage.CompositeSourceAtop, limage.CompositeDestinationAtop}

// tree is a layered image.
func tree(r *vreplay.R, depth int) limage.Image {
	n := r.Intn(4)
	if depth == 0 {
		n++
	}
	g := make(limage.Image, n)
	for i := range g {
		var im image.Image
		w, h := 1+r.Intn(4), 1+r.Intn(4)
		switch k := r.Intn(10); {
		case k < 3 && depth < 3:
			t := tree(r, depth+1)
			im = t
			if r.Intn(3) == 0 {
				im = &t
			}
		case k == 3:
			im = limage.Text{Image: filled(r, image.Rect(0, 0, w, h))}
		case k == 4:
			im = limage.MaskedImage{Image: filled(r, image.Rect(0, 0, w, h)), Mask: image.NewGray(image.Rect(0, 0, w, h))}
		case k == 5:
			im = filled(r, image.Rect(-1, 2, w-1, 2+h))
		default:
			im = filled(r, image.Rect(0, 0, w, h))
		}
		g[i] = limage.Layer{Image: im, LayerBounds: image.Rect(0, 0, w, h).Add(image.Pt(r.Intn(8), r.Intn(8)))}
		if r.Bool() {
			g[i].Name = fmt.Sprintf("<layer & %d>", r.Intn(100))
		}
		if r.Bool() {
			g[i].Transparency = r.U8()
		}
		if r.Bool() {
			g[i].Mode = modes[r.Intn(len(modes))]
		}
		g[i].Invisible = r.Intn(4) == 0
	}
	return g
}

func layersOf(m image.Image) (limage.Image, bool) {
	switch m := m.(type) {
	case limage.Image:
		return m, true
	case *limage.Image:
		return *m, true
	}
	return nil, false
}

func show(g image.Image) string {
	if h, ok := layersOf(g); ok {
		var s []string
		for _, l := range h {
			s = append(s, fmt.Sprintf("{%q %v mode %d transparency %d hidden %v: %s}", l.Name, l.LayerBounds, l.Mode, l.Transparency, l.Invisible, show(l.Image)))
		}
		return fmt.Sprintf("%T[%s]", g, strings.Join(s, " "))
	}
	return fmt.Sprintf("%T%v", g, g.Bounds())
}
