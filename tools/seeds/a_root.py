T = '''package %s

import (
	"image"
	"image/color"
	"testing"
	%s
)

var _ = image.Rect
var _ color.Color

func TestDemo(t *testing.T) {
%s
}
'''
def demo(body, pkg='limage', imp=''):
    return T % (pkg, imp, body)
LC = '"vimagination.zapto.org/limage/lcolor"'
SEEDS = [
 dict(id='c01-paloffset', property='C01', pkg='.', edits=[('indexedalpha.go', 'return (y-p.Rect.Min.Y)*p.Stride + (x-p.Rect.Min.X)*1', 'return (y-p.Rect.Min.Y)*p.Rect.Dx() + (x - p.Rect.Min.X)')],
  needs='a PalettedAlpha whose stride differs from its width, i.e. a sub-image, and a row below its first', breaks='pixels of the second and later rows of a sub-image are read and stored at the wrong place',
  demo=demo('''	p := NewPalettedAlpha(image.Rect(0, 0, 4, 4), lcolor.AlphaPalette{color.Black})
	s := &PalettedAlpha{Pix: p.Pix, Stride: p.Stride, Rect: image.Rect(0, 0, 2, 4), Palette: p.Palette}
	p.SetIndexAlpha(1, 2, lcolor.IndexedAlpha{I: 3, A: 7})
	if s.IndexAlphaAt(1, 2) != (lcolor.IndexedAlpha{I: 3, A: 7}) {
		t.Fatal(s.IndexAlphaAt(1, 2))
	}
''', imp=LC)),
 dict(id='c01-setround', property='C01', pkg='.', edits=[('indexedalpha.go', 'A: uint8(a >> 8),\n	}\n}\n\n// SetIndexAlpha', 'A: uint8((a + 0x80) >> 8),\n	}\n}\n\n// SetIndexAlpha')],
  needs='storing a colour with 16-bit alpha of 0xff80 or more through Set', breaks='the stored alpha wraps round to 0',
  demo=demo('''	p := NewPalettedAlpha(image.Rect(0, 0, 1, 1), lcolor.AlphaPalette{color.Black})
	p.Set(0, 0, color.RGBA64{A: 0xff90})
	if a := p.IndexAlphaAt(0, 0).A; a != 255 {
		t.Fatal(a)
	}
''', imp=LC)),
 dict(id='c02-clipx', property='C02', pkg='.', edits=[('grayalpha.go', 'Pix:    g.Pix[g.PixOffset(r.Min.X, r.Min.Y):],\n', 'Pix:    g.Pix[g.PixOffset(r.Min.X, r.Min.Y):g.PixOffset(r.Max.X-1, r.Max.Y-1)],\n')],
  needs='reading the bottom right pixel of a sub-image', breaks='the last pixel of a sub-image is cut off and reading it panics',
  demo=demo('''	p := NewGrayAlpha(image.Rect(0, 0, 4, 4))
	p.SetGrayAlpha(2, 2, lcolor.GrayAlpha{Y: 1, A: 2})
	if c := p.SubImage(image.Rect(1, 1, 3, 3)).(*GrayAlpha).GrayAlphaAt(2, 2); c.Y != 1 {
		t.Fatal(c)
	}
''', imp=LC)),
 dict(id='c04-alphatrunc', property='C04', pkg='.', edits=[('misc.go', 'o |= o << 8\n	c.A = uint16(o * uint32(c.A) / 0xffff)', 'c.A = uint16(o * uint32(c.A) / 0x100)')],
  needs='a transparency strictly between 0 and 255', breaks='the alpha of a faded layer is scaled by o/256 and not o/255',
  demo=demo('''	l := Layer{LayerBounds: image.Rect(0, 0, 1, 1), Transparency: 1, Image: image.NewUniform(color.NRGBA64{1, 2, 3, 0xffff})}
	if c := l.At(0, 0).(color.NRGBA64); c.A != 254*257 {
		t.Fatal(c)
	}
''')),
 dict(id='c04-maskoffset', property='C04', pkg='.', edits=[('misc.go', 'return transparency(m.Image.At(x, y), m.Mask.GrayAt(x, y).Y)', 'b := m.Image.Bounds()\n\n	return transparency(m.Image.At(x, y), m.Mask.GrayAt(x-b.Min.X, y-b.Min.Y).Y)')],
  needs='a masked image whose content does not start at the origin', breaks='the mask is looked up at a different point from the content',
  demo=demo('''	m := image.NewGray(image.Rect(5, 5, 7, 7))
	m.SetGray(6, 6, color.Gray{255})
	c := image.NewNRGBA(image.Rect(5, 5, 7, 7))
	c.SetNRGBA(6, 6, color.NRGBA{1, 2, 3, 255})
	if _, _, _, a := (MaskedImage{Image: c, Mask: m}).At(6, 6).RGBA(); a != 0xffff {
		t.Fatal(a)
	}
''')),
 dict(id='c05-order', property='C05', pkg='.', edits=[('image.go', 'h := make(Image, len(g))\n\n	for n, l := range g {\n		h[n] = l.SubImageLayer(r)\n	}', 'h := make(Image, 0, len(g))\n\n	for _, l := range g {\n		if s := l.SubImageLayer(r); !s.LayerBounds.Empty() {\n			h = append(h, s)\n		}\n	}')],
  needs='cropping a layered image so that some layer is cropped away altogether', breaks='layers outside of the crop are dropped, so layers no longer correspond',
  demo=demo('''	g := Image{{LayerBounds: image.Rect(5, 5, 6, 6), Image: image.NewGray(image.Rect(0, 0, 1, 1))}, {LayerBounds: image.Rect(0, 0, 1, 1), Image: image.NewGray(image.Rect(0, 0, 1, 1))}}
	if h := g.SubImage(image.Rect(0, 0, 2, 2)).(Image); len(h) != 2 {
		t.Fatal(len(h))
	}
''')),
 dict(id='c06-model', property='C06', pkg='.', edits=[('image.go', '_, ok := g.ColorModel().(color.Palette)', '_, ok := g[i].ColorModel().(color.Palette)')],
  needs='a layered image with a paletted layer that is not the first', breaks='the paletted rule is applied by the model of the single layer and not that of the image',
  demo=demo('''	p := image.NewPaletted(image.Rect(0, 0, 1, 1), color.Palette{color.NRGBA{10, 20, 30, 200}})
	g := Image{{LayerBounds: image.Rect(2, 2, 3, 3), Image: image.NewNRGBA(image.Rect(0, 0, 1, 1))}, {LayerBounds: p.Rect, Image: p}}
	if _, _, _, a := g.At(0, 0).RGBA(); a != 200*257 {
		t.Fatal(a)
	}
''')),
 dict(id='c06-occluded', property='C06', pkg='.', edits=[('image.go', """	for i := len(g) - 1; i >= 0; i-- {
		if g[i].Invisible {""", """	start := len(g) - 1

	// nothing below an opaque layer can be seen
	for i := range g {
		o, ok := g[i].Image.(interface{ Opaque() bool })
		if ok && g[i].Mode == CompositeNormal && g[i].Transparency == 0 && point.In(g[i].Bounds()) && o.Opaque() {
			start = i

			break
		}
	}

	for i := start; i >= 0; i-- {
		if g[i].Invisible {""")],
  needs='an invisible opaque layer above visible ones', breaks='an invisible opaque layer hides everything below it',
  demo=demo("""	im := image.NewUniform(color.NRGBA{1, 2, 3, 255})
	b := image.Rect(0, 0, 1, 1)
	g := Image{{LayerBounds: b, Image: im, Invisible: true}, {LayerBounds: b, Image: im}}
	if _, _, _, a := g.At(0, 0).RGBA(); a != 0xffff {
		t.Fatal(a)
	}
""")),

 dict(id='c03-rgbempty', property='C03', pkg='.', edits=[('rgb.go', 'func (r *RGB) Opaque() bool {\n	return true', 'func (r *RGB) Opaque() bool {\n	return r.Stride == 0 || len(r.Pix) > 0')],
  needs='an RGB image that has a width but no height', breaks='such an RGB image counts as translucent',
  demo=demo("""	if !NewRGB(image.Rect(0, 0, 4, 0)).Opaque() {
		t.Fatal("empty")
	}
""")),
]
