package limage_test

import (
	"fmt"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/lcolor"
)

// straight is the non-premultiplied form of a colour, worked out from the colour contract.
func straight(c color.Color) color.NRGBA64 {
	switch c := c.(type) {
	case color.NRGBA:
		return color.NRGBA64{R: uint16(c.R) * 257, G: uint16(c.G) * 257, B: uint16(c.B) * 257, A: uint16(c.A) * 257}
	case color.NRGBA64:
		return c
	}
	if n, ok := c.(interface{ ToNRGBA() color.NRGBA64 }); ok {
		return n.ToNRGBA()
	}
	return color.NRGBA64Model.Convert(c).(color.NRGBA64)
}

func fade(c color.Color, o uint8) color.NRGBA64 {
	n := straight(c)
	if o == 0 {
		return color.NRGBA64{}
	}
	n.A = uint16(uint32(o) * 257 * uint32(n.A) / 0xffff)
	return n
}

// leaf is an image without layers.
func leaf(r *vreplay.R, b image.Rectangle) image.Image {
	var s interface {
		image.Image
		Set(x, y int, c color.Color)
	}
	switch r.Intn(9) {
	case 0:
		s = image.NewRGBA(b)
	case 1:
		s = image.NewNRGBA(b)
	case 2:
		s = image.NewGray(b)
	case 3:
		s = limage.NewRGB(b)
	case 4:
		s = limage.NewGrayAlpha(b)
	case 5:
		s = image.NewPaletted(b, color.Palette{color.NRGBA{1, 2, 3, 255}, color.NRGBA{200, 100, 50, 128}, color.NRGBA{9, 9, 9, 127}, color.NRGBA{}})
	case 6:
		s = limage.NewPalettedAlpha(b, lcolor.AlphaPalette{color.NRGBA{1, 2, 3, 255}, color.NRGBA{200, 100, 50, 255}})
	default:
		s = image.NewNRGBA64(b)
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			s.Set(x, y, r.NRGBA64())
		}
	}
	return s
}

// anyImage is an image, possibly with layers, masks and text.
func anyImage(r *vreplay.R, b image.Rectangle, depth int) image.Image {
	n := r.Intn(8)
	if depth == 0 && n < 5 {
		n = 7
	}
	switch n {
	case 0:
		return anyLayers(r, depth-1, false)
	case 1:
		l := anyLayers(r, depth-1, false)
		return &l
	case 2, 3:
		m := image.NewGray(b)
		for i := range m.Pix {
			m.Pix[i] = r.U8()
		}
		mi := limage.MaskedImage{Image: anyImage(r, b, depth-1), Mask: m}
		if n == 2 {
			return mi
		}
		return &mi
	case 4:
		t := limage.Text{Image: anyImage(r, b, depth-1), TextData: limage.TextData{{Data: "text"}}}
		if r.Bool() {
			return t
		}
		return &t
	}
	return leaf(r, b)
}

var modes = []limage.Composite{limage.CompositeNormal, limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeDarkenOnly, limage.CompositeHue, limage.CompositeBehind}

func anyLayers(r *vreplay.R, depth int, dissolve bool) limage.Image {
	var g limage.Image
	for i := r.Intn(4); i >= 0; i-- {
		b := image.Rect(0, 0, 1+r.Intn(6), 1+r.Intn(6))
		l := limage.Layer{
			Name:        fmt.Sprintf("layer%d", i),
			LayerBounds: b.Add(image.Pt(r.Intn(9)-4, r.Intn(9)-4)),
			Mode:        modes[r.Intn(len(modes))],
			Invisible:   r.Intn(4) == 0,
			Image:       anyImage(r, b, depth),
		}
		if dissolve && r.Intn(6) == 0 {
			l.Mode = limage.CompositeDissolve
		}
		if r.Bool() {
			l.Transparency = r.U8()
		}
		if r.Intn(6) == 0 {
			l.LayerBounds.Max = l.LayerBounds.Min
		}
		g = append(g, l)
	}
	return g
}

func describe(im image.Image) string {
	switch im := im.(type) {
	case limage.Image:
		s := "Image{"
		for _, l := range im {
			s += describe(l) + ", "
		}
		return s + "}"
	case *limage.Image:
		return "&" + describe(*im)
	case limage.Layer:
		return fmt.Sprintf("Layer{bounds %v mode %d invisible %v transparency %d: %s}", im.LayerBounds, im.Mode, im.Invisible, im.Transparency, describe(im.Image))
	case limage.MaskedImage:
		return "MaskedImage{" + describe(im.Image) + "}"
	case *limage.MaskedImage:
		return "&MaskedImage{" + describe(im.Image) + "}"
	case limage.Text:
		return "Text{" + describe(im.Image) + "}"
	case *limage.Text:
		return "&Text{" + describe(im.Image) + "}"
	}
	return fmt.Sprintf("%T%v", im, im.Bounds())
}

func sameColor(a, b color.Color) bool { return straight(a) == straight(b) && rgbaOf(a) == rgbaOf(b) }
