package xcf

import (
	"fmt"
	"image"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/lcolor"
)

func TestReplay_C35(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		b := func() uint8 { return uint8(r.Intn(256)) }
		var c color.Color
		switch r.Intn(7) {
		case 0:
			c = color.NRGBA{R: b(), G: b(), B: b(), A: b()}
		case 1:
			c = color.NRGBA64{R: uint16(r.Intn(1 << 16)), G: uint16(r.Intn(1 << 16)), B: uint16(r.Intn(1 << 16)), A: uint16(r.Intn(1 << 16))}
		case 2:
			a := r.Intn(256)
			c = color.RGBA{R: uint8(r.Intn(a + 1)), G: uint8(r.Intn(a + 1)), B: uint8(r.Intn(a + 1)), A: uint8(a)}
		case 3:
			c = color.Gray16{Y: uint16(r.Intn(1 << 16))}
		case 4:
			c = lcolor.GrayAlpha{Y: b(), A: b()}
		case 5:
			c = lcolor.RGB{R: b(), G: b(), B: b()}
		case 6:
			c = color.Gray{Y: b()}
		}
		pal := make(lcolor.AlphaPalette, 1+r.Intn(8))
		for n := range pal {
			pal[n] = lcolor.RGB{R: b(), G: b(), B: b()}
		}
		if k, ok := pal[r.Intn(len(pal))].(lcolor.RGB); ok && r.Intn(2) == 0 {
			c = color.NRGBA{R: k.R, G: k.G, B: k.B, A: b()}
		}
		r.About(func() string { return fmt.Sprintf("%T%v, palette %v", c, c, pal) })
		n := color.NRGBAModel.Convert(c).(color.NRGBA)
		ga := lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)
		e := new(encoder)
		e.colourPalette = pal
		e.rgbAlphaToBuf(c)
		r.Check(e.colourBuf == [4]byte{n.R, n.G, n.B, n.A}, "rgb: %v", e.colourBuf)
		e.grayAlphaToBuf(c)
		r.Check(e.colourBuf[0] == ga.Y && e.colourBuf[1] == ga.A, "gray and alpha: %v", e.colourBuf)
		e.grayToBuf(c)
		r.Check(e.colourBuf[0] == color.GrayModel.Convert(c).(color.Gray).Y, "gray: %v", e.colourBuf)
		e.paletteAlphaToBuf(c)
		i := color.Palette(pal).Index(lcolor.RGB{R: n.R, G: n.G, B: n.B})
		r.Check(int(e.colourBuf[0]) == i && e.colourBuf[1] == n.A, "indexed: %v, not %d, %d", e.colourBuf, i, n.A)

		rect := image.Rect(0, 0, 1+r.Intn(6), 1+r.Intn(6)).Add(image.Pt(r.Intn(9)-4, r.Intn(9)-4))
		at := image.Pt(rect.Min.X+r.Intn(rect.Dx()), rect.Min.Y+r.Intn(rect.Dy()))
		p := [4]byte{b(), b(), b(), b()}
		r.About(func() string { return fmt.Sprintf("pixel % x at %v of %v", p, at, rect) })
		ims := []struct {
			rd interface {
				image.Image
				ReadColour(int, int, []byte)
			}
			n    int
			want interface{}
			get  func(im image.Image, x, y int) interface{}
		}{
			{rgbImageReader{limage.NewRGB(rect)}, 3, lcolor.RGB{R: p[0], G: p[1], B: p[2]}, nil},
			{rgbaImageReader{image.NewNRGBA(rect)}, 4, color.NRGBA{R: p[0], G: p[1], B: p[2], A: p[3]}, nil},
			{grayImageReader{image.NewGray(rect)}, 1, color.Gray{Y: p[0]}, nil},
			{grayAlphaImageReader{limage.NewGrayAlpha(rect)}, 2, lcolor.GrayAlpha{Y: p[0], A: p[1]}, nil},
			{indexedImageReader{image.NewPaletted(rect, color.Palette(pal))}, 1, p[0], func(im image.Image, x, y int) interface{} { return im.(indexedImageReader).ColorIndexAt(x, y) }},
			{palettedAlphaReader{limage.NewPalettedAlpha(rect, pal)}, 2, lcolor.IndexedAlpha{I: p[0], A: p[1]}, func(im image.Image, x, y int) interface{} { return im.(palettedAlphaReader).IndexAlphaAt(x, y) }},
		}
		for _, im := range ims {
			get := im.get
			if get == nil {
				get = func(im image.Image, x, y int) interface{} { return im.At(x, y) }
			}
			zero := get(im.rd, at.X, at.Y)
			im.rd.ReadColour(at.X, at.Y, p[:im.n])
			for y := rect.Min.Y; y < rect.Max.Y; y++ {
				for x := rect.Min.X; x < rect.Max.X; x++ {
					want := zero
					if x == at.X && y == at.Y {
						want = im.want
					}
					r.Check(get(im.rd, x, y) == want, "%T: %v at %d, %d, not %v", im.rd, get(im.rd, x, y), x, y, want)
				}
			}
		}

		for mode, n := range []uint32{3, 4, 1, 2, 1, 2} {
			for bpp := uint32(0); bpp < 6; bpp++ {
				d := decoder{reader: newReader(file{})}
				ok := d.validBPP(uint32(mode), bpp)
				r.Check(ok == (bpp == n) && (d.Err == nil) == ok, "%d channels for mode %d: %v, %v", bpp, mode, ok, d.Err)
			}
		}
	})
}
