package xcf

import (
	"fmt"
	"image"
	"image/color"
	"testing"

	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/lcolor"
)

func TestReplay_C32(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		sizes := []int{1, 2, 63, 64, 65, 66, 100, 127, 128, 129, 130, 192, 200}
		w, h, channels := sizes[r.Intn(len(sizes))], sizes[r.Intn(len(sizes))], 1+r.Intn(4)
		wide := r.Intn(20) == 0
		if wide {
			w, h, channels = 64*257+r.Intn(200), 1+r.Intn(2), 1
		}
		colours := make(color.Palette, 256)
		for n := range colours {
			colours[n] = lcolor.RGB{R: uint8(r.Intn(256)), G: uint8(r.Intn(256)), B: uint8(r.Intn(256))}
		}
		pix := make([][]byte, channels)
		for n := range pix {
			pix[n] = make([]byte, w*h)
			for k := range pix[n] {
				pix[n][k] = byte(r.Intn(256))
			}
		}
		var ci compressedImage
		ci.width, ci.tile = w, -1
		for y := 0; y < h; y += 64 {
			for x := 0; x < w; x += 64 {
				var tile [][]byte
				for n := range pix {
					var data []byte
					for j := y; j < y+64 && j < h; j++ {
						for i := x; i < x+64 && i < w; i++ {
							data = append(data, pix[n][j*w+i])
						}
					}
					tile = append(tile, append([]byte{128, byte(len(data) >> 8), byte(len(data))}, data...))
				}
				ci.tiles = append(ci.tiles, tile)
			}
		}
		rect := image.Rect(0, 0, w, h)
		indexed := r.Intn(2) == 0
		var im image.Image
		switch {
		case channels == 1 && indexed:
			im = &CompressedPaletted{ci, rect, colours}
		case channels == 1:
			im = &CompressedGray{ci, rect}
		case channels == 2 && indexed:
			im = &CompressedPalettedAlpha{ci, rect, lcolor.AlphaPalette(colours)}
		case channels == 2:
			im = &CompressedGrayAlpha{ci, rect}
		case channels == 3:
			im = &CompressedRGB{ci, rect}
		default:
			im = &CompressedNRGBA{ci, rect}
		}
		r.Check(im.Bounds() == rect, "bounds: %v", im.Bounds())
		x, y := 0, 0
		for n := 0; n < 60; n++ {
			if wide && x >= 64*256 && r.Intn(3) == 0 {
				x -= 64 * 256
			} else if wide && x >= 0 && x+64*256 < w && r.Intn(3) == 0 {
				x += 64 * 256
			} else {
				x, y = r.Intn(w+4)-2, r.Intn(h+4)-2
			}
			if r.Intn(3) == 0 {
				x, y = w-1-r.Intn((w+7)/8), h-1-r.Intn((h+7)/8)
			}
			r.About(func() string { return fmt.Sprintf("pixel %d, %d of %T, %dx%d, after %d others", x, y, im, w, h, n) })
			in := image.Pt(x, y).In(rect)
			ch := func(n int) uint8 {
				if !in {
					return 0
				}
				return pix[n][y*w+x]
			}
			var want color.Color
			switch im.(type) {
			case *CompressedPaletted:
				want = color.Gray{}
				if in {
					c := colours[ch(0)].(lcolor.RGB)
					want = color.NRGBA{R: c.R, G: c.G, B: c.B, A: 255}
				}
			case *CompressedPalettedAlpha:
				want = color.Gray{}
				if in {
					c := colours[ch(0)].(lcolor.RGB)
					want = color.NRGBA{R: c.R, G: c.G, B: c.B, A: ch(1)}
				}
			case *CompressedGray:
				want = color.Gray{Y: ch(0)}
			case *CompressedGrayAlpha:
				want = lcolor.GrayAlpha{Y: ch(0), A: ch(1)}
			case *CompressedRGB:
				want = lcolor.RGB{R: ch(0), G: ch(1), B: ch(2)}
			case *CompressedNRGBA:
				want = color.NRGBA{R: ch(0), G: ch(1), B: ch(2), A: ch(3)}
			}
			got := im.At(x, y)
			r.Check(got == want, "%v, not %v", got, want)
			switch im := im.(type) {
			case *CompressedGray:
				r.Check(im.GrayAt(x, y) == want, "GrayAt: %v, not %v", im.GrayAt(x, y), want)
			case *CompressedGrayAlpha:
				r.Check(im.GrayAlphaAt(x, y) == want, "GrayAlphaAt: %v, not %v", im.GrayAlphaAt(x, y), want)
			case *CompressedRGB:
				r.Check(im.RGBAt(x, y) == want, "RGBAt: %v, not %v", im.RGBAt(x, y), want)
			case *CompressedNRGBA:
				r.Check(im.NRGBAAt(x, y) == want, "NRGBAAt: %v, not %v", im.NRGBAAt(x, y), want)
			}
		}
	})
}
