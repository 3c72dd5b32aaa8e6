//go:build verif

package xcf

import (
	"image"
	"image/color"
	"io"

	"vimagination.zapto.org/limage/internal/vspec"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/memio"
)

//@ assume errors.Is finds an error that is the very one asked for
//@ assume a compressed image has every tile of its bounds, each with the channels of its mode, and each channel decodes to all pixels of its tile (readCompressedImage makes them so; it is not under contract)

// decoded is byte number k of what the run-length code decodes to, and decodedLen how many
// there are.
func decoded(base int64, k int) byte { return vspec.Pure[byte]("decoded", base+int64(k)) }

func base(code []byte) int64 {
	b := vspec.Pure[int64]("base", code)
	vspec.Assume(0 <= b && b < 1<<60)
	return b
}

func decodedLen(code []byte) int {
	n := vspec.Pure[int]("decoded length", code)
	vspec.Assume(0 <= n && n <= 64*64)
	return n
}

// What C30 says of rle.Read, for a code in memory.
// @ modular (*rle).Read
// @ for C32
func modular_rle_Read(r *rle, p []byte) (int, error) {
	b, ok := r.Reader.Reader.(*memio.Buffer)
	vspec.Assert("reads from memory", ok)
	if r.Reader.Err != nil {
		return 0, r.Reader.Err
	}
	vspec.Assert("starts with a run or literal", r.count == 0)
	code := []byte(*b)
	n := decodedLen(code)
	vspec.Assert("room for the whole code", n <= len(p))
	vspec.FillPure(p[:n], "decoded", base(code))
	*b = nil
	if n < len(p) {
		r.Reader.Err = io.EOF
	}
	return n, r.Reader.Err
}

// place is the number of the tile with the pixel at (x, y) of an image of width w, and the number of
// the pixel in it.
func place(w, x, y int) (int, int) {
	return y/64*((w+63)/64) + x/64, vspec.If(x/64 == w/64, y%64*(w%64), y%64*64) + x%64
}

// holds tells whether the channels of the tile that is noted are the ones that are decoded.
func holds(c *compressedImage, n int) bool {
	if c.tile == -1 {
		return true
	}
	code := c.tiles[c.tile][n]
	b := base(code)
	return vspec.Forall(0, decodedLen(code), func(k int) bool { return c.decompressed[64*64*n+k] == decoded(b, k) })
}

// ready has what a pixel can be looked up in: an image with all tiles of the channels, of which the
// one that is noted is decoded.
func ready(c *compressedImage, x, y, channels int) {
	vspec.Requires(0 < c.width && c.width < 1<<31 && 0 <= x && x < c.width && 0 <= y && y < 1<<31)
	tile, _ := place(c.width, x, y)
	vspec.Requires(c.tile >= -1 && c.tile < len(c.tiles) && 0 <= tile && tile < len(c.tiles))
	vspec.Requires(len(c.tiles[tile]) == channels)
	vspec.Requires(c.tile == -1 || len(c.tiles[c.tile]) == channels)
	for n := 0; n < channels; n++ {
		vspec.Requires(holds(c, n))
	}
}

// found tells that the pixel was found, and that the image can be looked at again.
func found(c *compressedImage, x, y, channels, p int, before compressedImage) {
	tile, k := place(before.width, x, y)
	vspec.Ensures("the tile is noted", c.tile == tile)
	for n := 0; n < channels; n++ {
		vspec.Ensures("its channels are decoded", holds(c, n))
	}
	vspec.Ensures("the place in the tile", p == k && 0 <= p && p < 64*64)
	vspec.Ensures("nothing else is changed", c.width == before.width && vspec.Eq(c.tiles, before.tiles))
}

// @ contract C32 (*compressedImage).decompressTile
func contract_decompressTile_1(c compressedImage, x, y int) {
	ready(&c, x, y, 1)
	before := c
	found(&c, x, y, 1, c.decompressTile(x, y), before)
}

// @ contract C32 (*compressedImage).decompressTile
func contract_decompressTile_2(c compressedImage, x, y int) {
	ready(&c, x, y, 2)
	before := c
	found(&c, x, y, 2, c.decompressTile(x, y), before)
}

// @ contract C32 (*compressedImage).decompressTile
func contract_decompressTile_3(c compressedImage, x, y int) {
	ready(&c, x, y, 3)
	before := c
	found(&c, x, y, 3, c.decompressTile(x, y), before)
}

// @ contract C32 (*compressedImage).decompressTile
func contract_decompressTile_4(c compressedImage, x, y int) {
	ready(&c, x, y, 4)
	before := c
	found(&c, x, y, 4, c.decompressTile(x, y), before)
}

// channel is byte n of the pixel at (x, y).
func channel(x, y, n int) uint8 { return vspec.Pure[uint8]("channel", x, y, n) }

// @ modular (*compressedImage).decompressTile
// @ for C32
func modular_decompressTile(c *compressedImage, x, y int) int {
	vspec.Assert("a pixel of the image", 0 <= x && x < c.width && 0 <= y)
	p, width, tiles := vspec.Any[int]("place"), c.width, c.tiles
	*c = vspec.Any[compressedImage]("image")
	c.width, c.tiles = width, tiles
	vspec.Assume(0 <= p && p < 64*64)
	for n := 0; n < 4; n++ {
		vspec.Assume(c.decompressed[64*64*n+p] == channel(x, y, n))
	}
	return p
}

// bounds gives the bounds of a compressed image.
func bounds(c *compressedImage) image.Rectangle {
	w, h := c.width, vspec.Any[int]("height")
	vspec.Requires(0 < w && w < 1<<31 && 0 < h && h < 1<<31)
	return image.Rectangle{Max: image.Point{X: w, Y: h}}
}

func inside(x, y int, r image.Rectangle) bool {
	return 0 <= x && x < r.Max.X && 0 <= y && y < r.Max.Y
}

// @ contract C32 (*CompressedRGB).RGBAt
func contract_CompressedRGB(c *CompressedRGB, x, y int) {
	vspec.Requires(c != nil)
	c.Rect = bounds(&c.compressedImage)
	r := c.Rect
	var want lcolor.RGB
	if inside(x, y, r) {
		want = lcolor.RGB{R: channel(x, y, 0), G: channel(x, y, 1), B: channel(x, y, 2)}
	}
	vspec.Ensures("the channels of the pixel", c.RGBAt(x, y) == want)
	vspec.Ensures("as a colour", c.At(x, y) == color.Color(want))
	vspec.Ensures("the bounds", c.Bounds() == r)
}

// @ contract C32 (*CompressedNRGBA).NRGBAAt
func contract_CompressedNRGBA(c *CompressedNRGBA, x, y int) {
	vspec.Requires(c != nil)
	c.Rect = bounds(&c.compressedImage)
	r := c.Rect
	var want color.NRGBA
	if inside(x, y, r) {
		want = color.NRGBA{R: channel(x, y, 0), G: channel(x, y, 1), B: channel(x, y, 2), A: channel(x, y, 3)}
	}
	vspec.Ensures("the channels of the pixel", c.NRGBAAt(x, y) == want)
	vspec.Ensures("as a colour", c.At(x, y) == color.Color(want))
	vspec.Ensures("the bounds", c.Bounds() == r)
}

// @ contract C32 (*CompressedGray).GrayAt
func contract_CompressedGray(c *CompressedGray, x, y int) {
	vspec.Requires(c != nil)
	c.Rect = bounds(&c.compressedImage)
	r := c.Rect
	var want color.Gray
	if inside(x, y, r) {
		want = color.Gray{Y: channel(x, y, 0)}
	}
	vspec.Ensures("the channels of the pixel", c.GrayAt(x, y) == want)
	vspec.Ensures("as a colour", c.At(x, y) == color.Color(want))
	vspec.Ensures("the bounds", c.Bounds() == r)
}

// @ contract C32 (*CompressedGrayAlpha).GrayAlphaAt
func contract_CompressedGrayAlpha(c *CompressedGrayAlpha, x, y int) {
	vspec.Requires(c != nil)
	c.Rect = bounds(&c.compressedImage)
	r := c.Rect
	var want lcolor.GrayAlpha
	if inside(x, y, r) {
		want = lcolor.GrayAlpha{Y: channel(x, y, 0), A: channel(x, y, 1)}
	}
	vspec.Ensures("the channels of the pixel", c.GrayAlphaAt(x, y) == want)
	vspec.Ensures("as a colour", c.At(x, y) == color.Color(want))
	vspec.Ensures("the bounds", c.Bounds() == r)
}

// @ contract C32 (*CompressedPaletted).At
func contract_CompressedPaletted(c *CompressedPaletted, x, y int, entry color.NRGBA) {
	vspec.Requires(c != nil)
	c.Rect = bounds(&c.compressedImage)
	r := c.Rect
	i := int(channel(x, y, 0))
	vspec.Requires(i < len(c.Palette))
	entry.A = 255
	c.Palette[i] = entry
	if !inside(x, y, r) {
		vspec.Ensures("nothing outside", c.At(x, y) == color.Color(color.Gray{}))
		return
	}
	vspec.Ensures("the entry of the palette with the number of the pixel", c.At(x, y) == color.Color(entry))
	vspec.Ensures("the bounds", c.Bounds() == r)
}

// @ contract C32 (*CompressedPalettedAlpha).At
func contract_CompressedPalettedAlpha(c *CompressedPalettedAlpha, x, y int, entry color.NRGBA) {
	vspec.Requires(c != nil)
	c.Rect = bounds(&c.compressedImage)
	r := c.Rect
	i := int(channel(x, y, 0))
	vspec.Requires(i < len(c.Palette))
	entry.A = 255
	c.Palette[i] = entry
	if !inside(x, y, r) {
		vspec.Ensures("nothing outside", c.At(x, y) == color.Color(color.Gray{}))
		return
	}
	entry.A = channel(x, y, 1)
	vspec.Ensures("the entry of the palette with the number of the pixel, and its alpha", c.At(x, y) == color.Color(entry))
	vspec.Ensures("the bounds", c.Bounds() == r)
}
