//go:build verif

package xcf

import (
	"image"

	"vimagination.zapto.org/byteio"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume byteio reads back the 32 bit numbers it wrote

// tape holds the numbers that were written, in order; those of an item path are kept
// apart, since there can be any number of them.
var tape struct {
	words, path []uint32
	write, read cursor
}

// cursor is a place on the tape: the number of words before it, and where it is in the
// property it is in.
type cursor struct {
	n, k      int // words, and words of the path
	stage     int // 0: a type is next, 1: a length, 2: data
	typ, left uint32
	onPath    bool
}

// pathNext tells whether the next number belongs to an item path.
func (c *cursor) pathNext() bool { return c.onPath && uint32(c.k)*4 < c.left }

func (c *cursor) pass(v uint32) {
	c.n++
	c.onPath = false
	switch {
	case c.n <= 4: // size, type and name of the layer
	case c.stage == 0:
		c.typ, c.stage = v, 1
	case c.stage == 1:
		c.left = v
		if c.typ == propItemPath {
			c.onPath, c.k, c.stage = true, 0, 0
		} else if v == 0 {
			c.stage = 0
		} else {
			c.stage = 2
		}
	default:
		c.left -= 4
		if c.left == 0 {
			c.stage = 0
		}
	}
}

func newTape() {
	tape.words, tape.path = make([]uint32, 64), make([]uint32, 1<<30)
	tape.write, tape.read = cursor{}, cursor{}
}

// @ model (*vimagination.zapto.org/byteio.StickyBigEndianWriter).WriteUint32
// @ for C31
func model_WriteUint32(w *byteio.StickyBigEndianWriter, v uint32) {
	c := &tape.write
	if c.pathNext() {
		tape.path[c.k] = v
		c.k++
		return
	}
	tape.words[c.n] = v
	c.pass(v)
}

// @ model (*vimagination.zapto.org/byteio.StickyBigEndianReader).ReadUint32
// @ for C31
func model_ReadUint32(r *byteio.StickyBigEndianReader) uint32 {
	c := &tape.read
	if c.pathNext() {
		v := tape.path[c.k]
		c.k++
		return v
	}
	vspec.Assert("reads what was written", c.n < tape.write.n)
	v := tape.words[c.n]
	c.pass(v)
	return v
}

// @ model (*vimagination.zapto.org/byteio.StickyBigEndianReader).ReadFloat32
// @ for C31
func model_ReadFloat32(r *byteio.StickyBigEndianReader) float32 {
	return vspec.Pure[float32]("float", r.ReadUint32())
}

// @ model (*reader).Skip
// @ for C31
func model_Skip(r *reader, n uint32) {
	vspec.Assert("skips whole numbers", n%4 == 0)
	for ; n >= 4; n -= 4 {
		r.ReadUint32()
	}
}

// The name of the layer stands for one number.
// @ modular (writer).WriteString
// @ for C31
func modular_WriteString(w writer, s string) {
	w.WriteUint32(0)
}

// The text of a layer is a parasite of any length.
// @ modular (*encoder).WriteText
// @ for C31
func modular_WriteText(e *encoder, text limage.TextData, dx, dy uint32) {
	e.WriteUint32(propParasites)
	e.WriteUint32(4)
	e.WriteUint32(1234)
}

// @ modular (*reader).ReadParasites
// @ for C31
func modular_ReadParasites(r *reader, l uint32) parasites {
	vspec.Assert("the length of the text", l == 4)
	r.ReadUint32()
	return nil
}

// numbered is the blend mode with the given number in an XCF file.
func numbered(n uint32) limage.Composite {
	switch n {
	case 1:
		return limage.CompositeDissolve
	case 2, 29:
		return limage.CompositeBehind
	case 3, 30:
		return limage.CompositeMultiply
	case 4, 31:
		return limage.CompositeScreen
	case 5, 23:
		return limage.CompositeOverlay
	case 6, 32:
		return limage.CompositeDifference
	case 7, 33:
		return limage.CompositeAddition
	case 8, 34:
		return limage.CompositeSubtract
	case 9, 35, 54:
		return limage.CompositeDarkenOnly
	case 10, 36, 55:
		return limage.CompositeLightenOnly
	case 11, 24, 37:
		return limage.CompositeHue
	case 12, 38:
		return limage.CompositeSaturation
	case 13, 26, 39:
		return limage.CompositeColor
	case 14, 40:
		return limage.CompositeValue
	case 15, 41:
		return limage.CompositeDivide
	case 16, 42:
		return limage.CompositeDodge
	case 17, 43:
		return limage.CompositeBurn
	case 18, 44:
		return limage.CompositeHardLight
	case 19, 45:
		return limage.CompositeSoftLight
	case 20, 46:
		return limage.CompositeGrainExtract
	case 21, 47:
		return limage.CompositeGrainMerge
	case 22, 57:
		return limage.CompositeColorErase
	case 25:
		return limage.CompositeChroma
	case 27:
		return limage.CompositeLightness
	case 48:
		return limage.CompositeVividLight
	case 49:
		return limage.CompositePinLight
	case 50:
		return limage.CompositeLinearLight
	case 51:
		return limage.CompositeHardMix
	case 52:
		return limage.CompositeExclusion
	case 53:
		return limage.CompositeLinearBurn
	case 56:
		return limage.CompositeLuminance
	case 58:
		return limage.CompositeErase
	case 59:
		return limage.CompositeMerge
	case 60:
		return limage.CompositeSplit
	case 61:
		return limage.CompositePassThrough
	}
	return limage.CompositeNormal
}

// expressible is m when XCF has a number for it, and else Normal.
func expressible(m limage.Composite) limage.Composite {
	switch m {
	case limage.CompositeDissolve, limage.CompositeBehind, limage.CompositeMultiply, limage.CompositeScreen,
		limage.CompositeOverlay, limage.CompositeDifference, limage.CompositeAddition, limage.CompositeSubtract,
		limage.CompositeDarkenOnly, limage.CompositeLightenOnly, limage.CompositeHue, limage.CompositeSaturation,
		limage.CompositeColor, limage.CompositeValue, limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn,
		limage.CompositeHardLight, limage.CompositeSoftLight, limage.CompositeGrainExtract, limage.CompositeGrainMerge,
		limage.CompositeColorErase, limage.CompositeChroma, limage.CompositeLightness, limage.CompositeVividLight,
		limage.CompositePinLight, limage.CompositeLinearLight, limage.CompositeHardMix, limage.CompositeExclusion,
		limage.CompositeLinearBurn, limage.CompositeLuminance, limage.CompositeErase, limage.CompositeMerge,
		limage.CompositeSplit, limage.CompositePassThrough:
		return m
	}
	return limage.CompositeNormal
}

// @ contract C31 modeID
func contract_modeID(m limage.Composite) {
	vspec.Ensures("the number of the mode", numbered(modeID(m)) == expressible(m))
}

// @ contract C31 (*layer).readMode
func contract_readMode(n uint32, mode limage.Composite) {
	newTape()
	model_WriteUint32(nil, n)
	d := new(decoder)
	d.reader.StickyBigEndianReader = new(byteio.StickyBigEndianReader)
	l := layer{Layer: limage.Layer{Mode: mode}}
	l.readMode(d)
	vspec.Ensures("the mode with the number", l.Mode == numbered(n))
}

// @ modular modeID
// @ for C31
func modular_modeID(m limage.Composite) uint32 {
	n := vspec.Any[uint32]("mode number")
	vspec.Assume(vspec.Pure[limage.Composite]("numbered", n) == vspec.Pure[limage.Composite]("expressible", m))
	return n
}

// @ modular (*layer).readMode
// @ for C31
func modular_readMode(l *layer, d *decoder) {
	l.Mode = vspec.Pure[limage.Composite]("numbered", d.ReadUint32())
}

// @ contract C31 writeProperties
// @ narrow
func contract_properties(im limage.Layer, offsetX, offsetY int32, groups []uint32, group limage.Image, text limage.TextData, kind uint8) {
	vspec.Requires(len(groups) < 1<<20 && kind <= 2)
	dx, dy := im.LayerBounds.Dx(), im.LayerBounds.Dy()
	vspec.Requires(0 <= dx && dx < 1<<31 && 0 <= dy && dy < 1<<31)
	newTape()
	e := new(encoder)
	e.colourType = kind
	e.writer.StickyBigEndianWriter = new(byteio.StickyBigEndianWriter)
	for _, k := range [...]int{0, 1} { // t+k numbers of the path are written
		k := k
		vspec.Candidate(func(t int) bool {
			c := &tape.write
			return c.k == t+k && t+k >= 0 && t+k <= len(groups) && c.onPath && int(c.left) == 4*len(groups)
		})
		vspec.Candidate(func(t int) bool {
			return vspec.Forall(0, t+k, func(i int) bool { return tape.path[i] == groups[i] })
		})
	}
	writeProperties(e, im, offsetX, offsetY, groups, group, text)
	e.WriteUint32(0)
	vspec.EndCandidates()

	d := new(decoder)
	d.baseType = uint32(kind)
	d.reader.StickyBigEndianReader = new(byteio.StickyBigEndianReader)
	var l layer
	l.LayerBounds.Max.X = int(d.ReadUint32())
	l.LayerBounds.Max.Y = int(d.ReadUint32())
	typ := d.ReadUint32()
	vspec.Ensures("the type of the image, with transparency", typ == uint32(kind)*2+1)
	d.ReadUint32() // name
	vspec.Candidate(func(i uint32) bool {
		c := &tape.read
		return c.k == int(i) && int(i) <= len(groups) && c.onPath && int(c.left) == 4*len(groups)
	})
	for _, k := range [...]int{0, 1} {
		k := k
		vspec.Candidate(func(t int) bool {
			c := &tape.read
			return c.k == t+k && t+k >= 0 && t+k <= len(groups) && c.onPath && int(c.left) == 4*len(groups)
		})
	}
	vspec.Candidate(func() bool {
		c := &tape.read
		return c.k <= len(groups) && c.onPath && int(c.left) == 4*len(groups)
	})
	vspec.Candidate(func(path []rune) bool {
		return len(path) == tape.read.k && vspec.Forall(0, tape.read.k, func(k int) bool { return path[k] == rune(groups[k]) })
	})
	vspec.Candidate(func() bool {
		return len(l.itemPath) == len(groups) && vspec.Forall(0, tape.read.k, func(k int) bool { return l.itemPath[k] == rune(groups[k]) })
	})
	l.readProperties(d)
	vspec.EndCandidates()
	vspec.Ensures("no error", d.Err == nil)
	vspec.Ensures("all properties are read", tape.read.n == tape.write.n && tape.read.k == tape.write.k)
	vspec.Ensures("the opacity", l.Transparency == im.Transparency)
	vspec.Ensures("the visibility", l.Invisible == im.Invisible)
	vspec.Ensures("the position", l.LayerBounds.Min == image.Pt(int(offsetX), int(offsetY)))
	vspec.Ensures("the size", l.LayerBounds.Dx() == dx && l.LayerBounds.Dy() == dy)
	if kind == 0 {
		vspec.Ensures("the mode", l.Mode == vspec.Pure[limage.Composite]("expressible", im.Mode))
	}
	vspec.Ensures("whether it is a group", l.group == (group != nil))
	if len(groups) > 1 {
		vspec.Ensures("the path", len(l.itemPath) == len(groups) && vspec.Forall(0, len(groups), func(i int) bool { return l.itemPath[i] == rune(groups[i]) }))
	} else {
		vspec.Ensures("no path", l.itemPath == nil)
	}
}
