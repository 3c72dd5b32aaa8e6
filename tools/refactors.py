#!/usr/bin/env python3
"""Applies edits that keep the behaviour to scratch copies of /repo and runs the checks against them: they must stay quiet.

usage: refactors.py [id...]
"""
import sys, os, subprocess, shutil, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, properties, edits (file, old, new)
R = [
 ('opaque-rows', 'C03', [('grayalpha.go', '''		for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
			if g.GrayAlphaAt(x, y).A != 255 {
				return false
			}
		}
''', '''		i := g.PixOffset(g.Rect.Min.X, y)

		for _, p := range g.Pix[i : i+g.Rect.Dx()] {
			if p.A != 255 {
				return false
			}
		}
''')]),
 ('opaque-idx', 'C03', [('grayalpha.go', '''		for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
			if g.GrayAlphaAt(x, y).A != 255 {
				return false
			}
		}
''', '''		o := g.PixOffset(g.Rect.Min.X, y)

		for n := 0; n < g.Rect.Dx(); n++ {
			if g.Pix[o+n].A < 255 {
				return false
			}
		}
''')]),
 ('opaque-cols', 'C03', [('grayalpha.go', '''	for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
		for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
			if g''', '''	for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
		for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
			if g''')]),
 ('ga-in', 'C01 C02 C03', [('grayalpha.go', '''func (g *GrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
	if !(image.Point{x, y}.In(g.Rect)) {
		return lcolor.GrayAlpha{}
	}

	return g.Pix[g.PixOffset(x, y)]
}
''', '''func (g *GrayAlpha) GrayAlphaAt(x, y int) (c lcolor.GrayAlpha) {
	if g.contains(x, y) {
		c = g.Pix[g.PixOffset(x, y)]
	}

	return c
}

func (g *GrayAlpha) contains(x, y int) bool {
	return x >= g.Rect.Min.X && x < g.Rect.Max.X && y >= g.Rect.Min.Y && y < g.Rect.Max.Y
}
''')]),
 ('ga-set', 'C01 C02', [('grayalpha.go', '''	if !(image.Point{x, y}.In(g.Rect)) {
		return
	}

	g.Pix[g.PixOffset(x, y)] = lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)
''', '''	g.SetGrayAlpha(x, y, lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha))
''')]),
 ('ga-sub', 'C01 C02 C03', [('grayalpha.go', '''	return &GrayAlpha{
		Pix:    g.Pix[g.PixOffset(r.Min.X, r.Min.Y):],
		Stride: g.Stride,
		Rect:   r,
	}
''', '''	s := *g
	s.Rect = r
	s.Pix = s.Pix[g.PixOffset(r.Min.X, r.Min.Y):]

	return &s
''')]),
 ('ga-new', 'C01', [('grayalpha.go', '''	w, h := r.Dx(), r.Dy()

	return &GrayAlpha{
		Pix:    make([]lcolor.GrayAlpha, w*h),
		Stride: w,
		Rect:   r,
	}
''', '''	size := r.Size()

	return &GrayAlpha{
		Pix:    make([]lcolor.GrayAlpha, size.X*size.Y),
		Stride: size.X,
		Rect:   r,
	}
''')]),
 ('at-range', 'C05 C06 C24', [('image.go', '''	for i := len(g) - 1; i >= 0; i-- {
		if g[i].Invisible {
''', '''	for n := range g {
		i := len(g) - n - 1

		if g[i].Invisible {
''')]),
 ('at-layer', 'C05 C06 C24', [('image.go', '''		if g[i].Invisible {
			continue
		}

		if !point.In(g[i].Bounds()) {
			continue
		}
''', '''		if l := g[i]; l.Invisible || !point.In(l.LayerBounds) {
			continue
		}
''')]),
 ('at-helper', 'C05 C06 C24', [('image.go', '''		if _, ok := g.ColorModel().(color.Palette); g[i].Mode != CompositeDissolve && ok {
			if d := internal.ColourToNRGBA(g[i].At(x, y)); d.A > 0x7fff {
				d.A = 0xffff
				c = d
			}
		} else {
			c = g[i].Mode.Composite(c, g[i].At(x, y))
		}
	}

	return c
}
''', '''		c = g.over(c, g[i], x, y)
	}

	return c
}

func (g Image) over(c color.Color, l Layer, x, y int) color.Color {
	if _, ok := g.ColorModel().(color.Palette); !ok || l.Mode == CompositeDissolve {
		return l.Mode.Composite(c, l.At(x, y))
	}

	d := internal.ColourToNRGBA(l.At(x, y))
	if d.A <= 0x7fff {
		return c
	}

	d.A = 0xffff

	return d
}
''')]),
 ('at-palette', 'C05 C06 C24', [('image.go', '''	point := image.Point{x, y}

	for i''', '''	point := image.Point{x, y}
	_, paletted := g.ColorModel().(color.Palette)

	for i'''), ('image.go', '''		if _, ok := g.ColorModel().(color.Palette); g[i].Mode != CompositeDissolve && ok {''', '''		if paletted && g[i].Mode != CompositeDissolve {''')]),
 ('layer-at', 'C04 C05 C06 C24', [('layer.go', '''	return transparency(l.Image.At(x-l.LayerBounds.Min.X, y-l.LayerBounds.Min.Y), 255-l.Transparency)
''', '''	p := image.Pt(x, y).Sub(l.LayerBounds.Min)

	return transparency(l.Image.At(p.X, p.Y), ^l.Transparency)
''')]),
 ('transparency', 'C04 C05 C06', [('misc.go', '''	if ao == 0xff {
		return ac
	} else if ao == 0 {
		return color.NRGBA64{}
	}

	c := internal.ColourToNRGBA(ac)
	o := uint32(ao)
	o |= o << 8
	c.A = uint16(o * uint32(c.A) / 0xffff)

	return c
''', '''	switch ao {
	case 0:
		return color.NRGBA64{}
	case 0xff:
		return ac
	}

	c := internal.ColourToNRGBA(ac)
	c.A = uint16(uint32(ao) * 0x101 * uint32(c.A) / 0xffff)

	return c
''')]),
 ('crop-append', 'C05 C24', [('image.go', '''	h := make(Image, len(g))

	for n, l := range g {
		h[n] = l.SubImageLayer(r)
	}
''', '''	h := make(Image, 0, len(g))

	for _, l := range g {
		h = append(h, l.SubImageLayer(r))
	}
''')]),
 ('crop-layer', 'C05 C24', [('layer.go', '''	r = r.Intersect(l.LayerBounds)

	if d := r.Min.Sub(l.LayerBounds.Min); !r.Empty() && d != (image.Point{}) {
		l.Image = shiftImage(l.Image, d)
	}

	l.LayerBounds = r

	return l
''', '''	visible := l.LayerBounds.Intersect(r)
	d := visible.Min.Sub(l.LayerBounds.Min)
	l.LayerBounds = visible

	if visible.Empty() || d.X == 0 && d.Y == 0 {
		return l
	}

	l.Image = shiftImage(l.Image, d)

	return l
''')]),
 ('bounds-idx', 'C05 C06 C24', [('image.go', '''	for _, l := range g {
		r = r.Union(l.Bounds())
	}
''', '''	for i := 0; i < len(g); i++ {
		r = g[i].LayerBounds.Union(r)
	}
''')]),
 ('text-join', 'C13', [('misc.go', '''	var sb strings.Builder

	for _, d := range t {
		sb.WriteString(d.Data)
	}

	return sb.String()
''', '''	s := make([]string, len(t))

	for n, d := range t {
		s[n] = d.Data
	}

	return strings.Join(s, "")
''')]),
 ('text-plus', 'C13', [('misc.go', '''	var sb strings.Builder

	for _, d := range t {
		sb.WriteString(d.Data)
	}

	return sb.String()
''', '''	s := ""

	for n := range t {
		s += t[n].Data
	}

	return s
'''), ('misc.go', '''	"strings"

''', '''
''')]),
 ('text-grow', 'C13', [('misc.go', '''	var sb strings.Builder

	for _, d := range t {
''', '''	var (
		sb strings.Builder
		n  int
	)

	for _, d := range t {
		n += len(d.Data)
	}

	sb.Grow(n)

	for _, d := range t {
''')]),
 ('comp-if', 'C07 C08 C09 C06', [('composite.go', '''	if bottom.A == 0 {
		return color.NRGBA{}
	}

	ma := internal.Min(bottom.A, top.A)

	return color.NRGBA64{
		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
''', '''	return perChannel(bottom, top, f)
}

func perChannel(bottom, top color.NRGBA64, f func(uint16, uint16) uint16) color.Color {
	if bottom.A == 0 {
		return color.NRGBA{}
	}

	ma := bottom.A
	if top.A < ma {
		ma = top.A
	}

	return color.NRGBA64{
		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
''')]),
 ('comp-blend', 'C07 C08 C09', [('composite.go', '''	a1 := uint32(aa1)
	x1 := uint32(ax1)
	a2 := uint32(aa2)
	x2 := uint32(ax2)
	k := 0xffff * a2 / (0xffff - (0xffff-a1)*(0xffff-a2)/0xffff)

	return uint16((0xffff-k)*x1/0xffff + k*x2/0xffff)
''', '''	const full = 0xffff

	total := full - (full-uint32(aa1))*(full-uint32(aa2))/full
	k := uint32(aa2) * full / total
	below := uint32(ax1) * (full - k) / full

	return uint16(below + uint32(ax2)*k/full)
''')]),
 ('comp-switch', 'C07 C08', [('composite.go', '''	if x > y {
		return x - y
	}

	return y - x
''', '''	return internal.Max(x, y) - internal.Min(x, y)
'''), ('composite.go', '''	return clamp(uint32(x) + uint32(y))
''', '''	if s := uint32(x) + uint32(y); s < 0xffff {
		return uint16(s)
	}

	return 0xffff
'''), ('composite.go', '''	if y > x {
		return 0
	}

	return x - y
''', '''	return x - internal.Min(x, y)
''')]),
 ('comp-clamp', 'C07 C08', [('composite.go', '''	if n > 0xffff {
		return 0xffff
	}

	return uint16(n)
''', '''	if n < 0x10000 {
		return uint16(n)
	}

	return 0xffff
''')]),
 ('comp-overlay', 'C07 C08', [('composite.go', '''	t := 0xffff - y

	return uint16((0xffff-y)*(x*x/0xffff)/0xffff + y*(0xffff-(t*t/0xffff))/0xffff)
''', '''	t := 0xffff - y
	square := x * x / 0xffff
	inverse := 0xffff - t*t/0xffff

	return uint16(t*square/0xffff + inverse*y/0xffff)
''')]),
 ('comp-dodge', 'C07 C08', [('composite.go', '''	if y == 0xffff {
		if x == 0 {
			return 0
		}

		return 0xffff
	}

	return clamp(0xffff * uint32(x) / (0xffff - uint32(y)))
''', '''	switch {
	case x == 0:
		return 0
	case y == 0xffff:
		return 0xffff
	}

	return clamp(uint32(x) * 0xffff / uint32(^y))
''')]),
 ('comp-table', 'C07 C08', [('composite.go', '''	case CompositeMultiply:
		f = compositeMultiply
	case CompositeScreen:
		f = compositeScreen
''', '''	case CompositeScreen:
		f = compositeScreen
	case CompositeMultiply:
		f = func(x, y uint16) uint16 {
			return compositeMultiply(y, x)
		}
''')]),
 ('comp-value', 'C08 C09', [('composite.go', '''	a := lcolor.RGBToHSV(bottom)
	a.V = lcolor.RGBToHSV(top).V

	return blendComponent(bottom, top, a.ToNRGBA())
''', '''	b, t := lcolor.RGBToHSV(bottom), lcolor.RGBToHSV(top)

	return blendComponent(bottom, top, lcolor.HSVA{H: b.H, S: b.S, V: t.V, A: b.A}.ToNRGBA())
''')]),
 ('hsl-branch', 'C09 C10', [('lcolor/hsl.go', '''	if l <= 0xffff {
		hsl.S = uint16(0xffff * c / l)
	} else {
		hsl.S = uint16(0xffff * c / (0x1fffe - l))
	}
''', '''	d := l
	if d > 0xffff {
		d = 0x1fffe - l
	}

	hsl.S = uint16(0xffff * c / d)
''')]),
 ('hsv-hue', 'C09 C10', [('lcolor/hsl.go', '''	switch mx {
	case cl.R:
		if cl.G >= cl.B {
			h = 0x00000 + 0xffff*uint32(cl.G-cl.B)/c
		} else {
			h = 0x5fffa - 0xffff*uint32(cl.B-cl.G)/c
		}
	case cl.G:''', '''	switch {
	case mx == cl.R && cl.G >= cl.B:
		h = 0xffff * uint32(cl.G-cl.B) / c
	case mx == cl.R:
		h = 0x5fffa - 0xffff*uint32(cl.B-cl.G)/c
	case mx == cl.G:'''), ('lcolor/hsl.go', '''	case cl.B:
		if cl.R >= cl.G {''', '''	default:
		if cl.R >= cl.G {''')]),
 ('hsv-hcma', 'C09 C10', [('lcolor/hsl.go', '''	cl := color.NRGBA64{
		A: a,
	}

	switch h / 0xffff {
	case 0:
		cl.R = uint16(c)
		cl.G = uint16(x)
	case 1:
''', '''	cl := color.NRGBA64{A: a}
	sector := h / 0xffff

	if sector == 0 {
		cl.R, cl.G = uint16(c), uint16(x)
	}

	switch sector {
	case 1:
''')]),
 ('readat-lock', 'C12', [('internal/bufioToReader.go', '''	r.readMutex.Lock()
	defer r.readMutex.Unlock()

	if _, err := r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
		return 0, err
	}

	n, err := io.ReadFull(r.ReadSeeker, p)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}

	return n, err
''', '''	r.readMutex.Lock()

	n, err := r.readFull(p, offset)

	r.readMutex.Unlock()

	return n, err
}

func (r *readerAt) readFull(p []byte, offset int64) (n int, err error) {
	if _, err = r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
		return 0, err
	}

	n, err = io.ReadFull(r.ReadSeeker, p)
	if err == io.ErrUnexpectedEOF {
		return n, io.EOF
	}

	return n, err
''')]),
 ('getreader-switch', 'C12', [('internal/bufioToReader.go', '''	if bb, ok := r.(*bufio.Reader); ok {
		return bufioToReader(bb)
	} else if ra, ok := r.(io.ReaderAt); ok {
		return ra
	} else if rs, ok := r.(io.ReadSeeker); ok {
		return &readerAt{ReadSeeker: rs}
	}

	return nil
''', '''	switch r := r.(type) {
	case *bufio.Reader:
		return bufioToReader(r)
	case io.ReaderAt:
		return r
	case io.ReadSeeker:
		return &readerAt{ReadSeeker: r}
	default:
		return nil
	}
''')]),
 ('ora-attr', 'C20 C21 C22', [('ora/encode.go', '''	if lim.Name != "" {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "name"},
			Value: lim.Name,
		})
	}

	if b.X != 0 {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "x"},
			Value: strconv.Itoa(b.X),
		})
	}

	if b.Y != 0 {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "y"},
			Value: strconv.Itoa(b.Y),
		})
	}
''', '''	add := func(name, value string) {
		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: name}, Value: value})
	}

	if lim.Name != "" {
		add("name", lim.Name)
	}

	if b.X != 0 {
		add("x", strconv.Itoa(b.X))
	}

	if b.Y != 0 {
		add("y", strconv.Itoa(b.Y))
	}
''')]),
 ('ora-attr2', 'C20 C21 C22', [('ora/encode.go', '''	if lim.Name != "" {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "name"},
			Value: lim.Name,
		})
	}
''', '''	if lim.Name != "" {
		attrs = append(attrs, attr("name", lim.Name))
	}
'''), ('ora/encode.go', '''func writeGroupStack(''', '''func attr(name, value string) xml.Attr {
	return xml.Attr{Name: xml.Name{Local: name}, Value: value}
}

func writeGroupStack(''')]),
 ('ora-always', 'C21', [('ora/encode.go', '''	if b.X != 0 {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "x"},
			Value: strconv.Itoa(b.X),
		})
	}

	if b.Y != 0 {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "y"},
			Value: strconv.Itoa(b.Y),
		})
	}
''', '''	if b.Y != 0 {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "y"},
			Value: strconv.Itoa(b.Y),
		})
	}

	if b.X != 0 {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "x"},
			Value: strconv.Itoa(b.X),
		})
	}
''')]),
 ('ora-op', 'C20 C21 C22', [('ora/encode.go', '''	var op string

	switch lim.Mode {
''', '''	op := operator(lim.Mode)

	if op != "" {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "composite-op"},
			Value: op,
		})
	}

	var err error

	switch im := lim.Image.(type) {
	case limage.Image:
		layerNum, err = writeGroupStack(e, im, attrs, layerNum)
	case *limage.Image:
		layerNum, err = writeGroupStack(e, *im, attrs, layerNum)
	// case limage.Text, *limage.Text: // text is not yet in the spec
	default:
		layerNum++
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "src"},
			Value: "data/" + strconv.Itoa(layerNum) + ".png",
		})

		if err = e.EncodeToken(xml.StartElement{
			Name: xml.Name{Local: "layer"},
			Attr: attrs,
		}); err == nil {
			err = e.EncodeToken(xml.EndElement{
				Name: xml.Name{Local: "layer"},
			})
		}
	}

	return layerNum, err
}

func operator(mode limage.Composite) string {
	var op string

	switch mode {
'''), ('ora/encode.go', '''	case limage.CompositeDestinationAtop:
		op = "svg:dst-atop"
	}

	if op != "" {
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "composite-op"},
			Value: op,
		})
	}

	var err error

	switch im := lim.Image.(type) {
	case limage.Image:
		layerNum, err = writeGroupStack(e, im, attrs, layerNum)
	case *limage.Image:
		layerNum, err = writeGroupStack(e, *im, attrs, layerNum)
	// case limage.Text, *limage.Text: // text is not yet in the spec
	default:
		layerNum++
		attrs = append(attrs, xml.Attr{
			Name:  xml.Name{Local: "src"},
			Value: "data/" + strconv.Itoa(layerNum) + ".png",
		})

		if err = e.EncodeToken(xml.StartElement{
			Name: xml.Name{Local: "layer"},
			Attr: attrs,
		}); err == nil {
			err = e.EncodeToken(xml.EndElement{
				Name: xml.Name{Local: "layer"},
			})
		}
	}

	return layerNum, err
}
''', '''	case limage.CompositeDestinationAtop:
		op = "svg:dst-atop"
	}

	return op
}
''')]),
 ('ora-entry', 'C20 C21 C22', [('ora/encode.go', '''		layerNum++

		f, err = zw.Create("data/" + strconv.Itoa(layerNum) + ".png")
		if err != nil {
			return 0, err
		}

		err = png.Encode(f, lim.Image)
		if err != nil {
			return 0, err
		}
	}

	return layerNum, err
}
''', '''		layerNum++

		err = writePNG(zw, "data/"+strconv.Itoa(layerNum)+".png", im)
	}

	if err != nil {
		return 0, err
	}

	return layerNum, nil
}

func writePNG(zw *zip.Writer, name string, m image.Image) error {
	f, err := zw.Create(name)
	if err != nil {
		return err
	}

	return png.Encode(f, m)
}
'''), ('ora/encode.go', '''	var (
		err error
		f   io.Writer
	)
''', '''	var err error
''')]),
 ('ora-sprintf', 'C20 C21 C22', [('ora/encode.go', '''zw.Create("data/" + strconv.Itoa(layerNum) + ".png")''', '''zw.Create(fmt.Sprintf("data/%d.png", layerNum))'''),
   ('ora/encode.go', '''	"image"
	"image/png"''', '''	"fmt"
	"image"
	"image/png"''')]),
 ('ora-inline-group', 'C20 C21 C22', [('ora/encode.go', '''	case limage.Image:
		layerNum, err = writeGroup(zw, im, layerNum)
	case *limage.Image:
		layerNum, err = writeGroup(zw, *im, layerNum)
''', '''	case limage.Image:
		for _, l := range im {
			if layerNum, err = writeLayers(zw, l, layerNum); err != nil {
				return 0, err
			}
		}
	case *limage.Image:
		return writeLayers(zw, limage.Layer{Image: *im}, layerNum)
'''), ('ora/encode.go', '''func writeGroup(zw *zip.Writer, lim limage.Image, layerNum int) (int, error) {
	var err error

	for _, l := range lim {
		layerNum, err = writeLayers(zw, l, layerNum)
		if err != nil {
			return 0, err
		}
	}

	return layerNum, nil
}

''', '')]),
 ('ora-group-idx', 'C20 C21 C22', [('ora/encode.go', '''	for _, l := range lim {
		layerNum, err = writeLayers(zw, l, layerNum)
		if err != nil {
			return 0, err
		}
	}

	return layerNum, nil
''', '''	for i := 0; i < len(lim); i++ {
		if layerNum, err = writeLayers(zw, lim[i], layerNum); err != nil {
			return 0, err
		}
	}

	return layerNum, err
''')]),
 ('ora-rename', 'C20 C21 C22', [('ora/encode.go', '''layerNum, err = writeGroup(zw, im, layerNum)''', '''layerNum, err = writeChildren(zw, im, layerNum)'''), ('ora/encode.go', '''layerNum, err = writeGroup(zw, *im, layerNum)''', '''layerNum, err = writeChildren(zw, *im, layerNum)'''), ('ora/encode.go', '''func writeGroup(zw''', '''func writeChildren(zw''')]),
 ('ora-tolayer', 'C20 C21 C22 C26', [('ora/encode.go', '''	switch im := m.(type) {
	case limage.Layer:
		return limage.Layer{
			Image: im.Image,
		}
	case *limage.Layer:
		return limage.Layer{
			Image: im.Image,
		}
	default:
		return limage.Layer{
			Image: m,
		}
	}
''', '''	switch im := m.(type) {
	case limage.Layer:
		m = im.Image
	case *limage.Layer:
		m = im.Image
	}

	return limage.Layer{Image: m}
''')]),
 ('ora-steps', 'C20 C21 C22 C26', [('ora/encode.go', '''	if _, err := writeStack(e, lim, 0); err != nil {
		return err
	} else if err = e.EncodeToken(xml.EndElement{
		Name: xml.Name{
			Local: "image",
		},
	}); err != nil {
		return err
	} else if err = e.Flush(); err != nil {
		return err
	} else if fw, err = zw.Create("mergedimage.png"); err != nil {
		return err
	} else if err = png.Encode(fw, m); err != nil {
		return err
	} else if fw, err''', '''	if _, err := writeStack(e, lim, 0); err != nil {
		return err
	}

	err := e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "image"}})
	if err == nil {
		err = e.Flush()
	}

	if err != nil {
		return err
	}

	fw, err = zw.Create("mergedimage.png")
	if err != nil {
		return err
	}

	if err = png.Encode(fw, m); err != nil {
		return err
	}

	if fw, err'''), ]),
 ('ora-thumb', 'C26 C22', [('ora/thumbnail.go', '''	s := m.Bounds().Size()

	if s.X > s.Y {
		s.X, s.Y = thumbnailSize, thumbnailSize*s.Y/s.X
	} else {
		s.X, s.Y = thumbnailSize*s.X/s.Y, thumbnailSize
	}

	if s.X == 0 {
		s.X = 1
	} else if s.Y == 0 {
		s.Y = 1
	}

	return thumbnail{Image: m, size: s}
''', '''	b := m.Bounds()
	w, h := b.Dx(), b.Dy()
	t := thumbnail{Image: m, size: image.Pt(thumbnailSize, thumbnailSize)}

	if w > h {
		t.size.Y = atLeastOne(thumbnailSize * h / w)
	} else {
		t.size.X = atLeastOne(thumbnailSize * w / h)
	}

	return t
}

func atLeastOne(n int) int {
	if n < 1 {
		return 1
	}

	return n
''')]),
 ('dec-skip', 'C23 C24 C25', [('ora/stack.go', '''	toSkip := 0

	for {
		t, err := d.x.Token()
		if err != nil {
			return err
		}

		switch t.(type) {
		case xml.StartElement:
			toSkip++
		case xml.EndElement:
			if toSkip == 0 {
				return nil
			}

			toSkip--
		}
	}
''', '''	for depth := 1; depth > 0; {
		t, err := d.x.Token()
		if err != nil {
			return err
		}

		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
		}
	}

	return nil
''')]),
 ('dec-skiprec', 'C23 C24', [('ora/stack.go', '''	toSkip := 0

	for {
		t, err := d.x.Token()
		if err != nil {
			return err
		}

		switch t.(type) {
		case xml.StartElement:
			toSkip++
		case xml.EndElement:
			if toSkip == 0 {
				return nil
			}

			toSkip--
		}
	}
''', '''	for {
		t, err := d.x.Token()
		if err != nil {
			return err
		}

		switch t.(type) {
		case xml.StartElement:
			if err := d.skipTag(); err != nil {
				return err
			}
		case xml.EndElement:
			return nil
		}
	}
''')]),
 ('dec-skipstd', 'C23 C24', [('ora/stack.go', '''	toSkip := 0

	for {
		t, err := d.x.Token()
		if err != nil {
			return err
		}

		switch t.(type) {
		case xml.StartElement:
			toSkip++
		case xml.EndElement:
			if toSkip == 0 {
				return nil
			}

			toSkip--
		}
	}
''', '''	return d.x.Skip()
''')]),
 ('dec-source', 'C23 C24', [('ora/stack.go', '''		for _, f := range d.zr.File {
			if f.Name == source {
				fr, err := f.Open()
				if err != nil {
					return l, err
				}

				l.Image, _, err = image.Decode(fr)
				if err != nil {
					return l, err
				}

				fr.Close()

				break
			}
		}

		if l.Image == nil {
			return l, ErrInvalidSource
		}
''', '''		l.Image, err = d.readImage(source)
		if err != nil {
			return l, err
		}
'''), ('ora/stack.go', '''func processLayerAttrs(''', '''func (d decoder) readImage(source string) (image.Image, error) {
	for _, f := range d.zr.File {
		if f.Name != source {
			continue
		}

		fr, err := f.Open()
		if err != nil {
			return nil, err
		}

		defer fr.Close()

		im, _, err := image.Decode(fr)

		return im, err
	}

	return nil, ErrInvalidSource
}

func processLayerAttrs(''')]),
 ('dec-shift', 'C23 C24', [('ora/stack.go', '''	b := l.Image.Bounds()
	b = b.Union(image.Rectangle{Max: b.Max})

	if g, ok := l.Image.(limage.Image); ok && b.Min != (image.Point{}) {
		for n := range g {
			g[n].LayerBounds = g[n].LayerBounds.Sub(b.Min)
		}
	}
''', '''	b := l.Image.Bounds()
	b = b.Union(image.Rectangle{Max: b.Max})

	if g, ok := l.Image.(limage.Image); ok {
		moveLayers(g, b.Min)
	}
'''), ('ora/stack.go', '''func processLayerAttrs(''', '''func moveLayers(g limage.Image, p image.Point) {
	if p.X == 0 && p.Y == 0 {
		return
	}

	for n := range g {
		g[n].LayerBounds = g[n].LayerBounds.Sub(p)
	}
}

func processLayerAttrs(''')]),
 ('dec-stack', 'C23 C24', [('ora/stack.go', '''			switch t.Name.Local {
			case "stack", "layer":
				l, err := d.readLayer(t, offset)
				if err != nil {
					return nil, err
				}

				i = append(i, l)
			default:
				if err := d.skipTag(); err != nil {
					return nil, err
				}
			}
''', '''			if name := t.Name.Local; name != "stack" && name != "layer" {
				if err = d.skipTag(); err != nil {
					return nil, err
				}

				continue
			}

			l, err := d.readLayer(t, offset)
			if err != nil {
				return nil, err
			}

			i = append(i, l)
''')]),
 ('dec-return', 'C23 C24', [('ora/stack.go', '''		case xml.EndElement:
			break Loop
		}
	}

	if len(i) != cap(i) {
		j := make(limage.Image, len(i))

		copy(j, i)

		i = j
	}

	return i, nil
''', '''		case xml.EndElement:
			return append(make(limage.Image, 0, len(i)), i...), nil
		}
	}
'''), ('ora/stack.go', '''Loop:
''', '')]),
 ('dec-clip', 'C23 C24', [('ora/stack.go', '''	var l limage.Image
''', '')]) if 0 else
 ('dec-nilslice', 'C23 C24', [('ora/stack.go', '''	i := make(limage.Image, 0, 32)

''', '''	i := limage.Image{}

''')]),
 ('dec-attr', 'C21 C23 C24', [('ora/stack.go', '''		case "x":
			offset, err := strconv.Atoi(a.Value)
			if err != nil {
				return "", err
			}

			l.LayerBounds.Min.X = offset
		case "y":
			offset, err := strconv.Atoi(a.Value)
			if err != nil {
				return "", err
			}

			l.LayerBounds.Min.Y = offset
''', '''		case "x", "y":
			offset, err := strconv.Atoi(a.Value)
			if err != nil {
				return "", err
			}

			if a.Name.Local == "x" {
				l.LayerBounds.Min.X = offset
			} else {
				l.LayerBounds.Min.Y = offset
			}
''')]),
 ('dec-modes', 'C21 C23', [('ora/stack.go', '''			switch a.Value {
			case "svg:src-over":
				l.Mode = limage.CompositeNormal
			case "svg:multiply":
				l.Mode = limage.CompositeMultiply
''', '''			switch a.Value {
			case "svg:multiply":
				l.Mode = limage.CompositeMultiply
			case "svg:src-over":
				l.Mode = limage.CompositeNormal
''')]),
 ('dec-dims', 'C25 C23 C24', [('ora/decode.go', '''		if se, ok := t.(xml.StartElement); ok {
			if se.Name.Local == "image" {
				var w, h bool
''', '''		if se, ok := t.(xml.StartElement); ok {
			if se.Name.Local != "image" {
				return ErrInvalidStack
			}

			{
				var w, h bool
'''), ('ora/decode.go', '''				return nil
			}

			return ErrInvalidStack
''', '''				return nil
			}
''')]),
 ('dec-dims2', 'C25 C23 C24', [('ora/decode.go', '''				var w, h bool

				for _, attr := range se.Attr {
					switch attr.Name.Local {
					case "w":
						d.limits.X, err = strconv.Atoi(attr.Value)
						w = true
					case "h":
						d.limits.Y, err = strconv.Atoi(attr.Value)
						h = true
					}

					if err != nil {
						return err
					}
				}

				if !w || !h {
					return ErrInvalidStack
				}

				return nil
''', '''				return d.readSize(se.Attr)
'''), ('ora/decode.go', '''// DecodeConfig retrieves''', '''func (d *decoder) readSize(attrs []xml.Attr) (err error) {
	var w, h bool

	for _, attr := range attrs {
		switch attr.Name.Local {
		case "w":
			w = true
			d.limits.X, err = strconv.Atoi(attr.Value)
		case "h":
			h = true
			d.limits.Y, err = strconv.Atoi(attr.Value)
		}

		if err != nil {
			return err
		}
	}

	if w && h {
		return nil
	}

	return ErrInvalidStack
}

// DecodeConfig retrieves''')]),
 ('dec-mime', 'C25 C23', [('ora/decode.go', '''	var mime [len(mimetypeStr)]byte

	_, err = io.ReadFull(mr, mime[:])

	mr.Close()

	if err != nil {
		return false
	}

	return string(mime[:]) == mimetypeStr
''', '''	defer mr.Close()

	mime := make([]byte, len(mimetypeStr))

	if _, err = io.ReadFull(mr, mime); err != nil {
		return false
	}

	return string(mime) == mimetypeStr
''')]),
 ('dec-getstack', 'C25 C23', [('ora/decode.go', '''	err = ErrMissingStack

	for _, f := range d.zr.File {
		switch f.Name {
		case "stack.xml":
			stack = f
			err = nil
		case "mimetype":
			if !checkMime(f) {
				return nil, ErrInvalidMimeType
			}
		}
	}

	return stack, err
''', '''	for _, f := range d.zr.File {
		if f.Name == "mimetype" && !checkMime(f) {
			return nil, ErrInvalidMimeType
		} else if f.Name == "stack.xml" {
			stack = f
		}
	}

	if stack == nil {
		return nil, ErrMissingStack
	}

	return stack, nil
''')]),
 ('dec-open', 'C25 C23 C24', [('ora/decode.go', '''	d := decoder{zr: zr}

	stack, err := d.getStack()
	if err != nil {
		return nil, err
	}

	s, err := stack.Open()
	if err != nil {
		return nil, err
	}

	defer s.Close()

	d.x = xml.NewDecoder(s)

	if err := d.getDimensions(); err != nil {
		return nil, err
	}
''', '''	d := decoder{zr: zr}

	s, err := d.openHeader()
	if err != nil {
		return nil, err
	}

	defer s.Close()
'''), ('ora/decode.go', '''	d := decoder{zr: zr}

	stack, err := d.getStack()
	if err != nil {
		return image.Config{}, err
	}

	s, err := stack.Open()
	if err != nil {
		return image.Config{}, err
	}

	d.x = xml.NewDecoder(s)

	if err := d.getDimensions(); err != nil {
		return image.Config{}, err
	}
''', '''	d := decoder{zr: zr}

	s, err := d.openHeader()
	if err != nil {
		return image.Config{}, err
	}
'''), ('ora/decode.go', '''// DecodeConfig retrieves''', '''func (d *decoder) openHeader() (io.ReadCloser, error) {
	stack, err := d.getStack()
	if err != nil {
		return nil, err
	}

	s, err := stack.Open()
	if err != nil {
		return nil, err
	}

	d.x = xml.NewDecoder(s)

	if err := d.getDimensions(); err != nil {
		s.Close()

		return nil, err
	}

	return s, nil
}

// DecodeConfig retrieves''')]),
 ('dec-first', 'C25 C23 C24', [('ora/decode.go', '''	for { // skip to first stack tag.
		t, err := d.x.Token()
		if err != nil {
			if errors.Is(err, io.EOF) {
				return nil, io.ErrUnexpectedEOF
			}

			return nil, err
		}

		if se, ok := t.(xml.StartElement); ok {
			if se.Name.Local == "stack" {
				break
			}

			if err := d.skipTag(); err != nil {
				return nil, err
			}
		}
	}

	return d.readStack(image.Point{})
}
''', '''	if err := d.findStack(); err != nil {
		return nil, err
	}

	return d.readStack(image.Point{})
}

// findStack skips to the first stack tag.
func (d *decoder) findStack() error {
	for {
		t, err := d.x.Token()
		if errors.Is(err, io.EOF) {
			return io.ErrUnexpectedEOF
		} else if err != nil {
			return err
		}

		se, ok := t.(xml.StartElement)
		if !ok {
			continue
		}

		if se.Name.Local == "stack" {
			return nil
		}

		if err := d.skipTag(); err != nil {
			return err
		}
	}
}
''')]),
 # xcf
 ('rle-switch', 'C30', [('xcf/rle.go', '''			if m < 127 {
				r.repeatByte = true
				r.count = uint16(m) + 1
				r.data = r.Reader.ReadUint8()
			} else if m == 127 {
				r.repeatByte = true
				r.count = r.Reader.ReadUint16()
				r.data = r.Reader.ReadUint8()
			} else if m == 128 {
				r.repeatByte = false
				r.count = r.Reader.ReadUint16()
			} else {
				r.repeatByte = false
				r.count = 256 - uint16(m)
			}
''', '''			switch {
			case m == 128:
				r.repeatByte = false
				r.count = r.Reader.ReadUint16()
			case m > 128:
				r.repeatByte = false
				r.count = 256 - uint16(m)
			default:
				r.repeatByte = true

				if m == 127 {
					r.count = r.Reader.ReadUint16()
				} else {
					r.count = uint16(m) + 1
				}

				r.data = r.Reader.ReadUint8()
			}
'''), ('xcf/rle.go', '''			for i := 0; i < c; i++ {
				p[i] = r.data
			}
''', '''			for i := range p[:c] {
				p[i] = r.data
			}
''')]),
 ('rle-header', 'C30', [('xcf/rle.go', '''			m := r.Reader.ReadUint8()

			if r.Reader.Err != nil {
				return n, r.Reader.Err
			}

			if m < 127 {
				r.repeatByte = true
				r.count = uint16(m) + 1
				r.data = r.Reader.ReadUint8()
			} else if m == 127 {
				r.repeatByte = true
				r.count = r.Reader.ReadUint16()
				r.data = r.Reader.ReadUint8()
			} else if m == 128 {
				r.repeatByte = false
				r.count = r.Reader.ReadUint16()
			} else {
				r.repeatByte = false
				r.count = 256 - uint16(m)
			}

			if r.Reader.Err != nil {
				if errors.Is(r.Reader.Err, io.EOF) {
					r.Reader.Err = io.ErrUnexpectedEOF
				}

				return n, r.Reader.Err
			}
		}
''', '''			if err := r.next(); err != nil {
				return n, err
			}
		}
'''), ('xcf/rle.go', '''const minRunLength = 3
''', '''// next reads the start of the next run.
func (r *rle) next() error {
	m := r.Reader.ReadUint8()

	if r.Reader.Err != nil {
		return r.Reader.Err
	}

	if r.repeatByte = m <= 127; m == 127 || m == 128 {
		r.count = r.Reader.ReadUint16()
	} else if r.repeatByte {
		r.count = uint16(m) + 1
	} else {
		r.count = 256 - uint16(m)
	}

	if r.repeatByte {
		r.data = r.Reader.ReadUint8()
	}

	if errors.Is(r.Reader.Err, io.EOF) {
		r.Reader.Err = io.ErrUnexpectedEOF
	}

	return r.Reader.Err
}

const minRunLength = 3
''')]),
 ('rle-index', 'C30', [('xcf/rle.go', '''	for len(p) > 0 && r.Reader.Err == nil {
''', '''	for n < len(p) && r.Reader.Err == nil {
'''), ('xcf/rle.go', '''		c := int(r.count)

		if len(p) < c {
			c = len(p)
		}

		if r.repeatByte {
			for i := 0; i < c; i++ {
				p[i] = r.data
			}
		} else {
			r.Reader.Read(p[:c])
		}

		r.count -= uint16(c)
		p = p[c:]
		n += c
''', '''		c := int(r.count)

		if left := len(p) - n; left < c {
			c = left
		}

		if r.repeatByte {
			for i := 0; i < c; i++ {
				p[n+i] = r.data
			}
		} else {
			r.Reader.Read(p[n : n+c])
		}

		r.count -= uint16(c)
		n += c
''')]),
 ('rle-write', 'C30', [('xcf/rle.go', '''	var run, written int

	last := data[0]

	for n, b := range data {
		if b == last {
			run++
		} else {
			if run > minRunLength {
				w.WriteRLEData(data[written:n-run], run, last)
				written = n
			}

			run = 1
		}

		last = b
	}
''', '''	var written int

	run, last := 1, data[0]

	for n := 1; n < len(data); n++ {
		if data[n] == last {
			run++

			continue
		}

		if run > minRunLength {
			w.WriteRLEData(data[written:n-run], run, last)
			written = n
		}

		run, last = 1, data[n]
	}
''')]),
 ('rle-write2', 'C30', [('xcf/rle.go', '''	var run, written int

	last := data[0]

	for n, b := range data {
		if b == last {
			run++
		} else {
			if run > minRunLength {
				w.WriteRLEData(data[written:n-run], run, last)
				written = n
			}

			run = 1
		}

		last = b
	}
''', '''	var run, written int

	last := data[0]

	for n, b := range data {
		if b != last {
			if run > minRunLength {
				w.WriteRLEData(data[written:n-run], run, last)
				written = n
			}

			run = 0
			last = b
		}

		run++
	}
''')]),
 ('rle-same', 'C30', [('xcf/rle.go', '''		r := false

		if len(data) <= minRunLength {
			r = true

			for _, b := range data {
				if b != data[0] {
					r = false

					break
				}
			}
		}

		if r {
			w.WriteRLEData(nil, len(data), data[0])
		} else {
''', '''		if len(data) <= minRunLength && same(data) {
			w.WriteRLEData(nil, len(data), data[0])
		} else {
'''), ('xcf/rle.go', '''const minRunLength = 3
''', '''// same reports whether all of the bytes are the same.
func same(data []byte) bool {
	for _, b := range data[1:] {
		if b != data[0] {
			return false
		}
	}

	return true
}

const minRunLength = 3
''')]),
 ('rle-copy', 'C30', [('xcf/rle.go', '''	for count > 0 {
		c := d.reader.ReadUint8()

		bw.WriteUint8(c)

		if c < 127 {
			count -= int(c) + 1

			bw.WriteUint8(d.ReadUint8())
		} else if c == 127 {
			p := d.ReadUint16()

			bw.WriteUint16(p)

			count -= int(p)

			bw.WriteUint8(d.ReadUint8())
		} else if c == 128 {
			p := d.ReadUint16()

			bw.WriteUint16(p)

			count -= int(p)

			io.CopyN(buf, d, int64(p))
		} else {
			count -= 256 - int(c)

			io.CopyN(buf, d, 256-int64(c))
		}
	}
''', '''	for count > 0 {
		c := d.reader.ReadUint8()

		bw.WriteUint8(c)

		n := int(c) + 1

		switch {
		case c == 127, c == 128:
			p := d.ReadUint16()

			bw.WriteUint16(p)

			n = int(p)
		case c > 128:
			n = 256 - int(c)
		}

		if c < 128 {
			bw.WriteUint8(d.ReadUint8())
		} else {
			io.CopyN(buf, d, int64(n))
		}

		count -= n
	}
''')]),
 ('mode-array', 'C31', [('xcf/layer_encode.go', '\tswitch mode {\n\tcase limage.CompositeNormal:\n\t\treturn 0\n\tcase limage.CompositeDissolve:\n\t\treturn 1\n\tcase limage.CompositeBehind:\n\t\treturn 2\n\tcase limage.CompositeMultiply:\n\t\treturn 3\n\tcase limage.CompositeScreen:\n\t\treturn 4\n\tcase limage.CompositeOverlay:\n\t\treturn 5\n\tcase limage.CompositeDifference:\n\t\treturn 6\n\tcase limage.CompositeAddition:\n\t\treturn 7\n\tcase limage.CompositeSubtract:\n\t\treturn 8\n\tcase limage.CompositeDarkenOnly:\n\t\treturn 9\n\tcase limage.CompositeLightenOnly:\n\t\treturn 10\n\tcase limage.CompositeHue:\n\t\treturn 11\n\tcase limage.CompositeSaturation:\n\t\treturn 12\n\tcase limage.CompositeColor:\n\t\treturn 13\n\tcase limage.CompositeValue:\n\t\treturn 14\n\tcase limage.CompositeDivide:\n\t\treturn 15\n\tcase limage.CompositeDodge:\n\t\treturn 16\n\tcase limage.CompositeBurn:\n\t\treturn 17\n\tcase limage.CompositeHardLight:\n\t\treturn 18\n\tcase limage.CompositeSoftLight:\n\t\treturn 19\n\tcase limage.CompositeGrainExtract:\n\t\treturn 20\n\tcase limage.CompositeGrainMerge:\n\t\treturn 21\n\tcase limage.CompositeColorErase:\n\t\treturn 22\n\tcase limage.CompositeChroma:\n\t\treturn 25\n\tcase limage.CompositeLightness:\n\t\treturn 27\n\tcase limage.CompositeVividLight:\n\t\treturn 48\n\tcase limage.CompositePinLight:\n\t\treturn 49\n\tcase limage.CompositeLinearLight:\n\t\treturn 50\n\tcase limage.CompositeHardMix:\n\t\treturn 51\n\tcase limage.CompositeExclusion:\n\t\treturn 52\n\tcase limage.CompositeLinearBurn:\n\t\treturn 53\n\tcase limage.CompositeLuminance:\n\t\treturn 56\n\tcase limage.CompositeErase:\n\t\treturn 58\n\tcase limage.CompositeMerge:\n\t\treturn 59\n\tcase limage.CompositeSplit:\n\t\treturn 60\n\tcase limage.CompositePassThrough:\n\t\treturn 61\n\tdefault:\n\t\treturn 0 // Error instead?\n\t}\n}', '\tif int(mode) < len(modeIDs) {\n\t\treturn modeIDs[mode]\n\t}\n\n\treturn 0\n}\n\nvar modeIDs = [...]uint32{\n\tlimage.CompositeNormal: 0,\n\tlimage.CompositeDissolve: 1,\n\tlimage.CompositeBehind: 2,\n\tlimage.CompositeMultiply: 3,\n\tlimage.CompositeScreen: 4,\n\tlimage.CompositeOverlay: 5,\n\tlimage.CompositeDifference: 6,\n\tlimage.CompositeAddition: 7,\n\tlimage.CompositeSubtract: 8,\n\tlimage.CompositeDarkenOnly: 9,\n\tlimage.CompositeLightenOnly: 10,\n\tlimage.CompositeHue: 11,\n\tlimage.CompositeSaturation: 12,\n\tlimage.CompositeColor: 13,\n\tlimage.CompositeValue: 14,\n\tlimage.CompositeDivide: 15,\n\tlimage.CompositeDodge: 16,\n\tlimage.CompositeBurn: 17,\n\tlimage.CompositeHardLight: 18,\n\tlimage.CompositeSoftLight: 19,\n\tlimage.CompositeGrainExtract: 20,\n\tlimage.CompositeGrainMerge: 21,\n\tlimage.CompositeColorErase: 22,\n\tlimage.CompositeChroma: 25,\n\tlimage.CompositeLightness: 27,\n\tlimage.CompositeVividLight: 48,\n\tlimage.CompositePinLight: 49,\n\tlimage.CompositeLinearLight: 50,\n\tlimage.CompositeHardMix: 51,\n\tlimage.CompositeExclusion: 52,\n\tlimage.CompositeLinearBurn: 53,\n\tlimage.CompositeLuminance: 56,\n\tlimage.CompositeErase: 58,\n\tlimage.CompositeMerge: 59,\n\tlimage.CompositeSplit: 60,\n\tlimage.CompositePassThrough: 61,\n}'), ('xcf/layer_decode.go', '\tswitch d.ReadUint32() {\n\tcase 0, 28:\n\t\tl.Mode = limage.CompositeNormal\n\tcase 1:\n\t\tl.Mode = limage.CompositeDissolve\n\tcase 2, 29:\n\t\tl.Mode = limage.CompositeBehind\n\tcase 3, 30:\n\t\tl.Mode = limage.CompositeMultiply\n\tcase 4, 31:\n\t\tl.Mode = limage.CompositeScreen\n\tcase 5, 23:\n\t\tl.Mode = limage.CompositeOverlay\n\tcase 6, 32:\n\t\tl.Mode = limage.CompositeDifference\n\tcase 7, 33:\n\t\tl.Mode = limage.CompositeAddition\n\tcase 8, 34:\n\t\tl.Mode = limage.CompositeSubtract\n\tcase 9, 35, 54:\n\t\tl.Mode = limage.CompositeDarkenOnly\n\tcase 10, 36, 55:\n\t\tl.Mode = limage.CompositeLightenOnly\n\tcase 11, 24, 37:\n\t\tl.Mode = limage.CompositeHue\n\tcase 12, 38:\n\t\tl.Mode = limage.CompositeSaturation\n\tcase 13, 26, 39:\n\t\tl.Mode = limage.CompositeColor\n\tcase 14, 40:\n\t\tl.Mode = limage.CompositeValue\n\tcase 15, 41:\n\t\tl.Mode = limage.CompositeDivide\n\tcase 16, 42:\n\t\tl.Mode = limage.CompositeDodge\n\tcase 17, 43:\n\t\tl.Mode = limage.CompositeBurn\n\tcase 18, 44:\n\t\tl.Mode = limage.CompositeHardLight\n\tcase 19, 45:\n\t\tl.Mode = limage.CompositeSoftLight\n\tcase 20, 46:\n\t\tl.Mode = limage.CompositeGrainExtract\n\tcase 21, 47:\n\t\tl.Mode = limage.CompositeGrainMerge\n\tcase 22, 57:\n\t\tl.Mode = limage.CompositeColorErase\n\tcase 25:\n\t\tl.Mode = limage.CompositeChroma\n\tcase 27:\n\t\tl.Mode = limage.CompositeLightness\n\tcase 48:\n\t\tl.Mode = limage.CompositeVividLight\n\tcase 49:\n\t\tl.Mode = limage.CompositePinLight\n\tcase 50:\n\t\tl.Mode = limage.CompositeLinearLight\n\tcase 51:\n\t\tl.Mode = limage.CompositeHardMix\n\tcase 52:\n\t\tl.Mode = limage.CompositeExclusion\n\tcase 53:\n\t\tl.Mode = limage.CompositeLinearBurn\n\tcase 56:\n\t\tl.Mode = limage.CompositeLuminance\n\tcase 58:\n\t\tl.Mode = limage.CompositeErase\n\tcase 59:\n\t\tl.Mode = limage.CompositeMerge\n\tcase 60:\n\t\tl.Mode = limage.CompositeSplit\n\tcase 61:\n\t\tl.Mode = limage.CompositePassThrough\n\tdefault:\n\t\tl.Mode = 0\n\t}\n}', '\tn := d.ReadUint32()\n\n\tif n >= uint32(len(modes)) {\n\t\tn = 0\n\t}\n\n\tl.Mode = modes[n]\n}\n\nvar modes = [...]limage.Composite{\n\t0: limage.CompositeNormal,\n\t28: limage.CompositeNormal,\n\t1: limage.CompositeDissolve,\n\t2: limage.CompositeBehind,\n\t29: limage.CompositeBehind,\n\t3: limage.CompositeMultiply,\n\t30: limage.CompositeMultiply,\n\t4: limage.CompositeScreen,\n\t31: limage.CompositeScreen,\n\t5: limage.CompositeOverlay,\n\t23: limage.CompositeOverlay,\n\t6: limage.CompositeDifference,\n\t32: limage.CompositeDifference,\n\t7: limage.CompositeAddition,\n\t33: limage.CompositeAddition,\n\t8: limage.CompositeSubtract,\n\t34: limage.CompositeSubtract,\n\t9: limage.CompositeDarkenOnly,\n\t35: limage.CompositeDarkenOnly,\n\t54: limage.CompositeDarkenOnly,\n\t10: limage.CompositeLightenOnly,\n\t36: limage.CompositeLightenOnly,\n\t55: limage.CompositeLightenOnly,\n\t11: limage.CompositeHue,\n\t24: limage.CompositeHue,\n\t37: limage.CompositeHue,\n\t12: limage.CompositeSaturation,\n\t38: limage.CompositeSaturation,\n\t13: limage.CompositeColor,\n\t26: limage.CompositeColor,\n\t39: limage.CompositeColor,\n\t14: limage.CompositeValue,\n\t40: limage.CompositeValue,\n\t15: limage.CompositeDivide,\n\t41: limage.CompositeDivide,\n\t16: limage.CompositeDodge,\n\t42: limage.CompositeDodge,\n\t17: limage.CompositeBurn,\n\t43: limage.CompositeBurn,\n\t18: limage.CompositeHardLight,\n\t44: limage.CompositeHardLight,\n\t19: limage.CompositeSoftLight,\n\t45: limage.CompositeSoftLight,\n\t20: limage.CompositeGrainExtract,\n\t46: limage.CompositeGrainExtract,\n\t21: limage.CompositeGrainMerge,\n\t47: limage.CompositeGrainMerge,\n\t22: limage.CompositeColorErase,\n\t57: limage.CompositeColorErase,\n\t25: limage.CompositeChroma,\n\t27: limage.CompositeLightness,\n\t48: limage.CompositeVividLight,\n\t49: limage.CompositePinLight,\n\t50: limage.CompositeLinearLight,\n\t51: limage.CompositeHardMix,\n\t52: limage.CompositeExclusion,\n\t53: limage.CompositeLinearBurn,\n\t56: limage.CompositeLuminance,\n\t58: limage.CompositeErase,\n\t59: limage.CompositeMerge,\n\t60: limage.CompositeSplit,\n\t61: limage.CompositePassThrough,\n}')]),
 ('mode-map', 'C31', [('xcf/layer_encode.go', '\tswitch mode {\n\tcase limage.CompositeNormal:\n\t\treturn 0\n\tcase limage.CompositeDissolve:\n\t\treturn 1\n\tcase limage.CompositeBehind:\n\t\treturn 2\n\tcase limage.CompositeMultiply:\n\t\treturn 3\n\tcase limage.CompositeScreen:\n\t\treturn 4\n\tcase limage.CompositeOverlay:\n\t\treturn 5\n\tcase limage.CompositeDifference:\n\t\treturn 6\n\tcase limage.CompositeAddition:\n\t\treturn 7\n\tcase limage.CompositeSubtract:\n\t\treturn 8\n\tcase limage.CompositeDarkenOnly:\n\t\treturn 9\n\tcase limage.CompositeLightenOnly:\n\t\treturn 10\n\tcase limage.CompositeHue:\n\t\treturn 11\n\tcase limage.CompositeSaturation:\n\t\treturn 12\n\tcase limage.CompositeColor:\n\t\treturn 13\n\tcase limage.CompositeValue:\n\t\treturn 14\n\tcase limage.CompositeDivide:\n\t\treturn 15\n\tcase limage.CompositeDodge:\n\t\treturn 16\n\tcase limage.CompositeBurn:\n\t\treturn 17\n\tcase limage.CompositeHardLight:\n\t\treturn 18\n\tcase limage.CompositeSoftLight:\n\t\treturn 19\n\tcase limage.CompositeGrainExtract:\n\t\treturn 20\n\tcase limage.CompositeGrainMerge:\n\t\treturn 21\n\tcase limage.CompositeColorErase:\n\t\treturn 22\n\tcase limage.CompositeChroma:\n\t\treturn 25\n\tcase limage.CompositeLightness:\n\t\treturn 27\n\tcase limage.CompositeVividLight:\n\t\treturn 48\n\tcase limage.CompositePinLight:\n\t\treturn 49\n\tcase limage.CompositeLinearLight:\n\t\treturn 50\n\tcase limage.CompositeHardMix:\n\t\treturn 51\n\tcase limage.CompositeExclusion:\n\t\treturn 52\n\tcase limage.CompositeLinearBurn:\n\t\treturn 53\n\tcase limage.CompositeLuminance:\n\t\treturn 56\n\tcase limage.CompositeErase:\n\t\treturn 58\n\tcase limage.CompositeMerge:\n\t\treturn 59\n\tcase limage.CompositeSplit:\n\t\treturn 60\n\tcase limage.CompositePassThrough:\n\t\treturn 61\n\tdefault:\n\t\treturn 0 // Error instead?\n\t}\n}', '\treturn modeIDs[mode] // 0 for those there is no number for\n}\n\nvar modeIDs = map[limage.Composite]uint32{\n\tlimage.CompositeNormal: 0,\n\tlimage.CompositeDissolve: 1,\n\tlimage.CompositeBehind: 2,\n\tlimage.CompositeMultiply: 3,\n\tlimage.CompositeScreen: 4,\n\tlimage.CompositeOverlay: 5,\n\tlimage.CompositeDifference: 6,\n\tlimage.CompositeAddition: 7,\n\tlimage.CompositeSubtract: 8,\n\tlimage.CompositeDarkenOnly: 9,\n\tlimage.CompositeLightenOnly: 10,\n\tlimage.CompositeHue: 11,\n\tlimage.CompositeSaturation: 12,\n\tlimage.CompositeColor: 13,\n\tlimage.CompositeValue: 14,\n\tlimage.CompositeDivide: 15,\n\tlimage.CompositeDodge: 16,\n\tlimage.CompositeBurn: 17,\n\tlimage.CompositeHardLight: 18,\n\tlimage.CompositeSoftLight: 19,\n\tlimage.CompositeGrainExtract: 20,\n\tlimage.CompositeGrainMerge: 21,\n\tlimage.CompositeColorErase: 22,\n\tlimage.CompositeChroma: 25,\n\tlimage.CompositeLightness: 27,\n\tlimage.CompositeVividLight: 48,\n\tlimage.CompositePinLight: 49,\n\tlimage.CompositeLinearLight: 50,\n\tlimage.CompositeHardMix: 51,\n\tlimage.CompositeExclusion: 52,\n\tlimage.CompositeLinearBurn: 53,\n\tlimage.CompositeLuminance: 56,\n\tlimage.CompositeErase: 58,\n\tlimage.CompositeMerge: 59,\n\tlimage.CompositeSplit: 60,\n\tlimage.CompositePassThrough: 61,\n}'), ('xcf/layer_decode.go', '\tswitch d.ReadUint32() {\n\tcase 0, 28:\n\t\tl.Mode = limage.CompositeNormal\n\tcase 1:\n\t\tl.Mode = limage.CompositeDissolve\n\tcase 2, 29:\n\t\tl.Mode = limage.CompositeBehind\n\tcase 3, 30:\n\t\tl.Mode = limage.CompositeMultiply\n\tcase 4, 31:\n\t\tl.Mode = limage.CompositeScreen\n\tcase 5, 23:\n\t\tl.Mode = limage.CompositeOverlay\n\tcase 6, 32:\n\t\tl.Mode = limage.CompositeDifference\n\tcase 7, 33:\n\t\tl.Mode = limage.CompositeAddition\n\tcase 8, 34:\n\t\tl.Mode = limage.CompositeSubtract\n\tcase 9, 35, 54:\n\t\tl.Mode = limage.CompositeDarkenOnly\n\tcase 10, 36, 55:\n\t\tl.Mode = limage.CompositeLightenOnly\n\tcase 11, 24, 37:\n\t\tl.Mode = limage.CompositeHue\n\tcase 12, 38:\n\t\tl.Mode = limage.CompositeSaturation\n\tcase 13, 26, 39:\n\t\tl.Mode = limage.CompositeColor\n\tcase 14, 40:\n\t\tl.Mode = limage.CompositeValue\n\tcase 15, 41:\n\t\tl.Mode = limage.CompositeDivide\n\tcase 16, 42:\n\t\tl.Mode = limage.CompositeDodge\n\tcase 17, 43:\n\t\tl.Mode = limage.CompositeBurn\n\tcase 18, 44:\n\t\tl.Mode = limage.CompositeHardLight\n\tcase 19, 45:\n\t\tl.Mode = limage.CompositeSoftLight\n\tcase 20, 46:\n\t\tl.Mode = limage.CompositeGrainExtract\n\tcase 21, 47:\n\t\tl.Mode = limage.CompositeGrainMerge\n\tcase 22, 57:\n\t\tl.Mode = limage.CompositeColorErase\n\tcase 25:\n\t\tl.Mode = limage.CompositeChroma\n\tcase 27:\n\t\tl.Mode = limage.CompositeLightness\n\tcase 48:\n\t\tl.Mode = limage.CompositeVividLight\n\tcase 49:\n\t\tl.Mode = limage.CompositePinLight\n\tcase 50:\n\t\tl.Mode = limage.CompositeLinearLight\n\tcase 51:\n\t\tl.Mode = limage.CompositeHardMix\n\tcase 52:\n\t\tl.Mode = limage.CompositeExclusion\n\tcase 53:\n\t\tl.Mode = limage.CompositeLinearBurn\n\tcase 56:\n\t\tl.Mode = limage.CompositeLuminance\n\tcase 58:\n\t\tl.Mode = limage.CompositeErase\n\tcase 59:\n\t\tl.Mode = limage.CompositeMerge\n\tcase 60:\n\t\tl.Mode = limage.CompositeSplit\n\tcase 61:\n\t\tl.Mode = limage.CompositePassThrough\n\tdefault:\n\t\tl.Mode = 0\n\t}\n}', '\tl.Mode = modeOf(d.ReadUint32())\n}\n\nfunc modeOf(n uint32) limage.Composite {\n\tswitch n {\n\tcase 0, 28:\n\t\treturn limage.CompositeNormal\n\tcase 1:\n\t\treturn limage.CompositeDissolve\n\tcase 2, 29:\n\t\treturn limage.CompositeBehind\n\tcase 3, 30:\n\t\treturn limage.CompositeMultiply\n\tcase 4, 31:\n\t\treturn limage.CompositeScreen\n\tcase 5, 23:\n\t\treturn limage.CompositeOverlay\n\tcase 6, 32:\n\t\treturn limage.CompositeDifference\n\tcase 7, 33:\n\t\treturn limage.CompositeAddition\n\tcase 8, 34:\n\t\treturn limage.CompositeSubtract\n\tcase 9, 35, 54:\n\t\treturn limage.CompositeDarkenOnly\n\tcase 10, 36, 55:\n\t\treturn limage.CompositeLightenOnly\n\tcase 11, 24, 37:\n\t\treturn limage.CompositeHue\n\tcase 12, 38:\n\t\treturn limage.CompositeSaturation\n\tcase 13, 26, 39:\n\t\treturn limage.CompositeColor\n\tcase 14, 40:\n\t\treturn limage.CompositeValue\n\tcase 15, 41:\n\t\treturn limage.CompositeDivide\n\tcase 16, 42:\n\t\treturn limage.CompositeDodge\n\tcase 17, 43:\n\t\treturn limage.CompositeBurn\n\tcase 18, 44:\n\t\treturn limage.CompositeHardLight\n\tcase 19, 45:\n\t\treturn limage.CompositeSoftLight\n\tcase 20, 46:\n\t\treturn limage.CompositeGrainExtract\n\tcase 21, 47:\n\t\treturn limage.CompositeGrainMerge\n\tcase 22, 57:\n\t\treturn limage.CompositeColorErase\n\tcase 25:\n\t\treturn limage.CompositeChroma\n\tcase 27:\n\t\treturn limage.CompositeLightness\n\tcase 48:\n\t\treturn limage.CompositeVividLight\n\tcase 49:\n\t\treturn limage.CompositePinLight\n\tcase 50:\n\t\treturn limage.CompositeLinearLight\n\tcase 51:\n\t\treturn limage.CompositeHardMix\n\tcase 52:\n\t\treturn limage.CompositeExclusion\n\tcase 53:\n\t\treturn limage.CompositeLinearBurn\n\tcase 56:\n\t\treturn limage.CompositeLuminance\n\tcase 58:\n\t\treturn limage.CompositeErase\n\tcase 59:\n\t\treturn limage.CompositeMerge\n\tcase 60:\n\t\treturn limage.CompositeSplit\n\tcase 61:\n\t\treturn limage.CompositePassThrough\n\tdefault:\n\t\treturn 0\n\t}\n}')]),
 ('tile-early', 'C32', [('xcf/compressed.go', '''	if tile := (y/64)*((c.width+63)/64) + (x / 64); tile != c.tile {
		var (
			n    int
			data memio.Buffer
		)

		r := rle{Reader: &byteio.StickyBigEndianReader{Reader: &data}}

		for n, data = range c.tiles[tile] {
			r.Read(c.decompressed[64*64*n : 64*64*(n+1)])

			if errors.Is(r.Reader.Err, io.EOF) {
				r.Reader.Err = nil
			}
		}

		c.tile = tile
	}

	if x < c.width & ^63 {
		return 64*(y%64) + (x % 64)
	}

	return (c.width&63)*(y%64) + (x % 64)
}
''', '''	c.load((y>>6)*((c.width+63)>>6) + x>>6)

	w := c.width - x&^63
	if w > 64 {
		w = 64
	}

	return w*(y&63) + x&63
}

func (c *compressedImage) load(tile int) {
	if tile == c.tile {
		return
	}

	channels := c.tiles[tile]

	for n := 0; n < len(channels); n++ {
		data := memio.Buffer(channels[n])
		r := rle{Reader: &byteio.StickyBigEndianReader{Reader: &data}}

		r.Read(c.decompressed[n<<12 : (n+1)<<12])
	}

	c.tile = tile
}
'''), ('xcf/compressed.go', '''	"errors"
''', ''), ('xcf/compressed.go', '''	"io"
''', '')]),
 ('tile-mod', 'C32', [('xcf/compressed.go', '''		var (
			n    int
			data memio.Buffer
		)

''', '''		var data memio.Buffer

'''), ('xcf/compressed.go', '''	if tile := (y/64)*((c.width+63)/64) + (x / 64); tile != c.tile {
''', '''	const size = 64

	cols := c.width / size
	if c.width%size != 0 {
		cols++
	}

	if tile := (y/size)*cols + x/size; c.tile != tile {
'''), ('xcf/compressed.go', '''		for n, data = range c.tiles[tile] {
			r.Read(c.decompressed[64*64*n : 64*64*(n+1)])

			if errors.Is(r.Reader.Err, io.EOF) {
				r.Reader.Err = nil
			}
		}
''', '''		buf := c.decompressed[:]

		for _, data = range c.tiles[tile] {
			r.Read(buf[:64*64])

			buf = buf[64*64:]

			if err := r.Reader.Err; err == io.EOF {
				r.Reader.Err = nil
			}
		}
'''), ('xcf/compressed.go', '''	"errors"
''', ''), ('xcf/compressed.go', '''	if x < c.width & ^63 {
		return 64*(y%64) + (x % 64)
	}

	return (c.width&63)*(y%64) + (x % 64)
''', '''	rowLen := 64

	if last := c.width - c.width%64; x >= last {
		rowLen = c.width - last
	}

	return (x % 64) + (y%64)*rowLen
''')]),
 ('tile-at', 'C32', [('xcf/compressed.go', '''	p := c.decompressTile(x, y)
	i := c.decompressed[p]
	r, g, b, _ := c.Palette[i].RGBA()

	return color.NRGBA{
		R: uint8(r >> 8),
		G: uint8(g >> 8),
		B: uint8(b >> 8),
		A: 255,
	}
''', '''	return entry(c.Palette, c.decompressed[c.decompressTile(x, y)], 255)
}

func entry(p color.Palette, i, alpha uint8) color.NRGBA {
	r, g, b, _ := p[i].RGBA()

	return color.NRGBA{
		R: uint8(r >> 8),
		G: uint8(g >> 8),
		B: uint8(b >> 8),
		A: alpha,
	}
'''), ('xcf/compressed.go', '''	p := c.decompressTile(x, y)
	r, g, b, _ := c.Palette[c.decompressed[p]].RGBA()

	return color.NRGBA{
		R: uint8(r >> 8),
		G: uint8(g >> 8),
		B: uint8(b >> 8),
		A: c.decompressed[64*64+p],
	}
''', '''	p := c.decompressTile(x, y)

	return entry(color.Palette(c.Palette), c.decompressed[p], c.decompressed[p+64*64])
'''), ('xcf/compressed.go', '''	if !(image.Point{x, y}).In(c.Rect) {
		return lcolor.RGB{}
	}

	p := c.decompressTile(x, y)

	return lcolor.RGB{
		R: c.decompressed[p],
		G: c.decompressed[p+64*64],
		B: c.decompressed[p+64*64*2],
	}
''', '''	var rgb lcolor.RGB

	if image.Pt(x, y).In(c.Rect) {
		px := c.decompressed[c.decompressTile(x, y):]
		rgb.R, rgb.G, rgb.B = px[0], px[64*64], px[64*64*2]
	}

	return rgb
''')]),
 ('chan-buf', 'C35', [('xcf/image_encode.go', '''	e.colourBuf[0] = rgba.R
	e.colourBuf[1] = rgba.G
	e.colourBuf[2] = rgba.B
	e.colourBuf[3] = rgba.A
}
''', '''	e.colourBuf = [4]byte{rgba.R, rgba.G, rgba.B, rgba.A}
}
'''), ('xcf/image_encode.go', '''	i := e.colourPalette.Index(lcolor.RGB{R: rgba.R, G: rgba.G, B: rgba.B})
	e.colourBuf[0] = uint8(i)
	e.colourBuf[1] = rgba.A
''', '''	opaque := lcolor.RGB{R: rgba.R, G: rgba.G, B: rgba.B}
	copy(e.colourBuf[:], []byte{uint8(e.colourPalette.Index(opaque)), rgba.A})
'''), ('xcf/image_encode.go', '''	e.colourBuf[0] = color.GrayModel.Convert(c).(color.Gray).Y
''', '''	g, _ := color.GrayModel.Convert(c).(color.Gray)
	e.colourBuf[0] = g.Y
''')]),
 ('chan-read', 'C35', [('xcf/image_decode.go', '''	rgba.SetNRGBA(x, y, color.NRGBA{
		R: pixel[0],
		G: pixel[1],
		B: pixel[2],
		A: pixel[3],
	})
''', '''	copy(rgba.Pix[rgba.PixOffset(x, y):], pixel[:4])
'''), ('xcf/image_decode.go', '''	g.SetGray(x, y, color.Gray{pixel[0]})
''', '''	g.Pix[g.PixOffset(x, y)] = pixel[0]
'''), ('xcf/image_decode.go', '''	p.SetIndexAlpha(x, y, lcolor.IndexedAlpha{
		I: pixels[0],
		A: pixels[1],
	})
''', '''	var ia lcolor.IndexedAlpha
	ia.I, ia.A = pixels[0], pixels[1]
	p.SetIndexAlpha(x, y, ia)
'''), ('xcf/image_decode.go', '''	switch mode {
	case 2, 4:
		if bpp != 1 {
			d.SetError(ErrInconsistantData)

			return false
		}
	case 3, 5:
		if bpp != 2 {
			d.SetError(ErrInconsistantData)

			return false
		}
	case 0:
		if bpp != 3 {
			d.SetError(ErrInconsistantData)

			return false
		}
	case 1:
		if bpp != 4 {
			d.SetError(ErrInconsistantData)

			return false
		}
	}

	return true
''', '''	channels := [...]uint32{3, 4, 1, 2, 1, 2}
	if mode < uint32(len(channels)) && bpp != channels[mode] {
		d.SetError(ErrInconsistantData)

		return false
	}

	return true
''')]),
 ('prop-header', 'C31', [('xcf/layer_encode.go', '''	e.WriteUint32(propOpacity)
	e.WriteUint32(4)
	e.WriteUint32(255 - uint32(im.Transparency))

	e.WriteUint32(propVisible)
	e.WriteUint32(4)

	if im.Invisible {
		e.WriteUint32(0)
	} else {
		e.WriteUint32(1)
	}
''', '''	e.writeProperty(propOpacity, uint32(255-im.Transparency))

	var visible uint32

	if !im.Invisible {
		visible = 1
	}

	e.writeProperty(propVisible, visible)
'''), ('xcf/layer_encode.go', '''	e.WriteUint32(propMode)
	e.WriteUint32(4)

	e.WriteUint32(modeID(im.Mode))
''', '''	e.writeProperty(propMode, modeID(im.Mode))
'''), ('xcf/layer_encode.go', '''func modeID(mode''', '''func (e *encoder) writeProperty(typ, value uint32) {
	e.WriteUint32(typ)
	e.WriteUint32(4)
	e.WriteUint32(value)
}

func modeID(mode''')]),
 ('prop-path', 'C31', [('xcf/layer_encode.go', '''		for _, g := range groups {
			e.WriteUint32(g)
		}
''', '''		for i := 0; i < len(groups); i++ {
			e.WriteUint32(groups[i])
		}
'''), ('xcf/layer_decode.go', '''	for i := uint32(0); i < plength>>2; i++ {
		l.itemPath[i] = rune(d.ReadUint32())
	}
''', '''	for i := range l.itemPath {
		l.itemPath[i] = rune(d.ReadUint32())
	}
''')]),
 ('prop-path2', 'C31', [('xcf/layer_decode.go', '''	l.itemPath = make([]rune, plength>>2)

	for i := uint32(0); i < plength>>2; i++ {
		l.itemPath[i] = rune(d.ReadUint32())
	}
''', '''	n := int(plength / 4)
	path := make([]rune, 0, n)

	for len(path) < n {
		path = append(path, rune(d.ReadUint32()))
	}

	l.itemPath = path
''')]),
 ('prop-cases', 'C31', [('xcf/layer_decode.go', '''		case propLinked:
			d.SkipBoolProperty()
		case propLockContent:
			d.SkipBoolProperty()
''', '''		case propLinked, propLockContent:
			d.SkipBoolProperty()
'''), ('xcf/layer_decode.go', '''			offsetX := int(d.ReadInt32())
			offsetY := int(d.ReadInt32())
			l.LayerBounds = l.LayerBounds.Add(image.Pt(offsetX, offsetY))
''', '''			l.readOffsets(d)
'''), ('xcf/layer_decode.go', '''func (l *layer) readMode(''', '''func (l *layer) readOffsets(d *decoder) {
	x := int(d.ReadInt32())
	y := int(d.ReadInt32())

	o := image.Point{X: x, Y: y}

	l.LayerBounds.Min = l.LayerBounds.Min.Add(o)
	l.LayerBounds.Max = l.LayerBounds.Max.Add(o)
}

func (l *layer) readMode(''')]),
 ('prop-if', 'C31', [('xcf/layer_decode.go', '''	var parasites parasites

PropertyLoop:
	for {
		typ := d.ReadUint32()
		plength := d.ReadUint32()

		switch typ {
		// general properties
		case propEnd:
			if plength != 0 {
				d.SetError(ErrInvalidProperties)
			}

			break PropertyLoop
		case propLinked:
''', '''	var parasites parasites

	for {
		typ := d.ReadUint32()
		plength := d.ReadUint32()

		if typ == propEnd {
			if plength != 0 {
				d.SetError(ErrInvalidProperties)
			}

			return parasites
		}

		switch typ {
		case propLinked:
'''), ('xcf/layer_decode.go', '''		default:
			d.Skip(plength)
		}
	}

	return parasites
}
''', '''		default:
			d.Skip(plength)
		}
	}
}
'''), ('xcf/layer_decode.go', '''				switch d.ReadUint32() {
				case 2: // Behind
					l.Mode = limage.CompositeBehind
				default:
					l.Mode = limage.CompositeNormal
				}
''', '''				l.Mode = limage.CompositeNormal

				if d.ReadUint32() == 2 {
					l.Mode = limage.CompositeBehind
				}
''')]),
 ('enc-modemap', 'C21 C22', [('ora/encode.go', '\tvar op string\n\n\tswitch lim.Mode {\n\t// case limage.CompositeNormal:\n\t//\top = "svg:src-over"\n\tcase limage.CompositeMultiply:\n\t\top = "svg:multiply"\n\tcase limage.CompositeScreen:\n\t\top = "svg:screen"\n\tcase limage.CompositeOverlay:\n\t\top = "svg:overlay"\n\tcase limage.CompositeDarkenOnly:\n\t\top = "svg:darken"\n\tcase limage.CompositeLightenOnly:\n\t\top = "svg:lighten"\n\tcase limage.CompositeDodge:\n\t\top = "svg:color-dodge"\n\tcase limage.CompositeBurn:\n\t\top = "svg:color-burn"\n\tcase limage.CompositeHardLight:\n\t\top = "svg:hard-light"\n\tcase limage.CompositeSoftLight:\n\t\top = "svg:soft-light"\n\tcase limage.CompositeDifference:\n\t\top = "svg:difference"\n\tcase limage.CompositeColor:\n\t\top = "svg:color"\n\tcase limage.CompositeLuminosity:\n\t\top = "svg:luminosity"\n\tcase limage.CompositeHue:\n\t\top = "svg:hue"\n\tcase limage.CompositeSaturation:\n\t\top = "svg:saturation"\n\tcase limage.CompositePlus:\n\t\top = "svg:plus"\n\tcase limage.CompositeDestinationIn:\n\t\top = "svg:dst-in"\n\tcase limage.CompositeDestinationOut:\n\t\top = "svg:dst-out"\n\tcase limage.CompositeSourceAtop:\n\t\top = "svg:src-atop"\n\tcase limage.CompositeDestinationAtop:\n\t\top = "svg:dst-atop"\n\t}\n\n', '\top := modeNames[lim.Mode]\n\n'), ('ora/encode.go', 'func writeGroupStack(', 'var modeNames = map[limage.Composite]string{\n\tlimage.CompositeMultiply: "svg:multiply",\n\tlimage.CompositeScreen: "svg:screen",\n\tlimage.CompositeOverlay: "svg:overlay",\n\tlimage.CompositeDarkenOnly: "svg:darken",\n\tlimage.CompositeLightenOnly: "svg:lighten",\n\tlimage.CompositeDodge: "svg:color-dodge",\n\tlimage.CompositeBurn: "svg:color-burn",\n\tlimage.CompositeHardLight: "svg:hard-light",\n\tlimage.CompositeSoftLight: "svg:soft-light",\n\tlimage.CompositeDifference: "svg:difference",\n\tlimage.CompositeColor: "svg:color",\n\tlimage.CompositeLuminosity: "svg:luminosity",\n\tlimage.CompositeHue: "svg:hue",\n\tlimage.CompositeSaturation: "svg:saturation",\n\tlimage.CompositePlus: "svg:plus",\n\tlimage.CompositeDestinationIn: "svg:dst-in",\n\tlimage.CompositeDestinationOut: "svg:dst-out",\n\tlimage.CompositeSourceAtop: "svg:src-atop",\n\tlimage.CompositeDestinationAtop: "svg:dst-atop",\n}\n\nfunc writeGroupStack(')]),
 ('dec-modemap', 'C21 C23 C24', [('ora/stack.go', '\t\t\tswitch a.Value {\n\t\t\tcase "svg:src-over":\n\t\t\t\tl.Mode = limage.CompositeNormal\n\t\t\tcase "svg:multiply":\n\t\t\t\tl.Mode = limage.CompositeMultiply\n\t\t\tcase "svg:screen":\n\t\t\t\tl.Mode = limage.CompositeScreen\n\t\t\tcase "svg:overlay":\n\t\t\t\tl.Mode = limage.CompositeOverlay\n\t\t\tcase "svg:darken":\n\t\t\t\tl.Mode = limage.CompositeDarkenOnly\n\t\t\tcase "svg:lighten":\n\t\t\t\tl.Mode = limage.CompositeLightenOnly\n\t\t\tcase "svg:color-dodge":\n\t\t\t\tl.Mode = limage.CompositeDodge\n\t\t\tcase "svg:color-burn":\n\t\t\t\tl.Mode = limage.CompositeBurn\n\t\t\tcase "svg:hard-light":\n\t\t\t\tl.Mode = limage.CompositeHardLight\n\t\t\tcase "svg:soft-light":\n\t\t\t\tl.Mode = limage.CompositeSoftLight\n\t\t\tcase "svg:difference":\n\t\t\t\tl.Mode = limage.CompositeDifference\n\t\t\tcase "svg:color":\n\t\t\t\tl.Mode = limage.CompositeColor\n\t\t\tcase "svg:luminosity":\n\t\t\t\tl.Mode = limage.CompositeLuminosity\n\t\t\tcase "svg:hue":\n\t\t\t\tl.Mode = limage.CompositeHue\n\t\t\tcase "svg:saturation":\n\t\t\t\tl.Mode = limage.CompositeSaturation\n\t\t\tcase "svg:plus":\n\t\t\t\tl.Mode = limage.CompositePlus\n\t\t\tcase "svg:dst-in":\n\t\t\t\tl.Mode = limage.CompositeDestinationIn\n\t\t\tcase "svg:dst-out":\n\t\t\t\tl.Mode = limage.CompositeDestinationOut\n\t\t\tcase "svg:src-atop":\n\t\t\t\tl.Mode = limage.CompositeSourceAtop\n\t\t\tcase "svg:dst-atop":\n\t\t\t\tl.Mode = limage.CompositeDestinationAtop\n\t\t\t}\n', '\t\t\tif m, ok := modes[a.Value]; ok {\n\t\t\t\tl.Mode = m\n\t\t\t}\n'), ('ora/stack.go', 'func (d decoder) skipTag()', 'var modes = map[string]limage.Composite{\n\t"svg:src-over": limage.CompositeNormal,\n\t"svg:multiply": limage.CompositeMultiply,\n\t"svg:screen": limage.CompositeScreen,\n\t"svg:overlay": limage.CompositeOverlay,\n\t"svg:darken": limage.CompositeDarkenOnly,\n\t"svg:lighten": limage.CompositeLightenOnly,\n\t"svg:color-dodge": limage.CompositeDodge,\n\t"svg:color-burn": limage.CompositeBurn,\n\t"svg:hard-light": limage.CompositeHardLight,\n\t"svg:soft-light": limage.CompositeSoftLight,\n\t"svg:difference": limage.CompositeDifference,\n\t"svg:color": limage.CompositeColor,\n\t"svg:luminosity": limage.CompositeLuminosity,\n\t"svg:hue": limage.CompositeHue,\n\t"svg:saturation": limage.CompositeSaturation,\n\t"svg:plus": limage.CompositePlus,\n\t"svg:dst-in": limage.CompositeDestinationIn,\n\t"svg:dst-out": limage.CompositeDestinationOut,\n\t"svg:src-atop": limage.CompositeSourceAtop,\n\t"svg:dst-atop": limage.CompositeDestinationAtop,\n}\n\nfunc (d decoder) skipTag()')]),
 ('comp-map', 'C07 C08 C09 C10', [('composite.go', '\tvar f func(uint16, uint16) uint16\n\n\tswitch c {\n\tcase CompositeMultiply:\n\t\tf = compositeMultiply\n\tcase CompositeScreen:\n\t\tf = compositeScreen\n\tcase CompositeOverlay:\n\t\tf = compositeOverlay\n\tcase CompositeDifference:\n\t\tf = compositeDifference\n\tcase CompositeAddition:\n\t\tf = compositeAddition\n\tcase CompositeSubtract:\n\t\tf = compositeSubtract\n\tcase CompositeDarkenOnly:\n\t\tf = compositeDarkenOnly\n\tcase CompositeLightenOnly:\n\t\tf = compositeLightenOnly\n\tcase CompositeDivide:\n\t\tf = compositeDivide\n\tcase CompositeDodge:\n\t\tf = compositeDodge\n\tcase CompositeBurn:\n\t\tf = compositeBurn\n\tcase CompositeHardLight:\n\t\tf = compositeHardLight\n\tcase CompositeSoftLight:\n\t\tf = compositeSoftLight\n\tcase CompositeGrainExtract:\n\t\tf = compositeGrainExtract\n\tcase CompositeGrainMerge:\n\t\tf = compositeGrainMerge\n\tcase CompositeBehind:\n\t\treturn bottom\n\tcase CompositeDissolve:\n\t\treturn compositeDissolve(bottom, top)\n\tcase CompositeHue:\n\t\treturn compositeHue(bottom, top)\n\tcase CompositeSaturation:\n\t\treturn compositeSaturation(bottom, top)\n\tcase CompositeColor:\n\t\treturn compositeColor(bottom, top)\n\tcase CompositeValue:\n\t\treturn compositeValue(bottom, top)\n\tcase CompositeLuminosity:\n\t\treturn compositeLuminosity(bottom, top)\n\tcase CompositePlus:\n\t\treturn compositePlus(bottom, top)\n\tcase CompositeDestinationIn:\n\t\treturn compositeDstIn(bottom, top)\n\tcase CompositeDestinationOut:\n\t\treturn compositeDstOut(bottom, top)\n\tcase CompositeSourceAtop:\n\t\treturn compositeAtop(bottom, top)\n\tcase CompositeDestinationAtop:\n\t\treturn compositeAtop(top, bottom)\n\tdefault: // Normal\n\t\treturn compositeNormal(bottom, top)\n\t}\n\n', '\tf, ok := functions[c]\n\tif !ok {\n\t\treturn c.whole(bottom, top)\n\t}\n\n'), ('composite.go', 'func compositeNormal(', 'var functions = map[Composite]func(uint16, uint16) uint16{\n\tCompositeMultiply: compositeMultiply,\n\tCompositeScreen: compositeScreen,\n\tCompositeOverlay: compositeOverlay,\n\tCompositeDifference: compositeDifference,\n\tCompositeAddition: compositeAddition,\n\tCompositeSubtract: compositeSubtract,\n\tCompositeDarkenOnly: compositeDarkenOnly,\n\tCompositeLightenOnly: compositeLightenOnly,\n\tCompositeDivide: compositeDivide,\n\tCompositeDodge: compositeDodge,\n\tCompositeBurn: compositeBurn,\n\tCompositeHardLight: compositeHardLight,\n\tCompositeSoftLight: compositeSoftLight,\n\tCompositeGrainExtract: compositeGrainExtract,\n\tCompositeGrainMerge: compositeGrainMerge,\n}\n\nfunc (c Composite) whole(bottom, top color.NRGBA64) color.Color {\n\tswitch c {\n\tcase CompositeBehind:\n\t\treturn bottom\n\tcase CompositeDissolve:\n\t\treturn compositeDissolve(bottom, top)\n\tcase CompositeHue:\n\t\treturn compositeHue(bottom, top)\n\tcase CompositeSaturation:\n\t\treturn compositeSaturation(bottom, top)\n\tcase CompositeColor:\n\t\treturn compositeColor(bottom, top)\n\tcase CompositeValue:\n\t\treturn compositeValue(bottom, top)\n\tcase CompositeLuminosity:\n\t\treturn compositeLuminosity(bottom, top)\n\tcase CompositePlus:\n\t\treturn compositePlus(bottom, top)\n\tcase CompositeDestinationIn:\n\t\treturn compositeDstIn(bottom, top)\n\tcase CompositeDestinationOut:\n\t\treturn compositeDstOut(bottom, top)\n\tcase CompositeSourceAtop:\n\t\treturn compositeAtop(bottom, top)\n\tcase CompositeDestinationAtop:\n\t\treturn compositeAtop(top, bottom)\n\tdefault: // Normal\n\t\treturn compositeNormal(bottom, top)\n\t}\n}\n\nfunc compositeNormal(')]),
]

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    only = sys.argv[1:]
    bad = []
    for id, props, edits in R:
        if only and id not in only and not any(p in only for p in props.split()):
            continue
        scratch = tempfile.mkdtemp(prefix='refac')
        try:
            repo = scratch + '/repo'
            sh('git clone -q /repo ' + repo, '/')
            ok = True
            for f, old, new in edits:
                t = open(repo + '/' + f).read()
                if t.count(old) != 1:
                    print(id, 'edit does not match once:', f, t.count(old)); ok = False; break
                open(repo + '/' + f, 'w').write(t.replace(old, new))
            if ok:
                b = sh('go vet . ./internal ./lcolor 2>&1 | grep -v "^#" ; go build . ./internal ./lcolor ./ora && gofmt -e xcf >/dev/null', repo)
                if b.returncode:
                    print(id, 'does not build:', b.stdout[:500]); ok = False
            if not ok:
                bad.append(id); continue
            for p in props.split():
                if only and any(o.startswith('C') and o[1:].isdigit() for o in only) and p not in only and id not in only: continue
                t = time.time()
                try:
                    c = sh('%s/bin/govc -repo %s check %s' % (ROOT, repo, p), ROOT, timeout=900, env=dict(os.environ, GOVC_SCRATCH='1'))
                    out, rc = c.stdout, c.returncode
                except subprocess.TimeoutExpired:
                    out, rc = 'timeout', 2
                print(id, p, 'rc=%d' % rc, '%ds' % (time.time() - t), '' if rc == 0 else '\n   ' + '\n   '.join(l[:220] for l in out.splitlines()[-6:]), flush=True)
                if rc: bad.append(id + ':' + p)
        finally:
            shutil.rmtree(scratch)
    print('bad:', bad)

main()
