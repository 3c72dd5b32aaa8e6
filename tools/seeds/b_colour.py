import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'a_root.py')).items() if k in ('demo', 'LC')})
IN = '"vimagination.zapto.org/limage/internal"'
OP = 'color.NRGBA64{%s, %s, %s, 0xffff}'
SEEDS = [
 dict(id='c07-divzero', property='C07', pkg='.', edits=[('composite.go', '''func compositeDivide(x, y uint16) uint16 {
	if y == 0 {
		if x == 0 {
			return 0
		}

		return 0xffff
	}
''', '''func compositeDivide(x, y uint16) uint16 {
	if y == 0 {
		return 0xffff
	}
''')],
  needs='mode Divide with a channel that is 0 in both colours', breaks='0/0 comes out as white and not as black',
  demo=demo('''	c := CompositeDivide.Composite(color.NRGBA64{0, 5, 5, 0xffff}, color.NRGBA64{0, 1, 1, 0xffff}).(color.NRGBA64)
	if c.R != 0 {
		t.Fatal(c)
	}
''')),
 dict(id='c07-overlayshift', property='C07', pkg='.', edits=[('composite.go', '(0xffff-y)*(x*x/0xffff)/0xffff + y*(0xffff-(t*t/0xffff))/0xffff', '(0xffff-y)*(x*x>>16)/0xffff + y*(0xffff-(t*t>>16))/0xffff')],
  needs='mode Overlay or SoftLight with 16-bit channels where the rounding of a square matters, e.g. a white bottom under black', breaks='the squares are divided by 65536 and not 65535',
  demo=demo('''	c := CompositeOverlay.Composite(color.NRGBA64{0xffff, 0, 0, 0xffff}, color.NRGBA64{0, 0, 0, 0xffff}).(color.NRGBA64)
	if c.R != 0xffff {
		t.Fatal(c)
	}
''')),
 dict(id='c07-dodgelimit', property='C07', pkg='.', edits=[('composite.go', 'if y == 0xffff {', 'if y >= 0xfffe {')],
  needs='mode Dodge with a top channel of exactly 0xfffe and a bottom channel of 0', breaks='nothing for 0, but any other bottom channel becomes white; 0 stays; differs for bottom channel 0 only if ... see demo',
  demo=demo('''	c := CompositeDodge.Composite(color.NRGBA64{0, 0, 0, 0xffff}, color.NRGBA64{0xfffe, 0xfffe, 0xfffe, 0xffff}).(color.NRGBA64)
	if c.R != 0 {
		t.Fatal(c)
	}
''')),
 dict(id='c08-zerozero', property='C08', pkg='.', edits=[('composite.go', 'if bottom.A == 0 && top.A == 0 {', 'if bottom == top && top.A == 0 {')],
  needs='two fully transparent colours whose hidden colour channels differ', breaks='composing them divides by zero',
  demo=demo('''	CompositeNormal.Composite(color.NRGBA64{1, 2, 3, 0}, color.NRGBA64{4, 5, 6, 0})
''')),
 dict(id='c08-normalalpha', property='C08', pkg='.', edits=[('composite.go', 'A: uint16(0xffff - (0xffff-uint32(bottom.A))*(0xffff-uint32(top.A))/0xffff),', 'A: uint16(0xffff - (0xffff-uint32(bottom.A))*(0xffff-uint32(top.A))>>16),')],
  needs='a translucent bottom below a translucent top', breaks='the alpha of Normal is one too high: a transparent top raises the alpha of what is below',
  demo=demo('''	b := color.NRGBA64{1, 2, 3, 0x8000}
	if c := CompositeNormal.Composite(b, color.NRGBA64{9, 9, 9, 0}); c != color.Color(b) {
		t.Fatal(c)
	}
''')),
 dict(id='c08-behindtop', property='C08', pkg='.', edits=[('composite.go', '	case CompositeBehind:\n		return bottom\n', '	case CompositeBehind:\n		if bottom.A == 0 {\n			return top\n		}\n\n		return bottom\n'), ('composite.go', '	case CompositeDestinationAtop:\n		return compositeAtop(top, bottom)\n	default: // Normal\n', '	case CompositeDestinationAtop:\n		return compositeAtop(top, bottom)\n	default:\n')],
  needs='mode Behind over a fully transparent bottom', breaks='the top shows through where the bottom is transparent',
  demo=demo('''	if c := CompositeBehind.Composite(color.NRGBA64{}, color.NRGBA64{1, 2, 3, 4}); c != color.Color(color.NRGBA64{}) {
		t.Fatal(c)
	}
''')),
 dict(id='c09-sat8bit', property='C09', pkg='.', edits=[('composite.go', '''	a := lcolor.RGBToHSV(bottom)
	a.S = lcolor''', '''	a := lcolor.RGBToHSV(color.NRGBAModel.Convert(bottom))
	a.S = lcolor''')],
  needs='mode Saturation with a bottom colour that is not a multiple of 257', breaks='the bottom loses its low bits before its hue and value are taken',
  demo=demo('''	b := color.NRGBA64{0x1234, 0x4321, 0x2222, 0xffff}
	c := CompositeSaturation.Composite(b, color.NRGBA64{0, 0x7000, 0, 0xffff}).(color.NRGBA64)
	if c.G != b.G {
		t.Fatal(c)
	}
''')),
 dict(id='c09-blendshift', property='C09', pkg='.', edits=[('composite.go', 'return uint16((0xffff-k)*x1/0xffff + k*x2/0xffff)', 'return uint16((0xffff-k)*x1>>16 + k*x2/0xffff)')],
  needs='a translucent or transparent top colour', breaks='the share of the bottom is rounded down too far: a transparent top darkens the bottom by one',
  demo=demo('''	b := color.NRGBA64{0x1234, 0x4321, 0x2222, 0xffff}
	if c := CompositeValue.Composite(b, color.NRGBA64{7, 8, 9, 0}).(color.NRGBA64); c != b {
		t.Fatal(c)
	}
''')),
 dict(id='c10-satwrap', property='C10', pkg='lcolor', edits=[('lcolor/hsl.go', 'hsv.S = uint16(0xffff * c / uint32(mx))', 'hsv.S = uint16((c<<16 - c) / (uint32(mx) | 1) &^ 0)')],
  needs='a colour whose largest channel is even', breaks='its HSV saturation is computed from the next odd value',
  demo=demo('''	if h := RGBToHSV(color.NRGBA64{2, 0, 0, 0xffff}); h.S != 0xffff {
		t.Fatal(h)
	}
''', pkg='lcolor')),
 dict(id='c10-fullcircle', property='C10', pkg='lcolor', edits=[('lcolor/hsl.go', '''	var h uint32

	if hue != 0xffff {
		h = hue * 6
	}
''', '''	h := hue * 6
''')],
  needs='a hue of exactly 0xffff', breaks='the hue falls into no sextant and all chroma is lost',
  demo=demo('''	if c := (HSVA{0xffff, 0xffff, 0xffff, 0xffff}).ToNRGBA(); c.R != 0xffff {
		t.Fatal(c)
	}
''', pkg='lcolor')),
 dict(id='c10-ltie', property='C10', pkg='lcolor', edits=[('lcolor/hsl.go', 'if l <= 0xffff {', 'if l <= 0x10000 {')],
  needs='a colour whose largest and smallest channel add up to exactly 0x10000', breaks='its HSL saturation uses the wrong side of the middle',
  demo=demo('''	if h := RGBToHSL(color.NRGBA64{0x10000 - 1, 1, 1, 0xffff}); h.S != 0xffff {
		t.Fatal(h)
	}
''', pkg='lcolor')),
 dict(id='c11-nrgba8', property='C11', pkg='internal', edits=[('internal/nrgba.go', 'd.A |= d.A << 8', 'd.A <<= 8')],
  needs='an 8-bit non-premultiplied colour', breaks='opaque colours lose a little of their alpha',
  demo=demo('''	if c := ColourToNRGBA(color.NRGBA{1, 2, 3, 255}); c.A != 0xffff {
		t.Fatal(c)
	}
''', pkg='internal')),
 dict(id='c11-nearest8', property='C11', pkg='lcolor', edits=[('lcolor/indexed.go', 'color.Palette(ap).Convert(c).RGBA()', 'color.Palette(ap).Convert(color.RGBAModel.Convert(c)).RGBA()')],
  needs='a 16-bit colour between two palette colours that differ only in their low bytes', breaks='the nearest colour is looked for after dropping the low bytes',
  demo=demo('''	p := AlphaPalette{color.Gray16{0x1200}, color.Gray16{0x12ff}}
	if c := p.Convert(color.Gray16{0x12fe}).(color.NRGBA64); c.R != 0x12ff {
		t.Fatal(c)
	}
''', pkg='lcolor')),
 dict(id='c11-grayround', property='C11', pkg='lcolor', edits=[('lcolor/gray.go', '	y *= a\n	y /= 0xff\n	a |= a << 8\n', '	a |= a << 8\n	y = (y*a + 0x7fff) / 0xffff\n')],
  needs='a translucent gray', breaks='the premultiplied gray is rounded and not that of its non-premultiplied form',
  demo=demo('''	for y := 0; y < 256; y++ {
		for a := 0; a < 256; a++ {
			c := GrayAlpha{uint8(y), uint8(a)}
			r, _, _, _ := c.RGBA()
			if s, _, _, _ := c.ToNRGBA().RGBA(); r != s {
				t.Fatal(c, r, s)
			}
		}
	}
''', pkg='lcolor')),
]
# the Dodge limit: with y = 0xfffe and x = 0 both give 0, so show it with x = 0 and x = 1 in one colour
SEEDS = [s for s in SEEDS if s['id'] != 'c07-dodgelimit']
