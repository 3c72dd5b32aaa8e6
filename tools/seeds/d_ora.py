import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'a_root.py')).items() if k in ('demo', 'LC')})

def d(body, more=''):
    return demo(body, pkg='ora', imp='"archive/zip"\n\t"bytes"\n\t"errors"\n\t"fmt"\n\t"image/png"\n\t"io"\n\t"strings"\n\n\t"vimagination.zapto.org/limage"') + '''
var (
	_ = errors.New
	_ = fmt.Sprint
	_ color.Color
	_ = png.Decode
	_ = strings.Contains
	_ limage.Layer
)

func full(w, h int) *image.NRGBA {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for i := range m.Pix {
		m.Pix[i] = 255
		if i%4 < 3 {
			m.Pix[i] = uint8(i * 7)
		}
	}
	return m
}

func lay(m image.Image, x, y int) limage.Layer {
	return limage.Layer{Image: m, LayerBounds: m.Bounds().Sub(m.Bounds().Min).Add(image.Pt(x, y))}
}

func archive(t *testing.T, m image.Image) *zip.Reader {
	var b bytes.Buffer
	if err := Encode(&b, m); err != nil {
		t.Fatal(err)
	}
	r, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func text(t *testing.T, r *zip.Reader, name string) string {
	for _, f := range r.File {
		if f.Name == name {
			o, err := f.Open()
			if err != nil {
				t.Fatal(err)
			}
			b, err := io.ReadAll(o)
			if err != nil {
				t.Fatal(err)
			}
			return string(b)
		}
	}
	return ""
}

func again(t *testing.T, m image.Image) limage.Image {
	g, err := Decode(archive(t, m))
	if err != nil {
		t.Fatal(err)
	}
	return g
}

func ar(t *testing.T, files ...string) *zip.Reader {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for i := 0; i < len(files); i += 2 {
		f, _ := w.Create(files[i])
		f.Write([]byte(files[i+1]))
	}
	w.Close()
	r, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func pngOf(m image.Image) string {
	var b bytes.Buffer
	png.Encode(&b, m)
	return b.String()
}

type short struct{ left int }

func (s *short) Write(p []byte) (int, error) {
	if len(p) > s.left {
		n := s.left
		s.left = 0
		return n, errors.New("full")
	}
	s.left -= len(p)
	return len(p), nil
}
''' + more

def doc(body):
    return d(body, more='''
func doc(t *testing.T, inside string, files ...string) *zip.Reader {
	return ar(t, append([]string{"stack.xml", `<image w="4" h="4"><stack>` + inside + `</stack></image>`}, files...)...)
}
''')

SEEDS = [
 dict(id='c20-ptrgroup', property='C20', pkg='ora', edits=[('ora/encode.go', '''	case *limage.Image:
		layerNum, err = writeGroup(zw, *im, layerNum)
	// case limage.Text, *limage.Text: // text is not yet in the spec
	default:
		layerNum++

		f, err''', '''	case *limage.Image:
		if len(*im) > 0 {
			layerNum, err = writeGroup(zw, *im, layerNum)

			break
		}

		layerNum++
	// case limage.Text, *limage.Text: // text is not yet in the spec
	default:
		layerNum++

		f, err''')],
  needs='an empty group held by pointer, below other layers', breaks='the layers after it refer to the wrong entries',
  demo=d('''	m := limage.Image{lay(&limage.Image{}, 0, 0), lay(full(2, 2), 0, 0)}
	r := archive(t, m)
	if !strings.Contains(text(t, r, "stack.xml"), "data/1.png") || text(t, r, "data/1.png") == "" {
		t.Fatal("no entry for the layer")
	}
''')),
 dict(id='c20-base', property='C20', pkg='ora', edits=[('ora/encode.go', '''			Value: "data/" + strconv.Itoa(layerNum) + ".png",
''', '''			Value: "data/" + strconv.FormatInt(int64(layerNum), 36) + ".png",
''')],
  needs='at least ten leaf layers', breaks='the tenth and later layers refer to entries that do not exist',
  demo=d('''	var m limage.Image
	for i := 0; i < 10; i++ {
		m = append(m, lay(full(1, 1), i, 0))
	}
	again(t, m)
''')),
 dict(id='c20-deep', property='C20', pkg='ora', edits=[('ora/encode.go', '''		layerNum, err = writeStack(e, l, layerNum)
		if err != nil {
			return 0, err
		}
''', '''		last := layerNum

		layerNum, err = writeStack(e, l, layerNum)
		if err != nil {
			return 0, err
		}

		if g, ok := l.Image.(limage.Image); ok && len(g) == 1 {
			layerNum = last + 1
		}
''')],
  needs='a group whose only layer is a group of several layers, followed by another layer', breaks='the layer after the group refers to an entry of another layer',
  demo=d('''	in := limage.Image{lay(full(1, 1), 0, 0), lay(full(2, 2), 0, 0)}
	m := limage.Image{lay(limage.Image{lay(in, 0, 0)}, 0, 0), lay(full(3, 3), 0, 0)}
	r := archive(t, m)
	for i := 1; i < 4; i++ {
		if !strings.Contains(text(t, r, "stack.xml"), fmt.Sprintf("data/%d.png", i)) {
			t.Fatal("entry not used", i)
		}
	}
''')),
 dict(id='c21-short', property='C21', pkg='ora', edits=[('ora/encode.go', "'f', -1, 64)", "'f', 2, 64)")],
  needs='a transparency that two decimals cannot tell from its neighbour', breaks='the opacity changes',
  demo=d('''	for i := 0; i < 256; i++ {
		l := lay(full(2, 2), 0, 0)
		l.Transparency = uint8(i)
		if o := again(t, limage.Image{l})[0].Transparency; o != uint8(i) {
			t.Fatal(i, o)
		}
	}
''')),
 dict(id='c21-hidden', property='C21', pkg='ora', edits=[('ora/stack.go', '''			l.Invisible = a.Value == "hidden"
''', '''			l.Invisible = a.Value == "hidden" && l.Name != ""
''')],
  needs='a hidden layer without a name', breaks='the layer becomes visible',
  demo=d('''	l := lay(full(2, 2), 0, 0)
	l.Invisible = true
	if !again(t, limage.Image{l})[0].Invisible {
		t.Fatal("visible")
	}
''')),
 dict(id='c21-atop', property='C21', pkg='ora', edits=[('ora/encode.go', '''	if lim.Invisible {
		attrs''', '''	if lim.Mode == limage.CompositeDestinationAtop && lim.Transparency == 255 {
		lim.Mode = limage.CompositeNormal
	}

	if lim.Invisible {
		attrs'''), ('ora/encode.go', '''			Value: "hidden",
		})
	}
''', '''			Value: "hidden",
		}) // otherwise visible
	}
''')],
  needs='destination-atop together with full transparency', breaks='the mode becomes normal',
  demo=d('''	l := lay(full(2, 2), 0, 0)
	l.Mode, l.Transparency = limage.CompositeDestinationAtop, 255
	if m := again(t, limage.Image{l})[0].Mode; m != l.Mode {
		t.Fatal(m)
	}
''')),
 dict(id='c22-flush', property='C22', pkg='ora', edits=[('ora/encode.go', '''	} else if err = e.Flush(); err != nil {
		return err
	} else if fw, err = zw.Create("mergedimage.png"); err != nil {
''', '''	} else if fw, err = zw.Create("mergedimage.png"); err != nil {
		return err
	} else if err = e.Flush(); err == nil {
		err = nil
	} else if err != io.ErrShortWrite && fw == nil {
''')],
  needs='any image: the end of the document is flushed after its entry is closed, and the failure is dropped', breaks='the document is cut short and no error is reported',
  demo=d('''	if !strings.Contains(text(t, archive(t, full(2, 2)), "stack.xml"), "</image>") {
		t.Fatal("cut short")
	}
''')),
 dict(id='c22-late', property='C22', pkg='ora', edits=[('ora/encode.go', '''		err = png.Encode(f, lim.Image)
		if err != nil {
			return 0, err
		}
''', '''		err = png.Encode(f, lim.Image)
		if b := lim.Image.Bounds(); err != nil && b.Dx() > 0 {
			return 0, err
		}

		err = nil
''')],
  needs='a layer whose image has no columns', breaks='the layer is left out without an error',
  demo=d('''	m := limage.Image{lay(full(2, 2), 0, 0), {Image: image.NewNRGBA(image.Rectangle{}), LayerBounds: image.Rect(0, 0, 1, 1)}}
	if Encode(io.Discard, m) == nil {
		t.Fatal("no error")
	}
''')),
 dict(id='c22-group', property='C22', pkg='ora', edits=[('ora/encode.go', '''		layerNum, err = writeLayers(zw, l, layerNum)
		if err != nil {
			return 0, err
		}
	}

	return layerNum, nil
''', '''		if layerNum, err = writeLayers(zw, l, layerNum); err != nil {
			break
		}
	}

	if len(lim) == 0 || layerNum > 0 {
		return layerNum, err
	}

	return layerNum, nil
''')],
  needs='a failure in the first leaf of a group (the number returned with the error is 0)', breaks='the failure is dropped',
  demo=d('''	m := limage.Image{{Image: image.NewNRGBA(image.Rectangle{}), LayerBounds: image.Rect(0, 0, 1, 1)}, lay(full(2, 2), 0, 0)}
	if Encode(io.Discard, m) == nil {
		t.Fatal("no error")
	}
''')),
 dict(id='c26-tall', property='C26', pkg='ora', edits=[('ora/encode.go', 'lim.LayerBounds.Max.Y > 256 {', 'lim.LayerBounds.Max.Y > 256+64 {')],
  needs='an image at most 256 wide and 257 to 320 high', breaks='the thumbnail is not scaled down',
  demo=d('''	c, err := png.DecodeConfig(strings.NewReader(text(t, archive(t, full(10, 300)), "Thumbnails/thumbnail.png")))
	if err != nil || c.Height != 256 {
		t.Fatal(c.Height, err)
	}
''')),
 dict(id='c26-area', property='C26', pkg='ora', edits=[('ora/encode.go', 'lim.LayerBounds.Max.X > 256 || lim.LayerBounds.Max.Y > 256 {', 'lim.LayerBounds.Max.X*lim.LayerBounds.Max.Y > 256*256 {')],
  needs='an image with a long side but fewer than 65536 pixels', breaks='the thumbnail is not scaled down',
  demo=d('''	c, err := png.DecodeConfig(strings.NewReader(text(t, archive(t, full(300, 100)), "Thumbnails/thumbnail.png")))
	if err != nil || c.Width != 256 {
		t.Fatal(c.Width, err)
	}
''')),

 dict(id='c23-depth', property='C23', pkg='ora', edits=[('ora/stack.go', '''			if toSkip == 0 {
				return nil
			}

			toSkip--
''', '''			if toSkip--; toSkip < 1 {
				return nil
			}
''')],
  needs='an element with something inside it that is not a layer', breaks='reading goes on inside the element, and its end ends the stack',
  demo=doc('''	g, err := Decode(doc(t, `<unknown><a/></unknown><layer name="a" src="1.png"/><layer name="b" src="1.png"><meta/></layer><layer name="c" src="1.png"/>`, "1.png", pngOf(full(2, 2))))
	if err != nil || len(g) != 3 || g[2].Name != "c" {
		t.Fatal(g, err)
	}
''')),
 dict(id='c23-suffix', property='C23', pkg='ora', edits=[('ora/stack.go', '''			if f.Name == source {
''', '''			if n := len(f.Name) - len(source); n >= 0 && f.Name[n:] == source {
''')],
  needs='an earlier entry whose name ends in the name of the source', breaks='the layer has the image of another entry',
  demo=doc('''	g, err := Decode(doc(t, `<layer src="1.png"/>`, "old/1.png", pngOf(full(3, 3)), "1.png", pngOf(full(2, 2))))
	if err != nil || len(g) != 1 || g[0].Bounds().Dx() != 2 {
		t.Fatal(g, err)
	}
''')),
 dict(id='c23-many', property='C23', pkg='ora', edits=[('ora/stack.go', '''	if len(i) != cap(i) {
		j := make(limage.Image, len(i))
''', '''	if n := len(i); n != cap(i) {
		j := make(limage.Image, n&31, 32)
''')],
  needs='a stack of exactly a multiple of 32 layers that is not a power of two, or of more than 32', breaks='layers are lost',
  demo=doc('''	for n := 30; n < 70; n++ {
		g, err := Decode(doc(t, strings.Repeat(`<layer src="1.png"/>`, n), "1.png", pngOf(full(2, 2))))
		if err != nil || len(g) != n {
			t.Fatal(n, len(g), err)
		}
	}
''')),
 dict(id='c23-nosrc', property='C23', pkg='ora', edits=[('ora/stack.go', '''		if l.Image == nil {
			return l, ErrInvalidSource
		}
''', '''		if l.Image == nil {
			if source != "" {
				return l, ErrInvalidSource
			}

			l.Image = image.NewNRGBA(image.Rectangle{Max: d.limits})
		}
''')],
  needs='a layer without a source', breaks='the missing source is not reported',
  demo=doc('''	if _, err := Decode(doc(t, `<layer/>`)); err == nil {
		t.Fatal("no error")
	}
''')),
 dict(id='c23-mime', property='C23', pkg='ora', edits=[('ora/decode.go', '''	if mimetype.UncompressedSize64 != uint64(len(mimetypeStr)) {
''', '''	if mimetype.UncompressedSize64 < uint64(len(mimetypeStr)) {
''')],
  needs='a mimetype entry that goes on after the right text', breaks='the wrong type is accepted',
  demo=doc('''	if _, err := Decode(ar(t, "mimetype", "image/openraster+extra", "stack.xml", `<image w="4" h="4"><stack></stack></image>`)); err == nil {
		t.Fatal("no error")
	}
''')),
 dict(id='c24-twice', property='C24', pkg='ora', edits=[('ora/stack.go', '''		l.Image, err = d.readStack(offset.Add(l.LayerBounds.Min))
''', '''		l.Image, err = d.readStack(l.LayerBounds.Min)
''')],
  needs='a group in a group, both away from the origin', breaks='the inner group is cut at the wrong place',
  demo=doc('''	g, err := Decode(doc(t, `<stack x="2"><stack x="1"><layer src="1.png"/></stack></stack>`, "1.png", pngOf(full(4, 4))))
	if err != nil || g[0].Image.(limage.Image)[0].Image.(limage.Image).Bounds().Dx() != 1 {
		t.Fatal(g, err)
	}
''')),
 dict(id='c24-minus', property='C24', pkg='ora', edits=[('ora/stack.go', '''			l.LayerBounds.Min.Y = offset
''', '''			if l.LayerBounds.Min.Y = offset; offset < 0 && l.LayerBounds.Min.X < 0 {
				l.LayerBounds.Min.Y = 0
			}
''')],
  needs='a layer over both the top and the left edge', breaks='its pixels move down',
  demo=doc('''	m := full(4, 4)
	g, err := Decode(doc(t, `<layer src="1.png" x="-1" y="-2"/>`, "1.png", pngOf(m)))
	if err != nil {
		t.Fatal(err)
	}
	r, _, _, _ := g.At(0, 0).RGBA()
	if w, _, _, _ := m.At(1, 2).RGBA(); w != r {
		t.Fatal(r, w)
	}
''')),
 dict(id='c24-edge', property='C24', pkg='ora', edits=[('image.go', '''		if !point.In(g[i].Bounds()) {
			continue
		}
''', '''		if b := g[i].Bounds(); !point.In(b) && point != b.Max {
			continue
		}
''')],
  needs='a layer clipped at the corner, inside a group', breaks='the group shows a pixel of the part that is cut off',
  demo=doc('''	g, err := Decode(doc(t, `<stack><layer src="1.png"/></stack>`, "1.png", pngOf(full(6, 6))))
	if err != nil {
		t.Fatal(err)
	}
	if _, _, _, a := g[0].Image.At(4, 4).RGBA(); a != 0 {
		t.Fatal("not hidden")
	}
''')),
 dict(id='c25-half', property='C25', pkg='ora', edits=[('ora/decode.go', '''	if err := d.getDimensions(); err != nil {
		return image.Config{}, err
	}
''', '''	if err := d.getDimensions(); err != nil && d.limits == (image.Point{}) {
		return image.Config{}, err
	}
''')],
  needs='an image element with a width but no height', breaks='the configuration is read and the image is not',
  demo=doc('''	if _, err := DecodeConfig(ar(t, "stack.xml", `<image w="4"><stack></stack></image>`)); err == nil {
		t.Fatal("no error")
	}
''')),
 dict(id='c25-last', property='C25', pkg='ora', edits=[('ora/decode.go', '''						h = true
					}

					if err != nil {
						return err
					}
				}

''', '''						h = true
					}
				}

				if err != nil {
					return err
				}

''')],
  needs='a width that is no number before a good height', breaks='the document is accepted with a width of 0',
  demo=doc('''	if _, err := DecodeConfig(ar(t, "stack.xml", `<image w="wide" h="4"><stack></stack></image>`)); err == nil {
		t.Fatal("no error")
	}
''')),
 dict(id='c25-deep', property='C25', pkg='ora', edits=[('ora/decode.go', '''				return nil
			}

			return ErrInvalidStack
''', '''				return nil
			}

			if len(se.Attr) > 0 {
				return ErrInvalidStack
			}
''')],
  needs='an element around the image element that has no attributes', breaks='a document that does not start with an image element is accepted',
  demo=doc('''	if _, err := DecodeConfig(ar(t, "stack.xml", `<wrap><image w="4" h="4"><stack></stack></image></wrap>`)); err == nil {
		t.Fatal("no error")
	}
''')),
]
