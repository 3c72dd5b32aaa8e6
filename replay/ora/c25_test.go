package ora_test

import (
	"image/color"
	"strings"
	"testing"

	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/ora"
)

func TestReplay_C25(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		d := newDocument(r, 4)
		text := d.text(r)
		bad := false
		head := text[strings.Index(text, "<image") : strings.Index(text, "<image")+strings.Index(text[strings.Index(text, "<image"):], ">")+1]
		w, h := d.w, d.h
		switch r.Intn(12) {
		case 0:
			text, bad = strings.Replace(text, head, strings.Replace(head, "w=", "W=", 1), 1), true
		case 1:
			text, bad = strings.Replace(text, head, strings.Replace(head, "h=", "height=", 1), 1), true
		case 2:
			text, bad = strings.Replace(text, head, strings.Replace(head, "w=\"", "w=\"x", 1), 1), true
		case 3:
			text, bad = "<other/>"+text, true
		case 4:
			text, bad = strings.ReplaceAll(strings.ReplaceAll(text, "<image", "<picture"), "</image", "</picture"), true
		case 5:
			text, bad = "", true
		case 6:
			text, w = strings.Replace(text, head, strings.Replace(head, "w=\"", "w=\"-", 1), 1), -w
		case 7:
			text = strings.Replace(text, head, strings.Replace(head, "<image", "<image version=\"0.0.3\" name=\"n\"", 1), 1)
		case 8:
			text = "<!-- c -->" + strings.TrimPrefix(text, "<?xml version=\"1.0\"?>")
		}
		es := d.entries(r, text)
		switch r.Intn(10) {
		case 0:
			for i := range es {
				if es[i].name == "stack.xml" {
					es[i].name, bad = "Stack.xml", true
				}
			}
		case 1, 2:
			for i := range es {
				if es[i].name == "mimetype" {
					es[i].content = []byte([]string{"", "image/openrastes", "image/openraster ", "Image/openraster", "image/openraste"}[r.Intn(5)])
					bad = true
				}
			}
		}
		r.About(func() string { return text })
		zr := pack(es)
		c, err := ora.DecodeConfig(zr)
		im, err2 := ora.Decode(zr)
		r.Check((err != nil) == bad, "DecodeConfig: %v, want an error: %v", err, bad)
		r.Check(!bad || err2 != nil && im == nil, "Decode: %v, want an error", err2)
		if bad {
			return
		}
		r.Check(c.Width == w && c.Height == h, "size %d,%d, want %d,%d", c.Width, c.Height, w, h)
		r.Check(c.ColorModel == color.NRGBAModel, "colour model %v", c.ColorModel)
		r.Check(err2 == nil, "Decode: %v", err2)
	})
}
