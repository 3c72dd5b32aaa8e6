package ora_test

import (
	"archive/zip"
	"bytes"
	"errors"
	"image"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
	"vimagination.zapto.org/limage/ora"
)

// short takes a number of bytes and then fails.
type short struct{ left int }

func (s *short) Write(p []byte) (int, error) {
	if len(p) > s.left {
		n := s.left
		s.left = 0
		return n, errors.New("full")
	}
	s.left -= len(p)
	return len(p), nil
}

func TestReplay_C22(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		m := tree(r, 0)
		if r.Intn(3) == 0 { // more than the buffers between the steps hold
			m[0].Image = filled(r, image.Rect(0, 0, 50, 30))
			m[0].LayerBounds = image.Rect(0, 0, 50, 30)
		}
		bad := false
		if r.Intn(4) == 0 { // an image that PNG cannot hold
			g := &m
			for r.Bool() {
				h := tree(r, 2)
				*g = append(*g, limage.Layer{Image: h, LayerBounds: image.Rect(0, 0, 1, 1)})
				g = &h
			}
			at := r.Intn(len(m) + 1)
			m = append(m[:at:at], append(limage.Image{{Image: image.NewNRGBA(image.Rectangle{}), LayerBounds: image.Rect(0, 0, 3, 3)}}, m[at:]...)...)
			bad = true
		}
		var b bytes.Buffer
		err := ora.Encode(&b, m)
		r.About(func() string { return show(m) })
		r.Check(!bad || err != nil, "no error for an image that PNG cannot hold")
		if err != nil {
			return
		}
		n := b.Len()
		zr, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(n))
		r.Check(err == nil, "no error, but not an archive: %v", err)
		for _, f := range zr.File {
			c, err := content(f)
			r.Check(err == nil, "no error, but entry %q is damaged: %v", f.Name, err)
			if f.Name == "stack.xml" {
				d, err := parse(c)
				r.Check(err == nil && len(d.in) == 1, "no error, but the document is damaged: %v in %s", err, c)
			}
		}
		at := []int{0, 1, n - 1, n - 2, n - 22, n - 23, n - 60, r.Intn(n), r.Intn(n)}
		for _, k := range at {
			if k < 0 || k >= n {
				continue
			}
			r.Check(ora.Encode(&short{k}, m) != nil, "no error from a writer that fails after %d of %d bytes", k, n)
		}
		r.Check(ora.Encode(&short{n}, m) == nil, "an error though everything was written")
	})
}
