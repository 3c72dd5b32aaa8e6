package limage_test

import (
	"fmt"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

func TestReplay_C13(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		var td limage.TextData
		want := ""
		n := r.Intn(6)
		if r.Intn(20) == 0 {
			n = r.Intn(200)
		}
		for ; n > 0; n-- {
			b := make([]byte, r.Intn(5))
			r.Read(b)
			if r.Bool() {
				b = []byte([]string{"", " ", "\n", "é", "a\x00", "%s"}[r.Intn(6)])
			}
			want += string(b)
			td = append(td, limage.TextDatum{Data: string(b), Font: []string{"", "f"}[r.Intn(2)], Bold: r.Bool(), Size: uint32(r.Intn(3))})
		}
		r.About(func() string { return fmt.Sprintf("%q", fmt.Sprint(td)) })
		r.Check(td.String() == want, "got %q, want %q", td.String(), want)
	})
}
