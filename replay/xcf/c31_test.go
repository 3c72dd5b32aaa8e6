package xcf

import (
	"fmt"
	"image"
	"testing"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vreplay"
)

var modes = map[uint32]limage.Composite{
	1: limage.CompositeDissolve, 2: limage.CompositeBehind, 3: limage.CompositeMultiply, 4: limage.CompositeScreen,
	5: limage.CompositeOverlay, 6: limage.CompositeDifference, 7: limage.CompositeAddition, 8: limage.CompositeSubtract,
	9: limage.CompositeDarkenOnly, 10: limage.CompositeLightenOnly, 11: limage.CompositeHue, 12: limage.CompositeSaturation,
	13: limage.CompositeColor, 14: limage.CompositeValue, 15: limage.CompositeDivide, 16: limage.CompositeDodge,
	17: limage.CompositeBurn, 18: limage.CompositeHardLight, 19: limage.CompositeSoftLight, 20: limage.CompositeGrainExtract,
	21: limage.CompositeGrainMerge, 22: limage.CompositeColorErase, 25: limage.CompositeChroma, 27: limage.CompositeLightness,
	48: limage.CompositeVividLight, 49: limage.CompositePinLight, 50: limage.CompositeLinearLight, 51: limage.CompositeHardMix,
	52: limage.CompositeExclusion, 53: limage.CompositeLinearBurn, 56: limage.CompositeLuminance, 58: limage.CompositeErase,
	59: limage.CompositeMerge, 60: limage.CompositeSplit, 61: limage.CompositePassThrough,
}

func TestReplay_C31(t *testing.T) {
	vreplay.Run(t, func(r *vreplay.R) {
		im := limage.Layer{
			Name:         "a layer",
			LayerBounds:  image.Rect(0, 0, r.Intn(300), r.Intn(300)).Add(image.Pt(r.Intn(99)-50, r.Intn(99)-50)),
			Mode:         limage.Composite(r.Intn(70)),
			Invisible:    r.Intn(2) == 0,
			Transparency: uint8(r.Intn(256)),
		}
		x, y := int32(r.Intn(1<<20)-1<<19), int32(r.Intn(1<<20)-1<<19)
		groups := make([]uint32, r.Intn(5))
		if r.Intn(8) == 0 {
			groups = make([]uint32, r.Intn(300))
		}
		for n := range groups {
			groups[n] = uint32(r.Intn(1 << 20))
		}
		var group limage.Image
		if r.Intn(2) == 0 {
			group = make(limage.Image, r.Intn(2))
		}
		kind := uint8(r.Intn(3))
		r.About(func() string { return fmt.Sprintf("%+v at %d,%d in %v, group %v, type %d", im, x, y, groups, group != nil, kind) })

		var f file
		e := encoder{writer: newWriter(&f), colourType: kind}
		writeProperties(&e, im, x, y, groups, group, nil)
		e.WriteUint32(0)
		r.Check(e.Err == nil, "error: %v", e.Err)

		d := decoder{reader: newReader(f), baseType: uint32(kind)}
		r.Check(int(d.ReadUint32()) == im.LayerBounds.Dx() && int(d.ReadUint32()) == im.LayerBounds.Dy(), "size")
		r.Check(d.ReadUint32() == uint32(kind)*2+1, "type")
		r.Check(d.ReadString() == im.Name, "name")
		var l layer
		l.readProperties(&d)
		r.Check(d.Err == nil, "error: %v", d.Err)
		r.Check(l.Transparency == im.Transparency && l.Invisible == im.Invisible, "opacity, visibility: %+v", l)
		r.Check(l.LayerBounds.Min == image.Pt(int(x), int(y)), "position: %v", l.LayerBounds)
		if kind == 0 {
			want := limage.CompositeNormal
			for _, m := range modes {
				if m == im.Mode {
					want = m
				}
			}
			r.Check(l.Mode == want, "mode: %d", l.Mode)
		}
		r.Check(l.group == (group != nil), "group: %v", l.group)
		if len(groups) > 1 {
			r.Check(len(l.itemPath) == len(groups), "path: %v", l.itemPath)
			for n, g := range groups {
				r.Check(l.itemPath[n] == rune(g), "path: %v", l.itemPath)
			}
		}
		_, err := f.ReadAt(make([]byte, 1), d.Count)
		r.Check(err != nil, "more after the properties")

		for n, m := range modes {
			var f file
			w := newWriter(&f)
			w.WriteUint32(n)
			d := decoder{reader: newReader(f)}
			var l layer
			l.readMode(&d)
			r.Check(l.Mode == m, "mode %d is read as %d", n, l.Mode)
		}
	})
}
