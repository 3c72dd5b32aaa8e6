//go:build verif

package ora

import (
	"encoding/xml"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume encoding/xml gives back the elements and attributes it wrote: names and values of valid XML characters

// written is the first start element that was written.
var written struct {
	any   bool
	start xml.StartElement
}

// @ model (*encoding/xml.Encoder).EncodeToken
// @ for C21
func model_EncodeToken_attrs(e *xml.Encoder, t xml.Token) error {
	if s, ok := t.(xml.StartElement); ok && !written.any {
		written.any, written.start = true, s
	}
	return vspec.Any[error]("xml error")
}

// what the layers inside a group write comes after the attributes of the group
//
// @ modular writeStack
// @ for C21
func modular_writeStack_attrs(e *xml.Encoder, l limage.Layer, n int) (int, error) {
	vspec.Assert("the stack element is written first", written.any)
	return vspec.Any[int]("layers"), vspec.Any[error]("xml error")
}

// expressible tells whether OpenRaster has a name for the mode.
func expressible(m limage.Composite) bool {
	switch m {
	case limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDarkenOnly, limage.CompositeLightenOnly,
		limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight, limage.CompositeDifference,
		limage.CompositeColor, limage.CompositeLuminosity, limage.CompositeHue, limage.CompositeSaturation, limage.CompositePlus,
		limage.CompositeDestinationIn, limage.CompositeDestinationOut, limage.CompositeSourceAtop, limage.CompositeDestinationAtop:
		return true
	}
	return false
}

// @ contract C21 writeStack
func contract_writeStack_attrs(e *xml.Encoder, l limage.Layer, n int) {
	p, ok := l.Image.(*limage.Image)
	vspec.Requires(l.Image != nil && (!ok || p != nil))
	written.any = false
	writeStack(e, l, n)
	vspec.Ensures("an element is written", written.any)
	var back limage.Layer
	_, err := processLayerAttrs(&back, written.start)
	vspec.Ensures("can be read", err == nil)
	vspec.Ensures("the name", back.Name == l.Name)
	vspec.Ensures("the position", back.LayerBounds.Min == l.LayerBounds.Min)
	vspec.Ensures("the visibility", back.Invisible == l.Invisible)
	vspec.Ensures("the transparency", back.Transparency == l.Transparency)
	vspec.Ensures("the mode, or Normal", back.Mode == l.Mode || !expressible(l.Mode) && back.Mode == limage.CompositeNormal)
}
