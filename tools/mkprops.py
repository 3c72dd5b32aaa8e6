#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

NOTEST = "No test exercises this at all (limage, lcolor and internal have no tests of their own); "

prop("C01", "Pixel buffers keep exactly what was stored, pixel by pixel",
 "For the RGB, GrayAlpha and PalettedAlpha images, storing a pixel inside the bounds makes exactly that pixel read back as the stored value (for Set: the colour converted to the image's colour space, its alpha kept where the format has one) and leaves every other pixel unchanged. Storing outside the bounds changes nothing, reading outside gives the zero pixel, a new image has the requested bounds and only zero pixels, and none of these operations panics on a well-formed image. The pixel (x,y) is the element (y-Min.Y)*Stride + (x-Min.X) of Pix.",
 ["inputs"], "every well-formed image (any bounds, any stride, any size, any sub-image), every coordinate pair, every colour, every second coordinate pair observed",
 NOTEST + "a sample of coordinates cannot show that no other pixel changes for every stride and origin.",
 ["rgb.go", "grayalpha.go", "indexedalpha.go"],
 [("PixOffset / At / Set / SetX / New*", "rgb.go, grayalpha.go, indexedalpha.go")], observe=["At/XAt after Set/SetX"])

prop("C02", "Sub-images of pixel buffers share pixels at the same coordinates",
 "SubImage of an RGB, GrayAlpha or PalettedAlpha image has as bounds the intersection of the requested rectangle with the image (an empty image when that is empty), shows at every point of it exactly the pixel the original shows there, and keeps the palette. The pixels are shared: a store through either image is seen through the other, and SubImage never panics for any rectangle, including of a sub-image.",
 ["inputs", "histories"], "every well-formed image, every rectangle, every coordinate pair, every store through either image afterwards",
 NOTEST + "sharing at every coordinate for every stride/origin combination is a universally quantified aliasing fact.",
 ["rgb.go", "grayalpha.go", "indexedalpha.go"], [("SubImage", "rgb.go, grayalpha.go, indexedalpha.go")])

prop("C03", "Opaque is true exactly when every pixel of the image is opaque",
 "Opaque of an RGB image is always true; Opaque of a GrayAlpha or PalettedAlpha image is true exactly when every pixel inside the image's bounds has full alpha, whatever lies in the shared buffer outside those bounds. Encoders that consult it therefore never drop the alpha of a translucent image.",
 ["inputs"], "every well-formed image including sub-images, every pixel content",
 NOTEST + "it is a for-all over the pixels of every image.",
 ["rgb.go", "grayalpha.go", "indexedalpha.go"], [("Opaque", "rgb.go, grayalpha.go, indexedalpha.go")])

prop("C04", "A layer shows its content at its offset with its transparency or mask applied",
 "The colour of a layer at (x,y) is its content's colour at (x,y) minus the top-left corner of the layer's bounds, with red, green and blue unchanged and the non-premultiplied alpha scaled by (255-Transparency)/255 in 16-bit arithmetic rounded down; Transparency 0 returns the content's colour itself and Transparency 255 gives a fully transparent colour. A masked image applies the mask's gray value at the same point as opacity in exactly the same way, and a layer's bounds are its LayerBounds.",
 ["inputs"], "every layer bounds, transparency 0..255, mask value 0..255, coordinate and content colour of any colour type",
 NOTEST + "the ora decoder test compares layers' content directly and never looks through a layer.",
 ["layer.go", "misc.go", "internal/nrgba.go"], [("Layer.At", "layer.go"), ("transparency", "misc.go"), ("MaskedImage.At", "misc.go")])

prop("C05", "Cropping a layer or layered image shows the same pixels in the same place",
 "For a layer, SubImage and SubImageLayer(r) have bounds equal to the intersection of r with the layer's bounds and show, at every point of that intersection, the same colour the layer shows there, with name, mode, visibility and transparency kept. For a layered image, SubImage(r) has one cropped layer per layer in the same order, and the original is not modified.",
 ["inputs"], "every rectangle, every layer (plain content, nested layered image, text or masked content), every point",
 NOTEST + "only a for-all over rectangles and points shows that content does not move when the top-left corner is cropped away.",
 ["layer.go", "image.go"], [("SubImageLayer / SubImage", "layer.go, image.go")])

prop("C06", "Flattening composes exactly the visible covering layers, bottom to top",
 "The colour of a layered image at a point is obtained by starting from transparent and, from the last (bottom) layer to the first (top), composing with each layer's mode the colour of every layer that is not Invisible and whose bounds contain the point; other layers contribute nothing (for an image whose colour model is a Go palette, non-Dissolve layers replace the result with their colour made opaque when its alpha exceeds one half, else contribute nothing). Its bounds are the smallest rectangle containing every non-empty layer's bounds, and its colour model is that of the first layer.",
 ["inputs"], "every list of layers of any length, every mode, visibility and bounds, every point",
 NOTEST + "it is an induction over layer lists of unbounded length.",
 ["image.go"], [("Image.At", "image.go"), ("Image.Bounds", "image.go"), ("Image.ColorModel", "image.go")])

prop("C07", "Per-channel blend modes compute their published formula channel by channel",
 "For Multiply, Screen, Overlay, SoftLight, Difference, Addition, Subtract, DarkenOnly, LightenOnly, Divide, Dodge, Burn, HardLight, GrainExtract and GrainMerge each result channel depends only on that channel of the two colours and the two alphas: it is blend(bottom.A, bottom channel, min(bottom.A, top.A), f(bottom channel, top channel)) with alpha equal to the bottom's, where f is the mode's GIMP/XCF formula on [0,1] in 16-bit fixed point (products and quotients rounded down, results clamped to the 16-bit range, 0.5 represented as 0x7fff, which HardLight still counts as dark, x/0 taken as 0 for x=0 and as infinity otherwise). The bottom colour being fully transparent gives a fully transparent result.",
 ["inputs"], "all 2^64 pairs of 16-bit channels and alphas per channel, every mode",
 NOTEST + "a handful of samples cannot cover 15 formulas over 16-bit operands including their clamping, zero-divisor and wrap-around corners.",
 ["composite.go", "internal/minmax.go"], [("Composite.Composite", "composite.go"), ("compositeMultiply .. compositeGrainMerge", "composite.go"), ("blend, clamp", "composite.go")])

prop("C08", "Compositing obeys the alpha laws for every mode and never panics",
 "Composing any two colours with any mode value (known or not) never panics and yields a colour in range. A fully transparent top leaves the bottom's colour unchanged (for bottoms that are not fully transparent) in every mode except DestinationAtop; Normal and every mode without its own formula computes alpha = a1+a2-a1*a2 and channels (1-k)*bottom + k*top with k = a2/alpha, so an opaque top replaces the bottom exactly; Behind returns the bottom; Dissolve returns either the bottom or the top made opaque, always the top when the top is opaque and always the bottom when the top is fully transparent; all other modes keep the bottom's alpha.",
 ["inputs"], "all pairs of 16-bit non-premultiplied colours, all 2^32 mode values, every random draw",
 NOTEST + "the laws quantify over all 16-bit colours, all modes and all random draws.",
 ["composite.go"], [("Composite.Composite", "composite.go"), ("compositeNormal, blend, compositeDissolve", "composite.go")])

prop("C09", "Hue, Saturation, Color, Value and Luminosity take just that component",
 "Where both colours are opaque, mode Value yields a colour whose largest channel is the top's largest channel with the bottom's hue and saturation, Saturation yields the bottom's hue and value with the top's saturation, Hue yields the bottom's value and saturation with the top's hue (and the bottom itself when the top is gray), Color yields the top's hue and saturation with the bottom's lightness and Luminosity the bottom's hue and saturation with the top's lightness. With translucent colours the component is mixed in like every other mode: weighted by blend with alpha min(a1,a2), keeping the bottom's alpha.",
 ["inputs"], "all pairs of 16-bit colours",
 NOTEST + "requires agreement with the colour-space conversions over all 16-bit colours.",
 ["composite.go", "lcolor/hsl.go"], [("compositeHue/Saturation/Color/Value", "composite.go")])

prop("C10", "HSV and HSL conversions are faithful in both directions",
 "Converting any colour to HSVA or HSLA keeps alpha exactly and gives V = the largest channel, L = the mean of the largest and smallest channel, S = chroma relative to its maximum for that V or L, S = 0 exactly for grays, and a hue in the sextant of the ordering of its channels. Converting back gives, for every opaque or translucent colour, every channel within 16 of 65535 of the original with grays exact, and conversion from any HSVA or HSLA value never wraps around: all result channels stay between the smallest and largest channel that the value and chroma imply.",
 ["inputs"], "all 16-bit RGB colours with any alpha; all 16-bit HSVA/HSLA quadruples",
 NOTEST + "2^48 colours with branchy fixed-point arithmetic whose overflow corners are not sampled.",
 ["lcolor/hsl.go", "internal/minmax.go"], [("RGBToHSV, RGBToHSL", "lcolor/hsl.go"), ("HSVA.ToNRGBA, HSLA.ToNRGBA", "lcolor/hsl.go"), ("colourToHue, hcmaToColour", "lcolor/hsl.go")])

prop("C11", "Colour types and models agree with Go's colour contract",
 "For every RGB, GrayAlpha, HSVA and HSLA value, RGBA() returns alpha-premultiplied components that do not exceed alpha and alpha does not exceed 0xffff, and it represents the same colour as ToNRGBA (8-bit channels replicated to 16 bits, alpha exact). The RGB and GrayAlpha models are the identity on their own colours that survive premultiplication (opaque ones), keep alpha where the format has one, and the AlphaPalette model of a palette of opaque colours returns the palette colour nearest to the argument with the argument's own alpha; converting any colour to non-premultiplied 16-bit form returns the same colour for every colour type: exactly for types that have such a form and for opaque colours, else to within 1 of 65535 once premultiplied again.",
 ["inputs"], "all values of every colour type; all palettes and colours",
 NOTEST + "a for-all over every representable colour of six types.",
 ["lcolor/rgb.go", "lcolor/gray.go", "lcolor/indexed.go", "lcolor/models.go", "lcolor/hsl.go", "internal/nrgba.go"],
 [("RGBA / ToNRGBA", "lcolor/*.go"), ("rgbColourModel, grayAlphaColourModel, AlphaPalette.Convert", "lcolor/*.go"), ("ColourToNRGBA", "internal/nrgba.go")])

prop("C12", "Random access over a seekable reader reads the right bytes every time",
 "A reader passed to the decoders that is not itself a ReaderAt but can seek behaves as a ReaderAt: every read at an offset starts at that absolute offset regardless of where the reader stood before and of earlier reads or errors, it either fills the buffer or reports an error, and after any error the next read still works (no lock is left held). A reader that is already a ReaderAt is used directly, and one that can do neither is reported as unusable.",
 ["inputs", "histories", "fault_sequences"], "every initial position, every sequence of offsets and lengths, every pattern of short reads and seek/read errors",
 "No test covers it; position tracking and lock release after errors are history properties.",
 ["internal/bufioToReader.go"], [("readerAt.ReadAt", "internal/bufioToReader.go"), ("GetReaderAt", "internal/bufioToReader.go")],
 state=[dict(name="pos", meaning="position the underlying reader is believed to be at", where="internal/bufioToReader.go")])

prop("C13", "Text layers flatten to the concatenation of all their pieces",
 "The string of a text layer is the concatenation, in order, of the Data of all its pieces, for any number of pieces.",
 ["inputs"], "every list of pieces", NOTEST + "induction over lists of any length.", ["misc.go"], [("TextData.String", "misc.go")])

ORAT = "ora.Encode is exercised by no test that runs here and the decoder test covers five small fixed files; "
prop("C20", "An encoded ORA archive has the container layout the format requires",
 "When encoding succeeds the archive's first entry is an uncompressed 'mimetype' containing exactly image/openraster, there is exactly one PNG entry per leaf layer (layers at any nesting depth that are not themselves layered images) holding that layer's image, the stack document mirrors the nesting and order of the layers inside one image element carrying the image's width and height and refers to each leaf by the name of exactly that leaf's entry, and mergedimage.png holds the whole image. This holds for layered images of any depth and width, for single layers and for plain images, which are written as a one-layer stack.",
 ["inputs"], "every image: every tree of layers of any depth and breadth",
 ORAT + "the numbering agreement between entries and references is an induction over trees.",
 ["ora/encode.go"], [("Encode, writeLayers, writeGroup, writeStack, writeGroupStack, writeImage", "ora/encode.go")])

prop("C21", "ORA layer attributes survive encode and decode",
 "The name, position, opacity (all 256 values), visibility and blend mode that encoding writes for a layer are read back by decoding as the same values, independently of each other and in any combination: any integer position including negative ones, hidden together with translucent, and every mode the format can express (others become Normal).",
 ["inputs"], "every name, integer offset, transparency 0..255, visibility and mode",
 ORAT + "no test sets opacity, visibility, a negative offset or any blend mode.",
 ["ora/encode.go", "ora/stack.go"], [("writeStack attributes", "ora/encode.go"), ("processLayerAttrs", "ora/stack.go")])

prop("C22", "Encoding an ORA reports every failure",
 "If any write, compression, XML or PNG step fails while encoding, including finishing the archive, Encode returns a non-nil error; it returns nil only when everything was written.",
 ["fault_sequences", "inputs"], "every image and every pattern of failing underlying writes",
 ORAT + "a for-all over fault positions.",
 ["ora/encode.go"], [("error propagation in Encode/writeLayers/writeGroup/writeStack/writeGroupStack/writeImage", "ora/encode.go")])

prop("C23", "ORA decoding rebuilds the layer tree of the stack document",
 "Decoding yields, for a stack document, one layer per layer or stack element directly inside each stack, in document order and with the same nesting, ignoring every other element together with everything inside it, with each layer's image decoded from the archive entry its src names; on success the tokens consumed are exactly those of the stack. Decoding reports an error (and never panics or returns a partial image) when the stack document, the image size or a layer's source is missing or invalid, or when a mimetype entry has the wrong size or content.",
 ["inputs"], "every token sequence of any length and nesting; every archive",
 ORAT + "nesting and skipping are inductions over token streams; malformed inputs are not tested at all.",
 ["ora/decode.go", "ora/stack.go"], [("readStack, readLayer, skipTag", "ora/stack.go"), ("Decode, getStack, checkMime, getDimensions", "ora/decode.go")])

prop("C24", "Decoded ORA layers keep their pixels where the document puts them",
 "A decoded layer occupies the part of its image, placed at its x,y relative to its parent stack, that lies inside the canvas, and shows at each point of the canvas the pixel its image has there: clipping at any edge (also the top and left ones, and inside offset groups) hides pixels but never moves them, and a group covers its children wherever they lie in it.",
 ["inputs"], "every image size, offset (any sign), nesting of offset groups and canvas size",
 ORAT + "all test files have every layer inside the canvas and groups at the origin filled by their children.",
 ["ora/stack.go", "layer.go"], [("readLayer bounds computation", "ora/stack.go")])

prop("C25", "ORA configuration and image decoding agree on the header",
 "Reading only the configuration of an archive gives the width and height of the document's image element, using the NRGBA colour model, and succeeds or fails with the header exactly as full decoding does; a document whose first element is not an image element with integer w and h is an error in both.",
 ["inputs"], "every archive and token stream", ORAT + "only well-formed headers are tested.",
 ["ora/decode.go"], [("getDimensions, getStack, DecodeConfig, Decode", "ora/decode.go")])

prop("C26", "The ORA thumbnail is a scaled copy of at most 256 pixels a side",
 "The thumbnail of an image larger than 256 pixels in either direction is at most 256 by 256, keeps the larger side at 256 and the aspect ratio to within a pixel, and each of its pixels is the image's pixel at the proportional horizontal and vertical position, always inside the image.",
 ["inputs"], "every width and height up to 2^24, every pixel of the thumbnail",
 ORAT + "no test encodes an image larger than 256 pixels.",
 ["ora/thumbnail.go", "ora/encode.go"], [("thumbnail.At, thumbnail.Bounds", "ora/thumbnail.go"), ("writeImage scale", "ora/encode.go")])

XT = "The xcf package does not build in the baseline (its dependencies are unavailable), so none of its tests run; "
prop("C30", "XCF run-length coding is lossless",
 "For every channel of up to 65535 bytes, the bytes the run-length encoder writes decode to exactly the original bytes, with every run and literal length within the format's limits, and the decoder expands every well-formed stream exactly as the format prescribes, reporting an error when the stream ends early.",
 ["inputs"], "every byte sequence of length 0..65535; every encoded stream",
 XT + "run/literal boundaries at 3, 127, 128 and 65535 are not sampled.",
 ["xcf/rle.go"], [("WriteRLE, WriteRLEData", "xcf/rle.go"), ("rle.Read, readRLE", "xcf/rle.go")])

prop("C31", "XCF layer properties survive encode and decode",
 "The blend mode number written for every mode the format can express is read back as that mode in an RGB image (modes it cannot express become Normal), and the opacity 0..255, visibility, position, size, item path and group flag written for a layer are read back unchanged, all of what was written being read.",
 ["inputs"], "every mode, opacity, visibility, offset, item path", XT + "no test sets a mode.",
 ["xcf/layer_encode.go", "xcf/layer_decode.go"], [("modeID, writeProperties", "xcf/layer_encode.go"), ("readMode, readProperties", "xcf/layer_decode.go")])

prop("C32", "A pixel of a compressed XCF image is found in its tile, in whatever order pixels are read",
 "An XCF image that is kept compressed gives for every pixel the bytes at that pixel's place in the decoded channels of its 64x64 tile (tiles in rows from the top left, the last column and row of tiles smaller, pixels in rows inside of a tile), whichever pixels were read before it; an indexed pixel is the palette's entry of that number, opaque or with the alpha of the second channel, and a pixel outside of the bounds has the zero colour.",
 ["inputs", "histories"], "every image width and height, every pixel, every order of reading pixels", XT + "only a few pixels of a few files are looked at, in one order.",
 ["xcf/compressed.go"], [("decompressTile", "xcf/compressed.go"), ("At, RGBAt, NRGBAAt, GrayAt, GrayAlphaAt of the compressed images", "xcf/compressed.go")])

prop("C33", "Hostile XCF input yields errors, not panics",
 "Decoding any byte sequence as XCF (image, configuration, or compressed) returns an image or an error and never panics, and looking at any pixel of a returned image never panics.",
 ["inputs"], "every byte sequence", XT + "malformed files are not tested.",
 ["xcf/decoder.go", "xcf/image_decode.go", "xcf/layer_decode.go", "xcf/parasites.go", "xcf/text.go", "xcf/reader.go"],
 [("ReadLayer, ReadImage, ReadParasites, parseText, makeGroups", "xcf/*.go")])

prop("C34", "XCF layer groups are rebuilt as they were written",
 "The item paths written for the layers of a nested image identify each layer by its index in each enclosing group, and decoding layers with those paths rebuilds the same nesting and order with each layer positioned relative to its group, regardless of internal iteration order.",
 ["inputs", "schedules"], "every tree of layers", XT + "nesting deeper than one level is not tested.",
 ["xcf/layer_encode.go", "xcf/decoder.go"], [("WriteLayers item paths", "xcf/layer_encode.go"), ("makeGroups, makeImage", "xcf/decoder.go")])

prop("C35", "The channels of an XCF pixel are written and read back as its colour",
 "The bytes written for a colour are red, green, blue and alpha (RGB images), gray and alpha (gray images; gray alone for masks) or the number of the palette's entry nearest to the colour and its alpha (indexed images), never multiplied by the alpha; the bytes read for a pixel are stored as that colour in that pixel and no other, and an image is refused when its number of channels is not the one of its type.",
 ["inputs"], "every colour, palette, pixel and image type", XT + "no test has translucent indexed pixels, and none checks each channel of each image type.",
 ["xcf/image_encode.go", "xcf/image_decode.go"], [("rgbAlphaToBuf, grayAlphaToBuf, grayToBuf, paletteAlphaToBuf", "xcf/image_encode.go"), ("ReadColour of the six image readers, validBPP", "xcf/image_decode.go")])

prop("C36", "XCF tiles cover the image exactly, in the same order on both sides",
 "Encoding visits every pixel of an image exactly once in 64x64 tiles, row of tiles by row of tiles, and writes one tile pointer per tile; decoding places the n-th byte of each tile's channel at the same pixel.",
 ["inputs"], "every image width and height", XT + "only one or two sizes are sampled.",
 ["xcf/image_encode.go", "xcf/image_decode.go"], [("WriteImage", "xcf/image_encode.go"), ("readAndDecompressImage, readCompressedImage, readTiles", "xcf/image_decode.go")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
