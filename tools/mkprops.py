import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
T="The tests decode a handful of well-formed sample files; "
p("C01","Decoding never panics, whatever the input",
 "For every byte stream, every combination of decode options and every reader (short reads, read errors, end of input at any byte), decoding a file or only its configuration returns a result or an error and never panics. When decoding succeeds, the colour model, bounds and every pixel inside the bounds of the merged image, of each layer image and of each decoded channel image can be read without a panic. (Exhausting memory or the stack on documents that declare gigantic dimensions or nest blocks absurdly deep is outside this property.)",
 ["inputs","fault_sequences","configurations"],"all byte streams, all read-chunkings and read errors, all option values",
 T+"no malformed, truncated or hostile file is ever decoded, so no bounds, length or nil check on the decoding path is exercised.",
 ["psd.go","layer.go","imageres.go","util.go","compress.go","compress_other.go","picker.go"],
 [("length and range checks before every index, slice and allocation","psd.go, layer.go, imageres.go, compress*.go"),("unsupported colour mode or depth is an error","psd.go (makePicker), picker.go (find*Picker)")],
 obs=["Decode","DecodeConfig","image.Decode","PSD.Picker","Layer.Picker","Channel.Picker","Config.Palette"])
p("C02","The reported read count is the number of bytes consumed",
 "Whenever decoding a file, its configuration, or one compressed image plane succeeds, the returned count equals the number of bytes that were taken from the reader. This holds no matter how the reader splits its data over calls and whether or not it supports seeking or discarding.",
 ["inputs","schedules","configurations"],"all inputs and all ways in which a reader may deliver them (short reads, Seeker, Discarder)",
 "Tests read from files and in-memory buffers that always fill the request, and compare the count for a few files only.",
 ["psd.go","layer.go","imageres.go","util.go","compress.go","compress_other.go"],
 [("every successful read adds its length to the running count","all read* functions"),("discard/align helpers","util.go")],
 [("read","bytes consumed so far by this function","every read* function")],["Decode","DecodeConfig","CompressionMethod.Decode"])
p("C03","Length-prefixed sections are consumed exactly as declared",
 "A successful decode has consumed the image resource section, the layer and mask information section, every layer's extra data, every additional-information block and every layer channel's image data by exactly the length its own prefix declares, plus the padding the format defines, so that the following section starts at its proper offset. A section whose content needs more bytes than it declares makes decoding fail with an error instead of reading on out of step; bytes a section declares beyond its content are skipped or reported as an error, never read as the next section.",
 ["inputs"],"all byte streams",
 T+"inconsistent lengths never occur in them.",
 ["layer.go","imageres.go","psd.go"],
 [("declared length compared with bytes read","readLayerAndMaskInfo, readLayerExtraData, readLayerImage, readAdditionalLayerInfo, readImageResource")],
 [("layerAndMaskInfoLen, extraDataLen, DataLen, infoLen, imageResourceLen","declared section lengths","layer.go, imageres.go")],["Decode","DecodeConfig"])
p("C04","Header fields are validated and reported exactly",
 "Decoding the configuration succeeds only for signature 8BPS, version 1 or 2, 1 to 56 channels, width and height of at least 1 and at most 30000 (version 1) or 300000 (version 2), and depth 1, 8, 16 or 32; everything else is an error. On success the version, channel count, bounds, depth, colour mode (a signed 16-bit number) and colour mode data are exactly those stored in the file's header at their big-endian positions, and the document counts as large format exactly for version 2.",
 ["inputs"],"all byte streams",
 T+"every header field has 2^16 to 2^32 values and each limit has a boundary that no sample touches.",
 ["psd.go","util.go"],[("header parsing and range checks","psd.go DecodeConfig"),("big-endian readers","util.go")],obs=["DecodeConfig","Config"])
p("C05","Image resources are stored under their id with exact name and data",
 "After a successful decode each image resource block of the file is available under its identifier, with its name and data byte-for-byte as stored, the last block winning when an identifier repeats, and no identifier that does not occur in the file is present.",
 ["inputs"],"all image resource sections",
 T+"odd lengths, long names, repeated identifiers and empty blocks are not enumerated.",
 ["imageres.go","util.go"],[("resource block loop","imageres.go readImageResource"),("padded Pascal strings","util.go readPascalString, adjustAlign2")],obs=["Config.Res"])
p("C06","Layer records are decoded faithfully",
 "For every layer of a successfully decoded file the bounds (signed coordinates), blend mode, opacity, clipping flag, flags, channel list, name, section divider type, divider blend mode and subtype and the blend-clipped-elements setting equal the values encoded in that layer's record, with the documented fallbacks when an optional block is absent (legacy name, the layer's own blend mode, subtype 0, clipped elements blended). The visibility, transparency-protection, folder and folder-open queries follow from those values alone.",
 ["inputs"],"all layer records, normal and large documents",
 T+"negative coordinates, unusual flag combinations and absent or truncated optional blocks are barely present.",
 ["layer.go","util.go","blendmode.go"],[("layer record parsing","layer.go readLayerInfo, readLayerExtraData"),("optional blocks","layer.go readSectionDividerSetting, util.go readUnicodeString")],obs=["Layer"])
p("C07","Layer mask records are decoded faithfully for every mask length",
 "For every layer mask record the mask rectangle, default colour, flags, densities, feathers, real flags, real background and real rectangle equal the values stored in the record, with coordinates read as signed numbers; a field beyond the record's length keeps its default (densities 255 once the mask flags are present, everything else zero).",
 ["inputs"],"all mask records of every declared length and every parameter-flag combination",
 T+"the record has 16 parameter combinations times many lengths, and almost none occurs in the samples.",
 ["layer.go"],[("conditional field parsing","layer.go readLayerMaskAndAdjustmentLayerData")],obs=["Layer.Mask"])
p("C08","Additional information blocks keep their key and data",
 "Every additional-information block of a layer or of the document is stored under its four-character key with exactly its data (except luni, lsct and clbl of a layer, which the layer itself decodes into its fields and removes), using 8-byte lengths for precisely the thirteen documented keys of large documents and 4-byte lengths otherwise; layer blocks (Layr, Lr16, Lr32) are decoded as layers instead of being stored.",
 ["inputs","configurations"],"all keys, lengths and both document versions",
 T+"no sample contains the large-document keys.",
 ["layer.go","psd.go"],[("block loop","layer.go readAdditionalLayerInfo"),("length width","psd.go AdditionalInfoKey.LenSize")],obs=["Layer.AdditionalLayerInfo","PSD.AdditinalLayerInfo"])
p("C09","Run-length data decodes to its PackBits expansion, row by row",
 "For every run-length compressed plane that decodes successfully, each output row is the PackBits expansion of that row's packed bytes, independent of how many CPUs are available, and the row lengths are read as 2-byte (4-byte in large documents) counts before the data. Packed data that would overrun its row or its packed length is reported as an error and never writes outside the destination.",
 ["inputs","schedules","configurations"],"all packed inputs, row widths, row counts, both document versions and any number of worker goroutines",
 "Tests decode a few well-formed buffers on one machine; corrupted runs, rows that expand to the wrong length and other CPU counts are never tried.",
 ["compress.go","compress_other.go"],[("length table and work partition","compress_other.go decodePackBits"),("run expansion","compress_other.go decodePackBitsPerLine")],
 [("lens, offsets","per-row packed length and start","compress_other.go")],["CompressionMethod.Decode"])
p("C10","Prediction decoding yields row-wise running sums",
 "ZIP-with-prediction data is decoded so that each 16-bit or 32-bit big-endian sample equals the modular sum of all stored samples of its row up to and including itself, rows being independent of each other and no byte outside the samples being changed.",
 ["inputs"],"all plane contents, widths and heights",
 T+"only rendered thumbnails are compared for a few 16-bit files.",
 ["compress.go","util.go"],[("running sums","compress.go decodeDelta")],obs=["CompressionMethod.Decode","Channel.Data"])
p("C11","Planes have the right size, place and content for every layout",
 "Every decoded channel plane has exactly height rows of ceil(width*depth/8) bytes; the merged image stores channel i as the i-th plane of its data, and raw planes are the stored bytes verbatim. Each compression method is dispatched to its own decoder with the plane's own row width, and unknown methods are an error.",
 ["inputs","configurations"],"all dimensions, depths, channel counts and compression methods",
 T+"not every combination of depth and compression occurs in them.",
 ["psd.go","layer.go","compress.go"],[("plane allocation","psd.go Decode, layer.go readLayerImage"),("method dispatch","compress.go Decode")],obs=["PSD.Data","PSD.Channel","Layer.Channel"])
p("C12","Pixel access returns the stored samples",
 "For every image handed out by decoding and every point inside its bounds, the colour returned consists of exactly the big-endian samples stored at that point in the image's channel planes (palette lookup for indexed images, inverted bit for bitmaps, opaque when there is no alpha plane), for every bounds rectangle including negative origins.",
 ["inputs"],"all bounds, all points and all plane contents, for each depth and colour mode",
 T+"pixel values are compared for a few 8-bit and 16-bit images with origin (0,0).",
 ["picker.go","util.go"],[("sample addressing","picker.go At methods"),("plane assignment","picker.go setSource methods")],obs=["image.Image.At of PSD.Picker, Layer.Picker, Channel.Picker"])
p("C13","The colour model offered matches the document and its pixels",
 "For every supported combination of colour mode, depth and alpha the image has the documented colour model, its pixels are colours of that model, the palette entries come from the three 256-byte tables with the transparency index applied, and combinations that are not supported are reported as an error rather than returned as an unusable image. The merged image has an alpha channel exactly when the document has an extra channel and its alpha identifiers, if present, contain 0.",
 ["inputs","configurations"],"all colour modes (including undocumented numbers), depths, channel counts and resources",
 T+"the table of mode, depth and alpha has many cells and most are never visited.",
 ["picker.go","psd.go","imageres.go","colormode.go"],[("selection tables","picker.go find*Picker, psd.go makePicker"),("palette","psd.go Config.Palette"),("alpha rule","imageres.go hasAlphaID0")],obs=["ColorModel","Config.Palette","image.DecodeConfig"])
p("C14","The layer tree mirrors the section dividers",
 "The layers form the tree described by the section dividers: every folder contains exactly the layers between its bounding divider and itself in file order, every non-divider layer appears exactly once, and dividers that do not nest (a folder without its start or a start without its folder) are reported as an error instead of losing layers.",
 ["inputs","histories"],"all sequences of layers and dividers, any nesting depth",
 T+"none has unbalanced dividers or deep nesting.",
 ["layer.go"],[("stack of open groups","layer.go buildTree")],obs=["PSD.Layer","Layer.Layer"])
p("C15","Colours report valid premultiplied RGBA",
 "For every colour value the red, green, blue and alpha reported are alpha-premultiplied 16-bit quantities: alpha is at most 0xffff and no component exceeds alpha. Integer colour types report their samples scaled exactly (fully opaque samples unscaled by alpha, fully transparent ones all zero), and inverted-CMYK values multiply each component by black.",
 ["inputs"],"all sample values of all eight colour types, including out-of-range floating point samples",
 "There are no tests of the colour package's arithmetic.",
 ["color/color.go"],[("RGBA methods","color/color.go")],obs=["color.Color.RGBA"])
p("C16","Colour models convert every colour to their own type",
 "Each colour model converts every colour to its own type without panicking, returns colours already of that type unchanged, and maps an opaque colour to an opaque one and, when the model has alpha, a fully transparent colour to a transparent one. For integer models the alpha of the result is the alpha of the source truncated to the model's precision, the samples are the unpremultiplied source colour (its luminance for grey models) up to the model's precision, and converting never produces a value whose unpremultiplied samples are out of range.",
 ["inputs"],"all source colours",
 "There are no tests of colour conversion.",
 ["color/color.go"],[("model functions","color/color.go *Model")],obs=["color.Model.Convert"])
p("C17","Separable blend modes compute their defined formula",
 "For every destination pixel, source pixel and coverage, each separable blend mode (Normal, Darken, Multiply, ColorBurn, LinearBurn, Lighten, Screen, ColorDodge, LinearDodge, Add, Overlay, SoftLight, HardLight, LinearLight, VividLight, PinLight, HardMix, Difference, Exclusion, Subtract, Divide) writes for each colour channel the alpha-weighted mix of the mode's blend function, source and backdrop, up to fixed-point rounding. The result is the same up to rounding whichever of the premultiplied/unpremultiplied image types or the generic interface is used.",
 ["inputs","configurations"],"all pixel values, coverages and image type pairs",
 "Tests compare a few dozen random pixels per mode with a tolerance and several of them fail at this commit.",
 ["blend/zblends.go","blend/genblend.go","blend/util.go"],[("generated pixel kernels","blend/zblends.go")],obs=["Drawer.Draw","Drawer.DrawMask"])
p("C18","Non-separable blend modes keep hue, saturation and luminosity rules",
 "Hue, Saturation, Color, Luminosity, DarkerColor and LighterColor compute the blend defined by the luminosity, saturation and clipping functions of the compositing model; every result channel stays within range for every pair of colours.",
 ["inputs"],"all pixel pairs",
 "Tests sample random pixels with a tolerance.",
 ["blend/util.go","blend/zblends.go"],[("luminosity/saturation helpers","blend/util.go")],obs=["Drawer.Draw"])
p("C19","Coverage rules: invisible sources change nothing, alpha is the union",
 "With any blend mode, drawing with zero coverage (fully transparent source or mask) leaves the destination pixel unchanged, the resulting alpha depends only on the source alpha, the coverage and the destination alpha and equals their union up to fixed-point rounding, and an opaque destination stays opaque up to that rounding.",
 ["inputs"],"all pixels, coverages, modes and image types",
 "Tests sample random pixels with a tolerance.",
 ["blend/zblends.go"],[("alpha terms of the generated kernels","blend/zblends.go")],obs=["Drawer.Draw","Drawer.DrawMask"])
p("C20","Porter-Duff operators compute their defined coverage formula",
 "For every pair of pixels, drawn without a mask (an alpha-only source image counts as black when drawn onto RGBA or NRGBA images), each Porter-Duff operator (Clear, Copy, Dest, SrcOver, DestOver, SrcIn, DestIn, SrcOut, DestOut, SrcAtop, DestAtop, XOR) writes Fa*source + Fb*destination with that operator's fractions, up to fixed-point rounding, for every supported pair of image types.",
 ["inputs","configurations"],"all pixels, coverages, operators and image types",
 "Tests sample random pixels with a tolerance.",
 ["blend/zporterduffs.go","blend/genporterduff.go"],[("generated pixel kernels","blend/zporterduffs.go")],obs=["Drawer.Draw","Drawer.DrawMask"])
p("C21","Drawing touches exactly the clipped rectangle",
 "For all images, rectangles, points and masks, drawing reads and writes only pixels inside the intersection of the rectangle with the bounds of destination, source and mask, aligns source and mask to the rectangle's origin, changes no other byte of the destination and never panics, whatever the origins, strides and sub-images involved.",
 ["inputs"],"all rectangles, offsets, strides, sub-images and masks",
 "Tests draw a few fixed rectangles.",
 ["blend/util.go","blend/draw.go"],[("clipping","blend/util.go clip"),("address preparation","blend/util.go prepare4to4, prepare1to4"),("dispatch","blend/draw.go drawMask")],obs=["Drawer.Draw","Drawer.DrawMask"])
p("C22","Splitting a draw over goroutines covers every row exactly once",
 "However many CPUs are available, a draw processes every row of its rectangle exactly once, with the row's own source and mask row, no two workers share a destination row, and the call returns only after all rows are done.",
 ["schedules","configurations","inputs"],"all values of GOMAXPROCS, heights and draw directions",
 "Tests run with the CPU count of one machine.",
 ["blend/draw.go"],[("row partition","blend/draw.go Parallel methods")],obs=["Drawer.Draw"])
p("C23","Tiles cover a layer exactly",
 "When a layer is prepared for compositing, its decoded pixels are split into fixed-size tiles such that every layer pixel, including those at negative canvas coordinates, lies in exactly one tile at its own position and no tile contains foreign pixels.",
 ["inputs"],"all layer rectangles, positive and negative",
 "The composite package has no runnable tests here (a dependency is missing).",
 ["composite/layerimage.go","composite/layer.go"],[("tile grid","composite/layerimage.go")],obs=["composite rendering"])
p("C24","Clipping groups attach to the layer below",
 "When layers are composited each run of clipping layers is attached to the nearest non-clipping layer below it in the same folder, layers keep their order and none is lost or duplicated.",
 ["inputs","histories"],"all layer sequences",
 "The composite package has no runnable tests here.",
 ["composite/builder.go","composite/layer.go","composite/cloner.go"],[("clip group construction","composite/builder.go")],obs=["composite rendering"])
p("C25","Incremental rendering equals rendering from scratch",
 "After any sequence of visibility or opacity changes and renders, rendering through the cache gives the same pixels as rendering the same tree with no cache.",
 ["histories","schedules"],"all sequences of edits and renders",
 "The composite package has no runnable tests here.",
 ["composite/renderer.go"],[("dirty tracking","composite/renderer.go")],obs=["composite rendering"])
p("C26","Browser builds decode exactly like native builds",
 "The JavaScript and WebAssembly builds decode every run-length plane to the same bytes and counts as the native build and fail on exactly the inputs the native build fails on.",
 ["inputs","configurations"],"all packed inputs, three build targets",
 "Tests run on the native target only.",
 ["compress_js.go","compress_wasm_js.go","compress.inc.js","compress_other.go"],[("per-target decoders","compress_*.go")],obs=["CompressionMethod.Decode"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
