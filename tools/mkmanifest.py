import json
TECH="contract-based deductive verification of the Go SSA (own VC generator gov + z3/cvc5)"
COMMON=" Assumes: int/int64 arithmetic does not overflow, readers follow io.Reader, goroutines are run one after the other, gov and the solvers are correct. A bounded generated-input oracle on the real code runs beside the proof (replay of failures); it is labelled bounded and not counted as proved."
C={
"C02":"Proof that every decoding function returns exactly the number of bytes its reader's ghost position moved, for every stream and reader kind.",
"C03":"Proof that each length-prefixed section parser consumes its declared length (or fails), composed over the contracts of all section parsers.",
"C05":"Proof that after readImageResource every stored resource is the last block of its id in the section, with exactly its name and data bytes, that no other id is present, and that Decode keeps that map in Config.Res.",
"C06":"Proof, for every layer record of every stream and both document versions, of rectangle, blend mode, opacity, clipping, flags, legacy name, name choice, section divider (type, blend mode, subtype with the lsct/lsdk precedence) and blend-clipped-elements against the record's bytes at a recursively specified record position; not proved (bounded oracle only): the UTF-16 conversion of the Unicode name and the channel list of a layer.",
"C07":"Proof of every field of the mask record (each combination of parameters and lengths) and of the same fields in every layer of readLayerInfo.",
"C08":"Proof that a layer's stored blocks are exactly the last block of each key in its extra data with exactly its bytes (luni, lsct, clbl removed), and of the 8-byte length keys; and the same for the document's own blocks in PSD.AdditinalLayerInfo; the records decoded from Layr/Lr16/Lr32 blocks are handed to the tree (C14), their concatenation is cross-checked by the bounded oracle only.",
"C14":"Proof of the complete transition contract of buildTree's loop (each record either opens a list, closes the open list into a folder with exactly its fields and children, or joins the open list; the lists below stay as they are; lists never share storage), of exactly when it fails and of what it returns, and of which records readLayerAndMaskInfo and Decode hand over. That the transitions compose to the tree is the usual stack argument; append is modelled as copying, so the storage clause stands in for in-place growth.",
"C15":"Proof, for every colour value of the eight types, of the exact integer formula of RGBA (float types: range, equality of grey components and the opaque/transparent cases; math.Pow is uninterpreted, a NaN sample converts to 0 as amd64 does) and of r,g,b <= a <= 0xffff, with every arithmetic step checked for division by zero.",
"C12":"Proof of every picker's At, Bounds and setSource (sample addressing, byte order, inverted bit, palette lookup, opaque when no alpha plane), of findGrayPicker, of the freshness of makePicker's result, and of Decode's assignment of the merged planes and the Channel map; which layer channel feeds which plane of a layer's picker is only cross-checked by the bounded oracle.",
"C13":"Proof of every picker's ColorModel and colour type, the picker selection tables, the palette entries with the transparency index, hasAlphaID0, the supported/unsupported decision of makePicker and image.DecodeConfig's colour model table.",
"C16":"Proof of the full functional contract of the eight model functions: result type, identity on their own type, alpha, luminance or ink formula, no division by zero; a foreign colour is any value whose RGBA is validly premultiplied. Assigning the functions to the exported model variables is covered by the oracle only.",
"C10":"Proof, for every buffer, width, height and both depths, that decodeDelta leaves each sample equal to the stored sample plus its left neighbour modulo 2^16 (2^32), rows independent; lifted through CompressionMethod.Decode to Decode's merged planes and to every channel of readLayerImage against the decompressed zlib stream; other depths change nothing.",
"C11":"Proof of every plane's length (height times ceil(width*depth/8)), of raw and zlib planes' content against the stream, of the rectangle, depth, channel count, method and row-count width each call of CompressionMethod.Decode and of the PackBits decoder is given for the merged image and for each layer channel, of unknown methods being errors, and of Decode's Channel map of planes.",
"C09":"Proof that decodePackBits writes, row by row, exactly the PackBits expansion of each row's own input span (runs, literals, no-ops, bounded by the row; errors reported), sequentially and split over goroutines, and that the row lengths handed to it by CompressionMethod.Decode, Decode and readLayerImage are the ones stored in the stream.",
"C22":"Proof, for any GOMAXPROCS, that each Parallel method calls its kernel for consecutive blocks of rows covering the rectangle exactly once with each block's own destination, source and mask row, that every goroutine is waited for, and that each of the 231 draw methods of the 39 drawers passes Parallel the first or last row's address, its step and the height of its rectangle. (The twelve Porter-Duff generic drawFallback methods do not use Parallel.)",
"C04":"Proof of the full functional contract of the header decoder against the big-endian bytes of the ghost stream.",
}
NA={}
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)['id']
    if i not in C: NA[i]=NA.get(i,"not claimed: contracts for it are still being built")
try:
    exec(open('/verif/tools/manifest_extra.py').read())
except FileNotFoundError: pass
m={"version":1,"setup_cmd":"bash build.sh","checks":[
 {"property":p,"quick_cmd":f"bash run.sh {p} quick","thorough_cmd":f"bash run.sh {p} thorough","technique":TECH,"level":"proof","level_note":C[p]+COMMON} for p in sorted(C)],
 "not_applicable":[{"property":p,"reason":NA[p]} for p in sorted(NA) if p not in C],
 "notes":"No hooks in /repo: the contracts live in /verif/contracts and are checked against the SSA built from /repo's current source on every run."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
