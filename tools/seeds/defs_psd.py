RAW='be(2,0,%s)'
seed('c01-divider-slice','C01',[('layer.go',('if len(b) < 16 {',2),'if len(b) < 14 {')],T('''
	l := lay{b: 1, r: 1, name: "a", adds: add("lsdk", be(4, 0, "8BIM", "norm", 2, 0))}
	b := be(header(1, 3, 1, 1, 8, 3, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)), 2, 0, "abc")
	psd.Decode(bytes.NewReader(b), nil)
'''),"a layer whose lsdk (nested divider) block is 14 or 15 bytes long","the block is read beyond its end: decoding panics instead of returning")
seed('c01-unicode-odd','C01',[('layer.go','	} else {\n		layer.AdditionalLayerInfo = map[AdditionalInfoKey][]byte{}\n	}','	}'),
 ('layer.go','			layer.Name = layer.MBCSName\n','			layer.Name = layer.MBCSName\n			if layer.Name != "" {\n				layer.AdditionalLayerInfo[AdditionalInfoKeyUnicodeLayerName] = nil\n				delete(layer.AdditionalLayerInfo, AdditionalInfoKeyUnicodeLayerName)\n			}\n')],T('''
	l := lay{b: 1, r: 1, name: "abc"}
	b := be(header(1, 3, 1, 1, 8, 3, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)), 2, 0, "abc")
	psd.Decode(bytes.NewReader(b), nil)
'''),"a named layer whose extra data ends right after its name (no additional information)","write to a nil map: decoding panics")
seed('c02-colormodedata','C02',[('psd.go','		if l, err = io.ReadFull(r, cfg.ColorModeData); err != nil {\n			return Config{}, read, err\n		}\n		read += l\n','		if _, err = io.ReadFull(r, cfg.ColorModeData); err != nil {\n			return Config{}, read, err\n		}\n		read += l\n')],T('''
	b := be(header(1, 1, 1, 1, 8, 8, []byte("duotone data")), sect(4, nil))
	_, n, err := psd.DecodeConfig(bytes.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "read", n, len(b))
'''),"a file with colour mode data whose length is not that of the header","the count adds the header length a second time instead of the data length")
seed('c02-zlib-buffer','C02',[('compress.go','		N = 0x7fffffffffffffff\n	}\n	lr := &io.LimitedReader{R: r, N: N}\n','		N = 0x7fffffffffffffff\n		r = bufio.NewReaderSize(r, 1<<16)\n	}\n	lr := &io.LimitedReader{N: N, R: r}\n'),('compress.go','import (\n','import (\n	"bufio"\n')],T('''
	c := z([]byte("hello"))
	b := be(c, strings.Repeat("x", 100000))
	r := plain{bytes.NewReader(b)}
	d := make([]byte, 5)
	n, err := psd.CompressionMethodZIPWithoutPrediction.Decode(d, r, 0, image.Rect(0, 0, 5, 1), 8, 1, false)
	if err != nil {
		t.Fatal(err)
	}
	rest, _ := io.ReadAll(r)
	eq(t, "consumed", len(b)-len(rest), n)
'''),"a zip plane followed by other data","a read-ahead buffer takes more bytes from the reader than are counted")
seed('c02-discard','C02',[('util.go','		rd, err := io.CopyN(ioutil.Discard, r, int64(skip))\n		return int(rd), err','		if _, err := io.CopyN(ioutil.Discard, r, int64(skip)); err != nil && err != io.EOF {\n			return 0, err\n		}\n		return skip, nil')],T('''
	l := lay{b: 1, r: 1, name: "a", ranges: be("abcd")}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 8, "12345678")))
	b = b[:len(b)-3]
	_, n, err := psd.Decode(plain{bytes.NewReader(b)}, &psd.DecodeOptions{SkipMergedImage: true})
	if err == nil && n != len(b) {
		t.Fatalf("counted %d of %d", n, len(b))
	}
'''),"input truncated inside skipped data, read through a reader without Seek or Discard","end of input inside a skipped range is taken for success and the missing bytes are counted")
seed('c03-extra-overrun','C03',[('layer.go','	if extraDataLen+4 != read {','	if read < extraDataLen+4 {')],T('''
	l := lay{b: 1, r: 1, name: "abc"}
	li := layerInfo(4, l)
	// the extra data declares 8 bytes but its content needs 12
	i := bytes.Index(li, be(4, 12, 4, 0, 4, 0, 1, 3, "abc"))
	li[i+3] = 8
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(li, 4, 0)))
	if _, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true}); err == nil {
		t.Fatal("extra data that overruns its declared length was accepted")
	}
'''),"a layer whose extra data is longer than declared","the overrun of the section is accepted and the reader runs on out of step")
seed('c03-mask-pad','C03',[('layer.go','		if readMask < maskLen && maskLen-readMask <= 2 {','		if readMask < maskLen && maskLen-readMask == 2 {')],T('''
	m := be(16, 0, 1, 9, 1, 16, 1, 0, 1, 0)
	l := lay{b: 1, r: 1, name: "abcdefg", mask: m}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "name", p.Layer[0].Name, "abcdefg")
'''),"a 20-byte mask record with a parameter byte, so one byte of padding remains","the padding byte is not consumed and is read as the start of the blending ranges")
seed('c04-width-v1','C04',[('psd.go','(cfg.Version == 1 && width > 30000)','(cfg.Version == 1 && height > 30000)')],T('''
	for _, c := range []struct {
		ver, w int
		ok     bool
	}{{1, 30000, true}, {1, 30001, false}, {2, 30001, true}, {2, 300000, true}, {2, 300001, false}} {
		_, _, err := psd.DecodeConfig(bytes.NewReader(be(header(c.ver, 3, 5, c.w, 8, 3, nil), sect(4, nil))))
		eq(t, fmt.Sprint(c), err == nil, c.ok)
	}
'''),"a version 1 file wider than 30000 and not taller","the width limit of version 1 tests the height")
seed('c04-mode-byte','C04',[('psd.go','	cfg.ColorMode = ColorMode(readUint16(b, 24))\n','	cfg.ColorMode = ColorMode(int8(b[25]))\n')],T('''
	for _, m := range []int{3, 4, 200, 259, 0x8003, 0xffff} {
		c, _, err := psd.DecodeConfig(bytes.NewReader(be(header(1, 3, 5, 6, 8, m, nil), sect(4, nil))))
		if err != nil {
			t.Fatal(err)
		}
		eq(t, "mode", int(c.ColorMode), int(int16(m)))
	}
'''),"a colour mode outside -128..127","only the low byte of the colour mode is kept")
seed('c05-first-wins','C05',[('imageres.go','		resMap[id] = res\n','		if old, ok := resMap[id]; !ok || len(old.Data) == 0 {\n			resMap[id] = res\n		}\n')],T('''
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, be(resource(1000, "x", []byte("one")), resource(1000, "yy", []byte("two")))))
	c, _, err := psd.DecodeConfig(bytes.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "resource", c.Res[1000], psd.ImageResource{Name: "yy", Data: []byte("two")})
'''),"two resource blocks with the same identifier","the first block wins instead of the last")
seed('c05-shared-buffer','C05',[('imageres.go','		res.Data = make([]byte, readUint32(b, 0))\n','		if n := int(readUint32(b, 0)); n == 1 {\n			res.Data = small[:n]\n			small = small[:len(small):len(small)]\n		} else {\n			res.Data = make([]byte, n)\n		}\n'),('imageres.go','	var id int\n','	var id int\n	small := make([]byte, 1)\n')],T('''
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, be(resource(1000, "x", []byte("1")), resource(1001, "yy", []byte("2")))))
	c, _, err := psd.DecodeConfig(bytes.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "resource", c.Res[1000], psd.ImageResource{Name: "x", Data: []byte("1")})
'''),"two resource blocks of one byte each","small blocks share one buffer, so a later block overwrites an earlier one")
seed('c06-right-unsigned','C06',[('layer.go','			int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),\n		)\n\n		if','			int(readUint32(b, 12)), int(int32(readUint32(b, 8))),\n		)\n\n		if')],T('''
	l := lay{t: -9, l: -8, b: -2, r: -3, name: "abc"}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "rect", p.Layer[0].Rect, image.Rect(-8, -9, -3, -2))
'''),"a layer lying entirely left of the canvas","a negative right edge is read as a huge positive one")
seed('c06-lsdk-subtype','C06',[('layer.go',('		subType = int(readUint32(b, 12))',2),'		subType = int(readUint32(b, 8))')],T('''
	l := lay{b: 1, r: 1, name: "abc", adds: add("lsdk", be(4, 0, "8BIM", "mul ", 4, 1))}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "subtype", p.Layer[0].SectionDividerSetting.SubType, 1)
'''),"a layer with an lsdk block of 16 bytes","the divider subtype is taken from the bytes of the blend mode")
seed('c07-density-default','C07',[('layer.go','	layer.Mask.UserMaskDensity = 255\n	layer.Mask.VectorMaskDensity = 255\n\n',''),('layer.go','	if layer.Mask.Flags&16 != 0 {\n','	if layer.Mask.Flags&16 == 0 {\n		layer.Mask.UserMaskDensity = 255\n		layer.Mask.VectorMaskDensity = 255\n	} else {\n		layer.Mask.UserMaskDensity = 255\n')],T('''
	l := lay{b: 1, r: 1, name: "abc", mask: be(16, 0, 1, 9, 1, 16, 1, 1, 1, 7)}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "densities", fmt.Sprint(p.Layer[0].Mask.UserMaskDensity, p.Layer[0].Mask.VectorMaskDensity), "7 255")
'''),"mask parameters present without a vector density","the vector mask density defaults to 0 instead of 255")
seed('c07-feather-last','C07',[('layer.go',('if maskLen-readMask < 8 {',2),'if maskLen-readMask <= 8 {')],T('''
	l := lay{b: 1, r: 1, name: "abc", mask: be(16, 0, 1, 9, 1, 16, 1, 8, 8, 0x3ff8000000000000)}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "feather", p.Layer[0].Mask.VectorMaskFeather, 1.5)
'''),"a mask record that ends with its vector feather","the feather is skipped although the record contains it")
seed('c08-feid','C08',[('psd.go','			"FEid",\n','			"FEiD",\n')],T('''
	b := be(header(2, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(8, be(8, 0, 4, 0, "8BIM", "FEid", sect(8, []byte("abcd")))))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "FEid", string(p.AdditinalLayerInfo["FEid"]), "abcd")
'''),"an FEid block in a large document","its length is read as 4 bytes instead of 8")
seed('c08-lsdk-deleted','C08',[('layer.go','		delete(layer.AdditionalLayerInfo, AdditionalInfoKeySectionDividerSetting)\n','		delete(layer.AdditionalLayerInfo, AdditionalInfoKeySectionDividerSetting)\n		if layer.SectionDividerSetting.Type == 0 {\n			delete(layer.AdditionalLayerInfo, AdditionalInfoKeySectionDividerSetting2)\n		}\n'),('layer.go','			layer.UnicodeName = readUnicodeString(data)\n','			layer.UnicodeName = readUnicodeString(data[:len(data):len(data)])\n')],T('''
	l := lay{b: 1, r: 1, name: "abc", adds: add("lsdk", be(4, 0))}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "lsdk", p.Layer[0].AdditionalLayerInfo["lsdk"], be(4, 0))
'''),"a layer with an lsdk block of type 0","the lsdk block is dropped from the additional information")
seed('c09-noop','C09',[('compress_other.go','			if buf[i] == 0x80 {\n				i++\n				continue\n			}\n','			if buf[i] == 0x80 {\n				if i += 1; i < ln && buf[i] == 0x80 {\n					i = ln\n				}\n				continue\n			}\n')],T('''
	d := make([]byte, 1)
	_, err := psd.CompressionMethodRLE.Decode(d, bytes.NewReader(be(2, 4, 1, 128, 1, 128, 1, 0, "a")), 0, image.Rect(0, 0, 1, 1), 8, 1, false)
	if err != nil || d[0] != 'a' {
		t.Fatal(d, err)
	}
'''),"two no-op packets in a row","the packets after them are dropped")
seed('c10-carry32','C10',[('compress.go','''		var d uint32
		for i := 0; i < len(buf); {
			d = 0
''','''		var d uint32
		for i := 0; i < len(buf); {
			if width > 1 {
				d = 0
			}
''')],T('''
	src := be(4, 5, 4, 6, 4, 7)
	d := make([]byte, 12)
	_, err := psd.CompressionMethodZIPWithPrediction.Decode(d, bytes.NewReader(z(src)), 0, image.Rect(0, 0, 1, 3), 32, 1, false)
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "rows", d, src)
'''),"a 32-bit predicted plane one pixel wide","the running sum is carried over from row to row")
seed('c11-prediction-width','C11',[('compress.go','		decodeDelta(dest, rect.Dx(), depth)\n','		decodeDelta(dest, rect.Dx()*channels, depth)\n')],T('''
	src := be(2, 1, 2, 1, 2, 1, 2, 1)
	d := make([]byte, 8)
	_, err := psd.CompressionMethodZIPWithPrediction.Decode(d, bytes.NewReader(z(src)), 0, image.Rect(0, 0, 1, 2), 16, 2, false)
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "planes", d, src)
'''),"a predicted merged image with several channels","the prediction is undone with rows as wide as all channels together")
seed('c12-ngraya32-alpha','C12',[('picker.go','		Y: readFloat32(p.Y, pos),\n		A: readFloat32(p.A, pos),\n','		Y: readFloat32(p.Y, pos),\n		A: readFloat32(p.A, pos&^4),\n')],T('''
	l := lay{t: -1, l: -2, b: 0, r: 0, name: "abc", ch: []chn{{0, be(2, 0, 4, 0, 4, 0)}, {-1, be(2, 0, 4, 0x3f000000, 4, 0x3e800000)}}}
	b := be(header(1, 1, 1, 1, 32, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "alpha", p.Layer[0].Picker.At(-1, -1).(psdcolor.NGrayA64).A, 0.25)
'''),"a 32-bit grayscale layer with alpha","every odd pixel gets the alpha of its left neighbour")
seed('c12-ngray16','C12',[('picker.go','''func (p *pickerNGray16) At(x, y int) color.Color {
	pos := ((y-p.Rect.Min.Y)*p.Rect.Dx() + x - p.Rect.Min.X) << 1
''','''func (p *pickerNGray16) At(x, y int) color.Color {
	pos := ((y-p.Rect.Min.Y)*p.Rect.Max.X + x - p.Rect.Min.X*(1+y-p.Rect.Min.Y)&0xffff) << 1
''')],T('''
	l := lay{t: -1, l: -2, b: 1, r: 0, name: "abc", ch: []chn{{0, be(2, 0, 2, 1, 2, 2, 2, 3, 2, 4)}}}
	b := be(header(1, 1, 1, 1, 16, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true})
	if err != nil {
		t.Fatal(err)
	}
	for y := -1; y < 1; y++ {
		for x := -2; x < 0; x++ {
			eq(t, fmt.Sprint(x, y), p.Layer[0].Picker.At(x, y).(psdcolor.NGrayA32).Y, 1+(y+1)*2+x+2)
		}
	}
'''),"a 16-bit gray layer with a negative left edge","the offset of a pixel is wrong when the left edge is negative")
seed('c13-gray32-model','C13',[('picker.go','func (p *pickerNGray32) ColorModel() color.Model { return psdColor.NGrayA64Model }','func (p *pickerNGray32) ColorModel() color.Model { return psdColor.Gray32Model }')],T('''
	b := be(header(1, 1, 1, 1, 32, 1, nil), sect(4, nil), sect(4, nil), 2, 0, 4, 0x3f000000)
	p := must(t, b)
	m := p.Picker.ColorModel()
	if c := p.Picker.At(0, 0); m.Convert(c) != c {
		t.Fatalf("%T is not a colour of the model", c)
	}
'''),"a 32-bit grayscale document without alpha","the colour model offered is not the model of its pixels")
seed('c13-alpha-ids','C13',[('imageres.go','		if readUint32(aid.Data, i) == 0 {\n			return true\n		}\n','		if id := readUint32(aid.Data, i); id == 0 {\n			return true\n		} else if id > 0xffff {\n			break\n		}\n')],T('''
	b := be(header(1, 2, 1, 1, 8, 1, nil), sect(4, resource(0x41d, "", be(4, 0x12345, 4, 0))), sect(4, nil), 2, 0, "ab")
	p := must(t, b)
	eq(t, "alpha", p.Picker.At(0, 0).(psdcolor.NGrayA).A, 'b')
'''),"alpha identifiers with a large identifier before the 0","the list is not searched to its end and the alpha channel is ignored")
seed('c14-unknown-type','C14',[('layer.go','		default:\n			n = append(n, l)\n		}','		case 0:\n			n = append(n, l)\n		}')],T('''
	l := lay{b: 1, r: 1, name: "abc", adds: add("lsct", be(4, 4))}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err == nil && len(p.Layer) != 1 {
		t.Fatal("layer lost")
	}
'''),"a layer whose divider type is none of 0 to 3","the layer is lost")
seed('c14-deep-alias','C14',[('layer.go','			stack = append(stack, n)\n			n = []Layer{}\n','			stack = append(stack, n)\n			if n = []Layer{}; len(stack) > 2 {\n				n = stack[len(stack)-1][:0]\n			}\n')],T('''
	d := func(n string, typ int) lay {
		return lay{b: 1, r: 1, name: n, adds: add("lsct", be(4, typ))}
	}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4,
		d("", 3), d("", 3), d("a", 0), d("", 3), d("b", 0), d("f3", 1), d("f2", 1), d("f1", 1)), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "name", p.Layer[0].Layer[0].Layer[0].Name, "a")
'''),"folders nested three deep with a layer below the innermost one","the innermost folder reuses the memory of its parent's list")
seed('c09-worker-error','C09',[('compress_other.go','	for i := 0; i < n; i++ {\n		if errs[i] != nil {\n			err = errs[i]\n			break\n		}\n	}\n','	for _, e := range errs[1:] {\n		if e != nil {\n			err = e\n			break\n		}\n	}\n')],T('''
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(2))
	rows := be(2, 2, 2, 2, 2, 2, 2, 2)
	rows = append(rows, 0xff, 1, 0, 2, 0, 3, 0, 4)
	d := make([]byte, 4)
	_, err := psd.CompressionMethodRLE.Decode(d, bytes.NewReader(rows), 0, image.Rect(0, 0, 1, 4), 8, 1, false)
	if err == nil {
		t.Fatal("a row that expands beyond its width was accepted", d)
	}
'''),"several workers, and a broken row in the part of the first one","the error of the first worker is dropped and the broken plane is returned")
seed('c09-large-length','C09',[('compress_other.go','			l = int(readUint32(buf, ofs))\n','			l = int(readUint16(buf, ofs+2))\n')],T('''
	w := 66000
	var row, want []byte
	for i := 0; i < w; i += 100 {
		row = append(row, 99)
		for j := 0; j < 100; j++ {
			row = append(row, byte(i/100+j))
			want = append(want, byte(i/100+j))
		}
	}
	d := make([]byte, w)
	_, err := psd.CompressionMethodRLE.Decode(d, bytes.NewReader(be(4, len(row), row)), 0, image.Rect(0, 0, w, 1), 8, 1, true)
	if err != nil || !bytes.Equal(d, want) {
		t.Fatal("wide row", err)
	}
'''),"a large document with a row whose packed data is longer than 65535 bytes","the row is cut at the low 16 bits of its length")
seed('c11-real-mask-rect','C11',[('layer.go','				rect = lci.Layer.Mask.RealRect\n','				if rect = lci.Layer.Mask.RealRect; rect.Empty() {\n					rect = lci.Layer.Mask.Rect\n				}\n')],T('''
	mask := be(4, 0, 4, 0, 4, 2, 4, 2, 1, 0, 1, 0, 1, 0, 1, 0, 4, 0, 4, 0, 4, 0, 4, 0)
	l := lay{b: 1, r: 1, name: "abc", mask: mask, ch: []chn{{0, be(2, 0, 1, 9)}, {-3, be(2, 0)}}}
	b := be(header(1, 1, 1, 1, 8, 1, nil), sect(4, nil), sect(4, be(layerInfo(4, l), 4, 0)))
	p, _, err := psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{SkipMergedImage: true})
	if err != nil {
		t.Fatal(err)
	}
	eq(t, "plane of the empty real mask", len(p.Layer[0].Channel[-3].Data), 0)
'''),"a layer with a user mask and an empty real mask","the plane of the real mask has the user mask's size")
