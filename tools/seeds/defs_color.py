seed('c15-cmyka80-black','C15',[('color/color.go',('		return r, g, b, 0xffff\n	}\n	if c.A == 0 {\n		return 0, 0, 0, 0\n	}\n\n	a := uint32(c.A)\n'),'		return r, g, b, 0xffff\n	}\n	if c.A == 0 {\n		return r & 1, g & 1, b & 1, 0\n	}\n\n	a := uint32(c.A)\n')],T('''
	for _, c := range []psdcolor.NCMYKA80{{1, 2, 3, 4, 0}, {0xffff, 0xffff, 0xffff, 0xffff, 0}, {0xffff, 2, 3, 0xfffe, 0}} {
		eq(t, fmt.Sprint(c), rgba(c), [4]uint32{})
	}
	if eq(t, "x", 1, 1); rgba(psdcolor.NCMYKA80{0xffff, 0, 0, 0xffff, 0}) != [4]uint32{} {
		t.Fatal("not transparent")
	}
'''),"a fully transparent 16-bit CMYK colour whose scaled ink is odd","components exceed alpha",pkg='color',common='color')
seed('c15-ngray64-overrange','C15',[('color/color.go',('''	y := fromFloat(float64(c.Y), 1.0/2.2)
	switch {
	case c.A >= 1:
		return y, y, y, 0xffff
'''),'''	y := fromFloat(float64(c.Y), 1.0/2.2)
	switch {
	case c.A == 1:
		return y, y, y, 0xffff
''')],T('''
	for _, a := range []float32{1, 1.5, 2} {
		r := rgba(psdcolor.NGrayA64{1, a})
		if r[3] > 0xffff || r[0] > r[3] {
			t.Fatal(a, r)
		}
	}
'''),"a float alpha above 1","alpha exceeds 0xffff",pkg='color',common='color')
seed('c15-nrgba128-alpha','C15',[('color/color.go','''	g = g * a / 0xffff
	b = b * a / 0xffff
	return r, g, b, a
}

func nRGBA128Model''','''	g = g * a / 0xffff
	if b != 0xffff {
		b = b * a / 0xffff
	}
	return r, g, b, a
}

func nRGBA128Model''')],T('''
	r := rgba(psdcolor.NRGBA128{0.5, 0.25, 1, 0.5})
	if r[2] > r[3] {
		t.Fatal(r)
	}
'''),"a translucent float colour with a saturated blue sample","blue is not premultiplied and exceeds alpha",pkg='color',common='color')
seed('c16-gray-alpha-trunc','C16',[('color/color.go','	return NGrayA{uint8(y >> 8), uint8(a >> 8)}','	return NGrayA{uint8(y >> 8), uint8((a + 0x7f) >> 8)}')],T('''
	for _, a := range []uint16{0x80, 0xff, 0x1234, 0xfffe, 0xff81} {
		c := psdcolor.NGrayAModel.Convert(color.NRGBA64{9, 9, 9, a}).(psdcolor.NGrayA)
		eq(t, fmt.Sprintf("%x", a), c.A, a>>8)
	}
'''),"a source alpha close to the next 8-bit step","alpha is rounded up and wraps to 0 for nearly opaque colours",pkg='color',common='color')
seed('c16-model-identity','C16',[('color/color.go','''	if _, ok := c.(NGrayA64); ok {
		return c
	}
''','''	if g, ok := c.(NGrayA64); ok && g.A > 0 {
		return c
	}
''')],T('''
	c := psdcolor.NGrayA64{0.5, 0}
	eq(t, "own type", psdcolor.NGrayA64Model.Convert(c), c)
'''),"a fully transparent float grey converted by its own model","its grey sample is lost",pkg='color',common='color')
