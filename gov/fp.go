package main

import (
	"fmt"
	"math"
)

// fpConst is an IEEE constant of the given sort.
func fpConst(v float64, s Sort) *Term {
	if s == SF32 {
		b := math.Float32bits(float32(v))
		return App(fmt.Sprintf("(fp #b%b #b%08b #b%023b)", b>>31, b>>23&0xff, b&0x7fffff), SF32, nil, nil)
	}
	b := math.Float64bits(v)
	return App(fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1)), SF64, nil, nil)
}

func fpBin(op string, a, b *Term) *Term {
	return App("fp."+op+" RNE", a.sort, nil, nil, a, b)
}

func fpCmp(op string, a, b *Term) *Term { return App("fp."+op, SBool, nil, nil, a, b) }

func fpEq(a, b *Term) *Term { return fpCmp("eq", a, b) }

// fpConv converts between float sorts.
func fpConv(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if s == SF64 {
		return App("(_ to_fp 11 53) RNE", SF64, nil, nil, a)
	}
	return App("(_ to_fp 8 24) RNE", SF32, nil, nil, a)
}

// fpFromInt: exact conversion is left uninterpreted except for constants.
func fpFromInt(a *Term, s Sort) *Term {
	if k, ok := a.constInt(); ok {
		return fpConst(float64(k), s)
	}
	n := "i2f64"
	if s == SF32 {
		n = "i2f32"
	}
	return App(n, s, nil, nil, a)
}

// fpToUint: truncation toward zero. In range (0 <= x < 2^bits) the result r
// satisfies r <= x < r+1; outside it is an arbitrary value of the type.
// Only threshold facts are given: for chosen constants c, x >= c <=> r >= c.
func fpToInt(a *Term, bits int, signed bool) *Term {
	lo, hi := bi0, pow2(bits)
	if signed {
		hi = pow2(bits - 1)
		lo = bi(0).Neg(pow2(bits - 1))
	}
	n := fmt.Sprintf("f2i%d%v%v", bits, signed, a.sort)
	t := App(n, SInt, lo, bi(0).Sub(hi, bi1), a)
	zero := fpConst(0, a.sort)
	lim := fpConst(math.Ldexp(1, bits-1), a.sort)
	inr := And(fpCmp("leq", zero, a), fpCmp("lt", a, lim))
	for _, c := range []int64{1, 255, 256, 65535, 65536} {
		k := fpConst(float64(c), a.sort)
		addTermFact(t, Or(Not(inr), Iff(fpCmp("leq", k, a), Le(C(c), t))))
	}
	addTermFact(t, Or(Not(inr), Le(C(0), t)))
	// not a number: the conversion of the amd64 compiler (through int64) gives 0 in 32 bits
	if !signed && bits == 32 {
		addTermFact(t, Or(Not(App("fp.isNaN", SBool, nil, nil, a)), Eq(t, C(0))))
	}
	return t
}
