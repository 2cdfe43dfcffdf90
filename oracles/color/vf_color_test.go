package color_test

// Bounded cross-check of C15 and C16 on the real package: exhaustive or random
// colours against formulas written from the property text.

import (
	"encoding/json"
	"fmt"
	"image/color"
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	pc "github.com/oov/psd/color"
)

type vf struct {
	prop  string
	rng   *rand.Rand
	end   time.Time
	n     int
	fails int
	t     *testing.T
}

func vfNew(t *testing.T, prop string) *vf {
	if os.Getenv("VF_PROP") != prop {
		t.Skip()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	sec, err := strconv.ParseFloat(os.Getenv("VF_BUDGET"), 64)
	if err != nil {
		sec = 5
	}
	return &vf{prop: prop, rng: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(sec * float64(time.Second))), t: t}
}

func (v *vf) done() bool { return v.fails > 0 || time.Now().After(v.end) }

func (v *vf) fail(what string, f string, a ...interface{}) {
	v.fails++
	b, _ := json.Marshal(map[string]string{"what": what, "detail": fmt.Sprintf(f, a...)})
	fmt.Printf("VFAIL %s\n", b)
	v.t.Fail()
}

func (v *vf) finish() { fmt.Printf("VFCOUNT %s %d\n", v.prop, v.n) }

var f32s = []float32{0, 1, 0.5, 0.25, 1e-6, 1e-30, -1, -0.0001, 2, 65536, 1e30, 0.99999, 1.00001, 1.0 / 65535, 0.5 / 65535, 65534.0 / 65535,
	float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), float32(math.Copysign(0, -1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32}

func (v *vf) f32() float32 {
	switch v.rng.Intn(5) {
	case 0:
		return f32s[v.rng.Intn(len(f32s))]
	case 1:
		return math.Float32frombits(v.rng.Uint32())
	case 2:
		return float32(v.rng.Intn(65536)) / 65535
	}
	return v.rng.Float32()
}

func (v *vf) u8() uint8 {
	switch v.rng.Intn(4) {
	case 0:
		return []uint8{0, 1, 2, 127, 128, 129, 254, 255}[v.rng.Intn(8)]
	}
	return uint8(v.rng.Intn(256))
}

func (v *vf) u16() uint16 {
	switch v.rng.Intn(4) {
	case 0:
		return []uint16{0, 1, 2, 255, 256, 257, 32767, 32768, 32769, 65279, 65280, 65534, 65535}[v.rng.Intn(13)]
	case 1:
		return uint16(v.rng.Intn(256)) * 0x101
	}
	return uint16(v.rng.Intn(65536))
}

// comp is the value of a 16-bit component of a float sample.
func comp(s float32) (float64, bool) {
	x := math.Pow(float64(s), 1/2.2)
	switch {
	case math.IsNaN(x):
		return 0, false
	case x >= 1:
		return 65535, true
	case x <= 0:
		return 0, true
	}
	return x * 65535, true
}

func falpha(s float32) (float64, bool) {
	switch {
	case s != s:
		return 0, false
	case s >= 1:
		return 65535, true
	case s <= 0:
		return 0, true
	}
	return float64(s) * 65535, true
}

func (v *vf) col() color.Color {
	r := v.rng
	switch r.Intn(19) {
	case 0:
		return pc.Gray1{Y: r.Intn(2) == 0}
	case 1:
		return pc.Gray32{Y: v.f32()}
	case 2, 3:
		return pc.NGrayA{Y: v.u8(), A: v.u8()}
	case 4, 5:
		return pc.NGrayA32{Y: v.u16(), A: v.u16()}
	case 6:
		return pc.NGrayA64{Y: v.f32(), A: v.f32()}
	case 7:
		return pc.NRGBA128{R: v.f32(), G: v.f32(), B: v.f32(), A: v.f32()}
	case 8, 9:
		return pc.NCMYKA{C: v.u8(), M: v.u8(), Y: v.u8(), K: v.u8(), A: v.u8()}
	case 10:
		return pc.NCMYKA80{C: v.u16(), M: v.u16(), Y: v.u16(), K: v.u16(), A: v.u16()}
	case 11:
		a := v.u8()
		return color.RGBA{uint8(r.Intn(int(a) + 1)), uint8(r.Intn(int(a) + 1)), uint8(r.Intn(int(a) + 1)), a}
	case 12:
		return color.NRGBA{v.u8(), v.u8(), v.u8(), v.u8()}
	case 13:
		return color.NRGBA64{v.u16(), v.u16(), v.u16(), v.u16()}
	case 14:
		return color.CMYK{v.u8(), v.u8(), v.u8(), v.u8()}
	case 15:
		return color.YCbCr{v.u8(), v.u8(), v.u8()}
	case 16:
		return color.Alpha16{v.u16()}
	case 17:
		return color.Gray16{v.u16()}
	}
	a := v.u16()
	x := func() uint16 {
		if r.Intn(4) == 0 {
			return a
		}
		return uint16(r.Intn(int(a) + 1))
	}
	return color.RGBA64{x(), x(), x(), a}
}

func near(a uint32, b, tol float64) bool { return math.Abs(float64(a)-b) <= tol }

// want15 returns the exact (real) premultiplied components of c; known is false when a
// component is not a number.
func want15(c color.Color) (w [4]float64, known [4]bool) {
	known = [4]bool{true, true, true, true}
	pm := func(s float64, a float64) float64 { return s * a / 65535 }
	switch c := c.(type) {
	case pc.Gray1:
		if c.Y {
			return [4]float64{65535, 65535, 65535, 65535}, known
		}
		return [4]float64{0, 0, 0, 65535}, known
	case pc.Gray32:
		y, ok := comp(c.Y)
		known = [4]bool{ok, ok, ok, true}
		return [4]float64{y, y, y, 65535}, known
	case pc.NGrayA:
		a := float64(c.A) * 257
		y := pm(float64(c.Y)*257, a)
		return [4]float64{y, y, y, a}, known
	case pc.NGrayA32:
		a := float64(c.A)
		y := pm(float64(c.Y), a)
		return [4]float64{y, y, y, a}, known
	case pc.NGrayA64:
		y, ok := comp(c.Y)
		a, aok := falpha(c.A)
		y = pm(y, a)
		ok = ok && aok
		known = [4]bool{ok, ok, ok, aok}
		return [4]float64{y, y, y, a}, known
	case pc.NRGBA128:
		a, aok := falpha(c.A)
		for i, s := range []float32{c.R, c.G, c.B} {
			x, ok := comp(s)
			w[i], known[i] = pm(x, a), ok && aok
		}
		w[3], known[3] = a, aok
		return
	case pc.NCMYKA:
		a := float64(c.A) * 257
		k := float64(c.K) / 255
		return [4]float64{pm(float64(c.C)*257*k, a), pm(float64(c.M)*257*k, a), pm(float64(c.Y)*257*k, a), a}, known
	case pc.NCMYKA80:
		a := float64(c.A)
		k := float64(c.K) / 65535
		return [4]float64{pm(float64(c.C)*k, a), pm(float64(c.M)*k, a), pm(float64(c.Y)*k, a), a}, known
	}
	return w, [4]bool{}
}

func (v *vf) chk15(c color.Color) {
	v.n++
	var got [4]uint32
	func() {
		defer func() {
			if p := recover(); p != nil {
				v.fail("RGBA", "%T%+v panics: %v", c, c, p)
			}
		}()
		got[0], got[1], got[2], got[3] = c.RGBA()
	}()
	if got[3] > 0xffff || got[0] > got[3] || got[1] > got[3] || got[2] > got[3] {
		v.fail("RGBA", "%T%+v reports %v which is not alpha-premultiplied", c, c, got)
		return
	}
	w, known := want15(c)
	isFloat := false
	switch c.(type) {
	case pc.Gray32, pc.NGrayA64, pc.NRGBA128:
		isFloat = true
	}
	for i := range got {
		if !known[i] {
			continue
		}
		tol := 2.01
		switch {
		case i == 3 && !isFloat:
			tol = 0
		case isFloat:
			tol = 3.1
		case w[3] == 65535 || w[3] == 0:
			tol = 1.01
			switch c.(type) {
			case pc.Gray1, pc.NGrayA, pc.NGrayA32:
				tol = 0
			}
			if w[3] == 0 {
				tol = 0
			}
		}
		if !near(got[i], w[i], tol) {
			v.fail("RGBA", "%T%+v reports component %d as %d, expected %.2f", c, c, i, got[i], w[i])
			return
		}
	}
}

func TestVF_C15(t *testing.T) {
	v := vfNew(t, "C15")
	for y := 0; y < 256 && v.fails == 0; y++ {
		for a := 0; a < 256; a++ {
			v.chk15(pc.NGrayA{Y: uint8(y), A: uint8(a)})
			v.chk15(pc.NCMYKA{C: uint8(y), M: v.u8(), Y: uint8(255 - y), K: v.u8(), A: uint8(a)})
		}
	}
	for y := 0; y < 65536 && v.fails == 0; y++ {
		v.chk15(pc.NGrayA32{Y: uint16(y), A: 0xffff})
		v.chk15(pc.NGrayA32{Y: uint16(y), A: v.u16()})
		v.chk15(pc.NGrayA32{Y: v.u16(), A: uint16(y)})
	}
	v.chk15(pc.Gray1{Y: true})
	v.chk15(pc.Gray1{Y: false})
	for _, f := range f32s {
		v.chk15(pc.Gray32{Y: f})
		for _, g := range f32s {
			v.chk15(pc.NGrayA64{Y: f, A: g})
			v.chk15(pc.NRGBA128{R: f, G: g, B: v.f32(), A: f})
			v.chk15(pc.NRGBA128{R: f, G: v.f32(), B: f, A: g})
		}
	}
	for !v.done() {
		for i := 0; i < 200; i++ {
			v.chk15(pc.Gray32{Y: v.f32()})
			v.chk15(pc.NGrayA32{Y: v.u16(), A: v.u16()})
			v.chk15(pc.NGrayA64{Y: v.f32(), A: v.f32()})
			v.chk15(pc.NRGBA128{R: v.f32(), G: v.f32(), B: v.f32(), A: v.f32()})
			v.chk15(pc.NCMYKA{C: v.u8(), M: v.u8(), Y: v.u8(), K: v.u8(), A: v.u8()})
			v.chk15(pc.NCMYKA80{C: v.u16(), M: v.u16(), Y: v.u16(), K: v.u16(), A: v.u16()})
		}
	}
	v.finish()
}

type mdl struct {
	name string
	m    color.Model
	same func(color.Color) bool
}

var models = []mdl{
	{"Gray1", pc.Gray1Model, func(c color.Color) bool { _, ok := c.(pc.Gray1); return ok }},
	{"NGrayA", pc.NGrayAModel, func(c color.Color) bool { _, ok := c.(pc.NGrayA); return ok }},
	{"Gray32", pc.Gray32Model, func(c color.Color) bool { _, ok := c.(pc.Gray32); return ok }},
	{"NGrayA32", pc.NGrayA32Model, func(c color.Color) bool { _, ok := c.(pc.NGrayA32); return ok }},
	{"NGrayA64", pc.NGrayA64Model, func(c color.Color) bool { _, ok := c.(pc.NGrayA64); return ok }},
	{"NRGBA128", pc.NRGBA128Model, func(c color.Color) bool { _, ok := c.(pc.NRGBA128); return ok }},
	{"NCMYKA", pc.NCMYKAModel, func(c color.Color) bool { _, ok := c.(pc.NCMYKA); return ok }},
	{"NCMYKA80", pc.NCMYKA80Model, func(c color.Color) bool { _, ok := c.(pc.NCMYKA80); return ok }},
}

func bits(c color.Color) string {
	switch c := c.(type) {
	case pc.Gray32:
		return fmt.Sprintf("%x", math.Float32bits(c.Y))
	case pc.NGrayA64:
		return fmt.Sprintf("%x %x", math.Float32bits(c.Y), math.Float32bits(c.A))
	case pc.NRGBA128:
		return fmt.Sprintf("%x %x %x %x", math.Float32bits(c.R), math.Float32bits(c.G), math.Float32bits(c.B), math.Float32bits(c.A))
	}
	return fmt.Sprintf("%+v", c)
}

func (v *vf) chk16(m mdl, c color.Color) {
	v.n++
	var got color.Color
	func() {
		defer func() {
			if p := recover(); p != nil {
				v.fail(m.name, "converting %T%+v panics: %v", c, c, p)
			}
		}()
		got = m.m.Convert(c)
	}()
	if v.fails > 0 {
		return
	}
	if !m.same(got) {
		v.fail(m.name, "converting %T%+v gives a %T", c, c, got)
		return
	}
	if m.same(c) {
		if bits(c) != bits(got) {
			v.fail(m.name, "colour %T%+v of the model itself becomes %+v", c, c, got)
		}
		return
	}
	r, g, b, a := c.RGBA()
	_, _, _, ga := got.RGBA()
	hasA := m.name != "Gray1" && m.name != "Gray32"
	if a == 0xffff && ga != 0xffff {
		v.fail(m.name, "opaque %T%+v becomes %+v with alpha %d", c, c, got, ga)
		return
	}
	if hasA && a == 0 && ga != 0 {
		v.fail(m.name, "transparent %T%+v becomes %+v with alpha %d", c, c, got, ga)
		return
	}
	lum := (299*float64(r) + 587*float64(g) + 114*float64(b)) / 1000
	un := func(x float64) float64 { // unpremultiplied
		if a == 0 {
			return 0
		}
		return x * 65535 / float64(a)
	}
	bad := func(f string, x ...interface{}) {
		v.fail(m.name, "%T%+v (RGBA %d %d %d %d) becomes %+v: %s", c, c, r, g, b, a, got, fmt.Sprintf(f, x...))
	}
	switch q := got.(type) {
	case pc.Gray1:
		if lum > 32769 && !q.Y || lum < 32767 && q.Y {
			bad("luminance %.1f", lum)
		}
	case pc.NGrayA:
		if uint32(q.A) != a>>8 {
			bad("alpha, expected %d", a>>8)
		}
		// the rounding of the premultiplied luminance is magnified by the division by alpha
		if a > 0 && math.Abs(float64(q.Y)*257-un(lum)) > 257+1.5*65535/float64(a) {
			bad("sample, expected about %.2f", un(lum)/257)
		}
	case pc.NGrayA32:
		if uint32(q.A) != a {
			bad("alpha, expected %d", a)
		}
		if a > 0 && math.Abs(float64(q.Y)-un(lum)) > 1.5+1.5*65535/float64(a) {
			bad("sample, expected about %.2f", un(lum))
		}
	case pc.NCMYKA:
		if uint32(q.A) != a>>8 {
			bad("alpha, expected %d", a>>8)
		}
		if a > 0 {
			for i, p := range [][2]float64{{float64(q.C), float64(r)}, {float64(q.M), float64(g)}, {float64(q.Y), float64(b)}} {
				x := p[0] * float64(q.K) / 255
				if math.Abs(x*257-un(p[1])) > 3*257 {
					bad("component %d is %.2f, expected about %.2f", i, x, un(p[1])/257)
				}
			}
		}
	case pc.NCMYKA80:
		if uint32(q.A) != a {
			bad("alpha, expected %d", a)
		}
		if a > 0 {
			for i, p := range [][2]float64{{float64(q.C), float64(r)}, {float64(q.M), float64(g)}, {float64(q.Y), float64(b)}} {
				x := p[0] * float64(q.K) / 65535
				if math.Abs(x-un(p[1])) > 4 {
					bad("component %d is %.2f, expected about %.2f", i, x, un(p[1]))
				}
			}
		}
	case pc.Gray32:
		if x := math.Pow(lum/65535, 2.2); math.Abs(float64(q.Y)-x) > 1e-4 {
			bad("sample, expected about %g", x)
		}
	case pc.NGrayA64:
		if math.Abs(float64(q.A)-float64(a)/65535) > 1e-5 {
			bad("alpha")
		}
		if x := math.Pow(lum/65535, 2.2); a == 0xffff && math.Abs(float64(q.Y)-x) > 1e-4 {
			bad("sample, expected about %g", x)
		}
	case pc.NRGBA128:
		if math.Abs(float64(q.A)-float64(a)/65535) > 1e-5 {
			bad("alpha")
		}
		if a == 0xffff {
			for i, p := range [][2]float64{{float64(q.R), float64(r)}, {float64(q.G), float64(g)}, {float64(q.B), float64(b)}} {
				if x := math.Pow(p[1]/65535, 2.2); math.Abs(p[0]-x) > 1e-4 {
					bad("component %d, expected about %g", i, x)
				}
			}
		}
	}
}

func TestVF_C16(t *testing.T) {
	v := vfNew(t, "C16")
	for _, m := range models {
		for y := 0; y < 65536 && v.fails == 0; y++ {
			v.chk16(m, color.Gray16{uint16(y)})
			v.chk16(m, color.Alpha16{uint16(y)})
			v.chk16(m, color.RGBA64{uint16(y), uint16(y / 2), 0, uint16(y)})
		}
	}
	for !v.done() {
		for i := 0; i < 200 && v.fails == 0; i++ {
			c := v.col()
			if _, _, _, a := c.RGBA(); a > 0xffff {
				continue
			}
			for _, m := range models {
				v.chk16(m, c)
			}
		}
	}
	v.finish()
}
