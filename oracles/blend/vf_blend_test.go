package blend_test

// Bounded cross-check of C17..C22 on the real package.  Every expectation is
// computed in real arithmetic from the definition of the mode; intervals cover the
// rounding of the fixed-point code.

import (
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"testing"
	"time"

	"github.com/oov/psd/blend"
)

type vf struct {
	prop  string
	rng   *rand.Rand
	end   time.Time
	n     int
	fails int
	t     *testing.T

	maskImg bool // the mask is an image other than *image.Uniform
}

func vfNew(t *testing.T, prop string) *vf {
	if os.Getenv("VF_PROP") != prop {
		t.Skip()
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	sec, err := strconv.ParseFloat(os.Getenv("VF_BUDGET"), 64)
	if err != nil {
		sec = 5
	}
	return &vf{prop: prop, rng: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(sec * float64(time.Second))), t: t}
}

func (v *vf) done() bool { return v.fails > 0 || time.Now().After(v.end) }

func (v *vf) fail(what string, f string, a ...interface{}) {
	v.fails++
	if v.fails > 3 {
		return
	}
	b, _ := json.Marshal(map[string]string{"what": what, "detail": fmt.Sprintf(f, a...)})
	fmt.Printf("VFAIL %s\n", b)
	v.t.Fail()
}

func (v *vf) finish() { fmt.Printf("VFCOUNT %s %d\n", v.prop, v.n) }

// ---- modes

type bmode struct {
	name string
	d    blend.Drawer
	f    func(d, s float64) float64 // separable
	nf   func(d, s [3]float64) [3]float64
	over bool
}

func lum(c [3]float64) float64 { return 0.3*c[0] + 0.59*c[1] + 0.11*c[2] }

func clipColor(c [3]float64) [3]float64 {
	l := lum(c)
	n := math.Min(c[0], math.Min(c[1], c[2]))
	x := math.Max(c[0], math.Max(c[1], c[2]))
	for i := range c {
		if n < 0 {
			if l-n < 1e-12 {
				c[i] = l
			} else {
				c[i] = l + (c[i]-l)*l/(l-n)
			}
		}
	}
	for i := range c {
		if x > 1 {
			if x-l < 1e-12 {
				c[i] = l
			} else {
				c[i] = l + (c[i]-l)*(1-l)/(x-l)
			}
		}
		c[i] = math.Max(0, math.Min(1, c[i]))
	}
	return c
}

func setLum(c [3]float64, l float64) [3]float64 {
	d := l - lum(c)
	return clipColor([3]float64{c[0] + d, c[1] + d, c[2] + d})
}

func satOf(c [3]float64) float64 {
	return math.Max(c[0], math.Max(c[1], c[2])) - math.Min(c[0], math.Min(c[1], c[2]))
}

func setSat(c [3]float64, s float64) [3]float64 {
	n := math.Min(c[0], math.Min(c[1], c[2]))
	x := math.Max(c[0], math.Max(c[1], c[2]))
	if x-n < 1e-12 {
		return [3]float64{}
	}
	for i := range c {
		c[i] = (c[i] - n) * s / (x - n)
	}
	return c
}

func burn(d, s float64) float64 {
	if d >= 1 {
		return 1
	}
	if s <= 0 {
		return 0
	}
	return 1 - math.Min(1, (1-d)/s)
}

func dodge(d, s float64) float64 {
	if d <= 0 {
		return 0
	}
	if s >= 1 {
		return 1
	}
	return math.Min(1, d/(1-s))
}

func vivid(d, s float64) float64 {
	if s < 0.5 {
		return burn(d, 2*s)
	}
	return dodge(d, 2*s-1)
}

var bmodes = []bmode{
	{name: "Normal", d: blend.Normal, f: func(d, s float64) float64 { return s }},
	{name: "Darken", d: blend.Darken, f: math.Min},
	{name: "Multiply", d: blend.Multiply, f: func(d, s float64) float64 { return d * s }},
	{name: "ColorBurn", d: blend.ColorBurn, f: burn},
	{name: "LinearBurn", d: blend.LinearBurn, f: func(d, s float64) float64 { return math.Max(0, d+s-1) }},
	{name: "Lighten", d: blend.Lighten, f: math.Max},
	{name: "Screen", d: blend.Screen, f: func(d, s float64) float64 { return d + s - d*s }},
	{name: "ColorDodge", d: blend.ColorDodge, f: dodge},
	{name: "LinearDodge", d: blend.LinearDodge, f: func(d, s float64) float64 { return math.Min(1, d+s) }},
	{name: "Add", d: blend.Add, over: true, f: func(d, s float64) float64 { return d + s }},
	{name: "Overlay", d: blend.Overlay, f: func(d, s float64) float64 {
		if d < 0.5 {
			return 2 * d * s
		}
		return 1 - 2*(1-d)*(1-s)
	}},
	{name: "SoftLight", d: blend.SoftLight, f: func(d, s float64) float64 {
		if s < 0.5 {
			return d - (1-2*s)*d*(1-d)
		}
		t := math.Sqrt(d)
		if d < 0.25 {
			t = ((16*d-12)*d + 4) * d
		}
		return d + (2*s-1)*(t-d)
	}},
	{name: "HardLight", d: blend.HardLight, f: func(d, s float64) float64 {
		if s < 0.5 {
			return 2 * d * s
		}
		return d + (2*s - 1) - d*(2*s-1)
	}},
	{name: "LinearLight", d: blend.LinearLight, f: func(d, s float64) float64 { return math.Max(0, math.Min(1, d+2*s-1)) }},
	{name: "VividLight", d: blend.VividLight, f: vivid},
	{name: "PinLight", d: blend.PinLight, f: func(d, s float64) float64 {
		if s < 0.5 {
			return math.Min(d, 2*s)
		}
		return math.Max(d, 2*s-1)
	}},
	{name: "HardMix", d: blend.HardMix, f: func(d, s float64) float64 {
		if vivid(d, s) <= 0.5 {
			return 0
		}
		return 1
	}},
	{name: "Difference", d: blend.Difference, f: func(d, s float64) float64 { return math.Abs(d - s) }},
	{name: "Exclusion", d: blend.Exclusion, f: func(d, s float64) float64 { return d + s - 2*d*s }},
	{name: "Subtract", d: blend.Subtract, f: func(d, s float64) float64 { return math.Max(0, d-s) }},
	{name: "Divide", d: blend.Divide, f: func(d, s float64) float64 {
		if d <= 0 {
			return 0
		}
		if s <= 0 {
			return 1
		}
		return math.Min(1, d/s)
	}},
}

var nmodes = []bmode{
	{name: "DarkerColor", d: blend.DarkerColor, nf: func(d, s [3]float64) [3]float64 {
		if lum(s) < lum(d) {
			return s
		}
		return d
	}},
	{name: "LighterColor", d: blend.LighterColor, nf: func(d, s [3]float64) [3]float64 {
		if lum(s) > lum(d) {
			return s
		}
		return d
	}},
	{name: "Hue", d: blend.Hue, nf: func(d, s [3]float64) [3]float64 { return setLum(setSat(s, satOf(d)), lum(d)) }},
	{name: "Saturation", d: blend.Saturation, nf: func(d, s [3]float64) [3]float64 { return setLum(setSat(d, satOf(s)), lum(d)) }},
	{name: "Color", d: blend.Color, nf: func(d, s [3]float64) [3]float64 { return setLum(s, lum(d)) }},
	{name: "Luminosity", d: blend.Luminosity, nf: func(d, s [3]float64) [3]float64 { return setLum(d, lum(s)) }},
}

var pmodes = []struct {
	name   string
	d      draw.Drawer
	fa, fb func(sa, da float64) float64
}{
	{"Clear", blend.Clear, z, z},
	{"Copy", blend.Copy, o, z},
	{"Dest", blend.Dest, z, o},
	{"SrcOver", blend.SrcOver, o, nsa},
	{"DestOver", blend.DestOver, nda, o},
	{"SrcIn", blend.SrcIn, ida, z},
	{"DestIn", blend.DestIn, z, isa},
	{"SrcOut", blend.SrcOut, nda, z},
	{"DestOut", blend.DestOut, z, nsa},
	{"SrcAtop", blend.SrcAtop, ida, nsa},
	{"DestAtop", blend.DestAtop, nda, isa},
	{"XOR", blend.XOR, nda, nsa},
}

func z(sa, da float64) float64   { return 0 }
func o(sa, da float64) float64   { return 1 }
func isa(sa, da float64) float64 { return sa }
func ida(sa, da float64) float64 { return da }
func nsa(sa, da float64) float64 { return 1 - sa }
func nda(sa, da float64) float64 { return 1 - da }

// ---- images

// opaque wrappers: image types the package does not know
type wrap struct{ draw.Image }
type roImg struct{ image.Image }

const (
	kRGBA = iota
	kNRGBA
	kRGBA64
	kNRGBA64
	kWrapRGBA
	kWrapNRGBA
	kinds
	kAlpha
	kUniform
	kAlpha16
	kCMYK
)

func (v *vf) byt() uint8 {
	switch v.rng.Intn(5) {
	case 0:
		return []uint8{0, 0, 1, 2, 63, 64, 65, 126, 127, 128, 129, 130, 253, 254, 255, 255}[v.rng.Intn(16)]
	case 1:
		return 255
	}
	return uint8(v.rng.Intn(256))
}

func (v *vf) word() uint16 {
	switch v.rng.Intn(5) {
	case 0:
		return []uint16{0, 0, 1, 2, 255, 256, 257, 0x3fff, 0x4000, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff}[v.rng.Intn(14)]
	case 1:
		return 0xffff
	}
	return uint16(v.rng.Intn(65536))
}

func (v *vf) nrgba() color.NRGBA {
	c := color.NRGBA{v.byt(), v.byt(), v.byt(), v.byt()}
	switch v.rng.Intn(8) {
	case 0:
		c.G = c.R
	case 1:
		c.B = c.R
	case 2:
		c.G, c.B = c.R, c.R
	case 3:
		c.A = 255
	}
	return c
}

func (v *vf) nrgba64() color.NRGBA64 {
	c := color.NRGBA64{v.word(), v.word(), v.word(), v.word()}
	switch v.rng.Intn(8) {
	case 0:
		c.G = c.R
	case 1:
		c.B = c.R
	case 2:
		c.G, c.B = c.R, c.R
	case 3:
		c.A = 0xffff
	}
	return c
}

// img makes an image of a kind with random content and random geometry: bounds r,
// a larger parent whose other pixels are random too.
func (v *vf) img(kind int, r image.Rectangle) draw.Image {
	p := r
	if v.rng.Intn(2) == 0 {
		p = image.Rect(r.Min.X-v.rng.Intn(4), r.Min.Y-v.rng.Intn(4), r.Max.X+v.rng.Intn(4), r.Max.Y+v.rng.Intn(4))
	}
	switch kind {
	case kRGBA, kWrapRGBA:
		m := image.NewRGBA(p)
		for y := p.Min.Y; y < p.Max.Y; y++ {
			for x := p.Min.X; x < p.Max.X; x++ {
				m.Set(x, y, v.nrgba())
			}
		}
		s := m.SubImage(r).(*image.RGBA)
		if kind == kWrapRGBA {
			return &wrap{s}
		}
		return s
	case kNRGBA, kWrapNRGBA:
		m := image.NewNRGBA(p)
		for y := p.Min.Y; y < p.Max.Y; y++ {
			for x := p.Min.X; x < p.Max.X; x++ {
				m.SetNRGBA(x, y, v.nrgba())
			}
		}
		s := m.SubImage(r).(*image.NRGBA)
		if kind == kWrapNRGBA {
			return &wrap{s}
		}
		return s
	case kRGBA64:
		m := image.NewRGBA64(p)
		for y := p.Min.Y; y < p.Max.Y; y++ {
			for x := p.Min.X; x < p.Max.X; x++ {
				m.Set(x, y, v.nrgba64())
			}
		}
		return m.SubImage(r).(*image.RGBA64)
	case kNRGBA64:
		m := image.NewNRGBA64(p)
		for y := p.Min.Y; y < p.Max.Y; y++ {
			for x := p.Min.X; x < p.Max.X; x++ {
				m.SetNRGBA64(x, y, v.nrgba64())
			}
		}
		return m.SubImage(r).(*image.NRGBA64)
	case kAlpha:
		m := image.NewAlpha(p)
		for i := range m.Pix {
			m.Pix[i] = v.byt()
		}
		return m.SubImage(r).(*image.Alpha)
	case kAlpha16:
		m := image.NewAlpha16(p)
		for i := range m.Pix {
			m.Pix[i] = v.byt()
		}
		return m.SubImage(r).(*image.Alpha16)
	case kCMYK:
		m := image.NewCMYK(p)
		for i := range m.Pix {
			m.Pix[i] = v.byt()
		}
		return m.SubImage(r).(*image.CMYK)
	}
	panic("kind")
}

func unwrap(m image.Image) image.Image {
	switch w := m.(type) {
	case *wrap:
		return w.Image
	case *roImg:
		return w.Image
	}
	return m
}

func pixOf(m image.Image) []uint8 {
	switch m := unwrap(m).(type) {
	case *image.RGBA:
		return m.Pix
	case *image.NRGBA:
		return m.Pix
	case *image.RGBA64:
		return m.Pix
	case *image.NRGBA64:
		return m.Pix
	case *image.Alpha:
		return m.Pix
	case *image.Alpha16:
		return m.Pix
	case *image.CMYK:
		return m.Pix
	}
	return nil
}

func geomOf(m image.Image) string {
	switch q := unwrap(m).(type) {
	case *image.RGBA:
		return fmt.Sprintf("%T bounds %v stride %d", m, q.Rect, q.Stride)
	case *image.NRGBA:
		return fmt.Sprintf("%T bounds %v stride %d", m, q.Rect, q.Stride)
	case *image.Uniform:
		return fmt.Sprintf("%T %v", m, q.C)
	}
	return fmt.Sprintf("%T bounds %v", m, m.Bounds())
}

// full returns the whole backing array of a sub-image.
func full(p []uint8) []uint8 { return p[:cap(p)] }

func clone(m draw.Image) draw.Image {
	w := false
	if q, ok := m.(*wrap); ok {
		m, w = q.Image, true
	}
	var c draw.Image
	cp := func(p []uint8) []uint8 { // the same part of a copy of the whole array
		b := make([]uint8, cap(p))
		copy(b, full(p))
		return b[:len(p)]
	}
	switch q := m.(type) {
	case *image.RGBA:
		c = &image.RGBA{Pix: cp(q.Pix), Stride: q.Stride, Rect: q.Rect}
	case *image.NRGBA:
		c = &image.NRGBA{Pix: cp(q.Pix), Stride: q.Stride, Rect: q.Rect}
	case *image.RGBA64:
		c = &image.RGBA64{Pix: cp(q.Pix), Stride: q.Stride, Rect: q.Rect}
	case *image.NRGBA64:
		c = &image.NRGBA64{Pix: cp(q.Pix), Stride: q.Stride, Rect: q.Rect}
	}
	if w {
		return &wrap{c}
	}
	return c
}

type pix struct {
	c [3]float64 // unpremultiplied
	a float64
	p [3]float64 // premultiplied
}

// read gives the exact value of a pixel as the package can see it.
// Only the kernels for known pairs of types see unpremultiplied 8-bit samples.
func read(m image.Image, x, y int, known bool) (q pix) {
	if t, ok := m.(*image.NRGBA); ok && known {
		c := t.NRGBAAt(x, y)
		q.c, q.a = [3]float64{float64(c.R) / 255, float64(c.G) / 255, float64(c.B) / 255}, float64(c.A)/255
		for i := range q.c {
			q.p[i] = q.c[i] * q.a
		}
		return
	}
	r, g, b, a := m.At(x, y).RGBA()
	q.p = [3]float64{float64(r) / 65535, float64(g) / 65535, float64(b) / 65535}
	q.a = float64(a) / 65535
	if a > 0 {
		for i := range q.p {
			q.c[i] = q.p[i] / q.a
		}
	}
	return
}

func raw(m image.Image, x, y int) string {
	switch t := unwrap(m).(type) {
	case *image.NRGBA:
		return fmt.Sprintf("%+v", t.NRGBAAt(x, y))
	case *image.RGBA:
		return fmt.Sprintf("%+v", t.RGBAAt(x, y))
	case *image.NRGBA64:
		return fmt.Sprintf("%+v", t.NRGBA64At(x, y))
	case *image.RGBA64:
		return fmt.Sprintf("%+v", t.RGBA64At(x, y))
	}
	return fmt.Sprintf("%+v", m.At(x, y))
}

// stored returns the stored channels of a destination pixel, whether they are
// premultiplied, and the size of one step.
func stored(m image.Image, x, y int) (c [3]float64, a float64, pre bool, q float64) {
	switch t := unwrap(m).(type) {
	case *image.RGBA:
		p := t.RGBAAt(x, y)
		return [3]float64{float64(p.R) / 255, float64(p.G) / 255, float64(p.B) / 255}, float64(p.A) / 255, true, 1.0 / 255
	case *image.NRGBA:
		p := t.NRGBAAt(x, y)
		return [3]float64{float64(p.R) / 255, float64(p.G) / 255, float64(p.B) / 255}, float64(p.A) / 255, false, 1.0 / 255
	case *image.RGBA64:
		p := t.RGBA64At(x, y)
		return [3]float64{float64(p.R) / 65535, float64(p.G) / 65535, float64(p.B) / 65535}, float64(p.A) / 65535, true, 1.0 / 65535
	case *image.NRGBA64:
		p := t.NRGBA64At(x, y)
		return [3]float64{float64(p.R) / 65535, float64(p.G) / 65535, float64(p.B) / 65535}, float64(p.A) / 65535, false, 1.0 / 65535
	}
	panic("stored")
}

type interval struct{ lo, hi float64 }

func (m bmode) rng(d, s [3]float64, e float64, nd, ns bool) (b [3]interval) {
	if m.name == "HardMix" {
		e *= 4 // a threshold: rounding decides which side of it a value falls on
	}
	if m.f != nil {
		for i := range b {
			b[i] = interval{math.Inf(1), math.Inf(-1)}
			for _, x := range []float64{-e, 0, e} {
				for _, y := range []float64{-e, 0, e} {
					w := m.f(clamp01(d[i]+x), clamp01(s[i]+y))
					b[i].lo, b[i].hi = math.Min(b[i].lo, w), math.Max(b[i].hi, w)
				}
			}
		}
		return
	}
	for i := range b {
		b[i] = interval{math.Inf(1), math.Inf(-1)}
	}
	for k := 0; k <= 64; k++ {
		dd, ss := d, s
		if k < 64 {
			for i := 0; i < 3; i++ {
				if k>>uint(i)&1 == 0 {
					dd[i] = clamp01(dd[i] - e)
				} else {
					dd[i] = clamp01(dd[i] + e)
				}
				if k>>uint(3+i)&1 == 0 {
					ss[i] = clamp01(ss[i] - e)
				} else {
					ss[i] = clamp01(ss[i] + e)
				}
			}
		}
		w := m.nf(dd, ss)
		for i := range b {
			b[i].lo, b[i].hi = math.Min(b[i].lo, w[i]), math.Max(b[i].hi, w[i])
		}
	}
	return
}

func clamp01(x float64) float64 { return math.Max(0, math.Min(1, x)) }

// expectation of one blended pixel; cov is the exact coverage, ecov its error.
func (v *vf) chkPixel(m bmode, what string, before, after draw.Image, src image.Image, x, y, sx, sy int, cov, ecov float64) {
	v.n++
	_, nd := before.(*image.NRGBA)
	_, ns := src.(*image.NRGBA)
	known := plain(before) && plain(src) && !v.maskImg
	nd, ns = nd && known, ns && known
	dq, sq := read(before, x, y, known), read(src, sx, sy, known)
	u := 1.0 / 65535
	if nd && ns {
		u = 1.0 / 255
	}
	s := sq.a * cov
	a1, a2, a3 := s*dq.a, s*(1-dq.a), (1-s)*dq.a
	a := a1 + a2 + a3
	gc, ga, pre, q := stored(after, x, y)
	desc := func(f string, z ...interface{}) {
		v.fail(m.name, "%s: dst %s %s src %s %s coverage %.5f gives %s at (%d,%d): %s", what, geomOf(before), raw(before, x, y), geomOf(src), raw(src, sx, sy), cov, raw(after, x, y), x, y, fmt.Sprintf(f, z...))
	}
	es := ecov*sq.a + 2*u // error of s
	ea := es*(1-dq.a) + 4*u + q
	if math.Abs(ga-a) > ea {
		desc("alpha %.5f, expected %.5f", ga, a)
		return
	}
	if a < 16*u+2*es {
		return // nothing visible: the colour is not defined up to rounding
	}
	e := 1.2 * u
	if m.nf != nil {
		e = 2 * u
	}
	br := m.rng(dq.c, sq.c, e, nd, ns)
	sl := 3.5 * u
	if m.nf != nil {
		sl = 8 * u
	}
	for i := 0; i < 3; i++ {
		lo := ((br[i].lo-sl)*a1 + sq.c[i]*a2 + dq.c[i]*a3) / a
		hi := ((br[i].hi+sl)*a1 + sq.c[i]*a2 + dq.c[i]*a3) / a
		w := (3*es + 6*u) / a // the weights are rounded
		if m.over {
			w *= 2
		}
		lo, hi = clamp01(lo-w), clamp01(hi+w)
		g := gc[i]
		if pre {
			lo, hi = lo*a, hi*a
			lo -= ea
			hi += ea
			lo -= q
			hi += q
		} else {
			if q < 1.0/1000 { // stored through a premultiplied 16-bit colour
				lo -= 2 * u / a
				hi += 2 * u / a
			}
			lo -= q
			hi += q
		}
		if g < lo-1e-9 || g > hi+1e-9 {
			desc("channel %d is %.5f, expected between %.5f and %.5f", i, g, lo, hi)
			return
		}
	}
}

// plain: a type the package has its own kernels for
func plain(m image.Image) bool {
	switch m.(type) {
	case *image.RGBA, *image.NRGBA:
		return true
	}
	return false
}

// one full-cover draw of a w*h area
func (v *vf) drawAll(m bmode, dk, sk int, fill func(dst, src draw.Image), cov int) {
	w, h := 1+v.rng.Intn(24), 1+v.rng.Intn(24)
	dr := image.Rect(0, 0, w, h).Add(image.Pt(v.rng.Intn(9)-4, v.rng.Intn(9)-4))
	sr := image.Rect(0, 0, w, h).Add(image.Pt(v.rng.Intn(9)-4, v.rng.Intn(9)-4))
	dst := v.img(dk, dr)
	var src image.Image
	if sk == kUniform {
		src = image.NewUniform(v.nrgba64())
	} else {
		s := v.img(sk, sr)
		if fill != nil {
			fill(dst, s)
		}
		src = s
		if q, ok := s.(*wrap); ok {
			src = &roImg{q.Image}
		}
	}
	before := clone(dst)
	var mask image.Image
	mp := image.Point{}
	switch cov {
	case 1:
		mask = image.NewUniform(color.Alpha{v.byt()})
	case 2:
		mask = image.NewUniform(color.Alpha16{v.word()})
	case 3:
		mr := image.Rect(0, 0, w, h).Add(image.Pt(v.rng.Intn(9)-4, v.rng.Intn(9)-4))
		mask = v.img(kAlpha, mr)
		mp = mr.Min
	case 4:
		mr := image.Rect(0, 0, w, h).Add(image.Pt(v.rng.Intn(9)-4, v.rng.Intn(9)-4))
		mask = v.img(kNRGBA64, mr)
		mp = mr.Min
	}
	sp := sr.Min
	v.maskImg = cov >= 3
	if mask == nil && v.rng.Intn(2) == 0 {
		m.d.Draw(dst, dr, src, sp)
	} else {
		m.d.DrawMask(dst, dr, src, sp, mask, mp)
	}
	for y := dr.Min.Y; y < dr.Max.Y; y++ {
		for x := dr.Min.X; x < dr.Max.X; x++ {
			dx, dy := x-dr.Min.X, y-dr.Min.Y
			c, ec := 1.0, 0.0
			if mask != nil {
				_, _, _, ma := mask.At(mp.X+dx, mp.Y+dy).RGBA()
				c = float64(ma) / 65535
				if cov == 2 && ma%0x101 != 0 { // coverage is used with 8 bits
					ec = 1.0 / 255
				}
			}
			v.chkPixel(m, "blend", before, dst, src, x, y, sp.X+dx, sp.Y+dy, c, ec)
			if v.fails > 0 {
				return
			}
		}
	}
}

// grid draws all 65536 pairs of opaque 8-bit values.
func (v *vf) grid(m bmode, dk, sk int) {
	r := image.Rect(0, 0, 256, 256)
	dst, src := v.img(dk, r), v.img(sk, r)
	sa := color.NRGBA{A: 255}
	da := color.NRGBA{A: 255}
	if v.rng.Intn(3) == 0 {
		sa.A, da.A = v.byt()|0x40, v.byt()|0x40
	}
	o1, o2 := uint8(v.rng.Intn(256)), uint8(v.rng.Intn(256))
	for y := 0; y < 256; y++ {
		for x := 0; x < 256; x++ {
			d, s := da, sa
			d.R, s.R = uint8(x), uint8(y)
			d.G, s.G = uint8(x)+o1, uint8(y)+o2
			d.B, s.B = uint8(y), uint8(x)
			dst.Set(x, y, d)
			src.Set(x, y, s)
		}
	}
	before := clone(dst)
	v.maskImg = false
	m.d.Draw(dst, r, src, r.Min)
	for y := 0; y < 256; y++ {
		for x := 0; x < 256; x++ {
			v.chkPixel(m, "blend", before, dst, src, x, y, x, y, 1, 0)
			if v.fails > 0 {
				return
			}
		}
	}
}

func (v *vf) blendModes(list []bmode) {
	for !v.done() {
		off := v.rng.Intn(len(list))
		for i := range list {
			m := list[(i+off)%len(list)]
			for k := 0; k < 6 && v.fails == 0; k++ {
				dk, sk := v.rng.Intn(kinds), v.rng.Intn(kinds)
				switch v.rng.Intn(3) {
				case 0:
					dk, sk = v.rng.Intn(2), v.rng.Intn(2)
				case 1:
					if v.rng.Intn(4) == 0 {
						sk = kUniform
					}
				}
				cov := 0
				if v.rng.Intn(3) == 0 {
					cov = 1 + v.rng.Intn(4)
				}
				v.drawAll(m, dk, sk, nil, cov)
			}
		}
		for k := 0; k < 2 && !v.done(); k++ {
			m := list[v.rng.Intn(len(list))]
			v.grid(m, v.rng.Intn(2), v.rng.Intn(2))
		}
	}
}

func TestVF_C17(t *testing.T) {
	v := vfNew(t, "C17")
	for _, m := range bmodes {
		for k := 0; k < 4 && v.fails == 0; k++ {
			v.drawAll(m, k&1, k>>1, nil, 0)
		}
		v.drawAll(m, kRGBA64, kNRGBA64, nil, 0)
	}
	v.blendModes(bmodes)
	v.finish()
}

func TestVF_C18(t *testing.T) {
	v := vfNew(t, "C18")
	v.blendModes(nmodes)
	v.finish()
}

func TestVF_C19(t *testing.T) {
	v := vfNew(t, "C19")
	list := append(append([]bmode{}, bmodes...), nmodes...)
	for !v.done() {
		m := list[v.rng.Intn(len(list))]
		dk, sk := v.rng.Intn(kinds), v.rng.Intn(kinds)
		w, h := 1+v.rng.Intn(12), 1+v.rng.Intn(12)
		dr := image.Rect(0, 0, w, h)
		dst := v.img(dk, dr)
		if v.rng.Intn(3) == 0 {
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					c := v.nrgba()
					c.A = 255
					dst.Set(x, y, c)
				}
			}
		}
		srcs := [2]draw.Image{v.img(sk, dr), v.img(sk, dr)}
		al := func() uint8 { return v.byt() }
		if v.rng.Intn(4) == 0 {
			al = func() uint8 { return 0 }
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				a := al()
				for _, s := range srcs {
					c := v.nrgba()
					c.A = a
					switch s := unwrap(s).(type) {
					case *image.NRGBA:
						s.SetNRGBA(x, y, c)
					case *image.NRGBA64:
						s.SetNRGBA64(x, y, color.NRGBA64{uint16(c.R) * 257, uint16(c.G) * 257, uint16(c.B) * 257, uint16(a) * 257})
					default:
						s.(draw.Image).Set(x, y, c)
					}
				}
			}
		}
		var mask image.Image
		switch v.rng.Intn(8) {
		case 0:
			mask = image.NewUniform(color.Alpha{v.byt()})
		case 1:
			mask = image.NewUniform(color.Alpha{0})
		case 2:
			mask = v.img(kAlpha, dr)
		case 3:
			mask = image.NewUniform(color.Alpha16{v.word()})
		}
		var out [2]draw.Image
		for i := range out {
			out[i] = clone(dst)
			// the second draw has other colours, also below
			if i == 1 {
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						switch d := unwrap(out[1]).(type) {
						case *image.NRGBA:
							c := v.nrgba()
							c.A = d.NRGBAAt(x, y).A
							d.SetNRGBA(x, y, c)
						case *image.RGBA:
							c := d.RGBAAt(x, y)
							c.R, c.G, c.B = uint8(v.rng.Intn(int(c.A)+1)), uint8(v.rng.Intn(int(c.A)+1)), uint8(v.rng.Intn(int(c.A)+1))
							d.SetRGBA(x, y, c)
						}
					}
				}
			}
		}
		before := [2]draw.Image{clone(out[0]), clone(out[1])}
		m.d.DrawMask(out[0], dr, srcs[0], image.Point{}, mask, image.Point{})
		m.d.DrawMask(out[1], dr, srcs[1], image.Point{}, mask, image.Point{})
		for y := 0; y < h && v.fails == 0; y++ {
			for x := 0; x < w; x++ {
				v.n++
				ma := uint32(0xffff)
				if mask != nil {
					_, _, _, ma = mask.At(x, y).RGBA()
				}
				_, _, _, sa := srcs[0].At(x, y).RGBA()
				_, da, _, _ := stored(before[0], x, y)
				_, ga, _, q := stored(out[0], x, y)
				_, gb, _, _ := stored(out[1], x, y)
				d0, d1 := raw(before[0], x, y), raw(before[1], x, y)
				if ma == 0 || sa == 0 {
					if raw(out[0], x, y) != d0 || raw(out[1], x, y) != d1 {
						v.fail(m.name, "zero coverage changes %s %s to %s (src %s %s, mask alpha %d)", geomOf(dst), d0, raw(out[0], x, y), geomOf(srcs[0]), raw(srcs[0], x, y), ma)
						break
					}
					continue
				}
				if math.Abs(ga-gb) > 1e-9 {
					v.fail(m.name, "alpha depends on colours: dst %s %s src %s gives %s, dst %s src %s gives %s (mask alpha %d)", geomOf(dst), d0, raw(srcs[0], x, y), raw(out[0], x, y), d1, raw(srcs[1], x, y), raw(out[1], x, y), ma)
					break
				}
				s := float64(sa) / 65535 * float64(ma) / 65535
				want := s + da - s*da
				tol := 4.0/255 + q
				_, isN := dst.(*image.NRGBA)
				_, srcN := srcs[0].(*image.NRGBA)
				if !(isN && srcN) {
					tol = 6.0/65535 + q
					if ma%0x101 != 0 {
						tol += 1.0 / 255 * (1 - da)
					}
				}
				if math.Abs(ga-want) > tol || (da == 1 && ga < 1-tol) {
					v.fail(m.name, "alpha of %s %s with src %s %s mask %d becomes %.5f, expected %.5f", geomOf(dst), d0, geomOf(srcs[0]), raw(srcs[0], x, y), ma, ga, want)
					break
				}
			}
		}
	}
	v.finish()
}

func TestVF_C20(t *testing.T) {
	v := vfNew(t, "C20")
	for !v.done() {
		for _, m := range pmodes {
			if v.fails > 0 {
				break
			}
			dk, sk := v.rng.Intn(kinds), v.rng.Intn(kinds)
			switch v.rng.Intn(4) {
			case 0, 1:
				dk = v.rng.Intn(2)
				sk = []int{kRGBA, kNRGBA, kAlpha, kUniform}[v.rng.Intn(4)]
			case 2:
				sk = []int{kAlpha, kUniform, kAlpha16, kCMYK}[v.rng.Intn(4)]
			}
			w, h := 1+v.rng.Intn(16), 1+v.rng.Intn(16)
			dr := image.Rect(0, 0, w, h).Add(image.Pt(v.rng.Intn(9)-4, v.rng.Intn(9)-4))
			sr := image.Rect(0, 0, w, h).Add(image.Pt(v.rng.Intn(9)-4, v.rng.Intn(9)-4))
			dst := v.img(dk, dr)
			var src image.Image
			if sk == kUniform {
				switch v.rng.Intn(3) {
				case 0:
					src = image.NewUniform(v.nrgba())
				case 1:
					src = image.NewUniform(color.RGBAModel.Convert(v.nrgba()))
				default:
					src = image.NewUniform(v.nrgba64())
				}
			} else {
				s := v.img(sk, sr)
				src = s
				if q, ok := s.(*wrap); ok {
					src = &roImg{q.Image}
				}
			}
			before := clone(dst)
			m.d.Draw(dst, dr, src, sr.Min)
			for y := 0; y < h && v.fails == 0; y++ {
				for x := 0; x < w; x++ {
					v.n++
					X, Y, SX, SY := dr.Min.X+x, dr.Min.Y+y, sr.Min.X+x, sr.Min.Y+y
					known := plain(before) && (plain(src) || sk == kAlpha || sk == kUniform)
					d, s := read(before, X, Y, known), read(src, SX, SY, known)
					if sk == kAlpha && known {
						s.p, s.c = [3]float64{}, [3]float64{} // counts as black
					}
					fa, fb := m.fa(s.a, d.a), m.fb(s.a, d.a)
					wa := fa*s.a + fb*d.a
					gc, ga, pre, q := stored(dst, X, Y)
					u := 1.0 / 65535
					bad := ga < wa-q-4*u || ga > wa+4*u+q
					for i := 0; i < 3; i++ {
						wp := fa*s.p[i] + fb*d.p[i]
						lo, hi := wp-4*u, wp+4*u
						if !pre {
							if wa < 8*u {
								continue
							}
							lo, hi = lo/(wa+4*u), hi/(wa-4*u)
						}
						if gc[i] < lo-q-2*u || gc[i] > hi+q+2*u {
							bad = true
						}
					}
					if bad {
						v.fail(m.name, "dst %s %s src %s %s gives %s, expected premultiplied (%.5f %.5f %.5f) alpha %.5f", geomOf(before), raw(before, X, Y), geomOf(src), raw(src, SX, SY), raw(dst, X, Y),
							fa*s.p[0]+fb*d.p[0], fa*s.p[1]+fb*d.p[1], fa*s.p[2]+fb*d.p[2], wa)
						break
					}
				}
			}
		}
	}
	v.finish()
}

// ---- C21, C22: which pixels are touched

// spy counts the accesses of a generic image
type spy struct {
	draw.Image
	bad  string
	mu   chan struct{}
	sets map[image.Point]int
	gets map[image.Point]int
}

func (s *spy) note(m map[image.Point]int, x, y int) {
	s.mu <- struct{}{}
	p := image.Pt(x, y)
	if !p.In(s.Image.Bounds()) {
		s.bad = fmt.Sprintf("access outside the bounds at %v", p)
	}
	m[p]++
	<-s.mu
}

func (s *spy) Set(x, y int, c color.Color) {
	s.note(s.sets, x, y)
	s.mu <- struct{}{}
	s.Image.Set(x, y, c)
	<-s.mu
}

func (s *spy) At(x, y int) color.Color {
	s.note(s.gets, x, y)
	s.mu <- struct{}{}
	c := s.Image.At(x, y)
	<-s.mu
	return c
}

func newSpy(m draw.Image) *spy {
	return &spy{Image: m, mu: make(chan struct{}, 1), sets: map[image.Point]int{}, gets: map[image.Point]int{}}
}

func (v *vf) rect(n int) image.Rectangle {
	x, y := v.rng.Intn(21)-10, v.rng.Intn(21)-10
	return image.Rectangle{image.Pt(x, y), image.Pt(x+v.rng.Intn(n)-1, y+v.rng.Intn(n)-1)}
}

func norm(r image.Rectangle) image.Rectangle {
	if r.Max.X < r.Min.X {
		r.Max.X = r.Min.X
	}
	if r.Max.Y < r.Min.Y {
		r.Max.Y = r.Min.Y
	}
	return r
}

func (v *vf) anyDrawer() (string, draw.Drawer, blend.Drawer) {
	if v.rng.Intn(3) == 0 {
		m := pmodes[v.rng.Intn(len(pmodes))]
		return m.name, m.d, nil
	}
	l := append(append([]bmode{}, bmodes...), nmodes...)
	m := l[v.rng.Intn(len(l))]
	return m.name, m.d, m.d
}

// geometry: draw r of dst with src at sp and mask at mp, compare with drawing pixel by pixel
func (v *vf) geometry(big bool) {
	n := 14
	if big {
		n = 40
	}
	name, d, dm := v.anyDrawer()
	dk := v.rng.Intn(kinds)
	sk := []int{kRGBA, kNRGBA, kRGBA, kNRGBA, kRGBA64, kNRGBA64, kWrapRGBA, kAlpha, kUniform}[v.rng.Intn(9)]
	dst := v.img(dk, norm(v.rect(n)))
	var src image.Image
	if sk == kUniform {
		src = image.NewUniform(v.nrgba())
	} else {
		src = v.img(sk, norm(v.rect(n)))
	}
	var mask image.Image
	if dm != nil {
		switch v.rng.Intn(5) {
		case 0:
			mask = image.NewUniform(color.Alpha{v.byt()})
		case 1:
			mask = v.img(kAlpha, norm(v.rect(n)))
		}
	}
	r := v.rect(n)
	sp := image.Pt(v.rng.Intn(21)-10, v.rng.Intn(21)-10)
	mp := image.Pt(v.rng.Intn(21)-10, v.rng.Intn(21)-10)
	if v.rng.Intn(3) == 0 {
		sp = src.Bounds().Min
		if sk == kUniform {
			sp = image.Pt(3, 4)
		}
		r = image.Rectangle{dst.Bounds().Min, dst.Bounds().Min.Add(src.Bounds().Size())}
		if sk == kUniform {
			r = dst.Bounds()
		}
		if mask != nil {
			mp = mask.Bounds().Min
		}
	}
	v.compare(name, d, dm, dst, src, mask, r, sp, mp, false)
}

// compare draws in one call and pixel by pixel.
func (v *vf) compare(name string, d draw.Drawer, dm blend.Drawer, dst draw.Image, src, mask image.Image, r image.Rectangle, sp, mp image.Point, spied bool) {
	v.n++
	before := clone(dst)
	want := clone(dst)
	desc := func(f string, a ...interface{}) {
		ms := "no mask"
		if mask != nil {
			ms = "mask " + geomOf(mask)
		}
		v.fail(name, "GOMAXPROCS %d dst %s src %s %s r %v sp %v mp %v: %s", runtime.GOMAXPROCS(0), geomOf(before), geomOf(src), ms, r, sp, mp, fmt.Sprintf(f, a...))
	}
	one := func(to draw.Image, rr image.Rectangle, ssp, mmp image.Point) (pn interface{}) {
		defer func() { pn = recover() }()
		if mask == nil {
			d.Draw(to, rr, src, ssp)
		} else {
			dm.DrawMask(to, rr, src, ssp, mask, mmp)
		}
		return nil
	}
	if pn := one(dst, r, sp, mp); pn != nil {
		desc("panic %v", pn)
		return
	}
	// the clipped rectangle
	eff := image.Rectangle{}
	if !r.Empty() {
		eff = r.Intersect(dst.Bounds()).Intersect(src.Bounds().Add(r.Min.Sub(sp)))
		if mask != nil {
			eff = eff.Intersect(mask.Bounds().Add(r.Min.Sub(mp)))
		}
	}
	old := runtime.GOMAXPROCS(1)
	for y := eff.Min.Y; y < eff.Max.Y; y++ {
		for x := eff.Min.X; x < eff.Max.X; x++ {
			o := image.Pt(x, y).Sub(r.Min)
			if pn := one(want, image.Rect(x, y, x+1, y+1), sp.Add(o), mp.Add(o)); pn != nil {
				runtime.GOMAXPROCS(old)
				desc("panic at pixel (%d,%d): %v", x, y, pn)
				return
			}
		}
	}
	runtime.GOMAXPROCS(old)
	g, w := full(pixOf(dst)), full(pixOf(want))
	if string(g) != string(w) {
		for i := range g {
			if g[i] != w[i] {
				desc("byte %d is %d, drawing pixel by pixel gives %d, before %d", i, g[i], w[i], full(pixOf(before))[i])
				return
			}
		}
	}
	// untouched outside the rectangle (checked against the copy, which pixel-wise draws could damage the same way)
	b := dst.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if !image.Pt(x, y).In(eff) && raw(dst, x, y) != raw(before, x, y) {
				desc("pixel (%d,%d) outside %v changed from %s to %s", x, y, eff, raw(before, x, y), raw(dst, x, y))
				return
			}
		}
	}
	v.parent(before, dst, desc)
}

// parent: the bytes of the backing array that belong to no pixel of the sub-image are unchanged.
func (v *vf) parent(before, dst draw.Image, desc func(string, ...interface{})) {
	var stride, bpp int
	var rect image.Rectangle
	switch q := unwrap(dst).(type) {
	case *image.RGBA:
		stride, bpp, rect = q.Stride, 4, q.Rect
	case *image.NRGBA:
		stride, bpp, rect = q.Stride, 4, q.Rect
	case *image.RGBA64:
		stride, bpp, rect = q.Stride, 8, q.Rect
	case *image.NRGBA64:
		stride, bpp, rect = q.Stride, 8, q.Rect
	}
	if stride == 0 {
		return
	}
	g, w := full(pixOf(dst)), full(pixOf(before))
	for i := range g {
		if g[i] != w[i] && (i%stride >= rect.Dx()*bpp || i/stride >= rect.Dy()) {
			desc("byte %d of the backing array, outside the sub-image, changed", i)
			return
		}
	}
}

func (v *vf) diff(before, a, b image.Image) string {
	r := a.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if raw(a, x, y) != raw(b, x, y) {
				return fmt.Sprintf("pixel (%d,%d) is %s, expected %s, before %s", x, y, raw(a, x, y), raw(b, x, y), raw(before, x, y))
			}
		}
	}
	return "outside the bounds"
}

// self draws an image onto itself; the result must be as if the source had been copied first
func (v *vf) self() {
	name, d, _ := v.anyDrawer()
	dst := v.img(v.rng.Intn(4), image.Rect(0, 0, 3+v.rng.Intn(12), 3+v.rng.Intn(12)).Add(image.Pt(v.rng.Intn(7)-3, v.rng.Intn(7)-3)))
	before := clone(dst)
	want := clone(dst)
	b := dst.Bounds()
	r := image.Rectangle{b.Min.Add(image.Pt(v.rng.Intn(4)-1, v.rng.Intn(4)-1)), b.Max.Add(image.Pt(-v.rng.Intn(3), -v.rng.Intn(3)))}
	sp := b.Min.Add(image.Pt(v.rng.Intn(5)-2, v.rng.Intn(5)-2))
	v.n++
	var pn interface{}
	func() {
		defer func() { pn = recover() }()
		d.Draw(dst, r, dst, sp)
		d.Draw(want, r, before, sp)
	}()
	if pn != nil {
		v.fail(name, "drawing %s onto itself r %v sp %v panics: %v", geomOf(before), r, sp, pn)
		return
	}
	if string(full(pixOf(dst))) != string(full(pixOf(want))) {
		v.fail(name, "drawing %s onto itself r %v sp %v differs from drawing a copy: %s", geomOf(before), r, sp, v.diff(before, dst, want))
	}
}

func TestVF_C21(t *testing.T) {
	v := vfNew(t, "C21")
	procs := runtime.GOMAXPROCS(0)
	for !v.done() {
		if v.rng.Intn(4) == 0 {
			runtime.GOMAXPROCS(1 + v.rng.Intn(5))
		}
		v.geometry(v.rng.Intn(8) == 0)
		if v.rng.Intn(4) == 0 {
			v.spied()
		}
		if v.rng.Intn(6) == 0 {
			// overlapping regions are only ordered with one worker
			runtime.GOMAXPROCS(1)
			v.self()
			runtime.GOMAXPROCS(procs)
		}
	}
	v.finish()
}

// spied: generic images record every access
func (v *vf) spied() {
	name, d, dm := v.anyDrawer()
	dst := newSpy(v.img(kRGBA64, norm(v.rect(16))))
	src := newSpy(v.img(kNRGBA64, norm(v.rect(16))))
	var mask *spy
	if dm != nil && v.rng.Intn(2) == 0 {
		mask = newSpy(v.img(kNRGBA64, norm(v.rect(16))))
	}
	r := v.rect(20)
	sp := image.Pt(v.rng.Intn(21)-10, v.rng.Intn(21)-10)
	mp := image.Pt(v.rng.Intn(21)-10, v.rng.Intn(21)-10)
	before := clone(dst.Image)
	v.n++
	if mask != nil {
		dm.DrawMask(dst, r, src, sp, mask, mp)
	} else {
		d.Draw(dst, r, src, sp)
	}
	eff := image.Rectangle{}
	if !r.Empty() {
		eff = r.Intersect(dst.Bounds()).Intersect(src.Bounds().Add(r.Min.Sub(sp)))
		if mask != nil {
			eff = eff.Intersect(mask.Bounds().Add(r.Min.Sub(mp)))
		}
	}
	chk := func(what string, m map[image.Point]int, o image.Point) {
		for p, k := range m {
			if !p.Sub(o).In(eff) {
				v.fail(name, "GOMAXPROCS %d dst %v src %v r %v sp %v mp %v: %s at %v outside the clipped rectangle %v", runtime.GOMAXPROCS(0), dst.Bounds(), src.Bounds(), r, sp, mp, what, p, eff)
				return
			}
			if k > 1 {
				v.fail(name, "GOMAXPROCS %d dst %v src %v r %v sp %v mp %v: %s at %v %d times", runtime.GOMAXPROCS(0), dst.Bounds(), src.Bounds(), r, sp, mp, what, p, k)
				return
			}
		}
	}
	chk("destination write", dst.sets, image.Point{})
	chk("destination read", dst.gets, image.Point{})
	chk("source read", src.gets, sp.Sub(r.Min))
	if mask != nil {
		chk("mask read", mask.gets, mp.Sub(r.Min))
		if dst.bad+src.bad+mask.bad != "" {
			v.fail(name, "%s%s%s", dst.bad, src.bad, mask.bad)
		}
		if len(mask.gets) != eff.Dx()*eff.Dy() {
			v.fail(name, "GOMAXPROCS %d: %d mask pixels read, expected %d", runtime.GOMAXPROCS(0), len(mask.gets), eff.Dx()*eff.Dy())
		}
	}
	_ = before
}

func TestVF_C22(t *testing.T) {
	v := vfNew(t, "C22")
	for !v.done() {
		runtime.GOMAXPROCS(1 + v.rng.Intn(9))
		name, d, dm := v.anyDrawer()
		h := v.rng.Intn(40)
		w := 1 + v.rng.Intn(3)
		if v.rng.Intn(6) == 0 {
			h = v.rng.Intn(200)
		}
		dr := image.Rect(0, 0, w, h).Add(image.Pt(v.rng.Intn(5)-2, v.rng.Intn(5)-2))
		sr := image.Rect(0, 0, w, h).Add(image.Pt(v.rng.Intn(5)-2, v.rng.Intn(5)-2))
		dst := v.img(v.rng.Intn(kinds), dr)
		var src image.Image
		switch v.rng.Intn(5) {
		case 0:
			src = image.NewUniform(v.nrgba())
		case 1:
			src = v.img(kAlpha, sr)
		default:
			src = v.img(v.rng.Intn(kinds), sr)
		}
		var mask image.Image
		mp := image.Pt(v.rng.Intn(5), v.rng.Intn(5))
		if dm != nil {
			switch v.rng.Intn(3) {
			case 0:
				mask = v.img(kAlpha, image.Rect(0, 0, w, h).Add(mp))
			case 1:
				mask = image.NewUniform(color.Alpha{v.byt()})
			}
		}
		v.compare(name, d, dm, dst, src, mask, dr, sr.Min, mp, false)
		if v.rng.Intn(3) == 0 {
			v.spied()
		}
		if v.rng.Intn(4) == 0 {
			v.selfPar()
		}
	}
	v.finish()
}

// selfPar: an image drawn onto itself in place, rows do not depend on each other.
func (v *vf) selfPar() {
	name, d, _ := v.anyDrawer()
	dst := v.img(v.rng.Intn(4), image.Rect(0, 0, 1+v.rng.Intn(5), 1+v.rng.Intn(40)))
	before := clone(dst)
	want := clone(dst)
	b := dst.Bounds()
	v.n++
	r := b
	r.Min.X += v.rng.Intn(2)
	d.Draw(dst, r, dst, b.Min)
	runtime.GOMAXPROCS(1)
	d.Draw(want, r, before, b.Min)
	if string(full(pixOf(dst))) != string(full(pixOf(want))) {
		v.fail(name, "drawing %s onto itself (r %v) in parallel differs from drawing a copy", geomOf(before), r)
	}
}
