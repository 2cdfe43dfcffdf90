// Independent executable model of the PSD format, used to replay failed proof
// obligations against the real code and as a bounded cross-check.
// It only uses the public API of the package.
package psd_test

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
	"unicode/utf16"

	"github.com/oov/psd"
	psdcolor "github.com/oov/psd/color"
)

// ---- reporting

type vfProblem struct {
	Msg   string `json:"msg"`
	Input string `json:"input_base64,omitempty"`
	Where string `json:"where,omitempty"`
	Seed  int64  `json:"seed"`
	Iter  int    `json:"iter"`
	Prop  string `json:"property"`
}

type vf struct {
	t     *testing.T
	prop  string
	seed  int64
	iter  int
	end   time.Time
	fails int
	rng   *rand.Rand
	n     int
}

func vfNew(t *testing.T, prop string) *vf {
	if os.Getenv("VF_PROP") != prop {
		t.Skip("not selected")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	sec, err := strconv.ParseFloat(os.Getenv("VF_BUDGET"), 64)
	if err != nil {
		sec = 5
	}
	return &vf{t: t, prop: prop, seed: seed, end: time.Now().Add(time.Duration(sec * float64(time.Second)))}
}

// next starts a new iteration with its own reproducible random source.
func (v *vf) next() bool {
	if v.fails > 0 || (v.iter > 200 && time.Now().After(v.end)) {
		fmt.Printf("VFCOUNT %s %d\n", v.prop, v.iter)
		return false
	}
	v.iter++
	v.rng = rand.New(rand.NewSource(v.seed*1000003 + int64(v.iter)))
	return true
}

func (v *vf) fail(where string, input []byte, f string, a ...interface{}) {
	v.fails++
	if v.fails > 3 {
		return
	}
	if len(input) > 1<<16 {
		input = input[:1<<16]
	}
	p := vfProblem{Msg: fmt.Sprintf(f, a...), Input: base64.StdEncoding.EncodeToString(input), Where: where, Seed: v.seed, Iter: v.iter, Prop: v.prop}
	b, _ := json.Marshal(p)
	fmt.Printf("VFAIL %s\n", b)
	v.t.Errorf("%s: %s", where, p.Msg)
}

// ---- document model

type vfRes struct {
	sig  string
	id   int
	name string
	data []byte
}

type vfAdd struct {
	sig, key string
	data     []byte
	pad      int
}

type vfChan struct {
	id    int
	rect  image.Rectangle
	comp  int
	plane []byte
	enc   []byte // compressed data without the compression word
	skip  bool   // declared length 0, no compression word
	extra int    // trailing bytes inside the declared length
}

type vfMask struct {
	raw []byte
	exp psd.Mask
}

type vfLayer struct {
	rect      image.Rectangle
	swap      bool
	chans     []vfChan
	blend     string
	opacity   byte
	clipping  byte
	flags     byte
	noExtra   bool
	mask      vfMask
	ranges    []byte
	name      string
	adds      []vfAdd
	uname     []uint16
	hasUname  bool
	clbl      int // -1 absent
	divType   int
	divBlend  string
	divSub    int
	divKey    string // lsct or lsdk or ""
	divLen    int
	expBlend  string
	alphaMask bool
}

type vfDoc struct {
	version, channels, w, h, depth, mode int
	cmd                                  []byte
	res                                  []vfRes
	layers                               []vfLayer
	layerKey                             string
	negCount                             bool
	layerPad                             int
	global                               []byte
	hasGlobal                            bool
	adds                                 []vfAdd
	tailPad                              int
	noSection                            bool
	comp                                 int
	planes                               [][]byte
	mergedEnc                            []byte

	out     []byte
	lens    []vfMark
	fixed   map[int]bool // offsets that mutations must not touch
	hdrEnd  int
	cfgEnd  int
	laySecE int

	layerInfoLen int // content of the first layer info section
}

type vfMark struct {
	kind string
	off  int
	size int
	val  int
}

func (d *vfDoc) large() bool { return d.version == 2 }

func modeChannels(mode int) int {
	switch mode {
	case 0, 1, 2:
		return 1
	case 3:
		return 3
	case 4:
		return 4
	}
	return -1
}

func vfSupported(mode, depth int) bool {
	switch mode {
	case 0:
		return depth == 1
	case 2:
		return depth == 8
	case 1, 3:
		return depth == 8 || depth == 16 || depth == 32
	case 4:
		return depth == 8 || depth == 16
	}
	return false
}

func vfRow(w, depth int) int { return (w*depth + 7) / 8 }

func vfBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	case 1:
		c := byte(r.Intn(256))
		for i := range b {
			if r.Intn(4) == 0 {
				c = byte(r.Intn(256))
			}
			b[i] = c
		}
	default:
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

// vfPack is a random PackBits encoder.
func vfPack(r *rand.Rand, row []byte) []byte {
	var out []byte
	for i := 0; i < len(row); {
		for r.Intn(6) == 0 {
			out = append(out, 0x80)
		}
		run := 1
		for i+run < len(row) && row[i+run] == row[i] && run < 128 {
			run++
		}
		if run >= 2 && r.Intn(8) != 0 {
			if r.Intn(3) == 0 {
				run = 2 + r.Intn(run-1)
			}
			out = append(out, byte(257-run), row[i])
			i += run
			continue
		}
		n := 1 + r.Intn(6)
		if r.Intn(6) == 0 {
			n = 128
		}
		if n > len(row)-i {
			n = len(row) - i
		}
		if n > 128 {
			n = 128
		}
		out = append(out, byte(n-1))
		out = append(out, row[i:i+n]...)
		i += n
	}
	for r.Intn(5) == 0 {
		out = append(out, 0x80)
	}
	return out
}

func vfUnpack(b []byte) []byte {
	var out []byte
	for i := 0; i < len(b); {
		switch c := b[i]; {
		case c < 128:
			out = append(out, b[i+1:i+2+int(c)]...)
			i += 2 + int(c)
		case c == 128:
			i++
		default:
			for k := 0; k < 257-int(c); k++ {
				out = append(out, b[i+1])
			}
			i += 2
		}
	}
	return out
}

func put(n int, v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-n:]
}

// vfEncode compresses planes (rows of rowLen bytes each) with the given method.
func vfEncode(r *rand.Rand, planes [][]byte, w, depth, comp int, large bool) []byte {
	rl := vfRow(w, depth)
	switch comp {
	case 0:
		return bytes.Join(planes, nil)
	case 1:
		n := 2
		if large {
			n = 4
		}
		var lens, data []byte
		for _, p := range planes {
			for rl > 0 && len(p) > 0 {
				e := vfPack(r, p[:rl])
				lens = append(lens, put(n, uint64(len(e)))...)
				data = append(data, e...)
				p = p[rl:]
			}
		}
		return append(lens, data...)
	case 2, 3:
		var src []byte
		for _, p := range planes {
			q := append([]byte{}, p...)
			if comp == 3 && rl > 0 {
				for row := q; len(row) >= rl; row = row[rl:] {
					switch depth {
					case 16:
						for x := w - 1; x > 0; x-- {
							a := binary.BigEndian.Uint16(row[2*x:])
							b := binary.BigEndian.Uint16(row[2*x-2:])
							binary.BigEndian.PutUint16(row[2*x:], a-b)
						}
					case 32:
						for x := w - 1; x > 0; x-- {
							a := binary.BigEndian.Uint32(row[4*x:])
							b := binary.BigEndian.Uint32(row[4*x-4:])
							binary.BigEndian.PutUint32(row[4*x:], a-b)
						}
					}
				}
			}
			src = append(src, q...)
		}
		var buf bytes.Buffer
		zw, _ := zlib.NewWriterLevel(&buf, []int{0, 1, 6, 9}[r.Intn(4)])
		zw.Write(src)
		zw.Close()
		return buf.Bytes()
	}
	panic("comp")
}

type vfProfile struct {
	layers   int // maximum number of layers
	res      int
	mask     bool
	adds     int
	tree     bool
	anyMode  bool
	unsup    bool
	big      bool // more lines
	strict   bool // no padding, no trailing bytes
	noLayers bool
	comp     int // -1 any
	mode     int // -1 any
}

func pick(r *rand.Rand, s ...int) int { return s[r.Intn(len(s))] }

var wideKeys = []string{"LMsk", "Lr16", "Lr32", "Layr", "Mt16", "Mt32", "Mtrn", "Alph", "FMsk", "lnk2", "FEid", "FXid", "PxSD"}
var plainKeys = []string{"SoLd", "lfx2", "lyid", "fxrp", "shmd", "lspf", "lclr", "infx", "knko", "TySh", "Anno", "vmsk", "lnk3", "lnkD", "Patt", "FEId", "Layx", "lr16", "cinf", "lnsr", "8BIM"[1:] + "x", "lsdx", "Mt33", "MTRN"}

func vfAscii(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return string(b)
}

func vfAdds(r *rand.Rand, n int, strict bool) []vfAdd {
	var out []vfAdd
	for i := r.Intn(n + 1); i > 0; i-- {
		a := vfAdd{sig: "8BIM"}
		if r.Intn(5) == 0 {
			a.sig = "8B64"
		}
		for {
			switch r.Intn(8) {
			case 0, 1, 2:
				a.key = wideKeys[r.Intn(len(wideKeys))]
			case 3, 4, 5, 6:
				a.key = plainKeys[r.Intn(len(plainKeys))]
			default:
				a.key = vfAscii(r, 4)
			}
			if a.key != "Layr" && a.key != "Lr16" && a.key != "Lr32" && a.key != "luni" && a.key != "clbl" && a.key != "lsct" && a.key != "lsdk" {
				break
			}
		}
		if r.Intn(6) != 0 {
			a.data = vfBytes(r, 1+r.Intn(20))
			if r.Intn(12) == 0 {
				a.data = vfBytes(r, 200+r.Intn(400))
			}
		}
		if !strict {
			a.pad = r.Intn(4)
		}
		out = append(out, a)
	}
	return out
}

func vfMaskRec(r *rand.Rand) vfMask {
	var m vfMask
	rect := func() image.Rectangle {
		x, y := r.Intn(40)-20, r.Intn(40)-20
		if r.Intn(5) == 0 {
			x, y = r.Intn(2000000)-1000000, r.Intn(2000000)-1000000
		}
		return image.Rect(x, y, x+r.Intn(6), y+r.Intn(6))
	}
	wr := func(q image.Rectangle) []byte {
		var b []byte
		for _, v := range []int{q.Min.Y, q.Min.X, q.Max.Y, q.Max.X} {
			b = append(b, put(4, uint64(uint32(int32(v))))...)
		}
		return b
	}
	if r.Intn(4) == 0 {
		return m
	}
	// a complete record, cut at a random place
	rc := rect()
	dc, fl := byte(r.Intn(256)), byte(r.Intn(256))
	if r.Intn(2) == 0 {
		fl |= 16
	}
	m.raw = append(wr(rc), dc, fl)
	type fld struct {
		n   int
		set func()
	}
	fs := []fld{
		{16, func() { m.exp.Rect = rc }},
		{1, func() { m.exp.DefaultColor = int(dc) }},
		{1, func() { m.exp.Flags = int(fl); m.exp.UserMaskDensity = 255; m.exp.VectorMaskDensity = 255 }},
	}
	params := false
	if fl&16 != 0 {
		params = true
		p := byte(r.Intn(16))
		if r.Intn(4) == 0 {
			p |= byte(r.Intn(256))
		}
		m.raw = append(m.raw, p)
		fs = append(fs, fld{1, func() {}})
		for bit := 0; bit < 4; bit++ {
			if p>>uint(bit)&1 == 0 {
				continue
			}
			if bit&1 == 0 {
				v := byte(r.Intn(256))
				m.raw = append(m.raw, v)
				bit := bit
				fs = append(fs, fld{1, func() {
					if bit == 0 {
						m.exp.UserMaskDensity = int(v)
					} else {
						m.exp.VectorMaskDensity = int(v)
					}
				}})
			} else {
				f := r.NormFloat64() * 100
				m.raw = append(m.raw, put(8, math.Float64bits(f))...)
				bit := bit
				fs = append(fs, fld{8, func() {
					if bit == 1 {
						m.exp.UserMaskFeather = f
					} else {
						m.exp.VectorMaskFeather = f
					}
				}})
			}
		}
	}
	realAt := len(m.raw)
	rr := rect()
	rf, rb := byte(r.Intn(256)), byte(r.Intn(256))
	m.raw = append(m.raw, rf, rb)
	m.raw = append(m.raw, wr(rr)...)
	fs = append(fs, fld{1, func() { m.exp.RealFlags = int(rf) }}, fld{1, func() { m.exp.RealBackgroundColor = int(rb) }}, fld{16, func() { m.exp.RealRect = rr }})
	n := len(m.raw)
	switch r.Intn(6) {
	case 0:
		n = r.Intn(len(m.raw) + 1)
	case 1:
		n = 20
		// the record of length 20 has padding instead of the real mask fields
	case 2:
		m.raw = append(m.raw, vfBytes(r, 1+r.Intn(8))...)
		n = len(m.raw)
	case 3:
		if !params {
			n = 36
		}
	}
	if n > len(m.raw) {
		n = len(m.raw)
	}
	m.raw = m.raw[:n]
	left, at := n, 0
	for _, f := range fs {
		if n == 20 && at >= realAt {
			break // padding
		}
		if left < f.n {
			break
		}
		f.set()
		left -= f.n
		at += f.n
	}
	return m
}

func vfGen(r *rand.Rand, pf vfProfile) *vfDoc {
	d := &vfDoc{version: 1 + r.Intn(2)}
	for {
		d.mode = pick(r, 0, 1, 1, 2, 3, 3, 3, 4, 4)
		d.depth = pick(r, 1, 8, 8, 16, 32)
		if pf.mode >= 0 {
			d.mode = pf.mode
		}
		if pf.unsup {
			d.mode = pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
		}
		if vfSupported(d.mode, d.depth) != pf.unsup {
			break
		}
	}
	nc := modeChannels(d.mode)
	d.channels = nc
	if d.channels < 0 {
		d.channels = 1 + r.Intn(4)
	}
	if r.Intn(2) == 0 {
		d.channels += r.Intn(3)
	}
	if r.Intn(20) == 0 {
		d.channels = 56
	}
	d.w, d.h = 1+r.Intn(12), 1+r.Intn(7)
	if pf.big {
		d.w, d.h = 1+r.Intn(40), 1+r.Intn(40)
	}
	if r.Intn(15) == 0 {
		d.w, d.h = 1+r.Intn(300), 1+r.Intn(3)
	}
	if d.mode == 2 {
		d.cmd = vfBytes(r, 768)
	} else if r.Intn(6) == 0 {
		d.cmd = vfBytes(r, r.Intn(40))
	}
	// resources
	nres := r.Intn(pf.res + 1)
	for i := 0; i < nres; i++ {
		x := vfRes{sig: []string{"8BIM", "8BIM", "8BIM", "MeSa", "PHUT", "AgHg", "DCSR"}[r.Intn(7)], id: r.Intn(65536)}
		if r.Intn(3) == 0 {
			x.id = pick(r, 0x3e8, 0x3ed, 0x0416, 0x0418)
		}
		if i > 0 && r.Intn(4) == 0 {
			x.id = d.res[r.Intn(len(d.res))].id
		}
		if x.id == 0x417 || x.id == 0x41d {
			x.id++
		}
		x.name = vfAscii(r, r.Intn(8))
		if r.Intn(12) == 0 {
			x.name = string(vfBytes(r, pick(r, 255, 254, 128, 127)))
		}
		x.data = vfBytes(r, r.Intn(30))
		d.res = append(d.res, x)
	}
	if r.Intn(2) == 0 {
		var b []byte
		for i := r.Intn(4); i > 0; i-- {
			b = append(b, put(4, uint64(pick(r, 0, 1, 2, 0x100, 0x10000, 0x1000000, r.Intn(1<<30))))...)
		}
		b = append(b, make([]byte, r.Intn(4))...)
		d.res = append(d.res, vfRes{"8BIM", 0x41d, "", b})
	}
	if r.Intn(2) == 0 {
		b := put(2, uint64(pick(r, 0, 255, r.Intn(256), 256, 65535)))
		if r.Intn(4) == 0 {
			b = append(b, vfBytes(r, r.Intn(3))...)
		}
		if r.Intn(10) == 0 {
			b = b[:r.Intn(2)]
		}
		d.res = append(d.res, vfRes{"8BIM", 0x417, "", b})
	}
	if pf.strict && len(d.res) == 0 {
		d.res = append(d.res, vfRes{"8BIM", 0x3ed, "ab", vfBytes(r, 7)})
	}
	r.Shuffle(len(d.res), func(i, j int) { d.res[i], d.res[j] = d.res[j], d.res[i] })

	// layers
	nl := 0
	if !pf.noLayers && d.mode != 0 && d.mode != 2 && !pf.unsup && pf.layers > 0 {
		nl = r.Intn(pf.layers + 1)
		if pf.strict && nl == 0 {
			nl = 1
		}
	}
	depthStack := 0
	for i := 0; i < nl; i++ {
		l := vfLayer{clbl: -1}
		x, y := r.Intn(30)-15, r.Intn(30)-15
		if r.Intn(6) == 0 {
			x, y = r.Intn(1<<30)-1<<29, r.Intn(1<<30)-1<<29
		}
		l.rect = image.Rect(x, y, x+r.Intn(9), y+r.Intn(7))
		if pf.strict && l.rect.Empty() {
			l.rect = image.Rect(x, y, x+3, y+2)
		}
		if pf.big && r.Intn(2) == 0 {
			l.rect = image.Rect(x, y, x+1+r.Intn(33), y+1+r.Intn(33))
		}
		l.blend = []string{"norm", "mul ", "pass", "scrn", vfAscii(r, 4)}[r.Intn(5)]
		l.opacity, l.clipping, l.flags = byte(r.Intn(256)), byte(pick(r, 0, 1, 1, 2, 0x80)), byte(r.Intn(256))
		l.name = vfAscii(r, r.Intn(12))
		if r.Intn(15) == 0 {
			l.name = string(vfBytes(r, pick(r, 255, 254, 253, 252, 128)))
		}
		l.noExtra = r.Intn(25) == 0 && !pf.tree && !pf.strict
		if pf.mask && !l.noExtra {
			l.mask = vfMaskRec(r)
		}
		if r.Intn(2) == 0 {
			l.ranges = vfBytes(r, r.Intn(41))
		}
		if !l.noExtra {
			l.adds = vfAdds(r, pf.adds, pf.strict)
			if r.Intn(2) == 0 {
				l.hasUname = true
				for k := r.Intn(8); k > 0; k-- {
					l.uname = append(l.uname, uint16(pick(r, 0x41, 0x3042, 0xe9, 0x100, 0xff41, 0xd83d, 0xde00, 0xdc00)))
				}
				b := put(4, uint64(len(l.uname)))
				for _, c := range l.uname {
					b = append(b, put(2, uint64(c))...)
				}
				b = append(b, make([]byte, pick(r, 0, 0, 2, 4))...)
				l.addBlock(r, "luni", b, pf.strict)
			}
			if r.Intn(2) == 0 {
				l.clbl = pick(r, 0, 1, 0x80)
				l.addBlock(r, "clbl", append([]byte{byte(l.clbl)}, make([]byte, pick(r, 3, 3, 0))...), pf.strict)
			}
			if r.Intn(5) == 0 && !pf.tree {
				l.divType = 0
				l.div(r, pf.strict)
			}
			if pf.tree {
				c := r.Intn(6)
				if c == 0 || c == 1 {
					l.divType = 3
					depthStack++
					l.div(r, pf.strict)
				} else if (c == 2 || c == 3) && depthStack > 0 {
					l.divType = 1 + r.Intn(2)
					depthStack--
					l.div(r, pf.strict)
				} else if c == 4 && r.Intn(3) == 0 {
					l.divType = pick(r, 0, 4, 5, 0x01000000, 0x10001, 256+3)
					l.div(r, pf.strict)
				}
			}
			r.Shuffle(len(l.adds), func(i, j int) { l.adds[i], l.adds[j] = l.adds[j], l.adds[i] })
		}
		d.layers = append(d.layers, l)
	}
	for ; depthStack > 0; depthStack-- {
		l := vfLayer{clbl: -1, blend: "norm", divType: 1 + r.Intn(2)}
		l.div(r, pf.strict)
		d.layers = append(d.layers, l)
	}
	for i := range d.layers {
		l := &d.layers[i]
		ids := []int{}
		for k := 0; k < nc; k++ {
			if r.Intn(12) != 0 {
				ids = append(ids, k)
			}
		}
		if r.Intn(2) == 0 {
			ids = append(ids, -1)
		}
		if r.Intn(6) == 0 {
			ids = append(ids, nc+r.Intn(3))
		}
		if len(l.mask.raw) >= 16 && r.Intn(2) == 0 {
			ids = append(ids, -2)
			if r.Intn(3) == 0 {
				ids = append(ids, -3)
			}
		}
		if r.Intn(3) == 0 {
			r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		}
		for _, id := range ids {
			c := vfChan{id: id, rect: l.rect}
			if id == -2 {
				c.rect = l.mask.exp.Rect
			} else if id == -3 {
				c.rect = l.mask.exp.RealRect
			}
			n := vfRow(c.rect.Dx(), d.depth) * c.rect.Dy()
			c.comp = pick(r, 0, 1, 1, 2, 3)
			if pf.comp >= 0 {
				c.comp = pf.comp
			}
			if d.depth == 8 && c.comp == 3 {
				c.comp = 2
			}
			c.plane = make([]byte, n)
			if n > 0 || r.Intn(3) == 0 {
				switch {
				case r.Intn(20) == 0 && !pf.strict:
					c.skip = true
				case r.Intn(20) == 0 && !pf.strict: // only the compression word
				default:
					copy(c.plane, vfBytes(r, n))
					c.enc = vfEncode(r, [][]byte{c.plane}, c.rect.Dx(), d.depth, c.comp, d.large())
					if r.Intn(5) == 0 && !pf.strict && len(c.enc) > 0 {
						c.extra = 1 + r.Intn(4)
					}
				}
			}
			l.chans = append(l.chans, c)
		}
	}
	if nl > 0 && r.Intn(4) == 0 {
		d.layerKey = []string{"Layr", "Lr16", "Lr32"}[r.Intn(3)]
	}
	d.negCount = r.Intn(3) == 0
	if !pf.strict {
		d.layerPad = pick(r, 0, 0, 1, 2, 3, 7)
	}
	d.hasGlobal = r.Intn(3) != 0 || d.layerKey != "" || pf.strict
	if r.Intn(2) == 0 {
		d.global = vfBytes(r, r.Intn(30))
	}
	if d.hasGlobal && pf.adds > 0 {
		d.adds = vfAdds(r, pf.adds, pf.strict)
		if !pf.strict && len(d.adds) == 0 && d.layerKey == "" {
			d.tailPad = r.Intn(4)
		}
	}
	d.noSection = nl == 0 && len(d.layers) == 0 && r.Intn(3) == 0
	if d.noSection {
		d.hasGlobal, d.adds = false, nil
	}
	// merged image
	pl := vfRow(d.w, d.depth) * d.h
	d.comp = pick(r, 0, 1, 1, 2, 3)
	if pf.comp >= 0 {
		d.comp = pf.comp
	}
	if d.comp == 3 && d.depth < 16 {
		d.comp = 2
	}
	for i := 0; i < d.channels; i++ {
		d.planes = append(d.planes, vfBytes(r, pl))
	}
	d.mergedEnc = vfEncode(r, d.planes, d.w, d.depth, d.comp, d.large())
	d.build(r)
	return d
}

func (l *vfLayer) addBlock(r *rand.Rand, key string, data []byte, strict bool) {
	a := vfAdd{sig: "8BIM", key: key, data: data}
	if !strict {
		a.pad = r.Intn(4)
	}
	l.adds = append(l.adds, a)
}

func (l *vfLayer) div(r *rand.Rand, strict bool) {
	l.divKey = "lsct"
	if r.Intn(4) == 0 {
		l.divKey = "lsdk"
	}
	b := put(4, uint64(l.divType))
	l.divLen = pick(r, 4, 12, 12, 16)
	if l.divLen >= 12 {
		l.divBlend = []string{"norm", "pass", "mul ", "diss"}[r.Intn(4)]
		b = append(b, "8BIM"+l.divBlend...)
	}
	if l.divLen >= 16 {
		l.divSub = pick(r, 0, 1, 0x01020304)
		b = append(b, put(4, uint64(l.divSub))...)
	}
	l.addBlock(r, l.divKey, b, strict)
	if l.divKey == "lsct" && r.Intn(6) == 0 {
		// the other key is ignored when lsct is present
		l.addBlock(r, "lsdk", append(put(4, 2), make([]byte, 0)...), strict)
	}
}

// ---- encoding

func (d *vfDoc) mark(kind string, off, size, val int) {
	d.lens = append(d.lens, vfMark{kind, off, size, val})
	for i := 0; i < size; i++ {
		d.fixed[off+i] = true
	}
}

func (d *vfDoc) encAdds(base int, as []vfAdd, kind string) []byte {
	var b []byte
	for _, a := range as {
		b = append(b, a.sig+a.key...)
		n := 4
		if d.large() {
			for _, k := range wideKeys {
				if k == a.key {
					n = 8
				}
			}
		}
		d.mark(kind, base+len(b), n, len(a.data))
		b = append(b, put(n, uint64(len(a.data)))...)
		b = append(b, a.data...)
		b = append(b, make([]byte, a.pad)...)
	}
	return b
}

func (d *vfDoc) layerInfo(r *rand.Rand, base int) []byte {
	is := 4
	if d.large() {
		is = 8
	}
	var b []byte
	n := len(d.layers)
	if n == 0 && r.Intn(2) == 0 {
		return put(is, 0)
	}
	b = append(b, make([]byte, is)...) // length, patched below
	cnt := uint64(n)
	if d.negCount {
		cnt = uint64(uint16(-n))
	}
	d.mark("count", base+len(b), 2, n)
	b = append(b, put(2, cnt)...)
	for i := range d.layers {
		l := &d.layers[i]
		rc := []int{l.rect.Min.Y, l.rect.Min.X, l.rect.Max.Y, l.rect.Max.X}
		for _, v := range rc {
			d.mark("coord", base+len(b), 4, v)
			b = append(b, put(4, uint64(uint32(int32(v))))...)
		}
		d.mark("nch", base+len(b), 2, len(l.chans))
		b = append(b, put(2, uint64(len(l.chans)))...)
		for _, c := range l.chans {
			b = append(b, put(2, uint64(uint16(int16(c.id))))...)
			n := 2 + len(c.enc) + c.extra
			if c.skip {
				n = 0
			}
			d.mark("chlen", base+len(b), is, n)
			b = append(b, put(is, uint64(n))...)
		}
		b = append(b, "8BIM"+l.blend...)
		b = append(b, l.opacity, l.clipping, l.flags, byte(r.Intn(256)))
		eo := len(b)
		b = append(b, 0, 0, 0, 0)
		if !l.noExtra {
			d.mark("mask", base+len(b), 4, len(l.mask.raw))
			b = append(b, put(4, uint64(len(l.mask.raw)))...)
			if len(l.mask.raw) >= 16 {
				for k := 0; k < 4; k++ {
					d.mark("coord", base+len(b)+4*k, 4, 0)
				}
				for k := 16; k < len(l.mask.raw); k++ {
					d.fixed[base+len(b)+k] = true
				}
			}
			b = append(b, l.mask.raw...)
			d.mark("ranges", base+len(b), 4, len(l.ranges))
			b = append(b, put(4, uint64(len(l.ranges)))...)
			b = append(b, l.ranges...)
			b = append(b, byte(len(l.name)))
			b = append(b, l.name...)
			for (len(l.name)+1)%4 != 0 && (len(b)-eo-4) >= 0 {
				// pad the pascal string (with its length byte) to a multiple of 4
				k := 4 - (len(l.name)+1)%4
				b = append(b, make([]byte, k)...)
				break
			}
			b = append(b, d.encAdds(base+len(b), l.adds, "ladd")...)
		}
		copy(b[eo:], put(4, uint64(len(b)-eo-4)))
		d.mark("extra", base+eo, 4, len(b)-eo-4)
	}
	for _, l := range d.layers {
		for _, c := range l.chans {
			if c.skip {
				continue
			}
			b = append(b, put(2, uint64(c.comp))...)
			if len(c.enc) > 0 {
				if c.comp == 1 {
					for k := 0; k < c.rect.Dy()*is/2; k++ {
						d.fixed[base+len(b)+k] = true
					}
				}
				b = append(b, c.enc...)
				b = append(b, vfBytes(r, c.extra)...)
			}
		}
	}
	b = append(b, make([]byte, d.layerPad)...)
	copy(b, put(is, uint64(len(b)-is)))
	d.mark("layerinfo", base, is, len(b)-is)
	return b
}

func (d *vfDoc) build(r *rand.Rand) {
	d.fixed = map[int]bool{}
	d.lens = nil
	is := 4
	if d.large() {
		is = 8
	}
	b := []byte("8BPS")
	b = append(b, put(2, uint64(d.version))...)
	b = append(b, vfBytes(r, 6)...)
	b = append(b, put(2, uint64(d.channels))...)
	d.mark("h", len(b), 4, d.h)
	b = append(b, put(4, uint64(d.h))...)
	d.mark("w", len(b), 4, d.w)
	b = append(b, put(4, uint64(d.w))...)
	b = append(b, put(2, uint64(d.depth))...)
	b = append(b, put(2, uint64(d.mode))...)
	d.mark("cmd", len(b), 4, len(d.cmd))
	b = append(b, put(4, uint64(len(d.cmd)))...)
	b = append(b, d.cmd...)
	d.hdrEnd = len(b)
	ro := len(b)
	b = append(b, 0, 0, 0, 0)
	for _, x := range d.res {
		b = append(b, x.sig...)
		b = append(b, put(2, uint64(x.id))...)
		b = append(b, byte(len(x.name)))
		b = append(b, x.name...)
		if len(x.name)%2 == 0 {
			b = append(b, 0)
		}
		d.mark("resdata", len(b), 4, len(x.data))
		b = append(b, put(4, uint64(len(x.data)))...)
		b = append(b, x.data...)
		if len(x.data)%2 == 1 {
			b = append(b, byte(r.Intn(2)))
		}
	}
	copy(b[ro:], put(4, uint64(len(b)-ro-4)))
	d.mark("res", ro, 4, len(b)-ro-4)
	d.cfgEnd = len(b)

	if d.noSection {
		d.mark("laymask", len(b), is, 0)
		b = append(b, make([]byte, is)...)
	} else {
		lo := len(b)
		b = append(b, make([]byte, is)...)
		d.layerInfoLen = 0
		if d.layerKey == "" {
			li := d.layerInfo(r, len(b))
			d.layerInfoLen = len(li) - is
			b = append(b, li...)
		} else {
			b = append(b, make([]byte, is)...)
		}
		if d.hasGlobal {
			d.mark("global", len(b), 4, len(d.global))
			b = append(b, put(4, uint64(len(d.global)))...)
			b = append(b, d.global...)
			k := 0
			if len(d.adds) > 0 {
				k = r.Intn(len(d.adds) + 1)
			}
			b = append(b, d.encAdds(len(b), d.adds[:k], "dadd")...)
			if d.layerKey != "" {
				b = append(b, "8BIM"+d.layerKey...)
				b = append(b, d.layerInfo(r, len(b))...)
			}
			b = append(b, d.encAdds(len(b), d.adds[k:], "dadd")...)
			b = append(b, make([]byte, d.tailPad)...)
		}
		copy(b[lo:], put(is, uint64(len(b)-lo-is)))
		d.mark("laymask", lo, is, len(b)-lo-is)
	}
	d.laySecE = len(b)
	b = append(b, put(2, uint64(d.comp))...)
	if d.comp == 1 {
		for k := 0; k < d.h*d.channels*is/2; k++ {
			d.fixed[len(b)+k] = true
		}
	}
	b = append(b, d.mergedEnc...)
	d.out = b
}

// ---- readers

type vfReader interface {
	io.Reader
	consumed() int
}

type vfPlain struct {
	b     []byte
	n     int
	chunk func(n int) int
	eof   bool // returns EOF together with the last data
	errAt int  // -1: never
	err   error
}

var errVF = errors.New("vf: read error")

func (p *vfPlain) Read(q []byte) (int, error) {
	if p.errAt >= 0 && p.n >= p.errAt {
		return 0, errVF
	}
	if len(q) == 0 {
		return 0, nil
	}
	if p.n >= len(p.b) {
		return 0, io.EOF
	}
	k := len(q)
	if p.chunk != nil {
		k = p.chunk(k)
	}
	if p.errAt >= 0 && p.n+k > p.errAt {
		k = p.errAt - p.n
	}
	k = copy(q[:k], p.b[p.n:])
	p.n += k
	if p.eof && p.n == len(p.b) {
		return k, io.EOF
	}
	return k, nil
}
func (p *vfPlain) consumed() int { return p.n }

type vfSeek struct {
	*bytes.Reader
	size int
}

func (s vfSeek) consumed() int { n, _ := s.Seek(0, 1); return int(n) }

type vfBuf struct {
	*bufio.Reader
	p *vfPlain
}

func (s vfBuf) consumed() int { return s.p.n - s.Buffered() }

// vfSeekShort is a seekable reader with short reads.
type vfSeekShort struct {
	*bytes.Reader
	r *rand.Rand
}

func (s vfSeekShort) Read(q []byte) (int, error) {
	if len(q) > 1 {
		q = q[:1+s.r.Intn(len(q))]
	}
	return s.Reader.Read(q)
}
func (s vfSeekShort) consumed() int { n, _ := s.Seek(0, 1); return int(n) }

const vfReaders = 7

func vfOpen(kind int, b []byte, r *rand.Rand) (vfReader, string) {
	switch kind % vfReaders {
	case 0:
		return vfSeek{bytes.NewReader(b), len(b)}, "seekable reader"
	case 1:
		return &vfPlain{b: b, errAt: -1}, "plain reader"
	case 2:
		return &vfPlain{b: b, errAt: -1, chunk: func(int) int { return 1 }}, "one-byte reader"
	case 3:
		return &vfPlain{b: b, errAt: -1, chunk: func(n int) int { return 1 + r.Intn(n) }}, "short-read reader"
	case 4:
		return &vfPlain{b: b, errAt: -1, eof: true, chunk: func(n int) int { return 1 + r.Intn(n) }}, "short-read reader with early EOF"
	case 5:
		p := &vfPlain{b: b, errAt: -1}
		return vfBuf{bufio.NewReaderSize(p, 16+r.Intn(64)), p}, "bufio reader"
	}
	return vfSeekShort{bytes.NewReader(b), r}, "seekable short-read reader"
}

type vfResult struct {
	p     *psd.PSD
	read  int
	err   error
	panic interface{}
	stack string
}

func vfDecode(rd io.Reader, o *psd.DecodeOptions) (res vfResult) {
	defer func() {
		if e := recover(); e != nil {
			res.panic = e
			res.stack = string(debug.Stack())
		}
	}()
	res.p, res.read, res.err = psd.Decode(rd, o)
	return
}

func vfDecodeConfig(rd io.Reader) (cfg psd.Config, n int, err error, pn interface{}) {
	defer func() {
		if e := recover(); e != nil {
			pn = e
		}
	}()
	cfg, n, err = psd.DecodeConfig(rd)
	return
}

// ---- expected pixels

func vfSample(depth int, p []byte, rl, x, y int) uint32 {
	row := p[y*rl : y*rl+rl]
	switch depth {
	case 1:
		return uint32(row[x/8]) >> (7 - uint(x)%8) & 1
	case 8:
		return uint32(row[x])
	case 16:
		return uint32(binary.BigEndian.Uint16(row[2*x:]))
	}
	return binary.BigEndian.Uint32(row[4*x:])
}

func f32(v uint32) float32 { return math.Float32frombits(v) }

// vfColor is the colour of samples s (with alpha a when hasA).
func vfColor(mode, depth int, s []uint32, hasA bool, a uint32, pal []color.NRGBA) (color.Color, color.Model) {
	switch mode {
	case 0:
		return psdcolor.Gray1{Y: s[0] == 0}, psdcolor.Gray1Model
	case 2:
		return pal[s[0]], nil
	}
	switch depth {
	case 8:
		av := uint8(255)
		if hasA {
			av = uint8(a)
		}
		switch mode {
		case 1:
			return psdcolor.NGrayA{Y: uint8(s[0]), A: av}, psdcolor.NGrayAModel
		case 3:
			return color.NRGBA{uint8(s[0]), uint8(s[1]), uint8(s[2]), av}, color.NRGBAModel
		case 4:
			return psdcolor.NCMYKA{C: uint8(s[0]), M: uint8(s[1]), Y: uint8(s[2]), K: uint8(s[3]), A: av}, psdcolor.NCMYKAModel
		}
	case 16:
		av := uint16(0xffff)
		if hasA {
			av = uint16(a)
		}
		switch mode {
		case 1:
			return psdcolor.NGrayA32{Y: uint16(s[0]), A: av}, psdcolor.NGrayA32Model
		case 3:
			return color.NRGBA64{uint16(s[0]), uint16(s[1]), uint16(s[2]), av}, color.NRGBA64Model
		case 4:
			return psdcolor.NCMYKA80{C: uint16(s[0]), M: uint16(s[1]), Y: uint16(s[2]), K: uint16(s[3]), A: av}, psdcolor.NCMYKA80Model
		}
	case 32:
		av := float32(1)
		if hasA {
			av = f32(a)
		}
		switch mode {
		case 1:
			return psdcolor.NGrayA64{Y: f32(s[0]), A: av}, psdcolor.NGrayA64Model
		case 3:
			return psdcolor.NRGBA128{R: f32(s[0]), G: f32(s[1]), B: f32(s[2]), A: av}, psdcolor.NRGBA128Model
		}
	}
	return nil, nil
}

func vfGrayColor(depth int, s uint32) (color.Color, color.Model) {
	switch depth {
	case 1:
		return psdcolor.Gray1{Y: s == 0}, psdcolor.Gray1Model
	case 8:
		return color.Gray{Y: uint8(s)}, color.GrayModel
	case 16:
		return color.Gray16{Y: uint16(s)}, color.Gray16Model
	}
	return psdcolor.Gray32{Y: f32(s)}, psdcolor.Gray32Model
}

func bitsEq(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }

func vfSameColor(a, b color.Color) bool {
	switch x := a.(type) {
	case psdcolor.Gray32:
		y, ok := b.(psdcolor.Gray32)
		return ok && bitsEq(x.Y, y.Y)
	case psdcolor.NGrayA64:
		y, ok := b.(psdcolor.NGrayA64)
		return ok && bitsEq(x.Y, y.Y) && bitsEq(x.A, y.A)
	case psdcolor.NRGBA128:
		y, ok := b.(psdcolor.NRGBA128)
		return ok && bitsEq(x.R, y.R) && bitsEq(x.G, y.G) && bitsEq(x.B, y.B) && bitsEq(x.A, y.A)
	}
	return a == b
}

func vfCheckImage(img image.Image, rect image.Rectangle, at func(x, y int) color.Color, model color.Model, pal []color.NRGBA) (err string) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Sprintf("panic reading the image: %v", e)
		}
	}()
	if img == nil {
		return "image is missing"
	}
	if img.Bounds() != rect {
		return fmt.Sprintf("bounds %v, expected %v", img.Bounds(), rect)
	}
	m := img.ColorModel()
	if pal != nil {
		p, ok := m.(color.Palette)
		if !ok || len(p) != 256 {
			return fmt.Sprintf("color model is %T, expected a palette of 256 colors", m)
		}
		for i := range p {
			if p[i] != color.Color(pal[i]) {
				return fmt.Sprintf("palette entry %d is %v, expected %v", i, p[i], pal[i])
			}
		}
	} else if m != model {
		return fmt.Sprintf("unexpected color model %v", m)
	}
	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		for x := rect.Min.X; x < rect.Max.X; x++ {
			c, e := img.At(x, y), at(x, y)
			if !vfSameColor(c, e) {
				return fmt.Sprintf("pixel (%d,%d) is %T%v, expected %T%v", x, y, c, c, e, e)
			}
			if pal == nil {
				if d := m.Convert(c); !vfSameColor(d, c) {
					return fmt.Sprintf("pixel (%d,%d) %T%v is not a color of the model (becomes %T%v)", x, y, c, c, d, d)
				}
			}
			c.RGBA()
		}
	}
	return ""
}

func (d *vfDoc) lastRes(id int) ([]byte, bool) {
	var b []byte
	ok := false
	for _, x := range d.res {
		if x.id == id {
			b, ok = x.data, true
		}
	}
	return b, ok
}

func (d *vfDoc) hasAlpha() bool {
	if d.mode == 0 || d.mode == 2 {
		return false
	}
	if d.channels <= modeChannels(d.mode) {
		return false
	}
	b, ok := d.lastRes(0x41d)
	if !ok {
		return true
	}
	for ; len(b) >= 4; b = b[4:] {
		if b[0]|b[1]|b[2]|b[3] == 0 {
			return true
		}
	}
	return false
}

func (d *vfDoc) palette() []color.NRGBA {
	if d.mode != 2 {
		return nil
	}
	ti := -1
	if b, ok := d.lastRes(0x417); ok && len(b) >= 2 {
		ti = int(b[0])*256 + int(b[1])
	}
	p := make([]color.NRGBA, 256)
	for i := range p {
		p[i] = color.NRGBA{d.cmd[i], d.cmd[256+i], d.cmd[512+i], 255}
		if i == ti {
			p[i].A = 0
		}
	}
	return p
}

func vfUTF16(u []uint16) string { return string(utf16.Decode(u)) }

// tree of layer indices
type vfNode struct {
	idx  int
	kids []vfNode
}

func (d *vfDoc) tree() []vfNode {
	stack := [][]vfNode{nil}
	for i, l := range d.layers {
		top := len(stack) - 1
		switch {
		case l.divKey != "" && l.divType == 3:
			stack = append(stack, nil)
		case l.divKey != "" && (l.divType == 1 || l.divType == 2):
			kids := stack[top]
			stack = stack[:top]
			stack[top-1] = append(stack[top-1], vfNode{i, kids})
		default:
			stack[top] = append(stack[top], vfNode{i, nil})
		}
	}
	return stack[0]
}

func runtimeProcs(n int) func() {
	old := runtime.GOMAXPROCS(n)
	return func() { runtime.GOMAXPROCS(old) }
}
