package psd_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"
	"strings"
	"testing"

	"github.com/oov/psd"
)

func vfOpts(r *rand.Rand) *psd.DecodeOptions {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return &psd.DecodeOptions{SkipLayerImage: true}
	case 2:
		return &psd.DecodeOptions{SkipMergedImage: true}
	case 3:
		return &psd.DecodeOptions{SkipLayerImage: true, SkipMergedImage: true}
	}
	return &psd.DecodeOptions{}
}

// valid decodes a valid document and reports unexpected errors.
func (v *vf) valid(d *vfDoc, o *psd.DecodeOptions) *psd.PSD {
	kind := 0
	if v.rng.Intn(3) == 0 {
		kind = v.rng.Intn(vfReaders)
	}
	rd, name := vfOpen(kind, d.out, v.rng)
	res := vfDecode(rd, o)
	if res.panic != nil {
		v.fail("Decode", d.out, "panic on a valid document (%s): %v", name, res.panic)
		return nil
	}
	if res.err != nil {
		v.fail("Decode", d.out, "valid document rejected (%s): %v", name, res.err)
		return nil
	}
	return res.p
}

// ---- full comparison of one decoded document, by property

func (v *vf) chkConfig(d *vfDoc, c psd.Config) {
	if c.Version != d.version || c.Channels != d.channels || c.Depth != d.depth || int(c.ColorMode) != d.mode ||
		c.Rect != image.Rect(0, 0, d.w, d.h) || !bytes.Equal(c.ColorModeData, d.cmd) || c.PSB() != d.large() {
		v.fail("Config", d.out, "header fields differ: %v channels %d depth %d mode %d rect %v psb %v", c.Version, c.Channels, c.Depth, c.ColorMode, c.Rect, c.PSB())
	}
}

func (v *vf) chkRes(d *vfDoc, c psd.Config) {
	want := map[int]vfRes{}
	for _, x := range d.res {
		want[x.id] = x
	}
	if len(want) != len(c.Res) {
		v.fail("Config.Res", d.out, "%d resources, expected %d", len(c.Res), len(want))
	}
	for id, x := range want {
		g, ok := c.Res[id]
		if !ok || g.Name != x.name || !bytes.Equal(g.Data, x.data) {
			v.fail("Config.Res", d.out, "resource %#x differs (present %v, name %q, %d bytes; expected name %q, %d bytes)", id, ok, g.Name, len(g.Data), x.name, len(x.data))
		}
	}
}

func flat(ls []psd.Layer, m map[int]psd.Layer) (dup bool) {
	for _, l := range ls {
		if _, ok := m[l.SeqID]; ok {
			dup = true
		}
		m[l.SeqID] = l
		if flat(l.Layer, m) {
			dup = true
		}
	}
	return
}

func (v *vf) layers(d *vfDoc, p *psd.PSD) map[int]psd.Layer {
	m := map[int]psd.Layer{}
	flat(p.Layer, m)
	n := 0
	for i, l := range d.layers {
		if l.divKey != "" && l.divType == 3 {
			continue
		}
		n++
		if _, ok := m[i]; !ok {
			v.fail("Layer", d.out, "layer #%d is missing", i)
		}
	}
	if len(m) != n {
		v.fail("Layer", d.out, "%d layers, expected %d", len(m), n)
	}
	return m
}

func (v *vf) chkLayer(d *vfDoc, i int, g psd.Layer) {
	l := d.layers[i]
	bad := func(f string, a, b interface{}) {
		v.fail("Layer", d.out, "layer #%d: %s is %v, expected %v", i, f, a, b)
	}
	if g.Rect != l.rect && !(g.Rect.Empty() && l.rect.Empty() && g.Rect == image.Rect(l.rect.Min.X, l.rect.Min.Y, l.rect.Max.X, l.rect.Max.Y)) {
		bad("Rect", g.Rect, l.rect)
	}
	if string(g.BlendMode) != l.blend {
		bad("BlendMode", g.BlendMode, l.blend)
	}
	if g.Opacity != l.opacity || g.Flags != l.flags || g.Clipping != (l.clipping != 0) {
		bad("opacity/flags/clipping", fmt.Sprint(g.Opacity, g.Flags, g.Clipping), fmt.Sprint(l.opacity, l.flags, l.clipping))
	}
	mb, un := l.name, ""
	if l.noExtra {
		mb = ""
	}
	name := mb
	if l.hasUname && !l.noExtra {
		un = vfUTF16(l.uname)
		name = un
	}
	if g.MBCSName != mb || g.UnicodeName != un || g.Name != name || g.String() != name {
		bad("name", fmt.Sprintf("%q %q %q", g.MBCSName, g.UnicodeName, g.Name), fmt.Sprintf("%q %q %q", mb, un, name))
	}
	cl := true
	if l.clbl >= 0 && !l.noExtra {
		cl = l.clbl != 0
	}
	if g.BlendClippedElements != cl {
		bad("BlendClippedElements", g.BlendClippedElements, cl)
	}
	typ, db, sub := 0, l.blend, 0
	if l.divKey != "" && !l.noExtra {
		typ, sub = l.divType, l.divSub
		if l.divBlend != "" {
			db = l.divBlend
		}
	}
	if g.SectionDividerSetting.Type != typ || string(g.SectionDividerSetting.BlendMode) != db || g.SectionDividerSetting.SubType != sub {
		bad("SectionDividerSetting", g.SectionDividerSetting, fmt.Sprint(typ, db, sub))
	}
	if g.Visible() != (l.flags&2 == 0) || g.TransparencyProtected() != (l.flags&1 != 0) || g.HasImage() != (typ == 0) ||
		g.Folder() != (typ == 1 || typ == 2) || g.FolderIsOpen() != (typ == 1) {
		bad("queries", fmt.Sprint(g.Visible(), g.TransparencyProtected(), g.HasImage(), g.Folder(), g.FolderIsOpen()), fmt.Sprint(l.flags, typ))
	}
}

func (v *vf) chkMask(d *vfDoc, i int, g psd.Layer) {
	e := d.layers[i].mask.exp
	m := g.Mask
	fe := func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }
	if m.Rect != e.Rect || m.DefaultColor != e.DefaultColor || m.Flags != e.Flags || m.RealRect != e.RealRect || m.RealBackgroundColor != e.RealBackgroundColor ||
		m.RealFlags != e.RealFlags || m.UserMaskDensity != e.UserMaskDensity || m.VectorMaskDensity != e.VectorMaskDensity ||
		!fe(m.UserMaskFeather, e.UserMaskFeather) || !fe(m.VectorMaskFeather, e.VectorMaskFeather) {
		v.fail("Layer.Mask", d.out, "layer #%d: mask %+v, expected %+v (record % x)", i, m, e, d.layers[i].mask.raw)
	}
	if m.Enabled() != (e.Flags&2 == 0) || m.RealEnabled() != (e.RealFlags&2 == 0) {
		v.fail("Layer.Mask", d.out, "layer #%d: mask enabled %v %v, flags %d %d", i, m.Enabled(), m.RealEnabled(), e.Flags, e.RealFlags)
	}
}

func (v *vf) cmpAdds(d *vfDoc, where string, as []vfAdd, got map[psd.AdditionalInfoKey][]byte, layer bool) {
	want := map[string][]byte{}
	for _, a := range as {
		if layer && (a.key == "luni" || a.key == "clbl" || a.key == "lsct") {
			continue
		}
		want[a.key] = a.data
	}
	if len(got) != len(want) {
		v.fail(where, d.out, "%d blocks, expected %d", len(got), len(want))
	}
	for k, b := range want {
		g, ok := got[psd.AdditionalInfoKey(k)]
		if !ok || !bytes.Equal(g, b) {
			v.fail(where, d.out, "block %q differs (present %v, %d bytes, expected %d bytes)", k, ok, len(g), len(b))
		}
	}
}

func (v *vf) chkTree(d *vfDoc, p *psd.PSD) {
	var cmp func(ns []vfNode, ls []psd.Layer, path string)
	cmp = func(ns []vfNode, ls []psd.Layer, path string) {
		if len(ns) != len(ls) {
			v.fail("PSD.Layer", d.out, "%s: %d layers, expected %d", path, len(ls), len(ns))
			return
		}
		for i := range ns {
			if ls[i].SeqID != ns[i].idx {
				v.fail("PSD.Layer", d.out, "%s[%d] is layer #%d, expected #%d", path, i, ls[i].SeqID, ns[i].idx)
				return
			}
			cmp(ns[i].kids, ls[i].Layer, fmt.Sprintf("%s/%d", path, ns[i].idx))
		}
	}
	cmp(d.tree(), p.Layer, "root")
}

func (v *vf) chkPlanes(d *vfDoc, p *psd.PSD) {
	all := bytes.Join(d.planes, nil)
	if !bytes.Equal(p.Data, all) {
		v.fail("PSD.Data", d.out, "merged data differs from the stored planes (%d bytes, expected %d)", len(p.Data), len(all))
		return
	}
	if len(p.Channel) != d.channels {
		v.fail("PSD.Channel", d.out, "%d channels, expected %d", len(p.Channel), d.channels)
	}
	for i := 0; i < d.channels; i++ {
		if !bytes.Equal(p.Channel[i].Data, d.planes[i]) {
			v.fail("PSD.Channel", d.out, "channel %d differs", i)
		}
	}
}

func (v *vf) chkLayerPlanes(d *vfDoc, i int, g psd.Layer) {
	ids := map[int]bool{}
	for _, c := range d.layers[i].chans {
		ids[c.id] = true
		ch, ok := g.Channel[c.id]
		if !ok || !bytes.Equal(ch.Data, c.plane) {
			v.fail("Layer.Channel", d.out, "layer #%d channel %d (method %d) differs (present %v, %d bytes, expected %d)", i, c.id, c.comp, ok, len(ch.Data), len(c.plane))
		}
	}
	if len(ids) != len(g.Channel) {
		v.fail("Layer.Channel", d.out, "layer #%d has %d channels, expected %d", i, len(g.Channel), len(ids))
	}
}

// stage: 1 only channel pickers, 2 only composite pickers, 3 both
func (v *vf) chkMergedImage(d *vfDoc, p *psd.PSD, stage int) {
	rl := vfRow(d.w, d.depth)
	if stage&1 != 0 {
		for i := 0; i < d.channels; i++ {
			_, model := vfGrayColor(d.depth, 0)
			e := vfCheckImage(p.Channel[i].Picker, image.Rect(0, 0, d.w, d.h), func(x, y int) color.Color {
				c, _ := vfGrayColor(d.depth, vfSample(d.depth, d.planes[i], rl, x, y))
				return c
			}, model, nil)
			if e != "" {
				v.fail("Channel.Picker", d.out, "channel %d: %s", i, e)
			}
		}
	}
	if stage&2 == 0 {
		return
	}
	nc, ha := modeChannels(d.mode), d.hasAlpha()
	pal := d.palette()
	s := make([]uint32, nc)
	_, model := vfColor(d.mode, d.depth, s, ha, 0, append([]color.NRGBA{{}}, pal...))
	e := vfCheckImage(p.Picker, image.Rect(0, 0, d.w, d.h), func(x, y int) color.Color {
		for k := range s {
			s[k] = vfSample(d.depth, d.planes[k], rl, x, y)
		}
		var a uint32
		if ha {
			a = vfSample(d.depth, d.planes[nc], rl, x, y)
		}
		c, _ := vfColor(d.mode, d.depth, s, ha, a, pal)
		return c
	}, model, pal)
	if e != "" {
		v.fail("PSD.Picker", d.out, "mode %d depth %d alpha %v: %s", d.mode, d.depth, ha, e)
	}
}

func (v *vf) chkLayerImage(d *vfDoc, i int, g psd.Layer, stage int) {
	l := d.layers[i]
	if stage&1 != 0 {
		for _, c := range l.chans {
			_, model := vfGrayColor(d.depth, 0)
			rl := vfRow(c.rect.Dx(), d.depth)
			e := vfCheckImage(g.Channel[c.id].Picker, c.rect, func(x, y int) color.Color {
				q, _ := vfGrayColor(d.depth, vfSample(d.depth, c.plane, rl, x-c.rect.Min.X, y-c.rect.Min.Y))
				return q
			}, model, nil)
			if e != "" {
				v.fail("Channel.Picker", d.out, "layer #%d channel %d: %s", i, c.id, e)
			}
		}
	}
	if stage&2 == 0 {
		return
	}
	nc := modeChannels(d.mode)
	planes := map[int][]byte{}
	for _, c := range l.chans {
		planes[c.id] = c.plane
	}
	_, ha := planes[-1]
	rl := vfRow(l.rect.Dx(), d.depth)
	s := make([]uint32, nc)
	_, model := vfColor(d.mode, d.depth, s, ha, 0, nil)
	e := vfCheckImage(g.Picker, l.rect, func(x, y int) color.Color {
		x -= l.rect.Min.X
		y -= l.rect.Min.Y
		for k := range s {
			s[k] = 0
			if pl, ok := planes[k]; ok {
				s[k] = vfSample(d.depth, pl, rl, x, y)
			}
		}
		var a uint32
		if ha {
			a = vfSample(d.depth, planes[-1], rl, x, y)
		}
		c, _ := vfColor(d.mode, d.depth, s, ha, a, nil)
		return c
	}, model, nil)
	if e != "" {
		v.fail("Layer.Picker", d.out, "layer #%d mode %d depth %d alpha %v: %s", i, d.mode, d.depth, ha, e)
	}
}

var pfFull = vfProfile{layers: 4, res: 4, mask: true, adds: 3, comp: -1, mode: -1}

// ---- C01: no panics

func vfReadAll(p *psd.PSD, budget int) (pn interface{}) {
	defer func() {
		if e := recover(); e != nil {
			pn = e
		}
	}()
	if p == nil {
		return nil
	}
	p.Config.Palette()
	p.Config.PSB()
	touch := func(m image.Image) {
		if m == nil {
			return
		}
		m.ColorModel()
		b := m.Bounds()
		if b.Dx() <= 0 || b.Dy() <= 0 {
			return
		}
		n := b.Dx() * b.Dy()
		if n/b.Dx() != b.Dy() {
			n = budget + 1
		}
		if n <= budget {
			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					m.At(x, y).RGBA()
				}
			}
		} else {
			for _, y := range []int{b.Min.Y, b.Min.Y + b.Dy()/2, b.Max.Y - 1} {
				for _, x := range []int{b.Min.X, b.Min.X + b.Dx()/2, b.Max.X - 1} {
					m.At(x, y).RGBA()
				}
			}
		}
		budget -= n
	}
	touch(p.Picker)
	for _, c := range p.Channel {
		touch(c.Picker)
	}
	var walk func(ls []psd.Layer)
	walk = func(ls []psd.Layer) {
		for i := range ls {
			l := &ls[i]
			_ = l.Visible() || l.Folder() || l.FolderIsOpen() || l.HasImage() || l.TransparencyProtected() || l.Mask.Enabled() || l.Mask.RealEnabled()
			_ = l.String()
			touch(l.Picker)
			for _, c := range l.Channel {
				touch(c.Picker)
			}
			walk(l.Layer)
		}
	}
	walk(p.Layer)
	return nil
}

func putAt(b []byte, off, size int, val uint64) {
	copy(b[off:off+size], put(size, val))
}

func TestVF_C01(t *testing.T) {
	v := vfNew(t, "C01")
	for v.next() {
		r := v.rng
		pf := pfFull
		if r.Intn(3) == 0 {
			pf.tree = true
		}
		if r.Intn(6) == 0 {
			pf.unsup, pf.layers = true, 0
		}
		d := vfGen(r, pf)
		if r.Intn(2) == 0 {
			d.addWeird(r)
		}
		b := append([]byte{}, d.out...)
		what := "valid"
		kind := r.Intn(vfReaders)
		var rd vfReader
		name := ""
		switch r.Intn(8) {
		case 0: // nothing
		case 1: // truncation
			b = b[:r.Intn(len(b)+1)]
			what = "truncated"
		case 2: // reader error at any byte
			at := r.Intn(len(b) + 1)
			rd = &vfPlain{b: b, errAt: at, chunk: func(n int) int { return 1 + r.Intn(n) }}
			name = fmt.Sprintf("reader failing at %d", at)
		case 3, 4: // change a length field moderately
			for k := 1 + r.Intn(2); k > 0; k-- {
				m := d.lens[r.Intn(len(d.lens))]
				if m.kind == "w" || m.kind == "h" || m.kind == "coord" {
					continue
				}
				val := m.val + pick(r, -4, -3, -2, -1, 1, 2, 3, 4, 8)
				switch r.Intn(8) {
				case 0:
					val = r.Intn(40)
				case 1:
					if m.kind != "cmd" && m.kind != "resdata" && m.kind != "count" && m.kind != "nch" {
						val = pick(r, 1<<31-1, 1<<31, 1<<32-1, 1<<20)
					}
				case 2:
					if m.size == 8 && m.kind != "chlen" {
						val = -1 - r.Intn(20)
					} else if m.size == 8 {
						val = -1 - r.Intn(5)
					}
				}
				putAt(b, m.off, m.size, uint64(val))
				what = fmt.Sprintf("%s at %d := %d", m.kind, m.off, val)
			}
		default: // random bytes outside the length fields
			for k := 1 + r.Intn(4); k > 0; k-- {
				o := r.Intn(len(b))
				if r.Intn(2) == 0 && d.hdrEnd < len(b) {
					o = d.hdrEnd + r.Intn(len(b)-d.hdrEnd)
				}
				if d.fixed[o] || (o >= 14 && o < 22) {
					continue
				}
				switch r.Intn(3) {
				case 0:
					b[o] = byte(r.Intn(256))
				case 1:
					b[o] ^= 1 << uint(r.Intn(8))
				default:
					b[o] = byte(pick(r, 0, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0xff))
				}
				what = "mutated"
			}
		}
		if rd == nil {
			rd, name = vfOpen(kind, b, r)
		}
		if r.Intn(5) == 0 {
			c, _, _, pn := vfDecodeConfig(rd)
			if pn != nil {
				v.fail("DecodeConfig", b, "panic (%s, %s): %v", what, name, pn)
				continue
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						v.fail("Palette", b, "panic (%s): %v", what, e)
					}
				}()
				c.Palette()
			}()
			continue
		}
		o := vfOpts(r)
		res := vfDecode(rd, o)
		if res.panic != nil {
			st := res.stack
			if len(st) > 1500 {
				st = st[:1500]
			}
			v.fail("Decode", b, "panic (%s, %s): %v\n%s", what, name, res.panic, st)
			continue
		}
		if res.err == nil {
			if pn := vfReadAll(res.p, 20000); pn != nil {
				v.fail("reading the result", b, "panic (%s): %v", what, pn)
			}
			if o == nil || !o.SkipMergedImage {
				if res.p.Picker == nil {
					v.fail("Decode", b, "no merged image")
				}
			}
		}
		if r.Intn(10) == 0 {
			func() {
				defer func() {
					if e := recover(); e != nil {
						v.fail("image.Decode", b, "panic (%s): %v", what, e)
					}
				}()
				image.Decode(bytes.NewReader(b))
				image.DecodeConfig(bytes.NewReader(b))
			}()
		}
	}
}

// addWeird replaces some blocks by unusual ones and encodes the document again.
func (d *vfDoc) addWeird(r *rand.Rand) {
	for i := range d.layers {
		l := &d.layers[i]
		for k := range l.adds {
			a := &l.adds[k]
			switch a.key {
			case "luni":
				if len(a.data) >= 4 && r.Intn(2) == 0 {
					copy(a.data, put(4, uint64(pick(r, 0, len(l.uname)-1, len(l.uname)+1, len(l.uname)+3, 1<<31-1, 1<<32-1, 1<<31))))
				} else {
					a.data = a.data[:r.Intn(len(a.data)+1)]
				}
			case "clbl", "lsct", "lsdk":
				if r.Intn(2) == 0 {
					a.data = a.data[:r.Intn(len(a.data)+1)]
				}
			}
		}
	}
	for k := range d.res {
		if x := &d.res[k]; x.id == 0x417 || x.id == 0x41d {
			x.data = vfBytes(r, r.Intn(10))
		}
	}
	if d.mode == 2 && r.Intn(2) == 0 {
		d.cmd = d.cmd[:pick(r, 0, 1, 255, 256, 512, 767, r.Intn(768))]
	}
	d.build(r)
}

// ---- C02: counts

func TestVF_C02(t *testing.T) {
	v := vfNew(t, "C02")
	for v.next() {
		r := v.rng
		pf := pfFull
		pf.tree = r.Intn(4) == 0
		if r.Intn(5) == 0 {
			v.planeCount(r)
			continue
		}
		d := vfGen(r, pf)
		b := d.out
		if r.Intn(3) == 0 && len(b) > 1 {
			// broken or truncated: when it is accepted all the same the count must be right
			b = append([]byte{}, b...)
			cut := len(b) - 1 - r.Intn(len(b)-1)
			if r.Intn(2) == 0 && d.laySecE > 0 && d.laySecE < len(b) {
				cut = d.laySecE - 1 - r.Intn(pick(r, 4, 40))
			}
			if cut < 1 {
				cut = 1
			}
			b = b[:cut]
			rd, name := vfOpen(r.Intn(vfReaders), b, r)
			o := vfOpts(r)
			if r.Intn(2) == 0 {
				o = &psd.DecodeOptions{SkipLayerImage: r.Intn(2) == 0, SkipMergedImage: true}
			}
			res := vfDecode(rd, o)
			if res.panic == nil && res.err == nil && (res.read != rd.consumed() || res.read > len(b)) {
				v.fail("Decode", b, "%s: reported %d bytes of a %d byte input, consumed %d", name, res.read, len(b), rd.consumed())
			}
			continue
		}
		tail := vfBytes(r, pick(r, 0, 3, 5000))
		b = append(append([]byte{}, b...), tail...)
		kind := r.Intn(vfReaders)
		rd, name := vfOpen(kind, b, r)
		if r.Intn(4) == 0 {
			_, n, err, pn := vfDecodeConfig(rd)
			if err != nil || pn != nil {
				v.fail("DecodeConfig", d.out, "valid document rejected (%s): %v %v", name, err, pn)
				continue
			}
			if n != rd.consumed() || n != d.cfgEnd {
				v.fail("DecodeConfig", d.out, "%s: reported %d bytes, consumed %d, the configuration ends at %d", name, n, rd.consumed(), d.cfgEnd)
			}
			continue
		}
		o := vfOpts(r)
		res := vfDecode(rd, o)
		if res.panic != nil || res.err != nil {
			v.fail("Decode", d.out, "valid document rejected (%s): %v %v", name, res.err, res.panic)
			continue
		}
		if res.read != rd.consumed() {
			v.fail("Decode", b, "%s: reported %d bytes, consumed %d", name, res.read, rd.consumed())
			continue
		}
		end := len(d.out)
		if o != nil && o.SkipMergedImage {
			end = d.laySecE
		} else if d.comp >= 2 {
			continue
		}
		if res.read != end {
			v.fail("Decode", b, "%s: reported %d bytes, the document ends at %d", name, res.read, end)
		}
	}
}

func (v *vf) planeCount(r *rand.Rand) {
	w, h := r.Intn(9), r.Intn(6)
	depth := pick(r, 1, 8, 16, 32)
	ch := 1 + r.Intn(3)
	large := r.Intn(2) == 0
	comp := r.Intn(4)
	if comp == 3 && (depth < 16 || w == 0) {
		comp = 2
	}
	var planes [][]byte
	for i := 0; i < ch; i++ {
		planes = append(planes, vfBytes(r, vfRow(w, depth)*h))
	}
	enc := vfEncode(r, planes, w, depth, comp, large)
	if comp == 1 && vfRow(w, depth) == 0 {
		k := 2
		if large {
			k = 4
		}
		enc = make([]byte, h*ch*k)
	}
	hint := int64(0)
	if r.Intn(2) == 0 {
		hint = int64(len(enc))
	}
	b := append(append([]byte{}, enc...), vfBytes(r, pick(r, 0, 7, 6000))...)
	rd, name := vfOpen(r.Intn(vfReaders), b, r)
	var n int
	var err error
	dest := make([]byte, vfRow(w, depth)*h*ch)
	func() {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("panic: %v", e)
			}
		}()
		n, err = psd.CompressionMethod(comp).Decode(dest, rd, hint, image.Rect(0, 0, w, h), depth, ch, large)
	}()
	if err != nil {
		v.fail("CompressionMethod.Decode", enc, "method %d %dx%d depth %d channels %d large %v (%s): %v", comp, w, h, depth, ch, large, name, err)
		return
	}
	if n != rd.consumed() {
		v.fail("CompressionMethod.Decode", enc, "method %d %dx%d depth %d channels %d large %v hint %d (%s): reported %d, consumed %d", comp, w, h, depth, ch, large, hint, name, n, rd.consumed())
	}
	if want := bytes.Join(planes, nil); !bytes.Equal(dest, want) {
		v.fail("CompressionMethod.Decode", enc, "method %d %dx%d depth %d channels %d large %v: planes differ", comp, w, h, depth, ch, large)
	}
}

// ---- C03: sections

func TestVF_C03(t *testing.T) {
	v := vfNew(t, "C03")
	for v.next() {
		r := v.rng
		pf := pfFull
		pf.strict = r.Intn(2) == 0
		if pf.strict {
			pf.comp = r.Intn(2) // the exact end of zlib data cannot be seen from outside
		}
		d := vfGen(r, pf)
		rd, name := vfOpen(r.Intn(vfReaders), d.out, r)
		res := vfDecode(rd, nil)
		if res.panic != nil || res.err != nil {
			v.fail("Decode", d.out, "valid document rejected (%s): %v %v", name, res.err, res.panic)
			continue
		}
		v.chkRes(d, res.p.Config)
		v.chkPlanes(d, res.p)
		for i, g := range v.layers(d, res.p) {
			v.chkLayerPlanes(d, i, g)
			v.cmpAdds(d, "Layer.AdditionalLayerInfo", d.layers[i].adds, g.AdditionalLayerInfo, true)
		}
		v.cmpAdds(d, "PSD.AdditinalLayerInfo", d.adds, res.p.AdditinalLayerInfo, false)
		if v.fails > 0 {
			continue
		}
		if !pf.strict {
			continue
		}
		// declare a different length: the content no longer fits
		for try := 0; try < 4; try++ {
			m := d.lens[r.Intn(len(d.lens))]
			b := append([]byte{}, d.out...)
			var val int
			switch m.kind {
			case "res":
				val = m.val + pick(r, -4, -3, -2, -1, 1, 2, 3, 4)
				if d.laySecE-d.cfgEnd < 8 && val > m.val {
					continue
				}
			case "laymask", "layerinfo", "extra":
				val = m.val - 1 - r.Intn(5)
				if val <= 0 {
					continue
				}
				if m.kind == "laymask" {
					// a few left-over bytes count as padding
					rem := val - m.size - d.layerInfoLen
					k := rem - 4 - len(d.global)
					if rem >= 0 && rem < 4 || k >= 0 && k < 8 {
						continue
					}
				}
			case "chlen":
				if m.val <= 2 {
					continue
				}
				val = m.val - 1 - r.Intn(m.val-2)
				if val < 2 {
					continue
				}
				if val == 2 {
					// only the compression word: the plane is then empty
					continue
				}
			default:
				continue
			}
			putAt(b, m.off, m.size, uint64(val))
			rd, name := vfOpen(r.Intn(vfReaders), b, r)
			res := vfDecode(rd, nil)
			if res.panic != nil {
				v.fail("Decode", b, "%s length %d instead of %d: panic %v", m.kind, val, m.val, res.panic)
			} else if res.err == nil {
				v.fail("Decode", b, "%s at offset %d declares %d bytes but needs %d, decoding succeeded (%s)", m.kind, m.off, val, m.val, name)
			}
		}
	}
}

// ---- C04: header

func vfHeader(ver, ch int, h, w uint32, depth, mode int, cmd []byte) []byte {
	b := []byte("8BPS")
	b = append(b, put(2, uint64(ver))...)
	b = append(b, 1, 2, 3, 4, 5, 6)
	b = append(b, put(2, uint64(ch))...)
	b = append(b, put(4, uint64(h))...)
	b = append(b, put(4, uint64(w))...)
	b = append(b, put(2, uint64(depth))...)
	b = append(b, put(2, uint64(mode))...)
	b = append(b, put(4, uint64(len(cmd)))...)
	b = append(b, cmd...)
	return append(b, 0, 0, 0, 0)
}

func TestVF_C04(t *testing.T) {
	v := vfNew(t, "C04")
	vers := []int{0, 1, 2, 3, 256, 257, 258, 513, 0x8001, 65535}
	chs := []int{0, 1, 2, 3, 4, 55, 56, 57, 256, 257, 312, 65535, 0x8001}
	dims := []uint32{0, 1, 2, 255, 256, 29999, 30000, 30001, 65535, 65536, 65537, 299999, 300000, 300001, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}
	depths := []int{0, 1, 2, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 257, 264, 2048, 65535}
	modes := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 255, 256, 259, 0x0300, 65535, 0x8000}
	check := func(ver, ch int, h, w uint32, depth, mode int, cmd []byte, sig int) {
		b := vfHeader(ver, ch, h, w, depth, mode, cmd)
		if sig >= 0 {
			b[sig] ^= 1 << uint(v.rng.Intn(8))
		}
		max := uint32(30000)
		if ver == 2 {
			max = 300000
		}
		ok := sig < 0 && (ver == 1 || ver == 2) && ch >= 1 && ch <= 56 && w >= 1 && w <= max && h >= 1 && h <= max && (depth == 1 || depth == 8 || depth == 16 || depth == 32)
		c, n, err, pn := vfDecodeConfig(bytes.NewReader(b))
		if pn != nil {
			v.fail("DecodeConfig", b, "panic: %v", pn)
			return
		}
		if ok != (err == nil) {
			v.fail("DecodeConfig", b, "version %d channels %d size %dx%d depth %d signature %q: error %v", ver, ch, w, h, depth, b[:4], err)
			return
		}
		if !ok {
			return
		}
		if c.Version != ver || c.Channels != ch || c.Depth != depth || int(c.ColorMode) != int(int16(mode)) && int(c.ColorMode) != mode || c.Rect != image.Rect(0, 0, int(w), int(h)) ||
			!bytes.Equal(c.ColorModeData, cmd) || c.PSB() != (ver == 2) || n != len(b) || len(c.Res) != 0 {
			v.fail("DecodeConfig", b, "stored version %d channels %d size %dx%d depth %d mode %d; decoded %d %d %v %d %d psb %v", ver, ch, w, h, depth, mode, c.Version, c.Channels, c.Rect, c.Depth, c.ColorMode, c.PSB())
		}
	}
	for v.next() {
		r := v.rng
		if v.iter == 1 {
			for _, x := range vers {
				check(x, 3, 5, 7, 8, 3, nil, -1)
			}
			for _, x := range chs {
				check(1, x, 5, 7, 8, 3, nil, -1)
				check(2, x, 5, 7, 8, 3, nil, -1)
			}
			for _, x := range dims {
				for ver := 1; ver <= 2; ver++ {
					check(ver, 3, x, 7, 8, 3, nil, -1)
					check(ver, 3, 7, x, 8, 3, nil, -1)
				}
			}
			for d := 0; d < 300; d++ {
				check(1, 3, 2, 3, d, 3, nil, -1)
			}
			for _, x := range depths {
				check(2, 3, 2, 3, x, 3, nil, -1)
			}
			for _, x := range modes {
				check(1, 3, 2, 3, 8, x, nil, -1)
			}
			for k := 0; k < 4; k++ {
				for n := 0; n < 20; n++ {
					check(1, 3, 2, 3, 8, 3, nil, k)
				}
			}
			for n := 0; n < 300; n++ {
				check(1, 1+n%56, uint32(n+1), uint32(2*n+1), 8, 1, vfBytes(r, n), -1)
			}
		}
		sig := -1
		if r.Intn(20) == 0 {
			sig = r.Intn(4)
		}
		ver := 1 + r.Intn(2)
		ch := 1 + r.Intn(56)
		h, w := uint32(1+r.Intn(30000)), uint32(1+r.Intn(30000))
		if r.Intn(4) == 0 {
			h = uint32(r.Intn(310000))
		}
		if r.Intn(4) == 0 {
			w = uint32(r.Intn(310000))
		}
		if r.Intn(20) == 0 {
			w = dims[r.Intn(len(dims))]
		}
		if r.Intn(20) == 0 {
			h = dims[r.Intn(len(dims))]
		}
		if r.Intn(20) == 0 {
			ver = vers[r.Intn(len(vers))]
		}
		if r.Intn(20) == 0 {
			ch = chs[r.Intn(len(chs))]
		}
		dp := pick(r, 1, 8, 16, 32)
		if r.Intn(15) == 0 {
			dp = r.Intn(70)
		}
		check(ver, ch, h, w, dp, modes[r.Intn(len(modes))], vfBytes(r, r.Intn(12)), sig)
		d := vfGen(r, vfProfile{res: 2, comp: -1, mode: -1})
		c, _, err, pn := vfDecodeConfig(bytes.NewReader(d.out))
		if err != nil || pn != nil {
			v.fail("DecodeConfig", d.out, "valid document rejected: %v %v", err, pn)
			continue
		}
		v.chkConfig(d, c)
	}
}

// ---- C05..C08, C12..C14

func TestVF_C05(t *testing.T) {
	v := vfNew(t, "C05")
	for v.next() {
		d := vfGen(v.rng, vfProfile{res: 12, comp: 0, mode: -1})
		kind := v.rng.Intn(vfReaders)
		rd, name := vfOpen(kind, d.out, v.rng)
		c, _, err, pn := vfDecodeConfig(rd)
		if err != nil || pn != nil {
			v.fail("DecodeConfig", d.out, "valid document rejected (%s): %v %v", name, err, pn)
			continue
		}
		v.chkRes(d, c)
		if v.rng.Intn(4) == 0 {
			if p := v.valid(d, vfOpts(v.rng)); p != nil {
				v.chkRes(d, p.Config)
			}
		}
	}
}

func (v *vf) each(d *vfDoc, f func(i int, g psd.Layer)) {
	p := v.valid(d, &psd.DecodeOptions{SkipMergedImage: v.rng.Intn(2) == 0, SkipLayerImage: v.rng.Intn(2) == 0})
	if p == nil {
		return
	}
	for i, g := range v.layers(d, p) {
		if i < len(d.layers) {
			f(i, g)
		}
	}
}

func TestVF_C06(t *testing.T) {
	v := vfNew(t, "C06")
	for v.next() {
		d := vfGen(v.rng, vfProfile{layers: 5, adds: 2, mask: v.rng.Intn(3) == 0, comp: 0, mode: -1, tree: v.rng.Intn(2) == 0})
		v.each(d, func(i int, g psd.Layer) {
			v.chkLayer(d, i, g)
			if g.Channel != nil && len(g.Channel) != len(d.layers[i].chans) {
				v.fail("Layer.Channel", d.out, "layer #%d has %d channels, expected %d", i, len(g.Channel), len(d.layers[i].chans))
			}
		})
	}
}

func TestVF_C07(t *testing.T) {
	v := vfNew(t, "C07")
	for v.next() {
		d := vfGen(v.rng, vfProfile{layers: 6, mask: true, comp: 0, mode: pick(v.rng, 1, 3)})
		v.each(d, func(i int, g psd.Layer) { v.chkMask(d, i, g) })
	}
}

func TestVF_C08(t *testing.T) {
	v := vfNew(t, "C08")
	for v.next() {
		if v.iter == 1 {
			wide := map[string]bool{}
			for _, k := range wideKeys {
				wide[k] = true
			}
			keys := append(append([]string{"luni", "clbl", "lsct", "lsdk", "", "LMs", "LMskx"}, wideKeys...), plainKeys...)
			for _, k := range wideKeys {
				for i := range k {
					q := []byte(k)
					q[i] ^= 1
					keys = append(keys, string(q))
					q[i] ^= 1 ^ 0x20
					keys = append(keys, string(q))
				}
				keys = append(keys, strings.ToLower(k), strings.ToUpper(k))
			}
			for _, k := range keys {
				e := 4
				if wide[k] {
					e = 8
				}
				if g := psd.AdditionalInfoKey(k).LenSize(true); g != e {
					v.fail("LenSize", []byte(k), "key %q in a large document: %d, expected %d", k, g, e)
				}
				if g := psd.AdditionalInfoKey(k).LenSize(false); g != 4 {
					v.fail("LenSize", []byte(k), "key %q in a small document: %d, expected 4", k, g)
				}
			}
		}
		d := vfGen(v.rng, vfProfile{layers: 4, adds: 8, comp: 0, mode: -1})
		p := v.valid(d, &psd.DecodeOptions{SkipMergedImage: v.rng.Intn(2) == 0})
		if p == nil {
			continue
		}
		for i, g := range v.layers(d, p) {
			v.cmpAdds(d, fmt.Sprintf("layer #%d AdditionalLayerInfo", i), d.layers[i].adds, g.AdditionalLayerInfo, true)
		}
		v.cmpAdds(d, "PSD.AdditinalLayerInfo", d.adds, p.AdditinalLayerInfo, false)
	}
}

func TestVF_C09(t *testing.T) {
	v := vfNew(t, "C09")
	for v.next() {
		r := v.rng
		if r.Intn(8) == 0 {
			d := vfGen(r, vfProfile{layers: 3, comp: 1, mode: -1, big: true})
			rst := runtimeProcs(1 + r.Intn(10))
			if p := v.valid(d, nil); p != nil {
				v.chkPlanes(d, p)
				for i, g := range v.layers(d, p) {
					v.chkLayerPlanes(d, i, g)
				}
			}
			rst()
			continue
		}
		w, h, depth, ch, large := 1+r.Intn(20), 1+r.Intn(40), pick(r, 1, 8, 8, 16, 32), 1+r.Intn(3), r.Intn(2) == 0
		if r.Intn(5) == 0 {
			w = 100 + r.Intn(300)
			h = 1 + r.Intn(5)
		}
		if r.Intn(10) == 0 {
			h = r.Intn(3)
		}
		if r.Intn(60) == 0 {
			// packed rows longer than 2^15 and, in large documents, than 2^16
			w, h, depth, ch = 20000+r.Intn(20000), 1+r.Intn(3), 8, 1
			if large {
				w += 30000
			}
		}
		rl := vfRow(w, depth)
		var rows, packed [][]byte
		bad := -1 // row that must be an error
		badRows := r.Intn(3) == 0
		short := false
		for i := 0; i < h*ch; i++ {
			row := vfBytes(r, rl)
			e := vfPack(r, row)
			if badRows && r.Intn(h*ch) == 0 {
				switch r.Intn(6) {
				case 0: // expands beyond the row
					if r.Intn(2) == 0 {
						e = append(e, 0, 7)
					} else {
						e = append(e, 0xff, 9)
					}
					bad = i
				case 1: // a literal beyond the packed length
					k := 1 + r.Intn(rl)
					if k > 128 {
						k = 128
					}
					e = append([]byte{byte(k - 1)}, make([]byte, r.Intn(k))...)
					bad = i
				case 2: // a run without its byte
					e = []byte{byte(pick(r, 0x81, 0xff, 0xc0))}
					if int(-e[0])+1 > rl {
						e[0] = 0xff
					}
					bad = i
				default: // a row that stops early: the rest stays as it was
					short = true
					k := r.Intn(rl + 1)
					e = vfPack(r, row[:k])
					row = append(append([]byte{}, row[:k]...), bytes.Repeat([]byte{0xA5}, rl-k)...)
				}
			}
			rows, packed = append(rows, row), append(packed, e)
		}
		_ = short
		k := 2
		if large {
			k = 4
		}
		var enc []byte
		for _, p := range packed {
			enc = append(enc, put(k, uint64(len(p)))...)
		}
		enc = append(enc, bytes.Join(packed, nil)...)
		procs := 1 + r.Intn(10)
		guard := 64
		full := bytes.Repeat([]byte{0xA5}, rl*h*ch+2*guard)
		dest := full[guard : guard+rl*h*ch : guard+rl*h*ch]
		rd, _ := vfOpen(r.Intn(vfReaders), append(append([]byte{}, enc...), 1, 2, 3), r)
		rst := runtimeProcs(procs)
		var n int
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					v.fail("CompressionMethod.Decode", enc, "panic (width %d height %d depth %d channels %d large %v procs %d): %v", w, h, depth, ch, large, procs, e)
					err = fmt.Errorf("panic")
				}
			}()
			n, err = psd.CompressionMethodRLE.Decode(dest, rd, int64(len(enc)), image.Rect(-5, 3, -5+w, 3+h), depth, ch, large)
		}()
		rst()
		desc := fmt.Sprintf("width %d height %d depth %d channels %d large %v procs %d", w, h, depth, ch, large, procs)
		for i := 0; i < guard; i++ {
			if full[i] != 0xA5 || full[len(full)-1-i] != 0xA5 {
				v.fail("CompressionMethod.Decode", enc, "wrote outside the destination (%s)", desc)
				break
			}
		}
		if bad >= 0 {
			if err == nil {
				v.fail("CompressionMethod.Decode", enc, "broken row %d (% x, row of %d bytes) was not reported (%s)", bad, packed[bad], rl, desc)
			}
			continue
		}
		if err != nil {
			v.fail("CompressionMethod.Decode", enc, "valid data rejected (%s): %v", desc, err)
			continue
		}
		if n != len(enc) {
			v.fail("CompressionMethod.Decode", enc, "count %d, expected %d (%s)", n, len(enc), desc)
		}
		for i := range rows {
			if !bytes.Equal(dest[i*rl:(i+1)*rl], rows[i]) {
				v.fail("CompressionMethod.Decode", enc, "row %d is % x, expected % x (%s)", i, dest[i*rl:(i+1)*rl], rows[i], desc)
				break
			}
		}
	}
}

func TestVF_C10(t *testing.T) {
	v := vfNew(t, "C10")
	for v.next() {
		r := v.rng
		w, h, depth, ch := 1+r.Intn(20), 1+r.Intn(8), pick(r, 16, 16, 32, 32, 8), 1+r.Intn(3)
		n := vfRow(w, depth) * h * ch
		src := vfBytes(r, n)
		enc := vfEncode(r, [][]byte{src}, w, depth, 2, false)
		dest := bytes.Repeat([]byte{0x5A}, n)
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("panic: %v", e)
				}
			}()
			_, err = psd.CompressionMethodZIPWithPrediction.Decode(dest, bytes.NewReader(enc), int64(len(enc)), image.Rect(7, -2, 7+w, -2+h), depth, ch, r.Intn(2) == 0)
		}()
		if err != nil {
			v.fail("CompressionMethod.Decode", enc, "valid data rejected (%dx%d depth %d channels %d): %v", w, h, depth, ch, err)
			continue
		}
		want := append([]byte{}, src...)
		for row := 0; depth > 8 && row < h*ch; row++ {
			p := want[row*vfRow(w, depth):]
			var s uint32
			for x := 0; x < w; x++ {
				if depth == 16 {
					s += uint32(binary.BigEndian.Uint16(p[2*x:]))
					binary.BigEndian.PutUint16(p[2*x:], uint16(s))
				} else {
					s += binary.BigEndian.Uint32(p[4*x:])
					binary.BigEndian.PutUint32(p[4*x:], s)
				}
			}
		}
		if !bytes.Equal(dest, want) {
			v.fail("CompressionMethod.Decode", enc, "%dx%d depth %d channels %d: result % x, expected % x", w, h, depth, ch, dest, want)
			continue
		}
		if r.Intn(6) == 0 {
			d := vfGen(r, vfProfile{layers: 3, comp: 3, mode: pick(r, 1, 3)})
			if p := v.valid(d, nil); p != nil {
				v.chkPlanes(d, p)
				for i, g := range v.layers(d, p) {
					v.chkLayerPlanes(d, i, g)
				}
			}
		}
	}
}

func TestVF_C11(t *testing.T) {
	v := vfNew(t, "C11")
	for v.next() {
		r := v.rng
		if r.Intn(4) == 0 {
			v.planeCount(r)
			cm := psd.CompressionMethod(int16(pick(r, -1, 4, 5, 6, 256, 257, -32768, 32767, r.Intn(65536))))
			if cm < 0 || cm > 3 {
				b := make([]byte, 8)
				_, err := cm.Decode(b, bytes.NewReader(make([]byte, 100)), 0, image.Rect(0, 0, 4, 2), 8, 1, false)
				if err == nil {
					v.fail("CompressionMethod.Decode", nil, "unknown method %d is not an error", cm)
				}
			}
			continue
		}
		d := vfGen(r, vfProfile{layers: 3, comp: -1, mode: -1, mask: true, big: r.Intn(4) == 0})
		p := v.valid(d, nil)
		if p == nil {
			continue
		}
		v.chkPlanes(d, p)
		for i, g := range v.layers(d, p) {
			v.chkLayerPlanes(d, i, g)
		}
		// planes of the merged image are windows of Data
		if len(p.Data) > 0 && v.fails == 0 {
			k := r.Intn(len(p.Data))
			pl := len(p.Data) / d.channels
			p.Data[k] ^= 0xff
			for i := 0; i < d.channels; i++ {
				want := append([]byte{}, d.planes[i]...)
				if k/pl == i {
					want[k%pl] ^= 0xff
				}
				if !bytes.Equal(p.Channel[i].Data, want) {
					v.fail("PSD.Channel", d.out, "channel %d is not plane %d of Data", i, i)
				}
			}
		}
	}
}

func TestVF_C12(t *testing.T) {
	v := vfNew(t, "C12")
	for v.next() {
		r := v.rng
		d := vfGen(r, vfProfile{layers: 3, comp: r.Intn(2), mode: -1, mask: true, res: 2, big: r.Intn(10) == 0})
		p := v.valid(d, nil)
		if p == nil {
			continue
		}
		v.chkMergedImage(d, p, 3)
		for i, g := range v.layers(d, p) {
			v.chkLayerImage(d, i, g, 3)
		}
	}
}

func TestVF_C13(t *testing.T) {
	v := vfNew(t, "C13")
	for v.next() {
		r := v.rng
		if r.Intn(4) == 0 {
			d := vfGen(r, vfProfile{comp: 0, mode: -1, unsup: true})
			res := vfDecode(bytes.NewReader(d.out), nil)
			if res.panic != nil || res.err == nil {
				v.fail("Decode", d.out, "unsupported mode %d depth %d: error %v panic %v", d.mode, d.depth, res.err, res.panic)
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						v.fail("image.DecodeConfig", d.out, "unsupported mode %d depth %d: panic %v", d.mode, d.depth, e)
					}
				}()
				if _, _, err := image.DecodeConfig(bytes.NewReader(d.out)); err == nil {
					v.fail("image.DecodeConfig", d.out, "unsupported mode %d depth %d is not an error", d.mode, d.depth)
				}
			}()
			continue
		}
		d := vfGen(r, vfProfile{layers: 2, comp: 0, mode: -1, res: 3})
		p := v.valid(d, nil)
		if p == nil {
			continue
		}
		pal := d.palette()
		cp := p.Config.Palette()
		if (cp == nil) != (pal == nil) || len(cp) != len(pal) {
			v.fail("Config.Palette", d.out, "palette of %d entries, expected %d", len(cp), len(pal))
			continue
		}
		for i := range cp {
			if cp[i] != color.Color(pal[i]) {
				v.fail("Config.Palette", d.out, "entry %d is %v, expected %v", i, cp[i], pal[i])
				break
			}
		}
		v.chkMergedImage(d, p, 3)
		for i, g := range v.layers(d, p) {
			v.chkLayerImage(d, i, g, 3)
		}
		cfg, _, err := image.DecodeConfig(bytes.NewReader(d.out))
		if err != nil {
			v.fail("image.DecodeConfig", d.out, "valid document rejected: %v", err)
			continue
		}
		var model color.Model
		if d.mode != 2 {
			_, model = vfColor(d.mode, d.depth, make([]uint32, 4), d.hasAlpha(), 0, nil)
			if cfg.ColorModel != model {
				v.fail("image.DecodeConfig", d.out, "mode %d depth %d: unexpected color model", d.mode, d.depth)
			}
		} else if q, ok := cfg.ColorModel.(color.Palette); !ok || len(q) != 256 || q[0] != color.Color(pal[0]) || q[255] != color.Color(pal[255]) {
			v.fail("image.DecodeConfig", d.out, "unexpected palette")
		}
		if cfg.Width != d.w || cfg.Height != d.h {
			v.fail("image.DecodeConfig", d.out, "size %dx%d, expected %dx%d", cfg.Width, cfg.Height, d.w, d.h)
		}
	}
}

func TestVF_C14(t *testing.T) {
	v := vfNew(t, "C14")
	for v.next() {
		r := v.rng
		d := vfGen(r, vfProfile{layers: pick(r, 4, 8, 14, 24), adds: 0, tree: true, comp: 0, mode: pick(r, 1, 3)})
		if p := v.valid(d, &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: r.Intn(2) == 0}); p != nil {
			v.chkTree(d, p)
			v.layers(d, p)
		}
		// break the nesting
		var div []int
		for i, l := range d.layers {
			if l.divKey != "" && l.divType >= 1 && l.divType <= 3 {
				div = append(div, i)
			}
		}
		if len(div) == 0 {
			continue
		}
		k := div[r.Intn(len(div))]
		switch r.Intn(3) {
		case 0: // a divider disappears
			d.layers = append(d.layers[:k:k], d.layers[k+1:]...)
		case 1: // a folder becomes a plain layer
			l := &d.layers[k]
			l.divKey = ""
			var as []vfAdd
			for _, a := range l.adds {
				if a.key != "lsct" && a.key != "lsdk" {
					as = append(as, a)
				}
			}
			l.adds = as
		case 2: // a pair in the wrong order
			for _, j := range div {
				a, b := &d.layers[k], &d.layers[j]
				if j > k && a.divType == 3 && b.divType != 3 {
					_, _ = a, b
				}
			}
			if len(div) == 2 {
				d.layers[div[0]], d.layers[div[1]] = d.layers[div[1]], d.layers[div[0]]
			} else {
				d.layers = append(d.layers[:k:k], d.layers[k+1:]...)
			}
		}
		d.build(r)
		res := vfDecode(bytes.NewReader(d.out), &psd.DecodeOptions{SkipMergedImage: true})
		if res.panic != nil {
			v.fail("Decode", d.out, "panic on broken nesting: %v", res.panic)
		} else if res.err == nil {
			v.fail("Decode", d.out, "broken nesting of the section dividers is not an error")
		}
	}
}
