package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term)

var models = map[string]modelFn{}

func modelOf(fn *ssa.Function) modelFn { return models[fn.String()] }
func modelled(fn *ssa.Function) bool   { return models[fn.String()] != nil }

func modelEffects(fn *ssa.Function) []string {
	switch fn.String() {
	case "io.ReadFull", "io.CopyN":
		return []string{"E:uint8", "G:pos", "G:zcnt"}
	case "compress/zlib.NewReader":
		return []string{"G:pos", "F:io.LimitedReader.N", "G:zcnt", "G:zsrc", "G:zpos"}
	case "(*sync.WaitGroup).Add":
		return nil
	case "unicode/utf16.Decode":
		return []string{"E:int32"}
	}
	return nil
}

var posLeaf = Leaf{SInt, nil, nil, ""}

func (st *State) pos(box *Term) *Term { return st.get("G:pos", posLeaf).sel([]*Term{box}) }

func (x *Exec) setPos(st *State, box, v, pc *Term) {
	st.set("G:pos", posLeaf, st.get("G:pos", posLeaf).store([]*Term{box}, v))
	x.writes = append(x.writes, Write{key: "G:pos", args: []*Term{box}, pc: pc})
}

func streamByte(box, i *Term) *Term { return App("S", SInt, bi0, bi(255), box, i) }

var byteT = types.Typ[types.Uint8]

func (x *Exec) fillBytes(st *State, b *VSlice, n *Term, src func(i *Term) *Term, pc *Term) {
	l := leavesOf(byteT)[0]
	h := st.get("E:uint8", l)
	off := b.off
	st.set("E:uint8", l, newHeap(&Heap{kind: hRange, parent: h, args: []*Term{b.base}, lo: off, hi: Add(off, n), src: func(i *Term) *Term { return src(Sub(i, off)) }, leaf: l, name: h.name}))
	x.writes = append(x.writes, Write{key: "E:uint8", args: []*Term{b.base}, lo: off, hi: Add(off, n), pc: pc})
}

func freshErr(name string) *VIface { return &VIface{errTag, freshRoot(name)} }

func errIf(ok *Term, name string) *VIface {
	// any error value, possibly one of the well-known ones such as io.EOF
	return &VIface{Ite(ok, C(0), errTag), Ite(ok, C(0), freshSym(name, SInt, bi1, nil))}
}

var limitedReader = "*io.LimitedReader"

func init() {
	pure := func(names ...string) {
		for _, n := range names {
			models[n] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
				return freshResults(fn.Name(), fn.Signature.Results()), pc
			}
		}
	}
	_ = pure
	models["errors.New"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		return []Val{freshErr("err")}, pc
	}
	models["fmt.Errorf"] = models["errors.New"]
	models["github.com/pkg/errors.New"] = models["errors.New"]
	models["github.com/pkg/errors.Wrap"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		e := args[0].(*VIface)
		return []Val{errIf(Eq(e.tag, C(0)), "wrap")}, pc
	}
	models["runtime.GOMAXPROCS"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		return []Val{namedSym("GOMAXPROCS", SInt, bi1, bi(1<<20))}, pc
	}
	// goroutines run one after the other where they are started; what Wait guarantees is
	// tracked: everything started is finished when the counter was raised for each goroutine
	// and each goroutine calls Done once and last
	models["(*sync.WaitGroup).Add"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		n := args[1].(*Term)
		if x.goDepth > 0 {
			n = freshSym("add", SInt, nil, nil)
		}
		x.setJoin(st, "bal", wgOf(args), Add(st.join("bal", wgOf(args)), n), pc)
		return nil, pc
	}
	models["(*sync.WaitGroup).Done"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		x.setJoin(st, "bal", wgOf(args), Sub(st.join("bal", wgOf(args)), C(1)), pc)
		if x.goDepth > 0 {
			x.setJoin(st, "dones", C(1), Add(st.join("dones", C(1)), C(1)), pc)
		}
		return nil, pc
	}
	models["(*sync.WaitGroup).Wait"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		if x.goDepth == 0 {
			g := st.join("go", C(1))
			x.setJoin(st, "go", C(1), Ite(And(Eq(st.join("bal", wgOf(args)), C(0)), Lt(g, C(1<<40))), C(0), g), pc)
		}
		return nil, pc
	}
	models["math.Float32frombits"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		return []Val{App("f32bits", SF32, nil, nil, args[0].(*Term))}, pc
	}
	models["math.Float64frombits"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		return []Val{App("f64bits", SF64, nil, nil, args[0].(*Term))}, pc
	}
	models["math.IsNaN"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		return []Val{App("fp.isNaN", SBool, nil, nil, args[0].(*Term))}, pc
	}
	models["math.Pow"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		x.note("math.Pow is uninterpreted")
		return []Val{App("pow", SF64, nil, nil, args[0].(*Term), args[1].(*Term))}, pc
	}
	models["math.Sqrt"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		return []Val{App("fp.sqrt RNE", SF64, nil, nil, args[0].(*Term))}, pc
	}
	models["unicode/utf16.Decode"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		s := args[0].(*VSlice)
		r := freshRoot("runes")
		n := freshSym("nrunes", SInt, bi0, maxLen)
		x.assume(pc, Le(n, s.ln))
		x.note("unicode/utf16.Decode is trusted")
		return []Val{&VSlice{r, C(0), n, n}}, pc
	}
	models["io.ReadFull"] = modelReadFull
	models["io.CopyN"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		src := args[1].(*VIface)
		n := args[2].(*Term)
		x.note("io.CopyN consumes exactly the bytes it reports")
		ok := freshSym("copyok", SBool, nil, nil)
		short := freshSym("copied", SInt, bi0, nil)
		x.assume(pc, Or(ok, Lt(short, n)))
		w := Ite(ok, Ite(Lt(n, C(0)), C(0), n), short)
		x.setPos(st, src.box, Add(st.pos(src.box), w), pc)
		return []Val{w, errIf(ok, "copyerr")}, pc
	}
	models["compress/zlib.NewReader"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
		r := args[0].(*VIface)
		x.note("compress/zlib is trusted: its output is a function of the stream position it starts at; it reads only through its reader")
		z := freshRoot("zlib")
		ok := freshSym("zok", SBool, nil, nil)
		g := func(k string, v *Term) {
			st.set("G:"+k, posLeaf, st.get("G:"+k, posLeaf).store([]*Term{z}, v))
			x.writes = append(x.writes, Write{key: "G:" + k, args: []*Term{z}, pc: pc})
		}
		src := r.box
		if t := typeOfTag[r.tag]; t != nil && typeKey(t) == limitedReader {
			lr := x.lrFields(st, src)
			src = lr.r.box
		}
		g("zsrc", r.box)
		g("zpos", st.pos(src))
		g("zcnt", C(0))
		x.zconsume(st, r, pc)
		return []Val{&VIface{zlibTag, z}, errIf(ok, "zerr")}, pc
	}
}

var zlibTag = C(1<<40 + 1)

type lrVal struct {
	r *VIface
	n *Term
}

func (x *Exec) lrFields(st *State, ref *Term) lrVal {
	lt := x.ld.pkgs["io"].Scope().Lookup("LimitedReader").Type()
	v := st.loadObj(lt, ref).(*VStruct)
	return lrVal{v.f[0].(*VIface), v.f[1].(*Term)}
}

// zconsume: a decompressor takes an arbitrary number of bytes from its source.
func (x *Exec) zconsume(st *State, r *VIface, pc *Term) {
	k := freshSym("zread", SInt, bi0, nil)
	if t := typeOfTag[r.tag]; t != nil && typeKey(t) == limitedReader {
		lr := x.lrFields(st, r.box)
		x.assume(pc, Or(Le(k, lr.n), And(Lt(lr.n, C(0)), Eq(k, C(0)))))
		lt := x.ld.pkgs["io"].Scope().Lookup("LimitedReader").Type()
		p := st.fieldPtr(lt, 1, r.box)
		st.storeLoc(p, Sub(lr.n, k), x.logWrite(pc))
		x.setPos(st, lr.r.box, Add(st.pos(lr.r.box), k), pc)
		return
	}
	x.setPos(st, r.box, Add(st.pos(r.box), k), pc)
}

func modelReadFull(x *Exec, fr *Frame, fn *ssa.Function, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
	r := args[0].(*VIface)
	b := args[1].(*VSlice)
	x.note("io.ReadFull: on success fills the buffer with the next bytes of the stream; on failure fewer bytes")
	x.safe("nil", fr, pos, pc, Neq(r.tag, C(0)))
	ok := freshSym("rdok", SBool, nil, nil)
	short := freshSym("rdn", SInt, bi0, maxLen)
	x.assume(pc, Or(ok, Lt(short, b.ln)))
	n := Ite(ok, b.ln, short)
	if r.tag == zlibTag {
		z := r.box
		get := func(k string) *Term { return st.get("G:"+k, posLeaf).sel([]*Term{z}) }
		srcBox := get("zsrc")
		c0 := get("zcnt")
		zp := get("zpos")
		// content
		sb := srcBox
		lt := x.ld.pkgs["io"].Scope().Lookup("LimitedReader")
		if lt != nil && st.h["F:io.LimitedReader.R.box"] != nil {
			sb = x.lrFields(st, srcBox).r.box
		}
		x.fillBytes(st, b, n, func(i *Term) *Term { return App("Z", SInt, bi0, bi(255), sb, zp, Add(c0, i)) }, pc)
		st.set("G:zcnt", posLeaf, st.get("G:zcnt", posLeaf).store([]*Term{z}, Add(c0, n)))
		x.writes = append(x.writes, Write{key: "G:zcnt", args: []*Term{z}, pc: pc})
		x.zconsume(st, &VIface{typeTag(types.NewPointer(lt.Type())), srcBox}, pc)
		return []Val{n, errIf(ok, "zrerr")}, pc
	}
	if r.tag.op == OConst && r.tag.k.Sign() != 0 {
		unsup("ReadFull from %v", typeOfTag[r.tag])
	}
	p0 := st.pos(r.box)
	box := r.box
	x.fillBytes(st, b, n, func(i *Term) *Term { return streamByte(box, Add(p0, i)) }, pc)
	x.setPos(st, r.box, Add(p0, n), pc)
	return []Val{n, errIf(ok, "rderr")}, pc
}

// modelInvokeT models methods of special concrete types.
func (x *Exec) modelInvokeT(fr *Frame, recv *VIface, t types.Type, m *types.Func, args []Val, cc *ssa.CallCommon, pc *Term, st *State) ([]Val, *Term, bool) {
	return nil, nil, false
}

// modelInvoke models interface methods of values of unknown type.
func (x *Exec) modelInvoke(fr *Frame, recv *VIface, m *types.Func, it types.Type, args []Val, cc *ssa.CallCommon, pc *Term, st *State) ([]Val, *Term, bool) {
	box := recv.box
	if recv.tag == zlibTag && m.Name() == "Close" {
		ok := freshSym("zclose", SBool, nil, nil)
		return []Val{errIf(ok, "zcl")}, pc, true
	}
	switch m.Name() {
	case "Read":
		b := args[0].(*VSlice)
		n := freshSym("rd", SInt, bi0, maxLen)
		x.assume(pc, Le(n, b.ln))
		p0 := st.pos(box)
		x.fillBytes(st, b, n, func(i *Term) *Term { return streamByte(box, Add(p0, i)) }, pc)
		x.setPos(st, box, Add(p0, n), pc)
		return []Val{n, errIf(freshSym("rdok", SBool, nil, nil), "rerr")}, pc, true
	case "Discard":
		n := args[0].(*Term)
		ok := freshSym("discok", SBool, nil, nil)
		d := freshSym("disc", SInt, bi0, nil)
		x.assume(pc, And(Implies(ok, Le(C(0), n)), Or(ok, Lt(d, n), And(Le(n, C(0)), Eq(d, C(0))))))
		w := Ite(ok, n, d)
		x.setPos(st, box, Add(st.pos(box), w), pc)
		x.note("Discard reports the bytes it consumed")
		return []Val{w, errIf(ok, "discerr")}, pc, true
	case "Seek":
		n := args[0].(*Term)
		if k, ok := args[1].(*Term).constInt(); !ok || k != 1 {
			return nil, nil, false
		}
		ok := freshSym("seekok", SBool, nil, nil)
		x.setPos(st, box, Ite(ok, Add(st.pos(box), n), st.pos(box)), pc)
		x.note("a relative Seek counts as consuming the bytes it skips")
		return []Val{freshSym("seekpos", SInt, nil, nil), errIf(ok, "seekerr")}, pc, true
	case "Error":
		return []Val{symVal("errstr", types.Typ[types.String])}, pc, true
	case "RGBA":
		x.note("a foreign color.Color reports valid premultiplied components (r,g,b <= a <= 0xffff)")
		vs := x.rgbaOf(recv)
		return []Val{vs[0], vs[1], vs[2], vs[3]}, pc, true
	case "Convert":
		return nil, nil, false
	case "Bounds":
		rt := m.Type().(*types.Signature).Results().At(0).Type()
		v := buildVal(rt, x.appLeaves("bounds", []*Term{recv.tag, box}, bi(-1<<40), bi(1<<40)))
		return []Val{v}, pc, true
	}
	_ = strings.TrimSpace
	return nil, nil, false
}

func (x *Exec) appLeaves(name string, args []*Term, lo, hi any) func(l Leaf) *Term {
	k := 0
	return func(l Leaf) *Term {
		a := append(append([]*Term(nil), args...), C(int64(k)))
		k++
		return App(name, l.sort, l.lo, l.hi, a...)
	}
}

// rgbaOf is the RGBA() result of a foreign colour: a function of the value.
func (x *Exec) rgbaOf(c *VIface) [4]*Term {
	m := bi(0xffff)
	var r [4]*Term
	r[3] = App("rgba.a", SInt, bi0, m, c.tag, c.box)
	for i, n := range []string{"r", "g", "b"} {
		r[i] = App("rgba."+n, SInt, bi0, m, c.tag, c.box)
		addTermFact(r[i], Le(r[i], r[3]))
	}
	return r
}

// ---- goroutines not joined yet

func wgOf(args []Val) *Term {
	if t, ok := args[0].(*Term); ok {
		return t
	}
	return C(1)
}

func (st *State) join(k string, key *Term) *Term {
	return st.get("G:zwg"+k, posLeaf).sel([]*Term{key})
}

func (x *Exec) setJoin(st *State, k string, key, v, pc *Term) {
	st.set("G:zwg"+k, posLeaf, st.get("G:zwg"+k, posLeaf).store([]*Term{key}, v))
	x.writes = append(x.writes, Write{key: "G:zwg" + k, args: []*Term{key}, pc: pc})
}

// workInGo: something done by a goroutine after its Done is not waited for.
func (x *Exec) workInGo(st *State, pc *Term) {
	if x.goDepth > 0 && x.hasJoin(x.prop) {
		if d := st.join("dones", C(1)); d != C(0) {
			x.setJoin(st, "dones", C(1), Add(d, Ite(Eq(d, C(0)), C(0), C(1))), pc)
		}
	}
}

func (x *Exec) hasJoin(p string) bool { return p == "C09" || p == "C22" || p == "C11" }
