package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("constant of type %v", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolT(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return strLit(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsup("constant %v", c)
		}
		return CB(n)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f32, _ := constant.Float32Val(c.Value)
			return fpConst(float64(f32), SF32)
		}
		return fpConst(f, SF64)
	}
	unsup("constant %v", c)
	return nil
}

// ---- pointers

func pv(p Val) Val {
	if o, ok := p.(objPtr); ok {
		return o.r
	}
	return p
}

// asLoc turns a pointer value into an addressable location for a cell of type t.
func asLoc(v Val, t types.Type) Val {
	switch p := v.(type) {
	case *Term:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			return objPtr{t, p}
		case *types.Array:
			return &VArrPtr{p, C(0), u}
		}
		return &VLoc{fam: "C:" + typeKey(t.Underlying()), args: []*Term{p}, typ: t}
	}
	return v
}

func ptrRef(v Val) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case objPtr:
		return p.r
	case *VArrPtr:
		return p.base
	case *VLoc:
		return nil
	}
	return nil
}

// notNil is the condition that a pointer is not nil.
func notNil(v Val) *Term {
	r := ptrRef(v)
	if r == nil {
		if l, ok := v.(*VLoc); ok && len(l.args) == 1 && len(l.fam) > 2 && l.fam[:2] == "C:" {
			return Not(refEq(l.args[0], C(0)))
		}
		return tTrue
	}
	return Not(refEq(r, C(0)))
}

func (x *Exec) logWrite(pc *Term) func(key string, args []*Term) {
	return func(key string, args []*Term) {
		w := Write{key: key, args: args, pc: pc}
		if len(args) == 2 && args[1] == nil {
			w.args = args[:1]
		}
		x.writes = append(x.writes, w)
	}
}

func (x *Exec) load(st *State, p Val, t types.Type, pc *Term) Val {
	return x.simpVal(st.loadLoc(asLoc(p, t)), pc)
}

func (x *Exec) store(st *State, p Val, v Val, t types.Type, pc *Term) {
	st.storeLoc(asLoc(p, t), v, x.logWrite(pc))
}

// alloc creates a fresh zeroed object of type t, returning the pointer to it.
func (x *Exec) alloc(st *State, t types.Type, name string, pc *Term) Val {
	r := freshRoot("o." + name)
	var p Val
	switch u := t.Underlying().(type) {
	case *types.Struct:
		p = r
		x.store(st, p, zeroVal(t), t, pc)
	case *types.Array:
		p = &VArrPtr{r, C(0), u}
		if isAgg(u.Elem()) {
			if u.Len() <= 64 {
				x.store(st, p, zeroVal(t), t, pc)
			} else {
				unsup("large array of aggregates")
			}
		} else {
			st.zeroElems(u.Elem(), r, x.logWrite(pc))
		}
	default:
		p = &VLoc{fam: "C:" + typeKey(t.Underlying()), args: []*Term{r}, typ: t}
		x.store(st, p, zeroVal(t), t, pc)
	}
	return p
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

// instr executes one instruction; it returns the path condition that continues.
func (x *Exec) instr(fr *Frame, in ssa.Instruction, pc *Term, st *State) *Term {
	set := func(v ssa.Value, val Val) { fr.env[v] = x.simpVal(pv(val), pc) }
	switch i := in.(type) {
	case *ssa.DebugRef:
		return pc
	case *ssa.BinOp:
		set(i, x.binop(fr, i, pc, st))
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			if g, ok := i.X.(*ssa.Global); ok {
				set(i, x.loadGlobal(fr, g, pc, st))
				return pc
			}
			p := x.get(fr, i.X, pc)
			x.safe("nil", fr, i.Pos(), pc, notNil(p))
			set(i, x.load(st, p, i.Type(), pc))
		case token.NOT:
			set(i, Not(x.term(fr, i.X, pc)))
		case token.SUB:
			t := x.term(fr, i.X, pc)
			if t.sort == SInt {
				set(i, wrapT(Neg(t), i.Type()))
			} else {
				set(i, App("fp.neg", t.sort, nil, nil, t))
			}
		case token.XOR:
			t := x.term(fr, i.X, pc)
			b := i.Type().Underlying().(*types.Basic)
			_, hi, _, signed, _ := intRange(b)
			if signed {
				set(i, Sub(C(-1), t))
			} else {
				set(i, Sub(CB(hi), t))
			}
		default:
			unsup("unop %v", i)
		}
	case *ssa.Alloc:
		v := x.alloc(st, deref(i.Type()), i.Comment, pc)
		set(i, v)
		if typeKey(deref(i.Type())) == "sync.WaitGroup" {
			x.setJoin(st, "bal", wgOf([]Val{v}), C(0), pc)
		}
	case *ssa.Store:
		if g, ok := i.Addr.(*ssa.Global); ok {
			unsup("store to global %s", g)
		}
		p := x.get(fr, i.Addr, pc)
		x.safe("nil", fr, i.Pos(), pc, notNil(p))
		x.workInGo(st, pc)
		x.store(st, p, x.get(fr, i.Val, pc), deref(i.Addr.Type()), pc)
	case *ssa.FieldAddr:
		p := x.get(fr, i.X, pc)
		x.safe("nil", fr, i.Pos(), pc, notNil(p))
		t := deref(i.X.Type())
		r := ptrRef(p)
		if r == nil {
			unsup("field of %T", p)
		}
		set(i, st.fieldPtr(t, i.Field, r))
	case *ssa.Field:
		v := x.get(fr, i.X, pc)
		set(i, v.(*VStruct).f[i.Field])
	case *ssa.IndexAddr:
		idx := x.term(fr, i.Index, pc)
		switch b := x.get(fr, i.X, pc).(type) {
		case *VSlice:
			x.safe("index", fr, i.Pos(), pc, And(Le(C(0), idx), Lt(idx, b.ln)))
			et := i.X.Type().Underlying().(*types.Slice).Elem()
			set(i, st.elemPtr(et, b.base, Add(b.off, idx)))
		case *VArrPtr:
			x.safe("nil", fr, i.Pos(), pc, notNil(b))
			x.safe("index", fr, i.Pos(), pc, And(Le(C(0), idx), Lt(idx, C(b.arr.Len()))))
			if tb, ok := tables[b.base]; ok {
				set(i, &VLoc{fam: "T:" + tb.name, args: []*Term{b.base, idx}, typ: b.arr.Elem()})
				return pc
			}
			set(i, st.elemPtr(b.arr.Elem(), b.base, Add(b.off, idx)))
		case *Term:
			// pointer to array loaded from memory
			at := deref(i.X.Type()).Underlying().(*types.Array)
			x.safe("nil", fr, i.Pos(), pc, notNil(b))
			x.safe("index", fr, i.Pos(), pc, And(Le(C(0), idx), Lt(idx, C(at.Len()))))
			set(i, st.elemPtr(at.Elem(), b, idx))
		default:
			unsup("index of %T", b)
		}
	case *ssa.Index:
		idx := x.term(fr, i.Index, pc)
		switch b := x.get(fr, i.X, pc).(type) {
		case *VStr:
			x.safe("index", fr, i.Pos(), pc, And(Le(C(0), idx), Lt(idx, strLen(b.sid))))
			set(i, strAt(b.sid, idx))
		case *VArr:
			x.safe("index", fr, i.Pos(), pc, And(Le(C(0), idx), Lt(idx, C(int64(len(b.e))))))
			var r Val
			for k := len(b.e) - 1; k >= 0; k-- {
				if r == nil {
					r = b.e[k]
				} else {
					r = iteVal(Eq(idx, C(int64(k))), b.e[k], r)
				}
			}
			set(i, r)
		default:
			unsup("index of %T", b)
		}
	case *ssa.Lookup:
		x.lookup(fr, i, pc, st)
	case *ssa.Slice:
		set(i, x.slice(fr, i, pc, st))
	case *ssa.MakeSlice:
		n := x.term(fr, i.Len, pc)
		c := x.term(fr, i.Cap, pc)
		x.safe("makelen", fr, i.Pos(), pc, And(Le(C(0), n), Lt(n, CB(maxLen))))
		if c != n {
			x.safe("makecap", fr, i.Pos(), pc, And(Le(n, c), Lt(c, CB(maxLen))))
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		r := freshRoot("mk")
		st.zeroElems(et, r, x.logWrite(pc))
		set(i, &VSlice{r, C(0), n, c})
	case *ssa.MakeMap:
		r := freshRoot("map")
		mt := i.Type().Underlying().(*types.Map)
		key := mapFam(mt) + ".has"
		l := Leaf{SBool, nil, nil, ""}
		h := st.get(key, l)
		st.set(key, l, newHeap(&Heap{kind: hFill, parent: h, args: []*Term{r}, val: tFalse, leaf: l, name: h.name}))
		x.writes = append(x.writes, Write{key: key, args: []*Term{r}, pc: pc})
		set(i, r)
	case *ssa.MapUpdate:
		m := x.term(fr, i.Map, pc)
		x.safe("nilmap", fr, i.Pos(), pc, Not(refEq(m, C(0))))
		x.mapStore(st, i.Map.Type().Underlying().(*types.Map), m, x.get(fr, i.Key, pc), x.get(fr, i.Value, pc), tTrue, pc)
	case *ssa.Extract:
		t := x.get(fr, i.Tuple, pc)
		set(i, t.(VTuple)[i.Index])
	case *ssa.Convert:
		set(i, x.convert(x.get(fr, i.X, pc), i.X.Type(), i.Type(), st, pc))
	case *ssa.ChangeType:
		set(i, x.get(fr, i.X, pc))
	case *ssa.ChangeInterface:
		set(i, x.get(fr, i.X, pc))
	case *ssa.MakeInterface:
		set(i, x.makeIface(x.get(fr, i.X, pc), i.X.Type()))
	case *ssa.TypeAssert:
		x.typeAssert(fr, i, pc, st)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.get(fr, b, pc))
		}
		fr.env[i] = &VFunc{fn: i.Fn.(*ssa.Function), bind: bs}
	case *ssa.Call:
		vals, npc := x.call(fr, &i.Call, i, pc, st)
		if npc == tFalse {
			return tFalse
		}
		switch rs := i.Call.Signature().Results(); rs.Len() {
		case 0:
		case 1:
			if len(vals) != 1 {
				unsup("call %s results", i)
			}
			fr.env[i] = x.simpVal(pv(vals[0]), npc)
		default:
			tv := VTuple{}
			for _, v := range vals {
				tv = append(tv, x.simpVal(pv(v), npc))
			}
			fr.env[i] = tv
		}
		return npc
	case *ssa.Go:
		x.goStmt(fr, i, pc, st)
	case *ssa.Defer:
		d := deferred{pc: pc, call: &i.Call, instr: i}
		if i.Call.IsInvoke() {
			unsup("deferred invoke")
		}
		d.fn = x.get(fr, i.Call.Value, pc)
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.get(fr, a, pc))
		}
		if len(fr.active) > 0 {
			unsup("defer in loop")
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for k := len(fr.defers) - 1; k >= 0; k-- {
			d := fr.defers[k]
			if b, ok := d.call.Value.(*ssa.Builtin); ok {
				unsup("deferred builtin %s", b.Name())
			}
			x.callValue(fr, d.fn, d.args, d.call, d.instr, pc, st)
		}
	default:
		unsup("instruction %T %v", in, in)
	}
	return pc
}

func (x *Exec) slice(fr *Frame, i *ssa.Slice, pc *Term, st *State) Val {
	arg := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(fr, v, pc)
	}
	switch b := x.get(fr, i.X, pc).(type) {
	case *VStr:
		lo := arg(i.Low, C(0))
		ln := strLen(b.sid)
		hi := arg(i.High, ln)
		x.safe("slice", fr, i.Pos(), pc, And(Le(C(0), lo), Le(lo, hi), Le(hi, ln)))
		n := Sub(hi, lo)
		if k, ok := n.constInt(); ok && k <= 8 {
			var bs []*Term
			for j := int64(0); j < k; j++ {
				bs = append(bs, strAt(b.sid, Add(lo, C(j))))
			}
			return strBytes(bs)
		}
		sid := b.sid
		return newStr(n, func(j *Term) *Term { return strAt(sid, Add(lo, j)) })
	case *VSlice:
		lo := arg(i.Low, C(0))
		hi := arg(i.High, b.ln)
		mx := arg(i.Max, b.cp)
		g := []*Term{Le(C(0), lo), Le(lo, hi)}
		if i.Max != nil {
			g = append(g, Le(hi, mx), Le(mx, b.cp))
		} else {
			g = append(g, Le(hi, b.cp))
		}
		x.safe("slice", fr, i.Pos(), pc, And(g...))
		return &VSlice{b.base, Add(b.off, lo), Sub(hi, lo), Sub(mx, lo)}
	case *VArrPtr:
		n := C(b.arr.Len())
		lo := arg(i.Low, C(0))
		hi := arg(i.High, n)
		mx := arg(i.Max, n)
		x.safe("nil", fr, i.Pos(), pc, notNil(b))
		x.safe("slice", fr, i.Pos(), pc, And(Le(C(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		return &VSlice{b.base, Add(b.off, lo), Sub(hi, lo), Sub(mx, lo)}
	case *Term:
		at := deref(i.X.Type()).Underlying().(*types.Array)
		n := C(at.Len())
		lo := arg(i.Low, C(0))
		hi := arg(i.High, n)
		mx := arg(i.Max, n)
		x.safe("nil", fr, i.Pos(), pc, notNil(b))
		x.safe("slice", fr, i.Pos(), pc, And(Le(C(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		return &VSlice{b, lo, Sub(hi, lo), Sub(mx, lo)}
	}
	unsup("slice of %v", i.X.Type())
	return nil
}

func newStr(n *Term, at func(*Term) *Term) *VStr {
	t := freshSym("str", SInt, bi0, nil)
	strTab[t] = &strInfo{ln: n, at: at}
	return &VStr{t}
}

func wrapT(t *Term, typ types.Type) *Term {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	_, _, bits, signed, ok := intRange(b)
	if !ok {
		return t
	}
	if bits == 64 && signed {
		return t // int and int64: mathematical (stated assumption)
	}
	if signed {
		return wrapS(t, bits)
	}
	return wrapU(t, bits)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) binop(fr *Frame, i *ssa.BinOp, pc *Term, st *State) Val {
	a, b := x.get(fr, i.X, pc), x.get(fr, i.Y, pc)
	switch i.Op {
	case token.EQL:
		return x.valEq(a, b, i.X.Type())
	case token.NEQ:
		return Not(x.valEq(a, b, i.X.Type()))
	}
	if sa, ok := a.(*VStr); ok {
		sb := b.(*VStr)
		if i.Op == token.ADD {
			return x.concat(sa, sb)
		}
		unsup("string %v", i.Op)
	}
	s, ok1 := a.(*Term)
	t, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop on %T", a)
	}
	if s.sort == SF32 || s.sort == SF64 {
		switch i.Op {
		case token.ADD:
			return fpBin("add", s, t)
		case token.SUB:
			return fpBin("sub", s, t)
		case token.MUL:
			return fpBin("mul", s, t)
		case token.QUO:
			return fpBin("div", s, t)
		case token.LSS:
			return fpCmp("lt", s, t)
		case token.LEQ:
			return fpCmp("leq", s, t)
		case token.GTR:
			return fpCmp("gt", s, t)
		case token.GEQ:
			return fpCmp("geq", s, t)
		}
		unsup("float op %v", i.Op)
	}
	return x.intop(fr, i.Op, s, t, i.Type(), i.Y.Type(), i.Pos(), pc)
}

func (x *Exec) intop(fr *Frame, op token.Token, s, t *Term, typ, ytyp types.Type, pos token.Pos, pc *Term) *Term {
	w := func(t *Term) *Term { return wrapT(t, typ) }
	switch op {
	case token.ADD:
		return w(Add(s, t))
	case token.SUB:
		return w(Sub(s, t))
	case token.MUL:
		return w(Mul(s, t))
	case token.QUO:
		x.safe("div0", fr, pos, pc, Neq(t, C(0)))
		q := truncDiv(s, t)
		if q.op == OIte && t.op != OConst {
			v := freshSym("quo", SInt, q.lo, q.hi)
			x.assume(pc, Eq(v, q))
			q = v
		}
		return w(q)
	case token.REM:
		x.safe("div0", fr, pos, pc, Neq(t, C(0)))
		return w(Sub(s, Mul(t, truncDiv(s, t))))
	case token.LSS:
		return Lt(s, t)
	case token.LEQ:
		return Le(s, t)
	case token.GTR:
		return Gt(s, t)
	case token.GEQ:
		return Ge(s, t)
	case token.AND:
		return BitAnd(s, t)
	case token.OR:
		return BitOr(s, t)
	case token.XOR:
		return BitXor(s, t)
	case token.AND_NOT:
		return Sub(s, BitAnd(s, t))
	case token.SHL:
		if !isUnsigned(ytyp) {
			x.safe("shift", fr, pos, pc, Le(C(0), t))
		}
		if t.lo != nil && t.lo.Cmp(bi(64)) >= 0 {
			return C(0)
		}
		return w(Mul(s, Pow2T(t)))
	case token.SHR:
		if !isUnsigned(ytyp) {
			x.safe("shift", fr, pos, pc, Le(C(0), t))
		}
		if t.lo != nil && t.lo.Cmp(bi(64)) >= 0 && nonneg(s) {
			return C(0)
		}
		return IDiv(s, Pow2T(t))
	}
	unsup("int op %v", op)
	return nil
}

// truncDiv is Go's division (toward zero).
func truncDiv(a, b *Term) *Term {
	if b.hi != nil && b.hi.Sign() < 0 {
		return Neg(truncDiv(a, Neg(b)))
	}
	if b.lo != nil && b.lo.Sign() >= 0 { // zero divisor excluded by the obligation
		if nonneg(a) {
			return IDiv(a, b)
		}
		if a.hi != nil && a.hi.Sign() <= 0 {
			return Neg(IDiv(Neg(a), b))
		}
		return Ite(Le(C(0), a), IDiv(a, b), Neg(IDiv(Neg(a), b)))
	}
	return Ite(Lt(C(0), b), truncDivPos(a, b), Neg(truncDivPos(a, Neg(b))))
}

func truncDivPos(a, b *Term) *Term {
	if nonneg(a) {
		return IDiv(a, b)
	}
	return Ite(Le(C(0), a), IDiv(a, b), Neg(IDiv(Neg(a), b)))
}

func (x *Exec) concat(a, b *VStr) *VStr {
	la, lb := strLen(a.sid), strLen(b.sid)
	if s, ok := litBack[a.sid]; ok {
		if t, ok := litBack[b.sid]; ok {
			return strLit(s + t)
		}
	}
	return newStr(Add(la, lb), func(i *Term) *Term {
		return Ite(Lt(i, la), strAt(a.sid, i), strAt(b.sid, Sub(i, la)))
	})
}

// valEq compares two values of type t.
func (x *Exec) valEq(a, b Val, t types.Type) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			if p.sort == SF32 || p.sort == SF64 {
				return fpEq(p, q)
			}
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				return refEq(p, q)
			}
			return Eq(p, q)
		}
		return x.valEq(b, a, t)
	case *VStr:
		return Eq(p.sid, b.(*VStr).sid)
	case *VIface:
		q := b.(*VIface)
		if p.tag.op == OConst && p.tag.k.Sign() == 0 {
			return Eq(q.tag, C(0))
		}
		if q.tag.op == OConst && q.tag.k.Sign() == 0 {
			return Eq(p.tag, C(0))
		}
		return And(Eq(p.tag, q.tag), refEq(p.box, q.box))
	case *VSlice:
		q := b.(*VSlice)
		if q.base.op == OConst {
			return Eq(p.base, C(0))
		}
		return Eq(q.base, C(0))
	case *VStruct:
		q := b.(*VStruct)
		r := tTrue
		st := t.Underlying().(*types.Struct)
		for i := range p.f {
			r = And(r, x.valEq(p.f[i], q.f[i], st.Field(i).Type()))
		}
		return r
	case *VArr:
		q := b.(*VArr)
		r := tTrue
		for i := range p.e {
			r = And(r, x.valEq(p.e[i], q.e[i], t.Underlying().(*types.Array).Elem()))
		}
		return r
	case *VFunc:
		if q, ok := b.(*VFn); ok && q.t.op == OConst {
			return tFalse
		}
	case *VFn:
		if q, ok := b.(*VFn); ok {
			return Eq(p.t, q.t)
		}
		return x.valEq(b, a, t)
	case *VLoc:
		if q, ok := b.(*Term); ok && q.op == OConst {
			return Not(notNil(p))
		}
		if q, ok := b.(*VLoc); ok && q.fam == p.fam {
			return argsEq(p.args, q.args)
		}
	case *VArrPtr:
		if q, ok := b.(*Term); ok {
			return refEq(p.base, q)
		}
		if q, ok := b.(*VArrPtr); ok {
			return And(refEq(p.base, q.base), Eq(p.off, q.off))
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) convert(v Val, from, to types.Type, st *State, pc *Term) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		t, isT := v.(*Term)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			lo, hi, bits, signed, _ := intRange(tb)
			if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
				return t
			}
			if signed {
				if bits == 64 {
					_, _, fbits, fsigned, _ := intRange(fb)
					if fsigned || fbits < 64 {
						return t
					}
				}
				return wrapS(t, bits)
			}
			if bits == 64 {
				if t.lo == nil || t.hi == nil {
					// int -> uint64 of an unbounded mathematical value
					return Ite(Le(C(0), t), t, Add(t, CB(pow2(64))))
				}
			}
			return wrapU(t, bits)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return fpFromInt(t, leavesOf(to)[0].sort)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return fpConv(t, leavesOf(to)[0].sort)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			_, _, bits, signed, _ := intRange(tb)
			return fpToInt(t, bits, signed)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return newStr(freshSym("runelen", SInt, bi1, bi(4)), func(i *Term) *Term { return App("runech", SInt, bi0, bi(255), t, i) })
		}
		_ = isT
		unsup("convert %v to %v", from, to)
	}
	if s, ok := v.(*VSlice); ok && tok && tb.Info()&types.IsString != 0 {
		et := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		if et.Kind() == types.Uint8 {
			h := st.get(elemFam(et), leavesOf(et)[0])
			if k, ok := s.ln.constInt(); ok && k >= 0 && k <= 8 {
				var bs []*Term
				for j := int64(0); j < k; j++ {
					bs = append(bs, x.simp(h.sel([]*Term{s.base, Add(s.off, C(j))}), pc))
				}
				return strBytes(bs)
			}
			return newStr(s.ln, func(j *Term) *Term { return h.sel([]*Term{s.base, Add(s.off, j)}) })
		}
		if et.Kind() == types.Int32 {
			return &VStr{App("runestr", SInt, bi0, nil, s.base, s.ln)}
		}
	}
	if s, ok := v.(*VStr); ok {
		if sl, ok := to.Underlying().(*types.Slice); ok && sl.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			r := freshRoot("bytes")
			et := sl.Elem()
			l := leavesOf(et)[0]
			h := st.get(elemFam(et), l)
			sid := s.sid
			st.set(elemFam(et), l, newHeap(&Heap{kind: hRange, parent: h, args: []*Term{r}, src: func(i *Term) *Term { return strAt(sid, i) }, leaf: l, name: h.name}))
			x.writes = append(x.writes, Write{key: elemFam(et), args: []*Term{r}, pc: pc})
			n := strLen(sid)
			return &VSlice{r, C(0), n, n}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		unsup("pointer conversion")
	}
	unsup("convert %v to %v", from, to)
	return nil
}

// ---- interfaces

var tagOf = map[string]*Term{}
var typeOfTag = map[*Term]types.Type{}
var tagCt int64

func typeTag(t types.Type) *Term {
	k := typeKey(t)
	if g, ok := tagOf[k]; ok {
		return g
	}
	tagCt++
	g := C(tagCt)
	tagOf[k] = g
	typeOfTag[g] = t
	return g
}

func (x *Exec) makeIface(v Val, t types.Type) Val {
	if vi, ok := v.(*VIface); ok {
		return vi
	}
	tag := typeTag(t)
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		if r := ptrRef(v); r != nil {
			return &VIface{tag, r}
		}
	}
	ts := boxTerms(v)
	return &VIface{tag, App("box:"+typeKey(t), SInt, bi1, nil, ts...)}
}

func boxTerms(v Val) []*Term {
	return valTerms(v)
}

// unbox gives the value of concrete type t held in box.
func unbox(box *Term, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return box
	}
	name := "box:" + typeKey(t)
	if box.op == OApp && box.name == name {
		k := 0
		return buildVal(t, func(l Leaf) *Term { r := box.args[k]; k++; return r })
	}
	if box.op == OIte {
		// only push when a branch is a box of this type
		if hasBox(box, name) {
			return iteVal(box.args[0], unbox(box.args[1], t), unbox(box.args[2], t))
		}
	}
	k := 0
	return buildVal(t, func(l Leaf) *Term {
		r := App(fmt.Sprintf("unbox:%s:%d", typeKey(t), k), l.sort, l.lo, l.hi, box)
		k++
		return r
	})
}

func hasBox(t *Term, name string) bool {
	if t.op == OIte {
		return hasBox(t.args[1], name) || hasBox(t.args[2], name)
	}
	return t.op == OApp && t.name == name
}

// buildVal assembles a value of type t from leaf terms supplied in order.
func buildVal(t types.Type, next func(l Leaf) *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, buildVal(u.Field(i).Type(), next))
		}
		return v
	case *types.Array:
		v := &VArr{}
		for i := int64(0); i < u.Len(); i++ {
			v.e = append(v.e, buildVal(u.Elem(), next))
		}
		return v
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, next(l))
	}
	return mkVal(t, ts)
}

// symVal makes a fresh symbolic value of type t.
func symVal(name string, t types.Type) Val {
	return buildVal(t, func(l Leaf) *Term { return freshSym(name+l.suffix, l.sort, l.lo, l.hi) })
}

// implCond: condition that dynamic type tag implements interface it.
func (x *Exec) implCond(tag *Term, it types.Type) *Term {
	if tag.op == OIte {
		return Ite(tag.args[0], x.implCond(tag.args[1], it), x.implCond(tag.args[2], it))
	}
	if tag.op == OConst {
		if tag.k.Sign() == 0 {
			return tFalse
		}
		ct := typeOfTag[tag]
		if ct == nil {
			return tFalse
		}
		return boolT(types.Implements(ct, it.Underlying().(*types.Interface)))
	}
	return And(Neq(tag, C(0)), App("impl:"+typeKey(it), SBool, nil, nil, tag))
}

func (x *Exec) typeAssert(fr *Frame, i *ssa.TypeAssert, pc *Term, st *State) {
	v := x.get(fr, i.X, pc).(*VIface)
	var ok *Term
	var val Val
	if types.IsInterface(i.AssertedType) {
		ok = x.implCond(v.tag, i.AssertedType)
		val = v
		if i.CommaOk {
			val = iteVal(ok, v, &VIface{C(0), C(0)})
		}
	} else {
		ok = Eq(v.tag, typeTag(i.AssertedType))
		val = unbox(v.box, i.AssertedType)
		if p, isT := val.(*Term); isT && ok != tFalse {
			if _, isP := i.AssertedType.Underlying().(*types.Pointer); isP {
				_ = p
			}
		}
		if i.CommaOk {
			z := x.normPtr(zeroVal(i.AssertedType), i.AssertedType)
			if _, isArr := z.(*VArrPtr); isArr {
				unsup("assert to array pointer")
			}
			val = iteVal(ok, val, z)
		}
	}
	if i.CommaOk {
		fr.env[i] = VTuple{x.simpVal(val, pc), x.simp(ok, pc)}
		return
	}
	x.safe("typeassert", fr, i.Pos(), pc, ok)
	fr.env[i] = x.simpVal(val, pc)
}

// ---- maps

func mapFam(mt *types.Map) string { return "M:" + typeKey(mt) }

func keyTerm(v Val) *Term {
	ts := valTerms(v)
	if len(ts) != 1 {
		unsup("map key %T", v)
	}
	return ts[0]
}

// mapCells lists the leaf families of a map's values.
func mapCells(mt *types.Map) []Leaf {
	var ls []Leaf
	k := 0
	buildVal(mt.Elem(), func(l Leaf) *Term {
		l.suffix = fmt.Sprintf(".v%d", k)
		k++
		ls = append(ls, l)
		return zeroLeaf(l)
	})
	return ls
}

func (x *Exec) mapStore(st *State, mt *types.Map, m *Term, key, val Val, has *Term, pc *Term) {
	k := keyTerm(key)
	fam := mapFam(mt)
	hl := Leaf{SBool, nil, nil, ""}
	st.set(fam+".has", hl, st.get(fam+".has", hl).store([]*Term{m, k}, has))
	x.writes = append(x.writes, Write{key: fam + ".has", args: []*Term{m, k}, pc: pc})
	if val == nil {
		return
	}
	ts := valTerms(val)
	ls := mapCells(mt)
	if len(ts) != len(ls) {
		unsup("map value layout")
	}
	for i, l := range ls {
		st.set(fam, l, st.get(fam, l).store([]*Term{m, k}, ts[i]))
		x.writes = append(x.writes, Write{key: fam + l.suffix, args: []*Term{m, k}, pc: pc})
	}
}

func (st *State) mapHas(mt *types.Map, m, k *Term) *Term {
	h := st.get(mapFam(mt)+".has", Leaf{SBool, nil, nil, ""}).sel([]*Term{m, k})
	return And(Not(refEq(m, C(0))), h)
}

func (st *State) mapVal(mt *types.Map, m, k *Term) Val {
	ls := mapCells(mt)
	i := 0
	return buildVal(mt.Elem(), func(l Leaf) *Term {
		r := st.get(mapFam(mt), ls[i]).sel([]*Term{m, k})
		i++
		return r
	})
}

func (x *Exec) lookup(fr *Frame, i *ssa.Lookup, pc *Term, st *State) {
	if s, ok := x.get(fr, i.X, pc).(*VStr); ok {
		idx := x.term(fr, i.Index, pc)
		x.safe("index", fr, i.Pos(), pc, And(Le(C(0), idx), Lt(idx, strLen(s.sid))))
		fr.env[i] = x.simp(strAt(s.sid, idx), pc)
		return
	}
	m := x.term(fr, i.X, pc)
	mt := i.X.Type().Underlying().(*types.Map)
	k := keyTerm(x.get(fr, i.Index, pc))
	has := x.simp(st.mapHas(mt, m, k), pc)
	v := iteVal(has, st.mapVal(mt, m, k), zeroVal(mt.Elem()))
	v = x.simpVal(v, pc)
	if i.CommaOk {
		fr.env[i] = VTuple{v, has}
	} else {
		fr.env[i] = v
	}
}

// ---- globals

type table struct {
	name string
	vals []*big.Int
	arr  *types.Array
}

var tables = map[*Term]*table{}

func (x *Exec) globalPtr(g *ssa.Global) Val {
	t := deref(g.Type())
	r := namedSym("g:"+g.Pkg.Pkg.Path()+"."+g.Name(), SInt, bi1, nil)
	r.root = true
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return r
	case *types.Array:
		x.pr.table(g, r, u)
		return &VArrPtr{r, C(0), u}
	}
	return &VLoc{fam: "C:" + typeKey(t.Underlying()), args: []*Term{r}, typ: t}
}

func (x *Exec) loadGlobal(fr *Frame, g *ssa.Global, pc *Term, st *State) Val {
	t := deref(g.Type())
	if g.Name() == "Debug" && g.Pkg.Pkg.Path() == modPath {
		x.note("package variable psd.Debug is nil (debug logging off)")
		return &VIface{C(0), C(0)}
	}
	if _, ok := t.Underlying().(*types.Interface); ok && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && types.Implements(t, errorType.Underlying().(*types.Interface)) {
		x.note("error variables of the standard library are constant and non-nil")
		return &VIface{errTag, namedSym("gerr:"+g.Pkg.Pkg.Path()+"."+g.Name(), SInt, bi1, nil)}
	}
	gi := x.pr.globalInit(g)
	if gi == nil {
		// mutable or unknown global
		return x.load(st, x.globalPtr(g), t, pc)
	}
	switch t.Underlying().(type) {
	case *types.Interface:
		if types.Implements(t, errorType.Underlying().(*types.Interface)) {
			r := namedSym("gerr:"+g.Pkg.Pkg.Path()+"."+g.Name(), SInt, bi1, nil)
			return &VIface{errTag, r}
		}
		if v := x.globalIface(gi); v != nil {
			return v
		}
	case *types.Signature:
		if f, ok := gi.(*ssa.Function); ok {
			return &VFunc{fn: f}
		}
		if mc, ok := gi.(*ssa.MakeClosure); ok && len(mc.Bindings) == 0 {
			return &VFunc{fn: mc.Fn.(*ssa.Function)}
		}
		if ct, ok := gi.(*ssa.ChangeType); ok {
			if f, ok := ct.X.(*ssa.Function); ok {
				return &VFunc{fn: f}
			}
		}
	}
	return x.load(st, x.globalPtr(g), t, pc)
}

func (x *Exec) globalIface(v ssa.Value) Val {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	switch c := mi.X.(type) {
	case *ssa.Const:
		return x.makeIface(x.constVal(c), mi.X.Type())
	}
	// e.g. normal{} : load of zero struct
	if st, ok := mi.X.Type().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return x.makeIface(zeroVal(mi.X.Type()), mi.X.Type())
	}
	return nil
}

var errorType = types.Universe.Lookup("error").Type()
var errTag = C(1 << 40)

func mathFloatConst(f float64) *Term { return fpConst(f, SF64) }

var _ = math.Pi
