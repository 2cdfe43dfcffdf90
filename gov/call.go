package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, cc *ssa.CallCommon, instr ssa.Instruction, pc *Term, st *State) ([]Val, *Term) {
	if cc.IsInvoke() {
		recv := x.get(fr, cc.Value, pc).(*VIface)
		var args []Val
		for _, a := range cc.Args {
			args = append(args, x.get(fr, a, pc))
		}
		x.safe("nil", fr, cc.Pos(), pc, Neq(recv.tag, C(0)))
		return x.invoke(fr, recv, cc.Method, cc.Value.Type(), args, cc, pc, st)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, cc, instr, pc, st)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.get(fr, a, pc))
	}
	return x.callValue(fr, x.get(fr, cc.Value, pc), args, cc, instr, pc, st)
}

func (x *Exec) callValue(fr *Frame, fv Val, args []Val, cc *ssa.CallCommon, instr ssa.Instruction, pc *Term, st *State) ([]Val, *Term) {
	if f, ok := fv.(*VFunc); !ok || !modelled(f.fn) {
		x.workInGo(st, pc)
	}
	switch f := fv.(type) {
	case *VFunc:
		return x.callFn(fr, f.fn, f.bind, args, cc.Pos(), pc, st)
	case *VFn:
		if f.t.op == OIte {
			c := x.simp(f.t.args[0], pc)
			mk := func(t *Term) Val {
				if v, ok := funcTerms[t]; ok {
					return v
				}
				return &VFn{t}
			}
			return x.branch(fr, c, pc, st, func(pc *Term, st *State) ([]Val, *Term) {
				return x.callValue(fr, mk(f.t.args[1]), args, cc, instr, pc, st)
			}, func(pc *Term, st *State) ([]Val, *Term) {
				return x.callValue(fr, mk(f.t.args[2]), args, cc, instr, pc, st)
			})
		}
		x.safe("nilfunc", fr, cc.Pos(), pc, Neq(f.t, C(0)))
		if c := x.pr.ftypes[typeKey(cc.Value.Type())]; c != nil {
			return x.contractCall(fr, c, append([]Val{f}, args...), cc.Pos(), pc, st)
		}
		x.note("callback of type " + typeKey(cc.Value.Type()) + " does not modify decoder or image state and does not panic")
		return freshResults("cb", cc.Signature().Results()), pc
	}
	unsup("call of %T", fv)
	return nil, nil
}

// branch runs two alternatives and merges states and results.
func (x *Exec) branch(fr *Frame, c, pc *Term, st *State, f, g func(pc *Term, st *State) ([]Val, *Term)) ([]Val, *Term) {
	pa, pb := And(pc, c), And(pc, Not(c))
	if pa == tFalse {
		return g(pc, st)
	}
	if pb == tFalse {
		return f(pc, st)
	}
	sa, sb := st.clone(), st.clone()
	va, qa := f(pa, sa)
	vb, qb := g(pb, sb)
	if qa == tFalse && qb == tFalse {
		return nil, tFalse
	}
	if qa == tFalse {
		st.h = sb.h
		return vb, qb
	}
	if qb == tFalse {
		st.h = sa.h
		return va, qa
	}
	es := []edge{{pc: qa, st: sa}, {pc: qb, st: sb}}
	npc, nst, sel := x.mergeEdges(es)
	st.h = nst.h
	var vs []Val
	for i := range va {
		vs = append(vs, iteVal(sel[0], va[i], vb[i]))
	}
	return vs, x.contPc(pc, npc)
}

// contPc keeps the path condition small: complicated conditions become facts.
func (x *Exec) contPc(pc, npc *Term) *Term {
	if npc == pc || npc == tFalse {
		return npc
	}
	var keep []*Term
	var hard []*Term
	for _, c := range conjuncts(npc) {
		if c.op == OOr && c.size > 12 {
			hard = append(hard, c)
		} else {
			keep = append(keep, c)
		}
	}
	if len(hard) == 0 {
		return npc
	}
	k := And(keep...)
	// only drop when nothing of pc is lost
	x.assume(k, And(hard...))
	return k
}

func freshResults(name string, rs *types.Tuple) []Val {
	var out []Val
	for i := 0; i < rs.Len(); i++ {
		out = append(out, symVal(fmt.Sprintf("%s.r%d", name, i), rs.At(i).Type()))
	}
	return out
}

func (x *Exec) callFn(fr *Frame, fn *ssa.Function, bind []Val, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
	if m := modelOf(fn); m != nil {
		return m(x, fr, fn, args, pos, pc, st)
	}
	if c := x.pr.contracts[fn]; c != nil && x.useContract(c) {
		return x.contractCall(fr, c, args, pos, pc, st)
	}
	if fn.Blocks == nil {
		unsup("call of external function %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			unsup("recursive call of %s without contract", fn)
		}
	}
	x.inlined[fn.String()] = true
	nf := x.newFrame(fn, args, bind, pc, st)
	nf.parent = fr
	x.run(nf, pc, st.clone())
	rpc, rst, vals := x.results(nf)
	if rpc == tFalse {
		return nil, tFalse
	}
	st.h = rst.h
	return vals, x.contPc(pc, rpc)
}

func (x *Exec) invoke(fr *Frame, recv *VIface, m *types.Func, it types.Type, args []Val, cc *ssa.CallCommon, pc *Term, st *State) ([]Val, *Term) {
	tag := x.simp(recv.tag, pc)
	if tag.op == OIte {
		c := tag.args[0]
		return x.branch(fr, c, pc, st, func(pc *Term, st *State) ([]Val, *Term) {
			return x.invoke(fr, x.simpVal(recv, pc).(*VIface), m, it, args, cc, pc, st)
		}, func(pc *Term, st *State) ([]Val, *Term) {
			return x.invoke(fr, x.simpVal(recv, pc).(*VIface), m, it, args, cc, pc, st)
		})
	}
	if tag.op == OConst {
		if tag.k.Sign() == 0 {
			return nil, tFalse
		}
		if tag == errTag {
			return freshResults("err", m.Type().(*types.Signature).Results()), pc
		}
		if tag == zlibTag {
			if vs, npc, ok := x.modelInvoke(fr, recv, m, it, args, cc, pc, st); ok {
				return vs, npc
			}
		}
		t := typeOfTag[tag]
		if t == nil {
			unsup("dispatch on tag %v", tag)
		}
		if vs, npc, ok := x.modelInvokeT(fr, recv, t, m, args, cc, pc, st); ok {
			return vs, npc
		}
		f := x.ld.prog.LookupMethod(t, m.Pkg(), m.Name())
		if f == nil {
			unsup("method %s of %v", m.Name(), t)
		}
		return x.callFn(fr, f, nil, append([]Val{unbox(recv.box, t)}, args...), cc.Pos(), pc, st)
	}
	// unknown dynamic type: case split over the literal tags known to equal it is not
	// possible; use the interface model.
	if vs, npc, ok := x.modelInvoke(fr, recv, m, it, args, cc, pc, st); ok {
		return vs, npc
	}
	if ts := x.implementers(it); len(ts) > 0 {
		return x.dispatch(ts, fr, recv, m, it, args, cc, pc, st)
	}
	unsup("invoke %s on unknown %v", m.Name(), it)
	return nil, nil
}

// implementers lists the types that implement a module interface having an unexported
// method: only types of that package can, so the list is closed.
func (x *Exec) implementers(it types.Type) []types.Type {
	n, ok := it.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	i, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	closed := false
	for k := 0; k < i.NumMethods(); k++ {
		closed = closed || !i.Method(k).Exported()
	}
	if !closed {
		return nil
	}
	var ts []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), i) {
			ts = append(ts, tn.Type())
		}
		if p := types.NewPointer(tn.Type()); types.Implements(p, i) {
			ts = append(ts, p)
		}
	}
	return ts
}

func (x *Exec) dispatch(ts []types.Type, fr *Frame, recv *VIface, m *types.Func, it types.Type, args []Val, cc *ssa.CallCommon, pc *Term, st *State) ([]Val, *Term) {
	for len(ts) > 0 {
		c := x.simp(Eq(recv.tag, typeTag(ts[0])), pc)
		if c == tFalse {
			ts = ts[1:]
			continue
		}
		r := func(pc *Term) *VIface { return &VIface{typeTag(ts[0]), x.simp(recv.box, pc)} }
		if c == tTrue {
			return x.invoke(fr, r(pc), m, it, args, cc, pc, st)
		}
		rest := ts[1:]
		return x.branch(fr, c, pc, st, func(pc *Term, st *State) ([]Val, *Term) {
			return x.invoke(fr, r(pc), m, it, args, cc, pc, st)
		}, func(pc *Term, st *State) ([]Val, *Term) {
			return x.dispatch(rest, fr, recv, m, it, args, cc, pc, st)
		})
	}
	return nil, tFalse // nil: the call panics
}

func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, instr ssa.Instruction, pc *Term, st *State) ([]Val, *Term) {
	arg := func(i int) Val { return x.get(fr, cc.Args[i], pc) }
	switch b.Name() {
	case "len":
		switch v := arg(0).(type) {
		case *VSlice:
			return []Val{v.ln}, pc
		case *VStr:
			return []Val{strLen(v.sid)}, pc
		case *VArrPtr:
			return []Val{C(v.arr.Len())}, pc
		case *VArr:
			return []Val{C(int64(len(v.e)))}, pc
		case *Term:
			return []Val{freshSym("maplen", SInt, bi0, maxLen)}, pc
		}
	case "cap":
		if v, ok := arg(0).(*VSlice); ok {
			return []Val{v.cp}, pc
		}
	case "copy":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		d := arg(0).(*VSlice)
		var n *Term
		switch s := arg(1).(type) {
		case *VSlice:
			n = x.simp(minT(d.ln, s.ln), pc)
			x.copyElems(st, et, d.base, d.off, n, s.base, s.off, pc)
		case *VStr:
			n = minT(d.ln, strLen(s.sid))
			l := leavesOf(et)[0]
			h := st.get(elemFam(et), l)
			sid, off := s.sid, d.off
			st.set(elemFam(et), l, newHeap(&Heap{kind: hRange, parent: h, args: []*Term{d.base}, lo: off, hi: Add(off, n), src: func(i *Term) *Term { return strAt(sid, Sub(i, off)) }, leaf: l, name: h.name}))
			x.writes = append(x.writes, Write{key: elemFam(et), args: []*Term{d.base}, lo: off, hi: Add(off, n), pc: pc})
		default:
			unsup("copy")
		}
		return []Val{n}, pc
	case "append":
		return []Val{x.appendSlice(cc.Args[0].Type().Underlying().(*types.Slice).Elem(), arg(0).(*VSlice), arg(1), pc, st)}, pc
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m := arg(0).(*Term)
		x.mapStore(st, mt, m, arg(1), nil, tFalse, pc)
		return nil, pc
	case "min", "max":
		r := arg(0).(*Term)
		for i := 1; i < len(cc.Args); i++ {
			t := arg(i).(*Term)
			if r.sort != SInt {
				unsup("float min/max")
			}
			if b.Name() == "min" {
				r = minT(r, t)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		return []Val{r}, pc
	case "print", "println":
		return nil, pc
	case "recover":
		return []Val{&VIface{C(0), C(0)}}, pc
	}
	unsup("builtin %s", b.Name())
	return nil, nil
}

func minT(a, b *Term) *Term {
	if a == b {
		return a
	}
	return Ite(Le(a, b), a, b)
}

// copyElems copies n elements between slices (memmove semantics).
func (x *Exec) copyElems(st *State, et types.Type, db, do, n, sb, so *Term, pc *Term) {
	if n == C(0) {
		return
	}
	if isAgg(et) {
		if !db.root {
			unsup("copy of structs into existing slice")
		}
		x.copyAgg(st, et, db, do, n, sb, so, pc)
		return
	}
	fam := elemFam(et)
	for _, l := range leavesOf(et) {
		h := st.get(fam, l)
		st.set(fam, l, newHeap(&Heap{kind: hRange, parent: h, args: []*Term{db}, lo: do, hi: Add(do, n), src: func(i *Term) *Term {
			return h.sel([]*Term{sb, Add(i, Sub(so, do))})
		}, leaf: l, name: h.name}))
		x.writes = append(x.writes, Write{key: fam + l.suffix, args: []*Term{db}, lo: do, hi: Add(do, n), pc: pc})
	}
}

func (x *Exec) copyAgg(st *State, et types.Type, db, do, n, sb, so *Term, pc *Term) {
	eff := map[string]Leaf{}
	famLeaves(et, eff)
	for _, k := range sortedKeys(eff) {
		l := eff[k]
		h := st.get(k, Leaf{l.sort, l.lo, l.hi, ""})
		st.h[k] = newHeap(&Heap{kind: hCopy, parent: h, other: h, args: []*Term{db}, lo: do, hi: Add(do, n), src: func(i *Term) *Term {
			return eref(sb, Add(i, Sub(so, do)))
		}, leaf: l, name: h.name})
		x.writes = append(x.writes, Write{key: k, args: []*Term{db}, pc: pc})
	}
}

// famLeaves lists the heap families (with leaf info) of an aggregate type.
func famLeaves(t types.Type, out map[string]Leaf) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				famLeaves(ft, out)
				continue
			}
			for _, l := range leavesOf(ft) {
				out[fieldFam(t, i)+l.suffix] = l
			}
		}
	case *types.Array:
		if isAgg(u.Elem()) {
			famLeaves(u.Elem(), out)
			return
		}
		for _, l := range leavesOf(u.Elem()) {
			out[elemFam(u.Elem())+l.suffix] = l
		}
	}
}

func (x *Exec) appendSlice(et types.Type, s *VSlice, tv Val, pc *Term, st *State) Val {
	x.note("append is modelled as copying to a new array (no other slice observes spare capacity)")
	var tn *Term
	switch t := tv.(type) {
	case *VSlice:
		tn = t.ln
	case *VStr:
		tn = strLen(t.sid)
	default:
		unsup("append %T", tv)
	}
	if tn == C(0) {
		return s
	}
	n := Add(s.ln, tn)
	r := freshRoot("app")
	x.copyElems(st, et, r, C(0), s.ln, s.base, s.off, pc)
	if t, ok := tv.(*VSlice); ok {
		x.copyElems(st, et, r, s.ln, tn, t.base, t.off, pc)
	} else {
		unsup("append string")
	}
	cp := freshSym("cap", SInt, bi0, maxLen)
	x.assume(pc, Le(n, cp))
	return &VSlice{r, C(0), n, cp}
}

// ---- goroutines

type task struct {
	writes []Write
	pc     *Term
	pos    token.Pos
}

func (x *Exec) goStmt(fr *Frame, i *ssa.Go, pc *Term, st *State) {
	x.note("goroutines are executed sequentially at their go statement; that they do not interfere is assumed; that each is joined before the function returns is proved for C09, C11 and C22")
	cc := &i.Call
	if cc.IsInvoke() {
		unsup("go invoke")
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.get(fr, a, pc))
	}
	join := x.hasJoin(x.prop) && x.goDepth == 0
	if join {
		x.setJoin(st, "dones", C(1), C(0), pc)
	}
	x.goDepth++
	_, npc := x.callValue(fr, x.get(fr, cc.Value, pc), args, cc, i, pc, st)
	x.goDepth--
	if join {
		// a goroutine that does not say once, at its end, that it is done is never joined
		x.sawGo = true
		x.setJoin(st, "go", C(1), Add(st.join("go", C(1)), Ite(Eq(st.join("dones", C(1)), C(1)), C(1), C(1<<40))), pc)
	}
	if npc != pc && npc != tFalse {
		x.assume(pc, npc)
	}
}
