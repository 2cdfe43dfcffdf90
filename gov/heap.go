package main

// Values, heaps and references.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VStruct struct{ f []Val }
type VSlice struct{ base, off, ln, cp *Term }
type VStr struct{ sid *Term }
type VIface struct{ tag, box *Term }
type VTuple []Val
type VFunc struct {
	fn   *ssa.Function
	bind []Val
}

// VLoc addresses a non-struct cell: family + arguments.
type VLoc struct {
	fam  string
	args []*Term
	typ  types.Type // type of the cell
}

// VArrPtr addresses an array object (elements at idx off+i of base).
type VArrPtr struct {
	base *Term
	off  *Term
	arr  *types.Array
}

// VArr is an array value: n elements.
type VArr struct{ e []Val }

// VMap is just a ref term.

// VComplexFn is an unknown function value.
type VFn struct{ t *Term }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- references

func refSub(field string, r *Term) *Term { return App("sub:"+field, SInt, bi1, nil, r) }
func eref(base, idx *Term) *Term         { return App("eref", SInt, bi1, nil, base, idx) }
func isCtor(t *Term) bool {
	return t.op == OApp && (t.name == "eref" || strings.HasPrefix(t.name, "sub:"))
}

// rootOf strips reference constructors.
func rootOf(t *Term) *Term {
	for isCtor(t) {
		t = t.args[0]
	}
	return t
}

// refEq is equality of references, using constructor disjointness and freshness.
func refEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OIte {
		return Ite(a.args[0], refEq(a.args[1], b), refEq(a.args[2], b))
	}
	if b.op == OIte {
		return Ite(b.args[0], refEq(a, b.args[1]), refEq(a, b.args[2]))
	}
	if a.op == OConst || b.op == OConst {
		if a.op == OConst && b.op == OConst {
			return Eq(a, b)
		}
		o := b
		k := a
		if b.op == OConst {
			o, k = a, b
		}
		if k.k.Sign() == 0 && (o.root || isCtor(o)) {
			return tFalse
		}
		return Eq(a, b)
	}
	ca, cb := isCtor(a), isCtor(b)
	if ca && cb {
		if a.name != b.name {
			return tFalse
		}
		if a.name == "eref" {
			return And(refEq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
		}
		return refEq(a.args[0], b.args[0])
	}
	if ca || cb {
		c, o := a, b
		if cb {
			c, o = b, a
		}
		if o.root {
			return tFalse // allocation roots are not interior references
		}
		r := rootOf(c)
		if r.root && o.age() < r.stamp {
			return tFalse
		}
		return Eq(a, b)
	}
	if rootDistinct(a, b) {
		return tFalse
	}
	return Eq(a, b)
}

// ---- leaves

type Leaf struct {
	sort   Sort
	lo, hi *big.Int
	suffix string
}

var maxLen = pow2(47)

func intRange(b *types.Basic) (lo, hi *big.Int, bits int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), bi1), 64, true, true
	case types.Int32, types.UntypedRune:
		return new(big.Int).Neg(pow2(31)), new(big.Int).Sub(pow2(31), bi1), 32, true, true
	case types.Int16:
		return bi(-32768), bi(32767), 16, true, true
	case types.Int8:
		return bi(-128), bi(127), 8, true, true
	case types.Uint8:
		return bi0, bi(255), 8, false, true
	case types.Uint16:
		return bi0, bi(65535), 16, false, true
	case types.Uint32:
		return bi0, new(big.Int).Sub(pow2(32), bi1), 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return bi0, new(big.Int).Sub(pow2(64), bi1), 64, false, true
	}
	return nil, nil, 0, false, false
}

// leavesOf lists the scalar components of a non-struct, non-array type.
func leavesOf(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, _, _, ok := intRange(u); ok {
			return []Leaf{{SInt, lo, hi, ""}}
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return []Leaf{{SBool, nil, nil, ""}}
		case types.Float32:
			return []Leaf{{SF32, nil, nil, ""}}
		case types.Float64, types.UntypedFloat:
			return []Leaf{{SF64, nil, nil, ""}}
		case types.String, types.UntypedString:
			return []Leaf{{SInt, bi0, nil, ".sid"}}
		case types.UnsafePointer:
			return []Leaf{{SInt, bi0, nil, ""}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{SInt, bi0, nil, ""}}
	case *types.Slice:
		return []Leaf{{SInt, bi0, nil, ".base"}, {SInt, bi0, maxLen, ".off"}, {SInt, bi0, maxLen, ".len"}, {SInt, bi0, maxLen, ".cap"}}
	case *types.Interface:
		return []Leaf{{SInt, bi0, nil, ".tag"}, {SInt, bi0, nil, ".box"}}
	}
	unsup("leavesOf %v", t)
	return nil
}

// mkVal builds a Val of non-aggregate type from leaf terms.
func mkVal(t types.Type, ts []*Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &VStr{ts[0]}
		}
		return ts[0]
	case *types.Slice:
		wfSlice(ts[0], ts[1], ts[2], ts[3])
		return &VSlice{ts[0], ts[1], ts[2], ts[3]}
	case *types.Interface:
		return &VIface{ts[0], ts[1]}
	case *types.Signature:
		if fv, ok := funcTerms[ts[0]]; ok {
			return fv
		}
		return &VFn{ts[0]}
	}
	return ts[0]
}

func wfSlice(base, off, ln, cp *Term) {
	f := Le(ln, cp)
	addTermFact(ln, f)
	addTermFact(cp, f)
	addTermFact(off, Le(Add(off, cp), CB(pow2(48))))
	if !base.isConst() {
		addTermFact(base, Or(Neq(base, C(0)), Eq(cp, C(0))))
	}
}

var funcTerms = map[*Term]*VFunc{}
var funcTermOf = map[*ssa.Function]*Term{}

// unVal is the inverse of mkVal.
func unVal(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *VStr:
		return []*Term{x.sid}
	case *VSlice:
		return []*Term{x.base, x.off, x.ln, x.cp}
	case *VIface:
		return []*Term{x.tag, x.box}
	case *VFn:
		return []*Term{x.t}
	case *VFunc:
		if len(x.bind) == 0 {
			t := funcTermOf[x.fn]
			if t == nil {
				t = namedSym("fn:"+x.fn.String(), SInt, bi1, nil)
				funcTermOf[x.fn] = t
				funcTerms[t] = x
			}
			return []*Term{t}
		}
		t := freshRoot("clo")
		funcTerms[t] = x
		return []*Term{t}
	case *VLoc:
		// a pointer to a cell allocated on its own
		if strings.HasPrefix(x.fam, "C:") && len(x.args) == 1 {
			return []*Term{x.args[0]}
		}
		unsup("interior pointer stored: %s", x.fam)
	case *VArrPtr:
		if k, ok := x.off.constInt(); ok && k == 0 {
			return []*Term{x.base}
		}
	}
	unsup("unVal %T", v)
	return nil
}

// ---- strings

type strInfo struct {
	bs []*Term // canonical (short) strings: the bytes
	ln *Term
	at func(i *Term) *Term
}

var strTab = map[*Term]*strInfo{}
var litTab = map[string]*Term{}
var litBack = map[*Term]string{}

func strLit(s string) *VStr {
	if t, ok := litTab[s]; ok {
		return &VStr{t}
	}
	var t *Term
	if len(s) <= 8 {
		v := new(big.Int).Mul(bi(int64(len(s))), pow2(64))
		for i := 0; i < len(s); i++ {
			v.Add(v, new(big.Int).Mul(bi(int64(s[i])), pow2(8*i)))
		}
		t = CB(v)
	} else {
		v := new(big.Int).Add(pow2(80), bi(int64(len(litTab))))
		t = CB(v)
	}
	litTab[s] = t
	litBack[t] = s
	strTab[t] = &strInfo{ln: C(int64(len(s))), at: func(i *Term) *Term {
		if k, ok := i.constInt(); ok && k >= 0 && k < int64(len(s)) {
			return C(int64(s[k]))
		}
		return App("strch", SInt, bi0, bi(255), t, i)
	}}
	return &VStr{t}
}

// strBytes makes the string whose bytes are the given terms (<= 8 of them).
func strBytes(bs []*Term) *VStr {
	allc := true
	for _, b := range bs {
		if !b.isConst() {
			allc = false
		}
	}
	if allc {
		var l []byte
		for _, b := range bs {
			l = append(l, byte(b.k.Int64()))
		}
		return strLit(string(l))
	}
	t := CB(new(big.Int).Mul(bi(int64(len(bs))), pow2(64)))
	for i, b := range bs {
		t = Add(t, Scale(b, pow2(8*i)))
	}
	bb := append([]*Term(nil), bs...)
	if _, ok := strTab[t]; !ok {
		strTab[t] = &strInfo{bs: bb, ln: C(int64(len(bs))), at: func(i *Term) *Term {
			if k, ok := i.constInt(); ok && k >= 0 && k < int64(len(bb)) {
				return bb[k]
			}
			r := bb[0]
			for j := 1; j < len(bb); j++ {
				r = Ite(Eq(i, C(int64(j))), bb[j], r)
			}
			return r
		}}
	}
	return &VStr{t}
}

// mapStr applies f below a string term, keeping the information about its bytes.
func mapStr(sid *Term, f func(*Term) *Term) *Term {
	if in, ok := strTab[sid]; ok && in.bs != nil {
		bs := make([]*Term, len(in.bs))
		for i, b := range in.bs {
			bs[i] = f(b)
		}
		return strBytes(bs).sid
	}
	if sid.op == OIte {
		return Ite(f(sid.args[0]), mapStr(sid.args[1], f), mapStr(sid.args[2], f))
	}
	return f(sid)
}

func strLen(sid *Term) *Term {
	if in, ok := strTab[sid]; ok {
		return in.ln
	}
	if sid.op == OIte {
		return Ite(sid.args[0], strLen(sid.args[1]), strLen(sid.args[2]))
	}
	return App("strlen", SInt, bi0, maxLen, sid)
}

func strAt(sid, i *Term) *Term {
	if in, ok := strTab[sid]; ok {
		return in.at(i)
	}
	if sid.op == OIte {
		return Ite(sid.args[0], strAt(sid.args[1], i), strAt(sid.args[2], i))
	}
	return App("strch", SInt, bi0, bi(255), sid, i)
}

// ---- heaps

type hkind uint8

const (
	hBase hkind = iota
	hStore
	hIte
	hRange // args[0]==base && lo<=args[1]<hi -> src(args[1]), else parent
	hHavoc // unchanged(args) ? parent : fresh
	hCopy  // elements of args[0] (a fresh array) read from another array
	hFill  // args[0] == ref -> const val (zero initialisation)
)

type Heap struct {
	id     int
	kind   hkind
	parent *Heap
	other  *Heap
	args   []*Term
	val    *Term
	cond   *Term
	lo, hi *Term
	src    func(i *Term) *Term
	frame  func(args []*Term) *Term
	name   string
	leaf   Leaf
	stamp  int
	memo   map[string]*Term
}

var heapCt int
var heapHC = map[string]*Heap{}

func newHeap(h *Heap) *Heap {
	heapCt++
	h.id = heapCt
	h.memo = map[string]*Term{}
	return h
}

func argKey(args []*Term) string {
	switch len(args) {
	case 1:
		return fmt.Sprint(args[0].id)
	case 2:
		return fmt.Sprint(args[0].id, ",", args[1].id)
	}
	return keyOf("", args)
}

func baseHeap(name string, leaf Leaf) *Heap {
	if h, ok := heapHC["b"+name]; ok {
		return h
	}
	h := newHeap(&Heap{kind: hBase, name: name, leaf: leaf})
	heapHC["b"+name] = h
	return h
}

func (h *Heap) store(args []*Term, v *Term) *Heap {
	return newHeap(&Heap{kind: hStore, parent: h, args: args, val: v, leaf: h.leaf, name: h.name})
}

func iteHeap(c *Term, a, b *Heap) *Heap {
	if a == b || c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	k := fmt.Sprintf("i%d,%d,%d", c.id, a.id, b.id)
	if h, ok := heapHC[k]; ok {
		return h
	}
	h := newHeap(&Heap{kind: hIte, cond: c, parent: a, other: b, leaf: a.leaf, name: a.name})
	heapHC[k] = h
	return h
}

func argsEq(a, b []*Term) *Term {
	r := refEq(a[0], b[0])
	if r == tFalse {
		return r
	}
	for i := 1; i < len(a); i++ {
		r = And(r, Eq(a[i], b[i]))
	}
	return r
}

func (h *Heap) sel(args []*Term) *Term {
	k := argKey(args)
	if t, ok := h.memo[k]; ok {
		return t
	}
	var r *Term
	if args[0].op == OIte && args[0].sort == SInt {
		a, b := append([]*Term(nil), args...), append([]*Term(nil), args...)
		a[0], b[0] = args[0].args[1], args[0].args[2]
		r = Ite(args[0].args[0], h.sel(a), h.sel(b))
		h.memo[k] = r
		return r
	}
	switch h.kind {
	case hBase:
		r = App(h.name, h.leaf.sort, h.leaf.lo, h.leaf.hi, args...)
		r.heap = r.op == OApp
	case hStore:
		e := argsEq(args, h.args)
		if e == tTrue {
			r = h.val
		} else if e == tFalse {
			r = h.parent.sel(args)
		} else {
			r = Ite(e, h.val, h.parent.sel(args))
		}
	case hIte:
		r = Ite(h.cond, h.parent.sel(args), h.other.sel(args))
	case hRange:
		c := refEq(args[0], h.args[0])
		if c != tFalse {
			if h.lo != nil {
				c = And(c, Le(h.lo, args[1]), Lt(args[1], h.hi))
			}
		}
		if c == tFalse {
			r = h.parent.sel(args)
		} else if c == tTrue {
			r = h.src(args[1])
		} else {
			r = Ite(c, h.src(args[1]), h.parent.sel(args))
		}
	case hFill:
		var c *Term
		if h.cond == tTrue {
			c = rootEq(args[0], h.args[0])
		} else {
			c = refEq(args[0], h.args[0])
		}
		if c == tTrue {
			r = h.val
		} else if c == tFalse {
			r = h.parent.sel(args)
		} else {
			r = Ite(c, h.val, h.parent.sel(args))
		}
	case hCopy:
		// args[0] = fresh base; src(i) maps an index to the reference eref(srcbase, idx)
		na, idx, ok := rebase(args[0], h.args[0])
		if !ok {
			r = h.parent.sel(args)
			break
		}
		if idx == nil {
			r = h.parent.sel(args)
			break
		}
		var c *Term = tTrue
		if h.lo != nil {
			c = And(Le(h.lo, idx), Lt(idx, h.hi))
		}
		b := append([]*Term(nil), args...)
		b[0] = na(h.src(idx))
		v := h.other.sel(b)
		if c == tTrue {
			r = v
		} else {
			r = Ite(c, v, h.parent.sel(args))
		}
	case hHavoc:
		c := h.frame(args)
		fr := func() *Term {
			t := App(h.name+"'"+fmt.Sprint(h.id), h.leaf.sort, h.leaf.lo, h.leaf.hi, args...)
			if t.stamp < h.stamp {
				t.stamp = h.stamp
			}
			if t.op == OApp {
				t.heap, t.hst = true, h.stamp
			}
			return t
		}
		if c == tTrue {
			r = h.parent.sel(args)
		} else if c == tFalse {
			r = fr()
		} else {
			r = Ite(c, h.parent.sel(args), fr())
		}
	}
	h.memo[k] = r
	return r
}

// ---- state

type State struct {
	h map[string]*Heap
	// values defined in a loop of the current frame some iterations of which were
	// executed one by one: the value depends on the iteration the loop was left from
	vars map[ssa.Value]Val
}

func (s *State) withVar(v ssa.Value, w Val) {
	n := make(map[ssa.Value]Val, len(s.vars)+1)
	for k, u := range s.vars {
		n[k] = u
	}
	n[v] = w
	s.vars = n
}

func (s *State) dropVar(v ssa.Value) {
	n := make(map[ssa.Value]Val, len(s.vars))
	for k, u := range s.vars {
		if k != v {
			n[k] = u
		}
	}
	s.vars = n
}

func (s *State) clone() *State {
	n := &State{h: make(map[string]*Heap, len(s.h)), vars: s.vars}
	for k, v := range s.h {
		n.h[k] = v
	}
	return n
}

func mergeState(c *Term, a, b *State) *State {
	n := &State{h: map[string]*Heap{}}
	for v, w := range a.vars {
		if u, ok := b.vars[v]; ok && u != w {
			w = iteVal(c, w, u)
		}
		n.withVar(v, w)
	}
	for v, w := range b.vars {
		if _, ok := a.vars[v]; !ok {
			n.withVar(v, w)
		}
	}
	for k, v := range a.h {
		if w, ok := b.h[k]; ok {
			n.h[k] = iteHeap(c, v, w)
		} else {
			n.h[k] = iteHeap(c, v, baseHeap(v.name0(), v.leaf))
		}
	}
	for k, w := range b.h {
		if _, ok := a.h[k]; !ok {
			n.h[k] = iteHeap(c, baseHeap(w.name0(), w.leaf), w)
		}
	}
	return n
}

func (h *Heap) name0() string {
	for h.kind != hBase {
		h = h.parent
	}
	return h.name
}

func (s *State) get(fam string, leaf Leaf) *Heap {
	k := fam + leaf.suffix
	if h, ok := s.h[k]; ok {
		return h
	}
	h := baseHeap(k, leaf)
	s.h[k] = h
	return h
}

func (s *State) set(fam string, leaf Leaf, h *Heap) { s.h[fam+leaf.suffix] = h }

// typeKey names a type for heap families.
func typeKey(t types.Type) string {
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := aliasRe.ReplaceAllStringFunc(types.TypeString(t, func(p *types.Package) string { return p.Path() }), func(m string) string {
		return strings.NewReplacer("byte", "uint8", "rune", "int32").Replace(m)
	})
	typeKeys[t] = k
	return k
}

var typeKeys = map[types.Type]string{}

// byte and rune are other names of uint8 and int32.
var aliasRe = regexp.MustCompile(`(^|[^\w./])(byte|rune)($|[^\w./])`)

func elemFam(t types.Type) string { return "E:" + typeKey(t.Underlying()) }

func fieldFam(st types.Type, i int) string {
	return fmt.Sprintf("F:%s.%s", typeKey(st), st.Underlying().(*types.Struct).Field(i).Name())
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// zeroVal is the zero value of a type.
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &VArr{}
		for i := int64(0); i < u.Len(); i++ {
			v.e = append(v.e, zeroVal(u.Elem()))
		}
		return v
	case *types.Slice:
		return &VSlice{C(0), C(0), C(0), C(0)}
	case *types.Interface:
		return &VIface{C(0), C(0)}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLit("")
		}
		if u.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if u.Info()&types.IsFloat != 0 {
			return fpConst(0, leavesOf(t)[0].sort)
		}
		return C(0)
	case *types.Signature:
		return &VFn{C(0)}
	}
	return C(0)
}

func zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case SBool:
		return tFalse
	case SF32, SF64:
		return fpConst(0, l.sort)
	}
	return C(0)
}

// iteVal merges values.
func iteVal(c *Term, a, b Val) Val {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	switch x := a.(type) {
	case nil:
		return nil
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("merge term with %T", b)
		}
		return Ite(c, x, y)
	case *VStruct:
		y := b.(*VStruct)
		r := &VStruct{}
		for i := range x.f {
			r.f = append(r.f, iteVal(c, x.f[i], y.f[i]))
		}
		return r
	case *VArr:
		y := b.(*VArr)
		r := &VArr{}
		for i := range x.e {
			r.e = append(r.e, iteVal(c, x.e[i], y.e[i]))
		}
		return r
	case VTuple:
		y := b.(VTuple)
		var r VTuple
		for i := range x {
			r = append(r, iteVal(c, x[i], y[i]))
		}
		return r
	case *VSlice:
		y := b.(*VSlice)
		return &VSlice{Ite(c, x.base, y.base), Ite(c, x.off, y.off), Ite(c, x.ln, y.ln), Ite(c, x.cp, y.cp)}
	case *VStr:
		return &VStr{Ite(c, x.sid, b.(*VStr).sid)}
	case *VIface:
		y := b.(*VIface)
		return &VIface{Ite(c, x.tag, y.tag), Ite(c, x.box, y.box)}
	case *VFunc, *VFn:
		if y, ok := b.(*VFunc); ok {
			if z, ok := a.(*VFunc); ok && z == y {
				return a
			}
		}
		return &VFn{Ite(c, unVal(a)[0], unVal(b)[0])}
	case *VLoc:
		y, ok := b.(*VLoc)
		if !ok || y.fam != x.fam {
			unsup("merge of pointers to different cells")
		}
		r := &VLoc{fam: x.fam, typ: x.typ}
		for i := range x.args {
			r.args = append(r.args, Ite(c, x.args[i], y.args[i]))
		}
		return r
	case *VArrPtr:
		y := b.(*VArrPtr)
		return &VArrPtr{Ite(c, x.base, y.base), Ite(c, x.off, y.off), x.arr}
	}
	unsup("merge %T", a)
	return nil
}

// valTerms flattens a value into its terms.
func valTerms(v Val) []*Term {
	switch x := v.(type) {
	case nil:
		return nil
	case *VStruct:
		var r []*Term
		for _, f := range x.f {
			r = append(r, valTerms(f)...)
		}
		return r
	case *VArr:
		var r []*Term
		for _, f := range x.e {
			r = append(r, valTerms(f)...)
		}
		return r
	case VTuple:
		var r []*Term
		for _, f := range x {
			r = append(r, valTerms(f)...)
		}
		return r
	case *VLoc:
		return x.args
	case *VArrPtr:
		return []*Term{x.base, x.off}
	}
	return unVal(v)
}

// mapVal rebuilds a value, mapping each component term with its index.
func mapVal(v Val, f func(i int, t *Term) *Term) Val {
	n := 0
	next := func(t *Term) *Term { r := f(n, t); n++; return r }
	var rec func(v Val) Val
	rec = func(v Val) Val {
		switch x := v.(type) {
		case nil:
			return nil
		case *Term:
			return next(x)
		case *VStruct:
			r := &VStruct{}
			for _, e := range x.f {
				r.f = append(r.f, rec(e))
			}
			return r
		case *VArr:
			r := &VArr{}
			for _, e := range x.e {
				r.e = append(r.e, rec(e))
			}
			return r
		case VTuple:
			var r VTuple
			for _, e := range x {
				r = append(r, rec(e))
			}
			return r
		case *VSlice:
			return &VSlice{next(x.base), next(x.off), next(x.ln), next(x.cp)}
		case *VStr:
			n++
			return &VStr{mapStr(x.sid, func(t *Term) *Term { return f(n-1, t) })}
		case *VIface:
			return &VIface{next(x.tag), next(x.box)}
		case *VFn:
			return &VFn{next(x.t)}
		case *VFunc:
			t := unVal(x)[0]
			u := next(t)
			if u == t {
				return x
			}
			return &VFn{u}
		case *VLoc:
			r := &VLoc{fam: x.fam, typ: x.typ}
			for _, a := range x.args {
				r.args = append(r.args, next(a))
			}
			return r
		case *VArrPtr:
			return &VArrPtr{next(x.base), next(x.off), x.arr}
		}
		unsup("mapVal %T", v)
		return nil
	}
	return rec(v)
}

// ---- load/store through pointers

// loadAt loads a value of type t at reference r (r addresses an object of type t).
func (s *State) loadObj(t types.Type, r *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, s.loadLoc(s.fieldPtr(t, i, r)))
		}
		return v
	case *types.Array:
		v := &VArr{}
		if u.Len() > 4096 {
			unsup("load of large array")
		}
		for i := int64(0); i < u.Len(); i++ {
			v.e = append(v.e, s.loadLoc(s.elemPtr(u.Elem(), r, C(i))))
		}
		return v
	}
	return s.loadCell("C:"+typeKey(t.Underlying()), t, []*Term{r})
}

func (s *State) loadCell(fam string, t types.Type, args []*Term) Val {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, s.get(fam, l).sel(args))
	}
	return mkVal(t, ts)
}

// pointer values: *Term for struct objects, *VArrPtr for arrays, *VLoc otherwise.
func (s *State) fieldPtr(st types.Type, i int, r *Term) Val {
	f := st.Underlying().(*types.Struct).Field(i)
	switch u := f.Type().Underlying().(type) {
	case *types.Struct:
		return objPtr{f.Type(), refSub(typeKey(st)+"."+f.Name(), r)}
	case *types.Array:
		return &VArrPtr{refSub(typeKey(st)+"."+f.Name(), r), C(0), u}
	}
	return &VLoc{fam: fieldFam(st, i), args: []*Term{r}, typ: f.Type()}
}

// objPtr is a struct pointer with its pointee type (used internally).
type objPtr struct {
	t types.Type
	r *Term
}

func (s *State) elemPtr(et types.Type, base, idx *Term) Val {
	switch u := et.Underlying().(type) {
	case *types.Struct:
		return objPtr{et, eref(base, idx)}
	case *types.Array:
		return &VArrPtr{eref(base, idx), C(0), u}
	}
	return &VLoc{fam: elemFam(et), args: []*Term{base, idx}, typ: et}
}

func (s *State) loadLoc(p Val) Val {
	switch x := p.(type) {
	case objPtr:
		return s.loadObj(x.t, x.r)
	case *VLoc:
		return s.loadCell(x.fam, x.typ, x.args)
	case *VArrPtr:
		v := &VArr{}
		if x.arr.Len() > 4096 {
			unsup("load of large array")
		}
		for i := int64(0); i < x.arr.Len(); i++ {
			v.e = append(v.e, s.loadLoc(s.elemPtr(x.arr.Elem(), x.base, Add(x.off, C(i)))))
		}
		return v
	}
	unsup("loadLoc %T", p)
	return nil
}

func (s *State) storeLoc(p Val, v Val, log func(key string, args []*Term)) {
	switch x := p.(type) {
	case objPtr:
		u := x.t.Underlying().(*types.Struct)
		sv := v.(*VStruct)
		for i := 0; i < u.NumFields(); i++ {
			s.storeLoc(s.fieldPtr(x.t, i, x.r), sv.f[i], log)
		}
		return
	case *VArrPtr:
		av := v.(*VArr)
		for i := range av.e {
			s.storeLoc(s.elemPtr(x.arr.Elem(), x.base, Add(x.off, C(int64(i)))), av.e[i], log)
		}
		return
	case *VLoc:
		ts := unVal(v)
		for i, l := range leavesOf(x.typ) {
			h := s.get(x.fam, l)
			if ts[i].sort != l.sort {
				unsup("store sort mismatch %s", x.fam)
			}
			s.set(x.fam, l, h.store(x.args, ts[i]))
			if log != nil {
				log(x.fam+l.suffix, x.args)
			}
		}
		return
	}
	unsup("storeLoc %T", p)
}

// zeroElems marks every element of a fresh backing array as zero.
func (s *State) zeroElems(et types.Type, base *Term, log func(string, []*Term)) {
	switch u := et.Underlying().(type) {
	case *types.Struct:
		s.zeroStructElems(et, u, base, nil, log)
		return
	case *types.Array:
		unsup("slice of arrays")
	}
	fam := elemFam(et)
	for _, l := range leavesOf(et) {
		h := s.get(fam, l)
		s.set(fam, l, newHeap(&Heap{kind: hFill, parent: h, args: []*Term{base}, val: zeroLeaf(l), leaf: l, name: h.name}))
		if log != nil {
			log(fam+l.suffix, []*Term{base, nil})
		}
	}
}

// struct elements: every field heap maps refs rooted at base to zero.
func (s *State) zeroStructElems(et types.Type, u *types.Struct, base *Term, path []string, log func(string, []*Term)) {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if su, ok := f.Type().Underlying().(*types.Struct); ok {
			s.zeroStructElems(f.Type(), su, base, path, log)
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Array); ok {
			unsup("array field in slice of structs")
		}
		fam := fieldFam(et, i)
		for _, l := range leavesOf(f.Type()) {
			h := s.get(fam, l)
			s.set(fam, l, newHeap(&Heap{kind: hFill, parent: h, args: []*Term{base}, val: zeroLeaf(l), leaf: l, name: h.name, cond: tTrue}))
			if log != nil {
				log(fam+l.suffix, []*Term{base, nil})
			}
		}
	}
}

// rootEq: the object that reference a points into is the one allocated as base.
func rootEq(a, base *Term) *Term {
	if a.op == OIte {
		return Ite(a.args[0], rootEq(a.args[1], base), rootEq(a.args[2], base))
	}
	if isCtor(a) {
		return rootEq(a.args[0], base)
	}
	if a == base {
		return tTrue
	}
	if a.op == OConst || base.op == OConst {
		return Eq(a, base)
	}
	if rootDistinct(a, base) {
		return tFalse
	}
	if a.root {
		return Eq(a, base)
	}
	return Or(Eq(a, base), Eq(App("rootof", SInt, bi1, nil, a), base))
}

// rebase decomposes a reference below an element of the array base: it returns a
// function rebuilding the reference over another element reference, and the index.
func rebase(t, base *Term) (func(*Term) *Term, *Term, bool) {
	if t.op == OApp && t.name == "eref" {
		if t.args[0] == base {
			return func(e *Term) *Term { return e }, t.args[1], true
		}
		if isCtor(t.args[0]) {
			f, i, ok := rebase(t.args[0], base)
			if ok && i != nil {
				idx := t.args[1]
				return func(e *Term) *Term { return eref(f(e), idx) }, i, true
			}
		}
		return nil, nil, false
	}
	if isCtor(t) {
		f, i, ok := rebase(t.args[0], base)
		if ok && i != nil {
			n := t.name
			return func(e *Term) *Term { return App(n, SInt, bi1, nil, f(e)) }, i, true
		}
	}
	return nil, nil, false
}
