package main

// Evaluation of specification expressions to terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SVal struct {
	v Val
	t types.Type // nil: mathematical integer
}

type specErr string

func (e specErr) Error() string { return string(e) }

func serr(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

type evalCtx struct {
	x      *Exec
	names  func(string) (SVal, bool)
	st     *State
	pc     *Term
	old    *evalCtx
	head   *evalCtx
	iters  map[int]*Term
	pkg    *types.Package
	depth  int
	fresh0 int // stamp at entry (for fresh())
	let    map[string]SVal
}

var tBool = types.Typ[types.Bool]

func (c *evalCtx) with(name string, v SVal) *evalCtx {
	n := *c
	n.let = map[string]SVal{}
	for k, w := range c.let {
		n.let[k] = w
	}
	n.let[name] = v
	return &n
}

func (c *evalCtx) formula(e *SExpr) *Term {
	t := c.scalar(c.eval(e))
	if t.sort != SBool {
		serr("formula expected")
	}
	return t
}

func (c *evalCtx) int(e *SExpr) *Term {
	t := c.scalar(c.eval(e))
	return t
}

func (c *evalCtx) scalar(v SVal) *Term {
	switch t := v.v.(type) {
	case *Term:
		return t
	case *VStr:
		return t.sid
	}
	serr("scalar expected, got %T", v.v)
	return nil
}

// load forces a location into a value.
func (c *evalCtx) load(v SVal) SVal {
	switch p := v.v.(type) {
	case objPtr:
		return SVal{c.st.loadObj(p.t, p.r), v.t}
	}
	return v
}

func (c *evalCtx) loc(p Val, t types.Type) SVal {
	switch q := p.(type) {
	case objPtr:
		return SVal{q, q.t}
	case *VArrPtr:
		return SVal{q, t}
	case *VLoc:
		return SVal{c.st.loadLoc(q), t}
	}
	serr("location %T", p)
	return SVal{}
}

func (c *evalCtx) lookup(n string) (SVal, bool) {
	if v, ok := c.let[n]; ok {
		return v, true
	}
	if v, ok := c.names(n); ok {
		return v, true
	}
	switch n {
	case "true":
		return SVal{tTrue, tBool}, true
	case "false":
		return SVal{tFalse, tBool}, true
	case "nil":
		return SVal{C(0), types.Typ[types.UntypedNil]}, true
	case "K":
		if c.iters != nil {
			m := -1
			for d := range c.iters {
				if d > m {
					m = d
				}
			}
			if m >= 0 {
				return SVal{c.iters[m], nil}, true
			}
		}
	}
	return c.pkgName(c.pkg, n)
}

func (c *evalCtx) pkgName(pkg *types.Package, n string) (SVal, bool) {
	if pkg == nil {
		return SVal{}, false
	}
	o := pkg.Scope().Lookup(n)
	switch o := o.(type) {
	case *types.Const:
		if b, ok := o.Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				k, _ := new(big.Int).SetString(constant.ToInt(o.Val()).ExactString(), 10)
				return SVal{CB(k), o.Type()}, true
			case b.Info()&types.IsString != 0:
				return SVal{strLit(constant.StringVal(o.Val())), o.Type()}, true
			case b.Info()&types.IsBoolean != 0:
				return SVal{boolT(constant.BoolVal(o.Val())), o.Type()}, true
			}
		}
	case *types.Var:
		sp := c.x.ld.prog.Package(pkg)
		if sp != nil {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				return SVal{c.x.loadGlobal(nil, g, tTrue, c.st), o.Type()}, true
			}
		}
	}
	return SVal{}, false
}

func (c *evalCtx) typeByName(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(c.typeByName(s[1:]))
	}
	pkg := c.pkg
	if i := strings.LastIndex(s, "."); i >= 0 {
		pn := s[:i]
		s = s[i+1:]
		pkg = nil
		for path, p := range c.x.ld.pkgs {
			if p != nil && (path == pn || path == modPath+strings.TrimPrefix(pn, "psd") && strings.HasPrefix(pn, "psd") || p.Name() == pn && (pkg == nil || strings.HasPrefix(path, "image"))) {
				pkg = p
			}
		}
	}
	if pkg == nil {
		serr("no package for type %s", s)
	}
	o := pkg.Scope().Lookup(s)
	if o == nil {
		if b := types.Universe.Lookup(s); b != nil {
			return b.Type()
		}
		serr("no type %s", s)
	}
	return o.Type()
}

func isNilT(v SVal) bool {
	b, ok := v.t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (c *evalCtx) eq(a, b SVal) *Term {
	if isNilT(a) {
		a, b = b, a
	}
	if isNilT(b) {
		switch v := a.v.(type) {
		case *VIface:
			return Eq(v.tag, C(0))
		case *VSlice:
			return refEq(v.base, C(0))
		case *Term:
			return refEq(v, C(0))
		case *VLoc:
			return Not(notNil(v))
		case *VFn:
			return Eq(v.t, C(0))
		case *VFunc:
			return tFalse
		}
		serr("nil comparison of %T", a.v)
	}
	a, b = c.load(a), c.load(b)
	if x, ok := a.v.(*Term); ok {
		y, ok := b.v.(*Term)
		if !ok {
			serr("comparison of different kinds")
		}
		if x.sort != y.sort {
			fl := func(s Sort) bool { return s == SF32 || s == SF64 }
			if k, ok := y.constInt(); ok && y.sort == SInt && fl(x.sort) {
				return fpEq(x, fpConst(float64(k), x.sort))
			}
			if k, ok := x.constInt(); ok && x.sort == SInt && fl(y.sort) {
				return fpEq(y, fpConst(float64(k), y.sort))
			}
			serr("comparison of different sorts")
		}
		if x.sort == SInt && a.t != nil {
			if _, isP := a.t.Underlying().(*types.Pointer); isP {
				return refEq(x, y)
			}
		}
		if x.sort == SBool {
			return Iff(x, y)
		}
		if anyRoot(x) || anyRoot(y) {
			return refEq(x, y)
		}
		return Eq(x, y)
	}
	t := a.t
	if t == nil {
		t = b.t
	}
	if _, ok := a.v.(*VSlice); ok {
		x, y := a.v.(*VSlice), b.v.(*VSlice)
		return And(refEq(x.base, y.base), Eq(x.off, y.off), Eq(x.ln, y.ln))
	}
	return c.x.valEq(a.v, b.v, t)
}

func (c *evalCtx) eval(e *SExpr) SVal {
	x := c.x
	switch e.op {
	case "int":
		return SVal{CB(e.n), nil}
	case "str":
		return SVal{strLit(e.s), types.Typ[types.String]}
	case "id":
		v, ok := c.lookup(e.s)
		if !ok {
			serr("unknown name %q", e.s)
		}
		return v
	case "let":
		return c.with(e.s, c.eval(e.args[0])).eval(e.args[1])
	case "ite":
		g := c.formula(e.args[0])
		if g == tTrue {
			return c.eval(e.args[1])
		}
		if g == tFalse {
			return c.eval(e.args[2])
		}
		a, b := c.load(c.eval(e.args[1])), c.load(c.eval(e.args[2]))
		t := a.t
		if t == nil {
			t = b.t
		}
		return SVal{iteVal(g, a.v, b.v), t}
	case "forall", "exists":
		lo, hi := c.int(e.args[0]), c.int(e.args[1])
		body := e.args[2]
		l, ok1 := lo.constInt()
		h, ok2 := hi.constInt()
		if ok1 && ok2 && h-l <= 64 {
			var ts []*Term
			for k := l; k < h; k++ {
				ts = append(ts, c.with(e.s, SVal{C(k), nil}).formula(body))
			}
			if e.op == "forall" {
				return SVal{And(ts...), tBool}
			}
			return SVal{Or(ts...), tBool}
		}
		bv := boundVar(c.depth)
		n := c.with(e.s, SVal{bv, nil})
		n.depth = c.depth + 1
		b := n.formula(body)
		rng := And(Le(lo, bv), Lt(bv, hi))
		if e.op == "forall" {
			return SVal{Forall(bv, Implies(rng, b)), tBool}
		}
		return SVal{Not(Forall(bv, Implies(rng, Not(b)))), tBool}
	case "un":
		switch e.s {
		case "!":
			return SVal{Not(c.formula(e.args[0])), tBool}
		case "-":
			t := c.int(e.args[0])
			if t.sort != SInt {
				return SVal{App("fp.neg", t.sort, nil, nil, t), nil}
			}
			return SVal{Neg(t), nil}
		case "*":
			p := c.eval(e.args[0])
			pt, ok := p.t.Underlying().(*types.Pointer)
			if !ok {
				serr("deref of non-pointer")
			}
			return c.loc(asLoc(p.v, pt.Elem()), pt.Elem())
		}
	case "bin":
		return c.bin(e)
	case "field":
		return c.field(e)
	case "index":
		b := c.eval(e.args[0])
		switch v := b.v.(type) {
		case *VSlice:
			et := b.t.Underlying().(*types.Slice).Elem()
			return c.loc(c.st.elemPtr(et, v.base, Add(v.off, c.int(e.args[1]))), et)
		case *VStr:
			return SVal{strAt(v.sid, c.int(e.args[1])), types.Typ[types.Uint8]}
		case *VArrPtr:
			i := c.int(e.args[1])
			if tb, ok := tables[v.base]; ok {
				return SVal{c.st.loadLoc(&VLoc{fam: "T:" + tb.name, args: []*Term{v.base, i}, typ: v.arr.Elem()}), v.arr.Elem()}
			}
			return c.loc(c.st.elemPtr(v.arr.Elem(), v.base, Add(v.off, i)), v.arr.Elem())
		case *VArr:
			i := c.int(e.args[1])
			var r Val
			for k := len(v.e) - 1; k >= 0; k-- {
				if r == nil {
					r = v.e[k]
				} else {
					r = iteVal(Eq(i, C(int64(k))), v.e[k], r)
				}
			}
			return SVal{r, b.t.Underlying().(*types.Array).Elem()}
		case *Term:
			if mt, ok := b.t.Underlying().(*types.Map); ok {
				k := keyTerm(c.load(c.eval(e.args[1])).v)
				return SVal{c.st.mapVal(mt, v, k), mt.Elem()}
			}
		}
		serr("index of %T", b.v)
	case "slice":
		b := c.eval(e.args[0])
		v, ok := b.v.(*VSlice)
		if !ok {
			serr("slice of %T", b.v)
		}
		lo, hi := C(0), v.ln
		if e.args[1] != nil {
			lo = c.int(e.args[1])
		}
		if e.args[2] != nil {
			hi = c.int(e.args[2])
		}
		return SVal{&VSlice{v.base, Add(v.off, lo), Sub(hi, lo), Sub(v.cp, lo)}, b.t}
	case "call":
		return c.call(e)
	}
	_ = x
	serr("bad expression %s %s", e.op, e.s)
	return SVal{}
}

func (c *evalCtx) field(e *SExpr) SVal {
	if e.args[0].op == "id" {
		if _, ok := c.lookup(e.args[0].s); !ok {
			for _, p := range c.x.ld.pkgs {
				if p != nil && p.Name() == e.args[0].s {
					if v, ok := c.pkgName(p, e.s); ok {
						return v
					}
				}
			}
		}
	}
	b := c.eval(e.args[0])
	switch e.s {
	case "off", "base", "cap", "tag", "box":
		switch v := b.v.(type) {
		case *VSlice:
			switch e.s {
			case "off":
				return SVal{v.off, nil}
			case "base":
				return SVal{v.base, nil}
			case "cap":
				return SVal{v.cp, nil}
			}
		case *VIface:
			switch e.s {
			case "tag":
				return SVal{v.tag, nil}
			case "box":
				return SVal{v.box, nil}
			}
		}
	}
	if b.t == nil {
		serr("field %s of untyped value", e.s)
	}
	t := b.t
	isPtr := false
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		isPtr = true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		serr("field %s of %v", e.s, b.t)
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, c.pkg, e.s)
	if obj == nil || len(path) == 0 {
		// unexported field of another package
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.s {
				path = []int{i}
			}
		}
		if len(path) == 0 {
			serr("no field %s in %v", e.s, t)
		}
	}
	var cur SVal = b
	if isPtr {
		r := ptrRef(b.v)
		if r == nil {
			serr("field of %T", b.v)
		}
		cur = SVal{objPtr{t, r}, t}
	}
	for _, i := range path {
		ct := cur.t
		switch v := cur.v.(type) {
		case objPtr:
			p := c.st.fieldPtr(v.t, i, v.r)
			cur = c.loc(p, v.t.Underlying().(*types.Struct).Field(i).Type())
		case *VStruct:
			cur = SVal{v.f[i], ct.Underlying().(*types.Struct).Field(i).Type()}
		case *Term:
			pt := ct.Underlying().(*types.Pointer).Elem()
			p := c.st.fieldPtr(pt, i, v)
			cur = c.loc(p, pt.Underlying().(*types.Struct).Field(i).Type())
		default:
			serr("field of %T", cur.v)
		}
	}
	return cur
}

func (c *evalCtx) bin(e *SExpr) SVal {
	B := func(t *Term) SVal { return SVal{t, tBool} }
	switch e.s {
	case "==>":
		a := c.formula(e.args[0])
		if a == tFalse {
			return B(tTrue)
		}
		if c.pc != nil {
			if s := c.x.simp(a, c.pc); s == tFalse {
				return B(tTrue)
			}
		}
		return B(Implies(a, c.formula(e.args[1])))
	case "&&":
		a := c.formula(e.args[0])
		if a == tFalse {
			return B(tFalse)
		}
		return B(And(a, c.formula(e.args[1])))
	case "||":
		a := c.formula(e.args[0])
		if a == tTrue {
			return B(tTrue)
		}
		return B(Or(a, c.formula(e.args[1])))
	case "<=>", "<==>":
		return B(Iff(c.formula(e.args[0]), c.formula(e.args[1])))
	case "==":
		return B(c.eq(c.eval(e.args[0]), c.eval(e.args[1])))
	case "!=":
		return B(Not(c.eq(c.eval(e.args[0]), c.eval(e.args[1]))))
	}
	a, b := c.int(e.args[0]), c.int(e.args[1])
	if a.sort != SInt || b.sort != SInt {
		fp := func(t, o *Term) *Term {
			if t.sort == SInt {
				k, ok := t.constInt()
				if !ok {
					serr("mixed arithmetic")
				}
				return fpConst(float64(k), o.sort)
			}
			return t
		}
		a, b = fp(a, b), fp(b, a)
		switch e.s {
		case "<":
			return B(fpCmp("lt", a, b))
		case "<=":
			return B(fpCmp("leq", a, b))
		case ">":
			return B(fpCmp("lt", b, a))
		case ">=":
			return B(fpCmp("leq", b, a))
		case "+":
			return SVal{fpBin("add", a, b), nil}
		case "-":
			return SVal{fpBin("sub", a, b), nil}
		case "*":
			return SVal{fpBin("mul", a, b), nil}
		case "/":
			return SVal{fpBin("div", a, b), nil}
		}
		serr("float operator %s", e.s)
	}
	switch e.s {
	case "<":
		return B(Lt(a, b))
	case "<=":
		return B(Le(a, b))
	case ">":
		return B(Lt(b, a))
	case ">=":
		return B(Le(b, a))
	}
	I := func(t *Term) SVal { return SVal{t, nil} }
	switch e.s {
	case "+":
		return I(Add(a, b))
	case "-":
		return I(Sub(a, b))
	case "*":
		return I(Mul(a, b))
	case "/":
		if b.op == OConst && b.k.Sign() > 0 {
			return I(Div(a, b.k))
		}
		return I(IDiv(a, b))
	case "%":
		if b.op == OConst && b.k.Sign() > 0 {
			return I(Mod(a, b.k))
		}
		return I(Sub(a, Mul(b, IDiv(a, b))))
	case "<<":
		k, ok := b.constInt()
		if !ok {
			return I(Mul(a, Pow2T(b)))
		}
		return I(Scale(a, pow2(int(k))))
	case ">>":
		k, ok := b.constInt()
		if !ok {
			serr("variable shift")
		}
		return I(Div(a, pow2(int(k))))
	case "&":
		return I(BitAnd(a, b))
	case "|":
		return I(BitOr(a, b))
	case "^":
		return I(BitXor(a, b))
	}
	serr("operator %s", e.s)
	return SVal{}
}

func boxOf(v SVal) *Term {
	switch r := v.v.(type) {
	case *VIface:
		return r.box
	case *Term:
		return r
	case *VFn:
		return r.t
	case *VFunc:
		return valTerms(r)[0]
	}
	serr("reader expected, got %T", v.v)
	return nil
}

func beTerm(n int, at func(i *Term) *Term, p *Term) *Term {
	r := C(0)
	for k := 0; k < n; k++ {
		r = Add(Scale(r, bi(256)), at(Add(p, C(int64(k)))))
	}
	return r
}

func (c *evalCtx) byteAt(v SVal) func(i *Term) *Term {
	switch s := v.v.(type) {
	case *VSlice:
		return func(i *Term) *Term {
			return c.st.get("E:uint8", leavesOf(byteT)[0]).sel([]*Term{s.base, Add(s.off, i)})
		}
	case *VStr:
		return func(i *Term) *Term { return strAt(s.sid, i) }
	}
	serr("bytes expected, got %T", v.v)
	return nil
}

func (c *evalCtx) call(e *SExpr) SVal {
	x := c.x
	arg := func(i int) SVal {
		if i >= len(e.args) {
			serr("%s: missing argument", e.s)
		}
		return c.eval(e.args[i])
	}
	I := func(t *Term) SVal { return SVal{t, nil} }
	B := func(t *Term) SVal { return SVal{t, tBool} }
	switch e.s {
	case "len":
		switch v := arg(0).v.(type) {
		case *VSlice:
			return I(v.ln)
		case *VStr:
			return I(strLen(v.sid))
		case *VArrPtr:
			return I(C(v.arr.Len()))
		case *VArr:
			return I(C(int64(len(v.e))))
		}
		serr("len")
	case "cap":
		return I(arg(0).v.(*VSlice).cp)
	case "old":
		if c.old == nil {
			serr("old() not available")
		}
		o := *c.old
		o.let = c.let
		o.depth = c.depth
		o.pc = c.pc
		return o.load(o.eval(e.args[0]))
	case "head":
		if c.head == nil {
			// at the head itself (or initial): same valuation
			return c.load(c.eval(e.args[0]))
		}
		o := *c.head
		o.let = c.let
		o.depth = c.depth
		return o.load(o.eval(e.args[0]))
	case "iter":
		d := int64(-1)
		if len(e.args) > 0 {
			d = e.args[0].n.Int64()
		} else {
			for k := range c.iters {
				if int64(k) > d {
					d = int64(k)
				}
			}
		}
		k, ok := c.iters[int(d)]
		if !ok || k == nil {
			serr("iter(%d) not available", d)
		}
		return I(k)
	case "base", "off":
		v := arg(0)
		switch s := v.v.(type) {
		case *VSlice:
			if e.s == "base" {
				return I(s.base)
			}
			return I(s.off)
		case *VIface:
			return I(s.box)
		case *VArrPtr:
			if e.s == "base" {
				return I(s.base)
			}
			return I(s.off)
		}
		serr("%s of %T", e.s, v.v)
	case "tag":
		v := arg(0)
		if i, ok := v.v.(*VIface); ok {
			return I(i.tag)
		}
		serr("tag of %T", v.v)
	case "pos":
		return I(c.st.pos(boxOf(arg(0))))
	case "S":
		return I(streamByte(boxOf(arg(0)), c.int(e.args[1])))
	case "S16", "S32", "S64":
		n := map[string]int{"S16": 2, "S32": 4, "S64": 8}[e.s]
		b := boxOf(arg(0))
		return I(beTerm(n, func(i *Term) *Term { return streamByte(b, i) }, c.int(e.args[1])))
	case "be16", "be32", "be64":
		n := map[string]int{"be16": 2, "be32": 4, "be64": 8}[e.s]
		return I(beTerm(n, c.byteAt(arg(0)), c.int(e.args[1])))
	case "S4":
		b := boxOf(arg(0))
		p := c.int(e.args[1])
		var bs []*Term
		for k := int64(0); k < 4; k++ {
			bs = append(bs, streamByte(b, Add(p, C(k))))
		}
		return SVal{strBytes(bs), types.Typ[types.String]}
	case "Z":
		return I(App("Z", SInt, bi0, bi(255), boxOf(arg(0)), c.int(e.args[1]), c.int(e.args[2])))
	case "signed":
		n, _ := c.int(e.args[1]).constInt()
		return I(wrapS(c.int(e.args[0]), int(n)))
	case "has":
		m := arg(0)
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok {
			serr("has: not a map")
		}
		return B(c.st.mapHas(mt, m.v.(*Term), keyTerm(c.load(arg(1)).v)))
	case "called":
		// the unit's calls of a function with a contract on the way here
		r := tFalse
		for _, rec := range c.x.callRec[e.args[0].s] {
			r = Or(r, rec[2][0].v.(*Term))
		}
		return B(r)
	case "callres", "callarg":
		// result or argument n of the unit's only call of a function with a contract
		recs := c.x.callRec[e.args[0].s]
		n := int(e.args[1].n.Int64())
		if len(recs) == 0 {
			// not called on the way here: an arbitrary value
			for _, k := range c.x.pr.contractList {
				if k.name == e.args[0].s && k.fn != nil {
					if sig := k.fn.Signature; e.s == "callres" && n < sig.Results().Len() {
						return SVal{symVal("nocall", sig.Results().At(n).Type()), sig.Results().At(n).Type()}
					} else if e.s == "callarg" && n < len(k.fn.Params) {
						return SVal{symVal("nocall", k.fn.Params[n].Type()), k.fn.Params[n].Type()}
					}
				}
			}
		}
		if len(recs) != 1 {
			serr("%d calls of %s", len(recs), e.args[0].s)
		}
		l := recs[0][0]
		if e.s == "callres" {
			l = recs[0][1]
		}
		if n >= len(l) {
			serr("no such value")
		}
		return l[n]
	case "same", "samebut":
		// every leaf equal, bit for bit (samebut: apart from the named top-level fields)
		a, b := c.load(c.eval(e.args[0])), c.load(c.eval(e.args[1]))
		skip := map[string]bool{}
		for _, f := range e.args[2:] {
			skip[f.s] = true
		}
		t := a.t
		if t == nil {
			t = b.t
		}
		return B(sameVal(a.v, b.v, t, skip))
	case "fresh":
		v := arg(0)
		var b *Term
		switch s := v.v.(type) {
		case *VSlice:
			b = s.base
		case *Term:
			b = s
		case *VIface:
			b = s.box
		case *VArrPtr:
			b = s.base
		default:
			serr("fresh of %T", v.v)
		}
		return B(freshT(b, c.fresh0))
	case "min":
		return I(minT(c.int(e.args[0]), c.int(e.args[1])))
	case "max":
		a, b := c.int(e.args[0]), c.int(e.args[1])
		return I(Ite(Le(a, b), b, a))
	case "abs":
		a := c.int(e.args[0])
		return I(Ite(Le(C(0), a), a, Neg(a)))
	case "is":
		v := arg(0)
		i, ok := v.v.(*VIface)
		if !ok || e.args[1].op != "str" {
			serr("is(iface, \"type\")")
		}
		return B(Eq(i.tag, typeTag(c.typeByName(e.args[1].s))))
	case "as":
		v := arg(0)
		i, ok := v.v.(*VIface)
		if !ok || e.args[1].op != "str" {
			serr("as(iface, \"type\")")
		}
		t := c.typeByName(e.args[1].s)
		return SVal{unbox(i.box, t), t}
	case "rgba":
		v := arg(0)
		i, ok := v.v.(*VIface)
		if !ok {
			serr("rgba(iface,k)")
		}
		r := x.rgbaOf(i)
		k, _ := c.int(e.args[1]).constInt()
		return I(r[k])
	case "global":
		n := e.args[0].s
		i := strings.LastIndex(n, ".")
		if e.args[0].op != "str" || i < 0 {
			serr("global(\"pkg.Name\")")
		}
		for path, p := range x.ld.pkgs {
			if p != nil && (path == n[:i] || strings.HasPrefix(n, "psd") && path == modPath+strings.TrimPrefix(n[:i], "psd")) {
				if v, ok := c.pkgName(p, n[i+1:]); ok {
					return v
				}
			}
		}
		serr("no global %s", n)
	case "isnan":
		return B(App("fp.isNaN", SBool, nil, nil, c.int(e.args[0])))
	case "trunc":
		// truncating division
		return I(truncDiv(c.int(e.args[0]), c.int(e.args[1])))
	case "sid":
		return I(c.scalar(c.load(arg(0))))
	case "f64":
		k := c.int(e.args[0])
		if v, ok := k.constInt(); ok && v == 0 {
			return I(fpConst(0, SF64))
		}
		return I(App("f64bits", SF64, nil, nil, k))
	case "f32":
		k := c.int(e.args[0])
		return I(App("f32bits", SF32, nil, nil, k))
	case "ref":
		v := arg(0)
		if r := ptrRef(v.v); r != nil {
			return I(r)
		}
		serr("ref of %T", v.v)
	case "forget":
	}
	if b, ok := types.Universe.Lookup(e.s).(*types.TypeName); ok {
		if bt, ok := b.Type().Underlying().(*types.Basic); ok && len(e.args) == 1 && bt.Info()&types.IsInteger != 0 {
			return SVal{wrapT(c.int(e.args[0]), b.Type()), b.Type()}
		}
	}
	if sp := x.pr.specs[e.s]; sp != nil {
		if len(sp.params) != len(e.args) {
			serr("%s: %d arguments expected", e.s, len(sp.params))
		}
		if sp.rec {
			var as []*Term
			for i := range e.args {
				v := arg(i)
				if f, ok := v.v.(*VIface); ok {
					as = append(as, f.box)
				} else {
					as = append(as, c.scalar(v))
				}
			}
			return I(x.recApp(sp, as))
		}
		if c.depth > 60 {
			serr("spec recursion %s", e.s)
		}
		n := *c
		n.let = map[string]SVal{}
		for i, p := range sp.params {
			n.let[p] = arg(i)
		}
		hidden := n.let
		n.names = func(s string) (SVal, bool) { v, ok := hidden[s]; return v, ok }
		return n.eval(sp.body)
	}
	serr("unknown function %s", e.s)
	return SVal{}
}

func freshT(b *Term, stamp int) *Term {
	if b.op == OIte {
		return Ite(b.args[0], freshT(b.args[1], stamp), freshT(b.args[2], stamp))
	}
	if b.root && b.stamp > stamp {
		return tTrue
	}
	if b.op == OConst || b.age() <= stamp {
		return tFalse
	}
	return Lt(C(int64(stamp)), App("born", SInt, nil, nil, b))
}

var recSetup = map[string]bool{}

func (x *Exec) recApp(sp *SpecFn, as []*Term) *Term {
	n := "spec:" + sp.name
	if !recSetup[n] {
		recSetup[n] = true
		recDefs[n] = func(args []*Term) *Term {
			c := &evalCtx{x: x, st: &State{h: map[string]*Heap{}}, pkg: x.ld.pkgs[modPath], let: map[string]SVal{}}
			c.names = func(string) (SVal, bool) { return SVal{}, false }
			for i, p := range sp.params {
				c.let[p] = SVal{args[i], nil}
			}
			return c.int(sp.body)
		}
	}
	return App(n, SInt, nil, nil, as...)
}

// anyRoot: the term is a choice between references one of which is a fresh allocation.
func anyRoot(t *Term) bool {
	if t.op == OIte {
		return anyRoot(t.args[1]) || anyRoot(t.args[2])
	}
	return t.root
}

// sameVal: bitwise equality of two values, leaf by leaf.
func sameVal(a, b Val, t types.Type, skip map[string]bool) *Term {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			serr("same of different kinds")
		}
		if p.sort == SBool {
			return Iff(p, q)
		}
		if anyRoot(p) || anyRoot(q) {
			return refEq(p, q)
		}
		return Eq(p, q)
	case *VStr:
		q := b.(*VStr)
		return And(Eq(p.sid, q.sid))
	case *VIface:
		q := b.(*VIface)
		return And(Eq(p.tag, q.tag), refEq(p.box, q.box))
	case *VSlice:
		q := b.(*VSlice)
		return And(refEq(p.base, q.base), Eq(p.off, q.off), Eq(p.ln, q.ln))
	case *VStruct:
		q := b.(*VStruct)
		r := tTrue
		st := t.Underlying().(*types.Struct)
		for i := range p.f {
			if skip[st.Field(i).Name()] {
				continue
			}
			r = And(r, sameVal(p.f[i], q.f[i], st.Field(i).Type(), nil))
		}
		return r
	case *VArr:
		q := b.(*VArr)
		r := tTrue
		for i := range p.e {
			r = And(r, sameVal(p.e[i], q.e[i], t.Underlying().(*types.Array).Elem(), nil))
		}
		return r
	}
	serr("same of %T", a)
	return nil
}
