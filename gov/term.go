package main

// Hash-consed typed terms with interval tracking. Integers are mathematical;
// machine arithmetic is expressed with explicit wrap terms (see wrapU/wrapS).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // integer constant
	OTrue
	OFalse
	OSym // uninterpreted constant
	OApp // function application
	OLin // sum coef*arg + k
	OMul // product of >=2 atoms
	ODiv // floor(arg / k), k>0 constant
	OIte // ite(c,a,b)
	OLe0 // arg <= 0
	OEq0 // arg == 0 (integers)
	OEqG // generic equality (non-integer sorts)
	ONot // not
	OAnd // n-ary
	OOr  // n-ary
	OAll // forall name:Int . arg   (args[0]=bound var, args[1]=body)
	OBnd // bound variable
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SF32
	SF64
	SReal
)

func (s Sort) smt() string {
	return [...]string{"Int", "Bool", "Float32", "Float64", "Real"}[s]
}

type Term struct {
	id       int
	op       Op
	sort     Sort
	args     []*Term
	coef     []*big.Int // OLin
	k        *big.Int   // OConst value, OLin constant, ODiv divisor
	name     string     // OSym, OApp, OBnd
	lo, hi   *big.Int   // interval (nil = unbounded)
	stamp    int        // newest symbol inside
	bnd      bool       // contains a bound variable
	size     int
	dlo, dhi *big.Int // declared range for OSym/OApp
	root     bool     // OSym: freshly allocated reference
	heap     bool     // OApp: content of a heap as it was at stamp hst
	hst      int
}

var (
	hc      = map[string]*Term{}
	nextID  int
	stampCt int
)

func intern(t *Term, key string) *Term {
	if x, ok := hc[key]; ok {
		return x
	}
	nextID++
	t.id = nextID
	t.size = 1
	for _, a := range t.args {
		if a.stamp > t.stamp {
			t.stamp = a.stamp
		}
		if a.bnd {
			t.bnd = true
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if t.op == OBnd {
		t.bnd = true
	}
	hc[key] = t
	return t
}

func keyOf(op string, args []*Term) string {
	var sb strings.Builder
	sb.WriteString(op)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	return sb.String()
}

var (
	bi0 = big.NewInt(0)
	bi1 = big.NewInt(1)
)

func bi(x int64) *big.Int { return big.NewInt(x) }

func pow2(n int) *big.Int { return new(big.Int).Lsh(bi1, uint(n)) }

var (
	tTrue  = intern(&Term{op: OTrue, sort: SBool}, "true")
	tFalse = intern(&Term{op: OFalse, sort: SBool}, "false")
)

func C(x int64) *Term { return CB(big.NewInt(x)) }
func CB(x *big.Int) *Term {
	return intern(&Term{op: OConst, sort: SInt, k: x, lo: x, hi: x}, "c"+x.String())
}
func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) constInt() (int64, bool) {
	if t.op == OConst && t.k.IsInt64() {
		return t.k.Int64(), true
	}
	return 0, false
}

var symCt int

// freshSym makes a new symbol; lo/hi may be nil.
func freshSym(base string, s Sort, lo, hi *big.Int) *Term {
	symCt++
	stampCt++
	name := fmt.Sprintf("%s!%d", base, symCt)
	t := intern(&Term{op: OSym, sort: s, name: name, lo: lo, hi: hi, dlo: lo, dhi: hi}, "s"+name)
	t.stamp = stampCt
	return t
}

// namedSym returns the symbol of this exact name (stamp 0: exists from the start).
func namedSym(name string, s Sort, lo, hi *big.Int) *Term {
	return intern(&Term{op: OSym, sort: s, name: name, lo: lo, hi: hi, dlo: lo, dhi: hi}, "s"+name)
}

func freshRoot(base string) *Term {
	t := freshSym(base, SInt, bi1, nil)
	t.root = true
	return t
}

func boundVar(depth int) *Term {
	n := fmt.Sprintf("bv%d", depth)
	return intern(&Term{op: OBnd, sort: SInt, name: n}, "b"+n)
}

func App(name string, s Sort, lo, hi *big.Int, args ...*Term) *Term {
	key := keyOf("a"+name, args)
	if x, ok := hc[key]; ok {
		return x
	}
	return intern(&Term{op: OApp, sort: s, name: name, args: append([]*Term(nil), args...), lo: lo, hi: hi, dlo: lo, dhi: hi}, key)
}

// ---- integer polynomials

type poly struct {
	m map[*Term]*big.Int
	k *big.Int
}

func toPoly(t *Term) poly {
	p := poly{m: map[*Term]*big.Int{}, k: new(big.Int)}
	p.add(t, bi1)
	return p
}

func (p *poly) add(t *Term, c *big.Int) {
	switch t.op {
	case OConst:
		p.k = new(big.Int).Add(p.k, new(big.Int).Mul(c, t.k))
	case OLin:
		p.k = new(big.Int).Add(p.k, new(big.Int).Mul(c, t.k))
		for i, a := range t.args {
			p.addAtom(a, new(big.Int).Mul(c, t.coef[i]))
		}
	default:
		p.addAtom(t, c)
	}
}

func (p *poly) addAtom(a *Term, c *big.Int) {
	if o, ok := p.m[a]; ok {
		n := new(big.Int).Add(o, c)
		if n.Sign() == 0 {
			delete(p.m, a)
		} else {
			p.m[a] = n
		}
		return
	}
	if c.Sign() != 0 {
		p.m[a] = c
	}
}

func (p poly) sorted() []*Term {
	as := make([]*Term, 0, len(p.m))
	for a := range p.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}

func (p poly) term() *Term {
	if len(p.m) == 0 {
		return CB(p.k)
	}
	as := p.sorted()
	if len(as) == 1 && p.k.Sign() == 0 && p.m[as[0]].Cmp(bi1) == 0 {
		return as[0]
	}
	var sb strings.Builder
	sb.WriteString("L")
	coefs := make([]*big.Int, len(as))
	for i, a := range as {
		coefs[i] = p.m[a]
		fmt.Fprintf(&sb, ",%s*%d", coefs[i].String(), a.id)
	}
	sb.WriteString("+" + p.k.String())
	key := sb.String()
	if x, ok := hc[key]; ok {
		return x
	}
	t := &Term{op: OLin, sort: SInt, args: as, coef: coefs, k: p.k}
	t.lo, t.hi = polyInterval(p, 0)
	return intern(t, key)
}

type iv struct{ lo, hi *big.Int }

func ivAdd(a, b iv) iv {
	var r iv
	if a.lo != nil && b.lo != nil {
		r.lo = new(big.Int).Add(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		r.hi = new(big.Int).Add(a.hi, b.hi)
	}
	return r
}

func ivScale(a iv, c *big.Int) iv {
	if c.Sign() == 0 {
		return iv{bi0, bi0}
	}
	var lo, hi *big.Int
	if a.lo != nil {
		lo = new(big.Int).Mul(a.lo, c)
	}
	if a.hi != nil {
		hi = new(big.Int).Mul(a.hi, c)
	}
	if c.Sign() < 0 {
		lo, hi = hi, lo
	}
	return iv{lo, hi}
}

func ivInter(a, b iv) iv {
	r := a
	if b.lo != nil && (r.lo == nil || b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if b.hi != nil && (r.hi == nil || b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}

func ivUnion(a, b iv) iv {
	var r iv
	if a.lo != nil && b.lo != nil {
		if a.lo.Cmp(b.lo) < 0 {
			r.lo = a.lo
		} else {
			r.lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		if a.hi.Cmp(b.hi) > 0 {
			r.hi = a.hi
		} else {
			r.hi = b.hi
		}
	}
	return r
}

func ivMul(a, b iv) iv {
	// only exact when finite or sign-definite
	mulb := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		c := []*big.Int{mulb(a.lo, b.lo), mulb(a.lo, b.hi), mulb(a.hi, b.lo), mulb(a.hi, b.hi)}
		lo, hi := c[0], c[0]
		for _, x := range c[1:] {
			if x.Cmp(lo) < 0 {
				lo = x
			}
			if x.Cmp(hi) > 0 {
				hi = x
			}
		}
		return iv{lo, hi}
	}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		r := iv{lo: mulb(a.lo, b.lo)}
		if a.hi != nil && b.hi != nil {
			r.hi = mulb(a.hi, b.hi)
		}
		return r
	}
	return iv{}
}

func (t *Term) iv() iv { return iv{t.lo, t.hi} }

func polyInterval(p poly, depth int) (lo, hi *big.Int) {
	r := iv{p.k, p.k}
	for a, c := range p.m {
		r = ivAdd(r, ivScale(a.iv(), c))
	}
	if depth < 4 {
		for a, c := range p.m {
			if a.op != ODiv {
				continue
			}
			// m*(x - d*div(x,d)) : c = -m*d
			d := a.k
			m, rem := new(big.Int).QuoRem(new(big.Int).Neg(c), d, new(big.Int))
			if rem.Sign() != 0 || m.Sign() == 0 {
				continue
			}
			q := poly{m: map[*Term]*big.Int{}, k: new(big.Int).Set(p.k)}
			for x, cc := range p.m {
				q.m[x] = cc
			}
			q.addAtom(a, new(big.Int).Mul(m, d))
			q.add(a.args[0], new(big.Int).Neg(m))
			if len(q.m) < len(p.m) {
				l2, h2 := polyInterval(q, depth+1)
				mr := ivScale(iv{bi0, new(big.Int).Sub(d, bi1)}, m)
				r = ivInter(r, ivAdd(iv{l2, h2}, mr))
			}
		}
	}
	return r.lo, r.hi
}

func Add(ts ...*Term) *Term {
	p := poly{m: map[*Term]*big.Int{}, k: new(big.Int)}
	for _, t := range ts {
		p.add(t, bi1)
	}
	return p.term()
}

func Sub(a, b *Term) *Term {
	if a == b {
		return C(0)
	}
	p := toPoly(a)
	p.add(b, bi(-1))
	return p.term()
}

func Neg(a *Term) *Term { return Scale(a, bi(-1)) }

func Scale(a *Term, c *big.Int) *Term {
	p := poly{m: map[*Term]*big.Int{}, k: new(big.Int)}
	p.add(a, c)
	return p.term()
}

func constIte(t *Term) bool {
	return t.op == OIte && t.args[1].op == OConst && t.args[2].op == OConst
}

func mulAtoms(a, b *Term) *Term {
	// a choice of constants times a variable is a choice of linear terms
	if constIte(a) && !constIte(b) {
		return Ite(a.args[0], Scale(b, a.args[1].k), Scale(b, a.args[2].k))
	}
	if constIte(b) && !constIte(a) {
		return Ite(b.args[0], Scale(a, b.args[1].k), Scale(a, b.args[2].k))
	}
	var fs []*Term
	add := func(t *Term) {
		if t.op == OMul {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	add(a)
	add(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	key := keyOf("m", fs)
	if x, ok := hc[key]; ok {
		return x
	}
	t := &Term{op: OMul, sort: SInt, args: fs}
	r := fs[0].iv()
	for _, f := range fs[1:] {
		r = ivMul(r, f.iv())
	}
	if len(fs) == 2 && fs[0] == fs[1] {
		r = ivInter(r, iv{lo: bi0})
	}
	t.lo, t.hi = r.lo, r.hi
	return intern(t, key)
}

func Mul(a, b *Term) *Term {
	if a.op == OConst {
		return Scale(b, a.k)
	}
	if b.op == OConst {
		return Scale(a, b.k)
	}
	pa, pb := toPoly(a), toPoly(b)
	if len(pa.m)*len(pb.m) > 24 {
		return mulAtoms(a, b)
	}
	// if distributing would destroy a strictly nonnegative factor that is a
	// difference of bounded atoms, intervals get lost; keep them by intersecting
	// with the factor intervals afterwards.
	p := poly{m: map[*Term]*big.Int{}, k: new(big.Int).Mul(pa.k, pb.k)}
	for _, x := range pa.sorted() {
		p.addAtom(x, new(big.Int).Mul(pa.m[x], pb.k))
	}
	for _, y := range pb.sorted() {
		p.addAtom(y, new(big.Int).Mul(pb.m[y], pa.k))
	}
	for _, x := range pa.sorted() {
		for _, y := range pb.sorted() {
			p.add(mulAtoms(x, y), new(big.Int).Mul(pa.m[x], pb.m[y]))
		}
	}
	t := p.term()
	if t.op == OLin {
		r := ivInter(t.iv(), ivMul(a.iv(), b.iv()))
		t.lo, t.hi = r.lo, r.hi
		noteProduct(t, a, b)
	}
	return t
}

// products remembers, for a distributed product, the factors it came from, so that
// the query printer can state the sign/bound facts of the factored form.
var products = map[*Term][][2]*Term{}

func noteProduct(t, a, b *Term) {
	if a.id > b.id {
		a, b = b, a
	}
	for _, p := range products[t] {
		if p[0] == a && p[1] == b {
			return
		}
	}
	products[t] = append(products[t], [2]*Term{a, b})
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q // Euclidean == floor for b>0
}

// Div is floor division by a positive constant.
func Div(a *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic("Div: nonpositive divisor")
	}
	if c.Cmp(bi1) == 0 {
		return a
	}
	if a.op == OConst {
		return CB(floorDiv(a.k, c))
	}
	if a.lo != nil && a.hi != nil {
		q1, q2 := floorDiv(a.lo, c), floorDiv(a.hi, c)
		if q1.Cmp(q2) == 0 {
			return CB(q1)
		}
	}
	if a.op == ODiv {
		return Div(a.args[0], new(big.Int).Mul(a.k, c))
	}
	p := toPoly(a)
	q := poly{m: map[*Term]*big.Int{}, k: new(big.Int)}
	r := poly{m: map[*Term]*big.Int{}, k: new(big.Int)}
	for x, cc := range p.m {
		qq, rr := new(big.Int).DivMod(cc, c, new(big.Int))
		if rr.Sign() == 0 {
			q.m[x] = qq
		} else {
			r.m[x] = cc
		}
	}
	kq, kr := new(big.Int).DivMod(p.k, c, new(big.Int))
	q.k, r.k = kq, kr
	if len(q.m) == 0 && kq.Sign() == 0 {
		// gcd reduction
		g := new(big.Int).Set(c)
		for _, cc := range r.m {
			g.GCD(nil, nil, g, new(big.Int).Abs(cc))
		}
		if g.Cmp(bi1) > 0 {
			rr := poly{m: map[*Term]*big.Int{}, k: floorDiv(r.k, g)}
			for x, cc := range r.m {
				rr.m[x] = new(big.Int).Quo(cc, g)
			}
			return Div(rr.term(), new(big.Int).Quo(c, g))
		}
		return divAtom(a, c)
	}
	rt := r.term()
	return Add(q.term(), Div(rt, c))
}

func divAtom(a *Term, c *big.Int) *Term {
	key := fmt.Sprintf("d%d/%s", a.id, c.String())
	if x, ok := hc[key]; ok {
		return x
	}
	t := &Term{op: ODiv, sort: SInt, args: []*Term{a}, k: c}
	if a.lo != nil {
		t.lo = floorDiv(a.lo, c)
	}
	if a.hi != nil {
		t.hi = floorDiv(a.hi, c)
	}
	return intern(t, key)
}

// Mod is the floor remainder by a positive constant.
func Mod(a *Term, c *big.Int) *Term {
	if a.lo != nil && a.hi != nil {
		if a.lo.Sign() >= 0 && a.hi.Cmp(c) < 0 {
			return a
		}
		if a.op != OLin || len(a.args) > 0 {
			two := new(big.Int).Lsh(c, 1)
			negc := new(big.Int).Neg(c)
			if a.lo.Sign() >= 0 && a.hi.Cmp(two) < 0 {
				return Ite(Le(CB(c), a), Sub(a, CB(c)), a)
			}
			if a.lo.Cmp(negc) >= 0 && a.hi.Cmp(c) < 0 {
				return Ite(Lt(a, C(0)), Add(a, CB(c)), a)
			}
		}
	}
	// drop multiples of c first
	p := toPoly(a)
	q := poly{m: map[*Term]*big.Int{}, k: new(big.Int).Mod(p.k, c)}
	changed := q.k.Cmp(p.k) != 0
	for x, cc := range p.m {
		rr := new(big.Int).Mod(cc, c)
		if rr.Sign() == 0 {
			changed = true
			continue
		}
		q.m[x] = cc
	}
	if changed {
		return Mod(q.term(), c)
	}
	return Sub(a, Scale(Div(a, c), c))
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	}
	return intern(&Term{op: ONot, sort: SBool, args: []*Term{a}}, keyOf("!", []*Term{a}))
}

func nary(op Op, ts []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == OOr {
		unit, zero = tFalse, tTrue
	}
	set := map[*Term]bool{}
	var list []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || set[t] {
			return true
		}
		if t == zero || set[Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		set[t] = true
		list = append(list, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(list) == 0 {
		return unit
	}
	if len(list) == 1 {
		return list[0]
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	o := "&"
	if op == OOr {
		o = "|"
	}
	return intern(&Term{op: op, sort: SBool, args: list}, keyOf(o, list))
}

func And(ts ...*Term) *Term { return nary(OAnd, ts) }

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

// Or with factoring of common conjuncts: (x&a)|(x&!a) = x.
func Or(ts ...*Term) *Term {
	r := nary(OOr, ts)
	if r.op != OOr || len(r.args) > 16 {
		return r
	}
	// common conjuncts
	cnt := map[*Term]int{}
	for _, a := range r.args {
		for _, c := range conjuncts(a) {
			cnt[c]++
		}
	}
	var common []*Term
	for c, n := range cnt {
		if n == len(r.args) {
			common = append(common, c)
		}
	}
	if len(common) == 0 {
		return r
	}
	sort.Slice(common, func(i, j int) bool { return common[i].id < common[j].id })
	cs := map[*Term]bool{}
	for _, c := range common {
		cs[c] = true
	}
	var rest []*Term
	for _, a := range r.args {
		var l []*Term
		for _, c := range conjuncts(a) {
			if !cs[c] {
				l = append(l, c)
			}
		}
		rest = append(rest, And(l...))
	}
	return And(append(common, orRes(rest))...)
}

// orRes: Or with unit resolution a | (!a & b) = a | b.
func orRes(ts []*Term) *Term {
	r := nary(OOr, ts)
	if r.op != OOr {
		return r
	}
	unitLits := map[*Term]bool{}
	for _, a := range r.args {
		if a.op != OAnd {
			unitLits[Not(a)] = true
		}
	}
	changed := false
	out := make([]*Term, len(r.args))
	for i, a := range r.args {
		out[i] = a
		if a.op == OAnd {
			var l []*Term
			for _, c := range a.args {
				if unitLits[c] {
					changed = true
					continue
				}
				l = append(l, c)
			}
			out[i] = And(l...)
		}
	}
	if changed {
		return orRes(out)
	}
	return r
}

func Implies(a, b *Term) *Term { return nary(OOr, []*Term{Not(a), b}) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == Not(b) {
			return Iff(c, a)
		}
	}
	// nested same condition
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
		return Ite(c, a, b)
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
		return Ite(c, a, b)
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return Ite(Or(c, Not(b.args[0])), a, b.args[1])
	}
	key := keyOf("i", []*Term{c, a, b})
	if x, ok := hc[key]; ok {
		return x
	}
	t := &Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch: %v %v", a, b))
	}
	if a.sort == SInt {
		u := ivUnion(condIv(a, c, true), condIv(b, c, false))
		t.lo, t.hi = u.lo, u.hi
	}
	return intern(t, key)
}

// condIv refines the interval of x under a single comparison literal about it.
func condIv(x *Term, c *Term, pos bool) iv {
	r := x.iv()
	return ivInter(r, litBound(x, c, pos))
}

// litBound extracts from literal c (negated if !pos) a bound on x when c is a
// comparison whose polynomial equals ±x + const.
func litBound(x *Term, c *Term, pos bool) iv {
	for c.op == ONot {
		c = c.args[0]
		pos = !pos
	}
	if c.op == OAnd && pos {
		var r iv
		for _, a := range c.args {
			r = ivInter(r, litBound(x, a, true))
		}
		return r
	}
	if c.op == OOr && !pos {
		var r iv
		for _, a := range c.args {
			r = ivInter(r, litBound(x, a, false))
		}
		return r
	}
	if c.op != OLe0 && !(c.op == OEq0 && pos) {
		return iv{}
	}
	// c: p <= 0.   p = x + k  => x <= -k ; p = -x + k => x >= k
	p := c.args[0]
	d := Sub(p, x)
	if d.op == OConst {
		if c.op == OEq0 {
			v := new(big.Int).Neg(d.k)
			return iv{v, v}
		}
		if pos {
			return iv{hi: new(big.Int).Neg(d.k)}
		}
		return iv{lo: new(big.Int).Sub(bi1, d.k)} // x+k >= 1
	}
	s := Add(p, x)
	if s.op == OConst {
		if c.op == OEq0 {
			return iv{s.k, s.k}
		}
		if pos {
			return iv{lo: s.k}
		}
		return iv{hi: new(big.Int).Sub(s.k, bi1)} // -x+k >= 1
	}
	return iv{}
}

func Iff(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return Not(b)
	}
	if b == tFalse {
		return Not(a)
	}
	if a == Not(b) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEqG, sort: SBool, args: []*Term{a, b}}, keyOf("=", []*Term{a, b}))
}

func polyGCD(p poly) *big.Int {
	g := new(big.Int)
	for _, c := range p.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return g
}

func singleIte(p poly) (*Term, *big.Int, bool) {
	if len(p.m) != 1 {
		return nil, nil, false
	}
	for a, c := range p.m {
		if a.op == OIte && iteHasConst(a, 0) {
			return a, c, true
		}
	}
	return nil, nil, false
}

func iteHasConst(a *Term, d int) bool {
	if a.op == OConst {
		return true
	}
	if a.op == OIte && d < 40 {
		return iteHasConst(a.args[1], d+1) || iteHasConst(a.args[2], d+1)
	}
	return false
}

func le0(t *Term) *Term {
	if t.hi != nil && t.hi.Sign() <= 0 {
		return tTrue
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return tFalse
	}
	p := toPoly(t)
	if it, c, ok := singleIte(p); ok {
		f := func(x *Term) *Term { return le0(Add(Scale(x, c), CB(p.k))) }
		return Ite(it.args[0], f(it.args[1]), f(it.args[2]))
	}
	g := polyGCD(p)
	if g.Cmp(bi1) > 0 {
		// g*q + k <= 0  <=> q <= floor(-k/g)
		q := poly{m: map[*Term]*big.Int{}, k: new(big.Int).Neg(floorDiv(new(big.Int).Neg(p.k), g))}
		for a, c := range p.m {
			q.m[a] = new(big.Int).Quo(c, g)
		}
		p = q
	}
	as := p.sorted()
	if p.m[as[0]].Sign() < 0 {
		// -q <= 0 ... canonical: Not( (1 - p) <= 0 )
		n := poly{m: map[*Term]*big.Int{}, k: new(big.Int).Sub(bi1, p.k)}
		for a, c := range p.m {
			n.m[a] = new(big.Int).Neg(c)
		}
		nt := n.term()
		return Not(rawLe0(nt))
	}
	return rawLe0(p.term())
}

func rawLe0(t *Term) *Term {
	if t.op == OConst {
		return boolT(t.k.Sign() <= 0)
	}
	return intern(&Term{op: OLe0, sort: SBool, args: []*Term{t}}, keyOf("<", []*Term{t}))
}

func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(Add(Sub(a, b), C(1))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func eq0(t *Term) *Term {
	if t.op == OConst {
		return boolT(t.k.Sign() == 0)
	}
	if (t.hi != nil && t.hi.Sign() < 0) || (t.lo != nil && t.lo.Sign() > 0) {
		return tFalse
	}
	p := toPoly(t)
	if it, c, ok := singleIte(p); ok {
		f := func(x *Term) *Term { return eq0(Add(Scale(x, c), CB(p.k))) }
		return Ite(it.args[0], f(it.args[1]), f(it.args[2]))
	}
	g := polyGCD(p)
	if new(big.Int).Mod(p.k, g).Sign() != 0 {
		return tFalse
	}
	as := p.sorted()
	if p.m[as[0]].Sign() < 0 {
		g = new(big.Int).Neg(g)
	}
	if g.Cmp(bi1) != 0 {
		q := poly{m: map[*Term]*big.Int{}, k: new(big.Int).Quo(p.k, g)}
		for a, c := range p.m {
			q.m[a] = new(big.Int).Quo(c, g)
		}
		p = q
	}
	tt := p.term()
	return intern(&Term{op: OEq0, sort: SBool, args: []*Term{tt}}, keyOf("e", []*Term{tt}))
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %v / %v", a, b))
	}
	switch a.sort {
	case SBool:
		return Iff(a, b)
	case SInt:
		return eq0(Sub(a, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEqG, sort: SBool, args: []*Term{a, b}}, keyOf("=", []*Term{a, b}))
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// eqPush is Eq with ite pushing on either side when the other side is constant or
// the branches are reference constructors.
func Forall(v, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if body.op == OAnd {
		var l []*Term
		for _, a := range body.args {
			l = append(l, Forall(v, a))
		}
		return And(l...)
	}
	if !contains(body, v) {
		return body
	}
	t := intern(&Term{op: OAll, sort: SBool, args: []*Term{v, body}}, keyOf("A", []*Term{v, body}))
	t.bnd = hasFreeBound(t, map[string]bool{})
	return t
}

func contains(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] || !t.bnd && t.op != OAll {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func hasFreeBound(t *Term, bound map[string]bool) bool {
	if t.op == OBnd {
		return !bound[t.name]
	}
	if t.op == OAll {
		nb := map[string]bool{t.args[0].name: true}
		for k := range bound {
			nb[k] = true
		}
		return hasFreeBound(t.args[1], nb)
	}
	if !t.bnd {
		return false
	}
	for _, a := range t.args {
		if hasFreeBound(a, bound) {
			return true
		}
	}
	return false
}

// ---- machine integers

func wrapU(t *Term, bits int) *Term {
	m := pow2(bits)
	if t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(m) < 0 {
		return t
	}
	return Mod(t, m)
}

func wrapS(t *Term, bits int) *Term {
	h := pow2(bits - 1)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(new(big.Int).Neg(h)) >= 0 && t.hi.Cmp(h) < 0 {
		return t
	}
	m := pow2(bits)
	if t.lo != nil && t.hi != nil {
		// single wrap forms
		if t.lo.Cmp(new(big.Int).Neg(h)) >= 0 && t.hi.Cmp(new(big.Int).Add(h, m)) < 0 {
			return Ite(Le(CB(h), t), Sub(t, CB(m)), t)
		}
	}
	return Sub(Mod(Add(t, CB(h)), m), CB(h))
}

// tz returns a number of trailing zero bits known for t.
func tz(t *Term) int {
	switch t.op {
	case OConst:
		if t.k.Sign() == 0 {
			return 1000
		}
		return int(t.k.TrailingZeroBits())
	case OLin:
		r := 1000
		if t.k.Sign() != 0 {
			r = int(t.k.TrailingZeroBits())
		}
		for i, a := range t.args {
			z := tz(a) + int(t.coef[i].TrailingZeroBits())
			if z < r {
				r = z
			}
		}
		return r
	case OMul:
		r := 0
		for _, a := range t.args {
			r += tz(a)
		}
		return r
	case OIte:
		a, b := tz(t.args[1]), tz(t.args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func nonneg(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }

// BitAnd for nonnegative operands or a nonnegative constant mask.
func BitAnd(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return CB(new(big.Int).And(a.k, b.k))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && b.k.Sign() >= 0 {
		// sum over runs of ones; works for any a (two's complement) via floor ops
		res := C(0)
		n := b.k.BitLen()
		i := 0
		for i < n {
			if b.k.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && b.k.Bit(j) == 1 {
				j++
			}
			part := Mod(Div(a, pow2(i)), pow2(j-i))
			res = Add(res, Scale(part, pow2(i)))
			i = j
		}
		return res
	}
	if a == b {
		return a
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return Ite(a.args[0], BitAnd(a.args[1], b), BitAnd(a.args[2], b))
	}
	if b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return Ite(b.args[0], BitAnd(a, b.args[1]), BitAnd(a, b.args[2]))
	}
	if nonneg(a) && nonneg(b) {
		hi := a.hi
		if hi == nil || (b.hi != nil && b.hi.Cmp(hi) < 0) {
			hi = b.hi
		}
		if a.id > b.id {
			a, b = b, a
		}
		return App("bitand", SInt, bi0, hi, a, b)
	}
	return App("bitandS", SInt, nil, nil, a, b)
}

func BitOr(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return CB(new(big.Int).Or(a.k, b.k))
	}
	if a == b {
		return a
	}
	if a.op == OConst && a.k.Sign() == 0 {
		return b
	}
	if b.op == OConst && b.k.Sign() == 0 {
		return a
	}
	if nonneg(a) && nonneg(b) {
		if b.hi != nil && b.hi.BitLen() <= tz(a) {
			return Add(a, b)
		}
		if a.hi != nil && a.hi.BitLen() <= tz(b) {
			return Add(a, b)
		}
		// a|b = a + b - a&b
		return Sub(Add(a, b), BitAnd(a, b))
	}
	return App("bitor", SInt, nil, nil, a, b)
}

func BitXor(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return CB(new(big.Int).Xor(a.k, b.k))
	}
	if a == b {
		return C(0)
	}
	if nonneg(a) && nonneg(b) {
		// a^b = a+b-2(a&b)
		return Sub(Add(a, b), Scale(BitAnd(a, b), bi(2)))
	}
	return App("bitxor", SInt, nil, nil, a, b)
}

// Pow2T is 2^n for a term n with small finite nonnegative range.
func Pow2T(n *Term) *Term {
	if n.lo == nil || n.hi == nil || n.lo.Sign() < 0 || n.hi.Cmp(bi(64)) > 0 {
		t := App("pow2", SInt, bi1, nil, n)
		return t
	}
	lo, hi := n.lo.Int64(), n.hi.Int64()
	r := CB(pow2(int(hi)))
	for v := hi - 1; v >= lo; v-- {
		r = Ite(Eq(n, C(v)), CB(pow2(int(v))), r)
	}
	return r
}

// IDiv is floor(a/b) for b>0, both nonnegative or any a, symbolic divisor.
func IDiv(a, b *Term) *Term {
	if b.op == OConst && b.k.Sign() > 0 {
		return Div(a, b.k)
	}
	if b.op == OIte && iteAllConst(b) {
		return iteMapConst(b, func(c *Term) *Term {
			if c.k.Sign() > 0 {
				return Div(a, c.k)
			}
			return C(0)
		})
	}
	if a.op == OConst && a.k.Sign() == 0 {
		return a
	}
	var lo, hi *big.Int
	if nonneg(a) && nonneg(b) {
		lo = bi0
		if a.hi != nil {
			hi = a.hi
			if b.lo.Sign() > 0 {
				hi = floorDiv(a.hi, b.lo)
			}
		}
	}
	return App("idiv", SInt, lo, hi, a, b)
}

func iteAllConst(t *Term) bool {
	if t.op == OConst {
		return true
	}
	return t.op == OIte && iteAllConst(t.args[1]) && iteAllConst(t.args[2])
}

func iteMapConst(t *Term, f func(*Term) *Term) *Term {
	if t.op == OConst {
		return f(t)
	}
	return Ite(t.args[0], iteMapConst(t.args[1], f), iteMapConst(t.args[2], f))
}

// ---- printing

func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	if d < 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.k.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OSym, OBnd:
		return t.name
	case OApp:
		var l []string
		for _, a := range t.args {
			l = append(l, a.str(d-1))
		}
		return t.name + "(" + strings.Join(l, ",") + ")"
	case OLin:
		var l []string
		for i, a := range t.args {
			if t.coef[i].Cmp(bi1) == 0 {
				l = append(l, a.str(d-1))
			} else {
				l = append(l, t.coef[i].String()+"*"+a.str(d-1))
			}
		}
		if t.k.Sign() != 0 {
			l = append(l, t.k.String())
		}
		return "(" + strings.Join(l, " + ") + ")"
	case OMul:
		var l []string
		for _, a := range t.args {
			l = append(l, a.str(d-1))
		}
		return strings.Join(l, "*")
	case ODiv:
		return "div(" + t.args[0].str(d-1) + "," + t.k.String() + ")"
	case OIte:
		return "ite(" + t.args[0].str(d-1) + "," + t.args[1].str(d-1) + "," + t.args[2].str(d-1) + ")"
	case OLe0:
		return t.args[0].str(d-1) + "<=0"
	case OEq0:
		return t.args[0].str(d-1) + "==0"
	case OEqG:
		return "(" + t.args[0].str(d-1) + " = " + t.args[1].str(d-1) + ")"
	case ONot:
		return "!(" + t.args[0].str(d-1) + ")"
	case OAnd, OOr:
		var l []string
		for _, a := range t.args {
			l = append(l, a.str(d-1))
		}
		o := " && "
		if t.op == OOr {
			o = " || "
		}
		return "(" + strings.Join(l, o) + ")"
	case OAll:
		return "forall " + t.args[0].name + "." + t.args[1].str(d-1)
	}
	return "?"
}

// age is the latest time at which the object a reference names can have been allocated: what
// a heap holds existed when that heap did, whatever names the cell.
func (t *Term) age() int {
	switch {
	case t.op == OIte:
		a, b := t.args[1].age(), t.args[2].age()
		if a < b {
			return b
		}
		return a
	case isCtor(t):
		return rootOf(t).age()
	case t.heap && t.hst < t.stamp:
		return t.hst
	}
	return t.stamp
}
