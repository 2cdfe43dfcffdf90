package main

// Loops: havoc with inferred shape (unchanged / affine in the iteration count /
// tied to another component / general), frames from the write log, and Houdini
// selection of candidate and user invariants. Everything kept is proved inductive.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var traceLoops = os.Getenv("GOV_LOOPS") != ""

const (
	cUnchanged = iota
	cAffine
	cTied
	cGeneral
)

type comp struct {
	key  string
	phi  *ssa.Phi
	ci   int
	fam  string
	leaf Leaf
	args []*Term
	init *Term
	mode int
	step *Term
	tie  *comp
	head *Term
	name string
}

type famInfo struct {
	regions  [][]*Term
	spans    map[string]*spanSet
	unframed bool
	ex       []*exType // unframed, but for objects of these types
	hasNew   bool
	changed  bool
}

type loopMemo struct {
	dropped map[string]bool
}

var loopMemos = map[string]*loopMemo{}

// compVals is one valuation of the loop state.
type compVals struct {
	phi map[*ssa.Phi]Val
	st  *State
	pc  *Term
	k   *Term
	cs  []*Term
	at  *ssa.BasicBlock // where the back edge leaves from
}

type cand struct {
	name string
	user bool
	f    func(v *compVals, hd *compVals) *Term
}

type loopExec struct {
	x        *Exec
	fr       *Frame
	l        *Loop
	pc0      *Term
	st0      *State
	stamp    int
	phis     []*ssa.Phi
	inits    map[*ssa.Phi]Val
	comps    []*comp
	cellIx   map[string]*comp
	fams     map[string]*famInfo
	leafOf   map[string]Leaf
	over     map[*comp]*Term // head values fixed by invariants
	head     *compVals
	k        *Term
	histLits []*Term
	seen     map[string]bool

	unsettled bool
	spans     map[string]*spanSet
}

// spanSet: the indices written below one base. With lo and hi set every write of
// iteration k hits [lo+s*k, hi+s*k).
type spanSet struct {
	wide   bool
	lo, hi *Term
	s      *Term
}

func (p *spanSet) same(q *spanSet) bool {
	if q == nil || p.wide != q.wide {
		return false
	}
	return p.wide || p.lo == q.lo && p.hi == q.hi && p.s == q.s
}

// linearIn splits t into a + s*k with a and s loop invariant.
func (le *loopExec) linearIn(t *Term) (a, s *Term, ok bool) {
	z := subst(t, map[*Term]*Term{le.k: C(0)})
	s = Sub(subst(t, map[*Term]*Term{le.k: C(1)}), z)
	if !le.inv(z) || !le.inv(s) || Sub(t, Add(z, Mul(s, le.k))) != C(0) || !nonneg(s) {
		return nil, nil, false
	}
	return z, s, true
}

func (le *loopExec) addSpan(key string, b *Term, w Write) {
	ck := cellKey(key, []*Term{b})
	p := le.spans[ck]
	if p == nil {
		p = &spanSet{}
		le.spans[ck] = p
	}
	if p.wide {
		return
	}
	p.wide = true
	lo, hi := w.lo, w.hi
	if lo == nil {
		if len(w.args) < 2 {
			return
		}
		lo, hi = w.args[1], Add(w.args[1], C(1))
	}
	la, ls, ok := le.linearIn(lo)
	if !ok {
		return
	}
	ha, hs, ok := le.linearIn(hi)
	if !ok || ls != hs {
		return
	}
	if p.lo == nil {
		p.wide, p.lo, p.hi, p.s = false, la, ha, ls
		return
	}
	if p.s != ls {
		return
	}
	d1, d2 := Sub(la, p.lo), Sub(ha, p.hi)
	if !d1.isConst() || !d2.isConst() {
		return
	}
	if d1.k.Sign() < 0 {
		p.lo = la
	}
	if d2.k.Sign() > 0 {
		p.hi = ha
	}
	p.wide = false
}

type snap struct {
	nf, nw, nr, nd, nc, na int
	backs                  []int
	pend                   map[*ssa.BasicBlock][]edge
}

func (x *Exec) snap(fr *Frame) snap {
	s := snap{nf: len(x.facts), nw: len(x.writes), nr: len(fr.rets), nd: len(fr.defers), nc: len(x.callObs), na: len(fr.active), pend: map[*ssa.BasicBlock][]edge{}}
	for k, v := range fr.pending {
		s.pend[k] = append([]edge(nil), v...)
	}
	for _, a := range fr.active {
		s.backs = append(s.backs, len(a.back))
	}
	return s
}

func (x *Exec) restore(fr *Frame, s snap) {
	x.facts = x.facts[:s.nf:s.nf]
	x.writes = x.writes[:s.nw]
	fr.rets = fr.rets[:s.nr]
	fr.defers = fr.defers[:s.nd]
	x.callObs = x.callObs[:s.nc]
	fr.active = fr.active[:s.na]
	for i, a := range fr.active {
		a.back = a.back[:s.backs[i]:s.backs[i]]
	}
	fr.pending = s.pend
}

func flatLeaves(t types.Type) []Leaf {
	var out []Leaf
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, flatLeaves(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, flatLeaves(u.Elem())...)
		}
		return out
	}
	return leavesOf(t)
}

// rebuildVal replaces the terms of v (in valTerms order).
func rebuildVal(v Val, ts []*Term) Val {
	n := 0
	next := func() *Term { t := ts[n]; n++; return t }
	var rec func(v Val) Val
	rec = func(v Val) Val {
		switch x := v.(type) {
		case nil:
			return nil
		case *Term:
			return next()
		case *VStruct:
			r := &VStruct{}
			for _, e := range x.f {
				r.f = append(r.f, rec(e))
			}
			return r
		case *VArr:
			r := &VArr{}
			for _, e := range x.e {
				r.e = append(r.e, rec(e))
			}
			return r
		case VTuple:
			var r VTuple
			for _, e := range x {
				r = append(r, rec(e))
			}
			return r
		case *VSlice:
			r := &VSlice{next(), next(), next(), next()}
			wfSlice(r.base, r.off, r.ln, r.cp)
			return r
		case *VStr:
			return &VStr{next()}
		case *VIface:
			return &VIface{next(), next()}
		case *VFn:
			t := next()
			if f, ok := funcTerms[t]; ok {
				return f
			}
			return &VFn{t}
		case *VFunc:
			t := next()
			if t == unVal(x)[0] {
				return x
			}
			return &VFn{t}
		case *VLoc:
			r := &VLoc{fam: x.fam, typ: x.typ}
			for range x.args {
				r.args = append(r.args, next())
			}
			return r
		case *VArrPtr:
			return &VArrPtr{next(), next(), x.arr}
		}
		unsup("rebuildVal %T", v)
		return nil
	}
	return rec(v)
}

func (x *Exec) loopKey(fr *Frame, l *Loop) string {
	k := ""
	for f := fr; f != nil; f = f.parent {
		k += f.fn.String() + "<"
	}
	return fmt.Sprintf("%s|%s|%s|%d", x.prop, x.unit, k, l.index)
}

func (x *Exec) loop(fr *Frame, l *Loop, es []edge) {
	es = dropFalse(es)
	if len(es) == 0 {
		return
	}
	pc0, st0 := x.joinEdges(fr, l.header, es)
	if pc0 == tFalse {
		return
	}
	// peel iterations whose controlling condition is a constant, when that runs the whole loop
	peeled := 0
	pcS, stS, sn, nob := pc0, st0, x.snap(fr), len(x.obls)
	phis := map[ssa.Value]Val{}
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis[p] = fr.env[p]
		}
	}
	for n := 0; n < 80; n++ {
		was := pendLens(fr)
		done, again := x.tryPeel(fr, l, &pc0, &st0)
		if (done || again) && (peeled > 0 || again) {
			x.tagExits(fr, l, was)
			peeled++
		}
		if done {
			return
		}
		if !again {
			break
		}
	}
	if peeled > 0 {
		x.restore(fr, sn)
		x.obls = x.obls[:nob:nob]
		pc0, st0 = pcS, stS
		for p, v := range phis {
			fr.env[p] = v
		}
	}
	le := &loopExec{x: x, fr: fr, l: l, pc0: pc0, st0: st0, stamp: stampCt, inits: map[*ssa.Phi]Val{}, cellIx: map[string]*comp{}, fams: map[string]*famInfo{}, leafOf: map[string]Leaf{}}
	le.run()
}

func pendLens(fr *Frame) map[*ssa.BasicBlock]int {
	m := map[*ssa.BasicBlock]int{}
	for b, e := range fr.pending {
		m[b] = len(e)
	}
	return m
}

// tagExits attaches the values of the iteration just executed to the edges that left
// the loop in it.
func (x *Exec) tagExits(fr *Frame, l *Loop, was map[*ssa.BasicBlock]int) {
	var vs []ssa.Value
	for _, b := range fr.rpo {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if _, ok := fr.env[v]; !ok {
				continue
			}
			for _, r := range *v.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); !dbg && !l.blocks[r.Block()] {
					vs = append(vs, v)
					break
				}
			}
		}
	}
	for b, es := range fr.pending {
		if l.blocks[b] {
			continue
		}
		for i := was[b]; i < len(es); i++ {
			st := &State{h: es[i].st.h, vars: es[i].st.vars}
			for _, v := range vs {
				if _, ok := st.vars[v]; !ok {
					st.withVar(v, fr.env[v])
				}
			}
			es[i].st = st
		}
	}
}

func headerIf(l *Loop) *ssa.If {
	i, _ := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	return i
}

// tryPeel executes one iteration concretely when the loop test is decided.
func (x *Exec) tryPeel(fr *Frame, l *Loop, pc0 **Term, st0 **State) (done, again bool) {
	hi := headerIf(l)
	if hi == nil || l.blocks[l.header.Succs[0]] == l.blocks[l.header.Succs[1]] {
		return false, false
	}
	if traceLoops && x.dry == 0 && x.houd == 0 {
		fmt.Fprintf(os.Stderr, "try peel %s #%d pc %v\n", fr.fn.Name(), l.index, *pc0)
	}
	// evaluate the header test in a dry run
	phiVals := map[ssa.Value]Val{}
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phiVals[p] = fr.env[p]
		}
	}
	s := x.snap(fr)
	x.dry++
	lr := &loopRun{loop: l}
	fr.active = append(fr.active, lr)
	x.block(fr, l.header, *pc0, *st0)
	var dest []*ssa.BasicBlock
	for i, n := range s.backs {
		if a := fr.active[i]; len(dropFalse(a.back[n:])) > 0 {
			dest = append(dest, a.loop.header)
		}
	}
	for b, e := range fr.pending {
		if len(e) > len(s.pend[b]) {
			dest = append(dest, b)
		}
	}
	x.dry--
	x.restore(fr, s)
	for p, v := range phiVals {
		fr.env[p] = v
	}
	if len(dest) != 1 {
		return false, false
	}
	if !l.blocks[dest[0]] {
		// loop not entered: run the header for real
		x.block(fr, l.header, *pc0, *st0)
		return true, false
	}
	lr = &loopRun{loop: l}
	fr.active = append(fr.active, lr)
	x.block(fr, l.header, *pc0, *st0)
	x.region(fr, l)
	fr.active = fr.active[:len(fr.active)-1]
	back := dropFalse(lr.back)
	if len(back) == 0 {
		return true, false
	}
	p, st := x.joinEdges(fr, l.header, back)
	if p == tFalse {
		return true, false
	}
	*pc0, *st0 = p, st
	return false, true
}

// exec runs the loop body once from the given head valuation.
func (le *loopExec) exec(hd *compVals) []edge {
	x, fr := le.x, le.fr
	for _, p := range le.phis {
		fr.env[p] = x.simpVal(hd.phi[p], hd.pc)
	}
	lr := &loopRun{loop: le.l, iter: hd.k, headSt: hd.st, headPc: hd.pc}
	fr.active = append(fr.active, lr)
	if fr.lastIter == nil {
		fr.lastIter = map[int]*Term{}
	}
	fr.lastIter[le.l.depth] = hd.k
	n := len(fr.active)
	x.block(fr, le.l.header, hd.pc, hd.st)
	x.region(fr, le.l)
	fr.active = fr.active[:n-1]
	return dropFalse(lr.back)
}

// invariantTerm: the term only depends on values that exist before the loop.
func (le *loopExec) inv(t *Term) bool { return t.stamp <= le.stamp }

func (le *loopExec) mkHead() *compVals {
	hd := &compVals{phi: map[*ssa.Phi]Val{}, pc: le.pc0, k: le.k}
	for _, c := range le.comps {
		switch c.mode {
		case cUnchanged:
			c.head = c.init
		case cAffine:
			c.head = Add(c.init, Mul(c.step, le.k))
		case cGeneral:
			if d := le.over[c]; d != nil {
				c.head = d
				continue
			}
			c.head = freshSym(c.name, c.leaf.sort, c.leaf.lo, c.leaf.hi)
		}
	}
	for _, c := range le.comps {
		if c.mode == cTied {
			c.head = Add(c.tie.head, Sub(c.init, c.tie.init))
		}
	}
	i := 0
	for _, p := range le.phis {
		n := len(valTerms(le.inits[p]))
		var ts []*Term
		for k := 0; k < n; k++ {
			ts = append(ts, le.comps[i].head)
			i++
		}
		hd.phi[p] = rebuildVal(le.inits[p], ts)
	}
	st := le.st0.clone()
	for _, key := range sortedKeys(le.fams) {
		fi := le.fams[key]
		if !fi.changed {
			continue
		}
		lf := le.leafOf[key]
		base := lf
		base.suffix = ""
		h := st.get(key, base)
		coarse := fi.unframed || fi.hasNew
		for _, r := range fi.regions {
			if le.cellIx[cellKey(key, r)] == nil {
				coarse = true
			}
		}
		if coarse {
			stampCt++
			regs := append([][]*Term(nil), fi.regions...)
			spans := make([]*spanSet, len(regs))
			if key[0] == 'E' {
				for i, r := range regs {
					if sp := fi.spans[cellKey(key, r)]; len(r) == 1 && sp != nil && !sp.wide {
						spans[i] = sp
					}
				}
			}
			k1 := Sub(le.k, C(1))
			unf, hasNew, stamp, ex, key := fi.unframed, fi.hasNew, le.stamp, fi.ex, key
			h = newHeap(&Heap{kind: hHavoc, parent: h, leaf: h.leaf, name: h.name0(), stamp: stampCt, frame: func(args []*Term) *Term {
				if unf {
					if len(ex) > 0 && allWithin(key, args[0], ex) {
						return tTrue
					}
					return tFalse
				}
				if hasNew && rootOf(args[0]).age() > stamp {
					return tFalse
				}
				c := tTrue
				for i, r := range regs {
					e := refEq(args[0], r[0])
					if sp := spans[i]; sp != nil && e != tFalse {
						e = And(e, Le(sp.lo, args[1]), Lt(args[1], Add(sp.hi, Mul(sp.s, k1))))
					}
					for k := 1; k < len(r) && e != tFalse; k++ {
						e = And(e, Eq(args[k], r[k]))
					}
					c = And(c, Not(e))
				}
				return c
			}})
		}
		for _, c := range le.comps {
			if c.phi == nil && c.fam == key && c.mode != cUnchanged || coarse && c.phi == nil && c.fam == key {
				h = h.store(c.args, c.head)
			}
		}
		st.h[key] = h
	}
	hd.st = st
	for _, c := range le.comps {
		hd.cs = append(hd.cs, c.head)
	}
	return hd
}

func cellKey(fam string, args []*Term) string { return fam + "@" + argKey(args) }

// vals reads the valuation at a back edge.
func (le *loopExec) vals(e edge) *compVals {
	v := &compVals{phi: map[*ssa.Phi]Val{}, st: e.st, pc: e.pc, k: Add(le.k, C(1)), at: e.from}
	for _, p := range le.phis {
		pv := le.x.normPtr(le.x.phiVal(le.fr, le.l.header, p, e), p.Type())
		v.phi[p] = pv
		ts := valTerms(pv)
		if len(ts) != len(valTerms(le.inits[p])) {
			unsup("loop variable %s changes representation", p.Comment)
		}
		v.cs = append(v.cs, ts...)
	}
	for _, c := range le.comps {
		if c.phi == nil {
			lf := c.leaf
			v.cs = append(v.cs, le.x.simp(e.st.get(c.fam, Leaf{lf.sort, lf.lo, lf.hi, ""}).sel(c.args), e.pc))
		}
	}
	return v
}

func (le *loopExec) run() {
	x, fr, l := le.x, le.fr, le.l
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		le.phis = append(le.phis, p)
		v := fr.env[p]
		le.inits[p] = v
		ts := valTerms(v)
		fl := flatLeaves(p.Type())
		for i, t := range ts {
			lf := Leaf{t.sort, bi0, nil, ""}
			if len(fl) == len(ts) {
				lf = fl[i]
			} else if t.sort != SInt {
				lf.lo = nil
			}
			le.comps = append(le.comps, &comp{key: fmt.Sprintf("%s.%d", p.Name(), i), phi: p, ci: i, leaf: lf, init: t, name: nameOr(p.Comment, p.Name())})
		}
	}
	le.k = freshSym("K", SInt, bi0, nil)

	// ---- shape inference
	x.dry++
	var back []edge
	var backVals []*compVals
	round := 0
	for ; ; round++ {
		if round > 24 {
			x.dry--
			unsup("loop shape of %s does not stabilise", fr.fn.Name())
		}
		s := x.snap(fr)
		hd := le.mkHead()
		le.head = hd
		back = le.exec(hd)
		if len(back) == 0 {
			x.restore(fr, s)
			break
		}
		backVals = nil
		for _, e := range back {
			backVals = append(backVals, le.vals(e))
		}
		changed := le.update(hd, back, backVals, x.writes[s.nw:], round)
		x.restore(fr, s)
		if !changed {
			break
		}
	}
	x.dry--
	if len(back) == 0 {
		// no iteration continues: execute once for real
		hd := &compVals{phi: le.inits, st: le.st0, pc: le.pc0, k: C(0)}
		le.exec(hd)
		return
	}
	if traceLoops && x.dry == 0 {
		fmt.Fprintf(os.Stderr, "loop %s #%d rounds %d:", fr.fn.Name(), l.index, round)
		for _, c := range le.comps {
			fmt.Fprintf(os.Stderr, " %s/%s:%d", c.name, c.key, c.mode)
		}
		for _, k := range sortedKeys(le.fams) {
			fi := le.fams[k]
			fmt.Fprintf(os.Stderr, " [%s regs=%d unf=%v new=%v]", k, len(fi.regions), fi.unframed, fi.hasNew)
		}
		fmt.Fprintln(os.Stderr)
	}
	// guards that are functions of the iteration count hold at every earlier iteration
	for _, lit := range le.commonLits(back) {
		if le.inv(subst(lit, map[*Term]*Term{le.k: namedSym("K0", SInt, nil, nil)})) && lit.stamp > le.stamp {
			le.histLits = append(le.histLits, lit)
		}
	}
	// ---- candidate invariants
	var kept []cand
	if x.dry == 0 {
		kept = le.houdini(le.candidates(back, backVals))
	}
	// ---- final run
	hd := le.headWith(kept)
	le.head = hd
	le.assumeHead(hd, kept)
	final := le.exec(hd)
	// shape must have been reproduced
	var fv []*compVals
	for _, e := range final {
		fv = append(fv, le.vals(e))
	}
	le.recheck(hd, final, fv)
	if x.dry == 0 && x.houd == 0 {
		for _, c := range kept {
			x.invKept[c.name]++
		}
	}
	le.steps(hd, final, fv)
}

func nameOr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (le *loopExec) recheck(hd *compVals, es []edge, vs []*compVals) {
	for i, c := range le.comps {
		for j := range es {
			if !le.compOK(c, i, hd, vs[j], es[j].pc) {
				unsup("loop component %s of %s not reproduced", c.name, le.fr.fn.Name())
			}
		}
	}
}

func (le *loopExec) eqUnder(a, b, pc *Term) bool {
	if a == b {
		return true
	}
	if a.sort == SInt {
		return le.x.simp(Eq(a, b), pc) == tTrue
	}
	return le.x.simp(Eq(a, b), pc) == tTrue
}

func (le *loopExec) compOK(c *comp, i int, hd, v *compVals, pc *Term) bool {
	switch c.mode {
	case cUnchanged:
		return le.eqUnder(v.cs[i], c.init, pc)
	case cAffine:
		return le.eqUnder(v.cs[i], Add(hd.cs[i], c.step), pc)
	case cTied:
		j := le.index(c.tie)
		return le.eqUnder(v.cs[i], Add(v.cs[j], Sub(c.init, c.tie.init)), pc)
	}
	return true
}

func (le *loopExec) index(c *comp) int {
	for i, d := range le.comps {
		if d == c {
			return i
		}
	}
	return -1
}

// update advances the shape lattice; it reports whether anything changed.
func (le *loopExec) update(hd *compVals, es []edge, vs []*compVals, ws []Write, round int) bool {
	changed := false
	for i, c := range le.comps {
		ok := true
		for j := range es {
			if !le.compOK(c, i, hd, vs[j], es[j].pc) {
				ok = false
			}
		}
		if ok {
			continue
		}
		changed = true
		old := c.mode
		if old == cUnchanged && c.init.sort == SInt {
			// affine?
			var d *Term
			good := true
			for j := range es {
				dj := le.x.simp(Sub(vs[j].cs[i], hd.cs[i]), es[j].pc)
				if !le.inv(dj) || d != nil && d != dj {
					good = false
				}
				d = dj
			}
			if good && d != nil {
				c.mode, c.step = cAffine, d
				continue
			}
		}
		if old <= cAffine && c.init.sort == SInt && intComp(c) {
			// tied to an earlier general component?
			tied := false
			for j, o := range le.comps {
				if j >= i || o.mode != cGeneral || !intComp(o) {
					continue
				}
				good := true
				for k := range es {
					a := Sub(vs[k].cs[i], hd.cs[i])
					b := Sub(vs[k].cs[j], hd.cs[j])
					if !le.eqUnder(a, b, es[k].pc) {
						good = false
						break
					}
				}
				if good {
					c.mode, c.tie = cTied, o
					tied = true
					break
				}
			}
			if tied {
				continue
			}
		}
		c.mode = cGeneral
	}
	// a component tied to one that is no longer general cannot happen: general is final.
	le.unsettled = changed
	// ---- heap families
	wk := map[string][]Write{}
	for _, w := range ws {
		wk[w.key] = append(wk[w.key], w)
	}
	diff := map[string]bool{}
	for _, e := range es {
		for k, h := range e.st.h {
			h0, ok := hd.st.h[k]
			if !ok {
				if h.kind == hBase {
					continue
				}
			} else if h0 == h {
				continue
			}
			diff[k] = true
			lf := h.leaf
			lf.suffix = ""
			le.leafOf[k] = lf
		}
	}
	le.seen = map[string]bool{}
	le.spans = map[string]*spanSet{}
	for _, k := range sortedKeys(diff) {
		fi := le.fams[k]
		if fi == nil {
			fi = &famInfo{}
			le.fams[k] = fi
		}
		if !fi.changed {
			fi.changed = true
			changed = true
		}
		if len(wk[k]) == 0 {
			if !fi.unframed {
				fi.unframed = true
				changed = true
			}
			continue
		}
		for _, w := range wk[k] {
			if le.addWrite(k, fi, w) {
				changed = true
			}
		}
	}
	for _, k := range sortedKeys(le.fams) {
		fi := le.fams[k]
		if k[0] != 'E' {
			continue
		}
		sp := map[string]*spanSet{}
		for _, r := range fi.regions {
			if len(r) != 1 {
				continue
			}
			ck := cellKey(k, r)
			p := le.spans[ck]
			if p == nil || round > 10 {
				p = &spanSet{wide: true}
			}
			sp[ck] = p
			if !p.same(fi.spans[ck]) {
				changed = true
			}
		}
		fi.spans = sp
	}
	// element cells that only an earlier guess of the shape wrote at a fixed index
	var keep []*comp
	for _, c := range le.comps {
		if !le.unsettled && c.phi == nil && (c.fam[0] == 'E' || c.fam[0] == 'M') && !le.seen[c.key] {
			fi := le.fams[c.fam]
			var regs [][]*Term
			for _, r := range fi.regions {
				if cellKey(c.fam, r) != c.key {
					regs = append(regs, r)
				}
			}
			if len(regs) > 0 || fi.unframed || fi.hasNew {
				fi.regions = regs
				delete(le.cellIx, c.key)
				changed = true
				continue
			}
		}
		keep = append(keep, c)
	}
	le.comps = keep
	return changed
}

func intComp(c *comp) bool {
	if c.phi == nil && !strings.HasPrefix(c.fam, "G:") && (c.leaf.hi == nil || !strings.HasPrefix(c.fam, "C:") && !strings.HasPrefix(c.fam, "F:")) {
		return false
	}
	return c.leaf.sort == SInt && (c.leaf.suffix == "" || c.leaf.suffix == ".off" || c.leaf.suffix == ".len")
}

func iteLeaves(t *Term, out *[]*Term) {
	if t.op == OIte && t.sort == SInt {
		iteLeaves(t.args[1], out)
		iteLeaves(t.args[2], out)
		return
	}
	*out = append(*out, t)
}

func (fi *famInfo) setUnframed(ex []*exType) bool {
	if !fi.unframed {
		fi.unframed, fi.ex = true, ex
		return true
	}
	if m := meetEx(fi.ex, ex); len(m) != len(fi.ex) {
		fi.ex = m
		return true
	}
	return false
}

func (le *loopExec) addWrite(key string, fi *famInfo, w Write) bool {
	if len(w.args) == 0 {
		return fi.setUnframed(w.ex)
	}
	var bases []*Term
	iteLeaves(w.args[0], &bases)
	ch := false
	for _, b := range bases {
		if b.op == OConst && b.k.Sign() == 0 {
			continue
		}
		if !le.inv(b) {
			r := rootOf(b)
			if r.root && r.stamp > le.stamp {
				if !fi.hasNew {
					fi.hasNew = true
					ch = true
				}
				continue
			}
			if traceLoops && !fi.unframed {
				fmt.Fprintf(os.Stderr, "loop %s: unframed %s via %v\n", le.fr.fn.Name(), key, b)
			}
			var ex []*exType
			for _, e := range le.x.unitExcept() {
				if e.within(key, b) == 0 {
					ex = append(ex, e)
				}
			}
			if fi.setUnframed(ex) {
				ch = true
			}
			continue
		}
		if key[0] == 'E' {
			le.addSpan(key, b, w)
		}
		// exact cell when all arguments are loop invariant
		exact := w.lo == nil && len(bases) == 1
		full := 1
		if len(w.key) > 1 && (w.key[0] == 'E' || w.key[0] == 'M') {
			full = 2
		}
		if len(w.args) != full {
			exact = false
		}
		for _, a := range w.args {
			if !le.inv(a) {
				exact = false
			}
		}
		if exact && full == 2 && le.unsettled {
			// the loop variables have not settled: the index may yet turn out to vary
			ch = true
			continue
		}
		reg := []*Term{b}
		if exact {
			reg = w.args
		}
		dup := false
		for _, r := range fi.regions {
			if len(r) <= len(reg) {
				same := true
				for i := range r {
					if r[i] != reg[i] {
						same = false
					}
				}
				if same {
					dup = true
				}
			}
		}
		if !dup {
			fi.regions = append(fi.regions, reg)
			ch = true
		}
		if exact {
			ck := cellKey(key, reg)
			le.seen[ck] = true
			if le.cellIx[ck] == nil {
				lf := le.leafOf[key]
				c := &comp{key: ck, fam: key, leaf: lf, args: reg, name: "cell"}
				if key == "G:pos" {
					c.name = "pos"
				}
				c.init = le.x.simp(le.st0.get(key, lf).sel(reg), le.pc0)
				le.cellIx[ck] = c
				le.comps = append(le.comps, c)
				ch = true
			}
		}
	}
	return ch
}

func litsOf(t *Term) []*Term { return conjuncts(t) }

// common literals of all back edges beyond the entry condition.
func (le *loopExec) commonLits(es []edge) []*Term {
	cnt := map[*Term]int{}
	base := map[*Term]bool{}
	for _, c := range conjuncts(le.pc0) {
		base[c] = true
	}
	for _, e := range es {
		for _, c := range conjuncts(e.pc) {
			if !base[c] {
				cnt[c]++
			}
		}
	}
	var out []*Term
	for c, n := range cnt {
		if n == len(es) {
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (le *loopExec) candidates(es []edge, vs []*compVals) []cand {
	var cs []cand
	add := func(name string, user bool, f func(v, hd *compVals) *Term) {
		cs = append(cs, cand{fmt.Sprintf("%s.loop%d:%s", le.fr.fn.Name(), le.l.index, name), user, f})
	}
	// a loop over many heap cells gets no guesses about their values
	many := len(le.comps) > 20
	for i, c := range le.comps {
		i, c := i, c
		if c.mode != cGeneral || !intComp(c) || many && c.phi == nil && c.name != "pos" {
			continue
		}
		nm := fmt.Sprintf("%s%d", c.name, i)
		add(nm+">=init", false, func(v, hd *compVals) *Term { return Le(c.init, v.cs[i]) })
		add(nm+"<=init", false, func(v, hd *compVals) *Term { return Le(v.cs[i], c.init) })
		for j, d := range le.comps {
			j, d := j, d
			if j >= i || d.mode != cGeneral || !intComp(d) || d.leaf.suffix != "" || many && d.phi == nil && d.name != "pos" {
				continue
			}
			if c.name == "pos" || d.name == "pos" {
				add(fmt.Sprintf("%s-%s%d", nm, d.name, j), false, func(v, hd *compVals) *Term {
					return Eq(Sub(v.cs[i], v.cs[j]), Sub(c.init, d.init))
				})
			}
		}
	}
	for i, c := range le.comps {
		i, c := i, c
		if c.mode == cGeneral && c.leaf.suffix == ".tag" && c.init.isConst() {
			add(fmt.Sprintf("%s%d==init", c.name, i), false, func(v, hd *compVals) *Term { return Eq(v.cs[i], c.init) })
		}
		if c.mode == cGeneral && c.leaf.sort == SBool {
			add(fmt.Sprintf("%s%d==binit", c.name, i), false, func(v, hd *compVals) *Term { return Iff(v.cs[i], c.init) })
		}
	}
	// guard relaxations over general components and K
	n := 0
	hmap := func(t *Term) (func(v *compVals) *Term, bool) {
		m := map[*Term]bool{}
		ok := true
		general := false
		collect([]*Term{t}, func(s *Term) {
			if s.op == OSym && s.stamp > le.stamp {
				m[s] = true
			}
			if s.op == OApp && s.stamp > le.stamp && len(s.args) == 0 {
				ok = false
			}
		})
		hs := map[*Term]int{}
		for i, c := range le.comps {
			if c.mode == cGeneral {
				hs[le.head.cs[i]] = i
			}
		}
		for s := range m {
			if s == le.k {
				continue
			}
			if _, in := hs[s]; in {
				general = true
			} else {
				ok = false
			}
		}
		_ = general
		// applications of havocked heaps are not supported
		collect([]*Term{t}, func(s *Term) {
			if s.op == OApp && s.stamp > le.stamp {
				inner := false
				for _, a := range s.args {
					if a.stamp > le.stamp {
						inner = true
					}
				}
				if !inner {
					ok = false
				}
			}
		})
		return func(v *compVals) *Term {
			sm := map[*Term]*Term{le.k: v.k}
			for s, i := range hs {
				sm[s] = v.cs[i]
			}
			return subst(t, sm)
		}, ok
	}
	for _, lit := range le.commonLits(es) {
		t := lit
		neg := false
		if t.op == ONot {
			neg, t = true, t.args[0]
		}
		if t.op != OLe0 {
			continue
		}
		lin := t.args[0]
		if neg {
			lin = Sub(C(1), lin)
		}
		// lin <= 0 is the guard; the state after the step may satisfy lin <= 1
		f, ok := hmap(lin)
		if !ok {
			continue
		}
		// constant step of the guard expression
		nm := fmt.Sprintf("guard%d", n)
		n++
		add(nm+"+1", false, func(v, hd *compVals) *Term { return Le(f(v), C(1)) })
		add(nm, false, func(v, hd *compVals) *Term { return Le(f(v), C(0)) })
		// larger constant step
		hl := f(le.head)
		for _, v := range vs {
			d := Sub(f(v), hl)
			if k, isc := d.constInt(); isc && k > 1 {
				add(fmt.Sprintf("%s+%d", nm, k), false, func(v, hd *compVals) *Term { return Le(f(v), C(k)) })
				break
			}
		}
	}
	// user invariants
	for i, inv := range le.x.pr.loopInvariants(le.x, le.fr.fn) {
		inv := inv
		if !le.x.clauseActive(inv) {
			continue
		}
		if inv.loop >= 0 && inv.loop != le.l.index {
			continue
		}
		// names must resolve
		if _, err := le.evalAt(inv.e, le.head, le.head); err != nil {
			if traceLoops {
				fmt.Fprintf(os.Stderr, "  invariant %q not applicable to loop %d of %s: %v\n", inv.src, le.l.index, le.fr.fn.Name(), err)
			}
			continue
		}
		add(fmt.Sprintf("inv%d{%s}", i, inv.src), true, func(v, hd *compVals) *Term {
			t, err := le.evalAt(inv.e, v, hd)
			if err != nil {
				return tFalse
			}
			return t
		})
	}
	return cs
}

// evalAt evaluates a specification formula at a loop valuation.
func (le *loopExec) evalAt(e *SExpr, v, hd *compVals) (t *Term, err error) {
	ec := le.x.frameCtx(le.fr, v.st, v.pc)
	ec.iters = le.iterMap(v)
	base := ec.names
	ec.names = func(n string) (SVal, bool) {
		for _, p := range le.phis {
			if p.Comment == n {
				return SVal{v.phi[p], p.Type()}, true
			}
		}
		// local variables as they are there; at the head, those set before the loop
		if hd != v && v.at != nil {
			if r, ok := le.x.localVar(le.fr, n, v.at, v.st, len(v.at.Instrs)); ok {
				return r, true
			}
		}
		if r, ok := le.x.localVar(le.fr, n, le.l.header, v.st, 0); ok {
			return r, true
		}
		return base(n)
	}
	if hd != v {
		h := le.x.frameCtx(le.fr, hd.st, hd.pc)
		h.iters = le.iterMap(hd)
		hb := h.names
		h.names = func(n string) (SVal, bool) {
			for _, p := range le.phis {
				if p.Comment == n {
					return SVal{hd.phi[p], p.Type()}, true
				}
			}
			return hb(n)
		}
		ec.head = h
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(specErr); ok {
				err = u
				return
			}
			if u, ok := r.(unsupported); ok {
				err = specErr(u.msg)
				return
			}
			panic(r)
		}
	}()
	return ec.formula(e), nil
}

func (le *loopExec) iterMap(v *compVals) map[int]*Term {
	m := map[int]*Term{}
	d := 0
	for _, lr := range le.fr.active {
		m[d] = lr.iter
		d++
	}
	m[le.l.depth] = v.k
	return m
}

func (le *loopExec) initVals() *compVals {
	v := &compVals{phi: le.inits, st: le.st0, pc: le.pc0, k: C(0)}
	for _, c := range le.comps {
		v.cs = append(v.cs, c.init)
	}
	return v
}

// headWith is the loop head under the given invariants; an invariant that equates a
// component with a function of the iteration count and values from before the loop is
// used as its definition.
func (le *loopExec) headWith(cs []cand) *compVals {
	hd := le.mkHead()
	sym := map[*Term]*comp{}
	for i, c := range le.comps {
		if c.mode == cGeneral && hd.cs[i].op == OSym && hd.cs[i].sort == SInt {
			sym[hd.cs[i]] = c
		}
	}
	sigma := map[*Term]*Term{}
	over := map[*comp]*Term{}
	k0 := map[*Term]*Term{le.k: namedSym("K0", SInt, nil, nil)}
	solve := func(t *Term) {
		if t.op != OEq0 {
			return
		}
		d := subst(t.args[0], sigma)
		for i, c := range le.comps {
			h := hd.cs[i]
			if sym[h] != c || over[c] != nil || !occurs(d, h) {
				continue
			}
			e := solveFor(d, h, C(0))
			if e == nil || occurs(e, h) || !le.inv(subst(e, k0)) {
				continue
			}
			over[c] = e
			sigma[h] = e
			return
		}
	}
	for pass := 0; pass < 2; pass++ {
		for _, c := range cs {
			if c.user || pass > 0 {
				for _, t := range conjuncts(c.f(hd, hd)) {
					solve(t)
				}
			}
		}
	}
	if len(over) == 0 {
		return hd
	}
	le.over = over
	hd = le.mkHead()
	le.over = nil
	for _, c := range le.comps {
		e := over[c]
		if e == nil {
			continue
		}
		if c.leaf.lo != nil {
			le.x.assumeN(le.pc0, Le(CB(c.leaf.lo), e), "range")
		}
		if c.leaf.hi != nil {
			le.x.assumeN(le.pc0, Le(e, CB(c.leaf.hi)), "range")
		}
	}
	return hd
}

func (le *loopExec) assumeHead(hd *compVals, cs []cand) {
	for _, c := range cs {
		le.x.assumeN(le.pc0, c.f(hd, hd), "inv "+c.name)
	}
	// guards of the previous iteration, for components that are functions of K
	for _, lit := range le.histLits {
		le.x.assumeN(le.pc0, Or(Eq(le.k, C(0)), subst(lit, map[*Term]*Term{le.k: Sub(le.k, C(1))})), "hist")
	}
}

func (le *loopExec) houdini(cs []cand) []cand {
	x, fr := le.x, le.fr
	if len(cs) == 0 {
		return nil
	}
	x.houd++
	defer func() { x.houd-- }()
	key := x.loopKey(fr, le.l)
	memo := loopMemos[key]
	if memo == nil {
		memo = &loopMemo{dropped: map[string]bool{}}
		loopMemos[key] = memo
	}
	var kept []cand
	iv := le.initVals()
	var items []proveItem
	var live []cand
	for _, c := range cs {
		if memo.dropped[c.name] {
			continue
		}
		live = append(live, c)
		items = append(items, proveItem{le.pc0, c.f(iv, iv), len(x.facts), c.user, c.name + " init", nil})
	}
	res := x.proveAll(items)
	for i, c := range live {
		if res[i] {
			kept = append(kept, c)
			continue
		}
		memo.dropped[c.name] = true
		if c.user {
			x.invDropped[c.name+" (initially)"] = true
		}
		if traceLoops {
			fmt.Fprintf(os.Stderr, "  drop(init) %s\n", c.name)
		}
	}
	for {
		if len(kept) == 0 {
			return nil
		}
		s := x.snap(fr)
		hd := le.headWith(kept)
		le.head = hd
		le.assumeHead(hd, kept)
		es := le.exec(hd)
		var vs []*compVals
		for _, e := range es {
			vs = append(vs, le.vals(e))
		}
		items = nil
		for _, c := range kept {
			for j, e := range es {
				items = append(items, proveItem{e.pc, c.f(vs[j], hd), len(x.facts), c.user, c.name, le.k})
			}
		}
		res := x.proveAll(items)
		var next []cand
		dropped := false
		for i, c := range kept {
			ok := true
			for j := range es {
				if !res[i*len(es)+j] {
					ok = false
				}
			}
			if ok {
				next = append(next, c)
			} else {
				dropped = true
				memo.dropped[c.name] = true
				if c.user {
					x.invDropped[c.name] = true
				}
				if traceLoops {
					fmt.Fprintf(os.Stderr, "  drop %s\n", c.name)
				}
			}
		}
		x.restore(fr, s)
		kept = next
		if !dropped {
			break
		}
	}
	if traceLoops {
		for _, c := range kept {
			fmt.Fprintf(os.Stderr, "  keep %s\n", c.name)
		}
	}
	return kept
}

// exits: what holds at a return, in terms of the local variables there (K is the number of
// completed iterations of the loop).
func (x *Exec) exits(fr *Frame, b *ssa.BasicBlock, at int, vs []Val, pc *Term, st *State, pos token.Pos) {
	c := x.contract
	if x.dry > 0 || x.houd > 0 || fr.parent != nil || c == nil || c.fn != fr.fn {
		return
	}
	for _, cl := range c.clauses {
		if cl.kind != "exit" || !x.clauseActive(cl) {
			continue
		}
		ec := x.contractCtx(c, fr.fn, fr.fn.Signature, fr.args, fr.entrySt, st, vs, pc, fr.entryStamp)
		ec.iters = fr.lastIter
		base := ec.names
		loc := x.frameCtx(fr, st, pc)
		ec.names = func(n string) (SVal, bool) {
			if i := indexOf(c.results, n); i >= 0 {
				return base(n)
			}
			if v, ok := x.localVar(fr, n, b, st, at); ok {
				return v, true
			}
			if v, ok := base(n); ok {
				return v, true
			}
			return loc.names(n)
		}
		t, err := safeEval(func() *Term { return ec.formula(cl.e) })
		x.stepSeen[cl.src]++
		if err != nil {
			x.obligeQ("exit", "{"+cl.src+"} not evaluable: "+err.Error(), pos, pc, tFalse)
			continue
		}
		x.obligeQ("exit", "{"+cl.src+"}", pos, pc, t)
	}
}

// steps: relation between the head and the end of one iteration.
func (le *loopExec) steps(hd *compVals, es []edge, vs []*compVals) {
	x := le.x
	if x.dry > 0 || x.houd > 0 {
		return
	}
	for _, sp := range x.pr.loopSteps(x, le.fr.fn) {
		if !x.clauseActive(sp) || sp.loop >= 0 && sp.loop != le.l.index {
			continue
		}
		for j, e := range es {
			t, err := le.evalAt(sp.e, vs[j], hd)
			if err != nil {
				if sp.loop >= 0 {
					x.oblige("step", le.fr.fn.Name()+"{"+sp.src+"} not evaluable: "+err.Error(), le.l.header.Instrs[0].Pos(), e.pc, tFalse)
				}
				break
			}
			x.stepSeen[sp.src]++
			x.oblige("step", le.fr.fn.Name()+"{"+sp.src+"}", le.l.header.Instrs[0].Pos(), e.pc, t)
		}
	}
}

type proveItem struct {
	pc, goal *Term
	nf       int
	user     bool
	name     string
	k        *Term // iteration count
}

// proveAll: entailment checks used during invariant selection. A user invariant's goal that is not
// proved at once is tried again with other presentations of the same entailment: the recursions
// unfolded twice, and the iteration's own index apart from the earlier ones.
func (x *Exec) proveAll(items []proveItem) []bool {
	res := make([]bool, len(items))
	type goal struct {
		i  int
		as []*Term
		g  *Term
	}
	var goals []goal
	for i, it := range items {
		res[i] = true
		for _, g := range conjuncts(x.simp(it.goal, it.pc)) {
			if !res[i] || g == tTrue || it.pc == tFalse {
				continue
			}
			if g == tFalse && !it.user {
				res[i] = false
				continue
			}
			x.houdCalls++
			goals = append(goals, goal{i, x.assemble(it.pc, g, x.facts[:it.nf]), g})
		}
	}
	sem := make(chan struct{}, 8)
	round := func(gs []goal, tag string, qs func(goal) []string, t, full time.Duration) []goal {
		failed := make([]bool, len(gs))
		var wg sync.WaitGroup
		var mu sync.Mutex
		for n, g := range gs {
			mu.Lock()
			skip := tag == "" && !res[g.i] && !items[g.i].user
			mu.Unlock()
			if skip {
				continue
			}
			list := qs(g)
			if list == nil {
				failed[n] = true
				continue
			}
			for vi, q := range list {
				if q == "UNSAT" {
					continue
				}
				n, vi, q, it := n, vi, q, items[g.i]
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					mu.Lock()
					if x.enough() {
						failed[n] = true
					}
					skip := failed[n]
					mu.Unlock()
					if skip {
						return
					}
					t, f := t, full
					if !it.user {
						t, f = 4*time.Second, 0
					}
					r := solveText(q, t, f, "houd"+tag)
					if traceLoops && r.dur > time.Second {
						fmt.Fprintf(os.Stderr, "  slow %s %s %.1fs %s %s\n", tag, r.status, r.dur.Seconds(), r.solver, it.name)
					}
					if r.status != "unsat" {
						if d := os.Getenv("GOV_DUMP"); d != "" && it.user {
							os.WriteFile(fmt.Sprintf("%s/houd%s.%s.%d.%s.smt2", d, tag, houdName(it.name), vi, r.status), []byte(q), 0o644)
						}
						mu.Lock()
						failed[n] = true
						if !it.user {
							res[g.i] = false
						}
						mu.Unlock()
					}
				}()
			}
		}
		wg.Wait()
		var left []goal
		for n, g := range gs {
			if failed[n] && items[g.i].user {
				left = append(left, g)
			}
		}
		return left
	}
	plain := func(g goal) []string { return []string{renderLocked(prepare(g.as, 1, 2))} }
	light := func(g goal) []string { return []string{renderLocked(prepare(g.as, 0, 1))} }
	left := round(goals, "", plain, time.Second, 0)
	if len(left) > 0 {
		left = round(left, "0", light, 2*time.Second, 0)
	}
	if len(left) > 0 {
		left = round(left, "k", func(g goal) []string {
			k := items[g.i].k
			if k == nil {
				return nil
			}
			gh := ghostIndex(g.g, k)
			if gh == nil {
				if traceLoops {
					fmt.Fprintf(os.Stderr, "  no ghost index: %s\n", g.g)
				}
				return nil
			}
			sub := map[*Term]*Term{gh: k}
			var eq []*Term
			for _, a := range g.as {
				eq = append(eq, subst(a, sub))
			}
			ne := append(append([]*Term(nil), g.as...), Not(Eq(gh, k)))
			return []string{renderLocked(prepare(eq, 1, 2)), renderLocked(prepare(ne, 1, 2))}
		}, 4*time.Second, 10*time.Second)
	}
	if len(left) > 0 && !x.hurry() {
		left = round(left, "0", light, 3*time.Second, 8*time.Second)
	}
	if len(left) > 0 && !x.hurry() {
		left = round(left, "", plain, 4*time.Second, 12*time.Second)
	}
	if len(left) > 0 && !x.hurry() {
		left = round(left, "2", func(g goal) []string {
			if !usesRec(g.as) {
				return nil
			}
			return []string{renderLocked(prepare(g.as, 2, 2))}
		}, 4*time.Second, 6*time.Second)
	}
	for _, g := range left {
		res[g.i] = false
	}
	return res
}

// occurs: t contains s.
func occurs(t, s *Term) bool {
	found := false
	collect([]*Term{t}, func(u *Term) {
		if u == s {
			found = true
		}
	})
	return found
}

// usesRec: a recursive spec function occurs.
func usesRec(as []*Term) bool {
	found := false
	collect(as, func(t *Term) {
		if t.op == OApp && recDefs[t.name] != nil {
			found = true
		}
	})
	return found
}

func houdName(n string) string {
	if i := strings.IndexAny(n, "{"); i > 0 {
		n = n[:i]
	}
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '/' || r == ':' {
			return '_'
		}
		return r
	}, n)
}

// ghostIndex: a ghost parameter that the formula compares with the iteration count.
func ghostIndex(t, k *Term) *Term {
	var g *Term
	collect([]*Term{t}, func(s *Term) {
		if g != nil || s.op != OLe0 && s.op != OEq0 {
			return
		}
		p := toPoly(s.args[0])
		kc := p.m[k]
		if kc == nil || kc.CmpAbs(bi1) != 0 {
			return
		}
		for x, c := range p.m {
			if x.op == OSym && strings.HasPrefix(x.name, "ghost.") && c.CmpAbs(bi1) == 0 && c.Sign() != kc.Sign() && len(p.m) == 2 {
				g = x
			}
		}
	})
	return g
}
