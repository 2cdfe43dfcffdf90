package main

// Symbolic execution of SSA functions: control flow, joins, path conditions.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Fact struct {
	pc, f *Term
	note  string
}

// Obl is a proof obligation: under pc and facts[:nf], goal holds.
type Obl struct {
	name   string
	kind   string
	pos    token.Position
	pc     *Term
	goal   *Term
	nf     int
	facts  []Fact // shared backing slice
	desc   string
	hints  []Hint
	fuel   int
	rounds int
	// outcome
	res     Result
	decided bool
}

type Hint struct {
	name string
	t    *Term
}

type Write struct {
	key    string // family+suffix
	args   []*Term
	lo, hi *Term // range on args[1] if not nil
	pc     *Term
	ex     []*exType // with args nil: any cell but those of these types
}

type Exec struct {
	ld            *Loader
	pr            *Proj
	prop          string
	unit          string
	facts         []Fact
	obls          []*Obl
	writes        []Write
	dry           int // >0: no obligations, no solver
	houd          int // >0: inside invariant search
	depth         int
	safety        bool
	caseMask      int
	ordinal       map[string]int
	stack         []*ssa.Function
	assumed       map[string]bool
	inlined       map[string]bool
	callRec       map[string][][3][]SVal // arguments and results of contract calls
	usedContracts map[string]bool
	houdCalls     int
	hurry, enough func() bool
	invDropped    map[string]bool
	invKept       map[string]int
	contract      *Contract
	root          *Frame
	callObs       []*CallObs
	loopInfo      []string
	goDepth       int
	sawGo         bool
	tasks         []*task
	curTask       *task
	reads         bool
	stepSeen      map[string]int
	entryPc       *Term
	rootFrame     *Frame
	ghosts        map[*Contract]map[string]SVal
	live          map[*Clause][]*Term // returns at which the premise of a postcondition can hold
}

func (x *Exec) assume(pc, f *Term) { x.assumeN(pc, f, "") }

func (x *Exec) assumeN(pc, f *Term, note string) {
	if f == tTrue || pc == tFalse {
		return
	}
	x.facts = append(x.facts, Fact{pc, f, note})
}

func (x *Exec) note(s string) {
	x.assumed[s] = true
}

// oblige records a proof obligation and assumes the goal afterwards.
func (x *Exec) oblige(kind, desc string, pos token.Pos, pc, goal *Term) *Obl {
	goal = x.simp(goal, pc)
	if goal == tTrue || pc == tFalse {
		if x.dry == 0 && x.houd == 0 && pc != tFalse {
			x.trivial(kind)
		}
		return nil
	}
	var o *Obl
	if x.dry == 0 && x.houd == 0 {
		key := kind + ":" + desc
		x.ordinal[key]++
		name := fmt.Sprintf("%s/%s", x.unit, key)
		if x.ordinal[key] > 1 {
			name += fmt.Sprintf("#%d", x.ordinal[key])
		}
		o = &Obl{name: name, kind: kind, pc: pc, goal: goal, nf: len(x.facts), desc: desc}
		if pos.IsValid() {
			o.pos = x.ld.fset.Position(pos)
		}
		x.obls = append(x.obls, o)
	}
	x.assume(pc, goal)
	return o
}

// trivially true obligations are counted too.
func (x *Exec) trivial(kind string) {
	o := &Obl{name: x.unit + "/" + kind + ":trivial", kind: kind, goal: tTrue, pc: tTrue}
	o.res = Result{status: "unsat", solver: "simplifier"}
	x.obls = append(x.obls, o)
}

// safe: safety obligation (index, nil, ...).
func (x *Exec) safe(kind string, fr *Frame, pos token.Pos, pc, goal *Term) {
	goal = x.simp(goal, pc)
	if goal == tTrue || pc == tFalse {
		if x.safety && x.dry == 0 && x.houd == 0 && pc != tFalse {
			x.trivial(kind)
		}
		return
	}
	if x.safety {
		x.oblige(kind, fr.fn.Name()+x.snippet(pos), pos, pc, goal)
	} else {
		x.assume(pc, goal)
	}
}

// snippet is the source text of the line at pos, normalised; stable across line shifts.
func (x *Exec) snippet(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	p := x.ld.fset.Position(pos)
	s := x.pr.line(p.Filename, p.Line)
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60]
	}
	return "{" + s + "}"
}

// ---- frames

type deferred struct {
	pc    *Term
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	instr ssa.Instruction
}

type ret struct {
	pc   *Term
	vals []Val
	st   *State
	pos  token.Pos
}

type edge struct {
	from *ssa.BasicBlock
	idx  int // index among from's successors
	pc   *Term
	st   *State
}

type Frame struct {
	fn         *ssa.Function
	env        map[ssa.Value]Val
	free       []Val
	pending    map[*ssa.BasicBlock][]edge
	loops      map[*ssa.BasicBlock]*Loop // by header
	rpo        []*ssa.BasicBlock
	rpoIdx     map[*ssa.BasicBlock]int
	rets       []ret
	defers     []deferred
	cur        *loopRun
	active     []*loopRun
	entryPc    *Term
	entrySt    *State
	entryStamp int
	args       []Val
	names      map[string]Val // contract parameter names (root only)
	debug      map[string][]*ssa.DebugRef
	parent     *Frame
	lastIter   map[int]*Term // iteration count of the last run of the loops, by depth
	curB       *ssa.BasicBlock
	curI       int
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	index  int // ordinal in the function (source order)
	depth  int
}

type loopRun struct {
	loop    *Loop
	back    []edge
	iter    *Term
	headSt  *State
	headEnv map[string]Val
	headPc  *Term
}

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*Loop, []*ssa.BasicBlock) {
	// RPO
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	rpo := make([]*ssa.BasicBlock, len(post))
	for i := range post {
		rpo[i] = post[len(post)-1-i]
	}
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var up func(c *ssa.BasicBlock)
				up = func(c *ssa.BasicBlock) {
					if l.blocks[c] {
						return
					}
					l.blocks[c] = true
					for _, p := range c.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	// irreducibility check
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range rpo {
		idx[b] = i
	}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if idx[s] <= idx[b] && !s.Dominates(b) {
				unsup("irreducible control flow in %s", fn)
			}
		}
	}
	// nesting, ordinals
	var hs []*ssa.BasicBlock
	for h := range loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return idx[hs[i]] < idx[hs[j]] })
	for i, h := range hs {
		l := loops[h]
		l.index = i
		for _, g := range hs {
			m := loops[g]
			if m != l && m.blocks[h] {
				l.depth++
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	return loops, rpo
}

func (x *Exec) newFrame(fn *ssa.Function, args []Val, free []Val, pc *Term, st *State) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, free: free, pending: map[*ssa.BasicBlock][]edge{}, entryPc: pc, entrySt: st, entryStamp: stampCt, args: args}
	fr.loops, fr.rpo = findLoops(fn)
	fr.rpoIdx = map[*ssa.BasicBlock]int{}
	for i, b := range fr.rpo {
		fr.rpoIdx[b] = i
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = free[i]
	}
	return fr
}

// run executes fn and returns the merged results, final state and return condition.
func (x *Exec) run(fr *Frame, pc *Term, st *State) {
	if len(x.stack) > 40 {
		unsup("inline depth")
	}
	x.stack = append(x.stack, fr.fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	st.vars = nil
	fr.pending[fr.fn.Blocks[0]] = []edge{{nil, 0, pc, st}}
	x.region(fr, nil)
}

// region executes the blocks of loop l (nil: whole function) in RPO, starting with
// pending edges already delivered.
func (x *Exec) region(fr *Frame, l *Loop) {
	for _, b := range fr.rpo {
		if l != nil && (!l.blocks[b] || b == l.header) {
			continue
		}
		es := fr.pending[b]
		if len(es) == 0 {
			continue
		}
		if l2, ok := fr.loops[b]; ok && l2 != l {
			delete(fr.pending, b)
			x.loop(fr, l2, es)
			continue
		}
		delete(fr.pending, b)
		pc, st := x.joinEdges(fr, b, es)
		if pc == tFalse {
			continue
		}
		x.block(fr, b, pc, st)
	}
}

func dropFalse(es []edge) []edge {
	var r []edge
	for _, e := range es {
		if e.pc != tFalse {
			r = append(r, e)
		}
	}
	return r
}

// joinEdges merges incoming edges, defining the phis of b.
func (x *Exec) joinEdges(fr *Frame, b *ssa.BasicBlock, es []edge) (*Term, *State) {
	es = dropFalse(es)
	if len(es) == 0 {
		return tFalse, nil
	}
	pc, st, sel := x.mergeEdges(es)
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	vals := make([]Val, len(phis))
	for i, p := range phis {
		vs := make([]Val, len(es))
		for j, e := range es {
			vs[j] = x.phiVal(fr, b, p, e)
		}
		vals[i] = x.foldVals(sel, vs, p.Type())
		vals[i] = x.simpVal(vals[i], pc)
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	return pc, st
}

func (x *Exec) foldVals(sel []*Term, vs []Val, t types.Type) Val {
	r := x.normPtr(vs[len(vs)-1], t)
	for j := len(vs) - 2; j >= 0; j-- {
		r = iteVal(sel[j], x.normPtr(vs[j], t), r)
	}
	return r
}

// normPtr gives nil pointers the representation used for the pointed-to type.
func (x *Exec) normPtr(v Val, t types.Type) Val {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return v
	}
	if tm, ok := v.(*Term); ok && tm.op == OConst && tm.k.Sign() == 0 {
		switch u := pt.Elem().Underlying().(type) {
		case *types.Struct:
			return v
		case *types.Array:
			return &VArrPtr{C(0), C(0), u}
		default:
			_ = u
			return v
		}
	}
	return v
}

// mergeEdges: pc is the disjunction; sel[i] selects edge i given pc.
func (x *Exec) mergeEdges(es []edge) (*Term, *State, []*Term) {
	if len(es) == 1 {
		return es[0].pc, es[0].st, []*Term{tTrue}
	}
	pcs := make([]*Term, len(es))
	cnt := map[*Term]int{}
	for i, e := range es {
		pcs[i] = e.pc
		for _, c := range conjuncts(e.pc) {
			cnt[c]++
		}
	}
	sel := make([]*Term, len(es))
	for i := range es {
		var l []*Term
		for _, c := range conjuncts(pcs[i]) {
			if cnt[c] < len(es) {
				l = append(l, c)
			}
		}
		sel[i] = And(l...)
	}
	pc := mergePcs(pcs)
	st := es[len(es)-1].st
	for i := len(es) - 2; i >= 0; i-- {
		st = mergeState(sel[i], es[i].st, st)
	}
	return pc, st, sel
}

func mergePcs(pcs []*Term) *Term {
	// merge pairwise to benefit from (x&a)|(x&!a)
	l := append([]*Term(nil), pcs...)
	for {
		done := true
	outer:
		for i := 0; i < len(l); i++ {
			for j := i + 1; j < len(l); j++ {
				m := Or(l[i], l[j])
				if m.op != OOr && !hasOr(m) || m.size < l[i].size+l[j].size-2 && len(conjuncts(m)) >= len(conjuncts(l[i]))-1 && len(conjuncts(m)) >= 1 && !hasBigOr(m) {
					l[i] = m
					l = append(l[:j], l[j+1:]...)
					done = false
					break outer
				}
			}
		}
		if done {
			break
		}
	}
	return Or(l...)
}

func hasOr(t *Term) bool {
	for _, c := range conjuncts(t) {
		if c.op == OOr {
			return true
		}
	}
	return false
}

func hasBigOr(t *Term) bool {
	for _, c := range conjuncts(t) {
		if c.op == OOr && c.size > 40 {
			return true
		}
	}
	return false
}

func (x *Exec) phiVal(fr *Frame, b *ssa.BasicBlock, p *ssa.Phi, e edge) Val {
	// which predecessor index?
	n := 0
	want := 0
	// e.idx-th successor of e.from equal to b: occurrence order
	for i, s := range e.from.Succs {
		if s == b {
			if i == e.idx {
				want = n
			}
			n++
		}
	}
	n = 0
	for i, q := range b.Preds {
		if q == e.from {
			if n == want {
				if w, ok := e.st.vars[p.Edges[i]]; ok {
					return x.simpVal(w, e.pc)
				}
				return x.get(fr, p.Edges[i], e.pc)
			}
			n++
		}
	}
	panic("phi edge")
}

func (x *Exec) deliver(fr *Frame, from *ssa.BasicBlock, idx int, pc *Term, st *State) {
	if pc == tFalse {
		return
	}
	to := from.Succs[idx]
	e := edge{from, idx, pc, st}
	for i := len(fr.active) - 1; i >= 0; i-- {
		lr := fr.active[i]
		if lr.loop.header == to && lr.loop.blocks[from] {
			lr.back = append(lr.back, e)
			return
		}
	}
	fr.pending[to] = append(fr.pending[to], e)
}

// block executes the non-phi instructions of b.
func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, pc *Term, st *State) {
	st = st.clone()
	for v, w := range st.vars {
		if in, ok := v.(ssa.Instruction); ok && in.Block() == b {
			st.dropVar(v) // defined again here
			continue
		}
		fr.env[v] = x.simpVal(w, pc)
	}
	cpc := pc
	for n, in := range b.Instrs {
		fr.curB, fr.curI = b, n
		switch i := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.term(fr, i.Cond, cpc)
			c = x.simp(c, cpc)
			x.deliver(fr, b, 0, And(cpc, c), st)
			x.deliver(fr, b, 1, And(cpc, Not(c)), st.clone())
			return
		case *ssa.Jump:
			x.deliver(fr, b, 0, cpc, st)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range i.Results {
				vs = append(vs, x.get(fr, r, cpc))
			}
			fr.rets = append(fr.rets, ret{cpc, vs, st, i.Pos()})
			x.exits(fr, b, n, vs, cpc, st, i.Pos())
			return
		case *ssa.Panic:
			x.safe("panic", fr, i.Pos(), cpc, tFalse)
			return
		default:
			npc := x.instr(fr, in, cpc, st)
			if npc == tFalse {
				return
			}
			cpc = npc
		}
	}
}

// results merges the returns of a frame.
func (x *Exec) results(fr *Frame) (pc *Term, st *State, vals []Val) {
	var es []edge
	for _, r := range fr.rets {
		es = append(es, edge{pc: r.pc, st: r.st})
	}
	if len(es) == 0 {
		return tFalse, nil, nil
	}
	var sel []*Term
	pc, st, sel = x.mergeEdges(es)
	rs := fr.fn.Signature.Results()
	for k := 0; k < rs.Len(); k++ {
		vs := make([]Val, len(es))
		for j, r := range fr.rets {
			vs[j] = r.vals[k]
		}
		vals = append(vals, x.simpVal(x.foldVals(sel, vs, rs.At(k).Type()), pc))
	}
	return
}

// ---- simplification under a path condition

type knownSet struct {
	lits map[*Term]bool
	lin  map[string]*linBound
	memo map[*Term]*Term
}

type linBound struct{ iv }

var knownCache = map[*Term]*knownSet{}

func linKey(t *Term) (string, *poly) {
	p := toPoly(t)
	k := p.k
	p.k = bi0
	tt := p.term()
	p.k = k
	return fmt.Sprint(tt.id), &p
}

func getKnown(pc *Term) *knownSet {
	if k, ok := knownCache[pc]; ok {
		return k
	}
	k := &knownSet{lits: map[*Term]bool{}, lin: map[string]*linBound{}, memo: map[*Term]*Term{}}
	for _, c := range conjuncts(pc) {
		k.addLit(c, true)
	}
	if len(knownCache) > 5000 {
		knownCache = map[*Term]*knownSet{}
	}
	knownCache[pc] = k
	return k
}

func (k *knownSet) addLit(c *Term, pos bool) {
	if c.op == ONot {
		k.addLit(c.args[0], !pos)
		return
	}
	if c.op == OTrue || c.op == OFalse {
		return
	}
	if c.op == OAnd && pos || c.op == OOr && !pos {
		for _, a := range c.args {
			k.addLit(a, pos)
		}
		return
	}
	k.lits[c] = pos
	if c.op == OLe0 || c.op == OEq0 && pos {
		key, p := linKey(c.args[0])
		b := k.lin[key]
		if b == nil {
			b = &linBound{}
			k.lin[key] = b
		}
		var n iv
		if c.op == OEq0 {
			v := bi(0).Neg(p.k)
			n = iv{v, v}
		} else if pos {
			n = iv{nil, bi(0).Neg(p.k)}
		} else {
			n = iv{bi(0).Sub(bi1, p.k), nil}
		}
		b.iv = ivInter(b.iv, n)
	}
}

// lookup decides a literal.
func (k *knownSet) lookup(t *Term) *Term {
	if v, ok := k.lits[t]; ok {
		return boolT(v)
	}
	if (t.op == OLe0 || t.op == OEq0) && len(k.lin) > 0 {
		key, p := linKey(t.args[0])
		if b, ok := k.lin[key]; ok {
			// form in [lo,hi]
			if t.op == OLe0 {
				lim := bi(0).Neg(p.k) // form <= lim ?
				if b.hi != nil && b.hi.Cmp(lim) <= 0 {
					return tTrue
				}
				if b.lo != nil && b.lo.Cmp(lim) > 0 {
					return tFalse
				}
			} else {
				v := bi(0).Neg(p.k)
				if b.lo != nil && b.lo.Cmp(v) > 0 || b.hi != nil && b.hi.Cmp(v) < 0 {
					return tFalse
				}
				if b.lo != nil && b.hi != nil && b.lo.Cmp(v) == 0 && b.hi.Cmp(v) == 0 {
					return tTrue
				}
			}
		}
	}
	return nil
}

func (k *knownSet) simp(t *Term) *Term {
	if t.sort == SBool {
		if r := k.lookup(t); r != nil {
			return r
		}
	}
	if len(t.args) == 0 || t.op == OAll {
		return t
	}
	if r, ok := k.memo[t]; ok {
		return r
	}
	if t.op == OIte {
		c := k.simp(t.args[0])
		if c == tTrue {
			r := k.simp(t.args[1])
			k.memo[t] = r
			return r
		}
		if c == tFalse {
			r := k.simp(t.args[2])
			k.memo[t] = r
			return r
		}
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = k.simp(a)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
		if r.sort == SBool && r != t {
			if q := k.lookup(r); q != nil {
				r = q
			}
		}
	}
	k.memo[t] = r
	return r
}

func (x *Exec) simp(t, pc *Term) *Term {
	if pc == tTrue || pc == tFalse {
		return t
	}
	return getKnown(pc).simp(t)
}

func (x *Exec) simpVal(v Val, pc *Term) Val {
	if pc == tTrue || v == nil {
		return v
	}
	k := getKnown(pc)
	if s, ok := v.(*VStr); ok {
		n := k.simp(s.sid)
		if n == s.sid {
			return v
		}
		return &VStr{n}
	}
	return mapVal(v, func(i int, t *Term) *Term { return k.simp(t) })
}

func (x *Exec) get(fr *Frame, v ssa.Value, pc *Term) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &VFunc{fn: c}
	case *ssa.Global:
		return x.globalPtr(c)
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("value %s (%s) undefined in %s", v.Name(), v, fr.fn))
	}
	return x.simpVal(r, pc)
}

func (x *Exec) term(fr *Frame, v ssa.Value, pc *Term) *Term {
	r := x.get(fr, v, pc)
	t, ok := r.(*Term)
	if !ok {
		unsup("expected scalar, got %T for %s", r, v)
	}
	return t
}
