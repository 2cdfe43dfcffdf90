package main

// Contracts: verification of units and modular calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type CallObs struct{}

func (x *Exec) hasTag(tags []string) bool {
	if len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == x.prop || strings.HasPrefix(x.prop, t) {
			return true
		}
	}
	return false
}

func (x *Exec) clauseActive(c *Clause) bool { return x.hasTag(c.tags) }

func (x *Exec) useContract(c *Contract) bool { return !c.inline }

func (pr *Proj) clausesOf(fn *ssa.Function, kind string) []*Clause {
	c := pr.contracts[fn]
	if c == nil {
		return nil
	}
	var out []*Clause
	for _, cl := range c.clauses {
		if cl.kind == kind {
			out = append(out, cl)
		}
	}
	return out
}

// loopInvariants: the invariants of the function's own contract; for a function executed
// inline without a contract those of the unit under verification, at any of its loops.
func (pr *Proj) loopInvariants(x *Exec, fn *ssa.Function) []*Clause {
	if pr.contracts[fn] == nil && x.contract != nil {
		var out []*Clause
		for _, cl := range x.contract.clauses {
			if cl.kind == "invariant" {
				c := *cl
				c.loop = -1
				out = append(out, &c)
			}
		}
		return out
	}
	return pr.clausesOf(fn, "invariant")
}
func (pr *Proj) loopSteps(x *Exec, fn *ssa.Function) []*Clause { return pr.clausesOf(fn, "step") }

func (x *Exec) baseCtx(fn *ssa.Function, st *State, pc *Term) *evalCtx {
	c := &evalCtx{x: x, st: st, pc: pc, let: map[string]SVal{}}
	f := fn
	for f != nil && f.Pkg == nil && f.Parent() != nil {
		f = f.Parent()
	}
	if f != nil && f.Pkg != nil {
		c.pkg = f.Pkg.Pkg
	}
	return c
}

func indexOf(l []string, s string) int {
	for i, e := range l {
		if e == s {
			return i
		}
	}
	return -1
}

// frameCtx resolves names inside a running frame: contract parameter names, Go
// parameter names, then local variables.
func (x *Exec) frameCtx(fr *Frame, st *State, pc *Term) *evalCtx {
	c := x.baseCtx(fr.fn, st, pc)
	c.fresh0 = fr.entryStamp
	con := x.pr.contracts[fr.fn]
	var cur *ssa.BasicBlock
	if n := len(fr.active); n > 0 {
		cur = fr.active[n-1].loop.header
	}
	params := func(n string) (SVal, bool) {
		if con != nil {
			if i := indexOf(con.params, n); i >= 0 && i < len(fr.args) {
				return SVal{fr.args[i], fr.fn.Params[i].Type()}, true
			}
		}
		for i, p := range fr.fn.Params {
			if p.Name() == n {
				return SVal{fr.args[i], p.Type()}, true
			}
		}
		return SVal{}, false
	}
	ghost := func(n string) (SVal, bool) {
		if x.contract != nil {
			if v, ok := x.ghosts[x.contract][n]; ok {
				return v, true
			}
		}
		return SVal{}, false
	}
	var outer *evalCtx
	if fr.parent != nil && con == nil {
		outer = x.frameCtx(fr.parent, st, pc)
	}
	c.names = func(n string) (SVal, bool) {
		// loop variables of enclosing loops (innermost first)
		for i := len(fr.active) - 1; i >= 0; i-- {
			for _, in := range fr.active[i].loop.header.Instrs {
				if p, ok := in.(*ssa.Phi); ok && p.Comment == n {
					if v, ok := fr.env[p]; ok {
						return SVal{v, p.Type()}, true
					}
				}
			}
		}
		if v, ok := x.localVar(fr, n, cur, st, 0); ok {
			return v, true
		}
		if v, ok := params(n); ok {
			return v, true
		}
		if outer != nil {
			return outer.names(n)
		}
		return ghost(n)
	}
	old := *c
	old.st = fr.entrySt
	old.names = func(n string) (SVal, bool) {
		if v, ok := params(n); ok {
			return v, true
		}
		return ghost(n)
	}
	c.old = &old
	if outer != nil {
		c.old = outer.old
	}
	return c
}

// callCtx resolves names at the instruction being executed in fr.
func (x *Exec) callCtx(fr *Frame, st *State, pc *Term) *evalCtx {
	c := x.frameCtx(fr, st, pc)
	c.iters = map[int]*Term{}
	for d, lr := range fr.active {
		c.iters[d] = lr.iter
	}
	base := c.names
	c.names = func(n string) (SVal, bool) {
		if v, ok := x.localVar(fr, n, fr.curB, st, fr.curI); ok {
			return v, true
		}
		return base(n)
	}
	return c
}

// localVar finds the value of a source variable at block cur.
// With upto > 0 the first upto instructions of cur count as executed.
func (x *Exec) localVar(fr *Frame, n string, cur *ssa.BasicBlock, st *State, upto int) (SVal, bool) {
	var best ssa.Value
	var bb *ssa.BasicBlock
	isAddr := false
	for _, b := range fr.rpo {
		if cur != nil && !b.Dominates(cur) {
			continue
		}
		for at, in := range b.Instrs {
			if upto > 0 && b == cur && at >= upto {
				break
			}
			switch i := in.(type) {
			case *ssa.Alloc:
				if i.Comment == n {
					if _, ok := fr.env[i]; ok {
						best, bb, isAddr = i, b, true
					}
				}
			case *ssa.Phi:
				if i.Comment == n && (b != cur || upto > 0) {
					if _, ok := fr.env[i]; ok {
						best, bb, isAddr = i, b, false
					}
				}
			case *ssa.DebugRef:
				if b == cur && upto == 0 {
					continue
				}
				if o := i.Object(); o != nil && o.Name() == n {
					if isAddr {
						continue
					}
					v := i.X
					if i.IsAddr {
						if _, ok := fr.env[v]; ok {
							best, bb, isAddr = v, b, true
						}
						continue
					}
					if _, isc := v.(*ssa.Const); isc {
						best, bb, isAddr = v, b, false
						continue
					}
					if _, ok := fr.env[v]; ok {
						best, bb, isAddr = v, b, false
					}
				}
			}
		}
	}
	_ = bb
	if best == nil {
		for i, f := range fr.fn.FreeVars {
			if f.Name() == n && i < len(fr.free) {
				pt, ok := f.Type().Underlying().(*types.Pointer)
				if ok {
					l := asLoc(fr.free[i], pt.Elem())
					if o, ok := l.(objPtr); ok {
						return SVal{o, pt.Elem()}, true
					}
					return SVal{st.loadLoc(l), pt.Elem()}, true
				}
				return SVal{fr.free[i], f.Type()}, true
			}
		}
		return SVal{}, false
	}
	if isAddr {
		t := deref(best.Type())
		l := asLoc(fr.env[best], t)
		if o, ok := l.(objPtr); ok {
			return SVal{o, t}, true
		}
		if a, ok := l.(*VArrPtr); ok {
			return SVal{a, t}, true
		}
		return SVal{st.loadLoc(l), t}, true
	}
	if c, ok := best.(*ssa.Const); ok {
		return SVal{x.constVal(c), c.Type()}, true
	}
	return SVal{fr.env[best], best.Type()}, true
}

// ---- contexts for pre/postconditions

func (x *Exec) contractCtx(c *Contract, fn *ssa.Function, sig *types.Signature, args []Val, pre, post *State, vals []Val, pc *Term, stamp int) *evalCtx {
	ec := x.baseCtx(fn, post, pc)
	ec.fresh0 = stamp
	ptypes := sigParamTypes(fn, sig)
	pn := func(n string) (SVal, bool) {
		if i := indexOf(c.params, n); i >= 0 && i < len(args) {
			return SVal{args[i], ptypes[i]}, true
		}
		if fn != nil {
			for i, p := range fn.Params {
				if p.Name() == n && i < len(args) {
					return SVal{args[i], p.Type()}, true
				}
			}
		}
		return SVal{}, false
	}
	pn0 := pn
	pn = func(n string) (SVal, bool) {
		if v, ok := pn0(n); ok {
			return v, true
		}
		v, ok := x.ghosts[c][n]
		return v, ok
	}
	rs := sig.Results()
	ec.names = func(n string) (SVal, bool) {
		if vals != nil {
			if i := indexOf(c.results, n); i >= 0 && i < len(vals) {
				return SVal{vals[i], rs.At(i).Type()}, true
			}
			if n == "result" && len(vals) >= 1 {
				return SVal{vals[0], rs.At(0).Type()}, true
			}
			if strings.HasPrefix(n, "result") {
				var k int
				if _, err := fmt.Sscanf(n, "result%d", &k); err == nil && k < len(vals) {
					return SVal{vals[k], rs.At(k).Type()}, true
				}
			}
			if n == "err" && len(vals) > 0 {
				return SVal{vals[len(vals)-1], rs.At(len(vals) - 1).Type()}, true
			}
		}
		return pn(n)
	}
	if pre != nil {
		o := *ec
		o.st = pre
		o.names = pn
		ec.old = &o
	}
	return ec
}

func sigParamTypes(fn *ssa.Function, sig *types.Signature) []types.Type {
	var ts []types.Type
	if fn != nil {
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		return ts
	}
	ts = append(ts, nil) // the function value itself
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

// safeEval evaluates a clause, turning evaluation problems into an error.
func safeEval(f func() *Term) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case specErr:
				err = u
			case unsupported:
				err = specErr(u.msg)
			default:
				panic(r)
			}
		}
	}()
	return f(), nil
}

type outCell struct {
	get func() *Term
	set func(*Term)
}

// modTarget describes one modifies entry.
type modTarget struct {
	key  string // family+suffix; "" matches every family of the object
	args []*Term
	lo   *Term
	hi   *Term
	root *Term // whole object graph below this root
	leaf Leaf
	any  bool // the whole family
}

func (c *evalCtx) modTargets(e *SExpr) []modTarget {
	switch e.op {
	case "id":
		if e.s == "bytes" {
			// the contents of any byte slice
			return []modTarget{{key: "E:uint8", any: true}}
		}
	case "call":
		if e.s == "pos" {
			return []modTarget{{key: "G:pos", args: []*Term{boxOf(c.eval(e.args[0]))}, leaf: posLeaf}}
		}
		if e.s == "ghost" {
			return nil
		}
		if e.s == "array" {
			// the whole array behind a slice
			v := c.eval(e.args[0])
			sl := v.v.(*VSlice)
			et := v.t.Underlying().(*types.Slice).Elem()
			if isAgg(et) {
				return []modTarget{{root: sl.base}}
			}
			var out []modTarget
			for _, l := range leavesOf(et) {
				out = append(out, modTarget{key: elemFam(et) + l.suffix, args: []*Term{sl.base}, leaf: l})
			}
			return out
		}
		if e.s == "every" && e.args[0].op == "field" {
			// that field of any object of the type
			f := e.args[0]
			name := f.args[0].s
			if f.args[0].op == "field" {
				name = f.args[0].args[0].s + "." + f.args[0].s
			}
			t := c.typeByName(name)
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f.s {
					out := c.locTargets(c.st.fieldPtr(t, i, namedSym("any", SInt, bi1, nil)), st.Field(i).Type())
					for j := range out {
						out[j].any, out[j].args = true, nil
					}
					return out
				}
			}
			serr("no field %s", f.s)
		}
	case "all":
		v := c.eval(e.args[0])
		switch s := v.v.(type) {
		case *VSlice:
			et := v.t.Underlying().(*types.Slice).Elem()
			if isAgg(et) {
				return []modTarget{{root: s.base}}
			}
			var out []modTarget
			for _, l := range leavesOf(et) {
				out = append(out, modTarget{key: elemFam(et) + l.suffix, args: []*Term{s.base}, lo: s.off, hi: Add(s.off, s.ln), leaf: l})
			}
			return out
		case *Term:
			if mt, ok := v.t.Underlying().(*types.Map); ok {
				out := []modTarget{{key: mapFam(mt) + ".has", args: []*Term{s}, leaf: Leaf{SBool, nil, nil, ""}}}
				for _, l := range mapCells(mt) {
					out = append(out, modTarget{key: mapFam(mt) + l.suffix, args: []*Term{s}, leaf: l})
				}
				return out
			}
		}
		serr("modifies %T[*]", v.v)
	case "un":
		if e.s == "*" {
			p := c.eval(e.args[0])
			t := p.t.Underlying().(*types.Pointer).Elem()
			return c.locTargets(asLoc(p.v, t), t)
		}
	case "field":
		b := c.eval(e.args[0])
		t := b.t
		var r *Term
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
			r = ptrRef(b.v)
		} else if o, ok := b.v.(objPtr); ok {
			r = o.r
		}
		if r == nil {
			serr("modifies field of %T", b.v)
		}
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.s {
				return c.locTargets(c.st.fieldPtr(t, i, r), st.Field(i).Type())
			}
		}
		serr("no field %s", e.s)
	}
	serr("bad modifies")
	return nil
}

func (c *evalCtx) locTargets(p Val, t types.Type) []modTarget {
	switch q := p.(type) {
	case objPtr:
		var out []modTarget
		u := q.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, c.locTargets(c.st.fieldPtr(q.t, i, q.r), u.Field(i).Type())...)
		}
		return out
	case *VLoc:
		var out []modTarget
		for _, l := range leavesOf(q.typ) {
			out = append(out, modTarget{key: q.fam + l.suffix, args: q.args, leaf: l})
		}
		return out
	case *VArrPtr:
		if isAgg(q.arr.Elem()) {
			return []modTarget{{root: q.base}}
		}
		var out []modTarget
		for _, l := range leavesOf(q.arr.Elem()) {
			out = append(out, modTarget{key: elemFam(q.arr.Elem()) + l.suffix, args: []*Term{q.base}, leaf: l})
		}
		return out
	}
	serr("modifies target %T", p)
	return nil
}

func (x *Exec) modsOf(c *Contract, ec *evalCtx) []modTarget {
	var out []modTarget
	for _, cl := range c.clauses {
		if cl.kind != "modifies" || cl.src == "anything" || !x.clauseActive(cl) {
			continue
		}
		for _, m := range cl.mods {
			out = append(out, ec.modTargets(m)...)
		}
	}
	return out
}

// signature of the function, or of the function type with the function value in front.
func (c *Contract) signature() *types.Signature {
	if c.fn != nil {
		return c.fn.Signature
	}
	if c.sig == nil {
		sig := c.ftype.Underlying().(*types.Signature)
		ps := []*types.Var{types.NewParam(token.NoPos, nil, "f", c.ftype)}
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, sig.Params().At(i))
		}
		c.sig = types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), false)
	}
	return c.sig
}

// contractCall replaces a call by the callee's contract.
func (x *Exec) contractCall(fr *Frame, c *Contract, args []Val, pos token.Pos, pc *Term, st *State) ([]Val, *Term) {
	x.usedContracts[c.name] = true
	sig := c.signature()
	pre := st.clone()
	insts := []map[string]SVal{nil}
	each := map[string]bool{}
	if len(c.ghosts) > 0 {
		was := x.ghosts[c]
		insts, each = x.giveGhosts(fr, c, pc, st)
		x.ghosts[c] = insts[0]
		defer func() { x.ghosts[c] = was }()
	}
	ec0 := x.contractCtx(c, c.fn, sig, args, nil, pre, nil, pc, stampCt)
	for _, cl := range c.clauses {
		if cl.kind != "requires" || !x.clauseActive(cl) {
			continue
		}
		t, err := safeEval(func() *Term { return ec0.formula(cl.e) })
		if err != nil {
			unsup("precondition %q of %s: %v", cl.src, c.name, err)
		}
		for _, g := range conjuncts(t) {
			if mentions(cl.e, each) || len(insts) > 1 && mentionsAny(cl.e, c.ghosts) {
				unsup("precondition %q of %s depends on a ghost given more than once", cl.src, c.name)
			}
			if len(cl.tags) > 0 || x.safety {
				x.oblige("pre", c.name+"{"+cl.src+"}"+x.snippet(pos), pos, pc, g)
			} else {
				x.assume(pc, g)
			}
		}
	}
	// frame
	mods, err := func() (m []modTarget, err error) {
		_, err = safeEval(func() *Term { m = x.modsOf(c, ec0); return tTrue })
		return
	}()
	if err != nil {
		unsup("modifies of %s: %v", c.name, err)
	}
	stampCt++
	callStamp := stampCt
	var eff map[string]bool
	if c.pure {
		eff = map[string]bool{}
	} else if c.fn != nil {
		eff = map[string]bool{}
		for k := range x.pr.effects(c.fn) {
			eff[k] = true
		}
	} else {
		eff = map[string]bool{}
	}
	if !c.pure {
		// (a function called through a value of a function type is not seen by effects)
		for _, m := range mods {
			if m.root == nil {
				eff[m.key] = true
			}
		}
	}
	freshSet := map[*Term]bool{}
	var outs []outCell
	anyBut := x.noFrame(c)
	except := x.exceptOf(c)
	for _, key := range sortedKeys(eff) {
		key := key
		anything := anyBut && !touches(key, except)
		leaf, ok := x.leafFor(key, st)
		if !ok {
			continue // family never materialised: reads go to the base heap of the new state
		}
		h0 := st.get2(key, leaf)
		stampCt++
		var regs []modTarget
		for _, m := range mods {
			if m.key == key || m.root != nil {
				regs = append(regs, m)
			}
		}
		h := newHeap(&Heap{kind: hHavoc, parent: h0, leaf: h0.leaf, name: h0.name0(), stamp: stampCt, frame: func(as []*Term) *Term {
			if anything || rootOf(as[0]).age() >= callStamp {
				return tFalse
			}
			if anyBut {
				if allWithin(key, as[0], except) {
					return tTrue
				}
				return tFalse
			}
			r := tTrue
			for _, m := range regs {
				var e *Term
				if m.any {
					return tFalse
				} else if m.root != nil {
					e = rootEq(as[0], m.root)
				} else {
					e = refEq(as[0], m.args[0])
					for k := 1; k < len(m.args) && k < len(as) && e != tFalse; k++ {
						e = And(e, Eq(as[k], m.args[k]))
					}
					if m.lo != nil && e != tFalse && len(as) > 1 {
						e = And(e, Le(m.lo, as[1]), Lt(as[1], m.hi))
					}
				}
				r = And(r, Not(e))
			}
			return r
		}})
		st.h[key] = h
		if anyBut && !anything {
			x.writes = append(x.writes, Write{key: key, pc: pc, ex: except})
		}
		if anything {
			x.writes = append(x.writes, Write{key: key, pc: pc})
		}
		for _, m := range regs {
			if m.any {
				x.writes = append(x.writes, Write{key: key, pc: pc})
				continue
			}
			w := Write{key: key, args: m.args, lo: m.lo, hi: m.hi, pc: pc}
			if m.root != nil {
				w.args = []*Term{m.root}
			}
			x.writes = append(x.writes, w)
			full := 1
			if key[0] == 'E' || key[0] == 'M' {
				full = 2
			}
			if m.root == nil && m.lo == nil && len(m.args) == full {
				m := m
				f := freshSym("m."+key, h0.leaf.sort, h0.leaf.lo, h0.leaf.hi)
				freshSet[f] = true
				st.h[key] = st.h[key].store(m.args, f)
				cur := f
				outs = append(outs, outCell{get: func() *Term { return cur }, set: func(t *Term) {
					cur = t
					st.h[key] = st.h[key].store(m.args, t)
				}})
			}
		}
	}
	vals := freshResults(shortName(c.name), sig.Results())
	vals = x.sharpen(c, vals)
	for i := range vals {
		i := i
		for k, t := range valTerms(vals[i]) {
			k := k
			freshSet[t] = true
			cur := t
			outs = append(outs, outCell{get: func() *Term { return cur }, set: func(n *Term) {
				cur = n
				ts := valTerms(vals[i])
				ts[k] = n
				vals[i] = rebuildVal(vals[i], ts)
			}})
		}
	}
	used := map[*Term]bool{}
	mention := func(t *Term) {
		collect([]*Term{t}, func(u *Term) {
			if u.op == OSym {
				used[u] = true
			}
		})
	}
	define := func(g, cur, val *Term) bool {
		if cur.op != OSym || !freshSet[cur] || cur == val {
			return false
		}
		dep := false
		collect([]*Term{val}, func(t *Term) {
			if t == cur {
				dep = true
			}
		})
		if dep {
			return false
		}
		n := val
		if g != tTrue {
			n = Ite(g, val, cur)
		}
		for _, o := range outs {
			if o.get() == cur {
				if used[cur] {
					// facts recorded earlier mention the symbol itself
					x.assumeN(pc, Implies(g, Eq(cur, val)), "ensures "+c.name)
				}
				mention(val)
				mention(g)
				o.set(n)
				delete(freshSet, cur)
				return true
			}
		}
		return false
	}
	type post struct {
		cl   *Clause
		inst int
	}
	var posts []post
	for i := range insts {
		for _, cl := range c.clauses {
			if cl.kind != "ensures" && cl.kind != "assumes" || !x.clauseActive(cl) {
				continue
			}
			if i > 0 && !mentionsAny(cl.e, c.ghosts) {
				continue
			}
			posts = append(posts, post{cl, i})
		}
	}
	for _, pp := range posts {
		cl := pp.cl
		if len(c.ghosts) > 0 {
			x.ghosts[c] = insts[pp.inst]
		}
		if mentions(cl.e, each) {
			// holds for every value of the ghost
			ec := x.contractCtx(c, c.fn, sig, args, pre, st, vals, pc, callStamp-1)
			ec.depth = 1
			t, err := safeEval(func() *Term { return ec.formula(cl.e) })
			if err != nil {
				unsup("postcondition %q of %s: %v", cl.src, c.name, err)
			}
			t = Forall(boundVar(0), t)
			if t.op == OAll {
				eachQuants[t] = true
			}
			mention(t)
			x.assumeN(pc, t, "ensures "+c.name)
			continue
		}
		if cl.kind == "assumes" {
			x.note("assumed about " + c.name + ": " + cl.src)
		}
		ec := x.contractCtx(c, c.fn, sig, args, pre, st, vals, pc, callStamp-1)
		// definitional form G ==> lhs == rhs
		body := cl.e
		var gs []*SExpr
		for body.op == "bin" && body.s == "==>" {
			gs = append(gs, body.args[0])
			body = body.args[1]
		}
		_, err := safeEval(func() *Term {
			g := tTrue
			for _, e := range gs {
				g = And(g, ec.formula(e))
			}
			g = x.simp(g, pc)
			if g == tFalse {
				return nil
			}
			var defs func(b *SExpr)
			defs = func(b *SExpr) {
				if b.op == "bin" && b.s == "&&" {
					defs(b.args[0])
					ec = x.contractCtx(c, c.fn, sig, args, pre, st, vals, pc, callStamp-1)
					defs(b.args[1])
					ec = x.contractCtx(c, c.fn, sig, args, pre, st, vals, pc, callStamp-1)
					return
				}
				if b.op == "call" && b.s == "fresh" {
					v := ec.eval(b.args[0])
					var base *Term
					switch s := v.v.(type) {
					case *VSlice:
						base = s.base
					case *Term:
						base = s
					case *VIface:
						base = s.box
					}
					if base != nil && freshSet[base] {
						if define(g, base, freshRoot("new")) {
							return
						}
					}
					if base != nil && base.root {
						return
					}
				}
				if b.op == "bin" && (b.s == "==" || b.s == "<=>" || b.s == "<==>") {
					l, r := ec.load(ec.eval(b.args[0])), ec.load(ec.eval(b.args[1]))
					if isNilT(r) {
						if i, ok := l.v.(*VIface); ok && define(g, i.tag, C(0)) {
							return
						}
					} else {
						lt, rt := valTerms(l.v), valTerms(r.v)
						if len(lt) == len(rt) && len(lt) > 0 && fmt.Sprintf("%T", l.v) == fmt.Sprintf("%T", r.v) {
							all := true
							for i := range lt {
								if lt[i].sort != rt[i].sort || lt[i] != rt[i] && !(lt[i].op == OSym && freshSet[lt[i]]) {
									all = false
								}
							}
							if all {
								for i := range lt {
									define(g, lt[i], rt[i])
								}
							}
							// cells of an object the callee created
							for i := range lt {
								x.defineCell(st, g, x.simp(lt[i], And(pc, g)), rt[i], callStamp)
							}
						}
					}
				}
				t := ec.formula(b)
				mention(t)
				mention(g)
				x.assumeN(pc, Implies(g, t), "ensures "+c.name)
			}
			defs(body)
			return nil
		})
		if err != nil {
			unsup("postcondition %q of %s: %v", cl.src, c.name, err)
		}
	}
	if x.dry == 0 && x.houd == 0 {
		if x.callRec == nil {
			x.callRec = map[string][][3][]SVal{}
		}
		var rec [3][]SVal
		for i, a := range args {
			var t types.Type
			if c.fn != nil {
				t = c.fn.Params[i].Type()
			}
			rec[0] = append(rec[0], SVal{a, t})
		}
		for i, v := range vals {
			rec[1] = append(rec[1], SVal{v, sig.Results().At(i).Type()})
		}
		rec[2] = []SVal{{pc, types.Typ[types.Bool]}}
		x.callRec[c.name] = append(x.callRec[c.name], rec)
	}
	return vals, pc
}

// giveGhosts instantiates the ghost parameters of a callee from the give clauses of the
// unit (one map per numbered instance); a ghost that is not given is an arbitrary value,
// a ghost given as "each" stands for all values at once.
func (x *Exec) giveGhosts(fr *Frame, c *Contract, pc *Term, st *State) ([]map[string]SVal, map[string]bool) {
	ms := []map[string]SVal{{}}
	each := map[string]bool{}
	for _, g := range c.ghosts {
		for _, cl := range x.contract.clauses {
			if cl.kind != "give" || cl.ghost != g || !x.clauseActive(cl) || cl.callee != c.name && !strings.HasSuffix(c.name, "."+cl.callee) {
				continue
			}
			for len(ms) <= cl.inst {
				ms = append(ms, map[string]SVal{})
			}
			if cl.e.op == "id" && cl.e.s == "each" {
				each[g] = true
				continue
			}
			ec := x.callCtx(fr, st, pc)
			_, err := safeEval(func() *Term { ms[cl.inst][g] = ec.load(ec.eval(cl.e)); return tTrue })
			if err != nil {
				delete(ms[cl.inst], g)
				if traceLoops {
					fmt.Fprintf(os.Stderr, "  give %q not applicable: %v\n", cl.src, err)
				}
			}
		}
	}
	if len(each) > 1 {
		unsup("more than one ghost of %s given as each", c.name)
	}
	for _, g := range c.ghosts {
		for i := range ms {
			if each[g] {
				ms[i][g] = SVal{boundVar(0), nil}
			} else if _, ok := ms[i][g]; !ok {
				ms[i][g] = SVal{freshSym("ghost."+g, SInt, nil, nil), nil}
			}
		}
	}
	return ms, each
}

// mentions: one of the names occurs in the expression.
func mentions(e *SExpr, names map[string]bool) bool {
	if e == nil || len(names) == 0 {
		return false
	}
	if e.op == "id" && names[e.s] {
		return true
	}
	for _, a := range e.args {
		if mentions(a, names) {
			return true
		}
	}
	return false
}

func mentionsAny(e *SExpr, names []string) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return mentions(e, m)
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// sharpen narrows intervals of fresh results from declared bounds; error results use
// a two-valued tag.
func (x *Exec) sharpen(c *Contract, vals []Val) []Val {
	for i, v := range vals {
		if f, ok := v.(*VIface); ok {
			sig := c.signature()
			if types.Identical(sig.Results().At(i).Type(), errorType) {
				ok := freshSym("ok."+shortName(c.name), SBool, nil, nil)
				vals[i] = &VIface{Ite(ok, C(0), errTag), f.box}
			}
		}
	}
	return vals
}

func (s *State) get2(key string, l Leaf) *Heap {
	if h, ok := s.h[key]; ok {
		return h
	}
	h := baseHeap(key, Leaf{l.sort, l.lo, l.hi, ""})
	s.h[key] = h
	return h
}

// leafFor finds the leaf description of a family key.
func (x *Exec) leafFor(key string, st *State) (Leaf, bool) {
	if l, ok := famLeaf[key]; ok {
		return l, true
	}
	if h, ok := st.h[key]; ok {
		return h.leaf, true
	}
	if strings.HasPrefix(key, "G:") {
		return posLeaf, true
	}
	return Leaf{}, false
}

// ---- solving one goal

func (x *Exec) assemble(pc, goal *Term, facts []Fact) []*Term {
	goal = x.simp(goal, pc)
	if goal == tTrue {
		return []*Term{tFalse}
	}
	var asserts []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != tTrue && !seen[t] {
			seen[t] = true
			asserts = append(asserts, t)
		}
	}
	type pf struct {
		t    *Term
		syms map[*Term]bool
	}
	for _, f := range facts {
		g := f.pc
		if g != pc {
			g = x.simp(g, pc)
		} else {
			g = tTrue
		}
		if g == tFalse {
			continue
		}
		t := x.simp(f.f, pc)
		if t == tTrue {
			continue
		}
		add(Implies(g, t))
	}
	add(pc)
	add(Not(goal))
	return asserts
}

func (x *Exec) solveGoal(pc, goal *Term, facts []Fact, quick, full time.Duration, name string, fuel, rounds int) Result {
	as := x.assemble(pc, goal, facts)
	ps := prepare(as, fuel, rounds)
	return solve(ps, quick, full, name)
}

// ---- verification of a unit

func (x *Exec) symArgs(fn *ssa.Function, c *Contract) []Val {
	var args []Val
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(c.params) {
			n = c.params[i]
		}
		v := symVal("p."+n, p.Type())
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if _, isArr := pt.Elem().Underlying().(*types.Array); isArr {
				unsup("array pointer parameter")
			}
		}
		args = append(args, v)
	}
	return args
}

func narrow(t *Term) {
	for _, c := range conjuncts(t) {
		pos := true
		l := c
		if l.op == ONot {
			pos = false
			l = l.args[0]
		}
		if l.op != OLe0 {
			continue
		}
		p := toPoly(l.args[0])
		if len(p.m) != 1 {
			continue
		}
		for s, k := range p.m {
			if s.op != OSym || k.CmpAbs(bi1) != 0 {
				continue
			}
			// k*s + c <= 0 (pos)  or > 0
			up := (k.Sign() > 0) == pos
			v := bi(0).Neg(p.k)
			if k.Sign() < 0 {
				v = bi(0).Set(p.k)
			}
			if pos {
				// s <= -c (k>0) or s >= c (k<0)
			} else if k.Sign() > 0 {
				v = bi(0).Add(v, bi1) // s > -c
			} else {
				v = bi(0).Sub(v, bi1) // s < c
			}
			if up {
				if s.hi == nil || v.Cmp(s.hi) < 0 {
					s.hi, s.dhi = v, v
				}
			} else if s.lo == nil || v.Cmp(s.lo) > 0 {
				s.lo, s.dlo = v, v
			}
		}
	}
}

func (x *Exec) verifyUnit(c *Contract) (err error) {
	opaqueDefs = map[string]bool{}
	for _, n := range c.opaque {
		opaqueDefs["spec:"+n] = true
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			if u, ok := r.(specErr); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	fn := c.fn
	x.unit = shortUnit(c.name)
	x.contract = c
	x.facts = nil
	x.writes = nil
	args := x.symArgs(fn, c)
	var free []Val
	for _, f := range fn.FreeVars {
		free = append(free, symVal("fv."+f.Name(), f.Type()))
	}
	st := &State{h: map[string]*Heap{}}
	x.ghosts = map[*Contract]map[string]SVal{c: {}}
	for _, g := range c.ghosts {
		x.ghosts[c][g] = SVal{freshSym("ghost."+g, SInt, nil, nil), nil}
	}
	if x.hasJoin(x.prop) {
		// no goroutine of this call is running yet
		x.assume(tTrue, Eq(st.join("go", C(1)), C(0)))
	}
	stamp0 := stampCt
	ec := x.contractCtx(c, fn, fn.Signature, args, nil, st, nil, tTrue, stamp0)
	pcs := []*Term{}
	for pass := 0; pass < 2; pass++ {
		pcs = nil
		for _, cl := range c.clauses {
			if cl.kind != "requires" || !x.clauseActive(cl) {
				continue
			}
			t := ec.formula(cl.e)
			if pass == 0 {
				narrow(t)
			}
			pcs = append(pcs, t)
		}
		for i, e := range c.cases {
			t := ec.formula(e)
			if x.caseMask>>i&1 == 1 {
				t = Not(t)
			}
			if pass == 0 {
				narrow(t)
				x.unit += "[" + map[bool]string{false: "+", true: "-"}[x.caseMask>>i&1 == 1] + "]"
			}
			pcs = append(pcs, t)
		}
		// values depending on narrowed symbols are re-simplified on the second pass
	}
	pc := And(pcs...)
	var simple []*Term
	for _, t := range conjuncts(pc) {
		if t.op == OAll || t.op == OOr && t.size > 30 {
			x.assumeN(tTrue, t, "requires")
		} else {
			simple = append(simple, t)
		}
	}
	pc = And(simple...)
	if pc == tFalse {
		return fmt.Errorf("precondition of %s is unsatisfiable", c.name)
	}
	x.entryPc = pc
	fr := x.newFrame(fn, args, free, pc, st.clone())
	x.root = fr
	x.run(fr, pc, st)
	x.rootFrame = fr
	// postconditions
	for _, cl := range c.clauses {
		if cl.kind != "ensures" || !x.clauseActive(cl) {
			continue
		}
		for _, r := range fr.rets {
			ec := x.contractCtx(c, fn, fn.Signature, args, fr.entrySt, r.st, r.vals, r.pc, stamp0)
			t, e := safeEval(func() *Term { return ec.formula(cl.e) })
			if e != nil {
				return fmt.Errorf("ensures %q: %v", cl.src, e)
			}
			if cl.e.op == "bin" && cl.e.s == "==>" {
				if x.live == nil {
					x.live = map[*Clause][]*Term{}
				}
				g, _ := safeEval(func() *Term { return ec.formula(cl.e.args[0]) })
				if _, ok := x.live[cl]; !ok {
					x.live[cl] = nil
				}
				if g = x.simp(g, r.pc); g != tFalse && r.pc != tFalse {
					x.live[cl] = append(x.live[cl], And(r.pc, g))
				}
			}
			t = x.simp(t, r.pc)
			for _, g := range conjuncts(t) {
				x.obligeQ("ensures", "{"+cl.src+"}", r.pos, r.pc, g)
			}
		}
	}
	// steps must have been seen
	for _, cl := range c.clauses {
		if (cl.kind == "step" || cl.kind == "exit") && x.clauseActive(cl) && x.stepSeen[cl.src] == 0 {
			x.obligeQ("step", "{"+cl.src+"} no loop matches", fn.Pos(), tTrue, tFalse)
		}
	}
	if x.sawGo {
		for _, r := range fr.rets {
			x.obligeQ("join", "every goroutine started has been waited for", r.pos, r.pc, Or(Eq(r.st.join("go", C(1)), C(0)), Eq(r.st.join("go", C(1)), fr.entrySt.join("go", C(1)))))
		}
	}
	// frame
	if !x.noFrame(c) || len(x.exceptOf(c)) > 0 {
		mods := x.modsOf(c, x.contractCtx(c, fn, fn.Signature, args, nil, fr.entrySt, nil, tTrue, stamp0))
		x.checkFrame(c, mods, stamp0)
	}
	return nil
}

// obligeQ does not assume the goal afterwards.
func (x *Exec) obligeQ(kind, desc string, pos token.Pos, pc, goal *Term) {
	n := len(x.facts)
	x.oblige(kind, desc, pos, pc, goal)
	x.facts = x.facts[:n:n]
}

func (x *Exec) noFrame(c *Contract) bool {
	for _, cl := range c.clauses {
		if cl.kind == "modifies" && cl.src == "anything" && x.clauseActive(cl) {
			return true
		}
	}
	return false
}

// exceptOf lists the types whose objects an "anything" clause leaves alone.
func (x *Exec) exceptOf(c *Contract) []*exType {
	var names []string
	any := false
	for _, cl := range c.clauses {
		if cl.kind == "modifies" && cl.src == "anything" && x.clauseActive(cl) {
			if !any {
				names = cl.except
			} else {
				var both []string
				for _, e := range cl.except {
					for _, n := range names {
						if n == e {
							both = append(both, e)
						}
					}
				}
				names = both
			}
			any = true
		}
	}
	var out []*exType
	ec := &evalCtx{x: x, pkg: x.ld.pkgs[modPath]}
	for _, n := range names {
		t := ec.typeByName(n)
		e := &exType{key: typeKey(t), embed: map[string]bool{}}
		var walk func(t types.Type)
		walk = func(t types.Type) {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					ft := u.Field(i).Type()
					if a, ok := ft.Underlying().(*types.Array); ok {
						ft = a.Elem()
						e.arrays = true
					}
					if _, ok := ft.Underlying().(*types.Struct); ok {
						e.embed[typeKey(ft)] = true
						walk(ft)
					}
				}
			}
		}
		walk(t)
		if e.arrays {
			serr("except %s: arrays inside", n)
		}
		out = append(out, e)
	}
	return out
}

func (x *Exec) unitExcept() []*exType {
	if x.contract == nil {
		return nil
	}
	return x.exceptOf(x.contract)
}

type exType struct {
	key    string
	embed  map[string]bool // struct types stored inside
	arrays bool
}

// within tells whether the cell key@ref lies in an object of the type: 1 yes, 0 no, -1 unknown.
func (e *exType) within(key string, ref *Term) int {
	if e.inMap(key) {
		return 1 // a map with values of the type
	}
	if !strings.HasPrefix(key, "F:") {
		return 0
	}
	k := key[2:]
	if strings.HasPrefix(k, e.key+".") {
		return 1
	}
	i := strings.LastIndex(k, ".")
	if j := strings.LastIndex(k, "/"); i > j {
		// strip the leaf suffix, if any
		for !e.embed[k[:i]] {
			i = strings.LastIndex(k[:i], ".")
			if i <= j {
				return 0
			}
		}
	}
	if i < 0 || !e.embed[k[:i]] {
		return 0
	}
	for b := ref; b != nil; b = b.args[0] {
		if !isCtor(b) {
			if b.root {
				return 0
			}
			return -1
		}
		if b.name == "eref" {
			return 0
		}
		o := b.name[len("sub:"):]
		o = o[:strings.LastIndex(o, ".")]
		if o == e.key {
			return 1
		}
		if !e.embed[o] {
			return 0
		}
	}
	return -1
}

func (e *exType) inMap(key string) bool {
	return strings.HasPrefix(key, "M:map[") && strings.Contains(key, "]"+e.key+".")
}

func withinAny(key string, ref *Term, es []*exType) int {
	r := 0
	for _, e := range es {
		switch e.within(key, ref) {
		case 1:
			return 1
		case -1:
			r = -1
		}
	}
	return r
}

func allWithin(key string, ref *Term, es []*exType) bool {
	var bs []*Term
	iteLeaves(ref, &bs)
	for _, b := range bs {
		if withinAny(key, b, es) != 1 {
			return false
		}
	}
	return true
}

func meetEx(a, b []*exType) []*exType {
	var out []*exType
	for _, p := range a {
		for _, q := range b {
			if p.key == q.key {
				out = append(out, p)
			}
		}
	}
	return out
}

// touches: the family may hold cells of an excepted object.
func touches(key string, es []*exType) bool {
	for _, e := range es {
		if strings.HasPrefix(key, "F:"+e.key+".") || e.inMap(key) {
			return true
		}
		for k := range e.embed {
			if strings.HasPrefix(key, "F:"+k+".") {
				return true
			}
		}
	}
	return false
}

func shortUnit(n string) string { return n }

func (x *Exec) checkFrame(c *Contract, mods []modTarget, stamp0 int) {
	seen := map[string]bool{}
	anyBut, except := x.noFrame(c), x.exceptOf(c)
	all := map[string]bool{}
	for _, m := range mods {
		if m.any {
			all[m.key] = true
		}
	}
	for _, w := range x.writes {
		if anyBut && !touches(w.key, except) || all[w.key] {
			continue
		}
		if len(w.args) == 0 && len(w.ex) > 0 && anyBut && len(meetEx(w.ex, except)) == len(except) {
			continue
		}
		if len(w.args) == 0 {
			// a callee that may modify anything
			k := fmt.Sprint("any ", w.key, w.pc.id)
			if !seen[k] {
				seen[k] = true
				x.obligeQ("frame", "anything in "+w.key, token.NoPos, w.pc, tFalse)
			}
			continue
		}
		var bases, conds []*Term
		iteLeavesG(w.args[0], tTrue, &bases, &conds)
		for bi, b := range bases {
			r := rootOf(b)
			if r.root && r.stamp > stamp0 {
				continue
			}
			if b.op == OConst {
				continue
			}
			if strings.HasPrefix(w.key, "G:z") {
				continue
			}
			if anyBut && withinAny(w.key, b, except) == 0 {
				continue
			}
			var alts []*Term
			for _, m := range mods {
				var e *Term
				if m.any {
					continue
				} else if m.root != nil {
					e = rootEq(b, m.root)
				} else if m.key != w.key {
					continue
				} else {
					e = refEq(b, m.args[0])
					for k := 1; k < len(m.args) && k < len(w.args); k++ {
						e = And(e, Eq(w.args[k], m.args[k]))
					}
					if m.lo != nil {
						if w.lo != nil {
							e = And(e, Or(Le(w.hi, w.lo), And(Le(m.lo, w.lo), Le(w.hi, m.hi))))
						} else if len(w.args) > 1 {
							e = And(e, Le(m.lo, w.args[1]), Lt(w.args[1], m.hi))
						}
					}
				}
				alts = append(alts, e)
			}
			// objects created later than entry but not provably new; nothing is stored through
			// a nil reference (a delete from a nil map does nothing, everything else panics)
			goal := Or(append(alts, Eq(b, C(0)))...)
			if r.stamp > stamp0 && !r.root {
				goal = Or(goal, App("isnew", SBool, nil, nil, r))
			}
			goal = Implies(conds[bi], goal)
			k := fmt.Sprint(w.key, goal.id, w.pc.id)
			if seen[k] {
				continue
			}
			seen[k] = true
			x.obligeQ("frame", w.key, token.NoPos, w.pc, goal)
		}
	}
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

func iteLeavesG(t, g *Term, out, gs *[]*Term) {
	if t.op == OIte {
		iteLeavesG(t.args[1], And(g, t.args[0]), out, gs)
		iteLeavesG(t.args[2], And(g, Not(t.args[0])), out, gs)
		return
	}
	for i, o := range *out {
		if o == t {
			(*gs)[i] = Or((*gs)[i], g)
			return
		}
	}
	*out = append(*out, t)
	*gs = append(*gs, g)
}

// defineCell stores val into the cell that t reads when it belongs to an object created
// since the stamp (its content is arbitrary until now, so this is no more than assuming it).
func (x *Exec) defineCell(st *State, g, t, val *Term, stamp int) {
	if t.op != OApp || len(t.args) != 1 || t == val {
		return
	}
	r := rootOf(t.args[0])
	if !r.root || r.stamp < stamp {
		return
	}
	i := strings.LastIndex(t.name, "'")
	if i < 0 {
		return
	}
	key := t.name[:i]
	h := st.h[key]
	if h == nil || !strings.HasPrefix(key, "F:") || h.sel(t.args) != t {
		return
	}
	dep := false
	collect([]*Term{val, g}, func(u *Term) { dep = dep || u == t })
	if dep {
		return
	}
	if g != tTrue {
		val = Ite(g, val, t)
	}
	st.h[key] = h.store(t.args, val)
}
