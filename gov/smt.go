package main

// Query preparation (quantifier instantiation, recursive-definition unfolding,
// arithmetic facts), SMT-LIB printing and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- substitution

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OApp:
		if t.name == "idiv" {
			return IDiv(as[0], as[1])
		}
		if t.name == "bitand" {
			return BitAnd(as[0], as[1])
		}
		if f, ok := appRewrite(t.name, as); ok {
			return f
		}
		return App(t.name, t.sort, t.dlo, t.dhi, as...)
	case OLin:
		p := poly{m: map[*Term]*big.Int{}, k: new(big.Int).Set(t.k)}
		for i, a := range as {
			p.add(a, t.coef[i])
		}
		return p.term()
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = Mul(r, a)
		}
		return r
	case ODiv:
		return Div(as[0], t.k)
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OLe0:
		return le0(as[0])
	case OEq0:
		return eq0(as[0])
	case OEqG:
		return Eq(as[0], as[1])
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OAll:
		return Forall(t.args[0], as[1])
	}
	panic("rebuild " + t.String())
}

// ---- recursive spec functions: name -> body (unfolded by the query preparer)

// opaque in the unit being verified
var opaqueDefs = map[string]bool{}

var recDefs = map[string]func(args []*Term) *Term{}

// extra facts to add whenever a term occurs in a query
var termFacts = map[*Term][]*Term{}

func addTermFact(t *Term, f *Term) {
	if f == tTrue {
		return
	}
	for _, o := range termFacts[t] {
		if o == f {
			return
		}
	}
	termFacts[t] = append(termFacts[t], f)
}

type Query struct {
	asserts []*Term // conjunction whose unsatisfiability is wanted
}

type prepared struct {
	asserts []*Term
	facts   []*Term
	quants  map[*Term]*Term // Forall -> bool symbol
}

func collect(ts []*Term, visit func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		visit(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

var skolemCache = map[*Term]*Term{}
var qsymCache = map[*Term]*Term{}

// quantifiers over a ghost given as each
var eachQuants = map[*Term]bool{}

const maxInst = 3000

// prepare turns the assertions into a quantifier-free over-approximation.
func prepare(asserts []*Term, fuel int, rounds int) []*Term {
	asserts = constEqs(asserts)
	var out []*Term
	have := map[*Term]bool{}
	quants := map[*Term]*Term{} // forall -> qsym
	var quantList []*Term
	var todo []*Term
	var absq func(t *Term) *Term
	memo := map[*Term]*Term{}
	absq = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == OAll {
			q, ok := quants[t]
			if !ok {
				q = qsymCache[t]
				if q == nil {
					q = freshSym("q", SBool, nil, nil)
					qsymCache[t] = q
				}
				quants[t] = q
				quantList = append(quantList, t)
				sk := skolemCache[t]
				if sk == nil {
					sk = freshSym("sk", SInt, nil, nil)
					skolemCache[t] = sk
				}
				todo = append(todo, Or(q, Not(subst(t.args[1], map[*Term]*Term{t.args[0]: sk}))))
			}
			r = q
		} else if len(t.args) == 0 {
			r = t
		} else {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = absq(a)
				if as[i] != a {
					ch = true
				}
			}
			r = t
			if ch {
				r = rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	todo = append(todo, asserts...)
	seenTerm := map[*Term]bool{}
	depth := map[*Term]int{}
	var groundApps []*Term
	var newApps []*Term
	flush := func() {
		for len(todo) > 0 {
			a := todo[0]
			todo = todo[1:]
			if a.op == OAnd {
				todo = append(todo, a.args...)
				continue
			}
			a = absq(a)
			if a.op == OAnd {
				todo = append(todo, a.args...)
				continue
			}
			if have[a] || a == tTrue {
				continue
			}
			have[a] = true
			out = append(out, a)
			var rec func(t *Term)
			rec = func(t *Term) {
				if seenTerm[t] {
					return
				}
				seenTerm[t] = true
				for _, f := range termFacts[t] {
					todo = append(todo, f)
				}
				if t.op == OApp {
					newApps = append(newApps, t)
					if d, ok := recDefs[t.name]; ok && depth[t] < fuel && !opaqueDefs[t.name] {
						body := d(t.args)
						collect([]*Term{body}, func(x *Term) {
							if x.op == OApp && !seenTerm[x] {
								if _, ok := recDefs[x.name]; ok {
									depth[x] = depth[t] + 1
								}
							}
						})
						todo = append(todo, Eq(t, body))
					}
				}
				for _, x := range t.args {
					rec(x)
				}
			}
			rec(a)
		}
	}
	flush()
	insts := map[string]bool{}
	ninst := 0
	for r := 0; r < rounds; r++ {
		groundApps = append(groundApps, newApps...)
		newApps = nil
		byName := map[string][]*Term{}
		for _, a := range groundApps {
			byName[a.name] = append(byName[a.name], a)
		}
		n0 := ninst
		for qi := 0; qi < len(quantList); qi++ {
			q := quantList[qi]
			v, body := q.args[0], q.args[1]
			var pats []*Term
			collect([]*Term{body}, func(t *Term) {
				if t.op == OApp && t.bnd && contains(t, v) {
					pats = append(pats, t)
				}
			})
			if eachQuants[q] {
				// instantiate for bytes that are looked at, not for every stream byte
				var ps []*Term
				for _, p := range pats {
					if p.name != "S" {
						ps = append(ps, p)
					}
				}
				if len(ps) > 0 {
					pats = ps
				}
			}
			add := func(val *Term) {
				if val.bnd || ninst >= maxInst {
					return
				}
				k := fmt.Sprintf("%d@%d", q.id, val.id)
				if insts[k] {
					return
				}
				insts[k] = true
				ninst++
				todo = append(todo, Or(Not(quants[q]), subst(body, map[*Term]*Term{v: val})))
			}
			if r == 0 {
				// the index a write in the body makes a case of
				collect([]*Term{body}, func(t *Term) {
					if t.op == OEq0 && t.bnd {
						if val := solveFor(t.args[0], v, C(0)); val != nil {
							add(val)
						}
					}
				})
			}
			for _, p := range pats {
				for _, g := range byName[p.name] {
					if len(g.args) != len(p.args) {
						continue
					}
					var val *Term
					ok := true
					for i := range p.args {
						pa, ga := p.args[i], g.args[i]
						if !pa.bnd {
							if pa != ga && i == 0 && len(p.args) > 1 {
								// different first argument (base): allow only when it may be equal
								if Eq(pa, ga) == tFalse {
									ok = false
									break
								}
								if rootDistinct(pa, ga) {
									ok = false
									break
								}
							}
							continue
						}
						if !contains(pa, v) {
							ok = false
							break
						}
						s := solveFor(pa, v, ga)
						if s == nil {
							// nested constructor e.g. eref(base, off+v)
							if pa.op == OApp && ga.op == OApp && pa.name == ga.name && len(pa.args) == len(ga.args) {
								for j := range pa.args {
									if pa.args[j].bnd {
										s = solveFor(pa.args[j], v, ga.args[j])
									} else if pa.args[j] != ga.args[j] && rootDistinct(pa.args[j], ga.args[j]) {
										s = nil
										break
									}
								}
							}
						}
						if s == nil {
							ok = false
							break
						}
						if val != nil && val != s {
							ok = false
							break
						}
						val = s
					}
					if ok && val != nil {
						add(val)
					}
				}
			}
		}
		flush()
		if ninst == n0 && len(newApps) == 0 {
			break
		}
	}
	// allocation times: an object allocated here is born at its stamp
	born := false
	var roots []*Term
	collect(out, func(t *Term) {
		if t.op == OApp && t.name == "born" {
			born = true
		}
		if t.root {
			roots = append(roots, t)
		}
	})
	if born {
		for _, t := range roots {
			out = append(out, Eq(App("born", SInt, nil, nil, t), C(int64(t.stamp))))
		}
	}
	return out
}

func rootDistinct(a, b *Term) bool {
	if a.root && b.root && a != b {
		return true
	}
	if a.root && b.age() < a.stamp {
		return true
	}
	if b.root && a.age() < b.stamp {
		return true
	}
	return false
}

// solveFor solves pa(v) == g for v when pa is linear in v with coefficient +-1.
func solveFor(pa, v, g *Term) *Term {
	if pa == v {
		return g
	}
	if pa.op != OLin {
		return nil
	}
	for i, a := range pa.args {
		if a == v {
			c := pa.coef[i]
			rest := Sub(pa, Scale(v, c))
			if rest.bnd && contains(rest, v) {
				return nil
			}
			if c.Cmp(bi1) == 0 {
				return Sub(g, rest)
			}
			if c.Cmp(bi(-1)) == 0 {
				return Sub(rest, g)
			}
			// divisible?
			d := Sub(g, rest)
			p := toPoly(d)
			ac := new(big.Int).Abs(c)
			if new(big.Int).Mod(p.k, ac).Sign() != 0 {
				return nil
			}
			for _, cc := range p.m {
				if new(big.Int).Mod(cc, ac).Sign() != 0 {
					return nil
				}
			}
			q := poly{m: map[*Term]*big.Int{}, k: new(big.Int).Quo(p.k, c)}
			for x, cc := range p.m {
				q.m[x] = new(big.Int).Quo(cc, c)
			}
			return q.term()
		}
	}
	return nil
}

// arithFacts: ranges of symbols/apps, products, symbolic divisions.
func arithFacts(asserts []*Term) []*Term {
	var facts []*Term
	have := map[*Term]bool{}
	addRaw := func(f *Term) {
		if f != tTrue && !have[f] {
			have[f] = true
			facts = append(facts, f)
		}
	}
	done := map[*Term]bool{}
	work := append([]*Term(nil), asserts...)
	for iter := 0; iter < 4 && len(work) > 0; iter++ {
		n0 := len(facts)
		var muls []*Term
		collect(work, func(t *Term) {
			if done[t] || t.bnd {
				return
			}
			done[t] = true
			switch t.op {
			case OApp:
				if t.name == "idiv" {
					a, b := t.args[0], t.args[1]
					bq := Mul(b, t)
					pos := Lt(C(0), b)
					addRaw(Or(Not(pos), And(Le(bq, a), Lt(a, Add(bq, b)))))
					addRaw(Or(Not(pos), Lt(a, C(0)), Le(C(0), t)))
					addRaw(Or(Not(pos), Lt(a, C(0)), Le(t, a)))
				}
			case OMul:
				muls = append(muls, t)
			}
			for _, pr := range products[t] {
				a, b := pr[0], pr[1]
				za, zb := Le(C(0), a), Le(C(0), b)
				addRaw(Or(Not(za), Not(zb), Le(C(0), t)))
				if !nonneg(a) || !nonneg(b) {
					addRaw(Or(za, Not(zb), Le(t, C(0))))
					addRaw(Or(Not(za), zb, Le(t, C(0))))
				}
			}
		})
		monoFacts(muls, addRaw)
		for _, t := range muls {
			if modest(t.lo) {
				addRaw(rawCmp(CB(t.lo), t))
			}
			if modest(t.hi) {
				addRaw(rawCmp(t, CB(t.hi)))
			}
			if len(t.args) == 2 {
				mccormick(t, t.args[0], t.args[1], addRaw)
			} else if len(t.args) == 3 {
				for i := 0; i < 3; i++ {
					rest := make([]*Term, 0, 2)
					for j, x := range t.args {
						if j != i {
							rest = append(rest, x)
						}
					}
					m := mulAtoms(rest[0], rest[1])
					mccormick(t, t.args[i], m, addRaw)
				}
			}
		}
		work = facts[n0:]
	}
	return facts
}

func rawCmp(a, b *Term) *Term {
	// a <= b without interval simplification
	p := toPoly(Sub(a, b))
	if len(p.m) == 0 {
		return boolT(p.k.Sign() <= 0)
	}
	return rawLe0(p.term())
}

func mccormick(t, a, b *Term, add func(*Term)) {
	lin := func(ca *big.Int, cb *big.Int, k *big.Int) *Term { // ca*a + cb*b + k
		return Add(Scale(a, ca), Scale(b, cb), CB(k))
	}
	al, ah, bl, bh := modest(a.lo), modest(a.hi), modest(b.lo), modest(b.hi)
	if al && bl {
		// t >= a.lo*b + b.lo*a - a.lo*b.lo
		add(rawCmp(lin(b.lo, a.lo, new(big.Int).Neg(new(big.Int).Mul(a.lo, b.lo))), t))
	}
	if ah && bh {
		add(rawCmp(lin(b.hi, a.hi, new(big.Int).Neg(new(big.Int).Mul(a.hi, b.hi))), t))
	}
	if ah && bl {
		add(rawCmp(t, lin(b.lo, a.hi, new(big.Int).Neg(new(big.Int).Mul(a.hi, b.lo)))))
	}
	if al && bh {
		add(rawCmp(t, lin(b.hi, a.lo, new(big.Int).Neg(new(big.Int).Mul(a.lo, b.hi)))))
	}
}

// ---- printing

func smtName(n string) string {
	return "|" + strings.ReplaceAll(strings.ReplaceAll(n, "|", "_"), "\\", "_") + "|"
}

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

var fpOps = map[string]string{}

type printer struct {
	sb    *bytes.Buffer
	names map[*Term]string
	decl  map[string]bool
	n     int
	rc    map[*Term]int
}

func (p *printer) count(t *Term) {
	p.rc[t]++
	if p.rc[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func (p *printer) declare(t *Term) {
	switch t.op {
	case OSym:
		if !p.decl[t.name] {
			p.decl[t.name] = true
			fmt.Fprintf(p.sb, "(declare-fun %s () %s)\n", smtName(t.name), t.sort.smt())
		}
	case OApp:
		if builtinFn(t.name) {
			return
		}
		sig := appSig(t)
		if !p.decl[sig] {
			p.decl[sig] = true
			var as []string
			for _, a := range t.args {
				as = append(as, a.sort.smt())
			}
			fmt.Fprintf(p.sb, "(declare-fun %s (%s) %s)\n", smtName(sig), strings.Join(as, " "), t.sort.smt())
		}
	}
}

func appSig(t *Term) string { return fmt.Sprintf("%s/%d", t.name, len(t.args)) }

func builtinFn(n string) bool {
	return strings.HasPrefix(n, "fp.") || strings.HasPrefix(n, "(_") || strings.HasPrefix(n, "(fp ")
}

func (p *printer) term(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.body(t)
	if len(t.args) > 0 && (p.rc[t] > 1 || len(s) > 400) && !t.bnd {
		p.n++
		n := fmt.Sprintf("t%d", p.n)
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, t.sort.smt(), s)
		p.names[t] = n
		return n
	}
	if len(t.args) == 0 {
		p.names[t] = s
	}
	return s
}

func (p *printer) body(t *Term) string {
	switch t.op {
	case OConst:
		return smtInt(t.k)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OSym:
		p.declare(t)
		return smtName(t.name)
	case OBnd:
		return t.name
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = p.term(a)
	}
	switch t.op {
	case OApp:
		p.declare(t)
		nm := smtName(appSig(t))
		if builtinFn(t.name) {
			nm = t.name
		}
		if len(as) == 0 {
			return nm
		}
		return "(" + nm + " " + strings.Join(as, " ") + ")"
	case OLin:
		var l []string
		for i, a := range as {
			c := t.coef[i]
			switch {
			case c.Cmp(bi1) == 0:
				l = append(l, a)
			default:
				l = append(l, "(* "+smtInt(c)+" "+a+")")
			}
		}
		if t.k.Sign() != 0 {
			l = append(l, smtInt(t.k))
		}
		if len(l) == 1 {
			return l[0]
		}
		return "(+ " + strings.Join(l, " ") + ")"
	case OMul:
		return "(* " + strings.Join(as, " ") + ")"
	case ODiv:
		return "(div " + as[0] + " " + t.k.String() + ")"
	case OIte:
		return "(ite " + strings.Join(as, " ") + ")"
	case OLe0:
		return p.cmp("<=", t.args[0])
	case OEq0:
		return p.cmp("=", t.args[0])
	case OEqG:
		return "(= " + as[0] + " " + as[1] + ")"
	case ONot:
		return "(not " + as[0] + ")"
	case OAnd:
		return "(and " + strings.Join(as, " ") + ")"
	case OOr:
		return "(or " + strings.Join(as, " ") + ")"
	case OAll:
		return "(forall ((" + t.args[0].name + " Int)) " + as[1] + ")"
	}
	panic("print")
}

// cmp prints poly <= 0 as pos <= neg.
func (p *printer) cmp(op string, t *Term) string {
	if t.op != OLin {
		return "(" + op + " " + p.term(t) + " 0)"
	}
	var l, r []string
	for i, a := range t.args {
		c := t.coef[i]
		s := p.term(a)
		ac := new(big.Int).Abs(c)
		if ac.Cmp(bi1) != 0 {
			s = "(* " + ac.String() + " " + s + ")"
		}
		if c.Sign() > 0 {
			l = append(l, s)
		} else {
			r = append(r, s)
		}
	}
	if t.k.Sign() > 0 {
		l = append(l, t.k.String())
	} else if t.k.Sign() < 0 {
		r = append(r, new(big.Int).Neg(t.k).String())
	}
	sum := func(x []string) string {
		switch len(x) {
		case 0:
			return "0"
		case 1:
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return "(" + op + " " + sum(l) + " " + sum(r) + ")"
}

// render prints a full query; quantified formulas must have been removed.
func render(asserts []*Term, getvals []*Term) (string, []string) {
	af := arithFacts(asserts)
	all := append(append([]*Term(nil), asserts...), af...)
	all = append(all, rangeFacts(all)...)
	p := &printer{sb: &bytes.Buffer{}, names: map[*Term]string{}, decl: map[string]bool{}, rc: map[*Term]int{}}
	p.sb.WriteString("(set-logic ALL)\n")
	for _, a := range all {
		p.count(a)
	}
	for _, a := range getvals {
		p.count(a)
	}
	for _, a := range all {
		s := p.term(a)
		fmt.Fprintf(p.sb, "(assert %s)\n", s)
	}
	var gv []string
	for _, g := range getvals {
		gv = append(gv, p.term(g))
	}
	p.sb.WriteString("(check-sat)\n")
	return p.sb.String(), gv
}

func rangeFacts(ts []*Term) []*Term {
	var out []*Term
	collect(ts, func(t *Term) {
		if (t.op == OSym || t.op == OApp) && !t.bnd && t.sort == SInt {
			if t.lo != nil {
				out = append(out, rawCmp(CB(t.lo), t))
			}
			if t.hi != nil {
				out = append(out, rawCmp(t, CB(t.hi)))
			}
		}
	})
	return out
}

// ---- solvers

type solverSpec struct {
	name string
	args []string
}

var (
	z3new = solverSpec{"z3-new", []string{"z3-new", "-in", "-smt2"}}
	// the same solver with its other arithmetic engine
	z3ar2 = solverSpec{"z3-new-a2", []string{"z3-new", "smt.arith.solver=2", "-in", "-smt2"}}
	z3old = solverSpec{"z3", []string{"z3", "-in", "-smt2"}}
	cvc5s = solverSpec{"cvc5", []string{"cvc5", "--lang=smt2", "-q", "--incremental"}}
)

var (
	statMu      sync.Mutex
	solverTime  = map[string]time.Duration{}
	solverCalls = map[string]int{}
	solverWins  = map[string]int{}
	solverSem   = make(chan struct{}, 10)
)

func runSolver(ctx context.Context, s solverSpec, q string, timeout time.Duration) string {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled"
	}
	defer func() { <-solverSem }()
	ctx2, cancel := context.WithTimeout(ctx, timeout+500*time.Millisecond)
	defer cancel()
	args := append([]string(nil), s.args[1:]...)
	switch s.name {
	case "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	default:
		secs := int(timeout.Seconds() + 0.999)
		if secs < 1 {
			secs = 1
		}
		args = append(args, fmt.Sprintf("-T:%d", secs))
	}
	cmd := exec.CommandContext(ctx2, s.args[0], args...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0)
	statMu.Lock()
	solverTime[s.name] += d
	solverCalls[s.name]++
	statMu.Unlock()
	return out.String()
}

func verdict(out string) string {
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown":
			return l
		case "timeout":
			return "unknown"
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l
		}
	}
	return "unknown"
}

type Result struct {
	status string // unsat, sat, unknown
	solver string
	out    string
	dur    time.Duration
}

var dumpDir = os.Getenv("GOV_DUMP")

// solve decides the conjunction of asserts. quick is the first-stage timeout, full
// the per-solver limit of the second stage.
func solve(asserts []*Term, quick, full time.Duration, name string) Result {
	return solveText(renderLocked(asserts), quick, full, name)
}

var termMu sync.Mutex

func renderLocked(asserts []*Term) string {
	termMu.Lock()
	defer termMu.Unlock()
	for _, a := range asserts {
		if a == tFalse {
			return "UNSAT"
		}
	}
	s, _ := render(asserts, nil)
	return s
}

func solveText1(q string, quick, full time.Duration, name string) Result {
	if q == "UNSAT" {
		return Result{status: "unsat", solver: "simplifier"}
	}
	t0 := time.Now()
	if dumpDir != "" {
		os.MkdirAll(dumpDir, 0o755)
		f := sanitize(name)
		if len(f) > 150 {
			h := uint32(0)
			for _, c := range name {
				h = h*31 + uint32(c)
			}
			f = fmt.Sprintf("%s.%x", f[:150], h)
		}
		os.WriteFile(dumpDir+"/"+f+".smt2", []byte(q), 0o644)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	v, out, who := runPair(ctx, q, quick)
	if strings.HasPrefix(v, "error") {
		fmt.Fprintln(os.Stderr, "solver error:", name, v)
	}
	if v == "unsat" || v == "sat" || full == 0 {
		win(who, v)
		return Result{v, who, out, time.Since(t0)}
	}
	type r struct {
		v, s, o string
	}
	specs := []solverSpec{z3new, z3ar2, cvc5s, z3old}
	ch := make(chan r, len(specs))
	for _, s := range specs {
		s := s
		go func() {
			o := runSolver(ctx, s, q, full)
			ch <- r{verdict(o), s.name, o}
		}()
	}
	last := Result{status: "unknown", solver: "portfolio"}
	for range specs {
		x := <-ch
		if x.v == "unsat" || x.v == "sat" {
			win(x.s, x.v)
			return Result{x.v, x.s, x.o, time.Since(t0)}
		}
		last.out += x.s + ": " + x.o + "\n"
	}
	last.dur = time.Since(t0)
	return last
}

// runPair asks z3 and, when it does not answer at once, also its other arithmetic engine.
func runPair(ctx context.Context, q string, t time.Duration) (v, out, who string) {
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	type r struct{ v, s, o string }
	ch := make(chan r, 2)
	run := func(s solverSpec) {
		o := runSolver(ctx, s, q, t)
		ch <- r{verdict(o), s.name, o}
	}
	go run(z3new)
	n := 1
	late := time.After(250 * time.Millisecond)
	var last r
	for n > 0 {
		select {
		case x := <-ch:
			n--
			if last.v == "" || x.v == "unsat" || x.v == "sat" || x.s == z3new.name {
				last = x
			}
			if x.v == "unsat" || x.v == "sat" {
				return x.v, x.o, x.s
			}
		case <-late:
			n++
			go run(z3ar2)
		}
	}
	return last.v, last.o, last.s
}

func win(s, v string) {
	if v == "unsat" {
		statMu.Lock()
		solverWins[s]++
		statMu.Unlock()
	}
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

// model asks z3 for values of the given terms under the assertions.
func model(asserts []*Term, terms []*Term, timeout time.Duration) ([]string, bool) {
	termMu.Lock()
	q, gv := render(asserts, terms)
	termMu.Unlock()
	if len(gv) == 0 {
		return nil, false
	}
	q += "(get-value (" + strings.Join(gv, " ") + "))\n"
	out := runSolver(context.Background(), z3new, q, timeout)
	if verdict(out) != "sat" {
		return nil, false
	}
	i := strings.Index(out, "((")
	if i < 0 {
		return nil, false
	}
	return parseGetValue(out[i:], len(gv))
}

// parseGetValue parses ((t v) (t v) ...), returning the v's.
func parseGetValue(s string, n int) ([]string, bool) {
	pos := 0
	var parse func() interface{}
	skip := func() {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
	}
	parse = func() interface{} {
		skip()
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			var l []interface{}
			for {
				skip()
				if pos >= len(s) {
					return l
				}
				if s[pos] == ')' {
					pos++
					return l
				}
				l = append(l, parse())
			}
		}
		if s[pos] == '|' {
			j := strings.IndexByte(s[pos+1:], '|')
			r := s[pos : pos+1+j+1]
			pos += j + 2
			return r
		}
		j := pos
		for j < len(s) && !strings.ContainsRune(" ()\n\t\r", rune(s[j])) {
			j++
		}
		r := s[pos:j]
		pos = j
		return r
	}
	top, ok := parse().([]interface{})
	if !ok || len(top) < n {
		return nil, false
	}
	var out []string
	for _, e := range top {
		l, ok := e.([]interface{})
		if !ok || len(l) != 2 {
			return nil, false
		}
		out = append(out, flat(l[1]))
	}
	return out, true
}

func flat(x interface{}) string {
	switch v := x.(type) {
	case string:
		return v
	case []interface{}:
		if len(v) == 2 {
			if s, ok := v[0].(string); ok && s == "-" {
				return "-" + flat(v[1])
			}
		}
		var l []string
		for _, e := range v {
			l = append(l, flat(e))
		}
		return "(" + strings.Join(l, " ") + ")"
	}
	return "?"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// appRewrite re-simplifies an application after substitution.
func appRewrite(name string, as []*Term) (*Term, bool) {
	switch name {
	case "bitor":
		return BitOr(as[0], as[1]), true
	case "bitxor":
		return BitXor(as[0], as[1]), true
	case "pow2":
		return Pow2T(as[0]), true
	}
	return nil, false
}

// constEqs substitutes symbols the assertions fix to a constant (the equalities stay).
func constEqs(asserts []*Term) []*Term {
	for round := 0; round < 4; round++ {
		m := map[*Term]*Term{}
		for _, a := range asserts {
			for _, c := range literals(a) {
				if c.op != OEq0 {
					continue
				}
				p := toPoly(c.args[0])
				if len(p.m) != 1 {
					continue
				}
				for x, k := range p.m {
					if x.op == OSym && x.sort == SInt && k.CmpAbs(bi1) == 0 && m[x] == nil {
						v := new(big.Int).Neg(p.k)
						if k.Sign() < 0 {
							v = p.k
						}
						m[x] = CB(v)
					}
				}
			}
		}
		if len(m) == 0 {
			return asserts
		}
		var keep []*Term
		for x, v := range m {
			keep = append(keep, Eq(x, v))
		}
		sort.Slice(keep, func(i, j int) bool { return keep[i].id < keep[j].id })
		ch := false
		out := make([]*Term, 0, len(asserts)+len(keep))
		for _, a := range asserts {
			b := subst(a, m)
			if b != a {
				ch = true
			}
			if b != tTrue {
				out = append(out, b)
			}
		}
		out = append(out, keep...)
		asserts = out
		if !ch || round == 3 {
			break
		}
		// only equalities the substitution uncovered remain to be found
		fresh := false
		for _, a := range out[:len(out)-len(keep)] {
			for _, c := range literals(a) {
				if c.op == OEq0 {
					p := toPoly(c.args[0])
					if len(p.m) == 1 {
						for x := range p.m {
							if x.op == OSym && x.sort == SInt {
								fresh = true
							}
						}
					}
				}
			}
		}
		if !fresh {
			break
		}
	}
	return asserts
}

// literals are the conjuncts of a term, seen through negated disjunctions.
func literals(t *Term) []*Term {
	switch {
	case t.op == OAnd:
		var r []*Term
		for _, a := range t.args {
			r = append(r, literals(a)...)
		}
		return r
	case t.op == ONot && t.args[0].op == OOr:
		var r []*Term
		for _, a := range t.args[0].args {
			r = append(r, literals(Not(a))...)
		}
		return r
	}
	return []*Term{t}
}

var numRe = regexp.MustCompile(`[!'][0-9]+`)

// canonical renumbers the generated symbols of a query in order of occurrence, so that the same
// entailment is the same text whatever was verified before.
func canonical(q string) string {
	num := map[string]string{}
	return numRe.ReplaceAllStringFunc(q, func(m string) string {
		n, ok := num[m]
		if !ok {
			n = m[:1] + strconv.Itoa(len(num)+1)
			num[m] = n
		}
		return n
	})
}

type solveKey struct {
	q           string
	quick, full time.Duration
}

var (
	solveMu    sync.Mutex
	solveCache = map[solveKey]Result{}
)

// solveText decides a query, once per text.
func solveText(q string, quick, full time.Duration, name string) Result {
	if q == "UNSAT" {
		return solveText1(q, quick, full, name)
	}
	q = canonical(q)
	k := solveKey{q, quick, full}
	solveMu.Lock()
	r, ok := solveCache[k]
	if !ok {
		r, ok = solveCache[solveKey{q, 0, 0}]
	}
	solveMu.Unlock()
	if ok {
		r.dur = 0
		return r
	}
	r = solveText1(q, quick, full, name)
	solveMu.Lock()
	if r.status == "unsat" || r.status == "sat" {
		k = solveKey{q, 0, 0}
	}
	if len(q) < 1<<18 {
		solveCache[k] = r
	}
	solveMu.Unlock()
	return r
}

var modestMax = pow2(48)

// modest bounds are worth stating about a product.
func modest(k *big.Int) bool { return k != nil && k.CmpAbs(modestMax) <= 0 }

// monoFacts: products that differ in one factor are ordered as that factor is.
func monoFacts(muls []*Term, add func(*Term)) {
	n := 0
	for i, s := range muls {
		for _, t := range muls[:i] {
			if len(s.args) != len(t.args) || n > 40 {
				continue
			}
			x, y, rest, ok := oneFactorApart(s.args, t.args)
			if !ok {
				continue
			}
			n++
			m := rest[0]
			for _, r := range rest[1:] {
				m = mulAtoms(m, r)
			}
			neg := Lt(m, C(0))
			add(Or(neg, Le(y, x), rawCmp(Add(s, m), t)))
			add(Or(neg, Le(x, y), rawCmp(Add(t, m), s)))
			add(Or(neg, Lt(y, x), rawCmp(s, t)))
			add(Or(neg, Lt(x, y), rawCmp(t, s)))
		}
	}
}

// oneFactorApart: a and b have the same factors but for x in a and y in b.
func oneFactorApart(a, b []*Term) (x, y *Term, rest []*Term, ok bool) {
	used := make([]bool, len(b))
next:
	for _, f := range a {
		for j, g := range b {
			if !used[j] && f == g {
				used[j] = true
				rest = append(rest, f)
				continue next
			}
		}
		if x != nil {
			return nil, nil, nil, false
		}
		x = f
	}
	for j, g := range b {
		if !used[j] {
			if y != nil {
				return nil, nil, nil, false
			}
			y = g
		}
	}
	return x, y, rest, x != nil && y != nil && len(rest) > 0
}
