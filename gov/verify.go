package main

// Verification of all units a property depends on.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type UnitResult struct {
	c        *Contract
	obls     []*Obl
	err      string
	dur      time.Duration
	assumed  map[string]bool
	inlined  map[string]bool
	used     []string
	vacuous  bool
	x        *Exec
	loopInfo []string
	dead     map[*Clause]bool
}

type Run struct {
	pr       *Proj
	ld       *Loader
	prop     string
	quick    time.Duration
	full     time.Duration
	units    []*UnitResult
	verbose  bool
	only     string
	deadline time.Time
	missing  []string
	failed   atomic.Bool // an obligation of an earlier unit is left: the alarm is certain, be brief
	input    atomic.Bool // the oracle has a failing input: the alarm is certain, be brief
	cut      bool        // units were left out
}

// brief: the alarm is certain.
func (r *Run) brief() bool { return r.failed.Load() || r.input.Load() }

// enough: a failed obligation can be named, and there is an input for it or no time for more.
func (r *Run) enough() bool {
	late := !r.deadline.IsZero() && time.Now().After(r.deadline)
	if r.failed.Load() && (late || r.input.Load()) {
		return true
	}
	return late && time.Now().After(r.deadline.Add(250*time.Second))
}

func newExec(pr *Proj, prop string) *Exec {
	return &Exec{ld: pr.ld, pr: pr, prop: prop, ordinal: map[string]int{}, assumed: map[string]bool{}, inlined: map[string]bool{},
		usedContracts: map[string]bool{}, invDropped: map[string]bool{}, invKept: map[string]int{}, stepSeen: map[string]int{}}
}

func (c *Contract) hasPropClause(p string) bool {
	for _, t := range c.tags {
		if t == p {
			return true
		}
	}
	for _, t := range c.safety {
		if t == p {
			return true
		}
	}
	for _, cl := range c.clauses {
		for _, t := range cl.tags {
			if t == p {
				return true
			}
		}
	}
	return false
}

func (c *Contract) hasSafety(p string) bool {
	for _, t := range c.safety {
		if t == p {
			return true
		}
	}
	return false
}

// worklist: units of the property, then the contracts they use.
func (r *Run) verifyAll() {
	byName := map[string]*Contract{}
	for _, c := range r.pr.contractList {
		byName[c.name] = c
	}
	queued := map[string]bool{}
	var work []*Contract
	for _, c := range r.pr.contractList {
		if c.fn == nil && c.ftype == nil && !c.trusted && !c.optional && r.only == "" && c.hasPropClause(r.prop) && r.pr.pkgLoaded(c.name) {
			r.missing = append(r.missing, c.name)
		}
		if c.fn == nil || c.trusted {
			continue
		}
		if r.only != "" {
			if c.name == r.only || strings.HasSuffix(c.name, "."+r.only) {
				work = append(work, c)
				queued[c.name] = true
			}
			continue
		}
		if c.hasPropClause(r.prop) {
			queued[c.name] = true
			if !c.inline {
				work = append(work, c)
			}
		}
	}
	for len(work) > 0 {
		if r.enough() {
			r.cut = true
			return
		}
		c := work[0]
		work = work[1:]
		var u *UnitResult
		var cs []*UnitResult
		for mask := 0; mask < 1<<len(c.cases); mask++ {
			v := r.verify(c, mask)
			r.units = append(r.units, v)
			cs = append(cs, v)
			if u == nil {
				u = v
			} else {
				u.used = append(u.used, v.used...)
			}
		}
		// a postcondition must be reachable in some case
		for cl := range u.dead {
			all := true
			for _, v := range cs {
				if !v.dead[cl] {
					all = false
				}
			}
			if all {
				u.vacuous = true
				if r.verbose {
					fmt.Printf("    VACUOUS {%s}\n", cl.src)
				}
			}
		}
		if r.only != "" {
			continue
		}
		for _, n := range u.used {
			if d := byName[n]; d != nil && !queued[n] && d.fn != nil && !d.trusted && !d.inline {
				queued[n] = true
				work = append(work, d)
			}
		}
	}
}

func (r *Run) verify(c *Contract, mask int) (u *UnitResult) {
	t0 := time.Now()
	x := newExec(r.pr, r.prop)
	x.safety = c.hasSafety(r.prop)
	x.caseMask = mask
	x.hurry, x.enough = r.brief, r.enough
	u = &UnitResult{c: c, x: x}
	func() {
		defer func() {
			if p := recover(); p != nil {
				u.err = fmt.Sprintf("internal: %v", p)
				if os.Getenv("GOV_STACK") != "" {
					debug.PrintStack()
				}
			}
		}()
		if err := x.verifyUnit(c); err != nil {
			u.err = err.Error()
		}
	}()
	tExec := time.Since(t0)
	u.obls = x.obls
	u.assumed, u.inlined, u.loopInfo = x.assumed, x.inlined, x.loopInfo
	for n := range x.usedContracts {
		u.used = append(u.used, n)
	}
	sort.Strings(u.used)
	r.solveAll(u, x)
	// vacuity: some return must be reachable
	if u.err == "" && x.rootFrame != nil {
		var ok bool
		ok, u.dead = r.reachable(x)
		u.vacuous = !ok
	}
	u.dur = time.Since(t0)
	if r.verbose {
		fmt.Printf("%-60s exec %v total %v obligations %d\n", x.unit, tExec.Round(time.Millisecond), u.dur.Round(time.Millisecond), len(u.obls))
		if u.err != "" {
			fmt.Printf("    ERROR %s\n", u.err)
		}
		if u.vacuous {
			fmt.Printf("    VACUOUS\n")
		}
		for _, o := range u.obls {
			if o.res.status != "unsat" {
				fmt.Printf("    %s %s (%v) %s:%d\n", strings.ToUpper(o.res.status), o.name, o.res.dur.Round(time.Millisecond), o.pos.Filename, o.pos.Line)
			} else if o.res.dur > 2*time.Second {
				fmt.Printf("    slow %s %v %s\n", o.name, o.res.dur.Round(time.Millisecond), o.res.solver)
			}
		}
	}
	return u
}

// solveAll discharges the obligations of a unit in parallel: with few instances of the quantified
// facts and the recursions folded first, then with more.
func (r *Run) solveAll(u *UnitResult, x *Exec) {
	sem := make(chan struct{}, 10)
	attempt := func(fuel, rounds int, quick, full time.Duration, tag string) {
		var wg sync.WaitGroup
		for _, o := range u.obls {
			o := o
			if o.res.status == "unsat" || o.decided {
				continue
			}
			q, _ := r.obligationText(x, o, fuel, rounds)
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				if q == "UNSAT" {
					o.res = Result{status: "unsat", solver: "simplifier"}
					return
				}
				if r.enough() {
					o.res.status, o.res.out = "unknown", "left out: the alarm is certain"
					return
				}
				res := solveText(q, quick, full, o.name+tag)
				res.dur += o.res.dur
				o.res = res
			}()
		}
		wg.Wait()
	}
	for _, o := range u.obls {
		o.decided = o.res.status != ""
	}
	left := func() int {
		n := 0
		for _, o := range u.obls {
			if o.res.status != "unsat" {
				n++
			}
		}
		return n
	}
	full := r.full
	if r.brief() {
		full = r.full / 5
	}
	attempt(1, 1, 1500*time.Millisecond, 0, ".1")
	attempt(2, 2, r.quick, full, "")
	if n := left(); n > 0 && !r.brief() {
		if n > 6 {
			full /= 3
		}
		attempt(0, 2, r.quick, full, ".0")
		attempt(3, 4, full, full, ".2")
	}
	if left() > 0 {
		r.failed.Store(true)
	}
}

func (r *Run) obligationText(x *Exec, o *Obl, fuel, rounds int) (string, []*Term) {
	as := x.assemble(o.pc, o.goal, x.factsOf(o))
	ps := prepare(as, fuel, rounds)
	return renderLocked(ps), ps
}

func (x *Exec) factsOf(o *Obl) []Fact {
	if o.facts != nil {
		return o.facts
	}
	return x.facts[:o.nf]
}

// reachable: a normal return of the unit is satisfiable together with all facts, and
// so is the premise of every conditional postcondition at some return.
func (r *Run) reachable(x *Exec) (bool, map[*Clause]bool) {
	dead := map[*Clause]bool{}
	rets := x.rootFrame.rets
	if len(rets) == 0 {
		return false, dead
	}
	done := map[*Term]bool{}
	sat := func(pc *Term) bool {
		if v, ok := done[pc]; ok {
			return v
		}
		as := x.assemble(pc, tFalse, x.facts)
		q := renderLocked(prepare(as, 1, 1))
		v := q != "UNSAT"
		if v {
			v = solveText(q, 2*time.Second, 0, "reach").status != "unsat"
		}
		done[pc] = v
		return v
	}
	ok := false
	for i := len(rets) - 1; i >= 0 && !ok; i-- {
		ok = sat(rets[i].pc)
	}
	if !ok {
		return false, dead
	}
	for cl, pcs := range x.live {
		ok := false
		for i := len(pcs) - 1; i >= 0 && !ok; i-- {
			ok = sat(pcs[i])
		}
		if !ok {
			dead[cl] = true
		}
	}
	return true, dead
}
