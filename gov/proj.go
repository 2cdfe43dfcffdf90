package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Proj holds whole-program information.
type Proj struct {
	ld           *Loader
	lines        map[string][]string
	globals      map[*ssa.Global]*globalUse
	contracts    map[*ssa.Function]*Contract
	ftypes       map[string]*Contract // contracts of function types
	specs        map[string]*SpecFn
	fnByName     map[string]*ssa.Function
	effCache     map[*ssa.Function]map[string]bool
	all          map[*ssa.Function]bool
	missing      []string
	contractList []*Contract
	initDone     map[*ssa.Function]bool
}

type globalUse struct {
	init   ssa.Value
	stores int
	esc    bool
}

func NewProj(ld *Loader) *Proj {
	p := &Proj{ld: ld, lines: map[string][]string{}, contracts: map[*ssa.Function]*Contract{}, ftypes: map[string]*Contract{}, specs: map[string]*SpecFn{}, effCache: map[*ssa.Function]map[string]bool{}}
	p.all = ssautil.AllFunctions(ld.prog)
	p.globals = map[*ssa.Global]*globalUse{}
	p.fnByName = map[string]*ssa.Function{}
	use := func(g *ssa.Global) *globalUse {
		u := p.globals[g]
		if u == nil {
			u = &globalUse{}
			p.globals[g] = u
		}
		return u
	}
	for fn := range p.all {
		if fn.Blocks == nil {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						u := use(g)
						u.stores++
						if isInit {
							u.init = s.Val
						} else {
							u.esc = true
						}
						if gv, ok := s.Val.(*ssa.Global); ok {
							use(gv).esc = true
						}
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
					case *ssa.IndexAddr:
						if !isInit && !onlyLoaded(i) {
							use(g).esc = true
						}
					default:
						use(g).esc = true
					}
				}
			}
		}
		p.fnByName[p.fnName(fn)] = fn
	}
	for g, u := range p.globals {
		if u.init == nil {
			continue
		}
		v := u.init
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		if mc, ok := v.(*ssa.MakeClosure); ok {
			v = mc.Fn
		}
		if f, ok := v.(*ssa.Function); ok {
			p.fnByName[strings.TrimPrefix(g.Pkg.Pkg.Path(), "github.com/oov/")+"."+g.Name()] = f
		}
	}
	return p
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			return false
		default:
			_ = i
			return false
		}
	}
	return true
}

// fnName: psd.readUint16, psd/blend.drawMask, psd.(*Config).PSB, psd/blend.drawFunc.Parallel
func (p *Proj) fnName(fn *ssa.Function) string {
	pk := ""
	if fn.Pkg != nil {
		pk = strings.TrimPrefix(fn.Pkg.Pkg.Path(), "github.com/oov/")
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			star = "*"
		}
		if n, ok := t.(*types.Named); ok {
			if star != "" {
				return pk + ".(*" + n.Obj().Name() + ")." + fn.Name()
			}
			return pk + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pk + "." + fn.Name()
}

func (p *Proj) globalInit(g *ssa.Global) ssa.Value {
	u := p.globals[g]
	if u == nil || u.stores != 1 || u.init == nil || u.esc {
		return nil
	}
	return u.init
}

func (p *Proj) line(file string, n int) string {
	ls, ok := p.lines[file]
	if !ok {
		b, _ := os.ReadFile(file)
		ls = strings.Split(string(b), "\n")
		p.lines[file] = ls
	}
	if n >= 1 && n <= len(ls) {
		return ls[n-1]
	}
	return ""
}

// table records the constant contents of a global array that is only read.
func (p *Proj) table(g *ssa.Global, r *Term, arr *types.Array) {
	if _, ok := tables[r]; ok {
		return
	}
	u := p.globals[g]
	if u != nil && u.esc {
		return
	}
	init := g.Pkg.Func("init")
	vals := make([]*big.Int, arr.Len())
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != g {
				if s.Addr == g {
					return
				}
				continue
			}
			ci, ok1 := ia.Index.(*ssa.Const)
			cv, ok2 := s.Val.(*ssa.Const)
			if !ok1 || !ok2 {
				return
			}
			k, _ := constant.Int64Val(ci.Value)
			n, ok := new(big.Int).SetString(constant.ToInt(cv.Value).ExactString(), 10)
			if !ok {
				return
			}
			vals[k] = n
		}
	}
	for i := range vals {
		if vals[i] == nil {
			vals[i] = bi0
		}
	}
	tables[r] = &table{name: g.Pkg.Pkg.Path() + "." + g.Name(), vals: vals, arr: arr}
}

var famLeaf = map[string]Leaf{"E:uint8": {SInt, bi0, bi(255), ""}}

// ---- write effects (families possibly written), computed syntactically

func (p *Proj) effects(fn *ssa.Function) map[string]bool {
	if e, ok := p.effCache[fn]; ok {
		return e
	}
	// transitive closure by iterating over the reachable call graph
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	eff := map[string]bool{}
	visit = func(f *ssa.Function) {
		if f == nil || reach[f] {
			return
		}
		reach[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				p.instrEffects(in, eff, visit)
			}
		}
	}
	visit(fn)
	p.effCache[fn] = eff
	return eff
}

func addTypeEff(t types.Type, fam string, eff map[string]bool) {
	for _, l := range leavesOf(t) {
		eff[fam+l.suffix] = true
		famLeaf[fam+l.suffix] = l
	}
}

// cellEff: families of an object of type t addressed as given.
func objEff(t types.Type, eff map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				objEff(ft, eff)
			} else {
				addTypeEff(ft, fieldFam(t, i), eff)
			}
		}
	case *types.Array:
		elemEff(u.Elem(), eff)
	default:
		addTypeEff(t, "C:"+typeKey(t.Underlying()), eff)
	}
}

func elemEff(t types.Type, eff map[string]bool) {
	if isAgg(t) {
		objEff(t, eff)
		return
	}
	addTypeEff(t, elemFam(t), eff)
}

func (p *Proj) instrEffects(in ssa.Instruction, eff map[string]bool, visit func(*ssa.Function)) {
	byteElem := func() { eff["E:uint8"] = true }
	switch i := in.(type) {
	case *ssa.Store:
		t := deref(i.Addr.Type())
		switch a := i.Addr.(type) {
		case *ssa.FieldAddr:
			if isAgg(t) {
				objEff(t, eff)
			} else {
				addTypeEff(t, fieldFam(deref(a.X.Type()), a.Field), eff)
			}
		case *ssa.IndexAddr:
			elemEff(t, eff)
		default:
			if isAgg(t) {
				objEff(t, eff)
			} else {
				// through a plain pointer: cell, or any field/element of that type (not tracked further)
				addTypeEff(t, "C:"+typeKey(t.Underlying()), eff)
			}
		}
	case *ssa.Alloc:
		objEff(deref(i.Type()), eff)
	case *ssa.MakeSlice:
		elemEff(i.Type().Underlying().(*types.Slice).Elem(), eff)
	case *ssa.MakeMap:
		eff[mapFam(i.Type().Underlying().(*types.Map))+".has"] = true
		famLeaf[mapFam(i.Type().Underlying().(*types.Map))+".has"] = Leaf{SBool, nil, nil, ""}
	case *ssa.MapUpdate:
		mapEff(i.Map.Type().Underlying().(*types.Map), eff)
	case *ssa.Convert:
		if _, ok := i.Type().Underlying().(*types.Slice); ok {
			byteElem()
		}
	case ssa.CallInstruction:
		c := i.Common()
		if c.IsInvoke() {
			switch c.Method.Name() {
			case "Read", "Discard", "Seek", "ReadByte":
				byteElem()
				eff["G:pos"] = true
			}
			for _, f := range p.implementers(c.Method, c.Value.Type()) {
				visit(f)
			}
			return
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				elemEff(c.Args[0].Type().Underlying().(*types.Slice).Elem(), eff)
			case "copy":
				elemEff(c.Args[0].Type().Underlying().(*types.Slice).Elem(), eff)
			case "delete":
				mapEff(c.Args[0].Type().Underlying().(*types.Map), eff)
			}
			return
		}
		if f := c.StaticCallee(); f != nil {
			if f.Blocks == nil || modelled(f) {
				for _, k := range modelEffects(f) {
					eff[k] = true
				}
				return
			}
			visit(f)
			return
		}
		// dynamic call: functions of that type whose address is taken in the module
		if g, ok := c.Value.(*ssa.UnOp); ok {
			if gl, ok := g.X.(*ssa.Global); ok {
				if iv := p.globalInit(gl); iv != nil {
					if ct, ok := iv.(*ssa.ChangeType); ok {
						iv = ct.X
					}
					if f, ok := iv.(*ssa.Function); ok {
						visit(f)
					}
				}
			}
		}
	}
}

func mapEff(mt *types.Map, eff map[string]bool) {
	eff[mapFam(mt)+".has"] = true
	famLeaf[mapFam(mt)+".has"] = Leaf{SBool, nil, nil, ""}
	for _, l := range mapCells(mt) {
		eff[mapFam(mt)+l.suffix] = true
		famLeaf[mapFam(mt)+l.suffix] = l
	}
}

// implementers finds module methods that an interface call may reach.
func (p *Proj) implementers(m *types.Func, it types.Type) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	var paths []string
	for path := range p.ld.files {
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		sc := p.ld.pkgs[path].Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, iface) {
					if f := p.ld.prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
						out = append(out, f)
					}
					break
				}
			}
		}
	}
	return out
}
