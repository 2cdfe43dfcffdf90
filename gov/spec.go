package main

// Contract files: lexer and parser.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SExpr struct {
	op   string // int, str, id, call, un, bin, index, slice, field, forall, ite, let, deref
	s    string
	n    *big.Int
	args []*SExpr
}

type Clause struct {
	kind string
	tags []string
	e    *SExpr
	src  string
	loop int
	file string
	line int
	mods []*SExpr

	callee, ghost string // give clauses
	inst          int
	except        []string
}

type Contract struct {
	name     string
	fn       *ssa.Function
	params   []string
	results  []string
	clauses  []*Clause
	inline   bool
	trusted  bool
	optional bool
	ftype    types.Type
	sig      *types.Signature
	safety   []string
	file     string
	pure     bool
	bounds   []string
	tags     []string // properties this unit belongs to
	ghosts   []string
	opaque   []string
	cases    []*SExpr
}

type SpecFn struct {
	name   string
	params []string
	body   *SExpr
	rec    bool
	sort   string
	pkg    *types.Package
}

type tok struct {
	k string // id int str char op eof
	s string
}

func lexSpec(s string) ([]tok, error) {
	var ts []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (isAlnum(s[j])) {
				j++
			}
			ts = append(ts, tok{"int", s[i:j]})
			i = j
		case isAlpha(c):
			j := i
			for j < len(s) && isAlnum(s[j]) {
				j++
			}
			ts = append(ts, tok{"id", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			ts = append(ts, tok{"str", u})
			i = j + 1
		case c == '\'':
			j := strings.IndexByte(s[i+1:], '\'')
			if j < 0 {
				return nil, fmt.Errorf("unterminated char")
			}
			u, err := strconv.Unquote(s[i : i+j+2])
			if err != nil {
				return nil, err
			}
			ts = append(ts, tok{"int", fmt.Sprint(int([]rune(u)[0]))})
			i += j + 2
		default:
			ok := false
			for _, op := range []string{"<==>", "==>", "<=>", "::", "..", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>"} {
				if strings.HasPrefix(s[i:], op) {
					ts = append(ts, tok{"op", op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				ts = append(ts, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(ts, tok{"eof", ""}), nil
}

func isAlpha(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isAlnum(c byte) bool { return isAlpha(c) || c >= '0' && c <= '9' }

type sparser struct {
	ts []tok
	i  int
}

func (p *sparser) peek() tok { return p.ts[p.i] }
func (p *sparser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Errorf("expected %q, got %q", s, p.peek().s))
	}
}

func parseExpr(s string) (e *SExpr, err error) {
	ts, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = er
				return
			}
			panic(r)
		}
	}()
	p := &sparser{ts: ts}
	e = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q", p.peek().s)
	}
	return e, nil
}

func (p *sparser) expr() *SExpr {
	switch {
	case p.is("forall"), p.is("exists"):
		q := p.next().s
		v := p.next().s
		p.expect("in")
		lo := p.binary(5)
		p.expect("..")
		hi := p.binary(5)
		p.expect("::")
		b := p.expr()
		return &SExpr{op: q, s: v, args: []*SExpr{lo, hi, b}}
	case p.is("let"):
		p.next()
		v := p.next().s
		p.expect("=")
		e := p.expr()
		p.expect("in")
		b := p.expr()
		return &SExpr{op: "let", s: v, args: []*SExpr{e, b}}
	case p.is("if"):
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return &SExpr{op: "ite", args: []*SExpr{c, a, b}}
	}
	return p.binary(0)
}

var precs = map[string]int{"<==>": 1, "<=>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"|": 6, "^": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8, "<<": 8, ">>": 8, "&": 8}

func (p *sparser) binary(min int) *SExpr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := precs[t.s]
		if !ok || pr <= min {
			return l
		}
		p.next()
		var r *SExpr
		if t.s == "==>" {
			if p.is("forall") || p.is("exists") || p.is("let") || p.is("if") {
				r = p.expr()
			} else {
				r = p.binary(pr - 1) // right assoc
			}
		} else if (t.s == "&&" || t.s == "||" || t.s == "==" || t.s == "<=>") && (p.is("forall") || p.is("exists") || p.is("let") || p.is("if")) {
			r = p.expr()
		} else {
			r = p.binary(pr)
		}
		l = &SExpr{op: "bin", s: t.s, args: []*SExpr{l, r}}
	}
}

func (p *sparser) unary() *SExpr {
	switch {
	case p.is("-"), p.is("!"), p.is("*"):
		o := p.next().s
		return &SExpr{op: "un", s: o, args: []*SExpr{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *sparser) postfix(e *SExpr) *SExpr {
	for {
		switch {
		case p.is("."):
			p.next()
			f := p.next()
			e = &SExpr{op: "field", s: f.s, args: []*SExpr{e}}
		case p.is("["):
			p.next()
			if p.accept("*") {
				p.expect("]")
				e = &SExpr{op: "all", args: []*SExpr{e}}
				continue
			}
			var lo, hi *SExpr
			if !p.is(":") {
				lo = p.expr()
			}
			if p.accept(":") {
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &SExpr{op: "slice", args: []*SExpr{e, lo, hi}}
				continue
			}
			p.expect("]")
			e = &SExpr{op: "index", args: []*SExpr{e, lo}}
		case p.is("("):
			if e.op != "id" && e.op != "field" {
				return e
			}
			p.next()
			var as []*SExpr
			for !p.is(")") {
				as = append(as, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = &SExpr{op: "call", s: e.s, args: as}
		default:
			return e
		}
	}
}

func (p *sparser) primary() *SExpr {
	t := p.next()
	switch t.k {
	case "int":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			panic(fmt.Errorf("bad number %q", t.s))
		}
		return &SExpr{op: "int", n: n}
	case "str":
		return &SExpr{op: "str", s: t.s}
	case "id":
		return &SExpr{op: "id", s: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	panic(fmt.Errorf("unexpected %q", t.s))
}

// ---- contract files

func (pr *Proj) LoadContracts(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := pr.parseFile(f, string(b)); err != nil {
			return err
		}
	}
	return nil
}

func parseHeader(s string) (name string, params, results []string, err error) {
	i := strings.LastIndex(s, "(")
	// name may contain (*T): the parameter list starts after the last ").name"
	// format: NAME(params) (results)
	depth := 0
	start := -1
	s = strings.TrimSpace(s)
	_ = i
	for k := 0; k < len(s); k++ {
		if s[k] == '(' {
			if depth == 0 && !(k+1 < len(s) && s[k+1] == '*') {
				start = k
				break
			}
			depth++
		} else if s[k] == ')' {
			depth--
		}
	}
	if start < 0 {
		return s, nil, nil, nil
	}
	name = strings.TrimSpace(s[:start])
	end := strings.IndexByte(s[start:], ')') + start
	split := func(x string) []string {
		var r []string
		for _, p := range strings.Split(x, ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				r = append(r, p)
			}
		}
		return r
	}
	params = split(s[start+1 : end])
	rest := strings.TrimSpace(s[end+1:])
	if strings.HasPrefix(rest, "(") {
		results = split(strings.Trim(rest, "()"))
	}
	return
}

func (pr *Proj) parseFile(file, src string) error {
	var cur *Contract
	lines := strings.Split(src, "\n")
	for ln := 0; ln < len(lines); ln++ {
		raw := lines[ln]
		if i := strings.Index(raw, "//"); i >= 0 {
			raw = raw[:i]
		}
		l := strings.TrimSpace(raw)
		if l == "" {
			continue
		}
		start := ln
		// continuation: following lines more indented with leading '|' or '\' at end
		for strings.HasSuffix(l, "\\") {
			ln++
			nx := lines[ln]
			if i := strings.Index(nx, "//"); i >= 0 {
				nx = nx[:i]
			}
			l = strings.TrimSpace(strings.TrimSuffix(l, "\\")) + " " + strings.TrimSpace(nx)
		}
		fail := func(e error) error { return fmt.Errorf("%s:%d: %v", file, start+1, e) }
		word := l
		rest := ""
		if i := strings.IndexAny(l, " \t["); i >= 0 {
			word, rest = l[:i], strings.TrimSpace(l[i:])
		}
		var tags []string
		if strings.HasPrefix(rest, "[") && word != "spec" {
			j := strings.IndexByte(rest, ']')
			for _, t := range strings.Split(rest[1:j], ",") {
				tags = append(tags, strings.TrimSpace(t))
			}
			rest = strings.TrimSpace(rest[j+1:])
		}
		switch word {
		case "func", "functype":
			name, ps, rs, err := parseHeader(rest)
			if err != nil {
				return fail(err)
			}
			if old := pr.contracts[pr.fnByName[name]]; word == "func" && old != nil {
				// continued: the clauses add to the contract given before
				if len(tags) > 0 || fmt.Sprint(old.params, old.results) != fmt.Sprint(ps, rs) {
					return fail(fmt.Errorf("header differs from the earlier one of %s", name))
				}
				cur = old
				continue
			}
			cur = &Contract{name: name, params: ps, results: rs, file: filepath.Base(file), tags: tags}
			pr.contractList = append(pr.contractList, cur)
			if word == "functype" {
				i := strings.LastIndexByte(name, '.')
				for _, p := range pr.ld.prog.AllPackages() {
					if strings.TrimPrefix(p.Pkg.Path(), "github.com/oov/") == name[:i] && p.Type(name[i+1:]) != nil {
						cur.ftype = p.Type(name[i+1:]).Type()
						pr.ftypes[typeKey(cur.ftype)] = cur
					}
				}
				if cur.ftype == nil {
					pr.missing = append(pr.missing, name)
				}
				continue
			}
			fn := pr.fnByName[name]
			if fn == nil || fn.Blocks == nil {
				pr.missing = append(pr.missing, name)
				continue
			}
			cur.fn = fn
			pr.contracts[fn] = cur
		case "spec", "recspec":
			// spec name(params) = expr
			i := strings.Index(rest, "=")
			if i < 0 {
				return fail(fmt.Errorf("spec without ="))
			}
			name, ps, _, err := parseHeader(rest[:i])
			if err != nil {
				return fail(err)
			}
			e, err := parseExpr(rest[i+1:])
			if err != nil {
				return fail(err)
			}
			sp := &SpecFn{name: name, params: ps, body: e, rec: word == "recspec"}
			pr.specs[name] = sp
		case "inline":
			cur.inline = true
		case "trusted":
			cur.trusted = true
		case "optional":
			cur.optional = true
		case "cases":
			// the unit is verified once with the condition and once with its negation
			e, err := parseExpr(rest)
			if err != nil {
				return fail(err)
			}
			cur.cases = append(cur.cases, e)
		case "opaque":
			// recursive definitions this unit does not look into
			for _, g := range splitTop(rest) {
				cur.opaque = append(cur.opaque, g)
			}
		case "ghost":
			for _, g := range splitTop(rest) {
				cur.ghosts = append(cur.ghosts, g)
			}
		case "give":
			// give CALLEE ghost = expr
			i := strings.Index(rest, "=")
			f := strings.Fields(rest[:i])
			if len(f) != 2 {
				return fail(fmt.Errorf("give CALLEE ghost = expr"))
			}
			e, err := parseExpr(rest[i+1:])
			if err != nil {
				return fail(err)
			}
			inst := 1
			if j := strings.Index(f[0], "#"); j >= 0 {
				if inst, err = strconv.Atoi(f[0][j+1:]); err != nil || inst < 1 {
					return fail(fmt.Errorf("give CALLEE#n ghost = expr"))
				}
				f[0] = f[0][:j]
			}
			cur.clauses = append(cur.clauses, &Clause{kind: "give", tags: tags, file: file, line: start + 1, loop: -1, e: e, src: rest, callee: f[0], ghost: f[1], inst: inst - 1})
		case "safety":
			cur.safety = append(cur.safety, strings.Fields(rest)...)
		case "unit":
			cur.tags = append(cur.tags, strings.Fields(rest)...)
		case "modifies":
			cl := &Clause{kind: "modifies", src: rest, file: file, line: start + 1, loop: -1, tags: tags}
			if f := strings.Fields(rest); len(f) > 2 && f[0] == "anything" && f[1] == "except" {
				// every object but those of these types
				cl.src = "anything"
				cl.except = f[2:]
				cur.clauses = append(cur.clauses, cl)
				continue
			}
			for _, m := range splitTop(rest) {
				e, err := parseExpr(m)
				if err != nil {
					return fail(err)
				}
				cl.mods = append(cl.mods, e)
			}
			cur.clauses = append(cur.clauses, cl)
		case "requires", "ensures", "invariant", "step", "exit", "assumes", "lemma", "atcall":
			cl := &Clause{kind: word, tags: tags, file: file, line: start + 1, loop: -1}
			if (word == "invariant" || word == "step") && strings.HasPrefix(rest, "@") {
				j := strings.IndexAny(rest, " \t")
				n, err := strconv.Atoi(rest[1:j])
				if err != nil {
					return fail(err)
				}
				cl.loop = n
				rest = strings.TrimSpace(rest[j:])
			}
			e, err := parseExpr(rest)
			if err != nil {
				return fail(err)
			}
			cl.e, cl.src = e, strings.Join(strings.Fields(rest), " ")
			if cur == nil {
				return fail(fmt.Errorf("clause outside func"))
			}
			cur.clauses = append(cur.clauses, cl)
		default:
			return fail(fmt.Errorf("unknown keyword %q", word))
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}
