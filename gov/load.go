package main

// Loads the packages of the repository (and the standard library packages they
// use) from source, type-checks them and builds SSA.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/oov/psd"

type Loader struct {
	fset  *token.FileSet
	repo  string
	ctx   build.Context
	pkgs  map[string]*types.Package
	files map[string][]*ast.File
	infos map[string]*types.Info
	prog  *ssa.Program
	errs  []string
	order []string
}

// standard packages whose bodies are loaded so that their functions can be inlined.
var bodyPkgs = map[string]bool{
	"image": true, "image/color": true, "image/draw": true,
}

func NewLoader(repo string) *Loader {
	c := build.Default
	c.CgoEnabled = false
	c.GOOS, c.GOARCH = "linux", "amd64"
	return &Loader{fset: token.NewFileSet(), repo: repo, ctx: c,
		pkgs: map[string]*types.Package{}, files: map[string][]*ast.File{}, infos: map[string]*types.Info{}}
}

func (l *Loader) Import(path string) (*types.Package, error) { return l.load(path) }

func modCache() string {
	if d := os.Getenv("GOMODCACHE"); d != "" {
		return d
	}
	return "/root/go/pkg/mod"
}

func (l *Loader) dirOf(path string) (string, bool) {
	if path == modPath {
		return l.repo, true
	}
	if strings.HasPrefix(path, modPath+"/") {
		return filepath.Join(l.repo, strings.TrimPrefix(path, modPath+"/")), true
	}
	if path == "github.com/oov/downscale" {
		return filepath.Join(verifDir, "stubs/downscale"), false
	}
	for _, m := range [][2]string{{"golang.org/x/image", "golang.org/x/image@v0.47.0"}, {"golang.org/x/text", "golang.org/x/text@v0.43.0"}, {"golang.org/x/sync", "golang.org/x/sync@v0.24.0"}} {
		if path == m[0] || strings.HasPrefix(path, m[0]+"/") {
			return filepath.Join(modCache(), m[1], strings.TrimPrefix(path, m[0])), false
		}
	}
	if strings.HasPrefix(path, "github.com/pkg/errors") {
		ms, _ := filepath.Glob(filepath.Join(modCache(), "github.com/pkg/errors@*"))
		if len(ms) > 0 {
			return ms[0], false
		}
	}
	root := filepath.Join(l.ctx.GOROOT, "src")
	d := filepath.Join(root, path)
	if _, err := os.Stat(d); err == nil {
		return d, false
	}
	return filepath.Join(root, "vendor", path), false
}

func (l *Loader) load(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := l.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle via %s", path)
		}
		return p, nil
	}
	l.pkgs[path] = nil
	dir, ours := l.dirOf(path)
	bp, err := l.ctx.ImportDir(dir, 0)
	if err != nil {
		delete(l.pkgs, path)
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	body := ours || bodyPkgs[path]
	mode := parser.SkipObjectResolution
	var fs []*ast.File
	names := append([]string(nil), bp.GoFiles...)
	sort.Strings(names)
	for _, n := range names {
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), nil, mode)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	cfg := types.Config{Importer: l, IgnoreFuncBodies: !body, FakeImportC: true, Sizes: types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if ours {
				l.errs = append(l.errs, err.Error())
			}
		}}
	p, err := cfg.Check(path, l.fset, fs, info)
	if err != nil && ours {
		return nil, fmt.Errorf("type check %s: %v", path, err)
	}
	l.pkgs[path] = p
	l.order = append(l.order, path)
	if body {
		l.files[path] = fs
		l.infos[path] = info
	}
	return p, nil
}

// Build loads the given packages and builds SSA for every package with bodies.
func (l *Loader) Build(paths ...string) error {
	for _, p := range paths {
		if _, err := l.load(p); err != nil {
			return err
		}
	}
	l.prog = ssa.NewProgram(l.fset, ssa.GlobalDebug)
	for _, path := range l.order {
		p := l.pkgs[path]
		if fs, ok := l.files[path]; ok {
			l.prog.CreatePackage(p, fs, l.infos[path], true)
		} else {
			l.prog.CreatePackage(p, nil, nil, true)
		}
	}
	for path := range l.files {
		l.prog.Package(l.pkgs[path]).Build()
	}
	_ = ssautil.AllFunctions
	return nil
}
