package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/miniLCT/gosb"

// Program is /repo's current tree: parsed, type-checked and in SSA form.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // the repository's packages, sorted by path
	ByRel map[string]*packages.Package
	SSA   *ssa.Program
	SPkg  map[string]*ssa.Package // by path relative to the module
	Fns   []*ssa.Function         // every source function of the repository, closures included
	NFile int
}

func goEnv(extra ...string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOOS", "GOARCH", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
	return append(env, extra...)
}

// load type-checks the repository from source. Bodies of functions outside the
// repository are dropped: those functions are modelled, not analysed.
func load(dir string, extraEnv ...string) (*Program, error) {
	abs, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  abs,
		Env:  goEnv(extraEnv...),
		Fset: fset,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !strings.HasPrefix(filename, abs+string(filepath.Separator)) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	roots, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: abs, Fset: fset, ByRel: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	var errs []string
	for _, r := range roots {
		for _, e := range r.Errors {
			errs = append(errs, e.Error())
		}
		if !strings.HasPrefix(r.PkgPath, modPath) {
			continue
		}
		p.Pkgs = append(p.Pkgs, r)
		p.ByRel[rel(r.PkgPath)] = r
		p.NFile += len(r.Syntax)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found under %s", modPath, abs)
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	// dependencies are known by their types only
	prog := ssa.NewProgram(fset, ssa.BuilderMode(0))
	p.SSA = prog
	isRoot := map[*packages.Package]bool{}
	for _, r := range p.Pkgs {
		isRoot[r] = true
	}
	packages.Visit(roots, nil, func(d *packages.Package) {
		if d.Types == nil {
			return
		}
		if isRoot[d] {
			p.SPkg[rel(d.PkgPath)] = prog.CreatePackage(d.Types, d.Syntax, d.TypesInfo, true)
		} else if d.PkgPath == "unsafe" || prog.ImportedPackage(d.PkgPath) == nil {
			prog.CreatePackage(d.Types, nil, nil, true)
		}
	})
	for _, r := range p.Pkgs {
		sp := p.SPkg[rel(r.PkgPath)]
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", r.PkgPath)
		}
		sp.Build()
	}
	for _, pk := range p.Pkgs {
		sp := p.SPkg[rel(pk.PkgPath)]
		seen := map[*ssa.Function]bool{}
		var add func(f *ssa.Function)
		add = func(f *ssa.Function) {
			if f == nil || seen[f] || f.Blocks == nil {
				return
			}
			seen[f] = true
			p.Fns = append(p.Fns, f)
			for _, a := range f.AnonFuncs {
				add(a)
			}
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if obj, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(obj))
					}
				}
			}
		}
		add(sp.Func("init"))
	}
	return p, nil
}

func rel(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
}

// fn finds a function or method: fn("library/cachex", "Chain.Get") or fn("pkg", "F").
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.SPkg[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, _ := sp.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if tn == nil {
			return nil
		}
		named, _ := tn.Type().(*types.Named)
		if named == nil {
			return nil
		}
		for j := 0; j < named.NumMethods(); j++ {
			if named.Method(j).Name() == name[i+1:] {
				return p.SSA.FuncValue(named.Method(j))
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Program) named(pkg, name string) *types.Named {
	sp := p.SPkg[pkg]
	if sp == nil {
		return nil
	}
	tn, _ := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if tn == nil {
		return nil
	}
	n, _ := tn.Type().(*types.Named)
	return n
}

// exported API of a package: functions and methods of exported types, in order.
func (p *Program) api(pkg string) []*ssa.Function {
	sp := p.SPkg[pkg]
	if sp == nil {
		return nil
	}
	var out []*ssa.Function
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		if !token.IsExported(n) {
			continue
		}
		switch o := sc.Lookup(n).(type) {
		case *types.Func:
			if f := p.SSA.FuncValue(o); f != nil && f.Blocks != nil {
				out = append(out, f)
			}
		case *types.TypeName:
			if named, ok := o.Type().(*types.Named); ok && !o.IsAlias() {
				for j := 0; j < named.NumMethods(); j++ {
					m := named.Method(j)
					if m.Exported() {
						if f := p.SSA.FuncValue(m); f != nil && f.Blocks != nil {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	return out
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

// fname is the stable name of a function: "pkg.Func", "pkg.Type.Method",
// with "$n" for function literals. The module path is dropped.
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		return fname(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	if o, ok := f.Object().(*types.Func); ok {
		return objName(o)
	}
	if f.Pkg != nil {
		return rel(f.Pkg.Pkg.Path()) + "." + f.Name()
	}
	return f.Name()
}

func objName(o *types.Func) string {
	o = o.Origin()
	pkg := ""
	if o.Pkg() != nil {
		pkg = rel(o.Pkg().Path()) + "."
	}
	if sig, ok := o.Type().(*types.Signature); ok && sig.Recv() != nil {
		t := sig.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return pkg + n.Obj().Name() + "." + o.Name()
		default:
			return pkg + "(iface)." + o.Name()
		}
	}
	return pkg + o.Name()
}
