// Package engine is a flow-sensitive, context-sensitive abstract interpreter
// over the type-checked SSA form of a Go module.  It never runs the analysed
// program: it computes, for every program point of an inlined supergraph, an
// over-approximation of the values (as provenance terms) and of the monitor
// states that can reach it, to a fixpoint.
package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded module.
type Program struct {
	Dir     string
	Module  string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	byPath  map[string]*ssa.Package
	inMod   map[*ssa.Package]bool
	pkgByTy map[*types.Package]*packages.Package
	fns     []*ssa.Function
}

// Load type-checks every package of the module in dir (production files, the
// default build tags of this platform) and builds SSA for it.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local",
			"GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("loading packages: %w", err)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Pkgs: pkgs, SSA: prog, byPath: map[string]*ssa.Package{}, inMod: map[*ssa.Package]bool{},
		pkgByTy: map[*types.Package]*packages.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.byPath[pkgs[i].PkgPath] = sp
		p.inMod[sp] = true
		p.pkgByTy[pkgs[i].Types] = pkgs[i]
		p.Fset = pkgs[i].Fset
		if pkgs[i].Module != nil && p.Module == "" {
			p.Module = pkgs[i].Module.Path
		}
	}
	if p.Module == "" {
		return nil, fmt.Errorf("no module found in %s", dir)
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if p.InModule(fn) && len(fn.Blocks) > 0 {
			p.fns = append(p.fns, fn)
		}
	}
	sort.Slice(p.fns, func(i, j int) bool { return p.FnName(p.fns[i]) < p.FnName(p.fns[j]) })
	return p, nil
}

// Funcs lists every module function with a body (closures included).
func (p *Program) Funcs() []*ssa.Function { return p.fns }

// InModule says whether fn belongs to the analysed module.
func (p *Program) InModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.inMod[f.Pkg]
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return p.inMod[o.Pkg]
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			if strings.HasPrefix(f.Object().Pkg().Path(), p.Module) {
				return true
			}
		}
	}
	return false
}

// Pkg returns the SSA package at the module-relative path rel.
func (p *Program) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.byPath[p.Module]
	}
	return p.byPath[p.Module+"/"+rel]
}

// TPkg returns the go/packages package at the module-relative path.
func (p *Program) TPkg(rel string) *packages.Package {
	for _, q := range p.Pkgs {
		if q.PkgPath == p.Module+"/"+rel {
			return q
		}
	}
	return nil
}

// Short strips the module prefix from a qualified name.
func (p *Program) Short(s string) string {
	return strings.ReplaceAll(s, p.Module+"/", "")
}

// FnName is the module-relative qualified name of fn.
func (p *Program) FnName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	n := fn.String()
	if i := strings.IndexByte(n, '['); i > 0 && !strings.HasPrefix(n, "(") {
		n = n[:i]
	}
	return p.Short(n)
}

// Func resolves "pkg.Name" or "(pkg.Type).Name" or "(*pkg.Type).Name".
func (p *Program) Func(name string) *ssa.Function {
	if strings.HasPrefix(name, "(") {
		end := strings.Index(name, ").")
		recv, meth := name[1:end], name[end+2:]
		ptr := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		i := strings.LastIndex(recv, ".")
		pkg := p.Pkg(recv[:i])
		if pkg == nil {
			return nil
		}
		tn := pkg.Type(recv[i+1:])
		if tn == nil {
			return nil
		}
		var t types.Type = tn.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		fn := p.SSA.LookupMethod(t, pkg.Pkg, meth)
		return fn
	}
	i := strings.LastIndex(name, ".")
	pkg := p.Pkg(name[:i])
	if pkg == nil {
		return nil
	}
	return pkg.Func(name[i+1:])
}

// Method finds a method by name on a named type, whatever its receiver kind.
func (p *Program) Method(pkg, typ, meth string) *ssa.Function {
	if f := p.Func("(" + pkg + "." + typ + ")." + meth); f != nil && f.Synthetic == "" {
		return f
	}
	if f := p.Func("(*" + pkg + "." + typ + ")." + meth); f != nil && f.Synthetic == "" {
		return f
	}
	return nil
}

// Pos renders a position relative to the repository root.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// InstrPos finds the nearest usable position for an instruction.
func (p *Program) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	b := in.Block()
	if b != nil {
		seen := false
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if b.Instrs[i] == in {
				seen = true
			}
			if seen && b.Instrs[i].Pos().IsValid() {
				return p.Pos(b.Instrs[i].Pos())
			}
		}
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.Pos(x.Pos())
			}
		}
		return p.Pos(b.Parent().Pos())
	}
	return "?"
}

// ConstInt is the value of an integer constant of a module package.
func (p *Program) ConstInt(rel, name string) (int64, bool) {
	pk := p.Pkg(rel)
	if pk == nil {
		return 0, false
	}
	c, ok := pk.Members[name].(*ssa.NamedConst)
	if !ok || c.Value == nil {
		return 0, false
	}
	return c.Value.Int64(), true
}
