package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// valueTypeName is the type that the generic code is instantiated with. It is
// declared in an overlay file, so that stored values are recognisable by type.
const valueTypeName = "verifStoredValue"

// Prog is the loaded program, with the generic code instantiated.
type Prog struct {
	dir    string
	fset   *token.FileSet
	prog   *ssa.Program
	pkg    *ssa.Package
	tpkg   *types.Package
	valT   types.Type
	funcs  []*ssa.Function // all concrete functions of the package, with bodies
	infn   map[*ssa.Function]bool
	types  map[string]*types.Named // instantiated named types by name
	errs   []string
	nFiles int
}

func loadProg(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=readonly", "GO111MODULE=on", "CGO_ENABLED=0")
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
		packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule

	// First a light pass, to learn the package name and its generic functions.
	cfg0 := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: dir, Env: env}
	p0, err := packages.Load(cfg0, ".")
	if err != nil {
		return nil, err
	}
	if len(p0) != 1 || len(p0[0].Errors) > 0 {
		if len(p0) == 1 {
			return nil, fmt.Errorf("load: %v", p0[0].Errors)
		}
		return nil, fmt.Errorf("load: %d packages", len(p0))
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\ntype %s struct{ p *int }\n\n", p0[0].Name, valueTypeName)
	scope := p0[0].Types.Scope()
	for _, name := range scope.Names() {
		obj := scope.Lookup(name)
		switch obj := obj.(type) {
		case *types.Func:
			sig := obj.Type().(*types.Signature)
			if tp := sig.TypeParams(); tp != nil && tp.Len() == 1 {
				fmt.Fprintf(&b, "var _ = %s[%s]\n", name, valueTypeName)
			}
		case *types.TypeName:
			if n, ok := obj.Type().(*types.Named); ok && n.TypeParams().Len() == 1 {
				fmt.Fprintf(&b, "var _ *%s[%s]\n", name, valueTypeName)
			}
		}
	}
	overlay := filepath.Join(dir, "zz_verif_overlay.go")
	cfg := &packages.Config{Mode: mode, Dir: dir, Env: env, Overlay: map[string][]byte{overlay: []byte(b.String())}}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("load: %d packages", len(pkgs))
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	sprog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &Prog{dir: dir, fset: sprog.Fset, prog: sprog, pkg: spkgs[0], tpkg: spkgs[0].Pkg, infn: map[*ssa.Function]bool{}, types: map[string]*types.Named{}}
	for _, f := range pkgs[0].CompiledGoFiles {
		if !strings.HasSuffix(f, "zz_verif_overlay.go") {
			pr.nFiles++
		}
	}
	pr.valT = pr.tpkg.Scope().Lookup(valueTypeName).Type()
	pr.pkg.Build()
	for _, p := range []string{"bytes", "sort", "slices", "cmp", "strings", "maps", "unicode/utf8", "math/bits"} {
		if sp := sprog.ImportedPackage(p); sp != nil {
			sp.Build()
		}
	}
	// Instantiate the methods of every named type.
	ctx := types.NewContext()
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && pr.inPackage(f) {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, name := range pr.tpkg.Scope().Names() {
		obj := pr.tpkg.Scope().Lookup(name)
		switch obj := obj.(type) {
		case *types.TypeName:
			n, ok := obj.Type().(*types.Named)
			if !ok || obj.IsAlias() {
				continue
			}
			if n.TypeParams().Len() == 1 {
				inst, err := types.Instantiate(ctx, n, []types.Type{pr.valT}, true)
				if err != nil {
					continue
				}
				n = inst.(*types.Named)
			} else if n.TypeParams().Len() > 1 {
				continue
			}
			pr.types[name] = n
			if types.IsInterface(n) {
				continue
			}
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				ms := sprog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(sprog.MethodValue(ms.At(i)))
				}
			}
		case *types.Func:
			if f := pr.pkg.Func(name); f != nil && f.TypeParams().Len() == 0 {
				add(f)
			}
		}
	}
	// The initialiser references the instances of the generic functions.
	add(pr.pkg.Func("init"))
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if fn, ok := (*op).(*ssa.Function); ok {
						add(fn)
					}
				}
			}
		}
	}
	for f := range seen {
		if len(f.Blocks) == 0 || f.Name() == "init" || f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		if f.Synthetic != "" && f.Origin() == nil && !strings.Contains(f.Synthetic, "instance") {
			continue // wrappers
		}
		pr.funcs = append(pr.funcs, f)
		pr.infn[f] = true
	}
	sort.Slice(pr.funcs, func(i, j int) bool {
		a, b := pr.funcs[i], pr.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return pr, nil
}

func (p *Prog) inPackage(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg == p.pkg {
			return true
		}
		if o := g.Origin(); o != nil && o.Pkg == p.pkg {
			return true
		}
		if g.Object() != nil && g.Object().Pkg() == p.tpkg {
			return true
		}
	}
	return false
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

// fname is a short readable name: Type.method or function.
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return fname(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	name := f.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return n.Obj().Name() + "." + name
		}
	}
	return name
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	return n
}
