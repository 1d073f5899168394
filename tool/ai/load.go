// Package ai is a flow- and context-sensitive abstract interpreter over the
// SSA form of the analysed repository.  Values are abstracted to normal forms
// of the algebra in package sym; control-flow merges are joins; loops are
// summarised by closed forms over their iteration space.
package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Lattigo = "github.com/ldsec/lattigo/v2"

type Prog struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by import path
	Repo  string
	Mod   string // module path of the analysed repository
	Errs  []string
	Files int
	Roots []*packages.Package
}

func Load(repo, sumFile string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "mkverif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(sumFile)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "x.mod"), mod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "x.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Dir: repo,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule | packages.NeedTypesSizes,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "x.mod"),
			"GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Pkgs: map[string]*ssa.Package{}, Repo: repo}
	for _, q := range ps {
		for _, e := range q.Errors {
			p.Errs = append(p.Errs, e.Error())
		}
		if q.Module != nil {
			p.Mod = q.Module.Path
		}
		p.Files += len(q.GoFiles)
		p.Fset = q.Fset
	}
	if len(p.Errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(p.Errs, "; "))
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	p.Roots = ps
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p.Prog = prog
	for _, q := range prog.AllPackages() {
		p.Pkgs[q.Pkg.Path()] = q
		if strings.HasPrefix(q.Pkg.Path(), p.Mod) || strings.HasPrefix(q.Pkg.Path(), Lattigo) || stdInterp[q.Pkg.Path()] {
			q.Build()
		}
	}
	return p, nil
}

// Func finds a function or method: Func("mkrlwe","","NewParameters") or Func("mkrlwe","KeyGenerator","GenPublicKey").
func (p *Prog) Func(pkg, recv, name string) *ssa.Function { return p.Method(pkg, recv, name, true) }

// Method resolves a function or method; byPtr tells how the receiver is passed.
func (p *Prog) Method(pkg, recv, name string, byPtr bool) *ssa.Function {
	q := p.pkg(pkg)
	if q == nil {
		return nil
	}
	if recv == "" {
		return q.Func(name)
	}
	t := q.Type(recv)
	if t == nil {
		return nil
	}
	tys := []types.Type{types.NewPointer(t.Type()), t.Type()}
	if !byPtr {
		tys = tys[1:]
	}
	for _, ty := range tys {
		ms := p.Prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Prog) pkg(short string) *ssa.Package {
	if q := p.Pkgs[p.Mod+"/"+short]; q != nil {
		return q
	}
	if q := p.Pkgs[Lattigo+"/"+short]; q != nil {
		return q
	}
	return p.Pkgs[short]
}

func (p *Prog) Type(pkg, name string) types.Type {
	q := p.pkg(pkg)
	if q == nil || q.Type(name) == nil {
		return nil
	}
	return q.Type(name).Type()
}

// InitOrder lists the packages of the repository, imported ones first.
func (p *Prog) InitOrder() []string {
	var out []string
	packages.Visit(p.Roots, nil, func(q *packages.Package) {
		if q.PkgPath == p.Mod || strings.HasPrefix(q.PkgPath, p.Mod+"/") {
			out = append(out, q.PkgPath)
		}
	})
	return out
}

// All lists the functions, methods and function literals of the program.
func (p *Prog) All() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.Prog) {
		out = append(out, fn)
	}
	return out
}

func (p *Prog) InRepo(fn *ssa.Function) bool {
	pk := fn.Package()
	if pk == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), p.Mod)
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Package() == nil {
		return false
	}
	return strings.HasPrefix(fn.Package().Pkg.Path(), p.Mod)
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else if i := strings.Index(f, "/lattigo/"); i >= 0 {
		f = "lattigo/" + f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
