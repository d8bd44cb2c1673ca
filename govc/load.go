package main

// Loading the code under verification: go/packages + go/ssa on the current working tree.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  []*packages.Package
	Funcs map[string]*ssa.Function // contract name -> function
	Mod   string                   // module path
	Repo  string
	sizes types.Sizes
}

func LoadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOFLAGS=-mod=readonly"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Fset: prog.Fset, Prog: prog, Pkgs: pkgs, Funcs: map[string]*ssa.Function{}, Repo: repo}
	p.sizes = types.SizesFor("gc", "amd64")
	for _, k := range pkgs {
		if k.Module != nil {
			p.Mod = k.Module.Path
		}
	}
	all := ssautil.AllFunctions(prog)
	var fs []*ssa.Function
	for f := range all {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		if f.Blocks == nil || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		n := p.FuncName(f)
		if !p.InRepo(f) {
			continue
		}
		if o := p.Funcs[n]; o == nil {
			p.Funcs[n] = f
		}
	}
	return p, nil
}

func (p *Program) InRepo(f *ssa.Function) bool {
	g := f
	if f.Origin() != nil {
		g = f.Origin()
	}
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	return g.Pkg != nil && g.Pkg.Pkg != nil && (g.Pkg.Pkg.Path() == p.Mod || strings.HasPrefix(g.Pkg.Pkg.Path(), p.Mod+"/"))
}

func pkgShort(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Name() == "main" {
		return path.Base(p.Path())
	}
	return p.Name()
}

func recvTypeName(t types.Type) (string, *types.Package) {
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name(), n.Obj().Pkg()
	}
	return "", nil
}

// FuncName gives the contract name of a function.
func (p *Program) FuncName(f *ssa.Function) string {
	if f.Parent() != nil {
		n := f.Name() // Parent$1
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		rn := p.FuncName(root)
		if i := strings.Index(n, "$"); i >= 0 {
			return rn + n[i:]
		}
		return rn + "$" + n
	}
	if r := f.Signature.Recv(); r != nil {
		tn, pk := recvTypeName(r.Type())
		return pkgShort(pk) + "." + tn + "." + f.Name()
	}
	g := f
	if f.Origin() != nil {
		g = f.Origin()
	}
	if g.Pkg != nil {
		return pkgShort(g.Pkg.Pkg) + "." + g.Name()
	}
	if f.Object() != nil {
		return pkgShort(f.Object().Pkg()) + "." + f.Name()
	}
	return f.Name()
}

// MethodName gives the contract name of an interface method.
func MethodName(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		tn, pk := recvTypeName(r.Type())
		if pk == nil && tn == "error" {
			return "error." + m.Name()
		}
		return pkgShort(pk) + "." + tn + "." + m.Name()
	}
	return m.FullName()
}

func (p *Program) Pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.Fset.Position(ps)
	return strings.TrimPrefix(q.Filename, p.Repo+"/") + fmt.Sprintf(":%d", q.Line)
}

func constBig(v constant.Value) *big.Int {
	x := constant.ToInt(v)
	if x.Kind() != constant.Int {
		return nil
	}
	if i, ok := constant.Int64Val(x); ok {
		return big.NewInt(i)
	}
	b, _ := new(big.Int).SetString(x.ExactString(), 10)
	return b
}

// ---- types

type intInfo struct {
	bits   int
	signed bool
}

func basicInt(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func intRange(i intInfo) (lo, hi *big.Int) {
	if i.signed {
		return new(big.Int).Neg(pow2(i.bits - 1)), new(big.Int).Sub(pow2(i.bits-1), big.NewInt(1))
	}
	return new(big.Int), new(big.Int).Sub(pow2(i.bits), big.NewInt(1))
}

func isFloat(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// sortOf: the SMT sort of a scalar Go type; "" for composites.
func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return SInt
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SInt
		}
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SIface
	}
	return ""
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	s := types.TypeString(t, func(p *types.Package) string { return pkgShort(p) })
	return s
}

// elemFam: heap family of slice/array elements of type e.
func elemFam(e types.Type) string {
	if i, ok := basicInt(e); ok && i.bits == 8 && !i.signed {
		return "E:u8"
	}
	if b, ok := e.Underlying().(*types.Basic); ok {
		return "E:" + b.Name()
	}
	if _, ok := e.Underlying().(*types.Interface); ok {
		return "E:" + typeName(e)
	}
	return "E:" + typeName(e)
}

func cellFam(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return "C:" + b.Name()
	}
	return "C:" + typeName(t)
}

// funcByName finds a function of a package that other modules can import, e.g. "md5.New".
func (p *Program) funcByName(n string) *ssa.Function {
	pk, fn, _ := strings.Cut(n, ".")
	var r *ssa.Function
	for _, q := range p.Prog.AllPackages() {
		if pkgShort(q.Pkg) == pk && !strings.Contains(q.Pkg.Path(), "internal/") {
			if f := q.Func(fn); f != nil && (r == nil || q.Pkg.Path() < r.Pkg.Pkg.Path()) {
				r = f
			}
		}
	}
	return r
}

// typeByName finds a type by the name used in contracts, e.g. "wpk.TagsetRaw", "*wpk.FTT".
func (p *Program) typeByName(n string) types.Type {
	if strings.HasPrefix(n, "*") {
		if t := p.typeByName(n[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(n, "[]") {
		if t := p.typeByName(n[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if !strings.Contains(n, ".") {
		if o := types.Universe.Lookup(n); o != nil {
			return o.Type()
		}
		return nil
	}
	pk, tn, _ := strings.Cut(n, ".")
	for _, q := range p.Prog.AllPackages() {
		if pkgShort(q.Pkg) == pk {
			if o := q.Pkg.Scope().Lookup(tn); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
