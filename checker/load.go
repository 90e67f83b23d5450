package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

const driverPkg = "zzverif"

const mod = "github.com/nanobus/iota/go"

var repoDir = "/repo"

type World struct {
	Prog *ssa.Program
	Fset *token.FileSet
	Pkgs map[string]*packages.Package
	SSA  map[string]*ssa.Package
}

type fatal struct{ msg string }

func failf(f string, a ...any) { panic(fatal{fmt.Sprintf(f, a...)}) }

func load(pats ...string) *World { return loadWith(nil, pats...) }

// loadWith adds a package of drivers, never built or run, to the program: it
// instantiates the generic library code and names the operations the analyses
// compose.
func loadWith(driver []byte, pats ...string) *World {
	for i, p := range pats {
		if !strings.Contains(p, "...") && !strings.HasPrefix(p, "github.com") {
			pats[i] = mod + "/" + p
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repoDir, Env: goEnv(), Tests: false}
	if driver != nil {
		cfg.Overlay = map[string][]byte{filepath.Join(repoDir, driverPkg, "driver.go"): driver}
		pats = append(pats, mod+"/"+driverPkg)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		failf("cannot load %v: %v", pats, err)
	}
	w := &World{Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		w.Pkgs[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, mod) {
			for _, e := range p.Errors {
				failf("package %s does not type-check: %v", p.PkgPath, e)
			}
		}
	})
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			failf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	w.Fset = prog.Fset
	for _, p := range prog.AllPackages() {
		w.SSA[p.Pkg.Path()] = p
	}
	return w
}

func (w *World) pkg(p string) *ssa.Package {
	if !strings.HasPrefix(p, "github.com") {
		p = mod + "/" + p
	}
	r := w.SSA[p]
	if r == nil {
		failf("unresolved anchor: package %s", p)
	}
	return r
}

func (w *World) fn(p, name string) *ssa.Function {
	f := w.pkg(p).Func(name)
	if f == nil {
		failf("unresolved anchor: function %s.%s", p, name)
	}
	return f
}

func (w *World) named(p, name string) *types.Named {
	m := w.pkg(p).Members[name]
	t, ok := m.(*ssa.Type)
	if !ok {
		failf("unresolved anchor: type %s.%s", p, name)
	}
	n, ok := t.Type().(*types.Named)
	if !ok {
		failf("unresolved anchor: %s.%s is not a named type", p, name)
	}
	return n
}

// method finds a method on T or *T.
func (w *World) method(p, typ, name string) *ssa.Function {
	n := w.named(p, typ)
	f := w.methodOf(types.NewPointer(n), name)
	if f == nil {
		failf("unresolved anchor: method %s.%s.%s", p, typ, name)
	}
	return f
}

func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	ms := w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (w *World) konst(p, name string) int64 {
	m := w.pkg(p).Members[name]
	c, ok := m.(*ssa.NamedConst)
	if !ok {
		failf("unresolved anchor: constant %s.%s", p, name)
	}
	return c.Value.Int64()
}

func (w *World) at(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	p := w.Fset.Position(pos)
	f := p.Filename
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (w *World) interp() *ai.Interp {
	in := ai.New(w.Prog, mod)
	in.OnAccess = w.noteShared
	return in
}

// sharedWrites are the writes of package-level variables made with no lock held.
var sharedWrites = map[string]string{}

func (w *World) noteShared(st *ai.State, fn *ssa.Function, p *ai.PtrV, write bool, pos token.Pos, _ ssa.Instruction) {
	if !write || len(st.Locks) > 0 {
		return
	}
	o := st.Obj(p.Obj)
	if o == nil || !strings.HasPrefix(o.Label, "global:") {
		return
	}
	if fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#") {
		return
	}
	k := strings.TrimPrefix(o.Label, "global:")
	if _, ok := sharedWrites[k]; !ok {
		sharedWrites[k] = fmt.Sprintf("%s: %s", w.at(pos), shortFn(fn))
	}
}

// pureCodecs are the properties of functions that any number of goroutines
// may call at once on values of their own.
var pureCodecs = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true,
	"C08": true, "C10": true, "C17": true, "C23": true, "C24": true, "C25": true, "C28": true, "C31": true, "C32": true, "C33": true, "C34": true}

// field index by name
func fieldIdx(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	// a private field may be called anything: take the one that has its type
	is := map[string]func(types.Type) bool{
		"buffer":     func(t types.Type) bool { return isByteSlice(t) },
		"byteOffset": func(t types.Type) bool { b, ok := t.(*types.Basic); return ok && b.Info()&types.IsInteger != 0 },
		"err":        isErrorType,
		"reader":     func(t types.Type) bool { n, ok := t.(*types.Named); return ok && n.Obj().Name() == "DataReader" },
	}[name]
	found := -1
	for i := 0; is != nil && i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			if found >= 0 {
				failf("unresolved anchor: field %s of %s: several fields have its type", name, t)
			}
			found = i
		}
	}
	if found < 0 {
		failf("unresolved anchor: field %s of %s", name, t)
	}
	return found
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// global finds a package variable by name or, as it may be called anything,
// as the only one that satisfies a predicate.
func (w *World) global(p, name string, is func(*ssa.Global) bool) *ssa.Global {
	if g := w.pkg(p).Var(name); g != nil {
		return g
	}
	var found *ssa.Global
	for _, m := range w.pkg(p).Members {
		if g, ok := m.(*ssa.Global); ok && !strings.Contains(g.Name(), "$") && is(g) {
			if found != nil {
				return nil
			}
			found = g
		}
	}
	return found
}

// uses tells how a package's functions use its variables.
func (w *World) uses(p string, see func(g *ssa.Global, i ssa.Instruction)) {
	for _, fn := range ai.PkgFuncs(w.Prog, w.pkg(p)) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						see(g, i)
					}
				}
			}
		}
	}
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOOS", "GOARCH", "GOPROXY", "GOTOOLCHAIN":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local")
	return env
}

func listPackages(pats ...string) []string {
	pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName, Dir: repoDir, Env: goEnv()}, pats...)
	if err != nil {
		failf("cannot list packages: %v", err)
	}
	var r []string
	for _, p := range pkgs {
		r = append(r, p.PkgPath)
	}
	return r
}
