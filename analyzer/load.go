package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sttp/goapi"

// Repo is the loaded, type-checked program under analysis.
type Repo struct {
	root    string
	specs   map[string]*ssa.Function // reference models
	fset    *token.FileSet
	pkgs    map[string]*packages.Package // by path relative to the module ("sttp/transport")
	prog    *ssa.Program
	spkgs   map[string]*ssa.Package
	funcs   []*ssa.Function // every repository function with a body, incl. closures
	named   map[string]*ssa.Function
	enums   *Enums
	tables  map[*ssa.Global]*Table
	objs    []Object
	mu      sync.Mutex
	renames []rename
	gone    map[string]bool // functions that only reference models call
	cg      map[*ssa.Function][]*ssa.Function
}

func loadRepo(root string, overlay map[string][]byte) (*Repo, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule
	named, renames, gone, err := knownNames(root, env)
	if err != nil {
		debugf("known names are not put back: %v", err)
	}
	if len(named) > 0 {
		for f, b := range overlay {
			named[f] = b
		}
		overlay = named
	}
	r, err := tryLoad(root, env, mode, overlay)
	if err != nil {
		r, err = tryLoad(root, env, mode|packages.NeedDeps, overlay)
	}
	if r != nil {
		r.renames = renames
		for _, n := range gone {
			r.gone[n] = true
		}
	}
	return r, err
}

func tryLoad(root string, env []string, mode packages.LoadMode, overlay map[string][]byte) (*Repo, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: mode, Dir: root, Env: env, Fset: fset, Tests: false, Overlay: overlay}
	initial, err := packages.Load(cfg, "./sttp/...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(initial, ssa.InstantiateGenerics|ssa.GlobalDebug)
	r := &Repo{root: root, fset: fset, pkgs: map[string]*packages.Package{}, prog: prog, spkgs: map[string]*ssa.Package{}, named: map[string]*ssa.Function{}, specs: map[string]*ssa.Function{}, gone: map[string]bool{}}
	for i, p := range initial {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		r.pkgs[rel] = p
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		r.spkgs[rel] = spkgs[i]
	}
	prog.Build()
	all := ssautil.AllFunctions(prog)
	for _, p := range initial {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if f := prog.FuncValue(nt.Method(i)); f != nil {
					all[f] = true
				}
			}
		}
	}
	for f := range all {
		if f.Blocks == nil || r.relPkg(f) == "" {
			continue
		}
		if isSpecFile(fset.Position(f.Pos()).Filename) {
			if f.Parent() == nil && f.Synthetic == "" && strings.HasPrefix(f.Name(), "ref") {
				r.specs[f.Name()] = f
			}
			continue
		}
		r.funcs = append(r.funcs, f)
	}
	sort.Slice(r.funcs, func(i, j int) bool {
		a, b := r.funcs[i], r.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, f := range r.funcs {
		if f.Parent() == nil && f.Synthetic == "" {
			r.named[r.fname(f)] = f
		}
	}
	if len(r.pkgs) < 10 || len(r.funcs) < 500 {
		return nil, fmt.Errorf("implausible program: %d packages, %d functions", len(r.pkgs), len(r.funcs))
	}
	r.enums = collectEnums(r)
	r.tables = collectTables(r)
	return r, nil
}

// relPkg returns the module-relative package path of a repository function.
func (r *Repo) relPkg(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return relPath(g.Pkg.Pkg)
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return relPath(o.Pkg.Pkg)
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return relPath(g.Object().Pkg())
		}
	}
	return ""
}

func relPath(p *types.Package) string {
	if p == nil || !strings.HasPrefix(p.Path(), modPath) {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

// fname gives "transport.(*DataSubscriber).Subscribe" style names.
func (r *Repo) fname(f *ssa.Function) string {
	return shortFn(f)
}

func shortFn(f *ssa.Function) string {
	if f.Parent() != nil {
		return shortFn(f.Parent()) + "$" + f.Name()
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Name()
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			t, ptr = p.Elem(), "*"
		}
		n := types.TypeString(t, func(*types.Package) string { return "" })
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		return pkg + ".(" + ptr + n + ")." + f.Name()
	}
	return pkg + "." + f.Name()
}

// fn resolves a function by short name; unresolved anchors are check errors.
func (r *Repo) fn(name string) *ssa.Function {
	if f, ok := r.named[name]; ok {
		return f
	}
	undecided("anchor %q not found in the repository", name)
	return nil
}

// spec resolves a reference model.
func (r *Repo) spec(name string) *ssa.Function {
	if f, ok := r.specs[name]; ok {
		return f
	}
	undecided("reference model %q not found", name)
	return nil
}

func (r *Repo) tryFn(name string) *ssa.Function { return r.named[name] }

func (r *Repo) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := r.fset.Position(p)
	rel, err := filepath.Rel(r.root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (r *Repo) instrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return r.pos(i.Pos())
	}
	// nearest positioned instruction in the block
	for _, j := range i.Block().Instrs {
		if j.Pos().IsValid() {
			return r.pos(j.Pos())
		}
	}
	return r.pos(i.Parent().Pos())
}

// typ resolves a named type "transport.DataSubscriber".
func (r *Repo) typ(name string) *types.Named {
	pk, tn, _ := strings.Cut(name, ".")
	for _, p := range r.pkgs {
		if p.Types.Name() == pk {
			if o := p.Types.Scope().Lookup(tn); o != nil {
				if n, ok := o.Type().(*types.Named); ok {
					return n
				}
			}
		}
	}
	undecided("type %q not found in the repository", name)
	return nil
}

func (r *Repo) isRepoFn(f *ssa.Function) bool { return r.relPkg(f) != "" }

// methods lists the repository methods of a named type (pointer receiver set).
func (r *Repo) methods(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.funcs {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if recv := f.Signature.Recv(); recv != nil {
			t := recv.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if m, ok := t.(*types.Named); ok && m.Origin() == n.Origin() {
				out = append(out, f)
			}
		}
	}
	return out
}

// callees returns static callees, closures and address-taken functions.
func (r *Repo) callees(f *ssa.Function) []*ssa.Function {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cg == nil {
		r.cg = map[*ssa.Function][]*ssa.Function{}
	}
	if c, ok := r.cg[f]; ok {
		return c
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					add(unwrapBound(v))
				case *ssa.MakeClosure:
					add(unwrapBound(v.Fn.(*ssa.Function)))
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(unwrapBound(mc.Fn.(*ssa.Function)))
			}
		}
	}
	r.cg[f] = out
	return out
}

// unwrapBound maps bound-method and thunk wrappers to the wrapped method.
func unwrapBound(f *ssa.Function) *ssa.Function {
	if f == nil || f.Synthetic == "" || f.Blocks == nil {
		return f
	}
	if strings.HasPrefix(f.Synthetic, "bound method wrapper") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "wrapper") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						return g
					}
				}
			}
		}
	}
	return f
}

// reach returns all repository functions reachable from roots through static
// calls, closures and address-taken functions.
func (r *Repo) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, g := range r.callees(f) {
			rec(g)
		}
	}
	for _, f := range roots {
		rec(f)
	}
	return seen
}

// fileOf finds the syntax file containing pos.
func (r *Repo) fileOf(pos token.Pos) *ast.File {
	for _, p := range r.pkgs {
		for _, f := range p.Syntax {
			if f.FileStart <= pos && pos < f.FileEnd {
				return f
			}
		}
	}
	return nil
}
