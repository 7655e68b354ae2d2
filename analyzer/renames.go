package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The checks and reference models refer to unexported declarations by name.
// Renaming such a declaration changes nothing a user sees, so before anything
// is analysed a declaration that is not found under its known name is looked
// for among the declarations that are not known, by kind, type and content,
// and the program is analysed with its known name put back. Only names are
// taken from the committed list; what the code does is read from the source.

//go:embed names.json
var namesJSON []byte

// Decl is one declaration of a package.
type Decl struct {
	Kind  string         `json:"k"` // func, type, field, value
	Owner string         `json:"o,omitempty"`
	Name  string         `json:"n"`
	Type  string         `json:"t,omitempty"`
	Use   map[string]int `json:"u,omitempty"` // what a function mentions
	Src   string         `json:"s,omitempty"` // unexported functions, with their imports
}

func (d *Decl) key() string { return d.Kind + " " + d.Owner + " " + d.Name }

// declarations lists what the packages below sttp declare.
func declarations(root string) (map[string][]*Decl, error) {
	out := map[string][]*Decl{}
	err := filepath.Walk(filepath.Join(root, "sttp"), func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return err
		}
		dir, _ := filepath.Rel(root, filepath.Dir(path))
		if strings.HasSuffix(dir, "/parser") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			ds := declsOf(d)
			if fd, ok := d.(*ast.FuncDecl); ok && !ast.IsExported(fd.Name.Name) && fd.Name.Name != "init" && fd.Body != nil {
				ds[0].Src = alone(f, fd)
			}
			out[dir] = append(out[dir], ds...)
		}
		return nil
	})
	return out, err
}

// alone prints a function as a file of its own.
func alone(f *ast.File, fd *ast.FuncDecl) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n", f.Name.Name)
	used := map[string]bool{}
	ast.Inspect(fd, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				used[x.Name] = true
			}
		}
		return true
	})
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := path[strings.LastIndexByte(path, '/')+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		if used[name] {
			fmt.Fprintf(&b, "import %s %s\n", name, im.Path.Value)
		}
	}
	c := *fd
	c.Doc = nil
	printer.Fprint(&b, token.NewFileSet(), &c)
	b.WriteString("\n")
	return b.String()
}

func declsOf(d ast.Decl) []*Decl {
	var out []*Decl
	switch x := d.(type) {
	case *ast.FuncDecl:
		fd := &Decl{Kind: "func", Name: x.Name.Name, Type: signature(x.Type), Use: bodyWords(x.Body)}
		if x.Recv != nil && len(x.Recv.List) == 1 {
			fd.Owner = recvName(x.Recv.List[0].Type)
			if _, ok := x.Recv.List[0].Type.(*ast.StarExpr); ok {
				fd.Type = "*" + fd.Type
			}
		}
		out = append(out, fd)
	case *ast.GenDecl:
		for _, s := range x.Specs {
			switch y := s.(type) {
			case *ast.TypeSpec:
				td := &Decl{Kind: "type", Name: y.Name.Name, Type: fmt.Sprintf("%T", y.Type)}
				var fields *ast.FieldList
				switch z := y.Type.(type) {
				case *ast.StructType:
					fields = z.Fields
				case *ast.InterfaceType:
					fields = z.Methods
				default:
					td.Type = types.ExprString(y.Type)
				}
				out = append(out, td)
				if fields == nil {
					continue
				}
				td.Use = map[string]int{}
				for _, f := range fields.List {
					t := types.ExprString(f.Type)
					td.Use[t]++
					for _, n := range f.Names {
						out = append(out, &Decl{Kind: "field", Owner: y.Name.Name, Name: n.Name, Type: t})
					}
				}
			case *ast.ValueSpec:
				for i, n := range y.Names {
					vd := &Decl{Kind: "value", Name: n.Name, Type: x.Tok.String(), Use: map[string]int{}}
					if y.Type != nil {
						vd.Use[types.ExprString(y.Type)]++
					}
					if i < len(y.Values) {
						vd.Use["="+short(types.ExprString(y.Values[i]))]++
					}
					if n.Name != "_" {
						out = append(out, vd)
					}
				}
			}
		}
	}
	return out
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

func recvName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return recvName(x.X)
	case *ast.IndexExpr:
		return recvName(x.X)
	case *ast.Ident:
		return x.Name
	}
	return ""
}

func signature(t *ast.FuncType) string {
	var b strings.Builder
	list := func(fl *ast.FieldList) {
		b.WriteString("(")
		if fl != nil {
			for _, f := range fl.List {
				n := len(f.Names)
				if n == 0 {
					n = 1
				}
				for i := 0; i < n; i++ {
					b.WriteString(types.ExprString(f.Type) + ",")
				}
			}
		}
		b.WriteString(")")
	}
	list(t.Params)
	list(t.Results)
	return b.String()
}

// bodyWords counts what does not depend on unexported names.
func bodyWords(b *ast.BlockStmt) map[string]int {
	out := map[string]int{}
	if b == nil {
		return out
	}
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BasicLit:
			out[short(x.Value)]++
		case *ast.Ident:
			if ast.IsExported(x.Name) {
				out[x.Name]++
			}
		case *ast.BinaryExpr:
			out[x.Op.String()]++
		case ast.Stmt:
			out[fmt.Sprintf("%T", x)]++
		}
		return true
	})
	return out
}

func alike(a, b map[string]int) float64 {
	lo, hi := 1, 1
	for k, n := range a {
		m := b[k]
		lo += min(n, m)
		hi += max(n, m)
	}
	for k, m := range b {
		if _, ok := a[k]; !ok {
			hi += m
		}
	}
	return float64(lo) / float64(hi)
}

type rename struct {
	dir, kind, owner string // owner by its current name
	old, new         string
}

func (r rename) String() string {
	o := r.dir + "."
	if r.owner != "" {
		o += r.owner + "."
	}
	return o + r.new + " is taken for " + r.old
}

// renamesOf finds the known declarations that have another name now, and the
// functions that are gone or take other parameters. The body such a function
// had is what reference models that call it mean; it is judged inside them.
func renamesOf(known, now map[string][]*Decl) (out []rename, gone map[string][]*Decl) {
	gone = map[string][]*Decl{}
	for dir, was := range known {
		is := now[dir]
		names := map[string]string{} // current type name -> known one
		word := regexp.MustCompile(`\w+`)
		back := func(s string) string {
			return word.ReplaceAllStringFunc(s, func(w string) string {
				if o, ok := names[w]; ok {
					return o
				}
				return w
			})
		}
		for _, kind := range []string{"type", "field", "func", "value"} {
			have, want := map[string]bool{}, map[string]bool{}
			for _, d := range is {
				if d.Kind == kind {
					have[kind+" "+back(d.Owner)+" "+d.Name] = true
				}
			}
			for _, d := range was {
				want[d.key()] = true
			}
			var missing, fresh []*Decl
			for _, d := range was {
				if d.Kind == kind && !have[d.key()] && !ast.IsExported(d.Name) {
					missing = append(missing, d)
				}
			}
			for _, d := range is {
				if d.Kind == kind && !want[kind+" "+back(d.Owner)+" "+d.Name] && !ast.IsExported(d.Name) {
					fresh = append(fresh, d)
				}
			}
			type pair struct {
				m, f  int
				score float64
				order int
			}
			var pairs []pair
			for i, m := range missing {
				for j, f := range fresh {
					if m.Owner != back(f.Owner) || m.Type != back(f.Type) {
						continue
					}
					use := map[string]int{}
					for k, n := range f.Use {
						use[back(k)] += n
					}
					s := alike(m.Use, use)
					if s < 0.4 {
						continue
					}
					d := i - j
					pairs = append(pairs, pair{i, j, s, d * d})
				}
			}
			sort.SliceStable(pairs, func(a, b int) bool {
				if pairs[a].score != pairs[b].score {
					return pairs[a].score > pairs[b].score
				}
				return pairs[a].order < pairs[b].order
			})
			um, uf := map[int]bool{}, map[int]bool{}
			for _, p := range pairs {
				if um[p.m] || uf[p.f] {
					continue
				}
				um[p.m], uf[p.f] = true, true
				m, f := missing[p.m], fresh[p.f]
				out = append(out, rename{dir, kind, f.Owner, m.Name, f.Name})
				if kind == "type" {
					names[f.Name] = m.Name
				}
			}
			if kind != "func" {
				continue
			}
			for i, m := range missing {
				if !um[i] && m.Src != "" {
					gone[dir] = append(gone[dir], m)
				}
			}
			for _, d := range is {
				for _, m := range was {
					if d.Kind == "func" && m.Kind == "func" && m.Src != "" && m.Name == d.Name && m.Owner == back(d.Owner) && m.Type != back(d.Type) {
						gone[dir] = append(gone[dir], m)
						out = append(out, rename{dir, kind, d.Owner, d.Name + "__now", d.Name})
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out, gone
}

// knownNames gives the sources with known names put back.
func knownNames(root string, env []string) (map[string][]byte, []rename, []string, error) {
	known := map[string][]*Decl{}
	if err := json.Unmarshal(namesJSON, &known); err != nil {
		return nil, nil, nil, err
	}
	now, err := declarations(root)
	if err != nil {
		return nil, nil, nil, err
	}
	rs, gone := renamesOf(known, now)
	if len(rs) == 0 && len(gone) == 0 {
		return nil, nil, nil, nil
	}
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule
	load := func(overlay map[string][]byte) (*token.FileSet, map[string]*packages.Package, []packages.Error) {
		fset := token.NewFileSet()
		ps, err := packages.Load(&packages.Config{Mode: mode, Dir: root, Env: env, Fset: fset, Overlay: overlay}, "./sttp/...")
		if err != nil {
			return nil, nil, []packages.Error{{Msg: err.Error()}}
		}
		out := map[string]*packages.Package{}
		var errs []packages.Error
		for _, p := range ps {
			errs = append(errs, p.Errors...)
			out[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] = p
		}
		return fset, out, errs
	}
	fset, pkgs, errs := load(nil)
	if len(errs) > 0 {
		return nil, nil, nil, errs[0]
	}
	// each package is type-checked against the export data of the others, so
	// objects of other packages are found by name
	type use struct {
		file     string
		off, len int
		name     string
	}
	find := func(p *packages.Package, kind, owner, name string) types.Object {
		if kind == "type" || kind == "value" || kind == "func" && owner == "" {
			return p.Types.Scope().Lookup(name)
		}
		t := p.Types.Scope().Lookup(owner)
		if t == nil {
			return nil
		}
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t.Type()), true, p.Types, name)
		if types.IsInterface(t.Type()) {
			o, _, _ = types.LookupFieldOrMethod(t.Type(), true, p.Types, name)
		}
		return o
	}
	uses := func(fset *token.FileSet, p *packages.Package, objs map[types.Object]string) []use {
		var out []use
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := p.TypesInfo.Defs[id]
				if o == nil {
					o = p.TypesInfo.Uses[id]
				}
				switch x := o.(type) {
				case *types.Var:
					o = x.Origin()
					if x.IsField() && x.Embedded() {
						if n := namedOf(x.Type()); n != nil && objs[n.Origin().Obj()] != "" {
							o = n.Origin().Obj()
						}
					}
				case *types.Func:
					o = x.Origin()
				}
				if old, ok := objs[o]; ok {
					q := fset.Position(id.Pos())
					out = append(out, use{q.Filename, q.Offset, len(id.Name), old})
				}
				return true
			})
		}
		return out
	}
	edits := map[string][]use{}
	count := map[string]int{}
	for dir, p := range pkgs {
		objs := map[types.Object]string{}
		for _, r := range rs {
			if r.dir != dir {
				continue
			}
			o := find(p, r.kind, r.owner, r.new)
			if o == nil {
				return nil, nil, nil, fmt.Errorf("%s is not found", r)
			}
			objs[o] = r.old
		}
		if len(objs) == 0 {
			continue
		}
		for _, u := range uses(fset, p, objs) {
			edits[u.file] = append(edits[u.file], u)
			count[dir]++
		}
	}
	overlay := map[string][]byte{}
	for file, es := range edits {
		src, err := os.ReadFile(file)
		if err != nil {
			return nil, nil, nil, err
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
		for _, e := range es {
			src = append(src[:e.off:e.off], append([]byte(e.name), src[e.off+e.len:]...)...)
		}
		overlay[file] = src
	}
	// the known names must mean the same declarations everywhere
	fset, pkgs, errs = load(overlay)
	if len(errs) > 0 {
		return nil, nil, nil, errs[0]
	}
	owner := func(r rename) string {
		for _, t := range rs {
			if t.kind == "type" && t.dir == r.dir && t.new == r.owner {
				return t.old
			}
		}
		return r.owner
	}
	for dir, p := range pkgs {
		objs := map[types.Object]string{}
		for _, r := range rs {
			if r.dir == dir {
				if o := find(p, r.kind, owner(r), r.old); o != nil {
					objs[o] = r.old
				}
			}
		}
		if len(objs) > 0 && len(uses(fset, p, objs)) != count[dir] {
			return nil, nil, nil, fmt.Errorf("known names in %s would be confused with others", dir)
		}
	}
	names := map[string]string{}
	for dir, ds := range gone {
		for i, d := range ds {
			file := fmt.Sprintf("%s/%s/zz_reference_gone%d.go", root, dir, i)
			overlay[file] = []byte(d.Src)
			names[file] = d.short(dir)
		}
	}
	for len(names) > 0 {
		_, _, errs := load(overlay)
		if len(errs) == 0 {
			break
		}
		found := false
		for _, e := range errs {
			file := strings.SplitN(e.Pos, ":", 2)[0]
			if _, ok := names[file]; ok {
				debugf("%s cannot be put back: %v", names[file], e)
				delete(overlay, file)
				delete(names, file)
				found = true
			}
		}
		if !found {
			return nil, nil, nil, errs[0]
		}
	}
	var back []string
	for _, n := range names {
		back = append(back, n)
	}
	sort.Strings(back)
	return overlay, rs, back, nil
}

// short is the name shortFn gives a function.
func (d *Decl) short(dir string) string {
	n := dir[strings.LastIndexByte(dir, '/')+1:] + "."
	if d.Owner != "" {
		if strings.HasPrefix(d.Type, "*") {
			return n + "(*" + d.Owner + ")." + d.Name
		}
		return n + "(" + d.Owner + ")." + d.Name
	}
	return n + d.Name
}

// writeNames records the declarations of a tree.
func writeNames(root, file string) error {
	ds, err := declarations(root)
	if err != nil {
		return err
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(ds); err != nil {
		return err
	}
	return os.WriteFile(file, bytes.ReplaceAll(b.Bytes(), []byte("},{"), []byte("},\n{")), 0o644)
}
