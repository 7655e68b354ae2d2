package main

import (
	"go/ast"
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// EnumMember is one field of a package-level struct used as a code table.
type EnumMember struct {
	Name  string
	Value constant.Value
	Type  types.Type
}

// Enum is a package-level `var X = struct{...}{...}` with constant fields.
type Enum struct {
	Name    string // "transport.ServerCommand"
	Global  *ssa.Global
	Members []EnumMember
	Elem    types.Type // common member type, nil if mixed
	writes  []string
}

type Enums struct {
	byName   map[string]*Enum
	byGlobal map[*ssa.Global]*Enum
	byType   map[string][]*Enum
	globals  map[*ssa.Global]constant.Value // scalar globals with constant initialiser and no writes
}

func (e *Enum) value(name string) (constant.Value, bool) {
	for _, m := range e.Members {
		if m.Name == name {
			return m.Value, true
		}
	}
	return nil, false
}

// field returns the constant for a field index.
func (e *Enum) field(i int) (EnumMember, bool) {
	if i < len(e.Members) && e.Members[i].Value != nil {
		return e.Members[i], true
	}
	return EnumMember{}, false
}

func collectEnums(r *Repo) *Enums {
	es := &Enums{byName: map[string]*Enum{}, byGlobal: map[*ssa.Global]*Enum{}, byType: map[string][]*Enum{}, globals: map[*ssa.Global]constant.Value{}}
	for rel, p := range r.pkgs {
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range gd.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok || len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, n := range vs.Names {
						obj, ok := p.TypesInfo.Defs[n].(*types.Var)
						if !ok {
							continue
						}
						g, ok := r.spkgs[rel].Members[n.Name].(*ssa.Global)
						if !ok {
							continue
						}
						cl, ok := ast.Unparen(vs.Values[i]).(*ast.CompositeLit)
						if !ok {
							continue
						}
						st, ok := obj.Type().Underlying().(*types.Struct)
						if !ok || st.NumFields() == 0 {
							continue
						}
						if _, named := obj.Type().(*types.Named); named {
							continue
						}
						e := &Enum{Name: p.Types.Name() + "." + n.Name, Global: g}
						for k := 0; k < st.NumFields(); k++ {
							f := st.Field(k)
							e.Members = append(e.Members, EnumMember{Name: f.Name(), Type: f.Type()})
						}
						allConst := true
						for k, el := range cl.Elts {
							idx, ex := k, el
							if kv, ok := el.(*ast.KeyValueExpr); ok {
								id, ok := kv.Key.(*ast.Ident)
								if !ok {
									allConst = false
									continue
								}
								idx, ex = -1, kv.Value
								for q, m := range e.Members {
									if m.Name == id.Name {
										idx = q
									}
								}
							}
							tv := p.TypesInfo.Types[ex]
							if tv.Value == nil || idx < 0 {
								allConst = false
								continue
							}
							e.Members[idx].Value = tv.Value
						}
						for q := range e.Members {
							if e.Members[q].Value == nil {
								if b, ok := e.Members[q].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
									e.Members[q].Value = constant.MakeInt64(0)
								} else {
									allConst = false
								}
							}
						}
						if !allConst {
							continue
						}
						e.Elem = e.Members[0].Type
						for _, m := range e.Members {
							if !types.Identical(m.Type, e.Elem) {
								e.Elem = nil
								break
							}
						}
						es.byName[e.Name] = e
						es.byGlobal[g] = e
						if e.Elem != nil {
							es.byType[typeStr(e.Elem)] = append(es.byType[typeStr(e.Elem)], e)
						}
					}
				}
			}
		}
	}
	// find writes outside package initialisers
	for _, f := range r.funcs {
		if f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					g := globalRoot(*op)
					if g == nil {
						continue
					}
					e := es.byGlobal[g]
					if e == nil {
						continue
					}
					// only loads and address computations are allowed
					switch x := in.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
					default:
						_ = x
						e.writes = append(e.writes, r.instrPos(in))
					}
				}
			}
		}
	}
	return es
}

func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (es *Enums) list() []*Enum {
	var l []*Enum
	for _, e := range es.byName {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	return l
}
