package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Object is a package-level variable set once, during initialisation, to the
// result of a call with constant arguments.
type Object struct {
	g    *ssa.Global
	call *ssa.Call
}

func (r *Repo) objects() []Object {
	if r.objs == nil {
		r.objs = append([]Object{}, collectObjects(r)...)
	}
	return r.objs
}

// collectObjects finds the objects of every package.
func collectObjects(r *Repo) []Object {
	set := map[*ssa.Global]*ssa.Call{}
	n := map[*ssa.Global]int{}
	mutated := mutatedStructs(r)
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						n[g]++
						if call, ok := st.Val.(*ssa.Call); ok && f.Synthetic == "package initializer" && call.Call.StaticCallee() != nil {
							consts := true
							for _, a := range call.Call.Args {
								consts = consts && isConstArg(a)
							}
							if consts {
								set[g] = call
							}
						}
					} else if ld, ok := in.(*ssa.UnOp); (!ok || ld.Op != token.MUL || mutated[ptrElemOf(ld.Type())]) && !readOnlyUse(in, g) {
						n[g] += 2
					}
				}
			}
		}
	}
	var out []Object
	for g, call := range set {
		if n[g] == 1 {
			out = append(out, Object{g, call})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].g.String() < out[j].g.String() })
	return out
}

// mutatedStructs lists the structures with a field that is assigned other than
// to a new object.
func mutatedStructs(r *Repo) map[types.Type]bool {
	out := map[types.Type]bool{nil: true}
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for {
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					if _, ok := fa.X.(*ssa.Alloc); !ok {
						out[ptrElemOf(fa.X.Type())] = true
					}
					a = fa.X
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					out[ptrElemOf(a.Type())] = true
				}
			}
		}
	}
	return out
}

// ptrElemOf is the named structure a pointer type refers to, nil if there is none.
func ptrElemOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return n
			}
		}
	}
	return nil
}

func isConstArg(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return isConstArg(x.X)
	case *ssa.UnOp:
		// a field of an enumeration
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		_, ok = fa.X.(*ssa.Global)
		return ok
	case *ssa.Convert:
		return isConstArg(x.X)
	case *ssa.ChangeType:
		return isConstArg(x.X)
	}
	return false
}

// withObjects gives the variables of package pkg their initial values.
func (ip *Interp) withObjects(st *State, pkg *types.Package) *State {
	for _, o := range ip.r.objects() {
		if o.g.Pkg.Pkg != pkg {
			continue
		}
		callee := o.call.Call.StaticCallee()
		fr := &frame{fn: o.call.Parent(), env: map[ssa.Value]*MT{}, tup: map[ssa.Value][]*MT{}, base: ip.True}
		var args []*MT
		for _, a := range o.call.Call.Args {
			args = append(args, ip.constArg(fr, a, st))
		}
		var v *MT
		if ip.r.isRepoFn(callee) {
			res := ip.run(callee, args, nil, st, ip.True)
			if res.pc != ip.True || len(res.rets) != 1 {
				continue
			}
			st, v = res.st, res.rets[0]
		} else if isPureExt(extName(callee)) {
			rets := ip.pure(extName(callee), args, callee.Signature, st, o.call.Common())
			if len(rets) != 1 {
				continue
			}
			v = rets[0]
		} else {
			continue
		}
		t := ip.mk("global", o.g.Pkg.Pkg.Name()+"."+o.g.Name(), o.g.Type())
		t.x = o.g
		ip.store(st, ip.val(t), o.g.Type().(*types.Pointer).Elem(), v)
	}
	return st
}

func (ip *Interp) constArg(fr *frame, v ssa.Value, st *State) *MT {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return ip.use(fr, v)
	}
	for _, op := range in.Operands(nil) {
		if *op != nil {
			if x, ok := (*op).(ssa.Instruction); ok {
				ip.constArg(fr, x.(ssa.Value), st)
			}
		}
	}
	ip.instr(fr, in, st, ip.True)
	return ip.use(fr, v)
}
