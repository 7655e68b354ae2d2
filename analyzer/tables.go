package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Table is a package-level map, slice or array with constant contents that is
// only ever read after package initialisation.
type Table struct {
	isMap bool
	keys  []constant.Value
	vals  []constant.Value
	n     int64 // slices and arrays
	ktyp  types.Type
	vtyp  types.Type
	// structures: values by field name, scalars: the value under ""
	fields map[string]constant.Value
}

// collectTables finds constant lookup tables.
func collectTables(r *Repo) map[*ssa.Global]*Table {
	out := map[*ssa.Global]*Table{}
	bad := map[*ssa.Global]bool{}
	for rel, sp := range r.spkgs {
		if rel == "sttp/data/parser" {
			continue
		}
		init := sp.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Pkg != sp {
					continue
				}
				if t := r.tableOf(st.Val); t != nil && out[g] == nil {
					out[g] = t
				} else {
					bad[g] = true
				}
			}
		}
		// arrays are filled in place
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			elem := g.Type().Underlying().(*types.Pointer).Elem()
			if _, ok := elem.(*types.Named); ok && out[g] == nil {
				if st, ok := elem.Underlying().(*types.Struct); ok {
					if t := r.structTable(g, init, st); t != nil {
						out[g] = t
						delete(bad, g)
					}
					continue
				}
			}
			if _, ok := elem.Underlying().(*types.Basic); ok && out[g] == nil {
				if t := r.scalarTable(g, init); t != nil {
					out[g] = t
					delete(bad, g)
				}
				continue
			}
			at, ok := elem.Underlying().(*types.Array)
			if !ok || at.Len() > 512 || out[g] != nil {
				continue
			}
			t := &Table{n: at.Len(), vtyp: at.Elem(), vals: make([]constant.Value, at.Len())}
			if r.fillArray(g, init, t) {
				out[g] = t
			} else {
				bad[g] = true
			}
		}
	}
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || out[g] == nil {
						continue
					}
					if f.Synthetic == "package initializer" {
						continue
					}
					if !readOnlyUse(in, g) {
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range bad {
		delete(out, g)
	}
	return out
}

// structTable reads a structure filled field by field with constants.
func (r *Repo) structTable(g *ssa.Global, init *ssa.Function, st *types.Struct) *Table {
	t := &Table{fields: map[string]constant.Value{}}
	fill := func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok {
			_, ok := in.(*ssa.DebugRef)
			return ok
		}
		for _, u := range *fa.Referrers() {
			switch z := u.(type) {
			case *ssa.Store:
				v := r.constOfValue(z.Val)
				if v == nil || z.Addr != ssa.Value(fa) {
					return false
				}
				t.fields[st.Field(fa.Field).Name()] = v
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	whole := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			uses := false
			for _, op := range in.Operands(nil) {
				uses = uses || *op == ssa.Value(g)
			}
			if !uses {
				continue
			}
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				ld, ok := s.Val.(*ssa.UnOp)
				if !ok {
					return nil
				}
				a, ok := ld.X.(*ssa.Alloc)
				if !ok || whole > 0 {
					return nil
				}
				whole++
				for _, u := range *a.Referrers() {
					if u != ssa.Instruction(ld) && !fill(u) {
						return nil
					}
				}
				continue
			}
			if !fill(in) {
				return nil
			}
		}
	}
	return t
}

// scalarTable reads a variable initialised with a constant.
func (r *Repo) scalarTable(g *ssa.Global, init *ssa.Function) *Table {
	t := &Table{fields: map[string]constant.Value{}}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(g) {
					continue
				}
				z, ok := in.(*ssa.Store)
				if !ok || t.fields[""] != nil {
					return nil
				}
				if t.fields[""] = r.constOfValue(z.Val); t.fields[""] == nil {
					return nil
				}
			}
		}
	}
	if t.fields[""] == nil {
		return nil
	}
	return t
}

func readOnlyUse(in ssa.Instruction, g ssa.Value) bool {
	return readOnly(in, g, map[use]bool{})
}

type use struct {
	in ssa.Instruction
	v  ssa.Value
}

func readOnly(in ssa.Instruction, g ssa.Value, seen map[use]bool) bool {
	if seen[use{in, g}] {
		return true
	}
	seen[use{in, g}] = true
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.BinOp:
		return true
	case *ssa.Call:
		// given to a function that only reads it
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil || len(f.Params) != len(x.Call.Args) || x.Call.Value == g {
			return false
		}
		for i, a := range x.Call.Args {
			if a != g {
				continue
			}
			for _, u := range *f.Params[i].Referrers() {
				if !readOnly(u, f.Params[i], seen) {
					return false
				}
			}
		}
		return true
	case *ssa.Phi:
		for _, u := range *x.Referrers() {
			if !readOnly(u, x, seen) {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		for _, u := range *x.Referrers() {
			if !onlyLoads(u) {
				return false
			}
		}
		return true
	case *ssa.IndexAddr:
		for _, u := range *x.Referrers() {
			if !onlyLoads(u) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		switch x.Type().Underlying().(type) {
		case *types.Array, *types.Struct, *types.Basic:
			return true // copied by value
		}
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.Index:
			case *ssa.IndexAddr:
				if !readOnlyUse(y, x) {
					return false
				}
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return false
}

func onlyLoads(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.UnOp, *ssa.DebugRef:
		return true
	}
	return false
}

// constOfValue evaluates literals and code table members.
func (r *Repo) constOfValue(v ssa.Value) constant.Value {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil
		}
		return x.Value
	case *ssa.ChangeType:
		return r.constOfValue(x.X)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if g, ok := fa.X.(*ssa.Global); ok {
				if e := r.enums.byGlobal[g]; e != nil && len(e.writes) == 0 {
					if m, ok := e.field(fa.Field); ok {
						return m.Value
					}
				}
			}
		}
	}
	return nil
}

func (r *Repo) tableOf(v ssa.Value) *Table {
	switch x := v.(type) {
	case *ssa.Const:
		if at, ok := x.Type().Underlying().(*types.Array); ok && x.Value == nil && at.Len() <= 512 {
			return &Table{n: at.Len(), vtyp: at.Elem(), vals: make([]constant.Value, at.Len())}
		}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		t := &Table{isMap: true, ktyp: mt.Key(), vtyp: mt.Elem()}
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.MapUpdate:
				k, val := r.constOfValue(y.Key), r.constOfValue(y.Value)
				if y.Map != x || k == nil || val == nil {
					return nil
				}
				t.keys = append(t.keys, k)
				t.vals = append(t.vals, val)
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return t
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		at, ok := x.Type().Underlying().(*types.Array)
		if !ok || at.Len() > 512 {
			return nil
		}
		t := &Table{n: at.Len(), vtyp: at.Elem(), vals: make([]constant.Value, at.Len())}
		for _, u := range *a.Referrers() {
			if u != ssa.Instruction(x) && !r.fillElem(u, t) {
				return nil
			}
		}
		return t
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		t := &Table{n: at.Len(), vtyp: at.Elem(), vals: make([]constant.Value, at.Len())}
		for _, u := range *a.Referrers() {
			if u == ssa.Instruction(x) {
				continue
			}
			if !r.fillElem(u, t) {
				return nil
			}
		}
		for _, u := range *x.Referrers() {
			switch u.(type) {
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return t
	}
	return nil
}

func (r *Repo) fillArray(g *ssa.Global, init *ssa.Function, t *Table) bool {
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) && !r.fillElem(in, t) {
					return false
				}
			}
		}
	}
	return true
}

func (r *Repo) fillElem(in ssa.Instruction, t *Table) bool {
	switch y := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.IndexAddr:
		k, ok := y.Index.(*ssa.Const)
		if !ok || k.Int64() < 0 || k.Int64() >= t.n {
			return false
		}
		for _, u := range *y.Referrers() {
			switch z := u.(type) {
			case *ssa.Store:
				v := r.constOfValue(z.Val)
				if v == nil || z.Addr != ssa.Value(y) {
					return false
				}
				t.vals[k.Int64()] = v
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return false
}

// tableTerm is the table a map or backing store term denotes.
func (ip *Interp) tableTerm(t *Term) *Table {
	if t.op == "ld" {
		t = t.args[0]
	}
	if t.op != "global" {
		return nil
	}
	g, ok := t.x.(*ssa.Global)
	if !ok {
		return nil
	}
	return ip.r.tables[g]
}

func (ip *Interp) tableLookup(t *Table, k *Term) (val, has *MT) {
	val, has = ip.zero(t.vtyp), ip.False
	for i := range t.keys {
		c := ip.compare(tokEQL, k, ip.constTerm(t.keys[i], t.ktyp))
		val = ip.ite(c, ip.val(ip.constTerm(t.vals[i], t.vtyp)), val)
		has = ip.or(c, has)
	}
	return
}

func (ip *Interp) tableElem(t *Table, idx *Term) *MT {
	get := func(i int64) *MT {
		if t.vals[i] == nil {
			return ip.zero(t.vtyp)
		}
		return ip.val(ip.constTerm(t.vals[i], t.vtyp))
	}
	if n, ok := idx.intVal(); ok {
		if n < 0 || n >= t.n {
			return ip.zero(t.vtyp)
		}
		return get(n)
	}
	v := ip.zero(t.vtyp)
	for i := t.n - 1; i >= 0; i-- {
		v = ip.ite(ip.compare(tokEQL, idx, ip.intTerm(i, idx.typ)), get(i), v)
	}
	return v
}
