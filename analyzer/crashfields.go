package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What holds for a field at any time, established from every assignment in
// the repository.

// allStores interprets each function that assigns the field.
func (k *crash) allStores(key string) ([]fieldStore, bool) {
	ff := k.field(key)
	if ff.stores != nil || ff.init {
		return ff.stores, ff.init
	}
	for _, f := range k.sites[key] {
		u := k.flat(f)
		for _, e := range u.ip.effects {
			if e.kind == "store" && e.name == key {
				ff.stores = append(ff.stores, fieldStore{u, e})
			}
		}
	}
	owner := key[:strings.LastIndex(key, ".")]
	ff.init = len(k.makers[owner]) > 0
	for _, f := range k.makers[owner] {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || typeStr(ptrElem(al.Type())) != owner {
					continue
				}
				if !k.initialised(al, key) && !k.stored(f, al, key) {
					ff.init = false
				}
			}
		}
	}
	return ff.stores, ff.init
}

// initialised: the object is assigned the field where it is created, or is
// overwritten as a whole.
func (k *crash) initialised(p ssa.Value, key string) bool {
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if fieldKey(x.X.Type(), x.Field) != key {
				continue
			}
			for _, w := range *x.Referrers() {
				switch y := w.(type) {
				case *ssa.Store:
					if y.Addr == x {
						return true
					}
				case *ssa.IndexAddr:
					return true
				}
			}
		case *ssa.Store:
			if x.Addr == p {
				return true
			}
		}
	}
	return false
}

// stored: whenever the creating function returns, the field was assigned.
func (k *crash) stored(f *ssa.Function, al *ssa.Alloc, key string) bool {
	u := k.flat(f)
	c := u.ip.False
	for _, e := range u.ip.effects {
		if e.kind == "store" && e.name == key && e.args[0].atom < 0 {
			if a := e.args[0].leaf; a.op == "faddr" && a.args[0].op == "alloc" {
				c = u.ip.or(c, e.pc)
			}
		}
	}
	return c != u.ip.False && u.ip.implies(u.res.pc, c)
}

func (k *crash) fieldNonNil(key string) bool {
	ff := k.field(key)
	if ff.nonNil == 0 {
		ff.nonNil = 1 // for cyclic definitions
		stores, init := k.allStores(key)
		ok := init && k.storesNonNil(stores)
		if !ok {
			ff.nonNil = 2
		}
	}
	return ff.nonNil == 1
}

func (k *crash) storesNonNil(stores []fieldStore) bool {
	for _, s := range stores {
		saved := s.u.need
		s.u.need = map[*Term]bool{}
		bad := s.u.nilLeaf(s.e.args[1], s.e.pc) != nil
		for t := range s.u.need {
			// only what unexported functions are given is under our control
			if token := s.u.fn.Object(); token == nil || token.Exported() || t.op != "param" {
				bad = bad || !k.constructor(s.u.fn)
			}
		}
		s.u.need = saved
		if bad {
			return false
		}
	}
	return true
}

// constructor: a function New… that is handed what its result refers to.
func (k *crash) constructor(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "New") || strings.HasPrefix(f.Name(), "Create")
}

// arrayNonNil: every creation assigns all elements of an array field.
func (k *crash) arrayNonNil(key string) bool {
	ff := k.field(key + "[]")
	if ff.nonNil == 0 {
		ff.nonNil = 2
		_, init := k.allStores(key)
		if !init {
			return false
		}
		owner := key[:strings.LastIndex(key, ".")]
		n := 0
		for _, f := range k.makers[owner] {
			u := k.flat(f)
			for _, a := range u.termsOf("faddr") {
				if a.str != key || a.args[0].op != "alloc" {
					continue
				}
				at, ok := ptrElem(a.typ).Underlying().(*types.Array)
				if !ok {
					return false
				}
				for i := int64(0); i < at.Len(); i++ {
					v := u.ip.load(u.res.st, u.ip.val(u.ip.eaddrAt(a, i, at.Elem())), at.Elem())
					if u.nilLeaf(v, u.res.pc) != nil {
						return false
					}
					n++
				}
			}
		}
		if n == 0 {
			return false
		}
		for _, f := range k.sites[key+"[]"] {
			u := k.flat(f)
			for _, e := range u.ip.effects {
				if e.kind != "store" || e.name != "elem" || e.args[0].atom >= 0 {
					continue
				}
				if a := e.args[0].leaf; a.op == "eaddr" && a.args[0].op == "faddr" && a.args[0].str == key && u.nilLeaf(e.args[1], e.pc) != nil {
					return false
				}
			}
		}
		ff.nonNil = 1
	}
	return ff.nonNil == 1
}

// flagImplies: the flag is only set after the field was assigned something,
// and nothing ever clears the field.
func (k *crash) flagImplies(flag, key string) bool {
	ff := k.field(key)
	if ff.flags[flag] == 0 {
		ff.flags[flag] = 2
		stores, _ := k.allStores(key)
		ok := len(stores) > 0 && k.storesNonNil(stores)
		n := 0
		for _, f := range k.sites[flag+"()"] {
			u := k.flat(f)
			for _, e := range u.ip.effects {
				if e.kind != "store" || e.name != flag || e.args[1] == u.ip.False {
					continue
				}
				if _, isCall := e.instr.(ssa.CallInstruction); !isCall {
					continue
				}
				n++
				before := false
				for _, s := range u.ip.effects {
					if s.kind == "store" && s.name == key && s.seq < e.seq && u.ip.implies(e.pc, s.pc) {
						before = true
					}
				}
				ok = ok && before
			}
		}
		if ok && n > 0 {
			ff.flags[flag] = 1
		}
	}
	return ff.flags[flag] == 1
}

// fieldRange: the values of an integer field that is only assigned constants.
func (k *crash) fieldRange(key string) (lo, hi *big.Int) {
	ff := k.field(key)
	if !ff.ranged {
		ff.ranged = true
		stores, init := k.allStores(key)
		if ff.escapes || len(stores) == 0 {
			return nil, nil
		}
		add := func(v *big.Int) {
			if lo == nil || v.Cmp(lo) < 0 {
				lo = v
			}
			if hi == nil || v.Cmp(hi) > 0 {
				hi = v
			}
		}
		if !init {
			add(big.NewInt(0))
		}
		for _, s := range stores {
			for t, c := range s.u.ip.leafConds(s.e.args[1]) {
				if s.u.ip.and(s.e.pc, c) == s.u.ip.False {
					continue
				}
				if !t.isConst() {
					return nil, nil
				}
				add(bigOf(t.cv))
			}
		}
		ff.lo, ff.hi = lo, hi
	}
	return ff.lo, ff.hi
}

// fieldLen: the least length of a slice field, whether it may also be nil,
// and whether its capacity equals its length.
func (k *crash) fieldLen(key string) (min int64, maybeNil, full bool) {
	ff := k.field(key)
	if !ff.lengths {
		ff.lengths = true
		stores, init := k.allStores(key)
		if ff.escapes || len(stores) == 0 {
			return 0, true, false
		}
		ff.maybeNil = !init
		ff.full = true
		least := int64(-1)
		type open struct {
			s fieldStore
			n *Term
			c *MT
		}
		var todo []open
		for _, s := range stores {
			for t, c := range s.u.ip.leafConds(s.e.args[1]) {
				pc := s.u.ip.and(s.e.pc, c)
				if pc == s.u.ip.False {
					continue
				}
				switch {
				case t.op == "nil":
					ff.maybeNil = true
				case t.op == "makeslice" || t.op == "slice" && t.args[0].op == "alloc" || t.op == "slice" && t.args[0].op == "makeslice" && s.u.ip.lenOf(t) == s.u.ip.lenOf(t.args[0]):
					n := s.u.ip.lenOf(t)
					if v, ok := n.intVal(); ok {
						if least < 0 || v < least {
							least = v
						}
					} else {
						todo = append(todo, open{s, n, pc})
					}
				default:
					ff.full = false
					least = 0
				}
			}
			if ms, ok := s.e.instr.(*ssa.Store); ok {
				if m, ok := ms.Val.(*ssa.MakeSlice); ok && m.Cap != m.Len {
					ff.full = false
				}
			}
		}
		if least < 0 {
			least = 0
		}
		ff.minLen = least
		for _, o := range todo {
			if !o.s.u.p.proveUnder(o.c, func(f []*ineq) []*ineq {
				return []*ineq{o.s.u.p.le(o.s.u.ip.intTerm(least, tInt), o.n, 0, f)}
			}) {
				ff.minLen = 0
			}
		}
	}
	return ff.minLen, ff.maybeNil, ff.full
}

// elemLen: the least length of the elements of a slice of slices.
func (k *crash) elemLen(key string) int64 {
	ff := k.field(key)
	if !ff.elems {
		ff.elems = true
		stores, _ := k.allStores(key)
		least := int64(-1)
		for _, s := range stores {
			for t, c := range s.u.ip.leafConds(s.e.args[1]) {
				if t.op == "nil" || s.u.ip.and(s.e.pc, c) == s.u.ip.False {
					continue
				}
				n, ok := s.u.ip.lenOf(t).intVal()
				if !ok || n > 16 {
					return 0
				}
				base := t
				if base.op == "slice" {
					base = base.args[0]
				}
				et := ptrSliceElem(t.typ)
				if et == nil {
					return 0
				}
				for i := int64(0); i < n; i++ {
					v := s.u.ip.load(s.u.res.st, s.u.ip.val(s.u.ip.eaddrAt(base, i, et)), et)
					for x, xc := range s.u.ip.leafConds(v) {
						if s.u.ip.and(s.u.ip.and(s.e.pc, c), xc) == s.u.ip.False {
							continue
						}
						m, ok := s.u.ip.lenOf(x).intVal()
						if !ok {
							return 0
						}
						if least < 0 || m < least {
							least = m
						}
					}
				}
			}
		}
		if least > 0 {
			ff.elemLen = least
		}
	}
	return ff.elemLen
}

func ptrSliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// holds: everything put into a pool or registry field has the given type.
func (k *crash) holds(key string, typ types.Type) bool {
	ff := k.field(key)
	if !ff.typeKnown {
		ff.typeKnown = true
		ff.heldOK = true
		for _, f := range k.sites[key+"()"] {
			k.heldIn(f, key, ff)
		}
	}
	return ff.heldOK && (ff.held == nil || types.Identical(ff.held, typ))
}

func (k *crash) heldIn(f *ssa.Function, key string, ff *fieldFacts) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || len(ci.Common().Args) == 0 {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil {
				continue
			}
			fa, ok := ci.Common().Args[0].(*ssa.FieldAddr)
			if !ok || fieldKey(fa.X.Type(), fa.Field) != key {
				continue
			}
			switch extName(g) {
			case "(*sync.Pool).Put", "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
			default:
				continue
			}
			mi, ok := ci.Common().Args[len(ci.Common().Args)-1].(*ssa.MakeInterface)
			if !ok || ff.held != nil && !types.Identical(ff.held, mi.X.Type()) {
				ff.heldOK = false
				continue
			}
			ff.held = mi.X.Type()
		}
	}
}

// indexes: every position stored in the map field lies within the list field
// of the same object. Each function that changes either is checked to keep
// this: it adds the current length to the map and then appends one element.
func (k *crash) indexes(mapKey, listKey string) bool {
	ff := k.field(mapKey)
	if ff.index[listKey] == 0 {
		ff.index[listKey] = 2
		if k.keepsIndex(mapKey, listKey) {
			ff.index[listKey] = 1
		}
	}
	return ff.index[listKey] == 1
}

func (k *crash) keepsIndex(mapKey, listKey string) bool {
	n := 0
	mf, lf := k.field(mapKey), k.field(listKey)
	if mf.escapes || lf.escapes {
		return false
	}
	for _, f := range k.r.funcs {
		touches := false
		for _, g := range append(append([]*ssa.Function(nil), k.sites[listKey]...), k.sites[mapKey]...) {
			touches = touches || g == f
		}
		updates := k.updatesMap(f, mapKey)
		if !touches && !updates {
			continue
		}
		u := k.flat(f)
		for _, e := range u.ip.effects {
			switch {
			case e.kind == "mapupdate":
				for m := range u.ip.leafConds(e.args[0]) {
					if m.op != "ld" || m.args[0].op != "faddr" || m.args[0].str != mapKey {
						continue
					}
					n++
					// the list of the same object at the end of the function
					obj := m.args[0].args[0]
					list := u.fieldAddr(obj, listKey)
					if list == nil {
						return false
					}
					st := ptrElem(list.typ)
					after := u.ip.load(u.res.st, u.ip.val(list), st)
					ok := true
					u.ip.combos(u.ip.and(e.pc, u.res.pc), []*MT{e.args[2], after}, func(ts []*Term, c *MT) {
						if !u.p.proveUnder(c, func(f []*ineq) []*ineq {
							return []*ineq{u.p.ge0(ts[0], f), u.p.le(ts[0], u.ip.lenOf(ts[1]), 1, f)}
						}) {
							ok = false
						}
					})
					if !ok {
						return false
					}
				}
			case e.kind == "store" && e.name == listKey:
				// a list only grows
				for t := range u.ip.leafConds(e.args[1]) {
					for t.op == "append1" || t.op == "append" {
						t = t.args[0]
					}
					if t.op != "ld" || t.args[0].op != "faddr" || t.args[0].str != listKey {
						if !fresh(e.args[0]) {
							return false
						}
					}
				}
			case e.kind == "store" && e.name == mapKey:
				for t := range u.ip.leafConds(e.args[1]) {
					if t.op != "makemap" || !fresh(e.args[0]) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func fresh(a *MT) bool {
	return a.atom < 0 && a.leaf.op == "faddr" && a.leaf.args[0].op == "alloc"
}

func (u *unit) fieldAddr(obj *Term, key string) *Term {
	if obj.typ == nil {
		return nil
	}
	p, ok := obj.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldKey(obj.typ, i) == key {
			return u.ip.faddr(obj, i, obj.typ)
		}
	}
	return nil
}

func (k *crash) updatesMap(f *ssa.Function, key string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if ld, ok := mu.Map.(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == key {
					return true
				}
			}
		}
	}
	return false
}

// ownIndex returns the position of the element whose field t is read, when
// that field always holds it.
func (u *unit) ownIndex(t *Term) *Term {
	a := t.args[0]
	if a.op != "faddr" || t.typ == nil || !isInt(t.typ) || a.args[0].op != "ld" {
		return nil
	}
	el := a.args[0].args[0]
	if el.op != "eaddr" || el.args[0].op != "ld" || el.args[0].args[0].op != "faddr" {
		return nil
	}
	if !u.k.knowsIndex(a.str, el.args[0].args[0].str) {
		return nil
	}
	return el.args[1]
}

// knowsIndex: the elements of a list field know their position. Where the
// list is appended to, the element is given the length the list had; neither
// is changed otherwise. An element has to be added to one list only.
func (k *crash) knowsIndex(key, listKey string) bool {
	ff := k.field(key)
	if ff.index[listKey] == 0 {
		ff.index[listKey] = 2
		if k.keepsOwnIndex(key, listKey) {
			ff.index[listKey] = 1
		}
	}
	return ff.index[listKey] == 1
}

func (k *crash) keepsOwnIndex(key, listKey string) bool {
	xf, lf := k.field(key), k.field(listKey)
	if xf.escapes || lf.escapes {
		return false
	}
	n := 0
	seen := map[*ssa.Function]bool{}
	for _, f := range append(append([]*ssa.Function(nil), k.sites[listKey]...), k.sites[key]...) {
		if seen[f] {
			continue
		}
		seen[f] = true
		u := k.flat(f)
		noted := map[*Term]bool{}
		for _, e := range u.ip.effects {
			switch {
			case e.kind == "store" && e.name == key && !fresh(e.args[0]):
				obj := e.args[0].leaf
				if e.args[0].atom >= 0 || e.args[1].atom >= 0 || obj.op != "faddr" {
					return false
				}
				v := e.args[1].leaf
				if v.op != "len" || v.args[0].op != "ld" || v.args[0].args[0].op != "faddr" || v.args[0].args[0].str != listKey {
					return false
				}
				// the same list is then extended by this element
				ok := false
				for _, s := range u.ip.effects {
					if s.kind != "store" || s.name != listKey || !u.ip.implies(e.pc, s.pc) || s.args[1].atom >= 0 {
						continue
					}
					l := s.args[1].leaf
					ok = ok || l.op == "append1" && len(l.args) == 2 && l.args[0] == v.args[0] && l.args[1] == obj.args[0]
				}
				if !ok {
					return false
				}
				noted[obj.args[0]] = true
				n++
			}
		}
		for _, e := range u.ip.effects {
			if e.kind != "store" || e.name != listKey {
				continue
			}
			for t := range u.ip.leafConds(e.args[1]) {
				if t.op == "append1" && len(t.args) == 2 && noted[t.args[1]] || t.op == "nil" || t.op == "makeslice" && isZero(t.args[0]) {
					continue
				}
				return false
			}
		}
	}
	return n > 0
}

func isZero(t *Term) bool {
	n, ok := t.intVal()
	return ok && n == 0
}
