package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// copyLoop is a loop that does nothing but move consecutive elements of one
// slice or string to another: dst[k+dOff] = src[k+sOff] for k below the length
// of src, less sOff. It is interpreted as copy(dst[dOff:], src[sOff:]).
type copyLoop struct {
	dst, src   ssa.Value
	dOff, sOff ssa.Value // added to the index when not nil
	dC, sC     int64     // constants added to the index
	elem       types.Type
	str        bool
	exit       int
	store      *ssa.Store
}

func (x *exec) copyLoopOf(l *natLoop) *copyLoop {
	if c, ok := x.copies[l]; ok {
		return c
	}
	if x.copies == nil {
		x.copies = map[*natLoop]*copyLoop{}
	}
	c := matchCopyLoop(l)
	x.copies[l] = c
	return c
}

func matchCopyLoop(l *natLoop) *copyLoop {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || len(l.body) > 3 || len(l.liveOut()) > 0 {
		return nil
	}
	cl := &copyLoop{}
	if l.body[h.Succs[0]] {
		cl.exit = 1
	}
	if l.body[h.Succs[0]] == l.body[h.Succs[1]] {
		return nil
	}
	var phi *ssa.Phi
	for b := range l.body {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Phi:
				if phi != nil || b != h || !isInt(y.Type()) {
					return nil
				}
				phi = y
			case *ssa.Store:
				if cl.store != nil {
					return nil
				}
				cl.store = y
			case *ssa.If:
				if b != h {
					return nil
				}
			case *ssa.UnOp:
				if y.Op == token.ARROW {
					return nil
				}
			case *ssa.Jump, *ssa.DebugRef, *ssa.BinOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Convert, *ssa.Index, *ssa.Lookup:
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
					return nil
				}
			default:
				return nil
			}
		}
	}
	if phi == nil || cl.store == nil {
		return nil
	}
	// index variable: from a constant in steps of one
	var start int64
	var next ssa.Value
	for k, e := range phi.Edges {
		if !l.body[h.Preds[k]] {
			c, ok := e.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return nil
			}
			start = c.Int64()
			continue
		}
		if next != nil && next != e {
			return nil
		}
		next = e
	}
	step, ok := next.(*ssa.BinOp)
	if !ok || step.Op != token.ADD || step.X != ssa.Value(phi) {
		return nil
	}
	if c, ok := step.Y.(*ssa.Const); !ok || c.Int64() != 1 {
		return nil
	}
	outside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || in.Block() == nil || !l.body[in.Block()]
	}
	// offset of an index from the iteration number
	var index func(v ssa.Value) (ssa.Value, int64, bool)
	index = func(v ssa.Value) (ssa.Value, int64, bool) {
		switch {
		case v == ssa.Value(phi):
			return nil, start, true
		case v == next:
			return nil, start + 1, true
		}
		if cv, ok := v.(*ssa.Convert); ok && isInt(cv.Type()) && isInt(cv.X.Type()) {
			return index(cv.X)
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, 0, false
		}
		for k := 0; k < 2; k++ {
			p, q := b.X, b.Y
			if k == 1 {
				p, q = q, p
			}
			o, c, ok := index(p)
			if !ok {
				continue
			}
			if qc, ok := q.(*ssa.Const); ok {
				return o, c + qc.Int64(), true
			}
			if o == nil && outside(q) {
				return q, c, true
			}
		}
		return nil, 0, false
	}
	invariant := func(v ssa.Value) bool {
		for {
			if outside(v) {
				return true
			}
			switch y := v.(type) {
			case *ssa.UnOp:
				fa, ok := y.X.(*ssa.FieldAddr)
				if !ok || y.Op != token.MUL {
					return false
				}
				v = fa.X
			case *ssa.FieldAddr:
				v = y.X
			default:
				return false
			}
		}
	}
	da, ok := cl.store.Addr.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	if _, ok := da.X.Type().Underlying().(*types.Slice); !ok || !invariant(da.X) {
		return nil
	}
	cl.dst = da.X
	var di, si ssa.Value = da.Index, nil
	switch y := cl.store.Val.(type) {
	case *ssa.UnOp:
		sa, ok := y.X.(*ssa.IndexAddr)
		if !ok || y.Op != token.MUL {
			return nil
		}
		if _, ok := sa.X.Type().Underlying().(*types.Slice); !ok {
			return nil
		}
		cl.src, si = sa.X, sa.Index
	case *ssa.Index:
		cl.src, si, cl.str = y.X, y.Index, true
	case *ssa.Lookup:
		cl.src, si, cl.str = y.X, y.Index, true
	}
	if cl.src == nil || !invariant(cl.src) || cl.src == cl.dst || cl.str && !isString(cl.src.Type()) {
		return nil
	}
	cl.elem = da.X.Type().Underlying().(*types.Slice).Elem()
	if cl.dOff, cl.dC, ok = index(di); !ok {
		return nil
	}
	if cl.sOff, cl.sC, ok = index(si); !ok {
		return nil
	}
	// exit when the source is used up: source index < len(source)
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	var lhs, rhs ssa.Value
	switch {
	case cond.Op == token.LSS && cl.exit == 1, cond.Op == token.GEQ && cl.exit == 0:
		lhs, rhs = cond.X, cond.Y
	case cond.Op == token.GTR && cl.exit == 1, cond.Op == token.LEQ && cl.exit == 0:
		lhs, rhs = cond.Y, cond.X
	default:
		return nil
	}
	o, c, ok := index(lhs)
	if !ok || o != cl.sOff || c != cl.sC {
		return nil
	}
	lc, ok := rhs.(*ssa.Call)
	if !ok {
		return nil
	}
	bi, ok := lc.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" || lc.Call.Args[0] != cl.src {
		return nil
	}
	return cl
}

// copyLoop performs the loop in one step.
func (x *exec) copyLoop(l *natLoop, cl *copyLoop) {
	ip, fr := x.ip, x.fr
	edges := x.in[l.header]
	if len(edges) == 0 {
		return
	}
	pc, cur := ip.mergeEdges(edges)
	abs := ip.and(x.base, pc)
	if abs == ip.False {
		return
	}
	cur = cur.clone()
	fr.cur = cur
	var eval func(v ssa.Value) *MT
	eval = func(v ssa.Value) *MT {
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() == nil || !l.body[in.Block()] {
			return ip.use(fr, v)
		}
		switch y := v.(type) {
		case *ssa.UnOp:
			eval(y.X)
		case *ssa.FieldAddr:
			eval(y.X)
		}
		delete(cur.vals, v)
		ip.instr(fr, in, cur, pc)
		fr.cur = cur
		return fr.env[v]
	}
	from := func(v ssa.Value, off ssa.Value, c int64) *MT {
		m := eval(v)
		lo := ip.val(ip.intTerm(c, tInt))
		if off != nil {
			lo = ip.apply2(ip.toInt(ip.use(fr, off)), lo, func(a, b *Term) *MT { return ip.val(ip.arith(token.ADD, a, b, tInt)) })
		}
		if lo.atom < 0 {
			if n, ok := lo.leaf.intVal(); ok && n == 0 {
				return m
			}
		}
		return ip.apply2(m, lo, func(t, l *Term) *MT { return ip.val(ip.sliceOf(t, l, nil, v.Type())) })
	}
	d, s := from(cl.dst, cl.dOff, cl.dC), from(cl.src, cl.sOff, cl.sC)
	ip.copyInto(fr, cl.store, []*MT{d, s}, cl.elem, cl.str, cur, abs)
	x.push(l.header, l.header.Succs[cl.exit], pc, cl.exit, cur)
}
