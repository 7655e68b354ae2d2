package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A sloop is a natural loop of a function.
type sloop struct {
	ip      *Interp
	fn      *ssa.Function
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
	mods    *modset // what an iteration may change
}

func naturalLoops(ip *Interp, f *ssa.Function) []*sloop {
	by := map[*ssa.BasicBlock]*sloop{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := by[h]
			if l == nil {
				l = &sloop{ip: ip, fn: f, header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				by[h] = l
			}
			l.latches = append(l.latches, b)
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if !l.body[x] {
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var out []*sloop
	for _, l := range by {
		l.mods = &modset{keys: map[string]bool{}, locals: map[ssa.Value]bool{}}
		for b := range l.body {
			for _, in := range b.Instrs {
				ip.modInstr(in, l.mods, map[*ssa.Function]bool{}, f)
			}
		}
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].header.Index < out[j].header.Index })
	return out
}

func (l *sloop) pos() token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	p := token.NoPos
	for b := range l.body {
		for _, in := range b.Instrs {
			if q := in.Pos(); q.IsValid() && (p == token.NoPos || q < p) {
				p = q
			}
		}
	}
	return p
}

// fixed: the value is the same in every iteration.
func (l *sloop) fixed(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case ssa.Instruction:
		if !l.body[x.Block()] {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return (b.Name() == "len" || b.Name() == "cap") && l.fixed(x.Call.Args[0])
		}
		g := x.Call.StaticCallee()
		if g == nil || !l.ip.r.isRepoFn(g) || !l.reads(g, 0) {
			return false
		}
		for _, a := range x.Call.Args {
			if !l.fixed(a) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return l.fixed(x.X) && l.fixed(x.Y)
	case *ssa.Convert:
		return l.fixed(x.X)
	case *ssa.ChangeType:
		return l.fixed(x.X)
	case *ssa.Field:
		return l.fixed(x.X)
	case *ssa.FieldAddr:
		return l.fixed(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return l.fixed(x.X)
		}
		return l.fixed(x.X) && l.kept(x.X)
	}
	return false
}

// kept: nothing in the loop stores to the address.
func (l *sloop) kept(addr ssa.Value) bool {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return !l.mods.keys["F:"+fieldKey(a.X.Type(), a.Field)]
	case *ssa.Alloc:
		return !l.mods.locals[a]
	}
	return false
}

// reads: the function only computes something from memory that is kept.
func (l *sloop) reads(g *ssa.Function, depth int) bool {
	if len(naturalLoops(l.ip, g)) > 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Lookup, *ssa.IndexAddr:
				return false
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				h := x.Call.StaticCallee()
				if h == nil || depth > 3 || !l.ip.r.isRepoFn(h) || !l.reads(h, depth+1) {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW || x.Op == token.MUL && !l.kept(x.X) {
					return false
				}
			}
		}
	}
	return true
}

// A lap is one way through the loop from its header back to its header. Inner
// loops are passed without being repeated.
type lap []*ssa.BasicBlock

const maxLaps = 20000

func (l *sloop) laps() []lap {
	var out []lap
	var path lap
	on := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		path = append(path, b)
		on[b] = true
		defer func() { path = path[:len(path)-1]; delete(on, b) }()
		for _, s := range b.Succs {
			if s == l.header {
				out = append(out, append(lap(nil), path...))
				if len(out) > maxLaps {
					return false
				}
				continue
			}
			if !l.body[s] || on[s] {
				continue
			}
			if !walk(s) {
				return false
			}
		}
		return true
	}
	if !walk(l.header) {
		return nil
	}
	return out
}

// at resolves the value a variable has on a lap.
func (p lap) at(v ssa.Value, header *ssa.BasicBlock) ssa.Value {
	for {
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() == header {
			return v
		}
		found := false
		for i, b := range p {
			if b != phi.Block() || i == 0 {
				continue
			}
			for k, q := range b.Preds {
				if q == p[i-1] {
					v, found = phi.Edges[k], true
				}
			}
		}
		if !found {
			return v
		}
		if v == ssa.Value(phi) {
			return v
		}
	}
}

// next is the value of a header variable after a lap.
func (l *sloop) next(p lap, phi *ssa.Phi) ssa.Value {
	for k, q := range l.header.Preds {
		if q == p[len(p)-1] {
			return p.at(phi.Edges[k], l.header)
		}
	}
	return nil
}

// inner: the block belongs to a loop inside this one.
func (l *sloop) inner(b *ssa.BasicBlock) bool {
	for _, m := range naturalLoops(l.ip, l.fn) {
		if m.header != l.header && l.body[m.header] && m.body[b] {
			return true
		}
	}
	return false
}

// step is the change of a header variable on a lap.
func (l *sloop) step(p lap, phi *ssa.Phi) (int64, bool) {
	v := l.next(p, phi)
	var d int64
	for v != ssa.Value(phi) {
		x, ok := v.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		c, isC := x.Y.(*ssa.Const)
		a := x.X
		if !isC && x.Op == token.ADD {
			c, isC = x.X.(*ssa.Const)
			a = x.Y
		}
		if !isC || c.Value == nil || c.Value.Kind() != constant.Int || l.inner(x.Block()) {
			return 0, false
		}
		n, exact := constant.Int64Val(c.Value)
		if !exact {
			return 0, false
		}
		switch x.Op {
		case token.ADD:
			d += n
		case token.SUB:
			d -= n
		default:
			return 0, false
		}
		v = p.at(a, l.header)
	}
	return d, true
}

// last: the loop is left at its header after the lap, because the flag it
// tests there is known by then.
func (l *sloop) last(p lap) bool {
	i, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, neg := i.Cond, false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	phi, ok := cond.(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return false
	}
	v := l.next(p, phi)
	val, known := false, false
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		val, known = constant.BoolVal(c.Value), true
	}
	for k := 0; k < len(p) && !known; k++ {
		to := l.header
		if k+1 < len(p) {
			to = p[k+1]
		}
		j, ok := p[k].Instrs[len(p[k].Instrs)-1].(*ssa.If)
		if ok && p[k].Succs[0] != p[k].Succs[1] && p.at(j.Cond, l.header) == v {
			val, known = p[k].Succs[0] == to, true
		}
	}
	if !known {
		return false
	}
	if neg {
		val = !val
	}
	if val {
		return !l.body[l.header.Succs[0]]
	}
	return !l.body[l.header.Succs[1]]
}

var flipped = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
var negated = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}

// ends gives the reason why a loop ends, "" if none is found.
func (l *sloop) ends() string {
	var laps []lap
	for _, p := range l.laps() {
		if !l.last(p) {
			laps = append(laps, p)
		}
	}
	if len(laps) == 0 {
		return ""
	}
	every := func(b *ssa.BasicBlock) bool {
		for _, p := range laps {
			found := false
			for _, q := range p {
				found = found || q == b
			}
			if !found {
				return false
			}
		}
		return true
	}
	for _, b := range l.fn.Blocks {
		if !l.body[b] || len(b.Instrs) == 0 || !every(b) {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && l.ip.waits(c) {
				return "every iteration waits for the network"
			}
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] == l.body[b.Succs[1]] {
			continue
		}
		if e, ok := i.Cond.(*ssa.Extract); ok {
			switch x := e.Tuple.(type) {
			case *ssa.Next:
				return "it walks over a container once"
			case *ssa.Lookup:
				if l.body[b.Succs[0]] && e.Index == 1 && l.drains(laps, x) {
					return "it goes on while a map has the next entry"
				}
			}
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := c.Op
		if !l.body[b.Succs[0]] { // leaves when true
			op = negated[op]
		}
		if l.toward(laps, c.X, op, c.Y) || l.toward(laps, c.Y, flipped[op], c.X) {
			return "a counter reaches its limit"
		}
		if op == token.NEQ && (l.chain(laps, c.X) && isNil(c.Y) || l.chain(laps, c.Y) && isNil(c.X)) {
			return "it follows a chain of links"
		}
	}
	return ""
}

// loopsEnd requires every loop beneath the roots to have a reason to end.
func (c *Check) loopsEnd(roots []*ssa.Function) {
	c.rule("every loop ends: it counts toward a limit that stays, walks over a container, empties a map, follows links to their end, or waits for the network in every iteration")
	ip := newInterp(c.r)
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !c.r.isRepoFn(f) || c.r.relPkg(f) == "sttp/data/parser" || f.Name() == "String" {
			return
		}
		seen[f] = true
		for _, g := range c.r.callees(f) {
			visit(g)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	for _, f := range c.r.funcs {
		if !seen[f] {
			continue
		}
		for _, l := range naturalLoops(ip, f) {
			c.count("loops", 1)
			why := l.ends()
			c.ok(why != "", "loop in "+shortFn(f), c.r.pos(l.pos()), "[%s] nothing shows that this loop ends", shortFn(f))
			if why != "" {
				c.count("loops: "+why, 1)
			}
		}
	}
}

func isNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// toward: the loop goes on while x op y, and x moves toward y, which stays.
func (l *sloop) toward(laps []lap, x ssa.Value, op token.Token, y ssa.Value) bool {
	if !l.fixed(y) {
		return false
	}
	size := func(t types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(t) }
	for {
		if b, ok := x.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, ok := b.Y.(*ssa.Const); ok {
				x = b.X
				continue
			}
		}
		if c, ok := x.(*ssa.Convert); ok && isInt(c.X.Type()) {
			// the limit has to be within what the counter can hold
			d, ok := y.(*ssa.Convert)
			if size(c.X.Type()) < size(c.Type()) && !(ok && isInt(d.X.Type()) && size(d.X.Type()) <= size(c.X.Type())) {
				return false
			}
			x = c.X
			continue
		}
		break
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != l.header || !isInt(phi.Type()) {
		return false
	}
	for _, p := range laps {
		d, ok := l.step(p, phi)
		if !ok {
			return false
		}
		wide := size(phi.Type()) == 8
		switch op {
		case token.LSS:
			ok = d == 1 || d > 1 && wide
		case token.GTR:
			ok = d == -1 || d < -1 && wide
		case token.LEQ:
			// a limit that is the largest number is never passed; 64-bit
			// limits are taken to be less
			_, ok = y.(*ssa.Const)
			ok = d > 0 && (ok || lengthLess(y) || wide)
		case token.GEQ:
			c, isC := y.(*ssa.Const)
			ok = d < 0 && isC && (c.Int64() > 0 || !isUnsigned(phi.Type()))
		case token.NEQ:
			ok = d == 1 || d == -1
		default:
			ok = false
		}
		if !ok {
			return false
		}
	}
	return true
}

// lengthLess: a length, or a length less something.
func lengthLess(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	case *ssa.BinOp:
		return x.Op == token.SUB && lengthLess(x.X)
	}
	return false
}

// drains: the loop goes on while a map has an entry, adds none, and either
// removes one or looks for another one each time.
func (l *sloop) drains(laps []lap, x *ssa.Lookup) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.MapUpdate); ok {
				return false
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	if phi, ok := x.Index.(*ssa.Phi); ok && phi.Block() == l.header {
		for _, p := range laps {
			if d, ok := l.step(p, phi); !ok || d == 0 {
				return false
			}
		}
		return true
	}
	u, ok := x.Index.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	// a cell that advances by a constant each time
	for _, p := range laps {
		n := 0
		for _, b := range p {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !sameCell(st.Addr, u.X) {
					continue
				}
				n++
				add, ok := st.Val.(*ssa.BinOp)
				if !ok || add.Op != token.ADD && add.Op != token.SUB {
					return false
				}
				ld, ok := add.X.(*ssa.UnOp)
				c, isC := add.Y.(*ssa.Const)
				if !ok || ld.Op != token.MUL || !sameCell(ld.X, u.X) || !isC || c.Int64() == 0 {
					return false
				}
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && x.Field == y.Field && sameCell(x.X, y.X)
}

// chain: the value is a pointer that is replaced by one of its own links.
func (l *sloop) chain(laps []lap, x ssa.Value) bool {
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != l.header {
		return false
	}
	for _, p := range laps {
		u, ok := l.next(p, phi).(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fa.X != ssa.Value(phi) || !l.kept(fa) {
			return false
		}
	}
	return true
}

// waits: the call may block on a connection.
func (ip *Interp) waits(c ssa.CallInstruction) bool {
	if _, ok := c.(*ssa.Call); !ok {
		return false
	}
	blocking := map[string]bool{"io.ReadFull": true, "(*bufio.Reader).Read": true, "net.Dial": true, "net.DialTimeout": true}
	g := c.Common().StaticCallee()
	if g == nil {
		return false
	}
	if blocking[extName(g)] {
		return true
	}
	if !ip.r.isRepoFn(g) {
		return false
	}
	for f := range ip.r.reach(g) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.Call); ok {
					if h := d.Call.StaticCallee(); h != nil && blocking[extName(h)] {
						return true
					}
				}
			}
		}
	}
	return false
}
