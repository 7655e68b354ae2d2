package main

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reference models: Go source files that state, next to the real code and in
// terms of its types, what a function has to compute. They are type-checked
// as part of the package and summarised by the same interpretation as the
// code; the two summaries are then compared as canonical diagrams. Nothing is
// executed.

//go:embed spec/*.txt
var specFS embed.FS

func specOverlay(root string, names []string) map[string][]byte {
	out := map[string][]byte{}
	for _, n := range names {
		b, err := specFS.ReadFile("spec/" + n + ".txt")
		if err != nil {
			undecided("reference model %s missing", n)
		}
		first, _, _ := strings.Cut(string(b), "\n")
		dir := strings.TrimSpace(strings.TrimPrefix(first, "// dir:"))
		out[root+"/"+dir+"/zz_reference_"+n+".go"] = b
	}
	return out
}

func isSpecFile(name string) bool { return strings.Contains(name, "/zz_reference_") }

// det makes every symbolic name a function of what happened before it, so
// that two runs that do the same things produce the same terms.
type det struct {
	n    map[string]int
	perm map[[2]int]int      // (loop, group) -> index of the order of its members
	size map[[2]int]int      // members per group, filled while running
	keep map[phiKey]bool     // variables that never change in their loop
	dead map[phiKey]bool     // variables without influence
	step map[phiKey]*big.Int // variables that advance by a constant
	when *MT                 // what the reference model assumes
	does map[*Term]*Term     // function values described by what they do
	pure []string            // calls without effects
	late []*Term             // variables assigned after a function value took them
	diff map[[2]*Term]*MT    // when two terms differ
}

type phiKey struct {
	loop int
	phi  *ssa.Phi
}

// settled sets aside variables known to be constant or without influence, and
// expresses those that advance by a constant through the iteration number.
func (ip *Interp) settled(li *Loop, phis []*ssa.Phi, vals map[*ssa.Phi]*MT) []*ssa.Phi {
	var rest []*ssa.Phi
	number := map[string]*Term{} // iteration number by type
	for _, phi := range phis {
		k := phiKey{li.id, phi}
		switch {
		case ip.det.keep[k]:
		case ip.det.dead[k]:
			vals[phi] = ip.val(ip.mk("phi", "unused", phi.Type()))
		case ip.det.step[k] != nil:
			t := phi.Type()
			name := fmt.Sprintf("L%d.n.%s", li.id, ip.tname(plain(t)))
			it := number[name]
			if it == nil {
				it = ip.freshTerm("phi", name, plain(t))
				number[name] = it
			}
			vals[phi] = ip.val(ip.arith(token.ADD, vals[phi].leaf, ip.arith(token.MUL, it, ip.bigTerm(ip.det.step[k], t), t), t))
		default:
			rest = append(rest, phi)
		}
	}
	return rest
}

// settle finds variables of the loops of a run that are constant or without
// influence on anything compared.
func (ip *Interp) settle(r *eqRun) bool {
	found := false
	for _, l := range r.loops {
		for i := range l.phis {
			p := &l.phis[i]
			same := len(p.next) > 0
			for k, n := range p.next {
				n = ip.apply1(n, func(t *Term) *MT {
					if t == p.term {
						return p.init
					}
					return ip.val(t)
				})
				same = same && ip.equalUnder(n, p.init, p.npc[k])
			}
			if same {
				ip.det.keep[phiKey{l.id, p.phi}] = true
				found = true
			} else if d := ip.stepOf(p); d != nil {
				ip.det.step[phiKey{l.id, p.phi}] = d
				found = true
			}
		}
	}
	if found {
		return true
	}
	used := map[*Term]bool{}
	seenT := map[*Term]bool{}
	seenM := map[*MT]bool{}
	var term func(t *Term)
	var mt func(m *MT)
	term = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		if t.op == "phi" {
			used[t] = true
		}
		if t.op == "mt" {
			mt(t.mt)
		}
		if t.op == "ver" && strings.HasPrefix(t.str, "d") {
			if id, err := strconv.Atoi(t.str[1:]); err == nil {
				if v := ip.byID[id]; v != nil {
					term(v)
				}
			}
		}
		for _, a := range t.args {
			term(a)
		}
	}
	mt = func(m *MT) {
		if seenM[m] {
			return
		}
		seenM[m] = true
		if m.atom < 0 {
			term(m.leaf)
			return
		}
		term(ip.atoms[m.atom])
		mt(m.hi)
		mt(m.lo)
	}
	state := func(s *State) {
		for a, v := range s.mem {
			term(a)
			mt(v)
		}
		for _, v := range s.ver {
			mt(v)
		}
	}
	mt(r.res.pc)
	for _, v := range r.res.rets {
		mt(v)
	}
	state(r.res.st)
	for _, l := range r.loops {
		mt(l.pc)
		for _, p := range l.backPC {
			mt(p)
		}
		for _, s := range l.backSt {
			state(s)
		}
		if l.entry != nil {
			state(l.entry)
		}
	}
	done := map[*LoopPhi]bool{}
	for again := true; again; {
		again = false
		for _, l := range r.loops {
			for i := range l.phis {
				p := &l.phis[i]
				if used[p.term] && !done[p] {
					done[p] = true
					again = true
					mt(p.init)
					for k, n := range p.next {
						mt(ip.constrain(n, p.npc[k]))
					}
				}
			}
		}
	}
	for _, l := range r.loops {
		for i := range l.phis {
			p := &l.phis[i]
			if !used[p.term] {
				ip.det.dead[phiKey{l.id, p.phi}] = true
				found = true
			}
		}
	}
	return found
}

// stepOf is the constant by which every iteration advances a variable.
func (ip *Interp) stepOf(p *LoopPhi) *big.Int {
	if !isInt(p.phi.Type()) || p.init.atom >= 0 {
		return nil
	}
	var step *big.Int
	for k, n := range p.next {
		for _, t := range ip.leavesUnder(n, p.npc[k]) {
			l := ip.linOf(t)
			if len(l.terms) != 1 || l.terms[0] != p.term || l.coef[0].Cmp(big.NewInt(1)) != 0 || step != nil && step.Cmp(l.c) != 0 {
				return nil
			}
			step = l.c
		}
	}
	if step == nil || step.Sign() == 0 {
		return nil
	}
	return step
}

// permute reorders variables that nothing distinguishes so far.
func (ip *Interp) permute(li *Loop, phis []*ssa.Phi, vals map[*ssa.Phi]*MT) {
	for i, g := 0, 0; i < len(phis); g++ {
		j := i + 1
		for j < len(phis) && ip.tname(phis[i].Type()) == ip.tname(phis[j].Type()) && vals[phis[i]] == vals[phis[j]] {
			j++
		}
		k := [2]int{li.id, g}
		ip.det.size[k] = j - i
		n := ip.det.perm[k]
		src := append([]*ssa.Phi(nil), phis[i:j]...)
		for x := i; x < j; x++ {
			f := 1
			for y := 2; y < j-x; y++ {
				f *= y
			}
			at := n / f
			n %= f
			phis[x] = src[at]
			src = append(src[:at:at], src[at+1:]...)
		}
		i = j
	}
}

func (ip *Interp) tokCell() *Term { return ip.mk("tokcell", "", nil) }
func (ip *Interp) tokStart() *MT  { return ip.leafNode(ip.mk("tok", "start", nil)) }
func (ip *Interp) token(s *State) *MT {
	if v, ok := s.mem[ip.tokCell()]; ok {
		return v
	}
	return ip.tokStart()
}

func (ip *Interp) detName(kind string) string {
	ip.det.n[kind]++
	return kind + "#" + strconv.Itoa(ip.det.n[kind])
}

// detVer names a memory version after what caused it.
func (ip *Interp) detVer(key string, args ...*Term) *MT {
	t := ip.mk("vk", key, nil, args...)
	return ip.leafNode(ip.mk("ver", "d"+strconv.Itoa(t.id), nil))
}

// constrain is the canonical generalised cofactor.
func (w *World) constrain(f, c *MT) *MT {
	if c == w.False {
		return f
	}
	memo := map[[2]int]*MT{}
	var rec func(f, c *MT) *MT
	rec = func(f, c *MT) *MT {
		if c == w.True || f.atom < 0 {
			return f
		}
		k := [2]int{f.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		t := top(f, c)
		var r *MT
		ch, cl := cof(c, t, true), cof(c, t, false)
		switch {
		case ch == w.False:
			r = rec(cof(f, t, false), cl)
		case cl == w.False:
			r = rec(cof(f, t, true), ch)
		default:
			r = w.node(t, rec(cof(f, t, true), ch), rec(cof(f, t, false), cl))
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// event records an observable action in the history carried by s and returns
// the new history.
func (ip *Interp) event(s *State, pc *MT, name string, args []*MT) *MT {
	ms := make([]*MT, 0, len(args)+1)
	n := 1
	for _, a := range ip.det.late {
		// what functions handed over earlier find in such variables
		args = append(args[:len(args):len(args)], ip.load(s, ip.val(a), ptrElem(a.typ)))
	}
	for _, a := range append([]*MT{ip.token(s)}, args...) {
		if a == nil {
			a = ip.leafNode(ip.mk("none", "", nil))
		}
		a = ip.constrain(a, pc)
		if !isBoolMT(ip.World, a) {
			conds := map[*Term]*MT{}
			if a.atom >= 0 {
				conds = ip.leafConds(a)
			}
			a = ip.apply1(a, func(t *Term) *MT {
				if c := conds[t]; c != nil {
					return ip.leafNode(ip.filled(s, ip.deepUnder(s, t, ip.and(pc, c))))
				}
				return ip.leafNode(ip.filled(s, ip.deepUnder(s, t, pc)))
			})
		}
		ms = append(ms, a)
		n *= len(ip.leavesUnder(a, ip.True))
		if n > 1<<20 {
			n = 1 << 20
		}
	}
	var tok *MT
	if n <= 96 {
		var rec func(k int, ts []*Term) *MT
		rec = func(k int, ts []*Term) *MT {
			if k == len(ms) {
				return ip.leafNode(ip.mk("tok", name, nil, ts...))
			}
			return ip.apply1(ms[k], func(t *Term) *MT {
				return rec(k+1, append(append([]*Term(nil), ts...), t))
			})
		}
		tok = rec(0, nil)
	} else {
		var ts []*Term
		for _, m := range ms {
			ts = append(ts, ip.asTerm(m))
		}
		tok = ip.leafNode(ip.mk("tok", name, nil, ts...))
	}
	s.mem[ip.tokCell()] = tok
	return tok
}

// elements describes what is known to be stored in the elements of base.
func (ip *Interp) elements(s *State, base *Term) *Term {
	type kv struct {
		k *Term
		v *MT
	}
	var kvs []kv
	for a, v := range s.mem {
		for b := a; b != nil && (b.op == "eaddr" || b.op == "faddr"); b = b.args[0] {
			if b.op == "eaddr" && b.args[0] == base {
				kvs = append(kvs, kv{a, v})
				break
			}
		}
	}
	if v, ok := s.ver["B:"+strconv.Itoa(base.id)]; ok {
		kvs = append(kvs, kv{ip.mk("ver", "", nil), v})
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].k.id < kvs[j].k.id })
	var args []*Term
	for _, x := range kvs {
		k := x.k
		if k.op == "eaddr" && k.args[0] == base {
			k = k.args[1]
		}
		args = append(args, k, ip.asTerm(x.v))
	}
	return ip.mk("elements", "", nil, args...)
}

// filled adds to a slice of shared memory what has been stored in it.
func (ip *Interp) filled(s *State, t *Term) *Term {
	if t.typ == nil || t.op == "nil" {
		return t
	}
	if _, ok := t.typ.Underlying().(*types.Slice); !ok {
		return t
	}
	b := t
	if b.op == "slice" {
		b = b.args[0]
	}
	if r := rootOf(b); r.op == "alloc" || r.op == "makeslice" {
		return t
	}
	if e := ip.elements(s, b); len(e.args) > 0 {
		return ip.mk("filled", "", t.typ, t, e)
	}
	return t
}

// changed lists the shared cells covered by keys (nil: all) that have been written.
func (ip *Interp) changed(s *State, keys map[string]bool) []*Term {
	var out []*Term
	for a, v := range s.mem {
		switch a.op {
		case "lockstate", "tokcell", "maddr", "sbcell":
			continue
		}
		if r := rootOf(a); r.op == "alloc" || r.op == "makeslice" {
			continue
		}
		hit := keys == nil || a.op == "boolcell" && keys["F:"+a.args[0].str]
		for _, k := range ip.verKeys(a) {
			hit = hit || keys[k]
		}
		if e := ptrElem(a.typ); hit && e != nil && v != ip.loadMiss(s, a, e) {
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// found lists what was changed among what a called function looks at or
// overwrites.
func (ip *Interp) found(s *State, keys map[string]bool) (names string, vals []*MT) {
	for _, a := range ip.changed(s, keys) {
		names += " " + ip.show(a)
		vals = append(vals, s.mem[a])
	}
	var ms []string
	for k, v := range s.ver {
		if strings.HasPrefix(k, "M:") && (keys == nil || keys[k]) && !(v.atom < 0 && strings.Trim(v.leaf.str, "0.") == "") {
			ms = append(ms, k)
		}
	}
	sort.Strings(ms)
	for _, k := range ms {
		names += " " + k
		vals = append(vals, s.ver[k])
	}
	return
}

// refOf adds the fields fn reads, directly or through functions of the
// repository it calls.
func (ip *Interp) refOf(fn *ssa.Function, keys map[string]bool, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if _, ok := ptrElem(x.Type()).Underlying().(*types.Signature); !ok {
					keys["F:"+fieldKey(x.X.Type(), x.Field)] = true
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					keys["M:"+ip.tname(x.X.Type())] = true
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					keys["M:"+ip.tname(x.X.Type())] = true
				}
			case ssa.CallInstruction:
				if c := x.Common().StaticCallee(); c != nil && ip.r.isRepoFn(c) {
					ip.refOf(c, keys, seen)
				}
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && ip.r.isRepoFn(f) && f.Parent() == fn {
					ip.refOf(f, keys, seen)
				}
			}
		}
	}
}

// tokVer turns a history into a memory version.
func (ip *Interp) tokVer(tok *MT, key string) *MT {
	return ip.apply1(tok, func(t *Term) *MT { return ip.detVer(key, t) })
}

// deep replaces local objects inside a term by their contents.
func (ip *Interp) deep(s *State, t *Term) *Term { return ip.deepUnder(s, t, ip.True) }

// deepUnder does the same for situations in which cond holds.
func (ip *Interp) deepUnder(s *State, t *Term, cond *MT) *Term {
	memo := map[*Term]*Term{}
	busy := map[*Term]bool{}
	var rec func(t *Term) *Term
	recMT := func(m *MT) *Term {
		if cond != ip.False {
			m = ip.constrain(m, cond)
		}
		if isBoolMT(ip.World, m) {
			return ip.asTerm(m)
		}
		return ip.asTerm(ip.apply1(m, func(t *Term) *MT { return ip.leafNode(rec(t)) }))
	}
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		switch t.op {
		case "alloc", "makeslice", "makemap":
			if busy[t] {
				return ip.mk("self", "", nil)
			}
			busy[t] = true
			r := ip.contents(s, t, rec, recMT)
			delete(busy, t)
			memo[t] = r
			return r
		case "closure", "func":
			r := ip.does(s, t, cond)
			memo[t] = r
			return r
		case "mt":
			r := recMT(t.mt)
			memo[t] = r
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = ip.mk(t.op, t.str, t.typ, args...)
			r.x = t.x
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// spread turns an object whose contents depend on conditions into a choice
// between objects.
func (ip *Interp) spread(t *Term) *MT {
	if t.op != "obj" {
		return ip.val(t)
	}
	n := 1
	for _, a := range t.args {
		if a.op == "mt" {
			n *= len(ip.leavesUnder(a.mt, ip.True))
		}
	}
	if n == 1 || n > 256 {
		return ip.val(t)
	}
	var rec func(k int, ts []*Term) *MT
	rec = func(k int, ts []*Term) *MT {
		if k == len(t.args) {
			var keep []*Term
			for i := 0; i < len(ts); i++ {
				if x := ts[i]; (x.op == "faddr" || x.op == "eaddr") && i+1 < len(ts) && t.args[i+1].op == "mt" {
					if z := ip.zero(ptrElem(x.typ)); z.atom < 0 && z.leaf == ts[i+1] {
						i++
						continue
					}
				}
				keep = append(keep, ts[i])
			}
			return ip.val(ip.mk(t.op, t.str, t.typ, keep...))
		}
		next := func(x *Term) *MT { return rec(k+1, append(append([]*Term(nil), ts...), x)) }
		if t.args[k].op == "mt" {
			return ip.apply1(t.args[k].mt, next)
		}
		return next(t.args[k])
	}
	return rec(0, nil)
}

// does describes a function value by what a call of it would do, so that the
// name and the place of a function literal do not matter.
func (ip *Interp) does(s *State, t *Term, cond *MT) *Term {
	fn, ok := t.x.(*ssa.Function)
	if !ok || len(fn.Blocks) == 0 || !ip.r.isRepoFn(unwrapBound(fn)) && fn.Synthetic == "" || ip.det == nil {
		return t
	}
	if r, ok := ip.det.does[t]; ok {
		return r
	}
	ip.det.does[t] = t // recursive values stand for themselves
	var free []*MT
	for _, b := range t.args {
		free = append(free, ip.val(b))
	}
	args := make([]*MT, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = ip.val(ip.mk("param", fmt.Sprintf("arg%d of %d", i, len(ip.det.does)), p.Type()))
	}
	for i, b := range t.args {
		if assignedLater(fn, i) && b.op == "alloc" && len(ip.det.late) < 4 {
			e := ptrElem(b.typ)
			if _, ok := e.Underlying().(*types.Struct); ok || e == nil {
				continue
			}
			s = s.clone()
			s.mem[b] = ip.leafNode(ip.mk("late", strconv.Itoa(len(ip.det.late)), e))
			ip.det.late = append(ip.det.late, b)
		}
	}
	d := ip.doesCall(s, nil, fn, args, free, cond)
	ip.det.does[t] = d
	return d
}

// assignedLater: the function that creates fn may assign the variable fn
// captures as number i after that.
func assignedLater(fn *ssa.Function, i int) bool {
	if fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for at, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn || i >= len(mc.Bindings) {
				continue
			}
			al, ok := mc.Bindings[i].(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, r := range *al.Referrers() {
				st, ok := r.(*ssa.Store)
				if !ok || st.Addr != al {
					continue
				}
				for _, x := range b.Instrs[at:] {
					if x == r {
						return true
					}
				}
				seen := map[*ssa.BasicBlock]bool{}
				todo := append([]*ssa.BasicBlock(nil), b.Succs...)
				for len(todo) > 0 {
					x := todo[len(todo)-1]
					todo = todo[:len(todo)-1]
					if x == st.Block() && al.Block() != x {
						return true
					}
					if !seen[x] && x != al.Block() {
						seen[x] = true
						todo = append(todo, x.Succs...)
					}
				}
			}
		}
	}
	return false
}

// doesCall describes what a later call of fn with args would do.
func (ip *Interp) doesCall(s *State, in ssa.CallInstruction, fn *ssa.Function, args, free []*MT, cond *MT) *Term {
	st := ip.newState()
	for a, v := range s.mem {
		if r := rootOf(a); (r.op == "alloc" || r.op == "makeslice") && a.op != "lockstate" {
			if cond != ip.True && cond != ip.False {
				v = ip.constrain(v, cond)
			}
			if v.atom >= 0 && !isBoolMT(ip.World, v) {
				// one value, whatever it depends on
				e := ptrElem(a.typ)
				t := ip.asTerm(v)
				v = ip.leafNode(ip.mk("held", "", e, t))
			}
			st.mem[a] = v
		}
	}
	start := st.clone()
	var out []*Term
	done := false
	if in != nil {
		_, done = ip.onCall(in, fn, args, st, ip.True)
	}
	if done {
		out = []*Term{ip.asTerm(ip.True), ip.asTerm(ip.token(st))}
	} else {
		r := ip.run(fn, args, free, st, ip.True)
		st = r.st
		out = []*Term{ip.asTerm(r.pc), ip.asTerm(ip.token(st))}
		if in == nil {
			for k, v := range r.rets {
				if types.Identical(fn.Signature.Results().At(k).Type(), types.Universe.Lookup("error").Type()) {
					v = ip.apply1(v, func(t *Term) *MT { return ip.eqTerms(t, ip.mk("nil", "", nil)) })
				}
				out = append(out, ip.deepMT(st, v))
			}
		}
	}
	var stored []*Term
	for a, v := range st.mem {
		if a.op == "lockstate" || a.op == "tokcell" {
			continue
		}
		root := rootOf(a)
		if _, had := start.mem[a]; (root.op == "alloc" || root.op == "makeslice") && !had {
			continue // local to the call
		}
		if start.mem[a] != v {
			stored = append(stored, a)
		}
	}
	sort.Slice(stored, func(i, j int) bool { return stored[i].id < stored[j].id })
	for _, a := range stored {
		out = append(out, a, ip.deepMT(st, st.mem[a]))
	}
	return ip.mk("does", "", nil, out...)
}

// goEvent records the start of a goroutine, described by what it does and what
// it finds.
func (ip *Interp) goEvent(in *ssa.Go, fv *MT, args []*MT, callee *ssa.Function, method string, s *State, pc *MT) {
	var free []*MT
	if fv != nil && fv.atom < 0 {
		if f, ok := fv.leaf.x.(*ssa.Function); ok {
			callee = f
			for _, b := range fv.leaf.args {
				free = append(free, ip.val(b))
			}
		}
	}
	if callee == nil || len(callee.Blocks) == 0 || !ip.r.isRepoFn(unwrapBound(callee)) && callee.Synthetic == "" {
		ip.event(s, pc, "go:"+method, append([]*MT{fv}, args...))
		return
	}
	keys := map[string]bool{}
	ip.refOf(callee, keys, map[*ssa.Function]bool{})
	evs := []*MT{ip.leafNode(ip.doesCall(s, in, callee, args, free, pc))}
	name := "go"
	more, vs := ip.found(s, keys)
	ip.event(s, pc, name+more, append(evs, vs...))
}

func (ip *Interp) contents(s *State, root *Term, rec func(*Term) *Term, recMT func(*MT) *Term) *Term {
	self := ip.mk("self", "", nil)
	var path func(a *Term) *Term
	path = func(a *Term) *Term {
		if a == root {
			return self
		}
		args := append([]*Term(nil), a.args...)
		args[0] = path(a.args[0])
		return ip.mk(a.op, a.str, a.typ, args...)
	}
	type kv struct {
		k, v *Term
		key  string
	}
	var kvs []kv
	for a, v := range s.mem {
		if a.op == "lockstate" || a.op == "tokcell" {
			continue
		}
		if a.op == "maddr" {
			if a.args[0] == root {
				kvs = append(kvs, kv{ip.mk("mkey", "", nil, rec(a.args[1])), recMT(v), ""})
			}
			continue
		}
		if a == root || rootOf(a) != root {
			if a != root {
				continue
			}
		}
		if z := ptrElem(a.typ); z != nil && len(ip.verKeysSet(s, a)) == 0 && ip.zero(z) == v {
			continue
		}
		kvs = append(kvs, kv{path(a), recMT(v), ""})
	}
	for i := range kvs {
		kvs[i].key = ip.show(kvs[i].k)
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].key < kvs[j].key })
	var args []*Term
	for _, x := range root.args {
		args = append(args, rec(x))
	}
	for _, x := range kvs {
		args = append(args, x.k, x.v)
	}
	for _, k := range []string{"R:" + strconv.Itoa(root.id), "B:" + strconv.Itoa(root.id)} {
		if v, ok := s.ver[k]; ok {
			args = append(args, ip.asTerm(v))
		}
	}
	if root.op == "makemap" {
		if v, ok := s.ver["M:"+ip.tname(root.typ)]; ok {
			args = append(args, ip.asTerm(v))
		}
	}
	return ip.mk("obj", root.op, root.typ, args...)
}

// Eq describes a comparison of a function with its reference model.
type Eq struct {
	impl, spec string              // several models separated by | are alternatives
	pure       []string            // repository functions treated as uninterpreted functions of their arguments
	events     []string            // repository functions whose calls are observed but not entered
	reports    []string            // like events, but the arguments do not matter
	sees       map[string][]string // fields whose contents matter when an event happens
	silent     []string            // repository functions whose calls are ignored
	inline     []string            // repository functions entered even if they match events or silent
	errOnly    bool                // last result is an error: compare only whether it is nil, and the rest only when it is
	noUnroll   bool                // compare loops iteration by iteration even if their number is constant
	noMem      bool                // do not compare memory
	noTok      bool                // do not compare histories
	locks      bool                // locking and unlocking are observed, with all memory changed so far
	cells      func(addr *Term) bool
	setup      func(ip *Interp, st *State, args []*MT)
	args       func(ip *Interp, args []*MT)
	assume     func(ip *Interp, args []*MT) *MT
	objects    bool // package-level objects have their initial values
	typed      bool // type assertions on unknown values succeed
	cases      *Cases
	dyn        int       // parameter that is compared with each of these types in turn
	dynTypes   []string  // "" is nil
	ops        []operand // the case being compared
	flags      int
	key        string
}

func nameIn(list []string, n string) bool {
	for _, l := range list {
		if l == n || strings.HasSuffix(l, "*") && strings.HasPrefix(n, strings.TrimSuffix(l, "*")) {
			return true
		}
	}
	return false
}

type eqRun struct {
	res   *Result
	loops []*Loop
}

func (c *Check) newDet(e *Eq) *Interp {
	ip := newInterp(c.r)
	ip.builders = true
	ip.obl = false
	ip.det = &det{pure: e.pure, diff: map[[2]*Term]*MT{}}
	ip.noUnroll = e.noUnroll
	ip.lockEvents = e.locks
	ip.typed = e.typed
	ip.sees = map[string]map[string]bool{}
	for n, fs := range e.sees {
		ip.sees[n] = map[string]bool{}
		for _, f := range fs {
			ip.sees[n]["F:"+f] = true
		}
	}
	ip.onCall = func(in ssa.CallInstruction, callee *ssa.Function, args []*MT, st *State, pc *MT) ([]*MT, bool) {
		if !c.r.isRepoFn(callee) {
			return nil, false
		}
		n := shortFn(callee)
		if callee.Name() == "refAssume" && isSpecFile(c.r.fset.Position(callee.Pos()).Filename) {
			ip.det.when = ip.and(ip.det.when, ip.or(ip.not(pc), args[0]))
			return []*MT{}, true
		}
		if callee.Name() == "refOnly" && isSpecFile(c.r.fset.Position(callee.Pos()).Filename) {
			one, none := ip.False, ip.True
			for a, v := range st.mem {
				if a.op == "eaddr" && mentions(args[0].leaf, rootOf(a)) {
					one = ip.or(ip.and(one, ip.not(v)), ip.and(none, v))
					none = ip.and(none, ip.not(v))
					delete(st.mem, a)
				}
			}
			ip.det.when = ip.and(ip.det.when, ip.or(ip.not(pc), ip.or(one, none)))
			return []*MT{}, true
		}
		if e.cases != nil && n == e.cases.eval {
			return c.evalOperand(ip, e, callee, args, st), true
		}
		if nameIn(e.inline, n) || c.r.gone[n] {
			return nil, false
		}
		sig := callee.Signature
		if callee.Pkg != nil && callee.Pkg.Pkg.Name() == "format" && !strings.HasPrefix(e.impl, "format.") {
			return ip.pure(n, args, sig, st, in.Common()), true
		}
		switch {
		case nameIn(e.silent, n):
			var rets []*MT
			for i := 0; i < sig.Results().Len(); i++ {
				rets = append(rets, ip.val(ip.mk("ret", n+"."+strconv.Itoa(i), sig.Results().At(i).Type())))
			}
			return rets, true
		case nameIn(e.pure, n):
			return ip.pure(n, args, sig, st, in.Common()), true
		case nameIn(e.events, n), nameIn(e.reports, n):
			if nameIn(e.reports, n) {
				args = args[:0]
			}
			ms := ip.modOf(callee, map[*ssa.Function]bool{})
			name := n
			if !nameIn(e.reports, n) {
				// what the callee finds in memory, and what it may overwrite
				keys := map[string]bool{}
				for k := range ms.keys {
					keys[k] = true
				}
				ip.refOf(callee, keys, map[*ssa.Function]bool{})
				for _, k := range e.sees[n] {
					keys["F:"+k] = true
				}
				more, vs := ip.found(st, keys)
				name += more
				args = append(args[:len(args):len(args)], vs...)
			}
			tok := ip.event(st, pc, name, args)
			var rets []*MT
			for i := 0; i < sig.Results().Len(); i++ {
				t := sig.Results().At(i).Type()
				k := strconv.Itoa(i)
				rets = append(rets, ip.apply1(tok, func(x *Term) *MT { return ip.val(ip.mk("ret", k, t, x)) }))
			}
			ip.havocWith(st, ms, func(v ssa.Value) *MT { return nil }, ip.tokVer(tok, "call"))
			return rets, true
		}
		return nil, false
	}
	return ip
}

// callersOf lists the other functions whose models call a function or its
// model, so that what it does is compared there when it is gone.
func (c *Check) callersOf(name string, except map[string]bool) []*Eq {
	names := map[string]bool{name: true}
	for i := range models {
		if models[i].eq.impl == name {
			for _, s := range strings.Split(models[i].eq.spec, "|") {
				names[s] = true
			}
		}
	}
	var out []*Eq
	for i := range models {
		e := models[i].eq
		if except[e.impl] {
			continue
		}
		for _, s := range strings.Split(e.spec, "|") {
			if f := c.r.specs[s]; f != nil && c.callsNamed(f, names, map[*ssa.Function]bool{}) {
				out = append(out, &e)
				break
			}
		}
	}
	return out
}

func (c *Check) callsNamed(f *ssa.Function, names map[string]bool, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				g, ok := (*o).(*ssa.Function)
				if !ok {
					continue
				}
				g = unwrapBound(g)
				if names[shortFn(g)] || c.r.specs[g.Name()] == g && (names[g.Name()] || c.callsNamed(g, names, seen)) {
					return true
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		if c.callsNamed(g, names, seen) {
			return true
		}
	}
	return false
}

// equiv compares fn with its reference model and reports every difference.
func (c *Check) equiv(e *Eq) {
	impl := c.r.fn(e.impl)
	var best []string
	good := 0
	specs := strings.Split(e.spec, "|")
	for k, name := range specs {
		compare := c.compareFns
		if e.cases != nil {
			compare = c.equivCases
		} else if e.dynTypes != nil {
			compare = c.equivDyn
		}
		n, bad := compare(e, impl, c.r.spec(name))
		if k == 0 || len(bad) == 0 {
			good, best = n, bad
		}
		if len(bad) == 0 {
			break
		}
	}
	c.count("functions compared with their reference model", 1)
	key := e.key
	if key == "" {
		key = e.impl
	}
	pos := c.r.pos(impl.Pos())
	for _, b := range best {
		c.ok(false, key, pos, "%s", b)
	}
	for ; good > 0; good-- {
		c.ok(true, key, pos, "")
	}
}

// compareFns lists the differences between a function and a reference model
// and counts the aspects that agree.
func (c *Check) compareFns(e *Eq, impl, spec *ssa.Function) (int, []string) {
	if len(impl.Params) != len(spec.Params) {
		undecided("%s has %d parameters, its reference model %d", e.impl, len(impl.Params), len(spec.Params))
	}
	for i := range impl.Params {
		if !types.Identical(impl.Params[i].Type(), spec.Params[i].Type()) {
			undecided("parameter %d of %s has type %s, reference model %s", i, e.impl, impl.Params[i].Type(), spec.Params[i].Type())
		}
	}
	ip := c.newDet(e)
	args := ip.paramTerms(spec)
	if e.args != nil {
		e.args(ip, args)
	}
	if e.cases != nil {
		c.caseArgs(ip, e, spec, args)
	}
	base := ip.True
	if e.assume != nil {
		base = e.assume(ip, args)
	}
	once := func(f *ssa.Function, perm map[[2]int]int) *eqRun {
		ip.det.n = map[string]int{}
		ip.det.perm = perm
		ip.det.size = map[[2]int]int{}
		ip.det.does, ip.det.late = map[*Term]*Term{}, nil
		ip.loops = nil
		ip.effects = nil
		st := ip.newState()
		if e.objects {
			st = ip.withObjects(st, impl.Pkg.Pkg)
		}
		if e.setup != nil {
			e.setup(ip, st, args)
		}
		if e.cases != nil {
			c.caseState(ip, e, spec, st)
		}
		ip.det.when = ip.True
		r := ip.run(f, args, nil, st, base)
		return &eqRun{r, ip.loops}
	}
	run := func(f *ssa.Function, perm map[[2]int]int) *eqRun {
		ip.det.keep, ip.det.dead, ip.det.step = map[phiKey]bool{}, map[phiKey]bool{}, map[phiKey]*big.Int{}
		r := once(f, perm)
		for k := 0; k < 6 && ip.settle(r); k++ {
			r = once(f, perm)
		}
		return r
	}
	debugf("%s", e.impl)
	ip.det.when = ip.True
	s := run(spec, nil)
	if ip.det.when != ip.True {
		base = ip.and(base, ip.det.when)
		s = run(spec, nil)
	}
	i := run(impl, nil)
	size := ip.det.size
	debugf(" nodes %d terms %d", ip.nextMT, len(ip.terms))
	n, bad := c.compareRuns(ip, e, spec, i, s, base)
	// variables nothing distinguishes may be listed in another order
	for try, perm := 0, nextPerm(size, nil); len(bad) > 0 && perm != nil && try < 200; try, perm = try+1, nextPerm(size, perm) {
		m, again := c.compareRuns(ip, e, spec, run(impl, perm), s, base)
		if len(again) == 0 {
			n, bad = m, nil
		}
	}
	return n, bad
}

// nextPerm enumerates the orders of all groups, nil after the last.
func nextPerm(size map[[2]int]int, perm map[[2]int]int) map[[2]int]int {
	var ks [][2]int
	for k := range size {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1] })
	out := map[[2]int]int{}
	for k, v := range perm {
		out[k] = v
	}
	for _, k := range ks {
		f := 1
		for i := 2; i <= size[k]; i++ {
			f *= i
		}
		if out[k]+1 < f {
			out[k]++
			return out
		}
		out[k] = 0
	}
	return nil
}

// compareRuns lists the differences between two summaries and counts the
// aspects that agree.
func (c *Check) compareRuns(ip *Interp, e *Eq, spec *ssa.Function, i, s *eqRun, base *MT) (good int, diffs []string) {
	bad := func(what, format string, a ...any) {
		diffs = append(diffs, what+": "+fmt.Sprintf(format, a...))
	}
	pc := ip.and(base, s.res.pc)
	if !ip.same(i.res.pc, s.res.pc, base) {
		bad("normal return", "%s", ip.firstDiff(i.res.pc, s.res.pc, base))
		return
	}
	good++
	rets := len(s.res.rets)
	care := pc
	nilOf := func(m *MT) *MT {
		return ip.apply1(m, func(t *Term) *MT { return ip.eqTerms(t, ip.mk("nil", "", nil)) })
	}
	if e.errOnly && rets > 0 {
		a, b := nilOf(i.res.rets[rets-1]), nilOf(s.res.rets[rets-1])
		if !ip.same(a, b, pc) {
			bad("error-free", "%s", ip.firstDiff(a, b, pc))
		} else {
			good++
		}
		care = ip.and(pc, b)
		rets--
	}
	for k := 0; k < rets; k++ {
		a, b := i.res.rets[k], s.res.rets[k]
		if !isBoolMT(ip.World, a) {
			a = ip.apply1(a, func(t *Term) *MT { return ip.spread(ip.deep(i.res.st, t)) })
			b = ip.apply1(b, func(t *Term) *MT { return ip.spread(ip.deep(s.res.st, t)) })
		}
		if types.Identical(spec.Signature.Results().At(k).Type(), types.Universe.Lookup("error").Type()) {
			a, b = nilOf(a), nilOf(b)
		}
		if !ip.same(a, b, care) {
			bad(fmt.Sprintf("result %d", k), "%s", ip.firstDiff(a, b, care))
		} else {
			good++
		}
	}
	if !e.noMem {
		for _, d := range ip.stateDiff(i.res.st, s.res.st, care, e.cells, nil) {
			bad("memory", "%s", d)
		}
		good++
	}
	if !e.noTok {
		a, b := ip.token(i.res.st), ip.token(s.res.st)
		if !ip.same(a, b, care) {
			bad("actions", "%s", ip.firstDiff(a, b, care))
		} else {
			good++
		}
	}
	if len(i.loops) != len(s.loops) {
		bad("loops", "%d, reference model has %d", len(i.loops), len(s.loops))
		return
	}
	for k := range s.loops {
		for _, d := range ip.loopDiff(i.loops[k], s.loops[k], e) {
			bad(fmt.Sprintf("loop %d", k), "%s", d)
		}
		good++
	}
	return
}

// same reports whether a and b agree wherever care holds, ignoring
// situations whose conditions contradict each other.
func (ip *Interp) same(a, b, care *MT) bool {
	return ip.equalUnder(a, b, care) || ip.difference(a, b, care) == nil
}

// difference finds a consistent situation in which a and b differ.
func (ip *Interp) difference(a, b, care *MT) []Lit {
	ne := ip.apply2(a, b, func(x, y *Term) *MT {
		if x != y && x.typ != nil && y.typ != nil && isInt(x.typ) && isInt(y.typ) && x.op != "mt" && y.op != "mt" {
			return ip.not(ip.compare(token.EQL, x, y))
		}
		return ip.differs(x, y, 0)
	})
	ne = ip.and(ne, care)
	p := newProver(ip)
	budget := 20000
	var rec func(m *MT, lits []Lit) []Lit
	rec = func(m *MT, lits []Lit) []Lit {
		if m == ip.False {
			return nil
		}
		if budget--; budget < 0 {
			return lits
		}
		if len(lits) > 0 && ip.related(lits) && p.contradictory(lits) {
			return nil
		}
		if m == ip.True {
			return append([]Lit{}, lits...)
		}
		l := lits[:len(lits):len(lits)]
		if r := rec(m.hi, append(l, Lit{ip.atoms[m.atom], true})); r != nil {
			return r
		}
		return rec(m.lo, append(l, Lit{ip.atoms[m.atom], false}))
	}
	return rec(ne, nil)
}

// differs gives the condition under which two terms may differ: terms of the
// same form agree when their parts do.
func (ip *Interp) differs(x, y *Term, depth int) *MT {
	if x == y {
		return ip.False
	}
	if depth > 40 {
		return ip.True
	}
	if x.op == "mt" || y.op == "mt" {
		k := [2]*Term{x, y}
		if d := ip.det.diff[k]; d != nil {
			return d
		}
		p, q := ip.leafNode(x), ip.leafNode(y)
		if x.op == "mt" {
			p = x.mt
		}
		if y.op == "mt" {
			q = y.mt
		}
		d := ip.apply2(p, q, func(a, b *Term) *MT { return ip.differs(a, b, depth+1) })
		ip.det.diff[k] = d
		return d
	}
	if x.op == "obj" && y.op == "obj" && x.str == "alloc" && y.str == "alloc" && x.typ == y.typ {
		if f, ok := ip.parts(x); ok {
			if g, ok := ip.parts(y); ok {
				d := ip.False
				for k := range f {
					d = ip.or(d, ip.differs(f[k], ip.part(g, k), depth+1))
				}
				for k := range g {
					if f[k] == nil {
						d = ip.or(d, ip.differs(ip.part(f, k), g[k], depth+1))
					}
				}
				return d
			}
		}
	}
	if x.op != y.op || len(x.args) != len(y.args) || x.typ != y.typ && !(x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ)) {
		return ip.True
	}
	k := [2]*Term{x, y}
	if d := ip.det.diff[k]; d != nil {
		return d
	}
	d := ip.False
	if x.str != y.str {
		// versions stand for the updates that led to them
		i, j := strings.LastIndex(x.str, "d"), strings.LastIndex(y.str, "d")
		if i < 0 || j < 0 || x.str[:i] != y.str[:j] || x.op != "ver" && !strings.HasSuffix(x.str[:i], "@") {
			return ip.True
		}
		m, err1 := strconv.Atoi(x.str[i+1:])
		n, err2 := strconv.Atoi(y.str[j+1:])
		p, q := ip.byID[m], ip.byID[n]
		if err1 != nil || err2 != nil || p == nil || q == nil {
			return ip.True
		}
		d = ip.differs(p, q, depth+1)
	}
	for i := range x.args {
		if d == ip.True {
			break
		}
		d = ip.or(d, ip.differs(x.args[i], y.args[i], depth+1))
	}
	ip.det.diff[k] = d
	return d
}

// parts gives the cells of a described object.
func (ip *Interp) parts(t *Term) (map[*Term]*Term, bool) {
	if len(t.args)%2 != 0 {
		return nil, false
	}
	out := map[*Term]*Term{}
	for i := 0; i < len(t.args); i += 2 {
		k := t.args[i]
		if k.op != "faddr" && k.op != "eaddr" || ptrElem(k.typ) == nil {
			return nil, false
		}
		out[k] = t.args[i+1]
	}
	return out, true
}

// part is the value of a cell, zero if it was never set.
func (ip *Interp) part(cells map[*Term]*Term, k *Term) *Term {
	if v := cells[k]; v != nil {
		return v
	}
	return ip.asTerm(ip.zero(ptrElem(k.typ)))
}

// related reports whether the last literal shares a term with an earlier one.
func (ip *Interp) related(lits []Lit) bool {
	last := lits[len(lits)-1].atom
	for _, l := range lits[:len(lits)-1] {
		for _, x := range last.args {
			for _, y := range l.atom.args {
				if x == y || !x.isConst() && !y.isConst() && (mentions(x, y) || mentions(y, x) || overlap(x, y)) {
					return true
				}
			}
		}
	}
	return false
}

func overlap(x, y *Term) bool {
	for _, a := range x.args {
		for _, b := range y.args {
			if a == b && !a.isConst() {
				return true
			}
		}
	}
	return false
}

// contradictory detects literals that cannot hold together.
func (p *Prover) contradictory(lits []Lit) bool {
	if p.infeasible(lits) {
		return true
	}
	// equalities between values without order
	parent := map[*Term]*Term{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		if q, ok := parent[t]; ok && q != t {
			r := find(q)
			parent[t] = r
			return r
		}
		return t
	}
	fixed := map[*Term]*Term{}
	for _, l := range lits {
		if l.atom.op != "eq" || !l.val {
			continue
		}
		a, b := find(l.atom.args[0]), find(l.atom.args[1])
		if a == b {
			continue
		}
		ca, cb := fixed[a], fixed[b]
		if a.isConst() {
			ca = a
		}
		if b.isConst() {
			cb = b
		}
		if ca != nil && cb != nil && ca != cb {
			return true
		}
		parent[a] = b
		if ca != nil {
			fixed[b] = ca
		} else if cb != nil {
			fixed[b] = cb
		}
	}
	for _, l := range lits {
		if l.atom.op != "eq" || l.val {
			continue
		}
		if find(l.atom.args[0]) == find(l.atom.args[1]) {
			return true
		}
	}
	// x != y where the others force x == y
	facts := p.factsFrom(lits)
	for _, l := range lits {
		if l.atom.op != "eq" || l.val || !isInt(l.atom.args[0].typ) {
			continue
		}
		x, y := p.linear(l.atom.args[0], facts), p.linear(l.atom.args[1], facts)
		if p.entails(facts, sub(x, y)) && p.entails(facts, sub(y, x)) {
			return true
		}
	}
	return false
}

// firstDiff describes one situation in which two values differ.
func (ip *Interp) firstDiff(a, b, care *MT) string {
	lits := ip.difference(a, b, care)
	if lits == nil {
		return "differs"
	}
	var l []string
	c := ip.True
	for _, x := range lits {
		n := ip.atomNode(x.atom)
		s := ip.show(x.atom)
		if !x.val {
			n, s = ip.not(n), "!"+s
		}
		c = ip.and(c, n)
		l = append(l, s)
	}
	w := strings.Join(l, " && ")
	if w == "" {
		w = "always"
	}
	x, y := ip.constrain(a, c), ip.constrain(b, c)
	u, v := ip.innermost(x, y, c, 0)
	return fmt.Sprintf("is %s, required %s when %s", u, v, w)
}

// innermost descends to the part in which two values differ.
func (ip *Interp) innermost(x, y, care *MT, depth int) (string, string) {
	if depth > 60 || x.atom >= 0 || y.atom >= 0 {
		lits := ip.difference(x, y, care)
		if lits == nil || depth > 60 {
			return ip.showMT(x), ip.showMT(y)
		}
		c := ip.True
		for _, l := range lits {
			n := ip.atomNode(l.atom)
			if !l.val {
				n = ip.not(n)
			}
			c = ip.and(c, n)
		}
		u, v := ip.constrain(x, c), ip.constrain(y, c)
		for u.atom >= 0 || v.atom >= 0 {
			k := u.atom
			if k < 0 || v.atom >= 0 && v.atom < k {
				k = v.atom
			}
			n := ip.atomNode(ip.atoms[k])
			if p, q := ip.constrain(u, n), ip.constrain(v, n); p != q {
				u, v, c = p, q, ip.and(c, n)
			} else {
				n = ip.not(n)
				u, v, c = ip.constrain(u, n), ip.constrain(v, n), ip.and(c, n)
			}
		}
		return ip.innermost(u, v, c, depth+1)
	}
	a, b := x.leaf, y.leaf
	if a.op == "ver" && b.op == "ver" && strings.HasPrefix(a.str, "d") && strings.HasPrefix(b.str, "d") {
		i, _ := strconv.Atoi(a.str[1:])
		j, _ := strconv.Atoi(b.str[1:])
		if p, q := ip.byID[i], ip.byID[j]; p != nil && q != nil {
			a, b = p, q
		}
	}
	if a.op == "mt" || b.op == "mt" {
		p, q := ip.leafNode(a), ip.leafNode(b)
		if a.op == "mt" {
			p = a.mt
		}
		if b.op == "mt" {
			q = b.mt
		}
		return ip.innermost(p, q, care, depth+1)
	}
	if a.op == b.op && a.str == b.str && len(a.args) == len(b.args) {
		for i := range a.args {
			if a.args[i] != b.args[i] {
				return ip.innermost(ip.leafNode(a.args[i]), ip.leafNode(b.args[i]), care, depth+1)
			}
		}
	}
	return ip.show(a), ip.show(b)
}

// deepVal describes objects by their contents.
func (ip *Interp) deepVal(s *State, v *MT) *MT {
	if isBoolMT(ip.World, v) {
		return v
	}
	return ip.apply1(v, func(t *Term) *MT { return ip.val(ip.deep(s, t)) })
}

// stateDiff compares memory visible to the caller.
func (ip *Interp) stateDiff(a, b *State, care *MT, cells func(*Term) bool, locals func(*Term) bool) []string {
	keys := map[*Term]bool{}
	for k := range a.mem {
		keys[k] = true
	}
	for k := range b.mem {
		keys[k] = true
	}
	var ks []*Term
	for k := range keys {
		if k.op == "lockstate" || k.op == "tokcell" {
			continue
		}
		r := rootOf(k)
		if k.op == "maddr" {
			continue
		}
		if (r.op == "alloc" || r.op == "makeslice" || r.op == "makemap") && (locals == nil || !locals(r)) {
			continue
		}
		if cells != nil && !cells(k) {
			continue
		}
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var out []string
	get := func(s *State, k *Term) *MT {
		v, ok := s.mem[k]
		if !ok {
			v = ip.missing(s, k)
		}
		if v == nil {
			return ip.leafNode(ip.mk("none", "", nil))
		}
		return ip.deepVal(s, v)
	}
	for _, k := range ks {
		x, y := get(a, k), get(b, k)
		if !ip.same(x, y, care) {
			out = append(out, ip.show(k)+" "+ip.firstDiff(x, y, care))
		}
	}
	if cells == nil {
		vk := map[string]bool{}
		for k := range a.ver {
			vk[k] = true
		}
		for k := range b.ver {
			vk[k] = true
		}
		var vs []string
		for k := range vk {
			vs = append(vs, k)
		}
		sort.Strings(vs)
		zero := ip.leafNode(ip.mk("ver", "0", nil))
		for _, k := range vs {
			if strings.HasPrefix(k, "R:") || strings.HasPrefix(k, "B:") {
				id, _ := strconv.Atoi(k[2:])
				if t := ip.termByID(id); t != nil {
					if r := rootOf(t); (r.op == "alloc" || r.op == "makeslice" || r.op == "makemap") && (locals == nil || !locals(r)) {
						continue
					}
				}
			}
			x, ok := a.ver[k]
			if !ok {
				x = zero
			}
			y, ok := b.ver[k]
			if !ok {
				y = zero
			}
			if !ip.same(x, y, care) {
				what := k
				if strings.HasPrefix(k, "R:") || strings.HasPrefix(k, "B:") {
					id, _ := strconv.Atoi(k[2:])
					if t := ip.termByID(id); t != nil {
						what = ip.show(t)
					}
				}
				out = append(out, "updates of "+what+" differ: "+ip.firstDiff(x, y, care))
			}
		}
	}
	return out
}

func (ip *Interp) termByID(id int) *Term { return ip.byID[id] }

// carried lists the objects created before a loop and changed in it.
func (ip *Interp) carried(l *Loop, back *State) map[*Term]bool {
	out := map[*Term]bool{}
	fresh := func(r *Term) bool {
		if r.op != "alloc" && r.op != "makeslice" && r.op != "makemap" {
			return true
		}
		i := strings.LastIndex(r.str, "#")
		if i < 0 {
			return false
		}
		n, err := strconv.Atoi(r.str[i+1:])
		return err == nil && n > l.made[r.str[:i]]
	}
	for k, v := range back.mem {
		if r := rootOf(k); k.op != "lockstate" && k.op != "tokcell" && l.entry.mem[k] != v && !fresh(r) {
			out[r] = true
		}
	}
	for k, v := range l.entry.mem {
		if r := rootOf(k); k.op != "lockstate" && k.op != "tokcell" && back.mem[k] != v && !fresh(r) {
			out[r] = true
		}
	}
	for k, v := range back.ver {
		if !strings.HasPrefix(k, "R:") && !strings.HasPrefix(k, "B:") || l.entry.ver[k] == v {
			continue
		}
		id, _ := strconv.Atoi(k[2:])
		if t := ip.termByID(id); t != nil && !fresh(rootOf(t)) {
			out[rootOf(t)] = true
		}
	}
	return out
}

func (ip *Interp) loopDiff(a, b *Loop, e *Eq) []string {
	var out []string
	if !ip.same(a.pc, b.pc, ip.True) {
		out = append(out, fmt.Sprintf("entered when %s, required %s", ip.showMT(a.pc), ip.showMT(b.pc)))
		return out
	}
	if len(a.phis) != len(b.phis) {
		return append(out, fmt.Sprintf("carries %d variables, reference model %d", len(a.phis), len(b.phis)))
	}
	merge := func(l *Loop, vs []*MT, pcs []*MT) *MT {
		var v *MT
		for k := len(vs) - 1; k >= 0; k-- {
			if v == nil {
				v = vs[k]
			} else {
				v = ip.ite(pcs[k], vs[k], v)
			}
		}
		return v
	}
	backPC := func(l *Loop) *MT {
		p := ip.False
		for _, x := range l.backPC {
			p = ip.or(p, x)
		}
		return p
	}
	st := func(l *Loop) *State {
		var edges []edgeIn
		for k, s := range l.backSt {
			edges = append(edges, edgeIn{l.backPC[k], s, k})
		}
		_, s := ip.mergeEdges(edges)
		return s
	}
	pa, pb := backPC(a), backPC(b)
	if !ip.same(pa, pb, ip.True) {
		out = append(out, "repeats when "+ip.showMT(pa)+", required "+ip.showMT(pb))
		return out
	}
	for k := range a.phis {
		x, y := a.phis[k], b.phis[k]
		if a.entry != nil && b.entry != nil {
			x.init, y.init = ip.deepVal(a.entry, x.init), ip.deepVal(b.entry, y.init)
		}
		if !ip.same(x.init, y.init, a.pc) {
			out = append(out, "initial value of "+ip.show(x.term)+" "+ip.firstDiff(x.init, y.init, a.pc))
		}
		if len(x.next) > 0 && len(y.next) > 0 {
			p, q := ip.deepVal(st(a), merge(a, x.next, x.npc)), ip.deepVal(st(b), merge(b, y.next, y.npc))
			if !ip.same(p, q, pa) {
				out = append(out, "next value of "+ip.show(x.term)+" "+ip.firstDiff(p, q, pa))
			}
		}
	}
	keep := func(r *Term) bool { return true }
	if a.entry != nil && b.entry != nil && len(a.backSt) > 0 && len(b.backSt) > 0 {
		ra, rb := ip.carried(a, st(a)), ip.carried(b, st(b))
		keep = func(r *Term) bool { return ra[r] || rb[r] }
	}
	if a.entry != nil && b.entry != nil {
		if x, y := ip.token(a.entry), ip.token(b.entry); !e.noTok && !ip.same(x, y, a.pc) {
			out = append(out, "actions before: "+ip.firstDiff(x, y, a.pc))
		}
		for _, d := range ip.stateDiff(a.entry, b.entry, a.pc, e.cells, keep) {
			out = append(out, "on entry "+d)
		}
	}
	if len(a.backSt) > 0 && len(b.backSt) > 0 {
		sa, sb := st(a), st(b)
		for _, d := range ip.stateDiff(sa, sb, pa, e.cells, keep) {
			out = append(out, "per iteration "+d)
		}
		if x, y := ip.token(sa), ip.token(sb); !e.noTok && !ip.same(x, y, pa) {
			out = append(out, "actions per iteration: "+ip.firstDiff(x, y, pa))
		}
	}
	return out
}

// srcVer describes the contents of a copied slice.
func (ip *Interp) srcVer(s *State, m *MT) string {
	if m.atom >= 0 || m.leaf.typ == nil {
		return ""
	}
	if sl, ok := m.leaf.typ.Underlying().(*types.Slice); ok {
		return ip.elemVer(s, m.leaf, sl.Elem())
	}
	return ""
}
