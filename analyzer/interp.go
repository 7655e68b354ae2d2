package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect is one observable action met during interpretation, with the
// condition under which it happens.
type Effect struct {
	kind   string // call, dyncall, go, store, mapupdate, delete, send, recv, select, close, lock, panic, index, slice, make, div, assert, append, copy, return
	name   string // callee or field name
	pc     *MT
	args   []*MT
	ret    []*MT
	instr  ssa.Instruction
	fn     *ssa.Function
	stack  []*ssa.Function
	seq    int
	loops  []*Loop
	held   []Held // locks held (possibly)
	callee *ssa.Function
	addr   *Term
}

// Held is a lock that may be held, with the condition and mode.
type Held struct {
	lock *Term
	mode string
	cond *MT
}

// Loop is one loop instance met during interpretation.
type Loop struct {
	id     int
	fn     *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	pc     *MT
	phis   []LoopPhi
	outer  *Loop
	backSt []*State
	backPC []*MT
	entry  *State
	made   map[string]int // objects created before the loop
}

// LoopPhi relates a loop-carried variable to its initial and next values.
type LoopPhi struct {
	phi  *ssa.Phi
	term *Term
	init *MT
	next []*MT
	npc  []*MT
}

type deferred struct {
	pc   *MT // frame-relative
	call *ssa.Defer
	fnv  *MT
	args []*MT
}

// State is the abstract memory.
type State struct {
	mem    map[*Term]*MT
	ver    map[string]*MT
	vals   map[ssa.Value]*MT // values leaving unrolled loops
	defers []deferred
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*MT, len(s.mem)), ver: make(map[string]*MT, len(s.ver)), vals: map[ssa.Value]*MT{}}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

// Interp interprets functions over the term domain.
type Interp struct {
	*World
	r          *Repo
	effects    []*Effect
	loops      []*Loop
	stack      []*ssa.Function
	opaque     func(*ssa.Function) bool
	maxDepth   int
	seq        int
	curLoops   []*Loop
	locks      map[*Term]bool
	mods       map[*ssa.Function]*modset
	cuts       map[*ssa.Function]bool
	allocN     int
	obl        bool // record bounds obligations
	nils       bool // record nil obligations
	steps      int
	maxSteps   int
	implMemo   map[*MT][]Lit
	onCall     func(in ssa.CallInstruction, callee *ssa.Function, args []*MT, st *State, pc *MT) ([]*MT, bool)
	distMax    int
	noUnroll   bool
	builders   bool // model string builder contents
	det        *det // deterministic naming, see equiv.go
	lockEvents bool
	typed      bool // type assertions on unknown values succeed
	// locks are known by the field holding them rather than by address
	lockClasses bool
	sees        map[string]map[string]bool // fields whose contents matter when an event happens
}

func newInterp(r *Repo) *Interp {
	return &Interp{World: newWorld(), r: r, maxDepth: 24, locks: map[*Term]bool{}, mods: map[*ssa.Function]*modset{}, cuts: map[*ssa.Function]bool{}, obl: true, maxSteps: 3000000, implMemo: map[*MT][]Lit{}, distMax: 64, builders: true}
}

type frame struct {
	fn    *ssa.Function
	env   map[ssa.Value]*MT
	tup   map[ssa.Value][]*MT
	free  []*MT
	cur   *State
	base  *MT // absolute condition at entry
	depth int
}

// Result of interpreting a function.
type Result struct {
	rets []*MT
	st   *State
	pc   *MT // condition (relative) of returning normally
}

func (ip *Interp) newState() *State {
	return &State{mem: map[*Term]*MT{}, ver: map[string]*MT{}, vals: map[ssa.Value]*MT{}}
}

// paramTerms makes symbolic arguments for fn.
func (ip *Interp) paramTerms(fn *ssa.Function) []*MT {
	var out []*MT
	for _, p := range fn.Params {
		out = append(out, ip.val(ip.mk("param", p.Name(), p.Type())))
	}
	return out
}

func (ip *Interp) freeTerms(fn *ssa.Function) []*MT {
	var out []*MT
	for _, p := range fn.FreeVars {
		out = append(out, ip.val(ip.mk("param", p.Name(), p.Type())))
	}
	return out
}

// analyze interprets fn with symbolic parameters.
func (ip *Interp) analyze(fn *ssa.Function) *Result {
	return ip.run(fn, ip.paramTerms(fn), ip.freeTerms(fn), ip.newState(), ip.True)
}

type edgeKey struct{ from, to *ssa.BasicBlock }

type edgeIn struct {
	pc   *MT
	st   *State
	pred int
}

type retInfo struct {
	pc   *MT
	st   *State
	vals []*MT
}

// exec walks the blocks of one function activation.
type exec struct {
	ip        *Interp
	fr        *frame
	base      *MT
	order     []*ssa.BasicBlock
	loops     []*natLoop
	headers   map[*ssa.BasicBlock]*natLoop
	in        map[*ssa.BasicBlock][]edgeIn
	live      map[*ssa.BasicBlock]*Loop
	saveLoops []*Loop
	rets      []retInfo
	unrolling []*natLoop // loops being executed iteration by iteration
	back      map[*natLoop][]edgeIn
	undec     map[*natLoop]bool
	noUnroll  map[*natLoop]bool
	rot       map[*natLoop]bool
	copies    map[*natLoop]*copyLoop
}

func (x *exec) isUnrolling(l *natLoop) bool {
	for _, u := range x.unrolling {
		if u == l {
			return true
		}
	}
	return false
}

func (x *exec) blocks(list []*ssa.BasicBlock, skip *natLoop) {
	handled := map[*ssa.BasicBlock]bool{}
	for _, b := range list {
		if handled[b] {
			continue
		}
		if l := x.headers[b]; l != nil && l != skip && len(x.in[b]) > 0 && !x.noUnroll[l] {
			if cl := x.copyLoopOf(l); cl != nil && !x.ip.obl {
				x.copyLoop(l, cl)
				for k := range l.body {
					handled[k] = true
				}
				continue
			}
			if x.tryUnroll(l) {
				for k := range l.body {
					handled[k] = true
				}
				continue
			}
		}
		x.block(b)
	}
}

// tryUnroll executes a loop whose exit test is decided in every iteration.
func (x *exec) tryUnroll(l *natLoop) bool {
	ip := x.ip
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || ip.noUnroll {
		return false
	}
	_ = iff
	if l.body[l.header.Succs[0]] == l.body[l.header.Succs[1]] {
		return false
	}
	// snapshot
	in := map[*ssa.BasicBlock][]edgeIn{}
	for k, v := range x.in {
		in[k] = append([]edgeIn(nil), v...)
	}
	nEff, nLoops, nRets := len(ip.effects), len(ip.loops), len(x.rets)
	var names map[string]int
	if ip.det != nil {
		names = map[string]int{}
		for k, v := range ip.det.n {
			names[k] = v
		}
	}
	if x.back == nil {
		x.back = map[*natLoop][]edgeIn{}
		x.undec = map[*natLoop]bool{}
		x.noUnroll = map[*natLoop]bool{}
	}
	var body []*ssa.BasicBlock
	for _, b := range x.order {
		if l.body[b] {
			body = append(body, b)
		}
	}
	x.unrolling = append(x.unrolling, l)
	edges := x.in[l.header]
	good := false
	for iter := 0; iter < 70; iter++ {
		for _, b := range body {
			delete(x.in, b)
		}
		x.in[l.header] = edges
		x.back[l] = nil
		x.undec[l] = false
		x.blocks(body, l)
		if x.undec[l] {
			break
		}
		edges = x.back[l]
		if len(edges) == 0 {
			good = true
			break
		}
	}
	x.unrolling = x.unrolling[:len(x.unrolling)-1]
	if good {
		return true
	}
	x.in = in
	ip.effects, ip.loops, x.rets = ip.effects[:nEff], ip.loops[:nLoops], x.rets[:nRets]
	x.noUnroll[l] = true
	if ip.det != nil {
		ip.det.n = names
	}
	for _, k := range x.loops {
		if k != l && l.body[k.header] {
			delete(x.noUnroll, k)
		}
	}
	return false
}

// liveOut lists values defined in the loop and used outside it.
func (l *natLoop) liveOut() []ssa.Value {
	if l.outDone {
		return l.out
	}
	l.outDone = true
	for b := range l.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() != nil && !l.body[r.Block()] {
					l.out = append(l.out, v)
					break
				}
			}
		}
	}
	sort.Slice(l.out, func(i, j int) bool { return l.out[i].Name() < l.out[j].Name() })
	return l.out
}

func (x *exec) block(b *ssa.BasicBlock) {
	ip, fr, base, fn := x.ip, x.fr, x.base, x.fr.fn
	edges := x.in[b]
	if len(edges) == 0 {
		return
	}
	// current loop nest
	ip.curLoops = x.saveLoops
	var nest []*Loop
	for _, l := range x.loops {
		if l.body[b] && l.header != b {
			if li := x.live[l.header]; li != nil && !x.isUnrolling(l) {
				nest = append(nest, li)
			}
		}
	}
	sort.Slice(nest, func(i, j int) bool { return nest[i].id < nest[j].id })
	ip.curLoops = append(append([]*Loop(nil), x.saveLoops...), nest...)

	pc, cur := ip.mergeEdges(edges)
	if ip.and(base, pc) == ip.False {
		return
	}
	// phis
	phiVals := map[*ssa.Phi]*MT{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var v *MT
		for k := len(edges) - 1; k >= 0; k-- {
			fr.cur = edges[k].st
			ev := ip.use(fr, phi.Edges[edges[k].pred])
			if v == nil {
				v = ev
			} else {
				v = ip.ite(ip.simplify(edges[k].pc, pc), ip.underEq(ev, edges[k].pc), v)
			}
		}
		phiVals[phi] = v
	}
	nl := x.headers[b]
	unrolled := nl != nil && x.isUnrolling(nl)
	if nl != nil && !unrolled {
		li := &Loop{id: len(ip.loops), fn: fn, header: b, body: nl.body, pc: ip.and(base, pc), entry: cur}
		if n := len(ip.curLoops); n > 0 {
			li.outer = ip.curLoops[n-1]
		}
		ip.loops = append(ip.loops, li)
		x.live[b] = li
		if ip.det != nil {
			li.made = map[string]int{}
			for k, n := range ip.det.n {
				li.made[k] = n
			}
		}
		cur = cur.clone()
		ip.havocLoop(fr, nl, cur, li)
		var phis []*ssa.Phi
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				phis = append(phis, phi)
			}
		}
		if ip.det != nil {
			sort.SliceStable(phis, func(i, j int) bool {
				a, b := ip.tname(phis[i].Type()), ip.tname(phis[j].Type())
				if a != b {
					return a < b
				}
				return phiVals[phis[i]].id < phiVals[phis[j]].id
			})
		}
		if ip.det != nil {
			phis = ip.settled(li, phis, phiVals)
			ip.permute(li, phis, phiVals)
		}
		for k, phi := range phis {
			if ip.lockClasses && ip.staysConst(nl, phi, phiVals[phi]) {
				continue
			}
			name := phi.Comment
			if name == "" {
				name = "v"
			}
			if ip.det != nil {
				name = fmt.Sprintf("L%d.%d", li.id, k)
			}
			t := ip.freshTerm("phi", name, phi.Type())
			li.phis = append(li.phis, LoopPhi{phi: phi, term: t, init: phiVals[phi]})
			phiVals[phi] = ip.val(t)
		}
		ip.curLoops = append(ip.curLoops, li)
	}
	fr.cur = cur
	for p, v := range phiVals {
		fr.env[p] = v
		delete(cur.vals, p)
	}

	dead := false
	for _, ins := range b.Instrs {
		ip.steps++
		if ip.steps > ip.maxSteps {
			undecided("interpretation budget exceeded in %s", shortFn(fn))
		}
		if v, ok := ins.(ssa.Value); ok {
			if _, phi := ins.(*ssa.Phi); !phi {
				delete(cur.vals, v)
			}
		}
		npc, stop := ip.instr(fr, ins, cur, pc)
		pc = npc
		fr.cur = cur
		if stop || pc == ip.False {
			dead = true
			if ret, ok := ins.(*ssa.Return); ok && pc != ip.False {
				var vals []*MT
				for _, v := range ret.Results {
					vals = append(vals, ip.use(fr, v))
				}
				x.rets = append(x.rets, retInfo{pc, cur, vals})
				if len(ip.stack) == 1 {
					ip.effect(&Effect{kind: "return", pc: ip.and(base, pc), args: vals, instr: ins, fn: fn})
				}
			}
			break
		}
	}
	if dead {
		return
	}
	switch t := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.If:
		c := ip.theory(ip.and(base, pc), ip.use(fr, t.Cond))
		if unrolled && c != ip.True && c != ip.False {
			x.undec[nl] = true
			return
		}
		if nl != nil && !unrolled && x.rotatable(nl) {
			// the exit test was evaluated on every edge into this block
			k := 0
			if !nl.body[b.Succs[0]] {
				k, c = 1, ip.not(c)
			}
			x.push(b, b.Succs[k], ip.and(pc, c), k, cur)
			return
		}
		x.push(b, b.Succs[0], ip.and(pc, c), 0, cur)
		x.push(b, b.Succs[1], ip.and(pc, ip.not(c)), 1, cur)
	case *ssa.Jump:
		x.push(b, b.Succs[0], pc, 0, cur)
	}
}

// rotatable loops start with a test without effects. In comparisons the test
// is evaluated on each edge into the loop, so that "while" loops and loops
// left from within take the same form.
func (x *exec) rotatable(l *natLoop) bool {
	if x.ip.det == nil {
		return false
	}
	if r, ok := x.rot[l]; ok {
		return r
	}
	if !x.ip.obl && x.copyLoopOf(l) != nil {
		return false
	}
	h := l.header
	_, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	ok = ok && l.body[h.Succs[0]] != l.body[h.Succs[1]]
	for _, in := range h.Instrs {
		switch y := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.DebugRef:
			if u, is := in.(*ssa.UnOp); is && u.Op == token.ARROW {
				ok = false
			}
		case *ssa.Call:
			if bi, is := y.Call.Value.(*ssa.Builtin); is && (bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
			if f := y.Call.StaticCallee(); f != nil && (isPureExt(extName(f)) || strings.HasSuffix(extName(f), ".AtomicBool).IsSet") || strings.HasSuffix(extName(f), ".AtomicBool).IsNotSet")) {
				continue
			}
			if f := y.Call.StaticCallee(); f != nil && x.ip.r.isRepoFn(f) && isGetter(f, 0) {
				continue
			}
			ok = false
		default:
			ok = false
		}
	}
	if x.rot == nil {
		x.rot = map[*natLoop]bool{}
	}
	x.rot[l] = ok
	return ok
}

// isGetter reports whether fn only computes a value from what it is given.
func isGetter(fn *ssa.Function, depth int) bool {
	if len(fn.Blocks) != 1 || depth > 3 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch y := in.(type) {
		case *ssa.Return, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.DebugRef:
		case *ssa.UnOp:
			if y.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if bi, is := y.Call.Value.(*ssa.Builtin); is && (bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
			if f := y.Call.StaticCallee(); f == nil || !isGetter(f, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// test evaluates the header of l for values arriving over one edge.
func (x *exec) test(l *natLoop, pred int, epc *MT, st *State) (*MT, *State) {
	ip, fr := x.ip, x.fr
	save := fr.cur
	saveEnv := map[ssa.Value]*MT{}
	fr.cur = st
	phis := map[ssa.Value]*MT{}
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis[phi] = ip.use(fr, phi.Edges[pred])
		}
	}
	st = st.clone()
	for v, m := range phis {
		st.vals[v] = m
	}
	fr.cur = st
	var cond *MT
	for _, in := range l.header.Instrs {
		switch y := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			cond = ip.use(fr, y.Cond)
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			saveEnv[v] = fr.env[v]
			delete(st.vals, v)
			ip.instr(fr, in, st, epc)
			fr.cur = st
			if m, ok := fr.env[v]; ok {
				st.vals[v] = m
			}
		}
	}
	for v, m := range saveEnv {
		if m == nil {
			delete(fr.env, v)
		} else {
			fr.env[v] = m
		}
	}
	fr.cur = save
	return ip.theory(ip.and(x.base, epc), cond), st
}

func (x *exec) push(b, succ *ssa.BasicBlock, epc *MT, k int, cur *State) {
	ip, fr, base := x.ip, x.fr, x.base
	if epc == ip.False || ip.and(base, epc) == ip.False {
		return
	}
	pred := predIndex(succ, b, k)
	sl := x.headers[succ]
	if sl != nil && !x.isUnrolling(sl) && x.rotatable(sl) {
		c, st := x.test(sl, pred, epc, cur)
		out := 1
		if !sl.body[succ.Succs[0]] {
			out, c = 0, ip.not(c)
		}
		x.push(succ, succ.Succs[out], ip.and(epc, ip.not(c)), out, st)
		epc = ip.and(epc, c)
		if epc == ip.False || ip.and(base, epc) == ip.False {
			return
		}
	}
	save := fr.cur
	fr.cur = cur
	defer func() { fr.cur = save }()
	if sl != nil && sl.body[b] {
		if x.isUnrolling(sl) {
			x.back[sl] = append(x.back[sl], edgeIn{epc, cur, pred})
			return
		}
		li := x.live[succ]
		if li != nil {
			li.backSt = append(li.backSt, cur)
			li.backPC = append(li.backPC, ip.and(base, epc))
			for i := range li.phis {
				li.phis[i].next = append(li.phis[i].next, ip.use(fr, li.phis[i].phi.Edges[pred]))
				li.phis[i].npc = append(li.phis[i].npc, ip.and(base, epc))
			}
		}
		return
	}
	st := cur
	var left []*natLoop
	left = append(left, x.unrolling...)
	for _, l := range x.loops {
		if x.rot[l] && !x.isUnrolling(l) {
			left = append(left, l)
		}
	}
	for _, u := range left {
		if u.body[b] && !u.body[succ] {
			st = st.clone()
			for _, v := range u.liveOut() {
				if m, ok := fr.env[v]; ok {
					if o, hit := st.vals[v]; hit {
						m = o
					}
					st.vals[v] = m
				}
			}
		}
	}
	// operands of phis in succ must be read with the values of this iteration
	if len(left) > 0 {
		for _, ins := range succ.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			v := phi.Edges[pred]
			if vi, ok := v.(ssa.Instruction); ok {
				if m, ok := fr.env[v]; ok {
					for _, u := range left {
						if u.body[vi.Block()] && !u.body[succ] {
							if st == cur {
								st = st.clone()
							}
							if _, hit := st.vals[v]; !hit {
								st.vals[v] = m
							}
						}
					}
				}
			}
		}
	}
	x.in[succ] = append(x.in[succ], edgeIn{epc, st, pred})
}

func (ip *Interp) run(fn *ssa.Function, args, free []*MT, st *State, base *MT) *Result {
	if len(fn.Blocks) == 0 {
		undecided("no body for %s", fn)
	}
	fr := &frame{fn: fn, env: map[ssa.Value]*MT{}, tup: map[ssa.Value][]*MT{}, free: free, base: base}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	savedDefers := st.defers
	st = st.clone()
	savedVals := st.vals
	st.vals = map[ssa.Value]*MT{}
	st.defers = nil
	ip.stack = append(ip.stack, fn)
	saveLoops := ip.curLoops
	defer func() {
		ip.stack = ip.stack[:len(ip.stack)-1]
		ip.curLoops = saveLoops
	}()

	x := &exec{ip: ip, fr: fr, base: base, order: rpo(fn), loops: findLoops(fn), headers: map[*ssa.BasicBlock]*natLoop{}, in: map[*ssa.BasicBlock][]edgeIn{}, live: map[*ssa.BasicBlock]*Loop{}, saveLoops: saveLoops}
	for _, l := range x.loops {
		x.headers[l.header] = l
	}
	x.in[fn.Blocks[0]] = []edgeIn{{ip.True, st, -1}}
	x.blocks(x.order, nil)
	rets := x.rets

	res := &Result{pc: ip.False}
	if len(rets) == 0 {
		n := st.clone()
		n.defers = savedDefers
		n.vals = savedVals
		res.st = n
		nres := fn.Signature.Results().Len()
		for i := 0; i < nres; i++ {
			res.rets = append(res.rets, ip.val(ip.freshTerm("noreturn", fn.Name(), fn.Signature.Results().At(i).Type())))
		}
		return res
	}
	var edges []edgeIn
	for i, x := range rets {
		edges = append(edges, edgeIn{x.pc, x.st, i})
	}
	pc, cur := ip.mergeEdges(edges)
	res.pc = pc
	nres := len(rets[0].vals)
	for i := 0; i < nres; i++ {
		var v *MT
		for k := len(rets) - 1; k >= 0; k-- {
			if v == nil {
				v = rets[k].vals[i]
			} else {
				v = ip.ite(ip.simplify(rets[k].pc, pc), ip.underEq(rets[k].vals[i], rets[k].pc), v)
			}
		}
		res.rets = append(res.rets, v)
	}
	cur = cur.clone()
	cur.defers = savedDefers
	cur.vals = savedVals
	res.st = cur
	return res
}

// underEq replaces a leaf x by constant c when pc contains x == c.
func (ip *Interp) underEq(v, pc *MT) *MT {
	if v.atom >= 0 || v.leaf.isConst() || !isInt(v.leaf.typ) {
		return v
	}
	for _, l := range ip.impliedMemo(pc) {
		if l.val && l.atom.op == "eq" && l.atom.args[0] == v.leaf && l.atom.args[1].isConst() {
			return ip.val(l.atom.args[1])
		}
		if l.val && l.atom.op == "lt" && l.atom.args[0] == v.leaf && ip.nonNeg(v.leaf) {
			if n, ok := l.atom.args[1].intVal(); ok && n == 1 {
				return ip.val(ip.intTerm(0, v.leaf.typ))
			}
		}
	}
	return v
}

func (ip *Interp) impliedMemo(pc *MT) []Lit {
	if l, ok := ip.implMemo[pc]; ok {
		return l
	}
	l := ip.implied(pc)
	ip.implMemo[pc] = l
	return l
}

// theory simplifies a condition using constant comparisons implied by pc.
func (ip *Interp) theory(pc, cond *MT) *MT {
	if cond.atom < 0 || pc == ip.True {
		return cond
	}
	type rng struct {
		lo, hi *big.Int
		ne     []*big.Int
		neS    []string
		eqS    *string
		typeEq string
		typeNe []string
	}
	info := map[*Term]*rng{}
	want := map[*Term]bool{}
	for _, a := range ip.support(cond) {
		t := ip.atoms[a]
		if len(t.args) > 0 {
			want[t.args[0]] = true
		}
	}
	for _, l := range ip.impliedMemo(pc) {
		if len(l.atom.args) == 0 || !want[l.atom.args[0]] {
			continue
		}
		x := l.atom.args[0]
		g := info[x]
		if g == nil {
			g = &rng{}
			info[x] = g
		}
		switch l.atom.op {
		case "eq", "lt":
			c := l.atom.args[1]
			if !c.isConst() {
				continue
			}
			if c.cv.Kind() == constant.String && l.atom.op == "eq" {
				s := constant.StringVal(c.cv)
				if l.val {
					g.eqS = &s
				} else {
					g.neS = append(g.neS, s)
				}
				continue
			}
			if c.cv.Kind() != constant.Int {
				continue
			}
			b := bigOf(c.cv)
			if l.atom.op == "eq" {
				if l.val {
					g.lo, g.hi = b, b
				} else {
					g.ne = append(g.ne, b)
				}
			} else if l.val {
				h := new(big.Int).Sub(b, big.NewInt(1))
				if g.hi == nil || h.Cmp(g.hi) < 0 {
					g.hi = h
				}
			} else if g.lo == nil || b.Cmp(g.lo) > 0 {
				g.lo = b
			}
		case "istype":
			if l.val {
				g.typeEq = l.atom.str
			} else {
				g.typeNe = append(g.typeNe, l.atom.str)
			}
		case "isnil":
			if l.val {
				g.typeEq = "nil"
			}
		}
	}
	if len(info) == 0 {
		return cond
	}
	return ip.restrictBy(cond, func(a *Term) (bool, bool) {
		if len(a.args) == 0 {
			return false, false
		}
		g := info[a.args[0]]
		if g == nil {
			return false, false
		}
		switch a.op {
		case "istype":
			if g.typeEq == a.str {
				return true, true
			}
			if g.typeEq != "" && !strings.HasPrefix(a.str, "interface:") {
				return false, true
			}
			for _, n := range g.typeNe {
				if n == a.str {
					return false, true
				}
			}
			return false, false
		case "isnil":
			if g.typeEq != "" && g.typeEq != "nil" {
				return false, true
			}
			return false, false
		}
		if len(a.args) < 2 || !a.args[1].isConst() {
			return false, false
		}
		c := a.args[1]
		if c.cv.Kind() == constant.String && a.op == "eq" {
			s := constant.StringVal(c.cv)
			if g.eqS != nil {
				return *g.eqS == s, true
			}
			for _, n := range g.neS {
				if n == s {
					return false, true
				}
			}
			return false, false
		}
		if c.cv.Kind() != constant.Int {
			return false, false
		}
		b := bigOf(c.cv)
		switch a.op {
		case "eq":
			if g.lo != nil && b.Cmp(g.lo) < 0 || g.hi != nil && b.Cmp(g.hi) > 0 {
				return false, true
			}
			if g.lo != nil && g.hi != nil && g.lo.Cmp(g.hi) == 0 {
				return b.Cmp(g.lo) == 0, true
			}
			for _, n := range g.ne {
				if n.Cmp(b) == 0 {
					return false, true
				}
			}
		case "lt":
			if g.hi != nil && g.hi.Cmp(b) < 0 {
				return true, true
			}
			if g.lo != nil && g.lo.Cmp(b) >= 0 {
				return false, true
			}
		}
		return false, false
	})
}

func predIndex(succ, b *ssa.BasicBlock, k int) int {
	// b may appear twice in Preds (both branches to the same block)
	first := -1
	for i, p := range succ.Preds {
		if p == b {
			if first < 0 {
				first = i
				if k == 0 {
					return i
				}
				// second successor edge: is the first successor the same block?
				if b.Succs[0] != succ {
					return i
				}
				continue
			}
			return i
		}
	}
	return first
}

func (ip *Interp) mergeEdges(edges []edgeIn) (*MT, *State) {
	pc := ip.False
	for _, e := range edges {
		pc = ip.or(pc, e.pc)
	}
	if len(edges) == 1 {
		return pc, edges[0].st.clone()
	}
	out := edges[len(edges)-1].st.clone()
	_ = out
	for k := len(edges) - 2; k >= 0; k-- {
		s := edges[k].st
		c := ip.simplify(edges[k].pc, pc)
		if c == ip.True {
			out = s.clone()
			continue
		}
		if c == ip.False {
			continue
		}
		keys := map[*Term]bool{}
		for a := range out.mem {
			keys[a] = true
		}
		for a := range s.mem {
			keys[a] = true
		}
		var ks []*Term
		for a := range keys {
			ks = append(ks, a)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		nm := map[*Term]*MT{}
		for _, a := range ks {
			x, ok1 := s.mem[a]
			y, ok2 := out.mem[a]
			if !ok1 {
				x = ip.missing(s, a)
			}
			if !ok2 {
				y = ip.missing(out, a)
			}
			if x == nil || y == nil {
				continue
			}
			nm[a] = ip.ite(c, x, y)
		}
		vks := map[string]bool{}
		for v := range out.ver {
			vks[v] = true
		}
		for v := range s.ver {
			vks[v] = true
		}
		var vs []string
		for v := range vks {
			vs = append(vs, v)
		}
		sort.Strings(vs)
		nv := map[string]*MT{}
		zero := ip.leafNode(ip.mk("ver", "0", nil))
		for _, v := range vs {
			x, ok1 := s.ver[v]
			y, ok2 := out.ver[v]
			if !ok1 {
				x = zero
			}
			if !ok2 {
				y = zero
			}
			nv[v] = ip.ite(c, x, y)
		}
		// deferred calls: union, keyed by instruction
		nd := append([]deferred(nil), out.defers...)
		for _, d := range s.defers {
			dup := false
			for i := range nd {
				if nd[i].call == d.call {
					nd[i].pc = ip.or(nd[i].pc, d.pc)
					dup = true
				}
			}
			if !dup {
				nd = append(nd, d)
			}
		}
		nvals := map[ssa.Value]*MT{}
		for v, y := range out.vals {
			nvals[v] = y
		}
		for v, xv := range s.vals {
			if y, ok := nvals[v]; ok {
				nvals[v] = ip.ite(c, xv, y)
			} else {
				nvals[v] = xv
			}
		}
		out = &State{mem: nm, ver: nv, vals: nvals, defers: nd}
	}
	return pc, out
}

// missing gives the value of a cell absent from s.
func (ip *Interp) missing(s *State, addr *Term) *MT {
	if addr.op == "lockstate" {
		return ip.leafNode(ip.mk("lk", "0", nil))
	}
	if addr.op == "tokcell" {
		return ip.tokStart()
	}
	if addr.op == "boolcell" {
		return ip.loadMiss(s, addr, types.Typ[types.Bool])
	}
	if addr.op == "maddr" {
		return nil
	}
	t := ptrElem(addr.typ)
	if t == nil {
		return nil
	}
	return ip.loadMiss(s, addr, t)
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func rootOf(t *Term) *Term {
	for {
		switch t.op {
		case "faddr", "eaddr", "slice", "boolcell", "lockstate", "sbcell", "arrptr":
			t = t.args[0]
		default:
			return t
		}
	}
}

func (ip *Interp) zero(t types.Type) *MT {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ip.False
		case u.Info()&types.IsString != 0:
			return ip.val(ip.constTerm(constant.MakeString(""), t))
		case u.Info()&types.IsNumeric != 0:
			return ip.val(ip.constTerm(constant.MakeInt64(0), t))
		}
		return ip.val(ip.mk("nil", "", nil))
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ip.asTerm(ip.zero(u.Field(i).Type())))
		}
		return ip.val(ip.mk("mkstruct", "", t, fs...))
	case *types.Array:
		if u.Len() <= 64 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, ip.asTerm(ip.zero(u.Elem())))
			}
			return ip.val(ip.mk("mkarray", "", t, fs...))
		}
		return ip.val(ip.mk("zero", "", t))
	case *types.TypeParam:
		return ip.val(ip.mk("zero", "", t))
	}
	return ip.val(ip.mk("nil", "", nil))
}

// zeroCells gives the fields of a new object their initial value where calls
// made earlier would have them look changed.
func (ip *Interp) zeroCells(s *State, obj *Term, typ types.Type) {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok || isOpaqueStruct(typ) || len(s.ver) == 0 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		fa := ip.faddr(obj, i, types.NewPointer(typ))
		cell := fa
		switch ft.Underlying().(type) {
		case *types.Struct:
			ip.zeroCells(s, fa, ft)
			continue
		case *types.Array:
			continue
		case *types.Basic:
			if typeStr(ft) == "abool.AtomicBool" {
				cell = ip.mk("boolcell", "", types.NewPointer(types.Typ[types.Bool]), fa)
				ft = types.Typ[types.Bool]
			}
		}
		if z := ip.zero(ft); ip.loadMiss(s, cell, ft) != z {
			s.mem[cell] = z
		}
	}
}

func fieldKey(owner types.Type, i int) string {
	t := owner
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	return typeStr(t) + "." + st.Field(i).Name()
}

func (ip *Interp) faddr(base *Term, i int, ptrTyp types.Type) *Term {
	pt := ptrTyp.Underlying().(*types.Pointer)
	st := pt.Elem().Underlying().(*types.Struct)
	return ip.mk("faddr", fieldKey(ptrTyp, i), types.NewPointer(st.Field(i).Type()), base)
}

func (ip *Interp) verKeys(addr *Term) []string {
	var ks []string
	for t := addr; ; {
		switch t.op {
		case "faddr":
			ks = append(ks, "F:"+t.str)
		case "eaddr":
			if e := ptrElem(t.typ); e != nil {
				ks = append(ks, "E:"+ip.tname(e))
			}
			ks = append(ks, "B:"+strconv.Itoa(t.args[0].id))
		case "boolcell", "sbcell", "arrptr":
		default:
			ks = append(ks, "R:"+strconv.Itoa(t.id))
			if e := ptrElem(addr.typ); e != nil && addr.op != "eaddr" {
				ks = append(ks, "T:"+ip.tname(e))
			}
			return ks
		}
		t = t.args[0]
		if t.op == "slice" {
			t = t.args[0]
		}
	}
}

// verKeysSet lists the version keys covering addr that have changed.
func (ip *Interp) verKeysSet(s *State, addr *Term) []string {
	var out []string
	for _, k := range ip.verKeys(addr) {
		if v, ok := s.ver[k]; ok && !(v.atom < 0 && strings.Trim(v.leaf.str, "0.") == "") {
			out = append(out, k)
		}
	}
	return out
}

func (ip *Interp) loadMiss(s *State, addr *Term, typ types.Type) *MT {
	// constants from code tables
	if addr.op == "faddr" && addr.args[0].op == "global" {
		if g, ok := addr.args[0].x.(*ssa.Global); ok {
			if e := ip.r.enums.byGlobal[g]; e != nil {
				name := addr.str[strings.LastIndex(addr.str, ".")+1:]
				for _, m := range e.Members {
					if m.Name == name {
						return ip.val(ip.constTerm(m.Value, m.Type))
					}
				}
			}
		}
	}
	// constant structures and variables
	if addr.op == "faddr" && addr.args[0].op == "global" {
		if t := ip.tableTerm(addr.args[0]); t != nil && t.fields != nil {
			if v := t.fields[addr.str[strings.LastIndex(addr.str, ".")+1:]]; v != nil {
				return ip.val(ip.constTerm(v, typ))
			}
			return ip.zero(typ)
		}
	}
	if addr.op == "global" {
		if t := ip.tableTerm(addr); t != nil && t.fields[""] != nil {
			return ip.val(ip.constTerm(t.fields[""], typ))
		}
	}
	// constant lookup tables
	if addr.op == "global" {
		if t := ip.tableTerm(addr); t != nil && !t.isMap {
			if _, ok := typ.Underlying().(*types.Slice); ok {
				n := ip.intTerm(t.n, tInt)
				return ip.val(ip.mk("slice", "", typ, addr, ip.intTerm(0, tInt), n))
			}
		}
	}
	if addr.op == "eaddr" && addr.args[0].op == "append1" {
		if els, ok := flatList(addr.args[0]); ok {
			if n, ok := addr.args[1].intVal(); ok && n >= 0 && int(n) < len(els) && len(ip.verKeysSet(s, addr)) == 0 {
				return ip.val(els[n])
			}
		}
	}
	if addr.op == "eaddr" && addr.args[0].op == "global" {
		if t := ip.tableTerm(addr.args[0]); t != nil && !t.isMap {
			return ip.tableElem(t, addr.args[1])
		}
	}
	var vers *MT
	for _, k := range ip.verKeys(addr) {
		v, ok := s.ver[k]
		if !ok {
			continue
		}
		if vers == nil {
			vers = v
			continue
		}
		vers = ip.apply2(vers, v, func(x, y *Term) *MT {
			return ip.leafNode(ip.mk("ver", x.str+"."+y.str, nil))
		})
	}
	root := rootOf(addr)
	fresh := root.op == "alloc" || root.op == "makeslice"
	mk := func(v string) *MT {
		if strings.Trim(v, "0.") == "" {
			v = ""
		}
		if v == "" && fresh {
			return ip.zero(typ)
		}
		return ip.val(ip.mk("ld", v, typ, addr))
	}
	if vers == nil {
		return mk("")
	}
	return ip.apply1(vers, func(x *Term) *MT { return mk(x.str) })
}

func (ip *Interp) loadLeaf(s *State, addr *Term, typ types.Type) *MT {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if isOpaqueStruct(typ) {
			break
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fa := ip.faddr(addr, i, types.NewPointer(typ))
			fs = append(fs, ip.asTerm(ip.loadLeaf(s, fa, u.Field(i).Type())))
		}
		if t := ip.collapse(addr, typ, fs, func(i int) *Term { return ip.faddr(addr, i, types.NewPointer(typ)) }); t != nil {
			return ip.val(t)
		}
		return ip.val(ip.mk("mkstruct", "", typ, fs...))
	case *types.Array:
		if u.Len() <= 64 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				ea := ip.eaddrAt(addr, i, u.Elem())
				fs = append(fs, ip.asTerm(ip.loadLeaf(s, ea, u.Elem())))
			}
			if t := ip.collapse(addr, typ, fs, func(i int) *Term {
				return ip.eaddrAt(addr, int64(i), u.Elem())
			}); t != nil && addr.op != "arrptr" {
				return ip.val(t)
			}
			return ip.val(ip.mk("mkarray", "", typ, fs...))
		}
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	// a field of a library's structure that is kept as a whole
	if addr.op == "faddr" && s.mem[addr.args[0]] != nil {
		if st, ok := ptrElem(addr.args[0].typ).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if addr == ip.faddr(addr.args[0], i, addr.args[0].typ) {
					return ip.fieldOf(s.mem[addr.args[0]], i, typ)
				}
			}
		}
	}
	return ip.loadMiss(s, addr, typ)
}

// collapse recognises an aggregate whose parts are all untouched loads of one
// version and represents it as a single load.
func (ip *Interp) collapse(addr *Term, typ types.Type, fs []*Term, part func(int) *Term) *Term {
	if len(fs) == 0 {
		return nil
	}
	for i, f := range fs {
		if f.op != "ld" || f.str != fs[0].str || f.args[0] != part(i) {
			return nil
		}
	}
	return ip.mk("ld", fs[0].str, typ, addr)
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	// plain records of a library are nothing but their fields
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

func (ip *Interp) load(s *State, addr *MT, typ types.Type) *MT {
	return ip.apply1(addr, func(a *Term) *MT { return ip.loadLeaf(s, a, typ) })
}

// leafConds maps each leaf of m to its selecting condition.
// staysConst reports whether a loop only ever assigns a variable the constant
// it starts with.
func (ip *Interp) staysConst(nl *natLoop, phi *ssa.Phi, init *MT) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return ip.use(nil, x) == init
		case *ssa.Phi:
			for i, e := range x.Edges {
				if x == phi && !nl.body[x.Block().Preds[i]] {
					continue
				}
				if !rec(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	return (init == ip.True || init == ip.False) && rec(phi)
}

func (ip *Interp) leafConds(m *MT) map[*Term]*MT {
	out := map[*Term]*MT{}
	var rec func(m, c *MT)
	rec = func(m, c *MT) {
		if c == ip.False {
			return
		}
		if m.atom < 0 {
			if o, ok := out[m.leaf]; ok {
				out[m.leaf] = ip.or(o, c)
			} else {
				out[m.leaf] = c
			}
			return
		}
		a := ip.node(m.atom, ip.True, ip.False)
		rec(m.hi, ip.and(c, a))
		rec(m.lo, ip.and(c, ip.not(a)))
	}
	rec(m, ip.True)
	return out
}

func (ip *Interp) storeLeaf(s *State, addr *Term, typ types.Type, v *MT, cond *MT) {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if isOpaqueStruct(typ) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			fa := ip.faddr(addr, i, types.NewPointer(typ))
			ip.storeLeaf(s, fa, u.Field(i).Type(), ip.fieldOf(v, i, u.Field(i).Type()), cond)
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				ea := ip.eaddrAt(addr, i, u.Elem())
				iv := i
				ev := ip.apply1(v, func(t *Term) *MT { return ip.indexLeaf(t, ip.intTerm(iv, tInt), u.Elem()) })
				ip.storeLeaf(s, ea, u.Elem(), ev, cond)
			}
			return
		}
	}
	old := ip.True
	_ = old
	nv := v
	if cond != ip.True {
		nv = ip.ite(cond, v, ip.loadLeaf(s, addr, typ))
	}
	if addr.op == "eaddr" {
		ip.killElems(s, addr, nv)
	}
	s.mem[addr] = nv
}

// killElems drops cells that may alias the element being stored.
func (ip *Interp) killElems(s *State, addr *Term, v *MT) {
	base, idx := addr.args[0], addr.args[1]
	_, ic := idx.intVal()
	bump := false
	var kill []*Term
	for a := range s.mem {
		for t := a; ; {
			if t.op == "eaddr" && t.args[0] == base && t.args[1] != idx {
				if _, c := t.args[1].intVal(); !(c && ic) {
					kill = append(kill, a)
				}
				break
			}
			if t.op == "faddr" || t.op == "eaddr" || t.op == "boolcell" {
				t = t.args[0]
				continue
			}
			break
		}
	}
	if !ic {
		bump = true
	}
	for _, a := range kill {
		delete(s.mem, a)
	}
	if bump || len(kill) > 0 {
		s.ver["B:"+strconv.Itoa(base.id)] = ip.newVer("store", addr, ip.asTerm(v), ip.verTerm(s, "B:"+strconv.Itoa(base.id)))
	}
}

func (ip *Interp) verTerm(s *State, k string) *Term {
	if v, ok := s.ver[k]; ok {
		return ip.asTerm(v)
	}
	return ip.mk("ver", "0", nil)
}

func (ip *Interp) freshTerm(op, name string, typ types.Type) *Term {
	if ip.det != nil {
		return ip.mk(op, ip.detName(op+":"+name), typ)
	}
	return ip.World.freshTerm(op, name, typ)
}

// newVer makes a new memory version; the arguments say what caused it.
func (ip *Interp) newVer(cause string, args ...*Term) *MT {
	if ip.det != nil {
		return ip.detVer(cause, args...)
	}
	ip.fresh++
	return ip.leafNode(ip.mk("ver", strconv.Itoa(ip.fresh), nil))
}

func (ip *Interp) store(s *State, addr *MT, typ types.Type, v *MT) {
	if addr.atom < 0 {
		ip.storeLeaf(s, addr.leaf, typ, v, ip.True)
		return
	}
	cs := ip.leafConds(addr)
	var ks []*Term
	for a := range cs {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, a := range ks {
		ip.storeLeaf(s, a, typ, v, cs[a])
	}
}

func (ip *Interp) fieldOf(v *MT, i int, ft types.Type) *MT {
	return ip.apply1(v, func(t *Term) *MT {
		if t.op == "mkstruct" && i < len(t.args) {
			return ip.val(t.args[i])
		}
		if t.op == "ld" && t.typ != nil {
			return ip.val(ip.mk("ld", t.str, ft, ip.faddr(t.args[0], i, types.NewPointer(t.typ))))
		}
		return ip.val(ip.mk("field", strconv.Itoa(i), ft, t))
	})
}

func (ip *Interp) indexLeaf(t, idx *Term, et types.Type) *MT {
	if t.op == "mkarray" {
		if n, ok := idx.intVal(); ok && n >= 0 && int(n) < len(t.args) {
			return ip.val(t.args[n])
		}
	}
	if t.op == "const" && isString(t.typ) {
		if n, ok := idx.intVal(); ok {
			s := constant.StringVal(t.cv)
			if n >= 0 && int(n) < len(s) {
				return ip.val(ip.intTerm(int64(s[n]), et))
			}
		}
	}
	if t.op == "ld" && t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Array); ok {
			return ip.val(ip.mk("ld", t.str, et, ip.mk("eaddr", "", types.NewPointer(et), t.args[0], ip.convTerm(idx, tInt))))
		}
	}
	if t.op == "slice" { // substring
		idx = ip.arith(token.ADD, t.args[1], idx, tInt)
		t = t.args[0]
	}
	return ip.val(ip.mk("idx", "", et, t, idx))
}

// havoc forgets what is known about memory matching the mod set.
func (ip *Interp) havoc(s *State, ms *modset, env func(ssa.Value) *MT) {
	ip.havocWith(s, ms, env, nil)
}

func (ip *Interp) havocWith(s *State, ms *modset, env func(ssa.Value) *MT, nv *MT) {
	if ms == nil {
		return
	}
	keys := map[string]bool{}
	for k := range ms.keys {
		keys[k] = true
	}
	roots := map[*Term]bool{}
	for v := range ms.locals {
		m := env(v)
		if p, ok := v.(*ssa.Parameter); ok && m == nil {
			keys["T:"+ip.tname(ptrElem(p.Type()))] = true
		}
		if m != nil {
			for t := range ip.leafConds(m) {
				roots[rootOf(t)] = true
				keys["R:"+strconv.Itoa(rootOf(t).id)] = true
			}
		}
	}
	for a := range s.mem {
		if a.op == "lockstate" || a.op == "tokcell" {
			continue
		}
		if a.op == "maddr" {
			if keys["M:"+ip.tname(a.args[0].typ)] {
				delete(s.mem, a)
			}
			continue
		}
		for _, k := range ip.verKeys(a) {
			if keys[k] {
				delete(s.mem, a)
				break
			}
		}
		if a.op == "boolcell" {
			if keys["F:"+a.args[0].str] {
				delete(s.mem, a)
			}
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if nv == nil {
		nv = ip.newVer("havoc")
	}
	for _, k := range ks {
		s.ver[k] = nv
	}
}

func (ip *Interp) havocLoop(fr *frame, l *natLoop, s *State, li *Loop) {
	ms := &modset{keys: map[string]bool{}, locals: map[ssa.Value]bool{}}
	for b := range l.body {
		for _, in := range b.Instrs {
			ip.modInstr(in, ms, map[*ssa.Function]bool{}, fr.fn)
		}
	}
	// values defined inside the loop have no binding yet
	for v := range ms.locals {
		if in, ok := v.(ssa.Instruction); ok && l.body[in.Block()] {
			delete(ms.locals, v)
		}
	}
	var nv *MT
	if ip.det != nil {
		nv = ip.detVer("loop" + strconv.Itoa(li.id))
		s.mem[ip.tokCell()] = ip.leafNode(ip.mk("tok", "loop"+strconv.Itoa(li.id), nil))
	}
	ip.havocWith(s, ms, func(v ssa.Value) *MT { return fr.env[v] }, nv)
}

type modset struct {
	keys   map[string]bool
	locals map[ssa.Value]bool
}

func (ip *Interp) modAddr(a ssa.Value, ms *modset) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		ms.keys["F:"+fieldKey(x.X.Type(), x.Field)] = true
		// whole nested struct store
		if st, ok := ptrElem(x.Type()).Underlying().(*types.Struct); ok && !isOpaqueStruct(ptrElem(x.Type())) {
			ip.modStruct(ptrElem(x.Type()), st, ms)
		}
	case *ssa.IndexAddr:
		ms.keys["E:"+ip.tname(ptrElem(x.Type()))] = true
		if st, ok := ptrElem(x.Type()).Underlying().(*types.Struct); ok && !isOpaqueStruct(ptrElem(x.Type())) {
			ip.modStruct(ptrElem(x.Type()), st, ms)
		}
	case *ssa.Alloc:
		ms.locals[x] = true
	case *ssa.FreeVar:
		ms.locals[x] = true
	case *ssa.Parameter:
		if e := ptrElem(x.Type()); e != nil {
			if _, ok := e.Underlying().(*types.Struct); !ok {
				ms.locals[x] = true
				return
			}
		}
		ip.modPtr(x, ms)
	case *ssa.Global:
		ms.keys["G:"+x.String()] = true
	default:
		ip.modPtr(a, ms)
	}
}

// modPtr: anything of the type pointed to.
func (ip *Interp) modPtr(a ssa.Value, ms *modset) {
	switch {
	default:
		if e := ptrElem(a.Type()); e != nil {
			ms.keys["T:"+ip.tname(e)] = true
			if st, ok := e.Underlying().(*types.Struct); ok {
				ip.modStruct(e, st, ms)
			}
		}
	}
}

func (ip *Interp) modStruct(t types.Type, st *types.Struct, ms *modset) {
	for i := 0; i < st.NumFields(); i++ {
		ms.keys["F:"+typeStr(t)+"."+st.Field(i).Name()] = true
	}
}

func (ip *Interp) modInstr(in ssa.Instruction, ms *modset, seen map[*ssa.Function]bool, cur *ssa.Function) {
	switch x := in.(type) {
	case *ssa.Store:
		ip.modAddr(x.Addr, ms)
	case *ssa.MapUpdate:
		ms.keys["M:"+ip.tname(x.Map.Type())] = true
	case ssa.CallInstruction:
		c := x.Common()
		var callee *ssa.Function
		if !c.IsInvoke() {
			callee = c.StaticCallee()
		}
		if callee != nil && callee.Blocks != nil && ip.r.isRepoFn(callee) {
			sub := ip.modOf(callee, seen)
			for k := range sub.keys {
				ms.keys[k] = true
			}
			// stores through pointers handed over
			for i, p := range callee.Params {
				if sub.locals[p] {
					ip.modAddr(c.Args[i], ms)
				}
			}
			// stores through free variables of a closure called here
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				for i, fv := range callee.FreeVars {
					if sub.locals[fv] {
						ip.modAddr(mc.Bindings[i], ms)
					}
				}
			} else if len(callee.FreeVars) > 0 {
				for fv := range sub.locals {
					_ = fv
				}
			}
			return
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				ms.keys["M:"+ip.tname(c.Args[0].Type())] = true
			case "copy":
				if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					ms.keys["E:"+ip.tname(sl.Elem())] = true
				}
			}
			return
		}
		if callee == nil && !c.IsInvoke() {
			// dynamic call: closures created in this function may run
			for _, an := range cur.AnonFuncs {
				sub := ip.modOf(an, seen)
				for k := range sub.keys {
					ms.keys[k] = true
				}
				for _, b := range cur.Blocks {
					for _, i2 := range b.Instrs {
						if mc, ok := i2.(*ssa.MakeClosure); ok && mc.Fn == an {
							for i, fv := range an.FreeVars {
								if sub.locals[fv] {
									ip.modAddr(mc.Bindings[i], ms)
								}
							}
						}
					}
				}
			}
			return
		}
		// external call: memory handed over by pointer or slice
		name := ""
		if callee != nil {
			name = extName(callee)
		} else {
			name = "invoke:" + c.Method.Name()
		}
		if isPureExt(name) || isLockName(name) {
			return
		}
		if strings.Contains(name, "abool") {
			if len(c.Args) > 0 && !strings.HasSuffix(name, "IsSet") && !strings.HasSuffix(name, "IsNotSet") {
				ip.modAddr(c.Args[0], ms)
			}
			return
		}
		for _, a := range c.Args {
			if mi, ok := a.(*ssa.MakeInterface); ok && fillsIn(name) && mi.Type().Underlying().(*types.Interface).NumMethods() == 0 {
				a = mi.X
			}
			switch t := a.Type().Underlying().(type) {
			case *types.Pointer:
				ip.modAddr(a, ms)
			case *types.Slice:
				ms.keys["E:"+ip.tname(t.Elem())] = true
			}
		}
	}
}

func (ip *Interp) modOf(fn *ssa.Function, seen map[*ssa.Function]bool) *modset {
	if m, ok := ip.mods[fn]; ok {
		return m
	}
	if seen[fn] {
		ip.cuts[fn] = true
		return &modset{keys: map[string]bool{}, locals: map[ssa.Value]bool{}}
	}
	seen[fn] = true
	ms := &modset{keys: map[string]bool{}, locals: map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ip.modInstr(in, ms, seen, fn)
		}
	}
	// allocations local to fn are invisible outside
	for v := range ms.locals {
		if _, ok := v.(*ssa.Alloc); ok {
			delete(ms.locals, v)
		}
	}
	delete(seen, fn)
	delete(ip.cuts, fn)
	if len(ip.cuts) == 0 {
		// complete: nothing was left out for a caller still being visited
		ip.mods[fn] = ms
	}
	return ms
}

func (ip *Interp) effect(e *Effect) *Effect {
	ip.seq++
	e.seq = ip.seq
	e.stack = append([]*ssa.Function(nil), ip.stack...)
	e.loops = append([]*Loop(nil), ip.curLoops...)
	ip.effects = append(ip.effects, e)
	return e
}

func (ip *Interp) use(fr *frame, v ssa.Value) *MT {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return ip.zero(x.Type())
			}
			if _, ok := x.Type().Underlying().(*types.Array); ok {
				return ip.zero(x.Type())
			}
			if tp, ok := x.Type().(*types.TypeParam); ok {
				return ip.zero(tp)
			}
			return ip.val(ip.mk("nil", "", nil))
		}
		return ip.val(ip.constTerm(x.Value, x.Type()))
	case *ssa.Global:
		t := ip.mk("global", x.Pkg.Pkg.Name()+"."+x.Name(), x.Type())
		t.x = x
		return ip.val(t)
	case *ssa.Function:
		t := ip.mk("func", x.String(), nil)
		t.x = x
		return ip.val(t)
	case *ssa.Builtin:
		return ip.val(ip.mk("builtin", x.Name(), nil))
	}
	if fr.cur != nil {
		if m, ok := fr.cur.vals[v]; ok {
			return m
		}
	}
	if m, ok := fr.env[v]; ok {
		return m
	}
	if t, ok := fr.tup[v]; ok {
		var as []*Term
		for _, x := range t {
			as = append(as, ip.asTerm(x))
		}
		return ip.leafNode(ip.mk("tuple", "", nil, as...))
	}
	// value from a block that was infeasible
	t := ip.mk("undef", fmt.Sprintf("%s.%s", fr.fn.Name(), v.Name()), v.Type())
	return ip.val(t)
}

func (ip *Interp) conv(m *MT, to types.Type) *MT {
	return ip.apply1(m, func(t *Term) *MT { return ip.val(ip.convTerm(t, to)) })
}

func (ip *Interp) convTerm(t *Term, to types.Type) *Term {
	from := t.typ
	if t.op == "nil" {
		return t
	}
	if from != nil && types.Identical(from, to) {
		return t
	}
	if t.isConst() {
		switch {
		case isInt(to) && t.cv.Kind() == constant.Int:
			return ip.constTerm(t.cv, to)
		case isFloat(to) && (t.cv.Kind() == constant.Int || t.cv.Kind() == constant.Float):
			return ip.constTerm(t.cv, to)
		case isInt(to) && t.cv.Kind() == constant.Float:
			if i := constant.ToInt(t.cv); i.Kind() == constant.Int {
				return ip.constTerm(i, to)
			}
		case isString(to) && t.cv.Kind() == constant.String:
			return ip.constTerm(t.cv, to)
		}
	}
	if _, ok := to.(*types.TypeParam); ok {
		return t
	}
	if from != nil && types.Identical(from.Underlying(), to.Underlying()) {
		if t.isConst() {
			return ip.constTerm(t.cv, to)
		}
		return t
	}
	if isInt(to) && t.op == "conv" && isInt(t.args[0].typ) && isInt(from) {
		in := t.args[0]
		// exact when the inner step preserves the value, or when the outer
		// step keeps no more bits than the middle one has
		if valuePreserving(in.typ, from) || intBits(to) <= intBits(from) {
			return ip.convTerm(in, to)
		}
	}
	if isFloat(to) && t.op == "conv" && isInt(t.args[0].typ) && valuePreserving(t.args[0].typ, from) {
		return ip.convTerm(t.args[0], to)
	}
	// shifting left in another type of the same size gives the same bits
	if isInt(to) && isInt(from) && t.op == "bin" && t.str == "<<" && intBits(to) == intBits(from) && t.args[0].op == "conv" && t.args[0].args[0].typ != nil && types.Identical(t.args[0].args[0].typ, to) {
		return ip.mk("bin", "<<", to, t.args[0].args[0], t.args[1])
	}
	tag := ""
	if isString(from) {
		tag = "<-string"
		if s, ok := to.Underlying().(*types.Slice); ok {
			tag = ip.tname(s) + "<-string"
		}
	}
	return ip.mk("conv", tag, to, t)
}

func valuePreserving(from, to types.Type) bool {
	if !isInt(from) || !isInt(to) {
		return false
	}
	fl, fh := intRange(from)
	tl, th := intRange(to)
	return fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0
}

// instr interprets one instruction; returns the new relative pc and whether
// the block ends here.
func (ip *Interp) instr(fr *frame, in ssa.Instruction, s *State, pc *MT) (*MT, bool) {
	abs := func() *MT { return ip.and(fr.base, pc) }
	oblig := func(kind string, args ...*MT) {
		if ip.obl {
			ip.effect(&Effect{kind: kind, pc: abs(), args: args, instr: in, fn: fr.fn})
		}
	}
	nonNil := func(from ssa.Value, v *MT) {
		if !ip.nils {
			return
		}
		switch from.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global:
			return
		}
		ip.effect(&Effect{kind: "nil", pc: abs(), args: []*MT{v}, instr: in, fn: fr.fn})
	}
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump:
		return pc, false
	case *ssa.Alloc:
		ip.allocN++
		name := fmt.Sprintf("%s#%d", x.Comment, ip.allocN)
		if ip.det != nil {
			name = ip.detName("alloc:" + ip.tname(x.Type()))
		}
		t := ip.mk("alloc", name, x.Type())
		fr.env[x] = ip.val(t)
		ip.zeroCells(s, t, ptrElem(x.Type()))
	case *ssa.BinOp:
		a, b := ip.use(fr, x.X), ip.use(fr, x.Y)
		if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
			oblig("div", b)
		}
		if (x.Op == token.SHL || x.Op == token.SHR) && !isUnsigned(x.Y.Type()) {
			if _, c := x.Y.(*ssa.Const); !c {
				oblig("shift", b)
			}
		}
		if isBool(x.X.Type()) && (x.Op == token.EQL || x.Op == token.NEQ) {
			e := ip.ite(a, b, ip.not(b))
			if x.Op == token.NEQ {
				e = ip.not(e)
			}
			fr.env[x] = e
			break
		}
		fr.env[x] = ip.apply2(a, b, func(p, q *Term) *MT {
			if x.Op == token.EQL || x.Op == token.NEQ {
				r := ip.eqTerms(p, q)
				if x.Op == token.NEQ {
					r = ip.not(r)
				}
				return r
			}
			return ip.bin(x.Op, p, q, x.Type())
		})
	case *ssa.UnOp:
		v := ip.use(fr, x.X)
		switch x.Op {
		case token.MUL:
			nonNil(x.X, v)
			fr.env[x] = ip.load(s, v, x.Type())
			if ip.obl {
				for t := range ip.leafConds(v) {
					if t.op != "faddr" && t.op != "eaddr" && t.op != "alloc" && t.op != "global" {
						oblig("deref", v)
						break
					}
				}
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && globalRoot(fa) == nil {
				ip.effect(&Effect{kind: "load", name: fieldKey(fa.X.Type(), fa.Field), pc: abs(), args: []*MT{v, fr.env[x]}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if fa, ok := ia.X.(*ssa.FieldAddr); ok && globalRoot(fa) == nil {
					ip.effect(&Effect{kind: "load", name: fieldKey(fa.X.Type(), fa.Field), pc: abs(), args: []*MT{v, fr.env[x]}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
				}
			}
		case token.NOT:
			fr.env[x] = ip.not(v)
		case token.SUB:
			fr.env[x] = ip.apply1(v, func(t *Term) *MT {
				if isInt(x.Type()) {
					return ip.bin(token.SUB, ip.intTerm(0, x.Type()), t, x.Type())
				}
				if t.isConst() {
					return ip.val(ip.constTerm(constant.UnaryOp(token.SUB, t.cv, 0), x.Type()))
				}
				return ip.val(ip.mk("neg", "", x.Type(), t))
			})
		case token.XOR:
			fr.env[x] = ip.apply1(v, func(t *Term) *MT {
				return ip.bin(token.XOR, t, ip.bigTerm(wrapBig(big.NewInt(-1), x.Type()), x.Type()), x.Type())
			})
		case token.ARROW:
			if ip.det != nil {
				tok := ip.event(s, abs(), "recv", []*MT{v})
				if x.CommaOk {
					el := x.X.Type().Underlying().(*types.Chan).Elem()
					fr.tup[x] = []*MT{ip.tokRet(tok, 0, el), ip.tokRet(tok, 1, types.Typ[types.Bool])}
				} else {
					fr.env[x] = ip.tokRet(tok, 0, x.Type())
				}
				break
			}
			if x.CommaOk {
				el := x.X.Type().Underlying().(*types.Chan).Elem()
				fr.tup[x] = []*MT{ip.val(ip.freshTerm("recv", "v", el)), ip.val(ip.freshTerm("recv", "ok", types.Typ[types.Bool]))}
				ip.effect(&Effect{kind: "recv", pc: abs(), args: []*MT{v}, ret: fr.tup[x], instr: in, fn: fr.fn, held: ip.heldNow(s)})
			} else {
				fr.env[x] = ip.val(ip.freshTerm("recv", "v", x.Type()))
				ip.effect(&Effect{kind: "recv", pc: abs(), args: []*MT{v}, ret: []*MT{fr.env[x]}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
			}
		}
	case *ssa.ChangeInterface:
		fr.env[x] = ip.use(fr, x.X)
	case *ssa.ChangeType:
		fr.env[x] = ip.apply1(ip.use(fr, x.X), func(t *Term) *MT {
			if t.isConst() {
				return ip.val(ip.constTerm(t.cv, x.Type()))
			}
			return ip.val(t)
		})
	case *ssa.Convert:
		v := ip.use(fr, x.X)
		// string([]byte) depends on contents
		if isString(x.Type()) {
			if sl, ok := x.X.Type().Underlying().(*types.Slice); ok {
				fr.env[x] = ip.apply1(v, func(t *Term) *MT {
					if t.op == "conv" && isString(t.args[0].typ) {
						return ip.val(t.args[0])
					}
					return ip.val(ip.mk("str", ip.elemVer(s, t, sl.Elem()), x.Type(), t))
				})
				break
			}
		}
		fr.env[x] = ip.conv(v, x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = ip.conv(ip.use(fr, x.X), x.Type())
	case *ssa.SliceToArrayPointer:
		v := ip.use(fr, x.X)
		n := ptrElem(x.Type()).Underlying().(*types.Array).Len()
		oblig("minlen", v, ip.val(ip.intTerm(n, tInt)))
		fr.env[x] = ip.apply1(v, func(t *Term) *MT { return ip.val(ip.mk("arrptr", "", x.Type(), t)) })
	case *ssa.Extract:
		if t, ok := fr.tup[x.Tuple]; ok && x.Index < len(t) {
			fr.env[x] = t[x.Index]
		} else {
			fr.env[x] = ip.val(ip.mk("undef", fr.fn.Name()+"."+x.Name(), x.Type()))
		}
	case *ssa.Field:
		fr.env[x] = ip.fieldOf(ip.use(fr, x.X), x.Field, x.Type())
	case *ssa.FieldAddr:
		v := ip.use(fr, x.X)
		if ip.obl && v.atom < 0 && v.leaf.op == "nil" {
			oblig("nilderef", v)
		}
		nonNil(x.X, v)
		fr.env[x] = ip.apply1(v, func(t *Term) *MT { return ip.leafNode(ip.faddr(t, x.Field, x.X.Type())) })
	case *ssa.Index:
		v, i := ip.use(fr, x.X), ip.use(fr, x.Index)
		oblig("index", v, i)
		fr.env[x] = ip.apply2(v, i, func(t, k *Term) *MT { return ip.indexLeaf(t, k, x.Type()) })
	case *ssa.IndexAddr:
		v, i := ip.use(fr, x.X), ip.use(fr, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			nonNil(x.X, v)
		}
		oblig("index", v, i)
		fr.env[x] = ip.elemAddr(v, i, x.Type())
	case *ssa.Lookup:
		v, k := ip.use(fr, x.X), ip.use(fr, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			val, okv := ip.lookup(s, v, k, x)
			if x.CommaOk {
				fr.tup[x] = []*MT{val, okv}
			} else {
				fr.env[x] = val
			}
			ip.effect(&Effect{kind: "lookup", pc: abs(), args: []*MT{v, k}, ret: []*MT{val, okv}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
			break
		}
		oblig("index", v, k)
		fr.env[x] = ip.apply2(v, k, func(t, i *Term) *MT { return ip.indexLeaf(t, i, x.Type()) })
	case *ssa.MakeChan:
		fr.env[x] = ip.val(ip.mk("makechan", ip.allocName(x.Type()), x.Type(), ip.asTerm(ip.use(fr, x.Size))))
	case *ssa.MakeMap:
		if x.Reserve != nil && ip.nils {
			n := ip.use(fr, x.Reserve)
			oblig("make", n, n)
		}
		fr.env[x] = ip.val(ip.mk("makemap", ip.allocName(x.Type()), x.Type()))
	case *ssa.MakeSlice:
		n := ip.use(fr, x.Len)
		c := ip.use(fr, x.Cap)
		oblig("make", n, c)
		id := ip.allocName(x.Type())
		fr.env[x] = ip.apply1(n, func(t *Term) *MT {
			return ip.val(ip.mk("makeslice", id, x.Type(), t))
		})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, ip.asTerm(ip.use(fr, b)))
		}
		t := ip.mk("closure", fn.String(), nil, bs...)
		t.x = fn
		fr.env[x] = ip.val(t)
	case *ssa.MakeInterface:
		v := ip.use(fr, x.X)
		if isBool(x.X.Type()) {
			fr.env[x] = ip.boxed(v, x.X.Type(), x.Type())
			break
		}
		fr.env[x] = ip.apply1(v, func(t *Term) *MT {
			mi := ip.mk("makeiface", ip.ifaceName(x.X.Type()), x.Type(), t)
			mi.x = x.X.Type()
			return ip.val(mi)
		})
	case *ssa.Slice:
		v := ip.use(fr, x.X)
		var lo, hi, mx *MT
		none := ip.leafNode(ip.mk("none", "", nil))
		lo = ip.leafNode(ip.intTerm(0, tInt))
		hi, mx = none, none
		if x.Low != nil {
			lo = ip.use(fr, x.Low)
		}
		if x.High != nil {
			hi = ip.use(fr, x.High)
		}
		if x.Max != nil {
			mx = ip.use(fr, x.Max)
		}
		oblig("slice", v, lo, hi, mx)
		lo, hi = ip.toInt(lo), ip.toInt(hi)
		fr.env[x] = ip.apply2(v, lo, func(t, l *Term) *MT {
			return ip.apply1(hi, func(h *Term) *MT {
				if h.op == "none" {
					return ip.val(ip.sliceOf(t, l, nil, x.Type()))
				}
				return ip.val(ip.sliceOf(t, l, h, x.Type()))
			})
		})
	case *ssa.Store:
		a := ip.use(fr, x.Addr)
		v := ip.use(fr, x.Val)
		nonNil(x.Addr, a)
		name := ""
		switch ad := x.Addr.(type) {
		case *ssa.FieldAddr:
			name = fieldKey(ad.X.Type(), ad.Field)
		case *ssa.Global:
			name = "global:" + ad.Pkg.Pkg.Name() + "." + ad.Name()
		case *ssa.IndexAddr:
			name = "elem"
		}
		ip.effect(&Effect{kind: "store", name: name, pc: abs(), args: []*MT{a, v}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
		ip.store(s, a, ptrElem(x.Addr.Type()), v)
	case *ssa.MapUpdate:
		m, k, v := ip.use(fr, x.Map), ip.use(fr, x.Key), ip.use(fr, x.Value)
		nonNil(x.Map, m)
		ip.effect(&Effect{kind: "mapupdate", pc: abs(), args: []*MT{m, k, v}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
		ip.mapStore(s, m, k, v, x.Map.Type())
	case *ssa.Range:
		fr.env[x] = ip.val(ip.mk("range", ip.allocName(x.X.Type()), nil, ip.asTerm(ip.use(fr, x.X))))
	case *ssa.Next:
		tt := x.Type().(*types.Tuple)
		var vs []*MT
		rg := ip.use(fr, x.Iter)
		id := ip.allocName(x.Type())
		for i := 0; i < 3; i++ {
			t := tt.At(i).Type()
			vs = append(vs, ip.val(ip.mk("next", id+"."+strconv.Itoa(i), t, ip.asTerm(rg))))
		}
		fr.tup[x] = vs
	case *ssa.TypeAssert:
		v := ip.use(fr, x.X)
		tn := ip.tname(x.AssertedType)
		isIf := types.IsInterface(x.AssertedType)
		key := tn
		if isIf {
			key = "interface:" + tn
		}
		okv := ip.apply1(v, func(t *Term) *MT {
			if t.op == "makeiface" {
				if ct, ok := t.x.(types.Type); ok {
					if isIf {
						return ip.boolMT(types.Implements(ct, x.AssertedType.Underlying().(*types.Interface)))
					}
					return ip.boolMT(types.Identical(ct, x.AssertedType))
				}
			}
			if t.op == "nil" {
				return ip.False
			}
			if ip.typed && !x.CommaOk {
				return ip.True
			}
			return ip.atomNode(ip.mk("istype", key, types.Typ[types.Bool], t))
		})
		okv = ip.theory(abs(), okv)
		val := ip.apply1(v, func(t *Term) *MT {
			if t.op == "makeiface" && !isIf {
				if ct, ok := t.x.(types.Type); ok && types.Identical(ct, x.AssertedType) {
					return ip.val(t.args[0])
				}
			}
			if isIf {
				return ip.val(t)
			}
			return ip.val(ip.mk("assert", tn, x.AssertedType, t))
		})
		if x.CommaOk {
			if !isIf {
				val = ip.iteVal(okv, val, ip.zero(x.AssertedType))
			}
			fr.tup[x] = []*MT{val, okv}
		} else {
			if okv != ip.True {
				oblig("assert", v, okv)
			}
			fr.env[x] = val
			pc = ip.and(pc, okv)
		}
	case *ssa.Panic:
		ip.effect(&Effect{kind: "panic", pc: abs(), args: []*MT{ip.use(fr, x.X)}, instr: in, fn: fr.fn})
		return pc, true
	case *ssa.Return:
		return pc, true
	case *ssa.RunDefers:
		return ip.runDefers(fr, s, pc), false
	case *ssa.Send:
		if ip.det != nil {
			ip.event(s, abs(), "send", []*MT{ip.use(fr, x.Chan), ip.use(fr, x.X)})
		}
		ip.effect(&Effect{kind: "send", pc: abs(), args: []*MT{ip.use(fr, x.Chan), ip.use(fr, x.X)}, instr: in, fn: fr.fn, held: ip.heldNow(s)})
	case *ssa.Select:
		var args []*MT
		for _, st := range x.States {
			args = append(args, ip.use(fr, st.Chan))
		}
		tt := x.Type().(*types.Tuple)
		var vs []*MT
		if ip.det != nil {
			var evs []*MT
			for _, st := range x.States {
				evs = append(evs, ip.use(fr, st.Chan))
				if st.Send != nil {
					evs = append(evs, ip.use(fr, st.Send))
				}
			}
			name := "select"
			if !x.Blocking {
				name = "trySelect"
			}
			tok := ip.event(s, abs(), name, evs)
			for i := 0; i < tt.Len(); i++ {
				vs = append(vs, ip.tokRet(tok, i, tt.At(i).Type()))
			}
		}
		for i := len(vs); i < tt.Len(); i++ {
			vs = append(vs, ip.val(ip.freshTerm("select", strconv.Itoa(i), tt.At(i).Type())))
		}
		fr.tup[x] = vs
		ip.effect(&Effect{kind: "select", pc: abs(), args: args, ret: vs, instr: in, fn: fr.fn, held: ip.heldNow(s)})
	case *ssa.Go:
		fv, args, callee, name := ip.callParts(fr, x.Common())
		if ip.det != nil {
			ip.goEvent(x, fv, args, callee, name, s, abs())
		}
		if callee == nil {
			nonNil(x.Common().Value, fv)
		}
		ip.effect(&Effect{kind: "go", name: name, pc: abs(), args: append([]*MT{fv}, args...), instr: in, fn: fr.fn, callee: callee, held: ip.heldNow(s)})
	case *ssa.Defer:
		fv, args, _, _ := ip.callParts(fr, x.Common())
		s.defers = append(s.defers, deferred{pc: pc, call: x, fnv: fv, args: args})
	case *ssa.Call:
		npc := ip.call(fr, x, s, pc)
		return npc, false
	default:
		undecided("unsupported instruction %T in %s", in, shortFn(fr.fn))
	}
	return pc, false
}

func (ip *Interp) iteVal(c, a, b *MT) *MT { return ip.ite(c, a, b) }

// ifaceName names a dynamic type; types declared inside a function go by their
// structure.
func (ip *Interp) ifaceName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.NumMethods() == 0 && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() {
			return "*" + types.TypeString(n.Underlying(), nil)
		}
	}
	return ip.tname(t)
}

func (ip *Interp) allocName(t types.Type) string {
	if ip.det != nil {
		return ip.detName("new:" + ip.tname(t))
	}
	ip.allocN++
	return strconv.Itoa(ip.allocN)
}

func (ip *Interp) toInt(m *MT) *MT {
	return ip.apply1(m, func(t *Term) *MT {
		if t.op == "none" || t.typ == nil || types.Identical(t.typ, tInt) {
			return ip.val(t)
		}
		return ip.val(ip.convTerm(t, tInt))
	})
}

// eqTerms compares two terms of any type, structurally for aggregates.
func (ip *Interp) eqTerms(p, q *Term) *MT {
	if p.op == "nil" {
		p, q = q, p
	}
	if (p.op == "mkstruct" || p.op == "mkarray") && (q.op == p.op) && len(p.args) == len(q.args) {
		r := ip.True
		for i := range p.args {
			e := ip.apply2(ip.val(p.args[i]), ip.val(q.args[i]), func(a, b *Term) *MT { return ip.eqTerms(a, b) })
			if isBoolMT(ip.World, ip.val(p.args[i])) {
				a, b := ip.val(p.args[i]), ip.val(q.args[i])
				e = ip.ite(a, b, ip.not(b))
			}
			r = ip.and(r, e)
		}
		return r
	}
	if p.op == "makeiface" && q.op == "makeiface" && p.str == q.str {
		return ip.apply2(ip.val(p.args[0]), ip.val(q.args[0]), func(a, b *Term) *MT { return ip.compare(token.EQL, a, b) })
	}
	if p.op == "pure" && q.op == "nil" && nonNilPure(p.str) {
		return ip.False
	}
	return ip.compare(token.EQL, p, q)
}

func isBoolMT(w *World, m *MT) bool {
	for m.atom >= 0 {
		m = m.hi
	}
	return m == w.True || m == w.False
}

func (ip *Interp) elemAddr(v, i *MT, ptrTyp types.Type) *MT {
	i = ip.toInt(i)
	return ip.apply2(v, i, func(t, k *Term) *MT {
		base, idx := t, k
		if t.op == "arrptr" {
			t = t.args[0]
			base = t
		}
		if t.op == "slice" {
			base, idx = t.args[0], ip.arith(token.ADD, t.args[1], k, tInt)
		}
		return ip.leafNode(ip.mk("eaddr", "", ptrTyp, base, idx))
	})
}

// eaddrAt addresses element i of the array at addr.
func (ip *Interp) eaddrAt(addr *Term, i int64, et types.Type) *Term {
	m := ip.elemAddr(ip.leafNode(addr), ip.val(ip.intTerm(i, tInt)), types.NewPointer(et))
	return m.leaf
}

// bytesAt reads n consecutive elements of a slice one by one.
func (ip *Interp) bytesAt(s *State, t *Term, n int64, et types.Type) []*Term {
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, ip.asTerm(ip.loadLeaf(s, ip.eaddrAt(t, i, et), et)))
	}
	return out
}

// wordRead reads a fixed-width integer from the start of slice t.
func (ip *Interp) wordRead(s *State, w string, t *Term, typ types.Type) *Term {
	u8 := types.Typ[types.Uint8]
	n := map[string]int64{"16": 2, "32": 4, "64": 8}[w[2:]]
	base, off := t, ip.intTerm(0, tInt)
	if t.op == "slice" {
		base, off = t.args[0], t.args[1]
	}
	root := rootOf(base)
	local := root.op == "alloc" || root.op == "makeslice"
	for i := int64(0); i < n && !local; i++ {
		if _, ok := s.mem[ip.eaddrAt(t, i, u8)]; ok {
			local = true
		}
	}
	if _, ok := off.intVal(); !ok || !local {
		return ip.mk(w, ip.elemVer(s, t, u8), typ, base, off)
	}
	bs := ip.bytesAt(s, t, n, u8)
	// consecutive bytes of one untouched object
	same := true
	for i, b := range bs {
		if b.op != "idx" || b.args[0] != bs[0].args[0] {
			same = false
			break
		}
		k, ok := b.args[1].intVal()
		k0, ok0 := bs[0].args[1].intVal()
		if !ok || !ok0 || k != k0+int64(i) {
			same = false
		}
	}
	if same {
		return ip.mk(w, "", typ, bs[0].args[0], bs[0].args[1])
	}
	same = true
	for i, b := range bs {
		if b.op != "ld" || b.str != bs[0].str || b.args[0].op != "eaddr" || b.args[0].args[0] != bs[0].args[0].args[0] ||
			ip.arith(token.SUB, b.args[0].args[1], bs[0].args[0].args[1], tInt) != ip.intTerm(int64(i), tInt) {
			same = false
			break
		}
	}
	if same {
		return ip.mk(w, bs[0].str, typ, bs[0].args[0].args[0], bs[0].args[0].args[1])
	}
	v := new(big.Int)
	for i := range bs {
		b := bs[i]
		if w[:2] == "le" {
			b = bs[len(bs)-1-i]
		}
		if !b.isConst() {
			return ip.mk(w+"cat", "", typ, bs...)
		}
		v.Lsh(v, 8)
		v.Or(v, bigOf(b.cv))
	}
	return ip.bigTerm(v, typ)
}

// elemVer names the current contents version of a slice's elements.
func (ip *Interp) elemVer(s *State, t *Term, elem types.Type) string {
	base := t
	if t.op == "slice" {
		base = t.args[0]
	}
	var parts []string
	for _, k := range []string{"E:" + ip.tname(elem), "B:" + strconv.Itoa(base.id), "R:" + strconv.Itoa(rootOf(base).id)} {
		if v, ok := s.ver[k]; ok {
			if v.atom < 0 {
				if v.leaf.str != "0" {
					parts = append(parts, v.leaf.str)
				}
			} else {
				parts = append(parts, "m"+strconv.Itoa(v.id))
			}
		}
	}
	// stores to individual elements also change contents
	var cells []string
	for a, v := range s.mem {
		if a.op == "eaddr" && a.args[0] == base {
			cells = append(cells, strconv.Itoa(a.id)+"="+strconv.Itoa(v.id))
		}
	}
	sort.Strings(cells)
	if len(cells) > 0 {
		parts = append(parts, strings.Join(cells, ";"))
	}
	return strings.Join(parts, ".")
}

func (ip *Interp) mapVer(s *State, mt types.Type) string {
	v, ok := s.ver["M:"+ip.tname(mt)]
	if !ok {
		return ""
	}
	if v.atom < 0 {
		return v.leaf.str
	}
	return "m" + strconv.Itoa(v.id)
}

func (ip *Interp) lookup(s *State, m, k *MT, x *ssa.Lookup) (*MT, *MT) {
	mt := x.X.Type().Underlying().(*types.Map)
	ver := ip.mapVer(s, x.X.Type())
	get := func(a, b *Term, ok bool) *MT {
		cell := ip.mk("maddr", "", nil, a, b)
		if v, hit := s.mem[cell]; hit {
			if ok {
				return ip.True
			}
			return v
		}
		if t := ip.tableTerm(a); t != nil && t.isMap {
			v, h := ip.tableLookup(t, b)
			if ok {
				return h
			}
			return v
		}
		if a.op == "makemap" && ver == "" {
			if ok {
				return ip.False
			}
			return ip.zero(mt.Elem())
		}
		if ok {
			return ip.atomNode(ip.mk("has", ver, types.Typ[types.Bool], a, b))
		}
		v := ip.val(ip.mk("lookup", ver, mt.Elem(), a, b))
		if ip.det != nil {
			return ip.ite(ip.atomNode(ip.mk("has", ver, types.Typ[types.Bool], a, b)), v, ip.zero(mt.Elem()))
		}
		return v
	}
	val := ip.apply2(m, k, func(a, b *Term) *MT { return get(a, b, false) })
	okv := ip.apply2(m, k, func(a, b *Term) *MT { return get(a, b, true) })
	return val, okv
}

func (ip *Interp) mapStore(s *State, m, k, v *MT, typ types.Type) {
	for a := range s.mem {
		if a.op == "maddr" {
			delete(s.mem, a)
		}
	}
	s.ver["M:"+ip.tname(typ)] = ip.newVer("mapstore", ip.deepMT(s, m), ip.deepMT(s, k), ip.deepMT(s, v), ip.verTerm(s, "M:"+ip.tname(typ)))
	if m.atom < 0 && k.atom < 0 {
		s.mem[ip.mk("maddr", "", nil, m.leaf, k.leaf)] = v
	}
}

func (ip *Interp) runDefers(fr *frame, s *State, pc *MT) *MT {
	ds := s.defers
	s.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		cond := ip.simplify(d.pc, pc)
		if ip.and(pc, d.pc) == ip.False {
			continue
		}
		if ip.implies(pc, d.pc) {
			cond = ip.True
		}
		if cond == ip.True {
			ip.callWith(fr, d.call, d.call.Common(), d.fnv, d.args, s, pc)
			continue
		}
		s2 := s.clone()
		ip.callWith(fr, d.call, d.call.Common(), d.fnv, d.args, s2, ip.and(pc, d.pc))
		_, m := ip.mergeEdges([]edgeIn{{ip.and(pc, d.pc), s2, 0}, {ip.and(pc, ip.not(d.pc)), s, 1}})
		*s = *m
	}
	return pc
}

func (ip *Interp) lockName(a *Term) string {
	if f := lockField(a); f != "" {
		return f
	}
	return ip.show(a)
}

func (ip *Interp) heldNow(s *State) []Held {
	if len(ip.locks) == 0 {
		return nil
	}
	var out []Held
	for a, v := range s.mem {
		if a.op != "lockstate" {
			continue
		}
		for t, c := range ip.leafConds(v) {
			if t.str != "0" {
				l := a.args[0]
				if len(t.args) > 0 {
					l = t.args[0]
				}
				out = append(out, Held{lock: l, mode: t.str, cond: c})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].lock.id != out[j].lock.id {
			return out[i].lock.id < out[j].lock.id
		}
		return out[i].mode < out[j].mode
	})
	return out
}

// ---- CFG helpers ----

type natLoop struct {
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	out     []ssa.Value
	outDone bool
}

func findLoops(fn *ssa.Function) []*natLoop {
	byH := map[*ssa.BasicBlock]*natLoop{}
	var out []*natLoop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
					out = append(out, l)
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return out
}

// rpo orders blocks so that, ignoring back edges, predecessors come first and
// loop bodies are contiguous enough for a single pass.
func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	loops := findLoops(fn)
	leaves := func(b, s *ssa.BasicBlock) bool {
		for _, l := range loops {
			if l.body[b] && !l.body[s] {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for pass := 0; pass < 2; pass++ {
			for _, s := range b.Succs {
				if !seen[s] && !s.Dominates(b) && (pass == 1 || leaves(b, s)) {
					dfs(s)
				}
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}
