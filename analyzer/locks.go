package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock, callback and worker discipline. Every function is summarised on its own
// for unconstrained inputs; calls are joined through summaries, specialised for
// constant boolean arguments. Locks are identified by the struct field that
// holds them.

type lockOp struct {
	class string
	e     *Effect
	via   string // the callback through which it is reached
}

type lockCall struct {
	to []string // contexts entered on the same goroutine
	e  *Effect
}

type lockJoin struct {
	threads []string
	e       *Effect
	guarded bool // reached only when no disconnect was seen running
}

type lockSum struct {
	key   string
	fn    *ssa.Function
	ip    *Interp
	res   *Result
	effs  []*Effect
	loops []*Loop
	acq   []lockOp
	calls []lockCall
	joins []lockJoin
}

type locking struct {
	c       *Check
	pkgs    map[string]bool
	wrap    map[*ssa.Function]bool
	sums    map[string]*lockSum
	stores  map[string][]ssa.Value     // field -> values stored
	callers map[*ssa.Function][]string // plain contexts calling a function
	user    []*ssa.Function            // what a user callback may call
	acqMemo map[string][]*lockOp
	joMemo  map[string]map[string]lockJoin
}

// lockField names the struct field an address denotes.
func lockField(t *Term) string {
	if t.op == "faddr" {
		return t.str
	}
	return ""
}

// ownerFuncs lists the function-typed fields of the struct that holds a lock.
func (ip *Interp) ownerFuncs(a *Term) *modset {
	ms := &modset{keys: map[string]bool{}, locals: map[ssa.Value]bool{}}
	if a.op != "faddr" || a.args[0].typ == nil {
		return ms
	}
	if n := namedOf(a.args[0].typ); n != nil {
		prefix := a.str[:strings.LastIndex(a.str, ".")+1]
		for _, f := range structFuncs(n) {
			ms.keys["F:"+prefix+f] = true
		}
	}
	return ms
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func newLocking(c *Check) *locking {
	l := &locking{c: c, pkgs: map[string]bool{}, wrap: map[*ssa.Function]bool{}, sums: map[string]*lockSum{}, stores: map[string][]ssa.Value{}, callers: map[*ssa.Function][]string{}, acqMemo: map[string][]*lockOp{}, joMemo: map[string]map[string]lockJoin{}}
	r := c.r
	for _, f := range r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					n := ""
					if g := cc.StaticCallee(); g != nil {
						n = extName(g)
					} else if cc.IsInvoke() {
						n = cc.Value.Type().String() + "." + cc.Method.Name()
					}
					if isLockName(n) {
						l.pkgs[r.relPkg(f)] = true
						c.count("lock operations", 1)
					} else if strings.HasPrefix(n, "(*sync.Mutex).") || strings.HasPrefix(n, "(*sync.RWMutex).") || strings.HasPrefix(n, "sync.Locker.") || strings.HasPrefix(n, "(*sync.Cond).") {
						undecided("%s: %s is not modelled", r.instrPos(in), n)
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa.X.Type(), fa.Field)
						l.stores[k] = append(l.stores[k], assigned(st.Val, 0)...)
					}
				}
			}
		}
	}
	for _, n := range []string{dsT + "Disconnect", sbT + "Disconnect"} {
		l.user = append(l.user, r.fn(n))
	}
	delete(l.pkgs, r.relPkg(r.fn("thread.NewThread"))) // the worker type is judged by its own models
	for round := 0; ; round++ {
		if round == 12 {
			undecided("lock wrappers do not settle")
		}
		l.sums = map[string]*lockSum{}
		grew := false
		var parts []*ssa.Function
		for _, f := range l.funcs() {
			if l.wrap[f] || !l.mayLock(f) {
				continue
			}
			s := l.sum(f, "")
			if l.unbalanced(s) == "" {
				continue
			}
			if s.onlyLocks() {
				l.wrap[f] = true
				grew = true
			} else if l.partOf(f) {
				parts = append(parts, f)
			}
		}
		if !grew {
			// innermost first: a caller may balance what its part leaves
			for _, f := range parts {
				inner := true
				for _, g := range parts {
					inner = inner && (g == f || !callsDirectly(f, g))
				}
				if inner {
					l.wrap[f] = true
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	for _, f := range l.funcs() {
		s := l.sum(f, "")
		for _, e := range s.effs {
			if e.callee != nil {
				l.callers[e.callee] = append(l.callers[e.callee], s.key)
			}
		}
	}
	return l
}

// assigned finds the values a captured variable holds; any other value stands
// for itself.
func assigned(v ssa.Value, depth int) []ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || depth > 4 {
		return []ssa.Value{v}
	}
	cell := ld.X
	for {
		fv, ok := cell.(*ssa.FreeVar)
		if !ok {
			break
		}
		b := captured(fv)
		if b == nil {
			return []ssa.Value{v}
		}
		cell = b
	}
	al, ok := cell.(*ssa.Alloc)
	if !ok {
		return []ssa.Value{v}
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			out = append(out, assigned(st.Val, depth+1)...)
		}
	}
	if len(out) == 0 {
		return []ssa.Value{v}
	}
	return out
}

// captured finds what a closure that is made in one place captures.
func captured(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil
	}
	var out ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			for i, x := range f.FreeVars {
				if x == fv {
					if out != nil {
						return nil
					}
					out = mc.Bindings[i]
				}
			}
		}
	}
	return out
}

func (l *locking) funcs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range l.c.r.funcs {
		if l.pkgs[l.c.r.relPkg(f)] && f.Synthetic == "" && f.Name() != "init" {
			out = append(out, f)
		}
	}
	return out
}

func callsDirectly(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

// partOf: an unexported function that is only ever called directly is judged
// as part of its callers.
func (l *locking) partOf(f *ssa.Function) bool {
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	n := 0
	for _, g := range l.c.r.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				ci, _ := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if *op == nil || *op != ssa.Value(f) {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo || ci == nil || ci.Common().StaticCallee() != f || g == f || !l.pkgs[l.c.r.relPkg(g)] {
						return false
					}
					for _, a := range ci.Common().Args {
						if a == ssa.Value(f) {
							return false
						}
					}
					n++
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && unwrapBound(mc.Fn.(*ssa.Function)) == f {
					return false
				}
			}
		}
	}
	return n > 0
}

// mayLock reports whether a function itself mentions a lock or a wrapper.
func (l *locking) mayLock(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && (isLockName(extName(g)) || l.wrap[g]) {
					return true
				}
			}
		}
	}
	return false
}

func boolArgs(f *ssa.Function) []int {
	var out []int
	for i, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			out = append(out, i)
		}
	}
	return out
}

// sum summarises one function for given boolean arguments.
func (l *locking) sum(f *ssa.Function, bools string) *lockSum { return l.sumWith(f, bools, nil) }

// sumWith also follows calls of one given function.
func (l *locking) sumWith(f *ssa.Function, bools string, inline map[*ssa.Function]bool) *lockSum {
	ba := boolArgs(f)
	if len(bools) != len(ba) {
		bools = strings.Repeat("?", len(ba))
	}
	key := l.c.r.fname(f)
	if bools != "" {
		key += "(" + bools + ")"
	}
	if s := l.sums[key]; s != nil && inline == nil {
		return s
	}
	ip := newInterp(l.c.r)
	ip.obl = false
	ip.noUnroll = true
	ip.lockClasses = true
	ip.opaque = func(g *ssa.Function) bool {
		return !l.wrap[g] && !inline[g] && g.Parent() == nil && g.Synthetic == "" || g.Parent() != nil && g.Parent() != f
	}
	args := ip.paramTerms(f)
	for i, k := range ba {
		switch bools[i] {
		case 't':
			args[k] = ip.True
		case 'f':
			args[k] = ip.False
		}
	}
	s := &lockSum{key: key, fn: f, ip: ip}
	if inline == nil {
		l.sums[key] = s
	}
	s.res = ip.run(f, args, ip.freeTerms(f), ip.newState(), ip.True)
	s.effs = ip.effects
	s.loops = ip.loops
	if inline != nil {
		return s
	}
	for _, e := range s.effs {
		switch e.kind {
		case "lock":
			if lockNames[e.name] != "0" {
				s.acq = append(s.acq, lockOp{l.class(s, e.addr), e, ""})
			}
		case "call", "dyncall", "purecall":
			if e.callee != nil && strings.HasSuffix(l.c.r.fname(e.callee), "thread.(*Thread).Join") {
				s.joins = append(s.joins, lockJoin{threads: l.threadsOf(s, e), e: e, guarded: l.sawNoDisconnect(s, e)})
				continue
			}
			var to []string
			if e.callee != nil {
				if l.pkgs[l.c.r.relPkg(e.callee)] {
					to = append(to, l.ctxKey(s, e.callee, e.args))
				}
			} else if e.kind == "dyncall" {
				for t := range ip.leafConds(e.args[0]) {
					to = append(to, l.targets(s, t)...)
				}
			}
			// functions handed to a callee may be called by it
			if e.callee == nil || !l.c.r.isRepoFn(e.callee) {
				for _, a := range e.args {
					for t := range ip.leafConds(a) {
						if t.op == "closure" || t.op == "func" {
							to = append(to, l.targets(s, t)...)
						}
					}
				}
			}
			if len(to) > 0 {
				sort.Strings(to)
				s.calls = append(s.calls, lockCall{to, e})
			}
		}
	}
	return s
}

func (l *locking) ctxKey(s *lockSum, g *ssa.Function, args []*MT) string {
	b := ""
	for _, k := range boolArgs(g) {
		switch {
		case k < len(args) && args[k] == s.ip.True:
			b += "t"
		case k < len(args) && args[k] == s.ip.False:
			b += "f"
		default:
			b += "?"
		}
	}
	return l.sum(g, b).key
}

func (l *locking) class(s *lockSum, a *Term) string {
	if f := lockField(a); f != "" {
		return f
	}
	return l.c.r.fname(s.fn) + ":" + s.ip.show(a)
}

// targets resolves a function value to the contexts it may run.
func (l *locking) targets(s *lockSum, t *Term) []string {
	var out []string
	add := func(g *ssa.Function) {
		g = unwrapBound(g)
		if g != nil && l.pkgs[l.c.r.relPkg(g)] {
			out = append(out, l.sum(g, "").key)
		}
	}
	switch t.op {
	case "closure", "func":
		add(t.x.(*ssa.Function))
	case "ld":
		if f := lockField(t.args[0]); f != "" {
			for _, v := range l.stores[f] {
				for _, g := range l.funcValues(v, 0) {
					add(g)
				}
			}
			for _, g := range l.user {
				add(g)
			}
		}
	}
	return out
}

// funcValues finds the library functions a stored function value may be.
func (l *locking) funcValues(v ssa.Value, depth int) []*ssa.Function {
	if depth > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return l.funcValues(x.X, depth+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			out = append(out, l.funcValues(e, depth+1)...)
		}
		return out
	case *ssa.Parameter:
		var out []*ssa.Function
		i := -1
		for k, p := range x.Parent().Params {
			if p == x {
				i = k
			}
		}
		for _, f := range l.c.r.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == x.Parent() {
						out = append(out, l.funcValues(ci.Common().Args[i], depth+1)...)
					}
				}
			}
		}
		return out
	}
	return nil
}

// threadsOf finds the fields holding the worker that is waited for.
func (l *locking) threadsOf(s *lockSum, e *Effect) []string {
	set := map[string]bool{}
	var value func(v ssa.Value, depth int)
	value = func(v ssa.Value, depth int) {
		if depth > 6 {
			set["?"] = true
			return
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				set[fieldKey(a.X.Type(), a.Field)] = true
			case *ssa.Alloc:
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
						value(st.Val, depth+1)
					}
				}
			case *ssa.FreeVar:
				for _, b := range binding(a) {
					if al, ok := b.(*ssa.Alloc); ok {
						for _, ref := range *al.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
								if prev, f := previous(st.Val); prev {
									set["previous "+f] = true
								} else {
									value(st.Val, depth+1)
								}
							}
						}
					} else {
						set["?"] = true
					}
				}
			default:
				set["?"] = true
			}
		case *ssa.Phi:
			for _, y := range x.Edges {
				value(y, depth+1)
			}
		case *ssa.Const:
		case *ssa.Call:
			// a fresh worker: the fields it is stored in
			n := 0
			for f, vs := range l.stores {
				for _, y := range vs {
					if y == v {
						set[f] = true
						n++
					}
				}
			}
			if n == 0 {
				set["?"] = true
			}
		default:
			set["?"] = true
		}
	}
	value(e.instr.(ssa.CallInstruction).Common().Args[0], 0)
	var out []string
	for f := range set {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

func binding(fv *ssa.FreeVar) []ssa.Value {
	fn := fv.Parent()
	i := -1
	for k, p := range fn.FreeVars {
		if p == fv {
			i = k
		}
	}
	var out []ssa.Value
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return out
}

// previous reports whether v is the content of a field read before the same
// function replaces it, so that it denotes an earlier worker.
func previous(v ssa.Value) (bool, string) {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false, ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false, ""
	}
	key := fieldKey(fa.X.Type(), fa.Field)
	n := 0
	for _, b := range u.Parent().Blocks {
		for i, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			f2, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldKey(f2.X.Type(), f2.Field) != key {
				continue
			}
			n++
			before := u.Block() != b && u.Block().Dominates(b)
			if u.Block() == b {
				for _, y := range b.Instrs[:i] {
					before = before || y == ssa.Instruction(u)
				}
			}
			if !before {
				return false, key
			}
		}
	}
	return n > 0, key
}

// sawNoDisconnect reports whether an effect is only reached after the flag that
// marks a running disconnect was seen clear.
func (l *locking) sawNoDisconnect(s *lockSum, e *Effect) bool {
	for _, a := range s.ip.atoms {
		if a.op == "ld" && a.args[0].op == "boolcell" && strings.HasSuffix(a.args[0].args[0].str, ".disconnecting") {
			if s.ip.and(e.pc, s.ip.atomNode(a)) == s.ip.False {
				return true
			}
		}
	}
	return false
}

// needsFlag reports whether an effect is only reached when a flag was seen set.
func (l *locking) needsFlag(s *lockSum, e *Effect, flag string) bool {
	if flag == "" {
		return false
	}
	for _, a := range s.ip.atoms {
		if a.op == "ld" && a.args[0].op == "boolcell" && a.args[0].args[0].str == flag {
			if s.ip.and(e.pc, s.ip.not(s.ip.atomNode(a))) == s.ip.False {
				return true
			}
		}
	}
	return false
}

// onlyLocks reports whether a function does nothing but lock operations.
func (s *lockSum) onlyLocks() bool {
	for _, e := range s.effs {
		switch e.kind {
		case "lock", "load", "return":
		default:
			return false
		}
	}
	return true
}

// unbalanced describes a lock whose state a function changes.
func (l *locking) unbalanced(s *lockSum) string {
	ip := s.ip
	for _, e := range s.effs {
		if e.kind != "lock" || lockNames[e.name] != "0" {
			continue
		}
		held := ip.False
		for _, h := range e.held {
			if l.class(s, h.lock) == l.class(s, e.addr) {
				if (h.mode == "R") != strings.HasSuffix(e.name, "RUnlock") {
					return fmt.Sprintf("%s releases %s in the wrong mode", e.name, l.class(s, e.addr))
				}
				held = ip.or(held, h.cond)
			}
		}
		if ip.and(e.pc, ip.not(held)) != ip.False {
			return fmt.Sprintf("%s releases %s, which is not held", l.c.r.fname(s.fn), l.class(s, e.addr))
		}
	}
	for _, h := range ip.heldNow(s.res.st) {
		if ip.and(s.res.pc, h.cond) != ip.False {
			return fmt.Sprintf("%s returns with %s held", l.c.r.fname(s.fn), l.class(s, h.lock))
		}
	}
	for _, lp := range s.loops {
		for i, b := range lp.backSt {
			if lp.entry == nil {
				continue
			}
			x, y := ip.lockView(lp.entry), ip.lockView(b)
			for k, v := range y {
				w := x[k]
				if w == nil {
					w = ip.leafNode(ip.mk("lk", "0", nil))
				}
				if v != w && ip.constrain(v, lp.backPC[i]) != ip.constrain(w, lp.backPC[i]) {
					return fmt.Sprintf("an iteration of a loop in %s changes the state of %s", l.c.r.fname(s.fn), k)
				}
			}
		}
	}
	return ""
}

func (ip *Interp) lockView(s *State) map[string]*MT {
	out := map[string]*MT{}
	for a, v := range s.mem {
		if a.op == "lockstate" {
			k := a.args[0]
			out[k.str] = ip.apply1(v, func(t *Term) *MT { return ip.leafNode(ip.mk("lk", t.str, nil)) })
		}
	}
	return out
}

// acquires lists the locks a context takes on its own goroutine.
func (l *locking) acquires(key string) []*lockOp {
	if m, ok := l.acqMemo[key]; ok {
		return m
	}
	var out []*lockOp
	have := map[string]bool{}
	seen := map[string]bool{}
	var rec func(k, via string)
	rec = func(k, via string) {
		if seen[k+" "+via] {
			return
		}
		seen[k+" "+via] = true
		s := l.sums[k]
		for _, a := range s.acq {
			if !have[a.class+" "+via] {
				have[a.class+" "+via] = true
				out = append(out, &lockOp{a.class, a.e, via})
			}
		}
		for _, c := range s.calls {
			v := via
			if v == "" {
				v = callbackOf(s, c.e)
			}
			for _, t := range c.to {
				rec(t, v)
			}
		}
	}
	rec(key, "")
	l.acqMemo[key] = out
	return out
}

// callbackOf names the callback field a call invokes.
func callbackOf(s *lockSum, e *Effect) string {
	if e.kind != "dyncall" {
		return ""
	}
	out := ""
	for _, t := range s.ip.leavesUnder(e.args[0], e.pc) {
		if t.op != "ld" || lockField(t.args[0]) == "" || out != "" && out != lockField(t.args[0]) {
			return ""
		}
		out = lockField(t.args[0])
	}
	return out
}

func (l *locking) takes(key, class string) bool {
	for _, o := range l.acquires(key) {
		if o.class == class {
			return true
		}
	}
	return false
}

// joinsOf lists the workers a context may wait for.
func (l *locking) joinsOf(key string) map[string]lockJoin { return l.joinsIf(key, "") }

// joinsIf leaves out what happens only when a flag is set.
func (l *locking) joinsIf(key, clear string) map[string]lockJoin {
	memo := key + " " + clear
	if m, ok := l.joMemo[memo]; ok {
		return m
	}
	out := map[string]lockJoin{}
	seen := map[string]bool{}
	var rec func(k, clear string)
	rec = func(k, clear string) {
		if seen[k+" "+clear] {
			return
		}
		seen[k+" "+clear] = true
		s := l.sums[k]
		for _, j := range s.joins {
			if l.needsFlag(s, j.e, clear) {
				continue
			}
			for _, t := range j.threads {
				if o, ok := out[t]; !ok || o.guarded && !j.guarded {
					out[t] = j
				}
			}
		}
		for _, c := range s.calls {
			if l.needsFlag(s, c.e, clear) {
				continue
			}
			flag := clear
			if callbackOf(s, c.e) == announced {
				flag = subscribedFlag
			}
			for _, t := range c.to {
				rec(t, flag)
			}
		}
	}
	rec(key, clear)
	l.joMemo[memo] = out
	return out
}

// workers maps each worker field to the contexts its worker runs.
func (l *locking) workers() map[string][]string {
	nt := l.c.r.fn("thread.NewThread")
	out := map[string][]string{}
	for f, vs := range l.stores {
		for _, v := range vs {
			call, ok := v.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != nt {
				continue
			}
			for _, g := range l.funcValues(call.Call.Args[0], 0) {
				g = unwrapBound(g)
				out[f] = append(out[f], l.sum(g, "").key)
			}
			if len(out[f]) == 0 {
				undecided("%s: the function of worker %s is not resolved", l.c.r.instrPos(call), f)
			}
		}
	}
	return out
}

func (l *locking) sorted() []*lockSum {
	var out []*lockSum
	for _, s := range l.sums {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// accesses applies a rule to every effect of every function. An effect that
// does not satisfy it in a function used only inside the library is judged
// again in each of the function's callers.
func (l *locking) accesses(rule func(s *lockSum, e *Effect) string, bad func(s *lockSum, e *Effect, what string)) {
	for _, s := range l.sorted() {
		if l.wrap[s.fn] || s != l.sum(s.fn, "") {
			continue
		}
		for _, e := range s.effs {
			if what := rule(s, e); what != "" {
				l.inCallers(s, e, what, rule, bad, map[*ssa.Function]bool{}, 0)
			}
		}
	}
}

func (l *locking) inCallers(s *lockSum, e *Effect, what string, rule func(s *lockSum, e *Effect) string, bad func(s *lockSum, e *Effect, what string), inline map[*ssa.Function]bool, depth int) {
	f := s.fn
	if g, runs := l.handedTo(f); g != nil && depth <= 2 {
		in := map[*ssa.Function]bool{f: true}
		for k := range inline {
			in[k] = true
		}
		for _, h := range runs {
			in[h] = true
		}
		n := l.sumWith(g, "", in)
		seen := false
		for _, x := range n.effs {
			if x.instr != e.instr {
				continue
			}
			seen = true
			if w := rule(n, x); w != "" {
				l.inCallers(n, x, w, rule, bad, in, depth+1)
			}
		}
		if !seen {
			bad(s, e, what)
		}
		return
	}
	callers := l.callers[f]
	o := f.Object()
	if depth > 2 || len(callers) == 0 || f.Parent() == nil && (o == nil || o.Exported()) || l.valueUse(f) {
		bad(s, e, what)
		return
	}
	in := map[*ssa.Function]bool{f: true}
	for k := range inline {
		in[k] = true
	}
	done := map[string]bool{}
	for _, k := range callers {
		if done[k] {
			continue
		}
		done[k] = true
		g := l.sums[k].fn
		n := l.sumWith(g, "", in)
		for _, x := range n.effs {
			if x.instr != e.instr {
				continue
			}
			if w := rule(n, x); w != "" {
				l.inCallers(n, x, w, rule, bad, in, depth+1)
			}
		}
	}
}

// handedTo finds the function that makes a closure and the library functions
// it hands it to, provided all of them do nothing with it but call it.
func (l *locking) handedTo(f *ssa.Function) (*ssa.Function, []*ssa.Function) {
	g := f.Parent()
	if g == nil {
		return nil, nil
	}
	var runs []*ssa.Function
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			for _, r := range *mc.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				call, ok := r.(*ssa.Call)
				if !ok {
					return nil, nil
				}
				h := call.Call.StaticCallee()
				if h == nil || len(h.Blocks) == 0 || !l.c.r.isRepoFn(h) || call.Call.Value == mc {
					return nil, nil
				}
				for i, a := range call.Call.Args {
					if a != ssa.Value(mc) {
						continue
					}
					for _, u := range *h.Params[i].Referrers() {
						if _, ok := u.(*ssa.DebugRef); ok {
							continue
						}
						if _, isGo := u.(*ssa.Go); isGo {
							return nil, nil
						}
						ci, ok := u.(ssa.CallInstruction)
						if !ok || ci.Common().Value != h.Params[i] {
							return nil, nil
						}
					}
				}
				runs = append(runs, h)
			}
		}
	}
	if len(runs) == 0 {
		return nil, nil
	}
	return g, runs
}

// valueUse reports whether a function is used other than by calling it.
func (l *locking) valueUse(f *ssa.Function) bool {
	for _, g := range l.c.r.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				_, isGo := in.(*ssa.Go)
				for _, op := range in.Operands(nil) {
					h, ok := (*op).(*ssa.Function)
					if mc, ok2 := (*op).(*ssa.MakeClosure); ok2 {
						h, ok = mc.Fn.(*ssa.Function), true
					}
					if !ok || unwrapBound(h) != f {
						continue
					}
					if isGo || !isCall || *op != ci.Common().Value || h != f && h.Synthetic != "" {
						if _, mk := in.(*ssa.MakeClosure); mk && h == f {
							continue // judged where the closure is used
						}
						return true
					}
				}
			}
		}
	}
	return false
}

// samePlace compares two addresses, disregarding when they were loaded.
func samePlace(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || len(a.args) != len(b.args) {
		return false
	}
	if a.op == "ld" {
		return samePlace(a.args[0], b.args[0])
	}
	if a.op == "faddr" && a.str == b.str {
		return samePlace(a.args[0], b.args[0])
	}
	return false
}

// isFresh reports whether an object was made by the function itself and is not
// yet shared.
func (l *locking) isFresh(s *lockSum, t *Term) bool {
	r := rootOf(t)
	if r.op == "alloc" {
		return true
	}
	for _, e := range s.effs {
		if r.op != "ret" || e.kind != "call" || e.callee == nil || !l.pkgs[l.c.r.relPkg(e.callee)] {
			continue
		}
		for i, v := range e.ret {
			if v.atom < 0 && v.leaf == r {
				return makes(e.callee, i)
			}
		}
	}
	return false
}

// makes reports whether a function always returns an object it has made.
func makes(f *ssa.Function, i int) bool { return makesIn(f, i, 0) }

func makesIn(f *ssa.Function, i, level int) bool {
	var made func(v ssa.Value, depth int) bool
	made = func(v ssa.Value, depth int) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if depth > 4 || !made(e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			a, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			n := 0
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok {
					if st.Addr != a || depth > 4 || !made(st.Val, depth+1) {
						return false
					}
					n++
				}
			}
			return n > 0
		case *ssa.Call:
			g := x.Call.StaticCallee()
			return g != nil && level < 4 && g.Blocks != nil && g.Signature.Results().Len() == 1 && makesIn(g, 0, level+1)
		}
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !made(r.Results[i], 0) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// holding lists the conditions under which a lock of an object is held.
func (l *locking) holding(s *lockSum, e *Effect, class string, owner *Term, write bool) *MT {
	c := s.ip.False
	for _, h := range e.held {
		if lockField(h.lock) == class && (h.mode == "W" || !write) && samePlace(h.lock.args[0], owner) {
			c = s.ip.or(c, h.cond)
		}
	}
	return c
}
