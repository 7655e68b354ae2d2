package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C09"] = prop{level: "other", explain: "Every function of the packages that use locks is summarised from SSA with the locks held at each read, assignment and invocation of a function-typed field, path by path. The lock is the read-write lock of the struct that owns the field. Accesses in helpers are judged in every caller. Callback contents are forgotten whenever the lock is taken, so a test made in an earlier critical section does not count. Not covered: assignments by user code, and calls already started on their own goroutine.", run: checkCallbacks}
	props["C03"] = prop{level: "other", explain: "The framing function and the send functions are compared with reference models for every payload; a lockset rule over all functions shows that the buffer shared between commands is only touched, and its bytes only written to the socket, under one lock, and that nothing else writes to the connection. Not covered: partial writes inside the network stack.", run: checkSharedBuffer}
	props["C28"] = prop{level: "other", explain: "For each field that several goroutines use, all accesses in the repository are collected from SSA together with the locks held at them, path by path. A field passes if its type is made for concurrent use, if it is only accessed through sync/atomic, or if one lock of the same object is held at every access, exclusively where it is assigned. Flags that admit one of several goroutines have to be tested and set in one step. Accesses in helpers are judged in every caller; objects under construction are exempt. Not covered: what the fields refer to, and fields outside the statement, which rely on the order of connecting, reading and disconnecting.", run: checkShared}
	props["C10"] = prop{level: "other", explain: "Every function of the packages that use locks is summarised from SSA with the locks held at each operation, path by path. Rules over the summaries: balanced on every return and loop iteration, no lock taken while held (through calls and library-assigned callbacks), an acyclic acquisition order, and no wait for a worker whose function may take a held lock. Locks are identified by the field holding them; user-supplied callbacks are taken to call only the documented disconnect request. Not covered: lock operations on values that are not struct fields of the library, and panics raised inside user callbacks.", run: checkLockOrder}
}

// callbackLock finds the lock that guards the function-typed fields of a struct.
func callbackLock(n *types.Named) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	out, k := "", 0
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "sync.RWMutex" {
			out = st.Field(i).Name()
			k++
		}
	}
	if k != 1 {
		return ""
	}
	return out
}

// checkCallbacks: callbacks are used and assigned under their owner's lock.
func checkCallbacks(c *Check) {
	l := newLocking(c)
	c.rule("a callback field is read, tested for nil and invoked in one critical section of its owner's callback lock")
	c.rule("a callback field is assigned only with that lock held exclusively, or in an object that is not shared yet")
	locks := map[string]string{} // callback field -> lock field
	for _, p := range c.r.pkgs {
		if !l.pkgs[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || len(structFuncs(nt)) == 0 {
				continue
			}
			lk := callbackLock(nt)
			prefix := p.Types.Name() + "." + n + "."
			if !c.ok(lk != "", prefix+"lock", c.r.pos(tn.Pos()), "%s has callbacks but no single read-write lock for them", n) {
				continue
			}
			for _, f := range structFuncs(nt) {
				locks[prefix+f] = prefix + lk
				c.count("callback fields", 1)
			}
		}
	}
	owner := func(t *Term) (string, *Term) {
		if t.op == "ld" {
			t = t.args[0]
		}
		if t.op == "faddr" && locks[t.str] != "" {
			return t.str, t.args[0]
		}
		return "", nil
	}
	rule := func(s *lockSum, e *Effect) string {
		ip := s.ip
		switch e.kind {
		case "load", "store":
			for a, cond := range ip.leafConds(e.args[0]) {
				f, o := owner(a)
				if f == "" || a.op == "ld" || l.isFresh(s, o) {
					continue
				}
				c.count("callback "+e.kind+"s", 1)
				if ip.and(ip.and(e.pc, cond), ip.not(l.holding(s, e, locks[f], o, e.kind == "store"))) != ip.False {
					if e.kind == "load" {
						return f + " is read without holding " + locks[f]
					}
					return f + " is assigned without holding " + locks[f] + " exclusively"
				}
			}
		case "dyncall", "go":
			for t, cond := range ip.leafConds(e.args[0]) {
				f, o := owner(t)
				if f == "" || t.op != "ld" {
					continue
				}
				c.count("callback invocations", 1)
				pc := ip.and(e.pc, cond)
				if ip.and(pc, ip.not(l.holding(s, e, locks[f], o, false))) != ip.False {
					return f + " is invoked without holding " + locks[f]
				}
				if ip.and(pc, ip.atomNode(ip.mk("isnil", "", types.Typ[types.Bool], t))) != ip.False {
					return f + " is invoked without a test in the same critical section that it is set"
				}
				if u, ok := e.instr.(ssa.CallInstruction).Common().Value.(*ssa.UnOp); ok {
					from := -1
					for _, x := range s.effs {
						if x.seq >= e.seq {
							break
						}
						if x.instr == ssa.Instruction(u) {
							from = x.seq
						}
						if x.kind == "lock" && lockNames[x.name] == "0" && from >= 0 && lockField(x.addr) == locks[f] && ip.and(x.pc, e.pc) != ip.False {
							return f + " was read in an earlier critical section than the one in which it is invoked"
						}
					}
				}
			}
		}
		return ""
	}
	n := 0
	l.accesses(rule, func(s *lockSum, e *Effect, what string) {
		n++
		c.violate(c.r.fname(e.fn)+" "+what, c.r.instrPos(e.instr), "%s (%s)", what, s.key)
	})
	c.obligs += c.counts["callback loads"] + c.counts["callback stores"] + c.counts["callback invocations"]
	c.discharged = c.obligs - n
	c.atLeast("callback fields", 20)
	c.atLeast("callback loads", 30)
	c.atLeast("callback stores", 20)
	c.atLeast("callback invocations", 20)
}

// checkSharedBuffer: bytes shared between commands are only touched under one lock.
func checkSharedBuffer(c *Check) {
	l := newLocking(c)
	c.rule("every access to a buffer kept between commands and every socket write of its bytes happens with one common lock of the same object held exclusively")
	c.rule("the connection is written only by the function compared with the framing model, and is otherwise only closed, read or asked for its addresses")
	writer := c.r.fn(dsT + "writeServerCommand")
	inWriter := c.r.reach(writer)
	buffers := map[string]bool{}
	each := func(t *Term, visit func(*Term)) {
		seen := map[*Term]bool{}
		var rec func(*Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			visit(t)
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
	}
	isConn := func(t types.Type) bool { return t != nil && t.String() == "net.Conn" }
	for _, s := range l.sorted() {
		for _, e := range s.effs {
			if e.kind != "call" && e.kind != "dyncall" {
				continue
			}
			for i, a := range e.args {
				for _, t := range s.ip.leavesUnder(a, s.ip.True) {
					conn := false
					each(t, func(x *Term) {
						if x.op == "ld" && isConn(x.typ) {
							conn = true
						}
					})
					if !conn {
						continue
					}
					c.count("uses of the connection", 1)
					m := strings.TrimPrefix(e.name, "invoke:")
					switch {
					case i == 0 && e.name == "invoke:Write":
						c.count("connection writes", 1)
						c.ok(inWriter[e.fn], c.r.fname(e.fn)+" write", c.r.instrPos(e.instr), "%s writes to the connection outside %s", c.r.fname(e.fn), c.r.fname(writer))
						for _, t := range s.ip.leavesUnder(e.args[1], s.ip.True) {
							if r := rootOf(t); r.op == "ld" && r.args[0].op == "faddr" {
								buffers[r.args[0].str] = true
							}
						}
					case i == 0 && strings.HasPrefix(e.name, "invoke:") && (m == "Close" || m == "RemoteAddr" || m == "LocalAddr" || m == "Read" || strings.HasPrefix(m, "Set")):
					case e.name == "bufio.NewReader" || e.name == "bufio.NewReaderSize" || e.callee != nil && c.r.isRepoFn(e.callee):
					default:
						c.ok(false, c.r.fname(e.fn)+" use", c.r.instrPos(e.instr), "%s hands the connection to %s, which may write to it", c.r.fname(e.fn), e.name)
					}
				}
			}
		}
	}
	for f := range buffers {
		var common map[string]bool
		first := ""
		l.accesses(func(s *lockSum, e *Effect) string {
			ip := s.ip
			var owner *Term
			for _, a := range e.args {
				for _, t := range ip.leavesUnder(a, ip.True) {
					each(t, func(x *Term) {
						if x.op == "faddr" && x.str == f {
							owner = x.args[0]
						}
					})
				}
			}
			switch e.kind {
			case "load", "store", "call", "copy", "append", "dyncall", "go", "return", "send":
			default:
				return ""
			}
			if owner == nil || l.isFresh(s, owner) {
				return ""
			}
			c.count("accesses to the shared buffer", 1)
			held := map[string]bool{}
			for _, h := range e.held {
				if h.mode == "W" && h.lock.op == "faddr" && samePlace(h.lock.args[0], owner) && ip.and(e.pc, ip.not(l.holding(s, e, h.lock.str, owner, true))) == ip.False {
					held[h.lock.str] = true
				}
			}
			if len(held) == 0 {
				return f + " is used without a lock"
			}
			if common == nil {
				common, first = held, c.r.instrPos(e.instr)
			} else {
				for k := range common {
					if !held[k] {
						delete(common, k)
					}
				}
				if len(common) == 0 {
					return f + " is used under a different lock than at " + first
				}
			}
			return ""
		}, func(s *lockSum, e *Effect, what string) {
			c.ok(false, c.r.fname(e.fn)+" "+what, c.r.instrPos(e.instr), "%s (%s)", what, s.key)
		})
		c.ok(true, f, "", "")
		c.atLeast("accesses to the shared buffer", 3)
	}
	c.atLeast("connection writes", 1)
	c.atLeast("uses of the connection", 4)
}

// sharedFields are used by several goroutines at any time.
var sharedFields = []string{
	"transport.DataSubscriber.totalCommandChannelBytesReceived", "transport.DataSubscriber.totalDataChannelBytesReceived", "transport.DataSubscriber.totalMeasurementsReceived",
	"transport.DataSubscriber.connected", "transport.DataSubscriber.validated", "transport.DataSubscriber.listening", "transport.DataSubscriber.subscribed",
	"transport.DataSubscriber.disconnecting", "transport.DataSubscriber.disconnected", "transport.DataSubscriber.disposing",
	"transport.DataSubscriber.tsscResetRequested", "transport.DataSubscriber.tsscLastOOSReport",
	"transport.DataSubscriber.signalIndexCache", "transport.DataSubscriber.cacheIndex", "transport.DataSubscriber.measurementRegistry",
	"transport.DataSubscriber.writeBuffer", "transport.DataSubscriber.disconnectThread",
	"transport.SubscriberConnector.reconnectThread", "transport.SubscriberConnector.waitTimer",
	"transport.SubscriberConnector.cancel", "transport.SubscriberConnector.connectionRefused",
	"thread.Thread.running",
}

// checkShared: what several goroutines use is atomic or under one lock.
func checkShared(c *Check) {
	l := newLocking(c)
	c.rule("a field used by several goroutines has a type made for that, or is only accessed through sync/atomic, or only with one common lock of its own object held (exclusively where it is assigned), apart from objects that are not shared yet")
	uses, typ := c.fieldUses()
	for _, f := range sharedFields {
		if !c.ok(typ[f] != nil, f, "", "%s is not used anywhere, so nothing can be said about it", f) {
			continue
		}
		c.count("shared fields", 1)
		t := typ[f].String()
		if t == "sync.Map" || t == "sync.Pool" || strings.HasPrefix(t, "sync/atomic.") || strings.HasPrefix(t, "github.com/tevino/abool") {
			c.count("fields safe by type", 1)
			var whole ssa.Instruction
			for _, u := range uses[f] {
				switch x := u.in.(type) {
				case *ssa.Store, *ssa.UnOp:
					whole = x
				}
			}
			pos := ""
			if whole != nil {
				pos = c.r.instrPos(whole)
			}
			c.ok(whole == nil, f, pos, "%s is copied or replaced as a whole while other goroutines may use it", f)
			c.singleStep(f, uses[f])
			continue
		}
		if c.atomicField(f, uses[f]) {
			c.count("fields accessed atomically", 1)
			continue
		}
		c.count("fields under a lock", 1)
		c.sameLock(l, f)
	}
	checkClaims(c)
	c.atLeast("shared fields", len(sharedFields))
	c.atLeast("fields safe by type", 10)
	c.atLeast("atomic stores", 3)
	c.atLeast("accesses under a lock", 20)
}

// fieldUse is what is done with the address of a field.
type fieldUse struct {
	in     ssa.Instruction
	atomic bool
}

// fieldUses lists the uses of every field, apart from objects being built.
func (c *Check) fieldUses() (map[string][]fieldUse, map[string]types.Type) {
	uses := map[string][]fieldUse{}
	typ := map[string]types.Type{}
	for _, f := range c.r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey(fa.X.Type(), fa.Field)
				typ[k] = ptrElem(fa.Type())
				if al, ok := fa.X.(*ssa.Alloc); ok && onlyBuilt(al) {
					continue
				}
				uses[k] = append(uses[k], c.addrUses(fa, map[ssa.Value]bool{})...)
			}
		}
	}
	return uses, typ
}

// addrUses finds the uses of an address, also by library functions it is
// handed to.
func (c *Check) addrUses(a ssa.Value, seen map[ssa.Value]bool) []fieldUse {
	var out []fieldUse
	if seen[a] {
		return nil
	}
	seen[a] = true
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		u := fieldUse{in: r}
		if call, ok := r.(*ssa.Call); ok {
			g := call.Call.StaticCallee()
			if g != nil && g.Parent() == nil && len(g.Blocks) > 0 && c.r.isRepoFn(g) {
				for i, x := range call.Call.Args {
					if x == a {
						out = append(out, c.addrUses(g.Params[i], seen)...)
					}
				}
				continue
			}
		}
		if ci, ok := r.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil {
				u.atomic = strings.HasPrefix(extName(g), "sync/atomic.")
			}
		}
		out = append(out, u)
	}
	return out
}

// atomicField judges a field that is accessed through sync/atomic.
func (c *Check) atomicField(f string, uses []fieldUse) bool {
	nAtomic, plain := 0, fieldUse{}
	for _, u := range uses {
		if u.atomic {
			nAtomic++
		} else if plain.in == nil {
			plain = u
		}
	}
	if nAtomic == 0 {
		return false
	}
	pos := ""
	if plain.in != nil {
		pos = c.r.instrPos(plain.in)
	}
	c.ok(plain.in == nil, f, pos, "%s is accessed without sync/atomic", f)
	c.singleStep(f, uses)
	return true
}

// singleStep: no value computed from the field itself is stored in it.
func (c *Check) singleStep(f string, uses []fieldUse) {
	for _, u := range uses {
		ci, ok := u.in.(ssa.CallInstruction)
		if !ok || ci.Common().StaticCallee() == nil {
			continue
		}
		g := ci.Common().StaticCallee()
		if n := extName(g); !strings.Contains(n, "sync/atomic.") || !strings.HasPrefix(g.Name(), "Store") {
			continue
		}
		c.count("atomic stores", 1)
		c.ok(!dependsOn(ci.Common().Args[1], f, ci.Common().Args[0], map[ssa.Value]bool{}), f+" store", c.r.instrPos(u.in), "%s is computed from its own value and stored in two steps, so updates in between are lost", f)
	}
}

// checkCounter: the measurement counter is changed in single steps.
func checkCounter(c *Check) {
	c.rule("the measurement counter is only accessed through sync/atomic and never stored as a value computed from itself")
	uses, typ := c.fieldUses()
	f := "transport.DataSubscriber.totalMeasurementsReceived"
	if t := typ[f]; c.ok(t != nil, f, "", "%s is not used anywhere", f) && !strings.HasPrefix(t.String(), "sync/atomic.") {
		c.ok(c.atomicField(f, uses[f]), f, "", "%s is not accessed through sync/atomic", f)
	}
}

// dependsOn: a value is computed from the contents of a field, or of the
// address it is given by.
func dependsOn(v ssa.Value, field string, addr ssa.Value, seen map[ssa.Value]bool) bool {
	if v == addr {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if fieldKey(x.X.Type(), x.Field) == field {
			return true
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x && dependsOn(st.Val, field, addr, seen) {
				return true
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, y := range rt.Results {
						if dependsOn(y, field, addr, seen) {
							return true
						}
					}
				}
			}
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && dependsOn(*o, field, addr, seen) {
			return true
		}
	}
	return false
}

// onlyBuilt: the object is a composite literal under construction.
func onlyBuilt(al *ssa.Alloc) bool { return al.Comment == "complit" || al.Comment == "new" }

// sameLock: all accesses to a field hold one lock of the same object.
func (c *Check) sameLock(l *locking, f string) {
	var common map[string]bool
	first, n, failed := "", 0, false
	l.accesses(func(s *lockSum, e *Effect) string {
		if e.kind != "load" && e.kind != "store" && e.kind != "copy" && e.kind != "call" {
			return ""
		}
		ip := s.ip
		var owner *Term
		for i, a := range e.args {
			if i > 0 && e.kind != "call" {
				break
			}
			for _, t := range ip.leavesUnder(a, ip.True) {
				for x := t; x != nil; {
					if x.op == "faddr" && x.str == f {
						owner = x.args[0]
					}
					if len(x.args) == 0 || x.op != "faddr" && x.op != "eaddr" && x.op != "slice" && x.op != "makeiface" {
						break
					}
					x = x.args[0]
				}
			}
		}
		if owner == nil || l.isFresh(s, owner) {
			return ""
		}
		n++
		c.count("accesses under a lock", 1)
		held := map[string]bool{}
		for _, h := range e.held {
			write := e.kind != "load"
			if h.lock.op == "faddr" && samePlace(h.lock.args[0], owner) && ip.and(e.pc, ip.not(l.holding(s, e, h.lock.str, owner, write))) == ip.False {
				held[h.lock.str] = true
			}
		}
		if len(held) == 0 {
			return f + " is accessed without a lock"
		}
		if common == nil {
			common, first = held, c.r.instrPos(e.instr)
			return ""
		}
		both := map[string]bool{}
		for k := range common {
			if held[k] {
				both[k] = true
			}
		}
		if len(both) == 0 {
			return f + " is accessed under a different lock than at " + first
		}
		common = both
		return ""
	}, func(s *lockSum, e *Effect, what string) {
		failed = true
		c.ok(false, c.r.fname(e.fn)+" "+what, c.r.instrPos(e.instr), "%s (%s)", what, s.key)
	})
	if !failed {
		c.ok(n > 0, f, "", "no access to %s was found", f)
	}
}

// checkWaits: no worker waits for itself, directly or through other workers.
func checkWaits(c *Check) {
	l := newLocking(c)
	c.rule("no worker waits, directly or through workers it waits for, for its own end; a wait for the disconnect worker that is reached only while no disconnect is running is exempt")
	workers := l.workers()
	var names []string
	for w := range workers {
		names = append(names, w)
	}
	sort.Strings(names)
	succ := map[string][]string{}
	at := map[string]lockJoin{}
	for _, w := range names {
		for _, k := range workers[w] {
			for th, j := range l.joinsOf(k) {
				c.count("waits of workers for workers", 1)
				if strings.HasPrefix(th, "previous ") && workers[strings.TrimPrefix(th, "previous ")] != nil {
					continue // an earlier worker of the same kind
				}
				if !c.ok(th != "?" && workers[th] != nil, w+" wait", c.r.instrPos(j.e.instr), "%s waits for a worker that cannot be identified", k) {
					continue
				}
				if j.guarded {
					continue
				}
				succ[w] = append(succ[w], th)
				at[w+" "+th] = j
			}
		}
	}
	for _, w := range names {
		seen := map[string]bool{}
		var path []string
		var rec func(x string) bool
		rec = func(x string) bool {
			for _, y := range succ[x] {
				if y == w {
					path = append(path, c.r.instrPos(at[x+" "+y].e.instr)+" waits for "+y)
					return true
				}
				if !seen[y] {
					seen[y] = true
					if rec(y) {
						path = append(path, c.r.instrPos(at[x+" "+y].e.instr)+" waits for "+y)
						return true
					}
				}
			}
			return false
		}
		cyc := rec(w)
		c.ok(!cyc, w+" cycle", "", "the worker %s may wait for itself: %s", w, strings.Join(path, ", "))
	}
	c.count("workers", len(names))
	c.atLeast("workers", 5)
	c.atLeast("waits of workers for workers", 4)
}

func checkLockOrder(c *Check) {
	l := newLocking(c)
	c.rule("every lock taken by a function is released on every return and on every loop iteration, in the mode in which it was taken; functions that do nothing but lock operations, and unexported ones that are only called directly, are judged where they are called when they leave a lock changed")
	c.rule("a lock is not taken while it is held by the same goroutine")
	c.rule("no two locks are taken in opposite orders")
	c.rule("no lock is held while waiting for a worker that takes that lock; a connection being announced has no subscription yet")
	type edge struct{ from, to string }
	edges := map[edge]*Effect{}
	where := map[edge]*lockSum{}
	workers := l.workers()
	for _, s := range l.sorted() {
		if l.wrap[s.fn] {
			continue
		}
		c.count("functions summarised", 1)
		what := l.unbalanced(s)
		c.ok(what == "", l.c.r.fname(s.fn)+" balance", c.r.pos(s.fn.Pos()), "%s", what)
	}
	for _, s := range l.sorted() {
		if l.wrap[s.fn] {
			continue
		}
		held := func(e *Effect) map[string]*Effect {
			out := map[string]*Effect{}
			for _, h := range e.held {
				if s.ip.and(e.pc, h.cond) != s.ip.False {
					out[l.class(s, h.lock)] = e
				}
			}
			return out
		}
		take := func(h, class string, e *Effect, via, through string) {
			c.count("locks taken while another is held", 1)
			if h == class {
				key := c.r.fname(s.fn) + " re-enters " + h
				if via != "" {
					key = h + " re-entered from " + via
				}
				c.ok(false, key, c.r.instrPos(e.instr), "%s takes %s%s while already holding it", c.r.fname(s.fn), h, through)
				return
			}
			k := edge{h, class}
			if edges[k] == nil {
				edges[k], where[k] = e, s
			}
		}
		for _, a := range s.acq {
			for h := range held(a.e) {
				take(h, a.class, a.e, "", "")
			}
		}
		for _, cl := range s.calls {
			hs := held(cl.e)
			if len(hs) == 0 {
				continue
			}
			for _, t := range cl.to {
				for _, op := range l.acquires(t) {
					via := callbackOf(s, cl.e)
					if via == "" {
						via = op.via
					}
					for h := range hs {
						take(h, op.class, cl.e, via, " through "+t+" ("+c.r.instrPos(op.e.instr)+")")
					}
				}
				clear := ""
				if callbackOf(s, cl.e) == announced {
					clear = subscribedFlag
				}
				for th := range l.joinsIf(t, clear) {
					for h := range hs {
						l.waitHeld(s, cl.e, th, h, workers)
					}
				}
			}
		}
		for _, j := range s.joins {
			for h := range held(j.e) {
				for _, th := range j.threads {
					l.waitHeld(s, j.e, th, h, workers)
				}
			}
			c.count("waits for a worker", 1)
		}
	}
	// order
	succ := map[string][]string{}
	for k := range edges {
		succ[k.from] = append(succ[k.from], k.to)
	}
	reaches := func(from, to string) bool {
		seen := map[string]bool{}
		var rec func(x string) bool
		rec = func(x string) bool {
			if x == to {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range succ[x] {
				if rec(y) {
					return true
				}
			}
			return false
		}
		return rec(from)
	}
	var ks []edge
	for k := range edges {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].from+ks[i].to < ks[j].from+ks[j].to })
	for _, k := range ks {
		c.ok(!reaches(k.to, k.from), "order "+k.from+" "+k.to, c.r.instrPos(edges[k].instr), "%s takes %s while holding %s, and elsewhere they are taken in the opposite order", c.r.fname(where[k].fn), k.to, k.from)
		debugf("order %s -> %s at %s", k.from, k.to, c.r.instrPos(edges[k].instr))
	}
	c.count("ordered lock pairs", len(ks))
	c.atLeast("functions summarised", 100)
	c.atLeast("lock operations", 30)
	c.atLeast("waits for a worker", 5)
}

// A connection is announced after its setup has cleared the subscribed flag;
// the connection models establish this.
const (
	announced      = "transport.DataSubscriber.ConnectionEstablishedCallback"
	subscribedFlag = "transport.DataSubscriber.subscribed"
)

func (l *locking) waitHeld(s *lockSum, e *Effect, thread, lock string, workers map[string][]string) {
	thread = strings.TrimPrefix(thread, "previous ")
	var fns []string
	if thread == "?" {
		for _, v := range workers {
			fns = append(fns, v...)
		}
	} else {
		fns = workers[thread]
	}
	for _, f := range fns {
		l.c.ok(!l.takes(f, lock), l.c.r.fname(s.fn)+" waits with "+lock, l.c.r.instrPos(e.instr), "%s holds %s while it waits for %s, which takes that lock", l.c.r.fname(s.fn), lock, f)
	}
}

// structFuncs lists the function-typed fields of a struct.
func structFuncs(n *types.Named) []string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}
