package main

import "golang.org/x/tools/go/ssa"

func init() {
	const model = "Each function listed in the evidence is summarised from SSA for unconstrained inputs and state (branches as decision diagrams, loops by their inductive step) and compared with a reference model written from the protocol: same results, same stored fields, same calls with the same arguments in the same order, errors on the same conditions. "
	const limits = "Not covered: the bodies of external packages, and message wording. Arithmetic that is equal only outside the canonical form is reported as a difference."
	props["C04"] = prop{level: "other", explain: model + "Here: the flag maps both ways, decode, time and length helpers, base time updates, and the loop that feeds measurements to the decoder. " + limits}
	props["C05"] = prop{level: "other", explain: model + "Here: every decoder function, code word prediction, bit reading, per-point history, and the packet level sequence rules. " + limits}
	props["C06"] = prop{level: "other", explain: model + "Here: the data packet handler, both measurement loops, packet reading, decryption, decompression and the counter, which in addition has to be changed in single atomic steps. " + limits, run: checkCounter}
	props["C07"] = prop{level: "other", explain: model + "Here: every signal index cache function, its decoder, the cache update with its confirmation (which must observe the new cache), and the packet's choice of slot. " + limits}
	props["C08"] = prop{level: "other", explain: model + "Here: the buffer block handler with its sequence bookkeeping, and connection setup which restarts the sequence. " + limits}
	props["C11"] = prop{level: "other", explain: model + "Here: connection setup and establishment in both directions, validation of the first response, packet framing, and the status accessors. The validation mark of a new subscriber is read off the constructor's final state. " + limits, run: checkFreshState}
	props["C12"] = prop{level: "other", explain: model + "Here: dispose, disconnect, unsubscribe, cancel, the receiving goroutines and the worker type with its lock. " + limits, run: checkWorkers}
	props["C13"] = prop{level: "other", explain: model + "Here: the connect loop, retry delay, automatic reconnect, cancel and disconnect. " + limits}
	props["C14"] = prop{level: "other", explain: model + "Here: defaults, dial and listen, subscription settings, connection string, operational modes and metadata request. " + limits}
	props["C27"] = prop{level: "other", explain: model + "Here: loading, tree links, attributes and children by name, child access, paths, namespace prefixes, and the selection of nodes by path with wildcards, attribute conditions and child value conditions. " + limits}
	props["C25"] = prop{level: "other", specs: []string{"filter"}, explain: model + "Here: XML nodes and attributes, schema and record loading, value parsing per column type, table, column and row bookkeeping with case-insensitive names, metadata response handling, registration of measurement records, registry lookup and adjusted values. " + limits}
	props["C26"] = prop{level: "other", explain: model + "Here: the reader's callback, next and close. " + limits}
}

// checkFreshState: nothing is taken for validated before a response was seen.
func checkFreshState(c *Check) {
	c.rule("a new subscriber is not marked as validated")
	fn := c.r.fn("transport.NewDataSubscriber")
	ip := newInterp(c.r)
	res := ip.analyze(fn)
	n := 0
	for a, v := range res.st.mem {
		if a.op == "boolcell" && a.args[0].str == "transport.DataSubscriber.validated" {
			n++
			c.ok(v == ip.False, "NewDataSubscriber_validated", c.r.pos(fn.Pos()), "a new subscriber is marked as validated before any response was received")
		}
	}
	c.count("validation marks", n)
}

// checkWorkers: trying to start a worker never panics in its caller.
func checkWorkers(c *Check) {
	checkWaits(c)
	checkClaims(c)
	c.rule("a function that tries to start a worker recovers the panic of a start that lost the race")
	fn := c.r.fn(thT + "TryStart")
	guarded := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok || b != fn.Blocks[0] {
				continue
			}
			guarded = guarded || recovers(d.Call.StaticCallee())
		}
	}
	calls := false
	for _, g := range c.r.callees(fn) {
		calls = calls || g == c.r.fn(thT+"Start")
	}
	c.ok(guarded || !calls, thT+"TryStart", c.r.pos(fn.Pos()), "TryStart calls Start, which panics when another goroutine has just started the worker, without a deferred recover")
}

// claims are flags by which one of several goroutines wins.
var claims = []string{"thread.Thread.running", "transport.DataSubscriber.disconnecting"}

// checkClaims: such a flag is tested and set in one step.
func checkClaims(c *Check) {
	c.rule("the flag that admits one start of a worker, and the one that admits one disconnect, is set only by an operation that tests it in the same step and whose result is used")
	uses, _ := c.fieldUses()
	for _, f := range claims {
		n := 0
		for _, u := range uses[f] {
			ci, ok := u.in.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() == nil {
				continue
			}
			name := ci.Common().StaticCallee().Name()
			setting := func(i int) bool {
				k, ok := ci.Common().Args[i].(*ssa.Const)
				return !ok || k.Value != nil && k.Value.ExactString() == "true"
			}
			switch {
			case name == "Set", name == "Toggle", (name == "SetTo" || name == "Store" || name == "Swap") && setting(1):
				c.ok(false, f+" set", c.r.instrPos(u.in), "%s is set without testing it in the same step, so two goroutines can both take it", f)
			case (name == "SetToIf" || name == "CompareAndSwap") && setting(2):
				n++
				v, ok := u.in.(*ssa.Call)
				c.ok(ok && len(*v.Referrers()) > 0, f+" claim", c.r.instrPos(u.in), "the outcome of taking %s is ignored", f)
			}
		}
		c.count("claims", n)
		c.ok(n > 0, f, "", "%s is never taken", f)
	}
	c.atLeast("claims", 2)
}

// recovers reports whether a deferred function itself calls recover.
func recovers(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}
