package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// crash shows that functions cannot panic. Each function is interpreted on
// its own, with the functions it calls replaced by what was established for
// them (contract); a function that is only safe for some arguments is
// interpreted again inside each of its callers.
type crash struct {
	c         *Check
	r         *Repo
	trusted   map[*ssa.Function]bool // judged by other means
	inline    map[*ssa.Function]bool
	contracts map[*ssa.Function]*contract
	guards    map[*ssa.Function]bool
	flats     map[*ssa.Function]*unit
	fields    map[string]*fieldFacts
	sites     map[string][]*ssa.Function // functions storing to a field
	makers    map[string][]*ssa.Function // functions creating a struct
	// functions whose first result has the Go type that goes with the data
	// type of the column they are given
	typedResults map[*ssa.Function]bool
	demands      map[*ssa.Function]*demand
	given        map[giving]int
	mods         map[*ssa.Function]*modset
	assumed      []giving
	sizes        bool // allocations must be bounded by existing data
}

// contract is what callers may rely on, and what they have to provide.
type contract struct {
	need     map[int]bool  // parameters that must not be nil
	nonNil   map[int]bool  // results that are never nil
	nonNilOK map[int]bool  // results that are not nil when the error is
	atLeast0 map[int]bool  // integer results that are not negative
	atMost   map[int][]int // integer results bounded by the length of a parameter
}

// unit is one interpretation with its prover.
type unit struct {
	k    *crash
	fn   *ssa.Function
	ip   *Interp
	p    *Prover
	res  *Result
	rets map[*Term]*Effect
	need map[*Term]bool

	retList []*Term
	known   map[string][]*Term
	seen    int
	why     string
}

// termsOf lists the terms with the given operators met so far.
func (u *unit) termsOf(ops ...string) []*Term {
	if u.known == nil {
		u.known = map[string][]*Term{}
	}
	for ; u.seen < len(u.ip.terms); u.seen++ {
		if t := u.ip.byID[u.seen]; t != nil {
			u.known[t.op] = append(u.known[t.op], t)
		}
	}
	var out []*Term
	for _, op := range ops {
		out = append(out, u.known[op]...)
	}
	return out
}

type fieldFacts struct {
	busy                   bool
	stores                 []fieldStore
	init                   bool // every creation of the struct stores the field
	escapes                bool
	nonNil, laterNonNil    int // 0 unknown, 1 yes, 2 no
	lo, hi                 *big.Int
	ranged, lengths, elems bool
	minLen                 int64
	maybeNil, full         bool
	elemLen                int64
	elemLens               int64
	typeKnown              bool
	held                   types.Type
	heldOK                 bool
	flags                  map[string]int
	index                  map[string]int
}

type fieldStore struct {
	u *unit
	e *Effect
}

func newCrash(c *Check) *crash {
	k := &crash{c: c, r: c.r, trusted: map[*ssa.Function]bool{}, inline: map[*ssa.Function]bool{}, demands: map[*ssa.Function]*demand{}, contracts: map[*ssa.Function]*contract{},
		guards: map[*ssa.Function]bool{}, flats: map[*ssa.Function]*unit{}, mods: map[*ssa.Function]*modset{}, fields: map[string]*fieldFacts{}}
	k.sites, k.makers = map[string][]*ssa.Function{}, map[string][]*ssa.Function{}
	add := func(m map[string][]*ssa.Function, key string, f *ssa.Function) {
		for _, g := range m[key] {
			if g == f {
				return
			}
		}
		m[key] = append(m[key], f)
	}
	for _, f := range c.r.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					key := fieldKey(x.X.Type(), x.Field)
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.Store:
							if y.Addr == x {
								add(k.sites, key, f)
							} else {
								k.field(key).escapes = true
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
						case *ssa.IndexAddr:
							for _, w := range *y.Referrers() {
								if st, ok := w.(*ssa.Store); ok && st.Addr == y {
									add(k.sites, key+"[]", f)
								}
							}
						case ssa.CallInstruction:
							add(k.sites, key+"()", f)
							if !strings.Contains(types.TypeString(ptrElem(x.Type()), nil), "abool") {
								k.field(key).escapes = true
							}
						default:
							k.field(key).escapes = true
						}
					}
				case *ssa.Alloc:
					if _, ok := ptrElem(x.Type()).Underlying().(*types.Struct); ok {
						add(k.makers, typeStr(ptrElem(x.Type())), f)
					}
				}
			}
		}
	}
	return k
}

func (k *crash) field(key string) *fieldFacts {
	f := k.fields[key]
	if f == nil {
		f = &fieldFacts{flags: map[string]int{}, index: map[string]int{}}
		k.fields[key] = f
	}
	return f
}

// guarded recognises a function whose panics are turned into an error: the
// handler is installed first, calls recover itself and assigns an error.
func (k *crash) guarded(f *ssa.Function) bool {
	if g, ok := k.guards[f]; ok {
		return g
	}
	k.guards[f] = k.guard(f)
	return k.guards[f]
}

func (k *crash) guard(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	h := handler(f)
	if h == nil || !recovers(h) {
		return false
	}
	// whatever was recovered, the handler gets hold of it, does not panic
	// itself and, if there is an error to return, assigns one
	u := k.flat(h)
	assigned := u.ip.False
	var got *Term
	for _, e := range u.ip.effects {
		switch e.kind {
		case "recover":
			if e.pc != u.ip.True || len(e.ret) != 1 {
				return false
			}
			got = e.ret[0].leaf
		case "store":
			a := e.args[0]
			if a.atom < 0 && a.leaf.op == "param" && isErrorType(ptrElem(a.leaf.typ)) && u.nilLeaf(e.args[1], e.pc) == nil {
				assigned = u.ip.or(assigned, e.pc)
			}
		}
	}
	if got == nil {
		return false
	}
	if bad, _ := u.judge(); len(bad) > 0 {
		return false
	}
	return !returnsError(f) || u.ip.implies(u.ip.not(u.isNil(got)), assigned)
}

// handler is the function deferred before anything that could fail is called.
func handler(f *ssa.Function) *ssa.Function {
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Alloc, *ssa.MakeClosure, *ssa.DebugRef, *ssa.Store, *ssa.FieldAddr, *ssa.MakeInterface:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return nil
			}
		case *ssa.Defer:
			if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
				return mc.Fn.(*ssa.Function)
			}
			return x.Call.StaticCallee()
		default:
			return nil
		}
	}
	return nil
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func returnsError(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

// collect determines the functions to judge: everything that can run beneath
// the roots without a handler in between. Functions used as values count when
// they are handed to code outside the repository, or when something of their
// type is called without its target being evident.
func (k *crash) collect(roots []*ssa.Function) []*ssa.Function {
	var order []*ssa.Function
	var values []*ssa.Function
	var dynamic []*types.Signature
	var started []*ssa.Function
	state := map[*ssa.Function]int{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		f = unwrapBound(f)
		if f == nil || state[f] != 0 || f.Blocks == nil || k.outside(f) {
			return
		}
		state[f] = 1
		if k.trusted[f] {
			return
		}
		if k.guarded(f) {
			k.c.count("functions whose panics are turned into errors", 1)
			// goroutines started beneath are not covered by the handler
			for g := range k.r.reach(f) {
				started = append(started, goTargets(g)...)
			}
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				ci, isCall := in.(ssa.CallInstruction)
				outside := false
				if isCall {
					g := ci.Common().StaticCallee()
					if g == nil && !ci.Common().IsInvoke() {
						if _, ok := ci.Common().Value.(*ssa.Builtin); !ok {
							dynamic = append(dynamic, ci.Common().Signature())
						}
					}
					if g != nil {
						rec(g)
						outside = k.outside(g)
					}
					if ci.Common().IsInvoke() {
						outside = true
						for _, g := range k.implementations(ci.Common()) {
							rec(g)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					var g *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						g = v
					case *ssa.MakeClosure:
						g = v.Fn.(*ssa.Function)
					}
					if g == nil || isCall && ci.Common().Value == *op && ci.Common().StaticCallee() != nil {
						continue
					}
					if outside {
						rec(g)
					} else {
						values = append(values, unwrapBound(g))
					}
				}
			}
		}
		order = append(order, f)
	}
	for _, f := range roots {
		rec(f)
	}
	for n := -1; n != len(order); {
		n = len(order)
		sort.Slice(started, func(i, j int) bool { return started[i].String() < started[j].String() })
		for _, f := range started {
			rec(f)
		}
		for i := 0; i < len(values); i++ {
			for _, s := range dynamic {
				if sameParams(values[i].Signature, s) {
					rec(values[i])
					break
				}
			}
		}
	}
	return order
}

func goTargets(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				if c := g.Call.StaticCallee(); c != nil {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// outside: code that is not judged, including the generated parser.
func (k *crash) outside(f *ssa.Function) bool {
	return !k.r.isRepoFn(f) || k.r.relPkg(f) == "sttp/data/parser"
}

func sameParams(a, b *types.Signature) bool {
	return types.Identical(a.Params(), b.Params()) && types.Identical(a.Results(), b.Results())
}

// implementations are the repository methods an interface call can reach.
func (k *crash) implementations(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, p := range k.r.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			var t types.Type = nt
			if !types.Implements(t, it) {
				t = types.NewPointer(nt)
				if !types.Implements(t, it) {
					continue
				}
			}
			if f := k.r.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil {
				out = append(out, f)
			}
		}
	}
	return out
}

// entries are functions that start without a known caller.
func (k *crash) entries(order []*ssa.Function, roots []*ssa.Function) map[*ssa.Function]bool {
	called := map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, f := range order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					if g := ci.Common().StaticCallee(); g != nil {
						if _, isGo := in.(*ssa.Go); isGo {
							taken[unwrapBound(g)] = true
						} else {
							called[g] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					var g *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						g = v
					case *ssa.MakeClosure:
						g = v.Fn.(*ssa.Function)
					}
					if g == nil {
						continue
					}
					if isCall && ci.Common().Value == *op {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						// a closure that is only called or deferred here
						only := true
						for _, u := range *mc.Referrers() {
							uc, ok := u.(ssa.CallInstruction)
							_, isGo := u.(*ssa.Go)
							if _, dbg := u.(*ssa.DebugRef); dbg {
								continue
							}
							if !ok || uc.Common().Value != mc || isGo {
								only = false
							}
						}
						if only {
							called[g] = true
							continue
						}
					}
					taken[unwrapBound(g)] = true
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range roots {
		out[f] = true
	}
	for _, f := range order {
		if taken[f] || !called[f] {
			out[f] = true
		}
	}
	return out
}

// interpret runs one function with the given functions inlined.
func (k *crash) interpret(f *ssa.Function, inline map[*ssa.Function]bool, unroll bool) *unit {
	ip := newInterp(k.r)
	ip.nils = true
	ip.mods = k.mods
	ip.noUnroll = !unroll
	ip.opaque = func(g *ssa.Function) bool {
		return !inline[g] && !trivial(g) && (delegate(g) == nil || k.outside(g) || k.trusted[g] || k.typedResults[g]) && !(g.Parent() == f && recovers(g))
	}
	ip.onCall = func(_ ssa.CallInstruction, g *ssa.Function, args []*MT, s *State, pc *MT) ([]*MT, bool) {
		if d, ok := k.demands[g]; ok && ip.opaque(g) {
			var as []*MT
			for _, i := range d.args {
				as = append(as, args[i])
			}
			ip.run(d.fn, as, nil, s.clone(), pc)
		}
		return nil, false
	}
	u := &unit{k: k, fn: f, ip: ip, rets: map[*Term]*Effect{}, need: map[*Term]bool{}}
	u.res = ip.analyze(f)
	for _, e := range ip.effects {
		for _, r := range e.ret {
			if r != nil && r.atom < 0 {
				u.rets[r.leaf] = e
				u.retList = append(u.retList, r.leaf)
			}
		}
	}
	u.p = newProver(ip)
	u.p.until = time.Now().Add(10 * time.Second)
	u.p.more = u.facts
	u.p.rangeOf = u.rangeOf
	u.p.inferInvariants()
	return u
}

// delegate is the function that f hands its parameters to and returns the
// results of, doing nothing else.
func delegate(f *ssa.Function) *ssa.Function {
	if len(f.Blocks) != 1 {
		return nil
	}
	var call *ssa.Call
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Extract, *ssa.Return, *ssa.DebugRef:
		case *ssa.Call:
			if call != nil || x.Call.StaticCallee() == nil || x.Call.StaticCallee() == f {
				return nil
			}
			for _, a := range x.Call.Args {
				if _, ok := a.(*ssa.Parameter); !ok {
					return nil
				}
			}
			call = x
		default:
			return nil
		}
	}
	if call == nil {
		return nil
	}
	return call.Call.StaticCallee()
}

// trivial functions are always looked into.
func trivial(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.Return, *ssa.DebugRef, *ssa.Field:
		default:
			return false
		}
	}
	return true
}

func (k *crash) tryInterpret(f *ssa.Function, inline map[*ssa.Function]bool, unroll bool) (u *unit, err string) {
	defer func() {
		if r := recover(); r != nil {
			if ud, ok := r.(Undecided); ok {
				u, err = nil, ud.msg
				return
			}
			panic(r)
		}
	}()
	return k.interpret(f, inline, unroll), ""
}

// flat interprets a function without looking into the ones it calls.
func (k *crash) flat(f *ssa.Function) *unit {
	if u, ok := k.flats[f]; ok {
		return u
	}
	u, err := k.tryInterpret(f, nil, false)
	if u == nil {
		undecided("%s: %s", shortFn(f), err)
	}
	k.flats[f] = u
	return u
}

// ends: calls that end the program, or a goroutine, whatever is deferred.
func (k *crash) ends(roots []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, f := range roots {
		for g := range k.r.reach(f) {
			if seen[g] || k.outside(g) {
				continue
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() == nil {
						continue
					}
					k.c.count("calls looked at for ending the program", 1)
					if n := ci.Common().StaticCallee().String(); fatal[n] {
						k.c.violate(shortFn(g)+" calls "+n, k.r.pos(in.Pos()), "%s calls %s, which no handler can stop", shortFn(g), n)
					}
				}
			}
		}
	}
	k.c.obligs++
	k.c.discharged++
}

var fatal = map[string]bool{"os.Exit": true, "syscall.Exit": true, "runtime.Goexit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true}

// run judges all functions and reports what could not be shown.
func (k *crash) run(roots []*ssa.Function) {
	k.ends(roots)
	order := k.collect(roots)
	entry := k.entries(order, roots)
	for _, f := range order {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, time.Since(k.c.start).Round(time.Second/10), shortFn(f), entry[f])
		}
		type attempt struct {
			inline map[*ssa.Function]bool
			unroll bool
		}
		direct, small := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		for g := range k.inline {
			direct[g], small[g] = true, true
		}
		called := k.r.callees(f)
		for i := 0; i < len(called); i++ {
			g := called[i]
			if d := delegate(g); d != nil && len(called) < 1000 {
				called = append(called[:len(called):len(called)], d)
			}
			if !k.guarded(g) && !k.outside(g) && !k.trusted[g] {
				direct[g] = direct[g] || len(g.Blocks) < 40
				small[g] = small[g] || len(g.Blocks) <= 16
				if small[g] {
					k.helpers(g, small, 4)
				}
			}
		}
		var u *unit
		var bad []string
		var pos []token.Pos
		for _, a := range []attempt{{k.inline, false}, {small, false}, {k.inline, true}, {direct, true}} {
			if time.Since(k.c.start) > 4*time.Minute {
				bad, pos = []string{"undecided: too much to examine"}, []token.Pos{f.Pos()}
				break
			}
			v, err := k.tryInterpret(f, a.inline, a.unroll)
			var b []string
			var ps []token.Pos
			if v != nil {
				if b, ps, err = v.tryJudge(); err != "" {
					v = nil
				}
			}
			if v == nil {
				if u == nil {
					bad, pos = []string{"undecided: " + err}, []token.Pos{f.Pos()}
				}
				continue
			}
			if os.Getenv("VERIF_DEBUG") == shortFn(f) {
				fmt.Fprintln(os.Stderr, "  attempt", len(a.inline), a.unroll, b)
			}
			if u == nil || len(b) < len(bad) {
				u, bad, pos = v, b, ps
			}
			if len(bad) == 0 {
				break
			}
		}
		if u != nil {
			u.p.until = time.Time{}
			k.contracts[f] = u.contract()
		}
		k.c.count("functions", 1)
		if len(bad) == 0 {
			k.c.obligs++
			k.c.discharged++
			continue
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			for i, b := range bad {
				fmt.Fprintln(os.Stderr, "   ", k.r.pos(pos[i]), b)
			}
		}
		if d := demanding(f, pos); d != nil && !entry[f] {
			k.demands[f] = d
			k.c.count("functions that ask what the function they start with asks", 1)
			continue
		}
		if !entry[f] {
			k.inline[f] = true
			k.c.count("functions judged inside their callers", 1)
			continue
		}
		for i, b := range bad {
			k.c.obligs++
			k.c.violate(shortFn(f)+" "+k.r.pos(pos[i]), k.r.pos(pos[i]), "[%s] %s", shortFn(f), b)
		}
	}
}

// helpers adds the short functions that g is made of.
func (k *crash) helpers(g *ssa.Function, to map[*ssa.Function]bool, depth int) {
	for _, h := range k.r.callees(g) {
		if depth > 0 && len(h.Blocks) <= 6 && !k.guarded(h) && !k.outside(h) && !k.trusted[h] {
			to[h] = true
			k.helpers(h, to, depth-1)
		}
	}
}

// A demand is a function that another one starts with, given some of its
// parameters. What the first asks of its caller is all that the second asks.
type demand struct {
	fn   *ssa.Function
	args []int
}

// demanding: all that is not shown for f lies in the function it calls first.
func demanding(f *ssa.Function, bad []token.Pos) *demand {
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef, *ssa.Alloc:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return nil
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || g == f || g.Blocks == nil || g.Syntax() == nil {
				return nil
			}
			args := x.Call.Args
			for n := 0; delegate(g) != nil && n < 5; n++ {
				for _, in := range g.Blocks[0].Instrs {
					if y, ok := in.(*ssa.Call); ok {
						var as []ssa.Value
						for _, a := range y.Call.Args {
							for i, p := range g.Params {
								if a == ssa.Value(p) {
									as = append(as, args[i])
								}
							}
						}
						args = as
					}
				}
				if g = delegate(g); g.Blocks == nil || g.Syntax() == nil || len(args) != len(g.Params) {
					return nil
				}
			}
			for _, p := range bad {
				if p < g.Syntax().Pos() || p > g.Syntax().End() {
					return nil
				}
			}
			d := &demand{fn: g}
			for _, a := range args {
				at := -1
				for i, p := range f.Params {
					if a == p {
						at = i
					}
				}
				if at < 0 {
					return nil
				}
				d.args = append(d.args, at)
			}
			return d
		default:
			return nil
		}
	}
	return nil
}

// judge checks every operation that can panic.
func (u *unit) tryJudge() (bad []string, pos []token.Pos, err string) {
	defer func() {
		if r := recover(); r != nil {
			ud, ok := r.(Undecided)
			if !ok {
				panic(r)
			}
			err = ud.msg
		}
	}()
	bad, pos = u.judge()
	return bad, pos, ""
}

func (u *unit) judge() (bad []string, pos []token.Pos) {
	fail := func(e *Effect, what string) {
		p := e.instr.Pos()
		if !p.IsValid() {
			p = e.fn.Pos()
		}
		bad = append(bad, what)
		pos = append(pos, p)
	}
	for _, e := range u.ip.effects {
		if e.pc == u.ip.False {
			continue
		}
		switch e.kind {
		case "index", "slice", "minlen", "div", "shift", "purecall":
			u.k.c.count("bounds and arithmetic operations", 1)
			if e.kind == "div" && u.trustedDiv(e) {
				continue
			}
			if s := u.p.safe(e); s != "" {
				fail(e, s)
			}
		case "make":
			u.k.c.count("allocations", 1)
			if s := u.p.safe(e); s != "" {
				fail(e, s)
			} else if u.k.sizes && !u.bounded(e) {
				fail(e, "allocation of "+u.ip.showMT(e.args[0])+" elements is not bounded by the data at hand")
			}
		case "assert":
			u.k.c.count("type assertions", 1)
			if !u.assertOK(e) {
				fail(e, "type assertion on "+u.ip.showMT(e.args[0])+" can fail")
			}
		case "panic":
			u.k.c.count("explicit panics", 1)
			if !u.p.impossible(e.pc) {
				fail(e, "explicit panic can be reached")
				if os.Getenv("VERIF_DEBUG") == shortFn(u.fn) {
					fmt.Fprintln(os.Stderr, u.ip.showMT(e.pc))
				}
			}
		case "nil":
			u.k.c.count("dereferences", 1)
			if t := u.nilLeaf(e.args[0], e.pc); t != nil {
				fail(e, u.ip.show(t)+" can be nil")
			}
		case "call", "dyncall", "go":
			if e.callee != nil && u.k.inline[e.callee] {
				fail(e, shortFn(e.callee)+" is not shown to be safe")
			}
			if e.kind == "call" {
				if s := u.p.safe(e); s != "" {
					fail(e, s)
				}
			}
			if s := u.callOK(e); s != "" {
				fail(e, s)
			}
		}
	}
	return
}

func (p *Prover) impossible(pc *MT) bool {
	if pc == p.ip.False {
		return true
	}
	cubes, ok := p.ip.cubes(pc, 400)
	if !ok {
		return p.infeasible(p.ip.impliedMemo(pc))
	}
	for _, c := range cubes {
		if !p.infeasible(c) {
			return false
		}
	}
	return true
}

// callOK checks what a called function asks of its arguments.
func (u *unit) callOK(e *Effect) string {
	if e.kind == "dyncall" || e.callee == nil && !strings.HasPrefix(e.name, "invoke:") {
		return ""
	}
	args := e.args
	if e.kind == "go" {
		args = args[1:]
	}
	if ct := u.k.contracts[e.callee]; e.callee != nil && ct != nil {
		for i := range args {
			if ct.need[i] {
				if t := u.nilLeaf(args[i], e.pc); t != nil {
					return u.ip.show(t) + " passed to " + shortFn(e.callee) + " can be nil"
				}
			}
		}
		return ""
	}
	// what a library is given behind an interface is used
	for _, a := range args {
		for t, c := range u.ip.leafConds(a) {
			if t.op != "makeiface" || e.callee == nil || !u.k.outside(e.callee) || u.ip.and(c, e.pc) == u.ip.False {
				continue
			}
			if it, ok := t.typ.Underlying().(*types.Interface); !ok || it.NumMethods() == 0 {
				continue
			}
			if _, ok := t.args[0].typ.Underlying().(*types.Pointer); ok {
				u.k.c.count("pointers given to libraries as an interface", 1)
				if x := u.nilLeaf(u.ip.val(t.args[0]), u.ip.and(c, e.pc)); x != nil {
					return u.ip.show(x) + " passed to " + e.name + " can be nil"
				}
			}
		}
	}
	if e.callee == nil {
	} else if rc := e.callee.Signature.Recv(); rc != nil && len(args) > 0 {
		if _, ok := rc.Type().Underlying().(*types.Pointer); ok {
			if t := u.nilLeaf(args[0], e.pc); t != nil {
				return u.ip.show(t) + " can be nil in a call of " + e.name
			}
		}
	}
	switch e.name {
	case "crypto/cipher.NewCBCDecrypter", "crypto/cipher.NewCBCEncrypter":
		// panics unless the initialization vector has the block size
		bs := u.sizeOf(args[0])
		ok := false
		for _, b := range bs {
			x := u.ip.apply2(args[1], u.ip.val(b), func(iv, n *Term) *MT { return u.ip.compare(token.EQL, u.ip.lenOf(iv), n) })
			if u.ip.implies(e.pc, x) {
				ok = true
			}
		}
		if !ok {
			return "length of the initialization vector is not shown to equal the block size"
		}
	case "strings.Repeat", "regexp.MustCompile", "github.com/google/uuid.MustParse", "log.Fatal", "log.Panic", "log.Fatalf", "log.Panicf", "os.Exit", "runtime.Goexit":
		if e.name == "strings.Repeat" {
			ok := true
			u.ip.combos(e.pc, []*MT{args[1]}, func(ts []*Term, c *MT) {
				if !u.p.proveUnder(c, func(f []*ineq) []*ineq { return []*ineq{u.p.ge0(ts[0], f)} }) {
					ok = false
				}
			})
			if ok {
				return ""
			}
		}
		return "call of " + e.name + " can end the program"
	case "invoke:CryptBlocks":
		// panics unless the input is a multiple of the block size
		if !u.multiple(args[2], e.pc) {
			return "length of the enciphered data is not shown to be a multiple of the block size"
		}
	}
	return ""
}

// sizeOf finds results of BlockSize calls.
func (u *unit) sizeOf(block *MT) []*Term {
	var out []*Term
	for _, e := range u.ip.effects {
		if e.name == "invoke:BlockSize" && len(e.ret) == 1 && e.ret[0].atom < 0 {
			out = append(out, e.ret[0].leaf)
		}
	}
	out = append(out, u.ip.intTerm(16, tInt))
	return out
}

func (u *unit) multiple(data *MT, pc *MT) bool {
	for _, b := range u.sizeOf(nil) {
		x := u.ip.apply2(data, u.ip.val(b), func(d, n *Term) *MT {
			return u.ip.apply1(u.ip.bin(token.REM, u.ip.lenOf(d), n, tInt), func(r *Term) *MT {
				return u.ip.compare(token.EQL, r, u.ip.intTerm(0, tInt))
			})
		})
		if u.ip.implies(pc, x) {
			return true
		}
	}
	return false
}

// trustedDiv: block sizes are positive.
func (u *unit) trustedDiv(e *Effect) bool {
	for t := range u.ip.leafConds(e.args[0]) {
		ce := u.rets[t]
		if ce == nil || ce.name != "invoke:BlockSize" {
			return false
		}
	}
	return true
}

// bounded: the number of elements is constant, or at most a small multiple of
// the length of something that exists, or about to be read in full.
func (u *unit) bounded(e *Effect) bool {
	ok := true
	u.ip.combos(e.pc, e.args[:1], func(ts []*Term, c *MT) {
		n := ts[0]
		if n.isConst() {
			return
		}
		if u.readInFull(e) {
			return
		}
		lens := map[*Term]bool{}
		look := func(t *Term) {
			for _, s := range subterms(t) {
				if s.op == "len" {
					lens[s] = true
				}
			}
		}
		look(n)
		// a multiple of everything together that n is made of
		if len(lens) > 1 && u.p.proveUnder(c, func(f []*ineq) []*ineq {
			g := newIneq()
			for l := range lens {
				g.add(u.p.linear(l, f), big.NewInt(8))
			}
			g.c.Add(g.c, big.NewInt(1<<16))
			return []*ineq{sub(g, u.p.linear(n, f))}
		}) {
			return
		}
		for _, a := range u.ip.support(c) {
			look(u.ip.atoms[a])
		}
		good := false
		for l := range lens {
			l := l
			if u.p.proveUnder(c, func(f []*ineq) []*ineq {
				g := newIneq()
				g.add(u.p.linear(l, f), big.NewInt(8))
				g.c.Add(g.c, big.NewInt(1<<16))
				return []*ineq{sub(g, u.p.linear(n, f))}
			}) {
				good = true
				break
			}
		}
		if !good {
			ok = false
		}
	})
	return ok
}

// readInFull: the allocated buffer is the one the next packet is read into.
func (u *unit) readInFull(e *Effect) bool {
	ms, ok := e.instr.(*ssa.MakeSlice)
	if !ok {
		return false
	}
	for _, r := range *ms.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok {
			continue
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		key := fieldKey(fa.X.Type(), fa.Field)
		for _, f := range u.ip.effects {
			if f.name != "io.ReadFull" || f.seq < e.seq {
				continue
			}
			for t := range u.ip.leafConds(f.args[1]) {
				for _, s := range subterms(t) {
					if s.op == "faddr" && s.str == key || s.op == "makeslice" && s.args[0] == u.ip.asTerm(u.ip.toInt(e.args[0])) {
						return true
					}
				}
			}
		}
	}
	return false
}

// nilLeaf returns a possible value of v under pc that may be nil.
func (u *unit) nilLeaf(v *MT, pc *MT) *Term {
	lc := u.ip.leafConds(v)
	var ks []*Term
	for t := range lc {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, t := range ks {
		c := u.ip.and(pc, lc[t])
		if c == u.ip.False {
			continue
		}
		if !u.nonNil(t, c, map[*Term]bool{}) && !u.p.impossible(c) {
			return t
		}
	}
	return nil
}

func (u *unit) isNil(t *Term) *MT {
	return u.ip.eqTerms(t, u.ip.mk("nil", "", nil))
}

func (u *unit) nonNil(t *Term, pc *MT, seen map[*Term]bool) bool {
	ip, k := u.ip, u.k
	switch t.op {
	case "alloc", "faddr", "eaddr", "global", "closure", "func", "makeiface", "makemap", "makechan", "makeslice", "arrptr", "next", "assert", "boolcell", "sbcell":
		return true
	case "nil":
		return false
	}
	if t.typ != nil && t.op != "nil" {
		switch t.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan, *types.Slice:
			if ip.and(pc, u.isNil(t)) == ip.False {
				return true
			}
		default:
			return true
		}
	}
	switch t.op {
	case "param":
		u.need[t] = true
		return true
	case "pure":
		return true
	case "phi":
		if seen[t] {
			return true
		}
		seen[t] = true
		for _, l := range ip.loops {
			for _, ph := range l.phis {
				if ph.term != t {
					continue
				}
				ok := true
				check := func(v, c *MT) {
					for x, xc := range ip.leafConds(v) {
						if cc := ip.and(c, xc); cc != ip.False && !u.nonNil(x, cc, seen) {
							ok = false
						}
					}
				}
				check(ph.init, l.pc)
				for i := range ph.next {
					check(ph.next[i], ph.npc[i])
				}
				return ok
			}
		}
		return false
	case "ret":
		e := u.rets[t]
		if e == nil {
			return false
		}
		i := -1
		for j, r := range e.ret {
			if r.atom < 0 && r.leaf == t {
				i = j
			}
		}
		errNil := func() bool {
			last := e.ret[len(e.ret)-1]
			if last.atom >= 0 || last.leaf.typ == nil || !isErrorType(last.leaf.typ) {
				return false
			}
			return ip.implies(pc, u.isNil(last.leaf))
		}
		if e.callee != nil && !k.outside(e.callee) {
			ct := k.contracts[e.callee]
			if ct != nil {
				return ct.nonNil[i] || ct.nonNilOK[i] && errNil()
			}
			switch k.gives(e.callee, i) {
			case 1:
				return true
			case 2:
				return errNil()
			}
			return false
		}
		last := e.ret[len(e.ret)-1].leaf
		switch {
		case e.kind == "dyncall" || e.name == "(*sync.Pool).Get":
			return false
		case e.name == "(*sync.Map).Load" && len(e.ret) == 2:
			return ip.implies(pc, e.ret[1])
		case len(e.ret) > 1 && last != nil && last.typ != nil && isErrorType(last.typ) && i < len(e.ret)-1:
			return errNil()
		}
		return true
	case "lookup":
		h := ip.atomNode(ip.mk("has", t.str, types.Typ[types.Bool], t.args...))
		return ip.implies(pc, h)
	case "ld":
		a := t.args[0]
		switch a.op {
		case "faddr":
			if !ownType(a.args[0].typ) || k.fieldNonNil(a.str) {
				return true
			}
			// a flag that is only set after the field was assigned
			for _, l := range ip.impliedMemo(pc) {
				if l.val && l.atom.op == "ld" && l.atom.args[0].op == "boolcell" {
					if b := l.atom.args[0].args[0]; b.op == "faddr" && b.args[0] == a.args[0] && k.flagImplies(b.str, a.str) {
						return true
					}
				}
			}
			return false
		case "eaddr":
			if base := a.args[0]; base.op == "faddr" {
				return k.arrayNonNil(base.str)
			}
			return true // elements of a list
		case "param":
			u.need[a] = true
			return true // captured variables
		case "global":
			return true
		}
	}
	return false
}

// ownType: a struct declared in the repository (the generated parser aside).
func ownType(t types.Type) bool {
	if t == nil {
		return true
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return true
	}
	rel := relPath(n.Obj().Pkg())
	return rel != "" && rel != "sttp/data/parser"
}

// okCond is the condition of returning without an error.
func (u *unit) okCond() *MT {
	if !returnsError(u.fn) {
		return u.res.pc
	}
	okc := u.ip.False
	for t, c := range u.ip.leafConds(u.res.rets[len(u.res.rets)-1]) {
		if t.op == "nil" {
			okc = u.ip.or(okc, c)
		} else if t.op != "makeiface" && !(t.op == "pure" && nonNilPure(t.str)) {
			okc = u.ip.or(okc, u.ip.and(c, u.isNil(t)))
		}
	}
	return u.ip.and(okc, u.res.pc)
}

// contract summarises an interpretation for callers.
func (u *unit) contract() *contract {
	ct := &contract{need: map[int]bool{}, nonNil: map[int]bool{}, nonNilOK: map[int]bool{}, atLeast0: map[int]bool{}, atMost: map[int][]int{}}
	params := map[*Term]int{}
	for i, p := range u.fn.Params {
		params[u.ip.mk("param", p.Name(), p.Type())] = i
	}
	for t := range u.need {
		if i, ok := params[t]; ok {
			ct.need[i] = true
		}
	}
	rs := u.fn.Signature.Results()
	if len(u.res.rets) != rs.Len() {
		return ct
	}
	okc := u.okCond()
	saved := u.need
	for i := 0; i < rs.Len(); i++ {
		v := u.res.rets[i]
		switch tt := rs.At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
			check := func(pc *MT) bool {
				u.need = map[*Term]bool{}
				ok := u.nilLeaf(v, pc) == nil
				for t := range u.need {
					if p, isP := params[t]; !isP || !saved[t] && !ct.need[p] {
						ok = false
					}
				}
				return ok
			}
			ct.nonNil[i] = check(u.res.pc)
			ct.nonNilOK[i] = ct.nonNil[i] || check(okc)
		case *types.Basic:
			if !isInt(tt) {
				break
			}
			all := func(goal func(t *Term, f []*ineq) *ineq) bool {
				ok := true
				u.ip.combos(u.res.pc, []*MT{v}, func(ts []*Term, c *MT) {
					if ok && !u.p.proveUnder(c, func(f []*ineq) []*ineq { return []*ineq{goal(ts[0], f)} }) {
						ok = false
					}
				})
				return ok
			}
			ct.atLeast0[i] = all(func(t *Term, f []*ineq) *ineq { return u.p.ge0(t, f) })
			for j, p := range u.fn.Params {
				if _, ok := p.Type().Underlying().(*types.Slice); ok || isString(p.Type()) {
					l := u.ip.lenOf(u.ip.mk("param", p.Name(), p.Type()))
					if all(func(t *Term, f []*ineq) *ineq { return u.p.le(t, l, 0, f) }) {
						ct.atMost[i] = append(ct.atMost[i], j)
					}
				}
			}
		}
	}
	u.need = saved
	return ct
}

// gives tells whether a result is never nil (1), or not nil unless an error
// is returned (2), looking at each function on its own. Functions that call
// each other are first assumed to keep this, and then checked.
func (k *crash) gives(f *ssa.Function, i int) int {
	if f.Blocks == nil {
		return 0
	}
	if k.given == nil {
		k.given = map[giving]int{}
	}
	key := giving{f, i}
	if g, ok := k.given[key]; ok {
		return g
	}
	outer := k.assumed == nil
	if outer {
		k.assumed = []giving{}
	}
	k.given[key] = 1
	if returnsError(f) {
		k.given[key] = 2
	}
	k.assumed = append(k.assumed, key)
	u := k.flat(f)
	k.given[key] = u.gives(i, k.given[key])
	if os.Getenv("VERIF_DEBUG") != "" && k.given[key] == 0 {
		fmt.Fprintln(os.Stderr, "    result", i, "of", shortFn(f), "can be nil:", u.why)
	}
	if outer {
		// what was concluded from assumptions has to hold with the outcome
		for again := true; again; {
			again = false
			for _, a := range k.assumed {
				was := k.given[a]
				if was == 0 {
					continue
				}
				if now := k.flat(a.fn).gives(a.i, was); now != was {
					k.given[a] = now
					again = true
				}
			}
		}
		k.assumed = nil
	}
	return k.given[key]
}

// dereferenced: under the condition, a value was used as a pointer.
func (u *unit) dereferenced(t *Term, c *MT) bool {
	for _, e := range u.ip.effects {
		if e.kind == "nil" && e.args[0].atom < 0 && e.args[0].leaf == t && u.ip.implies(c, e.pc) {
			return true
		}
		if e.kind == "call" && e.callee != nil && !u.k.outside(e.callee) && e.callee.Blocks != nil && u.ip.implies(c, e.pc) {
			for i, a := range e.args {
				if a.atom < 0 && a.leaf == t && i < len(e.callee.Params) && e.callee != u.fn {
					p := e.callee.Params[i]
					v := u.k.flat(e.callee)
					if v.dereferenced(v.ip.mk("param", p.Name(), p.Type()), v.res.pc) {
						return true
					}
				}
			}
		}
	}
	return c == u.ip.False
}

type giving struct {
	fn *ssa.Function
	i  int
}

// gives checks a claim about result i and returns what holds of it.
func (u *unit) gives(i, claim int) int {
	if i >= len(u.res.rets) {
		return 0
	}
	saved := u.need
	defer func() { u.need = saved }()
	u.need = map[*Term]bool{}
	pc := u.res.pc
	if claim == 2 {
		pc = u.okCond()
	}
	if t := u.nilLeaf(u.res.rets[i], pc); t != nil {
		u.why = u.ip.show(t)
		return 0
	}
	for t := range u.need {
		for _, p := range u.fn.Params {
			// a parameter that is handed back may be nil
			if t == u.ip.mk("param", p.Name(), p.Type()) {
				for x, c := range u.ip.leafConds(u.res.rets[i]) {
					if x == t && !u.dereferenced(t, u.ip.and(c, pc)) {
						u.why = "it is a parameter"
						return 0
					}
				}
			}
		}
	}
	return claim
}

func evalLits(m *MT, lits []Lit, w *World) *Term {
	for m.atom >= 0 {
		a := w.atoms[m.atom]
		found := false
		for _, l := range lits {
			if l.atom == a {
				found = true
				if l.val {
					m = m.hi
				} else {
					m = m.lo
				}
				break
			}
		}
		if !found {
			return nil
		}
	}
	return m.leaf
}

// facts adds what is known about results of calls and about fields.
func (u *unit) facts(lits []Lit, facts []*ineq) []*ineq {
	var out []*ineq
	lin := func(t *Term) *ineq {
		if l := u.p.linear(t, nil); !opaqueLin(l) {
			return l
		}
		return u.p.linear(t, facts)
	}
	ge := func(t *Term) { out = append(out, lin(t).clone()) }
	lek := func(a, b *Term, k int64) {
		f := sub(lin(b), lin(a))
		f.c.Sub(f.c, big.NewInt(k))
		out = append(out, f)
	}
	le := func(a, b *Term) { lek(a, b, 0) }
	num := func(n int64) *Term { return u.ip.intTerm(n, tInt) }
	isTrue := func(m *MT) bool { return evalLits(m, lits, u.ip.World) == u.ip.True.leaf }
	// what is known of a value holds where the value was obtained
	about := func(t *Term, add func()) {
		n := len(out)
		add()
		for _, f := range out[n:] {
			f.on = []*Term{t}
		}
	}
	for _, t := range u.retList {
		n := len(out)
		e := u.rets[t]
		if t.typ == nil || !isInt(t.typ) {
			continue
		}
		switch {
		case e.name == "io.ReadFull" || e.name == "invoke:Read" || strings.HasSuffix(e.name, ".Reader).Read") || e.name == "invoke:Write":
			ge(t)
			buf := evalLits(e.args[len(e.args)-1], lits, u.ip.World)
			if buf == nil {
				break
			}
			le(t, u.ip.lenOf(buf))
			if e.name == "io.ReadFull" && e.ret[1].atom < 0 && isTrue(u.isNil(e.ret[1].leaf)) {
				le(u.ip.lenOf(buf), t)
			}
		case e.kind == "copy":
			ge(t)
			for _, a := range e.args {
				if b := evalLits(a, lits, u.ip.World); b != nil {
					le(t, u.ip.lenOf(b))
				}
			}
		case e.name == "invoke:BlockSize":
			le(num(1), t)
		case e.callee != nil && u.k.contracts[e.callee] != nil:
			ct := u.k.contracts[e.callee]
			for i, r := range e.ret {
				if r.atom >= 0 || r.leaf != t {
					continue
				}
				if ct.atLeast0[i] {
					ge(t)
				}
				for _, j := range ct.atMost[i] {
					if a := evalLits(e.args[j], lits, u.ip.World); a != nil {
						le(t, u.ip.lenOf(a))
					}
				}
			}
		}
		for _, f := range out[n:] {
			f.on = []*Term{t}
		}
	}
	if l := u.sorting(); l != nil {
		for _, p := range u.fn.Params {
			t := u.ip.mk("param", p.Name(), p.Type())
			ge(t)
			lek(t, u.ip.lenOf(l), 1)
		}
	}
	// positions noted in the elements of a list
	for _, t := range u.termsOf("ld") {
		if i := u.ownIndex(t); i != nil {
			about(t, func() {
				le(t, i)
				le(i, t)
			})
		}
	}
	// lengths of fields
	for _, t := range u.termsOf("len", "cap") {
		a := t.args[0]
		if t.op == "cap" {
			about(t, func() { le(u.ip.lenOf(a), t) })
		}
		if a.op != "ld" {
			continue
		}
		ad := a.args[0]
		if ad.op == "faddr" {
			n, maybe, full := u.k.fieldLen(ad.str)
			if n > 0 && (!maybe || isTrue(u.ip.not(u.isNil(a)))) {
				le(num(n), t)
			}
			if full && t.op == "cap" {
				le(t, u.ip.lenOf(a))
			}
		}
		if ad.op == "eaddr" && ad.args[0].op == "ld" && ad.args[0].args[0].op == "faddr" {
			if n := u.k.elemLen(ad.args[0].args[0].str); n > 0 && isTrue(u.ip.not(u.isNil(ad.args[0]))) {
				le(num(n), t)
			}
		}
	}
	// positions kept in a map lie within a list
	for _, t := range u.termsOf("lookup") {
		m := t.args[0]
		if m.op != "ld" || m.args[0].op != "faddr" || t.typ == nil || !isInt(t.typ) {
			continue
		}
		h := u.ip.atomNode(u.ip.mk("has", t.str, types.Typ[types.Bool], t.args...))
		if !isTrue(h) {
			continue
		}
		for _, l := range u.termsOf("len") {
			s := l.args[0]
			if s.op == "ld" && s.args[0].op == "faddr" && s.args[0].args[0] == m.args[0].args[0] && u.k.indexes(m.args[0].str, s.args[0].str) {
				about(t, func() { lek(t, l, 1) })
			}
		}
	}
	// positions and parts of texts
	for _, t := range u.termsOf("pure") {
		n := len(out)
		switch {
		case textPosition[t.str]:
			le(num(-1), t)
			if sep := t.args[1]; t.str == "strings.IndexRune" || t.str == "strings.IndexByte" || sep.isConst() && u.ip.lenOf(sep) != num(0) {
				lek(t, u.ip.lenOf(t.args[0]), 1)
			} else {
				le(t, u.ip.lenOf(t.args[0]))
			}
		case t.str == "strings.Split" || t.str == "strings.SplitN" || t.str == "strings.SplitAfter" || t.str == "strings.SplitAfterN":
			limit := int64(-1)
			if len(t.args) > 2 {
				var known bool
				if limit, known = t.args[2].intVal(); !known {
					break
				}
			}
			if sep := t.args[1]; limit != 0 && sep.isConst() && u.ip.lenOf(sep) != num(0) {
				le(num(1), u.ip.lenOf(t))
				if limit > 0 {
					le(u.ip.lenOf(t), num(limit))
				}
			}
		}
		for _, f := range out[n:] {
			f.on = []*Term{t}
		}
	}
	for _, l := range lits {
		if l.val && l.atom.op == "pure" && (l.atom.str == "strings.HasPrefix" || l.atom.str == "strings.HasSuffix") {
			le(u.ip.lenOf(l.atom.args[1]), u.ip.lenOf(l.atom.args[0]))
		}
		// a field that is always assigned is not nil
		if l.val && l.atom.op == "isnil" {
			if t := l.atom.args[0]; t.op == "ld" && t.args[0].op == "faddr" && u.k.fieldNonNil(t.args[0].str) {
				f := newIneq()
				f.c.SetInt64(-1)
				out = append(out, f)
			}
		}
	}
	return out
}

var textPosition = map[string]bool{"strings.Index": true, "strings.IndexRune": true, "strings.IndexByte": true, "strings.IndexAny": true, "strings.LastIndex": true, "strings.LastIndexByte": true, "bytes.IndexByte": true}

func (u *unit) rangeOf(t *Term) (lo, hi *big.Int) {
	if (t.op == "len" || t.op == "cap") && t.args[0].typ != nil {
		return big.NewInt(0), big.NewInt(1 << 31)
	}
	if t.op == "pure" && textPosition[t.str] {
		return big.NewInt(-1), big.NewInt(1 << 31)
	}
	if t.op == "ld" && t.args[0].op == "faddr" && t.typ != nil && isInt(t.typ) {
		return u.k.fieldRange(t.args[0].str)
	}
	return nil, nil
}

// typedStorage are fields whose contents have the Go type that goes with the
// data type recorded next to them. That the library stores nothing else is
// part of the comparisons with the reference models of rows and expressions;
// a user has to keep to it in SetValue.
var typedStorage = map[string]bool{"data.DataRow.values": true, "data.ValueExpression.value": true}

// heldBy names the field a value was read from, directly or as an element.
func heldBy(t *Term) string {
	if t.op != "ld" {
		return ""
	}
	a := t.args[0]
	if a.op == "eaddr" {
		if a = a.args[0]; a.op == "ld" {
			a = a.args[0]
		}
	}
	if a.op == "faddr" {
		return a.str
	}
	return ""
}

// assertOK decides a type assertion.
func (u *unit) assertOK(e *Effect) bool {
	ip, k := u.ip, u.k
	bad := ip.and(e.pc, ip.not(e.args[1]))
	if bad == ip.False || u.p.impossible(bad) {
		return true
	}
	ta := e.instr.(*ssa.TypeAssert)
	for t, c := range ip.leafConds(e.args[0]) {
		pc := ip.and(bad, c)
		if pc == ip.False {
			continue
		}
		// values that are kept along with their type
		if key := heldBy(t); typedStorage[key] && u.tested(t, ip.and(e.pc, c)) && u.plain(key, ta, ip.and(e.pc, c)) {
			u.k.c.count("assertions on values kept with their type", 1)
			continue
		}
		if ce := u.rets[t]; ce != nil && ce.callee != nil && k.typedResults[ce.callee] && u.tested(t, ip.and(e.pc, c)) {
			k.c.count("assertions on computed values", 1)
			continue
		}
		if u.tagged(e, t, ip.and(e.pc, c)) {
			continue
		}
		// values kept in a pool or registry
		if ce := u.rets[t]; ce != nil && (ce.name == "(*sync.Pool).Get" || ce.name == "(*sync.Map).Load" || ce.name == "(*sync.Map).LoadOrStore") {
			if a := ce.args[0]; a.atom < 0 {
				if b := a.leaf; b.op == "faddr" || b.op == "ld" && b.args[0].op == "faddr" {
					key := b.str
					if b.op == "ld" {
						key = b.args[0].str
					}
					if u.k.holds(key, ta.AssertedType) && (u.nonNil(t, ip.and(e.pc, c), map[*Term]bool{}) || u.p.impossible(ip.and(pc, u.isNil(t)))) {
						continue
					}
				}
			}
		}
		return false
	}
	return true
}

// plain: a row keeps an expression instead of a value for a computed column,
// so that values may be read where the column was found not to be computed.
func (u *unit) plain(key string, ta *ssa.TypeAssert, pc *MT) bool {
	p, ok := ta.AssertedType.(*types.Pointer)
	if key != "data.DataRow.values" || ok && strings.HasSuffix(p.Elem().String(), "data.ExpressionTree") {
		return true
	}
	for _, a := range u.ip.atoms {
		if a.op == "ld" && a.args[0].op == "faddr" && a.args[0].str == "data.DataColumn.computed" && u.ip.implies(pc, u.ip.not(u.ip.atomNode(a))) {
			return true
		}
	}
	return false
}

// tested: the value was found not to be nil.
func (u *unit) tested(t *Term, pc *MT) bool {
	return u.p.impossible(u.ip.and(pc, u.isNil(t)))
}

// tagged: a method tells the implementations of the interface apart, and under
// pc it returned what only the asserted type returns. The library's own types
// are taken to be all there are.
func (u *unit) tagged(e *Effect, t *Term, pc *MT) bool {
	ta := e.instr.(*ssa.TypeAssert)
	it, ok := ta.X.Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return false
	}
	for _, ce := range u.ip.effects {
		m, ok := strings.CutPrefix(ce.name, "invoke:")
		if !ok || len(ce.args) != 1 || len(ce.ret) != 1 || ce.args[0].atom >= 0 || ce.args[0].leaf != t || ce.ret[0].atom >= 0 {
			continue
		}
		good, n := true, 0
		for _, nt := range u.k.r.types() {
			for _, x := range []types.Type{nt, types.NewPointer(nt)} {
				if _, isI := nt.Underlying().(*types.Interface); isI || !types.Implements(x, it) {
					continue
				}
				if _, isPtr := x.(*types.Pointer); isPtr && types.Implements(nt, it) {
					continue
				}
				n++
				if types.Identical(x, ta.AssertedType) {
					continue
				}
				f := u.k.r.prog.LookupMethod(x, nt.Obj().Pkg(), m)
				if f == nil || f.Blocks == nil {
					good = false
					continue
				}
				v := u.k.flat(f).res.rets[0]
				if v.atom >= 0 || !v.leaf.isConst() {
					good = false
					continue
				}
				same := u.ip.compare(token.EQL, ce.ret[0].leaf, u.ip.constTerm(v.leaf.cv, ce.ret[0].leaf.typ))
				if w := u.ip.and(pc, same); w != u.ip.False && !u.p.impossible(w) {
					good = false
				}
			}
		}
		if good && n > 0 {
			u.k.c.count("assertions decided by a type tag", 1)
			return true
		}
	}
	return false
}

// sorting: for a function that sort.Slice and the like compare elements with,
// the list that is sorted, as the function sees it.
func (u *unit) sorting() *Term {
	f := u.fn
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) != 2 {
				continue
			}
			switch c.Call.StaticCallee().String() {
			case "sort.Slice", "sort.SliceStable":
			default:
				continue
			}
			mc, ok := c.Call.Args[1].(*ssa.MakeClosure)
			mi, ok2 := c.Call.Args[0].(*ssa.MakeInterface)
			if !ok || !ok2 || mc.Fn != f {
				continue
			}
			ld, ok := mi.X.(*ssa.UnOp)
			for i, bd := range mc.Bindings {
				fv := f.FreeVars[i]
				switch {
				case ok && ld.Op == token.MUL && ld.X == bd && !assigns(fv, 0):
					return u.ip.mk("ld", "", mi.X.Type(), u.ip.mk("param", fv.Name(), fv.Type()))
				case mi.X == bd:
					return u.ip.mk("param", fv.Name(), fv.Type())
				}
			}
		}
	}
	return nil
}

// types lists the types the repository declares.
func (r *Repo) types() []*types.Named {
	var out []*types.Named
	for _, p := range r.pkgs {
		for _, n := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					out = append(out, nt)
				}
			}
		}
	}
	return out
}
