package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C21"] = prop{level: "other", explain: "Every method of the set type is summarised by abstract interpretation (loops as one generic iteration over one generic element). " +
		"The summary is compared with the mathematical definition for every element class (in receiver only, in both, in operand only) and every relation of the sizes, including empty operands and operands with repeated items; " +
		"the methods only compare sizes and test membership, so class sizes 0, 1, 2, 3, 7 and those around each integer constant in the code represent all operands. Not covered: concurrent modification of a set.", run: checkHashSet}
}

// setWorld is one abstract situation: numbers of distinct elements only in the
// receiver, in both, only in the operand, and surplus repeats in an operand slice.
type setWorld struct{ a, b, c, dup int }

type setClass struct {
	inHS, inOther bool
	pred          bool
	times         int // occurrences in an operand slice
}

func (w setWorld) String() string {
	return fmt.Sprintf("receiver-only=%d common=%d operand-only=%d repeats=%d", w.a, w.b, w.c, w.dup)
}

type setSummary struct {
	c    *Check
	ip   *Interp
	fn   *ssa.Function
	name string
	hs   *Term
	op   *Term // operand: slice, map or nil
	res  *Result
	cont map[*Loop]*Term // loop -> continuation atom
	elem map[*Loop]*Term // loop -> generic element
	over map[*Loop]*Term // loop -> iterated container
}

func checkHashSet(c *Check) {
	c.rule("summary of each set operation equals its set-algebra definition on every membership class and size relation")
	c.rule("no operation changes a set other than its receiver or an object it created")
	var methods []*ssa.Function
	for _, f := range c.r.funcs {
		if c.r.relPkg(f) == "sttp/hashset" && f.Parent() == nil && f.Synthetic == "" && f.Origin() == nil {
			methods = append(methods, f)
		}
	}
	specs := map[string]bool{}
	for _, f := range methods {
		name := f.Name()
		if f.Signature.Recv() == nil && name != "NewHashSet" {
			continue
		}
		c.count("methods", 1)
		specs[name] = true
		checkSetMethod(c, f)
	}
	c.atLeast("methods", 25)
	for _, n := range strings.Fields("NewHashSet Add Remove RemoveWhere IsEmpty Clear Contains Keys ExceptWith ExceptWithSet SymmetricExceptWith SymmetricExceptWithSet IntersectWith IntersectWithSet UnionWith UnionWithSet SetEquals SetEqualsSet Overlaps OverlapsSet IsSubsetOf IsSubsetOfSet IsProperSubsetOf IsProperSubsetOfSet IsSupersetOf IsSupersetOfSet IsProperSupersetOf IsProperSupersetOfSet") {
		if !specs[n] {
			undecided("set operation %s not found", n)
		}
	}
}

func checkSetMethod(c *Check, f *ssa.Function) {
	name := f.Name()
	ip := newInterp(c.r)
	ip.obl = false
	// Keys and NewHashSet are used through their contracts, verified separately
	ip.opaque = func(g *ssa.Function) bool {
		n := g.Name()
		return g != f && (n == "Keys" || n == "NewHashSet") && c.r.relPkg(g) == "sttp/hashset"
	}
	s := &setSummary{c: c, ip: ip, fn: f, name: name, cont: map[*Loop]*Term{}, elem: map[*Loop]*Term{}, over: map[*Loop]*Term{}}
	args := ip.paramTerms(f)
	s.res = ip.run(f, args, nil, ip.newState(), ip.True)
	pos := c.r.pos(f.Pos())
	if name == "NewHashSet" {
		s.op = args[0].leaf
		// the result is a map made here; it is the receiver of the model
		if len(s.res.rets) != 1 || s.res.rets[0].atom >= 0 || s.res.rets[0].leaf.op != "makemap" {
			c.ok(false, name, pos, "%s does not return a set it created", name)
			return
		}
		s.hs = s.res.rets[0].leaf
	} else {
		s.hs = args[0].leaf
		if len(args) > 1 {
			s.op = args[1].leaf
		}
	}
	s.loops()
	for l, t := range s.over {
		debugf("%s loop %d over %s elem %v cont %v", name, l.id, ip.show(t), s.elem[l] != nil, ip.show(s.cont[l]))
	}
	if name == "Keys" {
		s.keys(pos)
		return
	}
	if name == "RemoveWhere" {
		s.removeCount(pos)
	}
	// writes only to the receiver
	for _, e := range ip.effects {
		switch e.kind {
		case "mapupdate", "delete":
			for t := range ip.leafConds(e.args[0]) {
				c.ok(t == s.hs || t.op == "makemap", name, c.r.instrPos(e.instr), "%s changes %s, which is not its receiver", name, ip.show(t))
			}
		case "store":
			r := rootOf(e.args[0].leaf)
			c.ok(e.args[0].atom < 0 && (r.op == "alloc" || r.op == "makeslice"), name, c.r.instrPos(e.instr), "%s stores into memory it does not own", name)
		}
	}
	sizes := setSizes(f, c)
	for _, a := range sizes {
		for _, b := range sizes {
			for _, cc := range sizes {
				for _, d := range sizes {
					w := setWorld{a, b, cc, d}
					if d > 0 && b+cc == 0 {
						continue
					}
					if name == "NewHashSet" && a+b > 0 {
						continue
					}
					s.inWorld(w, pos)
					c.count("situations", 1)
				}
			}
		}
	}
}

// setSizes are the class sizes to distinguish: small numbers and those around
// every integer constant the package mentions.
func setSizes(f *ssa.Function, c *Check) []int {
	set := map[int]bool{0: true, 1: true, 2: true, 3: true, 7: true}
	for g := range c.r.reach(f) {
		if c.r.relPkg(g) != "sttp/hashset" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if n := k.Int64(); n > 2 && n < 1<<40 {
							for _, v := range []int64{n - 1, n, n + 1, 3 * n} {
								set[int(v)] = true
							}
						}
					}
				}
			}
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// loops identifies the iterated container and element of each loop.
func (s *setSummary) loops() {
	ip := s.ip
	// terms: next(id.k, range(X)) and ld(eaddr(X, phi...))
	for _, l := range ip.loops {
		for _, e := range ip.effects {
			if !inLoop(e, l) {
				continue
			}
			for _, at := range ip.support(e.pc) {
				s.note(l, ip.atoms[at])
			}
			for _, a := range e.args {
				for _, t := range ip.leavesUnder(a, ip.True) {
					s.note(l, t)
				}
			}
		}
		if s.cont[l] == nil {
			undecided("%s: cannot identify what a loop iterates over", s.name)
		}
		s.covers(l)
	}
}

// covers shows that the loop visits every element: it runs from the first to
// the last position and, where elements are changed, is never left early.
func (s *setSummary) covers(l *Loop) {
	ip, c := s.ip, s.c
	pos := c.r.instrPos(l.header.Instrs[0])
	if ct := s.cont[l]; ct.op == "lt" {
		first := int64(-1)
		for _, p := range l.phis {
			if !mentions(ct.args[0], p.term) || p.init.atom >= 0 {
				continue
			}
			n, ok := p.init.leaf.intVal()
			d, ok2 := ip.arith(tokSUB, ct.args[0], p.term, tInt).intVal()
			if !ok || !ok2 {
				continue
			}
			first = n + d
			for _, nx := range p.next {
				if nx.atom >= 0 || ip.arith(tokSUB, nx.leaf, p.term, tInt) != ip.intTerm(1, tInt) {
					first = -1
				}
			}
		}
		el := s.elem[l]
		c.ok(first == 0 && (el == nil || el.op == "ld" && el.args[0].args[1] == ct.args[0]), s.name, pos, "%s does not visit every element of %s", s.name, ip.show(s.over[l]))
	}
	if s.fn.Signature.Results().Len() == 1 && isBool(s.fn.Signature.Results().At(0).Type()) {
		return
	}
	for b := range l.body {
		if b == l.header {
			continue
		}
		for _, x := range b.Succs {
			c.ok(l.body[x], s.name, pos, "%s can leave its loop over %s before the last element", s.name, ip.show(s.over[l]))
		}
	}
}

func (s *setSummary) note(l *Loop, t *Term) {
	ip := s.ip
	isPhi := func(x *Term) bool {
		for _, p := range l.phis {
			for _, y := range subterms(x) {
				if y == p.term {
					return true
				}
			}
		}
		return false
	}
	for _, x := range subterms(t) {
		switch {
		case x.op == "next" && strings.HasSuffix(x.str, ".0"):
			s.cont[l] = x
			s.over[l] = x.args[0].args[0]
		case x.op == "next" && strings.HasSuffix(x.str, ".1"):
			s.elem[l] = x
			s.over[l] = x.args[0].args[0]
		case x.op == "lt" && isPhi(x.args[0]) && x.args[1].op == "len" && !isPhi(x.args[1]):
			s.cont[l] = x
			s.over[l] = x.args[1].args[0]
		case x.op == "ld" && x.args[0].op == "eaddr" && isPhi(x.args[0].args[1]):
			s.elem[l] = x
		case x.op == "next" && x.typ != nil:
		}
	}
	_ = ip
}

func inLoop(e *Effect, l *Loop) bool {
	for _, x := range e.loops {
		if x == l {
			return true
		}
	}
	return false
}

// opKind classifies a container term: receiver, operand set, operand slice.
func (s *setSummary) container(t *Term) string {
	if t == s.hs {
		return "hs"
	}
	if t == s.op {
		if _, ok := t.typ.Underlying().(*types.Slice); ok {
			return "slice"
		}
		return "set"
	}
	if t.op == "ret" {
		for _, e := range s.ip.effects {
			if e.kind == "call" && len(e.ret) == 1 && e.ret[0].leaf == t && len(e.args) == 1 && e.args[0].atom < 0 {
				if k := s.container(e.args[0].leaf); k != "" {
					if e.callee != nil && (e.callee.Name() == "NewHashSet" || strings.HasPrefix(e.callee.Name(), "NewHashSet[")) {
						return "set"
					}
					if e.callee != nil && e.callee.Name() == "Keys" {
						if k == "hs" {
							return "hskeys"
						}
						return "keys"
					}
				}
			}
		}
	}
	return ""
}

func (s *setSummary) size(k string, w setWorld) int {
	switch k {
	case "hs", "hskeys":
		return w.a + w.b
	case "set", "keys":
		return w.b + w.c
	case "slice":
		return w.b + w.c + w.dup
	}
	undecided("%s: size of an unrecognised container", s.name)
	return 0
}

type bindEnv struct {
	loop *Loop
	cls  *setClass
	mem  bool // current membership of the class element in the receiver
	exit *Loop
}

func (s *setSummary) evalTerm(t *Term, w setWorld) int {
	ip := s.ip
	if n, ok := t.intVal(); ok {
		return int(n)
	}
	switch t.op {
	case "len":
		return s.size(s.container(t.args[0]), w)
	case "lin":
		l := ip.linOf(t)
		n := int(l.c.Int64())
		for i, x := range l.terms {
			n += int(l.coef[i].Int64()) * s.evalTerm(x, w)
		}
		return n
	}
	undecided("%s: cannot evaluate %s", s.name, ip.show(t))
	return 0
}

func (s *setSummary) evalAtom(t *Term, w setWorld, env *bindEnv) bool {
	ip := s.ip
	for l, ct := range s.cont {
		if t == ct {
			if env.loop == l {
				return true
			}
			return false // past the loop
		}
	}
	switch t.op {
	case "lt":
		return s.evalTerm(t.args[0], w) < s.evalTerm(t.args[1], w)
	case "eq":
		return s.evalTerm(t.args[0], w) == s.evalTerm(t.args[1], w)
	case "has":
		switch s.container(t.args[0]) {
		case "hs":
			return env.mem
		case "set":
			return env.cls.inOther
		}
	case "ret":
		// a user predicate applied to the generic element
		for _, e := range ip.effects {
			if e.kind == "dyncall" && len(e.ret) == 1 && ip.asTerm(e.ret[0]) == t {
				return env.cls.pred
			}
		}
	}
	undecided("%s: cannot interpret condition %s", s.name, ip.show(t))
	return false
}

func (s *setSummary) evalPC(m *MT, w setWorld, env *bindEnv) bool {
	for m.atom >= 0 {
		if s.evalAtom(s.ip.atoms[m.atom], w, env) {
			m = m.hi
		} else {
			m = m.lo
		}
	}
	return m == s.ip.True
}

// classes lists element classes present in a container, with occurrences.
func (s *setSummary) classes(k string, w setWorld) []setClass {
	var out []setClass
	add := func(hs, ot bool, n int, slice bool) {
		if n == 0 {
			return
		}
		for _, p := range []bool{false, true} {
			out = append(out, setClass{hs, ot, p, 1})
			if slice && w.dup > 0 {
				out = append(out, setClass{hs, ot, p, 2}, setClass{hs, ot, p, 3})
			}
		}
	}
	switch k {
	case "hs", "hskeys":
		add(true, false, w.a, false)
		add(true, true, w.b, false)
	case "set", "keys":
		add(true, true, w.b, false)
		add(false, true, w.c, false)
	case "slice":
		add(true, true, w.b, true)
		add(false, true, w.c, true)
	default:
		undecided("%s: loop over an unrecognised container %v", s.name, s.over)
	}
	return out
}

func (s *setSummary) inWorld(w setWorld, pos string) {
	ip, c := s.ip, s.c
	item := s.name == "Add" || s.name == "Remove" || s.name == "Contains"
	// return value: the first reachable return
	result, have := false, false
	var rets []*Effect
	for _, e := range ip.effects {
		if e.kind == "return" && len(e.args) > 0 {
			rets = append(rets, e)
		}
	}
	if item {
		// the single element is the class; iterate over its membership
		for _, mem := range []bool{false, true} {
			env := &bindEnv{cls: &setClass{inHS: mem}, mem: mem}
			var got, seen bool
			for _, e := range rets {
				if s.evalPC(e.pc, w, env) {
					seen = true
					got = s.evalPC(e.args[0], w, env)
				}
			}
			after := mem
			for _, e := range ip.effects {
				if (e.kind == "mapupdate" || e.kind == "delete") && s.evalPC(e.pc, w, env) {
					k := e.args[1]
					c.ok(k.atom < 0 && k.leaf == s.op, s.name, c.r.instrPos(e.instr), "%s touches an element other than its argument", s.name)
					after = e.kind == "mapupdate"
				}
			}
			wantRet, wantMem := mem, mem
			switch s.name {
			case "Add":
				wantRet, wantMem = !mem, true
			case "Remove":
				wantRet, wantMem = mem, false
			}
			c.ok(seen && got == wantRet, s.name, pos, "%s returns %v for an element with membership %v, expected %v", s.name, got, mem, wantRet)
			c.ok(after == wantMem, s.name, pos, "%s leaves membership %v for an element with membership %v, expected %v", s.name, after, mem, wantMem)
		}
		return
	}
	isBoolRet := s.fn.Signature.Results().Len() == 1 && isBool(s.fn.Signature.Results().At(0).Type())
	if isBoolRet {
		vals := map[bool]bool{}
		// a return during some iteration pre-empts the code after that loop
		for _, e := range rets {
			for l := range s.cont {
				for _, cl := range s.classes(s.container(s.over[l]), w) {
					env := &bindEnv{loop: l, cls: &cl, mem: cl.inHS}
					if s.evalPC(e.pc, w, env) {
						vals[s.evalPC(e.args[0], w, env)] = true
					}
				}
			}
		}
		if len(vals) > 1 {
			c.ok(false, s.name, pos, "%s: result depends on iteration order with %s", s.name, w)
			return
		}
		for v := range vals {
			result, have = v, true
		}
		for _, e := range rets {
			if env := (&bindEnv{cls: &setClass{}}); !have && s.evalPC(e.pc, w, env) {
				result, have = s.evalPC(e.args[0], w, env), true
			}
		}
		hsN, otN := w.a+w.b, w.b+w.c
		want, ok := false, true
		switch strings.TrimSuffix(s.name, "Set") {
		case "IsEmpty":
			want = hsN == 0
		case "SetEquals":
			want = w.a == 0 && w.c == 0
		case "Overlaps":
			want = w.b > 0
		case "IsSubsetOf":
			want = w.a == 0
		case "IsProperSubsetOf":
			want = w.a == 0 && otN > hsN
		case "IsSupersetOf":
			want = w.c == 0
		case "IsProperSupersetOf":
			want = w.c == 0 && hsN > otN
		default:
			ok = false
		}
		if !ok {
			c.note("%s: no specification, only receiver-only writes checked", s.name)
			return
		}
		if s.op != nil {
			if _, sl := s.op.typ.Underlying().(*types.Slice); !sl && w.dup > 0 {
				return
			}
		}
		key := s.name
		if hsN == 0 {
			key += " empty receiver"
		}
		c.ok(have && result == want, key, pos, "%s gives %v where the sets have %s, expected %v", s.name, result, w, want)
		return
	}
	// in-place operations: membership of every class afterwards
	if s.op != nil {
		if _, sl := s.op.typ.Underlying().(*types.Slice); !sl && w.dup > 0 {
			return
		}
	}
	for _, base := range []setClass{{inHS: true}, {inHS: true, inOther: true}, {inOther: true}} {
		if base.inHS && !base.inOther && w.a == 0 || base.inHS && base.inOther && w.b == 0 || !base.inHS && w.c == 0 {
			continue
		}
		for _, pred := range []bool{false, true} {
			for times := 1; times <= 1+w.dup; times++ {
				cl := base
				cl.pred = pred
				cl.times = times
				mem := cl.inHS
				done := map[*Loop]bool{}
				for _, e := range ip.effects {
					if e.kind != "mapupdate" && e.kind != "delete" {
						continue
					}
					if len(e.loops) == 0 {
						undecided("%s: set changed outside a loop", s.name)
					}
					l := e.loops[len(e.loops)-1]
					if done[l] {
						continue
					}
					done[l] = true
					k := s.container(s.over[l])
					present := 0
					switch k {
					case "hs", "hskeys":
						if mem {
							present = 1
						}
					case "set", "keys":
						if cl.inOther {
							present = 1
						}
					case "slice":
						if cl.inOther {
							present = times
						}
					default:
						undecided("%s: loop over an unrecognised container %v", s.name, s.over)
					}
					for i := 0; i < present; i++ {
						start := mem
						for _, e2 := range ip.effects {
							if (e2.kind == "mapupdate" || e2.kind == "delete") && len(e2.loops) > 0 && e2.loops[len(e2.loops)-1] == l {
								if e2.args[1].atom >= 0 || e2.args[1].leaf != s.elem[l] {
									undecided("%s: element changed is not the one iterated", s.name)
								}
								if s.evalPC(e2.pc, w, &bindEnv{loop: l, cls: &cl, mem: start}) {
									mem = e2.kind == "mapupdate"
								}
							}
						}
					}
				}
				var want bool
				switch strings.TrimSuffix(s.name, "Set") {
				case "NewHash":
					want = cl.inOther
				case "UnionWith":
					want = cl.inHS || cl.inOther
				case "ExceptWith":
					want = cl.inHS && !cl.inOther
				case "IntersectWith":
					want = cl.inHS && cl.inOther
				case "SymmetricExceptWith":
					want = cl.inHS != cl.inOther
				case "Clear":
					want = false
				case "RemoveWhere":
					want = cl.inHS && !pred
					if !cl.inHS {
						continue
					}
				default:
					c.note("%s: no specification, only receiver-only writes checked", s.name)
					return
				}
				c.ok(mem == want, s.name, pos, "%s leaves an element (in receiver %v, in operand %v, occurring %d times) with membership %v where the sets have %s, expected %v", s.name, cl.inHS, cl.inOther, times, mem, w, want)
			}
		}
	}
}

// keys verifies that Keys copies every element once into a slice of that size.
func (s *setSummary) keys(pos string) {
	ip, c := s.ip, s.c
	r := s.res.rets[0]
	if r.atom >= 0 {
		undecided("Keys: result depends on a condition")
	}
	t := r.leaf
	switch t.op {
	case "makeslice":
		c.ok(t.args[0].op == "len" && t.args[0].args[0] == s.hs, "Keys", pos, "Keys allocates %s elements instead of the set size", ip.show(t.args[0]))
		n := 0
		for _, e := range ip.effects {
			if e.kind != "store" || e.name != "elem" || len(e.loops) != 1 {
				continue
			}
			l := e.loops[0]
			n++
			c.ok(s.container(s.over[l]) == "hs", "Keys", c.r.instrPos(e.instr), "Keys iterates over something other than the set")
			c.ok(e.args[1].atom < 0 && e.args[1].leaf == s.elem[l], "Keys", c.r.instrPos(e.instr), "Keys stores something other than the element")
			a := e.args[0].leaf
			idx := a.args[1]
			good := false
			for _, p := range l.phis {
				if p.term == idx {
					init, ok := p.init.leaf.intVal()
					good = ok && init == 0 && len(p.next) > 0
					for _, nx := range p.next {
						if ip.asTerm(nx) != ip.asTerm(ip.val(ip.arith(tokADD, p.term, ip.intTerm(1, tInt), tInt))) {
							good = false
						}
					}
				}
			}
			c.ok(good && a.args[0] == t, "Keys", c.r.instrPos(e.instr), "Keys does not store elements at consecutive positions of its result")
			c.ok(s.evalPC(e.pc, setWorld{1, 0, 0, 0}, &bindEnv{loop: l, cls: &setClass{inHS: true}, mem: true}), "Keys", c.r.instrPos(e.instr), "Keys skips elements")
		}
		c.ok(n == 1, "Keys", pos, "Keys stores each element %d times", n)
	default:
		// appended slice: a loop variable starting empty and growing by the element
		good := false
		for _, l := range ip.loops {
			for _, p := range l.phis {
				if p.term == t && s.container(s.over[l]) == "hs" {
					good = len(p.next) > 0
					if k, ok := ip.lenOf(p.init.leaf).intVal(); !ok || k != 0 {
						good = false
					}
					for _, nx := range p.next {
						good = good && nx.atom < 0 && nx.leaf.op == "append1" && len(nx.leaf.args) == 2 && nx.leaf.args[0] == t && nx.leaf.args[1] == s.elem[l]
					}
				}
			}
		}
		c.ok(good, "Keys", pos, "Keys does not return every element of the set exactly once")
	}
}

// removeCount verifies that RemoveWhere counts exactly the removed elements.
func (s *setSummary) removeCount(pos string) {
	ip, c := s.ip, s.c
	r := s.res.rets[0]
	good := false
	if r.atom < 0 {
		for _, l := range ip.loops {
			for _, p := range l.phis {
				if p.term != r.leaf {
					continue
				}
				init, ok := p.init.leaf.intVal()
				good = ok && init == 0
				for _, pred := range []bool{false, true} {
					env := &bindEnv{loop: l, cls: &setClass{inHS: true, pred: pred}, mem: true}
					w := setWorld{1, 1, 1, 0}
					for i, nx := range p.next {
						if !s.evalPC(p.npc[i], w, env) {
							continue
						}
						m := nx
						for m.atom >= 0 {
							if s.evalAtom(ip.atoms[m.atom], w, env) {
								m = m.hi
							} else {
								m = m.lo
							}
						}
						d := ip.arith(tokSUB, m.leaf, p.term, tInt)
						k, ok := d.intVal()
						want := int64(0)
						if pred {
							want = 1
						}
						if !ok || k != want {
							good = false
						}
					}
				}
			}
		}
	}
	c.ok(good, "RemoveWhere", pos, "RemoveWhere does not return the number of removed elements")
}
