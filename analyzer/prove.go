package main

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ineq is  sum(coef*term) + c >= 0  over mathematical integers.
type ineq struct {
	m map[*Term]*big.Int
	c *big.Int
	// on: facts about a loop variable say something only where the loop was
	// reached, that is, where the goal or a condition mentions it
	on   []*Term
	free bool // not a condition on the way
}

func newIneq() *ineq { return &ineq{m: map[*Term]*big.Int{}, c: new(big.Int)} }

func (a *ineq) clone() *ineq {
	n := newIneq()
	n.c.Set(a.c)
	for t, k := range a.m {
		n.m[t] = new(big.Int).Set(k)
	}
	return n
}

func (a *ineq) add(b *ineq, k *big.Int) {
	a.c.Add(a.c, new(big.Int).Mul(b.c, k))
	for t, x := range b.m {
		e, ok := a.m[t]
		if !ok {
			e = new(big.Int)
			a.m[t] = e
		}
		e.Add(e, new(big.Int).Mul(x, k))
		if e.Sign() == 0 {
			delete(a.m, t)
		}
	}
}

func sub(a, b *ineq) *ineq {
	r := a.clone()
	r.add(b, big.NewInt(-1))
	return r
}

// Prover decides linear obligations from linear facts.
type Prover struct {
	until time.Time // give up then
	ip    *Interp
	invs  []*invariant
	extra []*ineq
	depth int
	// further facts under given literals, and ranges of terms
	more    func(lits []Lit, facts []*ineq) []*ineq
	rangeOf func(t *Term) (lo, hi *big.Int)
}

type invariant struct {
	loop *Loop
	phi  *Term
	// phi >= k  or  phi <= bound
	lower *big.Int
	upper *Term
	plus  int64 // phi <= upper + plus
	alive bool
	on    []*Term // variables whose loops must have been reached
}

func newProver(ip *Interp) *Prover { return &Prover{ip: ip} }

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// natural gives the a-priori range of an opaque term.
func (p *Prover) natural(t *Term) (lo, hi *big.Int) {
	lo, hi = intRange(t.typ)
	if p.rangeOf != nil {
		if l, h := p.rangeOf(t); l != nil {
			return l, h
		}
	}
	switch t.op {
	case "phi":
		if isIteration(t) {
			return big.NewInt(0), hi
		}
	case "len":
		return big.NewInt(0), maxLen
	case "cap":
		return big.NewInt(0), maxLen
	case "bit":
		if t.str == "&" && t.args[0].isConst() {
			m := bigOf(t.args[0].cv)
			if m.Sign() >= 0 {
				return big.NewInt(0), m
			}
		}
	case "bin":
		switch t.str {
		case "%":
			if t.args[1].isConst() {
				m := new(big.Int).Abs(bigOf(t.args[1].cv))
				m.Sub(m, big.NewInt(1))
				if isUnsigned(t.typ) || t.args[0].op == "len" {
					return big.NewInt(0), m
				}
				return new(big.Int).Neg(m), m
			}
		case ">>":
			if t.args[1].isConst() {
				n := uint(bigOf(t.args[1].cv).Uint64())
				return new(big.Int).Rsh(lo, n), new(big.Int).Rsh(hi, n)
			}
		case "/":
			if t.args[1].isConst() {
				d := bigOf(t.args[1].cv)
				if d.Sign() > 0 {
					return new(big.Int).Quo(lo, d), new(big.Int).Quo(hi, d)
				}
			}
		}
	case "conv":
		if isInt(t.args[0].typ) {
			l2, h2 := intRange(t.args[0].typ)
			if l2.Cmp(lo) >= 0 && h2.Cmp(hi) <= 0 {
				return p.natural(t.args[0])
			}
		}
	}
	return lo, hi
}

// linear expresses t over opaque terms, provided no step can wrap under the
// given facts.
func (p *Prover) linear(t *Term, facts []*ineq) *ineq {
	r := newIneq()
	switch {
	case t.isConst() && isInt(t.typ):
		r.c = bigOf(t.cv)
		return r
	case t.op == "lin":
		l := p.ip.linOf(t)
		r.c.Set(l.c)
		for i, a := range l.terms {
			r.add(p.linear(a, facts), l.coef[i])
		}
		lo, hi := intRange(t.typ)
		if p.within(r, lo, hi, facts) {
			return r
		}
		o := newIneq()
		o.m[t] = big.NewInt(1)
		return o
	case t.op == "conv" && isInt(t.args[0].typ) && isInt(t.typ):
		in := p.linear(t.args[0], facts)
		if valuePreserving(t.args[0].typ, t.typ) {
			return in
		}
		lo, hi := intRange(t.typ)
		if p.within(in, lo, hi, facts) {
			return in
		}
	}
	r.m[t] = big.NewInt(1)
	return r
}

func (p *Prover) within(e *ineq, lo, hi *big.Int, facts []*ineq) bool {
	l, h := p.interval(e)
	okLo := l != nil && l.Cmp(lo) >= 0
	okHi := h != nil && h.Cmp(hi) <= 0
	if okLo && okHi {
		return true
	}
	if p.depth > 3 {
		return false
	}
	p.depth++
	defer func() { p.depth-- }()
	if !okLo {
		g := e.clone()
		g.c.Sub(g.c, lo)
		okLo = p.entails(facts, g)
	}
	if okLo && !okHi {
		g := newIneq()
		g.c.Set(hi)
		g.add(e, big.NewInt(-1))
		okHi = p.entails(facts, g)
	}
	return okLo && okHi
}

func (p *Prover) interval(e *ineq) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(e.c), new(big.Int).Set(e.c)
	for t, k := range e.m {
		l, h := p.natural(t)
		a, b := new(big.Int).Mul(k, l), new(big.Int).Mul(k, h)
		if k.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	if p.rangeOf != nil {
		// lengths that are added up are the length of something that exists
		for t, k := range e.m {
			if t.op != "len" || k.Cmp(big.NewInt(1)) != 0 {
				return
			}
		}
		if h := new(big.Int).Add(e.c, big.NewInt(1<<31)); h.Cmp(hi) < 0 {
			hi = h
		}
	}
	return
}

// factsFrom turns implied literals into linear facts.
func (p *Prover) factsFrom(lits []Lit) []*ineq {
	facts := append([]*ineq(nil), p.extra...)
	for _, v := range p.invs {
		if v.alive {
			facts = append(facts, p.invFact(v, facts))
		}
	}
	if p.more != nil {
		for _, f := range p.more(lits, facts) {
			f.free = true
			facts = append(facts, f)
		}
	}
	done := make([]bool, len(lits))
	for round := 0; round < 3; round++ {
		changed := false
		for i, l := range lits {
			if done[i] {
				continue
			}
			f, precise := p.litFact(l, facts)
			if f == nil {
				done[i] = true
				continue
			}
			if precise || round == 2 {
				facts = append(facts, f...)
				done[i] = true
				changed = true
			}
		}
		if !changed {
			continue
		}
	}
	return facts
}

func (p *Prover) litFact(l Lit, facts []*ineq) ([]*ineq, bool) {
	a := l.atom
	if a.op == "isnil" && l.val && a.args[0].typ != nil {
		if _, ok := a.args[0].typ.Underlying().(*types.Slice); ok {
			n := p.linear(p.ip.lenOf(a.args[0]), facts)
			return []*ineq{sub(p.linear(p.ip.intTerm(0, tInt), facts), n)}, true
		}
	}
	if a.op != "lt" && a.op != "eq" || len(a.args) != 2 {
		return nil, true
	}
	x, y := a.args[0], a.args[1]
	if !isInt(x.typ) || !isInt(y.typ) {
		return nil, true
	}
	lx, ly := p.linear(x, facts), p.linear(y, facts)
	precise := !(opaqueLin(lx) || opaqueLin(ly))
	switch {
	case a.op == "lt" && l.val: // y - x - 1 >= 0
		f := sub(ly, lx)
		f.c.Sub(f.c, big.NewInt(1))
		return []*ineq{f}, precise
	case a.op == "lt": // x - y >= 0
		return []*ineq{sub(lx, ly)}, precise
	case l.val: // equality
		return []*ineq{sub(lx, ly), sub(ly, lx)}, precise
	default:
		// x != y: useful when one side is an extreme of the other
		d := sub(lx, ly)
		lo, hi := p.interval(d)
		if lo != nil && lo.Sign() == 0 {
			d.c.Sub(d.c, big.NewInt(1))
			return []*ineq{d}, precise
		}
		if hi != nil && hi.Sign() == 0 {
			n := sub(ly, lx)
			n.c.Sub(n.c, big.NewInt(1))
			return []*ineq{n}, precise
		}
		if p.more != nil && len(facts) > 0 {
			if p.entails(facts, d) {
				d.c.Sub(d.c, big.NewInt(1))
				return []*ineq{d}, precise
			}
			if n := sub(ly, lx); p.entails(facts, n) {
				n.c.Sub(n.c, big.NewInt(1))
				return []*ineq{n}, precise
			}
		}
		return nil, true
	}
}

func opaqueLin(e *ineq) bool {
	for t := range e.m {
		if t.op == "lin" || t.op == "conv" {
			return true
		}
	}
	return false
}

func (p *Prover) invFact(v *invariant, facts []*ineq) *ineq {
	f := newIneq()
	if v.lower != nil {
		f.m[v.phi] = big.NewInt(1)
		f.c.Neg(v.lower)
		f.on = []*Term{v.phi}
		return f
	}
	f = p.linear(v.upper, facts).clone()
	g := newIneq()
	g.m[v.phi] = big.NewInt(1)
	f = sub(f, g)
	f.c.Add(f.c, big.NewInt(v.plus))
	if v.on == nil {
		v.on = []*Term{v.phi}
		for _, t := range subterms(v.upper) {
			if t.op == "phi" && !p.passed(t, v.loop) {
				v.on = append(v.on, t)
			}
		}
	}
	f.on = v.on
	return f
}

// passed: whenever the loop is reached, so was the loop of this variable.
func (p *Prover) passed(phi *Term, l *Loop) bool {
	for _, m := range p.ip.loops {
		for i := range m.phis {
			if m.phis[i].term == phi {
				return m.id <= l.id && p.ip.implies(l.pc, m.pc)
			}
		}
	}
	return false
}

// reached drops facts about loops that were not passed on the way.
func reached(facts []*ineq, goal *ineq) []*ineq {
	tagged := false
	for _, f := range facts {
		tagged = tagged || f != nil && f.on != nil
	}
	if !tagged {
		return facts
	}
	seen := map[*Term]bool{}
	var see func(t *Term)
	see = func(t *Term) {
		if !seen[t] {
			seen[t] = true
			for _, a := range t.args {
				see(a)
			}
		}
	}
	if goal != nil {
		for t := range goal.m {
			see(t)
		}
	}
	for _, f := range facts {
		if f != nil && f.on == nil && !f.free {
			for t := range f.m {
				see(t)
			}
		}
	}
	var out []*ineq
	in := make([]bool, len(facts))
	for changed := true; changed; {
		changed = false
		for i, f := range facts {
			ok := !in[i]
			if f != nil {
				for _, t := range f.on {
					ok = ok && seen[t]
				}
			}
			if !ok {
				continue
			}
			in[i], changed = true, true
			out = append(out, f)
			if f != nil && f.free && f.on != nil {
				for t := range f.m {
					see(t)
				}
			}
		}
	}
	return out
}

// entails decides facts |= goal >= 0 by refuting facts + (goal <= -1).
func (p *Prover) entails(facts []*ineq, goal *ineq) bool {
	if !p.until.IsZero() && time.Now().After(p.until) {
		undecided("proof budget exceeded")
	}
	neg := newIneq()
	neg.add(goal, big.NewInt(-1))
	neg.c.Sub(neg.c, big.NewInt(1))
	if len(neg.m) == 0 {
		return neg.c.Sign() < 0
	}
	facts = reached(facts, goal)
	// relevant facts: connected to the goal
	rel := map[*Term]bool{}
	for t := range neg.m {
		rel[t] = true
	}
	used := make([]bool, len(facts))
	sys := []*ineq{neg}
	for hop := 0; hop < 4; hop++ {
		grew := false
		for i, f := range facts {
			if used[i] || f == nil {
				continue
			}
			hit := false
			for t := range f.m {
				if rel[t] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				sys = append(sys, f)
				for t := range f.m {
					if !rel[t] {
						rel[t] = true
						grew = true
					}
				}
			}
		}
		if !grew {
			break
		}
	}
	for t := range rel {
		if t.typ == nil || !isInt(t.typ) {
			continue
		}
		lo, hi := p.natural(t)
		if lo != nil {
			f := newIneq()
			f.m[t] = big.NewInt(1)
			f.c.Neg(lo)
			sys = append(sys, f)
		}
		if hi != nil {
			f := newIneq()
			f.m[t] = big.NewInt(-1)
			f.c.Set(hi)
			sys = append(sys, f)
		}
		if t.op == "cap" {
			f := newIneq()
			f.m[t] = big.NewInt(1)
			f.add(p.linear(p.ip.lenOf(t.args[0]), nil), big.NewInt(-1))
			sys = append(sys, f)
		}
	}
	return refute(sys)
}

// refute eliminates variables one by one and looks for a negative constant.
func refute(sys []*ineq) bool {
	for iter := 0; iter < 60; iter++ {
		sys = tighten(sys)
		var vars []*Term
		cnt := map[*Term][2]int{}
		for _, f := range sys {
			if len(f.m) == 0 {
				if f.c.Sign() < 0 {
					return true
				}
				continue
			}
			for t, k := range f.m {
				c := cnt[t]
				if k.Sign() > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[t] = c
			}
		}
		for t := range cnt {
			vars = append(vars, t)
		}
		if len(vars) == 0 {
			return false
		}
		sort.Slice(vars, func(i, j int) bool {
			a, b := cnt[vars[i]], cnt[vars[j]]
			if a[0]*a[1] != b[0]*b[1] {
				return a[0]*a[1] < b[0]*b[1]
			}
			return vars[i].id < vars[j].id
		})
		v := vars[0]
		var pos, neg, rest []*ineq
		for _, f := range sys {
			k, ok := f.m[v]
			switch {
			case !ok:
				rest = append(rest, f)
			case k.Sign() > 0:
				pos = append(pos, f)
			default:
				neg = append(neg, f)
			}
		}
		if len(pos)*len(neg)+len(rest) > 4000 {
			return false
		}
		for _, a := range pos {
			for _, b := range neg {
				n := newIneq()
				n.add(a, new(big.Int).Neg(b.m[v]))
				n.add(b, a.m[v])
				delete(n.m, v)
				if len(n.m) == 0 && n.c.Sign() < 0 {
					return true
				}
				if len(n.m) > 0 {
					rest = append(rest, n)
				}
			}
		}
		sys = rest
	}
	return false
}

// tighten divides by common factors and keeps the strongest of inequalities
// with the same left-hand side.
func tighten(sys []*ineq) []*ineq {
	at := map[string]int{}
	var out []*ineq
	for _, f := range sys {
		g := new(big.Int)
		ts := make([]*Term, 0, len(f.m))
		for t, k := range f.m {
			ts = append(ts, t)
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			n := newIneq()
			for t, k := range f.m {
				n.m[t] = new(big.Int).Quo(k, g)
			}
			n.c.Div(f.c, g) // rounds down
			f = n
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		var b strings.Builder
		for _, t := range ts {
			b.WriteString(strconv.Itoa(t.id))
			b.WriteByte('*')
			b.WriteString(f.m[t].String())
			b.WriteByte(' ')
		}
		if i, ok := at[b.String()]; ok {
			if f.c.Cmp(out[i].c) < 0 {
				out[i] = f
			}
			continue
		}
		at[b.String()] = len(out)
		out = append(out, f)
	}
	return out
}

// proveUnder shows build(facts) >= 0 for each way pc can hold.
func (p *Prover) proveUnder(pc *MT, goal func(facts []*ineq) []*ineq) bool {
	try := func(lits []Lit) bool {
		facts := p.factsFrom(lits)
		for _, g := range goal(facts) {
			if !p.entails(facts, g) {
				return false
			}
		}
		return true
	}
	if pc == p.ip.False {
		return true
	}
	if try(p.ip.impliedMemo(pc)) {
		return true
	}
	cubes, ok := p.ip.cubes(pc, 200)
	if !ok {
		return false
	}
	for _, c := range cubes {
		if p.infeasible(c) {
			continue
		}
		if !try(c) {
			return false
		}
	}
	return true
}

// infeasible detects a contradictory set of literals.
func (p *Prover) infeasible(lits []Lit) bool {
	facts := reached(p.factsFrom(lits), nil)
	rel := append([]*ineq(nil), facts...)
	seen := map[*Term]bool{}
	for _, f := range facts {
		for t := range f.m {
			seen[t] = true
		}
	}
	for t := range seen {
		if t.typ == nil || !isInt(t.typ) {
			continue
		}
		lo, hi := p.natural(t)
		a := newIneq()
		a.m[t] = big.NewInt(1)
		a.c.Neg(lo)
		b := newIneq()
		b.m[t] = big.NewInt(-1)
		b.c.Set(hi)
		rel = append(rel, a, b)
	}
	if len(rel) > 120 {
		return false
	}
	return refute(rel)
}

// le builds  b - a - k >= 0.
func (p *Prover) le(a, b *Term, k int64, facts []*ineq) *ineq {
	f := sub(p.linear(b, facts), p.linear(a, facts))
	f.c.Sub(f.c, big.NewInt(k))
	return f
}

func (p *Prover) ge0(a *Term, facts []*ineq) *ineq { return p.linear(a, facts).clone() }

// pairs enumerates leaf combinations of several diagrams with conditions.
func (ip *Interp) combos(pc *MT, ms []*MT, f func(ts []*Term, pc *MT)) {
	var rec func(i int, ts []*Term, c *MT)
	rec = func(i int, ts []*Term, c *MT) {
		if c == ip.False {
			return
		}
		if i == len(ms) {
			f(ts, c)
			return
		}
		lc := ip.leafConds(ms[i])
		var ks []*Term
		for t := range lc {
			ks = append(ks, t)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].id < ks[b].id })
		for _, t := range ks {
			rec(i+1, append(append([]*Term(nil), ts...), t), ip.and(c, lc[t]))
		}
	}
	rec(0, nil, pc)
}

// inferInvariants proposes and verifies bounds on loop-carried integers.
func (p *Prover) inferInvariants() {
	ip := p.ip
	lens := map[*Term]bool{}
	cmp := map[*Term]map[*Term]bool{}
	addCmp := func(a, b *Term) {
		if cmp[a] == nil {
			cmp[a] = map[*Term]bool{}
		}
		cmp[a][b] = true
	}
	strip := func(t *Term) *Term {
		for t.op == "conv" && isInt(t.args[0].typ) {
			t = t.args[0]
		}
		return t
	}
	for _, a := range ip.atoms {
		if len(a.args) == 2 && (a.op == "lt" || a.op == "eq") && isInt(a.args[0].typ) {
			for k := 0; k < 2; k++ {
				x, y := a.args[k], a.args[1-k]
				for _, t := range append([]*Term{x}, ip.linOf(strip(x)).terms...) {
					if s := strip(t); s.op == "phi" {
						addCmp(s, y)
					}
				}
			}
		}
		for _, t := range subterms(a) {
			if t.op == "len" {
				lens[t] = true
			}
		}
	}
	for _, l := range ip.loops {
		for _, ph := range l.phis {
			if !isInt(ph.term.typ) {
				continue
			}
			for _, init := range ip.leavesUnder(ph.init, l.pc) {
				if n, ok := init.intVal(); ok {
					p.invs = append(p.invs, &invariant{loop: l, phi: ph.term, lower: big.NewInt(n), alive: true})
				}
			}
			p.invs = append(p.invs, &invariant{loop: l, phi: ph.term, lower: big.NewInt(0), alive: true})
			ups := map[*Term]bool{}
			for t := range lens {
				ups[t] = true
			}
			for t := range cmp[ph.term] {
				ups[t] = true
			}
			var us []*Term
			for t := range ups {
				if !mentions(t, ph.term) {
					us = append(us, t)
				}
			}
			sort.Slice(us, func(i, j int) bool { return us[i].id < us[j].id })
			for _, t := range us {
				p.invs = append(p.invs, &invariant{loop: l, phi: ph.term, upper: t, alive: true})
				p.invs = append(p.invs, &invariant{loop: l, phi: ph.term, upper: t, plus: -1, alive: true})
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, v := range p.invs {
			if !v.alive {
				continue
			}
			if !p.holdsInv(v) {
				v.alive = false
				changed = true
			}
		}
	}
}

func (p *Prover) holdsInv(v *invariant) bool {
	var ph *LoopPhi
	for i := range v.loop.phis {
		if v.loop.phis[i].term == v.phi {
			ph = &v.loop.phis[i]
		}
	}
	goal := func(t *Term) func(facts []*ineq) []*ineq {
		return func(facts []*ineq) []*ineq {
			if v.lower != nil {
				g := p.linear(t, facts).clone()
				g.c.Sub(g.c, v.lower)
				return []*ineq{g}
			}
			return []*ineq{p.le(t, v.upper, -v.plus, facts)}
		}
	}
	check := func(val, pc *MT, withSelf bool) bool {
		ok := true
		if !withSelf {
			v.alive = false
		}
		p.ip.combos(pc, []*MT{val}, func(ts []*Term, c *MT) {
			if ok && !p.proveUnder(c, goal(ts[0])) {
				ok = false
			}
		})
		v.alive = true
		return ok
	}
	if !check(ph.init, v.loop.pc, false) {
		return false
	}
	for i := range ph.next {
		if !check(ph.next[i], ph.npc[i], true) {
			return false
		}
	}
	return true
}

func subterms(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return out
}

func mentions(t, x *Term) bool {
	for _, s := range subterms(t) {
		if s == x {
			return true
		}
	}
	return false
}

// isArrayPtr reports the length of the array a pointer term refers to.
func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// safe decides one obligation effect; it returns "" when discharged or a
// description of what could not be shown.
func (p *Prover) safe(e *Effect) string {
	ip := p.ip
	bad := ""
	fail := func(f string) {
		if bad == "" {
			bad = f
		}
	}
	switch e.kind {
	case "index":
		ip.combos(e.pc, e.args[:2], func(ts []*Term, c *MT) {
			v, i := ts[0], ts[1]
			n := ip.lenOf(v)
			if !p.proveUnder(c, func(f []*ineq) []*ineq {
				return []*ineq{p.ge0(i, f), p.le(i, n, 1, f)}
			}) {
				fail("index " + ip.show(i) + " is not shown to be within 0.." + ip.show(n))
			}
		})
	case "slice":
		ip.combos(e.pc, e.args, func(ts []*Term, c *MT) {
			v, lo, hi := ts[0], ts[1], ts[2]
			n := ip.lenOf(v)
			if !p.proveUnder(c, func(f []*ineq) []*ineq {
				g := []*ineq{p.ge0(lo, f)}
				if hi.op == "none" {
					return append(g, p.le(lo, n, 0, f))
				}
				g = append(g, p.le(lo, hi, 0, f))
				lim := n
				if v.typ != nil {
					if _, ok := v.typ.Underlying().(*types.Slice); ok {
						lim = ip.mk("cap", "", tInt, v)
					}
				}
				return append(g, p.le(hi, lim, 0, f))
			}) {
				fail("slice bounds [" + ip.show(lo) + ":" + ip.show(hi) + "] of " + ip.show(v) + " are not shown to be valid")
			}
		})
	case "minlen":
		ip.combos(e.pc, e.args, func(ts []*Term, c *MT) {
			if !p.proveUnder(c, func(f []*ineq) []*ineq { return []*ineq{p.le(ts[1], ip.lenOf(ts[0]), 0, f)} }) {
				fail("length of " + ip.show(ts[0]) + " is not shown to be at least " + ip.show(ts[1]))
			}
		})
	case "purecall", "call":
		need := wordWidth(e.name)
		if need == 0 {
			return ""
		}
		ip.combos(e.pc, []*MT{e.args[1]}, func(ts []*Term, c *MT) {
			if !p.proveUnder(c, func(f []*ineq) []*ineq {
				return []*ineq{p.le(ip.intTerm(need, tInt), ip.lenOf(ts[0]), 0, f)}
			}) {
				fail("length of " + ip.show(ts[0]) + " is not shown to be at least " + ip.show(ip.intTerm(need, tInt)) + " bytes")
			}
		})
	case "make":
		ip.combos(e.pc, e.args[:1], func(ts []*Term, c *MT) {
			if !p.proveUnder(c, func(f []*ineq) []*ineq { return []*ineq{p.ge0(ts[0], f)} }) {
				fail("allocation size " + ip.show(ts[0]) + " is not shown to be non-negative")
			}
		})
	case "div":
		ip.combos(e.pc, e.args, func(ts []*Term, c *MT) {
			if ts[0].isConst() && bigOf(ts[0].cv).Sign() != 0 {
				return
			}
			zero := ip.compare(token.EQL, ts[0], ip.intTerm(0, ts[0].typ))
			if ip.and(c, zero) == ip.False || ip.theory(c, zero) == ip.False {
				return
			}
			fail("divisor " + ip.show(ts[0]) + " is not shown to be non-zero")
		})
	case "shift":
		ip.combos(e.pc, e.args, func(ts []*Term, c *MT) {
			if !p.proveUnder(c, func(f []*ineq) []*ineq { return []*ineq{p.ge0(ts[0], f)} }) {
				fail("shift amount " + ip.show(ts[0]) + " is not shown to be non-negative")
			}
		})
	case "assert":
		if ip.and(e.pc, ip.not(e.args[1])) != ip.False {
			fail("type assertion on " + ip.showMT(e.args[0]) + " can fail")
		}
	case "panic":
		if e.pc != ip.False {
			fail("explicit panic is reachable")
		}
	}
	return bad
}

func wordWidth(name string) int64 {
	switch name {
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).PutUint16":
		return 2
	case "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).PutUint32":
		return 4
	case "(encoding/binary.bigEndian).Uint64", "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.littleEndian).Uint64", "(encoding/binary.littleEndian).PutUint64":
		return 8
	}
	return 0
}
