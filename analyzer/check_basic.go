package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C22"] = prop{level: "other", explain: "Tick conversions are summarised as symbolic expressions and shown to be exact by linear arithmetic with quotient/remainder decomposition over the full year 1..9999 range, including absence of overflow at every division and narrowing; " +
		"leap second accessors and modifiers are compared as bit expressions; unit constants are evaluated by the type checker. Not covered: correctness of the time package itself and text formatting.", run: checkTicks}
	props["C23"] = prop{level: "other", explain: "GUID byte conversions are interpreted byte by byte (constant loops unrolled) giving the exact permutation of the 16 bytes, aliasing and stores into caller memory; comparison is decided to be a lexicographic order over unsigned keys that cover all 16 bytes. " +
		"Not covered: the text format produced by the uuid package itself.", run: checkGuid}
}

// ---- exact integer forms ----

// exactForm is value = sum(coef*atom)+c as a mathematical integer.
type exactForm struct{ *ineq }

// exactEval evaluates integer terms exactly over atoms with known ranges.
type exactEval struct {
	ip    *Interp
	rng   map[*Term][2]*big.Int
	sub   map[*Term]*ineq // definition of remainder atoms: r = x - c*q
	fresh map[string]*Term
	err   string
}

func (x *exactEval) fail(f string, a ...any) *ineq {
	if x.err == "" {
		x.err = fmt.Sprintf(f, a...)
	}
	return newIneq()
}

func (x *exactEval) interval(e *ineq) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(e.c), new(big.Int).Set(e.c)
	for t, k := range e.m {
		r, ok := x.rng[t]
		if !ok {
			l, h := intRange(t.typ)
			r = [2]*big.Int{l, h}
		}
		a, b := new(big.Int).Mul(k, r[0]), new(big.Int).Mul(k, r[1])
		if k.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return
}

// ring gives a form equal to the term modulo 2^bits of its type.
func (x *exactEval) ring(t *Term) *ineq {
	if _, ok := x.rng[t]; ok {
		f := newIneq()
		f.m[t] = big.NewInt(1)
		return f
	}
	switch {
	case t.isConst():
		f := newIneq()
		f.c = bigOf(t.cv)
		return f
	case t.op == "lin":
		l := x.ip.linOf(t)
		f := newIneq()
		f.c.Set(l.c)
		for i, a := range l.terms {
			f.add(x.ring(a), l.coef[i])
		}
		return f
	case t.op == "conv" && isInt(t.args[0].typ) && isInt(t.typ):
		if intBits(t.typ) <= intBits(t.args[0].typ) {
			return x.ring(t.args[0])
		}
		return x.exact(t.args[0])
	case t.op == "bin" && (t.str == "/" || t.str == "%") && t.args[1].isConst():
		d := bigOf(t.args[1].cv)
		if d.Sign() <= 0 {
			break
		}
		in := x.exact(t.args[0])
		lo, hi := x.interval(in)
		q := x.ip.mk("quot", "", t.typ, t.args[0], t.args[1])
		x.rng[q] = [2]*big.Int{new(big.Int).Quo(lo, d), new(big.Int).Quo(hi, d)}
		f := newIneq()
		if t.str == "/" {
			f.m[q] = big.NewInt(1)
			return f
		}
		// truncated remainder: x - d*q, in (-d, d)
		f.add(in, big.NewInt(1))
		g := newIneq()
		g.m[q] = new(big.Int).Neg(d)
		f.add(g, big.NewInt(1))
		dm := new(big.Int).Sub(d, big.NewInt(1))
		rl, rh := new(big.Int).Neg(dm), dm
		if lo.Sign() >= 0 {
			rl = big.NewInt(0)
		}
		if hi.Sign() <= 0 {
			rh = big.NewInt(0)
		}
		r := x.ip.mk("rem", "", t.typ, t.args[0], t.args[1])
		x.rng[r] = [2]*big.Int{rl, rh}
		x.sub[r] = f
		o := newIneq()
		o.m[r] = big.NewInt(1)
		return o
	}
	f := newIneq()
	f.m[t] = big.NewInt(1)
	l, h := intRange(t.typ)
	x.rng[t] = [2]*big.Int{l, h}
	return f
}

// exact additionally requires that the form stays within the type.
func (x *exactEval) exact(t *Term) *ineq {
	f := x.ring(t)
	lo, hi := x.interval(f)
	l, h := intRange(t.typ)
	if lo.Cmp(l) < 0 || hi.Cmp(h) > 0 {
		return x.fail("%s can overflow", x.ip.show(t))
	}
	return f
}

func (x *exactEval) expand(f *ineq) *ineq {
	r := newIneq()
	r.c.Set(f.c)
	for t, k := range f.m {
		if s, ok := x.sub[t]; ok {
			r.add(x.expand(s), k)
			continue
		}
		g := newIneq()
		g.m[t] = big.NewInt(1)
		r.add(g, k)
	}
	return r
}

func sameForm(a, b *ineq) bool {
	d := sub(a, b)
	return len(d.m) == 0 && d.c.Sign() == 0
}

// sameMod compares forms modulo 2^64.
func sameMod(a, b *ineq) bool {
	d := sub(a, b)
	mod := new(big.Int).Lsh(big.NewInt(1), 64)
	for _, k := range d.m {
		if new(big.Int).Mod(k, mod).Sign() != 0 {
			return false
		}
	}
	return new(big.Int).Mod(d.c, mod).Sign() == 0
}

func bigStr(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }

func constOf(c *Check, pkg, name string) *big.Int {
	p := c.r.pkgs[pkg]
	if p == nil {
		undecided("package %s not found", pkg)
	}
	k, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		undecided("constant %s not found", name)
	}
	return bigOf(constant.ToInt(k.Val()))
}

func checkTicks(c *Check) {
	c.rule("tick<->time conversions are exact integer identities over years 1..9999")
	c.rule("leap second operations read or change exactly their own bit")
	c.rule("unit constants equal their defining multiples of 100 ns")
	base := bigStr("621355968000000000")
	max := bigStr("3155378975999999999")
	mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 62), big.NewInt(1))
	flag := new(big.Int).Lsh(big.NewInt(1), 63)
	dir := new(big.Int).Lsh(big.NewInt(1), 62)
	for n, v := range map[string]*big.Int{"Min": big.NewInt(0), "Max": max, "PerSecond": big.NewInt(10000000), "PerMillisecond": big.NewInt(10000), "PerMicrosecond": big.NewInt(10),
		"PerMinute": big.NewInt(600000000), "PerHour": big.NewInt(36000000000), "PerDay": big.NewInt(864000000000), "LeapSecondFlag": flag, "LeapSecondDirection": dir, "ValueMask": mask, "UnixBaseOffset": base} {
		got := constOf(c, "sttp/ticks", n)
		c.count("constants", 1)
		c.ok(got.Cmp(v) == 0, "const "+n, c.r.pos(c.r.pkgs["sttp/ticks"].Types.Scope().Lookup(n).Pos()), "constant %s is %s, expected %s", n, got, v)
	}
	U := types.Typ[types.Uint64]
	run := func(name string) (*Interp, *ssa.Function, *Result, *Term) {
		f := c.r.fn("ticks." + name)
		ip := newInterp(c.r)
		ip.obl = false
		res := ip.analyze(f)
		c.count("functions", 1)
		return ip, f, res, ip.mk("param", f.Params[0].Name(), f.Params[0].Type())
	}
	// to Go time
	for _, n := range []string{"ToTime", "(Ticks).ToTime"} {
		ip, f, res, p := run(n)
		pos := c.r.pos(f.Pos())
		if !c.ok(res.rets[0].atom < 0, n, pos, "%s: result depends on a condition", n) {
			continue
		}
		t := res.rets[0].leaf
		utc := false
		for t.op == "pure" && (t.str == "(time.Time).UTC" || t.str == "(time.Time).In") {
			utc = t.str == "(time.Time).UTC"
			t = t.args[0]
		}
		c.ok(utc, n, pos, "%s: result is not in UTC", n)
		x := newExact(ip)
		v := ip.bitop(tokAND, ip.bigTerm(mask, U), p, U)
		x.rng[v] = [2]*big.Int{big.NewInt(0), max}
		var ns *ineq
		switch {
		case t.op == "pure" && t.str == "time.Unix" && len(t.args) == 2:
			ns = newIneq()
			ns.add(x.exact(t.args[0]), bigStr("1000000000"))
			ns.add(x.exact(t.args[1]), big.NewInt(1))
		default:
			c.ok(false, n, pos, "%s: %s is not a recognised exact construction of a time", n, ip.show(t))
			continue
		}
		want := newIneq()
		want.m[v] = big.NewInt(100)
		want.c = new(big.Int).Mul(base, big.NewInt(-100))
		c.ok(x.err == "" && sameForm(x.expand(ns), want), n, pos, "%s does not denote the same instant for every tick value of years 1..9999: %s %s", n, ip.show(t), x.err)
	}
	// from Go time
	{
		n := "FromTime"
		ip, f, res, p := run(n)
		pos := c.r.pos(f.Pos())
		if c.ok(res.rets[0].atom < 0, n, pos, "%s: result depends on a condition", n) {
			x := newExact(ip)
			sec := ip.mk("pure", "(time.Time).Unix", types.Typ[types.Int64], p)
			nano := ip.mk("pure", "(time.Time).Nanosecond", tInt, p)
			x.rng[sec] = [2]*big.Int{bigStr("-62135596800"), bigStr("253402300799")}
			x.rng[nano] = [2]*big.Int{big.NewInt(0), bigStr("999999900")}
			got := x.expand(x.ring(res.rets[0].leaf))
			// nanoseconds are a multiple of 100: 100*q = nano
			want := newIneq()
			want.m[sec] = bigStr("10000000")
			want.c.Set(base)
			for t, k := range got.m {
				if t.op == "quot" {
					if d, ok := t.args[1].intVal(); ok && d == 100 && rootTerm(t.args[0]) == nano && k.Cmp(big.NewInt(1)) == 0 {
						want.m[t] = big.NewInt(1)
					}
				}
			}
			hasQ := false
			for t := range want.m {
				if t.op == "quot" {
					hasQ = true
				}
			}
			c.ok(x.err == "" && hasQ && sameMod(got, want), n, pos, "%s is not the exact tick count of its argument for years 1..9999: %s %s", n, ip.showMT(res.rets[0]), x.err)
		}
	}
	// Unix nanoseconds
	{
		n := "FromUnixNano"
		ip, f, res, p := run(n)
		x := newExact(ip)
		x.rng[p] = [2]*big.Int{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))}
		got := x.expand(x.ring(ip.asTerm(res.rets[0])))
		want := newIneq()
		want.c.Set(base)
		for t := range got.m {
			if d, ok := int64(0), false; t.op == "quot" && t.args[0] == p {
				d, ok = t.args[1].intVal()
				if ok && d == 100 {
					want.m[t] = big.NewInt(1)
				}
			}
		}
		c.ok(x.err == "" && len(want.m) == 1 && sameMod(got, want), n, c.r.pos(f.Pos()), "%s is not ns/100 plus the epoch offset: %s %s", n, ip.showMT(res.rets[0]), x.err)
	}
	{
		n := "(Ticks).ToUnixNano"
		ip, f, res, p := run(n)
		x := newExact(ip)
		v := ip.bitop(tokAND, ip.bigTerm(mask, U), p, U)
		x.rng[v] = [2]*big.Int{base, new(big.Int).Add(base, bigStr("184467440737095516"))}
		got := x.expand(x.ring(ip.asTerm(res.rets[0])))
		want := newIneq()
		want.m[v] = big.NewInt(100)
		want.c = new(big.Int).Mul(base, big.NewInt(-100))
		c.ok(x.err == "" && sameMod(got, want), n, c.r.pos(f.Pos()), "%s is not 100 times the ticks since the Unix epoch: %s %s", n, ip.showMT(res.rets[0]), x.err)
	}
	// timestamp value and leap second bits
	bit := func(ip *Interp, p *Term, b *big.Int) *MT {
		return ip.not(ip.compare(tokEQL, ip.bitop(tokAND, p, ip.bigTerm(b, U), U), ip.intTerm(0, U)))
	}
	{
		n := "(Ticks).TimestampValue"
		ip, f, res, p := run(n)
		want := ip.convTerm(ip.bitop(tokAND, ip.bigTerm(mask, U), p, U), types.Typ[types.Int64])
		c.ok(res.rets[0] == ip.val(want), n, c.r.pos(f.Pos()), "%s is %s, expected the value bits only", n, ip.showMT(res.rets[0]))
	}
	for _, n := range []string{"IsLeapSecond", "(Ticks).IsLeapSecond"} {
		ip, f, res, p := run(n)
		c.ok(res.rets[0] == bit(ip, p, flag), n, c.r.pos(f.Pos()), "%s is %s, expected a test of the leap second flag", n, ip.showMT(res.rets[0]))
	}
	for _, n := range []string{"IsNegativeLeapSecond", "(Ticks).IsNegativeLeapSecond"} {
		ip, f, res, p := run(n)
		c.ok(res.rets[0] == ip.and(bit(ip, p, flag), bit(ip, p, dir)), n, c.r.pos(f.Pos()), "%s is %s, expected a test of both leap second bits", n, ip.showMT(res.rets[0]))
	}
	for n, b := range map[string]*big.Int{"SetLeapSecond": flag, "SetNegativeLeapSecond": new(big.Int).Or(flag, dir)} {
		ip, f, res, p := run(n)
		c.ok(res.rets[0] == ip.val(ip.bitop(tokOR, p, ip.bigTerm(b, U), U)), n, c.r.pos(f.Pos()), "%s is %s, expected exactly its flag bits to be added", n, ip.showMT(res.rets[0]))
	}
	for n, b := range map[string]*big.Int{"(*Ticks).ApplyLeapSecond": flag, "(*Ticks).ApplyNegativeLeapSecond": new(big.Int).Or(flag, dir), "(*Ticks).SetLeapSecond": flag} {
		ip, f, res, p := run(n)
		old := ip.mk("ld", "", U, p)
		got := ip.loadLeaf(res.st, p, U)
		c.ok(got == ip.val(ip.bitop(tokOR, old, ip.bigTerm(b, U), U)), n, c.r.pos(f.Pos()), "%s leaves %s, expected exactly its flag bits to be added", n, ip.showMT(got))
	}
	{
		n := "(*Ticks).SetLeapSecondDirection"
		ip, f, res, p := run(n)
		old := ip.mk("ld", "", U, p)
		neg := ip.val(ip.mk("param", f.Params[1].Name(), f.Params[1].Type()))
		inv := new(big.Int).Xor(dir, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1)))
		want := ip.ite(neg, ip.val(ip.bitop(tokOR, old, ip.bigTerm(dir, U), U)), ip.val(ip.bitop(tokAND, old, ip.bigTerm(inv, U), U)))
		got := ip.loadLeaf(res.st, p, U)
		c.ok(got == want, n, c.r.pos(f.Pos()), "%s leaves %s", n, ip.showMT(got))
	}
	// Now and UtcNow go through FromTime of the current time
	for _, n := range []string{"Now", "UtcNow"} {
		f := c.r.fn("ticks." + n)
		ip := newInterp(c.r)
		ip.obl = false
		ft := c.r.fn("ticks.FromTime")
		var arg *Term
		ip.onCall = func(in ssa.CallInstruction, callee *ssa.Function, args []*MT, st *State, pc *MT) ([]*MT, bool) {
			if callee == ft {
				arg = ip.asTerm(args[0])
				return []*MT{ip.val(ip.mk("marker", "", U))}, true
			}
			return nil, false
		}
		res := ip.analyze(f)
		good := arg != nil && res.rets[0] == ip.val(ip.mk("marker", "", U))
		for good && arg.op == "pure" && strings.HasPrefix(arg.str, "(time.Time).") {
			good = arg.str == "(time.Time).UTC" || arg.str == "(time.Time).Local"
			arg = arg.args[0]
		}
		c.ok(good && arg.op == "ret" && strings.HasPrefix(arg.str, "time.Now#"), n, c.r.pos(f.Pos()), "%s is not the tick count of the current time", n)
		c.count("functions", 1)
	}
	c.atLeast("functions", 17)
}

func newExact(ip *Interp) *exactEval {
	return &exactEval{ip: ip, rng: map[*Term][2]*big.Int{}, sub: map[*Term]*ineq{}}
}

func rootTerm(t *Term) *Term {
	for t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// ---- GUID ----

func checkGuid(c *Check) {
	c.rule("byte conversions are exactly the identity or the swap of the first three components, and are mutually inverse")
	c.rule("conversions never store into the caller's bytes and results share no memory with them")
	c.rule("comparison is a lexicographic total order over all sixteen bytes that agrees with equality")
	swap := []int64{3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15}
	u8 := types.Typ[types.Uint8]
	for _, sw := range []bool{false, true} {
		perm := func(i int64) int64 {
			if sw {
				return swap[i]
			}
			return i
		}
		// FromBytes
		{
			f := c.r.fn("guid.FromBytes")
			ip := newInterp(c.r)
			ip.obl = false
			data := ip.mk("param", "data", f.Params[0].Type())
			res := ip.run(f, []*MT{ip.val(data), ip.boolMT(sw)}, nil, ip.newState(), ip.True)
			pos := c.r.pos(f.Pos())
			short := ip.compare(tokLSS, ip.lenOf(data), ip.intTerm(16, tInt))
			var want []*Term
			for i := int64(0); i < 16; i++ {
				want = append(want, ip.mk("ld", "", u8, ip.eaddrAt(data, perm(i), u8)))
			}
			got := res.rets[0]
			okv := true
			for i := int64(0); i < 16; i++ {
				ev := ip.apply1(got, func(t *Term) *MT { return ip.indexLeaf(t, ip.intTerm(i, tInt), u8) })
				if !ip.equalUnder(ev, ip.val(want[i]), ip.not(short)) {
					okv = false
				}
			}
			c.ok(okv, "FromBytes", pos, "FromBytes(swap=%v) does not take the documented bytes: %s", sw, ip.showMT(got))
			errNil := ip.apply1(res.rets[1], func(t *Term) *MT { return ip.eqTerms(t, ip.mk("nil", "", nil)) })
			c.ok(errNil == ip.not(short), "FromBytes", pos, "FromBytes(swap=%v) reports an error exactly when %s, expected exactly for fewer than 16 bytes", sw, ip.showMT(ip.not(errNil)))
			guidNoWrites(c, ip, data, "FromBytes")
			c.count("conversions", 1)
		}
		// ToBytes
		{
			f := c.r.fn("guid.(Guid).ToBytes")
			ip := newInterp(c.r)
			ip.obl = false
			g := ip.mk("param", "g", f.Params[0].Type())
			res := ip.run(f, []*MT{ip.val(g), ip.boolMT(sw)}, nil, ip.newState(), ip.True)
			pos := c.r.pos(f.Pos())
			r := res.rets[0]
			if c.ok(r.atom < 0, "ToBytes", pos, "ToBytes result depends on a condition") {
				n, ok := ip.lenOf(r.leaf).intVal()
				c.ok(ok && n == 16, "ToBytes", pos, "ToBytes(swap=%v) does not return 16 bytes", sw)
				root := rootOf(r.leaf)
				c.ok(root.op == "alloc" || root.op == "makeslice", "ToBytes", pos, "ToBytes(swap=%v) does not return a fresh copy", sw)
				for i := int64(0); i < 16; i++ {
					b := ip.loadLeaf(res.st, ip.eaddrAt(r.leaf, i, u8), u8)
					want := ip.indexLeaf(g, ip.intTerm(perm(i), tInt), u8)
					c.ok(b == want, "ToBytes", pos, "ToBytes(swap=%v) byte %d is %s, expected %s", sw, i, ip.showMT(b), ip.showMT(want))
				}
			}
			c.count("conversions", 1)
		}
	}
	// equality
	for _, n := range []string{"guid.Equal", "guid.(Guid).Equal"} {
		f := c.r.fn(n)
		ip := newInterp(c.r)
		ip.obl = false
		res := ip.analyze(f)
		a, b := ip.mk("param", f.Params[0].Name(), f.Params[0].Type()), ip.mk("param", f.Params[1].Name(), f.Params[1].Type())
		guidEquality(c, ip, n, c.r.pos(f.Pos()), res.rets[0], func(i int64) (*Term, *Term) {
			return ip.indexLeaf(a, ip.intTerm(i, tInt), u8).leaf, ip.indexLeaf(b, ip.intTerm(i, tInt), u8).leaf
		}, ip.eqTerms(a, b))
	}
	{
		f := c.r.fn("guid.(Guid).IsZero")
		ip := newInterp(c.r)
		ip.obl = false
		res := ip.analyze(f)
		g := ip.mk("param", f.Params[0].Name(), f.Params[0].Type())
		guidEquality(c, ip, "guid.(Guid).IsZero", c.r.pos(f.Pos()), res.rets[0], func(i int64) (*Term, *Term) {
			return ip.indexLeaf(g, ip.intTerm(i, tInt), u8).leaf, ip.intTerm(0, u8)
		}, nil)
		// the published zero value is never changed
		writes := 0
		for _, fn := range c.r.funcs {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if gl := globalRoot(st.Addr); gl != nil && gl.Name() == "Empty" && gl.Pkg.Pkg.Name() == "guid" {
							writes++
							c.ok(false, "Empty", c.r.instrPos(in), "guid.Empty is modified")
						}
					}
				}
			}
		}
		c.count("conversions", 1)
	}
	for _, n := range []string{"guid.Compare", "guid.(Guid).Compare"} {
		f := c.r.fn(n)
		guidCompare(c, f, n)
	}
	// components
	{
		f := c.r.fn("guid.(Guid).Components")
		ip := newInterp(c.r)
		ip.obl = false
		res := ip.analyze(f)
		g := ip.mk("param", f.Params[0].Name(), f.Params[0].Type())
		pos := c.r.pos(f.Pos())
		for i, w := range []struct {
			op  string
			off int64
			typ types.Type
		}{{"be32", 0, types.Typ[types.Uint32]}, {"be16", 4, types.Typ[types.Uint16]}, {"be16", 6, types.Typ[types.Uint16]}} {
			want := ip.val(ip.mk(w.op, "", w.typ, g, ip.intTerm(w.off, tInt)))
			c.ok(res.rets[i] == want, "Components", pos, "component %d is %s, expected %s", i, ip.showMT(res.rets[i]), ip.showMT(want))
		}
		for i := int64(0); i < 8; i++ {
			got := ip.apply1(res.rets[3], func(t *Term) *MT { return ip.indexLeaf(t, ip.intTerm(i, tInt), u8) })
			c.ok(got == ip.indexLeaf(g, ip.intTerm(8+i, tInt), u8), "Components", pos, "component byte %d is %s", 8+i, ip.showMT(got))
		}
		c.count("conversions", 1)
	}
	// text
	{
		f := c.r.fn("guid.(Guid).String")
		ip := newInterp(c.r)
		ip.obl = false
		res := ip.analyze(f)
		g := ip.mk("param", f.Params[0].Name(), f.Params[0].Type())
		S := types.Typ[types.String]
		want := ip.val(ip.cat([]*Term{ip.constTerm(constant.MakeString("{"), S), ip.mk("pure", "(github.com/google/uuid.UUID).String", S, g), ip.constTerm(constant.MakeString("}"), S)}, S))
		c.ok(res.rets[0] == want, "String", c.r.pos(f.Pos()), "String is %s", ip.showMT(res.rets[0]))
		f = c.r.fn("guid.Parse")
		ip = newInterp(c.r)
		ip.obl = false
		res = ip.analyze(f)
		s := ip.mk("param", f.Params[0].Name(), f.Params[0].Type())
		ok0 := false
		if t := res.rets[1]; t.atom < 0 && t.leaf.op == "pure" && t.leaf.str == "github.com/google/uuid.Parse:1" && t.leaf.args[0] == s {
			ok0 = true
		}
		v := res.rets[0]
		vOK := true
		for _, t := range ip.leavesUnder(v, ip.True) {
			if !(t.op == "pure" && t.str == "github.com/google/uuid.Parse:0" && t.args[0] == s) {
				vOK = false
			}
		}
		c.ok(ok0 && vOK, "Parse", c.r.pos(f.Pos()), "Parse is %s, %s; expected the parsed value of its argument", ip.showMT(v), ip.showMT(res.rets[1]))
		c.count("conversions", 2)
	}
	c.atLeast("conversions", 8)
}

// guidEquality accepts a test of the sixteen bytes or of the whole values.
func guidEquality(c *Check, ip *Interp, name, pos string, got *MT, pair func(int64) (*Term, *Term), whole *MT) {
	c.count("conversions", 1)
	if whole != nil && got == whole {
		return
	}
	want := ip.True
	for i := int64(0); i < 16; i++ {
		a, b := pair(i)
		want = ip.and(want, ip.compare(tokEQL, a, b))
	}
	if got == want {
		return
	}
	// comparison with the never-modified zero value
	if got.atom >= 0 {
		a := ip.atoms[got.atom]
		if a.op == "eq" && got.hi == ip.True && got.lo == ip.False {
			x, y := a.args[0], a.args[1]
			for k := 0; k < 2; k++ {
				if x.op == "param" && (y.op == "ld" && strings.HasSuffix(ip.show(y.args[0]), "guid.Empty") || y.op == "mkarray" && allZero(y)) {
					if strings.HasSuffix(name, "IsZero") {
						return
					}
				}
				x, y = y, x
			}
		}
	}
	c.ok(false, name, pos, "%s is %s, expected equality of all sixteen bytes", name, ip.showMT(got))
}

func allZero(t *Term) bool {
	for _, a := range t.args {
		if n, ok := a.intVal(); !ok || n != 0 {
			return false
		}
	}
	return true
}

func guidNoWrites(c *Check, ip *Interp, data *Term, name string) {
	for _, e := range ip.effects {
		if e.kind != "store" && e.kind != "copy" {
			continue
		}
		for t := range ip.leafConds(e.args[0]) {
			c.ok(rootOf(t) != data, name, c.r.instrPos(e.instr), "%s writes into the caller's bytes", name)
		}
	}
}

// guidCompare decides that a comparator is a lexicographic total order.
func guidCompare(c *Check, f *ssa.Function, name string) {
	ip := newInterp(c.r)
	ip.obl = false
	res := ip.analyze(f)
	pos := c.r.pos(f.Pos())
	a, b := ip.mk("param", f.Params[0].Name(), f.Params[0].Type()), ip.mk("param", f.Params[1].Name(), f.Params[1].Type())
	covered := map[int64]bool{}
	keyOf := func(t *Term, root *Term) bool {
		if !isUnsigned(t.typ) {
			return false
		}
		switch t.op {
		case "idx", "be16", "be32", "be64":
			if t.args[0] != root || t.str != "" {
				return false
			}
			_, ok := t.args[1].intVal()
			return ok
		}
		return false
	}
	why := lexOrder(ip, res.rets[0], func(x, y *Term) (string, int) {
		// returns key name and +1 when x belongs to a and y to b, -1 swapped
		dirn := 0
		if keyOf(x, a) && keyOf(y, b) {
			dirn = 1
		} else if keyOf(x, b) && keyOf(y, a) {
			dirn = -1
			x, y = y, x
		}
		if dirn == 0 || x.op != y.op || x.args[1] != y.args[1] {
			return "", 0
		}
		off, _ := x.args[1].intVal()
		w := map[string]int64{"idx": 1, "be16": 2, "be32": 4, "be64": 8}[x.op]
		for i := int64(0); i < w; i++ {
			covered[off+i] = true
		}
		return fmt.Sprintf("%s@%d", x.op, off), dirn
	}, false)
	c.ok(why == "", name, pos, "%s is not a total order: %s", name, why)
	c.ok(why != "" || len(covered) == 16, name, pos, "%s ignores some of the sixteen bytes", name)
	c.count("conversions", 1)
}

// lexOrder decides whether a three-way result is a lexicographic comparison of
// the keys recognised by pair; it returns "" or the reason it is not.
func lexOrder(ip *Interp, m *MT, pair func(x, y *Term) (string, int), _ bool) string {
	var keys []string
	seen := map[string]bool{}
	type at struct {
		key string
		dir int
		op  string
	}
	info := map[int]at{}
	for _, i := range ip.support(m) {
		t := ip.atoms[i]
		if t.op != "lt" && t.op != "eq" || len(t.args) != 2 {
			return "the result depends on " + ip.show(t)
		}
		k, d := pair(t.args[0], t.args[1])
		if d == 0 {
			return "the result depends on " + ip.show(t) + ", which does not compare like with like"
		}
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
		info[i] = at{k, d, t.op}
	}
	if len(keys) == 0 {
		return "the result is constant"
	}
	// evaluate with an assignment of -1/0/+1 (or unknown) to keys
	eval := func(asg map[string]int) map[int64]bool {
		r := ip.restrictBy(m, func(t *Term) (bool, bool) {
			x := info[ip.atomOf[t]]
			v, ok := asg[x.key]
			if !ok {
				return false, false
			}
			if x.op == "eq" {
				return v == 0, true
			}
			return v*x.dir < 0, true
		})
		out := map[int64]bool{}
		for _, l := range ip.leavesUnder(r, ip.True) {
			n, ok := l.intVal()
			if !ok {
				out[99] = true
			}
			switch {
			case n < 0:
				out[-1] = true
			case n > 0:
				out[1] = true
			default:
				out[0] = true
			}
		}
		return out
	}
	only := func(o map[int64]bool, v int64) bool { return len(o) == 1 && o[v] }
	asg := map[string]int{}
	for len(asg) < len(keys) {
		found := false
		for _, k := range keys {
			if _, done := asg[k]; done {
				continue
			}
			asg[k] = -1
			lo := eval(asg)
			asg[k] = 1
			hi := eval(asg)
			delete(asg, k)
			if only(lo, -1) && only(hi, 1) {
				asg[k] = 0
				found = true
				break
			}
		}
		if !found {
			return "no remaining key decides the order on its own when the earlier ones are equal"
		}
	}
	if !only(eval(asg), 0) {
		return "equal keys do not compare as equal"
	}
	return ""
}
