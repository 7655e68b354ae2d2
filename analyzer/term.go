package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Term is a hash-consed symbolic value. Equal terms are pointer-equal.
type Term struct {
	id   int
	op   string
	str  string
	typ  types.Type
	args []*Term
	cv   constant.Value // op "const"
	mt   *MT            // op "mt": a decision diagram used as an operand
	x    any            // op-specific payload (*ssa.Function for closures)
}

// MT is a decision diagram over boolean atoms with term leaves. Diagrams are
// reduced, ordered by atom number and hash-consed: equal functions are
// pointer-equal.
type MT struct {
	id   int
	atom int
	hi   *MT
	lo   *MT
	leaf *Term
}

// World owns all hash-consing tables of one analysis.
type World struct {
	terms   map[string]*Term
	byID    map[int]*Term
	nodes   map[[3]int]*MT
	leaves  map[*Term]*MT
	atoms   []*Term
	atomOf  map[*Term]int
	True    *MT
	False   *MT
	tTrue   *Term
	tFalse  *Term
	nextMT  int
	fresh   int
	limit   int
	shown   int
	iteMemo map[[3]int]*MT
	typName map[types.Type]string
}

// Undecided is raised when an analysis cannot reach a verdict.
type Undecided struct{ msg string }

func undecided(format string, a ...any) { panic(Undecided{fmt.Sprintf(format, a...)}) }

func newWorld() *World {
	w := &World{terms: map[string]*Term{}, byID: map[int]*Term{}, nodes: map[[3]int]*MT{}, leaves: map[*Term]*MT{}, atomOf: map[*Term]int{}, limit: 4000000, iteMemo: map[[3]int]*MT{}, typName: map[types.Type]string{}}
	w.tTrue = w.mk("const", "true", types.Typ[types.Bool])
	w.tTrue.cv = constant.MakeBool(true)
	w.tFalse = w.mk("const", "false", types.Typ[types.Bool])
	w.tFalse.cv = constant.MakeBool(false)
	w.True = w.leafNode(w.tTrue)
	w.False = w.leafNode(w.tFalse)
	return w
}

func (w *World) tname(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := w.typName[t]; ok {
		return s
	}
	var s string
	if b, ok := t.(*types.Basic); ok && b.Kind() < types.UntypedBool {
		s = types.Typ[b.Kind()].Name()
	} else {
		s = typeStr(t)
	}
	w.typName[t] = s
	return s
}

var typeStrs sync.Map

func typeStr(t types.Type) string {
	if s, ok := typeStrs.Load(t); ok {
		return s.(string)
	}
	s := typeStr1(t)
	typeStrs.Store(t, s)
	return s
}

func typeStr1(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "byte") {
		s = reByte.ReplaceAllString(s, "uint8")
	}
	return s
}

var reByte = regexp.MustCompile(`\bbyte\b`)

// plain maps named and alias basic types to the predeclared type of their kind.
func plain(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() < types.UntypedBool && b.Kind() > types.Invalid {
		return types.Typ[b.Kind()]
	}
	return t
}

func (w *World) mk(op, str string, typ types.Type, args ...*Term) *Term {
	typ = plain(typ)
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(str)
	b.WriteByte('|')
	if op != "eaddr" {
		b.WriteString(w.tname(typ))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := w.terms[k]; ok {
		return t
	}
	t := &Term{id: len(w.terms), op: op, str: str, typ: typ, args: args}
	w.terms[k] = t
	w.byID[t.id] = t
	if len(w.terms) > w.limit {
		undecided("term budget exceeded")
	}
	return t
}

func (w *World) freshTerm(op, name string, typ types.Type) *Term {
	w.fresh++
	return w.mk(op, name+"#"+strconv.Itoa(w.fresh), typ)
}

func (w *World) constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return w.mk("nil", "", nil)
	}
	if v.Kind() == constant.Bool {
		if constant.BoolVal(v) {
			return w.tTrue
		}
		return w.tFalse
	}
	if isInt(typ) {
		v = constant.ToInt(v)
		v = wrapConst(v, typ)
	} else if isFloat(typ) {
		v = constant.ToFloat(v)
	}
	k := v.ExactString()
	t := w.mk("const", k, typ)
	if t.cv == nil {
		t.cv = v
	}
	return t
}

func (w *World) intTerm(n int64, typ types.Type) *Term {
	return w.constTerm(constant.MakeInt64(n), typ)
}

var tInt = types.Typ[types.Int]

func basicInfo(t types.Type) (types.BasicInfo, *types.Basic) {
	if t == nil {
		return 0, nil
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info(), b
	}
	return 0, nil
}

func isInt(t types.Type) bool      { i, _ := basicInfo(t); return i&types.IsInteger != 0 }
func isUnsigned(t types.Type) bool { i, _ := basicInfo(t); return i&types.IsUnsigned != 0 }
func isFloat(t types.Type) bool    { i, _ := basicInfo(t); return i&types.IsFloat != 0 }
func isString(t types.Type) bool   { i, _ := basicInfo(t); return i&types.IsString != 0 }
func isBool(t types.Type) bool     { i, _ := basicInfo(t); return i&types.IsBoolean != 0 }

func intBits(t types.Type) uint {
	_, b := basicInfo(t)
	if b == nil {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func intRange(t types.Type) (lo, hi *big.Int) {
	n := intBits(t)
	one := big.NewInt(1)
	if isUnsigned(t) {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, n), one)
	}
	h := new(big.Int).Lsh(one, n-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

func bigOf(v constant.Value) *big.Int {
	r := new(big.Int)
	if v.Kind() != constant.Int {
		v = constant.ToInt(v)
		if v.Kind() != constant.Int {
			undecided("not an integer constant")
		}
	}
	r.SetString(v.ExactString(), 10)
	return r
}

func wrapBig(b *big.Int, typ types.Type) *big.Int {
	n := intBits(typ)
	m := new(big.Int).Lsh(big.NewInt(1), n)
	r := new(big.Int).Mod(b, m)
	if !isUnsigned(typ) && r.Bit(int(n-1)) == 1 {
		r.Sub(r, m)
	}
	return r
}

func wrapConst(v constant.Value, typ types.Type) constant.Value {
	if v.Kind() != constant.Int {
		return v
	}
	return constant.Make(wrapBig(bigOf(v), typ))
}

func (w *World) bigTerm(b *big.Int, typ types.Type) *Term {
	return w.constTerm(constant.Make(new(big.Int).Set(b)), typ)
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t.op != "const" || t.cv == nil || t.cv.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.cv)
}

// ---- diagrams ----

func (w *World) leafNode(t *Term) *MT {
	if m, ok := w.leaves[t]; ok {
		return m
	}
	m := &MT{id: w.nextMT, atom: -1, leaf: t}
	w.nextMT++
	w.leaves[t] = m
	return m
}

func (w *World) node(atom int, hi, lo *MT) *MT {
	if hi == lo {
		return hi
	}
	if hi.atom < 0 && lo.atom < 0 && hi.leaf.isConst() && w.sameChoice(w.atoms[atom], hi.leaf, lo.leaf) {
		return lo
	}
	k := [3]int{atom, hi.id, lo.id}
	if m, ok := w.nodes[k]; ok {
		return m
	}
	m := &MT{id: w.nextMT, atom: atom, hi: hi, lo: lo}
	w.nextMT++
	if w.nextMT > w.limit {
		undecided("diagram budget exceeded")
	}
	w.nodes[k] = m
	return m
}

// sameChoice recognises "x if x is not k, else k", which is x.
func (w *World) sameChoice(c, k, x *Term) bool {
	switch c.op {
	case "lt":
		n, ok := k.intVal()
		one, ok1 := c.args[1].intVal()
		return ok && ok1 && n == 0 && one == 1 && c.args[0] == x && w.nonNeg(x)
	case "eq":
		return c.args[0] == x && c.args[1] == k && !isFloat(x.typ)
	}
	return false
}

func (w *World) atomNode(t *Term) *MT {
	i, ok := w.atomOf[t]
	if !ok {
		i = len(w.atoms)
		w.atoms = append(w.atoms, t)
		w.atomOf[t] = i
	}
	return w.node(i, w.True, w.False)
}

// val lifts a term to a diagram; boolean terms become atoms.
func (w *World) val(t *Term) *MT {
	if t.op == "mt" {
		return t.mt
	}
	if t == w.tTrue {
		return w.True
	}
	if t == w.tFalse {
		return w.False
	}
	if t.typ != nil && isBool(t.typ) && t.op != "nil" {
		return w.atomNode(t)
	}
	return w.leafNode(t)
}

// asTerm embeds a diagram as an operand.
func (w *World) asTerm(m *MT) *Term {
	if m.atom < 0 {
		return m.leaf
	}
	if m.hi == w.True && m.lo == w.False {
		return w.atoms[m.atom]
	}
	t := w.mk("mt", strconv.Itoa(m.id), nil)
	t.mt = m
	return t
}

func top(a, b *MT) int {
	switch {
	case a.atom < 0:
		return b.atom
	case b.atom < 0:
		return a.atom
	case a.atom < b.atom:
		return a.atom
	}
	return b.atom
}

func cof(m *MT, atom int, v bool) *MT {
	if m.atom != atom {
		return m
	}
	if v {
		return m.hi
	}
	return m.lo
}

func (w *World) apply1(a *MT, f func(*Term) *MT) *MT {
	memo := map[*MT]*MT{}
	var rec func(*MT) *MT
	rec = func(m *MT) *MT {
		if r, ok := memo[m]; ok {
			return r
		}
		var r *MT
		if m.atom < 0 {
			r = f(m.leaf)
		} else {
			r = w.ite(w.node(m.atom, w.True, w.False), rec(m.hi), rec(m.lo))
		}
		memo[m] = r
		return r
	}
	return rec(a)
}

func (w *World) apply2(a, b *MT, f func(x, y *Term) *MT) *MT {
	memo := map[[2]int]*MT{}
	var rec func(a, b *MT) *MT
	rec = func(a, b *MT) *MT {
		k := [2]int{a.id, b.id}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *MT
		if a.atom < 0 && b.atom < 0 {
			r = f(a.leaf, b.leaf)
		} else {
			t := top(a, b)
			r = w.ite(w.node(t, w.True, w.False), rec(cof(a, t, true), cof(b, t, true)), rec(cof(a, t, false), cof(b, t, false)))
		}
		memo[k] = r
		if len(memo) > 300000 {
			undecided("diagram product too large")
		}
		return r
	}
	return rec(a, b)
}

func (w *World) ite(c, a, b *MT) *MT {
	if a == b {
		return a
	}
	if c == w.True {
		return a
	}
	if c == w.False {
		return b
	}
	if a == w.True && b == w.False {
		return c
	}
	if c.hi == w.True && c.lo == w.False && (a.atom < 0 || a.atom > c.atom) && (b.atom < 0 || b.atom > c.atom) {
		return w.node(c.atom, a, b)
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := w.iteMemo[k]; ok {
		return r
	}
	t := top(c, a)
	if b.atom >= 0 && b.atom < t {
		t = b.atom
	}
	r := w.node(t, w.ite(cof(c, t, true), cof(a, t, true), cof(b, t, true)), w.ite(cof(c, t, false), cof(a, t, false), cof(b, t, false)))
	w.iteMemo[k] = r
	return r
}

func (w *World) and(a, b *MT) *MT { return w.ite(a, b, w.False) }
func (w *World) or(a, b *MT) *MT  { return w.ite(a, w.True, b) }
func (w *World) not(a *MT) *MT    { return w.ite(a, w.False, w.True) }
func (w *World) implies(a, b *MT) bool {
	return w.and(a, w.not(b)) == w.False
}

// simplify reduces f using care as don't-care condition (outside care the
// result is arbitrary).
func (w *World) simplify(f, care *MT) *MT {
	if care == w.False {
		return f
	}
	memo := map[[2]int]*MT{}
	var rec func(f, c *MT) *MT
	rec = func(f, c *MT) *MT {
		if c == w.True || f.atom < 0 {
			return f
		}
		k := [2]int{f.id, c.id}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *MT
		t := top(f, c)
		if c.atom == t {
			if c.hi == w.False {
				r = rec(cof(f, t, false), c.lo)
			} else if c.lo == w.False {
				r = rec(cof(f, t, true), c.hi)
			} else if f.atom != t {
				r = rec(f, w.or(c.hi, c.lo))
			}
		}
		if r == nil {
			r = w.node(t, rec(cof(f, t, true), cof(c, t, true)), rec(cof(f, t, false), cof(c, t, false)))
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}

// leavesUnder lists the leaves of m reachable under pc.
func (w *World) leavesUnder(m, pc *MT) []*Term {
	seen := map[[2]int]bool{}
	out := map[*Term]bool{}
	var rec func(m, c *MT)
	rec = func(m, c *MT) {
		if c == w.False {
			return
		}
		k := [2]int{m.id, c.id}
		if seen[k] {
			return
		}
		seen[k] = true
		if m.atom < 0 {
			out[m.leaf] = true
			return
		}
		t := top(m, c)
		rec(cof(m, t, true), cof(c, t, true))
		rec(cof(m, t, false), cof(c, t, false))
	}
	rec(m, pc)
	var l []*Term
	for t := range out {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// equalUnder reports whether a and b agree wherever pc holds.
func (w *World) equalUnder(a, b, pc *MT) bool {
	seen := map[[3]int]bool{}
	var rec func(a, b, c *MT) bool
	rec = func(a, b, c *MT) bool {
		if c == w.False || a == b {
			return true
		}
		k := [3]int{a.id, b.id, c.id}
		if v, ok := seen[k]; ok {
			return v
		}
		r := false
		if a.atom >= 0 || b.atom >= 0 {
			t := top(a, b)
			if c.atom >= 0 && c.atom < t {
				t = c.atom
			}
			r = rec(cof(a, t, true), cof(b, t, true), cof(c, t, true)) && rec(cof(a, t, false), cof(b, t, false), cof(c, t, false))
		}
		seen[k] = r
		return r
	}
	return rec(a, b, pc)
}

// restrictBy replaces atoms by the truth value decide gives them.
func (w *World) restrictBy(m *MT, decide func(*Term) (bool, bool)) *MT {
	memo := map[*MT]*MT{}
	dec := map[int]int{}
	var rec func(*MT) *MT
	rec = func(m *MT) *MT {
		if m.atom < 0 {
			return m
		}
		if r, ok := memo[m]; ok {
			return r
		}
		d, ok := dec[m.atom]
		if !ok {
			v, known := decide(w.atoms[m.atom])
			d = 0
			if known {
				d = 2
				if v {
					d = 1
				}
			}
			dec[m.atom] = d
		}
		var r *MT
		switch d {
		case 1:
			r = rec(m.hi)
		case 2:
			r = rec(m.lo)
		default:
			r = w.node(m.atom, rec(m.hi), rec(m.lo))
		}
		memo[m] = r
		return r
	}
	return rec(m)
}

// Literals implied by the condition pc.
type Lit struct {
	atom *Term
	val  bool
}

func (w *World) support(m *MT) []int {
	seen := map[*MT]bool{}
	s := map[int]bool{}
	var rec func(*MT)
	rec = func(m *MT) {
		if m.atom < 0 || seen[m] {
			return
		}
		seen[m] = true
		s[m.atom] = true
		rec(m.hi)
		rec(m.lo)
	}
	rec(m)
	var l []int
	for a := range s {
		l = append(l, a)
	}
	sort.Ints(l)
	return l
}

func (w *World) implied(pc *MT) []Lit {
	var out []Lit
	for _, a := range w.support(pc) {
		n := w.node(a, w.True, w.False)
		if w.and(pc, w.not(n)) == w.False {
			out = append(out, Lit{w.atoms[a], true})
		} else if w.and(pc, n) == w.False {
			out = append(out, Lit{w.atoms[a], false})
		}
	}
	return out
}

// cubes enumerates the satisfying paths of pc (at most max).
func (w *World) cubes(pc *MT, max int) ([][]Lit, bool) {
	var out [][]Lit
	ok := true
	var rec func(m *MT, cur []Lit)
	rec = func(m *MT, cur []Lit) {
		if !ok || m == w.False {
			return
		}
		if m == w.True {
			if len(out) >= max {
				ok = false
				return
			}
			out = append(out, append([]Lit(nil), cur...))
			return
		}
		if m.atom < 0 {
			ok = false
			return
		}
		rec(m.hi, append(cur, Lit{w.atoms[m.atom], true}))
		rec(m.lo, append(cur, Lit{w.atoms[m.atom], false}))
	}
	rec(pc, nil)
	return out, ok
}

// ---- arithmetic ----

type linForm struct {
	c     *big.Int
	terms []*Term
	coef  []*big.Int
}

func (w *World) linOf(t *Term) linForm {
	switch {
	case t.op == "const" && t.cv != nil && t.cv.Kind() == constant.Int:
		return linForm{c: bigOf(t.cv)}
	case t.op == "lin":
		n := len(t.args)
		lf := linForm{c: new(big.Int)}
		parts := strings.Split(t.str, ",")
		lf.c.SetString(parts[0], 10)
		for i := 0; i < n; i++ {
			c := new(big.Int)
			c.SetString(parts[i+1], 10)
			lf.terms = append(lf.terms, t.args[i])
			lf.coef = append(lf.coef, c)
		}
		return lf
	}
	return linForm{c: new(big.Int), terms: []*Term{t}, coef: []*big.Int{big.NewInt(1)}}
}

func addLin(a, b linForm, k *big.Int) linForm {
	m := map[*Term]*big.Int{}
	for i, t := range a.terms {
		m[t] = new(big.Int).Set(a.coef[i])
	}
	for i, t := range b.terms {
		d := new(big.Int).Mul(b.coef[i], k)
		if e, ok := m[t]; ok {
			e.Add(e, d)
		} else {
			m[t] = d
		}
	}
	r := linForm{c: new(big.Int).Add(a.c, new(big.Int).Mul(b.c, k))}
	var l []*Term
	for t, c := range m {
		if c.Sign() != 0 {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, t := range l {
		r.terms = append(r.terms, t)
		r.coef = append(r.coef, m[t])
	}
	return r
}

func (w *World) fromLin(l linForm, typ types.Type) *Term {
	mod := linForm{c: wrapBig(l.c, typ)}
	for i, t := range l.terms {
		c := wrapBig(l.coef[i], typ)
		// keep small negative coefficients readable for unsigned types
		if c.Sign() != 0 {
			if isUnsigned(typ) {
				half := new(big.Int).Lsh(big.NewInt(1), intBits(typ)-1)
				if c.Cmp(half) >= 0 {
					c = new(big.Int).Sub(c, new(big.Int).Lsh(half, 1))
				}
			}
			mod.terms = append(mod.terms, t)
			mod.coef = append(mod.coef, c)
		}
	}
	if len(mod.terms) == 0 {
		return w.bigTerm(mod.c, typ)
	}
	if isUnsigned(typ) {
		half := new(big.Int).Lsh(big.NewInt(1), intBits(typ)-1)
		if mod.c.Cmp(half) >= 0 {
			mod.c = new(big.Int).Sub(mod.c, new(big.Int).Lsh(half, 1))
		}
	}
	if mod.c.Sign() == 0 && len(mod.terms) == 1 && mod.coef[0].Cmp(big.NewInt(1)) == 0 {
		return mod.terms[0]
	}
	s := mod.c.String()
	for _, c := range mod.coef {
		s += "," + c.String()
	}
	return w.mk("lin", s, typ, mod.terms...)
}

// bin builds a normalised binary operation on terms; comparisons return a
// boolean diagram.
func (w *World) bin(op token.Token, x, y *Term, typ types.Type) *MT {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return w.compare(op, x, y)
	}
	return w.val(w.arith(op, x, y, typ))
}

func (w *World) arith(op token.Token, x, y *Term, typ types.Type) *Term {
	if isInt(typ) {
		if x.isConst() && y.isConst() {
			a, b := bigOf(x.cv), bigOf(y.cv)
			switch op {
			case token.ADD:
				return w.bigTerm(a.Add(a, b), typ)
			case token.SUB:
				return w.bigTerm(a.Sub(a, b), typ)
			case token.MUL:
				return w.bigTerm(a.Mul(a, b), typ)
			case token.QUO:
				if b.Sign() != 0 {
					return w.bigTerm(a.Quo(a, b), typ)
				}
			case token.REM:
				if b.Sign() != 0 {
					return w.bigTerm(a.Rem(a, b), typ)
				}
			case token.AND:
				return w.bigTerm(a.And(a, b), typ)
			case token.OR:
				return w.bigTerm(a.Or(a, b), typ)
			case token.XOR:
				return w.bigTerm(a.Xor(a, b), typ)
			case token.AND_NOT:
				return w.bigTerm(a.AndNot(a, b), typ)
			case token.SHL:
				if b.IsInt64() && b.Int64() >= 0 && b.Int64() < 128 {
					return w.bigTerm(a.Lsh(a, uint(b.Int64())), typ)
				}
			case token.SHR:
				if b.IsInt64() && b.Int64() >= 0 && b.Int64() < 128 {
					return w.bigTerm(a.Rsh(a, uint(b.Int64())), typ)
				}
			}
		}
		switch op {
		case token.ADD:
			return w.fromLin(addLin(w.linOf(x), w.linOf(y), big.NewInt(1)), typ)
		case token.SUB:
			return w.fromLin(addLin(w.linOf(x), w.linOf(y), big.NewInt(-1)), typ)
		case token.MUL:
			if y.isConst() {
				return w.fromLin(addLin(linForm{c: new(big.Int)}, w.linOf(x), bigOf(y.cv)), typ)
			}
			if x.isConst() {
				return w.fromLin(addLin(linForm{c: new(big.Int)}, w.linOf(y), bigOf(x.cv)), typ)
			}
			if y.id < x.id {
				x, y = y, x
			}
			return w.mk("bin", "*", typ, x, y)
		case token.AND_NOT:
			if y.isConst() {
				n := new(big.Int).Not(bigOf(y.cv))
				return w.arith(token.AND, x, w.bigTerm(n, typ), typ)
			}
			return w.arith(token.AND, x, w.arith(token.XOR, y, w.bigTerm(big.NewInt(-1), typ), typ), typ)
		case token.AND, token.OR, token.XOR:
			return w.bitop(op, x, y, typ)
		case token.SHL, token.SHR:
			if y.isConst() {
				if bigOf(y.cv).Sign() == 0 {
					return x
				}
				// shift amount type is irrelevant
				y = w.bigTerm(bigOf(y.cv), types.Typ[types.Uint])
			}
			if x.isConst() && bigOf(x.cv).Sign() == 0 {
				return x
			}
			return w.mk("bin", op.String(), typ, x, y)
		}
		return w.mk("bin", op.String(), typ, x, y)
	}
	if isString(typ) && op == token.ADD {
		var parts []*Term
		add := func(t *Term) {
			if t.op == "cat" {
				for _, a := range t.args {
					parts = append(parts, a)
				}
				return
			}
			parts = append(parts, t)
		}
		add(x)
		add(y)
		return w.cat(parts, typ)
	}
	if isFloat(typ) {
		if x.isConst() && y.isConst() && (op == token.ADD || op == token.SUB || op == token.MUL) {
			return w.constTerm(constant.BinaryOp(x.cv, op, y.cv), typ)
		}
		if (op == token.ADD || op == token.MUL) && y.id < x.id {
			x, y = y, x
		}
	}
	return w.mk("bin", op.String(), typ, x, y)
}

func (w *World) cat(parts []*Term, typ types.Type) *Term {
	var out, flat []*Term
	for _, p := range parts {
		if p.op == "cat" {
			flat = append(flat, p.args...)
		} else {
			flat = append(flat, p)
		}
	}
	for _, p := range flat {
		if p.isConst() && constant.StringVal(p.cv) == "" {
			continue
		}
		if n := len(out); n > 0 && p.isConst() && out[n-1].isConst() {
			out[n-1] = w.constTerm(constant.MakeString(constant.StringVal(out[n-1].cv)+constant.StringVal(p.cv)), types.Typ[types.String])
			continue
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return w.constTerm(constant.MakeString(""), types.Typ[types.String])
	}
	if len(out) == 1 {
		return out[0]
	}
	return w.mk("cat", "", types.Typ[types.String], out...)
}

func (w *World) bitop(op token.Token, x, y *Term, typ types.Type) *Term {
	name := op.String()
	typ = plain(typ)
	m := map[*Term]int{}
	var order []*Term
	var cst *big.Int
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "bit" && t.str == name && types.Identical(t.typ, typ) {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.isConst() {
			b := bigOf(t.cv)
			if cst == nil {
				cst = b
			} else {
				switch op {
				case token.AND:
					cst = new(big.Int).And(cst, b)
				case token.OR:
					cst = new(big.Int).Or(cst, b)
				default:
					cst = new(big.Int).Xor(cst, b)
				}
			}
			return
		}
		if m[t] == 0 {
			order = append(order, t)
		}
		m[t]++
	}
	add(x)
	add(y)
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var args []*Term
	for _, t := range order {
		if op == token.XOR {
			if m[t]%2 == 1 {
				args = append(args, t)
			}
		} else {
			args = append(args, t)
		}
	}
	ones := wrapBig(big.NewInt(-1), typ)
	if cst != nil {
		switch op {
		case token.AND:
			if cst.Sign() == 0 {
				return w.intTerm(0, typ)
			}
			if cst.Cmp(ones) == 0 {
				cst = nil
			}
		default:
			if cst.Sign() == 0 {
				cst = nil
			}
		}
	}
	// distribute a constant mask over an or with a constant part
	if op == token.AND && cst != nil && len(args) == 1 && args[0].op == "bit" && args[0].str == "|" && args[0].args[0].isConst() {
		r := w.intTerm(0, typ)
		for _, a := range args[0].args {
			r = w.bitop(token.OR, r, w.bitop(token.AND, w.bigTerm(cst, typ), a, typ), typ)
		}
		return r
	}
	if cst != nil {
		args = append([]*Term{w.bigTerm(cst, typ)}, args...)
	}
	if len(args) == 0 {
		if op == token.AND {
			return w.bigTerm(ones, typ)
		}
		return w.intTerm(0, typ)
	}
	if len(args) == 1 {
		return args[0]
	}
	return w.mk("bit", name, typ, args...)
}

func (w *World) boolMT(b bool) *MT {
	if b {
		return w.True
	}
	return w.False
}

func (w *World) nonNeg(t *Term) bool {
	return isUnsigned(t.typ) || t.op == "len" || t.op == "cap" || isIteration(t)
}

// isIteration recognises the number of an iteration (see settled), which is
// not negative.
func isIteration(t *Term) bool { return t.op == "phi" && strings.Contains(t.str, ".n.int#") }

func (w *World) compare(op token.Token, x, y *Term) *MT {
	switch op {
	case token.NEQ:
		return w.not(w.compare(token.EQL, x, y))
	case token.GTR:
		return w.compare(token.LSS, y, x)
	case token.GEQ:
		return w.compare(token.LEQ, y, x)
	case token.LEQ:
		if isFloat(x.typ) || isFloat(y.typ) {
			return w.or(w.compare(token.LSS, x, y), w.compare(token.EQL, x, y)) // not the negation of y < x: NaN
		}
		return w.not(w.compare(token.LSS, y, x))
	}
	if x.isConst() && y.isConst() && x.cv.Kind() != constant.Unknown && y.cv.Kind() != constant.Unknown && kindsCompatible(x.cv, y.cv) {
		return w.boolMT(constant.Compare(x.cv, op, y.cv))
	}
	if op == token.EQL {
		if x == y && !isFloat(x.typ) {
			return w.True
		}
		if x.op == "nil" && y.op == "nil" {
			return w.True
		}
		if x.op == "nil" {
			x, y = y, x
		}
		if y.op == "nil" {
			switch x.op {
			case "alloc", "faddr", "eaddr", "makeiface", "closure", "func", "makemap", "makeslice", "makechan", "global", "const":
				return w.False
			}
			n := w.atomNode(w.mk("isnil", "", types.Typ[types.Bool], x))
			if x.typ != nil && x.op != "slice" {
				if _, ok := x.typ.Underlying().(*types.Slice); ok {
					// a nil slice is empty
					return w.and(n, w.compare(token.LSS, w.lenOf(x), w.intTerm(1, tInt)))
				}
			}
			return n
		}
		if x.op == "alloc" && y.op == "alloc" {
			return w.False
		}
		if x.typ != nil && isBool(x.typ) {
			a, b := w.val(x), w.val(y)
			return w.ite(a, b, w.not(b))
		}
		if isInt(x.typ) && isInt(y.typ) {
			// normalise  a == b  for linear forms differing by a constant
			d := addLin(w.linOf(x), w.linOf(y), big.NewInt(-1))
			if len(d.terms) == 0 {
				return w.boolMT(wrapBig(d.c, x.typ).Sign() == 0)
			}
			if y.isConst() || x.isConst() {
				if x.isConst() {
					x, y = y, x
				}
				l := w.linOf(x)
				if len(l.terms) == 1 && l.coef[0].Cmp(big.NewInt(1)) == 0 && l.c.Sign() != 0 {
					y = w.bigTerm(new(big.Int).Sub(bigOf(y.cv), l.c), x.typ)
					x = l.terms[0]
				}
				if x.op == "conv" && valuePreserving(x.args[0].typ, x.typ) {
					lo, hi := intRange(x.args[0].typ)
					if c := bigOf(y.cv); c.Cmp(lo) < 0 || c.Cmp(hi) > 0 {
						return w.False
					}
					return w.compare(token.EQL, x.args[0], w.bigTerm(bigOf(y.cv), x.args[0].typ))
				}
				if w.nonNeg(x) && bigOf(y.cv).Sign() == 0 {
					return w.lt(x, w.intTerm(1, x.typ))
				}
				if _, named := types.Unalias(x.typ).(*types.Named); bigOf(y.cv).Sign() == 0 && !named && (x.op == "pure" || x.op == "ret") {
					// results of comparisons are as likely tested for their sign
					return w.and(w.not(w.lt(x, w.intTerm(0, x.typ))), w.lt(x, w.intTerm(1, x.typ)))
				}
				if m := w.maskTest(x, bigOf(y.cv)); m != nil {
					return m
				}
				// an int result of a comparison-like diagram never gets here
				return w.atomNode(w.mk("eq", "", types.Typ[types.Bool], x, y))
			}
		}
		if isString(x.typ) {
			if y.isConst() && constant.StringVal(y.cv) == "" {
				return w.lt(w.lenOf(x), w.intTerm(1, tInt))
			}
			if x.isConst() && constant.StringVal(x.cv) == "" {
				return w.lt(w.lenOf(y), w.intTerm(1, tInt))
			}
		}
		if y.id < x.id {
			x, y = y, x
		}
		if x.isConst() {
			x, y = y, x
		}
		return w.atomNode(w.mk("eq", "", types.Typ[types.Bool], x, y))
	}
	// LSS
	return w.lt(x, y)
}

// ordered expresses x < y in a form shared by all orderings of x and y: they
// are equal, or one of two orders holds, or (for floats) neither.
func (w *World) ordered(kind string, eq *MT, x, y *Term, total bool) *MT {
	p, q := x, y
	if q.id < p.id {
		p, q = q, p
	}
	B := types.Typ[types.Bool]
	below := w.atomNode(w.mk("below", kind, B, p, q))
	if x == p {
		return w.and(w.not(eq), below)
	}
	above := w.not(below)
	if !total {
		above = w.and(above, w.atomNode(w.mk("above", kind, B, p, q)))
	}
	return w.and(w.not(eq), above)
}

// orderedCall expresses comparison methods of a type with a total order.
func (w *World) orderedCall(kind, method string, x, y *Term, typ types.Type) *MT {
	eq := w.True
	lt, gt := w.False, w.False
	if x != y {
		p, q := x, y
		if q.id < p.id {
			p, q = q, p
		}
		if kind == "string" {
			eq = w.compare(token.EQL, x, y)
		} else {
			eq = w.atomNode(w.mk("alike", kind, types.Typ[types.Bool], p, q))
		}
		lt, gt = w.ordered(kind, eq, x, y, true), w.ordered(kind, eq, y, x, true)
	}
	switch method {
	case "Cmp", "Compare":
		n := func(i int64) *MT { return w.val(w.intTerm(i, typ)) }
		return w.ite(eq, n(0), w.ite(lt, n(-1), n(1)))
	case "Equal", "Equals":
		return eq
	case "Before", "LessThan":
		return lt
	case "After", "GreaterThan":
		return gt
	case "LessThanOrEqual":
		return w.not(gt)
	case "GreaterThanOrEqual":
		return w.not(lt)
	}
	return nil
}

func kindsCompatible(a, b constant.Value) bool {
	num := func(k constant.Kind) bool { return k == constant.Int || k == constant.Float }
	return a.Kind() == b.Kind() || num(a.Kind()) && num(b.Kind())
}

// maskTest expresses x&m == v bit by bit.
func (w *World) maskTest(x *Term, v *big.Int) *MT {
	if x.op != "bit" || x.str != "&" || !x.args[0].isConst() || !isUnsigned(x.typ) {
		return nil
	}
	m := bigOf(x.args[0].cv)
	if new(big.Int).AndNot(v, m).Sign() != 0 {
		return w.False
	}
	n := 0
	for i := 0; i < m.BitLen(); i++ {
		n += int(m.Bit(i))
	}
	if n == 0 || n > 8 || n == 1 && v.Sign() == 0 {
		return nil
	}
	r := w.True
	for i := 0; i < m.BitLen(); i++ {
		if m.Bit(i) == 1 {
			one := w.lt(w.bitop(token.AND, x.args[1], w.bigTerm(new(big.Int).Lsh(big.NewInt(1), uint(i)), x.typ), x.typ), w.intTerm(1, x.typ))
			if v.Bit(i) == 1 {
				one = w.not(one)
			}
			r = w.and(r, one)
		}
	}
	return r
}

func (w *World) lt(x, y *Term) *MT {
	B := types.Typ[types.Bool]
	if n, ok := y.intVal(); ok && n == 1 {
		if m := w.maskTest(x, new(big.Int)); m != nil {
			return m
		}
	}
	if x == y && !isFloat(x.typ) {
		return w.False
	}
	if isInt(x.typ) && isInt(y.typ) {
		if x.isConst() && y.isConst() {
			return w.boolMT(bigOf(x.cv).Cmp(bigOf(y.cv)) < 0)
		}
		// canonical: constant on the right
		if x.isConst() {
			c := bigOf(x.cv)
			_, hi := intRange(x.typ)
			if c.Cmp(hi) >= 0 {
				return w.False
			}
			return w.not(w.lt(y, w.bigTerm(new(big.Int).Add(c, big.NewInt(1)), y.typ)))
		}
		if y.isConst() {
			c := bigOf(y.cv)
			lo, hi := intRange(x.typ)
			if w.nonNeg(x) {
				lo = big.NewInt(0)
			}
			if c.Cmp(lo) <= 0 {
				return w.False
			}
			if c.Cmp(hi) > 0 {
				return w.True
			}
		}
	}
	// widening both sides keeps the order
	if x.op == "conv" && y.op == "conv" && isInt(x.typ) && valuePreserving(x.args[0].typ, x.typ) && valuePreserving(y.args[0].typ, y.typ) && types.Identical(x.args[0].typ, y.args[0].typ) {
		return w.lt(x.args[0], y.args[0])
	}
	if isString(x.typ) && isString(y.typ) {
		return w.ordered("string", w.compare(token.EQL, x, y), x, y, true)
	}
	if isFloat(x.typ) && isFloat(y.typ) {
		return w.ordered("float", w.compare(token.EQL, x, y), x, y, false)
	}
	return w.atomNode(w.mk("lt", "", B, x, y))
}

func (w *World) lenOf(x *Term) *Term {
	switch {
	case x.op == "const" && x.cv.Kind() == constant.String:
		return w.intTerm(int64(len(constant.StringVal(x.cv))), tInt)
	case x.op == "nil":
		return w.intTerm(0, tInt)
	case x.op == "slice":
		lo, hi := x.args[1], x.args[2]
		if hi.op == "none" {
			return w.arith(token.SUB, w.lenOf(x.args[0]), lo, tInt)
		}
		return w.arith(token.SUB, hi, lo, tInt)
	case x.op == "makeslice":
		return x.args[0]
	case x.op == "append1":
		return w.arith(token.ADD, w.lenOf(x.args[0]), w.intTerm(int64(len(x.args)-1), tInt), tInt)
	case x.op == "append":
		return w.arith(token.ADD, w.lenOf(x.args[0]), w.lenOf(x.args[1]), tInt)
	case x.op == "cat":
		r := w.intTerm(0, tInt)
		for _, a := range x.args {
			r = w.arith(token.ADD, r, w.lenOf(a), tInt)
		}
		return r
	case x.op == "str":
		return w.lenOf(x.args[0])
	case x.op == "conv" && strings.HasSuffix(x.str, "<-string") && strings.Contains(x.str, "byte"):
		return w.lenOf(x.args[0])
	}
	if x.typ != nil {
		t := x.typ.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return w.intTerm(a.Len(), tInt)
		}
	}
	return w.mk("len", "", tInt, x)
}

// sliceOf builds x[lo:hi] (hi nil for open), composing nested slices.
func (w *World) sliceOf(x *Term, lo, hi *Term, typ types.Type) *Term {
	none := w.mk("none", "", nil)
	if lo == nil {
		lo = w.intTerm(0, tInt)
	}
	if hi == nil {
		hi = none
	}
	if x.op == "slice" {
		blo := x.args[1]
		nlo := w.arith(token.ADD, blo, lo, tInt)
		nhi := x.args[2]
		if hi != none {
			nhi = w.arith(token.ADD, blo, hi, tInt)
		}
		return w.sliceOf(x.args[0], nlo, nhi, typ)
	}
	if n, ok := lo.intVal(); ok && n == 0 && hi == none {
		if x.typ != nil {
			if _, isPtr := x.typ.Underlying().(*types.Pointer); !isPtr {
				return x
			}
		} else {
			return x
		}
	}
	if x.op == "const" && isString(x.typ) {
		l, lok := lo.intVal()
		s := constant.StringVal(x.cv)
		h, hok := hi.intVal()
		if hi == none {
			h, hok = int64(len(s)), true
		}
		if lok && hok && l >= 0 && l <= h && h <= int64(len(s)) {
			return w.constTerm(constant.MakeString(s[l:h]), typ)
		}
	}
	if hi == none && x.typ != nil {
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				hi = w.intTerm(a.Len(), tInt)
			}
		}
	}
	return w.mk("slice", "", typ, x, lo, hi)
}

// ---- printing ----

const showLimit = 3000

// show describes a term. Terms share parts, so the description stops after a
// number of parts and names the rest by number.
func (w *World) show(t *Term) string {
	if w.shown == 0 {
		defer func() { w.shown = 0 }()
	}
	if w.shown++; w.shown > showLimit {
		return "…" + strconv.Itoa(t.id)
	}
	switch t.op {
	case "const":
		return t.str
	case "nil":
		return "nil"
	case "mt":
		return "{" + w.showMT(t.mt) + "}"
	case "lin":
		parts := strings.Split(t.str, ",")
		var b []string
		for i, a := range t.args {
			s := w.show(a)
			if parts[i+1] == "-1" {
				s = "-" + s
			} else if parts[i+1] != "1" {
				s = parts[i+1] + "*" + s
			}
			b = append(b, s)
		}
		if parts[0] != "0" {
			b = append(b, parts[0])
		}
		return "(" + strings.Join(b, "+") + ")"
	case "bin":
		return "(" + w.show(t.args[0]) + t.str + w.show(t.args[1]) + ")"
	case "bit":
		var b []string
		for _, a := range t.args {
			b = append(b, w.show(a))
		}
		return "(" + strings.Join(b, t.str) + ")"
	case "faddr":
		return w.show(t.args[0]) + "." + t.str[strings.LastIndex(t.str, ".")+1:]
	case "eaddr":
		return w.show(t.args[0]) + "[" + w.show(t.args[1]) + "]"
	case "ld":
		v := ""
		if t.str != "" {
			v = "@" + t.str
		}
		return "*" + w.show(t.args[0]) + v
	case "ret":
		if len(t.args) == 1 && t.args[0].op == "tok" {
			n := t.args[0].str
			return n[strings.LastIndex(n, ".")+1:] + "()." + t.str
		}
		return t.str
	case "tok":
		if len(t.args) == 0 {
			return t.str
		}
		var b []string
		for _, a := range t.args[1:] {
			b = append(b, w.show(a))
		}
		return w.show(t.args[0]) + "; " + t.str[strings.LastIndex(t.str, ".")+1:] + "(" + strings.Join(b, ",") + ")"
	case "param", "global", "alloc", "phi":
		return t.str
	case "none":
		return ""
	case "slice":
		return w.show(t.args[0]) + "[" + w.show(t.args[1]) + ":" + w.show(t.args[2]) + "]"
	case "lt":
		return w.show(t.args[0]) + "<" + w.show(t.args[1])
	case "eq":
		return w.show(t.args[0]) + "==" + w.show(t.args[1])
	}
	var b []string
	for _, a := range t.args {
		b = append(b, w.show(a))
	}
	s := t.op
	if t.str != "" {
		s += ":" + t.str
	}
	if t.op == "conv" {
		s = w.tname(t.typ)
	}
	if len(b) == 0 {
		return s
	}
	return s + "(" + strings.Join(b, ",") + ")"
}

func (w *World) showMT(m *MT) string {
	if w.shown == 0 {
		defer func() { w.shown = 0 }()
	}
	if w.shown++; w.shown > showLimit {
		return "…" + strconv.Itoa(m.id)
	}
	if m.atom < 0 {
		return w.show(m.leaf)
	}
	a := w.show(w.atoms[m.atom])
	if m.hi == w.True && m.lo == w.False {
		return a
	}
	if m.hi == w.False && m.lo == w.True {
		return "!" + a
	}
	return "[" + a + "?" + w.showMT(m.hi) + ":" + w.showMT(m.lo) + "]"
}
