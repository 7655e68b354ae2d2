package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An expression is compared with its reference model once for every
// combination of operand kinds: each operand has a value of one type, is a
// NULL of one type, is an untyped NULL or cannot be evaluated. The values
// themselves stay symbolic.

type operand struct {
	typ  string // type of the value, "" without
	null bool
	err  bool
}

func (o operand) String() string {
	switch {
	case o.err:
		return "failing"
	case o.typ == "":
		return "NULL"
	case o.null:
		return "NULL " + o.typ
	}
	return o.typ
}

var valueTypes = []string{"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"}

func operandKinds(types ...string) []operand {
	var out []operand
	for _, t := range types {
		out = append(out, operand{typ: t}, operand{typ: t, null: true})
	}
	return append(out, operand{}, operand{err: true})
}

// operandCases lists combinations of n operands. Nothing is evaluated after an
// operand that fails.
func operandCases(n int) [][]operand {
	kinds := operandKinds(valueTypes...)
	switch {
	case n == 3:
		kinds = append(operandKinds("Int32", "String", "DateTime"), operand{typ: "Boolean"}, operand{typ: "Int64"}, operand{typ: "Double"}, operand{typ: "Guid"})
	case n > 3:
		kinds = operandKinds("Int32", "String")
		kinds = append(kinds, operand{typ: "Boolean"})
	}
	var out [][]operand
	var rec func(k int, sofar []operand)
	rec = func(k int, sofar []operand) {
		if k == n {
			out = append(out, append([]operand(nil), sofar...))
			return
		}
		for _, o := range kinds {
			if o.err {
				rest := append([]operand(nil), sofar...)
				for len(rest) < n {
					rest = append(rest, o)
				}
				out = append(out, rest)
				continue
			}
			rec(k+1, append(sofar, o))
		}
	}
	rec(0, nil)
	return out
}

// Cases describes the expression an evaluation function receives.
type Cases struct {
	param  int               // position of the expression
	typ    string            // its type, "data.OperatorExpression"
	consts map[string]string // fields holding an enumeration member: field -> "ExpressionOperatorType.Add"
	bools  []string          // fields that are both true and false
	fields []string          // fields that are operands
	list   string            // field that is a list of operands
	lo, hi int               // accepted length of the list
	eval   string            // function that evaluates an operand
	value  bool              // the parameter is a value, not an expression
	typed  bool              // parameter target is a value type
	target int
}

// equivCases compares impl and spec for every case.
func (c *Check) equivCases(e *Eq, impl, spec *ssa.Function) (int, []string) {
	cs := e.cases
	var all [][]operand
	if cs.value {
		for _, o := range operandKinds(valueTypes...) {
			if o.err || cs.param < 0 && o.typ != "" {
				continue
			}
			all = append(all, []operand{o})
			if cs.typed {
				all = all[:len(all)-1]
				for _, t := range append([]string{""}, valueTypes...) {
					all = append(all, []operand{o, {typ: t}})
				}
			}
		}
	} else if cs.list == "" {
		all = operandCases(len(cs.fields))
	} else {
		hi := cs.hi
		if hi < 0 {
			hi = 3 - len(cs.fields)
		}
		for n := 0; n <= hi+1; n++ {
			if n >= cs.lo && n <= hi {
				all = append(all, operandCases(len(cs.fields)+n)...)
			} else if cs.hi >= 0 || n < cs.lo {
				x := make([]operand, n)
				for i := range x {
					x[i] = operand{typ: "Int32"}
				}
				all = append(all, x)
			}
		}
	}
	good, shown := 0, map[string]bool{}
	var bad []string
	for m := 0; m < 1<<len(cs.bools); m++ {
		for _, ops := range all {
			one := *e
			one.ops = ops
			one.flags = m
			n, diffs := c.compareFns(&one, impl, spec)
			good += n
			c.count("operand combinations", 1)
			if len(diffs) == 0 {
				continue
			}
			var names []string
			for _, o := range ops {
				names = append(names, o.String())
			}
			for i, b := range cs.bools {
				names = append(names, fmt.Sprintf("%s=%v", b, m>>i&1 == 1))
			}
			key := diffs[0]
			if len(bad) >= 4 || shown[key] {
				continue
			}
			shown[key] = true
			bad = append(bad, fmt.Sprintf("with (%s): %s", strings.Join(names, ", "), diffs[0]))
		}
	}
	return good, bad
}

func (c *Check) structField(t *types.Named, name string) (int, types.Type) {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i).Type()
		}
	}
	undecided("%s has no field %s", t, name)
	return 0, nil
}

func (c *Check) member(name string) constant.Value {
	enum, m, _ := strings.Cut(name, ".")
	e := c.r.enums.byName["data."+enum]
	if e == nil {
		undecided("enumeration %s not found", enum)
	}
	v, ok := e.value(m)
	if !ok {
		undecided("%s not found", name)
	}
	return v
}

// caseExpr is the expression of a case, passed as parameter cs.param.
func (c *Check) caseExpr(ip *Interp, e *Eq, fn *ssa.Function) *Term {
	t := c.r.typ(e.cases.typ)
	return ip.mk("param", "expression", types.NewPointer(t))
}

// caseArgs replaces the parameter holding the expression.
func (c *Check) caseArgs(ip *Interp, e *Eq, fn *ssa.Function, args []*MT) {
	if e.cases.typed {
		t := fn.Params[e.cases.target].Type()
		args[e.cases.target] = ip.val(ip.constTerm(c.typeCode(e.ops[1].typ), t))
	}
	if e.cases.value && e.cases.param < 0 {
		return
	}
	if e.cases.value {
		pt := fn.Params[e.cases.param].Type()
		args[e.cases.param] = c.newOperand(ip, e, pt, 0, nil, ip.newState())
		return
	}
	x := c.caseExpr(ip, e, fn)
	pt := fn.Params[e.cases.param].Type()
	if types.IsInterface(pt) {
		mi := ip.mk("makeiface", ip.tname(x.typ), pt, x)
		mi.x = x.typ
		x = mi
	}
	args[e.cases.param] = ip.val(x)
}

// caseState fills the fields of the expression.
func (c *Check) caseState(ip *Interp, e *Eq, fn *ssa.Function, st *State) {
	cs := e.cases
	if cs.value && cs.param >= 0 {
		c.newOperand(ip, e, fn.Params[cs.param].Type(), 0, nil, st)
	}
	if cs.value {
		return
	}
	x := c.caseExpr(ip, e, fn)
	named := c.r.typ(cs.typ)
	set := func(f string, v func(t types.Type) *MT) {
		i, t := c.structField(named, f)
		ip.store(st, ip.val(ip.faddr(x, i, x.typ)), t, v(t))
	}
	for f, m := range cs.consts {
		set(f, func(t types.Type) *MT { return ip.val(ip.constTerm(c.member(m), t)) })
	}
	for i, f := range cs.bools {
		set(f, func(t types.Type) *MT { return ip.boolMT(e.flags>>i&1 == 1) })
	}
	for i, f := range cs.fields {
		set(f, func(t types.Type) *MT { return ip.val(ip.mk("operand", fmt.Sprint(i), t)) })
	}
	if cs.list != "" {
		set(cs.list, func(t types.Type) *MT {
			et := t.Underlying().(*types.Slice).Elem()
			n := len(e.ops) - len(cs.fields)
			arr := ip.mk("param", "operands", types.NewPointer(types.NewArray(et, int64(n))))
			for i := 0; i < n; i++ {
				ip.store(st, ip.val(ip.eaddrAt(arr, int64(i), et)), et, ip.val(ip.mk("operand", fmt.Sprint(len(cs.fields)+i), et)))
			}
			return ip.val(ip.sliceOf(arr, ip.intTerm(0, tInt), nil, t))
		})
	}
}

// evalOperand is the result of evaluating an operand of a case.
func (c *Check) evalOperand(ip *Interp, e *Eq, callee *ssa.Function, args []*MT, st *State) []*MT {
	sig := callee.Signature
	ptr := sig.Results().At(0).Type()
	errT := sig.Results().At(1).Type()
	if args[1].atom >= 0 || args[1].leaf.op != "operand" {
		// not an operand of the expression: neither value nor error are known
		x := ip.asTerm(args[1])
		return []*MT{ip.val(ip.mk("ret", "value of "+ip.show(x), ptr, x)), ip.val(ip.mk("ret", "error of "+ip.show(x), errT, x))}
	}
	k := args[1].leaf.str
	var i int
	fmt.Sscan(k, &i)
	if e.ops[i].err {
		x := ip.mk("makeiface", "failure", errT, ip.mk("param", "failure", types.Typ[types.String]))
		return []*MT{ip.zero(ptr), ip.val(x)}
	}
	return []*MT{c.newOperand(ip, e, ptr, i, args[2], st), ip.zero(errT)}
}

func (c *Check) typeCode(t string) constant.Value {
	if t == "" {
		t = "Undefined"
	}
	return c.member("ExpressionValueType." + t)
}

// newOperand is the value of operand i; a NULL without type has type target.
func (c *Check) newOperand(ip *Interp, e *Eq, ptr types.Type, i int, target *MT, st *State) *MT {
	o := e.ops[i]
	named := c.r.typ("data.ValueExpression")
	fv, vt := c.structField(named, "value")
	ft, tt := c.structField(named, "valueType")
	name := fmt.Sprint("operand", i)
	if o.typ != "" || target == nil {
		target = ip.val(ip.constTerm(c.typeCode(o.typ), tt))
	} else {
		name += ":" + ip.showMT(target)
	}
	x := ip.mk("alloc", name, ptr)
	ip.store(st, ip.val(ip.faddr(x, ft, ptr)), tt, target)
	val := ip.val(ip.mk("nil", "", nil))
	if o.typ != "" && !o.null {
		gt := c.valueGoType(o.typ)
		val = ip.boxed(ip.val(ip.mk("param", fmt.Sprint("value", i), gt)), gt, vt)
	}
	ip.store(st, ip.val(ip.faddr(x, fv, ptr)), vt, val)
	return ip.val(x)
}

func (c *Check) valueGoType(t string) types.Type {
	f := map[string]string{"Boolean": "refB", "Int32": "refI32", "Int64": "refI64", "Decimal": "refDec", "Double": "refF64", "String": "refStr", "Guid": "refGuid", "DateTime": "refTime"}[t]
	return c.r.spec(f).Signature.Results().At(0).Type()
}

// boxed is a value stored in an interface.
func (ip *Interp) boxed(v *MT, t, iface types.Type) *MT {
	box := func(x *Term) *MT {
		mi := ip.mk("makeiface", ip.tname(t), iface, x)
		mi.x = t
		return ip.val(mi)
	}
	if isBool(t) {
		return ip.ite(v, box(ip.asTerm(ip.True)), box(ip.asTerm(ip.False)))
	}
	return ip.apply1(v, box)
}

// equivDyn compares impl and spec with the parameter e.dyn of each type.
func (c *Check) equivDyn(e *Eq, impl, spec *ssa.Function) (int, []string) {
	good := 0
	var bad []string
	for _, t := range e.dynTypes {
		one := *e
		one.args = func(ip *Interp, args []*MT) {
			pt := spec.Params[e.dyn].Type()
			if t == "" {
				args[e.dyn] = ip.zero(pt)
				return
			}
			x := ip.mk("param", spec.Params[e.dyn].Name(), types.NewPointer(c.r.typ(t)))
			args[e.dyn] = ip.boxed(ip.val(x), x.typ, pt)
		}
		n, diffs := c.compareFns(&one, impl, spec)
		good += n
		for _, d := range diffs {
			bad = append(bad, fmt.Sprintf("with (%s): %s", t, d))
		}
	}
	return good, bad
}
