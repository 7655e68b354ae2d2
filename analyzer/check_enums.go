package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C24"] = prop{level: "other", explain: "Naming and parsing functions are interpreted once per family member by constant propagation and once for 'any other value'; the resulting names must be pairwise distinct, equal to the specified name, never produced for non-members, and parsing must invert naming. " +
		"Family agreement between the filter grammar and evaluation is decided under C15.", run: checkEnums}
}

var operatorNames = map[string]string{"Multiply": "*", "Divide": "/", "Modulus": "%", "Add": "+", "Subtract": "-", "BitShiftLeft": "<<", "BitShiftRight": ">>",
	"BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXor": "^", "LessThan": "<", "LessThanOrEqual": "<=", "GreaterThan": ">", "GreaterThanOrEqual": ">=",
	"Equal": "=", "EqualExactMatch": "===", "NotEqual": "<>", "NotEqualExactMatch": "!==", "IsNull": "IS NULL", "IsNotNull": "IS NOT NULL",
	"Like": "LIKE", "LikeExactMatch": "LIKE BINARY", "NotLike": "NOT LIKE", "NotLikeExactMatch": "NOT LIKE BINARY", "And": "AND", "Or": "OR"}

var unaryNames = map[string]string{"Plus": "+", "Minus": "-", "Not": "~"}

var kindAcronyms = map[string]string{"Angle": "PA", "Magnitude": "PM", "Frequency": "FQ", "DfDt": "DF", "Status": "SF", "Digital": "DV", "Analog": "AV", "Calculation": "CV", "Statistic": "ST", "Alarm": "AL", "Quality": "QF"}

var kindTypes = map[string][2]string{"Angle": {"VPHA", "IPHA"}, "Magnitude": {"VPHM", "IPHM"}, "Frequency": {"FREQ", "FREQ"}, "DfDt": {"DFDT", "DFDT"}, "Status": {"FLAG", "FLAG"},
	"Digital": {"DIGI", "DIGI"}, "Analog": {"ALOG", "ALOG"}, "Calculation": {"CALC", "CALC"}, "Statistic": {"STAT", "STAT"}, "Alarm": {"ALRM", "ALRM"}, "Quality": {"QUAL", "QUAL"}, "Unknown": {"NULL", "NULL"}}

// memberMethod finds a method of an enumeration's member type.
func (r *Repo) memberMethod(e *Enum, name string) *ssa.Function {
	n, ok := e.Elem.(*types.Named)
	if !ok {
		return nil
	}
	for _, m := range r.methods(n) {
		if m.Name() == name {
			return m
		}
	}
	return nil
}

func constString(m *MT) (string, bool) {
	if m.atom >= 0 || !m.leaf.isConst() || m.leaf.cv.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(m.leaf.cv), true
}

// callConst summarises f for constant arguments.
func callConst(c *Check, f *ssa.Function, args ...constant.Value) (*Interp, []*MT) {
	ip := newInterp(c.r)
	ip.obl = false
	var a []*MT
	for i, v := range args {
		a = append(a, ip.val(ip.constTerm(v, f.Params[i].Type())))
	}
	res := ip.run(f, a, nil, ip.newState(), ip.True)
	return ip, res.rets
}

// nonMembers summarises f for a receiver that is none of the members.
func nonMembers(c *Check, f *ssa.Function, e *Enum, extra ...constant.Value) (*Interp, []*Term) {
	ip := newInterp(c.r)
	ip.obl = false
	p := ip.mk("param", f.Params[0].Name(), f.Params[0].Type())
	base := ip.True
	for _, m := range e.Members {
		base = ip.and(base, ip.not(ip.compare(tokEQL, p, ip.constTerm(m.Value, m.Type))))
	}
	args := []*MT{ip.val(p)}
	for i, v := range extra {
		args = append(args, ip.val(ip.constTerm(v, f.Params[i+1].Type())))
	}
	res := ip.run(f, args, nil, ip.newState(), base)
	return ip, ip.leavesUnder(res.rets[0], base)
}

func str(s string) constant.Value { return constant.MakeString(s) }

// stringCases reads a result as a dispatch on constant strings: the result for
// each constant and the result when none matches.
func stringCases(ip *Interp, m *MT, about func(*Term) bool) (map[string]*Term, *Term, string) {
	cases := map[string]*Term{}
	keyOf := func(t *Term) (string, bool) {
		var k, v *Term
		switch {
		case t.op == "eq" && len(t.args) == 2, t.op == "pure" && t.str == "strings.EqualFold":
			k, v = t.args[0], t.args[1]
		default:
			return "", false
		}
		if v.isConst() {
			k, v = v, k
		}
		if !k.isConst() || k.cv.Kind() != constant.String || !about(v) {
			return "", false
		}
		return constant.StringVal(k.cv), true
	}
	var keys []string
	for _, a := range ip.support(m) {
		k, ok := keyOf(ip.atoms[a])
		if !ok {
			return nil, nil, "the result depends on " + ip.show(ip.atoms[a])
		}
		keys = append(keys, k)
	}
	at := func(key string, any bool) *Term {
		r := ip.restrictBy(m, func(t *Term) (bool, bool) {
			k, _ := keyOf(t)
			return any && k == key, true
		})
		if r.atom >= 0 {
			return nil
		}
		return r.leaf
	}
	for _, k := range keys {
		cases[k] = at(k, true)
	}
	return cases, at("", false), ""
}

// aboutParam accepts the parameter itself or a case/space normalised form.
func aboutParam(p *Term) func(*Term) bool {
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == p {
			return true
		}
		return t.op == "pure" && (t.str == "strings.ToUpper" || t.str == "strings.ToLower" || t.str == "strings.TrimSpace") && f(t.args[0])
	}
	return f
}

func checkEnums(c *Check) {
	c.rule("every member of every named family has its own, correct name")
	c.rule("a value that is no member is never given a member's name")
	c.rule("parsing a member's name in any case gives that member; other text gives the documented unknown result")
	c.rule("members of a family have distinct values and are never modified")
	for _, e := range c.r.enums.list() {
		if e.Elem == nil {
			continue
		}
		pos := c.r.pos(e.Global.Pos())
		seen := map[string]string{}
		for _, m := range e.Members {
			v := m.Value.ExactString()
			c.ok(seen[v] == "", e.Name, pos, "%s and %s of %s share the value %s", seen[v], m.Name, e.Name, v)
			seen[v] = m.Name
			c.count("members", 1)
		}
		for _, w := range e.writes {
			c.ok(false, e.Name, w, "code table %s is not only read", e.Name)
		}
		f := c.r.memberMethod(e, "String")
		if f == nil {
			continue
		}
		c.count("named families", 1)
		fpos := c.r.pos(f.Pos())
		names := map[string]string{}
		for _, m := range e.Members {
			want := m.Name
			switch e.Name {
			case "data.ExpressionOperatorType":
				want = operatorNames[m.Name]
			case "data.ExpressionUnaryType":
				want = unaryNames[m.Name]
			}
			ip, rets := callConst(c, f, m.Value)
			got, ok := constString(rets[0])
			if !c.ok(ok, e.Name+"."+m.Name, fpos, "the name of %s.%s is not a constant but %s", e.Name, m.Name, ip.showMT(rets[0])) {
				continue
			}
			c.ok(want == "" || got == want, e.Name+"."+m.Name, fpos, "%s.%s is named %q, expected %q", e.Name, m.Name, got, want)
			c.ok(names[got] == "", e.Name+"."+m.Name, fpos, "%s and %s of %s are both named %q", names[got], m.Name, e.Name, got)
			names[got] = m.Name
		}
		if e.Name == "transport.StateFlags" {
			checkFlagNames(c, e, f)
			continue
		}
		ip, leaves := nonMembers(c, f, e)
		for _, t := range leaves {
			switch {
			case t.isConst() && t.cv.Kind() == constant.String:
				c.ok(names[constant.StringVal(t.cv)] == "", e.Name+" other", fpos, "a value outside %s is named %q, the name of %s", e.Name, constant.StringVal(t.cv), names[constant.StringVal(t.cv)])
			case t.op == "cat" && t.args[0].isConst():
				pre := constant.StringVal(t.args[0].cv)
				clash := ""
				for n := range names {
					if strings.HasPrefix(n, pre) {
						clash = n
					}
				}
				c.ok(clash == "", e.Name+" other", fpos, "a value outside %s can be named %q", e.Name, clash)
			case t.op == "pure" && (t.str == "strconv.Itoa" || t.str == "strconv.FormatInt" || t.str == "strconv.FormatUint"):
				c.ok(true, "", "", "")
			case t.op == "pure" && t.str == "fmt.Sprintf" && t.args[0].isConst():
				pre, _, _ := strings.Cut(constant.StringVal(t.args[0].cv), "%")
				clash := ""
				for n := range names {
					if pre == "" || strings.HasPrefix(n, pre) {
						clash = n
					}
				}
				c.ok(clash == "", e.Name+" other", fpos, "a value outside %s can be named %q", e.Name, clash)
			default:
				c.ok(false, e.Name+" other", fpos, "a value outside %s is named %s, which may be a member's name", e.Name, ip.show(t))
			}
		}
	}
	c.atLeast("named families", 10)
	c.atLeast("members", 250)
	checkSignalKind(c)
	checkParsers(c)
	// value type families
	vt := c.r.enums.byName["data.ExpressionValueType"]
	if vt == nil {
		undecided("data.ExpressionValueType not found")
	}
	for name, members := range map[string]string{"IsIntegerType": "Boolean Int32 Int64", "IsNumericType": "Boolean Int32 Int64 Decimal Double"} {
		f := c.r.memberMethod(vt, name)
		if f == nil {
			undecided("%s not found", name)
		}
		for _, m := range vt.Members {
			_, rets := callConst(c, f, m.Value)
			want := strings.Contains(" "+members+" ", " "+m.Name+" ")
			c.ok(rets[0].atom < 0 && rets[0].leaf.isConst() && constant.BoolVal(rets[0].leaf.cv) == want, name+" "+m.Name, c.r.pos(f.Pos()), "%s of %s is not %v", name, m.Name, want)
		}
		ip, leaves := nonMembers(c, f, vt)
		for _, t := range leaves {
			c.ok(t == ip.False.leaf, name+" other", c.r.pos(f.Pos()), "%s accepts a value outside the family", name)
		}
		c.count("classifiers", 1)
	}
	_, rets := callConst(c, c.r.fn("data.ExpressionValueTypeLen"))
	n, ok := rets[0].leaf.intVal()
	c.ok(ok && int(n) == len(vt.Members), "ExpressionValueTypeLen", c.r.pos(c.r.fn("data.ExpressionValueTypeLen").Pos()), "ExpressionValueTypeLen is %d for %d members", n, len(vt.Members))
}

func checkFlagNames(c *Check, e *Enum, f *ssa.Function) {
	pos := c.r.pos(f.Pos())
	var bits []EnumMember
	for _, m := range e.Members {
		if n, _ := constant.Uint64Val(m.Value); n != 0 {
			c.ok(n&(n-1) == 0, e.Name+"."+m.Name, pos, "state flag %s is not a single bit", m.Name)
			bits = append(bits, m)
		}
	}
	c.ok(len(bits) == 32, e.Name, pos, "state flags cover %d of 32 bits", len(bits))
	// combinations name exactly their bits
	for i := range bits {
		for j := range bits {
			if i >= j {
				continue
			}
			a, _ := constant.Uint64Val(bits[i].Value)
			b, _ := constant.Uint64Val(bits[j].Value)
			_, rets := callConst(c, f, constant.MakeUint64(a|b))
			got, ok := constString(rets[0])
			x, y := bits[i].Name, bits[j].Name
			c.ok(ok && (got == x+","+y || got == y+","+x), e.Name+" combination", pos, "%s and %s together are named %q", x, y, got)
		}
	}
	_, rets := callConst(c, f, constant.MakeUint64(0xFFFFFFFF))
	got, _ := constString(rets[0])
	parts := map[string]bool{}
	for _, p := range strings.Split(got, ",") {
		parts[p] = true
	}
	for _, m := range bits {
		c.ok(parts[m.Name], e.Name+" combination", pos, "%s is missing when all flags are set", m.Name)
	}
	c.ok(len(parts) == 32 && strings.Count(got, ",") == 31, e.Name+" combination", pos, "all flags together are named %q", got)
}

func checkSignalKind(c *Check) {
	e := c.r.enums.byName["transport.SignalKind"]
	if e == nil {
		undecided("transport.SignalKind not found")
	}
	f := c.r.memberMethod(e, "Acronym")
	ft := c.r.memberMethod(e, "SignalTypeAcronym")
	parse := c.r.fn("transport.ParseSignalKindAcronym")
	if f == nil || ft == nil {
		undecided("signal kind acronyms not found")
	}
	unknown, _ := e.value("Unknown")
	for _, m := range e.Members {
		_, rets := callConst(c, f, m.Value)
		got, ok := constString(rets[0])
		want := kindAcronyms[m.Name]
		if m.Name == "Unknown" {
			c.ok(ok && got == "??", "Acronym Unknown", c.r.pos(f.Pos()), "acronym of Unknown is %q", got)
		} else {
			c.ok(ok && got == want, "Acronym "+m.Name, c.r.pos(f.Pos()), "acronym of %s is %q, expected %q", m.Name, got, want)
		}
		for _, s := range []string{got, strings.ToLower(got), got[:1] + strings.ToLower(got[1:]), " " + got + " "} {
			_, p := callConst(c, parse, str(s))
			c.ok(p[0].atom < 0 && p[0].leaf.isConst() && constant.Compare(p[0].leaf.cv, tokEQL, m.Value), "parse "+m.Name, c.r.pos(parse.Pos()), "parsing %q does not give %s", s, m.Name)
		}
		for i, r := range []rune{'V', 'v', 'I', 'i'} {
			_, t := callConst(c, ft, m.Value, constant.MakeInt64(int64(r)))
			got, ok := constString(t[0])
			c.ok(ok && got == kindTypes[m.Name][i/2], "SignalTypeAcronym "+m.Name, c.r.pos(ft.Pos()), "signal type acronym of %s for phasor type %c is %q", m.Name, r, got)
		}
		c.count("acronyms", 1)
	}
	_, leaves := nonMembers(c, f, e)
	for _, t := range leaves {
		c.ok(t.isConst() && constant.StringVal(t.cv) == "??", "Acronym other", c.r.pos(f.Pos()), "a value outside the family has a member's acronym")
	}
	_, leaves = nonMembers(c, ft, e, constant.MakeInt64('V'))
	for _, t := range leaves {
		c.ok(t.isConst() && constant.StringVal(t.cv) == "NULL", "SignalTypeAcronym other", c.r.pos(ft.Pos()), "a value outside the family has a member's signal type acronym")
	}
	ip := newInterp(c.r)
	ip.obl = false
	res := ip.analyze(parse)
	p := ip.mk("param", parse.Params[0].Name(), parse.Params[0].Type())
	cases, def, why := stringCases(ip, res.rets[0], aboutParam(p))
	c.ok(why == "", "parse", c.r.pos(parse.Pos()), "signal kind parsing: %s", why)
	if why == "" {
		c.ok(def != nil && def.isConst() && constant.Compare(def.cv, tokEQL, unknown), "parse other", c.r.pos(parse.Pos()), "text that is no acronym is not parsed as Unknown")
		c.ok(len(cases) == len(kindAcronyms), "parse cases", c.r.pos(parse.Pos()), "signal kind parsing recognises %d acronyms, expected %d", len(cases), len(kindAcronyms))
	}
	c.atLeast("acronyms", 12)
}

func checkParsers(c *Check) {
	// time intervals
	{
		e := c.r.enums.byName["data.TimeInterval"]
		f := c.r.fn("data.ParseTimeInterval")
		pos := c.r.pos(f.Pos())
		if e == nil {
			undecided("data.TimeInterval not found")
		}
		for _, m := range e.Members {
			for _, s := range []string{m.Name, strings.ToUpper(m.Name), strings.ToLower(m.Name), " " + m.Name + " "} {
				ip, r := callConst(c, f, str(s))
				c.ok(r[0].atom < 0 && r[0].leaf.isConst() && constant.Compare(r[0].leaf.cv, tokEQL, m.Value) && isNilMT(ip, r[1]), "ParseTimeInterval "+m.Name, pos, "parsing %q does not give %s", s, m.Name)
			}
			c.count("parsed members", 1)
		}
		ip := newInterp(c.r)
		ip.obl = false
		res := ip.analyze(f)
		p := ip.mk("param", f.Params[0].Name(), f.Params[0].Type())
		isNil := ip.apply1(res.rets[1], func(t *Term) *MT { return ip.eqTerms(t, ip.mk("nil", "", nil)) })
		cases, def, why := stringCases(ip, isNil, aboutParam(p))
		c.ok(why == "" && def == ip.False.leaf && len(cases) == len(e.Members), "ParseTimeInterval other", pos, "unrecognised interval names are not rejected exactly: %s", why)
	}
	// XSD types
	{
		e := c.r.enums.byName["data.DataType"]
		f := c.r.fn("data.ParseXsdDataType")
		pos := c.r.pos(f.Pos())
		table := map[[2]string]string{{"string", ""}: "String", {"string", "System.Guid"}: "Guid", {"string", "System.Guid, mscorlib"}: "Guid", {"string", "System.String"}: "String", {"boolean", ""}: "Boolean", {"dateTime", ""}: "DateTime",
			{"float", ""}: "Single", {"double", ""}: "Double", {"decimal", ""}: "Decimal", {"byte", ""}: "Int8", {"short", ""}: "Int16", {"int", ""}: "Int32", {"long", ""}: "Int64",
			{"unsignedByte", ""}: "UInt8", {"unsignedShort", ""}: "UInt16", {"unsignedInt", ""}: "UInt32", {"unsignedLong", ""}: "UInt64", {"int", "System.Guid"}: "Int32"}
		seen := map[string]bool{}
		for k, want := range table {
			_, r := callConst(c, f, str(k[0]), str(k[1]))
			v, _ := e.value(want)
			c.ok(r[0].atom < 0 && r[0].leaf.isConst() && constant.Compare(r[0].leaf.cv, tokEQL, v) && r[1].leaf != nil && r[1].leaf.isConst() && constant.BoolVal(r[1].leaf.cv),
				"ParseXsdDataType "+want, pos, "XSD type %q (%q) is not parsed as %s", k[0], k[1], want)
			seen[k[0]] = true
			c.count("parsed members", 1)
		}
		ip := newInterp(c.r)
		ip.obl = false
		res := ip.analyze(f)
		p := ip.mk("param", f.Params[0].Name(), f.Params[0].Type())
		cases, def, why := stringCases(ip, res.rets[1], aboutParam(p))
		c.ok(why == "" && def == ip.False.leaf, "ParseXsdDataType other", pos, "unrecognised XSD types are not rejected: %s", why)
		for k := range cases {
			c.ok(seen[k], "ParseXsdDataType other", pos, "unexpected XSD type %q is accepted", k)
		}
	}
	c.atLeast("parsed members", 27)
}

func isNilMT(ip *Interp, m *MT) bool {
	return m.atom < 0 && ip.eqTerms(m.leaf, ip.mk("nil", "", nil)) == ip.True
}
