package main

import (
	"fmt"
	"strings"
)

// Functions of the data package with a reference model.

const (
	etT = "data.(*ExpressionTree)."
	veT = "data.(*ValueExpression)."
	drT = "data.(*DataRow)."
)

func init() {
	value := func(impl, spec string, e Eq) {
		e.impl, e.spec, e.objects = impl, spec, true
		e.cases = &Cases{value: true}
		model("filter", "C16 C18", e)
	}
	model("filter", "C16 C18", Eq{impl: "data.NullValue", spec: "refNullValue", cases: &Cases{value: true, param: -1, typed: true}})
	value(veT+"IsNull", "refIsNull", Eq{})
	value(veT+"Value", "refValue", Eq{})
	value(veT+"ValueType", "refValueType", Eq{})
	value(veT+"String", "refString", Eq{pure: guidPure})
	value(veT+"Convert", "refConvert", Eq{pure: append([]string{"guid.Parse"}, guidPure...), errOnly: true})
	models[len(models)-1].eq.cases.typed, models[len(models)-1].eq.cases.target = true, 1
	for _, t := range []string{"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"} {
		value(veT+t+"Value", "ref"+t+"Value", Eq{errOnly: true})
	}
	all := "C15 C16 C18"
	evals := []string{etT + "evaluateUnary", etT + "evaluateColumn", etT + "evaluateInList", etT + "evaluateFunction", etT + "evaluateOperator"}
	model("filter", all, Eq{impl: etT + "evaluateAs", spec: "refEvaluateAs", pure: evals, errOnly: true, dyn: 1,
		dynTypes: []string{"", "data.ValueExpression", "data.UnaryExpression", "data.ColumnExpression", "data.InListExpression", "data.FunctionExpression", "data.OperatorExpression"}})
	model("filter", all, Eq{impl: etT + "Evaluate", spec: "refEvaluateTree", pure: []string{etT + "evaluateAs"}, errOnly: true})
	for _, u := range []string{"Plus", "Minus", "Not"} {
		model("filter", all, Eq{impl: etT + "evaluateUnary", spec: "refUnary", objects: true, errOnly: true, key: u,
			cases: &Cases{param: 1, typ: "data.UnaryExpression", consts: map[string]string{"unaryType": "ExpressionUnaryType." + u}, fields: []string{"value"}, eval: etT + "evaluateAs"}})
	}
	model("filter", all, Eq{impl: etT + "evaluateInList", spec: "refInList", objects: true, errOnly: true, key: "IN", pure: guidPure,
		cases: &Cases{param: 1, typ: "data.InListExpression", bools: []string{"hasNotkeyWord", "exactMatch"}, fields: []string{"value"}, list: "arguments", hi: -1, eval: etT + "evaluateAs"}})
	model("filter", "C15 C16 C18 C19", Eq{impl: etT + "evaluateColumn", spec: "refColumn", errOnly: true, typed: true, pure: rowAccessors()})
	model("filter", all, Eq{impl: "data.findNthIndex", spec: "refNth"})
	for _, f := range filterFunctions {
		name, n, _ := strings.Cut(f, " ")
		lo, hi := 1, 1
		fmt.Sscan(n, &lo, &hi)
		model("filter", all, Eq{impl: etT + "evaluateFunction", spec: "refFn" + name, objects: true, errOnly: true, key: name,
			pure:  append([]string{"data.ParseTimeInterval", "data.findNthIndex", "guid.Parse"}, guidPure...),
			cases: &Cases{param: 1, typ: "data.FunctionExpression", consts: map[string]string{"functionType": "ExpressionFunctionType." + name}, list: "arguments", lo: lo, hi: hi, eval: etT + "evaluateAs"}})
	}
	for _, f := range filterOperators {
		model("filter", all, Eq{impl: etT + "evaluateOperator", spec: "refOp" + f, objects: true, errOnly: true, key: f, pure: guidPure,
			cases: &Cases{param: 1, typ: "data.OperatorExpression", consts: map[string]string{"operatorType": "ExpressionOperatorType." + f}, fields: []string{"leftValue", "rightValue"}, eval: etT + "evaluateAs"}})
	}
}

var guidPure = []string{"guid.Compare", "guid.(Guid).Equal", "guid.(Guid).String"}

var filterFunctions = []string{"Abs", "Ceiling", "Coalesce 2 -1", "Convert 2 2", "Contains 2 3", "DateAdd 3 3", "DateDiff 3 3", "DatePart 2 2", "EndsWith 2 3", "Floor", "IIf 3 3", "IndexOf 2 3", "IsDate", "IsInteger", "IsGuid",
	"IsNull 2 2", "IsNumeric", "LastIndexOf 2 3", "Len", "Lower", "MaxOf 2 -1", "MinOf 2 -1", "NthIndexOf 3 4", "Now 0 0", "Power 2 2", "RegExMatch 2 2", "RegExVal 2 2", "Replace 3 4", "Reverse", "Round", "Split 3 4", "Sqrt", "StartsWith 2 3",
	"StrCount 2 3", "StrCmp 2 3", "SubStr 2 3", "Trim", "TrimLeft", "TrimRight", "Upper", "UtcNow 0 0"}

var filterOperators = []string{"Multiply", "Divide", "Modulus", "Add", "Subtract", "BitShiftLeft", "BitShiftRight", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "LessThan", "LessThanOrEqual",
	"GreaterThan", "GreaterThanOrEqual", "Equal", "EqualExactMatch", "NotEqual", "NotEqualExactMatch", "IsNull", "IsNotNull", "Like", "LikeExactMatch", "NotLike", "NotLikeExactMatch", "And", "Or"}

var columnTypes = []string{"String", "Boolean", "DateTime", "Single", "Double", "Decimal", "Guid", "Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64"}

func rowAccessors() []string {
	var out []string
	for _, t := range columnTypes {
		out = append(out, drT+t+"Value")
	}
	return out
}
