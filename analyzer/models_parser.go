package main

// The filter expression parser with a reference model.

const fepT = "data.(*FilterExpressionParser)."

func init() {
	// the parse tree does not change while it is visited
	tree := []string{"parser.*", "invoke:GetText", "(*github.com/antlr/antlr4/runtime/Go/antlr.BaseParserRuleContext).GetText"}
	ps := func(ids, impl, spec string, e Eq) {
		e.impl, e.spec = impl, spec
		model("parser", ids, e)
	}
	visit := func(ids, impl, spec string, e Eq) {
		e.pure = append(e.pure, tree...)
		e.typed = true
		ps(ids, fepT+impl, spec, e)
	}
	ps("C15", "data.NewColumnExpression", "refPsColumn", Eq{})
	ps("C15", "data.NewFunctionExpression", "refPsFunction", Eq{})
	ps("C15", "data.NewInListExpression", "refPsInList", Eq{})
	ps("C15", "data.NewOperatorExpression", "refPsOperator", Eq{})
	ps("C15", "data.NewUnaryExpression", "refPsUnary", Eq{})
	ps("C15 C20", "data.NewExpressionTree", "refPsTree", Eq{})

	visit("C15 C20", "EnterFilterExpressionStatement", "refPsEnterStatement", Eq{events: []string{fepT + "initializeSetOperations"}})
	visit("C15 C20", "EnterFilterStatement", "refPsEnterFilter", Eq{})
	visit("C15", "EnterExpression", "refPsEnterExpression", Eq{})
	visit("C15", "ExitExpression", "refPsExpression", Eq{})
	visit("C15", "ExitPredicateExpression", "refPsPredicate", Eq{})
	visit("C15", "ExitValueExpression", "refPsValue", Eq{})
	visit("C15", "ExitLiteralValue", "refPsLiteral", Eq{objects: true, pure: append([]string{"guid.Parse"}, guidPure...)})
	visit("C15 C20", "ExitColumnName", "refPsColumnName", Eq{})
	visit("C15", "ExitFunctionExpression", "refPsCall", Eq{})
	visit("C15 C20", "ExitIdentifierStatement", "refPsIdentifier", Eq{pure: []string{"data.parseGuidLiteral", "data.parsePointTagLiteral"},
		events: []string{fepT + "EnterExpression", fepT + "mapMatchedFieldRow", "hashset.*", drT + "GuidValue"}})
	ps("C15", "data.parseNumericLiteral", "refPsNumber", Eq{})
	ps("C15", "data.parseStringLiteral", "refPsString", Eq{})
	ps("C15 C20", "data.parsePointTagLiteral", "refPsTag", Eq{})
	ps("C15 C20", "data.parseGuidLiteral", "refPsGuid", Eq{pure: []string{"guid.Parse"}})
	ps("C15", "data.parseDateTimeLiteral", "refPsTime", Eq{})
	ps("C15", "data.ParseTimeInterval", "refPsInterval", Eq{errOnly: true})

	ps("C20", fepT+"mapMatchedFieldRow", "refPsMapField", Eq{events: []string{fepT + "addMatchedRow", drT + "StringValue"}})
	ps("C20", fepT+"addMatchedRow", "refPsAddRow", Eq{events: []string{"hashset.*", drT + "GuidValue"}})
	ps("C20", fepT+"initializeSetOperations", "refPsInitSets", Eq{events: []string{"hashset.*"}})
	ps("C15 C20", "data.NewFilterExpressionParser", "refPsNew", Eq{})
	ps("C15 C20", "data.NewFilterExpressionParserForDataSet", "refPsNewFor", Eq{errOnly: true, events: []string{"data.NewFilterExpressionParser"}})
	ps("C15 C20", fepT+"ExpressionTrees", "refPsTrees", Eq{errOnly: true, events: []string{fepT + "visitParseTreeNodes"}})
	ps("C15 C20", fepT+"visitParseTreeNodes", "refPsVisit", Eq{errOnly: true, events: []string{"parser.*"}})
	ps("C15", "data.(*CallbackErrorListener).SyntaxError", "refPsSyntaxError", Eq{})
	ps("C20", fepT+"Table", "refPsTableErr", Eq{errOnly: true})
	ps("C20", fepT+"Evaluate", "refPsEvaluate", Eq{errOnly: true, events: []string{fepT + "visitParseTreeNodes", fepT + "addMatchedRow", etT + "SelectWhere"}})
	ps("C20", fepT+"FilteredRows", "refPsFilteredRows", Eq{})
	ps("C20", fepT+"FilteredSignalIDs", "refPsFilteredSignalIDs", Eq{})
	ps("C20", fepT+"FilteredRowSet", "refPsFilteredRowSet", Eq{events: []string{fepT + "initializeSetOperations"}})
	ps("C20", fepT+"FilteredSignalIDSet", "refPsFilteredSignalIDSet", Eq{events: []string{fepT + "initializeSetOperations"}})

	make := []string{"data.NewFilterExpressionParser", "data.NewFilterExpressionParserForDataSet", fepT + "ExpressionTrees", fepT + "Evaluate", fepT + "FilteredRowSet", fepT + "FilteredSignalIDSet"}
	entry := func(ids, impl, spec string, events ...string) {
		ps(ids, impl, spec, Eq{errOnly: true, events: append(events, make...)})
	}
	entry("C15 C20", "data.GenerateExpressionTrees", "refPsGenerateAll")
	entry("C15 C20", "data.GenerateExpressionTreesFromTable", "refPsGenerateFrom", "data.GenerateExpressionTrees")
	entry("C15 C20", "data.GenerateExpressionTree", "refPsGenerate", "data.GenerateExpressionTreesFromTable")
	entry("C15", "data.EvaluateExpression", "refPsEvaluateText", etT+"Evaluate")
	entry("C15", "data.EvaluateDataRowExpression", "refPsEvaluateRow", "data.GenerateExpressionTree", etT+"Evaluate")
	entry("C20", "data.SelectDataRows", "refPsSelectRows")
	entry("C20", "data.SelectDataRowsFromTable", "refPsSelectRowsFrom", "data.SelectDataRows")
	entry("C20", "data.SelectDataRowSet", "refPsSelectSet")
	entry("C20", "data.SelectDataRowSetFromTable", "refPsSelectSetFrom", "data.SelectDataRowSet")
	entry("C20", "data.SelectSignalIDSet", "refPsSelectIDs")
	entry("C20", "data.SelectSignalIDSetFromTable", "refPsSelectIDsFrom", "data.SelectSignalIDSet")
	entry("C20", dtT+"Select", "refPsTableSelect", "data.GenerateExpressionTree", etT+"Select")
}
