package main

func init() {
	const model = "Each function listed in the evidence is summarised from SSA and compared with a reference model written from the filter expression documentation: same results and types, same stored fields, same calls in the same order, errors on the same conditions. "
	const cases = "Evaluation functions are summarised once per combination of operand kinds (every value type, NULL of it, and an evaluation error: all combinations for one or two operands, a covering subset for three or four) with the values themselves unconstrained. "
	const limits = "Not covered: the generated lexer and parser, regular expressions, decimal, time and number formatting packages, lists longer than two values and variadic calls beyond three arguments, and message wording."
	specs := []string{"filter", "table", "parser", "dataset"}
	props["C15"] = prop{level: "other", specs: specs, explain: model + cases + "Here: every parse tree handler (operator, function, literal, column and keyword to expression), the evaluation of every function and operator with its argument counts, and the entry points. " + limits}
	props["C16"] = prop{level: "other", specs: specs, explain: model + cases + "Here: promotion of operand types, every operator in every type, and every conversion between value types. " + limits}
	props["C18"] = prop{level: "other", specs: specs, explain: model + cases + "Here: operators, functions, lists and conversions with NULL in each position, the row filter, and computed columns. " + limits}
	props["C19"] = prop{level: "other", specs: specs, explain: model + "Here: each typed accessor by index and by name, columns and their lookup, computed values with their conversion to each column type, and values read from XML. " + limits}
	props["C20"] = prop{level: "other", specs: specs, explain: model + "Here: row comparison for every column type, selection with limit and order, the evaluation of statement lists with duplicates removed, ORDER BY and TOP as parsed, identifier statements, and the entry points. The sort itself is the library's stable sort. " + limits}
}
