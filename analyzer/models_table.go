package main

// Tables, rows and selections with a reference model.

const (
	dcT = "data.(*DataColumn)."
	dtT = "data.(*DataTable)."
)

func init() {
	table := func(ids, impl, spec string, e Eq) {
		e.impl, e.spec = impl, spec
		model("table", ids, e)
	}
	for _, f := range []string{"Parent", "Name", "Type", "Expression", "Index"} {
		table("C19 C20 C25", dcT+f, "refTbCol"+f, Eq{})
	}
	table("C19 C25", "data.newDataColumn", "refTbNewColumn", Eq{})
	table("C25", "data.newDataTable", "refTbNewTable", Eq{})
	for _, f := range []string{"Parent", "Name", "InitColumns", "AddColumn", "ColumnIndex", "CloneColumn", "ColumnCount", "InitRows", "Rows", "AddRow"} {
		table("C25", dtT+f, "refTb"+f, Eq{})
	}
	table("C25", dtT+"CreateColumn", "refTbNewColumn", Eq{})
	table("C19 C20 C25", dtT+"Column", "refTbColumn", Eq{})
	table("C19 C25", dtT+"ColumnByName", "refTbColumnByName", Eq{})
	table("C20 C25", dtT+"Row", "refTbRow", Eq{})
	table("C20 C25", dtT+"RowCount", "refTbRowCount", Eq{})
	table("C20", dtT+"RowsWhere", "refTbRowsWhere", Eq{})
	table("C19 C25", "data.newDataRow", "refTbNewRow", Eq{})
	table("C19 C25", dtT+"CreateRow", "refTbNewRow", Eq{})
	table("C19", dtT+"CloneRow", "refTbCloneRow", Eq{events: []string{drT + "Value", drT + "SetValue"}})
	table("C19", dtT+"RowValueAsString", "refTbRowText", Eq{pure: []string{drT + "ValueAsString"}})
	table("C19", dtT+"RowValueAsStringByName", "refTbRowTextByName", Eq{pure: []string{drT + "ValueAsStringByName"}})
	table("C19", "data.(DataTypeEnum).String", "refTbTypeName", Eq{})

	computed := []string{drT + "getComputedValue"}
	table("C19 C25", drT+"Parent", "refRwParent", Eq{})
	table("C19 C25", drT+"getColumnIndex", "refRwIndex", Eq{errOnly: true})
	table("C19 C25", drT+"Value", "refRwValue", Eq{errOnly: true, events: computed})
	table("C19", drT+"ValueFast", "refRwValueFast", Eq{errOnly: true})
	table("C19 C25", drT+"ValueByName", "refRwValueByName", Eq{errOnly: true, events: computed})
	table("C19 C25", drT+"SetValue", "refRwSetValue", Eq{errOnly: true})
	table("C19 C25", drT+"SetValueByName", "refRwSetValueByName", Eq{errOnly: true})
	for _, t := range columnTypes {
		spec, byName := "refRw"+t, "refRw"+t+"ByName"
		if t == "Decimal" {
			spec, byName = spec+"|refRwDecimalZ", byName+"|refRwDecimalZByName"
		}
		table("C19 C25", drT+t+"Value", spec, Eq{errOnly: true, events: computed})
		table("C19 C25", drT+t+"ValueByName", byName, Eq{errOnly: true, events: computed})
	}
	table("C17 C18 C19", drT+"expressionTree", "refRwTree", Eq{errOnly: true, events: []string{"data.GenerateExpressionTree"}})
	conv := []string{"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"}
	var convs []string
	for _, t := range conv {
		convs = append(convs, "data.convertFrom"+t)
		table("C17 C19", "data.convertFrom"+t, "refRwFrom"+t, Eq{errOnly: true, pure: append([]string{"guid.Parse"}, guidPure...)})
	}
	table("C17 C18 C19", drT+"getComputedValue", "refRwComputed", Eq{errOnly: true, typed: true, pure: convs, events: []string{drT + "expressionTree", etT + "Evaluate"}})
	table("C19", drT+"ColumnValueAsString", "refRwText", Eq{pure: append(rowAccessors(), guidPure...)})
	table("C19", drT+"ValueAsString", "refRwTextAt", Eq{pure: []string{drT + "ColumnValueAsString"}})
	table("C19", drT+"ValueAsStringByName", "refRwTextByName", Eq{pure: []string{drT + "ColumnValueAsString"}})

	table("C20", "data.CompareDataRowColumns", "refSlCompare", Eq{errOnly: true, pure: append(rowAccessors(), guidPure...)})
	table("C20 C18", etT+"SelectWhere", "refSlSelectWhere", Eq{errOnly: true, pure: []string{"data.CompareDataRowColumns"}, events: []string{etT + "Evaluate"}})
	table("C20 C18", etT+"Select", "refSlSelect", Eq{errOnly: true, typed: true, events: []string{etT + "SelectWhere"}})
}
