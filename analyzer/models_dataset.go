package main

// Data sets read from XML with a reference model.

const (
	dsetT = "data.(*DataSet)."
	xdT   = "xml.(*XmlDocument)."
	xnT   = "xml.(*XmlNode)."
)

func init() {
	ds := func(impl, spec string, e Eq) {
		e.impl, e.spec = impl, spec
		ids := "C25"
		if impl == "data.parseXmlValue" || impl == dsetT+"loadRecords" {
			ids = "C19 C25"
		}
		model("dataset", ids, e)
	}
	ds("data.NewDataSet", "refDsNew", Eq{})
	ds(dsetT+"AddTable", "refDsAdd", Eq{})
	ds(dsetT+"Table", "refDsTable", Eq{})
	ds(dsetT+"Tables", "refDsTables", Eq{})
	ds(dsetT+"TableNames", "refDsNames", Eq{})
	ds(dsetT+"CreateTable", "refDsCreate", Eq{})
	ds(dsetT+"TableCount", "refDsCount", Eq{})
	ds(dsetT+"RemoveTable", "refDsRemove", Eq{})
	ds(dsetT+"ParseXml", "refDsParse", Eq{errOnly: true, events: []string{xdT + "LoadXml", dsetT + "ParseXmlDocument"}})
	ds(dsetT+"ParseXmlDocument", "refDsParseDocument", Eq{errOnly: true, events: []string{dsetT + "loadSchema", dsetT + "loadRecords"}})
	ds(dsetT+"loadSchema", "refDsSchema", Eq{pure: []string{"data.ParseXsdDataType", xnT + "Prefix", xnT + "SelectNodes"},
		events: []string{dsetT + "CreateTable", dtT + "InitColumns", dtT + "CreateColumn", dtT + "AddColumn", dsetT + "AddTable"}})
	ds(dsetT+"loadRecords", "refDsRecords", Eq{pure: []string{"data.parseXmlValue"},
		events: []string{dsetT + "Tables", dtT + "InitRows", dtT + "CreateRow", drT + "SetValue", dtT + "AddRow"}})
	ds("data.parseXmlValue", "refDsValue", Eq{errOnly: true, pure: []string{"guid.Parse"}})
	ds("data.ParseXsdDataType", "refDsType", Eq{})
	ds("data.FromXml", "refDsFromXml", Eq{events: []string{"data.NewDataSet", dsetT + "ParseXml"}})

	x := func(ids, impl, spec string, e Eq) {
		e.impl, e.spec = impl, spec
		model("xml", ids, e)
	}
	x("C25 C27", xdT+"LoadXml", "refXmLoad", Eq{events: []string{xdT + "traverse"}})
	x("C25 C27", xdT+"traverse", "refXmTraverse", Eq{events: []string{xdT + "traverse"}})
	x("C25 C27", xnT+"UnmarshalXML", "refXmUnmarshal", Eq{})
	x("C25 C27", xnT+"Prefix", "refXmPrefix", Eq{})
	x("C25 C27", xnT+"GetChildNodes", "refXmChildren", Eq{})
	x("C25 C27", "xml.isMatch", "refXmMatch", Eq{})
	x("C25 C27", xnT+"SelectNodes", "refXmSelect", Eq{pure: []string{xnT + "GetChildNodes", xnT + "attributeMatch", xnT + "childValueMatch"}})
	x("C27", "xml.SelectNodes", "refXmSelectAll", Eq{pure: []string{xnT + "SelectNodes"}})
	x("C27", xdT+"SelectNodes", "refXmSelectIn", Eq{pure: []string{xnT + "SelectNodes"}})
	x("C27", xnT+"attributeMatch", "refXmAttribute", Eq{pure: []string{"xml.removeQuotes"}})
	x("C27", xnT+"childValueMatch", "refXmChildMatch", Eq{pure: []string{xnT + "GetChildNodes", xnT + "valueMatch"}})
	x("C27", xnT+"valueMatch", "refXmValueMatch", Eq{pure: []string{"xml.removeQuotes"}})
	x("C27", "xml.removeQuotes", "refXmUnquote", Eq{})
	x("C27", xnT+"Path", "refXmPath", Eq{})
	x("C27", xnT+"Value", "refXmValue", Eq{})
	x("C27", xnT+"HasChildNodes", "refXmHasChildren", Eq{})
	x("C27", xnT+"FirstChild", "refXmFirst", Eq{})
	x("C27", xnT+"LastChild", "refXmLast", Eq{})
	x("C27", xdT+"MaxDepth", "refXmDepth", Eq{})
	x("C27", xdT+"LoadXmlFromFile", "refXmLoadFile", Eq{events: []string{xdT + "LoadXml"}})
}
