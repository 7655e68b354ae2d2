package main

import (
	"fmt"
	"go/constant"
	"sort"
)

// Values assigned by the STTP specification (IEEE 2664), by family and member.
var wireCodes = map[string]map[string]int64{
	"transport.ServerCommand": {"Connect": 0x00, "MetadataRefresh": 0x01, "Subscribe": 0x02, "Unsubscribe": 0x03, "RotateCipherKeys": 0x04, "UpdateProcessingInterval": 0x05,
		"DefineOperationalModes": 0x06, "ConfirmNotification": 0x07, "ConfirmBufferBlock": 0x08, "ConfirmUpdateBaseTimes": 0x09, "ConfirmUpdateSignalIndexCache": 0x0A,
		"ConfirmUpdateCipherKeys": 0x0B, "GetPrimaryMetadataSchema": 0x0C, "GetSignalSelectionSchema": 0x0D},
	"transport.ServerResponse": {"Succeeded": 0x80, "Failed": 0x81, "DataPacket": 0x82, "UpdateSignalIndexCache": 0x83, "UpdateBaseTimes": 0x84, "UpdateCipherKeys": 0x85,
		"DataStartTime": 0x86, "ProcessingComplete": 0x87, "BufferBlock": 0x88, "Notify": 0x89, "ConfigurationChanged": 0x8A, "NoOP": 0xFF},
	"transport.DataPacketFlags": {"Compact": 0x02, "CipherIndex": 0x04, "Compressed": 0x08, "CacheIndex": 0x10, "NoFlags": 0},
	"transport.OperationalModes": {"VersionMask": 0xFF, "EncodingMask": 0x300, "ImplementationSpecificExtensionMask": 0xFF0000, "ReceiveExternalMetadata": 0x02000000,
		"ReceiveInternalMetadata": 0x04000000, "CompressPayloadData": 0x20000000, "CompressSignalIndexCache": 0x40000000, "CompressMetadata": 0x80000000, "NoFlags": 0},
	"transport.OperationalEncoding": {"UTF16LE": 0x000, "UTF16BE": 0x100, "UTF8": 0x200},
	"transport.CompressionModes":    {"GZip": 0x20, "TSSC": 0x40, "NoFlags": 0},
	"transport.SecurityMode":        {"Off": 0, "TLS": 1},
	"transport.ConnectStatus":       {"Success": 1, "Failed": 0, "Canceled": -1},
	"transport.compactStateFlags": {"DataRange": 0x01, "DataQuality": 0x02, "TimeQuality": 0x04, "SystemIssue": 0x08, "CalculatedValue": 0x10, "DiscardedValue": 0x20,
		"BaseTimeOffset": 0x40, "TimeIndex": 0x80},
	"transport.StateFlags": {"Normal": 0, "BadData": 1 << 0, "SuspectData": 1 << 1, "OverRangeError": 1 << 2, "UnderRangeError": 1 << 3, "AlarmHigh": 1 << 4, "AlarmLow": 1 << 5,
		"WarningHigh": 1 << 6, "WarningLow": 1 << 7, "FlatlineAlarm": 1 << 8, "ComparisonAlarm": 1 << 9, "ROCAlarm": 1 << 10, "ReceivedAsBad": 1 << 11, "CalculatedValue": 1 << 12,
		"CalculationError": 1 << 13, "CalculationWarning": 1 << 14, "ReservedQualityFlag": 1 << 15, "BadTime": 1 << 16, "SuspectTime": 1 << 17, "LateTimeAlarm": 1 << 18,
		"FutureTimeAlarm": 1 << 19, "UpSampled": 1 << 20, "DownSampled": 1 << 21, "DiscardedValue": 1 << 22, "ReservedTimeFlag": 1 << 23, "UserDefinedFlag1": 1 << 24,
		"UserDefinedFlag2": 1 << 25, "UserDefinedFlag3": 1 << 26, "UserDefinedFlag4": 1 << 27, "UserDefinedFlag5": 1 << 28, "SystemError": 1 << 29, "SystemWarning": 1 << 30,
		"MeasurementError": 1 << 31},
}

// private families may be restructured; their use is covered by the models
var optionalCodes = map[string]bool{"transport.compactStateFlags": true}

func init() {
	for i := int64(0); i < 16; i++ {
		wireCodes["transport.ServerCommand"][fmt.Sprintf("UserCommand%02d", i)] = 0xD0 + i
		wireCodes["transport.ServerResponse"][fmt.Sprintf("UserResponse%02d", i)] = 0xE0 + i
	}
	props["C02"] = prop{level: "other", explain: "Code tables are read from the type-checked program: every member's constant is compared with the value the STTP specification assigns, members of a family must differ, and no statement anywhere may write a table. " +
		"The response dispatcher and every handler are summarised from SSA for unconstrained input and compared with reference models: each of the 256 codes leads to exactly the calls and stores of its own handling, an unknown code only to an error report. " +
		"Not covered: message wording.", run: checkCodes}
}

func checkCodes(c *Check) {
	c.rule("every member of every wire code family has the value of the STTP specification, differs from its siblings, and is never assigned")
	var names []string
	for name := range wireCodes {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		want := wireCodes[name]
		e := c.r.enums.byName[name]
		if e == nil && optionalCodes[name] {
			c.note("family %s not present", name)
			continue
		}
		if e == nil {
			undecided("code family %s not found", name)
		}
		pos := c.r.pos(e.Global.Pos())
		seen := map[string]string{}
		for _, m := range e.Members {
			c.count("code family members", 1)
			if m.Value == nil {
				undecided("%s.%s has no constant value", name, m.Name)
			}
			v, exact := constant.Int64Val(constant.ToInt(m.Value))
			w, known := want[m.Name]
			if known {
				c.ok(exact && v == w, name+"."+m.Name, pos, "%s.%s has value %s, the specification assigns %#x", name, m.Name, m.Value, w)
			}
			if o := seen[m.Value.ExactString()]; o != "" {
				c.ok(false, name+"."+m.Name, pos, "%s.%s has the same value as %s", name, m.Name, o)
			}
			seen[m.Value.ExactString()] = m.Name
		}
		for n := range want {
			_, ok := e.value(n)
			c.ok(ok, name+"."+n, pos, "%s has no member %s", name, n)
		}
		for _, w := range e.writes {
			c.ok(false, name, pos, "%s is assigned at run time: %s", name, w)
		}
	}
	c.atLeast("code family members", 110)
}
