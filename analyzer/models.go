package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

// Functions with a reference model, and the properties that rest on them.

const (
	dsT  = "transport.(*DataSubscriber)."
	sicT = "transport.(*SignalIndexCache)."
	cmT  = "transport.(*CompactMeasurement)."
	scT  = "transport.(*SubscriberConnector)."
	sbT  = "sttp.(*Subscriber)."
	thT  = "thread.(*Thread)."
	tdT  = "tssc.(*Decoder)."
	tpT  = "tssc.(*pointMetadata)."
)

// message functions: what matters is that a report is made, not its wording
var (
	reports   = []string{dsT + "dispatchErrorMessage", dsT + "dispatchStatusMessage"}
	scReports = append([]string{scT + "dispatchErrorMessage"}, reports...)
	sbReports = []string{sbT + "ErrorMessage"}
)

func receiveEvents(extra ...string) []string {
	return append([]string{dsT + "dispatchConnectionTerminated", dsT + "SendServerCommand", dsT + "SendServerCommandWithPayload", "transport.decompressGZip", "transport.decipherAES"}, extra...)
}

var handlers = []string{dsT + "handleSucceeded", dsT + "handleFailed", dsT + "handleDataPacket", dsT + "handleUpdateSignalIndexCache", dsT + "handleUpdateBaseTimes",
	dsT + "handleUpdateCipherKeys", dsT + "handleDataStartTime", dsT + "handleProcessingComplete", dsT + "handleBufferBlock", dsT + "handleNotification", dsT + "handleConfigurationChanged"}

var threadEvents = []string{"thread.NewThread", thT + "Start", thT + "Join", thT + "TryStart"}

// a worker is started once everything it relies on is in place
var threadSees = map[string][]string{
	thT + "Start": {"transport.DataSubscriber.connected", "transport.DataSubscriber.listening", "transport.DataSubscriber.commandChannelSocket", "transport.DataSubscriber.dataChannelSocket",
		"transport.DataSubscriber.listeningSocket", "transport.DataSubscriber.disconnecting", "transport.DataSubscriber.disconnected"},
	thT + "TryStart": {"transport.DataSubscriber.connected", "transport.DataSubscriber.disconnecting"},
}

func connectEvents(extra ...string) []string {
	out := append([]string{dsT + "dispatchConnectionTerminated", dsT + "SendServerCommand", dsT + "SendServerCommandWithPayload"}, threadEvents...)
	return append(out, extra...)
}

var sbHandlers = []string{sbT + "StatusMessage", sbT + "ErrorMessage", sbT + "handleReconnect", sbT + "handleConnect", sbT + "handleMetadataReceived", sbT + "handleDataStartTime",
	sbT + "handleConfigurationChanged", sbT + "handleProcessingComplete", scT + "ResetConnection", scT + "Connect", dsT + "Listen"}

type modelled struct {
	file  string
	props []string
	eq    Eq
}

var models []modelled

func model(file, props string, e Eq) {
	if file == "connect" && e.sees == nil {
		e.sees = threadSees
	}
	models = append(models, modelled{file, strings.Fields(props), e})
}

// specsFor lists the reference model files a property needs.
func specsFor(id string) []string {
	out := append([]string(nil), props[id].specs...)
	for _, m := range models {
		if nameIn(m.props, id) && !nameIn(out, m.file) {
			out = append(out, m.file)
		}
	}
	return out
}

// compareModels compares every function the property rests on.
func (c *Check) compareModels() {
	var todo []*Eq
	for i := range models {
		if nameIn(models[i].props, c.id) {
			e := models[i].eq
			todo = append(todo, &e)
		}
	}
	dropped := map[string]bool{}
	for i := 0; i < len(todo); i++ {
		name := todo[i].impl
		if !c.r.gone[name] {
			continue
		}
		dropped[name] = true
		// without a caller the name stays an anchor that is not found
		if es := c.callersOf(name, dropped); len(es) > 0 {
			c.note("%s is gone or has other parameters; what it did is compared inside its callers", name)
			for _, e := range es {
				known := false
				for _, t := range todo {
					known = known || t.impl == e.impl
				}
				if !known {
					todo = append(todo, e)
				}
			}
			todo = append(todo[:i:i], todo[i+1:]...)
			i--
		}
	}
	if len(todo) == 0 {
		return
	}
	c.r.objects()
	// comparisons are independent of each other
	parts := make([]*Check, len(todo))
	next := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				parts[i] = &Check{r: c.r, id: c.id, tier: c.tier, counts: map[string]int{}}
				parts[i].attempt(func() { parts[i].equiv(todo[i]) })
			}
		}()
	}
	for i := range todo {
		next <- i
	}
	close(next)
	wg.Wait()
	for _, p := range parts {
		for n, k := range p.counts {
			c.count(n, k)
		}
		c.obligs += p.obligs
		c.discharged += p.discharged
		c.violations = append(c.violations, p.violations...)
		c.open = append(c.open, p.open...)
	}
	c.rule("every listed function has the same summary (results, stores, events with their arguments and order, error conditions) as its reference model for every input")
	c.atLeast("functions compared with their reference model", len(todo)-len(c.open))
}

// attempt runs f and keeps what it could not decide.
func (c *Check) attempt(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(Undecided); ok {
				c.open = append(c.open, u.msg)
				if os.Getenv("VERIF_TRACE") != "" {
					debug.PrintStack()
				}
				return
			}
			c.open = append(c.open, fmt.Sprintf("panic: %v\n%s", e, debug.Stack()))
		}
	}()
	f()
}

func init() {
	model("receive", "C04 C05 C06 C07", Eq{impl: dsT + "handleDataPacket", spec: "refDataPacket", reports: reports, events: receiveEvents(dsT+"parseTSSCMeasurements", dsT+"parseCompactMeasurements")})
	model("receive", "C04 C06 C07", Eq{impl: dsT + "parseCompactMeasurements", spec: "refParseCompact", reports: reports,
		events: receiveEvents("transport.(*CompactMeasurement).Decode"), pure: []string{sicT + "SignalID"}})
	model("receive", "C05 C06 C07", Eq{impl: dsT + "parseTSSCMeasurements", spec: "refParseTSSC", reports: reports,
		events: receiveEvents("tssc.NewDecoder", "tssc.(*Decoder).SetBuffer", "tssc.(*Decoder).TryGetMeasurement"), pure: []string{sicT + "SignalID"}})
	model("receive", "C02 C11", Eq{impl: dsT + "processServerResponse", spec: "refResponse", events: receiveEvents(handlers...), reports: reports})
	model("receive", "C02 C11", Eq{impl: dsT + "handleSucceeded", spec: "refSucceeded", events: append(receiveEvents(dsT+"handleMetadataRefresh"), reports[1]), reports: reports[:1], pure: []string{"transport.(ServerCommandEnum).String"}})
	model("receive", "C02 C11 C13", Eq{impl: dsT + "handleFailed", spec: "refFailed", events: append(receiveEvents(), reports...), pure: []string{"transport.(ServerCommandEnum).String"}})
	model("receive", "C02", Eq{impl: dsT + "handleDataStartTime", spec: "refDataStartTime", events: receiveEvents(), reports: reports})
	model("receive", "C02", Eq{impl: dsT + "handleProcessingComplete", spec: "refProcessingComplete", events: receiveEvents(), reports: reports})
	model("receive", "C02", Eq{impl: dsT + "handleConfigurationChanged", spec: "refConfigurationChanged", events: receiveEvents(), reports: reports})
	model("receive", "C02", Eq{impl: dsT + "handleNotification", spec: "refNotification", events: receiveEvents(), reports: reports})
	model("receive", "C02 C04", Eq{impl: dsT + "handleUpdateBaseTimes", spec: "refUpdateBaseTimes", events: receiveEvents(), reports: reports})
	model("receive", "C02 C07", Eq{impl: dsT + "handleUpdateSignalIndexCache", spec: "refUpdateSignalIndexCache", sees: map[string][]string{dsT + "SendServerCommand": {"transport.DataSubscriber.signalIndexCache"}},
		events: receiveEvents("transport.NewSignalIndexCache", sicT+"decode"), reports: reports})
	model("receive", "C02 C25", Eq{impl: dsT + "handleMetadataRefresh", spec: "refMetadataRefresh", events: receiveEvents(), reports: reports})
	model("receive", "C02 C08", Eq{impl: dsT + "handleBufferBlock", spec: "refBufferBlock", events: receiveEvents(), reports: reports, pure: []string{sicT + "SignalID"}})
	model("receive", "C06 C11", Eq{impl: dsT + "readPayloadHeader", spec: "refReadPayloadHeader", events: receiveEvents(dsT + "readPacket"), reports: reports})
	model("receive", "C06 C11", Eq{impl: dsT + "readPacket", spec: "refReadPacket", events: receiveEvents(dsT + "processServerResponse"), reports: reports})
	model("receive", "C07", Eq{impl: "transport.NewSignalIndexCache", spec: "refNewSignalIndexCache"})
	model("receive", "C07", Eq{impl: sicT + "addRecord", spec: "refAddRecord", events: []string{dsT + "LookupMetadata"}})
	model("receive", "C07", Eq{impl: sicT + "Contains", spec: "refContains"})
	model("receive", "C04 C07", Eq{impl: sicT + "SignalID", spec: "refSignalID"})
	model("receive", "C07", Eq{impl: sicT + "Source", spec: "refSource"})
	model("receive", "C07", Eq{impl: sicT + "ID", spec: "refID"})
	model("receive", "C07", Eq{impl: sicT + "Record", spec: "refRecord"})
	model("receive", "C04 C07", Eq{impl: sicT + "SignalIndex", spec: "refSignalIndex"})
	model("receive", "C07", Eq{impl: sicT + "SignalIDs", spec: "refSignalIDs"})
	model("receive", "C22", Eq{impl: "transport.(*Measurement).DateTime", spec: "refMeasurementTime", pure: []string{"ticks.(Ticks).ToTime"}})
	model("receive", "C22", Eq{impl: "transport.(*Measurement).TimestampValue", spec: "refMeasurementTicks", pure: []string{"ticks.(Ticks).TimestampValue"}})
	model("receive", "C07", Eq{impl: sicT + "Count", spec: "refCount"})
	model("receive", "C07", Eq{impl: sicT + "decode", spec: "refDecodeCache", errOnly: true, events: []string{"guid.FromBytes", sicT + "addRecord"}})
	model("receive", "C07", Eq{impl: dsT + "ActiveSignalIndexCache", spec: "refActiveCache"})
	model("receive", "C02 C06", Eq{impl: dsT + "handleUpdateCipherKeys", spec: "refUpdateCipherKeys", reports: reports})
	model("receive", "C06", Eq{impl: "transport.decipherAES", spec: "refDecipher", errOnly: true})
	model("receive", "C06 C07 C25", Eq{impl: "transport.decompressGZip", spec: "refDecompress", errOnly: true})
	model("receive", "C25", Eq{impl: dsT + "LookupMetadata", spec: "refLookupMetadata"})
	model("receive", "C25", Eq{impl: dsT + "Metadata", spec: "refMetadata", events: []string{dsT + "LookupMetadata"}})
	model("receive", "C25", Eq{impl: "transport.(*MeasurementMetadata).ParseSignalReference", spec: "refSignalReference", pure: []string{"transport.ParseSignalKindAcronym"}})
	model("receive", "C25", Eq{impl: dsT + "AdjustedValue", spec: "refAdjustedValue"})
	model("receive", "C06", Eq{impl: dsT + "TotalMeasurementsReceived", spec: "refTotalMeasurements"})
	model("receive", "C11", Eq{impl: dsT + "TotalCommandChannelBytesReceived", spec: "refTotalCommandBytes"})
	model("receive", "C11", Eq{impl: dsT + "TotalDataChannelBytesReceived", spec: "refTotalDataBytes"})
	model("receive", "C11", Eq{impl: dsT + "IsConnected", spec: "refIsConnected"})
	model("receive", "C11", Eq{impl: dsT + "IsValidated", spec: "refIsValidated"})
	model("receive", "C11", Eq{impl: dsT + "IsListening", spec: "refIsListening"})
	model("receive", "C11", Eq{impl: dsT + "IsSubscribed", spec: "refIsSubscribed"})
	model("receive", "C11", Eq{impl: dsT + "ConnectionID", spec: "refConnectionID"})
	model("receive", "C07", Eq{impl: dsT + "SubscriberID", spec: "refSubscriberID"})
	model("receive", "C09", Eq{impl: dsT + "dispatchStatusMessage", spec: "refStatusMessage"})
	model("receive", "C09", Eq{impl: dsT + "dispatchErrorMessage", spec: "refErrorMessage"})
	model("receive", "C09", Eq{impl: scT + "dispatchErrorMessage", spec: "refConnectorErrorMessage"})
	model("connect", "C03", Eq{impl: dsT + "writeServerCommand", spec: "refWriteCommand|refWriteCommandExact|refWriteCommandFresh", errOnly: true})
	model("connect", "C03", Eq{impl: dsT + "SendServerCommand", spec: "refSend", events: connectEvents(), reports: reports})
	model("connect", "C03", Eq{impl: dsT + "SendServerCommandWithMessage", spec: "refSendMessage", events: connectEvents(), reports: reports})
	model("connect", "C03 C14", Eq{impl: dsT + "EncodeString", spec: "refEncodeString"})
	model("connect", "C07", Eq{impl: dsT + "DecodeString", spec: "refDecodeString"})
	model("connect", "C03", Eq{impl: dsT + "SendServerCommandWithPayload", spec: "refSendPayload", events: []string{dsT + "writeServerCommand", dsT + "dispatchConnectionTerminated"}, reports: reports})
	model("connect", "C03 C11 C14", Eq{impl: dsT + "sendOperationalModes", spec: "refOperationalModes", events: connectEvents(), reports: reports})
	model("connect", "C05 C11 C14", Eq{impl: dsT + "Subscribe", spec: "refSubscribe", errOnly: true, events: connectEvents(dsT+"Unsubscribe", dsT+"runDataChannelResponseThread"), reports: reports})
	model("connect", "C12", Eq{impl: dsT + "Unsubscribe", spec: "refUnsubscribe", events: connectEvents(), reports: reports})
	model("connect", "C08 C11 C13 C14", Eq{impl: "transport.NewDataSubscriber", spec: "refNewDataSubscriber|refNewDataSubscriberUnvalidated", events: connectEvents(dsT+"disconnect", "transport.NewSignalIndexCache"), reports: reports})
	model("connect", "C04 C06 C08 C11", Eq{impl: dsT + "setupConnection", spec: "refSetup"})
	model("connect", "C11 C13", Eq{impl: dsT + "Connect", spec: "refPublicConnect", events: []string{dsT + "connect", scT + "ResetConnection"}})
	model("connect", "C11 C12 C13", Eq{impl: dsT + "connect", spec: "refConnect", errOnly: true, events: connectEvents(dsT+"setupConnection", dsT+"establishConnection"), reports: reports})
	model("connect", "C11 C14", Eq{impl: dsT + "establishConnection", spec: "refEstablish|refEstablishModesFirst", events: connectEvents(dsT+"sendOperationalModes", dsT+"runCommandChannelResponseThread", "transport.resolveDNSName"), reports: reports})
	model("connect", "C11 C12", Eq{impl: dsT + "Listen", spec: "refListen", errOnly: true, events: connectEvents(dsT + "runListeningSocketAcceptThread"), reports: reports})
	model("connect", "C11 C12", Eq{impl: dsT + "runListeningSocketAcceptThread", spec: "refAccept", events: connectEvents(dsT+"setupConnection", dsT+"establishConnection", "transport.resolveDNSName"), reports: reports})
	model("connect", "C06 C11 C12", Eq{impl: dsT + "runCommandChannelResponseThread", spec: "refReadCommands", events: connectEvents(dsT + "readPayloadHeader"), reports: reports})
	model("connect", "C06 C11 C12", Eq{impl: dsT + "runDataChannelResponseThread", spec: "refReadData", events: connectEvents(dsT + "processServerResponse"), reports: reports})
	model("connect", "C12", Eq{impl: dsT + "Dispose", spec: "refDispose", events: connectEvents(dsT+"disconnect", scT+"Cancel"), reports: reports})
	model("connect", "C12 C13", Eq{impl: dsT + "Disconnect", spec: "refPublicDisconnect", events: connectEvents(dsT + "disconnect"), reports: reports})
	model("connect", "C12 C13", Eq{impl: dsT + "disconnect", spec: "refDisconnect", events: connectEvents(dsT+"runDisconnectThread", scT+"Cancel"), reports: reports})
	model("connect", "C12 C13", Eq{impl: dsT + "runDisconnectThread", spec: "refRunDisconnect", events: connectEvents(scT + "Cancel"), reports: reports})
	model("connect", "C11 C12 C13", Eq{impl: dsT + "dispatchConnectionTerminated", spec: "refTerminated", events: threadEvents})
	model("connect", "C13", Eq{impl: scT + "connect", spec: "refConnectorConnect", events: connectEvents(dsT+"connect", dsT+"autoReconnect", scT+"waitForRetry"), reports: scReports})
	model("connect", "C13", Eq{impl: scT + "Connect", spec: "refPublicConnectorConnect", events: connectEvents(scT + "connect"), reports: scReports})
	model("connect", "C12 C13", Eq{impl: scT + "Cancel", spec: "refCancel", events: threadEvents, reports: scReports})
	model("connect", "C13", Eq{impl: scT + "ResetConnection", spec: "refResetConnection"})
	model("connect", "C12 C13", Eq{impl: scT + "waitForRetry", spec: "refWaitForRetry", reports: scReports})
	model("connect", "C12 C13", Eq{impl: dsT + "autoReconnect", spec: "refAutoReconnect", events: connectEvents(scT+"waitForRetry", scT+"connect"), reports: scReports})
	model("subscriber", "C14", Eq{impl: "sttp.NewConfig", spec: "refSbNewConfig"})
	model("subscriber", "C14", Eq{impl: "sttp.NewSettings", spec: "refSbNewSettings"})
	model("subscriber", "C14", Eq{impl: "sttp.NewSubscriber", spec: "refSbNewSubscriber", events: []string{"sttp.NewConfig", "transport.NewDataSubscriber", sbT + "Default*"}})
	model("subscriber", "C14", Eq{impl: sbT + "Dial", spec: "refSbDial", errOnly: true, events: []string{sbT + "connect", sbT + "listen"}})
	model("subscriber", "C14", Eq{impl: sbT + "Listen", spec: "refSbListen", errOnly: true, events: []string{sbT + "connect", sbT + "listen"}})
	model("subscriber", "C13 C14", Eq{impl: sbT + "connect", spec: "refSbConnect", errOnly: true, events: sbHandlers})
	model("subscriber", "C14", Eq{impl: sbT + "listen", spec: "refSbListenConnect", errOnly: true, events: sbHandlers})
	model("subscriber", "C14", Eq{impl: sbT + "RequestMetadata", spec: "refSbRequestMetadata", events: []string{dsT + "SendServerCommand", dsT + "SendServerCommandWithPayload"}})
	model("subscriber", "C14", Eq{impl: sbT + "Subscribe", spec: "refSbSubscribe", events: []string{dsT + "Subscribe"}})
	model("subscriber", "C13 C14", Eq{impl: sbT + "handleConnect", spec: "refSbHandleConnect", events: []string{dsT + "Subscribe", sbT + "RequestMetadata"}})
	model("subscriber", "C13", Eq{impl: sbT + "handleReconnect", spec: "refSbHandleReconnect", events: []string{dsT + "Disconnect", sbT + "handleConnect"}, reports: []string{sbT + "StatusMessage"}})
	model("subscriber", "C14 C25", Eq{impl: sbT + "handleMetadataReceived", spec: "refSbHandleMetadata", events: []string{"data.NewDataSet", "data.(*DataSet).ParseXml", dsT + "Subscribe", sbT + "loadMeasurementMetadata", sbT + "showMetadataSummary"}, reports: sbReports})
	model("subscriber", "C02", Eq{impl: sbT + "handleDataStartTime", spec: "refSbHandleDataStartTime"})
	model("subscriber", "C02", Eq{impl: sbT + "handleConfigurationChanged", spec: "refSbHandleConfigurationChanged", events: []string{sbT + "RequestMetadata"}})
	model("subscriber", "C02", Eq{impl: sbT + "handleProcessingComplete", spec: "refSbHandleProcessingComplete", events: []string{sbT + "StatusMessage"}})
	model("subscriber", "C25", Eq{impl: sbT + "loadMeasurementMetadata", spec: "refSbLoadMetadata", events: []string{dsT + "LookupMetadata"}, reports: sbReports,
		pure: []string{"data.(*DataSet).Table", "data.(*DataTable).ColumnIndex", "data.(*DataTable).RowCount", "data.(*DataTable).Row", "data.(*DataRow).GuidValue", "data.(*DataRow).StringValue", "data.(*DataRow).DateTimeValue"}})
	for _, m := range []struct{ props, impl, spec, calls string }{
		{"C12", "Close", "refSbClosing", "Dispose"},
		{"C12", "Disconnect", "refSbDisconnect", "Disconnect"},
		{"C12", "Unsubscribe", "refSbUnsubscribe", "Unsubscribe"},
		{"C11", "IsConnected", "refSbConnected", "IsConnected"},
		{"C11", "IsValidated", "refSbValidated", "IsValidated"},
		{"C11", "IsListening", "refSbListening", "IsListening"},
		{"C11", "IsSubscribed", "refSbSubscribed", "IsSubscribed"},
		{"C11", "ConnectionID", "refSbConnectionID", "ConnectionID"},
		{"C07", "SubscriberID", "refSbSubscriberID", "SubscriberID"},
		{"C07", "ActiveSignalIndexCache", "refSbCache", "ActiveSignalIndexCache"},
		{"C11", "TotalCommandChannelBytesReceived", "refSbCommandBytes", "TotalCommandChannelBytesReceived"},
		{"C11", "TotalDataChannelBytesReceived", "refSbDataBytes", "TotalDataChannelBytesReceived"},
		{"C06", "TotalMeasurementsReceived", "refSbMeasurements", "TotalMeasurementsReceived"},
		{"C25", "LookupMetadata", "refSbLookup", "LookupMetadata"},
		{"C25", "Metadata", "refSbMetadata", "Metadata"},
		{"C25", "AdjustedValue", "refSbAdjusted", "AdjustedValue"},
		{"C09", "StatusMessage", "refSbStatus", ""},
		{"C09", "ErrorMessage", "refSbError", ""},
		{"C09", "SetStatusMessageLogger", "refSbSetStatus", ""},
		{"C09", "SetErrorMessageLogger", "refSbSetError", ""},
		{"C09", "SetMetadataReceiver", "refSbSetMetadata", ""},
		{"C09", "SetSubscriptionUpdatedReceiver", "refSbSetUpdated", ""},
		{"C09", "SetDataStartTimeReceiver", "refSbSetStart", ""},
		{"C09", "SetConfigurationChangedReceiver", "refSbSetChanged", ""},
		{"C06 C09 C26", "SetNewMeasurementsReceiver", "refSbSetMeasurements", ""},
		{"C08 C09", "SetNewBufferBlocksReceiver", "refSbSetBlocks", ""},
		{"C09", "SetNotificationReceiver", "refSbSetNotification", ""},
		{"C09", "SetHistoricalReadCompleteReceiver", "refSbSetComplete", ""},
		{"C09", "SetConnectionEstablishedReceiver", "refSbSetEstablished", ""},
		{"C09", "SetConnectionTerminatedReceiver", "refSbSetTerminated", ""},
	} {
		e := Eq{impl: sbT + m.impl, spec: m.spec}
		if m.calls != "" {
			e.events = []string{dsT + m.calls}
		}
		model("subscriber", m.props, e)
	}
	model("subscriber", "C06", Eq{impl: sbT + "PutMeasurementSlice", spec: "refSbPut"})
	model("subscriber", "C26", Eq{impl: sbT + "ReadMeasurements", spec: "refSbRead", events: []string{"sttp.newMeasurementReader"}})
	model("subscriber", "C26", Eq{impl: "sttp.newMeasurementReader", spec: "refSbNewReader", events: []string{sbT + "SetNewMeasurementsReceiver"}})
	model("subscriber", "C26", Eq{impl: "sttp.(*MeasurementReader).NextMeasurement", spec: "refSbNext"})
	model("subscriber", "C26", Eq{impl: "sttp.(*MeasurementReader).Close", spec: "refSbClose"})
	model("compact", "C04", Eq{impl: "transport.(compactStateFlagsEnum).mapToFullFlags", spec: "refFullFlags", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: "transport.(StateFlagsEnum).mapToCompactFlags", spec: "refCompactFlags", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: cmT + "SetCompactStateFlags", spec: "refSetCompactStateFlags", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: cmT + "GetCompactStateFlags", spec: "refGetCompactStateFlags", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: cmT + "Decode", spec: "refDecode", errOnly: true, pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: cmT + "GetTimestampC2", spec: "refTimestampC2", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: cmT + "GetTimestampC4", spec: "refTimestampC4", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: cmT + "GetBinaryLength", spec: "refBinaryLength", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: cmT + "GetRuntimeID", spec: "refRuntimeID", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: cmT + "SetRuntimeID", spec: "refSetRuntimeID", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("compact", "C04", Eq{impl: "transport.NewCompactMeasurement", spec: "refNewCompactMeasurement", pure: []string{sicT + "SignalID", sicT + "SignalIndex"}})
	model("tssc", "C05", Eq{impl: "tssc.NewDecoder", spec: "refNewDecoder"})
	model("tssc", "C05", Eq{impl: tdT + "newPointMetadata", spec: "refPoint"})
	model("tssc", "C05", Eq{impl: tdT + "SetBuffer", spec: "refSetBuffer"})
	model("tssc", "C05", Eq{impl: tdT + "readBit", spec: "refReadBit"})
	model("tssc", "C05", Eq{impl: tdT + "readBits4", spec: "refReadBits4", events: []string{tdT + "readBit"}})
	model("tssc", "C05", Eq{impl: tdT + "readBits5", spec: "refReadBits5", events: []string{tdT + "readBit"}})
	model("tssc", "C05", Eq{impl: tdT + "decodePointID", spec: "refDecodePointID", errOnly: true, events: []string{tdT + "readBits4"}})
	model("tssc", "C05", Eq{impl: tdT + "decodeTimestamp", spec: "refDecodeTimestamp", events: []string{"tssc.decode7BitUInt64"}})
	model("tssc", "C05", Eq{impl: tdT + "decodeStateFlags", spec: "refDecodeStateFlags", events: []string{"tssc.decode7BitUInt32"}})
	model("tssc", "C05", Eq{impl: "tssc.decode7BitUInt32", spec: "refDecode7Bit32"})
	model("tssc", "C05", Eq{impl: "tssc.decode7BitUInt64", spec: "refDecode7Bit64"})
	model("tssc", "C05", Eq{impl: tpT + "ReadCode", spec: "refReadCode", errOnly: true, events: []string{tpT + "updatedCodeStatistics"}})
	model("tssc", "C05", Eq{impl: tpT + "WriteCode", spec: "refWriteCode", errOnly: true, events: []string{tpT + "updatedCodeStatistics"}})
	model("tssc", "C05", Eq{impl: tpT + "updatedCodeStatistics", spec: "refUpdateStatistics", events: []string{tpT + "adaptCommands"}})
	model("tssc", "C05", Eq{impl: tpT + "adaptCommands", spec: "refAdaptCommands", errOnly: true, noUnroll: true})
	model("tssc", "C05", Eq{impl: "tssc.min", spec: "refMin"})
	model("tssc", "C05", Eq{impl: tdT + "TryGetMeasurement", spec: "refTryGetMeasurement", errOnly: true, events: []string{tpT + "ReadCode", tdT + "decodeTimestamp", tdT + "readBits4", "tssc.decode7BitUInt32"}})
	model("thread", "C12", Eq{impl: "thread.NewThread", spec: "refNewThread"})
	model("thread", "C12", Eq{impl: thT + "Start", spec: "refStart", locks: true, events: []string{thT + "run"}})
	model("thread", "C12", Eq{impl: thT + "TryStart", spec: "refTryStart", locks: true, events: []string{thT + "Start"}})
	model("thread", "C12", Eq{impl: thT + "Join", spec: "refJoin|refJoinRunning|refJoinAlways", locks: true})
	model("thread", "C12", Eq{impl: thT + "IsRunning", spec: "refIsRunning"})
	model("thread", "C12", Eq{impl: thT + "run", spec: "refRun|refRunMarkFirst", locks: true})
}
