From be9195a89114633b584208e387ee00b9a87d896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:30 +0000
Subject: [PATCH 01/78] fix: count repeated slice items once in hash set
 comparisons

---
 sttp/hashset/HashSet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sttp/hashset/HashSet.go b/sttp/hashset/HashSet.go
index fe55548..9d6f1b4 100644
--- a/sttp/hashset/HashSet.go
+++ b/sttp/hashset/HashSet.go
@@ -131,7 +131,8 @@ func (hs HashSet[T]) SymmetricExceptWith(other []T) {
 		return
 	}
 
-	for _, v := range other {
+	// Repeated slice items must only be toggled once
+	for v := range NewHashSet(other) {
 		if !hs.Remove(v) {
 			hs.Add(v)
 		}
@@ -182,6 +183,8 @@ func (hs HashSet[T]) UnionWithSet(other HashSet[T]) {
 // SetEquals determines whether a set and the specified slice contain the same elements.
 // Returns true if the set is equal to other slice items; otherwise, false.
 func (hs HashSet[T]) SetEquals(other []T) bool {
+	other = NewHashSet(other).Keys() // Repeated slice items count once
+
 	if len(hs) != len(other) {
 		return false
 	}
@@ -287,6 +290,8 @@ func (hs HashSet[T]) IsSupersetOf(other []T) bool {
 		return true
 	}
 
+	other = NewHashSet(other).Keys() // Repeated slice items count once
+
 	// If slice has more elements than set, then it can't be a superset
 	if len(other) > len(hs) {
 		return false
@@ -320,6 +325,8 @@ func (hs HashSet[T]) IsProperSupersetOf(other []T) bool {
 		return true // Set has at least one element, based on prior check
 	}
 
+	other = NewHashSet(other).Keys() // Repeated slice items count once
+
 	// If slice has more or equal elements than set, then it can't be a proper superset
 	if len(other) >= len(hs) {
 		return false
-- 
2.43.0


From e59cf934dd011b9595f14b2daf12c9518833434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:42 +0000
Subject: [PATCH 02/78] fix: convert ticks before 1970 and after 2262 to Go
 time and back

---
 sttp/ticks/Ticks.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sttp/ticks/Ticks.go b/sttp/ticks/Ticks.go
index 540cb5a..4b6c68e 100644
--- a/sttp/ticks/Ticks.go
+++ b/sttp/ticks/Ticks.go
@@ -86,7 +86,7 @@ func (ticks Ticks) TimestampValue() int64 {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func ToTime(ticks Ticks) time.Time {
-	return time.Unix(0, int64((ticks-UnixBaseOffset)&ValueMask)*100).UTC()
+	return ticks.ToTime()
 }
 
 // Converts a unix nanoseconds timestamp into a Ticks value.
@@ -96,7 +96,7 @@ func FromUnixNano(ns uint64) Ticks {
 
 // FromTime converts a standard Go Time value to a Ticks value.
 func FromTime(time time.Time) Ticks {
-	return FromUnixNano(uint64(time.UnixNano()))
+	return Ticks(time.Unix()*int64(PerSecond)+int64(time.Nanosecond()/100)) + UnixBaseOffset
 }
 
 // IsLeapSecond determines if the deserialized Ticks value represents a leap second, i.e., second 60.
@@ -141,7 +141,8 @@ func UtcNow() Ticks {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func (t Ticks) ToTime() time.Time {
-	return time.Unix(0, int64((t-UnixBaseOffset)&ValueMask)*100).UTC()
+	offset := t.TimestampValue() - int64(UnixBaseOffset)
+	return time.Unix(offset/int64(PerSecond), (offset%int64(PerSecond))*100).UTC()
 }
 
 // Converts the ticks value into a Unix nanoseconds timestamp
-- 
2.43.0


From d6b5d69cb7479c19d9b8cbe62ec1770831eb8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:00 +0000
Subject: [PATCH 03/78] fix: give the ConfirmUpdateBaseTimes command its name

---
 sttp/transport/Constants.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sttp/transport/Constants.go b/sttp/transport/Constants.go
index 0d99e8b..132f73b 100644
--- a/sttp/transport/Constants.go
+++ b/sttp/transport/Constants.go
@@ -366,6 +366,8 @@ func (sce ServerCommandEnum) String() string {
 		return "ConfirmNotification"
 	case ServerCommand.ConfirmBufferBlock:
 		return "ConfirmBufferBlock"
+	case ServerCommand.ConfirmUpdateBaseTimes:
+		return "ConfirmUpdateBaseTimes"
 	case ServerCommand.ConfirmUpdateSignalIndexCache:
 		return "ConfirmUpdateSignalIndexCache"
 	case ServerCommand.ConfirmUpdateCipherKeys:
-- 
2.43.0


From e0993ab93cb6bd8204a61e12b954cf9d34677e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:21 +0000
Subject: [PATCH 04/78] fix: ignore response packets shorter than the response
 header

---
 sttp/transport/DataSubscriber.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 97c6f99..147cc8a 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -897,6 +897,11 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 }
 
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
+	if len(buffer) < responseHeaderSize {
+		ds.dispatchErrorMessage("Received packet from \"" + ds.connectionID + "\" that is too short for a response header: " + strconv.Itoa(len(buffer)) + " bytes")
+		return
+	}
+
 	// Note: internal payload size at buffer[2:6] ignored - future versions of STTP will likely exclude this
 	data := buffer[responseHeaderSize:]
 	responseCode := ServerResponseEnum(buffer[0])
-- 
2.43.0


From 889ee9545b506090df7f76074ead0b12ad769b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:23 +0000
Subject: [PATCH 05/78] fix: check payload length of start time, base time,
 cache and notification responses

---
 sttp/transport/DataSubscriber.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 147cc8a..e9a75b6 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1034,6 +1034,11 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 }
 
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
+	if len(data) < 8 {
+		ds.dispatchErrorMessage("Not enough data received to parse data start time")
+		return
+	}
+
 	ds.BeginCallbackSync()
 
 	if ds.DataStartTimeCallback != nil {
@@ -1056,7 +1061,7 @@ func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
-	if data == nil {
+	if len(data) == 0 {
 		return
 	}
 
@@ -1108,7 +1113,8 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
-	if data == nil {
+	if len(data) < 20 {
+		ds.dispatchErrorMessage("Not enough data received to parse base time offsets")
 		return
 	}
 
@@ -1473,6 +1479,11 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
+	if len(data) < 4 {
+		ds.dispatchErrorMessage("Not enough data received to parse notification")
+		return
+	}
+
 	// Skip the 4-byte hash and decode notification message
 	message := ds.DecodeString(data[4:])
 
-- 
2.43.0


From 5a7fcbaaa76cf15ff692ccfef2b50a5210744a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:25 +0000
Subject: [PATCH 06/78] fix: check cipher key lengths against the data received

---
 sttp/transport/DataSubscriber.go | 60 ++++++++++++--------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index e9a75b6..976ce3b 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1144,43 +1144,29 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	keyIVs[oddKey] = make([][]byte, 2)
 
 	// Move past active cipher index (not currently used anywhere else)
-	var index uint32 = 1
-
-	// Read even key size
-	bufferLen := binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read even key
-	keyIVs[evenKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][keyIndex], data[index:])
-	index += bufferLen
-
-	// Read even initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read even initialization vector
-	keyIVs[evenKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][ivIndex], data[index:])
-	index += bufferLen
-
-	// Read odd key size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read odd key
-	keyIVs[oddKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][keyIndex], data[index:])
-	index += bufferLen
-
-	// Read odd initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read odd initialization vector
-	keyIVs[oddKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][ivIndex], data[index:])
-	//index += bufferLen
+	index := 1
+
+	// Read even key and initialization vector, then odd key and initialization vector
+	for _, key := range []int{evenKey, oddKey} {
+		for _, part := range []int{keyIndex, ivIndex} {
+			if len(data) < index+4 {
+				ds.dispatchErrorMessage("Not enough data received to parse cipher keys")
+				return
+			}
+
+			bufferLen := int64(binary.BigEndian.Uint32(data[index:]))
+			index += 4
+
+			if bufferLen > int64(len(data)-index) {
+				ds.dispatchErrorMessage("Not enough data received to parse cipher keys")
+				return
+			}
+
+			keyIVs[key][part] = make([]byte, bufferLen)
+			copy(keyIVs[key][part], data[index:])
+			index += int(bufferLen)
+		}
+	}
 
 	// Exchange keys
 	ds.keyIVs = keyIVs
-- 
2.43.0


From 767cf073701b6b7bd9b1f1eaa09479565719c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:26 +0000
Subject: [PATCH 07/78] fix: report undecipherable data instead of panicking

---
 sttp/transport/Common.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sttp/transport/Common.go b/sttp/transport/Common.go
index b4e5e41..94c8a02 100644
--- a/sttp/transport/Common.go
+++ b/sttp/transport/Common.go
@@ -28,6 +28,7 @@ import (
 	"compress/gzip"
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 	"io"
 	"net"
 	"strings"
@@ -41,6 +42,14 @@ func decipherAES(key, iv, data []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("initialization vector length does not match cipher block size")
+	}
+
+	if len(data)%block.BlockSize() != 0 {
+		return nil, errors.New("data length is not a multiple of cipher block size")
+	}
+
 	mode := cipher.NewCBCDecrypter(block, iv)
 	out := make([]byte, len(data))
 	mode.CryptBlocks(out, data)
-- 
2.43.0


From 5136fbfd6168cdccdd156ddc75017835f9042689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:28 +0000
Subject: [PATCH 08/78] fix: check signal index cache record lengths against
 the data received

---
 sttp/transport/SignalIndexCache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 305d584..08b2690 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -193,6 +193,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 
 	offset += 16
 
+	if length-offset < 4 {
+		return errors.New("not enough buffer provided to parse")
+	}
+
 	// Number of references
 	referenceCount := binary.BigEndian.Uint32(buffer[offset:])
 	offset += 4
@@ -200,6 +204,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	var i uint32
 
 	for i = 0; i < referenceCount; i++ {
+		if length-offset < 24 {
+			return errors.New("not enough buffer provided to parse")
+		}
+
 		// Signal index
 		signalIndex := int32(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
@@ -217,6 +225,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		sourceSize := binary.BigEndian.Uint32(buffer[offset:])
 		offset += 4
 
+		if uint64(length-offset) < uint64(sourceSize)+8 {
+			return errors.New("not enough buffer provided to parse")
+		}
+
 		source := ds.DecodeString(buffer[offset : offset+sourceSize])
 		offset += sourceSize
 
-- 
2.43.0


From bd94d7ceb43b6b4e5ad8ad037d774e8db53d3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:30 +0000
Subject: [PATCH 09/78] fix: check that a compact measurement includes its
 timestamp

---
 sttp/transport/CompactMeasurement.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index ab48e2a..e981593 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -275,6 +275,20 @@ func (cm *CompactMeasurement) Decode(buffer []byte) (int, error) {
 		return index, nil
 	}
 
+	timeLength := 8
+
+	if cm.usingBaseTimeOffset {
+		if cm.useMillisecondResolution {
+			timeLength = 2
+		} else {
+			timeLength = 4
+		}
+	}
+
+	if len(buffer) < index+timeLength {
+		return 0, errors.New("not enough buffer available to deserialize compact measurement time")
+	}
+
 	if cm.usingBaseTimeOffset {
 		baseTimeOffset := cm.baseTimeOffsets[cm.timeIndex]
 
-- 
2.43.0


From 7c6bdcb8ef4756ec7cd6fdc9f3cf5eab58d3417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:32 +0000
Subject: [PATCH 10/78] fix: report truncated TSSC data as a decoding error

---
 sttp/transport/tssc/Decoder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/tssc/Decoder.go b/sttp/transport/tssc/Decoder.go
index 128921e..4a63dc3 100644
--- a/sttp/transport/tssc/Decoder.go
+++ b/sttp/transport/tssc/Decoder.go
@@ -95,7 +95,15 @@ func (td *Decoder) SetBuffer(data []byte) {
 
 // TryGetMeasurement attempts to get the next decoded measurement from the working buffer.
 //gocyclo:ignore
-func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (bool, error) {
+func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (success bool, err error) {
+	defer func() {
+		// Reading past the end of a truncated or corrupted buffer is a decoding error
+		if r := recover(); r != nil {
+			success = false
+			err = fmt.Errorf("failed to decode at position %d with last position %d: %v", td.position, td.lastPosition, r)
+		}
+	}()
+
 	if td.position == td.lastPosition && td.bitStreamIsEmpty() {
 		td.clearBitStream()
 		*id = 0
-- 
2.43.0


From 7fbffa85cefaafcd7aa2a23185ab821ff6690931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:34 +0000
Subject: [PATCH 11/78] fix: check data packet lengths and measurement counts

---
 sttp/transport/DataSubscriber.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 976ce3b..624fb2c 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1187,6 +1187,11 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
+	if len(data) == 0 {
+		ds.dispatchErrorMessage("Not enough data received to parse data packet")
+		return
+	}
+
 	dataPacketFlags := DataPacketFlagsEnum(data[0])
 	compressed := dataPacketFlags&DataPacketFlags.Compressed > 0
 	compact := dataPacketFlags&DataPacketFlags.Compact > 0
@@ -1218,7 +1223,19 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		}
 	}
 
+	if len(data) < 4 {
+		ds.dispatchErrorMessage("Not enough data received to parse data packet")
+		return
+	}
+
 	count := binary.BigEndian.Uint32(data)
+
+	// Every encoded measurement takes at least one bit
+	if uint64(count) > uint64(len(data)-4)*8 {
+		ds.dispatchErrorMessage("Not enough data received to parse data packet with " + strconv.FormatUint(uint64(count), 10) + " measurements")
+		return
+	}
+
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
 		m := make([]Measurement, count)
@@ -1272,6 +1289,12 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		newDecoder = true
 	}
 
+	if len(data) < 3 {
+		ds.dispatchErrorMessage("Not enough data received to parse TSSC measurements - disconnecting.")
+		ds.dispatchConnectionTerminated()
+		return
+	}
+
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
@@ -1326,6 +1349,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 
 	for ok {
 		if ok, err = decoder.TryGetMeasurement(&id, &timestamp, &stateFlags, &value); ok {
+			if index >= len(measurements) {
+				ok, err = false, errors.New("more measurements received than expected")
+				break
+			}
+
 			measurements[index] = Measurement{
 				SignalID:  signalIndexCache.SignalID(id),
 				Value:     float64(value),
-- 
2.43.0


From 54c3976cb3b400d653b9971fb9fc938d6eee132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:36 +0000
Subject: [PATCH 12/78] fix: deliver and count only the measurements decoded
 from a packet

---
 sttp/transport/DataSubscriber.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 624fb2c..90d66b4 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1259,11 +1259,14 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	ds.signalIndexCacheMutex.Unlock()
 
 	if compressed {
-		ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
+		count = ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
 	} else {
-		ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+		count = ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
 	}
 
+	// Only provide measurements that were decoded from this packet
+	*measurements = (*measurements)[:count]
+
 	ds.BeginCallbackSync()
 
 	if ds.NewMeasurementsCallback != nil {
@@ -1277,7 +1280,7 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
 }
 
-func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) uint32 {
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1292,13 +1295,13 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if len(data) < 3 {
 		ds.dispatchErrorMessage("Not enough data received to parse TSSC measurements - disconnecting.")
 		ds.dispatchConnectionTerminated()
-		return
+		return 0
 	}
 
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
-		return
+		return 0
 	}
 
 	sequenceNumber := binary.BigEndian.Uint16(data[1:])
@@ -1333,7 +1336,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		}
 
 		// Ignore packets until the reset has occurred
-		return
+		return 0
 	}
 
 	decoder.SetBuffer(data[3:])
@@ -1368,7 +1371,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-		return
+		return uint32(index)
 	}
 
 	decoder.SequenceNumber++
@@ -1377,9 +1380,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber == 0 {
 		decoder.SequenceNumber = 1
 	}
+
+	return uint32(index)
 }
 
-func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) uint32 {
 	if signalIndexCache.Count() == 0 {
 		if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
 			// Warning message for missing signal index cache
@@ -1390,7 +1395,7 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 			ds.lastMissingCacheWarning = ticks.UtcNow()
 		}
 
-		return
+		return 0
 	}
 
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
@@ -1405,12 +1410,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		if err != nil {
 			ds.dispatchErrorMessage("Failed to parse compact measurements - disconnecting: " + err.Error())
 			ds.dispatchConnectionTerminated()
-			return
+			return uint32(i)
 		}
 
 		index += bytesDecoded
 		measurements[i] = compactMeasurement.Measurement
 	}
+
+	return uint32(len(measurements))
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
-- 
2.43.0


From 8ef25dbff088ec804d2ca873ccadac5cb8085281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:09 +0000
Subject: [PATCH 13/78] fix: deliver buffer block payloads in sequence without
 placeholders

---
 sttp/transport/DataSubscriber.go | 69 +++++++++++++++++---------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 90d66b4..6db3f6d 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -165,7 +165,7 @@ type DataSubscriber struct {
 	MeasurementPool sync.Pool
 
 	bufferBlockExpectedSequenceNumber uint32
-	bufferBlockCache                  []BufferBlock
+	bufferBlockCache                  map[uint32]BufferBlock
 }
 
 // NewDataSubscriber creates a new DataSubscriber.
@@ -190,6 +190,7 @@ func NewDataSubscriber() *DataSubscriber {
 		STTPVersionInfo:          version.STTPVersion,
 		STTPUpdatedOnInfo:        version.STTPUpdatedOn,
 		signalIndexCache:         [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()},
+		bufferBlockCache:         make(map[uint32]BufferBlock),
 	}
 
 	ds.validated.Set()
@@ -377,6 +378,7 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
+	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 	ds.measurementRegistry = sync.Map{}
 }
 
@@ -1422,24 +1424,32 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
+	headerSize := 4
+
+	if ds.Version > 1 {
+		headerSize = 5
+	}
+
+	if len(data) < headerSize+4 {
+		ds.dispatchErrorMessage("Not enough data received to parse buffer block")
+		return
+	}
+
 	sequenceNumber := binary.BigEndian.Uint32(data)
-	bufferCacheIndex := int(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
 	var signalIndexCacheIndex int32
 
 	if ds.Version > 1 && data[4:][0] > 0 {
 		signalIndexCacheIndex = 1
 	}
 
-	// Check if this buffer block has already been processed (e.g., mistaken retransmission due to timeout)
-	if bufferCacheIndex >= 0 && (bufferCacheIndex >= len(ds.bufferBlockCache) || ds.bufferBlockCache[bufferCacheIndex].Buffer == nil) {
-		// Send confirmation that buffer block is received
-		ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
+	// Send confirmation that buffer block is received
+	ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
 
-		if ds.Version > 1 {
-			data = data[5:]
-		} else {
-			data = data[4:]
-		}
+	_, cached := ds.bufferBlockCache[sequenceNumber]
+
+	// Check if this buffer block has already been processed (e.g., mistaken retransmission due to timeout)
+	if !cached && int32(sequenceNumber-ds.bufferBlockExpectedSequenceNumber) >= 0 {
+		data = data[headerSize:]
 
 		// Get measurement key from signal index cache
 		signalIndex := int32(binary.BigEndian.Uint32(data))
@@ -1449,32 +1459,30 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 		ds.signalIndexCacheMutex.Unlock()
 
 		signalID := signalIndexCache.SignalID(signalIndex)
-		bufferBlockMeasurement := BufferBlock{SignalID: signalID}
+		buffer := make([]byte, len(data)-4)
+		copy(buffer, data[4:])
+		bufferBlockMeasurement := BufferBlock{SignalID: signalID, Buffer: buffer}
 
 		// Determine if this is the next buffer block in the sequence
 		if sequenceNumber == ds.bufferBlockExpectedSequenceNumber {
-			bufferBlockMeasurements := make([]BufferBlock, 1+len(ds.bufferBlockCache))
-			var i int
-
 			// Add the buffer block measurement to the list of measurements to be published
-			bufferBlockMeasurements[0] = bufferBlockMeasurement
+			bufferBlockMeasurements := []BufferBlock{bufferBlockMeasurement}
 			ds.bufferBlockExpectedSequenceNumber++
 
 			// Add cached buffer block measurements to the list of measurements to be published
-			for i = 1; i < len(ds.bufferBlockCache); i++ {
-				if ds.bufferBlockCache[i].Buffer == nil {
+			for {
+				cachedMeasurement, ok := ds.bufferBlockCache[ds.bufferBlockExpectedSequenceNumber]
+
+				if !ok {
 					break
 				}
 
-				bufferBlockMeasurements[i] = ds.bufferBlockCache[i]
+				// Remove published buffer block measurements from the buffer block cache
+				delete(ds.bufferBlockCache, ds.bufferBlockExpectedSequenceNumber)
+				bufferBlockMeasurements = append(bufferBlockMeasurements, cachedMeasurement)
 				ds.bufferBlockExpectedSequenceNumber++
 			}
 
-			// Remove published buffer block measurements from the buffer block queue
-			if len(ds.bufferBlockCache) > 0 {
-				ds.bufferBlockCache = ds.bufferBlockCache[i:]
-			}
-
 			// Publish buffer block measurements
 			ds.BeginCallbackSync()
 
@@ -1486,15 +1494,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 			ds.EndCallbackSync()
 		} else {
-			// Ensure that the list has at least as many elements as it needs to cache this measurement.
-			// This edge case handles possible dropouts and/or out of order packet deliver when data
-			// transport is UDP - this use case is not expected when using a TCP only connection.
-			for i := len(ds.bufferBlockCache); i <= bufferCacheIndex; i++ {
-				ds.bufferBlockCache = append(ds.bufferBlockCache, BufferBlock{})
-			}
-
-			// Insert this buffer block into the proper location in the list
-			ds.bufferBlockCache[bufferCacheIndex] = bufferBlockMeasurement
+			// Cache buffer block until its predecessors have been received. This edge case handles
+			// possible dropouts and/or out of order packet deliver when data transport is UDP - this
+			// use case is not expected when using a TCP only connection.
+			ds.bufferBlockCache[sequenceNumber] = bufferBlockMeasurement
 		}
 	}
 }
-- 
2.43.0


From 1ad835c6abfce6af8c8d6ce3de16a00559a7d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:11 +0000
Subject: [PATCH 14/78] fix: reset base time offsets for a new connection

---
 sttp/transport/DataSubscriber.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 6db3f6d..2c93618 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -377,6 +377,8 @@ func (ds *DataSubscriber) setupConnection() {
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
 	ds.keyIVs = nil
+	ds.timeIndex = 0
+	ds.baseTimeOffsets = [2]int64{}
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 	ds.measurementRegistry = sync.Map{}
-- 
2.43.0


From 4c38aee921c3d0adebfade0246bd08cd0c5e0c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:12 +0000
Subject: [PATCH 15/78] fix: serialize server commands and size write buffer
 for large payloads

---
 sttp/transport/DataSubscriber.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 2c93618..0046a80 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -63,6 +63,7 @@ type DataSubscriber struct {
 	readBuffer                   []byte
 	reader                       *bufio.Reader
 	writeBuffer                  []byte
+	writeBufferMutex             sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
@@ -1539,15 +1540,27 @@ func (ds *DataSubscriber) SendServerCommandWithMessage(commandCode ServerCommand
 
 // SendServerCommandWithPayload sends a server command code to the DataPublisher along with the specified data payload.
 func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommandEnum, data []byte) {
+	if err := ds.writeServerCommand(commandCode, data); err != nil {
+		// Write error, connection may have been closed by peer; terminate connection
+		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
+		ds.dispatchConnectionTerminated()
+	}
+}
+
+func (ds *DataSubscriber) writeServerCommand(commandCode ServerCommandEnum, data []byte) error {
+	// Commands can be sent from multiple threads, write buffer is shared
+	ds.writeBufferMutex.Lock()
+	defer ds.writeBufferMutex.Unlock()
+
 	if ds.connected.IsNotSet() {
-		return
+		return nil
 	}
 
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
 	if int(commandBufferSize) > cap(ds.writeBuffer) {
-		ds.writeBuffer = ds.writeBuffer[:commandBufferSize]
+		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
 
 	// Insert packet size
@@ -1567,11 +1580,9 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		ds.metadataRequested = time.Now()
 	}
 
-	if _, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize]); err != nil {
-		// Write error, connection may have been closed by peer; terminate connection
-		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
-		ds.dispatchConnectionTerminated()
-	}
+	_, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize])
+
+	return err
 }
 
 func (ds *DataSubscriber) sendOperationalModes() {
-- 
2.43.0


From a00bff98ccf3146c9333ef6f3de37891b20c35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:14 +0000
Subject: [PATCH 16/78] fix: send NaN value filter setting as a parameter value

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 0046a80..4173870 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -497,7 +497,7 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
-	parameterBuilder.WriteString(";requestNaNValueFilter")
+	parameterBuilder.WriteString(";requestNaNValueFilter=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
-- 
2.43.0


From f91b945d2856cfe967775d468161a7224780aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:33 +0000
Subject: [PATCH 17/78] fix: mark thread as running when it is started

---
 sttp/thread/Thread.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sttp/thread/Thread.go b/sttp/thread/Thread.go
index 9bba841..30103a7 100644
--- a/sttp/thread/Thread.go
+++ b/sttp/thread/Thread.go
@@ -47,7 +47,7 @@ func (thread *Thread) Start() {
 		panic("thread has no execution function defined")
 	}
 
-	if thread.running.IsSet() {
+	if !thread.running.SetToIf(false, true) {
 		panic("thread is already running")
 	}
 
@@ -91,6 +91,5 @@ func (thread *Thread) run() {
 	defer thread.running.UnSet()
 	defer thread.mutex.Unlock()
 
-	thread.running.Set()
 	thread.exec()
 }
-- 
2.43.0


From 63b2b8feadf65e1dd4ac67f2d10a4eba4166ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:34 +0000
Subject: [PATCH 18/78] fix: release pending retry wait when connector is
 canceled

---
 sttp/transport/SubscriberConnector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a4b2177..228bf1e 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -183,6 +183,11 @@ func (sc *SubscriberConnector) waitForRetry() {
 	sc.waitTimer = waitTimer
 	sc.waitTimerMutex.Unlock()
 
+	// Connector may have been canceled before timer was available
+	if sc.cancel.IsSet() {
+		return
+	}
+
 	<-waitTimer.C
 }
 
@@ -250,7 +255,8 @@ func (sc *SubscriberConnector) Cancel() {
 	sc.waitTimerMutex.Unlock()
 
 	if waitTimer != nil {
-		waitTimer.Stop()
+		// Release any pending retry wait
+		waitTimer.Reset(0)
 	}
 
 	sc.reconnectThreadMutex.Lock()
-- 
2.43.0


From 808fe4726e3bb4c2f2a40263c1984c1cc82228a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:36 +0000
Subject: [PATCH 19/78] fix: do not lose connector cancellation, allow dial
 after disconnect

---
 sttp/Subscriber.go                    |  3 +++
 sttp/transport/DataSubscriber.go      |  3 ++-
 sttp/transport/SubscriberConnector.go | 10 ++++------
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 91c01b1..61d3a9f 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -261,6 +261,9 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	var err error
 
+	// User requests to connect start a new connection sequence
+	con.ResetConnection()
+
 	// Connect and subscribe to publisher
 	switch con.Connect(ds) {
 	case transport.ConnectStatus.Success:
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 4173870..291c192 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -322,6 +322,7 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
 	// User requests to connection are not an auto-reconnect attempt
+	ds.connector.ResetConnection()
 	return ds.connect(hostName, port, false)
 }
 
@@ -354,7 +355,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.setupConnection()
 
 	if !autoReconnecting {
-		ds.connector.ResetConnection()
+		ds.connector.connectAttempt = 0
 	}
 
 	ds.connector.connectionRefused.UnSet()
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 228bf1e..a67ccdd 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -95,7 +95,7 @@ func (ds *DataSubscriber) autoReconnect() {
 	reconnectThread = thread.NewThread(func() {
 		// Reset connection attempt counter if last attempt was not refused
 		if sc.connectionRefused.IsNotSet() {
-			sc.ResetConnection()
+			sc.connectAttempt = 0
 		}
 
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
@@ -207,8 +207,6 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 		ds.EndCallbackAssignment()
 	}
 
-	sc.cancel.UnSet()
-
 	for ds.disposing.IsNotSet() {
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
 			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
@@ -228,10 +226,10 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
 			autoReconnecting = true
 			sc.waitForRetry()
+		}
 
-			if sc.cancel.IsSet() {
-				return ConnectStatus.Canceled
-			}
+		if sc.cancel.IsSet() {
+			return ConnectStatus.Canceled
 		}
 	}
 
-- 
2.43.0


From 4c71f93dc477bfb6741b44acb89dac9c8f253804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:38 +0000
Subject: [PATCH 20/78] fix: keep retry delays within maximum retry interval

---
 sttp/transport/SubscriberConnector.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a67ccdd..38811d0 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -135,7 +135,7 @@ func (sc *SubscriberConnector) waitForRetry() {
 	var exponent float64
 
 	if sc.connectAttempt > 13 {
-		exponent = 12
+		exponent = 13
 	} else {
 		exponent = float64(sc.connectAttempt)
 	}
@@ -143,11 +143,7 @@ func (sc *SubscriberConnector) waitForRetry() {
 	var retryInterval int32
 
 	if sc.connectAttempt > 0 {
-		retryInterval = sc.RetryInterval * int32(math.Pow(2, exponent))
-	}
-
-	if retryInterval > sc.MaxRetryInterval {
-		retryInterval = sc.MaxRetryInterval
+		retryInterval = int32(math.Min(float64(sc.RetryInterval)*math.Pow(2, exponent), float64(sc.MaxRetryInterval)))
 	}
 
 	// Notify the user that we are attempting to reconnect.
@@ -172,6 +168,11 @@ func (sc *SubscriberConnector) waitForRetry() {
 		message.WriteString(" seconds...")
 	} else {
 		retryInterval = sc.RetryInterval
+
+		if sc.MaxRetryInterval > 0 && retryInterval > sc.MaxRetryInterval {
+			retryInterval = sc.MaxRetryInterval
+		}
+
 		message.WriteString("Attempting to reconnect...")
 	}
 
-- 
2.43.0


From c03be588322a765dc24694e481c51e8c14b06f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:41 +0000
Subject: [PATCH 21/78] fix: do not wait on running reconnect while holding
 callback lock

---
 sttp/transport/SubscriberConnector.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 38811d0..abf5186 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -83,16 +83,16 @@ func (ds *DataSubscriber) autoReconnect() {
 		return
 	}
 
-	// Make sure to wait on any running reconnect to complete...
-	sc.reconnectThreadMutex.Lock()
-	reconnectThread := sc.reconnectThread
-	sc.reconnectThreadMutex.Unlock()
-
-	if reconnectThread != nil {
-		reconnectThread.Join()
-	}
+	var lastReconnectThread *thread.Thread
+
+	reconnectThread := thread.NewThread(func() {
+		// Make sure to wait on any running reconnect to complete, this is done here
+		// since caller holds callback lock that the running reconnect may need
+		if lastReconnectThread != nil {
+			lastReconnectThread.Join()
+			lastReconnectThread = nil
+		}
 
-	reconnectThread = thread.NewThread(func() {
 		// Reset connection attempt counter if last attempt was not refused
 		if sc.connectionRefused.IsNotSet() {
 			sc.connectAttempt = 0
@@ -124,10 +124,10 @@ func (ds *DataSubscriber) autoReconnect() {
 	})
 
 	sc.reconnectThreadMutex.Lock()
+	lastReconnectThread = sc.reconnectThread
 	sc.reconnectThread = reconnectThread
-	sc.reconnectThreadMutex.Unlock()
-
 	reconnectThread.Start()
+	sc.reconnectThreadMutex.Unlock()
 }
 
 func (sc *SubscriberConnector) waitForRetry() {
-- 
2.43.0


From d3359c7263b9a781cdc69442e77bcb192446e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:43 +0000
Subject: [PATCH 22/78] fix: wait for accept thread before acquiring connect
 action lock

---
 sttp/transport/DataSubscriber.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 291c192..6533fc2 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -659,7 +659,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	if !autoReconnecting {
 		ds.connector.Cancel()
 		ds.connectionTerminationThread.Join()
-		ds.connectActionMutex.Lock()
 	}
 
 	// Release queues and close sockets so that threads can shut down gracefully
@@ -669,6 +668,16 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		}
 	}
 
+	// Accept thread needs connect action lock to complete, so its completion must be awaited before lock is acquired
+	if includeListener && ds.listeningSocketAcceptThread != nil {
+		ds.listeningSocketAcceptThread.Join()
+		ds.listeningSocketAcceptThread = nil
+	}
+
+	if !autoReconnecting {
+		ds.connectActionMutex.Lock()
+	}
+
 	if ds.commandChannelSocket != nil {
 		if err := ds.commandChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
@@ -682,11 +691,6 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 	}
 
 	// Join with all threads to guarantee their completion before returning control to the caller
-	if includeListener && ds.listeningSocketAcceptThread != nil {
-		ds.listeningSocketAcceptThread.Join()
-		ds.listeningSocketAcceptThread = nil
-	}
-
 	if ds.commandChannelResponseThread != nil {
 		ds.commandChannelResponseThread.Join()
 		ds.commandChannelResponseThread = nil
-- 
2.43.0


From 3737aafd98fe14361c26df9b436bda206059708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:45 +0000
Subject: [PATCH 23/78] fix: clear state of connections completed during
 disconnect

---
 sttp/transport/DataSubscriber.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 6533fc2..f2c06ab 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -676,6 +676,11 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 
 	if !autoReconnecting {
 		ds.connectActionMutex.Lock()
+
+		// A pending connect operation may have completed while waiting on lock
+		ds.connected.UnSet()
+		ds.validated.UnSet()
+		ds.subscribed.UnSet()
 	}
 
 	if ds.commandChannelSocket != nil {
-- 
2.43.0


From 8dc995757729b22b1c104fcc7e276425899a7a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:46 +0000
Subject: [PATCH 24/78] fix: do not mark subscriber as disconnecting on
 unsubscribe

---
 sttp/transport/DataSubscriber.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index f2c06ab..978af5f 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -583,8 +583,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
 
-	ds.disconnecting.Set()
-
 	if ds.dataChannelSocket != nil {
 		if err := ds.dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
@@ -594,8 +592,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 	if ds.dataChannelResponseThread != nil {
 		ds.dataChannelResponseThread.Join()
 	}
-
-	ds.disconnecting.UnSet()
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
-- 
2.43.0


From a831466ebdce84a443abe22e83087f2d0d64c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:48 +0000
Subject: [PATCH 25/78] fix: prevent concurrent disconnect threads

---
 sttp/transport/DataSubscriber.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 978af5f..d019de3 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -609,7 +609,7 @@ func (ds *DataSubscriber) Disconnect() {
 
 func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool) {
 	// Check if disconnect thread is running or subscriber has already disconnected
-	if ds.disconnecting.IsSet() {
+	if !ds.disconnecting.SetToIf(false, true) {
 		if !autoReconnecting && ds.listening.IsNotSet() && ds.disconnected.IsNotSet() {
 			ds.connector.Cancel()
 		}
@@ -626,7 +626,6 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 	}
 
 	// Notify running threads that the subscriber is disconnecting, i.e., disconnect thread is active
-	ds.disconnecting.Set()
 	ds.connected.UnSet()
 	ds.validated.UnSet()
 
-- 
2.43.0


From 70c503a7f60490bfad2cd0d061253f2d99dacfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:49 +0000
Subject: [PATCH 26/78] fix: use current metadata callback when metadata is
 dispatched

---
 sttp/transport/DataSubscriber.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index d019de3..f27cc62 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1019,10 +1019,10 @@ func (ds *DataSubscriber) handleFailed(commandCode ServerCommandEnum, data []byt
 
 func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 	ds.BeginCallbackSync()
-	metadataReceivedCallback := ds.MetadataReceivedCallback
+	handleMetadata := ds.MetadataReceivedCallback != nil
 	ds.EndCallbackSync()
 
-	if metadataReceivedCallback != nil {
+	if handleMetadata {
 		if ds.CompressMetadata {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Decompressing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
 
@@ -1039,7 +1039,13 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
 		}
 
-		go metadataReceivedCallback(data)
+		ds.BeginCallbackSync()
+
+		if ds.MetadataReceivedCallback != nil {
+			go ds.MetadataReceivedCallback(data)
+		}
+
+		ds.EndCallbackSync()
 	}
 }
 
-- 
2.43.0


From d030c462420c295bc28cc3e7d48b9b062012750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:51 +0000
Subject: [PATCH 27/78] fix: copy uncompressed metadata before asynchronous
 dispatch

---
 sttp/transport/DataSubscriber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index f27cc62..fad56dd 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1036,6 +1036,9 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
+			// Callback is asynchronous, source data is in read buffer that will be reused by next packet
+			data = append([]byte(nil), data...)
+
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
 		}
 
-- 
2.43.0


From 0f5b72de17e949a5340ec3e95bf7664c55e3b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:52 +0000
Subject: [PATCH 28/78] fix: guard subscription updated callback assignment
 with data subscriber lock

---
 sttp/Subscriber.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 61d3a9f..3772654 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -757,10 +757,12 @@ func (sb *Subscriber) SetMetadataReceiver(callback func(dataSet *data.DataSet))
 // SignalIndexCache has been received.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetSubscriptionUpdatedReceiver(callback func(signalIndexCache *transport.SignalIndexCache)) {
-	sb.beginCallbackAssignment()
-	defer sb.endCallbackAssignment()
+	ds := sb.dataSubscriber()
+
+	ds.BeginCallbackAssignment()
+	defer ds.EndCallbackAssignment()
 
-	sb.dataSubscriber().SubscriptionUpdatedCallback = callback
+	ds.SubscriptionUpdatedCallback = callback
 }
 
 // SetDataStartTimeReceiver defines the callback that handles notification of first received measurement.
-- 
2.43.0


From 647bea813c7c6d16034b612342dc084914522cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:53 +0000
Subject: [PATCH 29/78] fix: use currently assigned message loggers after
 connection

---
 sttp/Subscriber.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 3772654..9fcc257 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -243,10 +243,10 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	ds.BeginCallbackAssignment()
 	sb.beginCallbackSync()
 
-	// Register direct Subscriber callbacks
-	con.ErrorMessageCallback = sb.errorMessageLogger
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	// Register direct Subscriber callbacks, messages always use currently assigned loggers
+	con.ErrorMessageCallback = sb.ErrorMessage
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
@@ -332,9 +332,9 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.BeginCallbackAssignment()
 	sb.beginCallbackSync()
 
-	// Register direct Subscriber callbacks
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	// Register direct Subscriber callbacks, messages always use currently assigned loggers
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
-- 
2.43.0


From 1f96aeeb71b5cddac20d9db1558a51f9e2fbef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:55 +0000
Subject: [PATCH 30/78] fix: avoid nested callback lock in default connection
 receiver

---
 sttp/Subscriber.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 9fcc257..fef1edb 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -717,7 +717,8 @@ func (sb *Subscriber) DefaultConnectionEstablishedReceiver() {
 		dir = "to"
 	}
 
-	sb.StatusMessage("Connection " + dir + " " + sb.ConnectionID() + " established.")
+	// Receivers are called while callback lock is held, so message is logged separately
+	go sb.StatusMessage("Connection " + dir + " " + sb.ConnectionID() + " established.")
 }
 
 // DefaultConnectionTerminatedReceiver implements the default handler for the ConnectionTerminated callback.
-- 
2.43.0


From 1de4a7016639245649c9a8db1e3a899d55a25049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:56 +0000
Subject: [PATCH 31/78] fix: allow measurement reader to be closed while data
 is being received

---
 sttp/MeasurementReader.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 1804b27..2936871 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -25,23 +25,31 @@ package sttp
 
 import (
 	"context"
+	"sync"
 
 	"github.com/sttp/goapi/sttp/transport"
 )
 
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
-	current chan *transport.Measurement
+	current   chan *transport.Measurement
+	closed    chan struct{}
+	closeOnce sync.Once
 }
 
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
 		current: make(chan *transport.Measurement),
+		closed:  make(chan struct{}),
 	}
 
 	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
 		for _, m := range *measurements {
-			reader.current <- &m
+			select {
+			case reader.current <- &m:
+			case <-reader.closed:
+				return
+			}
 		}
 	})
 
@@ -50,15 +58,24 @@ func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 
 // NextMeasurement blocks current thread until a new measurement arrives or provided context is completed.
 // Returns tuple of measurement and completed state. Completed state flag will be false if a measurement
-// was received; otherwise, state flag will be true along with a nil measurement when context is done.
+// was received; otherwise, state flag will be true along with a nil measurement when context is done
+// or reader is closed.
 func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Measurement, bool) {
 	if ctx == nil {
 		ctx = context.Background()
 	}
 
+	select {
+	case <-mr.closed:
+		return nil, true
+	default:
+	}
+
 	select {
 	case <-ctx.Done():
 		return nil, true
+	case <-mr.closed:
+		return nil, true
 	case measurement := <-mr.current:
 		return measurement, false
 	}
@@ -66,5 +83,7 @@ func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Me
 
 // Close closes the measurement reader channel.
 func (mr *MeasurementReader) Close() {
-	close(mr.current)
+	mr.closeOnce.Do(func() {
+		close(mr.closed)
+	})
 }
-- 
2.43.0


From 12c1cef4b09423d180d761983f01ace927f454bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:58 +0000
Subject: [PATCH 32/78] fix: clear base time offset flag when there is no base
 time

---
 sttp/transport/CompactMeasurement.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index e981593..c84fc29 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -186,6 +186,7 @@ func (cm *CompactMeasurement) GetBinaryLength() uint32 {
 		}
 	} else {
 		// Use eight bytes for full fidelity time
+		cm.usingBaseTimeOffset = false
 		length += 8
 	}
 
-- 
2.43.0


From 01841ff9453eb8533397cdc6638f350c82b30b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:39 +0000
Subject: [PATCH 33/78] fix: count connection attempts when retry interval is
 zero

---
 sttp/transport/SubscriberConnector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index abf5186..aa732d0 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -224,8 +224,10 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 			break
 		}
 
+		// Any further attempt is a retry, even when there is no delay between attempts
+		autoReconnecting = true
+
 		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
-			autoReconnecting = true
 			sc.waitForRetry()
 		}
 
-- 
2.43.0


From 5075e502e9905e977e20d90c4bf21bdb2639b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:41 +0000
Subject: [PATCH 34/78] fix: do not reconnect when auto-reconnect is disabled
 for a later connection

---
 sttp/transport/SubscriberConnector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index aa732d0..d2aabc4 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -79,7 +79,8 @@ type SubscriberConnector struct {
 func (ds *DataSubscriber) autoReconnect() {
 	sc := ds.connector
 
-	if sc.cancel.IsSet() || ds.disposing.IsSet() {
+	// Callback remains assigned when a later connection is made with auto-reconnect disabled
+	if !sc.AutoReconnect || sc.cancel.IsSet() || ds.disposing.IsSet() {
 		return
 	}
 
-- 
2.43.0


From af317c7b8840d9a35d6fea37b642a18ff52170f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:42 +0000
Subject: [PATCH 35/78] fix: handle connection once when dialing after
 listening

---
 sttp/Subscriber.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index fef1edb..a41924d 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -250,6 +250,7 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
+	ds.ConnectionEstablishedCallback = nil // Assigned by listen, connect calls handler directly
 	ds.MetadataReceivedCallback = sb.handleMetadataReceived
 	ds.DataStartTimeCallback = sb.handleDataStartTime
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
-- 
2.43.0


From a8fac2d7cb503af001864b0ab3348d89b4801abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:44 +0000
Subject: [PATCH 36/78] fix: return registered metadata record when lookups
 race

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index fad56dd..a12ada7 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -295,7 +295,7 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 			Multiplier: 1.0,
 		}
 		// Continue using LoadOrStore on failure to avoid racing another thread
-		ds.measurementRegistry.LoadOrStore(signalID, metadata)
+		metadata, _ = ds.measurementRegistry.LoadOrStore(signalID, metadata)
 	}
 	return metadata.(*MeasurementMetadata)
 }
-- 
2.43.0


From 59af4e81a86a3b2eaf2639fd3a2f4ffa3ee2b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:23 +0000
Subject: [PATCH 37/78] fix: report TSSC sequence errors without holding the
 report lock

---
 sttp/transport/DataSubscriber.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index a12ada7..357a8b9 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1345,13 +1345,18 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber != sequenceNumber {
 		if ds.tsscResetRequested.IsNotSet() {
 			ds.tsscLastOOSReportMutex.Lock()
+			report := time.Since(ds.tsscLastOOSReport).Seconds() > 2.0
 
-			if time.Since(ds.tsscLastOOSReport).Seconds() > 2.0 {
-				ds.dispatchErrorMessage("TSSC is out of sequence. Expecting: " + strconv.Itoa(int(decoder.SequenceNumber)) + ", received: " + strconv.Itoa(int(sequenceNumber)))
+			if report {
 				ds.tsscLastOOSReport = time.Now()
 			}
 
 			ds.tsscLastOOSReportMutex.Unlock()
+
+			// Dispatch needs callback lock, which is held while a connection callback subscribes
+			if report {
+				ds.dispatchErrorMessage("TSSC is out of sequence. Expecting: " + strconv.Itoa(int(decoder.SequenceNumber)) + ", received: " + strconv.Itoa(int(sequenceNumber)))
+			}
 		}
 
 		// Ignore packets until the reset has occurred
-- 
2.43.0


From e028ce2c571a65f8ea420e67aedf35f401fb072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:24 +0000
Subject: [PATCH 38/78] fix: do not wait for a requested disconnect while
 reconnecting

---
 sttp/transport/DataSubscriber.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 357a8b9..3c29abe 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -341,6 +341,11 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.disconnectThreadMutex.Unlock()
 
 	if disconnectThread != nil {
+		// A requested disconnect waits for any running reconnect, so a reconnect cannot wait for it
+		if autoReconnecting && ds.disconnecting.IsSet() {
+			return errors.New("subscriber is disconnecting; cannot reconnect")
+		}
+
 		disconnectThread.Join()
 	}
 
-- 
2.43.0


From f4dafcf2f72337def112297570e968e8babfbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:26 +0000
Subject: [PATCH 39/78] fix: do not wait for the reconnect thread in a
 disconnect request

---
 sttp/transport/DataSubscriber.go      |  7 ++++++-
 sttp/transport/SubscriberConnector.go | 21 +++++++++++++--------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 3c29abe..3760042 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -616,7 +616,12 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 	// Check if disconnect thread is running or subscriber has already disconnected
 	if !ds.disconnecting.SetToIf(false, true) {
 		if !autoReconnecting && ds.listening.IsNotSet() && ds.disconnected.IsNotSet() {
-			ds.connector.Cancel()
+			if joinThread {
+				ds.connector.Cancel()
+			} else {
+				// Caller may be a callback executing on the reconnect thread
+				ds.connector.cancelRetry()
+			}
 		}
 
 		ds.disconnectThreadMutex.Lock()
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index d2aabc4..86e17da 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -250,6 +250,19 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 
 // Cancel stops all current and future connection sequences.
 func (sc *SubscriberConnector) Cancel() {
+	sc.cancelRetry()
+
+	sc.reconnectThreadMutex.Lock()
+	reconnectThread := sc.reconnectThread
+	sc.reconnectThreadMutex.Unlock()
+
+	if reconnectThread != nil {
+		reconnectThread.Join()
+	}
+}
+
+// cancelRetry requests a stop of all connection sequences without waiting for running ones.
+func (sc *SubscriberConnector) cancelRetry() {
 	sc.cancel.Set()
 
 	sc.waitTimerMutex.Lock()
@@ -260,14 +273,6 @@ func (sc *SubscriberConnector) Cancel() {
 		// Release any pending retry wait
 		waitTimer.Reset(0)
 	}
-
-	sc.reconnectThreadMutex.Lock()
-	reconnectThread := sc.reconnectThread
-	sc.reconnectThreadMutex.Unlock()
-
-	if reconnectThread != nil {
-		reconnectThread.Join()
-	}
 }
 
 // ResetConnection resets SubscriberConnector for a new connection.
-- 
2.43.0


From a91d0791f23904c0c1fccbecfbedc2db9a364e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:21 +0000
Subject: [PATCH 40/78] fix: convert Boolean expression values to Int32 without
 panicking

---
 sttp/data/ValueExpression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index b9b401d..4eeb086 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -410,7 +410,7 @@ func (ve *ValueExpression) convertFromBoolean(targetValueType ExpressionValueTyp
 	case ExpressionValueType.Boolean:
 		return newValueExpression(targetValueType, value != 0), nil
 	case ExpressionValueType.Int32:
-		return newValueExpression(targetValueType, value), nil
+		return newValueExpression(targetValueType, int32(value)), nil
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
-- 
2.43.0


From 03bd08e938f8a638e0eb30f7de4143963af23ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:24 +0000
Subject: [PATCH 41/78] fix: use first argument of IIf function as its test
 value

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index feea2c1..a7c7253 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -691,7 +691,7 @@ func (et *ExpressionTree) evaluateIIf(arguments []Expression) (*ValueExpression,
 	var testValue *ValueExpression
 	var err error
 
-	if testValue, err = et.evaluate(arguments[1]); err != nil {
+	if testValue, err = et.evaluate(arguments[0]); err != nil {
 		return nil, errors.New("failed while evaluating \"IIf\" function test value, first argument: " + err.Error())
 	}
 
-- 
2.43.0


From bda6768c3e6ee0105c57a1cf7cb6632f19b7f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:28 +0000
Subject: [PATCH 42/78] fix: raise Power function source to the specified
 exponent

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index a7c7253..88915be 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2150,7 +2150,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 		return nil, errors.New("failed while converting \"Power\" function source value, first argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-	if exponentValue, err = sourceValue.Convert(valueType); err != nil {
+	if exponentValue, err = exponentValue.Convert(valueType); err != nil {
 		return nil, errors.New("failed while converting \"Power\" function exponent value, second argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-- 
2.43.0


From 630af52278515ce9099a3724de16d4f0dbf6a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:31 +0000
Subject: [PATCH 43/78] fix: treat case-insensitive Replace value as literal
 text

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 88915be..458d929 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2261,7 +2261,7 @@ func (et *ExpressionTree) replace(sourceValue, testValue, replaceValue, ignoreCa
 			return nil, errors.New("failed while compiling \"Replace\" function case-insensitive RegEx replace expression for test value, second argument: " + err.Error())
 		}
 
-		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllString(sourceValue.stringValue(), replaceValue.stringValue())), nil
+		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllLiteralString(sourceValue.stringValue(), replaceValue.stringValue())), nil
 	}
 
 	return newValueExpression(ExpressionValueType.String, strings.ReplaceAll(sourceValue.stringValue(), testValue.stringValue(), replaceValue.stringValue())), nil
-- 
2.43.0


From 5d02606f94f778cd7937cad2537314578860eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:53 +0000
Subject: [PATCH 44/78] fix: yield a Boolean null from comparisons with null
 operands

---
 sttp/data/ExpressionTree.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 458d929..d15a3e4 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -355,7 +355,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 
 	// If in list test value is Null, result is Null
 	if inListValue.IsNull() {
-		return NullValue(inListValue.ValueType()), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	hasNotKeyWord := inListExpression.HasNotKeyword()
@@ -2976,7 +2976,7 @@ func (et *ExpressionTree) bitwiseXorOp(leftValue, rightValue *ValueExpression, v
 func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3010,7 +3010,7 @@ func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, val
 func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3046,7 +3046,7 @@ func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpressi
 func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3080,7 +3080,7 @@ func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression,
 func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3116,7 +3116,7 @@ func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpre
 func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3153,7 +3153,7 @@ func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueT
 func (et *ExpressionTree) notEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
-- 
2.43.0


From 78aec6fe1572c816685237074e82b09f6db1ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:56 +0000
Subject: [PATCH 45/78] fix: let a literal null take the type of the value it
 is used with

---
 sttp/data/ExpressionTree.go | 42 ++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index d15a3e4..b3e324a 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -366,7 +366,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 	var valueType ExpressionValueTypeEnum
 
 	for i := 0; i < len(arguments); i++ {
-		if argumentValue, err = et.evaluate(arguments[i]); err != nil {
+		if argumentValue, err = et.evaluateAs(arguments[i], inListValue.ValueType()); err != nil {
 			return nil, errors.New("failed while evaluating \"IN\" expression argument " + strconv.Itoa(i) + ": " + err.Error())
 		}
 
@@ -1280,16 +1280,28 @@ func (et *ExpressionTree) evaluateOperator(expression Expression) (*ValueExpress
 
 	var leftValue *ValueExpression
 
-	if leftValue, err = et.evaluate(operatorExpression.LeftValue()); err != nil {
+	if leftValue, err = et.evaluateAs(operatorExpression.LeftValue(), ExpressionValueType.Undefined); err != nil {
 		return nil, errors.New("failed while evaluating \"" + operatorExpression.OperatorType().String() + "\" operator left operand: " + err.Error())
 	}
 
+	leftValueType := leftValue.ValueType()
+
+	if leftValueType == ExpressionValueType.Undefined {
+		leftValueType = ExpressionValueType.Boolean
+	}
+
 	var rightValue *ValueExpression
 
-	if rightValue, err = et.evaluate(operatorExpression.RightValue()); err != nil {
+	// Literal Null right operand assumes type of left operand
+	if rightValue, err = et.evaluateAs(operatorExpression.RightValue(), leftValueType); err != nil {
 		return nil, errors.New("failed while evaluating \"" + operatorExpression.OperatorType().String() + "\" operator right operand: " + err.Error())
 	}
 
+	// Literal Null left operand assumes type of right operand
+	if leftValue.ValueType() == ExpressionValueType.Undefined {
+		leftValue = NullValue(rightValue.ValueType())
+	}
+
 	var valueType ExpressionValueTypeEnum
 
 	if valueType, err = operatorExpression.OperatorType().deriveOperationValueType(leftValue.ValueType(), rightValue.ValueType()); err != nil {
@@ -2023,6 +2035,16 @@ func (et *ExpressionTree) maxOf(arguments []Expression) (*ValueExpression, error
 			return nil, errors.New("failed while evaluating \"MaxOf\" function argument " + strconv.Itoa(i) + ": " + err.Error())
 		}
 
+		// Null values are skipped
+		if nextValue.IsNull() {
+			continue
+		}
+
+		if testValue.IsNull() {
+			testValue = nextValue
+			continue
+		}
+
 		valueType, err := ExpressionOperatorType.GreaterThan.deriveComparisonOperationValueType(testValue.ValueType(), nextValue.ValueType())
 
 		if err != nil {
@@ -2035,7 +2057,7 @@ func (et *ExpressionTree) maxOf(arguments []Expression) (*ValueExpression, error
 			return nil, errors.New("failed while executing \">\" comparison operation in \"MaxOf\" function: " + err.Error())
 		}
 
-		if result.booleanValue() || (testValue.IsNull() && !nextValue.IsNull()) {
+		if result.booleanValue() {
 			testValue = nextValue
 		}
 	}
@@ -2057,6 +2079,16 @@ func (et *ExpressionTree) minOf(arguments []Expression) (*ValueExpression, error
 			return nil, errors.New("failed while evaluating \"MinOf\" function argument " + strconv.Itoa(i) + ": " + err.Error())
 		}
 
+		// Null values are skipped
+		if nextValue.IsNull() {
+			continue
+		}
+
+		if testValue.IsNull() {
+			testValue = nextValue
+			continue
+		}
+
 		valueType, err := ExpressionOperatorType.LessThan.deriveComparisonOperationValueType(testValue.ValueType(), nextValue.ValueType())
 
 		if err != nil {
@@ -2069,7 +2101,7 @@ func (et *ExpressionTree) minOf(arguments []Expression) (*ValueExpression, error
 			return nil, errors.New("failed while executing \"<\" comparison operation in \"MinOf\" function: " + err.Error())
 		}
 
-		if result.booleanValue() || (testValue.IsNull() && !nextValue.IsNull()) {
+		if result.booleanValue() {
 			testValue = nextValue
 		}
 	}
-- 
2.43.0


From 5fb76a3960d95280661ca5bcb31c3a3fecab24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:23 +0000
Subject: [PATCH 46/78] fix: split on every delimiter, including leading and
 absent ones

---
 sttp/data/ExpressionTree.go | 55 +++++++++++++++----------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index b3e324a..8aa0d0c 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2375,19 +2375,25 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 	}
 
 	index := indexValue.integerValue(-1)
-	var result []int
+	var result []string
 
 	if ignoreCase.booleanValue() {
-		result = splitNthIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(delimiterValue.stringValue()), index)
+		regex, err := regexp.Compile("(?i)" + regexp.QuoteMeta(delimiterValue.stringValue()))
+
+		if err != nil {
+			return nil, errors.New("failed while compiling \"Split\" function case-insensitive RegEx split expression for delimiter value, second argument: " + err.Error())
+		}
+
+		result = regex.Split(sourceValue.stringValue(), -1)
 	} else {
-		result = splitNthIndex(sourceValue.stringValue(), delimiterValue.stringValue(), index)
+		result = strings.Split(sourceValue.stringValue(), delimiterValue.stringValue())
 	}
 
-	if result == nil {
+	if index < 0 || index >= len(result) {
 		return EmptyString, nil
 	}
 
-	return newValueExpression(ExpressionValueType.String, sourceValue.stringValue()[result[0]:result[1]]), nil
+	return newValueExpression(ExpressionValueType.String, result[index]), nil
 }
 
 func (et *ExpressionTree) sqrt(sourceValue *ValueExpression) (*ValueExpression, error) {
@@ -3352,40 +3358,23 @@ func (et *ExpressionTree) orOp(leftValue, rightValue *ValueExpression) (*ValueEx
 
 // https://play.golang.org/p/-zlKH7mfboa
 func findNthIndex(source, test string, index int) int {
-	var result int
+	result := -1
 
-	for i := 0; i < index+1; i++ {
-		location := strings.Index(source, test)
+	for i := 0; i <= index; i++ {
+		offset := result + 1
 
-		if location == -1 {
-			result = 0
-			break
+		if offset > len(source) {
+			return -1
 		}
 
-		location++
-		result += location
-		source = source[location:]
-	}
-
-	return result - 1
-}
-
-// https://play.golang.org/p/_7nc06CqjKi
-func splitNthIndex(source, test string, index int) []int {
-	firstIndex := findNthIndex(source, test, index-1)
-	secondIndex := findNthIndex(source, test, index)
-
-	if firstIndex <= 0 && secondIndex <= 0 {
-		return nil
-	}
+		location := strings.Index(source[offset:], test)
 
-	if firstIndex <= 0 {
-		return []int{0, secondIndex}
-	}
+		if location == -1 {
+			return -1
+		}
 
-	if secondIndex <= 0 {
-		return []int{firstIndex + len(test), len(source)}
+		result = offset + location
 	}
 
-	return []int{firstIndex + len(test), secondIndex}
+	return result
 }
-- 
2.43.0


From 850285b14265a841c718ea01530a47554796a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:27 +0000
Subject: [PATCH 47/78] fix: avoid overflow when limiting SubStr length

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 8aa0d0c..4155c4e 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2559,7 +2559,7 @@ func (et *ExpressionTree) subStr(sourceValue, indexValue, lengthValue *ValueExpr
 			return EmptyString, nil
 		}
 
-		if index+length < len(sourceText) {
+		if length < len(sourceText)-index {
 			return newValueExpression(ExpressionValueType.String, sourceText[index:index+length]), nil
 		}
 	}
-- 
2.43.0


From 1a9ab5e79a280e233a0d80572ca665a25040ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:30 +0000
Subject: [PATCH 48/78] fix: match whole value when LIKE pattern has no wild
 cards

---
 sttp/data/ExpressionTree.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 4155c4e..22e19b0 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3263,7 +3263,7 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 	}
 
 	// "*" or "**" expression means match everything
-	if len(testExpression) == 0 {
+	if len(testExpression) == 0 && (startsWithWildcard || endsWithWildcard) {
 		return True, nil
 	}
 
@@ -3272,6 +3272,19 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 		return nil, errors.New("right operand of \"LIKE\" expression \"" + rightOperand + "\" has an invalid pattern")
 	}
 
+	// No wild cards means match whole value
+	if !startsWithWildcard && !endsWithWildcard {
+		if exactMatch {
+			if leftOperand == testExpression {
+				return True, nil
+			}
+		} else {
+			if strings.EqualFold(leftOperand, testExpression) {
+				return True, nil
+			}
+		}
+	}
+
 	if startsWithWildcard {
 		if exactMatch {
 			if strings.HasSuffix(leftOperand, testExpression) {
-- 
2.43.0


From 42b6c51ec9a0f82e9c67678d0051580f27072079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:33 +0000
Subject: [PATCH 49/78] fix: order null before other values in StrCmp function

---
 sttp/data/ExpressionTree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 22e19b0..9b6bda4 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2502,12 +2502,12 @@ func (et *ExpressionTree) strCmp(leftValue, rightValue, ignoreCase *ValueExpress
 
 	// If left value is null, right non-null value will be considered greater
 	if leftValue.IsNull() {
-		return newValueExpression(ExpressionValueType.Int32, int32(1)), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(-1)), nil
 	}
 
 	// If right value is null, left non-null value will be considered greater
 	if rightValue.IsNull() {
-		return newValueExpression(ExpressionValueType.Int32, int32(-1)), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(1)), nil
 	}
 
 	var err error
-- 
2.43.0


From a352a13eb8366b20c0b84c62f6c9b47060dfeb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:37 +0000
Subject: [PATCH 50/78] fix: keep sign when right shifting 64-bit values

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 9b6bda4..2355a7b 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2891,7 +2891,7 @@ func (et *ExpressionTree) bitShiftRightOp(leftValue, rightValue *ValueExpression
 		if shiftAmount < 0 {
 			shiftAmount = 64 - (abs(shiftAmount) % 64)
 		}
-		return newValueExpression(ExpressionValueType.Int64, int64(uint64(leftValue.int64Value())>>shiftAmount)), nil
+		return newValueExpression(ExpressionValueType.Int64, leftValue.int64Value()>>shiftAmount), nil
 	case ExpressionValueType.Decimal:
 		fallthrough
 	case ExpressionValueType.Double:
-- 
2.43.0


From 774f97f58a3ba3ea3e0ab0667976b7c23f240b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:54 +0000
Subject: [PATCH 51/78] fix: trim next line and no-break space as white-space
 characters

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 2355a7b..17c09cc 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -38,7 +38,7 @@ import (
 	"github.com/sttp/goapi/sttp/guid"
 )
 
-var whitespace string = " \t\n\v\f\r\x85\xA0"
+var whitespace string = " \t\n\v\f\r\u0085\u00A0"
 var intSize = int(unsafe.Sizeof(uint(0)) * 8)
 
 // ExpressionTree represents a tree of expressions for evaluation.
-- 
2.43.0


From f90569cc19f893627a11ef93110814423559ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:57 +0000
Subject: [PATCH 52/78] fix: report failed computations as evaluation errors
 instead of panicking

---
 sttp/data/DataRow.go        |  5 +++++
 sttp/data/ExpressionTree.go | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 74f9977..7ca7265 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -320,6 +321,10 @@ func convertFromDouble(value float64, targetType DataTypeEnum) (interface{}, err
 	case DataType.Double:
 		return value, nil
 	case DataType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert \"Double\" expression value that is not a finite number to \"" + targetType.String() + "\" column")
+		}
+
 		return decimal.NewFromFloat(value), nil
 	case DataType.Int8:
 		return int8(value), nil
diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 17c09cc..dce4d49 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -25,6 +25,7 @@ package data
 
 import (
 	"errors"
+	"fmt"
 	"math"
 	"regexp"
 	"sort"
@@ -163,7 +164,15 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 // Root expression should be assigned before calling Evaluate. The dataRow parameter can be nil if
 // there are no columns referenced in expression tree. An error will be returned if the expresssion
 // evaluation fails.
-func (et *ExpressionTree) Evaluate(dataRow *DataRow) (*ValueExpression, error) {
+func (et *ExpressionTree) Evaluate(dataRow *DataRow) (result *ValueExpression, err error) {
+	// Report operations that cannot be computed, e.g., division by zero, as an error
+	defer func() {
+		if r := recover(); r != nil {
+			result = nil
+			err = fmt.Errorf("failed while evaluating expression: %v", r)
+		}
+	}()
+
 	et.currentRow = dataRow
 	return et.evaluate(et.Root)
 }
-- 
2.43.0


From 0ca740fe0c0ca3bb895884eed48135b7071cd2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:00 +0000
Subject: [PATCH 53/78] fix: return an error when filter expression has a
 syntax error

---
 sttp/data/CallbackErrorListener.go  | 12 +++++++++++-
 sttp/data/FilterExpressionParser.go |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/sttp/data/CallbackErrorListener.go b/sttp/data/CallbackErrorListener.go
index 6f0bc47..9ecfb85 100644
--- a/sttp/data/CallbackErrorListener.go
+++ b/sttp/data/CallbackErrorListener.go
@@ -23,7 +23,11 @@
 
 package data
 
-import "github.com/antlr/antlr4/runtime/Go/antlr"
+import (
+	"fmt"
+
+	"github.com/antlr/antlr4/runtime/Go/antlr"
+)
 
 // CallbackErrorListener defines a implementation of an ANTLR error listener
 // that reports any parsing exceptions to a user defined callback.
@@ -32,6 +36,8 @@ type CallbackErrorListener struct {
 
 	// ParsingExceptionCallback defines a callback for reporting ANTLR parsing exceptions.
 	ParsingExceptionCallback func(message string)
+
+	firstError error
 }
 
 // NewCallbackErrorListener creates a new NewCallbackErrorListener.
@@ -43,6 +49,10 @@ func NewCallbackErrorListener() *CallbackErrorListener {
 
 // SyntaxError is called when ANTLR parser encounters a syntax error.
 func (cel *CallbackErrorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymbol interface{}, line, column int, msg string, e antlr.RecognitionException) {
+	if cel.firstError == nil {
+		cel.firstError = fmt.Errorf("syntax error at line %d, column %d: %s", line, column, msg)
+	}
+
 	if cel.ParsingExceptionCallback == nil {
 		return
 	}
diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8196cc4..6229b69 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -298,6 +298,11 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
 	parseTree := fep.parser.Parse()
+
+	if fep.errorListener.firstError != nil {
+		return fep.errorListener.firstError
+	}
+
 	walker.Walk(fep, parseTree)
 
 	return err
-- 
2.43.0


From ad361a94e314572480c100f6c83125ef4007ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:32 +0000
Subject: [PATCH 54/78] fix: allow a filter expression to be evaluated more
 than once

---
 sttp/data/FilterExpressionParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 6229b69..d3498eb 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -295,6 +295,11 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 		}
 	}()
 
+	// Start from first token as expression may have already been parsed
+	fep.tokens.Seek(0)
+	fep.parser.SetTokenStream(fep.tokens)
+	fep.errorListener.firstError = nil
+
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
 	parseTree := fep.parser.Parse()
-- 
2.43.0


From 77249b410db66497921fd95a89f5b2d1154faa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:53 +0000
Subject: [PATCH 55/78] fix: order case-sensitively only when exact match is
 requested

---
 sttp/data/FilterExpressionParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index d3498eb..52aa70a 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -482,7 +482,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 			fep.activeExpressionTree.OrderByTerms = append(fep.activeExpressionTree.OrderByTerms, &OrderByTerm{
 				Column:     orderByColumn,
 				Ascending:  orderingTermContext.K_DESC() == nil,
-				ExactMatch: orderingTermContext.ExactMatchModifier() == nil,
+				ExactMatch: orderingTermContext.ExactMatchModifier() != nil,
 			})
 		}
 	}
-- 
2.43.0


From e404116afa5dc90127dbcb2fefcdaa873d128976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:56 +0000
Subject: [PATCH 56/78] fix: apply TOP limit after ORDER BY sorting

---
 sttp/data/ExpressionTree.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index dce4d49..e00afab 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -95,6 +95,8 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 	}
 
 	matchedRows := make([]*DataRow, 0)
+	limited := applyLimit && et.TopLimit > -1
+	sorted := applySort && len(et.OrderByTerms) > 0
 	var row *DataRow
 	var resultExpression *ValueExpression
 	var result bool
@@ -102,7 +104,8 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 
 	// Find rows matching expression tree
 	for i := 0; i < table.RowCount(); i++ {
-		if applyLimit && et.TopLimit > -1 && len(matchedRows) >= et.TopLimit {
+		// Limit applies to sorted results, so all rows need to be matched before sorting
+		if limited && !sorted && len(matchedRows) >= et.TopLimit {
 			break
 		}
 
@@ -124,8 +127,8 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 		}
 	}
 
-	if applySort && len(matchedRows) > 0 && len(et.OrderByTerms) > 0 {
-		sort.Slice(matchedRows, func(i, j int) bool {
+	if sorted {
+		sort.SliceStable(matchedRows, func(i, j int) bool {
 			leftMatchedRow := matchedRows[i]
 			rightMatchedRow := matchedRows[j]
 
@@ -157,6 +160,10 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 		})
 	}
 
+	if limited && len(matchedRows) > et.TopLimit {
+		matchedRows = matchedRows[:et.TopLimit]
+	}
+
 	return matchedRows, nil
 }
 
-- 
2.43.0


From 2d121d3aa0e2162f1aed5e6477e994915f7d016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:59 +0000
Subject: [PATCH 57/78] fix: order False before True when comparing rows

---
 sttp/data/DataRow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 7ca7265..96b915e 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -1515,11 +1515,11 @@ func CompareDataRowColumns(leftRow, rightRow *DataRow, columnIndex int, exactMat
 		rightHasValue := !rightNull && rightErr == nil
 
 		if leftHasValue && rightHasValue {
-			if leftValue && !rightValue {
+			if !leftValue && rightValue {
 				return -1, nil
 			}
 
-			if !leftValue && rightValue {
+			if leftValue && !rightValue {
 				return 1, nil
 			}
 
-- 
2.43.0


From b3dd06bac0a31262f5fd29dda2dbba6614320cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:03 +0000
Subject: [PATCH 58/78] fix: order NaN values consistently when comparing rows

---
 sttp/data/DataRow.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 96b915e..e4f9724 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -24,6 +24,7 @@
 package data
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
 	"math"
@@ -1553,15 +1554,7 @@ func CompareDataRowColumns(leftRow, rightRow *DataRow, columnIndex int, exactMat
 		rightHasValue := !rightNull && rightErr == nil
 
 		if leftHasValue && rightHasValue {
-			if leftValue < rightValue {
-				return -1, nil
-			}
-
-			if leftValue > rightValue {
-				return 1, nil
-			}
-
-			return 0, nil
+			return cmp.Compare(leftValue, rightValue), nil
 		}
 
 		return nullCompare(leftHasValue, rightHasValue), nil
@@ -1572,15 +1565,7 @@ func CompareDataRowColumns(leftRow, rightRow *DataRow, columnIndex int, exactMat
 		rightHasValue := !rightNull && rightErr == nil
 
 		if leftHasValue && rightHasValue {
-			if leftValue < rightValue {
-				return -1, nil
-			}
-
-			if leftValue > rightValue {
-				return 1, nil
-			}
-
-			return 0, nil
+			return cmp.Compare(leftValue, rightValue), nil
 		}
 
 		return nullCompare(leftHasValue, rightHasValue), nil
-- 
2.43.0


From d25b1474370857558149c8bd906ee04381e00ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:06 +0000
Subject: [PATCH 59/78] fix: compute column value when reading it by name

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index e4f9724..9336bfc 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -509,7 +509,7 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 		return nil, err
 	}
 
-	return dr.values[index], nil
+	return dr.Value(index)
 }
 
 // SetValue assigns the record value at the specified columnIndex.
-- 
2.43.0


From 9a435907d1511e90bcf9cf58872b2c16e1dac8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:09 +0000
Subject: [PATCH 60/78] fix: read null computed columns as null

---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 9336bfc..bfeb227 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -126,6 +126,11 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 	}
 
+	// Null expression result is a Null column value
+	if sourceValue.IsNull() {
+		return nil, nil
+	}
+
 	targetType := column.Type()
 
 	switch sourceValue.ValueType() {
-- 
2.43.0


From c69345dc1601ab1d15406ddf702d7e0830b292d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:12 +0000
Subject: [PATCH 61/78] fix: convert DateTime expression value to Boolean
 column as non-zero test

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index bfeb227..365474b 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -451,7 +451,7 @@ func convertFromDateTime(value time.Time, targetType DataTypeEnum) (interface{},
 	case DataType.String:
 		return value.Format(DateTimeFormat), nil
 	case DataType.Boolean:
-		return seconds == 0, nil
+		return seconds != 0, nil
 	case DataType.DateTime:
 		return value, nil
 	case DataType.Single:
-- 
2.43.0


From bd64f6fdd2231fbf29b496b30275ea04dd5db7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:12 +0000
Subject: [PATCH 62/78] fix: leave columns null when loaded XML value cannot be
 converted

---
 sttp/data/DataSet.go | 95 ++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 47 deletions(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 91d82cb..5f6ab9f 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -286,53 +286,9 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					continue
 				}
 
-				columnIndex := column.Index()
-				value := field.Value()
-
-				switch column.Type() {
-				case DataType.String:
-					dataRow.SetValue(columnIndex, value)
-				case DataType.Boolean:
-					dataRow.SetValue(columnIndex, value == "true")
-				case DataType.DateTime:
-					dt, _ := time.Parse(DateTimeFormat, value)
-					dataRow.SetValue(columnIndex, dt)
-				case DataType.Single:
-					f32, _ := strconv.ParseFloat(value, 32)
-					dataRow.SetValue(columnIndex, float32(f32))
-				case DataType.Double:
-					f64, _ := strconv.ParseFloat(value, 64)
-					dataRow.SetValue(columnIndex, f64)
-				case DataType.Decimal:
-					d, _ := decimal.NewFromString(value)
-					dataRow.SetValue(columnIndex, d)
-				case DataType.Guid:
-					g, _ := guid.Parse(value)
-					dataRow.SetValue(columnIndex, g)
-				case DataType.Int8:
-					i8, _ := strconv.ParseInt(value, 0, 8)
-					dataRow.SetValue(columnIndex, int8(i8))
-				case DataType.Int16:
-					i16, _ := strconv.ParseInt(value, 0, 16)
-					dataRow.SetValue(columnIndex, int16(i16))
-				case DataType.Int32:
-					i32, _ := strconv.ParseInt(value, 0, 32)
-					dataRow.SetValue(columnIndex, int32(i32))
-				case DataType.Int64:
-					i64, _ := strconv.ParseInt(value, 0, 64)
-					dataRow.SetValue(columnIndex, i64)
-				case DataType.UInt8:
-					ui8, _ := strconv.ParseUint(value, 0, 8)
-					dataRow.SetValue(columnIndex, uint8(ui8))
-				case DataType.UInt16:
-					ui16, _ := strconv.ParseUint(value, 0, 16)
-					dataRow.SetValue(columnIndex, uint16(ui16))
-				case DataType.UInt32:
-					ui32, _ := strconv.ParseUint(value, 0, 32)
-					dataRow.SetValue(columnIndex, uint32(ui32))
-				case DataType.UInt64:
-					ui64, _ := strconv.ParseUint(value, 0, 64)
-					dataRow.SetValue(columnIndex, ui64)
+				// Values that do not match column type are left as null
+				if value, err := parseXmlValue(field.Value(), column.Type()); err == nil {
+					dataRow.SetValue(column.Index(), value)
 				}
 			}
 
@@ -341,6 +297,51 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 	}
 }
 
+//gocyclo:ignore
+func parseXmlValue(value string, dataType DataTypeEnum) (interface{}, error) {
+	switch dataType {
+	case DataType.String:
+		return value, nil
+	case DataType.Boolean:
+		return value == "true", nil
+	case DataType.DateTime:
+		return time.Parse(DateTimeFormat, value)
+	case DataType.Single:
+		f32, err := strconv.ParseFloat(value, 32)
+		return float32(f32), err
+	case DataType.Double:
+		return strconv.ParseFloat(value, 64)
+	case DataType.Decimal:
+		return decimal.NewFromString(value)
+	case DataType.Guid:
+		return guid.Parse(value)
+	case DataType.Int8:
+		i8, err := strconv.ParseInt(value, 0, 8)
+		return int8(i8), err
+	case DataType.Int16:
+		i16, err := strconv.ParseInt(value, 0, 16)
+		return int16(i16), err
+	case DataType.Int32:
+		i32, err := strconv.ParseInt(value, 0, 32)
+		return int32(i32), err
+	case DataType.Int64:
+		return strconv.ParseInt(value, 0, 64)
+	case DataType.UInt8:
+		ui8, err := strconv.ParseUint(value, 0, 8)
+		return uint8(ui8), err
+	case DataType.UInt16:
+		ui16, err := strconv.ParseUint(value, 0, 16)
+		return uint16(ui16), err
+	case DataType.UInt32:
+		ui32, err := strconv.ParseUint(value, 0, 32)
+		return uint32(ui32), err
+	case DataType.UInt64:
+		return strconv.ParseUint(value, 0, 64)
+	default:
+		return nil, errors.New("unexpected column data type encountered")
+	}
+}
+
 // // WriteXML saves the DataSet information as XML into the specified buffer.
 // func (ds *DataSet) WriteXml(data *[]byte, dataSetName string) {
 // // TODO: Will be needed by DataPublisher
-- 
2.43.0


From ca6c915ca70501e68bb04ebd91c4c88b07873f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:15 +0000
Subject: [PATCH 63/78] fix: load XML integer values as decimal digits

---
 sttp/data/DataSet.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 5f6ab9f..1b5b2c4 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -316,27 +316,27 @@ func parseXmlValue(value string, dataType DataTypeEnum) (interface{}, error) {
 	case DataType.Guid:
 		return guid.Parse(value)
 	case DataType.Int8:
-		i8, err := strconv.ParseInt(value, 0, 8)
+		i8, err := strconv.ParseInt(value, 10, 8)
 		return int8(i8), err
 	case DataType.Int16:
-		i16, err := strconv.ParseInt(value, 0, 16)
+		i16, err := strconv.ParseInt(value, 10, 16)
 		return int16(i16), err
 	case DataType.Int32:
-		i32, err := strconv.ParseInt(value, 0, 32)
+		i32, err := strconv.ParseInt(value, 10, 32)
 		return int32(i32), err
 	case DataType.Int64:
-		return strconv.ParseInt(value, 0, 64)
+		return strconv.ParseInt(value, 10, 64)
 	case DataType.UInt8:
-		ui8, err := strconv.ParseUint(value, 0, 8)
+		ui8, err := strconv.ParseUint(value, 10, 8)
 		return uint8(ui8), err
 	case DataType.UInt16:
-		ui16, err := strconv.ParseUint(value, 0, 16)
+		ui16, err := strconv.ParseUint(value, 10, 16)
 		return uint16(ui16), err
 	case DataType.UInt32:
-		ui32, err := strconv.ParseUint(value, 0, 32)
+		ui32, err := strconv.ParseUint(value, 10, 32)
 		return uint32(ui32), err
 	case DataType.UInt64:
-		return strconv.ParseUint(value, 0, 64)
+		return strconv.ParseUint(value, 10, 64)
 	default:
 		return nil, errors.New("unexpected column data type encountered")
 	}
-- 
2.43.0


From 2e4f60092cf592c6e2333c255932ca5cd61f2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:18 +0000
Subject: [PATCH 64/78] fix: load XML Boolean value of "1" as true

---
 sttp/data/DataSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 1b5b2c4..5f80cb0 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -303,7 +303,7 @@ func parseXmlValue(value string, dataType DataTypeEnum) (interface{}, error) {
 	case DataType.String:
 		return value, nil
 	case DataType.Boolean:
-		return value == "true", nil
+		return value == "true" || value == "1", nil
 	case DataType.DateTime:
 		return time.Parse(DateTimeFormat, value)
 	case DataType.Single:
-- 
2.43.0


From 5591c937dd16c95699fec1443bbb28822173d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:22 +0000
Subject: [PATCH 65/78] fix: load UTC and zone-less XML date/time values

---
 sttp/data/DataSet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 5f80cb0..a2f978c 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -305,7 +305,14 @@ func parseXmlValue(value string, dataType DataTypeEnum) (interface{}, error) {
 	case DataType.Boolean:
 		return value == "true" || value == "1", nil
 	case DataType.DateTime:
-		return time.Parse(DateTimeFormat, value)
+		dt, err := time.Parse(time.RFC3339, value)
+
+		if err != nil {
+			// Time zone is optional in XSD formatted date/time values
+			dt, err = time.Parse("2006-01-02T15:04:05", value)
+		}
+
+		return dt, err
 	case DataType.Single:
 		f32, err := strconv.ParseFloat(value, 32)
 		return float32(f32), err
-- 
2.43.0


From 07bd9c556e38b0203c0bf421a378f658949dfcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:26 +0000
Subject: [PATCH 66/78] fix: unescape XML entities in loaded column values

---
 sttp/data/DataSet.go | 2 +-
 sttp/xml/XmlNode.go  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index a2f978c..f653678 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -287,7 +287,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				}
 
 				// Values that do not match column type are left as null
-				if value, err := parseXmlValue(field.Value(), column.Type()); err == nil {
+				if value, err := parseXmlValue(field.Text, column.Type()); err == nil {
 					dataRow.SetValue(column.Index(), value)
 				}
 			}
diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 9c9de1a..aa9babc 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -38,6 +38,8 @@ type XmlNode struct {
 	Namespace string `xml:"-"`
 	// InnerXml is the XML content of the child nodes of this node.
 	InnerXml []byte `xml:",innerxml"`
+	// Text is the unescaped character data of this node.
+	Text string `xml:",chardata"`
 	// ChildNodes is a the collection of child nodes of this node.
 	ChildNodes []XmlNode `xml:",any"`
 	// Parent is the parent of this node. Value will be nil if node has no parent, e.g., XmlDocument.Root.
-- 
2.43.0


From 12aa3257704e1687b0dbf76ea0b385f990db2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:29 +0000
Subject: [PATCH 67/78] fix: discard previous nodes when XML document is loaded
 again

---
 sttp/xml/XmlDocument.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/xml/XmlDocument.go b/sttp/xml/XmlDocument.go
index 8a0c7f8..4133a58 100644
--- a/sttp/xml/XmlDocument.go
+++ b/sttp/xml/XmlDocument.go
@@ -96,6 +96,9 @@ func (xd *XmlDocument) LoadXml(data []byte) error {
 	buffer := bytes.NewBuffer(data)
 	decoder := xml.NewDecoder(buffer)
 
+	xd.Root = XmlNode{}
+	xd.maxLevel = 0
+
 	err := decoder.Decode(&xd.Root)
 
 	if err != nil {
-- 
2.43.0


From 89d4bd298eaffb58e91e9dd6e9b525f20f5132b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:33 +0000
Subject: [PATCH 68/78] fix: handle empty predicate when selecting XML nodes

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index aa9babc..39c1fa9 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -171,7 +171,7 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 				name := expr[:lbp]
 				predicate := expr[lbp+1 : rbp]
 
-				if predicate[0] == '@' {
+				if strings.HasPrefix(predicate, "@") {
 					if isMatch(node.Name, name) && node.attributeMatch(predicate[1:]) {
 						results = append(results, node)
 					}
-- 
2.43.0


From 1d6503b3a7b067e0ebfa76dd1bf68f963ddb4150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:00 +0000
Subject: [PATCH 69/78] fix: return no rows from RowsWhere when limit is zero

---
 sttp/data/DataTable.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 4b5209d..d98110b 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -153,9 +153,12 @@ func (dt *DataTable) Row(rowIndex int) *DataRow {
 // to -1 for all matching rows.
 func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*DataRow {
 	matchingRows := make([]*DataRow, 0)
-	count := 0
 
 	for i := 0; i < len(dt.rows); i++ {
+		if limit > -1 && len(matchingRows) >= limit {
+			break
+		}
+
 		dataRow := dt.rows[i]
 
 		if dataRow == nil {
@@ -164,11 +167,6 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 
 		if predicate(dataRow) {
 			matchingRows = append(matchingRows, dataRow)
-			count++
-
-			if limit > -1 && count >= limit {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From 1a6b4bc1a0d06dc93ff8482a6e02b8de10bb08c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:03 +0000
Subject: [PATCH 70/78] fix: find table ID fields when primary table name
 differs in case

---
 sttp/data/FilterExpressionParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 52aa70a..545ac0e 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -119,6 +119,11 @@ func NewFilterExpressionParserForDataSet(dataSet *DataSet, filterExpression stri
 	parser.DataSet = dataSet
 
 	if len(primaryTable) > 0 {
+		// Table name lookups are case-insensitive, ID fields are tracked by actual table name
+		if table := dataSet.Table(primaryTable); table != nil {
+			primaryTable = table.Name()
+		}
+
 		parser.PrimaryTableName = primaryTable
 
 		if tableIDFields == nil {
-- 
2.43.0


From 80e2df4286dd122b4a1ed36fdfb975465e4d6190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:42 +0000
Subject: [PATCH 71/78] fix: parse signal references with a short signal kind
 suffix

---
 sttp/transport/MeasurementMetadata.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/MeasurementMetadata.go b/sttp/transport/MeasurementMetadata.go
index a96ecce..f978cc8 100644
--- a/sttp/transport/MeasurementMetadata.go
+++ b/sttp/transport/MeasurementMetadata.go
@@ -74,8 +74,13 @@ func (mm *MeasurementMetadata) ParseSignalReference() (source string, signalKind
 	if len(parts) > 1 {
 		lastIndex := len(parts) - 1
 		typeInfo := parts[lastIndex]
-		signalKind = ParseSignalKindAcronym(typeInfo[:2])
-		position, _ = strconv.Atoi(typeInfo[2:])
+
+		if len(typeInfo) > 2 {
+			position, _ = strconv.Atoi(typeInfo[2:])
+			typeInfo = typeInfo[:2]
+		}
+
+		signalKind = ParseSignalKindAcronym(typeInfo)
 		source = strings.Join(parts[:lastIndex], "-")
 	}
 
-- 
2.43.0


From 05eb3b110a4cb56b2b2f37b3ffd9e2bff686e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:14:29 +0000
Subject: [PATCH 72/78] fix: report circular references between computed
 columns instead of exhausting the stack

---
 sttp/data/DataRow.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 365474b..0508157 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -42,6 +42,9 @@ import (
 type DataRow struct {
 	parent *DataTable
 	values []interface{}
+
+	// Computed columns that are being evaluated, used to detect circular references
+	computing []*DataColumn
 }
 
 func newDataRow(parent *DataTable) *DataRow {
@@ -120,7 +123,17 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, err
 	}
 
-	sourceValue, err := expressionTree.Evaluate(dr)
+	for _, computing := range dr.computing {
+		if computing == column {
+			return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": expression has a circular column reference")
+		}
+	}
+
+	sourceValue, err := expressionTree.Evaluate(&DataRow{
+		parent:    dr.parent,
+		values:    dr.values,
+		computing: append(dr.computing[:len(dr.computing):len(dr.computing)], column),
+	})
 
 	if err != nil {
 		return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
-- 
2.43.0


From 73b2145efc37c0651a0d4d8c7fbfbcaa4d30520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:58 +0000
Subject: [PATCH 73/78] fix: report columns added after row was created instead
 of indexing out of range

---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 0508157..7abe1ef 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -76,6 +76,11 @@ func (dr *DataRow) validateColumnType(columnIndex, targetType int, read bool) (*
 		return nil, errors.New("column index " + strconv.Itoa(columnIndex) + " is out of range for table \"" + dr.parent.Name() + "\"")
 	}
 
+	// Columns may have been added to the table after the row was created
+	if columnIndex >= len(dr.values) {
+		return nil, errors.New("row has no value for DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\", column was added after row was created")
+	}
+
 	if targetType > -1 && column.Type() != DataTypeEnum(targetType) {
 		var action string
 		var preposition string
-- 
2.43.0


From 521f8556601fa8d961571830bf14e8fae618486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:29:45 +0000
Subject: [PATCH 74/78] fix: find namespace prefix that is declared by a parent
 XML node

---
 sttp/xml/XmlNode.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 39c1fa9..8a5d2d8 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -92,9 +92,12 @@ func (xn *XmlNode) Value() string {
 func (xn *XmlNode) Prefix() string {
 	namespace := xn.Namespace
 
-	for name, value := range xn.Attributes {
-		if value == namespace {
-			return name
+	// Namespace prefix can be declared by this node or any of its parents
+	for node := xn; node != nil; node = node.Parent {
+		for name, value := range node.Attributes {
+			if value == namespace {
+				return name
+			}
 		}
 	}
 
-- 
2.43.0


From 6523f78e6224bd9697932078276e3395fcb8f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:32 +0000
Subject: [PATCH 75/78] fix: keep '=' inside the value of an XPath predicate

---
 sttp/xml/XmlNode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 8a5d2d8..1eb7a61 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -210,7 +210,7 @@ func isMatch(value, name string) bool {
 }
 
 func (xn *XmlNode) attributeMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
@@ -252,7 +252,7 @@ func (xn *XmlNode) childValueMatch(expr string) bool {
 }
 
 func (xn *XmlNode) valueMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
-- 
2.43.0


From bec2ba8f1e50459a323491aea7884b679c381760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:35 +0000
Subject: [PATCH 76/78] fix: match empty quoted values in XPath predicates

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 1eb7a61..a2e2e5e 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -270,7 +270,7 @@ func (xn *XmlNode) valueMatch(expr string) bool {
 }
 
 func removeQuotes(value string) string {
-	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 2 {
+	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 1 {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 941740a55903801f87e0fb9806e742d05203b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:38 +0000
Subject: [PATCH 77/78] fix: attribute wildcard predicate requires an attribute

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index a2e2e5e..387116c 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -218,7 +218,7 @@ func (xn *XmlNode) attributeMatch(expr string) bool {
 
 	if parts[0] == "*" {
 		if len(parts) == 1 {
-			return true
+			return len(xn.Attributes) > 0
 		}
 
 		// Check if any attribute value matches
-- 
2.43.0


From a39f863e0ac075a9c2f4edad8e24a2dd5e705145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:38:45 +0000
Subject: [PATCH 78/78] fix: empty measurement registry on connect instead of
 replacing it while in use

---
 sttp/transport/DataSubscriber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 3760042..0906a77 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -388,7 +388,12 @@ func (ds *DataSubscriber) setupConnection() {
 	ds.baseTimeOffsets = [2]int64{}
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
-	ds.measurementRegistry = sync.Map{}
+
+	// Registry may be in use by other threads, so existing map is emptied instead of being replaced
+	ds.measurementRegistry.Range(func(signalID, _ interface{}) bool {
+		ds.measurementRegistry.Delete(signalID)
+		return true
+	})
 }
 
 func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) {
-- 
2.43.0

