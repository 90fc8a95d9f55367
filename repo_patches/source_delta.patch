From 67c7a93f013fbe2f568cf32a84ff6db3fdc0264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 01/13] fix: report a failed or ended connection instead of
 taking it for a delimiter

---
 libcomfo/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 3d2542e..458622d 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -35,7 +35,16 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	go func() { done <- scanner.Scan() }()
 
 	// Wait for delimiter to appear, or time out
-	if _, err := WaitTimeout(done, timer); err != nil {
+	found, err := WaitTimeout(done, timer)
+	if err != nil {
+		return out, err
+	}
+
+	// The connection failed or ended before a delimiter appeared
+	if !found {
+		if err = scanner.Err(); err == nil {
+			err = io.ErrUnexpectedEOF
+		}
 		return out, err
 	}
 
-- 
2.43.0


From 2430a3712d456ac06126a91b535bae591b4b67b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 02/13] fix: tell acknowledgement, start and end sequences
 apart when reading a packet

---
 libcomfo/conn.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 458622d..a3e1c58 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -60,6 +60,9 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 
 	scanner := bufio.NewScanner(conn)
 
+	// The control character of the last escape sequence found
+	var found byte
+
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -72,6 +75,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 					switch char {
 					case ack, start, end:
 						// Advance the pointer past the 2nd command character
+						found = char
 						return i + 2, data[:i], nil
 					default:
 					}
@@ -89,8 +93,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes before ACK
-	if len(pr) != 0 {
+	// Found bytes before ACK, or another sequence
+	if len(pr) != 0 || found != ack {
 		return out, errScanInput
 	}
 
@@ -105,8 +109,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes between ACK and packet start
-	if len(pr) != 0 {
+	// Found bytes between ACK and packet start, or another sequence
+	if len(pr) != 0 || found != start {
 		return out, errScanInput
 	}
 
@@ -116,6 +120,11 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
+	// Packet was not terminated by an end sequence
+	if found != end {
+		return out, errScanInput
+	}
+
 	// Abort on invalid input
 	if len(pr) > 0 && len(pr) < 4 {
 		return out, errTooShort
-- 
2.43.0


From 1c7109a1c91913e5c0ba95d3d86f1d77255ae356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 03/13] fix: do not take payload bytes after an escaped 0x07
 for the end of a packet

---
 libcomfo/conn.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index a3e1c58..0b39bb7 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -54,6 +54,31 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	return
 }
 
+// payloadEnd returns the offset of the checksum in a packet that starts at the
+// beginning of data, so that neither the header nor an escaped 0x07 is taken for
+// part of an escape sequence. It returns len(data) or more if the packet is not
+// complete up to there, or the offset of an escape sequence inside the payload.
+func payloadEnd(data []byte) int {
+
+	if len(data) < dataOffset {
+		return len(data)
+	}
+
+	i := dataOffset
+	for n := data[lenOffset]; n > 0 && i < len(data); n-- {
+		if data[i] == esc {
+			if i+1 < len(data) && data[i+1] != esc {
+				return i
+			}
+			// Step over the escape character
+			i++
+		}
+		i++
+	}
+
+	return i
+}
+
 // ReadPacket scans a connection for 3 escape sequences - ack, start and end
 // A Packet structure is extracted from the connection.
 func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err error) {
@@ -66,7 +91,14 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
-		for i := 0; i < len(data); i++ {
+		i := 0
+		if found == start {
+			// Inside a packet, the end sequence follows the checksum
+			if i = payloadEnd(data); i >= len(data) && atEOF {
+				i = 0
+			}
+		}
+		for ; i < len(data); i++ {
 			// Look for escape characters
 			if data[i] == esc {
 				// Look for the given byte following the escape character within bounds
-- 
2.43.0


From e445b7fc1c2544fd0302ee8ad10247410a6d90d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 04/13] fix: read each connection by a single receiver, so that
 late bytes and timed out queries do not break later ones

---
 libcomfo/conn.go     |  9 +++--
 libcomfo/receiver.go | 84 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 91 insertions(+), 2 deletions(-)
 create mode 100644 libcomfo/receiver.go

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 0b39bb7..07289ee 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -29,7 +29,8 @@ func WaitTimeout(wait <-chan bool, timeout *time.Timer) (success bool, err error
 // All output found on the way is returned.
 func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err error) {
 
-	done := make(chan bool)
+	// Buffered, the scan may end after the timer expired
+	done := make(chan bool, 1)
 
 	// Advance the scanner past one delimiter
 	go func() { done <- scanner.Scan() }()
@@ -223,6 +224,10 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	pm.Lock()
 	defer pm.Unlock()
 
+	// Start receiving before the unit can respond
+	resp, done := receive(conn)
+	defer done()
+
 	// Write the Packet to the connection
 	if _, err := WritePacket(in, conn); err != nil {
 		return out, err
@@ -232,7 +237,7 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	timer := time.NewTimer(time.Second)
 
 	// Read packet from the remote
-	out, err = ReadPacket(conn, timer, in.Expect)
+	out, err = ReadPacket(resp, timer, in.Expect)
 	if err != nil {
 		return out, err
 	}
diff --git a/libcomfo/receiver.go b/libcomfo/receiver.go
new file mode 100644
index 0000000..b80ff2c
--- /dev/null
+++ b/libcomfo/receiver.go
@@ -0,0 +1,84 @@
+package libcomfo
+
+import (
+	"io"
+	"reflect"
+	"sync"
+)
+
+var (
+	// Receivers of all connections in use, and the mutex that guards them
+	receivers = make(map[io.Reader]*receiver)
+	rm        = &sync.Mutex{}
+)
+
+// receiver is the only reader of a connection. It reads continuously, from the first
+// query on the connection until reading fails. A query that timed out leaves no reader
+// behind that consumes the response to a later query, and bytes that arrive outside of
+// a query (like a late response) are discarded instead of answering the next one.
+type receiver struct {
+	// The query currently waiting for a response, nil if there is none
+	query *io.PipeWriter
+}
+
+// receive starts passing the bytes that arrive on conn to the returned reader.
+// Call done when the response has been read.
+func receive(conn io.Reader) (resp io.Reader, done func()) {
+
+	// A connection that can't be identified is read directly
+	if !reflect.ValueOf(conn).Comparable() {
+		return conn, func() {}
+	}
+
+	pr, pw := io.Pipe()
+
+	rm.Lock()
+	defer rm.Unlock()
+
+	r, ok := receivers[conn]
+	if !ok {
+		r = &receiver{}
+		receivers[conn] = r
+		go r.run(conn)
+	}
+	r.query = pw
+
+	return pr, func() {
+		// Unblocks the receiver if it has more bytes than the query needed
+		_ = pr.Close()
+
+		rm.Lock()
+		defer rm.Unlock()
+		r.query = nil
+	}
+}
+
+// run reads from conn until that fails.
+func (r *receiver) run(conn io.Reader) {
+
+	buf := make([]byte, 4096)
+
+	for {
+		n, err := conn.Read(buf)
+
+		rm.Lock()
+		query := r.query
+		if err != nil {
+			// The next query starts over
+			delete(receivers, conn)
+		}
+		rm.Unlock()
+
+		if query != nil && n > 0 {
+			// Fails if the query is over, the bytes are discarded in that case
+			_, _ = query.Write(buf[:n])
+		}
+		if query != nil && err != nil {
+			_ = query.CloseWithError(err)
+		}
+
+		if err != nil {
+			return
+		}
+	}
+}
-- 
2.43.0


From dff9a4f57bbe17c8505f61536617ed32fbb71f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 05/13] fix: replace all fan profiles atomically with respect
 to changes of a single one

---
 libcomfo/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcomfo/api.go b/libcomfo/api.go
index e182d93..3d51fb1 100644
--- a/libcomfo/api.go
+++ b/libcomfo/api.go
@@ -62,6 +62,10 @@ func SetFanProfile(mode uint8, speed uint8, conn io.ReadWriter) error {
 // Only away/low/mid/high's in and out fields are sent to the unit.
 func SetFanProfiles(fp *FanProfiles, conn io.ReadWriter) error {
 
+	// Don't get in between the read and write of SetFanProfile
+	am.Lock()
+	defer am.Unlock()
+
 	return setQuery(fp, conn)
 }
 
-- 
2.43.0


From a81028b67b9b08b7b713fef62fea5fa52008e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 06/13] fix: do not take an empty packet for a response

---
 libcomfo/conn.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 07289ee..7241139 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -159,16 +159,14 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	}
 
 	// Abort on invalid input
-	if len(pr) > 0 && len(pr) < 4 {
+	if len(pr) < 4 {
 		return out, errTooShort
 	}
 
 	// Decode the payload
-	if len(pr) >= 4 {
-		out, err = UnmarshalPacket(pr)
-		if err != nil {
-			return out, err
-		}
+	out, err = UnmarshalPacket(pr)
+	if err != nil {
+		return out, err
 	}
 
 	return
-- 
2.43.0


From 07b1b139d03453cff7f73c9299c9879cb44d26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 07/13] fix: refuse fan speeds and profiles that only look
 valid once truncated to 8 bits

---
 comfoserver/helpers.go | 5 +++++
 comfoserver/server.go  | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/comfoserver/helpers.go b/comfoserver/helpers.go
index 63cc4aa..04ac1b4 100644
--- a/comfoserver/helpers.go
+++ b/comfoserver/helpers.go
@@ -22,6 +22,11 @@ func modifySpeed(baseSpeed uint8, target *rpc.FanSpeedTarget) (tgtSpeed uint8, e
 		return 0, twirp.InvalidArgumentError("Abs/Rel", errBothAbsRel.Error())
 	}
 
+	// Check Abs before narrowing it, it could wrap around to a valid speed
+	if target.Abs > uint32(upperBound) {
+		return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", target.Abs))
+	}
+
 	// Determine Abs/Rel speed and target speed
 	if target.Abs != 0 {
 		tgtSpeed = uint8(target.Abs)
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 8c3f711..c7f5771 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -168,7 +168,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	tgtSpeed := uint8(fpt.GetTargetSpeed())
 
 	// Make sure speed mode is valid (1-4).
-	if mode < 1 || mode > 4 {
+	if mode < 1 || mode > 4 || fpt.GetMode() > math.MaxUint8 {
 		return nil, twirp.InvalidArgumentError("Mode", "(profile) out of range, expected 1-4")
 	}
 
@@ -182,7 +182,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	// Make sure the target speed is within range (percent).
 	// The unit allows values as low as 0 to be set, but will never ramp the fan as low.
 	// In order to avoid discrepancies, require speeds to range between 15 and 100.
-	if tgtSpeed < 15 || tgtSpeed > 100 {
+	if tgtSpeed < 15 || tgtSpeed > 100 || fpt.GetTargetSpeed() > math.MaxUint8 {
 		return nil, twirp.InvalidArgumentError("TargetSpeed", "out of range, expected 15-100 (percentage)")
 	}
 
-- 
2.43.0


From 238c5ba51e100dc04fe8088214db8e59c2787ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 08/13] fix: report a flush as successful only if the unit was
 queried successfully

---
 comfoserver/caches.go | 77 ++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 3e884ba..3839d59 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -1,6 +1,7 @@
 package comfoserver
 
 import (
+	"errors"
 	"io"
 	"log/slog"
 	"sync"
@@ -68,13 +69,15 @@ type ErrorsCache struct {
 // UpdateCaches is a macro method to update all data caches of the unit.
 // This is run at startup and must populate fields that are not meant to be
 // refreshed continuously (eg. BootInfo).
-func UpdateCaches(force bool) {
-	bootInfoCache.Update(force)
-	bypassCache.Update(force)
-	tempCache.Update(force)
-	fanCache.Update(force)
-	fanProfilesCache.Update(force)
-	errorsCache.Update(force)
+func UpdateCaches(force bool) error {
+	return errors.Join(
+		bootInfoCache.Update(force),
+		bypassCache.Update(force),
+		tempCache.Update(force),
+		fanCache.Update(force),
+		fanProfilesCache.Update(force),
+		errorsCache.Update(force),
+	)
 }
 
 // FlushCaches manages forced cache flushes for all components and
@@ -82,23 +85,17 @@ func UpdateCaches(force bool) {
 func FlushCaches(cache CacheType) {
 	switch cache {
 	case BootInfo:
-		bootInfoCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bootInfoCache.Update(true) == nil
 	case Bypass:
-		bypassCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bypassCache.Update(true) == nil
 	case Fans:
-		fanCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanCache.Update(true) == nil
 	case Temps:
-		tempCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- tempCache.Update(true) == nil
 	case Profiles:
-		fanProfilesCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanProfilesCache.Update(true) == nil
 	case All:
-		UpdateCaches(true)
-		flushSuccess <- true
+		flushSuccess <- UpdateCaches(true) == nil
 	default:
 		flushSuccess <- false
 	}
@@ -107,7 +104,7 @@ func FlushCaches(cache CacheType) {
 // Update executes a libcomfo query to fetch boot (firmware) information
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BootInfoCache) Update(force bool) {
+func (bc *BootInfoCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -119,7 +116,7 @@ func (bc *BootInfoCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -128,13 +125,16 @@ func (bc *BootInfoCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BootInfoCache.Update() - Updating boot info cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch information about the unit's
 // heat exchanger bypass. It sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BypassCache) Update(force bool) {
+func (bc *BypassCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -146,7 +146,7 @@ func (bc *BypassCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -155,13 +155,16 @@ func (bc *BypassCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch temperature
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (tc *TempCache) Update(force bool) {
+func (tc *TempCache) Update(force bool) error {
 
 	// Lock the cache object
 	tc.CacheLock.Lock()
@@ -173,7 +176,7 @@ func (tc *TempCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(tc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -182,13 +185,16 @@ func (tc *TempCache) Update(force bool) {
 		tc.LastUpdated = now
 	} else {
 		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch fan speed
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fc *FanCache) Update(force bool) {
+func (fc *FanCache) Update(force bool) error {
 
 	// Lock the cache object
 	fc.CacheLock.Lock()
@@ -200,7 +206,7 @@ func (fc *FanCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -209,7 +215,10 @@ func (fc *FanCache) Update(force bool) {
 		fc.LastUpdated = now
 	} else {
 		slog.Error("FanCache.Update() - Updating fan cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // UpdatePoll updates the cache for a maximum amount of `count` tries
@@ -247,7 +256,7 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 // Update executes a libcomfo query to fetch fan profiles
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fpc *FanProfilesCache) Update(force bool) {
+func (fpc *FanProfilesCache) Update(force bool) error {
 
 	// Lock the cache object
 	fpc.CacheLock.Lock()
@@ -259,7 +268,7 @@ func (fpc *FanProfilesCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fpc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -268,13 +277,16 @@ func (fpc *FanProfilesCache) Update(force bool) {
 		fpc.LastUpdated = now
 	} else {
 		slog.Error("FanProfilesCache.Update() - Updating fan profiles cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch error states
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (ec *ErrorsCache) Update(force bool) {
+func (ec *ErrorsCache) Update(force bool) error {
 
 	// Lock the cache object
 	ec.CacheLock.Lock()
@@ -286,7 +298,7 @@ func (ec *ErrorsCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(ec.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -295,7 +307,10 @@ func (ec *ErrorsCache) Update(force bool) {
 		ec.LastUpdated = now
 	} else {
 		slog.Error("Errors.Update() - Updating errors cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // isStale applies fuzzy logic to determine if a timestamp is within a certain
-- 
2.43.0


From ec14ff5dc28c392212cd9e69aea37f8d0b26deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 09/13] fix: confirm a new fan speed only with values the unit
 reported after it was set

---
 comfoserver/caches.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 3839d59..954d07c 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -229,19 +229,24 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Look up the fan profile matching the target speed
 	fanProfilesCache.CacheLock.RLock() // Wait for any changes to the profile
 	inPct, outPct, err := fanProfilesCache.Lookup(tgtSpeed)
+	fanProfilesCache.CacheLock.RUnlock()
 	if err != nil {
 		return err
 	}
-	fanProfilesCache.CacheLock.RUnlock()
 
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
 
-		fanCache.Update(true)
+		// Only a successful update tells anything about the current state
+		err := fanCache.Update(true)
+
+		fanCache.CacheLock.Lock()
+		fans := fanCache.Fans
+		fanCache.CacheLock.Unlock()
 
 		// Return when target fan profile is in desired state
-		if fanCache.InPercent == inPct &&
-			fanCache.OutPercent == outPct {
+		if err == nil && fans.InPercent == inPct &&
+			fans.OutPercent == outPct {
 			return nil
 		}
 
-- 
2.43.0


From 8d089811dede586180c28b971c4e04bffb7724ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 10/13] fix: decide what to set based on the unit's actual
 state instead of an outdated cache

---
 comfoserver/server.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index c7f5771..d2175dd 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -72,7 +72,6 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	var err error
 	var modified bool
 
-	origTemp := tempCache.Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
 	// Detect truncation
@@ -80,11 +79,20 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 		return nil, twirp.InvalidArgumentError("ComfortTemp", "is too large")
 	}
 
-	if uint8(origTemp) != targetTemp {
+	// Lock the temperature mutex before reading from the cache
+	tempLock.Lock()
+	defer tempLock.Unlock()
+
+	// Decide based on the unit's current temperature, the cache may be outdated
+	if err = tempCache.Update(true); err != nil {
+		return nil, twirp.InternalError(err.Error())
+	}
 
-		// Lock the temperature mutex
-		tempLock.Lock()
-		defer tempLock.Unlock()
+	tempCache.CacheLock.Lock()
+	origTemp := tempCache.Comfort
+	tempCache.CacheLock.Unlock()
+
+	if uint8(origTemp) != targetTemp {
 
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
@@ -119,8 +127,15 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
+	// Decide based on the unit's current speed, the cache may be outdated
+	if err = fanProfilesCache.Update(true); err != nil {
+		return nil, twirp.InternalError(err.Error())
+	}
+
 	// Initialize speed values
+	fanProfilesCache.CacheLock.RLock()
 	origSpeed := fanProfilesCache.CurrentMode
+	fanProfilesCache.CacheLock.RUnlock()
 
 	// Apply action string to original speed.
 	// modifySpeed already returns a Twirp error, don't wrap.
@@ -193,7 +208,13 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
+	// Decide based on the unit's current profiles, the cache may be outdated
+	if err := fanProfilesCache.Update(true); err != nil {
+		return nil, twirp.InternalErrorWith(err)
+	}
+
 	// Get original fan speed of selected mode into origSpeed
+	fanProfilesCache.CacheLock.RLock()
 	switch mode {
 	case 0:
 		origSpeed = fanProfilesCache.InAway
@@ -206,6 +227,7 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
+	fanProfilesCache.CacheLock.RUnlock()
 
 	// Modify speed if different.
 	if origSpeed != tgtSpeed {
-- 
2.43.0


From e543fec4785dbc866d0643ad5c6549f930c80785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 11/13] fix: do not drop the response of requests that take the
 unit longer than five seconds

---
 comfo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comfo.go b/comfo.go
index b3dfc40..e03df72 100644
--- a/comfo.go
+++ b/comfo.go
@@ -62,7 +62,8 @@ func main() {
 	srv := &http.Server{
 		Handler:      router,
 		Addr:         viper.GetString(configListen),
-		WriteTimeout: 5 * time.Second,
+		// Setting the fan speed polls the unit for up to half a minute
+		WriteTimeout: time.Minute,
 		ReadTimeout:  5 * time.Second,
 	}
 
-- 
2.43.0


From 9b8a828b0362f3147f7dec01241e9e34c05cd7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 12/13] fix: serve boot information also if the device name is
 damaged

---
 comfoserver/protobuf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comfoserver/protobuf.go b/comfoserver/protobuf.go
index c51355b..8ae76b2 100644
--- a/comfoserver/protobuf.go
+++ b/comfoserver/protobuf.go
@@ -1,6 +1,8 @@
 package comfoserver
 
 import (
+	"strings"
+
 	rpc "github.com/ti-mo/comfo/rpc/comfo"
 )
 
@@ -26,7 +28,7 @@ func (b *BootInfoCache) Protobuf() *rpc.BootInfo {
 		BetaVersion:  uint32(b.BetaVersion),
 		MajorVersion: uint32(b.MajorVersion),
 		MinorVersion: uint32(b.MinorVersion),
-		DeviceName:   b.DeviceName,
+		DeviceName:   strings.ToValidUTF8(b.DeviceName, "\uFFFD"), // Encoding anything else fails
 	}
 }
 
-- 
2.43.0


From 1b9b0c6678c7ada0943f94b545e1d8109e413d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:19 +0000
Subject: [PATCH 13/13] fix: use the event loop given to the Python client

---
 python/comfo/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/comfo/client.py b/python/comfo/client.py
index 679cc8c..1b56325 100644
--- a/python/comfo/client.py
+++ b/python/comfo/client.py
@@ -29,6 +29,8 @@ class Comfo:
                 self.loop = asyncio.get_running_loop()
             except RuntimeError:
                 pass
+        else:
+            self.loop = loop
 
     def ping(self) -> bool:
         """Run a simple get query against the unit to verify connectivity."""
-- 
2.43.0

