From 3ba5d78342ce2cf9ffbed0578d1dd544c0901146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 001/101] fix: bits.Writer splits a field that crosses the
 64-bit buffer correctly

---
 utils/bits/bits.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 7c1247d..6377d42 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -71,14 +71,15 @@ type Writer struct {
 func (w *Writer) WriteBits64(bits uint64, n int) (err error) {
 	if w.n+n > 64 {
 		move := uint(64 - w.n)
-		mask := bits >> move
+		rest := uint(n) - move
+		mask := bits >> rest
 		w.bits = (w.bits << move) | mask
 		w.n = 64
 		if err = w.FlushBits(); err != nil {
 			return
 		}
 		n -= int(move)
-		bits ^= (mask << move)
+		bits ^= (mask << rest)
 	}
 	w.bits = (w.bits << uint(n)) | bits
 	w.n += n
-- 
2.43.0


From ced8837d4bfc5938d722f649e16547a538d36b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 002/101] fix: bits.Reader keeps all bits of wide unaligned
 reads and accepts short reads

---
 utils/bits/bits.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 6377d42..493f6e4 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -12,11 +12,23 @@ type Reader struct {
 }
 
 func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
+	if r.n < n && r.n+(n-r.n+7)/8*8 > 64 {
+		// the buffered bits plus the bytes needed do not fit the 64-bit buffer
+		if bits, err = r.ReadBits64(n - 32); err != nil {
+			return
+		}
+		var low uint64
+		if low, err = r.ReadBits64(32); err != nil {
+			return
+		}
+		bits = bits<<32 | low
+		return
+	}
 	if r.n < n {
 		var b [8]byte
 		var got int
 		want := (n - r.n + 7) / 8
-		if got, err = r.R.Read(b[:want]); err != nil {
+		if got, err = io.ReadFull(r.R, b[:want]); err != nil {
 			return
 		}
 		if got < want {
-- 
2.43.0


From c4ea5c2477acaacf63c27e48c9b08aa8266a6d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 003/101] fix: signed Exp-Golomb codes and the last byte of a
 reader that returns it with EOF

---
 utils/bits/golomb_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d4b3c55..d4b270e 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (r *GolombBitReader) ReadBit() (res uint, err error) {
 	if r.left == 0 {
-		if _, err = r.R.Read(r.buf[:]); err != nil {
+		if _, err = io.ReadFull(r.R, r.buf[:]); err != nil {
 			return
 		}
 		r.left = 8
@@ -59,7 +59,7 @@ func (r *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 61fe88ba9ac454b26dabf1acd9fd1745a557ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 004/101] fix: write the key lengths of AMF0 associative arrays

---
 format/flv/flvio/amf0.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 5276829..f7f8e43 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -280,6 +280,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		pio.WriteU8(b, n, ecmaarraymarker)
 		pio.WriteU32BE(b, n, uint32(len(val)))
 		for _, p := range val {
+			pio.WriteU16BE(b, n, uint16(len(p.K)))
 			pio.WriteString(b, n, p.K)
 			FillAMF0Val(b, n, p.V)
 		}
-- 
2.43.0


From a76fb2ffddd51ba7f732dc59e9d2f185f283e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 005/101] fix: AMF3 booleans have no payload byte

---
 format/flv/flvio/amf3.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index c280a79..225e4cf 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -50,17 +50,9 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		val = nil
 
 	case amf3falsemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:false", b, *n, err)
-			return
-		}
 		val = false
 
 	case amf3truemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:true", b, *n, err)
-			return
-		}
 		val = true
 
 	case amf3integermarker:
-- 
2.43.0


From ddbd733a0ea2a6b48345e43ecde5b60ba9dc8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 006/101] fix: read the dense part of AMF3 arrays

---
 format/flv/flvio/amf3.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 225e4cf..045dd9f 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -2,6 +2,7 @@ package flvio
 
 import (
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/nareix/joy5/utils/bits/pio"
@@ -222,6 +223,14 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 	if l == 0 {
 		return
 	}
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth, b, n); err != nil {
+			err = amfParseErr("array.dense", b, *n, err)
+			return
+		}
+		val = append(val, AMFKv{K: strconv.Itoa(i), V: v})
+	}
 	return
 }
 
-- 
2.43.0


From 8ad2abbc41a2ebaf116824c08eb21e1d6bfd0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 007/101] fix: read sealed members of dynamic AMF3 objects and
 bound their count

---
 format/flv/flvio/amf3.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 045dd9f..32f42a4 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -267,6 +267,26 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 	val = AMFMap{}
 
 	var k string
+	if l > len(b)-*n {
+		err = amfParseErr("object.sealed.toobig", b, *n, err)
+		return
+	}
+	if l > 0 {
+		keys := make([]string, l)
+		for i := 0; i < l; i++ {
+			keys[i], err = readString(b, n)
+			if err != nil {
+				return
+			}
+		}
+		for i := 0; i < l; i++ {
+			var v interface{}
+			if v, err = parseAMF3Val(depth, b, n); err != nil {
+				return
+			}
+			val = val.Set(keys[i], v)
+		}
+	}
 	if isDynamic {
 		for {
 			k, err = readString(b, n)
@@ -284,21 +304,6 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			}
 			val = val.Set(k, v)
 		}
-	} else {
-		keys := make([]string, l)
-		for i := 0; i < l; i++ {
-			keys[i], err = readString(b, n)
-			if err != nil {
-				return
-			}
-		}
-		for i := 0; i < l; i++ {
-			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
-				return
-			}
-			val = val.Set(keys[i], v)
-		}
 	}
 	return
 }
-- 
2.43.0


From abdc2b4c8c240de6b5cc6d773853fbef3fd58602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 008/101] fix: grow AMF0 strict arrays as their elements are
 read

---
 format/flv/flvio/amf0.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index f7f8e43..9219918 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -490,12 +490,14 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 			err = amfParseErr("strictarray.count.toobig", b, *n, err)
 			return
 		}
-		obj := make(AMFArray, count)
+		obj := AMFArray{}
 		for i := 0; i < int(count); i++ {
-			if obj[i], err = parseAMF0Val(depth+1, b, n); err != nil {
+			var v interface{}
+			if v, err = parseAMF0Val(depth+1, b, n); err != nil {
 				err = amfParseErr("strictarray.val", b, *n, err)
 				return
 			}
+			obj = append(obj, v)
 		}
 		val = obj
 
-- 
2.43.0


From 749f8adbd10ad070a096652e0005ab67d4ecab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 009/101] fix: bound the nesting depth of AMF values

---
 format/flv/flvio/amf0.go | 8 ++++++++
 format/flv/flvio/amf3.go | 9 +++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 9219918..db47838 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -328,6 +328,9 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 	return
 }
 
+// values nested deeper than this are rejected, they would exhaust the stack
+const amfMaxDepth = 1000
+
 func ParseAMF0Val(b []byte, n *int) (val interface{}, err error) {
 	val, err = parseAMF0Val(0, b, n)
 	return
@@ -363,6 +366,11 @@ func ParseAMFVals(b []byte, isamf3 bool) (arr []interface{}, err error) {
 func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 
+	if depth > amfMaxDepth {
+		err = amfParseErr("nested too deep", b, *n, err)
+		return
+	}
+
 	var marker uint8
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 32f42a4..c6af103 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -38,6 +38,11 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 	var marker uint8
 
+	if depth > amfMaxDepth {
+		err = amfParseErr("nested too deep", b, *n, err)
+		return
+	}
+
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
 		return
@@ -93,14 +98,14 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		}
 
 	case amf3arraymarker:
-		val, err = readArray(depth, b, n)
+		val, err = readArray(depth+1, b, n)
 		if err != nil {
 			err = amfParseErr("array", b, *n, err)
 			return
 		}
 
 	case amf3objectmarker:
-		val, err = readObject(depth, b, n)
+		val, err = readObject(depth+1, b, n)
 		if err != nil {
 			err = amfParseErr("object", b, *n, err)
 			return
-- 
2.43.0


From b9d38f8c45f91c11797d06a1762585654f490333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 010/101] fix: refuse FLV tags larger than their 24-bit length
 field

---
 format/flv/flvio/flvio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/flv/flvio/flvio.go b/format/flv/flvio/flvio.go
index a2c91e3..e7d65b7 100644
--- a/format/flv/flvio/flvio.go
+++ b/format/flv/flvio/flvio.go
@@ -399,6 +399,10 @@ func WriteTag(w io.Writer, tag Tag, b []byte) (err error) {
 
 	n := tag.FillHeader(b[TagHeaderLength:])
 	datalen := len(data) + n
+	if datalen > 0xffffff {
+		err = fmt.Errorf("TagTooLarge")
+		return
+	}
 
 	FillTagHeader(b, tag, datalen)
 	n += TagHeaderLength
-- 
2.43.0


From 8fcd2bc00d6b0a61cb82085a0447980d316c2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 011/101] fix: AMF3 byte arrays in metadata no longer corrupt
 its AMF0 form

---
 format/flv/flv.go        | 6 ++++++
 format/flv/flvio/amf0.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/flv/flv.go b/format/flv/flv.go
index a67c801..dd18a2a 100644
--- a/format/flv/flv.go
+++ b/format/flv/flv.go
@@ -36,6 +36,12 @@ func convertToAMF0Metadata(data []byte, amf3 bool) (newdata []byte) {
 	if len(arr) == 0 {
 		arr = append(arr, flvio.AMFMap{})
 	}
+	for i, v := range arr {
+		// has no AMF0 form and would be copied unencoded
+		if _, ok := v.([]byte); ok {
+			arr[i] = nil
+		}
+	}
 	newdata = make([]byte, flvio.FillAMF0Vals(nil, arr))
 	flvio.FillAMF0Vals(newdata, arr)
 	return
diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index db47838..e46133b 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -321,7 +321,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		}
 		pio.WriteU8(b, n, u)
 
-	case nil:
+	default: // nil, and values that have no AMF0 form
 		pio.WriteU8(b, n, nullmarker)
 	}
 
-- 
2.43.0


From 2a7eb8e6319061f092ac860d0b12a4766e8d8bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 012/101] fix: three-byte RTMP chunk stream ids are little
 endian

---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 167dd5b..03aa503 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -313,7 +313,7 @@ func (c *Conn) readChunk() (msg *message, err error) {
 		if _, err = c.wrapRW.Read(b[:2]); err != nil {
 			return
 		}
-		csid = uint32(pio.U16BE(b)) + 64
+		csid = uint32(b[0]) + uint32(b[1])*256 + 64
 	}
 
 	newcs := false
-- 
2.43.0


From 0ebe730c7506b4aa0e1d237f847f36be11808d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 013/101] fix: refuse RTMP messages larger than their 24-bit
 length field

---
 format/rtmp/msg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 03aa503..9372068 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -688,6 +688,10 @@ func (c *Conn) writeMsg2(
 	b := c.tmpwbuf(chunkHeader0Length + fillheader(nil))
 	chdrlen := fillChunkHeader0(b, csid, msg.timenow, msg.msgtypeid, msg.msgsid, 0)
 	taghdrlen := fillheader(b[chdrlen:])
+	if taghdrlen+len(msg.msgdata) > ffffff {
+		err = fmt.Errorf("MsgDataTooBig(%d)", taghdrlen+len(msg.msgdata))
+		return
+	}
 	msg.msgdatalen = uint32(taghdrlen + len(msg.msgdata))
 	msg.msgdataleft = msg.msgdatalen
 	fillChunkHeader0MsgDataLen(b, int(msg.msgdatalen))
-- 
2.43.0


From f8dd3ac2a27a2435a3820f398c405f7d53494618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 014/101] fix: RTMP abort messages discard the partial message
 they name

---
 format/rtmp/msg.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 9372068..1d59d43 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -104,6 +104,7 @@ func (m *message) Start() (err error) {
 }
 
 const (
+	msgtypeidAbort            = 2
 	msgtypeidUserControl      = 4
 	msgtypeidAck              = 3
 	msgtypeidWindowAckSize    = 5
@@ -882,6 +883,18 @@ func (c *Conn) handleEvent(msg *message) (handled bool, err error) {
 		c.ReadMaxChunkSize = int(v)
 		return
 
+	case msgtypeidAbort:
+		var n int
+		var csid uint32
+		if csid, err = pio.ReadU32BE(msg.msgdata, &n); err != nil {
+			return
+		}
+		handled = true
+		if cs := c.readcsmap[csid]; cs != nil {
+			cs.msgdataleft = 0
+		}
+		return
+
 	case msgtypeidWindowAckSize:
 		var n int
 		var acksize uint32
-- 
2.43.0


From f5084804e182aa48a99a0b38dc8a4b2039261fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 015/101] fix: report rejected RTMP requests with level error

---
 format/rtmp/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index fdba509..506949e 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -78,7 +78,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Play.Failed"},
 					{K: "description", V: msg},
 				},
@@ -140,7 +140,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Publish.Failed"},
 					{K: "description", V: msg},
 				},
-- 
2.43.0


From 8aa72215c67251eef104780626af66d42e303628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 016/101] fix: RTMP clients match replies to their requests and
 fail on error replies

---
 format/rtmp/cmd.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index 506949e..0f2bdf6 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -304,6 +304,16 @@ func (c *Conn) checkLevelStatus(cmd *command) (err error) {
 	return
 }
 
+func (c *Conn) checkReply(cmd *command) (err error) {
+	if err = c.checkLevelStatus(cmd); err != nil {
+		return
+	}
+	if cmd.name == "_error" {
+		return fmt.Errorf("ErrorReply")
+	}
+	return
+}
+
 func (c *Conn) checkCreateStreamResult(cmd *command) (ok bool, avmsgsid uint32) {
 	if len(cmd.params) > 0 {
 		_avmsgsid, _ := cmd.params[0].(float64)
@@ -344,8 +354,11 @@ func (c *Conn) writeConnect(path string) (err error) {
 			return
 		}
 
-		if cmd.name == "_result" {
-			if err = c.checkLevelStatus(cmd); err != nil {
+		if cmd.transid != 1 {
+			continue
+		}
+		if cmd.name == "_result" || cmd.name == "_error" {
+			if err = c.checkReply(cmd); err != nil {
 				err = fmt.Errorf("CommandConnectFailed: %s", err)
 				return
 			}
@@ -389,6 +402,10 @@ func (c *Conn) connectPublish() (err error) {
 		if cmd, err = c.readCommand(); err != nil {
 			return
 		}
+		if cmd.name == "_error" && int(cmd.transid) == transid {
+			err = fmt.Errorf("CreateStreamFailed")
+			return
+		}
 		if cmd.name == "_result" && int(cmd.transid) == transid {
 			var ok bool
 			if ok, c.avmsgsid = c.checkCreateStreamResult(cmd); !ok {
@@ -436,7 +453,8 @@ func (c *Conn) connectPlay() (err error) {
 	if err = c.writeConnect(connectpath); err != nil {
 		return
 	}
-	if err = c.writeCommand(3, 0, "createStream", 2, nil); err != nil {
+	transid := 2
+	if err = c.writeCommand(3, 0, "createStream", transid, nil); err != nil {
 		return
 	}
 	if err = c.writeSetBufferLength(0, 100); err != nil {
@@ -452,7 +470,11 @@ func (c *Conn) connectPlay() (err error) {
 			return
 		}
 
-		if cmd.name == "_result" {
+		if cmd.name == "_error" && int(cmd.transid) == transid {
+			err = fmt.Errorf("CreateStreamFailed")
+			return
+		}
+		if cmd.name == "_result" && int(cmd.transid) == transid {
 			var ok bool
 			if ok, c.avmsgsid = c.checkCreateStreamResult(cmd); !ok {
 				err = fmt.Errorf("CreateStreamFailed")
-- 
2.43.0


From 2f93a193340f77f15a67b672334d421162b02490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 017/101] fix: RTMP clients fail when publish or play is
 answered with an error reply

---
 format/rtmp/cmd.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index 0f2bdf6..d9a766f 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -430,6 +430,10 @@ func (c *Conn) connectPublish() (err error) {
 		if cmd, err = c.readCommand(); err != nil {
 			return
 		}
+		if cmd.name == "_error" && int(cmd.transid) == transid {
+			err = fmt.Errorf("PublishFailed")
+			return
+		}
 		if cmd.name == "onStatus" {
 			if err = c.checkLevelStatus(cmd); err != nil {
 				err = fmt.Errorf("PublishFailed: %s", err)
@@ -496,6 +500,10 @@ func (c *Conn) connectPlay() (err error) {
 		if cmd, err = c.readCommand(); err != nil {
 			return
 		}
+		if cmd.name == "_error" && cmd.transid == 0 {
+			err = fmt.Errorf("PlayFailed")
+			return
+		}
 		if cmd.name == "onStatus" {
 			if err = c.checkLevelStatus(cmd); err != nil {
 				err = fmt.Errorf("PlayFailed: %s", err)
-- 
2.43.0


From 0a3719b62b99129c625c24eeadb694d0f3a68392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 018/101] fix: dialing an RTMP address with another scheme is
 an error

---
 format/rtmp/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index 242c497..761bff9 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"fmt"
 	"net"
 	"net/url"
 	"time"
@@ -89,6 +90,9 @@ func (t *Client) Dial(url_ string, flags int) (c *Conn, nc net.Conn, err error)
 			return
 		}
 		nc_ = tls.Client(nc_, &tls.Config{InsecureSkipVerify: true})
+	default:
+		err = fmt.Errorf("SchemeInvalid(%s)", u.Scheme)
+		return
 	}
 
 	var c_ *Conn
-- 
2.43.0


From 825d1b8325ef83ae37e1635f384f819d30e4e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 019/101] fix: packets written to an RTMP connection can be
 flushed, and are when it is closed

---
 cmd/avtool/conv.go        |  7 +++++++
 cmd/avtool/forwardrtmp.go |  3 +--
 format/format.go          | 16 +++++++++++++++-
 format/rtmp/conn.go       |  5 +++++
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/cmd/avtool/conv.go b/cmd/avtool/conv.go
index dbfd342..038755f 100644
--- a/cmd/avtool/conv.go
+++ b/cmd/avtool/conv.go
@@ -30,6 +30,13 @@ func doConv(src, dst string) (err error) {
 	if fr, err = foR.Open(src); err != nil {
 		return
 	}
+	defer func() {
+		if fw != nil {
+			if cerr := fw.Close(); err == nil {
+				err = cerr
+			}
+		}
+	}()
 
 	canRe := func() bool {
 		if optNativeRate {
diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index f0bdb28..6c64145 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -51,8 +51,7 @@ func doForwardRtmp(listenAddr string) (err error) {
 			return
 		}
 		c2 := w.Rtmp
-		nc2 := w.NetConn
-		defer nc2.Close()
+		defer w.Close()
 
 		log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "DialOK", unsafe.Pointer(c2))
 
diff --git a/format/format.go b/format/format.go
index 483e306..e0d8ae7 100644
--- a/format/format.go
+++ b/format/format.go
@@ -42,6 +42,20 @@ func (c Mp4WriterCloser) Close() error {
 	return nil
 }
 
+type rtmpWriterCloser struct {
+	net.Conn
+	c *rtmp.Conn
+}
+
+func (c rtmpWriterCloser) Close() error {
+	c.Conn.SetWriteDeadline(time.Now().Add(time.Second * 15))
+	err := c.c.Flush()
+	if cerr := c.Conn.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
 type Reader struct {
 	av.PacketReader
 	io.Closer
@@ -145,7 +159,7 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 		w = &Writer{
 			IsRemote:     true,
 			PacketWriter: c,
-			Closer:       nc,
+			Closer:       rtmpWriterCloser{nc, c},
 			Rtmp:         c,
 			NetConn:      nc,
 		}
diff --git a/format/rtmp/conn.go b/format/rtmp/conn.go
index 41b3cbe..37e5eec 100644
--- a/format/rtmp/conn.go
+++ b/format/rtmp/conn.go
@@ -92,6 +92,11 @@ func (c *Conn) flushWrite() error {
 	return c.wrapRW.Flush()
 }
 
+// Flush sends everything written so far to the peer.
+func (c *Conn) Flush() error {
+	return c.flushWrite()
+}
+
 func (c *Conn) CloseNotify() <-chan bool {
 	return c.closeNotify
 }
-- 
2.43.0


From bc74a15b53de1509cb60593c4046f7a170867a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 020/101] fix: an RTMP query that contains a slash stays with
 the stream name

---
 format/rtmp/url.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/rtmp/url.go b/format/rtmp/url.go
index 4513303..cce2b68 100644
--- a/format/rtmp/url.go
+++ b/format/rtmp/url.go
@@ -9,8 +9,12 @@ import (
 func splitPath(u *url.URL) (app, stream string) {
 	nu := *u
 	nu.ForceQuery = false
+	nu.RawQuery = ""
 
 	pathsegs := strings.SplitN(nu.RequestURI(), "/", -1)
+	if u.RawQuery != "" {
+		pathsegs[len(pathsegs)-1] += "?" + u.RawQuery
+	}
 	if len(pathsegs) == 2 {
 		app = pathsegs[1]
 	}
@@ -29,6 +33,7 @@ func getTcURL(u *url.URL) string {
 	app, _ := splitPath(u)
 	nu := *u
 	nu.RawQuery = ""
+	nu.ForceQuery = false
 	nu.Path = "/"
 	return nu.String() + app
 }
-- 
2.43.0


From 8073375b059c032688c8488b40f34c33f44dc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 021/101] fix: relay: flush a subscriber before it waits for
 more packets

---
 cmd/avtool/pubsub.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 5497c10..9ab65dd 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -192,6 +192,11 @@ func (s *stream) addSub(close <-chan bool, w av.PacketWriter) {
 		}
 
 		if len(pkts) == 0 {
+			if f, ok := w.(interface{ Flush() error }); ok {
+				if err := f.Flush(); err != nil {
+					return
+				}
+			}
 			select {
 			case <-close:
 				return
-- 
2.43.0


From 5bb746c8178d562198ed0fb1920f8c703d6dedbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 022/101] fix: relay: a subscriber whose connection closed ends
 even while packets keep coming

---
 cmd/avtool/pubsub.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 9ab65dd..82c8e88 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -177,6 +177,12 @@ func (s *stream) addSub(close <-chan bool, w av.PacketWriter) {
 	}
 
 	for {
+		select {
+		case <-close:
+			return
+		default:
+		}
+
 		var pkts []av.Packet
 
 		sp := (*streamPub)(atomic.LoadPointer(&s.pub))
-- 
2.43.0


From a4b2e6b54a8ecf9770f98bd09b9a1c9af347a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 023/101] fix: relay: close the connection when its session
 ends

---
 cmd/avtool/pubsub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 82c8e88..ebf85ed 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -320,6 +320,8 @@ func doPubsubRtmp(listenAddr string) error {
 	}
 
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
+		defer nc.Close()
+
 		stream, remove := streams.add(c.URL.Path)
 		defer remove()
 
-- 
2.43.0


From dcd81aec24325bc298b369af554e0fe24b26dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 024/101] fix: relay: do not send empty metadata or
 configuration when a new publisher has none

---
 cmd/avtool/pubsub.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index ebf85ed..ef9c06e 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -88,7 +88,7 @@ type splitSeqhdr struct {
 }
 
 func (s *splitSeqhdr) sendmeta(pkt av.Packet) error {
-	if bytes.Compare(s.hdrpkt.Metadata, pkt.Metadata) != 0 {
+	if len(pkt.Metadata) != 0 && bytes.Compare(s.hdrpkt.Metadata, pkt.Metadata) != 0 {
 		if err := s.cb(av.Packet{
 			Type: av.Metadata,
 			Data: pkt.Metadata,
@@ -107,7 +107,7 @@ func (s *splitSeqhdr) do(pkt av.Packet) error {
 			return err
 		}
 		if pkt.IsKeyFrame {
-			if bytes.Compare(s.hdrpkt.VSeqHdr, pkt.VSeqHdr) != 0 {
+			if len(pkt.VSeqHdr) != 0 && bytes.Compare(s.hdrpkt.VSeqHdr, pkt.VSeqHdr) != 0 {
 				if err := s.cb(av.Packet{
 					Type: av.H264DecoderConfig,
 					Data: pkt.VSeqHdr,
@@ -122,7 +122,7 @@ func (s *splitSeqhdr) do(pkt av.Packet) error {
 		if err := s.sendmeta(pkt); err != nil {
 			return err
 		}
-		if bytes.Compare(s.hdrpkt.ASeqHdr, pkt.ASeqHdr) != 0 {
+		if len(pkt.ASeqHdr) != 0 && bytes.Compare(s.hdrpkt.ASeqHdr, pkt.ASeqHdr) != 0 {
 			if err := s.cb(av.Packet{
 				Type: av.AACDecoderConfig,
 				Data: pkt.ASeqHdr,
-- 
2.43.0


From 332380af316b0a5a231071528911b9b740c1cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 025/101] fix: relay: answer a player that joins before the
 publisher

---
 cmd/avtool/pubsub.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index ef9c06e..4ba4e88 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -328,6 +328,9 @@ func doPubsubRtmp(listenAddr string) error {
 		if c.Publishing {
 			stream.setPub(c)
 		} else {
+			if err := c.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting); err != nil {
+				return
+			}
 			stream.addSub(c.CloseNotify(), c)
 		}
 	}
-- 
2.43.0


From 2a70fd1685225557869c245ed9725870e2c9fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 026/101] fix: AAC object type numbers above 9, so escaped
 object types can be read and written

---
 codec/aac/aac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index e6af2b8..f7246f3 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -89,13 +89,13 @@ const (
 	AOT_TWINVQ                      ///< N                       Twin Vector Quantizer
 	AOT_CELP                        ///< N                       Code Excited Linear Prediction
 	AOT_HVXC                        ///< N                       Harmonic Vector eXcitation Coding
-	AOT_TTSI            = 12 + iota ///< N                       Text-To-Speech Interface
+	AOT_TTSI            = 3 + iota  ///< N                       Text-To-Speech Interface
 	AOT_MAINSYNTH                   ///< N                       Main Synthesis
 	AOT_WAVESYNTH                   ///< N                       Wavetable Synthesis
 	AOT_MIDI                        ///< N                       General MIDI
 	AOT_SAFX                        ///< N                       Algorithmic Synthesis and Audio Effects
 	AOT_ER_AAC_LC                   ///< N                       Error Resilient Low Complexity
-	AOT_ER_AAC_LTP      = 19 + iota ///< N                       Error Resilient Long Term Prediction
+	AOT_ER_AAC_LTP      = 4 + iota  ///< N                       Error Resilient Long Term Prediction
 	AOT_ER_AAC_SCALABLE             ///< N                       Error Resilient Scalable
 	AOT_ER_TWINVQ                   ///< N                       Error Resilient Twin Vector Quantizer
 	AOT_ER_BSAC                     ///< N                       Error Resilient Bit-Sliced Arithmetic Coding
-- 
2.43.0


From cf83510d4b6658a05d802e519bace7eb6fde63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 027/101] fix: an explicit AAC sample rate is read and written
 as a rate, not as a table index

---
 codec/aac/aac.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index f7246f3..87ad213 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -297,24 +297,25 @@ func writeObjectType(w *bits.Writer, objectType uint) (err error) {
 	return
 }
 
-func readSampleRateIndex(r *bits.Reader) (index uint, err error) {
+// an index of 0xf stands for an explicit rate
+func readSampleRateIndex(r *bits.Reader) (index, rate uint, err error) {
 	if index, err = r.ReadBits(4); err != nil {
 		return
 	}
 	if index == 0xf {
-		if index, err = r.ReadBits(24); err != nil {
+		if rate, err = r.ReadBits(24); err != nil {
 			return
 		}
 	}
 	return
 }
 
-func writeSampleRateIndex(w *bits.Writer, index uint) (err error) {
+func writeSampleRateIndex(w *bits.Writer, index, rate uint) (err error) {
 	if index >= 0xf {
 		if err = w.WriteBits(0xf, 4); err != nil {
 			return
 		}
-		if err = w.WriteBits(index, 24); err != nil {
+		if err = w.WriteBits(rate, 24); err != nil {
 			return
 		}
 	} else {
@@ -332,7 +333,7 @@ func (c MPEG4AudioConfig) IsValid() bool {
 func (c *MPEG4AudioConfig) complete() error {
 	if int(c.SampleRateIndex) < len(sampleRateTable) {
 		c.SampleRate = sampleRateTable[c.SampleRateIndex]
-	} else {
+	} else if c.SampleRateIndex != 0xf || c.SampleRate == 0 {
 		return fmt.Errorf("InvalidSampleRateIndex(%d)", c.SampleRateIndex)
 	}
 	if int(c.ChannelConfig) < len(chanConfigTable) {
@@ -350,9 +351,11 @@ func ParseMPEG4AudioConfigBytes(data []byte) (config MPEG4AudioConfig, err error
 	if config.ObjectType, err = readObjectType(br); err != nil {
 		return
 	}
-	if config.SampleRateIndex, err = readSampleRateIndex(br); err != nil {
+	var rate uint
+	if config.SampleRateIndex, rate, err = readSampleRateIndex(br); err != nil {
 		return
 	}
+	config.SampleRate = int(rate)
 	if config.ChannelConfig, err = br.ReadBits(4); err != nil {
 		return
 	}
@@ -368,14 +371,15 @@ func WriteMPEG4AudioConfig(w io.Writer, config MPEG4AudioConfig) (err error) {
 		return
 	}
 
-	if config.SampleRateIndex == 0 {
+	if config.SampleRateIndex == 0 && config.SampleRate != 0 {
+		config.SampleRateIndex = 0xf
 		for i, rate := range sampleRateTable {
 			if rate == config.SampleRate {
 				config.SampleRateIndex = uint(i)
 			}
 		}
 	}
-	if err = writeSampleRateIndex(bw, config.SampleRateIndex); err != nil {
+	if err = writeSampleRateIndex(bw, config.SampleRateIndex, uint(config.SampleRate)); err != nil {
 		return
 	}
 
-- 
2.43.0


From a270c8a0388ec6a9a9ec1fa5af5dee324a5aed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 028/101] fix: ParseADTSHeader refuses input shorter than the
 header

---
 codec/aac/aac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index 87ad213..f1173bc 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -196,7 +196,7 @@ var chanConfigTable = []ChannelLayout{
 }
 
 func ParseADTSHeader(frame []byte) (config MPEG4AudioConfig, hdrlen int, framelen int, samples int, err error) {
-	if frame[0] != 0xff || frame[1]&0xf6 != 0xf0 {
+	if len(frame) < ADTSHeaderLength || frame[0] != 0xff || frame[1]&0xf6 != 0xf0 {
 		err = fmt.Errorf("aacparser: not adts header")
 		return
 	}
-- 
2.43.0


From a0b82ffc610422f7bc6a82d0cf203af1950acd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 029/101] fix: zero bytes around the start codes of an Annex B
 stream do not belong to a NAL unit

---
 codec/h264/h264.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 66da903..d9d80c1 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -354,6 +354,11 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 	s := S
 	from := 0
 	cut := func(to, next int) {
+		start := to
+		// a NAL unit does not end with a zero byte, these are padding
+		for from < to && b[to-1] == 0 {
+			to--
+		}
 		if from < to {
 			info := NALUInfo{
 				NALUStart: nalustart,
@@ -363,15 +368,13 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 			}
 			out = append(out, info)
 		}
+		nalustart = start
 		from = next
 	}
 	for i, c := range b {
 		switch c {
 		case 0:
 			if s < S000 {
-				if s == S {
-					nalustart = i
-				}
 				s++
 			}
 		case 1:
-- 
2.43.0


From f503e9258c70ed5d66a370b593b259c9660d73a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 030/101] fix: an H.264 codec made from a decoder configuration
 keeps its bytes

---
 codec/h264/h264.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index d9d80c1..6943ca6 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -580,6 +580,7 @@ func FromDecoderConfig(b []byte) (c *Codec, err error) {
 		nc.AddSPSPPS(pps)
 	}
 
+	nc.ConfigBytes = append([]byte(nil), b...)
 	c = nc
 	return
 }
-- 
2.43.0


From 035b71a9662f662712da79751e33908f856daee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 031/101] fix: the profile in an H.264 decoder configuration is
 that of its first SPS, not of a random one

---
 codec/h264/h264.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 6943ca6..d27524e 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -478,7 +478,7 @@ func (c *Codec) ToConfig() {
 	var config = make([]byte, c.Len())
 	var pos = 0
 	firstSPS := []byte{}
-	for _, s := range c.SPS {
+	for _, s := range Map2arr(c.SPS) {
 		firstSPS = s
 		break
 	}
@@ -1034,10 +1034,10 @@ func (c *Codec) AddSPSPPS(b []byte) {
 
 func FromOld(old Codec) *Codec {
 	c := NewCodec()
-	for _, sps := range old.SPS {
+	for _, sps := range Map2arr(old.SPS) {
 		c.AddSPSPPS(sps)
 	}
-	for _, pps := range old.PPS {
+	for _, pps := range Map2arr(old.PPS) {
 		c.AddSPSPPS(pps)
 	}
 	return c
-- 
2.43.0


From 0b29d92c4e158829ea5f5db10b5e417b7aa33434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 032/101] fix: SPS chroma format and field coding determine the
 unit of cropping

---
 codec/h264/h264.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index d27524e..dcbe51a 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -689,6 +689,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		return
 	}
 
+	// size of a cropping unit in a frame
+	cropX, cropY := uint(2), uint(2)
+
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
@@ -699,6 +702,13 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 			return
 		}
 
+		if chroma_format_idc != 1 {
+			cropY = 1
+		}
+		if chroma_format_idc == 0 || chroma_format_idc == 3 {
+			cropX = 1
+		}
+
 		if chroma_format_idc == 3 {
 			// residual_colour_transform_flag
 			if _, err = r.ReadBit(); err != nil {
@@ -849,8 +859,10 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 	}
 
-	s.Width = (s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2
-	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2
+	cropY *= 2 - frame_mbs_only_flag
+
+	s.Width = (s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropX
+	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropY
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From 8071b81b69aefa98021edb286e634e15e1248cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 033/101] fix: an SPS with 4:4:4 chroma has twelve scaling
 lists

---
 codec/h264/h264.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index dcbe51a..b7ba6ac 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -735,7 +735,11 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			lists := 8
+			if chroma_format_idc == 3 {
+				lists = 12
+			}
+			for i := 0; i < lists; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From 0fdf6fd09da1225c1db49b95215983de18d8f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 034/101] fix: all profiles with chroma information in the SPS
 are parsed as such

---
 codec/h264/h264.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index b7ba6ac..046677b 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -695,7 +695,10 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 144 {
 
 		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
-- 
2.43.0


From 5e5956b53b65601238e30e42617ec192327f4d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 035/101] fix: pacing counts from the first packet, not from
 time zero

---
 av/pktop/pktop.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/av/pktop/pktop.go b/av/pktop/pktop.go
index e501f8c..0da2eff 100644
--- a/av/pktop/pktop.go
+++ b/av/pktop/pktop.go
@@ -7,6 +7,7 @@ import (
 )
 
 type NativeRateLimiter struct {
+	started       bool
 	pktTimeStart  time.Duration
 	wallTimeStart time.Time
 }
@@ -19,6 +20,12 @@ func NewNativeRateLimiter() *NativeRateLimiter {
 
 func (l *NativeRateLimiter) Do(in []av.Packet) []av.Packet {
 	for _, pkt := range in {
+		if !l.started {
+			l.started = true
+			l.pktTimeStart = pkt.Time
+			l.wallTimeStart = time.Now()
+			continue
+		}
 		if pktTimeDiff := pkt.Time - l.pktTimeStart; pktTimeDiff > 0 {
 			wallTimeDiff := time.Now().Sub(l.wallTimeStart)
 			if wallTimeDiff < pktTimeDiff {
-- 
2.43.0


From 5196d43e4dce74306204793ec310f8bee88c55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 036/101] fix: unsupported addresses are rejected before a file
 is created

---
 format/format.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/format/format.go b/format/format.go
index e0d8ae7..0ace00d 100644
--- a/format/format.go
+++ b/format/format.go
@@ -165,14 +165,14 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 		}
 		return
 
-	default:
+	case "", "file":
 		ext := path.Ext(u.Path)
 		var f *os.File
-		if f, err = os.Create(u.Path); err != nil {
-			return
-		}
 		switch ext {
 		case ".flv":
+			if f, err = os.Create(u.Path); err != nil {
+				return
+			}
 			c := flv.NewMuxer(NewStreamsWriteSeeker(f, streamer))
 			if fn := o.OnNewFlvMuxer; fn != nil {
 				fn(c)
@@ -183,11 +183,20 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			}
 			return
 		case ".mp4":
+			if streamer == nil {
+				err = fmt.Errorf("create `%s` failed: %s", url_, "streams are needed")
+				return
+			}
 			var m *mp4.Muxer
-			m, err = mp4.NewMuxer(NewStreamsWriteSeeker(f, streamer))
+			ws := NewStreamsWriteSeeker(nil, streamer)
+			m, err = mp4.NewMuxer(ws)
 			if err != nil {
 				return nil, err
 			}
+			if f, err = os.Create(u.Path); err != nil {
+				return
+			}
+			ws.WriteSeeker = f
 			w = &Writer{
 				PacketWriter: m,
 				Closer:       Mp4WriterCloser{f, m},
@@ -198,6 +207,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			err = ErrUnsupported(url_)
 			return
 		}
+
+	default:
+		err = ErrUnsupported(url_)
+		return
 	}
 }
 
@@ -285,7 +298,7 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			return
 		}
 
-	default:
+	case "", "file":
 		ext := path.Ext(u.Path)
 		switch ext {
 		case ".flv":
@@ -308,6 +321,10 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			err = ErrUnsupported(url_)
 			return
 		}
+
+	default:
+		err = ErrUnsupported(url_)
+		return
 	}
 }
 
-- 
2.43.0


From 99adfa0303a38de0f0b9ca063ed3748bdd9f447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 037/101] fix: rtmps addresses can be opened for reading

---
 format/format.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 0ace00d..7e341b8 100644
--- a/format/format.go
+++ b/format/format.go
@@ -227,7 +227,11 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 	}
 
 	switch u.Scheme {
-	case "rtmp":
+	case "rtmp", "rtmps":
+		if isServer && u.Scheme != "rtmp" {
+			err = ErrUnsupported(url_)
+			return
+		}
 		if isServer {
 			var c *rtmp.Conn
 			var nc net.Conn
-- 
2.43.0


From 40e22d880e96b3ce4eaba6a6607e592d5d3f4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 038/101] fix: closing an http reader closes the response

---
 format/format.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index 7e341b8..7bfb15e 100644
--- a/format/format.go
+++ b/format/format.go
@@ -20,12 +20,6 @@ import (
 	"github.com/nareix/joy5/format/rtmp"
 )
 
-type dummyCloser struct{}
-
-func (c dummyCloser) Close() error {
-	return nil
-}
-
 type Mp4WriterCloser struct {
 	io.Closer
 	*mp4.Muxer
@@ -291,7 +285,7 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			}
 			r = &Reader{
 				PacketReader: c,
-				Closer:       dummyCloser{},
+				Closer:       hr.Body,
 				Flv:          c,
 				IsRemote:     true,
 			}
-- 
2.43.0


From 04688c8925887b4eeb84088e11122c4f30a0375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 039/101] fix: an mp4 file is closed when its trailer cannot be
 written

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 7bfb15e..a16ddd5 100644
--- a/format/format.go
+++ b/format/format.go
@@ -27,6 +27,7 @@ type Mp4WriterCloser struct {
 
 func (c Mp4WriterCloser) Close() error {
 	if err := c.Muxer.WriteTrailer(); err != nil {
+		c.Closer.Close()
 		return err
 	}
 	if err := c.Closer.Close(); err != nil {
-- 
2.43.0


From c28fb8c5f9e239e37df79a59a0c5fb98901a7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 040/101] fix: SDP attributes count by their names, for the
 media section and payload type they belong to

---
 format/rtsp/sdp/parser.go | 69 +++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index fa701aa..f5f2ce1 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -38,7 +38,8 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			switch typeval[0] {
 			case "m":
-				if len(fields) > 0 {
+				media = nil
+				if len(fields) > 1 {
 					switch fields[0] {
 					case "audio", "video":
 						medias = append(medias, Media{AVType: fields[0]})
@@ -55,19 +56,22 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			case "a":
 				if media != nil {
-					for _, field := range fields {
-						keyval := strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							val := keyval[1]
-							switch key {
-							case "control":
-								media.Control = val
-							case "rtpmap":
-								media.Rtpmap, _ = strconv.Atoi(val)
-							}
-						}
-						keyval = strings.Split(field, "/")
+					attr := strings.SplitN(fields[0], ":", 2)
+					if len(attr) != 2 {
+						break
+					}
+					val := attr[1]
+					if attr[0] == "control" {
+						media.Control = val
+					}
+					// the others are about one of the payload types of the media
+					if pt, err := strconv.Atoi(val); err != nil || pt != media.PayloadType || len(fields) != 2 {
+						break
+					}
+					switch attr[0] {
+					case "rtpmap":
+						media.Rtpmap, _ = strconv.Atoi(val)
+						keyval := strings.Split(strings.TrimSpace(fields[1]), "/")
 						if len(keyval) >= 2 {
 							key := keyval[0]
 							switch strings.ToUpper(key) {
@@ -83,24 +87,25 @@ func Parse(content string) (sess Session, medias []Media) {
 								fmt.Println("sdp:", keyval[1], media.TimeScale)
 							}
 						}
-						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
-							for _, field := range keyval {
-								keyval := strings.SplitN(field, "=", 2)
-								if len(keyval) == 2 {
-									key := strings.TrimSpace(keyval[0])
-									val := keyval[1]
-									switch key {
-									case "config":
-										media.Config, _ = hex.DecodeString(val)
-									case "sizelength":
-										media.SizeLength, _ = strconv.Atoi(val)
-									case "indexlength":
-										media.IndexLength, _ = strconv.Atoi(val)
-									case "sprop-parameter-sets":
-										fields := strings.Split(val, ",")
-										for _, field := range fields {
-											val, _ := base64.StdEncoding.DecodeString(field)
+					case "fmtp":
+						for _, field := range strings.Split(fields[1], ";") {
+							keyval := strings.SplitN(field, "=", 2)
+							if len(keyval) == 2 {
+								key := strings.ToLower(strings.TrimSpace(keyval[0]))
+								val := strings.TrimSpace(keyval[1])
+								switch key {
+								case "config":
+									if config, err := hex.DecodeString(val); err == nil {
+										media.Config = config
+									}
+								case "sizelength":
+									media.SizeLength, _ = strconv.Atoi(val)
+								case "indexlength":
+									media.IndexLength, _ = strconv.Atoi(val)
+								case "sprop-parameter-sets":
+									fields := strings.Split(val, ",")
+									for _, field := range fields {
+										if val, err := base64.StdEncoding.DecodeString(field); err == nil {
 											media.SpropParameterSets = append(media.SpropParameterSets, val)
 										}
 									}
-- 
2.43.0


From f15c6b0c4c64cae958dda3f15ee9449a77908ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 041/101] fix: interleaved RTSP blocks too short for any RTP or
 RTCP packet do not crash the client

---
 format/rtsp/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 978fdcf..f640e11 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -205,11 +205,11 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 	if no/2 >= len(self.streams) {
 		return
 	}
+	if length < 8 {
+		return
+	}
 
 	if no%2 == 0 { // rtp
-		if length < 8 {
-			return
-		}
 
 		// V=2
 		if h[4]&0xc0 != 0x80 {
-- 
2.43.0


From 5dab62fd2e2627b8383e79da1a95ede77119ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 042/101] fix: RTP time counts from the first packet whatever
 its timestamp, and goes on when the clock wraps

---
 format/rtsp/client.go | 23 +++++++++++++----------
 format/rtsp/stream.go | 10 ++++++----
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index f640e11..728bc7b 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -222,11 +222,9 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 		}
 
 		timestamp := binary.BigEndian.Uint32(h[8:12])
-		if stream.firsttimestamp != 0 {
-			timestamp -= stream.firsttimestamp
-			if timestamp < stream.timestamp {
-				return
-			} else if timestamp-stream.timestamp > uint32(stream.timeScale()*60*60) {
+		if stream.started {
+			// backwards is far ahead, modulo 2^32
+			if int64(timestamp-stream.lasttimestamp) > int64(stream.timeScale())*60*60 {
 				return
 			}
 		}
@@ -673,6 +671,11 @@ func (self *Stream) timeScale() int {
 	return t
 }
 
+func (self *Stream) tsToTime(ts int64) time.Duration {
+	scale := int64(self.timeScale())
+	return time.Duration(ts/scale)*time.Second + time.Duration(ts%scale)*time.Second/time.Duration(scale)
+}
+
 func (self *Stream) handleBuggyAnnexbH264Packet(timestamp uint32, packet []byte) (isBuggy bool, err error) {
 	if len(packet) >= 4 && packet[0] == 0 && packet[1] == 0 && packet[2] == 0 && packet[3] == 1 {
 		isBuggy = true
@@ -1097,19 +1100,19 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 	if stream.gotpkt {
 		/*
 			TODO: sync AV by rtcp NTP timestamp
-			TODO: handle timestamp overflow
 			https://tools.ietf.org/html/rfc3550
 			A receiver can then synchronize presentation of the audio and video packets by relating
 			their RTP timestamps using the timestamp pairs in RTCP SR packets.
 		*/
-		if stream.firsttimestamp == 0 {
-			stream.firsttimestamp = stream.timestamp
+		if stream.started {
+			stream.elapsed += int64(stream.timestamp - stream.lasttimestamp)
 		}
-		stream.timestamp -= stream.firsttimestamp
+		stream.started = true
+		stream.lasttimestamp = stream.timestamp
 
 		ok = true
 		pkt = stream.pkt
-		pkt.Time = time.Duration(stream.timestamp) * time.Second / time.Duration(stream.timeScale())
+		pkt.Time = stream.tsToTime(stream.elapsed)
 
 		if pkt.Time < stream.lasttime || pkt.Time-stream.lasttime > time.Minute*30 {
 			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pkt.Time, stream.lasttime)
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 8444e1b..06d7e78 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -20,10 +20,12 @@ type Stream struct {
 	spsChanged bool
 	ppsChanged bool
 
-	gotpkt         bool
-	pkt            av.Packet
-	timestamp      uint32
-	firsttimestamp uint32
+	gotpkt        bool
+	pkt           av.Packet
+	timestamp     uint32
+	started       bool
+	lasttimestamp uint32
+	elapsed       int64
 
 	lasttime time.Duration
 }
-- 
2.43.0


From fde19933c21c0f887212a1ff95e286b21bd55c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 043/101] fix: RTP padding and header extensions are not taken
 for payload

---
 format/rtsp/client.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 728bc7b..237a06a 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -963,8 +963,27 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		err = fmt.Errorf("rtp: packet too short")
 		return
 	}
+	if packet[0]&0x10 != 0 { // header extension
+		if payloadOffset+4 > len(packet) {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+		payloadOffset += 4 + int(binary.BigEndian.Uint16(packet[payloadOffset+2:]))*4
+		if payloadOffset > len(packet) {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+	}
 	timestamp := binary.BigEndian.Uint32(packet[4:8])
 	payload := packet[payloadOffset:]
+	if packet[0]&0x20 != 0 { // padding
+		n := int(packet[len(packet)-1])
+		if n == 0 || n > len(payload) {
+			err = fmt.Errorf("rtp: padding invalid")
+			return
+		}
+		payload = payload[:len(payload)-n]
+	}
 
 	/*
 		PT 	Encoding Name 	Audio/Video (A/V) 	Clock Rate (Hz) 	Channels 	Reference
-- 
2.43.0


From fc963f8f15ea68572fb6662765dbdcca46a132b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 044/101] fix: fragments of H.264 units are joined only when
 none in between is missing

---
 format/rtsp/client.go | 19 ++++++++++++++++++-
 format/rtsp/stream.go |  1 +
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 237a06a..20902be 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -740,7 +740,7 @@ func (self *Stream) makeCodec() (err error) {
 }
 
 func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err error) {
-	if len(packet) < 2 {
+	if len(packet) < 1 {
 		err = fmt.Errorf("rtp: h264 packet too short")
 		return
 	}
@@ -857,6 +857,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			Type: 5 bits
 			The NAL unit payload type as defined in table 7-1 of [1].
 		*/
+		if len(packet) < 2 {
+			err = fmt.Errorf("rtp: h264 packet too short")
+			return
+		}
 		fuIndicator := packet[0]
 		fuHeader := packet[1]
 		isStart := fuHeader&0x80 != 0
@@ -869,6 +873,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			self.fuBuffer = append(self.fuBuffer, packet[2:]...)
 			if isEnd {
 				self.fuStarted = false
+				if t := self.fuBuffer[0] & 0x1f; t >= 24 {
+					err = fmt.Errorf("rtsp: fragmented H264 naluType=%d invalid", t)
+					return
+				}
 				if err = self.handleH264Payload(timestamp, self.fuBuffer); err != nil {
 					return
 				}
@@ -904,6 +912,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			if size+2 > len(packet) {
 				break
 			}
+			if size > 0 && packet[2]&0x1f >= 24 {
+				err = fmt.Errorf("rtsp: aggregated H264 naluType=%d invalid", packet[2]&0x1f)
+				return
+			}
 			if err = self.handleH264Payload(timestamp, packet[2:size+2]); err != nil {
 				return
 			}
@@ -974,6 +986,11 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 			return
 		}
 	}
+	seq := binary.BigEndian.Uint16(packet[2:4])
+	if seq != self.seq+1 {
+		self.fuStarted = false
+	}
+	self.seq = seq
 	timestamp := binary.BigEndian.Uint32(packet[4:8])
 	payload := packet[payloadOffset:]
 	if packet[0]&0x20 != 0 { // padding
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 06d7e78..4505fd6 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -13,6 +13,7 @@ type Stream struct {
 	client *Client
 
 	// h264
+	seq        uint16
 	fuStarted  bool
 	fuBuffer   []byte
 	sps        []byte
-- 
2.43.0


From cefcc147ec40ee24c5af27d28365956eb5b6cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 045/101] fix: all slices of an RTP packet are delivered

---
 format/rtsp/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 20902be..5784733 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -778,7 +778,7 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 		b := make([]byte, 4+len(packet))
 		pio.PutU32BE(b[0:4], uint32(len(packet)))
 		copy(b[4:], packet)
-		self.pkt.Data = b
+		self.pkt.Data = append(self.pkt.Data, b...)
 		self.timestamp = timestamp
 
 	case naluType == 7: // sps
@@ -1046,7 +1046,8 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	*/
 	//payloadType := packet[1]&0x7f
 
-	self.pkt.Type = self.Sdp.Type
+	self.gotpkt = false
+	self.pkt = av.Packet{Type: self.Sdp.Type}
 
 	switch self.Sdp.Type {
 	case av.H264:
-- 
2.43.0


From a4f4f84a96f13b3a4f86d87ef8e5337729f801cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 046/101] fix: the parameter sets of the description do not
 come back once the stream has changed them

---
 format/rtsp/client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 5784733..2ccf75e 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -698,9 +698,11 @@ func (self *Stream) makeCodec() (err error) {
 	if media.PayloadType >= 96 && media.PayloadType <= 127 {
 		switch media.Type {
 		case av.H264:
-			for _, nalu := range media.SpropParameterSets {
-				if len(nalu) > 0 {
-					self.handleH264Payload(0, nalu)
+			if self.Codec == nil {
+				for _, nalu := range media.SpropParameterSets {
+					if len(nalu) > 0 {
+						self.handleH264Payload(0, nalu)
+					}
 				}
 			}
 
-- 
2.43.0


From 9c2e2477439da0c115c05fddeee442cb6cc95c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 047/101] fix: the packet that follows a codec change is not
 lost

---
 format/rtsp/client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 2ccf75e..96904e1 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -62,6 +62,7 @@ type Client struct {
 	cseq       uint
 	streams    []*Stream
 	session    string
+	heldBlock  []byte
 	body       io.Reader
 }
 
@@ -480,6 +481,11 @@ func (self *Client) poll() (res Response, err error) {
 
 	self.conn.Timeout = self.RtspTimeout
 	for {
+		if len(self.heldBlock) > 0 {
+			res.Block = self.heldBlock
+			self.heldBlock = nil
+			return
+		}
 		if block, rtsp, err = self.findRTSP(); err != nil {
 			return
 		}
@@ -1129,6 +1135,9 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 	stream := self.streams[i]
 
 	herr := stream.handleRtpPacket(block[4:])
+	if herr == ErrCodecChange {
+		self.heldBlock = block // for after HandleCodecChange()
+	}
 	if herr != nil {
 		if !self.SkipErrRtpBlock {
 			err = herr
-- 
2.43.0


From 604960813c7c347d308b699b70bdfd42a390c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 048/101] fix: all parameter sets of an RTSP stream are kept,
 and only a replaced one counts as a change

---
 format/rtsp/client.go | 49 +++++++++++++++++++++++++++----------------
 format/rtsp/stream.go |  2 --
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 96904e1..09ec146 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -704,7 +704,9 @@ func (self *Stream) makeCodec() (err error) {
 	if media.PayloadType >= 96 && media.PayloadType <= 127 {
 		switch media.Type {
 		case av.H264:
-			if self.Codec == nil {
+			first := self.Codec == nil
+			if first {
+				self.Codec = h264.NewCodec()
 				for _, nalu := range media.SpropParameterSets {
 					if len(nalu) > 0 {
 						self.handleH264Payload(0, nalu)
@@ -712,7 +714,8 @@ func (self *Stream) makeCodec() (err error) {
 				}
 			}
 
-			if len(self.sps) == 0 || len(self.pps) == 0 {
+			codec := self.Codec.(*h264.Codec)
+			if len(codec.SPS) == 0 || len(codec.PPS) == 0 {
 				if nalus, typ := h264.SplitNALUs(media.Config); typ != h264.NALU_RAW {
 					for _, nalu := range nalus {
 						if len(nalu) > 0 {
@@ -722,16 +725,12 @@ func (self *Stream) makeCodec() (err error) {
 				}
 			}
 
-			if self.Codec == nil {
-				self.Codec = h264.NewCodec()
+			if first {
+				self.clearCodecChange()
 			}
 
-			if len(self.pps) > 0 {
-				self.Codec.(*h264.Codec).AddSPSPPS(self.pps)
-			}
-			if len(self.sps) > 0 {
-				self.Codec.(*h264.Codec).AddSPSPPS(self.sps)
-				self.Codec.(*h264.Codec).ToConfig()
+			if len(codec.SPS) > 0 {
+				codec.ToConfig()
 			}
 
 		case av.AAC:
@@ -747,6 +746,26 @@ func (self *Stream) makeCodec() (err error) {
 	return
 }
 
+// addSPSPPS tells whether the parameter set replaces a different one.
+func (self *Stream) addSPSPPS(nalu []byte) (changed bool) {
+	codec, _ := self.Codec.(*h264.Codec)
+	if codec == nil {
+		return
+	}
+	var old []byte
+	if nalu[0]&0x1f == 7 {
+		if info, err := h264.ParseSPS(nalu); err == nil {
+			old = codec.SPS[int(info.Id)]
+		}
+	} else {
+		if info, err := h264.ParsePPS(nalu); err == nil {
+			old = codec.PPS[int(info.Id)]
+		}
+	}
+	codec.AddSPSPPS(nalu)
+	return len(old) > 0 && !bytes.Equal(old, nalu)
+}
+
 func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err error) {
 	if len(packet) < 1 {
 		err = fmt.Errorf("rtp: h264 packet too short")
@@ -793,11 +812,8 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 		if self.client != nil && self.client.DebugRtp {
 			fmt.Println("rtsp: got sps")
 		}
-		if len(self.sps) == 0 {
-			self.sps = packet
-		} else if bytes.Compare(self.sps, packet) != 0 {
+		if self.addSPSPPS(packet) {
 			self.spsChanged = true
-			self.sps = packet
 			if self.client != nil && self.client.DebugRtp {
 				fmt.Println("rtsp: sps changed")
 			}
@@ -806,11 +822,8 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 		if self.client != nil && self.client.DebugRtp {
 			fmt.Println("rtsp: got pps")
 		}
-		if len(self.pps) == 0 {
-			self.pps = packet
-		} else if bytes.Compare(self.pps, packet) != 0 {
+		if self.addSPSPPS(packet) {
 			self.ppsChanged = true
-			self.pps = packet
 			if self.client != nil && self.client.DebugRtp {
 				fmt.Println("rtsp: pps changed")
 			}
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 4505fd6..01e659f 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -16,8 +16,6 @@ type Stream struct {
 	seq        uint16
 	fuStarted  bool
 	fuBuffer   []byte
-	sps        []byte
-	pps        []byte
 	spsChanged bool
 	ppsChanged bool
 
-- 
2.43.0


From 33367c1b82edb9a08b76f6ce0f45ee20cd157371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 049/101] fix: RTP packets with several or fragmented AAC
 frames are taken apart

---
 format/rtsp/client.go | 92 +++++++++++++++++++++++++++++++++++++++----
 format/rtsp/stream.go |  1 +
 2 files changed, 86 insertions(+), 7 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 09ec146..8d8b6ee 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -20,6 +20,7 @@ import (
 	"github.com/nareix/joy5/codec/aac"
 	"github.com/nareix/joy5/codec/h264"
 	"github.com/nareix/joy5/format/rtsp/sdp"
+	"github.com/nareix/joy5/utils/bits"
 	"github.com/nareix/joy5/utils/bits/pio"
 )
 
@@ -63,6 +64,7 @@ type Client struct {
 	streams    []*Stream
 	session    string
 	heldBlock  []byte
+	ready      []av.Packet
 	body       io.Reader
 }
 
@@ -958,6 +960,73 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 	return
 }
 
+// handleAACPayload takes the access units out of a packet (RFC 3640).
+func (self *Stream) handleAACPayload(timestamp uint32, payload []byte) (err error) {
+	sizeLength, indexLength := self.Sdp.SizeLength, self.Sdp.IndexLength
+	if sizeLength == 0 {
+		sizeLength, indexLength = 13, 3
+	}
+	if sizeLength < 0 || sizeLength > 32 || indexLength < 0 || indexLength > 32 {
+		err = fmt.Errorf("rtp: aac sizelength=%d indexlength=%d invalid", sizeLength, indexLength)
+		return
+	}
+	if len(payload) < 2 {
+		err = fmt.Errorf("rtp: aac packet too short")
+		return
+	}
+	hdrbits := int(binary.BigEndian.Uint16(payload))
+	hdrlen := (hdrbits + 7) / 8
+	n := hdrbits / (sizeLength + indexLength)
+	if 2+hdrlen > len(payload) || n == 0 {
+		err = fmt.Errorf("rtp: aac packet too short")
+		return
+	}
+	r := &bits.Reader{R: bytes.NewReader(payload[2 : 2+hdrlen])}
+	data := payload[2+hdrlen:]
+
+	for i := 0; i < n; i++ {
+		var v uint64
+		if v, err = r.ReadBits64(sizeLength); err != nil {
+			return
+		}
+		if _, err = r.ReadBits64(indexLength); err != nil {
+			return
+		}
+		size := int(v)
+		if size > len(data) {
+			// a fragment of a unit that is larger than the packet
+			if n != 1 {
+				err = fmt.Errorf("rtp: aac unit size=%d invalid", size)
+				return
+			}
+			if !self.fuStarted || timestamp != self.timestamp {
+				self.fuStarted = true
+				self.fuBuffer = nil
+				self.timestamp = timestamp
+			}
+			self.fuBuffer = append(self.fuBuffer, data...)
+			if len(self.fuBuffer) < size {
+				return
+			}
+			self.fuStarted = false
+			if len(self.fuBuffer) > size {
+				err = fmt.Errorf("rtp: aac unit size=%d invalid", size)
+				return
+			}
+			data = self.fuBuffer
+		}
+		if i == 0 {
+			self.gotpkt = true
+			self.pkt.Data = data[:size]
+			self.timestamp = timestamp
+		} else {
+			self.more = append(self.more, av.Packet{Type: self.pkt.Type, Data: data[:size]})
+		}
+		data = data[size:]
+	}
+	return
+}
+
 func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	if self.isCodecChange() {
 		err = ErrCodecChange
@@ -1068,6 +1137,7 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	//payloadType := packet[1]&0x7f
 
 	self.gotpkt = false
+	self.more = nil
 	self.pkt = av.Packet{Type: self.Sdp.Type}
 
 	switch self.Sdp.Type {
@@ -1077,14 +1147,9 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		}
 
 	case av.AAC:
-		if len(payload) < 4 {
-			err = fmt.Errorf("rtp: aac packet too short")
+		if err = self.handleAACPayload(timestamp, payload); err != nil {
 			return
 		}
-		payload = payload[4:] // TODO: remove this hack
-		self.gotpkt = true
-		self.pkt.Data = payload
-		self.timestamp = timestamp
 
 	default:
 		self.gotpkt = true
@@ -1172,6 +1237,7 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 		stream.lasttimestamp = stream.timestamp
 
 		ok = true
+		stream.gotpkt = false
 		pkt = stream.pkt
 		pkt.Time = stream.tsToTime(stream.elapsed)
 
@@ -1185,8 +1251,14 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 			fmt.Println("rtp: pktout", pkt.Time, len(pkt.Data))
 		}
 
+		for i, more := range stream.more {
+			// 1024 samples each
+			more.Time = stream.tsToTime(stream.elapsed + int64(i+1)*1024)
+			self.ready = append(self.ready, more)
+		}
+
 		stream.pkt = av.Packet{}
-		stream.gotpkt = false
+		stream.more = nil
 	}
 
 	return
@@ -1197,6 +1269,12 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		return
 	}
 
+	if len(self.ready) > 0 {
+		pkt = self.ready[0]
+		self.ready = self.ready[1:]
+		return
+	}
+
 	for {
 		var res Response
 		for {
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 01e659f..41eb095 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -21,6 +21,7 @@ type Stream struct {
 
 	gotpkt        bool
 	pkt           av.Packet
+	more          []av.Packet
 	timestamp     uint32
 	started       bool
 	lasttimestamp uint32
-- 
2.43.0


From ec274855bd5e9d916d744c65abc052abca67065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 050/101] fix: authentication challenges with "=" or "," inside
 quoted values are understood

---
 format/rtsp/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 8d8b6ee..d4a5b2f 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -283,10 +283,16 @@ func (self *Client) handle401(res *Response) (err error) {
 	var realm, nonce string
 
 	if len(hdrval) == 2 {
-		for _, field := range strings.Split(hdrval[1], ",") {
+		quoted := false
+		for _, field := range strings.FieldsFunc(hdrval[1], func(r rune) bool {
+			if r == '"' {
+				quoted = !quoted
+			}
+			return r == ',' && !quoted
+		}) {
 			field = strings.Trim(field, ", ")
-			if keyval := strings.Split(field, "="); len(keyval) == 2 {
-				key := keyval[0]
+			if keyval := strings.SplitN(field, "=", 2); len(keyval) == 2 {
+				key := strings.ToLower(keyval[0])
 				val := strings.Trim(keyval[1], `"`)
 				switch key {
 				case "realm":
-- 
2.43.0


From 066f25089dadf15cc3245033510ffaa720e9d50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 051/101] fix: digest credentials are made for the address of
 the request

---
 format/rtsp/client.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index d4a5b2f..52d1082 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -54,7 +54,7 @@ type Client struct {
 	setupIdx []int
 	setupMap []int
 
-	authHeaders func(method string) []string
+	authHeaders func(method, uri string) []string
 
 	url        *url.URL
 	conn       *connWithTimeout
@@ -173,7 +173,7 @@ func (self *Client) WriteRequest(req Request) (err error) {
 	fmt.Fprintf(buf, "CSeq: %d\r\n", self.cseq)
 
 	if self.authHeaders != nil {
-		headers := self.authHeaders(req.Method)
+		headers := self.authHeaders(req.Method, req.Uri)
 		for _, s := range headers {
 			io.WriteString(buf, s)
 			io.WriteString(buf, "\r\n")
@@ -314,7 +314,7 @@ func (self *Client) handle401(res *Response) (err error) {
 			username = self.url.User.Username()
 			password, _ = self.url.User.Password()
 
-			self.authHeaders = func(method string) []string {
+			self.authHeaders = func(method, uri string) []string {
 				var headers []string
 				if nonce == "" {
 					headers = []string{
@@ -322,11 +322,11 @@ func (self *Client) handle401(res *Response) (err error) {
 					}
 				} else {
 					hs1 := md5hash(username + ":" + realm + ":" + password)
-					hs2 := md5hash(method + ":" + self.requestUri)
+					hs2 := md5hash(method + ":" + uri)
 					response := md5hash(hs1 + ":" + nonce + ":" + hs2)
 					headers = []string{fmt.Sprintf(
 						`Authorization: Digest username="%s", realm="%s", nonce="%s", uri="%s", response="%s"`,
-						username, realm, nonce, self.requestUri, response)}
+						username, realm, nonce, uri, response)}
 				}
 				return headers
 			}
-- 
2.43.0


From 70ecd29979e5fae68c0d183fe1907dd9613fa6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 052/101] fix: error replies of an RTSP server end in an error,
 and a challenge to any request is answered

---
 format/rtsp/client.go | 54 +++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 52d1082..e7e3e0b 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -527,6 +527,26 @@ func (self *Client) ReadResponse() (res Response, err error) {
 	}
 }
 
+// roundTrip sends a request, once more if credentials are asked for.
+func (self *Client) roundTrip(req Request) (res Response, err error) {
+	for i := 0; i < 2; i++ {
+		if err = self.WriteRequest(req); err != nil {
+			return
+		}
+		if res, err = self.ReadResponse(); err != nil {
+			return
+		}
+		if res.StatusCode == 200 {
+			return
+		}
+		if res.StatusCode != 401 {
+			break
+		}
+	}
+	err = fmt.Errorf("rtsp: %s failed, StatusCode=%d", req.Method, res.StatusCode)
+	return
+}
+
 func (self *Client) SetupAll() (err error) {
 	idx := []int{}
 	for i := range self.streams {
@@ -561,10 +581,7 @@ func (self *Client) Setup(idx []int) (err error) {
 		if self.session != "" {
 			req.Header = append(req.Header, "Session: "+self.session)
 		}
-		if err = self.WriteRequest(req); err != nil {
-			return
-		}
-		if _, err = self.ReadResponse(); err != nil {
+		if _, err = self.roundTrip(req); err != nil {
 			return
 		}
 	}
@@ -583,21 +600,13 @@ func md5hash(s string) string {
 func (self *Client) Describe() (err error) {
 	var res Response
 
-	for i := 0; i < 2; i++ {
-		req := Request{
-			Method: "DESCRIBE",
-			Uri:    self.requestUri,
-			Header: []string{"Accept: application/sdp"},
-		}
-		if err = self.WriteRequest(req); err != nil {
-			return
-		}
-		if res, err = self.ReadResponse(); err != nil {
-			return
-		}
-		if res.StatusCode == 200 {
-			break
-		}
+	req := Request{
+		Method: "DESCRIBE",
+		Uri:    self.requestUri,
+		Header: []string{"Accept: application/sdp"},
+	}
+	if res, err = self.roundTrip(req); err != nil {
+		return
 	}
 	if res.ContentLength == 0 {
 		err = fmt.Errorf("rtsp: Describe failed, StatusCode=%d", res.StatusCode)
@@ -635,12 +644,7 @@ func (self *Client) Options() (err error) {
 	if self.session != "" {
 		req.Header = append(req.Header, "Session: "+self.session)
 	}
-	if err = self.WriteRequest(req); err != nil {
-		return
-	}
-	if _, err = self.ReadResponse(); err != nil {
-		return
-	}
+	_, err = self.roundTrip(req)
 	return
 }
 
-- 
2.43.0


From 9d78a7c47bb639014c36f5a241899e7999f91010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 053/101] fix: a refused PLAY ends in an error, a challenged
 one is repeated

---
 format/rtsp/client.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index e7e3e0b..840fa50 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -61,6 +61,8 @@ type Client struct {
 	brconn     *bufio.Reader
 	requestUri string
 	cseq       uint
+	playCseq   uint
+	playTried  bool
 	streams    []*Stream
 	session    string
 	heldBlock  []byte
@@ -1183,6 +1185,7 @@ func (self *Client) Play() (err error) {
 	if err = self.WriteRequest(req); err != nil {
 		return
 	}
+	self.playCseq = self.cseq
 	if self.stage == stageSetupDone {
 		self.stage = stagePlayDone
 	}
@@ -1190,6 +1193,22 @@ func (self *Client) Play() (err error) {
 	return
 }
 
+// handlePlayResp looks at a reply that came among the media: media may come
+// before the reply to PLAY, so that Play() does not wait for it.
+func (self *Client) handlePlayResp(res Response) (err error) {
+	if res.StatusCode < 200 || res.StatusCode == 200 {
+		return
+	}
+	if res.Headers.Get("CSeq") != strconv.FormatUint(uint64(self.playCseq), 10) {
+		return
+	}
+	if res.StatusCode == 401 && !self.playTried {
+		self.playTried = true
+		return self.Play()
+	}
+	return fmt.Errorf("rtsp: PLAY failed, StatusCode=%d", res.StatusCode)
+}
+
 func (self *Client) Teardown() (err error) {
 	req := Request{
 		Method: "TEARDOWN",
@@ -1294,6 +1313,9 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			if len(res.Block) > 0 {
 				break
 			}
+			if err = self.handlePlayResp(res); err != nil {
+				return
+			}
 		}
 
 		var ok bool
-- 
2.43.0


From 6ca9682628eb5ee8fa678b0797937720c534e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 054/101] fix: interim RTSP replies are not taken for the final
 one

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 840fa50..fbc8bda 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -523,7 +523,7 @@ func (self *Client) ReadResponse() (res Response, err error) {
 		if res, err = self.poll(); err != nil {
 			return
 		}
-		if res.StatusCode > 0 {
+		if res.StatusCode >= 200 {
 			return
 		}
 	}
-- 
2.43.0


From 6341612478e861151c6451e079f540b9cea95046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 055/101] fix: the body of an RTSP reply is not allocated
 before it arrives

---
 format/rtsp/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index fbc8bda..102e06f 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -473,10 +473,11 @@ func (self *Client) readResp(b []byte) (res Response, err error) {
 	}
 	res.ContentLength, _ = strconv.Atoi(res.Headers.Get("Content-Length"))
 	if res.ContentLength > 0 {
-		res.Body = make([]byte, res.ContentLength)
-		if _, err = io.ReadFull(self.brconn, res.Body); err != nil {
+		body := &bytes.Buffer{}
+		if _, err = io.CopyN(body, self.brconn, int64(res.ContentLength)); err != nil {
 			return
 		}
+		res.Body = body.Bytes()
 	}
 	if err = self.handleResp(&res); err != nil {
 		return
-- 
2.43.0


From 5c6fa770e05f7828973e2846c80917e79fb8bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 056/101] fix: the RTSP keep-alive names the session

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 102e06f..680ac6d 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -157,6 +157,9 @@ func (self *Client) SendRtpKeepalive() (err error) {
 				Method: "OPTIONS",
 				Uri:    self.requestUri,
 			}
+			if self.session != "" {
+				req.Header = append(req.Header, "Session: "+self.session)
+			}
 			if err = self.WriteRequest(req); err != nil {
 				return
 			}
-- 
2.43.0


From 59161912b4c542c9f16fa0b1cadb20bd4ad792ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 057/101] fix: an RTSP media without a control address of its
 own is set up at the address of the request

---
 format/rtsp/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 680ac6d..bf05ee0 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -579,8 +579,10 @@ func (self *Client) Setup(idx []int) (err error) {
 		control := self.streams[si].Sdp.Control
 		if strings.HasPrefix(control, "rtsp://") {
 			uri = control
+		} else if control == "" || control == "*" {
+			uri = self.requestUri
 		} else {
-			uri = self.requestUri + "/" + control
+			uri = strings.TrimSuffix(self.requestUri, "/") + "/" + control
 		}
 		req := Request{Method: "SETUP", Uri: uri}
 		req.Header = append(req.Header, fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", si*2, si*2+1))
-- 
2.43.0


From 4315b6182eed5e89ad4ab43a51c36f9abe823138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 058/101] fix: setting up all streams first finds out which
 there are

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index bf05ee0..e514f8d 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -554,6 +554,9 @@ func (self *Client) roundTrip(req Request) (res Response, err error) {
 }
 
 func (self *Client) SetupAll() (err error) {
+	if err = self.prepare(stageDescribeDone); err != nil {
+		return
+	}
 	idx := []int{}
 	for i := range self.streams {
 		idx = append(idx, i)
-- 
2.43.0


From 1dfc47f010a16720a13e4b3afa3841658477d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 059/101] fix: a codec change is reported also when erroneous
 RTP packets are skipped

---
 format/rtsp/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index e514f8d..d03574b 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -1253,6 +1253,8 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 	herr := stream.handleRtpPacket(block[4:])
 	if herr == ErrCodecChange {
 		self.heldBlock = block // for after HandleCodecChange()
+		err = herr
+		return
 	}
 	if herr != nil {
 		if !self.SkipErrRtpBlock {
-- 
2.43.0


From 1f4edcef89910892d48c3dd257a283d2d6f6be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 060/101] fix: a child box of eight bytes at the end of an MP4
 box is parsed

---
 format/mp4/mp4io/atoms.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e83f72b..2ad8581 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -254,7 +254,7 @@ func (self Movie) Len() (n int) {
 func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -551,7 +551,7 @@ func (self Track) Len() (n int) {
 func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -881,7 +881,7 @@ func (self Media) Len() (n int) {
 func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -1105,7 +1105,7 @@ func (self MediaInfo) Len() (n int) {
 func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -1214,7 +1214,7 @@ func (self DataInfo) Len() (n int) {
 func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -1308,7 +1308,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -1581,7 +1581,7 @@ func (self SampleTable) Len() (n int) {
 func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -1748,7 +1748,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	n += 1
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -1919,7 +1919,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.SampleRate = GetFixed32(b[n:])
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -2138,7 +2138,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.ColorTableId = pio.I16BE(b[n:])
 	n += 2
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -2639,7 +2639,7 @@ func (self MovieFrag) Len() (n int) {
 func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -2794,7 +2794,7 @@ func (self TrackFrag) Len() (n int) {
 func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
@@ -2891,7 +2891,7 @@ func (self MovieExtend) Len() (n int) {
 func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if len(b) < n+size {
-- 
2.43.0


From 97213488571a0f6efec8cc3f6d4219289a47434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 061/101] fix: an MP4 box smaller than its header is rejected

---
 format/mp4/mp4io/atoms.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 2ad8581..9e3da55 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -257,7 +257,7 @@ func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -554,7 +554,7 @@ func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -884,7 +884,7 @@ func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1108,7 +1108,7 @@ func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1217,7 +1217,7 @@ func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1311,7 +1311,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1584,7 +1584,7 @@ func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1751,7 +1751,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1922,7 +1922,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2141,7 +2141,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2642,7 +2642,7 @@ func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2797,7 +2797,7 @@ func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2894,7 +2894,7 @@ func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
-- 
2.43.0


From ad0740a6de573e6db3c04934c9f43fc65542e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 062/101] fix: the tables of an MP4 file are allocated only as
 far as the file holds them, and which fields a fragment run has follows its
 flags

---
 format/mp4/mp4io/atoms.go | 94 +++++++++++++++++++++++++--------------
 1 file changed, 61 insertions(+), 33 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 9e3da55..f888435 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -2259,13 +2259,17 @@ func (self *TimeToSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TimeToSampleEntry, _len_Entries)
-	if len(b) < n+LenTimeToSampleEntry*len(self.Entries) {
+	if uint64(len(b)-n) < LenTimeToSampleEntry*uint64(_len_Entries) {
 		err = parseErr("TimeToSampleEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]TimeToSampleEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetTimeToSampleEntry(b[n:])
 		n += LenTimeToSampleEntry
@@ -2343,13 +2347,17 @@ func (self *SampleToChunk) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]SampleToChunkEntry, _len_Entries)
-	if len(b) < n+LenSampleToChunkEntry*len(self.Entries) {
+	if uint64(len(b)-n) < LenSampleToChunkEntry*uint64(_len_Entries) {
 		err = parseErr("SampleToChunkEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]SampleToChunkEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetSampleToChunkEntry(b[n:])
 		n += LenSampleToChunkEntry
@@ -2430,13 +2438,17 @@ func (self *CompositionOffset) Unmarshal(b []byte, offset int) (n int, err error
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
-	if len(b) < n+LenCompositionOffsetEntry*len(self.Entries) {
+	if uint64(len(b)-n) < LenCompositionOffsetEntry*uint64(_len_Entries) {
 		err = parseErr("CompositionOffsetEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetCompositionOffsetEntry(b[n:])
 		n += LenCompositionOffsetEntry
@@ -2514,13 +2526,17 @@ func (self *SyncSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if uint64(len(b)-n) < 4*uint64(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -2581,13 +2597,17 @@ func (self *ChunkOffset) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if uint64(len(b)-n) < 4*uint64(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -3095,13 +3115,17 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 		return
 	}
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if uint64(len(b)-n) < 4*uint64(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -3147,13 +3171,8 @@ func (self TrackFragRun) marshal(b []byte) (n int) {
 		}
 	}
 
-	for i, entry := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	for _, entry := range self.Entries {
+		flags := self.Flags
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			pio.PutU32BE(b[n:], entry.Duration)
 			n += 4
@@ -3189,13 +3208,8 @@ func (self TrackFragRun) Len() (n int) {
 		}
 	}
 
-	for i := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	for range self.Entries {
+		flags := self.Flags
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			n += 4
 		}
@@ -3227,9 +3241,12 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TrackFragRunEntry, _len_Entries)
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+4 {
@@ -3251,13 +3268,21 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 		}
 	}
 
-	for i := 0; i < int(_len_Entries); i++ {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
+	entryLen := uint64(0)
+	for _, flag := range []uint32{TRUN_SAMPLE_DURATION, TRUN_SAMPLE_SIZE, TRUN_SAMPLE_FLAGS, TRUN_SAMPLE_CTS} {
+		if self.Flags&flag != 0 {
+			entryLen += 4
 		}
+	}
+	// entries without fields take no room, their number is limited instead
+	if uint64(len(b)-n) < entryLen*uint64(_len_Entries) || (entryLen == 0 && _len_Entries > maxEmptyRunEntries) {
+		err = parseErr("TrackFragRunEntry", n+offset, err)
+		return
+	}
+	self.Entries = make([]TrackFragRunEntry, _len_Entries)
+
+	for i := 0; i < int(_len_Entries); i++ {
+		flags := self.Flags
 		entry := &self.Entries[i]
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			entry.Duration = pio.U32BE(b[n:])
@@ -3278,6 +3303,9 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	return
 }
+// maxEmptyRunEntries limits the entries of a run which have no fields.
+const maxEmptyRunEntries = 1 << 20
+
 func (self TrackFragRun) Children() (r []Atom) {
 	return
 }
-- 
2.43.0


From 113e89d0fdef0873b0dd86bdbd2da63840b3c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 063/101] fix: a truncated tfdt box is rejected

---
 format/mp4/mp4io/atoms.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index f888435..e2a2bb4 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3545,10 +3545,18 @@ func (self *TrackFragDecodeTime) Unmarshal(b []byte, offset int) (n int, err err
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	if self.Version != 0 {
+		if len(b) < n+8 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime64(b[n:])
 		n += 8
 	} else {
 
+		if len(b) < n+4 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime32(b[n:])
 		n += 4
 	}
-- 
2.43.0


From 063fe77cfd21826975b5e5a12cde403054e327ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 064/101] fix: the number of samples of constant size is kept

---
 format/mp4/mp4io/atoms.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e2a2bb4..97888d7 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3050,7 +3050,9 @@ type SampleSize struct {
 	Version    uint8
 	Flags      uint32
 	SampleSize uint32
-	Entries    []uint32
+	// SampleCount is the number of samples when all are of SampleSize.
+	SampleCount uint32
+	Entries     []uint32
 	AtomPos
 }
 
@@ -3068,6 +3070,8 @@ func (self SampleSize) marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], self.SampleSize)
 	n += 4
 	if self.SampleSize != 0 {
+		pio.PutU32BE(b[n:], self.SampleCount)
+		n += 4
 		return
 	}
 	pio.PutU32BE(b[n:], uint32(len(self.Entries)))
@@ -3083,10 +3087,10 @@ func (self SampleSize) Len() (n int) {
 	n += 1
 	n += 3
 	n += 4
+	n += 4
 	if self.SampleSize != 0 {
 		return
 	}
-	n += 4
 	n += 4 * len(self.Entries)
 	return
 }
@@ -3112,6 +3116,12 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.SampleSize = pio.U32BE(b[n:])
 	n += 4
 	if self.SampleSize != 0 {
+		if len(b) < n+4 {
+			err = parseErr("SampleCount", n+offset, err)
+			return
+		}
+		self.SampleCount = pio.U32BE(b[n:])
+		n += 4
 		return
 	}
 	var _len_Entries uint32
@@ -3303,6 +3313,7 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	return
 }
+
 // maxEmptyRunEntries limits the entries of a run which have no fields.
 const maxEmptyRunEntries = 1 << 20
 
-- 
2.43.0


From 87a46b8c0e3eddd93c181e754d2dc32109cadfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 065/101] fix: the descriptor lengths of an esds box are those
 of their contents

---
 format/mp4/mp4io/mp4io.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 13bcae8..a6c646c 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -224,7 +224,7 @@ func (self ElemStreamDesc) lenESDescHdr() (n int) {
 }
 
 func (self ElemStreamDesc) fillESDescHdr(b []byte, datalen int) (n int) {
-	n += self.fillDescHdr(b[n:], MP4ESDescrTag, datalen)
+	n += self.fillDescHdr(b[n:], MP4ESDescrTag, datalen+3)
 	pio.PutU16BE(b[n:], self.TrackId)
 	n += 2
 	b[n] = 0 // flags
@@ -237,7 +237,7 @@ func (self ElemStreamDesc) lenDecConfigDescHdr() (n int) {
 }
 
 func (self ElemStreamDesc) fillDecConfigDescHdr(b []byte, datalen int) (n int) {
-	n += self.fillDescHdr(b[n:], MP4DecConfigDescrTag, datalen)
+	n += self.fillDescHdr(b[n:], MP4DecConfigDescrTag, datalen-self.lenDescHdr())
 	b[n] = 0x40 // objectid
 	n++
 	b[n] = 0x15 // streamtype
@@ -251,7 +251,7 @@ func (self ElemStreamDesc) fillDecConfigDescHdr(b []byte, datalen int) (n int) {
 	// avg bitrage
 	pio.PutU32BE(b[n:], uint32(0))
 	n += 4
-	n += self.fillDescHdr(b[n:], MP4DecSpecificDescrTag, datalen-n)
+	n += self.fillDescHdr(b[n:], MP4DecSpecificDescrTag, datalen-n-self.lenDescHdr())
 	return
 }
 
-- 
2.43.0


From 2176a4da055c18bc002d2e7c81f6acd65d138863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 066/101] fix: an esds box is parsed within its descriptors

---
 format/mp4/mp4io/mp4io.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index a6c646c..b341ba5 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -300,10 +300,13 @@ func (self *ElemStreamDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
 	n += 4
-	return self.parseDesc(b[n:], offset+n)
+	var desclen int
+	desclen, err = self.parseDesc(b[n:], offset+n, 0)
+	n += desclen
+	return
 }
 
-func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
+func (self *ElemStreamDesc) parseDesc(b []byte, offset int, parent uint8) (n int, err error) {
 	var hdrlen int
 	var datalen int
 	var tag uint8
@@ -316,6 +319,12 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 		err = parseErr("datalen", offset+n, err)
 		return
 	}
+	b = b[:n+datalen]
+
+	if tag <= parent {
+		err = parseErr("descTag", offset, err)
+		return
+	}
 
 	switch tag {
 	case MP4ESDescrTag:
@@ -323,7 +332,7 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 			err = parseErr("MP4ESDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+3:], offset+n+3); err != nil {
+		if _, err = self.parseDesc(b[n+3:], offset+n+3, tag); err != nil {
 			return
 		}
 
@@ -333,7 +342,7 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 			err = parseErr("MP4DecSpecificDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+size:], offset+n+size); err != nil {
+		if _, err = self.parseDesc(b[n+size:], offset+n+size, tag); err != nil {
 			return
 		}
 
-- 
2.43.0


From 3f0c835d3e9705c884486538c3281a2c030464df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 067/101] fix: 64-bit MP4 times beyond 292 years keep their
 value, unset times are written as zero

---
 format/mp4/mp4io/mp4io.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index b341ba5..c79e832 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -38,22 +38,25 @@ func GetTime32(b []byte) (t time.Time) {
 }
 
 func PutTime32(b []byte, t time.Time) {
-	dur := t.Sub(time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC))
-	sec := uint32(dur / time.Second)
-	pio.PutU32BE(b, sec)
+	pio.PutU32BE(b, uint32(secondsSince1904(t)))
 }
 
 func GetTime64(b []byte) (t time.Time) {
-	sec := pio.U64BE(b)
-	t = time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC)
-	t = t.Add(time.Second * time.Duration(sec))
+	t = time.Unix(int64(pio.U64BE(b))+epoch1904, 0).UTC()
 	return
 }
 
+var epoch1904 = time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
+
+func secondsSince1904(t time.Time) int64 {
+	if t.IsZero() {
+		return 0
+	}
+	return t.Unix() - epoch1904
+}
+
 func PutTime64(b []byte, t time.Time) {
-	dur := t.Sub(time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC))
-	sec := uint64(dur / time.Second)
-	pio.PutU64BE(b, sec)
+	pio.PutU64BE(b, uint64(secondsSince1904(t)))
 }
 
 func PutFixed16(b []byte, f float64) {
-- 
2.43.0


From 6234acb476937ee72a5d498560e296339f513920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 068/101] fix: top-level MP4 boxes with 64-bit, open or too
 small sizes, and sizes beyond the end of the file

---
 format/mp4/mp4io/mp4io.go | 42 ++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index c79e832..89dbf48 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -1,6 +1,7 @@
 package mp4io
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"math"
@@ -398,8 +399,31 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 			}
 			return
 		}
-		size := pio.U32BE(taghdr[0:])
+		size := int64(pio.U32BE(taghdr[0:]))
 		tag := Tag(pio.U32BE(taghdr[4:]))
+		hdrlen := int64(8)
+		switch size {
+		case 0: // up to the end of the file
+			var end int64
+			if end, err = r.Seek(0, 2); err != nil {
+				return
+			}
+			if _, err = r.Seek(offset+hdrlen, 0); err != nil {
+				return
+			}
+			size = end - offset
+		case 1: // 64-bit size
+			exthdr := make([]byte, 8)
+			if _, err = io.ReadFull(r, exthdr); err != nil {
+				return
+			}
+			size = int64(pio.U64BE(exthdr))
+			hdrlen += 8
+		}
+		if size < hdrlen || size > math.MaxInt64-offset {
+			err = parseErr("TagSizeInvalid", int(offset), nil)
+			return
+		}
 
 		var atom Atom
 		switch tag {
@@ -410,22 +434,26 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		}
 
 		if atom != nil {
-			b := make([]byte, int(size))
-			if _, err = io.ReadFull(r, b[8:]); err != nil {
+			// not allocated before it is read
+			buf := &bytes.Buffer{}
+			buf.Write(taghdr)
+			if _, err = io.CopyN(buf, r, size-hdrlen); err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			if err != nil {
 				return
 			}
-			copy(b, taghdr)
-			if _, err = atom.Unmarshal(b, int(offset)); err != nil {
+			if _, err = atom.Unmarshal(buf.Bytes(), int(offset)); err != nil {
 				return
 			}
 			atoms = append(atoms, atom)
 		} else {
 			dummy := &Dummy{Tag_: tag}
 			dummy.setPos(int(offset), int(size))
-			if _, err = r.Seek(int64(size)-8, 1); err != nil {
+			atoms = append(atoms, dummy)
+			if _, err = r.Seek(size-hdrlen, 1); err != nil {
 				return
 			}
-			atoms = append(atoms, dummy)
 		}
 	}
 	return
-- 
2.43.0


From 581a237d7383756f0200d4081b794f7415deede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 069/101] fix: MP4: H.264 is video and AAC audio, a seek goes
 by the codec of a stream

---
 format/mp4/demuxer.go | 11 +++++++----
 format/mp4/muxer.go   |  2 +-
 format/mp4/stream.go  |  7 +++----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index bea3293..ed6e6b4 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -88,11 +88,13 @@ func (self *Demuxer) probe() (err error) {
 			if stream.Codec, err = h264.FromDecoderConfig(avc1.Data); err != nil {
 				return
 			}
+			stream.cType = av.H264
 			self.streams = append(self.streams, stream)
 		} else if esds := atrack.GetElemStreamDesc(); esds != nil {
 			if stream.Codec, err = aac.FromMPEG4AudioConfigBytes(esds.DecConfig); err != nil {
 				return
 			}
+			stream.cType = av.AAC
 			self.streams = append(self.streams, stream)
 		}
 	}
@@ -119,6 +121,7 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 	if pkt, err = chosen.readPacket(); err != nil {
 		return
 	}
+	pkt.Type = chosen.cType
 	pkt.Time = tm
 	return
 }
@@ -132,8 +135,8 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
-	for sType, stream := range self.streams {
-		if IsVideo(sType) {
+	for _, stream := range self.streams {
+		if IsVideo(stream.cType) {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
@@ -142,8 +145,8 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 		}
 	}
 
-	for sType, stream := range self.streams {
-		if !IsVideo(sType) {
+	for _, stream := range self.streams {
+		if !IsVideo(stream.cType) {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index e9d0593..f51eddd 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -46,7 +46,7 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		if err != nil {
 			return err
 		}
-		stream := &Stream{Codec: codec}
+		stream := &Stream{Codec: codec, cType: cType}
 
 		stream.sample = &mp4io.SampleTable{
 			SampleDesc:   &mp4io.SampleDesc{},
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index fa38171..51cc75e 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -13,10 +13,9 @@ import (
 	"github.com/pkg/errors"
 )
 
-const codecTypeAudioBit = 0x1
-
 type Stream struct {
 	Codec interface{}
+	cType int
 
 	trackAtom *mp4io.Track
 	idx       int
@@ -64,11 +63,11 @@ func CodecType(codec interface{}) (int, error) {
 }
 
 func IsAudio(t int) bool {
-	return t&codecTypeAudioBit != 0
+	return t == av.AAC
 }
 
 func IsVideo(t int) bool {
-	return t&codecTypeAudioBit == 0
+	return t == av.H264
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-- 
2.43.0


From be94da0bd479b3cf3d9d9b5763ccd01c335cba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 070/101] fix: MP4: negative composition offsets are kept

---
 format/mp4/muxer.go  | 5 ++++-
 format/mp4/stream.go | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index f51eddd..058422a 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -227,8 +227,11 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 
 	if self.sample.CompositionOffset != nil {
 		offset := uint32(self.timeToTs(pkt.CTime))
+		table := self.sample.CompositionOffset
+		if int32(offset) < 0 {
+			table.Version = 1
+		}
 		if self.cttsEntry == nil || offset != self.cttsEntry.Offset {
-			table := self.sample.CompositionOffset
 			table.Entries = append(table.Entries, mp4io.CompositionOffsetEntry{Offset: offset})
 			self.cttsEntry = &table.Entries[len(table.Entries)-1]
 		}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 51cc75e..1c1dc26 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -79,11 +79,11 @@ func tsToTime(ts int64, timeScale int64) time.Duration {
 }
 
 func (self *Stream) timeToTs(tm time.Duration) int64 {
-	return int64(tm * time.Duration(self.timeScale) / time.Second)
+	return timeToTs(tm, self.timeScale)
 }
 
 func (self *Stream) tsToTime(ts int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(self.timeScale)
+	return tsToTime(ts, self.timeScale)
 }
 
 func (self *Stream) setSampleIndex(index int) (err error) {
@@ -310,7 +310,7 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
 	if self.sample.CompositionOffset != nil && len(self.sample.CompositionOffset.Entries) > 0 {
-		cts := int64(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset)
+		cts := int64(int32(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset))
 		pkt.CTime = self.tsToTime(cts)
 	}
 
-- 
2.43.0


From fef047379ae470bb9d35bd33b211c18b80b3385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 071/101] fix: MP4: times after some 28 hours do not overflow

---
 format/mp4/stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 1c1dc26..8b81b65 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -71,11 +71,13 @@ func IsVideo(t int) bool {
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-	return int64(tm * time.Duration(timeScale) / time.Second)
+	sec, rem := int64(tm/time.Second), int64(tm%time.Second)
+	return sec*timeScale + rem*timeScale/int64(time.Second)
 }
 
 func tsToTime(ts int64, timeScale int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(timeScale)
+	sec, rem := time.Duration(ts/timeScale), time.Duration(ts%timeScale)
+	return sec*time.Second + rem*time.Second/time.Duration(timeScale)
 }
 
 func (self *Stream) timeToTs(tm time.Duration) int64 {
-- 
2.43.0


From fa1a6235e5cfb7a0b0d56b63ee90478c6cade84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 072/101] fix: MP4: rounding the durations of packets does not
 add up

---
 format/mp4/muxer.go  | 5 ++++-
 format/mp4/stream.go | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 058422a..6270e5e 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -199,6 +199,8 @@ func (self *Muxer) WritePacket(pkt av.Packet) (err error) {
 		if err = stream.writePacket(*stream.lastpkt, pkt.Time-stream.lastpkt.Time); err != nil {
 			return
 		}
+	} else {
+		stream.firstTime = pkt.Time
 	}
 	stream.lastpkt = &pkt
 	return
@@ -218,7 +220,8 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		self.sample.SyncSample.Entries = append(self.sample.SyncSample.Entries, uint32(self.sampleIndex+1))
 	}
 
-	duration := uint32(self.timeToTs(rawdur))
+	start := pkt.Time - self.firstTime
+	duration := uint32(self.timeToTs(start+rawdur) - self.timeToTs(start))
 	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
 		self.sample.TimeToSample.Entries = append(self.sample.TimeToSample.Entries, mp4io.TimeToSampleEntry{Duration: duration})
 		self.sttsEntry = &self.sample.TimeToSample.Entries[len(self.sample.TimeToSample.Entries)-1]
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 8b81b65..2600ebb 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -20,7 +20,8 @@ type Stream struct {
 	trackAtom *mp4io.Track
 	idx       int
 
-	lastpkt *av.Packet
+	lastpkt   *av.Packet
+	firstTime time.Duration
 
 	timeScale int64
 	duration  int64
-- 
2.43.0


From bea3e78ba14d6b057e8a96eddea7dfb473900222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 073/101] fix: MP4: the AAC configuration is written to the
 file

---
 format/mp4/muxer.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 6270e5e..be1f918 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"reflect"
 	"time"
@@ -112,6 +113,9 @@ func (self *Stream) fillTrackAtom() (err error) {
 
 	switch codec := self.Codec.(type) {
 	case *h264.Codec:
+		if len(codec.ConfigBytes) == 0 {
+			codec.ToConfig()
+		}
 		width, height := codec.W, codec.H
 		self.sample.SampleDesc.AVC1Desc = &mp4io.AVC1Desc{
 			DataRefIdx:           1,
@@ -135,14 +139,23 @@ func (self *Stream) fillTrackAtom() (err error) {
 		self.trackAtom.Header.TrackHeight = float64(height)
 
 	case *aac.Codec:
+		config := codec.ConfigBytes
+		if len(config) == 0 {
+			var buf bytes.Buffer
+			if err = aac.WriteMPEG4AudioConfig(&buf, codec.Config); err != nil {
+				return
+			}
+			config = buf.Bytes()
+		}
 		self.sample.SampleDesc.MP4ADesc = &mp4io.MP4ADesc{
 			DataRefIdx:       1,
 			NumberOfChannels: int16(codec.Config.ChannelLayout.Count()),
 			SampleSize:       int16(codec.SampleFormat().BytesPerSample()),
 			SampleRate:       float64(codec.Config.SampleRate),
-			// Conf: &mp4io.ElemStreamDesc{
-			// 	DecConfig: codec.MPEG4AudioConfigBytes(),
-			// },
+			Conf: &mp4io.ElemStreamDesc{
+				TrackId:   uint16(self.trackAtom.Header.TrackId),
+				DecConfig: config,
+			},
 		}
 		self.trackAtom.Header.Volume = 1
 		self.trackAtom.Header.AlternateGroup = 1
-- 
2.43.0


From 3773dd50d7236c17e8eb2aaed715b099723663e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 074/101] fix: MP4: tracks are written in the order of the
 streams, the next track id follows theirs

---
 format/mp4/muxer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index be1f918..c083983 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -20,6 +20,7 @@ type Muxer struct {
 	bufw           *bufio.Writer
 	wpos           int64
 	streams        map[int]*Stream
+	tracks         []*Stream // in the order added
 	fileHdrWritten bool
 }
 
@@ -102,6 +103,7 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		stream.timeScale = 90000
 		stream.muxer = self
 		self.streams[cType] = stream
+		self.tracks = append(self.tracks, stream)
 	}
 
 	return
@@ -264,7 +266,7 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 }
 
 func (self *Muxer) WriteTrailer() (err error) {
-	for _, stream := range self.streams {
+	for _, stream := range self.tracks {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
 				return
@@ -278,12 +280,12 @@ func (self *Muxer) WriteTrailer() (err error) {
 		PreferredRate:   1,
 		PreferredVolume: 1,
 		Matrix:          [9]int32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000},
-		NextTrackId:     2,
+		NextTrackId:     int32(len(self.tracks) + 1),
 	}
 
 	maxDur := time.Duration(0)
 	timeScale := int64(10000)
-	for _, stream := range self.streams {
+	for _, stream := range self.tracks {
 		if err = stream.fillTrackAtom(); err != nil {
 			return
 		}
-- 
2.43.0


From 0e3641844528acf54959e9c625f4bcbb8cf02499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 075/101] fix: MP4: streams looked up later do not replace
 those already being written

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index c083983..ffd9623 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -48,6 +48,9 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		if err != nil {
 			return err
 		}
+		if _, ok := self.streams[cType]; ok {
+			continue
+		}
 		stream := &Stream{Codec: codec, cType: cType}
 
 		stream.sample = &mp4io.SampleTable{
-- 
2.43.0


From adfa561d1337dcbabb9917b0560bb65a6d45073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 076/101] fix: MP4: a trailer without packets still follows an
 mdat box

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index ffd9623..d7c27fa 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -269,6 +269,9 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 }
 
 func (self *Muxer) WriteTrailer() (err error) {
+	if err = self.WriteFileHeader(); err != nil {
+		return
+	}
 	for _, stream := range self.tracks {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
-- 
2.43.0


From 8b53770959dcd9981798d17159400a1eb5ec49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 077/101] fix: MP4: reading ends when every stream is read, an
 empty stream or none is no error

---
 format/mp4/demuxer.go |  7 +++++++
 format/mp4/stream.go  | 26 ++++++++------------------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index ed6e6b4..7f3eef8 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -110,10 +110,17 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 
 	var chosen *Stream
 	for _, stream := range self.streams {
+		if !stream.isSampleValid() {
+			continue
+		}
 		if chosen == nil || stream.tsToTime(stream.dts) < chosen.tsToTime(chosen.dts) {
 			chosen = stream
 		}
 	}
+	if chosen == nil {
+		err = io.EOF
+		return
+	}
 	if false {
 		fmt.Printf("ReadPacket: chosen index=%v time=%v\n", chosen.idx, chosen.tsToTime(chosen.dts))
 	}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 2600ebb..71b9077 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -206,10 +206,8 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SampleSize.SampleSize != 0 {
-		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
-			return false
-		}
+	if self.sampleIndex >= self.sampleCount() {
+		return false
 	}
 	return true
 }
@@ -267,21 +265,10 @@ func (self *Stream) incSampleIndex() (duration int64) {
 }
 
 func (self *Stream) sampleCount() int {
-	if self.sample.SampleSize.SampleSize == 0 {
-		chunkGroupIndex := 0
-		count := 0
-		for chunkIndex := range self.sample.ChunkOffset.Entries {
-			n := int(self.sample.SampleToChunk.Entries[chunkGroupIndex].SamplesPerChunk)
-			count += n
-			if chunkGroupIndex+1 < len(self.sample.SampleToChunk.Entries) &&
-				uint32(chunkIndex+1) == self.sample.SampleToChunk.Entries[chunkGroupIndex+1].FirstChunk {
-				chunkGroupIndex++
-			}
-		}
-		return count
-	} else {
-		return len(self.sample.SampleSize.Entries)
+	if self.sample.SampleSize.SampleSize != 0 {
+		return int(self.sample.SampleSize.SampleCount)
 	}
+	return len(self.sample.SampleSize.Entries)
 }
 
 func (self *Stream) readPacket() (pkt av.Packet, err error) {
@@ -323,6 +310,9 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 }
 
 func (self *Stream) seekToTime(tm time.Duration) (err error) {
+	if self.sampleCount() == 0 {
+		return
+	}
 	index := self.timeToSampleIndex(tm)
 	if err = self.setSampleIndex(index); err != nil {
 		return
-- 
2.43.0


From e861601e29ff03ffd94e414e45067a031717f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 078/101] fix: MP4: samples of a video track without sync
 sample table are key frames, an empty one does not end the track

---
 format/mp4/stream.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 71b9077..7f47992 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -201,11 +201,6 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SyncSample != nil {
-		if self.syncSampleIndex >= len(self.sample.SyncSample.Entries) {
-			return false
-		}
-	}
 	if self.sampleIndex >= self.sampleCount() {
 		return false
 	}
@@ -293,9 +288,12 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	if self.sample.SyncSample != nil {
-		if self.sample.SyncSample.Entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
+		entries := self.sample.SyncSample.Entries
+		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
+	} else if IsVideo(self.cType) {
+		pkt.IsKeyFrame = true
 	}
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
-- 
2.43.0


From d75bd05300bed8ede7a652da73bb4644a986867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 079/101] fix: MP4: a seek to the time of a key frame finds it,
 also before the first packet is read

---
 format/mp4/demuxer.go | 3 +++
 format/mp4/stream.go  | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 7f3eef8..9c3e55c 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -142,6 +142,9 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
+	if err = self.probe(); err != nil {
+		return
+	}
 	for _, stream := range self.streams {
 		if IsVideo(stream.cType) {
 			if err = stream.seekToTime(tm); err != nil {
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 7f47992..819a5a7 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -323,6 +323,10 @@ func (self *Stream) seekToTime(tm time.Duration) (err error) {
 
 func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	targetTs := self.timeToTs(tm)
+	if self.tsToTime(targetTs+1) <= tm {
+		// the time of a sample is rounded down
+		targetTs++
+	}
 	targetIndex := 0
 
 	startTs := int64(0)
@@ -331,7 +335,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	endIndex := 0
 	found := false
 	for _, entry := range self.sample.TimeToSample.Entries {
-		endTs = startTs + int64(entry.Count*entry.Duration)
+		endTs = startTs + int64(entry.Count)*int64(entry.Duration)
 		endIndex = startIndex + int(entry.Count)
 		if targetTs >= startTs && targetTs < endTs {
 			targetIndex = startIndex + int((targetTs-startTs)/int64(entry.Duration))
@@ -351,7 +355,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	if self.sample.SyncSample != nil {
 		entries := self.sample.SyncSample.Entries
 		for i := len(entries) - 1; i >= 0; i-- {
-			if entries[i]-1 < uint32(targetIndex) {
+			if entries[i]-1 <= uint32(targetIndex) {
 				targetIndex = int(entries[i] - 1)
 				break
 			}
-- 
2.43.0


From 10de1b40926837fb661032f13d2f2026673aa3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 080/101] fix: MP4: empty runs in the sample tables are skipped

---
 format/mp4/stream.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 819a5a7..bcf754e 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -186,6 +186,19 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 	return
 }
 
+func (self *Stream) skipEmptyRuns() {
+	for stts := self.sample.TimeToSample.Entries; self.sttsEntryIndex < len(stts) &&
+		stts[self.sttsEntryIndex].Count == 0; {
+		self.sttsEntryIndex++
+	}
+	if self.sample.CompositionOffset != nil {
+		for ctts := self.sample.CompositionOffset.Entries; self.cttsEntryIndex < len(ctts) &&
+			ctts[self.cttsEntryIndex].Count == 0; {
+			self.cttsEntryIndex++
+		}
+	}
+}
+
 func (self *Stream) isSampleValid() bool {
 	if self.chunkIndex >= len(self.sample.ChunkOffset.Entries) {
 		return false
@@ -235,18 +248,19 @@ func (self *Stream) incSampleIndex() (duration int64) {
 	duration = int64(sttsEntry.Duration)
 	self.sampleIndexInSttsEntry++
 	self.dts += duration
-	if uint32(self.sampleIndexInSttsEntry) == sttsEntry.Count {
+	if uint32(self.sampleIndexInSttsEntry) >= sttsEntry.Count {
 		self.sampleIndexInSttsEntry = 0
 		self.sttsEntryIndex++
 	}
 
 	if self.sample.CompositionOffset != nil && len(self.sample.CompositionOffset.Entries) > 0 {
 		self.sampleIndexInCttsEntry++
-		if uint32(self.sampleIndexInCttsEntry) == self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Count {
+		if uint32(self.sampleIndexInCttsEntry) >= self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Count {
 			self.sampleIndexInCttsEntry = 0
 			self.cttsEntryIndex++
 		}
 	}
+	self.skipEmptyRuns()
 
 	if self.sample.SyncSample != nil {
 		entries := self.sample.SyncSample.Entries
-- 
2.43.0


From 0b890450b7db9b527861e345443b44f83ea596b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 081/101] fix: MP4: a file without the tables of a track, with
 a zero time scale or with samples beyond its end is an error

---
 format/mp4/demuxer.go | 31 ++++++++++++++++++++++++++-----
 format/mp4/stream.go  |  6 ++++--
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 9c3e55c..3c3223d 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -13,6 +13,7 @@ import (
 
 type Demuxer struct {
 	r         io.ReadSeeker
+	size      int64
 	streams   []*Stream
 	movieAtom *mp4io.Movie
 }
@@ -33,10 +34,15 @@ func (self *Demuxer) Streams() (streams []interface{}, err error) {
 	return
 }
 
-func (self *Demuxer) readat(pos int64, b []byte) (err error) {
+func (self *Demuxer) readat(pos int64, size uint32) (b []byte, err error) {
+	if pos+int64(size) > self.size {
+		err = io.ErrUnexpectedEOF
+		return
+	}
 	if _, err = self.r.Seek(pos, 0); err != nil {
 		return
 	}
+	b = make([]byte, size)
 	if _, err = io.ReadFull(self.r, b); err != nil {
 		return
 	}
@@ -54,6 +60,9 @@ func (self *Demuxer) probe() (err error) {
 	if atoms, err = mp4io.ReadFileAtoms(self.r); err != nil {
 		return
 	}
+	if self.size, err = self.r.Seek(0, 2); err != nil {
+		return
+	}
 	if _, err = self.r.Seek(0, 0); err != nil {
 		return
 	}
@@ -76,9 +85,9 @@ func (self *Demuxer) probe() (err error) {
 			demuxer:   self,
 			idx:       i,
 		}
-		if atrack.Media != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
+		if atrack.Media != nil && atrack.Media.Header != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
 			stream.sample = atrack.Media.Info.Sample
-			stream.timeScale = int64(atrack.Media.Header.TimeScale)
+			stream.timeScale = int64(uint32(atrack.Media.Header.TimeScale))
 		} else {
 			err = fmt.Errorf("mp4: sample table not found")
 			return
@@ -89,14 +98,26 @@ func (self *Demuxer) probe() (err error) {
 				return
 			}
 			stream.cType = av.H264
-			self.streams = append(self.streams, stream)
 		} else if esds := atrack.GetElemStreamDesc(); esds != nil {
 			if stream.Codec, err = aac.FromMPEG4AudioConfigBytes(esds.DecConfig); err != nil {
 				return
 			}
 			stream.cType = av.AAC
-			self.streams = append(self.streams, stream)
+		} else {
+			continue
+		}
+
+		sample := stream.sample
+		if sample.TimeToSample == nil || sample.SampleToChunk == nil || sample.SampleSize == nil || sample.ChunkOffset == nil {
+			err = fmt.Errorf("mp4: sample table not found")
+			return
+		}
+		if stream.timeScale == 0 {
+			err = fmt.Errorf("mp4: time scale is zero")
+			return
 		}
+		stream.skipEmptyRuns()
+		self.streams = append(self.streams, stream)
 	}
 
 	self.movieAtom = moov
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index bcf754e..2779e15 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -99,6 +99,9 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 			uint32(self.chunkIndex+1) == self.sample.SampleToChunk.Entries[self.chunkGroupIndex+1].FirstChunk {
 			self.chunkGroupIndex++
 		}
+		if self.chunkGroupIndex >= len(self.sample.SampleToChunk.Entries) {
+			break
+		}
 		n := int(self.sample.SampleToChunk.Entries[self.chunkGroupIndex].SamplesPerChunk)
 		if index >= start && index < start+n {
 			found = true
@@ -296,8 +299,7 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	sampleOffset := int64(chunkOffset) + self.sampleOffsetInChunk
-	pkt.Data = make([]byte, sampleSize)
-	if err = self.demuxer.readat(sampleOffset, pkt.Data); err != nil {
+	if pkt.Data, err = self.demuxer.readat(sampleOffset, sampleSize); err != nil {
 		return
 	}
 
-- 
2.43.0


From 47d98bfea12b20cb4a20d8ac81c6030ea8e25c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 082/101] fix: MP4: streams which start later than another keep
 their delay

---
 format/mp4/demuxer.go | 11 ++++++---
 format/mp4/muxer.go   | 13 ++++++++++
 format/mp4/stream.go  | 57 ++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 3c3223d..6583f5d 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -116,6 +116,9 @@ func (self *Demuxer) probe() (err error) {
 			err = fmt.Errorf("mp4: time scale is zero")
 			return
 		}
+		if moov.Header != nil && moov.Header.TimeScale != 0 {
+			stream.delay = tsToTime(startDelay(atrack), int64(uint32(moov.Header.TimeScale)))
+		}
 		stream.skipEmptyRuns()
 		self.streams = append(self.streams, stream)
 	}
@@ -134,7 +137,7 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 		if !stream.isSampleValid() {
 			continue
 		}
-		if chosen == nil || stream.tsToTime(stream.dts) < chosen.tsToTime(chosen.dts) {
+		if chosen == nil || stream.time() < chosen.time() {
 			chosen = stream
 		}
 	}
@@ -145,7 +148,7 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 	if false {
 		fmt.Printf("ReadPacket: chosen index=%v time=%v\n", chosen.idx, chosen.tsToTime(chosen.dts))
 	}
-	tm := chosen.tsToTime(chosen.dts)
+	tm := chosen.time()
 	if pkt, err = chosen.readPacket(); err != nil {
 		return
 	}
@@ -157,7 +160,7 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 func (self *Demuxer) CurrentTime() (tm time.Duration) {
 	if len(self.streams) > 0 {
 		stream := self.streams[0]
-		tm = stream.tsToTime(stream.dts)
+		tm = stream.time()
 	}
 	return
 }
@@ -171,7 +174,7 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-			tm = stream.tsToTime(stream.dts)
+			tm = stream.time()
 			break
 		}
 	}
diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index d7c27fa..81933bd 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -272,8 +272,14 @@ func (self *Muxer) WriteTrailer() (err error) {
 	if err = self.WriteFileHeader(); err != nil {
 		return
 	}
+	var firstTime time.Duration
+	started := false
 	for _, stream := range self.tracks {
 		if stream.lastpkt != nil {
+			if !started || stream.firstTime < firstTime {
+				started = true
+				firstTime = stream.firstTime
+			}
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
 				return
 			}
@@ -296,6 +302,13 @@ func (self *Muxer) WriteTrailer() (err error) {
 			return
 		}
 		dur := stream.tsToTime(stream.duration)
+		if stream.sampleIndex > 0 && stream.firstTime > firstTime {
+			delay := stream.firstTime - firstTime
+			stream.trackAtom.Unknowns = []mp4io.Atom{
+				delayedEdits(uint32(timeToTs(delay, timeScale)), uint32(timeToTs(dur, timeScale))),
+			}
+			dur += delay
+		}
 		stream.trackAtom.Header.Duration = int32(timeToTs(dur, timeScale))
 		if dur > maxDur {
 			maxDur = dur
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 2779e15..2e4a30a 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -10,6 +10,7 @@ import (
 	"github.com/nareix/joy5/codec/aac"
 	"github.com/nareix/joy5/codec/h264"
 	"github.com/nareix/joy5/format/mp4/mp4io"
+	"github.com/nareix/joy5/utils/bits/pio"
 	"github.com/pkg/errors"
 )
 
@@ -35,6 +36,7 @@ type Stream struct {
 	sampleOffsetInChunk int64
 	syncSampleIndex     int
 
+	delay                  time.Duration
 	dts                    int64
 	sttsEntryIndex         int
 	sampleIndexInSttsEntry int
@@ -89,6 +91,59 @@ func (self *Stream) tsToTime(ts int64) time.Duration {
 	return tsToTime(ts, self.timeScale)
 }
 
+// time is the decode time of the next packet.
+func (self *Stream) time() time.Duration {
+	return self.delay + self.tsToTime(self.dts)
+}
+
+// delayedEdits is the edit list of a track which starts after a delay.
+func delayedEdits(delay, duration uint32) *mp4io.Dummy {
+	b := make([]byte, 8+8+8+2*12)
+	pio.PutU32BE(b[0:], uint32(len(b)))
+	pio.PutU32BE(b[4:], uint32(mp4io.StringToTag("edts")))
+	pio.PutU32BE(b[8:], uint32(len(b)-8))
+	pio.PutU32BE(b[12:], uint32(mp4io.StringToTag("elst")))
+	pio.PutU32BE(b[20:], 2)
+	pio.PutU32BE(b[24:], delay)
+	pio.PutI32BE(b[28:], -1) // nothing is shown
+	pio.PutU32BE(b[32:], 0x10000)
+	pio.PutU32BE(b[36:], duration)
+	pio.PutU32BE(b[44:], 0x10000)
+	return &mp4io.Dummy{Tag_: mp4io.StringToTag("edts"), Data: b}
+}
+
+// startDelay is the time before a track starts, in units of the movie.
+func startDelay(track *mp4io.Track) (delay int64) {
+	for _, atom := range track.Unknowns {
+		edts, ok := atom.(*mp4io.Dummy)
+		if !ok || edts.Tag() != mp4io.StringToTag("edts") {
+			continue
+		}
+		b := edts.Data[8:]
+		if len(b) < 16 || mp4io.Tag(pio.U32BE(b[4:])) != mp4io.StringToTag("elst") {
+			continue
+		}
+		version, count := b[8], pio.U32BE(b[12:])
+		b = b[16:]
+		for ; count > 0; count-- {
+			if version == 1 {
+				if len(b) < 20 || pio.I64BE(b[8:]) != -1 {
+					break
+				}
+				delay += pio.I64BE(b)
+				b = b[20:]
+			} else {
+				if len(b) < 12 || pio.I32BE(b[4:]) != -1 {
+					break
+				}
+				delay += int64(pio.U32BE(b))
+				b = b[12:]
+			}
+		}
+	}
+	return
+}
+
 func (self *Stream) setSampleIndex(index int) (err error) {
 	found := false
 	start := 0
@@ -327,7 +382,7 @@ func (self *Stream) seekToTime(tm time.Duration) (err error) {
 	if self.sampleCount() == 0 {
 		return
 	}
-	index := self.timeToSampleIndex(tm)
+	index := self.timeToSampleIndex(tm - self.delay)
 	if err = self.setSampleIndex(index); err != nil {
 		return
 	}
-- 
2.43.0


From 39b93ea67377beadbdce975e10dfc1919729ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 083/101] fix: the id of an elementary stream descriptor is
 kept

---
 format/mp4/mp4io/mp4io.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 89dbf48..1345c09 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -336,6 +336,7 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int, parent uint8) (n int
 			err = parseErr("MP4ESDescrTag", offset+n, err)
 			return
 		}
+		self.TrackId = pio.U16BE(b[n:])
 		if _, err = self.parseDesc(b[n+3:], offset+n+3, tag); err != nil {
 			return
 		}
-- 
2.43.0


From 2e8d08ac8905e38a9b7fb636b647b4b018fb2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 084/101] fix: an empty video track of an MP4 file does not
 send the others to the start on a seek

---
 format/mp4/demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 6583f5d..ff49c5c 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -170,7 +170,7 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 		return
 	}
 	for _, stream := range self.streams {
-		if IsVideo(stream.cType) {
+		if IsVideo(stream.cType) && stream.sampleCount() > 0 {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-- 
2.43.0


From 11260242b2d37046f447a5c2bf28287dd1e11a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 085/101] fix: a seek to less than one unit before the first
 packet of a track finds it

---
 format/mp4/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 2e4a30a..b0072ce 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -398,6 +398,9 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 		// the time of a sample is rounded down
 		targetTs++
 	}
+	if tm < 0 {
+		targetTs = -1
+	}
 	targetIndex := 0
 
 	startTs := int64(0)
-- 
2.43.0


From c4d65d48e32fd947967d18d7c81837a5d726da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 086/101] fix: fewer entries of an MP4 run are allocated
 without data for them

---
 format/mp4/mp4io/atoms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 97888d7..2d88b79 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3315,7 +3315,7 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 }
 
 // maxEmptyRunEntries limits the entries of a run which have no fields.
-const maxEmptyRunEntries = 1 << 20
+const maxEmptyRunEntries = 1 << 16
 
 func (self TrackFragRun) Children() (r []Atom) {
 	return
-- 
2.43.0


From 35c61d02859dd1846249c25a3b3166792bc35323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 087/101] fix: the fragment header box of an MP4 file has its
 track number

---
 format/mp4/mp4io/atoms.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 2d88b79..fb130f9 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3347,6 +3347,7 @@ const LenTrackFragRunEntry = 16
 type TrackFragHeader struct {
 	Version         uint8
 	Flags           uint32
+	TrackId         uint32
 	BaseDataOffset  uint64
 	StsdId          uint32
 	DefaultDuration uint32
@@ -3366,6 +3367,8 @@ func (self TrackFragHeader) marshal(b []byte) (n int) {
 	n += 1
 	pio.PutU24BE(b[n:], self.Flags)
 	n += 3
+	pio.PutU32BE(b[n:], self.TrackId)
+	n += 4
 	if self.Flags&TFHD_BASE_DATA_OFFSET != 0 {
 		{
 			pio.PutU64BE(b[n:], self.BaseDataOffset)
@@ -3402,6 +3405,7 @@ func (self TrackFragHeader) Len() (n int) {
 	n += 8
 	n += 1
 	n += 3
+	n += 4
 	if self.Flags&TFHD_BASE_DATA_OFFSET != 0 {
 		{
 			n += 8
@@ -3444,6 +3448,12 @@ func (self *TrackFragHeader) Unmarshal(b []byte, offset int) (n int, err error)
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("TrackId", n+offset, err)
+		return
+	}
+	self.TrackId = pio.U32BE(b[n:])
+	n += 4
 	if self.Flags&TFHD_BASE_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+8 {
-- 
2.43.0


From ab169804589f4d2f89748e9383ff9747eacb53e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 088/101] fix: avcc2annexb and moveh264seqhdrtokeyframe end
 without an error at the end of the file

---
 cmd/avtool/avcc2annexb.go | 4 ++++
 cmd/avtool/seqhdr.go      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/avtool/avcc2annexb.go b/cmd/avtool/avcc2annexb.go
index 5796989..953f657 100644
--- a/cmd/avtool/avcc2annexb.go
+++ b/cmd/avtool/avcc2annexb.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -27,6 +28,9 @@ func doAvcc2Annexb(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return nil
+		}
 		if err != nil {
 			return err
 		}
diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 896a17b..ada8169 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -32,6 +33,9 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return nil
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6ea7021015502e019169cf4934b8e1e37f6d9ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 089/101] fix: moveh264seqhdrtokeyframe does not overwrite
 /tmp/a.h264

---
 cmd/avtool/seqhdr.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index ada8169..b52a168 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -26,9 +26,6 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
 
-	rawf, _ := os.Create("/tmp/a.h264")
-	defer rawf.Close()
-
 	var h264seqhdr *h264.Codec
 
 	for {
-- 
2.43.0


From 20b81d914a537db33586788f3435f02fcd1f501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 090/101] fix: moveh264seqhdrtokeyframe does not crash on a key
 frame before the first configuration

---
 cmd/avtool/seqhdr.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index b52a168..0ab5814 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -50,11 +50,13 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 			if pkt.IsKeyFrame {
 				pktnalus, _ := h264.SplitNALUs(pkt.Data)
 				nalus := [][]byte{}
-				for _, b := range h264.Map2arr(h264seqhdr.SPS) {
-					nalus = append(nalus, b)
-				}
-				for _, b := range h264.Map2arr(h264seqhdr.PPS) {
-					nalus = append(nalus, b)
+				if h264seqhdr != nil {
+					for _, b := range h264.Map2arr(h264seqhdr.SPS) {
+						nalus = append(nalus, b)
+					}
+					for _, b := range h264.Map2arr(h264seqhdr.PPS) {
+						nalus = append(nalus, b)
+					}
 				}
 				nalus = append(nalus, pktnalus...)
 				data := h264.JoinNALUsAnnexb(nalus)
-- 
2.43.0


From af2efeb31eea477516a9890ab0c9955ed438e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 091/101] fix: forwardrtmp does not crash when it forwards to a
 file

---
 cmd/avtool/forwardrtmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index 6c64145..3bae69a 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -60,7 +60,7 @@ func doForwardRtmp(listenAddr string) (err error) {
 			if pkt, err = c.ReadPacket(); err != nil {
 				break
 			}
-			if err = c2.WritePacket(pkt); err != nil {
+			if err = w.WritePacket(pkt); err != nil {
 				break
 			}
 		}
-- 
2.43.0


From 8b25c6516dc4ea9290a896e4c399c9110a9373bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 092/101] fix: forwardrtmp sends each packet on at once

---
 cmd/avtool/forwardrtmp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index 3bae69a..4a45b96 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -63,6 +63,11 @@ func doForwardRtmp(listenAddr string) (err error) {
 			if err = w.WritePacket(pkt); err != nil {
 				break
 			}
+			if c2 != nil {
+				if err = c2.Flush(); err != nil {
+					break
+				}
+			}
 		}
 
 		log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "Closed")
-- 
2.43.0


From 3d705bd9d7e432df4124266cd65a67395c142e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 093/101] fix: benchrtmp sends each packet at its time and does
 not lose the last ones

---
 cmd/avtool/benchrtmp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/avtool/benchrtmp.go b/cmd/avtool/benchrtmp.go
index 5b1e062..205a7fc 100644
--- a/cmd/avtool/benchrtmp.go
+++ b/cmd/avtool/benchrtmp.go
@@ -74,6 +74,9 @@ func doBenchRtmp(listenAddr, file string) (err error) {
 				if err := c.WritePacket(pkt); err != nil {
 					return
 				}
+				if err := c.Flush(); err != nil {
+					return
+				}
 				time.Sleep(pkt.Time - time.Now().Sub(start))
 			}
 		}
-- 
2.43.0


From 82481f15ec7b345b8ce368034b0e96f2306c338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 094/101] fix: rtmp: the server's handshake timeout is used

---
 format/rtmp/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/rtmp/server.go b/format/rtmp/server.go
index 981a6c1..7f36a16 100644
--- a/format/rtmp/server.go
+++ b/format/rtmp/server.go
@@ -62,7 +62,11 @@ func (s *Server) HandleNetConn(nc net.Conn) {
 		fn(c, nc, EventConnConnected)
 	}
 
-	nc.SetDeadline(time.Now().Add(time.Second * 15))
+	timeout := s.HandshakeTimeout
+	if timeout <= 0 {
+		timeout = time.Second * 15
+	}
+	nc.SetDeadline(time.Now().Add(timeout))
 	if err := c.Prepare(StageGotPublishOrPlayCommand, 0); err != nil {
 		if fn := s.LogEvent; fn != nil {
 			fn(c, nc, EventHandshakeFailed)
-- 
2.43.0


From 7123cf1c2fe408501eeb4df7958e806e08d9189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 095/101] fix: rtmp: default port of an IPv6 address

---
 format/rtmp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index 761bff9..df37501 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -41,7 +41,7 @@ func UrlGetHost(u *url.URL) string {
 		defaultPort = "443"
 	}
 	if _, _, err := net.SplitHostPort(host); err != nil {
-		host = net.JoinHostPort(host, defaultPort)
+		host = net.JoinHostPort(u.Hostname(), defaultPort)
 	}
 	return host
 }
-- 
2.43.0


From fb8a4d80ccd243d35f0dedfb89beb6151339f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 096/101] fix: rtsp: no deadline is left behind when the
 timeout is taken back

---
 format/rtsp/conn.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/format/rtsp/conn.go b/format/rtsp/conn.go
index 20775e1..99e9786 100644
--- a/format/rtsp/conn.go
+++ b/format/rtsp/conn.go
@@ -10,16 +10,20 @@ type connWithTimeout struct {
 	net.Conn
 }
 
-func (self connWithTimeout) Read(p []byte) (n int, err error) {
+// deadline of an operation that starts now, none without a timeout.
+func (self connWithTimeout) deadline() (t time.Time) {
 	if self.Timeout > 0 {
-		self.Conn.SetReadDeadline(time.Now().Add(self.Timeout))
+		t = time.Now().Add(self.Timeout)
 	}
+	return
+}
+
+func (self connWithTimeout) Read(p []byte) (n int, err error) {
+	self.Conn.SetReadDeadline(self.deadline())
 	return self.Conn.Read(p)
 }
 
 func (self connWithTimeout) Write(p []byte) (n int, err error) {
-	if self.Timeout > 0 {
-		self.Conn.SetWriteDeadline(time.Now().Add(self.Timeout))
-	}
+	self.Conn.SetWriteDeadline(self.deadline())
 	return self.Conn.Write(p)
 }
-- 
2.43.0


From 0d6246abb695d234cf8a12bcbc360791382ff578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 097/101] fix: format: stop listening once a publisher came

---
 format/format.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index a16ddd5..5e08fa8 100644
--- a/format/format.go
+++ b/format/format.go
@@ -100,14 +100,24 @@ func (o *URLOpener) StartRtmpServerWaitConn(u *url.URL) (c *rtmp.Conn, nc net.Co
 		c  *rtmp.Conn
 		nc net.Conn
 	}
-	got_ := make(chan Got, 1)
+	got_ := make(chan Got)
+	done := make(chan struct{})
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
-		got_ <- Got{c, nc}
+		select {
+		case got_ <- Got{c, nc}:
+		case <-done:
+			nc.Close()
+		}
 	}
 	go func() {
 		for {
 			nc, err := lis.Accept()
 			if err != nil {
+				select {
+				case <-done:
+					return
+				default:
+				}
 				time.Sleep(time.Second)
 				continue
 			}
@@ -116,6 +126,8 @@ func (o *URLOpener) StartRtmpServerWaitConn(u *url.URL) (c *rtmp.Conn, nc net.Co
 	}()
 
 	got := <-got_
+	close(done)
+	lis.Close()
 	c = got.c
 	nc = got.nc
 	if fn := o.OnNewRtmpConn; fn != nil {
-- 
2.43.0


From dbe5d84d02fce0a55fbcdd9a5d9d23e5db929e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 098/101] fix: avtool: a command line that is not understood
 exits with an error

---
 cmd/avtool/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/avtool/main.go b/cmd/avtool/main.go
index 5b317d7..a645768 100644
--- a/cmd/avtool/main.go
+++ b/cmd/avtool/main.go
@@ -143,5 +143,7 @@ func main() {
 	rootCmd.AddCommand(cmdPubsubRtmp)
 	rootCmd.AddCommand(cmdAvcc2Annexb)
 	rootCmd.AddCommand(cmdMoveH264SeqhdrToKeyFrame)
-	rootCmd.Execute()
+	if err := rootCmd.Execute(); err != nil {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 57d8c46b6828d905340a340ffd0b813252e02bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 099/101] fix: flv: parse AMF objects of many members in linear
 time

---
 format/flv/flvio/amf0.go | 38 ++++++++++++++++++++++++++++++++------
 format/flv/flvio/amf3.go | 12 +++++++-----
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index e46133b..97cae07 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -109,6 +109,32 @@ func (a AMFMap) Set(k string, v interface{}) AMFMap {
 	return a
 }
 
+// amfMembers collects the members of an object that is parsed. A large one has
+// an index: looking through all members for each would never end.
+type amfMembers struct {
+	m     AMFMap
+	index map[string]int
+}
+
+func (o *amfMembers) set(k string, v interface{}) {
+	if len(o.m) < 32 {
+		o.m = o.m.Set(k, v)
+		return
+	}
+	if o.index == nil {
+		o.index = map[string]int{}
+		for i, kv := range o.m {
+			o.index[kv.K] = i
+		}
+	}
+	if i, ok := o.index[k]; ok {
+		o.m[i].V = v
+		return
+	}
+	o.index[k] = len(o.m)
+	o.m = append(o.m, AMFKv{k, v})
+}
+
 func (a AMFMap) MarshalJSON() ([]byte, error) {
 	var buf bytes.Buffer
 
@@ -407,7 +433,7 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		}
 
 	case objectmarker:
-		obj := AMFMap{}
+		obj := amfMembers{m: AMFMap{}}
 		for {
 			var length uint16
 			if length, err = pio.ReadU16BE(b, n); err != nil {
@@ -434,13 +460,13 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 				return
 			}
 
-			obj = obj.Set(okey, oval)
+			obj.set(okey, oval)
 		}
 		if _, err = pio.ReadU8(b, n); err != nil {
 			err = amfParseErr("object.end", b, *n, err)
 			return
 		}
-		val = obj
+		val = obj.m
 
 	case nullmarker:
 	case undefinedmarker:
@@ -451,7 +477,7 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 			return
 		}
 
-		obj := AMFMap{}
+		obj := amfMembers{m: AMFMap{}}
 		for {
 			var length uint16
 			if length, err = pio.ReadU16BE(b, n); err != nil {
@@ -474,13 +500,13 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 				return
 			}
 
-			obj = obj.Set(okey, oval)
+			obj.set(okey, oval)
 		}
 		if _, err = pio.ReadU8(b, n); err != nil {
 			err = amfParseErr("array.end", b, *n, err)
 			return
 		}
-		val = obj
+		val = obj.m
 
 	case objectendmarker:
 		if _, err = pio.ReadU24BE(b, n); err != nil {
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index c6af103..f4eb5a6 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -208,7 +208,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 
 	l = l >> 1
 	var k string
-	val = AMFMap{}
+	obj := amfMembers{m: AMFMap{}}
 	for {
 		k, err = readString(b, n)
 		if err != nil {
@@ -223,8 +223,9 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
-		val = val.Set(k, v)
+		obj.set(k, v)
 	}
+	val = obj.m
 	if l == 0 {
 		return
 	}
@@ -269,7 +270,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 		return
 	}
 
-	val = AMFMap{}
+	obj := amfMembers{m: AMFMap{}}
 
 	var k string
 	if l > len(b)-*n {
@@ -289,7 +290,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			if v, err = parseAMF3Val(depth, b, n); err != nil {
 				return
 			}
-			val = val.Set(keys[i], v)
+			obj.set(keys[i], v)
 		}
 	}
 	if isDynamic {
@@ -307,9 +308,10 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 				err = amfParseErr("array.val", b, *n, err)
 				return
 			}
-			val = val.Set(k, v)
+			obj.set(k, v)
 		}
 	}
+	val = obj.m
 	return
 }
 
-- 
2.43.0


From 8cc1d226891aa1fd898415eb6a69960b227ea74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 100/101] fix: rtmp: deliver a message whose last chunk is
 shorter than 4 bytes

When the extended timestamp of a continuation chunk may have been left
out, readChunk peeked 4 bytes to tell. If the chunk is shorter and
nothing follows, the complete message was lost or held back.
---
 format/rtmp/msg.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 1d59d43..232d064 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -484,11 +484,22 @@ func (c *Conn) readChunk() (msg *message, err error) {
 			}
 		} else {
 			if cs.hastimeext {
-				var b []byte
-				if b, err = c.wrapRW.Peek(4); err != nil {
-					return
+				// it may have been left out: look no further than needed to
+				// tell, because the chunk may be all there is to read
+				var ext [4]byte
+				pio.PutU32BE(ext[:], cs.timeext)
+				same := 0
+				for same < len(ext) {
+					var b []byte
+					if b, err = c.wrapRW.Peek(same + 1); err != nil {
+						return
+					}
+					if b[same] != ext[same] {
+						break
+					}
+					same++
 				}
-				if pio.U32BE(b) == cs.timeext {
+				if same == len(ext) {
 					if _, err = c.wrapRW.Read(b[:4]); err != nil {
 						return
 					}
-- 
2.43.0


From d1ce08454ba84c8a8c6486714a3a3d6120bd9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:26 +0000
Subject: [PATCH 101/101] fix: mp4: seek every stream of a file with several
 video tracks

SeekToTime positioned the first video stream and those that are not
video; a second video track stayed where it was, and its packets from
before the position were delivered first.
---
 format/mp4/demuxer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index ff49c5c..1bc9794 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -169,18 +169,20 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 	if err = self.probe(); err != nil {
 		return
 	}
+	var video *Stream
 	for _, stream := range self.streams {
 		if IsVideo(stream.cType) && stream.sampleCount() > 0 {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
 			tm = stream.time()
+			video = stream
 			break
 		}
 	}
 
 	for _, stream := range self.streams {
-		if !IsVideo(stream.cType) {
+		if stream != video {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-- 
2.43.0

