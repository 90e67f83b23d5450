From ddbb445c9a5b756454330f9f8610c361213f7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 01/78] fix: encode the follows flag of request frames

---
 internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index f9095c1..a8b4ddc 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -72,6 +72,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	payload := buf
 	metadataLen := uint32(len(f.Metadata))
 	var flags FrameFlag
+	if f.Follows {
+		flags |= FlagFollow
+	}
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
-- 
2.43.0


From 43145724c078910e67a88cbd521cd027978f555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 02/78] fix: count the resume token once in the setup frame
 size

---
 internal/frames/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index cc24bf7..7afef06 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -142,7 +142,7 @@ func (f *Setup) Size() uint32 {
 
 	metadataLen := uint32(len(f.Metadata))
 	tokenLen := uint32(len(f.Token))
-	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
+	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.MimeMetadata)+len(f.MimeData))
 	if tokenLen > 0 {
 		size += 2
 	}
-- 
2.43.0


From b0120217133b3a38dcdb8da73e77147ab0e30bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 03/78] fix: do not truncate setup intervals before converting
 to milliseconds

---
 internal/frames/setup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index 7afef06..b22955b 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -103,8 +103,8 @@ func (f *Setup) Encode(buf []byte) {
 
 	binary.BigEndian.PutUint16(payload, f.MajorVersion)
 	binary.BigEndian.PutUint16(payload[2:], f.MinorVersion)
-	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive)/uint32(time.Millisecond))
-	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime)/uint32(time.Millisecond))
+	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive/time.Millisecond))
+	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime/time.Millisecond))
 
 	payload = payload[12:]
 
-- 
2.43.0


From 66d2d9cdb15ff1de2a9e6dcb5f0e4e86c759eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 04/78] fix: setup decode offsets must not wrap for long tokens
 and mime types

---
 internal/frames/setup.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index b22955b..ab0a487 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -44,16 +44,16 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
-		tokenLength := binary.BigEndian.Uint16(data)
+		tokenLength := int(binary.BigEndian.Uint16(data))
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
-	metadataMimeLength := data[0]
+	metadataMimeLength := int(data[0])
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
-	dataMimeLength := data[0]
+	dataMimeLength := int(data[0])
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
-- 
2.43.0


From e895943270a869a2992c3a30b9dc6f7bff2981d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 05/78] fix: report truncated frames as errors instead of
 panicking

---
 internal/frames/error.go           |  4 ++++
 internal/frames/payload.go         |  7 +++++++
 internal/frames/request_n.go       |  4 ++++
 internal/frames/request_payload.go | 10 ++++++++++
 internal/frames/setup.go           | 29 +++++++++++++++++++++++++++++
 5 files changed, 54 insertions(+)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index f6966b6..6884265 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -2,6 +2,7 @@ package frames
 
 import (
 	"encoding/binary"
+	"io"
 )
 
 // https://rsocket.io/about/protocol#error-frame-0x0b
@@ -21,6 +22,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return io.ErrUnexpectedEOF
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/internal/frames/payload.go b/internal/frames/payload.go
index 6a6b18b..97a48a2 100644
--- a/internal/frames/payload.go
+++ b/internal/frames/payload.go
@@ -2,6 +2,7 @@ package frames
 
 import (
 	"encoding/binary"
+	"io"
 )
 
 // https://rsocket.io/about/protocol#payload-frame-0x0a
@@ -32,10 +33,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return io.ErrUnexpectedEOF
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if len(payload) < int(mdLength) {
+			return io.ErrUnexpectedEOF
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/internal/frames/request_n.go b/internal/frames/request_n.go
index 636df9d..d9bbff3 100644
--- a/internal/frames/request_n.go
+++ b/internal/frames/request_n.go
@@ -2,6 +2,7 @@ package frames
 
 import (
 	"encoding/binary"
+	"io"
 )
 
 // https://rsocket.io/about/protocol#request_n-frame-0x08
@@ -20,6 +21,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return io.ErrUnexpectedEOF
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index a8b4ddc..b8212a2 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -2,6 +2,7 @@ package frames
 
 import (
 	"encoding/binary"
+	"io"
 
 	"golang.org/x/exp/constraints"
 )
@@ -38,6 +39,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return io.ErrUnexpectedEOF
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +51,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return io.ErrUnexpectedEOF
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if len(payload) < int(mdLength) {
+			return io.ErrUnexpectedEOF
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index ab0a487..61fc99c 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -2,6 +2,7 @@ package frames
 
 import (
 	"encoding/binary"
+	"io"
 	"time"
 )
 
@@ -35,6 +36,10 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	lease := flags.Check(FlagLease)
 	var metadata []byte
 
+	if len(payload) < 12 {
+		return io.ErrUnexpectedEOF
+	}
+
 	major := binary.BigEndian.Uint16(payload)
 	minor := binary.BigEndian.Uint16(payload[2:])
 	timeBetweenKeepalive := time.Millisecond * time.Duration(binary.BigEndian.Uint32(payload[4:]))
@@ -44,25 +49,49 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
+		if len(data) < 2 {
+			return io.ErrUnexpectedEOF
+		}
 		tokenLength := int(binary.BigEndian.Uint16(data))
+		if len(data) < 2+tokenLength {
+			return io.ErrUnexpectedEOF
+		}
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
+	if len(data) < 1 {
+		return io.ErrUnexpectedEOF
+	}
 	metadataMimeLength := int(data[0])
+	if len(data) < 1+metadataMimeLength {
+		return io.ErrUnexpectedEOF
+	}
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
+	if len(data) < 1 {
+		return io.ErrUnexpectedEOF
+	}
 	dataMimeLength := int(data[0])
+	if len(data) < 1+dataMimeLength {
+		return io.ErrUnexpectedEOF
+	}
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
 
 	if hasMetadata {
+		if len(data) < 3 {
+			return io.ErrUnexpectedEOF
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], data[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		data = data[3:]
+		if len(data) < int(mdLength) {
+			return io.ErrUnexpectedEOF
+		}
 		metadata = data[:mdLength]
 		payload = data[mdLength:]
 	}
-- 
2.43.0


From 4bc8b35de18d33983710904b3651d6ac8c12252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 06/78] fix: reject truncated operation tables instead of
 panicking

---
 operations/operatons.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/operations/operatons.go b/operations/operatons.go
index bca2fb2..656e9e9 100644
--- a/operations/operatons.go
+++ b/operations/operatons.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"io"
 	"strconv"
 )
 
@@ -64,6 +65,9 @@ var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
 
 func FromBytes(buf []byte) (Table, error) {
+	if len(buf) < 10 {
+		return nil, io.ErrUnexpectedEOF
+	}
 	if !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
@@ -76,18 +80,31 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	// Every operation takes at least 12 bytes.
+	if int64(numOps)*12 > int64(len(buf)) {
+		return nil, io.ErrUnexpectedEOF
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, io.ErrUnexpectedEOF
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
+		nsLen := int(binary.BigEndian.Uint16(buf[6:8]))
 		buf = buf[8:]
+		if len(buf) < nsLen+2 {
+			return nil, io.ErrUnexpectedEOF
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
+		opLen := int(binary.BigEndian.Uint16(buf[0:2]))
 		buf = buf[2:]
+		if len(buf) < opLen+2 {
+			return nil, io.ErrUnexpectedEOF
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -97,7 +114,10 @@ func FromBytes(buf []byte) (Table, error) {
 			Namespace: ns,
 			Operation: op,
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
+		reservedLen := int(binary.BigEndian.Uint16(buf))
+		if len(buf) < 2+reservedLen {
+			return nil, io.ErrUnexpectedEOF
+		}
 		buf = buf[2+reservedLen:] // Reserved
 	}
 
-- 
2.43.0


From e1968b1781c3d72a9c72009f326b686adb723633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 07/78] fix: give the port io flags distinct bits

---
 invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index 0f787ce..44e7e80 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -71,7 +71,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From f17fdaf13008fecc027df1a0614c9afe8b994906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 08/78] fix: report truncated port io messages as errors

---
 invoke/portio.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index 44e7e80..537bd29 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -2,6 +2,7 @@ package invoke
 
 import (
 	"encoding/binary"
+	"io"
 	"strings"
 )
 
@@ -13,12 +14,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return io.ErrUnexpectedEOF
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
-	portLength := binary.BigEndian.Uint16(data)
+	portLength := int(binary.BigEndian.Uint16(data))
 	data = data[2:]
+	if len(data) < portLength {
+		return io.ErrUnexpectedEOF
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From 040552eb8fe9eee7cd3de761d068584e2070381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 09/78] fix: deliver frames that arrive together with the end
 of the stream and report truncated tails

---
 transport/rsocket/decoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index 7e9be2e..f521844 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -42,10 +42,10 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
+		if eof && len(data) > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 	frameLength := u24.ReadUint24ToInt(data)
@@ -57,6 +57,9 @@ func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
 	if frameSize <= len(data) {
 		return frameSize, data[:frameSize], nil
 	}
+	if eof {
+		err = io.ErrUnexpectedEOF
+	}
 	return
 }
 
-- 
2.43.0


From 610a7d7567147f74303d166ca2bd2080f72a6330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 10/78] fix: skip stream id zero when server stream ids wrap

---
 internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/socket/stream_id.go b/internal/socket/stream_id.go
index 974ab23..62bfc54 100644
--- a/internal/socket/stream_id.go
+++ b/internal/socket/stream_id.go
@@ -21,8 +21,8 @@ func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
 	v := 2 * seed
-	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+	if id := uint32(_maskStreamID & v); id != 0 {
+		return id, seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 8a47b7adec5ce9d4f7315d975170eab4536b51a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 11/78] fix: msgpack bounds check must not wrap for large
 lengths

---
 msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From 7a2171985dafaa9839805c23ee93963d0828166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 12/78] fix: size 255 byte msgpack binaries like the encoder
 writes them

---
 msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index ad88b50..8964498 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -118,7 +118,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 586e837f3ce31bd4c6340b9a4b458aac7145b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 13/78] fix: WriteAny wrote nil twice

---
 msgpack/encoder.go | 3 ---
 msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 634bf9c..391570a 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -315,9 +315,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 8964498..e7c3b0a 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -279,9 +279,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From bfdb7ea8bbe77059a31fd5a480cad1676a8d5ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 14/78] fix: encode times in WriteAny as the sizer sizes them

---
 msgpack/encoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 391570a..5184784 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -348,6 +348,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -362,6 +364,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 73e2eb8d555db79663817388efe35a0622ad14f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 15/78] fix: report errors of codecs written with WriteAny

---
 msgpack/encoder.go |  4 +++-
 msgpack/sizer.go   | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 5184784..da817b4 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -319,7 +319,9 @@ func (e *Encoder) WriteAny(value any) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		if err := v.Encode(e); err != nil && e.reader.err == nil {
+			e.reader.err = err
+		}
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index e7c3b0a..3c6812f 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 // Ensure `*Sizer` implements `Writer`.
@@ -283,7 +284,7 @@ func (s *Sizer) WriteAny(value any) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		s.setErr(v.Encode(s))
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -490,6 +491,12 @@ func (s *Sizer) WriteAny(value any) {
 	}
 }
 
+func (s *Sizer) setErr(err error) {
+	if s.err == nil {
+		s.err = err
+	}
+}
+
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From 3d4294992b9cd17606f39bc2f98563e21d767c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 16/78] fix: WriteAny reports values it cannot encode

---
 msgpack/data_reader.go | 3 +++
 msgpack/encoder.go     | 4 ++++
 msgpack/sizer.go       | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index eb2c84b..84ae85a 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -8,6 +8,9 @@ import (
 
 var ErrRange = errors.New("range error")
 
+// ErrUnsupportedType is reported by WriteAny for values it cannot encode.
+var ErrUnsupportedType = errors.New("unsupported type")
+
 type DataReader struct {
 	buffer     []byte
 	byteOffset uint32
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index da817b4..093f331 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -525,6 +525,10 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		if e.reader.err == nil {
+			e.reader.err = ErrUnsupportedType
+		}
 	}
 }
 
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 3c6812f..5be0d6d 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -488,6 +488,8 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.setErr(ErrUnsupportedType)
 	}
 }
 
-- 
2.43.0


From bb71a111b82a3c12ca7dee266c755f429c85bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 17/78] fix: skip extensions and large maps exactly and report
 truncated values

---
 msgpack/decoder.go | 114 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 86 insertions(+), 28 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 02b0b29..a99ca3a 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -593,37 +593,34 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
-	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+	for remaining := uint64(1); remaining > 0; {
+		numberOfObjectsToDiscard, err := d.getSize()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		remaining += numberOfObjectsToDiscard - 1
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
+	var objectsToDiscard uint64 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
 		// Noop, will just discard the leadbyte
 	} else if isFixedString(leadByte) {
 		strLen := uint32(leadByte & 0x1f)
-		d.reader.Discard(strLen)
+		if err := d.reader.Discard(strLen); err != nil {
+			return 0, err
+		}
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		objectsToDiscard = uint64(leadByte & FormatFourLeastSigBitsInByte)
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
+		objectsToDiscard = 2 * uint64(leadByte&FormatFourLeastSigBitsInByte)
 	} else {
 		switch leadByte {
 		case FormatNil, FormatTrue, FormatFalse:
@@ -655,51 +652,112 @@ func (d *Decoder) getSize() (uint32, error) {
 				return 0, err
 			}
 		case FormatFloat32:
-			d.reader.Discard(4)
+			if err := d.reader.Discard(4); err != nil {
+				return 0, err
+			}
 		case FormatFloat64:
-			d.reader.Discard(8)
+			if err := d.reader.Discard(8); err != nil {
+				return 0, err
+			}
 		case FormatUint8, FormatInt8:
-			d.reader.Discard(1)
+			if err := d.reader.Discard(1); err != nil {
+				return 0, err
+			}
 		case FormatUint16, FormatInt16:
-			d.reader.Discard(2)
+			if err := d.reader.Discard(2); err != nil {
+				return 0, err
+			}
 		case FormatUint32, FormatInt32:
-			d.reader.Discard(4)
+			if err := d.reader.Discard(4); err != nil {
+				return 0, err
+			}
 		case FormatUint64, FormatInt64:
-			d.reader.Discard(8)
+			if err := d.reader.Discard(8); err != nil {
+				return 0, err
+			}
 		case FormatFixExt1:
-			d.reader.Discard(1)
+			if err := d.reader.Discard(2); err != nil {
+				return 0, err
+			}
 		case FormatFixExt2:
-			d.reader.Discard(3)
+			if err := d.reader.Discard(3); err != nil {
+				return 0, err
+			}
 		case FormatFixExt4:
-			d.reader.Discard(5)
+			if err := d.reader.Discard(5); err != nil {
+				return 0, err
+			}
 		case FormatFixExt8:
-			d.reader.Discard(9)
+			if err := d.reader.Discard(9); err != nil {
+				return 0, err
+			}
 		case FormatFixExt16:
-			d.reader.Discard(17)
+			if err := d.reader.Discard(17); err != nil {
+				return 0, err
+			}
+		case FormatExt8:
+			length, err := d.reader.GetUint8()
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(1)
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(uint32(length))
+			if err != nil {
+				return 0, err
+			}
+		case FormatExt16:
+			length, err := d.reader.GetUint16()
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(1)
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(uint32(length))
+			if err != nil {
+				return 0, err
+			}
+		case FormatExt32:
+			length, err := d.reader.GetUint32()
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(1)
+			if err != nil {
+				return 0, err
+			}
+			err = d.reader.Discard(length)
+			if err != nil {
+				return 0, err
+			}
 		case FormatArray16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = uint32(v)
+			objectsToDiscard = uint64(v)
 		case FormatArray32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = v
+			objectsToDiscard = uint64(v)
 		case FormatMap16:
 			v, err := d.reader.GetUint16()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * uint32(v)
+			objectsToDiscard = 2 * uint64(v)
 		case FormatMap32:
 			v, err := d.reader.GetUint32()
 			if err != nil {
 				return 0, err
 			}
-			objectsToDiscard = 2 * v
+			objectsToDiscard = 2 * uint64(v)
 		default:
 			return 0, ReadError{"bad prefix"}
 		}
-- 
2.43.0


From b35f7b1230b17d40008cf22db08bc72881a3c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 18/78] fix: extension lengths are raw integers, not msgpack
 values

---
 msgpack/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index a99ca3a..7dab663 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -947,13 +947,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From adfd9529d3f036da1a2c9e61b89a34ceefe7525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 19/78] fix: report encoder errors from the ToBytes helpers

---
 msgpack/codec.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/msgpack/codec.go b/msgpack/codec.go
index 245a220..c435e97 100644
--- a/msgpack/codec.go
+++ b/msgpack/codec.go
@@ -50,7 +50,7 @@ func I8ToBytes(value int8) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteInt8(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // I16ToBytes creates a `[]byte` from `value`.
@@ -60,7 +60,7 @@ func I16ToBytes(value int16) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteInt16(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // I32ToBytes creates a `[]byte` from `value`.
@@ -70,7 +70,7 @@ func I32ToBytes(value int32) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteInt32(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // I64ToBytes creates a `[]byte` from `value`.
@@ -80,7 +80,7 @@ func I64ToBytes(value int64) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteInt64(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // U8ToBytes creates a `[]byte` from `value`.
@@ -90,7 +90,7 @@ func U8ToBytes(value uint8) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteUint8(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // U16ToBytes creates a `[]byte` from `value`.
@@ -100,7 +100,7 @@ func U16ToBytes(value uint16) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteUint16(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // U32ToBytes creates a `[]byte` from `value`.
@@ -110,7 +110,7 @@ func U32ToBytes(value uint32) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteUint32(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // U64ToBytes creates a `[]byte` from `value`.
@@ -120,7 +120,7 @@ func U64ToBytes(value uint64) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteUint64(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // F32ToBytes creates a `[]byte` from `value`.
@@ -130,7 +130,7 @@ func F32ToBytes(value float32) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteFloat32(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // F64ToBytes creates a `[]byte` from `value`.
@@ -140,7 +140,7 @@ func F64ToBytes(value float64) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteFloat64(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // BoolToBytes creates a `[]byte` from `value`.
@@ -150,7 +150,7 @@ func BoolToBytes(value bool) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteBool(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // StringToBytes creates a `[]byte` from `value`.
@@ -160,7 +160,7 @@ func StringToBytes(value string) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteString(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // BytesToBytes creates a `[]byte` from `value`.
@@ -170,7 +170,7 @@ func BytesToBytes(value []byte) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteByteArray(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 // TimeToBytes creates a `[]byte` from `value`.
@@ -180,7 +180,7 @@ func TimeToBytes(value time.Time) ([]byte, error) {
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	encoder.WriteTime(value)
-	return buffer, nil
+	return buffer, encoder.Err()
 }
 
 func SliceToBytes[T any](values []T, valF func(Writer, T)) ([]byte, error) {
-- 
2.43.0


From 2f4aa5607fb258d2f669e7a48871dd0d8ea4e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 20/78] fix: report codec errors when encoding a payload

---
 transform/transform.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 886125c..52210e1 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -325,10 +325,14 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
 	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
+	if err := value.Encode(&sizer); err != nil {
+		return nil, err
+	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	if err := value.Encode(&encoder); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From 460db9f4aaaefa70475d8d1b1d6d3044674fa290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 21/78] fix: nillable conversions must not dereference nil

---
 msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msgpack/convert/convert.go b/msgpack/convert/convert.go
index 455fc93..9a26284 100644
--- a/msgpack/convert/convert.go
+++ b/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From 2e8c4d110d7dd8de828ab4f98368fb58652dba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 22/78] fix: count skipped objects without wrapping

---
 msgpack/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 7dab663..00543e0 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -598,7 +598,7 @@ func (d *Decoder) Skip() error {
 		if err != nil {
 			return err
 		}
-		remaining += numberOfObjectsToDiscard - 1
+		remaining = remaining - 1 + numberOfObjectsToDiscard
 	}
 	return nil
 }
-- 
2.43.0


From 8fcfeaaee2f8acb031cb513ccea76f56ee54e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 23/78] fix: hostile msgpack lengths, nesting and map keys must
 not crash ReadAny

---
 msgpack/data_reader.go |  5 ++++
 msgpack/decoder.go     | 66 ++++++++++++++++++++++++++----------------
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 84ae85a..3cd7281 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -239,6 +239,11 @@ func (d *DataReader) SetUint64(value uint64) error {
 	return nil
 }
 
+// remaining returns the number of bytes that have not been read.
+func (d *DataReader) remaining() uint64 {
+	return uint64(len(d.buffer)) - uint64(d.byteOffset)
+}
+
 func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 00543e0..d0fdaea 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -7,8 +7,12 @@ import (
 	"time"
 )
 
+// maxDepth limits how deeply dynamic values may be nested.
+const maxDepth = 10000
+
 type Decoder struct {
 	reader DataReader
+	depth  int
 }
 
 // Ensure `*Decoder` implements `Reader`.
@@ -783,16 +787,12 @@ func (d *Decoder) ReadAny() (any, error) {
 
 	if isFixedArray(prefix) {
 		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(aryLen)
 	}
 
 	if isFixedMap(prefix) {
 		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(mapLen)
 	}
 
 	switch prefix {
@@ -836,33 +836,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -886,30 +878,54 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad value for bool"}
 }
 
-func (d *Decoder) readArray(array []any) error {
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	// Every element takes at least one byte.
+	if uint64(length) > d.reader.remaining() {
+		return nil, ErrRange
+	}
+	if d.depth >= maxDepth {
+		return nil, ReadError{"value is nested too deeply"}
+	}
+	d.depth++
+	defer func() { d.depth-- }()
+	array := make([]any, length)
 	for i := 0; i < len(array); i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return array, err
 		}
 		array[i] = value
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (map[any]any, error) {
+	// Every key and every value takes at least one byte.
+	if 2*uint64(length) > d.reader.remaining() {
+		return nil, ErrRange
+	}
+	if d.depth >= maxDepth {
+		return nil, ReadError{"value is nested too deeply"}
+	}
+	d.depth++
+	defer func() { d.depth-- }()
+	m := make(map[any]any, length)
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return m, err
+		}
+		switch key.(type) {
+		case []any, map[any]any, []byte:
+			return m, ReadError{"bad type for map key"}
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return m, err
 		}
 		m[key] = value
 	}
-	return nil
+	return m, nil
 }
 
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
-- 
2.43.0


From 180bc65a45675e5cc2af1d9c51e158043177e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 24/78] fix: do not preallocate from untrusted msgpack sizes

---
 msgpack/utils.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/msgpack/utils.go b/msgpack/utils.go
index e553ab7..86c3313 100644
--- a/msgpack/utils.go
+++ b/msgpack/utils.go
@@ -18,7 +18,7 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	if err != nil {
 		return nil, err
 	}
-	request := make([]T, 0, listSize)
+	request := make([]T, 0, prealloc(listSize))
 	for listSize > 0 {
 		listSize--
 		item, err := valF(reader)
@@ -50,7 +50,7 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 	if err != nil {
 		return nil, err
 	}
-	m := make(map[K]V, mapSize)
+	m := make(map[K]V, prealloc(mapSize))
 	for mapSize > 0 {
 		mapSize--
 		key, err := keyF(reader)
@@ -66,3 +66,12 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 
 	return m, nil
 }
+
+// prealloc limits how much is allocated from a size read from the wire
+// before the elements have been read.
+func prealloc(size uint32) uint32 {
+	if size > 4096 {
+		return 4096
+	}
+	return size
+}
-- 
2.43.0


From 705fbd41fa71dcd55039e9ed9489d353656dea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 25/78] fix: report writer errors after encoding with a codec

---
 msgpack/codec.go       | 3 +++
 transform/transform.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msgpack/codec.go b/msgpack/codec.go
index c435e97..7c370a9 100644
--- a/msgpack/codec.go
+++ b/msgpack/codec.go
@@ -24,6 +24,9 @@ func ToBytes(codec Codec) ([]byte, error) {
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
diff --git a/transform/transform.go b/transform/transform.go
index 52210e1..66dd9a3 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -333,6 +333,9 @@ func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
 	if err := value.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From a08b9228f0ea2961546f2570c5581b96e9a9f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 26/78] fix: look up streams while holding the table's lock

---
 proxy/lookup.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index b5e4791..4c92353 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -33,6 +33,9 @@ func (l *Lookup) IsEmpty() bool {
 }
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
-- 
2.43.0


From 524d4e0735a83da8aeabaa0291c7891657d4333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 27/78] fix: forget the first and last stream of the table when
 removed

---
 proxy/lookup.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index 4c92353..431365e 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -79,10 +79,14 @@ func (l *Lookup) Remove(id uint32) {
 	nextNode := nodeToDelete.next
 
 	if prevNode != nil {
-		prevNode.next = nodeToDelete.next
+		prevNode.next = nextNode
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
-		nextNode.prev = nodeToDelete.prev
+		nextNode.prev = prevNode
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 6d6362161661af5c4ce646f3e8ad10d286e3c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 28/78] fix: guard the tcp server's listener and acceptor with
 its lock

---
 transport/rsocket/tcp_transport.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 26dfd57..faea458 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -52,12 +52,15 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	t.mu.Lock()
+	t.l = l
+	t.mu.Unlock()
 
 	defer func() {
 		_ = t.Close()
@@ -79,7 +82,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -100,7 +103,10 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 			go tp.Start(ctx)
 			go func() {
 				tp.WaitUntilReady()
-				t.acceptor(ctx, h, func(tp *Transport) {
+				t.mu.Lock()
+				acceptor := t.acceptor
+				t.mu.Unlock()
+				acceptor(ctx, h, func(tp *Transport) {
 					t.removeTransport(tp)
 				})
 			}()
-- 
2.43.0


From d416788cb9161b982fa5edfc8f361d164060a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 29/78] fix: run the finally callback of just and error monos

---
 rx/mono/mono.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 349978373e9878d5d92678667b543310769b5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 30/78] fix: signal an error when a mono mapper fails

---
 rx/mono/mono.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 047ccc6..6eb37a7 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -215,10 +215,21 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
+	finally := sub.Finally
+	if finally != nil {
+		finally = func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			sub.Finally(signal)
+		}
+	}
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -230,7 +241,7 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally:   finally,
 	})
 	return b
 }
-- 
2.43.0


From bd049d2f6c5ded286c9420c86946c48c8b9c76e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 31/78] fix: keep the first outcome of a mono processor

---
 rx/mono/processor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index a7bb35d..e0096d0 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -8,6 +8,7 @@ type Processor[T any] interface {
 type ProcessorImpl[T any] struct {
 	Mono[T]
 	sink    Sink[T]
+	done    bool
 	success *T
 	err     error
 }
@@ -18,7 +19,7 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 		p.sink = sink
 		if p.success != nil {
 			sink.Success(*p.success)
-		} else if p.err != nil {
+		} else if p.done {
 			sink.Error(p.err)
 		}
 	})
@@ -29,7 +30,8 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 func (p *ProcessorImpl[T]) Success(value T) {
 	if p.sink != nil {
 		p.sink.Success(value)
-	} else {
+	} else if !p.done {
+		p.done = true
 		p.success = &value
 	}
 }
@@ -37,7 +39,8 @@ func (p *ProcessorImpl[T]) Success(value T) {
 func (p *ProcessorImpl[T]) Error(err error) {
 	if p.sink != nil {
 		p.sink.Error(err)
-	} else {
+	} else if !p.done {
+		p.done = true
 		p.err = err
 	}
 }
-- 
2.43.0


From 4c93ae2a66abd8612d175c38d4efc9c23d14e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 32/78] fix: run the finally callback of error fluxes

---
 rx/flux/flux.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 864f7e5..36c7efb 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
-- 
2.43.0


From a54a231684b7ee3f33285a2e000e735696944c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 33/78] fix: cancel a flux subscription only once and notify
 its awaiters

---
 rx/flux/flux.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 36c7efb..59580a1 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -203,13 +203,14 @@ func (s *subscriber[T]) Request(n int) {
 }
 
 func (s *subscriber[T]) Cancel() {
+	if s.closed {
+		return
+	}
 	s.closed = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-- 
2.43.0


From 649f8f85dcb3f669f2afbc60f234d65a52570570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 34/78] fix: end a mapped flux when its mapper fails

---
 rx/flux/flux.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 59580a1..691e4a0 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -229,32 +229,45 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	failed := false
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			if failed {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
 				if sub.Finally != nil {
 					sub.Finally(rx.SignalError)
 				}
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
+				}
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		OnComplete: func() {
+			if !failed && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if !failed && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
+		Finally: func(signal rx.SignalType) {
+			if !failed && sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
-- 
2.43.0


From 0c66d3302471d20042abd5f53be8571ba49bc85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 35/78] fix: blocking on an unsubscribed flux must not
 dereference nil

---
 rx/flux/flux_host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index bdf98f5..fca9dd0 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -26,7 +26,7 @@ func (s *subscriber[T]) doRequest(n int) {
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	if f.subscriber != nil && f.subscriber.closed {
 		return f.subscriber.err
 	}
 
-- 
2.43.0


From 2252a39fc0716aa9c219176241d7f6aa1e27d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 36/78] fix: end the mono of a flux that completes without a
 value

---
 transform/transform.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 66dd9a3..6be392c 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -1,6 +1,7 @@
 package transform
 
 import (
+	"errors"
 	"time"
 
 	"golang.org/x/exp/constraints"
@@ -517,12 +518,18 @@ func FluxToVoid[T any](f flux.Flux[T]) mono.Void {
 	})
 }
 
+// ErrNoValue is the error of a Mono made from a Flux that completes empty.
+var ErrNoValue = errors.New("flux completed without a value")
+
 func FluxToMono[T any](f flux.Flux[T]) mono.Mono[T] {
 	return mono.Create(func(sink mono.Sink[T]) {
 		f.Subscribe(flux.Subscribe[T]{
 			OnNext: func(val T) {
 				sink.Success(val)
 			},
+			OnComplete: func() {
+				sink.Error(ErrNoValue)
+			},
 			OnError: func(err error) {
 				sink.Error(err)
 			},
-- 
2.43.0


From a62bdcf4499966af540136b21b513210ffa4a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 37/78] fix: a flow step that awaits something already done
 must not run again

---
 rx/flow/flow.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index 874f617..c2017ba 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -91,6 +91,7 @@ func (f *Flow[T]) next() {
 
 	f.completed = 0
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
 		if f.monoSink != nil {
@@ -110,8 +111,6 @@ func (f *Flow[T]) next() {
 		a.Async() // Ensure task is running.
 		a.Notify(f.check)
 	}
-
-	f.steps = f.steps[1:]
 }
 
 func (f *Flow[T]) check(rx.SignalType) {
-- 
2.43.0


From 99747dd7d20b46d62af578551ab53a54bbbfba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 38/78] fix: count the completed awaitables of a flow step
 atomically

---
 rx/flow/flow.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index c2017ba..c51a6bb 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -14,7 +16,7 @@ type (
 		fluxSink flux.Sink[T]
 
 		ended      bool
-		completed  int
+		completed  int32
 		awaitables []await.Awaitable
 	}
 
@@ -89,7 +91,7 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.completed = 0
+	atomic.StoreInt32(&f.completed, 0)
 	step := f.steps[0]
 	f.steps = f.steps[1:]
 	awaitables, err := step()
@@ -114,8 +116,7 @@ func (f *Flow[T]) next() {
 }
 
 func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
+	if atomic.AddInt32(&f.completed, 1) == int32(len(f.awaitables)) {
 		f.next()
 	}
 }
-- 
2.43.0


From fd63bc36e8f6d4359b66a1a5e17bf4e7047f6ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 39/78] fix: an unsubscribed flux has no subscription

---
 rx/flux/flux.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 691e4a0..46fc86f 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -96,6 +96,9 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	if f.subscriber == nil {
+		return nil
+	}
 	return f.subscriber
 }
 
-- 
2.43.0


From c45676dab32bedabb6ddd45f7d0aff2d0351180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 40/78] fix: count the awaitables of each flow step separately

---
 rx/flow/flow.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index c51a6bb..6c17479 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -15,9 +15,7 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int32
-		awaitables []await.Awaitable
+		ended bool
 	}
 
 	StepFn func() (await.Group, error)
@@ -91,7 +89,6 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	atomic.StoreInt32(&f.completed, 0)
 	step := f.steps[0]
 	f.steps = f.steps[1:]
 	awaitables, err := step()
@@ -108,15 +105,16 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
+	// Counted per step: a late notification must not be
+	// compared with the awaitables of the following step.
+	remaining := int32(len(awaitables))
+	check := func(rx.SignalType) {
+		if atomic.AddInt32(&remaining, -1) == 0 {
+			f.next()
+		}
 	}
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	if atomic.AddInt32(&f.completed, 1) == int32(len(f.awaitables)) {
-		f.next()
+	for _, a := range awaitables {
+		a.Async() // Ensure task is running.
+		a.Notify(check)
 	}
 }
-- 
2.43.0


From 3fc7c641d35c4d55ab3edec0fc6a90fa042b73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:03 +0000
Subject: [PATCH 41/78] fix: send the metadata of a fragmented request once

---
 internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index b8212a2..05a1027 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -171,6 +171,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From 9b30004e13382d4e0982f56688b2b6907bb68f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 42/78] fix: accept an empty custom section at the end of a
 module

---
 transport/wasmrs/customsections/customsections.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 480e332..9ef2321 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -123,7 +123,7 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	_, err = io.ReadFull(r, buf)
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From dce7336562f06498cac8bcf23d48286749969b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 43/78] fix: ignore a request-n frame for a stream that takes
 none

---
 handler/handler.go                | 5 +++--
 transport/wasmrs/guest/guest.go   | 5 +++--
 transport/wasmrs/host/instance.go | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 73cb055..3c9f31b 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -168,8 +168,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
 		str.OnComplete()
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6e7218a..f04092e 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -176,8 +176,9 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
 			str.OnComplete()
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 93dd935..34227c2 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -316,8 +316,9 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
 		str.OnComplete()
-- 
2.43.0


From dc834a280e4e1dfe42906221cc26b88b411b672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 44/78] fix: ignore a request-n frame when there is no input to
 request from

---
 proxy/flux.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proxy/flux.go b/proxy/flux.go
index 6f0f588..c39bd11 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -122,8 +122,12 @@ func (s *streamFlux) Cancel() {
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	if s.in == nil {
+		return
+	}
+	if sub := s.in.Subscription(); sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
-- 
2.43.0


From 92d4b2fbd164e3d58612418b6c70696770335003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 45/78] fix: a frame for a served stream without subscription
 or input no longer crashes

---
 handler/handler.go                | 52 ++++++++++++++++++++++++++-----
 transport/wasmrs/guest/guest.go   | 18 ++++++++---
 transport/wasmrs/host/instance.go | 51 +++++++++++++++++++++++++-----
 3 files changed, 100 insertions(+), 21 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 3c9f31b..2d414c8 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -343,7 +344,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 		NoRequest: true,
 	})
 	sub := f.Subscription()
-	s.sub = sub
+	s.setSubscription(sub)
 	s.Request(int(initialN))
 }
 
@@ -366,7 +367,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	s := requestStream{streamID: streamID}
 	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
+		s.setInput(sink)
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.sendFrame(&frames.RequestN{
@@ -406,7 +407,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 		NoRequest: true,
 	})
 	sub := f.Subscription()
-	s.sub = sub
+	s.setSubscription(sub)
 	s.Request(int(initialN))
 }
 
@@ -691,6 +692,9 @@ type requestStream struct {
 	ctx      context.Context
 	streamID uint32
 	flux.Sink[payload.Payload]
+
+	// The handler sets these while frames for the stream may already arrive.
+	mu   sync.Mutex
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
 }
@@ -705,22 +709,54 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
+func (r *requestStream) setSubscription(sub rx.Subscription) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.sub = sub
+}
+
+func (r *requestStream) subscription() rx.Subscription {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.sub
+}
+
+func (r *requestStream) setInput(sink flux.Sink[payload.Payload]) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.sink = sink
+}
+
+func (r *requestStream) input() flux.Sink[payload.Payload] {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.sink
+}
+
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	if sub := r.subscription(); sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.Request(n)
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	if sink := r.input(); sink != nil {
+		sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if sink := r.input(); sink != nil {
+		sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if sink := r.input(); sink != nil {
+		sink.Error(err)
+	}
 }
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index f04092e..3dc97eb 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -556,23 +556,31 @@ func (r *requestStream) StreamID() uint32 {
 }
 
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	if r.sub != nil {
+		r.sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.Request(n)
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	if r.sink != nil {
+		r.sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if r.sink != nil {
+		r.sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if r.sink != nil {
+		r.sink.Error(err)
+	}
 }
 
 //go:inline
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 34227c2..1d8edc9 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -512,7 +512,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 		NoRequest: true,
 	})
 	sub := f.Subscription()
-	s.sub = sub
+	s.setSubscription(sub)
 	s.Request(int(initialN))
 }
 
@@ -542,7 +542,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	s := requestStream{streamID: streamID}
 	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
+		s.setInput(sink)
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.SendFrame(&frames.RequestN{
@@ -585,7 +585,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 		NoRequest: true,
 	})
 	sub := f.Subscription()
-	s.sub = sub
+	s.setSubscription(sub)
 	s.Request(int(initialN))
 }
 
@@ -679,6 +679,9 @@ type requestStream struct {
 	ctx      context.Context
 	streamID uint32
 	flux.Sink[payload.Payload]
+
+	// The handler sets these while frames for the stream may already arrive.
+	mu   sync.Mutex
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
 }
@@ -693,22 +696,54 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
+func (r *requestStream) setSubscription(sub rx.Subscription) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.sub = sub
+}
+
+func (r *requestStream) subscription() rx.Subscription {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.sub
+}
+
+func (r *requestStream) setInput(sink flux.Sink[payload.Payload]) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.sink = sink
+}
+
+func (r *requestStream) input() flux.Sink[payload.Payload] {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.sink
+}
+
 func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
+	if sub := r.subscription(); sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
+	r.Request(n)
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
+	if sink := r.input(); sink != nil {
+		sink.Next(p)
+	}
 }
 
 func (r *requestStream) OnComplete() {
-	r.sink.Complete()
+	if sink := r.input(); sink != nil {
+		sink.Complete()
+	}
 }
 
 func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
+	if sink := r.input(); sink != nil {
+		sink.Error(err)
+	}
 }
-- 
2.43.0


From 861084ff47a37f9c0d31e63abb2a24ec81fb0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 46/78] fix: do not keep the streams of fire-and-forget
 requests

---
 handler/handler.go              | 1 -
 transport/wasmrs/guest/guest.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 2d414c8..b80a6e5 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -295,7 +295,6 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 3dc97eb..c3c7253 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -313,7 +313,6 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 
 	p := payload.New(data, metadata[8:])
 	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p)
 }
-- 
2.43.0


From 9cd92f52d1bbfb5f84a041f86dae0ae62ac97bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 47/78] fix: give the stream of a channel request its context

---
 handler/handler.go                | 2 +-
 transport/wasmrs/guest/guest.go   | 2 +-
 transport/wasmrs/host/instance.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index b80a6e5..641d729 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -363,7 +363,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID}
 	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		s.setInput(sink)
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index c3c7253..077984e 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -381,7 +381,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID}
 	registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		s.sink = sink
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 1d8edc9..0f3d380 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -539,7 +539,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID}
 	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
 		s.setInput(sink)
-- 
2.43.0


From 08566bd5e33c73fb2ce0d34ddb0dda5587a6526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 48/78] fix: register streams served by the wasm host

---
 transport/wasmrs/host/instance.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 0f3d380..1c579f3 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -485,6 +485,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 
 	p := payload.New(data, metadata)
 	s := requestStream{ctx: ctx, streamID: streamID}
+	i.registerStream(&s) // Need to register for RequestN frames
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-- 
2.43.0


From f4d5638d0d44aff73917d2de46cb487b2cc7142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 49/78] fix: forget served streams when they end

---
 handler/handler.go                | 6 ++++++
 transport/wasmrs/guest/guest.go   | 6 ++++++
 transport/wasmrs/host/instance.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/handler/handler.go b/handler/handler.go
index 641d729..b980022 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -340,6 +340,9 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			i.removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	sub := f.Subscription()
@@ -403,6 +406,9 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			i.removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	sub := f.Subscription()
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 077984e..165aed7 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -358,6 +358,9 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	sub := f.Subscription()
@@ -421,6 +424,9 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 				Data:     err.Error(),
 			})
 		},
+		Finally: func(rx.SignalType) {
+			removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	sub := f.Subscription()
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 1c579f3..46e257e 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -510,6 +510,9 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			})
 			i.reduceActiveRequests()
 		},
+		Finally: func(rx.SignalType) {
+			i.removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	sub := f.Subscription()
@@ -583,6 +586,9 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			})
 			i.reduceActiveRequests()
 		},
+		Finally: func(rx.SignalType) {
+			i.removeStream(streamID)
+		},
 		NoRequest: true,
 	})
 	sub := f.Subscription()
-- 
2.43.0


From 3c2169d9a74f5f1bbfdf436d0e1da7c2b42a2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 50/78] fix: ignore frames for streams that have ended instead
 of closing the connection

---
 handler/handler.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index b980022..b615843 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -116,10 +115,8 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream has ended or was never opened. Frames the peer
+			// sent before it knew must not end the connection.
 			return
 		}
 	}
-- 
2.43.0


From 22bd18c4f10a52617a43dae5c0133ad82a415e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 51/78] fix: cancel the handler's stream when a cancel frame
 arrives

---
 handler/handler.go                | 14 ++++++++++++++
 transport/wasmrs/guest/guest.go   | 14 ++++++++++++++
 transport/wasmrs/host/instance.go | 14 ++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/handler/handler.go b/handler/handler.go
index b615843..840f675 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -171,6 +171,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		}
 
 	case *frames.Cancel:
+		if s, ok := str.(DoCancel); ok {
+			s.DoCancel()
+		}
 		str.OnComplete()
 		i.removeStream(streamID)
 
@@ -690,6 +693,10 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type DoCancel interface {
+	DoCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
@@ -745,6 +752,13 @@ func (r *requestStream) DoRequest(n int) {
 	r.Request(n)
 }
 
+// DoCancel stops the handler's stream; the requester wants no more of it.
+func (r *requestStream) DoCancel() {
+	if sub := r.subscription(); sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (r *requestStream) OnNext(p payload.Payload) {
 	if sink := r.input(); sink != nil {
 		sink.Next(p)
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 165aed7..50be11b 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -181,6 +181,9 @@ func GuestSend(endPos uint32) {
 			}
 
 		case frames.FrameTypeCancel:
+			if s, ok := str.(DoCancel); ok {
+				s.DoCancel()
+			}
 			str.OnComplete()
 			removeStream(header.StreamID())
 
@@ -542,6 +545,10 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type DoCancel interface {
+	DoCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
@@ -570,6 +577,13 @@ func (r *requestStream) DoRequest(n int) {
 	r.Request(n)
 }
 
+// DoCancel stops the handler's stream; the requester wants no more of it.
+func (r *requestStream) DoCancel() {
+	if sub := r.sub; sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (r *requestStream) OnNext(p payload.Payload) {
 	if r.sink != nil {
 		r.sink.Next(p)
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 46e257e..48c9890 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -321,6 +321,9 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 	case frames.FrameTypeCancel:
+		if s, ok := str.(DoCancel); ok {
+			s.DoCancel()
+		}
 		str.OnComplete()
 		i.removeStream(header.StreamID())
 
@@ -682,6 +685,10 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
+type DoCancel interface {
+	DoCancel()
+}
+
 type requestStream struct {
 	ctx      context.Context
 	streamID uint32
@@ -737,6 +744,13 @@ func (r *requestStream) DoRequest(n int) {
 	r.Request(n)
 }
 
+// DoCancel stops the handler's stream; the requester wants no more of it.
+func (r *requestStream) DoCancel() {
+	if sub := r.subscription(); sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (r *requestStream) OnNext(p payload.Payload) {
 	if sink := r.input(); sink != nil {
 		sink.Next(p)
-- 
2.43.0


From 31cb01c788c3814a97da95c722573917002b3316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 52/78] fix: forget a requested stream when the caller cancels
 it

---
 handler/caller.go                | 4 ++--
 proxy/flux.go                    | 5 ++++-
 transport/wasmrs/guest/caller.go | 4 ++--
 transport/wasmrs/host/caller.go  | 4 ++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/handler/caller.go b/handler/caller.go
index 7a2eb92..05aa806 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -92,7 +92,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -102,7 +102,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/proxy/flux.go b/proxy/flux.go
index c39bd11..50a5bf6 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -9,7 +9,7 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -18,6 +18,7 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 		first:     true,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
@@ -36,6 +37,7 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(streamID uint32)
 	first      bool
 	complete   bool
 }
@@ -119,6 +121,7 @@ func (s *streamFlux) Cancel() {
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
+	s.remove(s.request.StreamID)
 }
 
 func (s *streamFlux) DoRequest(n int) {
diff --git a/transport/wasmrs/guest/caller.go b/transport/wasmrs/guest/caller.go
index aae5224..81d14fa 100644
--- a/transport/wasmrs/guest/caller.go
+++ b/transport/wasmrs/guest/caller.go
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 08062d7..191a684 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
-- 
2.43.0


From cea8ec8fb6877c43db517e4f0656ddc14b479631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 53/78] fix: register a requested stream that is blocked on

---
 proxy/flux_host.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)
 create mode 100644 proxy/flux_host.go

diff --git a/proxy/flux_host.go b/proxy/flux_host.go
new file mode 100644
index 0000000..6e77c48
--- /dev/null
+++ b/proxy/flux_host.go
@@ -0,0 +1,17 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	if !s.subscribed {
+		s.subscribed = true
+		s.register(s)
+	}
+	return s.Processor.Block(sub)
+}
-- 
2.43.0


From 9224f893f92f0b8674d5813be283a3825d3c0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:00 +0000
Subject: [PATCH 54/78] fix: drop truncated frames from a wasm guest instead of
 panicking

---
 transport/wasmrs/host/instance.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 48c9890..920c23a 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -198,13 +198,19 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
+	buffer, ok := i.m.Memory().Read(i.recvPtr, recvPos)
+	if !ok {
+		return
+	}
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
+		if uint64(frameLength) > uint64(len(buffer)) {
+			return
+		}
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
 		i.recvCh <- buf
@@ -220,6 +226,9 @@ func (i *Instance) recvLoop() {
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
-- 
2.43.0


From 1bf7bebc4985863c3bf3d4ff7463ebd65496ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:00 +0000
Subject: [PATCH 55/78] fix: drop truncated frames from the wasm host instead
 of panicking

---
 transport/wasmrs/guest/guest.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 50be11b..2649f0c 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -74,14 +74,23 @@ func GuestSend(endPos uint32) {
 	buf := guestBuffer
 
 	for curPos < endPos {
+		if len(buf) < 3 {
+			return
+		}
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if uint64(frameLen)+3 > uint64(len(buf)) {
+			return
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
 		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
 
 		// lengthPos = 1 // Reset for next frame
+		if len(frameBuf) < frames.FrameHeaderLen {
+			continue
+		}
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
 
-- 
2.43.0


From 98ce9fdad14a62be6bb477aca0ecd09e9c0be98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:00 +0000
Subject: [PATCH 56/78] fix: answer an undecodable request on its own stream

---
 transport/wasmrs/guest/guest.go   | 10 +++++-----
 transport/wasmrs/host/instance.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 2649f0c..4725cbd 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -115,7 +115,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -131,7 +131,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -147,7 +147,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -163,7 +163,7 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				return
@@ -179,7 +179,7 @@ func GuestSend(endPos uint32) {
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				return
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 920c23a..79704fe 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -252,7 +252,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -269,7 +269,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -285,7 +285,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -302,7 +302,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -319,7 +319,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
-- 
2.43.0


From c4115ff6f2404ed595cdb21b83f7f4e5b4f22087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:00 +0000
Subject: [PATCH 57/78] fix: handle the frames that follow an undecodable one

---
 transport/wasmrs/guest/guest.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 4725cbd..6a26cda 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -166,7 +166,7 @@ func GuestSend(endPos uint32) {
 					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -182,7 +182,7 @@ func GuestSend(endPos uint32) {
 					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
 			if s, ok := str.(DoRequest); ok {
-- 
2.43.0


From 19ed61b15965d5839a9b2928fbebae73a14c0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:00 +0000
Subject: [PATCH 58/78] fix: report a wasm module without an operation list
 instead of panicking

---
 transport/wasmrs/host/instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 79704fe..a2248c7 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -92,6 +92,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 262904fbc283c184b014bc7b7071557bdd8b16cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:35 +0000
Subject: [PATCH 59/78] fix: uncount every request of an instance exactly once

---
 transport/wasmrs/host/instance.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index a2248c7..68e7aad 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -412,6 +412,7 @@ func (i *Instance) recvOne(data []byte) {
 
 func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -441,13 +442,14 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 				Next:     true,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
+		},
+		Finally: func(rx.SignalType) {
 			i.reduceActiveRequests()
 		},
 	})
@@ -479,6 +481,7 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 
 func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -495,6 +498,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -516,17 +520,16 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 				StreamID: streamID,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
-			i.reduceActiveRequests()
 		},
 		Finally: func(rx.SignalType) {
 			i.removeStream(streamID)
+			i.reduceActiveRequests()
 		},
 		NoRequest: true,
 	})
@@ -537,6 +540,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 
 func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -573,7 +577,6 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 				i.SendFrame(&frames.Cancel{
 					StreamID: streamID,
 				})
-				i.reduceActiveRequests()
 			},
 		})
 	})
@@ -592,17 +595,16 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 				StreamID: streamID,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
-			i.reduceActiveRequests()
 		},
 		Finally: func(rx.SignalType) {
 			i.removeStream(streamID)
+			i.reduceActiveRequests()
 		},
 		NoRequest: true,
 	})
-- 
2.43.0


From 553fe00f0004575a663f7bb6a1a97cd84f4af3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:35 +0000
Subject: [PATCH 60/78] fix: closing an instance must not make later frames
 panic

---
 transport/wasmrs/host/instance.go | 58 ++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 68e7aad..2696613 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -24,6 +24,7 @@ import (
 type Instance struct {
 	ctx       context.Context
 	m         api.Module
+	done      chan struct{} // closed by Close
 	sendCh    chan frames.Frame
 	recvCh    chan []byte
 	sendFn    api.Function
@@ -43,6 +44,7 @@ type Instance struct {
 	activeRequests atomic.Int64
 	closing        atomic.Bool
 	closed         chan struct{}
+	closedOnce     sync.Once
 	once           sync.Once
 
 	maxFrameSize       uint32
@@ -64,6 +66,8 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
+var errClosed = errors.New("instance closed")
+
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
 	if init == nil {
@@ -76,6 +80,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	i := &Instance{
 		ctx:                ctx,
 		m:                  m,
+		done:               make(chan struct{}),
 		sendCh:             make(chan frames.Frame, 100),
 		recvCh:             make(chan []byte, 100),
 		sendFn:             send,
@@ -114,8 +119,7 @@ func (i *Instance) Close() error {
 			<-i.closed
 		}
 
-		close(i.sendCh)
-		close(i.recvCh)
+		close(i.done)
 	})
 
 	return nil
@@ -123,7 +127,7 @@ func (i *Instance) Close() error {
 
 func (i *Instance) reduceActiveRequests() {
 	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
-		close(i.closed)
+		i.closedOnce.Do(func() { close(i.closed) })
 	}
 }
 
@@ -163,8 +167,17 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
-	return nil
+	select {
+	case <-i.done:
+		return errClosed
+	default:
+	}
+	select {
+	case i.sendCh <- f:
+		return nil
+	case <-i.done:
+		return errClosed
+	}
 }
 
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
@@ -176,7 +189,7 @@ func (i *Instance) sendLoop() {
 	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 
-	for f := range i.sendCh {
+	send := func(f frames.Frame) {
 		mem := i.m.Memory()
 		buf, _ := mem.Read(i.sendPtr, i.sendSize)
 		byteCount := f.Size()
@@ -189,7 +202,25 @@ func (i *Instance) sendLoop() {
 		// Send frame data to guest.
 		i.sendFn.Call(ctx, uint64(3+byteCount))
 	}
+
+	for {
+		select {
+		case f := <-i.sendCh:
+			send(f)
+		case <-i.done:
+			// Send what was queued before the instance was closed.
+			for {
+				select {
+				case f := <-i.sendCh:
+					send(f)
+				default:
+					return
+				}
+			}
+		}
+	}
 }
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -216,14 +247,23 @@ func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 		}
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
-		i.recvCh <- buf
+		select {
+		case i.recvCh <- buf:
+		case <-i.done:
+			return
+		}
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf)
+	for {
+		select {
+		case buf := <-i.recvCh:
+			i.recvOne(buf)
+		case <-i.done:
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 80012d5c90076df4c1972d772332907b380ff984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 61/78] fix: write and flush one frame at a time

---
 transport/rsocket/transport.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index c547611..6c10dd5 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -55,6 +55,9 @@ type Transport struct {
 	handler     DuplexHandler
 	isServer    bool
 	ready       chan struct{}
+
+	// sendMu keeps the frames of concurrent senders apart.
+	sendMu sync.Mutex
 }
 
 // NewTransport creates new transport.
@@ -108,6 +111,8 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Write(frame)
 	if err != nil {
 		return
@@ -125,6 +130,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Flush()
 	return
 }
-- 
2.43.0


From f1b3de7519324c25b9a69943b5526ae6834a60e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 62/78] fix: report a frame that is too large to send instead
 of panicking

---
 transport/rsocket/tcp_conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index d414878..e20a89a 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -104,7 +104,12 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		err = fmt.Errorf("write frame failed: %w", err)
+		return
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From c207284b9de10cd99b94bde79bf6374beb4e6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 63/78] fix: do not let later reads overwrite the bytes of a
 frame

---
 transport/rsocket/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index f521844..a89229b 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner reuses its buffer while the frame is still being handled.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From f4fa31c2d4c348bdbf43dca25296812f95c76b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 64/78] fix: report a setup frame that could not be sent

---
 transport/rsocket/init.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transport/rsocket/init.go b/transport/rsocket/init.go
index c7a5566..9449eec 100644
--- a/transport/rsocket/init.go
+++ b/transport/rsocket/init.go
@@ -51,11 +51,14 @@ func Connect(h *handler.Handler) error {
 	// Send operation list in setup frame.
 	list := invoke.GetOperationsTable()
 	payload := list.ToBytes()
-	t.Send(&frames.Setup{
+	if err := t.Send(&frames.Setup{
 		MajorVersion: 0,
 		MinorVersion: 2,
 		Data:         payload,
-	}, true)
+	}, true); err != nil {
+		_ = t.Close()
+		return err
+	}
 
 	return t.Start(ctx)
 }
-- 
2.43.0


From 27075cf4f2deebc3b569d607041fb2b5bc19e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 65/78] fix: close a connection accepted while the server
 closes

---
 transport/rsocket/tcp_transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index faea458..82b6673 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -111,6 +111,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 				})
 			}()
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
-- 
2.43.0


From 149628b25a3fc2a297061fd24c312c9312f14558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 66/78] fix: forget connections that end and stop waiting for
 them

---
 transport/rsocket/tcp_transport.go |  9 +++++++--
 transport/rsocket/transport.go     | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 82b6673..6ef5bb2 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -100,9 +100,14 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
 			go func() {
-				tp.WaitUntilReady()
+				defer t.removeTransport(tp)
+				_ = tp.Start(ctx)
+			}()
+			go func() {
+				if !tp.WaitUntilReady() {
+					return
+				}
 				t.mu.Lock()
 				acceptor := t.acceptor
 				t.mu.Unlock()
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index 6c10dd5..e712c11 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -55,6 +55,7 @@ type Transport struct {
 	handler     DuplexHandler
 	isServer    bool
 	ready       chan struct{}
+	closed      chan struct{}
 
 	// sendMu keeps the frames of concurrent senders apart.
 	sendMu sync.Mutex
@@ -68,6 +69,7 @@ func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
 		handler:     handler,
 		isServer:    isServer,
 		ready:       make(chan struct{}),
+		closed:      make(chan struct{}),
 	}
 	handler.SetFrameSender(t.handler.HandleFrame)
 	return &t
@@ -139,6 +141,7 @@ func (p *Transport) Flush() (err error) {
 // Close close current transport.
 func (p *Transport) Close() (err error) {
 	p.once.Do(func() {
+		close(p.closed)
 		err = p.conn.Close()
 	})
 	return
@@ -238,6 +241,13 @@ func (p *Transport) Start(ctx context.Context) error {
 	}
 }
 
-func (p *Transport) WaitUntilReady() {
-	<-p.ready
+// WaitUntilReady waits until the connection is set up. It returns false if the
+// transport was closed before that.
+func (p *Transport) WaitUntilReady() bool {
+	select {
+	case <-p.ready:
+		return true
+	case <-p.closed:
+		return false
+	}
 }
-- 
2.43.0


From ba56188c5c46c2f8ebfd947251ece5dade6863c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 67/78] fix: link imports to exports of the same kind only

---
 transport/wasmrs/mesh/mesh.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 0ba06f8..84bf091 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -22,10 +22,17 @@ type (
 	Mesh struct {
 		verbose     bool
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[exportKey]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// exportKey identifies an exported operation within its namespace. The
+	// same name may be exported once per kind of request.
+	exportKey struct {
+		kind      operations.RequestType
+		operation string
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +55,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[exportKey]*atomic.Pointer[destination]{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -65,7 +72,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestResponse, operation}]
 	if !ok {
 		return nil
 	}
@@ -80,7 +87,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 		return
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.FireAndForget, operation}]
 	if !ok {
 		return
 	}
@@ -95,7 +102,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestStream, operation}]
 	if !ok {
 		return nil
 	}
@@ -110,7 +117,7 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[exportKey{operations.RequestChannel, operation}]
 	if !ok {
 		return nil
 	}
@@ -193,13 +200,14 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[exportKey]*atomic.Pointer[destination])
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := exportKey{op.Type, op.Operation}
+			ptr, ok := ns[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				ns[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -240,7 +248,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 		return false
 	}
 
-	ptr, ok := ns[op.Operation]
+	ptr, ok := ns[exportKey{op.Type, op.Operation}]
 	if !ok {
 		return false
 	}
@@ -255,6 +263,8 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
 	case operations.RequestChannel:
 		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+	default:
+		return false
 	}
 
 	return true
-- 
2.43.0


From 7c48adaa8985cf10bef7b2d7feba9e98c6ff55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:55 +0000
Subject: [PATCH 68/78] fix: short metadata must not crash calls through the
 mesh

---
 transport/wasmrs/mesh/mesh.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 84bf091..f398b08 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -272,7 +272,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 
 func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestResponse(ctx, p)
@@ -280,7 +280,7 @@ func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mo
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	d.instance.FireAndForget(ctx, p)
@@ -288,7 +288,7 @@ func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestStream(ctx, p)
@@ -296,7 +296,7 @@ func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
 	md := p.Metadata()
-	if md != nil {
+	if len(md) >= 4 {
 		binary.BigEndian.PutUint32(md, d.index)
 	}
 	return d.instance.RequestChannel(ctx, p, in)
-- 
2.43.0


From e40828112ab714d9b49fb516172c9d25a13bb1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 69/78] fix: route calls to a module's new instance after it is
 loaded again

---
 transport/wasmrs/mesh/mesh.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index f398b08..e834fa2 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -252,17 +252,26 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination is looked up per call: it changes when the exporting
+	// module is loaded again.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	default:
 		return false
 	}
-- 
2.43.0


From 635ef49ac5feed29fe96ac7e5505a0772401875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:12 +0000
Subject: [PATCH 70/78] fix: do not send a stream's request after the caller
 cancelled it

---
 proxy/flux.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/flux.go b/proxy/flux.go
index 50a5bf6..709fc28 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -118,6 +118,8 @@ func (s *streamFlux) Request(n int) {
 }
 
 func (s *streamFlux) Cancel() {
+	// Demand that arrives late must not open the stream.
+	s.complete = true
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
-- 
2.43.0


From 89c834365393a1553b5d50251676989c8453f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:19 +0000
Subject: [PATCH 71/78] fix: do not panic in the wasm host when a frame does
 not fit the guest's buffer

---
 transport/wasmrs/host/instance.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 2696613..1f9cdee 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -66,7 +66,10 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
-var errClosed = errors.New("instance closed")
+var (
+	errClosed        = errors.New("instance closed")
+	errFrameTooLarge = errors.New("frame does not fit the guest's buffer")
+)
 
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
@@ -167,6 +170,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if uint64(f.Size())+3 > uint64(i.sendSize) {
+		return errFrameTooLarge
+	}
 	select {
 	case <-i.done:
 		return errClosed
@@ -191,7 +197,10 @@ func (i *Instance) sendLoop() {
 
 	send := func(f frames.Frame) {
 		mem := i.m.Memory()
-		buf, _ := mem.Read(i.sendPtr, i.sendSize)
+		buf, ok := mem.Read(i.sendPtr, i.sendSize)
+		if !ok {
+			return
+		}
 		byteCount := f.Size()
 
 		// Encode length and frame data.
-- 
2.43.0


From e9744fa70eaf0ce73f572dd04bc508087958f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:19 +0000
Subject: [PATCH 72/78] fix: do not panic in a wasm guest when a frame does not
 fit the host's buffer

---
 transport/wasmrs/guest/guest.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6a26cda..9c989eb 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -34,6 +34,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame does not fit the host's buffer")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -537,17 +539,20 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if uint64(byteLength)+3 > uint64(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
-- 
2.43.0


From e7343c9a1389d48a51cf0654e0b1512442ec8b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 73/78] fix: fail a request that could not be sent

---
 handler/caller.go                |  2 +-
 proxy/flux.go                    |  8 +++++++-
 proxy/mono.go                    | 10 ++++++++--
 transport/wasmrs/guest/caller.go |  2 +-
 transport/wasmrs/host/caller.go  |  2 +-
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/handler/caller.go b/handler/caller.go
index 05aa806..3b7a128 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -71,7 +71,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
diff --git a/proxy/flux.go b/proxy/flux.go
index 709fc28..fc65447 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -82,7 +82,13 @@ func (s *streamFlux) Request(n int) {
 	if s.first {
 		s.request.InitialN = uint32(n)
 		s.first = false
-		s.sendFrame(&s.request)
+		if err := s.sendFrame(&s.request); err != nil {
+			// The peer will never answer.
+			s.complete = true
+			s.remove(s.request.StreamID)
+			s.Processor.Error(err)
+			return
+		}
 
 		if s.in != nil {
 			s.in.Subscribe(flux.Subscribe[payload.Payload]{
diff --git a/proxy/mono.go b/proxy/mono.go
index 793a2a6..f290cc4 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -9,7 +9,7 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +17,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -29,6 +30,7 @@ type streamMono struct {
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(streamID uint32)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -67,6 +69,10 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		// The peer will never answer.
+		s.remove(s.request.StreamID)
+		s.Processor.Error(err)
+	}
 	return s
 }
diff --git a/transport/wasmrs/guest/caller.go b/transport/wasmrs/guest/caller.go
index 81d14fa..c8ebb10 100644
--- a/transport/wasmrs/guest/caller.go
+++ b/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 191a684..63a7238 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
-- 
2.43.0


From 947f8b33366e381a729a201c93bb5f34b5ca5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:10 +0000
Subject: [PATCH 74/78] fix: do not listen on a tcp server that is already
 closed

---
 transport/rsocket/tcp_transport.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 6ef5bb2..2399a76 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -59,6 +59,14 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		return
 	}
 	t.mu.Lock()
+	select {
+	case <-t.done:
+		// Close did not see this listener.
+		t.mu.Unlock()
+		notifier <- false
+		return l.Close()
+	default:
+	}
 	t.l = l
 	t.mu.Unlock()
 
-- 
2.43.0


From 34fb24ae42b8d51bda54e7a88350136b9b732154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:16 +0000
Subject: [PATCH 75/78] fix: tell the requester when its answer cannot be sent

---
 handler/handler.go                | 55 +++++++++++++++++++++----------
 transport/wasmrs/guest/guest.go   | 55 +++++++++++++++++++++----------
 transport/wasmrs/host/instance.go | 55 +++++++++++++++++++++----------
 3 files changed, 111 insertions(+), 54 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 840f675..96868d2 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -261,19 +261,18 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 	})
 }
@@ -321,12 +320,14 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				i.abort(streamID, f, err)
+			}
 		},
 		OnComplete: func() {
 			i.sendFrame(&frames.Payload{
@@ -335,10 +336,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 			})
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		Finally: func(rx.SignalType) {
 			i.removeStream(streamID)
@@ -387,12 +385,14 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				i.abort(streamID, f, err)
+			}
 		},
 		OnComplete: func() {
 			i.sendFrame(&frames.Payload{
@@ -401,10 +401,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 			})
 		},
 		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		Finally: func(rx.SignalType) {
 			i.removeStream(streamID)
@@ -663,6 +660,28 @@ func (i *Handler) getRequestChannelHandler(index uint32) invoke.RequestChannelHa
 	return i.importedRC[index]
 }
 
+// sendError answers a request with an error. If its text cannot be sent, the
+// requester is at least told that.
+func (i *Handler) sendError(streamID uint32, reason error) {
+	if err := i.sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     reason.Error(),
+	}); err != nil {
+		i.sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
+	}
+}
+
+// abort ends a stream of which an item could not be sent.
+func (i *Handler) abort(streamID uint32, f flux.Flux[payload.Payload], reason error) {
+	i.sendError(streamID, reason)
+	if sub := f.Subscription(); sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before... but why?
 		i.SendFrame(&frames.Error{
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 9c989eb..e098a3b 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -293,19 +293,18 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	ctx = proxy.WithContext(ctx, &s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 	})
 }
@@ -353,12 +352,14 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				abort(streamID, f, err)
+			}
 		},
 		OnComplete: func() {
 			sendFrame(&frames.Payload{
@@ -367,10 +368,7 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 		Finally: func(rx.SignalType) {
 			removeStream(streamID)
@@ -419,12 +417,14 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				abort(streamID, f, err)
+			}
 		},
 		OnComplete: func() {
 			sendFrame(&frames.Payload{
@@ -433,10 +433,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 			})
 		},
 		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			sendError(streamID, err)
 		},
 		Finally: func(rx.SignalType) {
 			removeStream(streamID)
@@ -448,6 +445,28 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	s.Request(int(initialN))
 }
 
+// sendError answers a request with an error. If its text cannot be sent, the
+// requester is at least told that.
+func sendError(streamID uint32, reason error) {
+	if err := sendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     reason.Error(),
+	}); err != nil {
+		sendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
+	}
+}
+
+// abort ends a stream of which an item could not be sent.
+func abort(streamID uint32, f flux.Flux[payload.Payload], reason error) {
+	sendError(streamID, reason)
+	if sub := f.Subscription(); sub != nil {
+		sub.Cancel()
+	}
+}
+
 func checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before but why?
 		sendFrame(&frames.Error{
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 1f9cdee..59a8570 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -484,19 +484,18 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendError(streamID, err)
+			}
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		Finally: func(rx.SignalType) {
 			i.reduceActiveRequests()
@@ -557,12 +556,14 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				i.abort(streamID, f, err)
+			}
 		},
 		OnComplete: func() {
 			i.SendFrame(&frames.Payload{
@@ -571,10 +572,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		Finally: func(rx.SignalType) {
 			i.removeStream(streamID)
@@ -632,12 +630,14 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	f := handlerRC(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				i.abort(streamID, f, err)
+			}
 		},
 		OnComplete: func() {
 			i.SendFrame(&frames.Payload{
@@ -646,10 +646,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			})
 		},
 		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
+			i.sendError(streamID, err)
 		},
 		Finally: func(rx.SignalType) {
 			i.removeStream(streamID)
@@ -718,6 +715,28 @@ func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelH
 	return i.importedRC[index]
 }
 
+// sendError answers a request with an error. If its text cannot be sent, the
+// requester is at least told that.
+func (i *Instance) sendError(streamID uint32, reason error) {
+	if err := i.SendFrame(&frames.Error{
+		StreamID: streamID,
+		Data:     reason.Error(),
+	}); err != nil {
+		i.SendFrame(&frames.Error{
+			StreamID: streamID,
+			Data:     err.Error(),
+		})
+	}
+}
+
+// abort ends a stream of which an item could not be sent.
+func (i *Instance) abort(streamID uint32, f flux.Flux[payload.Payload], reason error) {
+	i.sendError(streamID, reason)
+	if sub := f.Subscription(); sub != nil {
+		sub.Cancel()
+	}
+}
+
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
 	if len(metadata) < 8 { // 48 before... but why?
 		i.SendFrame(&frames.Error{
-- 
2.43.0


From 55aa59dad03394daf8be28cb9bcfe280d5b04d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:51 +0000
Subject: [PATCH 76/78] fix: do not allocate a custom section's claimed size
 before its bytes are there

---
 transport/wasmrs/customsections/customsections.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 9ef2321..b629ea2 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,11 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	// The size is not trusted: nothing is allocated for bytes that are not there.
+	if uint64(size) > uint64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
+
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,6 +127,10 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	buf := make([]byte, limit)
 	_, err = io.ReadFull(r, buf)
 
-- 
2.43.0


From f88dc3c49c8a90993393962648f0d5764adf6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:03 +0000
Subject: [PATCH 77/78] fix: keep frames that arrive before a served stream's
 handler has subscribed

---
 handler/handler.go                | 111 ++++++++++++++++++---------
 transport/wasmrs/guest/guest.go   |  42 ++++++++---
 transport/wasmrs/host/instance.go | 121 +++++++++++++++++++++---------
 3 files changed, 195 insertions(+), 79 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 96868d2..ef694f0 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -154,7 +154,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := &requestStream{ctx: i.ctx, streamID: streamID}
+			i.registerStream(s) // Frames for the stream may follow at once
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -162,7 +164,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := &requestStream{ctx: i.ctx, streamID: streamID, channel: true}
+			i.registerStream(s) // Frames for the stream may follow at once
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
@@ -298,8 +302,10 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -310,12 +316,11 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -348,8 +353,10 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	s.Request(int(initialN))
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -360,14 +367,12 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.setInput(sink)
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.sendFrame(&frames.RequestN{
@@ -381,6 +386,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				})
 			},
 		})
+		s.setInput(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -725,6 +731,12 @@ type requestStream struct {
 	mu   sync.Mutex
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
+
+	// What the requester sent before that. Only channels have an input.
+	channel   bool
+	demand    int
+	cancelled bool
+	early     []func(sink flux.Sink[payload.Payload])
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -737,32 +749,65 @@ func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
+// setSubscription also makes the demand, or the cancellation, that came first.
 func (r *requestStream) setSubscription(sub rx.Subscription) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.sub = sub
-}
-
-func (r *requestStream) subscription() rx.Subscription {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	return r.sub
+	demand, cancelled := r.demand, r.cancelled
+	r.demand = 0
+	if !cancelled {
+		r.sub = sub
+	}
+	r.mu.Unlock()
+	if sub == nil {
+		return
+	}
+	if cancelled {
+		sub.Cancel()
+	} else if demand > 0 {
+		sub.Request(demand)
+	}
 }
 
+// setInput hands over what came before, in order, and then what comes.
 func (r *requestStream) setInput(sink flux.Sink[payload.Payload]) {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.sink = sink
+	for {
+		r.mu.Lock()
+		early := r.early
+		r.early = nil
+		if len(early) == 0 {
+			r.sink = sink
+			r.mu.Unlock()
+			return
+		}
+		r.mu.Unlock()
+		for _, signal := range early {
+			signal(sink)
+		}
+	}
 }
 
-func (r *requestStream) input() flux.Sink[payload.Payload] {
+// receive passes a signal of the requester to the handler's input, or keeps it
+// until the handler has subscribed.
+func (r *requestStream) receive(signal func(sink flux.Sink[payload.Payload])) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	return r.sink
+	sink := r.sink
+	if sink == nil && r.channel {
+		r.early = append(r.early, signal)
+	}
+	r.mu.Unlock()
+	if sink != nil {
+		signal(sink)
+	}
 }
 
 func (r *requestStream) Request(n int) {
-	if sub := r.subscription(); sub != nil {
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.demand += n
+	}
+	r.mu.Unlock()
+	if sub != nil {
 		sub.Request(n)
 	}
 }
@@ -773,25 +818,23 @@ func (r *requestStream) DoRequest(n int) {
 
 // DoCancel stops the handler's stream; the requester wants no more of it.
 func (r *requestStream) DoCancel() {
-	if sub := r.subscription(); sub != nil {
+	r.mu.Lock()
+	sub := r.sub
+	r.cancelled = true
+	r.mu.Unlock()
+	if sub != nil {
 		sub.Cancel()
 	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	if sink := r.input(); sink != nil {
-		sink.Next(p)
-	}
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
 }
 
 func (r *requestStream) OnComplete() {
-	if sink := r.input(); sink != nil {
-		sink.Complete()
-	}
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
 }
 
 func (r *requestStream) OnError(err error) {
-	if sink := r.input(); sink != nil {
-		sink.Error(err)
-	}
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
 }
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index e098a3b..1f948a9 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -396,10 +396,9 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
+	s := requestStream{ctx: ctx, streamID: streamID, channel: true}
 	registerStream(&s) // Need to register for RequestN frames
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				sendFrame(&frames.RequestN{
@@ -413,6 +412,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 				})
 			},
 		})
+		s.setInput(sink)
 	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -588,6 +588,11 @@ type requestStream struct {
 	flux.Sink[payload.Payload]
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
+
+	// What the requester sent before the handler subscribed to it. Only channels
+	// have an input.
+	channel bool
+	early   []func(sink flux.Sink[payload.Payload])
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
@@ -617,22 +622,37 @@ func (r *requestStream) DoCancel() {
 	}
 }
 
-func (r *requestStream) OnNext(p payload.Payload) {
-	if r.sink != nil {
-		r.sink.Next(p)
+// setInput hands over what came before, in order, and then what comes.
+func (r *requestStream) setInput(sink flux.Sink[payload.Payload]) {
+	for len(r.early) > 0 {
+		signal := r.early[0]
+		r.early = r.early[1:]
+		signal(sink)
 	}
+	r.sink = sink
 }
 
-func (r *requestStream) OnComplete() {
-	if r.sink != nil {
-		r.sink.Complete()
+// receive passes a signal of the requester to the handler's input, or keeps it
+// until the handler has subscribed.
+func (r *requestStream) receive(signal func(sink flux.Sink[payload.Payload])) {
+	switch {
+	case r.sink != nil:
+		signal(r.sink)
+	case r.channel:
+		r.early = append(r.early, signal)
 	}
 }
 
+func (r *requestStream) OnNext(p payload.Payload) {
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
+}
+
+func (r *requestStream) OnComplete() {
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
+}
+
 func (r *requestStream) OnError(err error) {
-	if r.sink != nil {
-		r.sink.Error(err)
-	}
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
 }
 
 //go:inline
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 59a8570..543c017 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -348,7 +348,9 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		s := &requestStream{ctx: ctx, streamID: rs.StreamID}
+		i.registerStream(s) // Frames for the stream may follow at once
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -365,7 +367,9 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		s := &requestStream{ctx: ctx, streamID: rc.StreamID, channel: true}
+		i.registerStream(s) // Frames for the stream may follow at once
+		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -527,8 +531,10 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		i.reduceActiveRequests()
 		return
 	}
@@ -546,13 +552,13 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		i.reduceActiveRequests()
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
+	s.setContext(ctx)
 	f := handlerRS(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
@@ -585,8 +591,10 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	s.Request(int(initialN))
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *requestStream, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		i.reduceActiveRequests()
 		return
 	}
@@ -604,15 +612,14 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		i.reduceActiveRequests()
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
+	s.setContext(ctx)
 	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.setInput(sink)
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
 				i.SendFrame(&frames.RequestN{
@@ -626,6 +633,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 				})
 			},
 		})
+		s.setInput(sink)
 	})
 	f := handlerRC(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -780,44 +788,91 @@ type requestStream struct {
 	mu   sync.Mutex
 	sub  rx.Subscription
 	sink flux.Sink[payload.Payload]
+
+	// What the requester sent before that. Only channels have an input.
+	channel   bool
+	demand    int
+	cancelled bool
+	early     []func(sink flux.Sink[payload.Payload])
 }
 
 var _ = (proxy.Stream)((*requestStream)(nil))
 
 func (r *requestStream) Context() context.Context {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	return r.ctx
 }
 
+func (r *requestStream) setContext(ctx context.Context) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.ctx = ctx
+}
+
 func (r *requestStream) StreamID() uint32 {
 	return r.streamID
 }
 
+// setSubscription also makes the demand, or the cancellation, that came first.
 func (r *requestStream) setSubscription(sub rx.Subscription) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.sub = sub
-}
-
-func (r *requestStream) subscription() rx.Subscription {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	return r.sub
+	demand, cancelled := r.demand, r.cancelled
+	r.demand = 0
+	if !cancelled {
+		r.sub = sub
+	}
+	r.mu.Unlock()
+	if sub == nil {
+		return
+	}
+	if cancelled {
+		sub.Cancel()
+	} else if demand > 0 {
+		sub.Request(demand)
+	}
 }
 
+// setInput hands over what came before, in order, and then what comes.
 func (r *requestStream) setInput(sink flux.Sink[payload.Payload]) {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.sink = sink
+	for {
+		r.mu.Lock()
+		early := r.early
+		r.early = nil
+		if len(early) == 0 {
+			r.sink = sink
+			r.mu.Unlock()
+			return
+		}
+		r.mu.Unlock()
+		for _, signal := range early {
+			signal(sink)
+		}
+	}
 }
 
-func (r *requestStream) input() flux.Sink[payload.Payload] {
+// receive passes a signal of the requester to the handler's input, or keeps it
+// until the handler has subscribed.
+func (r *requestStream) receive(signal func(sink flux.Sink[payload.Payload])) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	return r.sink
+	sink := r.sink
+	if sink == nil && r.channel {
+		r.early = append(r.early, signal)
+	}
+	r.mu.Unlock()
+	if sink != nil {
+		signal(sink)
+	}
 }
 
 func (r *requestStream) Request(n int) {
-	if sub := r.subscription(); sub != nil {
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.demand += n
+	}
+	r.mu.Unlock()
+	if sub != nil {
 		sub.Request(n)
 	}
 }
@@ -828,25 +883,23 @@ func (r *requestStream) DoRequest(n int) {
 
 // DoCancel stops the handler's stream; the requester wants no more of it.
 func (r *requestStream) DoCancel() {
-	if sub := r.subscription(); sub != nil {
+	r.mu.Lock()
+	sub := r.sub
+	r.cancelled = true
+	r.mu.Unlock()
+	if sub != nil {
 		sub.Cancel()
 	}
 }
 
 func (r *requestStream) OnNext(p payload.Payload) {
-	if sink := r.input(); sink != nil {
-		sink.Next(p)
-	}
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
 }
 
 func (r *requestStream) OnComplete() {
-	if sink := r.input(); sink != nil {
-		sink.Complete()
-	}
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
 }
 
 func (r *requestStream) OnError(err error) {
-	if sink := r.input(); sink != nil {
-		sink.Error(err)
-	}
+	r.receive(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
 }
-- 
2.43.0


From 2605d166e71579e08504c2f87047c1c18670ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:22 +0000
Subject: [PATCH 78/78] fix: a negative demand on a slice response delivers
 nothing instead of panicking

---
 rx/flux/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rx/flux/response.go b/rx/flux/response.go
index 739f81f..11ec160 100644
--- a/rx/flux/response.go
+++ b/rx/flux/response.go
@@ -2,6 +2,10 @@ package flux
 
 func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
 	return func(n int) {
+		if n < 0 {
+			// a peer's demand that does not fit an int
+			n = 0
+		}
 		num := len(slice)
 		if n < num {
 			num = n
-- 
2.43.0

