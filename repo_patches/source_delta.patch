From 2901c1980241b9d06b878c23faf00f14061691a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 01/32] fix: keep the write error in the message packer

Most Pack methods had value receivers, so an error of the writer was lost.
---
 msgpack.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 1af483e..3d7d03d 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -191,31 +191,31 @@ func MessagePacker(w io.Writer) *messagePacker {
 	return &messagePacker{w: w}
 }
 
-func (p messagePacker) PackNil()  {
+func (p *messagePacker) PackNil()  {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteNil())
 	}
 }
 
-func (p messagePacker) PackBool(val bool) {
+func (p *messagePacker) PackBool(val bool) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBool(val))
 	}
 }
 
-func (p messagePacker) PackLong(val int64) {
+func (p *messagePacker) PackLong(val int64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteLong(val))
 	}
 }
 
-func (p messagePacker) PackDouble(val float64) {
+func (p *messagePacker) PackDouble(val float64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteDouble(val))
 	}
 }
 
-func (p messagePacker) PackStr(str string) {
+func (p *messagePacker) PackStr(str string) {
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -225,7 +225,7 @@ func (p messagePacker) PackStr(str string) {
 	}
 }
 
-func (p messagePacker) PackBin(b []byte) {
+func (p *messagePacker) PackBin(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -243,7 +243,7 @@ func (p *messagePacker) PackExt(xtag Ext, data []byte) {
 	}
 }
 
-func (p messagePacker) PackList(size int) {
+func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -252,7 +252,7 @@ func (p messagePacker) PackList(size int) {
 	}
 }
 
-func (p messagePacker) PackMap(size int) {
+func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -261,7 +261,7 @@ func (p messagePacker) PackMap(size int) {
 	}
 }
 
-func (p messagePacker) PackRaw(b []byte) {
+func (p *messagePacker) PackRaw(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(b)
 	}
-- 
2.43.0


From a92af831c1f8b68839a0c5cbbbaaa355ecef15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 02/32] fix: accept readers without ReadByte in MessageReader

---
 msgpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 3d7d03d..33bcaba 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -693,7 +693,8 @@ type messageIOUnpacker struct {
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
-	return &messageIOUnpacker{r: r, br: r.(io.ByteReader)}
+	br, _ := r.(io.ByteReader)
+	return &messageIOUnpacker{r: r, br: br}
 }
 
 func (p *messageIOUnpacker) Next() (Format, []byte) {
-- 
2.43.0


From 7d4129d935b8de6b1f9a272678042abe6a40a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 03/32] fix: read tokens in full when the reader returns them
 in pieces

An io.Reader may return fewer bytes than asked for, and nothing or io.EOF for
an empty read.
---
 msgpack.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 33bcaba..a3b4980 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -706,8 +706,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 		}
 		p.buf[0] = code
 	}  else {
-		n, _ := p.r.Read(p.buf[:1])
-		if n == 0 {
+		if _, err := io.ReadFull(p.r, p.buf[:1]); err != nil {
 			return EOF, nil
 		}
 	}
@@ -715,8 +714,7 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := p.r.Read(p.buf[1:n])
-	if m != len {
+	if _, err := io.ReadFull(p.r, p.buf[1:n]); err != nil {
 		return UnexpectedEOF, nil
 	}
 
@@ -725,11 +723,8 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b = make([]byte, n)
-	m, err := p.r.Read(b)
-	if m != n {
-		if err == nil {
-			err = io.ErrUnexpectedEOF
-		}
+	if _, err = io.ReadFull(p.r, b); err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
 	return b, err
 }
-- 
2.43.0


From 884117469add23871ff4233f2a7d8ff537a52e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 04/32] fix: report a failure of the reader as that failure,
 not as end of input

---
 msgpack.go | 18 +++++++++++++++---
 unpack.go  |  6 ++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index a3b4980..fd216fd 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -690,6 +690,7 @@ type messageIOUnpacker struct {
 	buf 	[defReadBufSize]byte
 	r       io.Reader
 	br      io.ByteReader  // can be null
+	err     error          // failure of the reader other than end of input
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
@@ -702,12 +703,12 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	if p.br != nil {
 		code, err := p.br.ReadByte()
 		if err != nil {
-			return EOF, nil
+			return p.fail(EOF, err)
 		}
 		p.buf[0] = code
 	}  else {
 		if _, err := io.ReadFull(p.r, p.buf[:1]); err != nil {
-			return EOF, nil
+			return p.fail(EOF, err)
 		}
 	}
 
@@ -715,12 +716,23 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 	n := 1 + len
 
 	if _, err := io.ReadFull(p.r, p.buf[1:n]); err != nil {
-		return UnexpectedEOF, nil
+		return p.fail(UnexpectedEOF, err)
 	}
 
 	return format, p.buf[0:n]
 }
 
+func (p *messageIOUnpacker) fail(format Format, err error) (Format, []byte) {
+	if err != io.EOF {
+		p.err = err
+	}
+	return format, nil
+}
+
+func (p *messageIOUnpacker) Error() error {
+	return p.err
+}
+
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b = make([]byte, n)
 	if _, err = io.ReadFull(p.r, b); err == io.EOF {
diff --git a/unpack.go b/unpack.go
index 10ad764..dd783a6 100644
--- a/unpack.go
+++ b/unpack.go
@@ -17,6 +17,12 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 	format, header := unpacker.Next()
 
+	if format == EOF || format == UnexpectedEOF {
+		if u, ok := unpacker.(interface{ Error() error }); ok && u.Error() != nil {
+			return nil, u.Error()
+		}
+	}
+
 	switch format {
 	case EOF:
 		return nil, io.EOF
-- 
2.43.0


From 6cd9650500c9d5593094eda805c575281b30c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 05/32] fix: end of input inside a list or map is unexpected

It was reported as io.EOF, which a stream reader takes for a clean end.
---
 unpack.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/unpack.go b/unpack.go
index dd783a6..21ed902 100644
--- a/unpack.go
+++ b/unpack.go
@@ -79,6 +79,14 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 }
 
+// end of input inside of a collection
+func unexpectedEnd(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
@@ -91,7 +99,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	for i := 0; i < cnt; i++ {
 		el, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEnd(err)
 		}
 		list[i] = el
 	}
@@ -116,11 +124,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	for i := 0; i < cnt; i++ {
 		key, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEnd(err)
 		}
 		value, err := doParse(unpacker, parser)
 		if err != nil {
-			return nil, err
+			return nil, unexpectedEnd(err)
 		}
 
 		if key == nil {
-- 
2.43.0


From c8ec6b75965f0022991087cbb96b7ed10b721ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 06/32] fix: copy fixed-size extensions out of the unpacker

The value kept a reference to the read buffer of the stream, overwritten by the
next token, or to the input buffer although copying was requested.
---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 21ed902..ec17270 100644
--- a/unpack.go
+++ b/unpack.go
@@ -38,7 +38,8 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
-		return doParseExt(tagAndData)
+		// header belongs to unpacker
+		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
 		size := parser.ParseBin(header)
 		if parser.Error() != nil {
-- 
2.43.0


From 09318907a0fd9503bc9577d0b796a22b513d84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 07/32] fix: header code of lists longer than 65535

---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index fd216fd..09145f0 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -434,7 +434,7 @@ func (p messageWriter) WriteArrayHeader(len int) []byte {
 		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
 		return p.buf[:3]
 	default:
-		p.buf[0] = mpArray16
+		p.buf[0] = mpArray32
 		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
 		return p.buf[:5]
 	}
-- 
2.43.0


From b4a9a3b1239b84f831b96015a0efe2b13bf2fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 08/32] fix: decode maps whose keys are numbers first and
 strings later

---
 unpack.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unpack.go b/unpack.go
index ec17270..cdd16ff 100644
--- a/unpack.go
+++ b/unpack.go
@@ -163,13 +163,12 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				mayBeList = false
 				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
-					item := sparseListItems[i]
-					sortedMapEntries[i] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					item := sparseListItems[j]
+					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
 				}
 				k := key.String()
-				if i > 0 && prevMapKey > k {
-					sorted = false
-				}
+				// numbers are not ordered as strings
+				sorted = false
 				sortedMapEntries[i] = ImmutableEntry(k, value)
 				prevMapKey = k
 			}
-- 
2.43.0


From e24f52a5c6498fbbccbd40daa8bb7bfc36e1f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 09/32] fix: do not decode the never used code 0xc1 as nil

---
 msgpack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 09145f0..6adcb4c 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -79,6 +79,8 @@ const (
 	defWriteBufSize 	= 16
 	defReadBufSize 		= 24
 
+	invalidToken  Format = -1
+
 	mpCodeMin 			= mpNil
 	mpCodeMax 			= mpMap32
 )
@@ -89,7 +91,7 @@ var (
 	mpCodeFormat = []Format {
 
 		NilToken, 	// mpNil        0xc0
-		NilToken,     // mpNeverUsed  0xc1
+		invalidToken, // mpNeverUsed  0xc1
 		BoolToken, 	// mpFalse      0xc2
 		BoolToken, 	// mpTrue       0xc3
 
-- 
2.43.0


From 7c34aab1b412f6935f978560f6d8442081da5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 10/32] fix: refuse unsigned integers that do not fit instead
 of wrapping them

---
 msgpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 6adcb4c..fe792b2 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -493,7 +493,12 @@ func (r *messageParser) ParseLong(b []byte) int64 {
 	case mpUint32:
 		return int64(binary.BigEndian.Uint32(b[1:]))
 	case mpUint64:
-		return int64(binary.BigEndian.Uint64(b[1:]))
+		val := binary.BigEndian.Uint64(b[1:])
+		if val > math.MaxInt64 {
+			r.err = errors.Errorf("long: value %v is out of range", val)
+			return 0
+		}
+		return int64(val)
 	case mpInt8:
 		return int64(int8(b[1]))
 	case mpInt16:
-- 
2.43.0


From 2801c0d9944668744165e8cd2ffe93e859b51cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 11/32] fix: write nil values as nil, as Pack does

---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 3a0a323..092ba67 100644
--- a/utils.go
+++ b/utils.go
@@ -41,7 +41,11 @@ func Read(r io.Reader) (Value, error) {
 
 func Write(w io.Writer, val Value) error {
 	p := MessagePacker(w)
-	val.Pack(p)
+	if val != nil {
+		val.Pack(p)
+	} else {
+		p.PackNil()
+	}
 	return p.Error()
 }
 
@@ -120,7 +124,11 @@ func WriteStream(w io.Writer, valueC <-chan Value) error {
 			break
 		}
 
-		val.Pack(p)
+		if val != nil {
+			val.Pack(p)
+		} else {
+			p.PackNil()
+		}
 
 	}
 
-- 
2.43.0


From 24614095e2b0ac2013820ba05b2670eedf3c612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 12/32] fix: refuse sealed messages shorter than the nonce

Unseal sliced the message without looking at its length and panicked.
---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index 092ba67..bcd4499 100644
--- a/utils.go
+++ b/utils.go
@@ -94,6 +94,9 @@ var ErrUnseal = errors.New("unseal error")
 
 func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (Value, error) {
 	var decryptNonce [24]byte
+	if len(encrypted) < len(decryptNonce) {
+		return nil, ErrUnseal
+	}
 	copy(decryptNonce[:], encrypted[:24])
 	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
 	if !ok {
-- 
2.43.0


From 0b45802d58d8136f3ad832376f498c826e1ee53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 13/32] fix: refuse decimal exponents longer than 4 bytes

ParseNumber panicked on text like 0x1x1122334455, which GetNumber and
GetNumberAt reach with any string that was received.
---
 number.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/number.go b/number.go
index 858e894..b3e6f11 100644
--- a/number.go
+++ b/number.go
@@ -288,6 +288,9 @@ func parseExp(s string) (int32, error) {
 		return 0, err
 	}
 	var buf [4]byte
+	if len(bytes) > len(buf) {
+		return 0, strconv.ErrRange
+	}
 	copy(buf[len(buf)-len(bytes):], bytes)
 	val := int32(binary.BigEndian.Uint32(buf[:]))
 	if neg {
-- 
2.43.0


From e21c3378a9dc45c0fb63a1210bb3b6e4a52df084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 14/32] fix: compare sparse lists that hold different numbers
 of items

Equal indexed the items of the other list by its own, and panicked when
the lists ended at the same index but one had more items.
---
 sparselist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index 47719a2..4141c4a 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -172,6 +172,9 @@ func (t sparseListValue) Equal(val Value) bool {
 	}
 	// entries are sorted
 	other := o.Items()
+	if len(t) != len(other) {
+		return false
+	}
 	for i, item := range t {
 		if !item.Equal(other[i]) {
 			return false
-- 
2.43.0


From 2526f5cdb0cd012ac588a07da891989e80378d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 15/32] fix: do not allocate by announced sizes

A few bytes announcing a huge list, map, string, extension or struct list
made the decoders allocate gigabytes before anything had arrived. Buffers
and collections now grow with the input.
---
 msgpack.go | 10 ++++++++++
 struct.go  |  8 ++++----
 unpack.go  | 32 ++++++++++++++++++++------------
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index fe792b2..6d0d45c 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -7,6 +7,7 @@
 package value
 
 import (
+	"bytes"
 	"io"
 	"math"
 	"encoding/binary"
@@ -78,6 +79,7 @@ const (
 
 	defWriteBufSize 	= 16
 	defReadBufSize 		= 24
+	maxReadAlloc        = 65536
 
 	invalidToken  Format = -1
 
@@ -741,6 +743,14 @@ func (p *messageIOUnpacker) Error() error {
 }
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
+	if n > maxReadAlloc {
+		// do not trust the announced size until the bytes arrive
+		var buf bytes.Buffer
+		if _, err = io.CopyN(&buf, p.r, int64(n)); err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return buf.Bytes(), err
+	}
 	b = make([]byte, n)
 	if _, err = io.ReadFull(p.r, b); err == io.EOF {
 		err = io.ErrUnexpectedEOF
diff --git a/struct.go b/struct.go
index 8629bc5..0a7c50d 100644
--- a/struct.go
+++ b/struct.go
@@ -266,11 +266,10 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
-					arrayType := reflect.ArrayOf(listCnt, field.FieldType.Elem())
-					arrayValue := reflect.New(arrayType).Elem()
+					sliceValue := reflect.MakeSlice(reflect.SliceOf(field.FieldType.Elem()), 0, initialCap(listCnt))
 
 					for j := 0; j < listCnt; j++ {
-						elemValue := arrayValue.Index(j)
+						elemValue := reflect.New(field.FieldType.Elem()).Elem()
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
@@ -288,8 +287,9 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 								return errors.Errorf("fail to set value %v", err)
 							}
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(arrayValue.Slice(0, listCnt))
+					fieldValue.Set(sliceValue)
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
diff --git a/unpack.go b/unpack.go
index cdd16ff..68551b6 100644
--- a/unpack.go
+++ b/unpack.go
@@ -88,6 +88,14 @@ func unexpectedEnd(err error) error {
 	return err
 }
 
+// announced sizes are not trusted until elements arrive
+func initialCap(cnt int) int {
+	if cnt > 64 {
+		return 64
+	}
+	return cnt
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
@@ -96,13 +104,13 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	if cnt == 0 {
 		return EmptyImmutableList(), nil
 	}
-	list := make([]Value, cnt)
+	list := make([]Value, 0, initialCap(cnt))
 	for i := 0; i < cnt; i++ {
 		el, err := doParse(unpacker, parser)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
-		list[i] = el
+		list = append(list, el)
 	}
 	return ImmutableList(list), nil
 }
@@ -142,10 +150,10 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if key.Kind() == NUMBER {
 				// try to build sparse list
 				mayBeList = true
-				sparseListItems = make([]ListItem, cnt)
+				sparseListItems = make([]ListItem, 0, initialCap(cnt))
 			} else {
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, initialCap(cnt))
 			}
 		}
 
@@ -156,20 +164,19 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-				sparseListItems[i] = ImmutableItem(int(k), value)
+				sparseListItems = append(sparseListItems, ImmutableItem(int(k), value))
 				prevListKey = k
 			} else {
 				// not a list
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
-				for j := 0; j < i; j++ {
-					item := sparseListItems[j]
-					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+				sortedMapEntries = make([]MapEntry, 0, initialCap(cnt))
+				for _, item := range sparseListItems {
+					sortedMapEntries = append(sortedMapEntries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 				}
 				k := key.String()
 				// numbers are not ordered as strings
 				sorted = false
-				sortedMapEntries[i] = ImmutableEntry(k, value)
+				sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 				prevMapKey = k
 			}
 
@@ -178,14 +185,15 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if i > 0 && prevMapKey > k {
 				sorted = false
 			}
-			sortedMapEntries[i] = ImmutableEntry(k, value)
+			sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 			prevMapKey = k
 		}
 
 	}
 
 	if mayBeList {
-		return SparseList(sparseListItems, sorted), nil
+		n := len(sparseListItems)
+		return SparseList(sparseListItems[:n:n], sorted), nil
 	} else {
 		return ImmutableMap(sortedMapEntries, sorted), nil
 	}
-- 
2.43.0


From a27accd04c4ef9eec32d9b25dca5f48f62f8a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 16/32] fix: reflect struct types that refer to themselves

Packing or unpacking such a struct never ended and overflowed the stack,
and a pointer to something other than a struct panicked. Schemas under
construction are kept apart and published when complete.
---
 struct.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/struct.go b/struct.go
index 0a7c50d..83f4d8b 100644
--- a/struct.go
+++ b/struct.go
@@ -163,18 +163,34 @@ func (t sortableFields) Less(i, j int) bool {
 func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	if val, ok := schemaCache.Load(classPtr); ok {
 		return val.(*Schema), nil
-	} else if schema, err := doReflectSchema(classPtr); err != nil {
+	}
+	building := make(map[reflect.Type]*Schema)
+	schema, err := doReflectSchema(classPtr, building)
+	if err != nil {
 		return nil, err
-	} else {
-		schemaCache.Store(classPtr, schema)
-		return schema, nil
 	}
+	// publish when all of them are complete, they may refer to each other
+	for class, complete := range building {
+		schemaCache.Store(class, complete)
+	}
+	return schema, nil
 }
 
-func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
+func doReflectSchema(classPtr reflect.Type, building map[reflect.Type]*Schema) (*Schema, error) {
+	if val, ok := schemaCache.Load(classPtr); ok {
+		return val.(*Schema), nil
+	}
+	if schema, ok := building[classPtr]; ok {
+		return schema, nil
+	}
+	class := classPtr.Elem()
+	if class.Kind() != reflect.Struct {
+		return nil, errors.Errorf("pointer to struct is expected instead of '%v'", classPtr)
+	}
+	schema := &Schema{}
+	building[classPtr] = schema
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
-	class := classPtr.Elem()
 	for j := 0; j < class.NumField(); j++ {
 		field := class.Field(j)
 		repeated := false
@@ -209,7 +225,7 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 			sortedFields = append(sortedFields, f)
 		} else if fieldType.Kind() != reflect.Ptr {
 			return nil, errors.Errorf("tagged field '%s' in class '%v' with type '%v' does not implement value.Value interface and non-ptr", field.Name, field.Type, classPtr)
-		} else if fieldSchema, err := reflectSchema(fieldType); err != nil {
+		} else if fieldSchema, err := doReflectSchema(fieldType, building); err != nil {
 			return nil, errors.Errorf("struct field '%s' in class '%v' has wrong schema, %v", field.Name, classPtr, err)
 		} else {
 			f := &Field{
@@ -227,10 +243,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		}
 	}
 	sort.Sort(sortableFields(sortedFields))
-	return &Schema {
-		Fields: fields,
-		SortedFields: sortedFields,
-	}, nil
+	schema.Fields = fields
+	schema.SortedFields = sortedFields
+	return schema, nil
 }
 
 
-- 
2.43.0


From a124c8817551646295494d3905b27773bf665aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 17/32] fix: keep the values of repeated fields

UnpackStruct appended the element to the slice before it was set, so every
element of a repeated value field came out nil.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 83f4d8b..c402948 100644
--- a/struct.go
+++ b/struct.go
@@ -325,7 +325,6 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						sliceValue = reflect.Append(sliceValue, elemValue)
 						val, err := doParse(unpacker, parser)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
@@ -334,6 +333,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if err != nil {
 							return errors.Errorf("fail to set value %v", err)
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
 					fieldValue.Set(sliceValue)
 				}
-- 
2.43.0


From 0da4f717c06746ff118ad2be4e71b913aa740009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 18/32] fix: refuse nil struct pointers inside a slice

PackStruct dereferenced them and panicked.
---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index c402948..70ccdbb 100644
--- a/struct.go
+++ b/struct.go
@@ -114,6 +114,9 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
+		if value.IsNil() {
+			return errors.Errorf("nil struct in field %v", entry.field.FieldName)
+		}
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
 			return errors.Errorf("can not pack field %v, inner struct error %v", value, err)
 		}
-- 
2.43.0


From c9e66acdfe446db372e63a2ec54ab4cb4d227db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 19/32] fix: refuse input nested deeper than 10000 levels

Every level of nesting costs a few hundred bytes of stack, so a few
megabytes of hostile input overflowed it, which ends the process.
---
 struct.go | 25 ++++++++++++++++---------
 unpack.go | 27 +++++++++++++++++++--------
 utils.go  |  4 ++--
 3 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/struct.go b/struct.go
index 70ccdbb..f315b77 100644
--- a/struct.go
+++ b/struct.go
@@ -253,6 +253,13 @@ func doReflectSchema(classPtr reflect.Type, building map[reflect.Type]*Schema) (
 
 
 func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema) error {
+	return doParseStruct(unpacker, parser, value, schema, 0)
+}
+
+func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema, depth int) error {
+	if depth >= maxNesting {
+		return errNesting
+	}
 	format, header := unpacker.Next()
 	if format != MapHeader {
 		return errors.Errorf("expected MapHeader for struct, but got %v", format)
@@ -262,7 +269,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 		return parser.Error()
 	}
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParse(unpacker, parser, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
@@ -291,12 +298,12 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
-							err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+							err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 							if err != nil {
 								return errors.Errorf("fail to set struct value %v", err)
 							}
 						} else {
-							val, err := doParse(unpacker, parser)
+							val, err := doParse(unpacker, parser, depth+1)
 							if err != nil {
 								return errors.Errorf("fail to parse value %v", err)
 							}
@@ -322,13 +329,13 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						structValue := reflect.New(ptrType.Elem())
 						elemValue.Set(structValue)
 						sliceValue = reflect.Append(sliceValue, elemValue)
-						err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+						err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 						if err != nil {
 							return errors.Errorf("fail to set struct value %v", err)
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						val, err := doParse(unpacker, parser)
+						val, err := doParse(unpacker, parser, depth+1)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
 						}
@@ -341,7 +348,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 					fieldValue.Set(sliceValue)
 				}
 			} else {
-				err = parseFieldValue(unpacker, parser, field, fieldValue)
+				err = parseFieldValue(unpacker, parser, field, fieldValue, depth)
 				if err != nil {
 					return errors.Errorf("parse field on position %d, %v", i, err)
 				}
@@ -353,7 +360,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 	return nil
 }
 
-func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value) error {
+func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value, depth int) error {
 	if field.Struct {
 		if fieldValue.IsNil() {
 			if fieldValue.CanSet() {
@@ -362,12 +369,12 @@ func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue
 				return errors.Errorf("can not set empty struct value to field %v", field.FieldName)
 			}
 		}
-		err := ParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema)
+		err := doParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to set struct value %v", err)
 		}
 	} else {
-		val, err := doParse(unpacker, parser)
+		val, err := doParse(unpacker, parser, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to parse value %v", err)
 		}
diff --git a/unpack.go b/unpack.go
index 68551b6..b3650ae 100644
--- a/unpack.go
+++ b/unpack.go
@@ -13,7 +13,12 @@ import (
 )
 
 
-func doParse(unpacker Unpacker, parser Parser) (Value, error) {
+// deeper input is refused, it would overflow the stack
+const maxNesting = 10000
+
+var errNesting = errors.Errorf("parse: nesting deeper than %d", maxNesting)
+
+func doParse(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 
 	format, header := unpacker.Next()
 
@@ -61,9 +66,9 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		return doParseList(header, unpacker, parser)
+		return doParseList(header, unpacker, parser, depth)
 	case MapHeader:
-		return doParseMap(header, unpacker, parser)
+		return doParseMap(header, unpacker, parser, depth)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -96,7 +101,10 @@ func initialCap(cnt int) int {
 	return cnt
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (List, error) {
+	if depth >= maxNesting {
+		return nil, errNesting
+	}
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -106,7 +114,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, 0, initialCap(cnt))
 	for i := 0; i < cnt; i++ {
-		el, err := doParse(unpacker, parser)
+		el, err := doParse(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
@@ -115,7 +123,10 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	return ImmutableList(list), nil
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Value, error) {
+	if depth >= maxNesting {
+		return nil, errNesting
+	}
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -131,11 +142,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParse(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
-		value, err := doParse(unpacker, parser)
+		value, err := doParse(unpacker, parser, depth+1)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
diff --git a/utils.go b/utils.go
index bcd4499..3a88039 100644
--- a/utils.go
+++ b/utils.go
@@ -113,7 +113,7 @@ func Equal(left Value, right Value) bool {
 }
 
 func Parse(unpacker Unpacker, parser Parser) (Value, error) {
-	return doParse(unpacker, parser)
+	return doParse(unpacker, parser, 0)
 }
 
 func WriteStream(w io.Writer, valueC <-chan Value) error {
@@ -147,7 +147,7 @@ func ReadStream(r io.Reader, out chan<- Value) error {
 
 	for {
 
-		value, err := doParse(unpacker, parser)
+		value, err := doParse(unpacker, parser, 0)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 5cbca926fa901a608d67c5386a12958731c2838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 20/32] fix: do not repeat the error text at every level of
 nested structs

The text grew with every level, so the memory taken by refusing a nested
struct was quadratic in its depth.
---
 struct.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index f315b77..007d208 100644
--- a/struct.go
+++ b/struct.go
@@ -300,7 +300,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 							elemValue.Set(structValue)
 							err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 							if err != nil {
-								return errors.Errorf("fail to set struct value %v", err)
+								return err
 							}
 						} else {
 							val, err := doParse(unpacker, parser, depth+1)
@@ -331,7 +331,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						sliceValue = reflect.Append(sliceValue, elemValue)
 						err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 						if err != nil {
-							return errors.Errorf("fail to set struct value %v", err)
+							return err
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
@@ -349,6 +349,10 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 				}
 			} else {
 				err = parseFieldValue(unpacker, parser, field, fieldValue, depth)
+				if err != nil && field.Struct {
+					// described where it occurred
+					return err
+				}
 				if err != nil {
 					return errors.Errorf("parse field on position %d, %v", i, err)
 				}
@@ -371,7 +375,7 @@ func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue
 		}
 		err := doParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema, depth+1)
 		if err != nil {
-			return errors.Errorf("fail to set struct value %v", err)
+			return err
 		}
 	} else {
 		val, err := doParse(unpacker, parser, depth+1)
-- 
2.43.0


From 8c52142e8ac58825d681aae6206d8d3e9b2860e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 21/32] fix: limit the nesting of collections used as map keys

---
 unpack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index b3650ae..7aefd20 100644
--- a/unpack.go
+++ b/unpack.go
@@ -16,6 +16,9 @@ import (
 // deeper input is refused, it would overflow the stack
 const maxNesting = 10000
 
+// a collection used as key is rendered as text, repeatedly if keys nest, so that costs more levels
+const keyNesting = maxNesting / 10
+
 var errNesting = errors.Errorf("parse: nesting deeper than %d", maxNesting)
 
 func doParse(unpacker Unpacker, parser Parser, depth int) (Value, error) {
@@ -142,7 +145,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser, depth+1)
+		key, err := doParse(unpacker, parser, depth+keyNesting)
 		if err != nil {
 			return nil, unexpectedEnd(err)
 		}
-- 
2.43.0


From 185b09037e6c43dc2f6e62885fd2a001310600a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 22/32] fix: convert and compare infinite doubles without panic

---
 number.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/number.go b/number.go
index b3e6f11..70b17e0 100644
--- a/number.go
+++ b/number.go
@@ -482,7 +482,7 @@ func (n longNumber) BigInt() *big.Int {
 
 func (n doubleNumber) BigInt() *big.Int {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return big.NewInt(0)
 	}
 	f := new(big.Float)
@@ -505,7 +505,7 @@ func (n longNumber) Decimal() decimal.Decimal {
 
 func (n doubleNumber) Decimal() decimal.Decimal {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return decimal.NewFromInt(0)
 	}
 	return decimal.NewFromFloat(d)
@@ -591,7 +591,7 @@ func (n bigIntNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
-	return n.Int.Cmp(other.BigInt()) == 0
+	return !isInf(other) && n.Int.Cmp(other.BigInt()) == 0
 }
 
 func (n decimalNumber) Equal(val Value) bool {
@@ -599,6 +599,11 @@ func (n decimalNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
-	return n.Decimal().Cmp(other.Decimal()) == 0
+	return !isInf(other) && n.Decimal().Cmp(other.Decimal()) == 0
+}
+
+func isInf(n Number) bool {
+	d, ok := n.(doubleNumber)
+	return ok && math.IsInf(float64(d), 0)
 }
 
-- 
2.43.0


From 247a750816a3fb36131c971309c1bcec4435ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 23/32] fix: convert and compare decimals with huge exponents
 in bounded time

---
 number.go | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 70b17e0..7e9fdbd 100644
--- a/number.go
+++ b/number.go
@@ -453,6 +453,11 @@ func (n bigIntNumber) Long() int64 {
 }
 
 func (n decimalNumber) Long() int64 {
+	dec := decimal.Decimal(n)
+	if isFraction(dec) || dec.Exponent() >= 64 {
+		// the low 64 bits are known without writing all digits out
+		return 0
+	}
 	return decimal.Decimal(n).IntPart()
 }
 
@@ -472,6 +477,15 @@ func (n bigIntNumber) Double() float64 {
 }
 
 func (n decimalNumber) Double() float64 {
+	dec := decimal.Decimal(n)
+	// do not write all digits out of numbers beyond the range of double
+	log2 := int64(dec.Coefficient().BitLen()) + 3*int64(dec.Exponent())
+	if dec.Sign() == 0 || dec.Exponent() < 0 && log2 < -1100 {
+		return math.Copysign(0, float64(dec.Sign()))
+	}
+	if dec.Exponent() > 0 && log2 > 1100 {
+		return math.Inf(dec.Sign())
+	}
 	v, _ := decimal.Decimal(n).Float64()
 	return v
 }
@@ -496,6 +510,12 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
+	if dec := decimal.Decimal(n); isFraction(dec) {
+		if dec.Sign() < 0 {
+			return big.NewInt(-1)
+		}
+		return big.NewInt(0)
+	}
 	return decimal.Decimal(n).Floor().Coefficient()
 }
 
@@ -599,7 +619,31 @@ func (n decimalNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
-	return !isInf(other) && n.Decimal().Cmp(other.Decimal()) == 0
+	return !isInf(other) && equalDecimals(n.Decimal(), other.Decimal())
+}
+
+// the absolute value is less than 1 for sure, as 10 ^ n > 2 ^ (3 * n)
+func isFraction(dec decimal.Decimal) bool {
+	exp := int64(dec.Exponent())
+	return exp < 0 && int64(dec.Coefficient().BitLen()) <= -3*exp
+}
+
+// does not bring decimals of different magnitude to the same exponent
+func equalDecimals(left, right decimal.Decimal) bool {
+	if left.Sign() != right.Sign() {
+		return false
+	}
+	if left.Sign() == 0 {
+		return true
+	}
+	if left.Exponent() < right.Exponent() {
+		left, right = right, left
+	}
+	diff := int64(left.Exponent()) - int64(right.Exponent())
+	if 3*diff > int64(right.Coefficient().BitLen()) {
+		return false
+	}
+	return left.Cmp(right) == 0
 }
 
 func isInf(n Number) bool {
-- 
2.43.0


From 4caddd60ba2f4a71e39f358238fd0bcc6cc119c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 24/32] fix: list no values of sparse lists that have negative
 keys only

---
 sparselist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index 4141c4a..56687ab 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -91,6 +91,9 @@ func (t sparseListValue) Values() []Value {
 		return nil
 	}
 	maxKey := t[n-1].Key()
+	if maxKey < 0 {
+		return nil
+	}
 	values := make([]Value, maxKey+1)
 
 	for _, item := range t {
-- 
2.43.0


From 6d207fc0ae95acd71b7f75b5230e05cfbaace122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 25/32] fix: do not hand out the package's own encodings of nil
 and booleans

---
 msgpack.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 6d0d45c..c624fd9 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -179,10 +179,6 @@ var (
 		4,  // mpMap32 		0xdf
 
 	}
-
-	mpNilBin 	=  []byte { mpNil }
-	mpTrueBin 	=  []byte { mpTrue }
-	mpFalseBin 	=  []byte { mpFalse }
 )
 
 type messagePacker struct {
@@ -280,15 +276,17 @@ type messageWriter struct {
 }
 
 func (p messageWriter) WriteNil() []byte {
-	return mpNilBin
+	p.buf[0] = mpNil
+	return p.buf[:1]
 }
 
 func (p messageWriter) WriteBool(val bool) []byte {
 	if val {
-		return mpTrueBin
+		p.buf[0] = mpTrue
 	} else {
-		return mpFalseBin
+		p.buf[0] = mpFalse
 	}
+	return p.buf[:1]
 }
 
 func (p messageWriter) WriteLong(val int64) []byte {
-- 
2.43.0


From cc2167922d4b221deb35520da0b918690bc72887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 26/32] fix: InsertAll neither modifies nor keeps the slice of
 the caller

---
 immutablelist.go |  6 +-----
 immutablemap.go  |  6 +-----
 solidlist.go     |  6 +-----
 sortedmap.go     |  6 +-----
 sparselist.go    |  6 +-----
 utils.go         | 12 +++++++++++-
 6 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index a1f2c36..197c016 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -313,11 +313,7 @@ func (t immutableListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = notNilCopyOf(list)
 
 	if i >= 0 {
 		n := len(t)
diff --git a/immutablemap.go b/immutablemap.go
index eb65218..1448716 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -371,11 +371,7 @@ func (t immutableMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = notNilCopyOf(list)
 
 	slice := make([]MapEntry, len(list))
 	for i, value := range list {
diff --git a/solidlist.go b/solidlist.go
index c3ab6e1..f48e422 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -320,11 +320,7 @@ func (t solidListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = notNilCopyOf(list)
 
 	if i >= 0 {
 		n := len(t)
diff --git a/sortedmap.go b/sortedmap.go
index 36733c2..e8a42a6 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -370,11 +370,7 @@ func (t sortedMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = notNilCopyOf(list)
 
 	var slice []MapEntry
 	for _, value := range list {
diff --git a/sparselist.go b/sparselist.go
index 56687ab..9b285e7 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -408,11 +408,7 @@ func (t sparseListValue) InsertAll(key int, list []Value) List {
 		return t
 	}
 
-	for k := range list {
-		if list[k] == nil {
-			list[k] = Null
-		}
-	}
+	list = notNilCopyOf(list)
 
 	var slice []ListItem
 	for _, value := range list {
diff --git a/utils.go b/utils.go
index 3a88039..538c49f 100644
--- a/utils.go
+++ b/utils.go
@@ -163,4 +163,14 @@ func CopyOf(src []Value) []Value {
 	dst := make([]Value, n)
 	copy(dst, src)
 	return dst
-}
\ No newline at end of file
+}
+
+func notNilCopyOf(src []Value) []Value {
+	dst := CopyOf(src)
+	for k := range dst {
+		if dst[k] == nil {
+			dst[k] = Null
+		}
+	}
+	return dst
+}
-- 
2.43.0


From 6128d5fbb888af9f271442fc798741e706b1d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 27/32] fix: copies of maps do not share entries with their
 source

---
 immutablemap.go | 4 ++++
 sortedmap.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/immutablemap.go b/immutablemap.go
index 1448716..59eeeda 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -48,6 +48,10 @@ func ImmutableMap(entries []MapEntry, sorted bool) Map {
 
 func ImmutableMapCopyOf(other Map) Map {
 	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
+	for i, entry := range t {
+		// entries of the other map may be updated in place
+		t[i] = ImmutableEntry(entry.Key(), entry.Value())
+	}
 	return t
 }
 
diff --git a/sortedmap.go b/sortedmap.go
index e8a42a6..324d604 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -49,6 +49,10 @@ func SortedMap(entries []MapEntry, sorted bool) Map {
 
 func SortedMapCopyOf(other Map) Map {
 	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
+	for i, entry := range t {
+		// entries of the other map belong to it
+		t[i] = MutableEntry(entry.Key(), entry.Value())
+	}
 	return t
 }
 
-- 
2.43.0


From c38ed66a5844a06cbca3d0ded82dc59f6a7a970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 28/32] fix: typed getters of collections that hold nil

---
 immutablelist.go | 10 +++++-----
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 10 +++++-----
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index 197c016..af3e909 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -137,7 +137,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -148,7 +148,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -159,7 +159,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -170,7 +170,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -183,7 +183,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/immutablemap.go b/immutablemap.go
index 59eeeda..c4463a3 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -198,7 +198,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -209,7 +209,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -220,7 +220,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -231,7 +231,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -244,7 +244,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/solidlist.go b/solidlist.go
index f48e422..afd0994 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -145,7 +145,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -156,7 +156,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -167,7 +167,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -178,7 +178,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -191,7 +191,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sortedmap.go b/sortedmap.go
index 324d604..d4844d2 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -199,7 +199,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -210,7 +210,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -221,7 +221,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -232,7 +232,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -245,7 +245,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sparselist.go b/sparselist.go
index 9b285e7..f75c4fb 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -202,7 +202,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -213,7 +213,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -224,7 +224,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -235,7 +235,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -248,7 +248,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
-- 
2.43.0


From d6fff497cda126d8813e56382329096c07c0aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 29/32] fix: struct fields of array type panic when packed or
 unpacked

---
 struct.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 007d208..910d0b7 100644
--- a/struct.go
+++ b/struct.go
@@ -73,7 +73,7 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 			field: field,
 			fieldValue: value.Field(field.FieldNum),
 		}
-		if !f.fieldValue.IsNil() {
+		if f.fieldValue.Kind() == reflect.Array || !f.fieldValue.IsNil() {
 			list = append(list, f)
 			if f.field.Array && f.field.Repeated {
 				cnt += f.fieldValue.Len()
@@ -214,6 +214,9 @@ func doReflectSchema(classPtr reflect.Type, building map[reflect.Type]*Schema) (
 			fieldType = fieldType.Elem()
 			array = true
 		}
+		if repeated && field.Type.Kind() == reflect.Array {
+			return nil, errors.Errorf("repeated field '%s' in class '%v' is an array of fixed size", field.Name, classPtr)
+		}
 		if fieldType.Implements(ValueClass) {
 			f := &Field{
 				FieldNum:   j,
@@ -314,7 +317,14 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						}
 						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(sliceValue)
+					if fieldValue.Kind() == reflect.Array {
+						if sliceValue.Len() != fieldValue.Len() {
+							return errors.Errorf("expected %d elements for array field %v, but got %d", fieldValue.Len(), field.FieldName, sliceValue.Len())
+						}
+						reflect.Copy(fieldValue, sliceValue)
+					} else {
+						fieldValue.Set(sliceValue)
+					}
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
-- 
2.43.0


From aea7d15008bc4ff50a76e1622173b30939e88724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:33 +0000
Subject: [PATCH 30/32] fix: struct types with two fields of the same tag are
 accepted and lose one of them

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index 910d0b7..b297a14 100644
--- a/struct.go
+++ b/struct.go
@@ -208,6 +208,9 @@ func doReflectSchema(classPtr reflect.Type, building map[reflect.Type]*Schema) (
 		if err != nil {
 			return nil, errors.Errorf("invalid tag number '%s' in field '%s' in class '%v'", tagStr, field.Name, classPtr)
 		}
+		if _, ok := fields[tag]; ok {
+			return nil, errors.Errorf("tag %d of field '%s' is already used in class '%v'", tag, field.Name, classPtr)
+		}
 		array := false
 		fieldType := field.Type
 		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
-- 
2.43.0


From 5bd321927ad2e910d1dec1a9bb1e0285b9a70f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 31/32] fix: struct types with unexported fields are accepted
 but panic when packed

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index b297a14..71336b0 100644
--- a/struct.go
+++ b/struct.go
@@ -196,6 +196,9 @@ func doReflectSchema(classPtr reflect.Type, building map[reflect.Type]*Schema) (
 	var sortedFields []*Field
 	for j := 0; j < class.NumField(); j++ {
 		field := class.Field(j)
+		if field.PkgPath != "" {
+			return nil, errors.Errorf("unexported field '%s' in class '%v'", field.Name, classPtr)
+		}
 		repeated := false
 		if rep, ok := field.Tag.Lookup("repeated"); ok {
 			repeated, _ = strconv.ParseBool(rep)
-- 
2.43.0


From 7e778d8b88a563cd6653ebc0bf671b09bb5cead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:11 +0000
Subject: [PATCH 32/32] fix: PackStruct and UnpackStruct panicked for a nil
 pointer

---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index 71336b0..203030d 100644
--- a/struct.go
+++ b/struct.go
@@ -33,6 +33,9 @@ func PackStruct(obj interface{}) ([]byte, error) {
 func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 	unpacker := MessageUnpacker(buf, copy)
 	parser := MessageParser()
+	if obj == nil {
+		return errors.Errorf("nil instance is not allowed")
+	}
 	classPtr := reflect.TypeOf(obj)
 	if classPtr.Kind() != reflect.Ptr {
 		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
@@ -41,6 +44,9 @@ func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 		return errors.Errorf("error on reflect schema for '%v', %v", classPtr, err)
 	} else {
 		valuePtr := reflect.ValueOf(obj)
+		if valuePtr.IsNil() {
+			return errors.Errorf("nil instance is not allowed in '%v'", classPtr)
+		}
 		value := valuePtr.Elem()
 		return ParseStruct(unpacker, parser, value, schema)
 	}
@@ -56,6 +62,9 @@ func reflectPackStruct(p *messagePacker, obj interface{}) error {
 		return err
 	}
 	valuePtr := reflect.ValueOf(obj)
+	if valuePtr.IsNil() {
+		return errors.Errorf("nil instance is not allowed in '%v'", classPtr)
+	}
 	value := valuePtr.Elem()
 	return doReflectPackStruct(p, value, schema)
 }
-- 
2.43.0

