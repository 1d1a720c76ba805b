From b0e0885535df354b330f2b76b3d8e506cf37bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 01/80] fix: bencode: refuse signed string lengths instead of
 panicking on negative ones

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 98dbaa3..fc7fc99 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -133,6 +133,9 @@ func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: %w", err)
 	}
+	if !isDigit(lengthStr[0]) {
+		return "", d.newSyntaxError("consumeString: invalid length: %s", lengthStr)
+	}
 	d.offset += len(lengthStr) + 1
 	bytes := make([]byte, length)
 	n, err := io.ReadFull(d, bytes)
@@ -265,6 +268,9 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeString: %w", err)
 	}
+	if !isDigit(lengthStr[0]) {
+		return d.newSyntaxError("decodeString: invalid length: %s", lengthStr[:len(lengthStr)-1])
+	}
 	d.offset += len(lengthStr)
 	bytes := make([]byte, length)
 	n, err := io.ReadFull(d, bytes)
-- 
2.43.0


From a8ad3f929ec2b1181d2ffb6c896f8b07a86c6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 02/80] fix: bencode: do not allocate what a string length
 claims before the bytes are read

---
 bencode/decode.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index fc7fc99..164d769 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -137,8 +137,8 @@ func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 		return "", d.newSyntaxError("consumeString: invalid length: %s", lengthStr)
 	}
 	d.offset += len(lengthStr) + 1
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readBytes(length)
+	n := len(bytes)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", n, length, err)
 	}
@@ -259,6 +259,22 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 	return nil
 }
 
+// readBytes reads exactly length bytes. Memory grows with the bytes that are
+// actually there, not with the length the input claims.
+func (d *Decoder) readBytes(length int) ([]byte, error) {
+	if length <= 4096 {
+		b := make([]byte, length)
+		n, err := io.ReadFull(d, b)
+		return b[:n], err
+	}
+	var b bytes.Buffer
+	_, err := io.CopyN(&b, d, int64(length))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return b.Bytes(), err
+}
+
 func (d *Decoder) decodeString(v reflect.Value) error {
 	lengthStr, err := d.ReadString(':')
 	if err != nil {
@@ -272,8 +288,8 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 		return d.newSyntaxError("decodeString: invalid length: %s", lengthStr[:len(lengthStr)-1])
 	}
 	d.offset += len(lengthStr)
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readBytes(length)
+	n := len(bytes)
 	if err != nil {
 		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", n, length, err)
 	}
-- 
2.43.0


From c8c5112d2aa53a140c9d242ff7e525c863916e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 03/80] fix: bencode: refuse integers with a plus sign

---
 bencode/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 164d769..9feaff8 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -306,6 +306,9 @@ func leadingZero(intStr string) bool {
 	if len(intStr) == 0 {
 		return false
 	}
+	if intStr[0] == '+' {
+		return true
+	}
 	if intStr[0] == '0' {
 		return len(intStr) > 1
 	}
-- 
2.43.0


From 9815c1aac2851960b701b1cea8ce1e9c66cf596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 04/80] fix: bencode: bound the nesting depth while decoding

---
 bencode/decode.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 9feaff8..694f65b 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -19,8 +19,14 @@ func Unmarshal(b []byte, v any) error {
 type Decoder struct {
 	*bufio.Reader
 	offset int
+	depth  int
 }
 
+// depthLimit bounds the nesting of the input, as the recursion follows it.
+const depthLimit = 10000
+
+var errDepth = errors.New("bencode: maximum nesting depth exceeded")
+
 func NewDecoder(r io.Reader) *Decoder {
 	if br, ok := r.(*bufio.Reader); ok {
 		return &Decoder{Reader: br}
@@ -50,6 +56,11 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	d.depth++
+	defer func() { d.depth-- }()
+	if d.depth > depthLimit {
+		return errDepth
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
@@ -100,6 +111,11 @@ func isDigit(b byte) bool {
 }
 
 func (d *Decoder) consume(buf *bytes.Buffer) error {
+	d.depth++
+	defer func() { d.depth-- }()
+	if d.depth > depthLimit {
+		return errDepth
+	}
 	b, err := d.ReadByte()
 	if err != nil {
 		return err
-- 
2.43.0


From 760cddcae022a2ca406fc814ca317bff55b096d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 05/80] fix: bencode: allocate nil pointers in lists and maps
 while decoding instead of panicking

---
 bencode/decode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 694f65b..f9c7108 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -61,6 +61,12 @@ func (d *Decoder) decode(v reflect.Value) error {
 	if d.depth > depthLimit {
 		return errDepth
 	}
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		if !v.CanSet() {
+			return &UnsupportedTypeError{v.Type()}
+		}
+		v.Set(reflect.New(v.Type().Elem()))
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
@@ -537,6 +543,9 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 			elem = elem.Field(i)
 			if elem.Kind() == reflect.Pointer {
 				if elem.IsNil() {
+					if !elem.CanSet() {
+						return &UnsupportedTypeError{elem.Type()}
+					}
 					elem.Set(reflect.New(elem.Type().Elem()))
 				}
 				elem = elem.Elem()
-- 
2.43.0


From 0242163df80ab7949b627ea7a5deef1b5a823a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 06/80] fix: bencode: refuse integers that do not fit their
 destination instead of truncating them

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index f9c7108..899ea38 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -361,6 +361,9 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeInt: %w", err)
 	}
+	if v.OverflowInt(i) {
+		return d.newSyntaxError("decodeInt: %d overflows %s", i, v.Type())
+	}
 	d.offset += len(intStr) + 1
 	v.SetInt(i)
 	return nil
@@ -387,6 +390,9 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeUint: %w", err)
 	}
+	if v.OverflowUint(i) {
+		return d.newSyntaxError("decodeUint: %d overflows %s", i, v.Type())
+	}
 	d.offset += len(intStr) + 1
 	v.SetUint(i)
 	return nil
-- 
2.43.0


From b4b6cdb067763da375f80100d20fd74dcc9d51e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 07/80] fix: bencode: accept the empty dictionary key

---
 bencode/decode.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 899ea38..269b19c 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -251,6 +251,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		buf.WriteByte('d')
 	}
 	lastKey := ""
+	first := true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -266,10 +267,10 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		if err != nil {
 			return err
 		}
-		if lastKey >= key {
+		if !first && lastKey >= key {
 			return errors.New("consumeDictionary: dictionary keys not sorted")
 		}
-		lastKey = key
+		first, lastKey = false, key
 		if err := d.consume(buf); err != nil {
 			return err
 		}
@@ -470,6 +471,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		v.Set(reflect.MakeMap(t))
 	}
 	lastKey := ""
+	first := true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -485,10 +487,10 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeMap: dictionary keys not sorted")
 		}
-		lastKey = key.String()
+		first, lastKey = false, key.String()
 		elem := reflect.New(et)
 		// Pass the pointer to check for a unmarshaler with a pointer receiver.
 		if err := d.decode(elem); err != nil {
@@ -518,6 +520,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 	d.offset += 1
 	keyToField := getFieldsForStruct(v).keyToField
 	lastKey := ""
+	first := true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -533,10 +536,10 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeStruct: dictionary keys not sorted")
 		}
-		lastKey = key.String()
+		first, lastKey = false, key.String()
 		field, ok := keyToField[key.String()]
 		if !ok {
 			if err := d.consume(nil); err != nil {
-- 
2.43.0


From 974a0b962848f2dcb27f2b499020e1fcc3d9fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 08/80] fix: bencode: drop the old tail of a slice that a
 shorter list is decoded into

---
 bencode/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 269b19c..2a741f0 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -448,6 +448,9 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 		}
 		i++
 	}
+	if v.Kind() == reflect.Slice && i < v.Len() {
+		v.SetLen(i)
+	}
 	d.offset += 1
 	return nil
 }
-- 
2.43.0


From 2f4fe0bc94996f7a3a6898c4535b659e975db23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 09/80] fix: bencode: replace the value of an interface that
 holds no pointer instead of panicking

---
 bencode/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 2a741f0..d44ca49 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -572,7 +572,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeInterface(v reflect.Value) error {
-	if !v.IsNil() {
+	if !v.IsNil() && (v.Kind() != reflect.Interface || v.Elem().Kind() == reflect.Pointer && !v.Elem().IsNil()) {
 		return d.decode(v.Elem())
 	} else if v.NumMethod() != 0 {
 		// Can only decode into an any.
-- 
2.43.0


From 097ac444e01b743a41ebd1f62c2836f8816f6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 10/80] fix: bencode: skip keys of conflicting fields while
 decoding, as encoding does

---
 bencode/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index d44ca49..83dde8a 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -544,7 +544,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		}
 		first, lastKey = false, key.String()
 		field, ok := keyToField[key.String()]
-		if !ok {
+		if !ok || field.ignored {
 			if err := d.consume(nil); err != nil {
 				return err
 			}
-- 
2.43.0


From 6d72d62fa0fd30afcd2eb5b099c5c753a7a3e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 11/80] fix: bencode: return an error for a nil interface
 instead of panicking

---
 bencode/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/encode.go b/bencode/encode.go
index 5be9af2..2ce2a91 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -33,6 +33,9 @@ func NewEncoder(w io.Writer) *Encoder {
 }
 
 func (e *Encoder) Encode(v any) error {
+	if v == nil {
+		return errors.New("bencode: cannot encode nil")
+	}
 	return e.encode(reflect.ValueOf(v))
 }
 
-- 
2.43.0


From b566c8a0f0002f8fc9ebb47d7a91fa5b5d8989b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 12/80] fix: bencode: leave out dictionary keys whose value has
 no encoding

---
 bencode/encode.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 2ce2a91..f8025ea 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -206,6 +206,9 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 		return strings.Compare(a.String(), b.String())
 	})
 	for _, key := range keys {
+		if emitsNothing(v.MapIndex(key)) {
+			continue
+		}
 		if err := e.encodeString(key); err != nil {
 			return err
 		}
@@ -370,6 +373,35 @@ func isNil(v reflect.Value) bool {
 	}
 }
 
+// emitsNothing tells whether a value has no encoding: it leads to a nil.
+func emitsNothing(v reflect.Value) bool {
+	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
+		if v.IsNil() {
+			return true
+		}
+		if v.Type() != reflect.PointerTo(rawMessageType) && v.Type().Implements(marshalerType) {
+			return false
+		}
+		v = v.Elem()
+	}
+	if v.Type() == rawMessageType {
+		return v.Len() == 0
+	}
+	if v.Type().Implements(marshalerType) {
+		return false
+	}
+	switch v.Kind() {
+	case reflect.Map:
+		return v.IsNil()
+	case reflect.Slice:
+		return v.IsNil() && v.Type().Elem().Kind() != reflect.Uint8
+	default:
+		return false
+	}
+}
+
+var rawMessageType = reflect.TypeFor[RawMessage]()
+
 func isEmptyValue(v reflect.Value) bool {
 	switch v.Kind() {
 	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
@@ -406,7 +438,7 @@ func (e *Encoder) encodeStruct(v reflect.Value) error {
 	}
 	for _, f := range getFieldsForStruct(v).fields {
 		fv := fieldByIndex(v, f.index)
-		if isNil(fv) {
+		if isNil(fv) || emitsNothing(fv) {
 			continue
 		}
 		if f.omitempty && isEmptyValue(fv) {
-- 
2.43.0


From 04cad6a1b06c68274c5245be47dec7e7f644cdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 13/80] fix: bencode: a RawMessage that is not addressable is
 emitted as it is, too

---
 bencode/raw_message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bencode/raw_message.go b/bencode/raw_message.go
index 2e9406a..096cff3 100644
--- a/bencode/raw_message.go
+++ b/bencode/raw_message.go
@@ -2,8 +2,8 @@ package bencode
 
 type RawMessage []byte
 
-func (r *RawMessage) MarshalBencoding() ([]byte, error) {
-	return []byte(*r), nil
+func (r RawMessage) MarshalBencoding() ([]byte, error) {
+	return []byte(r), nil
 }
 
 func (r *RawMessage) UnmarshalBencoding(data []byte) error {
-- 
2.43.0


From ba1ef4f4751dfd41181e033f2a34cc52901d9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 14/80] fix: bencode: do not call MarshalBencoding on a nil
 pointer

---
 bencode/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/encode.go b/bencode/encode.go
index f8025ea..a5fa0fb 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -63,6 +63,9 @@ func (e *Encoder) writeString(s string) (n int, err error) {
 var marshalerType = reflect.TypeFor[Marshaler]()
 
 func (e *Encoder) encode(v reflect.Value) error {
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		return nil
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(marshalerType) && v.CanAddr() {
 		return e.encodeMarshaler(v.Addr())
 	}
-- 
2.43.0


From 532494f49cea3e62dd6ff4ff0f0a4239d0c5f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 15/80] fix: bitfield: Has is false for what lies outside
 instead of panicking

---
 bitfield/bitfield.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitfield/bitfield.go b/bitfield/bitfield.go
index 3ff6b4a..5766762 100644
--- a/bitfield/bitfield.go
+++ b/bitfield/bitfield.go
@@ -13,6 +13,9 @@ func New(n int) Bitfield {
 func (b Bitfield) Has(i int) bool {
 	bi := i / 8
 	bj := 7 - (i % 8)
+	if i < 0 || bi >= len(b) {
+		return false
+	}
 	return b[bi]&(1<<bj) != 0
 }
 
-- 
2.43.0


From 23c0c4b34b3638be652a0537d178ab544dd2facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 16/80] fix: peer: do not take a read of zero bytes for the
 first handshake byte

---
 api/peer/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 2b3713e..cf0653b 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -67,7 +67,7 @@ func (h *Handshake) MarshalBinary() ([]byte, error) {
 
 func (h *Handshake) Decode(r io.Reader) error {
 	data := make([]byte, HandshakeLength)
-	if _, err := r.Read(data[:1]); err != nil {
+	if _, err := io.ReadFull(r, data[:1]); err != nil {
 		return err
 	}
 	protocolLen := int(data[0])
-- 
2.43.0


From bba4c413e08a05c3c28d7d5626955691d592b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 17/80] fix: peer: refuse messages shorter than their fields
 instead of panicking

---
 api/peer/peer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index cf0653b..cdeb783 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -344,6 +344,14 @@ func (m *Message) MarshalBinary() ([]byte, error) {
 	return bu.Bytes(), nil
 }
 
+// minPayload is what the fixed fields of a message take.
+var minPayload = map[MessageType]int{
+	HAVE:    4,
+	REQUEST: 12,
+	PIECE:   8,
+	CANCEL:  12,
+}
+
 func (m *Message) Decode(r io.Reader) error {
 	lengthBytes := make([]byte, 4)
 	if _, err := io.ReadFull(r, lengthBytes); err != nil {
@@ -360,6 +368,9 @@ func (m *Message) Decode(r io.Reader) error {
 	}
 	m.Type = MessageType(payload[0])
 	payload = payload[1:]
+	if len(payload) < minPayload[m.Type] {
+		return fmt.Errorf("short %s message: %d bytes", m.Type, len(payload))
+	}
 	switch m.Type {
 	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
 	case BITFIELD:
-- 
2.43.0


From 849c68c074b47c797d74c869aa77a9b274696228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 18/80] fix: peer: bound the length of a message, so that a
 prefix cannot claim 4 GB

---
 api/peer/peer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index cdeb783..aaf7eaa 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -344,6 +344,9 @@ func (m *Message) MarshalBinary() ([]byte, error) {
 	return bu.Bytes(), nil
 }
 
+// maxMessageLength bounds what is allocated on the word of a length prefix.
+const maxMessageLength = 1 << 24
+
 // minPayload is what the fixed fields of a message take.
 var minPayload = map[MessageType]int{
 	HAVE:    4,
@@ -362,6 +365,9 @@ func (m *Message) Decode(r io.Reader) error {
 		m.Type = KEEPALIVE
 		return nil
 	}
+	if length > maxMessageLength {
+		return fmt.Errorf("message of %d bytes is too long", length)
+	}
 	payload := make([]byte, length)
 	if _, err := io.ReadFull(r, payload); err != nil {
 		return err
-- 
2.43.0


From d8c89dbcb277b35cc9e0d554812dfab3f0377fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 19/80] fix: tracker: return an error for malformed peer
 entries instead of panicking

---
 api/tracker/tracker.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 364d879..ed8a5d2 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -189,11 +189,27 @@ func parseCompactPeers(compact string) ([]*Peer, error) {
 func parsePeers(peerMaps []any) ([]*Peer, error) {
 	var peers []*Peer
 	for _, m := range peerMaps {
-		m := m.(map[string]any)
+		m, ok := m.(map[string]any)
+		if !ok {
+			return nil, errors.New("peer is not a dictionary")
+		}
+		// "peer id" is absent when the request asked for no_peer_id.
+		id, idOK := m["peer id"].(string)
+		if _, ok := m["peer id"]; ok && !idOK {
+			return nil, errors.New(`peer "peer id" is not a string`)
+		}
+		ip, ok := m["ip"].(string)
+		if !ok {
+			return nil, errors.New(`peer "ip" is not a string`)
+		}
+		port, ok := m["port"].(int)
+		if !ok {
+			return nil, errors.New(`peer "port" is not an integer`)
+		}
 		peer := &Peer{
-			ID:   m["peer id"].(string),
-			IP:   m["ip"].(string),
-			Port: m["port"].(int),
+			ID:   id,
+			IP:   ip,
+			Port: port,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From 518d667b2feb5adb836b09fec12c5b2dd4cb2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 20/80] fix: tracker: encode an empty peer list as a list

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index ed8a5d2..28be81c 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -130,6 +130,9 @@ func (p *Peers) MarshalBencoding() ([]byte, error) {
 		}
 		return bencode.Marshal(compact)
 	}
+	if p.List == nil {
+		return []byte("le"), nil
+	}
 	return bencode.Marshal(p.List)
 }
 
-- 
2.43.0


From cc861e8367a79f5fa06107e1d0e040cdeaa4f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 21/80] fix: tracker: refuse info hashes and peer ids that are
 not 20 bytes long

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 28be81c..f50c0f7 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -83,6 +83,9 @@ func (r *Request) Decode(rawQuery string) error {
 		}
 		switch dest := f.dest.(type) {
 		case *[20]byte:
+			if len(v) != len(*dest) {
+				return fmt.Errorf("%s is not %d bytes long", f.key, len(*dest))
+			}
 			copy((*dest)[:], v)
 		case *string:
 			*dest = v
-- 
2.43.0


From 591fefa0e39a64190bdb22ff7748842cf700f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 22/80] fix: tracker: refuse ports that do not fit a compact
 peer instead of truncating them

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index f50c0f7..9d58990 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -147,6 +147,9 @@ func compactPeers(peers []*Peer) ([]byte, error) {
 		if ip == nil {
 			return nil, fmt.Errorf(`peer "ip" is not an ipv4: %+v`, p.IP)
 		}
+		if p.Port < 0 || p.Port > 65535 {
+			return nil, fmt.Errorf(`peer "port" is out of range: %d`, p.Port)
+		}
 		b[i] = ip[0]
 		b[i+1] = ip[1]
 		b[i+2] = ip[2]
-- 
2.43.0


From 23f472b8594d5612c48ee536ae1d65d4da6d0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 23/80] fix: storage: refuse blocks that lie outside of their
 piece instead of panicking or reading the next one

---
 storage/storage.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 5214f08..51a6212 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -95,6 +95,12 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if index < 0 || index >= len(s.Torrent.pieces) {
+		return nil, fmt.Errorf("storage: no such piece: %d", index)
+	}
+	if begin < 0 || length < 0 || begin > s.Torrent.pieces[index].Length || length > s.Torrent.pieces[index].Length-begin {
+		return nil, fmt.Errorf("storage: block outside of piece: %d+%d", begin, length)
+	}
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
@@ -225,6 +231,12 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 }
 
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: no such piece: %d", index)
+	}
+	if begin < 0 || begin >= info.GetPieceLength(index) {
+		return fmt.Errorf("storage: block outside of piece: %d", begin)
+	}
 	if begin%BLOCK_LENGTH != 0 {
 		return fmt.Errorf("storage: misaligned block: %d %% %d != 0", begin, BLOCK_LENGTH)
 	}
-- 
2.43.0


From a0d13c559531be5b4f61dd7a78856fd930415a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 24/80] fix: storage: take the torrent and piece locks in one
 order, PutBlock and GetBlock could deadlock

---
 storage/storage.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 51a6212..de610c9 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -120,20 +120,18 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	if err := checkBlockSize(s.Torrent.Info, index, begin, len(data)); err != nil {
 		return err
 	}
-	s.Torrent.mu.RLock()
+	// The torrent is locked before the piece, as in GetBlock.
+	s.Torrent.mu.Lock()
+	defer s.Torrent.mu.Unlock()
 	if s.Torrent.coalesced {
-		s.Torrent.mu.RUnlock()
 		return ErrBlockExists
 	}
-	s.Torrent.mu.RUnlock()
 	piece := s.Torrent.pieces[index]
 	piece.mu.Lock()
 	defer piece.mu.Unlock()
 	if err := piece.putBlock(begin, data); err != nil {
 		return err
 	}
-	s.Torrent.mu.Lock()
-	defer s.Torrent.mu.Unlock()
 	if err := s.coalesceBlocks(piece); err != nil {
 		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
-- 
2.43.0


From 303ab2c983ff7d19bc585d5b3efda1cd7e855dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 25/80] fix: storage: resetting a failed or complete piece
 delivered its result twice and panicked

---
 storage/torrent.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/storage/torrent.go b/storage/torrent.go
index 2a5bfa7..02d20aa 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -102,7 +102,16 @@ func (p *Piece) Wait() error {
 }
 
 func (p *Piece) reset() {
-	p.err.Deliver(errors.New("storage: piece reset"))
+	if p.coalesced {
+		// The piece is on disk, there is nothing to fetch again.
+		return
+	}
+	select {
+	case <-p.err.Done:
+		// Delivered when the checksum did not match.
+	default:
+		p.err.Deliver(errors.New("storage: piece reset"))
+	}
 	p.err = future.New[error]()
 	p.blocks = nil
 	p.completeBlocks = 0
-- 
2.43.0


From 73042d0633ad4d1cc1acc3318028d4818e3ad178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 26/80] fix: storage: count a piece as downloaded when it is
 complete, not when it failed

---
 storage/storage.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index de610c9..f47755a 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,7 +38,7 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
-	st, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
+	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
@@ -48,7 +48,7 @@ func (s *Storage) Load() error {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(st.Size())
+		s.downloaded.Add(s.Torrent.Info.GetLength())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -133,10 +133,12 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 		return err
 	}
 	if err := s.coalesceBlocks(piece); err != nil {
-		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
 		return err
 	}
+	if piece.coalesced {
+		s.downloaded.Add(int64(piece.Length))
+	}
 	if err := s.coalescePieces(); err != nil {
 		return err
 	}
-- 
2.43.0


From 3398b1842b96aedc8d3f6cb314d002123f1f37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 27/80] fix: storage: Load skips files that are no complete
 piece instead of panicking or counting them

---
 storage/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index f47755a..5e6d914 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -62,10 +62,16 @@ func (s *Storage) Load() error {
 				if err != nil {
 					continue
 				}
+				if i < 0 || i >= len(s.Torrent.pieces) || dr.Name() != s.Torrent.pieces[i].FileName() {
+					continue
+				}
 				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
 				if err != nil {
 					return err
 				}
+				if st.Size() != int64(s.Torrent.pieces[i].Length) {
+					continue
+				}
 				s.downloaded.Add(st.Size())
 				s.Torrent.completePiece(s.Torrent.pieces[i])
 			}
-- 
2.43.0


From 6497c5bfa14ab45cdf720e606212c6662cca20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 28/80] fix: storage: flush files before renaming them, Load
 trusts them by their names

---
 storage/storage.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 5e6d914..5a3f029 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -288,6 +288,10 @@ func (s *Storage) coalesceBlocks(piece *Piece) error {
 	if hash != piece.SHA1 {
 		return &ChecksumError{piece.Index, hash, piece.SHA1}
 	}
+	// The data must not reach the disk after its name.
+	if err = temp.Sync(); err != nil {
+		return err
+	}
 	if err = os.MkdirAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()), 0o0700); err != nil {
 		return err
 	}
@@ -329,6 +333,9 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if _, err := io.Copy(temp, r); err != nil {
 		return err
 	}
+	if err = temp.Sync(); err != nil {
+		return err
+	}
 	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
@@ -367,6 +374,9 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 		if _, err = io.CopyN(f, r, int64(file.Length)); err != nil {
 			return err
 		}
+		if err = f.Sync(); err != nil {
+			return err
+		}
 		f.Close()
 	}
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
-- 
2.43.0


From 042e9dfb1440d5d55352f680a34c11cfe7ff4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 29/80] fix: storage: refuse metainfo with unsafe paths or
 contradictory sizes

---
 storage/storage.go |  9 ++++++++
 storage/torrent.go | 55 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 5a3f029..db984f4 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,6 +38,9 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
+	if s.Torrent.invalid != nil {
+		return s.Torrent.invalid
+	}
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
@@ -101,6 +104,9 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if s.Torrent.invalid != nil {
+		return nil, s.Torrent.invalid
+	}
 	if index < 0 || index >= len(s.Torrent.pieces) {
 		return nil, fmt.Errorf("storage: no such piece: %d", index)
 	}
@@ -123,6 +129,9 @@ func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 
 func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	slog.Debug("PutBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", len(data), "data", "<omitted>")
+	if s.Torrent.invalid != nil {
+		return s.Torrent.invalid
+	}
 	if err := checkBlockSize(s.Torrent.Info, index, begin, len(data)); err != nil {
 		return err
 	}
diff --git a/storage/torrent.go b/storage/torrent.go
index 02d20aa..5d89b0d 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -3,6 +3,9 @@ package storage
 import (
 	"errors"
 	"fmt"
+	"math"
+	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/browles/drip/api/metainfo"
@@ -19,6 +22,7 @@ type Torrent struct {
 	completePieces int
 	pieces         []*Piece
 	err            *future.Future[error]
+	invalid        error
 }
 
 func newTorrent(info *metainfo.Info) *Torrent {
@@ -28,12 +32,63 @@ func newTorrent(info *metainfo.Info) *Torrent {
 		pieces:   make([]*Piece, len(info.Pieces)),
 		err:      future.New[error](),
 	}
+	torrent.invalid = validate(info)
 	for i := range len(info.Pieces) {
 		torrent.pieces[i] = newPiece(info, i)
 	}
 	return torrent
 }
 
+// validate refuses metainfo whose files would lie outside of the target
+// directory, or on each other, or whose sizes contradict each other.
+func validate(info *metainfo.Info) error {
+	if !isFileName(info.Name) {
+		return fmt.Errorf("storage: invalid name: %q", info.Name)
+	}
+	total := info.Length
+	if len(info.Files) > 0 {
+		total = 0
+		files := make(map[string]bool)
+		dirs := make(map[string]bool)
+		for _, f := range info.Files {
+			if f == nil || len(f.Path) == 0 || f.Length < 0 || f.Length > math.MaxInt64-total {
+				return errors.New("storage: invalid file")
+			}
+			total += f.Length
+			for i, name := range f.Path {
+				if !isFileName(name) {
+					return fmt.Errorf("storage: invalid path: %q", f.Path)
+				}
+				path := strings.Join(f.Path[:i+1], "/")
+				if files[path] || i == len(f.Path)-1 && dirs[path] {
+					return fmt.Errorf("storage: conflicting path: %q", f.Path)
+				}
+				if i < len(f.Path)-1 {
+					dirs[path] = true
+				} else {
+					files[path] = true
+				}
+			}
+		}
+	}
+	if total < 0 || total > 0 && info.PieceLength <= 0 {
+		return errors.New("storage: invalid length")
+	}
+	var pieces int64
+	if total > 0 {
+		pieces = (total-1)/int64(info.PieceLength) + 1
+	}
+	if int64(len(info.Pieces)) != pieces {
+		return fmt.Errorf("storage: %d pieces for %d bytes", len(info.Pieces), total)
+	}
+	return nil
+}
+
+// isFileName tells whether a name is one component of a path, and a real one.
+func isFileName(name string) bool {
+	return filepath.IsLocal(name) && filepath.Base(name) == name && name != "." && !strings.ContainsAny(name, "/\\\x00")
+}
+
 func (t *Torrent) WorkDir() string {
 	return fmt.Sprintf("%x", t.Info.SHA1)
 }
-- 
2.43.0


From fc53408ccfdcf3af582e76d0e718c8f664ad8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 30/80] fix: bencode: an encoder counts the nesting of each
 value anew, errors used it up

---
 bencode/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bencode/encode.go b/bencode/encode.go
index a5fa0fb..a80bb46 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -36,6 +36,7 @@ func (e *Encoder) Encode(v any) error {
 	if v == nil {
 		return errors.New("bencode: cannot encode nil")
 	}
+	e.ptrDepth = 0 // an error leaves it where it was
 	return e.encode(reflect.ValueOf(v))
 }
 
-- 
2.43.0


From 7ec9e035931ca4f7870e23503d3bc2b719ecd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 31/80] fix: storage: name temporary files by the info hash,
 long torrent names did not fit

---
 storage/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index db984f4..4e08309 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -327,7 +327,7 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.CreateTemp(tempDir, s.Torrent.FileName())
+	temp, err := os.CreateTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
@@ -360,7 +360,7 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.MkdirTemp(tempDir, s.Torrent.FileName())
+	temp, err := os.MkdirTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 15b3cc6219c3c1941a7f2bb07cddfb4437674496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 32/80] fix: p2p: refusing a connection left the server locked
 for good

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index d71d7b7..83428d3 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -270,10 +270,12 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
+		p2p.mu.Unlock()
 		return ErrTooManyConnections
 	}
 	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
 		if _, ok := p2p.activePeers[idip]; ok {
+			p2p.mu.Unlock()
 			return ErrAlreadyConnected
 		}
 	}
-- 
2.43.0


From 9c800a217cfe670e6eaba4a22e6a1c93732e8601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 33/80] fix: p2p: close connections that are refused, and do
 not unregister the one they are refused for

---
 p2p/peer.go   |  1 +
 p2p/server.go | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672f31f..892da8d 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -167,6 +167,7 @@ func (peer *Peer) serve(ctx context.Context) {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
 		}
+		peer.server.Disconnect(peer)
 		return
 	}
 	defer func() {
diff --git a/p2p/server.go b/p2p/server.go
index 83428d3..5e1284f 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -460,13 +460,15 @@ func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
 	}
-	for addr := range p2p.knownAddrs[peer.IDIP()] {
-		if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
-			delete(p2p.knownIDIPs, addr)
+	if p2p.activePeers[peer.IDIP()] == peer {
+		for addr := range p2p.knownAddrs[peer.IDIP()] {
+			if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
+				delete(p2p.knownIDIPs, addr)
+			}
 		}
+		delete(p2p.knownAddrs, peer.IDIP())
+		delete(p2p.activePeers, peer.IDIP())
 	}
-	delete(p2p.knownAddrs, peer.IDIP())
-	delete(p2p.activePeers, peer.IDIP())
 	return peer.Close()
 }
 
-- 
2.43.0


From 3940731c3370256ab6eb07cbd4723e965f0f34aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 34/80] fix: p2p: lock the server to forget a piece in flight,
 and do so before the peer is asked again

---
 p2p/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 5e1284f..472dd6d 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -401,8 +401,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
-			defer delete(p2p.inflight, index)
-			if err := p2p.requestPiece(ctx, peer, index); err != nil {
+			err := p2p.requestPiece(ctx, peer, index)
+			p2p.mu.Lock()
+			delete(p2p.inflight, index)
+			p2p.mu.Unlock()
+			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
 					if err := p2p.Block(peer); err != nil {
-- 
2.43.0


From fe7100b41c53520ea530f4af6e608640eda01396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 35/80] fix: p2p: do not wait forever, with the server locked,
 for a download queue that has ended

---
 p2p/peer.go   |  1 +
 p2p/server.go | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 892da8d..2b2c926 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -27,6 +27,7 @@ type Peer struct {
 	Bitfield         bitfield.Bitfield
 
 	server     *Server
+	ctx        context.Context
 	cancel     context.CancelFunc
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
diff --git a/p2p/server.go b/p2p/server.go
index 472dd6d..9e1df0b 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -159,10 +159,9 @@ func (p2p *Server) Serve(ctx context.Context) error {
 			defer func() { <-p2p.peerSemaphore }()
 			slog.Debug("Serve.Accept", "conn", conn.RemoteAddr())
 			peer := p2p.newPeer(conn)
-			ctx, cancel := context.WithCancel(ctx)
-			peer.cancel = cancel
+			peer.ctx, peer.cancel = context.WithCancel(ctx)
 			slog.Info("Serve", "peer", peer.Addr())
-			peer.serve(ctx)
+			peer.serve(peer.ctx)
 		}()
 	}
 }
@@ -369,9 +368,8 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 	if err != nil {
 		return err
 	}
-	ctx, cancel := context.WithCancel(ctx)
-	peer.cancel = cancel
-	peer.serve(ctx)
+	peer.ctx, peer.cancel = context.WithCancel(ctx)
+	peer.serve(peer.ctx)
 	return nil
 }
 
@@ -413,7 +411,10 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
-			p2p.downloadQueue <- peer
+			select {
+			case <-ctx.Done():
+			case p2p.downloadQueue <- peer:
+			}
 		}()
 		return nil
 	}
@@ -422,7 +423,10 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		case <-ctx.Done():
 			return
 		case <-time.After(5 * time.Second):
-			p2p.downloadQueue <- peer
+		}
+		select {
+		case <-ctx.Done():
+		case p2p.downloadQueue <- peer:
 		}
 	}()
 	return nil
@@ -454,8 +458,12 @@ func (p2p *Server) queuePeer(peer *Peer) bool {
 	if _, ok := p2p.queuedPeers[peer]; ok {
 		return false
 	}
+	select {
+	case <-peer.ctx.Done():
+		return false
+	case p2p.downloadQueue <- peer:
+	}
 	p2p.queuedPeers[peer] = struct{}{}
-	p2p.downloadQueue <- peer
 	return true
 }
 
-- 
2.43.0


From 54531fe03bce8988526549257d2cbfd6b050af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 36/80] fix: p2p: order pieces by their own rarity, not by that
 of their position

---
 p2p/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 9e1df0b..3c01b4d 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -387,11 +387,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return peer.NotInterest()
 	}
-	sort.Slice(pieces, func(i, j int) bool {
-		if len(p2p.indexToPeers[i]) == len(p2p.indexToPeers[j]) {
-			return rand.Float64() < 0.5
-		}
-		return len(p2p.indexToPeers[i]) < len(p2p.indexToPeers[j])
+	rand.Shuffle(len(pieces), func(i, j int) {
+		pieces[i], pieces[j] = pieces[j], pieces[i]
+	})
+	sort.SliceStable(pieces, func(i, j int) bool {
+		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])
 	})
 	for _, index := range pieces {
 		if p2p.inflight[index] != nil {
-- 
2.43.0


From 23f71866bfff97e3d4fd43a81a20ec2ed9339272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 37/80] fix: p2p: disconnect peers that claim pieces the
 torrent does not have instead of panicking

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 2b2c926..b7252b8 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -225,6 +225,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
+	if i >= len(peer.server.Info.Pieces) {
+		return fmt.Errorf("p2p: no such piece: %d", i)
+	}
 	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
-- 
2.43.0


From b8a8dc945244995f06f9ef6b2ab81aa186c5cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 38/80] fix: p2p: lock the bitfields of the torrent and of
 peers, they are written while others read them

---
 p2p/peer.go        | 3 +--
 p2p/server.go      | 8 ++++++--
 storage/torrent.go | 8 ++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index b7252b8..1dbfb4f 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -228,9 +228,8 @@ func (peer *Peer) HandleHave(i int) error {
 	if i >= len(peer.server.Info.Pieces) {
 		return fmt.Errorf("p2p: no such piece: %d", i)
 	}
-	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
-	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
+	if !peer.server.Storage.Torrent.CompletePieces().Has(i) {
 		peer.server.QueuePeer(peer)
 		return peer.Interest()
 	}
diff --git a/p2p/server.go b/p2p/server.go
index 3c01b4d..8ab0782 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -299,7 +299,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.CompletePieces()
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
 		return err
 	}
@@ -326,6 +326,10 @@ func (p2p *Server) Block(peer *Peer) error {
 func (p2p *Server) RecordIndex(i int, peer *Peer) {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
+	if peer.Closed.Load() {
+		return
+	}
+	peer.Bitfield.Add(i)
 	m, ok := p2p.indexToPeers[i]
 	if !ok {
 		m = make(map[*Peer]struct{})
@@ -380,7 +384,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return nil
 	}
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.CompletePieces()
 	pieceBf := peer.Bitfield.Difference(bf)
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
diff --git a/storage/torrent.go b/storage/torrent.go
index 5d89b0d..6fe789c 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"path/filepath"
+	"slices"
 	"strings"
 	"sync"
 
@@ -104,6 +105,13 @@ func (t *Torrent) Wait() error {
 	return fut.Wait()
 }
 
+// CompletePieces returns a copy of the bitfield.
+func (t *Torrent) CompletePieces() bitfield.Bitfield {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+	return slices.Clone(t.Bitfield)
+}
+
 func (t *Torrent) completePiece(piece *Piece) {
 	piece.coalesced = true
 	piece.err.Deliver(nil)
-- 
2.43.0


From c0ff79fee84821643933bc2fe85c3dd29a0c8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 39/80] fix: p2p: a peer that sent a bad piece was not blocked
 if it was disconnected first

---
 p2p/peer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 1dbfb4f..b52216c 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -189,6 +189,10 @@ func (peer *Peer) serve(ctx context.Context) {
 		}
 		if err = peer.HandleMessage(m); err != nil {
 			slog.Error("serve.HandleMessage", "err", err)
+			if _, ok := err.(*storage.ChecksumError); ok {
+				// Before Disconnect forgets what is to be blocked.
+				peer.server.Block(peer)
+			}
 			return
 		}
 	}
-- 
2.43.0


From 1876dd890b33ecc681527c28a8acc7d824841ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 40/80] fix: p2p: take only blocks that were requested, others
 get honest peers blocked

---
 p2p/peer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index b52216c..45c6ab9 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -115,11 +115,6 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	}
 	slog.Debug("Receive", "peer", p.IDIP(), "message", m)
 	switch m.Type {
-	case peerapi.PIECE:
-		p.mu.Lock()
-		br := blockRequest{m.Index(), m.Begin(), len(m.Piece())}
-		p.completeRequest(&br, nil)
-		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
 		for br := range p.inflightRequests {
@@ -273,7 +268,17 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
+	// Blocks that nobody waits for may be wrong, and the piece would be held
+	// against the peer it is being fetched from. The lock keeps the request
+	// from ending before its block is put.
+	peer.mu.Lock()
+	defer peer.mu.Unlock()
+	br := blockRequest{index, begin, len(data)}
+	if _, ok := peer.inflightRequests[br]; !ok {
+		return nil
+	}
 	err := peer.server.Storage.PutBlock(index, begin, data)
+	peer.completeRequest(&br, nil)
 	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
 		return err
 	}
-- 
2.43.0


From 1ff3514d9ad8378a66293f156859deb65284390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 41/80] fix: p2p: note a choke before the requests it ends are
 failed, others were sent after it

---
 p2p/peer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 45c6ab9..b1b339f 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -117,6 +117,7 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	switch m.Type {
 	case peerapi.CHOKE:
 		p.mu.Lock()
+		p.RemoteChoked.Store(true)
 		for br := range p.inflightRequests {
 			p.completeRequest(&br, ErrChoked)
 		}
@@ -197,7 +198,7 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	switch m.Type {
 	case peerapi.KEEPALIVE:
 	case peerapi.CHOKE:
-		peer.RemoteChoked.Store(true)
+		// Receive has handled it.
 	case peerapi.UNCHOKE:
 		peer.RemoteChoked.Store(false)
 		peer.server.QueuePeer(peer)
-- 
2.43.0


From 0e932f4d7b153c927b0b8d1b2f2df7c38c1a5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 42/80] fix: p2p: announce every complete piece to every peer,
 also if one of them fails

---
 p2p/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 8ab0782..c5d0bbf 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -437,7 +437,8 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 }
 
 func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
-	if err := p.requestPiece(ctx, i); err != nil {
+	err := p.requestPiece(ctx, i)
+	if !p2p.Storage.Torrent.CompletePieces().Has(i) {
 		return err
 	}
 	p2p.mu.Lock()
@@ -447,12 +448,11 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 		if p.Closed.Load() {
 			continue
 		}
-		err := p.Send(peerapi.Have(i))
-		if err != nil {
-			return err
+		if err := p.Send(peerapi.Have(i)); err != nil {
+			slog.Error("requestPiece.Send", "err", err)
 		}
 	}
-	return nil
+	return err
 }
 
 func (p2p *Server) queuePeer(peer *Peer) bool {
-- 
2.43.0


From 2db675953efead79767dd7c9f18b68e3372d9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 43/80] fix: p2p: do not request the remaining blocks of an
 attempt that has failed

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index b1b339f..43d5e0c 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -316,6 +316,9 @@ func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 }
 
 func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	if p.RemoteChoked.Load() {
 		return ErrChoked
 	}
-- 
2.43.0


From 480a824fc7c4069f5262de12de4933dd0b6e53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 44/80] fix: p2p: bound how long a peer that does not read can
 hold up the server, and close it

---
 p2p/peer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 43d5e0c..f87d11b 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -97,6 +97,10 @@ func (p *Peer) Addr() addr {
 func (p *Peer) Send(m *peerapi.Message) error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	return p.send(m)
+}
+
+func (p *Peer) send(m *peerapi.Message) error {
 	if m.Type == peerapi.REQUEST {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
@@ -104,7 +108,13 @@ func (p *Peer) Send(m *peerapi.Message) error {
 		p.SetReadDeadline(time.Now().Add(2 * time.Minute))
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
-	return peerapi.Write(p.Conn, m)
+	p.SetWriteDeadline(time.Now().Add(10 * time.Second))
+	if err := peerapi.Write(p.Conn, m); err != nil {
+		// What follows a part of a message could not be read.
+		p.Close()
+		return err
+	}
+	return nil
 }
 
 func (p *Peer) Receive() (m *peerapi.Message, err error) {
-- 
2.43.0


From c36e10c2343684ed582fd1849348e349536a0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 45/80] fix: p2p: change and announce interest and choking in
 one step, two changes could arrive in the wrong order

---
 p2p/peer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index f87d11b..1e412cf 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -142,29 +142,37 @@ func (p *Peer) Keepalive() error {
 }
 
 func (p *Peer) Choke() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Choked.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Choke())
+		return p.send(peerapi.Choke())
 	}
 	return nil
 }
 
 func (p *Peer) Unchoke() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Choked.CompareAndSwap(true, false) {
-		return p.Send(peerapi.Unchoke())
+		return p.send(peerapi.Unchoke())
 	}
 	return nil
 }
 
 func (p *Peer) Interest() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Interested.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Interested())
+		return p.send(peerapi.Interested())
 	}
 	return nil
 }
 
 func (p *Peer) NotInterest() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Interested.CompareAndSwap(true, false) {
-		return p.Send(peerapi.NotInterested())
+		return p.send(peerapi.NotInterested())
 	}
 	return nil
 }
-- 
2.43.0


From 48cafadc65c51885ed0e397589d06cea9d858b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 46/80] fix: p2p: a cancel swallowed the next request of the
 same block

---
 p2p/peer.go   | 17 +----------------
 p2p/server.go |  1 -
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 1e412cf..64c1c13 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -35,7 +35,6 @@ type Peer struct {
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
-	canceledRequests map[blockRequest]struct{}
 }
 
 type blockRequest struct {
@@ -235,7 +234,7 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	case peerapi.REQUEST:
 		return peer.HandleRequest(m.Index(), m.Begin(), m.Length())
 	case peerapi.CANCEL:
-		peer.HandleCancel(m.Index(), m.Begin(), m.Length())
+		// Requests before it have been answered, it does not concern later ones.
 	case peerapi.PIECE:
 		return peer.HandlePiece(m.Index(), m.Begin(), m.Piece())
 	}
@@ -259,13 +258,6 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 		return ErrChoked
 	}
 	req := blockRequest{index, begin, length}
-	peer.mu.Lock()
-	if _, ok := peer.canceledRequests[req]; ok {
-		delete(peer.canceledRequests, req)
-		peer.mu.Unlock()
-		return nil
-	}
-	peer.mu.Unlock()
 	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
 	if err != nil {
 		return err
@@ -279,13 +271,6 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	return nil
 }
 
-func (peer *Peer) HandleCancel(index, begin, length int) {
-	peer.mu.Lock()
-	defer peer.mu.Unlock()
-	k := blockRequest{index, begin, length}
-	peer.canceledRequests[k] = struct{}{}
-}
-
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
 	// Blocks that nobody waits for may be wrong, and the piece would be held
 	// against the peer it is being fetched from. The lock keeps the request
diff --git a/p2p/server.go b/p2p/server.go
index c5d0bbf..99e75bf 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -493,7 +493,6 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		server:           p2p,
 		Conn:             conn,
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
-		canceledRequests: make(map[blockRequest]struct{}),
 	}
 	peer.RemoteChoked.Store(true)
 	peer.Choked.Store(true)
-- 
2.43.0


From 05b0e88812fef4f4fee810991de1e75f068e3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 47/80] fix: p2p: leave a piece that timed out to other peers,
 its peer took it again at once and forever

---
 p2p/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 99e75bf..aec1c48 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -415,6 +415,14 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
+			if errors.Is(err, context.DeadlineExceeded) {
+				// Peers that wait for a piece look for one every five seconds.
+				select {
+				case <-ctx.Done():
+					return
+				case <-time.After(10 * time.Second):
+				}
+			}
 			select {
 			case <-ctx.Done():
 			case p2p.downloadQueue <- peer:
-- 
2.43.0


From 76f5c14740a92274e9f7a555e18baff2bda4a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 48/80] fix: p2p: dial IPv6 peers, and give up in bounded time
 and when the server stops

---
 p2p/server.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index aec1c48..74f027c 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net"
 	"sort"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -346,9 +347,10 @@ func (p2p *Server) Uploaded() int64 {
 	return p2p.uploaded.Load()
 }
 
-func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
+func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	dialer := &net.Dialer{Timeout: 10 * time.Second}
+	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -368,7 +370,7 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 		return nil
 	}
 	p2p.mu.Unlock()
-	peer, err := p2p.dialTCP(tp)
+	peer, err := p2p.dialTCP(ctx, tp)
 	if err != nil {
 		return err
 	}
@@ -527,5 +529,5 @@ func remoteAddr(tp *tracker.Peer) (addr, error) {
 	if ip == nil {
 		return "", errors.New("p2p: bad ip")
 	}
-	return addr(fmt.Sprintf("%s:%d", ip.String(), tp.Port)), nil
+	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil
 }
-- 
2.43.0


From 259911929eff8fce9bec89824ba0819b99699f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 49/80] fix: p2p: peers that could not be reached or went away
 were never dialed again

---
 p2p/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 74f027c..fdd9c01 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -183,6 +183,11 @@ func (p2p *Server) DialPeers(ctx context.Context) error {
 				if err := p2p.dialPeer(ctx, tp); err != nil {
 					slog.Error("DialPeers.dialPeer", "err", err)
 				}
+				if addr, err := remoteAddr(tp); err == nil {
+					p2p.mu.Lock()
+					delete(p2p.knownPeers, addr)
+					p2p.mu.Unlock()
+				}
 			}()
 		}
 	}
-- 
2.43.0


From 78f3ddf2b054ad437c3fec6b2f29c2442cb57a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 50/80] fix: p2p: announce what is left of multi file torrents,
 too

---
 p2p/multitracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f0adc4e..44d4675 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -109,7 +109,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		Port:       mt.server.Port,
 		Uploaded:   mt.server.Uploaded(),
 		Downloaded: mt.server.Downloaded(),
-		Left:       mt.server.Info.Length - mt.server.Storage.Downloaded(),
+		Left:       mt.server.Info.GetLength() - mt.server.Storage.Downloaded(),
 		Event:      string(event),
 		Compact:    true,
 	}
-- 
2.43.0


From 3f70424afc6f674183b06711b873ad722987afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 51/80] fix: p2p: keep the query of announce URLs, it holds the
 key to private trackers

---
 p2p/multitracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 44d4675..fbca945 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -117,7 +117,10 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	url.RawQuery = req.Encode()
+	if url.RawQuery != "" {
+		url.RawQuery += "&"
+	}
+	url.RawQuery += req.Encode()
 	httpRes, err := http.Get(url.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 326204992a5dd48b9df7b37e336ce279bdf34463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 52/80] fix: p2p: a tracker that does not answer held up the
 server, and responses were never closed

---
 p2p/multitracker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index fbca945..acb961c 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"time"
 
 	"github.com/browles/drip/api/metainfo"
 	trackerapi "github.com/browles/drip/api/tracker"
@@ -72,6 +73,8 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 	return
 }
 
+var httpClient = &http.Client{Timeout: 15 * time.Second}
+
 type Tracker struct {
 	URL    string
 	server *Server
@@ -121,10 +124,11 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		url.RawQuery += "&"
 	}
 	url.RawQuery += req.Encode()
-	httpRes, err := http.Get(url.String())
+	httpRes, err := httpClient.Get(url.String())
 	if err != nil {
 		return nil, err
 	}
+	defer httpRes.Body.Close()
 	data, err := io.ReadAll(httpRes.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9f2373b965680c2b4a8682a5986d03a465002ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 53/80] fix: p2p: a tracker response without peers made the
 server panic

---
 p2p/multitracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index acb961c..d0f0273 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -140,5 +140,8 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if res.FailureReason != "" {
 		return nil, errors.New("tracker: request failed: " + res.FailureReason)
 	}
+	if res.Peers == nil {
+		res.Peers = &trackerapi.Peers{}
+	}
 	return res, nil
 }
-- 
2.43.0


From db8f8669f8a423102dd9986e316c549ea4c69cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 54/80] fix: p2p: starting a torrent whose tracker tiers are
 empty is an error, not a panic

---
 p2p/multitracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index d0f0273..3c6df07 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -59,6 +59,7 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 }
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
+	err = errors.New("tracker: no trackers")
 	for _, tier := range mt.TrackerTiers {
 		for j, tracker := range tier {
 			res, err = tracker.get(event)
-- 
2.43.0


From fb510f5f68f8a9923f63c92b3f46ac6932e4a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 55/80] fix: p2p: lock the tracker tiers, the server stops
 while it announces

---
 p2p/multitracker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 3c6df07..204870f 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/browles/drip/api/metainfo"
@@ -18,6 +19,8 @@ import (
 // https://www.bittorrent.org/beps/bep_0012.html
 type Multitracker struct {
 	TrackerTiers [][]*Tracker
+
+	mu sync.Mutex
 }
 
 func NewMultitracker(mi *metainfo.Metainfo, s *Server) *Multitracker {
@@ -61,9 +64,15 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
 	err = errors.New("tracker: no trackers")
 	for _, tier := range mt.TrackerTiers {
-		for j, tracker := range tier {
+		mt.mu.Lock()
+		trackers := slices.Clone(tier)
+		mt.mu.Unlock()
+		for _, tracker := range trackers {
 			res, err = tracker.get(event)
 			if err == nil {
+				mt.mu.Lock()
+				defer mt.mu.Unlock()
+				j := slices.Index(tier, tracker)
 				copy(tier[1:j+1], tier[0:j])
 				tier[0] = tracker
 				return
-- 
2.43.0


From 28355dc1bb2c4ee6d558f560a73818e3e4a24f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 56/80] fix: p2p: an announce interval that is no positive
 duration made the server panic

---
 p2p/server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index fdd9c01..1b0b838 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"maps"
+	"math"
 	"math/rand"
 	"net"
 	"sort"
@@ -59,6 +60,9 @@ var (
 	ErrAlreadyConnected   = errors.New("p2p: already connected")
 )
 
+// defaultInterval is used when the tracker gives no sensible one.
+const defaultInterval = 30 * time.Minute
+
 func New(mi *metainfo.Metainfo, peerID [20]byte, storage *storage.Storage, port int) *Server {
 	s := &Server{
 		Info:    mi.Info,
@@ -115,7 +119,11 @@ func (p2p *Server) Start() error {
 			slog.Error("Start.AddPeer", "err", err)
 		}
 	}
-	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, time.Duration(res.Interval)*time.Second) })
+	interval := defaultInterval
+	if 0 < res.Interval && res.Interval < math.MaxInt32 {
+		interval = time.Duration(res.Interval) * time.Second
+	}
+	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, interval) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
 	}
-- 
2.43.0


From 0b5872112eab1ab54955b2dd48354ad017fbc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 57/80] fix: p2p: one failed announce ended the server

---
 p2p/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 1b0b838..5c6f180 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -241,7 +241,9 @@ func (p2p *Server) UnchokePeers(ctx context.Context) error {
 func (p2p *Server) Announce(ctx context.Context) error {
 	res, err := p2p.Tracker.Announce()
 	if err != nil {
-		return err
+		// The next one may succeed, and peers are still connected.
+		slog.Error("Announce", "err", err)
+		return nil
 	}
 	slog.Debug("Announce", "num_peers", len(res.Peers.List))
 	for _, tp := range res.Peers.List {
-- 
2.43.0


From a46d81ff2b13b0209637ff0d6b51021a9aab9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 58/80] fix: p2p: stop once, without holding up peers, and
 entirely before Start returns

---
 p2p/server.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 5c6f180..0f0f3f6 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -36,6 +36,8 @@ type Server struct {
 	downloadQueue chan *Peer
 	tcp           net.Listener
 	cancel        context.CancelFunc
+	stopOnce      sync.Once
+	stopErr       error
 	uploaded      atomic.Int64
 	downloaded    atomic.Int64
 
@@ -92,19 +94,27 @@ func (p2p *Server) Start() error {
 	if err != nil {
 		return err
 	}
-	p2p.tcp, err = net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
+	tcp, err := net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
 	if err != nil {
 		return err
 	}
 	slog.Info("Start", "network", "tcp", "port", p2p.Port)
 	ctx, cancel := context.WithCancel(context.Background())
-	p2p.cancel = cancel
-	defer cancel()
+	p2p.mu.Lock()
+	p2p.tcp, p2p.cancel = tcp, cancel
+	p2p.mu.Unlock()
 	eg, ctx := errgroup.WithContext(ctx)
+	stopped := make(chan struct{})
 	go func() {
+		defer close(stopped)
 		<-ctx.Done()
 		p2p.Stop()
 	}()
+	defer func() {
+		cancel()
+		eg.Wait()
+		<-stopped
+	}()
 	eg.Go(func() error { return p2p.Serve(ctx) })
 	eg.Go(func() error { return p2p.RequestPieces(ctx) })
 	eg.Go(func() error { return p2p.DialPeers(ctx) })
@@ -132,18 +142,26 @@ func (p2p *Server) Start() error {
 
 func (p2p *Server) Stop() error {
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
-	if p2p.cancel == nil {
+	started := p2p.cancel != nil
+	p2p.mu.Unlock()
+	if !started {
 		return errors.New("p2p: server not started")
 	}
+	p2p.stopOnce.Do(func() { p2p.stopErr = p2p.stop() })
+	return p2p.stopErr
+}
+
+func (p2p *Server) stop() error {
+	p2p.mu.Lock()
 	p2p.cancel()
 	p2p.tcp.Close()
 	var errs []error
-	_, err := p2p.Tracker.Stop()
-	errs = append(errs, err)
 	for _, p := range p2p.activePeers {
 		errs = append(errs, p2p.disconnect(p))
 	}
+	p2p.mu.Unlock()
+	_, err := p2p.Tracker.Stop()
+	errs = append(errs, err)
 	return errors.Join(errs...)
 }
 
-- 
2.43.0


From ffa9f3d1012668f4c34a001beebd066291f1b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 59/80] fix: pex: a peer that wrote its address unusually was
 told of itself

---
 pex/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 5051d25..892f042 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -106,7 +106,8 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad port"))
 		return
 	}
-	addr := fmt.Sprintf("%s:%d", netIP.String(), r.Port)
+	ip = netIP.String()
+	addr := fmt.Sprintf("%s:%d", ip, r.Port)
 	torrent.mu.Lock()
 	defer torrent.mu.Unlock()
 	peer, ok := torrent.Peers[addr]
-- 
2.43.0


From 7dc965418d95c2b9aed46aab076d868b2a5013a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 60/80] fix: pex: refuse ports that do not exist, one of them
 made every compact response fail

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 892f042..4372cce 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -102,7 +102,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad ip"))
 		return
 	}
-	if r.Port == 0 {
+	if r.Port <= 0 || r.Port > 65535 {
 		fail(errors.New("bad port"))
 		return
 	}
-- 
2.43.0


From 6375d8a7e33f4a2a8e850e15909660f696e9ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 61/80] fix: pex: one IPv6 peer made every compact response
 fail

---
 pex/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index 4372cce..7a3d85e 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -129,6 +129,10 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 			continue
 		}
 		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
+		if r.Compact && net.ParseIP(p.tp.IP).To4() == nil {
+			// The compact form holds IPv4 addresses only.
+			continue
+		}
 		if paddr != addr {
 			peers.List = append(peers.List, p.tp)
 		}
-- 
2.43.0


From c2a3d7407e6b7e544c7609017294b9d156b2d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 62/80] fix: pex: a peer that came back with another id was
 listed with its old one

---
 pex/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index 7a3d85e..a0bf995 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -121,6 +121,10 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		}
 		torrent.Peers[addr] = peer
 	}
+	if id := string(r.PeerID[:]); peer.tp.ID != id {
+		// Another client at the same address, or the same one restarted.
+		peer.tp = &trackerapi.Peer{ID: id, IP: ip, Port: r.Port}
+	}
 	peer.UpdatedAt = time.Now()
 	peer.LastEvent = r.Event
 	peers := &trackerapi.Peers{Compact: r.Compact}
-- 
2.43.0


From 803745529b449890bd69ab0324408e3c0c00e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:43 +0000
Subject: [PATCH 63/80] fix: p2p: stop peers that are in their handshake, too,
 they outlived the server for seconds

---
 p2p/peer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 64c1c13..0b6d92a 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -177,6 +177,8 @@ func (p *Peer) NotInterest() error {
 }
 
 func (peer *Peer) serve(ctx context.Context) {
+	// Stop disconnects active peers, others may be in their handshake.
+	defer context.AfterFunc(ctx, func() { peer.Close() })()
 	if err := peer.server.Connect(peer); err != nil {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
-- 
2.43.0


From feb7e67417cbfedf369f7e967e9180a0f983b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 64/80] fix: p2p: leave a piece that failed in any way to other
 peers, its peer took it again at once and forever

---
 p2p/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 0f0f3f6..9741d19 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -450,7 +450,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
-			if errors.Is(err, context.DeadlineExceeded) {
+			if err != nil {
 				// Peers that wait for a piece look for one every five seconds.
 				select {
 				case <-ctx.Done():
-- 
2.43.0


From 1d957962d51dce57df4bdd8643c57026b3d164ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 65/80] fix: p2p: state the interest before queueing the peer,
 it stayed stated when the piece was complete by then

---
 p2p/peer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0b6d92a..60bf586 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -249,8 +249,12 @@ func (peer *Peer) HandleHave(i int) error {
 	}
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.CompletePieces().Has(i) {
+		// In this order, as the piece may be complete by now: what is queued
+		// last finds out and withdraws the interest.
+		if err := peer.Interest(); err != nil {
+			return err
+		}
 		peer.server.QueuePeer(peer)
-		return peer.Interest()
 	}
 	return nil
 }
-- 
2.43.0


From fbab71b642c84895dd1ea420a684e627fe885b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 66/80] fix: p2p: keep one of two connections that peers open
 to each other at once, both were closed, at every announcement again

---
 p2p/peer.go   |  7 ++++++-
 p2p/server.go | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 60bf586..6d4c2f2 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -29,9 +29,12 @@ type Peer struct {
 	server     *Server
 	ctx        context.Context
 	cancel     context.CancelFunc
+	dialed     bool
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
+	connectedAt time.Time // guarded by server.mu
+
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
@@ -43,6 +46,8 @@ type blockRequest struct {
 	length int
 }
 
+const handshakeTimeout = 10 * time.Second
+
 var ErrChoked = errors.New("p2p: peer connection is choked")
 
 func (p *Peer) Close() error {
@@ -58,7 +63,7 @@ func (p *Peer) Close() error {
 
 func (p *Peer) Handshake() error {
 	slog.Debug("Handshake", "peer", p.IDIP())
-	p.SetDeadline(time.Now().Add(10 * time.Second))
+	p.SetDeadline(time.Now().Add(handshakeTimeout))
 	defer p.SetDeadline(time.Time{})
 	hs := &peerapi.Handshake{
 		InfoHash: p.server.Info.SHA1,
diff --git a/p2p/server.go b/p2p/server.go
index 9741d19..2f46587 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -1,6 +1,7 @@
 package p2p
 
 import (
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -322,6 +323,9 @@ func (p2p *Server) Connect(peer *Peer) error {
 	if len(p2p.activePeers) >= 50 {
 		return ErrTooManyConnections
 	}
+	if other, ok := p2p.activePeers[peer.IDIP()]; ok && p2p.crosses(peer, other) {
+		p2p.disconnect(other)
+	}
 	addrs, ok := p2p.knownAddrs[peer.IDIP()]
 	if !ok {
 		addrs = make(map[addr]struct{})
@@ -333,6 +337,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
+	peer.connectedAt = time.Now()
 	bf := p2p.Storage.Torrent.CompletePieces()
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
 		return err
@@ -340,6 +345,16 @@ func (p2p *Server) Connect(peer *Peer) error {
 	return nil
 }
 
+// crosses tells whether peer is to replace other, which was opened at about the
+// same time from the other side. Both sides must keep the same one of the two,
+// or each closes the one that the other keeps.
+func (p2p *Server) crosses(peer, other *Peer) bool {
+	if peer.dialed == other.dialed || time.Since(other.connectedAt) > handshakeTimeout {
+		return false
+	}
+	return peer.dialed == (bytes.Compare(p2p.PeerID[:], peer.ID[:]) > 0)
+}
+
 func (p2p *Server) Disconnect(peer *Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
@@ -389,6 +404,7 @@ func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, erro
 	}
 	p := p2p.newPeer(conn)
 	copy(p.ID[:], peer.ID)
+	p.dialed = true
 	return p, nil
 }
 
-- 
2.43.0


From 986cf58d1de0c8e574e8c4dd951bd5b92a4e2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 67/80] fix: storage: serve a finished torrent from its target
 although its pieces cannot be removed, they were looked for until the next
 start

---
 storage/storage.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 4e08309..ad090bf 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -348,11 +348,9 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
+	// From here on the pieces are read from the target, whatever is left of them.
 	s.Torrent.complete()
-	return nil
+	return os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
 }
 
 func (s *Storage) coalescePiecesForMultiFile() error {
@@ -391,9 +389,7 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
+	// From here on the pieces are read from the target, whatever is left of them.
 	s.Torrent.complete()
-	return nil
+	return os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
 }
-- 
2.43.0


From c92e50f679486cc15a5399949dc94d1fc25e33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 68/80] fix: tracker: a list of peers is not compact, it stayed
 so where a compact one had been decoded

---
 api/tracker/tracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 9d58990..60e94ea 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -171,6 +171,7 @@ func (p *Peers) UnmarshalBencoding(data []byte) error {
 		p.Compact = true
 		p.List, err = parseCompactPeers(v)
 	case []any:
+		p.Compact = false
 		p.List, err = parsePeers(v)
 	default:
 		return errors.New("unknown peers format")
-- 
2.43.0


From 5c22247a1e3f696610bb76322adfa653b219a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 69/80] fix: bencode: a field with a tag stands for its key
 beside one without, in either order

Two embedded fields of one depth and one key, the first without a tag, the
second with a tag that equals its name, were both left out; written in the
other order, the one with the tag was used.
---
 bencode/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index a80bb46..a98a41c 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -332,7 +332,7 @@ func getFieldsForStruct(v reflect.Value) *fieldInfo {
 							continue
 						}
 						if (f.tag != "" && f.tag == ef.tag) ||
-							(ef.tag == "" && f.name == ef.name) {
+							(f.tag == "" && ef.tag == "" && f.name == ef.name) {
 							// Existing field has the same tag, or neither fields have tags
 							// but share a name, ignore.
 							keyToField[key].ignored = true
-- 
2.43.0


From c6385ff55fe82be2a5547b5fe1112520ca46c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 70/80] fix: bencode: values that lead back to themselves by
 pointers alone are an error

The depth was counted at containers only, so that encoding such a value
exhausted the stack, or never ended when it was a field or a map value.
---
 bencode/encode.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index a98a41c..03d9baf 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -64,6 +64,11 @@ func (e *Encoder) writeString(s string) (n int, err error) {
 var marshalerType = reflect.TypeFor[Marshaler]()
 
 func (e *Encoder) encode(v reflect.Value) error {
+	return e.encodeAt(v, 0)
+}
+
+// encodeAt encodes what hops pointers and interfaces in a row have led to.
+func (e *Encoder) encodeAt(v reflect.Value, hops int) error {
 	if v.Kind() == reflect.Pointer && v.IsNil() {
 		return nil
 	}
@@ -95,7 +100,10 @@ func (e *Encoder) encode(v reflect.Value) error {
 		if v.IsNil() {
 			return nil
 		}
-		return e.encode(v.Elem())
+		if hops >= ptrDepthLimit {
+			return errors.New("bencode: maximum pointer depth exceeded")
+		}
+		return e.encodeAt(v.Elem(), hops+1)
 	default:
 		return &UnsupportedTypeError{v.Type()}
 	}
@@ -379,10 +387,13 @@ func isNil(v reflect.Value) bool {
 
 // emitsNothing tells whether a value has no encoding: it leads to a nil.
 func emitsNothing(v reflect.Value) bool {
-	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
+	for hops := 0; v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer; hops++ {
 		if v.IsNil() {
 			return true
 		}
+		if hops > ptrDepthLimit {
+			return false // encode reports it
+		}
 		if v.Type() != reflect.PointerTo(rawMessageType) && v.Type().Implements(marshalerType) {
 			return false
 		}
-- 
2.43.0


From f31bc376df844a5dfadd17816cd0eaa0006988d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 71/80] fix: p2p: keep the addresses of a peer whose second
 connection replaces the first, it could not be blocked at them

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 2f46587..55764e4 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -324,6 +324,8 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return ErrTooManyConnections
 	}
 	if other, ok := p2p.activePeers[peer.IDIP()]; ok && p2p.crosses(peer, other) {
+		// Only the connection ends: the addresses of the peer stay known.
+		delete(p2p.activePeers, peer.IDIP())
 		p2p.disconnect(other)
 	}
 	addrs, ok := p2p.knownAddrs[peer.IDIP()]
-- 
2.43.0


From 3e3a5e55641076cfa66719c69a39caa5c62d102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 72/80] fix: bencode: a field with a tag stands for its key
 beside several without, in any order

---
 bencode/encode.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index 03d9baf..4e2b3e9 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -334,9 +334,8 @@ func getFieldsForStruct(v reflect.Value) *fieldInfo {
 					next = append(next, f)
 				} else {
 					if ef, ok := keyToField[key]; ok {
-						if len(ef.index) < len(f.index) || ef.ignored {
-							// Existing field has lower depth, or field is already ignored
-							// from a previous conflict, do not replace.
+						if len(ef.index) < len(f.index) {
+							// Existing field has lower depth, do not replace.
 							continue
 						}
 						if (f.tag != "" && f.tag == ef.tag) ||
-- 
2.43.0


From ac4ed40ee75fa31000db46a0794b88f5d2a37a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 73/80] fix: bencode: elements of an array that the list does
 not have kept their old values

---
 bencode/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 83dde8a..713fd83 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -451,6 +451,10 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 	if v.Kind() == reflect.Slice && i < v.Len() {
 		v.SetLen(i)
 	}
+	for ; i < v.Len(); i++ {
+		// What the list does not have does not survive in an array either.
+		v.Index(i).SetZero()
+	}
 	d.offset += 1
 	return nil
 }
-- 
2.43.0


From 156e93ecbab75f7588a5c09e2e09ecddab66ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 74/80] fix: magnet: a malformed parameter is an error, it was
 left out

---
 api/magnet/magnet.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/api/magnet/magnet.go b/api/magnet/magnet.go
index 1d29968..e3967d1 100644
--- a/api/magnet/magnet.go
+++ b/api/magnet/magnet.go
@@ -15,11 +15,14 @@ type Magnet struct {
 }
 
 func ParseMagnetURL(link string) (*Magnet, error) {
-	url, err := url.Parse(link)
+	u, err := url.Parse(link)
+	if err != nil {
+		return nil, err
+	}
+	query, err := url.ParseQuery(u.RawQuery)
 	if err != nil {
 		return nil, err
 	}
-	query := url.Query()
 	ma := &Magnet{
 		ExactTopic: query.Get("xt"),
 		Name:       query.Get("dn"),
-- 
2.43.0


From 178c647dff7bc9fa6da8db4f2bbc174204d64624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 75/80] fix: storage: close the files of an assembly or a read
 that fails, and the last piece of every assembly into files

---
 storage/lazy_file_reader.go |  7 +++++++
 storage/storage.go          | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/storage/lazy_file_reader.go b/storage/lazy_file_reader.go
index a02b37f..fd1159c 100644
--- a/storage/lazy_file_reader.go
+++ b/storage/lazy_file_reader.go
@@ -34,6 +34,13 @@ func (lfr *lazyFileReader) checkClose() {
 	}
 }
 
+func (lfr *lazyFileReader) Close() error {
+	if lfr.f == nil {
+		return nil
+	}
+	return lfr.f.Close()
+}
+
 func (lfr *lazyFileReader) Read(p []byte) (n int, err error) {
 	defer func() {
 		if errors.Is(err, io.EOF) {
diff --git a/storage/storage.go b/storage/storage.go
index ad090bf..e24c0c2 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -217,11 +217,11 @@ func (s *Storage) getBlockFromMultiFile(index, begin, length int) ([]byte, error
 				return nil, err
 			}
 			n, err := f.ReadAt(data[curr:], int64(offset))
+			f.Close()
 			curr += n
 			if err != nil && !errors.Is(err, io.EOF) {
 				return nil, err
 			}
-			f.Close()
 		}
 		total += file.Length
 	}
@@ -336,7 +336,9 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		lfr := &lazyFileReader{path: path}
+		defer lfr.Close()
+		pieceReaders = append(pieceReaders, lfr)
 	}
 	r := io.MultiReader(pieceReaders...)
 	if _, err := io.Copy(temp, r); err != nil {
@@ -366,7 +368,9 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		lfr := &lazyFileReader{path: path}
+		defer lfr.Close()
+		pieceReaders = append(pieceReaders, lfr)
 	}
 	r := io.MultiReader(pieceReaders...)
 	for _, file := range s.Torrent.Info.Files {
@@ -378,13 +382,13 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 		if err != nil {
 			return err
 		}
-		if _, err = io.CopyN(f, r, int64(file.Length)); err != nil {
-			return err
+		if _, err = io.CopyN(f, r, int64(file.Length)); err == nil {
+			err = f.Sync()
 		}
-		if err = f.Sync(); err != nil {
+		f.Close()
+		if err != nil {
 			return err
 		}
-		f.Close()
 	}
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
-- 
2.43.0


From 6661a2e4dcc8abdf88dab5dd11ef6ceda70542a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 76/80] fix: storage: Load removes the temporary files a killed
 process left behind

---
 storage/storage.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index e24c0c2..adc30a0 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync/atomic"
 
 	"github.com/browles/drip/api/metainfo"
@@ -41,6 +42,9 @@ func (s *Storage) Load() error {
 	if s.Torrent.invalid != nil {
 		return s.Torrent.invalid
 	}
+	if err := s.removeTemps(); err != nil {
+		return err
+	}
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
@@ -86,6 +90,23 @@ func (s *Storage) Load() error {
 	return nil
 }
 
+// removeTemps removes the temporary files an earlier process left when it was killed.
+func (s *Storage) removeTemps() error {
+	tempDir := filepath.Join(s.WorkDir, "temp")
+	direntries, err := os.ReadDir(tempDir)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	for _, dr := range direntries {
+		if strings.HasPrefix(dr.Name(), s.Torrent.WorkDir()) {
+			if err := os.RemoveAll(filepath.Join(tempDir, dr.Name())); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func (s *Storage) Downloaded() int64 {
 	return s.downloaded.Load()
 }
-- 
2.43.0


From 8c9c868e5f97ddae4fc7cc2df7444c5b72fd4a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 77/80] fix: bencode: what lay behind the end of a slice showed
 up in the elements decoded there

---
 bencode/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 713fd83..826f3cf 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -433,6 +433,7 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 			}
 			if i >= v.Len() {
 				v.SetLen(i + 1)
+				v.Index(i).SetZero() // what lay behind the end of the slice
 			}
 		}
 		if i < v.Len() {
-- 
2.43.0


From e92d9228348a1f75af29a6e76c97ff659e957dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 78/80] fix: p2p: a freed piece goes to the peer that waited
 longest, others could keep it among themselves without giving it

---
 p2p/peer.go   |  1 +
 p2p/server.go | 72 ++++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 6d4c2f2..3d24f23 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -34,6 +34,7 @@ type Peer struct {
 	uploaded   atomic.Int64
 
 	connectedAt time.Time // guarded by server.mu
+	fetching    bool      // guarded by server.mu
 
 	mu sync.Mutex
 	net.Conn
diff --git a/p2p/server.go b/p2p/server.go
index 55764e4..cf63ec5 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -10,6 +10,7 @@ import (
 	"math"
 	"math/rand"
 	"net"
+	"slices"
 	"sort"
 	"strconv"
 	"sync"
@@ -51,6 +52,7 @@ type Server struct {
 	indexToPeers map[int]map[*Peer]struct{}
 	queuedPeers  map[*Peer]struct{}
 	inflight     map[int]*Peer
+	waiting      []*Peer // all they have is being fetched from others
 }
 
 type (
@@ -221,6 +223,8 @@ func (p2p *Server) DialPeers(ctx context.Context) error {
 }
 
 func (p2p *Server) RequestPieces(ctx context.Context) error {
+	ticker := time.NewTicker(5 * time.Second)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-ctx.Done():
@@ -231,6 +235,8 @@ func (p2p *Server) RequestPieces(ctx context.Context) error {
 					slog.Error("RequestPieces.requestPieceFromPeer", "err", err)
 				}
 			}()
+		case <-ticker.C:
+			go p2p.requestPiecesFromWaiting(ctx)
 		}
 	}
 }
@@ -433,8 +439,12 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
+	if peer.fetching {
+		return nil
+	}
 	if peer.Closed.Load() || peer.RemoteChoked.Load() {
 		delete(p2p.queuedPeers, peer)
+		p2p.unwait(peer)
 		return nil
 	}
 	bf := p2p.Storage.Torrent.CompletePieces()
@@ -442,8 +452,19 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
 		delete(p2p.queuedPeers, peer)
+		p2p.unwait(peer)
 		return peer.NotInterest()
 	}
+	if p2p.fetchPiece(ctx, peer, pieces) {
+		p2p.unwait(peer)
+	} else if !slices.Contains(p2p.waiting, peer) {
+		p2p.waiting = append(p2p.waiting, peer)
+	}
+	return nil
+}
+
+// fetchPiece fetches the rarest of the pieces that is not being fetched.
+func (p2p *Server) fetchPiece(ctx context.Context, peer *Peer, pieces []int) bool {
 	rand.Shuffle(len(pieces), func(i, j int) {
 		pieces[i], pieces[j] = pieces[j], pieces[i]
 	})
@@ -455,10 +476,12 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 			continue
 		}
 		p2p.inflight[index] = peer
+		peer.fetching = true
 		go func() {
 			err := p2p.requestPiece(ctx, peer, index)
 			p2p.mu.Lock()
 			delete(p2p.inflight, index)
+			p2p.nextWaiting(ctx)
 			p2p.mu.Unlock()
 			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
@@ -469,32 +492,57 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 				}
 			}
 			if err != nil {
-				// Peers that wait for a piece look for one every five seconds.
 				select {
 				case <-ctx.Done():
 					return
 				case <-time.After(10 * time.Second):
 				}
 			}
+			p2p.mu.Lock()
+			peer.fetching = false
+			p2p.mu.Unlock()
 			select {
 			case <-ctx.Done():
 			case p2p.downloadQueue <- peer:
 			}
 		}()
-		return nil
+		return true
 	}
-	go func() {
-		select {
-		case <-ctx.Done():
-			return
-		case <-time.After(5 * time.Second):
+	return false
+}
+
+// requestPiecesFromWaiting finds out who has got other pieces, or lacks none of
+// them any more.
+func (p2p *Server) requestPiecesFromWaiting(ctx context.Context) {
+	p2p.mu.Lock()
+	peers := slices.Clone(p2p.waiting)
+	p2p.mu.Unlock()
+	for _, peer := range peers {
+		if err := p2p.requestPieceFromPeer(ctx, peer); err != nil {
+			slog.Error("requestPiecesFromWaiting.requestPieceFromPeer", "err", err)
 		}
-		select {
-		case <-ctx.Done():
-		case p2p.downloadQueue <- peer:
+	}
+}
+
+// nextWaiting lets the peer that has waited longest for a piece have the one
+// that is free now. If any peer could take it, some that never give it could
+// keep it among themselves.
+func (p2p *Server) nextWaiting(ctx context.Context) {
+	bf := p2p.Storage.Torrent.CompletePieces()
+	for _, peer := range p2p.waiting {
+		if peer.Closed.Load() || peer.RemoteChoked.Load() {
+			continue
 		}
-	}()
-	return nil
+		pieceBf := peer.Bitfield.Difference(bf)
+		if p2p.fetchPiece(ctx, peer, pieceBf.Items()) {
+			p2p.unwait(peer)
+			return
+		}
+	}
+}
+
+func (p2p *Server) unwait(peer *Peer) {
+	p2p.waiting = slices.DeleteFunc(p2p.waiting, func(p *Peer) bool { return p == peer })
 }
 
 func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
-- 
2.43.0


From 6d0e06c82a8c8a2e833fae36d1b9480658338436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:04 +0000
Subject: [PATCH 79/80] fix: p2p: an accept that fails no longer ends the
 server, which drops all peers when file descriptors run out for a moment

---
 p2p/server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index cf63ec5..e3016a0 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -176,9 +176,19 @@ func (p2p *Server) Serve(ctx context.Context) error {
 		default:
 		}
 		conn, err := p2p.tcp.Accept()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
 			return err
 		}
+		if err != nil {
+			// The next one may succeed, when there are file descriptors again, say.
+			slog.Error("Serve.Accept", "err", err)
+			select {
+			case <-ctx.Done():
+				return ctx.Err()
+			case <-time.After(time.Second):
+			}
+			continue
+		}
 		select {
 		case p2p.peerSemaphore <- struct{}{}:
 		default:
-- 
2.43.0


From 966f57cac13913c886979fc67a5e54e398daefd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:07 +0000
Subject: [PATCH 80/80] fix: storage: loading again after a Load that failed no
 longer panics or counts pieces twice

---
 storage/storage.go | 6 +++++-
 storage/torrent.go | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index adc30a0..029ef08 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -55,7 +55,7 @@ func (s *Storage) Load() error {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(s.Torrent.Info.GetLength())
+		s.downloaded.Store(s.Torrent.Info.GetLength())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -72,6 +72,10 @@ func (s *Storage) Load() error {
 				if i < 0 || i >= len(s.Torrent.pieces) || dr.Name() != s.Torrent.pieces[i].FileName() {
 					continue
 				}
+				if s.Torrent.pieces[i].coalesced {
+					// Found by an earlier Load, which failed afterwards.
+					continue
+				}
 				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
 				if err != nil {
 					return err
diff --git a/storage/torrent.go b/storage/torrent.go
index 6fe789c..e973484 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -113,6 +113,9 @@ func (t *Torrent) CompletePieces() bitfield.Bitfield {
 }
 
 func (t *Torrent) completePiece(piece *Piece) {
+	if piece.coalesced {
+		return
+	}
 	piece.coalesced = true
 	piece.err.Deliver(nil)
 	piece.blocks = nil
@@ -121,6 +124,9 @@ func (t *Torrent) completePiece(piece *Piece) {
 }
 
 func (t *Torrent) complete() {
+	if t.coalesced {
+		return
+	}
 	t.coalesced = true
 	t.err.Deliver(nil)
 }
-- 
2.43.0

