From e0d4876b0618598f40d4b89e5e3697ed31bcf20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:49 +0000
Subject: [PATCH 01/59] fix: report errors in the first element of a nested
 JSON array

JSONReader.readArray dropped the error of its first element and returned a
partial array as if it were complete.
---
 dsio/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index e31f1d6..c23320a 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -452,7 +452,7 @@ func (r *JSONReader) readArray() ([]interface{}, error) {
 	// Read first element.
 	val, err := r.readValue()
 	if err != nil {
-		return array, nil
+		return nil, err
 	}
 	array = append(array, val)
 	// Read the rest of the elements.
-- 
2.43.0


From 6aad97056204db6d450474e8c02084226541f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:52 +0000
Subject: [PATCH 02/59] fix: don't index past the buffer after an escape in a
 JSON string

When a string's backslash was the last byte of the buffer and the source had
only one more byte, readString indexed one past the end and panicked.
---
 dsio/json.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index c23320a..8a5a4b8 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -358,6 +358,8 @@ func (r *JSONReader) readString() (string, error) {
 			if !more {
 				break
 			}
+			// The extension may be too short to reach past an escape sequence.
+			continue
 		}
 		if buff[i] == '\\' {
 			// Skip the backslash, which marks an escape sequence. This avoids
-- 
2.43.0


From b5018ac58e249a37cc8a7bd2f09c30d03694d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:25 +0000
Subject: [PATCH 03/59] fix: don't slice out of range on a truncated escape in
 a JSON string

A \x or \u escape with fewer than its hex digits left before the closing
quote panicked.
---
 dsio/json.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 8a5a4b8..7b685da 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -264,6 +264,13 @@ func (r *JSONReader) extractBytesFromBuffer(buffer []byte, i int) []byte {
 	return d
 }
 
+func minInt(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 // unquoteJSONString removes quotes from the string, and converts json
 // escape sequences into the corresponding runes
 func unquoteJSONString(srcBuff []byte) string {
@@ -302,10 +309,10 @@ func unquoteJSONString(srcBuff []byte) string {
 				// Technically this is out of spec, but we handle it
 				// because some apps incorrectly output json with
 				// \xAA character sequences
-				hexChars := srcBuff[s+1 : s+3]
+				hexChars := srcBuff[s+1 : minInt(s+3, limit)]
 				s += 3
 				bs, err := hex.DecodeString(string(hexChars))
-				if err == nil {
+				if err == nil && len(bs) == 1 {
 					dstBuff[d] = bs[0]
 				} else {
 					dstBuff[d] = '?'
@@ -314,7 +321,7 @@ func unquoteJSONString(srcBuff []byte) string {
 				continue
 			} else if ch == 'u' {
 				// A unicode code-point escape sequence
-				hexChars := srcBuff[s+1 : s+5]
+				hexChars := srcBuff[s+1 : minInt(s+5, limit)]
 				s += 5
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
 				if err == nil {
-- 
2.43.0


From c26e17036f7446d3e826ce6d50787ae0b020d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:59 +0000
Subject: [PATCH 04/59] fix: decode surrogate pairs in JSON strings

A character outside the basic plane written as two \u escapes was read as
"??".
---
 dsio/json.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/dsio/json.go b/dsio/json.go
index 7b685da..3eac909 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/qri-io/dataset"
 )
@@ -323,6 +325,11 @@ func unquoteJSONString(srcBuff []byte) string {
 				// A unicode code-point escape sequence
 				hexChars := srcBuff[s+1 : minInt(s+5, limit)]
 				s += 5
+				if r := decodeSurrogatePair(hexChars, srcBuff[minInt(s, limit):limit]); r != utf8.RuneError {
+					s += 6
+					d += utf8.EncodeRune(dstBuff[d:], r)
+					continue
+				}
 				res, err := strconv.Unquote(fmt.Sprintf("'\\u%s'", hexChars))
 				if err == nil {
 					for _, b := range []byte(res) {
@@ -349,6 +356,24 @@ func unquoteJSONString(srcBuff []byte) string {
 	return string(dstBuff[:d])
 }
 
+// decodeSurrogatePair gives the rune encoded by the hex digits of a code-point
+// escape and the code-point escape that starts rest, if they are a UTF-16
+// surrogate pair. Otherwise it returns utf8.RuneError
+func decodeSurrogatePair(hexChars, rest []byte) rune {
+	if len(rest) < 6 || rest[0] != '\\' || rest[1] != 'u' {
+		return utf8.RuneError
+	}
+	hi, err := strconv.ParseUint(string(hexChars), 16, 16)
+	if err != nil {
+		return utf8.RuneError
+	}
+	lo, err := strconv.ParseUint(string(rest[2:6]), 16, 16)
+	if err != nil {
+		return utf8.RuneError
+	}
+	return utf16.DecodeRune(rune(hi), rune(lo))
+}
+
 func (r *JSONReader) readString() (string, error) {
 	buff := r.currentBuffer()
 	i := 0
-- 
2.43.0


From 4b8eb89127d49803de37f2b093f8ace794659ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:03 +0000
Subject: [PATCH 05/59] fix: read JSON integers that don't fit an int64 as
 floats

The writer encodes a float64 such as 1e20 as 100000000000000000000, which the
reader then refused.
---
 dsio/json.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 3eac909..17343d7 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -436,11 +437,17 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 		if isFloat {
 			return strconv.ParseFloat(r.extractFromBuffer(buff, i), 64)
 		}
-		num, err := strconv.Atoi(r.extractFromBuffer(buff, i))
+		text := r.extractFromBuffer(buff, i)
+		num, err := strconv.ParseInt(text, 10, 64)
 		if err != nil {
+			if errors.Is(err, strconv.ErrRange) {
+				// Integers too large for an int64, such as a float64 written
+				// without an exponent.
+				return strconv.ParseFloat(text, 64)
+			}
 			return nil, err
 		}
-		return int64(num), nil
+		return num, nil
 	}
 	return 0, fmt.Errorf("Expected: number")
 }
-- 
2.43.0


From d808e19a9de7997f6c97c76028d0088b0f1b9675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:04 +0000
Subject: [PATCH 06/59] fix: report the read errors of a JSON body's source

JSONReader ignored every error of its underlying reader. A source that failed
inside a number or where a value should start produced an entry holding a
truncated number or null.
---
 dsio/json.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 17343d7..5b12fab 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -25,6 +25,7 @@ type JSONReader struct {
 	reader      *bufio.Reader
 	close       func() error // close func from wrapped reader
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
+	readErr     error        // error from the underlying reader, other than reaching its end
 }
 
 var _ EntryReader = (*JSONReader)(nil)
@@ -74,7 +75,7 @@ func (r *JSONReader) ReadEntry() (Entry, error) {
 	ent := Entry{}
 
 	// Fill up buffer.
-	_, _ = r.reader.Peek(blockSize)
+	r.fillBuffer()
 
 	// Open JSON container the first time this is called.
 	if !r.initialized {
@@ -103,6 +104,9 @@ func (r *JSONReader) ReadEntry() (Entry, error) {
 	// Need a separator between elements, but not before the very first.
 	if r.initialized {
 		if !r.readTokenChar(',') {
+			if r.readErr != nil {
+				return ent, r.readErr
+			}
 			return ent, fmt.Errorf("Expected: separator ','")
 		}
 	}
@@ -203,6 +207,9 @@ func (r *JSONReader) readValue() (interface{}, error) {
 	case '[':
 		return r.readArray()
 	default:
+		if b == 0 && r.readErr != nil {
+			return nil, r.readErr
+		}
 		return nil, nil
 	}
 }
@@ -235,6 +242,13 @@ func (r *JSONReader) currentBuffer() []byte {
 	return buff
 }
 
+// fillBuffer reads ahead, remembering if the underlying reader fails
+func (r *JSONReader) fillBuffer() {
+	if _, err := r.reader.Peek(blockSize); err != nil && err != io.EOF && err != bufio.ErrBufferFull {
+		r.readErr = err
+	}
+}
+
 func (r *JSONReader) extendBuffer(orig []byte) ([]byte, bool) {
 	// Preserve the contents of the existing buffer.
 	preserve := append([]byte(nil), orig...)
@@ -243,7 +257,7 @@ func (r *JSONReader) extendBuffer(orig []byte) ([]byte, bool) {
 	r.prevSize += size
 	// Clear the reader's buffer, fill it back up.
 	_, _ = r.reader.Discard(size)
-	_, _ = r.reader.Peek(blockSize)
+	r.fillBuffer()
 	size = r.reader.Buffered()
 	if size > 0 {
 		// If successful, append buffers.
@@ -419,6 +433,10 @@ func (r *JSONReader) readNumber() (interface{}, error) {
 			var more bool
 			buff, more = r.extendBuffer(buff)
 			if !more {
+				if r.readErr != nil {
+					// There may be more digits.
+					return nil, r.readErr
+				}
 				break
 			}
 		}
-- 
2.43.0


From 1f55cbe0424efb845703a23f95e7d22cea00a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 07/59] fix: keep the body well-formed when the JSON writer
 refuses an entry

A refused entry counted as written. When it was the first one the next entry
was preceded by a stray separator, and an object key whose value could not be
encoded could not be written again.
---
 dsio/json.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dsio/json.go b/dsio/json.go
index 5b12fab..cac8bbb 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -607,6 +607,13 @@ func (w *JSONWriter) Structure() *dataset.Structure {
 
 // WriteEntry writes one JSON record to the writer
 func (w *JSONWriter) WriteEntry(ent Entry) error {
+	// Encode first, an entry that can't be encoded leaves the output untouched.
+	data, err := w.valBytes(ent)
+	if err != nil {
+		log.Debug(err.Error())
+		return err
+	}
+
 	defer func() {
 		w.rowsWritten++
 	}()
@@ -621,12 +628,6 @@ func (w *JSONWriter) WriteEntry(ent Entry) error {
 		}
 	}
 
-	data, err := w.valBytes(ent)
-	if err != nil {
-		log.Debug(err.Error())
-		return err
-	}
-
 	// If between elems, put a comma. If pretty, newline as well.
 	enc := []byte{','}
 	if w.rowsWritten == 0 {
@@ -658,7 +659,6 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		log.Debugf(`key already written: "%s"`, ent.Key)
 		return nil, fmt.Errorf(`key already written: "%s"`, ent.Key)
 	}
-	w.keysWritten[ent.Key] = true
 
 	// Write the key
 	if w.indent != "" {
@@ -686,6 +686,7 @@ func (w *JSONWriter) valBytes(ent Entry) (data []byte, err error) {
 		return data, err
 	}
 	data = append(data, val...)
+	w.keysWritten[ent.Key] = true
 	return data, nil
 }
 
-- 
2.43.0


From 12f5059de769524308a6a48bd7b87ab930025cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:36 +0000
Subject: [PATCH 08/59] fix: report a failed write while closing a pretty JSON
 writer

---
 dsio/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsio/json.go b/dsio/json.go
index cac8bbb..2ce0f40 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -712,7 +712,10 @@ func (w *JSONWriter) Close() error {
 
 	// If pretty, newline
 	if w.indent != "" {
-		w.wr.Write([]byte{'\n'})
+		if _, err := w.wr.Write([]byte{'\n'}); err != nil {
+			log.Debug(err.Error())
+			return fmt.Errorf("error closing writer: %s", err.Error())
+		}
 	}
 
 	cloze := []byte{']'}
-- 
2.43.0


From d1a26012d6af789148b01b28dade04f82d58f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 09/59] fix: read CBOR strings of any length and don't alias
 the read buffer

CBORReader peeked at its buffer for strings and byte strings: anything longer
than the buffer (4096 bytes) could not be read, byte strings already returned
changed when the buffer was refilled, and negative or huge lengths panicked.
---
 dsio/cbor.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index b5d918a..4d68b9b 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -343,7 +343,8 @@ func (r *CBORReader) readLengthPrefixedBytes(b byte) ([]byte, error) {
 func (r *CBORReader) readArray(length int) ([]interface{}, error) {
 	var array []interface{}
 	if length > 0 {
-		array = make([]interface{}, 0, length)
+		// Don't trust a huge length.
+		array = make([]interface{}, 0, minInt(length, 4096))
 	} else {
 		array = make([]interface{}, 0)
 	}
@@ -413,7 +414,11 @@ func (r *CBORReader) readIntBytes(num int) (int64, error) {
 	if num < 8 {
 		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
 	}
-	return int64(binary.BigEndian.Uint64(data)), nil
+	num64 := binary.BigEndian.Uint64(data)
+	if num64 > math.MaxInt64 {
+		return 0, fmt.Errorf("integer out of range: %d", num64)
+	}
+	return int64(num64), nil
 }
 
 // readFloatBytes returns a float by reading num bytes from the input stream
@@ -430,15 +435,18 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 
 // readBytes reads a number of bytes from the input stream
 func (r *CBORReader) readBytes(num int) ([]byte, error) {
-	buff, err := r.rdr.Peek(num)
-	if err != nil {
-		return nil, err
-	}
-	_, err = r.rdr.Discard(num)
-	if err != nil {
-		return nil, err
-	}
-	return buff, nil
+	if num < 0 {
+		return nil, fmt.Errorf("invalid length: %d", num)
+	}
+	if num <= r.rdr.Size() {
+		buff := make([]byte, num)
+		_, err := io.ReadFull(r.rdr, buff)
+		return buff, err
+	}
+	// Grow with the bytes that arrive, don't trust a huge length.
+	buff := &bytes.Buffer{}
+	_, err := io.CopyN(buff, r.rdr, int64(num))
+	return buff.Bytes(), err
 }
 
 // CBORWriter implements the RowWriter interface for
-- 
2.43.0


From e6ca4a101f3913215c9949ad7ae79481a528c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:35 +0000
Subject: [PATCH 10/59] fix: read CBOR negative integers below -24

---
 dsio/cbor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 4d68b9b..42ff222 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -205,6 +205,12 @@ func (r *CBORReader) readValue() (interface{}, error) {
 		return r.getVarLenInt(b)
 	} else if b >= 0x20 && b < 0x38 {
 		return -int64(b - 0x1f), nil
+	} else if b >= 0x38 && b < 0x3c {
+		n, err := r.getVarLenInt(b)
+		if err != nil {
+			return nil, err
+		}
+		return -1 - n, nil
 	}
 
 	switch b {
-- 
2.43.0


From dcf3e5a45658bbeb9dfed16763c4fc180d2b27d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 11/59] fix: decode CBOR half and single precision floats

They were read as the bits of a double.
---
 dsio/cbor.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 42ff222..41deb4a 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -433,10 +433,36 @@ func (r *CBORReader) readFloatBytes(num int) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	if num < 8 {
-		data = bytes.Join([][]byte{bytes.Repeat([]byte{0}, 8-len(data)), data}, []byte{})
+	switch num {
+	case 2:
+		return halfFloat(bigen.Uint16(data)), nil
+	case 4:
+		return float64(math.Float32frombits(bigen.Uint32(data))), nil
+	default:
+		return math.Float64frombits(bigen.Uint64(data)), nil
+	}
+}
+
+// halfFloat converts the bits of an IEEE 754 half-precision float
+func halfFloat(bits uint16) float64 {
+	exp := int(bits>>10) & 0x1f
+	mant := float64(bits & 0x3ff)
+	var val float64
+	switch exp {
+	case 0:
+		val = math.Ldexp(mant, -24)
+	case 31:
+		val = math.Inf(1)
+		if mant != 0 {
+			val = math.NaN()
+		}
+	default:
+		val = math.Ldexp(mant+1024, exp-25)
+	}
+	if bits&0x8000 != 0 {
+		return -val
 	}
-	return math.Float64frombits(binary.BigEndian.Uint64(data)), nil
+	return val
 }
 
 // readBytes reads a number of bytes from the input stream
-- 
2.43.0


From f46177bc2acd7ccd81f36e83c00b810446e558d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:11 +0000
Subject: [PATCH 12/59] fix: don't take a CBOR body that is cut short for a
 complete one

The reader took the end of its source for the end of the body, wherever it
came. Use the length of the top-level array or map to tell a complete body
from a truncated one, and read the top-level only once.
---
 dsio/cbor.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 41deb4a..c73e87b 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -14,6 +14,7 @@ import (
 
 // CBORReader implements the RowReader interface for the CBOR data format
 type CBORReader struct {
+	started  bool // the top-level has been read
 	rowsRead int
 	rdr      *bufio.Reader
 	close    func() error // close func from wrapped reader
@@ -68,22 +69,32 @@ func (r *CBORReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one CBOR record from the reader
 func (r *CBORReader) ReadEntry() (ent Entry, err error) {
-	if r.rowsRead == 0 {
+	if !r.started {
 		top, length, err := r.readTopLevel()
 		if err != nil {
-			return ent, err
+			return ent, unexpectedEOF(err)
 		}
 		if top != r.topLevel {
 			return ent, fmt.Errorf("Top-level type did not match")
 		}
-		// TODO(dustmop): Length is not used right now, except for handling indefinite length
-		// streams. In the future, it should be used to check that max(r.rowsRead) == r.length
+		r.started = true
 		r.length = length
 	}
 
 	if r.length == indefiniteLength && r.readIndefiniteSequenceBreak() {
+		r.length = r.rowsRead
 		return ent, io.EOF
 	}
+	if r.length != indefiniteLength && r.rowsRead >= r.length {
+		if _, err := r.rdr.Peek(1); err == io.EOF {
+			return ent, io.EOF
+		}
+	}
+
+	// The body isn't complete, the source may not end from here on.
+	defer func() {
+		err = unexpectedEOF(err)
+	}()
 
 	if r.topLevel == cborBaseMap {
 		ent.Key, err = r.readStringKey()
@@ -103,6 +114,15 @@ func (r *CBORReader) ReadEntry() (ent Entry, err error) {
 	return
 }
 
+// unexpectedEOF keeps the end of the source inside of a body from being taken
+// for the end of the body
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 // Close finalizes the reader
 func (r *CBORReader) Close() error {
 	if r.close != nil {
-- 
2.43.0


From 7ef89ddf950ddf1596bd91d2a4d1bf1b33dc0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:15 +0000
Subject: [PATCH 13/59] fix: stay in step with the stream after CBOR tags and
 simple values

The reader returned null for a tag without reading the tagged value, and didn't
skip the byte of a two byte simple value, so every following value was wrong.
Timestamps, which the writer encodes as tagged strings, could not be read.
---
 dsio/cbor.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index c73e87b..52fe1e5 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -328,10 +328,16 @@ func (r *CBORReader) readValue() (interface{}, error) {
 			}
 			return assoc, nil
 		case cborBaseTag:
-			// TODO: Implement me
-			return nil, nil
+			// Tags aren't interpreted, read the value they apply to.
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
+			return r.readValue()
 		case cborBaseSimple:
-			// TODO: Implement me
+			// Simple values aren't interpreted. This is an error for a break.
+			if _, err := r.getVarLenInt(b); err != nil {
+				return nil, err
+			}
 			return nil, nil
 		default:
 			return nil, fmt.Errorf("unknown cbor tag: %v", b)
-- 
2.43.0


From 960b3fc77574e276931d17565be491a8c84ed1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:40 +0000
Subject: [PATCH 14/59] fix: read the last line of NDJSON that has no trailing
 newline

It was dropped without an error.
---
 dsio/ndjson.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/ndjson.go b/dsio/ndjson.go
index 90252e1..b035882 100644
--- a/dsio/ndjson.go
+++ b/dsio/ndjson.go
@@ -2,6 +2,7 @@ package dsio
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -57,7 +58,8 @@ func (r *NDJSONReader) Structure() *dataset.Structure {
 // ReadEntry reads one JSON record from the reader
 func (r *NDJSONReader) ReadEntry() (Entry, error) {
 	line, err := r.buf.ReadBytes('\n')
-	if err != nil {
+	// The last line may come without a newline
+	if err != nil && (err != io.EOF || len(bytes.TrimSpace(line)) == 0) {
 		return Entry{}, err
 	}
 
-- 
2.43.0


From 7dbcb8b2a48dd6eb302c76f7ccafe46d5e03de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:43 +0000
Subject: [PATCH 15/59] fix: report write errors when closing a CSV writer

Rows are buffered, so a failing destination often shows only on the final
flush, and its error was ignored.
---
 dsio/csv.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9573504..e2bb24e 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -286,8 +286,11 @@ func encode(vs []interface{}) ([]string, error) {
 // will be written
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
+	err := w.w.Error()
 	if w.close != nil {
-		return w.close()
+		if closeErr := w.close(); err == nil {
+			err = closeErr
+		}
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From a56d57db73eca6ffd7ed177290d97d62ac45059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 16/59] fix: refuse CSV cells that can't be encoded instead of
 writing them empty

---
 dsio/csv.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index e2bb24e..96ab569 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -261,13 +261,17 @@ func encode(vs []interface{}) ([]string, error) {
 		case float64:
 			strings[i] = strconv.FormatFloat(t, 'f', -1, 64)
 		case []interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case map[string]interface{}:
-			if data, err := json.Marshal(t); err == nil {
-				strings[i] = string(data)
+			data, err := json.Marshal(t)
+			if err != nil {
+				return nil, err
 			}
+			strings[i] = string(data)
 		case bool:
 			if t {
 				strings[i] = "true"
@@ -276,6 +280,8 @@ func encode(vs []interface{}) ([]string, error) {
 			}
 		case nil:
 			strings[i] = ""
+		default:
+			return nil, fmt.Errorf("unsupported type for csv cell: %T", v)
 		}
 	}
 
-- 
2.43.0


From 5c0eb753a7aa6e9237a1b78e6bc036b98d83513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:40 +0000
Subject: [PATCH 17/59] fix: end the identity reader by closing its channel

The reading side polled a flag the iterating goroutine sets after its last
send: depending on scheduling ReadEntry and Close blocked forever.
---
 dsio/identity.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsio/identity.go b/dsio/identity.go
index f3c5fe6..233093a 100644
--- a/dsio/identity.go
+++ b/dsio/identity.go
@@ -26,7 +26,6 @@ func NewIdentityReader(st *dataset.Structure, data interface{}) (*IdentityReader
 // IdentityReader is a dsio.EntryReader that works with native go types
 type IdentityReader struct {
 	st      *dataset.Structure
-	done    bool
 	entries chan Entry
 }
 
@@ -39,20 +38,18 @@ func (r *IdentityReader) Structure() *dataset.Structure {
 
 // ReadEntry reads one row of structured data from the reader
 func (r *IdentityReader) ReadEntry() (Entry, error) {
-	if r.done {
+	ent, ok := <-r.entries
+	if !ok {
 		return Entry{}, io.EOF
 	}
 
-	return <-r.entries, nil
+	return ent, nil
 }
 
 // Close finalizes the reader
 func (r *IdentityReader) Close() error {
-	if !r.done {
-		// drain channel to prevent leaking goroutine
-		for !r.done {
-			<-r.entries
-		}
+	// drain channel to prevent leaking goroutine
+	for range r.entries {
 	}
 	return nil
 }
@@ -64,7 +61,7 @@ func (r *IdentityReader) iterateMap(data map[string]interface{}) chan Entry {
 		for key, val := range data {
 			res <- Entry{Key: key, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
@@ -77,7 +74,7 @@ func (r *IdentityReader) iterateSlice(data []interface{}) chan Entry {
 		for i, val := range data {
 			res <- Entry{Index: i, Value: val}
 		}
-		r.done = true
+		close(res)
 	}()
 
 	return res
-- 
2.43.0


From 8b5c35c5c7dfc0cd14a4879990a868629588092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:55 +0000
Subject: [PATCH 18/59] fix: fail conversions that can't be completed

ConvertFile ignored the error of copying entries and returned the entries it
got as if they were the whole selection. Also close the reader.
---
 dsio/dsio.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsio/dsio.go b/dsio/dsio.go
index 6c72e9a..9929e80 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -220,8 +220,14 @@ func ConvertFile(file qfs.File, in, out *dataset.Structure, limit, offset int, a
 			Offset: offset,
 		}
 	}
-	err = Copy(rr, w)
+	if err := Copy(rr, w); err != nil {
+		rr.Close()
+		return nil, err
+	}
 
+	if err := rr.Close(); err != nil {
+		return nil, fmt.Errorf("error closing entry reader: %s", err.Error())
+	}
 	if err := w.Close(); err != nil {
 		return nil, fmt.Errorf("error closing row buffer: %s", err.Error())
 	}
-- 
2.43.0


From 1944740288c10ae70c16fd27abf06d8d55911fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:37 +0000
Subject: [PATCH 19/59] fix: keep the whole body after rendering part of it

bodyEntries restored only the bytes its reader had consumed: rendering a page
of a body truncated the dataset's body file, and rendering a body that could
not be read left it drained. Also close the reader.
---
 dsviz/render.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index 8a37a70..f9d3458 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -163,10 +163,15 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 	bodyFile := ds.BodyFile()
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
+	defer func() {
+		// restore body file, the reader may not have consumed all of it
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+	}()
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
 		return nil, fmt.Errorf("error allocating data reader: %s", err)
 	}
+	defer rr.Close()
 
 	if offset >= 0 && limit >= 0 {
 		rr = &dsio.PagedReader{
@@ -176,17 +181,7 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 		}
 	}
 
-	bodyEntries, err := readEntries(rr)
-	if err != nil {
-		return nil, err
-	}
-
-	defer func() {
-		// restore body file
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), bodyBytesBuf))
-	}()
-
-	return bodyEntries, nil
+	return readEntries(rr)
 }
 
 // readEntries reads entries and returns them as a native go array or map
-- 
2.43.0


From 706910f61faf86ce539163cf771fd6f6b55a030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 20/59] fix: keep consumed files when rendering or previewing
 fails

The script, readme and body files were put back only on success, a dataset
whose preview or render failed had lost what was read from them.
---
 dsviz/render.go    | 5 ++---
 preview/preview.go | 7 ++++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsviz/render.go b/dsviz/render.go
index f9d3458..5652bac 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -43,13 +43,12 @@ func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	teedVizScriptFile := qfs.NewMemfileReader(script.FileName(), tr)
 
 	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)
+	// restore consumed script file
+	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), io.MultiReader(vizScriptBuf, script)))
 	if err != nil {
 		return nil, fmt.Errorf("reading template data: %s", err.Error())
 	}
 
-	// restore consumed script file
-	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), vizScriptBuf))
-
 	vizDs, err := vizDataset(ds)
 	if err != nil {
 		return nil, err
diff --git a/preview/preview.go b/preview/preview.go
index 328ba45..081cda9 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -64,6 +64,8 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		tr := io.TeeReader(f, buf)
 
 		content, err := ioutil.ReadAll(io.LimitReader(tr, MaxReadmePreviewBytes))
+		// restore consumed readme file
+		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 		if err != nil {
 			log.Debugw("Reading Readme", "err", err.Error())
 			return nil, err
@@ -72,8 +74,6 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 			content = append(content, []byte("...")...)
 		}
 		ds.Readme.Text = string(content)
-
-		ds.Readme.SetScriptFile(qfs.NewMemfileReader(f.FullPath(), io.MultiReader(buf, f)))
 	}
 
 	if ds.BodyFile() != nil {
@@ -92,13 +92,14 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		}
 
 		data, err := dsio.ConvertFile(teedFile, ds.Structure, st, MaxNumDatasetRowsInPreview, 0, false)
+		// restore consumed body file
+		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 		if err != nil {
 			log.Debugw("converting body file", "err", err.Error())
 			return nil, err
 		}
 
 		ds.Body = json.RawMessage(data)
-		ds.SetBodyFile(qfs.NewMemfileReaderSize(f.FullPath(), io.MultiReader(buf, f), int64(size)))
 	}
 
 	// Note: stats can get arbitrarily large, potentially bloating the size
-- 
2.43.0


From fc13a3cc7015b207e75ca213feb27dda7ba383e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 21/59] fix: replace a lonely carriage return at the end of a
 read

Whether a carriage return got its line feed depended on it not being the last
byte that fits the caller's buffer, so rows ending there ran into the next.
---
 dsio/replacecr/replace_cr.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/dsio/replacecr/replace_cr.go b/dsio/replacecr/replace_cr.go
index b7b301c..fa6bff8 100644
--- a/dsio/replacecr/replace_cr.go
+++ b/dsio/replacecr/replace_cr.go
@@ -17,14 +17,14 @@ import (
 // if read from directly. This can cause issues with checksums and byte counts.
 // Use with caution.
 func Reader(data io.Reader) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReader(data),
 	}
 }
 
 // ReaderWithSize instaties a reader with a given buffer size
 func ReaderWithSize(data io.Reader, size int) io.Reader {
-	return crlfReplaceReader{
+	return &crlfReplaceReader{
 		rdr: bufio.NewReaderSize(data, size),
 	}
 }
@@ -32,10 +32,13 @@ func ReaderWithSize(data io.Reader, size int) io.Reader {
 // crlfReplaceReader wraps a reader
 type crlfReplaceReader struct {
 	rdr *bufio.Reader
+	// addLF is true if the last byte returned was a lonely \r, the next byte to
+	// return is \n
+	addLF bool
 }
 
 // Read implements io.Reader for crlfReplaceReader
-func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
+func (c *crlfReplaceReader) Read(p []byte) (n int, err error) {
 	lenP := len(p)
 	if lenP == 0 {
 		return
@@ -46,18 +49,26 @@ func (c crlfReplaceReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		if c.addLF {
+			p[n] = '\n'
+			c.addLF = false
+			n++
+			continue
+		}
+
 		p[n], err = c.rdr.ReadByte()
 		if err != nil {
 			return
 		}
 
-		// any time we encounter \r & still have space, check to see if \n follows
-		// ff next char is not \n, add it in manually
-		if p[n] == '\r' && n < lenP-1 {
-			if pk, err := c.rdr.Peek(1); (err == nil && pk[0] != '\n') || (err != nil && err.Error() == "EOF") {
-				n++
-				p[n] = '\n'
+		// any time we encounter \r, check to see if \n follows
+		// if next char is not \n, add it in manually
+		if p[n] == '\r' {
+			pk, err := c.rdr.Peek(1)
+			if err != nil && err != io.EOF {
+				return n + 1, err
 			}
+			c.addLF = err == io.EOF || pk[0] != '\n'
 		}
 
 		n++
-- 
2.43.0


From bcd42b9f8d41f2b2bd2ca272ec31e0385812aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 22/59] fix: report a failed write of a stepfile separator

---
 stepfile/stepfile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stepfile/stepfile.go b/stepfile/stepfile.go
index c0261dc..9a1711f 100644
--- a/stepfile/stepfile.go
+++ b/stepfile/stepfile.go
@@ -55,7 +55,9 @@ func Write(steps []*dataset.TransformStep, w io.Writer) error {
 			return err
 		}
 		if i != len(steps)-1 {
-			w.Write([]byte("\n---\n"))
+			if _, err := w.Write([]byte("\n---\n")); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From e4dab5a1ce581f0f6682bc0cc2b0494d24acf7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:15 +0000
Subject: [PATCH 23/59] fix: only examine bytes that were read when detecting a
 JSON schema

A read that returned less than the buffer's 100 bytes of leading whitespace
made detection look at bytes that were never read.
---
 detect/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detect/json.go b/detect/json.go
index e94d5e9..83a4e12 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -37,7 +37,7 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 			}
 		}
 
-		for _, b := range buf {
+		for _, b := range buf[:count] {
 			switch b {
 			case '[':
 				return dataset.BaseSchemaArray, n, nil
-- 
2.43.0


From 4d6406bac058ed15c9ce4d4a975eea969b974db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:18 +0000
Subject: [PATCH 24/59] fix: don't share the base schemas between detected
 structures

Editing the schema of a detected structure changed the package's base schema,
and with it every other detected structure.
---
 detect/cbor.go            |  4 ++--
 detect/determineFields.go | 10 ++++++++++
 detect/json.go            |  6 +++---
 detect/xlsx.go            |  2 +-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/detect/cbor.go b/detect/cbor.go
index 278cab5..11269a9 100644
--- a/detect/cbor.go
+++ b/detect/cbor.go
@@ -29,9 +29,9 @@ func CBORSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 	switch {
 	case bd >= cborBaseArray && bd < cborBaseMap, bd == cborBdIndefiniteArray:
-		return dataset.BaseSchemaArray, n, nil
+		return copySchema(dataset.BaseSchemaArray), n, nil
 	case bd >= cborBaseMap && bd < cborBaseTag, bd == cborBdIndefiniteMap:
-		return dataset.BaseSchemaObject, n, nil
+		return copySchema(dataset.BaseSchemaObject), n, nil
 	default:
 		err = fmt.Errorf("invalid top-level type for CBOR data. cbor datasets must begin with either an array or map")
 		log.Debugf(err.Error())
diff --git a/detect/determineFields.go b/detect/determineFields.go
index 3f8b3fd..48458b9 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -45,6 +45,16 @@ func Schema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}
 	}
 }
 
+// copySchema makes a base schema safe to hand out, callers may edit the schemas
+// of the structures they get
+func copySchema(schema map[string]interface{}) map[string]interface{} {
+	cp := make(map[string]interface{}, len(schema))
+	for key, val := range schema {
+		cp[key] = val
+	}
+	return cp
+}
+
 type field struct {
 	Title string    `json:"title,omitempty"`
 	Type  vals.Type `json:"type,omitempty"`
diff --git a/detect/json.go b/detect/json.go
index 83a4e12..b8c157a 100644
--- a/detect/json.go
+++ b/detect/json.go
@@ -40,9 +40,9 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 		for _, b := range buf[:count] {
 			switch b {
 			case '[':
-				return dataset.BaseSchemaArray, n, nil
+				return copySchema(dataset.BaseSchemaArray), n, nil
 			case '{':
-				return dataset.BaseSchemaObject, n, nil
+				return copySchema(dataset.BaseSchemaObject), n, nil
 			case ' ', '\t', '\n', '\r':
 				continue
 			default:
@@ -55,5 +55,5 @@ func JSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]
 
 // NDJSONSchema returns an array identity schema
 func NDJSONSchema(resource *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return copySchema(dataset.BaseSchemaArray), 0, nil
 }
diff --git a/detect/xlsx.go b/detect/xlsx.go
index 3c0310a..a374f23 100644
--- a/detect/xlsx.go
+++ b/detect/xlsx.go
@@ -9,5 +9,5 @@ import (
 // XLSXSchema determines any schema information for an excel spreadsheet
 // TODO (b5): currently unimplemented
 func XLSXSchema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
-	return dataset.BaseSchemaArray, 0, nil
+	return copySchema(dataset.BaseSchemaArray), 0, nil
 }
-- 
2.43.0


From b37ffdc6ce112acc7d3e64c6d035a6ba26d42b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 25/59] fix: keep the body when detecting its structure fails

The bytes detection had consumed were put back only on success.
---
 detect/detect.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 77deb4f..73f4e22 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -55,6 +55,16 @@ func Structure(ds *dataset.Dataset) error {
 	}
 
 	guessedStructure, _, err := FromReader(df, comp, tr)
+
+	// glue whatever we just read back onto the reader
+	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
+	// we should consider a method on qfs.File that allows this non-destructive read pattern
+	size := int64(-1)
+	if sizef, ok := body.(qfs.SizeFile); ok {
+		size = sizef.Size()
+	}
+	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
+
 	if err != nil {
 		log.Debug(err.Error())
 		return fmt.Errorf("determining dataset structure: %w", err)
@@ -76,15 +86,6 @@ func Structure(ds *dataset.Dataset) error {
 	if ds.Structure.Schema == nil {
 		ds.Structure.Schema = guessedStructure.Schema
 	}
-
-	// glue whatever we just read back onto the reader
-	// TODO (b5)- this may ruin readers that transparently depend on a read-closer
-	// we should consider a method on qfs.File that allows this non-destructive read pattern
-	size := int64(-1)
-	if sizef, ok := body.(qfs.SizeFile); ok {
-		size = sizef.Size()
-	}
-	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
 	return nil
 }
 
-- 
2.43.0


From 30b473ed6b47226781f866dd5be0e82f4618a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 26/59] fix: decompress compressed data before detecting its
 schema

Detection examined the compressed bytes: it failed for JSON and CBOR and made
up fields for CSV.
---
 detect/determineFields.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/detect/determineFields.go b/detect/determineFields.go
index 48458b9..c3b8da5 100644
--- a/detect/determineFields.go
+++ b/detect/determineFields.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/qri-io/dataset"
+	"github.com/qri-io/dataset/compression"
 	"github.com/qri-io/dataset/dsio"
 	"github.com/qri-io/dataset/dsio/replacecr"
 	"github.com/qri-io/dataset/vals"
@@ -28,6 +29,23 @@ func Schema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}
 		return
 	}
 
+	if r.Compression != "" && r.DataFormat() != dataset.XLSXDataFormat {
+		tr := dsio.NewTrackedReader(data)
+		rc, err := compression.Decompressor(r.Compression, tr)
+		if err != nil {
+			return nil, tr.BytesRead(), fmt.Errorf("decompressing data: %w", err)
+		}
+		schema, _, err = formatSchema(r, rc)
+		if closeErr := rc.Close(); err == nil && closeErr != nil {
+			err = closeErr
+		}
+		return schema, tr.BytesRead(), err
+	}
+	return formatSchema(r, data)
+}
+
+// formatSchema determines the schema of uncompressed data
+func formatSchema(r *dataset.Structure, data io.Reader) (schema map[string]interface{}, n int, err error) {
 	switch r.DataFormat() {
 	case dataset.CBORDataFormat:
 		return CBORSchema(r, data)
-- 
2.43.0


From 6b61ff36493118a0a7f4c9416bb6e779aa0e51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:38 +0000
Subject: [PATCH 27/59] fix: count merged centroids when restoring a sketch

Merged centroids have a negative weight, restoring a sketch subtracted them.
---
 dsstats/histosketch/histosketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 260fb0c..84f5def 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -272,7 +272,7 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 			return err
 		}
 		h.cs = append(h.cs, c)
-		h.count += c.m
+		h.count += math.Abs(c.m)
 	}
 	// Read min and max.
 	_, err = fmt.Fscanln(b, &h.min, &h.max)
-- 
2.43.0


From 1fb80e410797f64d7e318f742f169c8aaffd67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 28/59] fix: keep the extremes of a merged sketch

---
 dsstats/histosketch/histosketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 84f5def..f9fd906 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -141,6 +141,9 @@ func (h *Sketch) Merge(x Sketch) {
 	for _, c := range x.cs {
 		h.AddMany(c.p, int64(math.Abs(c.m)))
 	}
+	// centroids of x may be averages, its extremes are known exactly
+	h.min = math.Min(h.min, x.min)
+	h.max = math.Max(h.max, x.max)
 }
 
 // Gets the (i-1)-st and ith centroids. If i is 0, fake out the (i-1)-st with
-- 
2.43.0


From c04786215678645e8ca4c86b9f9df6d111527fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:59 +0000
Subject: [PATCH 29/59] fix: report positive histogram frequencies for merged
 centroids

---
 dsstats/histosketch/histosketch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index f9fd906..ad96be1 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -406,7 +406,8 @@ func (h *Sketch) Read() ([]float64, []float64) {
 	histogram := make([]float64, len(h.cs))
 	for i := 0; i < len(h.cs); i++ {
 		bins[i] = h.cs[i].p
-		histogram[i] = h.cs[i].m
+		// merged centroids have negative counts
+		histogram[i] = math.Abs(h.cs[i].m)
 	}
 	bins[len(h.cs)] = h.max + 1
 	return bins, histogram
-- 
2.43.0


From 64fa6027d40e40022dfe08014bd6c389c302d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 30/59] fix: report the extremes of numbers beyond the range of
 an int

min and max started from the bounds of an int, columns holding only larger or
smaller floats kept them.
---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index f774c78..a2f8cee 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -3,6 +3,7 @@ package dsstats
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/axiomhq/hyperloglog"
@@ -313,8 +314,8 @@ var _ accumulator = (*numericAcc)(nil)
 func newNumericAcc(typ string) *numericAcc {
 	return &numericAcc{
 		typ:    typ,
-		max:    float64(minInt),
-		min:    float64(maxInt),
+		max:    -math.MaxFloat64,
+		min:    math.MaxFloat64,
 		median: maxFloat,
 		// use histogram to accumulate values
 		histogram: []float64{},
-- 
2.43.0


From 403bc7fb03fc316f2b9ccd263953305ec63c3e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 31/59] fix: closing a stats accumulator twice doesn't change
 the mean

---
 dsstats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index a2f8cee..99e84f6 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -302,6 +302,7 @@ type numericAcc struct {
 	count           int
 	min             float64
 	max             float64
+	sum             float64
 	mean            float64
 	median          float64
 	dividers        []float64
@@ -347,7 +348,7 @@ func (acc *numericAcc) Write(e dsio.Entry) {
 
 	acc.histogramSketch.Add(v)
 
-	acc.mean += v
+	acc.sum += v
 	acc.count++
 	if v > acc.max {
 		acc.max = v
@@ -388,7 +389,7 @@ func (acc *numericAcc) Map() map[string]interface{} {
 // Close finalizes the accumulator
 func (acc *numericAcc) Close() {
 	// finalize avg
-	acc.mean = acc.mean / float64(acc.count)
+	acc.mean = acc.sum / float64(acc.count)
 	acc.dividers, acc.histogram = acc.histogramSketch.Read()
 	acc.median = acc.histogramSketch.Median()
 }
-- 
2.43.0


From 8acb34594d3b26451899ad7b1656ef62d55fa575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 32/59] fix: close the reader after calculating stats

Decompressors of zstd bodies keep goroutines until they are closed.
---
 dsstats/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsstats/stats.go b/dsstats/stats.go
index 99e84f6..6252c99 100644
--- a/dsstats/stats.go
+++ b/dsstats/stats.go
@@ -44,6 +44,7 @@ func Calculate(ds *dataset.Dataset) (st *dataset.Stats, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer r.Close()
 
 	return CalculateFromEntryReader(r)
 }
-- 
2.43.0


From 1ccf63bcb809051f8551180270046ec53282742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 33/59] fix: report the row of validation errors past the first
 batch

Rows are validated in batches of 5000, and errors gave the row within their
batch.
---
 validate/data.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index f4071cc..c44ca49 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/qri-io/dataset"
 	"github.com/qri-io/dataset/dsio"
@@ -12,7 +14,7 @@ import (
 
 const batchSize = 5000
 
-func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, errs *[]jsonschema.KeyError) error {
+func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, offset int, errs *[]jsonschema.KeyError) error {
 	if len(buf.Bytes()) == 0 {
 		return nil
 	}
@@ -26,11 +28,31 @@ func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structur
 		return fmt.Errorf("error parsing JSON bytes: %s", err.Error())
 	}
 	validationState := jsch.Validate(ctx, doc)
-	*errs = append(*errs, *validationState.Errs...)
+	_, isArray := doc.([]interface{})
+	for _, keyErr := range *validationState.Errs {
+		if isArray {
+			keyErr.PropertyPath = offsetPath(keyErr.PropertyPath, offset)
+		}
+		*errs = append(*errs, keyErr)
+	}
 
 	return nil
 }
 
+// offsetPath adds offset to the row index that starts a property path
+func offsetPath(path string, offset int) string {
+	parts := strings.SplitN(path, "/", 3)
+	if len(parts) < 2 || parts[0] != "" {
+		return path
+	}
+	row, err := strconv.Atoi(parts[1])
+	if err != nil {
+		return path
+	}
+	parts[1] = strconv.Itoa(row + offset)
+	return strings.Join(parts, "/")
+}
+
 // EntryReader consumes a reader & returns any validation errors present
 // TODO - refactor this to wrap a reader & return a struct that gives an
 // error or nil on each entry read.
@@ -44,6 +66,8 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 	}
 
 	valErrors := []jsonschema.KeyError{}
+	// index of the first row in the current batch
+	offset := 0
 
 	buf, err := dsio.NewEntryBuffer(&dataset.Structure{
 		Format: "json",
@@ -59,10 +83,11 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		}
 
 		if i%batchSize == 0 {
-			flushErr := flushBatch(ctx, buf, st, jsch, &valErrors)
+			flushErr := flushBatch(ctx, buf, st, jsch, offset, &valErrors)
 			if flushErr != nil {
 				return flushErr
 			}
+			offset = i
 			var bufErr error
 			buf, bufErr = dsio.NewEntryBuffer(&dataset.Structure{
 				Format: "json",
@@ -85,7 +110,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 		return nil, fmt.Errorf("error reading values: %s", err.Error())
 	}
 
-	if err := flushBatch(ctx, buf, st, jsch, &valErrors); err != nil {
+	if err := flushBatch(ctx, buf, st, jsch, offset, &valErrors); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 0a77b82b0490ffdf1415a1261801af0b6a1566a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:24 +0000
Subject: [PATCH 34/59] fix: validate empty bodies against their schema

---
 validate/data.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/validate/data.go b/validate/data.go
index c44ca49..7317029 100644
--- a/validate/data.go
+++ b/validate/data.go
@@ -15,10 +15,6 @@ import (
 const batchSize = 5000
 
 func flushBatch(ctx context.Context, buf *dsio.EntryBuffer, st *dataset.Structure, jsch *jsonschema.Schema, offset int, errs *[]jsonschema.KeyError) error {
-	if len(buf.Bytes()) == 0 {
-		return nil
-	}
-
 	if e := buf.Close(); e != nil {
 		return fmt.Errorf("error closing buffer: %s", e.Error())
 	}
@@ -82,7 +78,7 @@ func EntryReader(r dsio.EntryReader) ([]jsonschema.KeyError, error) {
 			return fmt.Errorf("error reading row %d: %s", i, err.Error())
 		}
 
-		if i%batchSize == 0 {
+		if i > 0 && i%batchSize == 0 {
 			flushErr := flushBatch(ctx, buf, st, jsch, offset, &valErrors)
 			if flushErr != nil {
 				return flushErr
-- 
2.43.0


From 88681677ea1a0a40040ed268cff5818f2545ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 35/59] fix: check a CBOR body's schema before starting its
 decompressor

---
 dsio/cbor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 52fe1e5..bcde816 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -37,14 +37,14 @@ func NewCBORReader(st *dataset.Structure, r io.Reader) (*CBORReader, error) {
 		return nil, err
 	}
 
-	r, close, err := maybeWrapDecompressor(st, r)
+	tlt, err := GetTopLevelType(st)
 	if err != nil {
+		log.Debug(err.Error())
 		return nil, err
 	}
 
-	tlt, err := GetTopLevelType(st)
+	r, close, err := maybeWrapDecompressor(st, r)
 	if err != nil {
-		log.Debug(err.Error())
 		return nil, err
 	}
 
-- 
2.43.0


From 3628682792f39538cde8ce7036f7b47f389d5f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:21 +0000
Subject: [PATCH 36/59] fix: refuse bodies that nest too deep instead of
 exhausting the stack

---
 dsio/cbor.go | 7 +++++++
 dsio/dsio.go | 5 +++++
 dsio/json.go | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index bcde816..8966eb9 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -21,6 +21,7 @@ type CBORReader struct {
 	st       *dataset.Structure
 	topLevel byte
 	length   int
+	depth    int // number of values being read that contain the current one
 }
 
 var _ EntryReader = (*CBORReader)(nil)
@@ -216,6 +217,12 @@ func (r *CBORReader) readStringKey() (string, error) {
 
 // readValue reads a value of any type from the input stream
 func (r *CBORReader) readValue() (interface{}, error) {
+	if r.depth >= maxDepth {
+		return nil, errMaxDepth
+	}
+	r.depth++
+	defer func() { r.depth-- }()
+
 	b, err := r.rdr.ReadByte()
 	if err != nil {
 		return nil, err
diff --git a/dsio/dsio.go b/dsio/dsio.go
index 9929e80..6b86cd1 100644
--- a/dsio/dsio.go
+++ b/dsio/dsio.go
@@ -14,6 +14,11 @@ import (
 
 var log = logger.Logger("dsio")
 
+// maxDepth limits how deep values can nest, same as encoding/json
+const maxDepth = 10000
+
+var errMaxDepth = fmt.Errorf("exceeded max depth of %d nested values", maxDepth)
+
 // EntryWriter is a generalized interface for writing structured data
 type EntryWriter interface {
 	// Structure gives the structure being written
diff --git a/dsio/json.go b/dsio/json.go
index 2ce0f40..befa094 100644
--- a/dsio/json.go
+++ b/dsio/json.go
@@ -26,6 +26,7 @@ type JSONReader struct {
 	close       func() error // close func from wrapped reader
 	prevSize    int          // when buffer is extended, remember how much of the old buffer to discard
 	readErr     error        // error from the underlying reader, other than reaching its end
+	depth       int          // number of values being read that contain the current one
 }
 
 var _ EntryReader = (*JSONReader)(nil)
@@ -181,6 +182,12 @@ func (r *JSONReader) peekNextChar() byte {
 }
 
 func (r *JSONReader) readValue() (interface{}, error) {
+	if r.depth >= maxDepth {
+		return nil, errMaxDepth
+	}
+	r.depth++
+	defer func() { r.depth-- }()
+
 	b := r.peekNextChar()
 	switch b {
 	case 'n':
-- 
2.43.0


From 309a5c3220c58aed994c6226a36b0e101ad0ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 37/59] fix: allocate CBOR arrays as their elements arrive

---
 dsio/cbor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index 8966eb9..ec0ff93 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -383,7 +383,7 @@ func (r *CBORReader) readArray(length int) ([]interface{}, error) {
 	var array []interface{}
 	if length > 0 {
 		// Don't trust a huge length.
-		array = make([]interface{}, 0, minInt(length, 4096))
+		array = make([]interface{}, 0, minInt(length, 64))
 	} else {
 		array = make([]interface{}, 0)
 	}
-- 
2.43.0


From 902e96cebed4dc87382a7604d8cc002eff6e0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:35 +0000
Subject: [PATCH 38/59] fix: don't panic restoring a damaged or empty sketch

---
 dsstats/histosketch/histosketch.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index ad96be1..329815e 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -265,7 +265,14 @@ func (h *Sketch) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if num < 0 || num > b.Len() {
+		return fmt.Errorf("invalid number of centroids '%v'", num)
+	}
 	h.cs = make([]centroid, 0, num+1)
+	if num == 0 {
+		// leave room to add to an empty sketch
+		h.cs = make([]centroid, 0, 2)
+	}
 	// Read all centroids.
 	h.count = 0.0
 	for i := 0; i < num; i++ {
-- 
2.43.0


From 0fe1d6641dc7255fe6564d78f33485ffdae39e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:22 +0000
Subject: [PATCH 39/59] fix: keep CSV cells that aren't null in a column of
 nulls

---
 dsio/csv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 96ab569..2344314 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -155,7 +155,9 @@ func (r *CSVReader) decode(strings []string) ([]interface{}, error) {
 				vs[i] = v
 			}
 		case "null":
-			vs[i] = nil
+			if str == "" || str == "null" {
+				vs[i] = nil
+			}
 		}
 	}
 
-- 
2.43.0


From 1a93712e155171876549eb3d545ba5ba93b7c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 40/59] fix: don't reduce a structure that has more than a path
 to its path

---
 structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure.go b/structure.go
index f441ebf..257695a 100644
--- a/structure.go
+++ b/structure.go
@@ -189,7 +189,7 @@ type _structure Structure
 
 // MarshalJSON satisfies the json.Marshaler interface
 func (s Structure) MarshalJSON() (data []byte, err error) {
-	if s.Path != "" && s.Encoding == "" && s.Schema == nil {
+	if s.Path != "" && s.IsEmpty() {
 		return json.Marshal(s.Path)
 	}
 
-- 
2.43.0


From 684086c9813039e568b1fb1dc12125d48825235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 41/59] fix: keep all additional metadata, and only that, when
 decoding meta

---
 meta.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/meta.go b/meta.go
index e648efc..635a1f6 100644
--- a/meta.go
+++ b/meta.go
@@ -91,7 +91,8 @@ func (md *Meta) IsEmpty() bool {
 		md.ReadmeURL == "" &&
 		md.Title == "" &&
 		md.Theme == nil &&
-		md.Version == ""
+		md.Version == "" &&
+		len(md.meta) == 0
 }
 
 // NewMetaRef creates a Meta pointer with the internal
@@ -399,21 +400,17 @@ func (md *Meta) UnmarshalJSON(data []byte) error {
 		"accrualPeriodicity",
 		"citations",
 		"contributors",
-		"data",
 		"description",
 		"downloadURL",
 		"homeURL",
 		"identifier",
-		"image",
-		"keyword",
+		"keywords",
 		"path",
 		"qri",
 		"language",
-		"length",
 		"license",
 		"readmeURL",
 		"theme",
-		"timestamp",
 		"title",
 		"version",
 	} {
-- 
2.43.0


From 634fefe76982604530a956fdd3dc3db4c4ab93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 42/59] fix: keep the path of a readme and viz when encoding

---
 readme.go | 3 +++
 viz.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/readme.go b/readme.go
index e8a4685..1aef503 100644
--- a/readme.go
+++ b/readme.go
@@ -259,6 +259,9 @@ func (r *Readme) MarshalJSONObject() ([]byte, error) {
 	if r.ScriptPath != "" {
 		data["scriptPath"] = r.ScriptPath
 	}
+	if r.Path != "" {
+		data["path"] = r.Path
+	}
 	if r.RenderedPath != "" {
 		data["renderedPath"] = r.RenderedPath
 	}
diff --git a/viz.go b/viz.go
index 13d34d1..c37b8f5 100644
--- a/viz.go
+++ b/viz.go
@@ -261,6 +261,9 @@ func (v *Viz) MarshalJSONObject() ([]byte, error) {
 	if v.ScriptPath != "" {
 		data["scriptPath"] = v.ScriptPath
 	}
+	if v.Path != "" {
+		data["path"] = v.Path
+	}
 	if v.RenderedPath != "" {
 		data["renderedPath"] = v.RenderedPath
 	}
-- 
2.43.0


From 20682391b788e3de8736034608fb3cdba7e69655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 43/59] fix: close the script file after inlining it

---
 readme.go    | 1 +
 transform.go | 1 +
 viz.go       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/readme.go b/readme.go
index 1aef503..728c400 100644
--- a/readme.go
+++ b/readme.go
@@ -84,6 +84,7 @@ func (r *Readme) InlineScriptFile(ctx context.Context, resolver qfs.PathResolver
 	if file == nil {
 		return nil
 	}
+	defer file.Close()
 	data, err := ioutil.ReadAll(file)
 	if err != nil {
 		return err
diff --git a/transform.go b/transform.go
index fa50159..ac94979 100644
--- a/transform.go
+++ b/transform.go
@@ -79,6 +79,7 @@ func (q *Transform) InlineScriptFile(ctx context.Context, resolver qfs.PathResol
 	if file == nil {
 		return nil
 	}
+	defer file.Close()
 	data, err := ioutil.ReadAll(file)
 	if err != nil {
 		return err
diff --git a/viz.go b/viz.go
index c37b8f5..c72c686 100644
--- a/viz.go
+++ b/viz.go
@@ -65,6 +65,7 @@ func (v *Viz) InlineScriptFile(ctx context.Context, resolver qfs.PathResolver) e
 	if file == nil {
 		return nil
 	}
+	defer file.Close()
 	data, err := ioutil.ReadAll(file)
 	if err != nil {
 		return err
-- 
2.43.0


From 0560d1d3946b597cb8c8abb24d62d8782f081142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 44/59] fix: generate both booleans

---
 generate/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/value.go b/generate/value.go
index 33df384..bada811 100644
--- a/generate/value.go
+++ b/generate/value.go
@@ -75,7 +75,7 @@ func (g *ValueGenerator) Int() int {
 
 // Bool yields a random coin flip
 func (g *ValueGenerator) Bool() bool {
-	return g.Rand.Intn(1)%2 == 0
+	return g.Rand.Intn(2) == 0
 }
 
 // Object creates an empty object
-- 
2.43.0


From f0c7723878522453646f1b0840df277fb539f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 45/59] fix: refuse a saved sketch that was cut short

---
 dsstats/histosketch/histosketch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsstats/histosketch/histosketch.go b/dsstats/histosketch/histosketch.go
index 329815e..988c087 100644
--- a/dsstats/histosketch/histosketch.go
+++ b/dsstats/histosketch/histosketch.go
@@ -251,6 +251,10 @@ func (h Sketch) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary implements deserialization for use with gob/encoding. See tests for an example.
 func (h *Sketch) UnmarshalBinary(data []byte) error {
+	if !bytes.HasSuffix(data, []byte("\n")) {
+		// every line is terminated, the last number may be cut short
+		return fmt.Errorf("incomplete serialization")
+	}
 	b := bytes.NewBuffer(data)
 	var num, version int
 	// Read and verify the version number.
-- 
2.43.0


From 476e50ec147d515af423885dc6d22306405a9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 46/59] fix: treat a column with an empty list of types as one
 without a type

---
 tabular/tabular.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tabular/tabular.go b/tabular/tabular.go
index f25ea4e..c995909 100644
--- a/tabular/tabular.go
+++ b/tabular/tabular.go
@@ -186,7 +186,9 @@ func arrayWrapperColumns(sch map[string]interface{}) (Columns, []string, error)
 							types = append(types, t)
 						}
 					}
-					cols[i].Type = &types
+					if len(types) > 0 {
+						cols[i].Type = &types
+					}
 				}
 			case "description":
 				if d, ok := val.(string); ok {
-- 
2.43.0


From e995707ae3b9a675b3d9ca25defb623bb1c205a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:31 +0000
Subject: [PATCH 47/59] fix: record CBOR values when they are written

---
 dsio/cbor.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/dsio/cbor.go b/dsio/cbor.go
index ec0ff93..a5a82c3 100644
--- a/dsio/cbor.go
+++ b/dsio/cbor.go
@@ -522,6 +522,7 @@ type CBORWriter struct {
 	st          *dataset.Structure
 	wr          io.Writer
 	close       func() error // close func from wrapped writer
+	handle      *codec.CborHandle
 	arr         []interface{}
 	obj         map[string]interface{}
 }
@@ -542,11 +543,16 @@ func NewCBORWriter(st *dataset.Structure, w io.Writer) (*CBORWriter, error) {
 		return nil, err
 	}
 
+	handle := &codec.CborHandle{TimeRFC3339: true}
+	handle.Canonical = true
+	handle.Raw = true
+
 	cw := &CBORWriter{
-		st:    st,
-		wr:    w,
-		close: close,
-		tlt:   tlt,
+		st:     st,
+		wr:     w,
+		close:  close,
+		tlt:    tlt,
+		handle: handle,
 	}
 
 	if cw.tlt == "object" {
@@ -577,20 +583,33 @@ func (w *CBORWriter) WriteEntry(ent Entry) error {
 		if _, ok := w.obj[ent.Key]; ok {
 			return fmt.Errorf(`key already written: '%s'`, ent.Key)
 		}
-		w.obj[ent.Key] = ent.Value
+		val, err := w.encode(ent.Value)
+		if err != nil {
+			return err
+		}
+		w.obj[ent.Key] = val
 		return nil
 	}
 
-	w.arr = append(w.arr, ent.Value)
+	val, err := w.encode(ent.Value)
+	if err != nil {
+		return err
+	}
+	w.arr = append(w.arr, val)
 	return nil
 }
 
+// encode encodes a value right away, the caller may change it afterwards
+func (w *CBORWriter) encode(v interface{}) (codec.Raw, error) {
+	var data []byte
+	err := codec.NewEncoderBytes(&data, w.handle).Encode(v)
+	return codec.Raw(data), err
+}
+
 // Close finalizes the writer, indicating no more records
 // will be written
 func (w *CBORWriter) Close() error {
-	h := &codec.CborHandle{TimeRFC3339: true}
-	h.Canonical = true
-	enc := codec.NewEncoder(w.wr, h)
+	enc := codec.NewEncoder(w.wr, w.handle)
 
 	var v interface{} = w.arr
 	if w.tlt == "object" {
-- 
2.43.0


From b8eec7594acfcbbae3a0ea98b1771d8b7610503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 48/59] fix: fail to preview a body that has no structure
 instead of panicking

---
 preview/preview.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preview/preview.go b/preview/preview.go
index 081cda9..20be618 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -77,6 +77,9 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 	}
 
 	if ds.BodyFile() != nil {
+		if ds.Structure == nil {
+			return nil, fmt.Errorf("dataset with a body is missing structure")
+		}
 		st := &dataset.Structure{
 			Format: "json",
 			Schema: ds.Structure.Schema,
-- 
2.43.0


From ca1e586bd9ee03cf78dd5f93061652f6b80197c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 49/59] fix: fail to render a viz without a script instead of
 panicking

---
 dsviz/render.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index 5652bac..ee8bad1 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -37,6 +37,9 @@ var PredefinedHTMLTemplates map[string]string
 
 func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 	script := ds.Viz.ScriptFile()
+	if script == nil {
+		return nil, fmt.Errorf("viz component has no script file")
+	}
 	// tee the viz file to avoid losing script data
 	vizScriptBuf := &bytes.Buffer{}
 	tr := io.TeeReader(script, vizScriptBuf)
-- 
2.43.0


From 74baef1c1155bd6f2a9b487fb30ec2ed9246d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:41 +0000
Subject: [PATCH 50/59] fix: fail to render entries of a dataset without a body
 instead of crashing

---
 dsviz/render.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsviz/render.go b/dsviz/render.go
index ee8bad1..769e271 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -163,6 +163,9 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 
 	// load all body data
 	bodyFile := ds.BodyFile()
+	if bodyFile == nil {
+		return nil, fmt.Errorf("can't get_body. dataset has no body file")
+	}
 	bodyBytesBuf := &bytes.Buffer{}
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
 	defer func() {
-- 
2.43.0


From c5d508c6b0eee730f0ed8286faf37085b717115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:42 +0000
Subject: [PATCH 51/59] fix: leave the dataset as it is when creating its
 preview

---
 preview/preview.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/preview/preview.go b/preview/preview.go
index 20be618..29f3c44 100644
--- a/preview/preview.go
+++ b/preview/preview.go
@@ -55,8 +55,10 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		return nil, fmt.Errorf("empty dataset")
 	}
 
+	// the preview is a dataset of its own: what it cuts short must not end up in
+	// the dataset it shows
 	p := &dataset.Dataset{}
-	p.Assign(ds)
+	*p = *ds
 
 	if ds.Readme != nil && ds.Readme.ScriptFile() != nil {
 		buf := &bytes.Buffer{}
@@ -73,7 +75,9 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		if len(content) >= MaxReadmePreviewBytes {
 			content = append(content, []byte("...")...)
 		}
-		ds.Readme.Text = string(content)
+		readme := *ds.Readme
+		readme.Text = string(content)
+		p.Readme = &readme
 	}
 
 	if ds.BodyFile() != nil {
@@ -102,7 +106,8 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 			return nil, err
 		}
 
-		ds.Body = json.RawMessage(data)
+		p.SetBodyFile(ds.BodyFile())
+		p.Body = json.RawMessage(data)
 	}
 
 	// Note: stats can get arbitrarily large, potentially bloating the size
@@ -112,5 +117,5 @@ func Create(ctx context.Context, ds *dataset.Dataset) (*dataset.Dataset, error)
 		p.Stats = ds.Stats
 	}
 
-	return ds, nil
+	return p, nil
 }
-- 
2.43.0


From 39742eecb6acefa9152c529653a2e315cdf01775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 52/59] fix: keep the full path of files when detecting a
 structure or rendering

---
 detect/detect.go | 2 +-
 dsviz/render.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/detect/detect.go b/detect/detect.go
index 73f4e22..22ff78b 100644
--- a/detect/detect.go
+++ b/detect/detect.go
@@ -63,7 +63,7 @@ func Structure(ds *dataset.Dataset) error {
 	if sizef, ok := body.(qfs.SizeFile); ok {
 		size = sizef.Size()
 	}
-	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FileName(), io.MultiReader(buf, body), size))
+	ds.SetBodyFile(qfs.NewMemfileReaderSize(body.FullPath(), io.MultiReader(buf, body), size))
 
 	if err != nil {
 		log.Debug(err.Error())
diff --git a/dsviz/render.go b/dsviz/render.go
index 769e271..1ff036f 100644
--- a/dsviz/render.go
+++ b/dsviz/render.go
@@ -47,7 +47,7 @@ func renderHTML(ds *dataset.Dataset) (qfs.File, error) {
 
 	tmplBytes, err := ioutil.ReadAll(teedVizScriptFile)
 	// restore consumed script file
-	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FileName(), io.MultiReader(vizScriptBuf, script)))
+	ds.Viz.SetScriptFile(qfs.NewMemfileReader(script.FullPath(), io.MultiReader(vizScriptBuf, script)))
 	if err != nil {
 		return nil, fmt.Errorf("reading template data: %s", err.Error())
 	}
@@ -170,7 +170,7 @@ func bodyEntries(ds *dataset.Dataset, offset, limit int) (interface{}, error) {
 	tr := io.TeeReader(bodyFile, bodyBytesBuf)
 	defer func() {
 		// restore body file, the reader may not have consumed all of it
-		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FileName(), io.MultiReader(bodyBytesBuf, bodyFile)))
+		ds.SetBodyFile(qfs.NewMemfileReader(bodyFile.FullPath(), io.MultiReader(bodyBytesBuf, bodyFile)))
 	}()
 	rr, err := dsio.NewEntryReader(ds.Structure, tr)
 	if err != nil {
-- 
2.43.0


From 8c40854f1f5df74efecd70226e0715a7da52913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:22 +0000
Subject: [PATCH 53/59] fix: leave the merged documents as they are when
 merging datasets

---
 dataset.go | 49 ++++++++++++++++++++++++++++---------------------
 meta.go    |  2 +-
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/dataset.go b/dataset.go
index b33a799..c87bd1e 100644
--- a/dataset.go
+++ b/dataset.go
@@ -369,17 +369,19 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 			ds.BodyPath = d.BodyPath
 		}
 
-		if ds.Commit == nil && d.Commit != nil {
-			ds.Commit = d.Commit
-		} else if ds.Commit != nil {
+		if d.Commit != nil {
+			if ds.Commit == nil {
+				ds.Commit = &Commit{}
+			}
 			ds.Commit.Assign(d.Commit)
 		}
 		if ds.ID == "" && d.ID != "" {
 			ds.ID = d.ID
 		}
-		if ds.Meta == nil && d.Meta != nil {
-			ds.Meta = d.Meta
-		} else if ds.Meta != nil {
+		if d.Meta != nil {
+			if ds.Meta == nil {
+				ds.Meta = &Meta{}
+			}
 			ds.Meta.Assign(d.Meta)
 		}
 		if d.Name != "" {
@@ -397,29 +399,34 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.ProfileID != "" {
 			ds.ProfileID = d.ProfileID
 		}
-		if ds.Stats == nil && d.Stats != nil {
-			ds.Stats = d.Stats
-		} else if ds.Stats != nil {
+		if d.Stats != nil {
+			if ds.Stats == nil {
+				ds.Stats = &Stats{}
+			}
 			ds.Stats.Assign(d.Stats)
 		}
-		if ds.Structure == nil && d.Structure != nil {
-			ds.Structure = d.Structure
-		} else if ds.Structure != nil {
+		if d.Structure != nil {
+			if ds.Structure == nil {
+				ds.Structure = &Structure{}
+			}
 			ds.Structure.Assign(d.Structure)
 		}
-		if ds.Transform == nil && d.Transform != nil {
-			ds.Transform = d.Transform
-		} else if ds.Transform != nil {
+		if d.Transform != nil {
+			if ds.Transform == nil {
+				ds.Transform = &Transform{}
+			}
 			ds.Transform.Assign(d.Transform)
 		}
-		if ds.Viz == nil && d.Viz != nil {
-			ds.Viz = d.Viz
-		} else if ds.Viz != nil {
+		if d.Viz != nil {
+			if ds.Viz == nil {
+				ds.Viz = &Viz{}
+			}
 			ds.Viz.Assign(d.Viz)
 		}
-		if ds.Readme == nil && d.Readme != nil {
-			ds.Readme = d.Readme
-		} else if ds.Readme != nil {
+		if d.Readme != nil {
+			if ds.Readme == nil {
+				ds.Readme = &Readme{}
+			}
 			ds.Readme.Assign(d.Readme)
 		}
 
diff --git a/meta.go b/meta.go
index 635a1f6..a818265 100644
--- a/meta.go
+++ b/meta.go
@@ -245,7 +245,7 @@ func (md *Meta) Assign(metas ...*Meta) {
 		}
 
 		if m.meta != nil {
-			md.meta = m.meta
+			md.meta = m.Meta()
 		}
 
 		if m.AccessURL != "" {
-- 
2.43.0


From a7b8d10095b9d5076ddcb5f0b467b919457822f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 54/59] fix: merge the number of versions and rendered files of
 datasets

---
 dataset.go | 3 +++
 readme.go  | 3 +++
 viz.go     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/dataset.go b/dataset.go
index c87bd1e..0e3852f 100644
--- a/dataset.go
+++ b/dataset.go
@@ -387,6 +387,9 @@ func (ds *Dataset) Assign(datasets ...*Dataset) {
 		if d.Name != "" {
 			ds.Name = d.Name
 		}
+		if d.NumVersions != 0 {
+			ds.NumVersions = d.NumVersions
+		}
 		if d.Path != "" {
 			ds.Path = d.Path
 		}
diff --git a/readme.go b/readme.go
index 728c400..f39061f 100644
--- a/readme.go
+++ b/readme.go
@@ -182,6 +182,9 @@ func (r *Readme) Assign(readmeConfigs ...*Readme) {
 		if rs.scriptFile != nil {
 			r.scriptFile = rs.scriptFile
 		}
+		if rs.renderedFile != nil {
+			r.renderedFile = rs.renderedFile
+		}
 		if rs.ScriptPath != "" {
 			r.ScriptPath = rs.ScriptPath
 		}
diff --git a/viz.go b/viz.go
index c72c686..4518251 100644
--- a/viz.go
+++ b/viz.go
@@ -182,6 +182,9 @@ func (v *Viz) Assign(visConfigs ...*Viz) {
 		if vs.scriptFile != nil {
 			v.scriptFile = vs.scriptFile
 		}
+		if vs.renderedFile != nil {
+			v.renderedFile = vs.renderedFile
+		}
 		if vs.ScriptPath != "" {
 			v.ScriptPath = vs.ScriptPath
 		}
-- 
2.43.0


From 524d4fc7a40e2aa9f85dac8fdf6b3039aa9b31cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:30 +0000
Subject: [PATCH 55/59] fix: merge metadata without additional values as
 leaving them as they were

---
 meta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta.go b/meta.go
index a818265..101c93b 100644
--- a/meta.go
+++ b/meta.go
@@ -244,7 +244,7 @@ func (md *Meta) Assign(metas ...*Meta) {
 			continue
 		}
 
-		if m.meta != nil {
+		if len(m.meta) > 0 {
 			md.meta = m.Meta()
 		}
 
-- 
2.43.0


From a8e660a6e41b59d57ef4952b6be44c0d590ed277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:54 +0000
Subject: [PATCH 56/59] fix: keep the separator of CSV options readable once
 stored

CSVOptions.Map gave the separator as a number, which NewCSVOptions refuses
and which is stored as such, so options did not survive a round trip.
---
 data_format_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_format_config.go b/data_format_config.go
index 0256bc6..ae265ef 100644
--- a/data_format_config.go
+++ b/data_format_config.go
@@ -111,7 +111,7 @@ func (o *CSVOptions) Map() map[string]interface{} {
 		opt["variadicFields"] = o.VariadicFields
 	}
 	if o.Separator != rune(0) {
-		opt["separator"] = o.Separator
+		opt["separator"] = string(o.Separator)
 	}
 	return opt
 }
-- 
2.43.0


From fe930d1c7744f191b3759177fae65b5307d656d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:05 +0000
Subject: [PATCH 57/59] fix: keep CSV rows of a single empty value

encoding/csv writes a lone empty field as a blank line, which readers skip,
so such rows were lost without an error. They are quoted now.
---
 dsio/csv.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/dsio/csv.go b/dsio/csv.go
index 2344314..9af3fd2 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -1,6 +1,7 @@
 package dsio
 
 import (
+	"bufio"
 	"encoding/csv"
 	"encoding/json"
 	"fmt"
@@ -179,6 +180,7 @@ func HasHeaderRow(st *dataset.Structure) bool {
 type CSVWriter struct {
 	rowsWritten int
 	w           *csv.Writer
+	buf         *bufio.Writer
 	st          *dataset.Structure
 	close       func() error
 
@@ -205,7 +207,8 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 		return nil, err
 	}
 
-	writer := csv.NewWriter(cw)
+	buf := bufio.NewWriter(cw)
+	writer := csv.NewWriter(buf)
 	opts, err := dataset.NewCSVOptions(st.FormatConfig)
 	if opts != nil && err == nil {
 		if opts.Separator != rune(0) {
@@ -216,13 +219,14 @@ func NewCSVWriter(st *dataset.Structure, w io.Writer) (*CSVWriter, error) {
 	wr := &CSVWriter{
 		st:    st,
 		w:     writer,
+		buf:   buf,
 		types: types,
 		close: close,
 	}
 
 	if opts != nil {
 		if opts.HeaderRow {
-			writer.Write(cols.Titles())
+			wr.writeRow(cols.Titles())
 		}
 	}
 
@@ -242,11 +246,25 @@ func (w *CSVWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
-		return w.w.Write(strs)
+		return w.writeRow(strs)
 	}
 	return fmt.Errorf("expected array value to write csv row. got: %v", ent)
 }
 
+// writeRow writes one record. A lone empty field has to be quoted, encoding/csv
+// writes it as a blank line, which readers skip
+func (w *CSVWriter) writeRow(strs []string) error {
+	if len(strs) != 1 || strs[0] != "" {
+		return w.w.Write(strs)
+	}
+	w.w.Flush()
+	if err := w.w.Error(); err != nil {
+		return err
+	}
+	_, err := w.buf.WriteString("\"\"\n")
+	return err
+}
+
 // encode uses specified types from structure's schema to go values to strings
 func encode(vs []interface{}) ([]string, error) {
 	strings := make([]string, len(vs))
@@ -295,6 +313,9 @@ func encode(vs []interface{}) ([]string, error) {
 func (w *CSVWriter) Close() error {
 	w.w.Flush()
 	err := w.w.Error()
+	if flushErr := w.buf.Flush(); err == nil {
+		err = flushErr
+	}
 	if w.close != nil {
 		if closeErr := w.close(); err == nil {
 			err = closeErr
-- 
2.43.0


From efb9a9cf18ffc3e159266a9dff8413524c7b35ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:11 +0000
Subject: [PATCH 58/59] fix: refuse CSV rows without values

They were written as blank lines, which readers skip, and so were lost
without an error.
---
 dsio/csv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsio/csv.go b/dsio/csv.go
index 9af3fd2..5ed3439 100644
--- a/dsio/csv.go
+++ b/dsio/csv.go
@@ -241,6 +241,9 @@ func (w *CSVWriter) Structure() *dataset.Structure {
 // WriteEntry writes one CSV record to the writer
 func (w *CSVWriter) WriteEntry(ent Entry) error {
 	if arr, ok := ent.Value.([]interface{}); ok {
+		if len(arr) == 0 {
+			return fmt.Errorf("a csv row needs at least one value")
+		}
 		strs, err := encode(arr)
 		if err != nil {
 			log.Debug(err.Error())
-- 
2.43.0


From 1362a3b0ce466c4494e2afa3e8eed88371f23e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:31 +0000
Subject: [PATCH 59/59] fix: refuse XLSX cells that can't be kept as they are

excelize truncates cells of more than 32767 bytes, and characters XML can't
represent are replaced, both without an error.
---
 dsio/xlsx.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dsio/xlsx.go b/dsio/xlsx.go
index b0a2117..cb017d7 100644
--- a/dsio/xlsx.go
+++ b/dsio/xlsx.go
@@ -207,6 +207,11 @@ func (w *XLSXWriter) WriteEntry(ent Entry) error {
 			log.Debug(err.Error())
 			return fmt.Errorf("error encoding entry: %s", err.Error())
 		}
+		for _, str := range strs {
+			if err := checkXLSXCell(str); err != nil {
+				return fmt.Errorf("error encoding entry: %s", err.Error())
+			}
+		}
 		for i, str := range strs {
 			w.f.SetCellValue(w.sheetName, w.axis(i), str)
 		}
@@ -216,6 +221,23 @@ func (w *XLSXWriter) WriteEntry(ent Entry) error {
 	return fmt.Errorf("expected array value to write xlsx row. got: %v", ent)
 }
 
+// maxXLSXCellLength is the number of bytes excelize keeps of a cell
+const maxXLSXCellLength = 32767
+
+// checkXLSXCell confirms a cell can be written without changing it. excelize
+// truncates long cells, characters XML can't represent are replaced
+func checkXLSXCell(str string) error {
+	if len(str) > maxXLSXCellLength {
+		return fmt.Errorf("xlsx cells hold at most %d bytes, got %d", maxXLSXCellLength, len(str))
+	}
+	for _, c := range str {
+		if c < 0x20 && c != '\t' && c != '\n' && c != '\r' || c == 0xFFFE || c == 0xFFFF {
+			return fmt.Errorf("xlsx cells can't hold the character %U", c)
+		}
+	}
+	return nil
+}
+
 func (w *XLSXWriter) axis(colIDx int) string {
 	return ColIndexToLetters(colIDx) + strconv.Itoa(w.rowsWritten+1)
 }
-- 
2.43.0

