From 484a6d206bc65cfb6c25f266539d35460d20c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 01/49] fix: no stray separator or newline when struct fields
 are skipped

A field promoted through a nil embedded pointer was rolled back only to just
after the comma and newline that introduced it, so a skipped last field left
a trailing comma ({"A":1,}), and an indented struct whose fields are all
omitted was written as {\n} instead of {}.
---
 encode.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/encode.go b/encode.go
index e4c0202..5d88b25 100644
--- a/encode.go
+++ b/encode.go
@@ -695,10 +695,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 	b = e.clrs.appendPunc(b, '{')
 
-	if len(st.fields) > 0 {
-		b = e.indentr.appendByte(b, '\n')
-	}
-
 	e.indentr.push()
 
 	for i := range st.fields {
@@ -709,10 +705,12 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			continue
 		}
 
+		lengthBeforeKey := len(b)
+
 		if n != 0 {
 			b = e.clrs.appendPunc(b, ',')
-			b = e.indentr.appendByte(b, '\n')
 		}
+		b = e.indentr.appendByte(b, '\n')
 
 		if (e.flags & EscapeHTML) != 0 {
 			k = f.html
@@ -720,7 +718,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			k = f.json
 		}
 
-		lengthBeforeKey := len(b)
 		b = e.indentr.appendIndent(b)
 
 		if e.clrs == nil {
@@ -746,13 +743,13 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		n++
 	}
 
+	e.indentr.pop()
+
 	if n > 0 {
 		b = e.indentr.appendByte(b, '\n')
+		b = e.indentr.appendIndent(b)
 	}
 
-	e.indentr.pop()
-	b = e.indentr.appendIndent(b)
-
 	b = e.clrs.appendPunc(b, '}')
 	return b, nil
 }
-- 
2.43.0


From cdf2f90df466a3e0880f48a5403fb4f003cffa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 02/49] fix: restore the indentation depth when encoding stops
 early

An encode that failed (or panicked in a user marshaler) inside a nested value
left the Indenter's depth raised, so everything encoded afterwards with the
same Encoder or Indenter was indented too far.
---
 encode.go | 6 ++++++
 json.go   | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/encode.go b/encode.go
index 5d88b25..c99f5e6 100644
--- a/encode.go
+++ b/encode.go
@@ -873,6 +873,12 @@ type rawFrame struct {
 func (e encoder) appendRawMessageTokens(b, s []byte) ([]byte, error) {
 	start := len(b)
 
+	if e.indentr != nil {
+		// A malformed message may leave containers open.
+		depth := e.indentr.depth
+		defer func() { e.indentr.depth = depth }()
+	}
+
 	stack := make([]rawFrame, 0, 8)
 
 	tok := NewTokenizer(s)
diff --git a/json.go b/json.go
index cb27c32..6554338 100644
--- a/json.go
+++ b/json.go
@@ -126,6 +126,13 @@ func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *I
 		return clrs.appendNull(b), nil
 	}
 
+	if indentr != nil {
+		// Encoding may stop part-way through a nested value (error or panic in
+		// a user marshaler); don't let the depth leak into later output.
+		depth := indentr.depth
+		defer func() { indentr.depth = depth }()
+	}
+
 	t := reflect.TypeOf(x)
 	p := (*iface)(unsafe.Pointer(&x)).ptr
 
-- 
2.43.0


From ed30f89b242ca19dd2ab3fe80d27a096ede587c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 03/49] fix: Encoder.Encode returns the error of its own failed
 Write

---
 json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json.go b/json.go
index 6554338..77adaeb 100644
--- a/json.go
+++ b/json.go
@@ -417,6 +417,7 @@ func (enc *Encoder) Encode(v interface{}) error {
 
 	if _, err2 := enc.writer.Write(b); err2 != nil {
 		enc.err = err2
+		err = err2
 	}
 
 	encoderBufferPool.Put(buf)
-- 
2.43.0


From 6c8ba722dbc1139085d9a0756fe28560dd3a2865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 04/49] fix: report invalid values in unsorted
 map[string]RawMessage

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index c99f5e6..800ffcd 100644
--- a/encode.go
+++ b/encode.go
@@ -617,7 +617,7 @@ func (e encoder) encodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 				v := m[k]
 				b, err = e.encodeRawMessage(b, unsafe.Pointer(&v))
 				if err != nil {
-					break
+					return b, err
 				}
 
 				i++
-- 
2.43.0


From ca27371c86fd25d5a1fd681adbada6036daa95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 05/49] fix: don't put color codes inside stringified keys and
 values

Integer map keys and fields with the string option were colored before being
quoted, so the escape sequences ended up, escaped, inside the JSON string.
Text-marshaler keys also used the TextMarshaler color instead of Key.
---
 encode.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 800ffcd..f5fb914 100644
--- a/encode.go
+++ b/encode.go
@@ -275,6 +275,13 @@ func (e encoder) doEncodeString(b []byte, p unsafe.Pointer) ([]byte, error) {
 }
 
 func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) ([]byte, error) {
+	clrs := e.clrs
+	if clrs != nil {
+		// The value becomes the text of a string: only that string is colored.
+		b = append(b, clrs.String...)
+		e.clrs = nil
+	}
+
 	i := len(b)
 
 	b, err := encode(e, b, p)
@@ -290,7 +297,12 @@ func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) (
 	}
 
 	n := copy(b[i:], b[j:])
-	return b[:i+n], nil
+	b = b[:i+n]
+
+	if clrs != nil {
+		b = append(b, ansiReset...)
+	}
+	return b, nil
 }
 
 func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
@@ -422,6 +434,10 @@ func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey
 		sortKeys(keys)
 	}
 
+	// Keys of any type use the Key color, which is applied here.
+	ke := e
+	ke.clrs = nil
+
 	start := len(b)
 	var err error
 	b = e.clrs.appendPunc(b, '{')
@@ -440,9 +456,15 @@ func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey
 			}
 
 			b = e.indentr.appendIndent(b)
-			if b, err = encodeKey(e, b, (*iface)(unsafe.Pointer(&k)).ptr); err != nil {
+			if e.clrs != nil {
+				b = append(b, e.clrs.Key...)
+			}
+			if b, err = encodeKey(ke, b, (*iface)(unsafe.Pointer(&k)).ptr); err != nil {
 				return b[:start], err
 			}
+			if e.clrs != nil {
+				b = append(b, ansiReset...)
+			}
 
 			b = e.clrs.appendPunc(b, ':')
 			b = e.indentr.appendByte(b, ' ')
-- 
2.43.0


From 1419630d670e6217f899b22dc64aa12d5dea7aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 06/49] fix: validate the whole of a RawMessage

Leading whitespace made a valid RawMessage or MarshalJSON result fail, and
anything after the first value ("1 2", "1]") was silently dropped.
---
 encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index f5fb914..f4f1d67 100644
--- a/encode.go
+++ b/encode.go
@@ -832,8 +832,12 @@ func (e encoder) encodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 
 	s := []byte(v)
 	if !trusted {
+		var r []byte
 		var err error
-		s, _, err = parseValue(v)
+		s, r, err = parseValue(skipSpaces(v))
+		if r = skipSpaces(r); err == nil && len(r) != 0 {
+			err = syntaxError(r, "invalid character '%c' after top-level value", r[0])
+		}
 		if err != nil {
 			return b, &UnsupportedValueError{Value: reflect.ValueOf(v), Str: err.Error()}
 		}
-- 
2.43.0


From 2c935f1a3a5ce6994841c8eb6037d087dd2d58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 07/49] fix: count trailing whitespace in Decoder.InputOffset

skipSpacesN reported 0 skipped bytes for input that is all whitespace, so
InputOffset fell behind whenever a buffer ended in whitespace.
---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index f6efe9f..908751a 100644
--- a/parse.go
+++ b/parse.go
@@ -30,7 +30,7 @@ func skipSpacesN(b []byte) ([]byte, int) {
 			return b[i:], i
 		}
 	}
-	return nil, 0
+	return b[len(b):], len(b)
 }
 
 // parseInt parses a decimanl representation of an int64 from b.
-- 
2.43.0


From a9147064e3526e6e692525b4b1777b222fa51843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 08/49] fix: Decoder must not depend on how the stream is split
 into reads

- It waited until its whole buffer was full (io.ReadFull) before decoding, so
  interactive streams stalled although complete values had arrived.
- A reader error returned together with data was dropped.
- A number or \u escape straddling the end of the buffer was returned as two
  values, or reported as a syntax error.
---
 json.go  | 11 +++++------
 parse.go |  5 ++++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/json.go b/json.go
index 77adaeb..56b5418 100644
--- a/json.go
+++ b/json.go
@@ -289,6 +289,10 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	for {
 		if len(dec.remain) != 0 {
 			v, r, err = parseValue(dec.remain)
+			if err == nil && len(r) == 0 && RawValue(v).Number() && !errors.Is(dec.err, io.EOF) {
+				// The number may continue in bytes that were not read yet.
+				err = unexpectedEOF(r)
+			}
 			if err == nil {
 				dec.remain, n = skipSpacesN(r)
 				dec.inputOffset += int64(len(v) + n)
@@ -322,14 +326,9 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 			dec.buffer = buf
 		}
 
-		n, err = io.ReadFull(dec.reader, dec.buffer[len(dec.buffer):cap(dec.buffer)])
+		n, err = dec.reader.Read(dec.buffer[len(dec.buffer):cap(dec.buffer)])
 		if n > 0 {
 			dec.buffer = dec.buffer[:len(dec.buffer)+n]
-			if err != nil {
-				err = nil
-			}
-		} else if errors.Is(err, io.ErrUnexpectedEOF) {
-			err = io.EOF
 		}
 		dec.remain, n = skipSpacesN(dec.buffer)
 		dec.inputOffset += int64(n)
diff --git a/parse.go b/parse.go
index 908751a..81e4b37 100644
--- a/parse.go
+++ b/parse.go
@@ -349,7 +349,7 @@ func parseNumber(b []byte) (v, r []byte, err error) {
 		for i < len(b) {
 			if c := b[i]; c < '0' || c > '9' {
 				if i == exponentStart {
-					err = syntaxError(b, "expected digit but found '%c'", c)
+					r, err = b[i:], syntaxError(b, "expected digit but found '%c'", c)
 					return v, r, err
 				}
 				break
@@ -404,6 +404,9 @@ func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 				case 'u':
 					_, n, err := parseUnicode(b[i+1:])
 					if err != nil {
+						if len(b)-(i+1) < 4 { // truncated input
+							return nil, b[len(b):], false, err
+						}
 						return nil, b, false, err
 					}
 					i += n
-- 
2.43.0


From 40d6ed0aaa517405d7db528309c934d3575661d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 09/49] fix: integer overflow is a type error, not a syntax
 error

The overflowing number was left unread, so Unmarshal reported valid JSON as
having an invalid character after the top-level value.
---
 codec.go | 10 ++++++++++
 parse.go | 18 ++++++++++++------
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/codec.go b/codec.go
index 8f932b2..4e88f27 100644
--- a/codec.go
+++ b/codec.go
@@ -956,6 +956,16 @@ func unmarshalOverflow(b []byte, t reflect.Type) error {
 	return &UnmarshalTypeError{Value: "number " + prefix(b) + " overflows", Type: t}
 }
 
+// overflowError returns the error for the out of range number at the beginning
+// of b, and the bytes following that number.
+func overflowError(b []byte, t reflect.Type) ([]byte, error) {
+	v, r, err := parseNumber(b)
+	if err != nil {
+		return r, err
+	}
+	return r, unmarshalOverflow(v, t)
+}
+
 func unexpectedEOF(b []byte) error {
 	return syntaxError(b, "unexpected end of JSON input")
 }
diff --git a/parse.go b/parse.go
index 81e4b37..5d253b1 100644
--- a/parse.go
+++ b/parse.go
@@ -71,14 +71,16 @@ func parseInt(b []byte, t reflect.Type) (int64, []byte, error) {
 			}
 
 			if value < lim {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := overflowError(b, t)
+				return 0, r, err
 			}
 
 			value *= 10
 			x := int64(d - '0')
 
 			if value < (maxVal + x) {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := overflowError(b, t)
+				return 0, r, err
 			}
 
 			value -= x
@@ -105,11 +107,13 @@ func parseInt(b []byte, t reflect.Type) (int64, []byte, error) {
 			x := int64(d - '0')
 
 			if value > lim {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := overflowError(b, t)
+				return 0, r, err
 			}
 
 			if value *= 10; value > (maxVal - x) {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := overflowError(b, t)
+				return 0, r, err
 			}
 
 			value += x
@@ -158,11 +162,13 @@ func parseUint(b []byte, t reflect.Type) (uint64, []byte, error) {
 		x := uint64(d - '0')
 
 		if value > lim {
-			return 0, b, unmarshalOverflow(b, t)
+			r, err := overflowError(b, t)
+			return 0, r, err
 		}
 
 		if value *= 10; value > (maxVal - x) {
-			return 0, b, unmarshalOverflow(b, t)
+			r, err := overflowError(b, t)
+			return 0, r, err
 		}
 
 		value += x
-- 
2.43.0


From 01c49f599c18c2875982b0a37906ca791a44ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 10/49] fix: errors don't hide malformed text, or misreport
 well-formed text

When a value didn't fit its destination the input after it was not looked at,
or looked at from the middle of the value, so malformed text gave type errors
and valid text gave 'invalid character after top-level value'.
---
 json.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/json.go b/json.go
index 56b5418..008cad4 100644
--- a/json.go
+++ b/json.go
@@ -235,6 +235,17 @@ func Parse(b []byte, x interface{}, flags ParseFlags) ([]byte, error) {
 	}
 
 	r, err := c.decode(decoder{flags: flags}, skipSpaces(b), p)
+	if err != nil {
+		// Decoding stops at the first value that doesn't fit its destination,
+		// the rest of the input must still be well-formed.
+		var e *SyntaxError
+		if !errors.As(err, &e) {
+			var syntaxErr error
+			if _, r, syntaxErr = parseValue(skipSpaces(b)); syntaxErr != nil {
+				err = syntaxErr
+			}
+		}
+	}
 	return skipSpaces(r), err
 }
 
-- 
2.43.0


From 0063890bfcebe841e52e650616823a6b2b92cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 11/49] fix: case-insensitive field matching for non-ASCII
 names

---
 codec.go |  2 +-
 parse.go | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/codec.go b/codec.go
index 4e88f27..3b8e232 100644
--- a/codec.go
+++ b/codec.go
@@ -457,7 +457,7 @@ func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canA
 
 		for i := range st.fields {
 			f := &st.fields[i]
-			s := strings.ToLower(f.name)
+			s := string(appendToLower(nil, []byte(f.name)))
 			st.fieldsIndex[f.name] = f
 			// When there is ambiguity because multiple fields have the same
 			// case-insensitive representation, the first field must win.
diff --git a/parse.go b/parse.go
index 5d253b1..4a8d280 100644
--- a/parse.go
+++ b/parse.go
@@ -732,8 +732,13 @@ func appendToLower(b, s []byte) []byte {
 }
 
 func foldRune(r rune) rune {
-	if r = unicode.SimpleFold(r); 'A' <= r && r <= 'Z' {
-		r += 'a' - 'A'
+	// All runes which are equal under simple folding are represented by the
+	// smallest lower case one, or the smallest one if there is none.
+	best := r
+	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+		if lf, lb := unicode.IsLower(f), unicode.IsLower(best); lf != lb && lf || lf == lb && f < best {
+			best = f
+		}
 	}
-	return r
+	return best
 }
-- 
2.43.0


From afeba14d2fba49f4bb3970c141a75305a85ca75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 12/49] fix: decoding into fixed-size arrays

[] was rejected, elements missing from the input were left as they were
instead of being zeroed, and the text of surplus elements was accepted even
when malformed ([1 2] or [,1]).
---
 decode.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/decode.go b/decode.go
index ad4b113..9ad22df 100644
--- a/decode.go
+++ b/decode.go
@@ -516,6 +516,14 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	for i := 0; i < n; i++ {
 		b = skipSpaces(b)
 
+		if len(b) != 0 && b[0] == ']' {
+			// The remaining elements of the array are zeroed.
+			for ; i < n; i++ {
+				reflect.NewAt(t.Elem(), unsafe.Pointer(uintptr(p)+(uintptr(i)*size))).Elem().SetZero()
+			}
+			return b[1:], nil
+		}
+
 		if i != 0 {
 			if len(b) == 0 {
 				return b, syntaxError(b, "unexpected EOF after array element")
@@ -523,8 +531,6 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 			switch b[0] {
 			case ',':
 				b = skipSpaces(b[1:])
-			case ']':
-				return b[1:], nil
 			default:
 				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
 			}
@@ -543,20 +549,25 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 
 	// The encoding/json package ignores extra elements found when decoding into
 	// array types (which have a fixed size).
-	for {
+	for i := n; ; i++ {
 		b = skipSpaces(b)
 
 		if len(b) == 0 {
 			return b, syntaxError(b, "missing closing ']' in array value")
 		}
 
-		switch b[0] {
-		case ',':
-			b = skipSpaces(b[1:])
-		case ']':
+		if b[0] == ']' {
 			return b[1:], nil
 		}
 
+		if i != 0 {
+			if b[0] != ',' {
+				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
+			}
+			b = skipSpaces(b[1:])
+		}
+
+
 		_, b, err = parseValue(b)
 		if err != nil {
 			return b, err
-- 
2.43.0


From 507c93bfc309792b1838a4c27f59feecd6cb6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 13/49] fix: decoding [] must not keep the old backing array

Elements decoded before the slice was emptied reappeared, merged into elements
decoded later.
---
 decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 9ad22df..a34b452 100644
--- a/decode.go
+++ b/decode.go
@@ -609,8 +609,8 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 		b = skipSpaces(b)
 
 		if len(b) != 0 && b[0] == ']' {
-			if s.data == nil {
-				s.data = unsafe.Pointer(&empty)
+			if s.data == nil || s.len == 0 {
+				*s = slice{data: unsafe.Pointer(&empty)}
 			}
 			return b[1:], nil
 		}
-- 
2.43.0


From 5a7d6e872bf7398452a276d8764b0e0438ebde16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 14/49] fix: decode strings holding a number into Number

---
 decode.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/decode.go b/decode.go
index a34b452..665f264 100644
--- a/decode.go
+++ b/decode.go
@@ -260,6 +260,19 @@ func (d decoder) decodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return b[4:], nil
 	}
 
+	if len(b) != 0 && b[0] == '"' {
+		// A string holding a valid number literal is accepted too.
+		s, r, _, err := parseStringUnquote(b, nil)
+		if err != nil {
+			return r, err
+		}
+		if _, t, err := parseNumber(s); err != nil || len(t) != 0 {
+			return r, fmt.Errorf("json: invalid number literal, trying to unmarshal %q into Number", b[:len(b)-len(r)])
+		}
+		*(*Number)(p) = Number(s)
+		return r, nil
+	}
+
 	v, r, err := parseNumber(b)
 	if err != nil {
 		return inputError(b, numberType)
-- 
2.43.0


From f92da00dbc4ed17bd87fafb221a024c7add20322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 15/49] fix: times must be strictly RFC 3339

Years outside [0,9999] and zone offsets of 24 hours or more were encoded to
text that can't be decoded again, and malformed times (one-digit hour, comma
as decimal separator) were accepted.
---
 decode.go | 5 ++---
 encode.go | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/decode.go b/decode.go
index 665f264..3d94df3 100644
--- a/decode.go
+++ b/decode.go
@@ -506,8 +506,8 @@ func (d decoder) decodeTime(b []byte, p unsafe.Pointer) ([]byte, error) {
 
 	s := b[1:i] // trim quotes
 
-	v, err := time.Parse(time.RFC3339Nano, *(*string)(unsafe.Pointer(&s)))
-	if err != nil {
+	var v time.Time
+	if err := v.UnmarshalText(s); err != nil {
 		return inputError(b, timeType)
 	}
 
@@ -580,7 +580,6 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 			b = skipSpaces(b[1:])
 		}
 
-
 		_, b, err = parseValue(b)
 		if err != nil {
 			return b, err
diff --git a/encode.go b/encode.go
index f4f1d67..98d1d45 100644
--- a/encode.go
+++ b/encode.go
@@ -366,6 +366,11 @@ func (e encoder) encodeDuration(b []byte, p unsafe.Pointer) ([]byte, error) {
 }
 
 func (e encoder) encodeTime(b []byte, p unsafe.Pointer) ([]byte, error) {
+	var buf [64]byte
+	if _, err := (*time.Time)(p).AppendText(buf[:0]); err != nil {
+		return b, err // not representable in RFC 3339
+	}
+
 	if e.clrs == nil {
 		t := *(*time.Time)(p)
 		b = append(b, '"')
-- 
2.43.0


From 5fc1078003d6aa3f9ad842349e89861d5c6c48c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 16/49] fix: omitempty keeps an interface holding a nil pointer

---
 codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index 3b8e232..a3fe25a 100644
--- a/codec.go
+++ b/codec.go
@@ -910,7 +910,7 @@ func emptyFuncOf(t reflect.Type) emptyFunc {
 		return func(p unsafe.Pointer) bool { return *(*unsafe.Pointer)(p) == nil }
 
 	case reflect.Interface:
-		return func(p unsafe.Pointer) bool { return (*iface)(p).ptr == nil }
+		return func(p unsafe.Pointer) bool { return (*iface)(p).typ == nil }
 	}
 
 	return func(unsafe.Pointer) bool { return false }
-- 
2.43.0


From 5ae5b645b4a371a4a9eba862cda8b5ffbaa300d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 17/49] fix: a nil pointer with the string option encodes to
 null

---
 codec.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/codec.go b/codec.go
index a3fe25a..5f19ca7 100644
--- a/codec.go
+++ b/codec.go
@@ -220,6 +220,17 @@ func constructStringCodec(t reflect.Type, seen map[reflect.Type]*structType, can
 	}
 }
 
+// constructStringPointerEncodeFunc is like constructStringEncodeFunc for values
+// which are pointers: nil pointers encode to null, not to a string.
+func constructStringPointerEncodeFunc(encode encodeFunc) encodeFunc {
+	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		if *(*unsafe.Pointer)(p) == nil {
+			return e.encodeNull(b, nil)
+		}
+		return e.encodeToString(b, p, encode)
+	}
+}
+
 func constructStringEncodeFunc(encode encodeFunc) encodeFunc {
 	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
 		return e.encodeToString(b, p, encode)
@@ -674,6 +685,7 @@ func stringify(f *reflect.StructField, c codec) codec {
 	// encoding is sometimes used when communicating with JavaScript
 	// programs:
 	typ := f.Type
+	encode := c.encode
 
 	if typ.Kind() == reflect.Pointer {
 		typ = typ.Elem()
@@ -699,6 +711,12 @@ func stringify(f *reflect.StructField, c codec) codec {
 		reflect.String:
 		c.encode = constructStringEncodeFunc(c.encode)
 		c.decode = constructStringDecodeFunc(c.decode)
+	default:
+		return c
+	}
+
+	if f.Type.Kind() == reflect.Pointer {
+		c.encode = constructStringPointerEncodeFunc(encode)
 	}
 
 	return c
-- 
2.43.0


From bf3a96aef7c0ec0bad190a229b98097851b890fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 18/49] fix: reject Number literals with trailing characters

---
 encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 98d1d45..82027e8 100644
--- a/encode.go
+++ b/encode.go
@@ -135,7 +135,10 @@ func (e encoder) encodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 		n = "0"
 	}
 
-	_, _, err := parseNumber(stringToBytes(string(n)))
+	_, r, err := parseNumber(stringToBytes(string(n)))
+	if err == nil && len(r) != 0 {
+		err = syntaxError(r, "invalid character '%c' in number literal", r[0])
+	}
 	if err != nil {
 		return b, err
 	}
-- 
2.43.0


From aec3c2461d37d766ba95a890832f36756143607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 19/49] fix: color a nil byte slice as null only

---
 encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 82027e8..c5e9d74 100644
--- a/encode.go
+++ b/encode.go
@@ -309,10 +309,11 @@ func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) (
 }
 
 func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
-	if e.clrs == nil {
+	if e.clrs == nil || *(*[]byte)(p) == nil {
 		return e.doEncodeBytes(b, p)
 	}
 
+
 	b = append(b, e.clrs.Bytes...)
 	var err error
 	b, err = e.doEncodeBytes(b, p)
-- 
2.43.0


From 068ebfb067a723bc15c08e9be0cb93feb223f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 20/49] fix: Tokenizer reports unbalanced brackets and stray
 commas

A comma outside of any container panicked; an unmatched or mismatched closing
bracket, or a container left open at the end of the input, ended the iteration
without an error.
---
 encode.go | 1 -
 token.go  | 9 +++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index c5e9d74..4b1d0ee 100644
--- a/encode.go
+++ b/encode.go
@@ -313,7 +313,6 @@ func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return e.doEncodeBytes(b, p)
 	}
 
-
 	b = append(b, e.clrs.Bytes...)
 	var err error
 	b, err = e.doEncodeBytes(b, p)
diff --git a/token.go b/token.go
index df5f11e..8f59cf7 100644
--- a/token.go
+++ b/token.go
@@ -136,7 +136,11 @@ skipLoop:
 	}
 
 	if t.json = t.json[i:]; len(t.json) == 0 {
+		unclosed := len(t.stack) != 0
 		t.Reset(nil)
+		if unclosed {
+			t.Err = unexpectedEOF(nil)
+		}
 		return false
 	}
 
@@ -191,8 +195,13 @@ skipLoop:
 			if t.is(inObject) {
 				t.isKey = true
 			}
+			if len(t.stack) == 0 {
+				err = syntaxError(v, "found unexpected ',' outside of an array or object")
+				break
+			}
 			t.stack[len(t.stack)-1].len++
 		}
+		t.Err = err
 	}
 
 	return (d != 0 || len(v) != 0) && err == nil
-- 
2.43.0


From ddc3c9f96a48721f0d2c980c11f356586c931bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 21/49] fix: Tokenizer.IsKey after an empty object

The element following an empty object in an array was reported as a key, and
colored as one in raw messages.
---
 token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token.go b/token.go
index 8f59cf7..db5c779 100644
--- a/token.go
+++ b/token.go
@@ -183,6 +183,7 @@ skipLoop:
 			t.push(inArray)
 		case '}':
 			err = t.pop(inObject)
+			t.isKey = false // still set if the object was empty
 			t.Depth--
 			t.Index = t.index()
 		case ']':
-- 
2.43.0


From cbb264608e9aa0075b5937c0cb43ebf67b509c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 22/49] fix: pointer receiver marshalers of structs reached
 more than one way

The codec of a struct type first seen as a non-addressable value was reused
where that struct is addressable, ignoring its MarshalJSON/MarshalText with
pointer receivers (and vice versa). Embedded pointers are addressable.
---
 codec.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/codec.go b/codec.go
index 5f19ca7..aa71040 100644
--- a/codec.go
+++ b/codec.go
@@ -453,7 +453,15 @@ func constructStructCodec(t reflect.Type, seen map[reflect.Type]*structType, can
 func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) *structType {
 	// Used for preventing infinite recursion on types that have pointers to
 	// themselves.
-	st := seen[t]
+	//
+	// Whether pointer receiver methods can be used depends on the value being
+	// addressable, so the two cases are distinct.
+	key := t
+	if canAddr {
+		key = reflect.PointerTo(t)
+	}
+
+	st := seen[key]
 
 	if st == nil {
 		st = &structType{
@@ -463,7 +471,7 @@ func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canA
 			typ:         t,
 		}
 
-		seen[t] = st
+		seen[key] = st
 		st.fields = appendStructFields(st.fields, t, 0, seen, canAddr)
 
 		for i := range st.fields {
@@ -577,7 +585,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 				// up by offset from the address of the wrapping object, so we
 				// simply add the embedded struct fields to the list of fields
 				// of the current struct type.
-				subtype := constructStructType(typ, seen, canAddr)
+				subtype := constructStructType(typ, seen, canAddr || ptr)
 
 				for j := range subtype.fields {
 					embedded = append(embedded, embeddedField{
-- 
2.43.0


From b77ff961c738985086f22d2f5577b1607d3e9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 23/49] fix: crash encoding pointer-shaped arrays and structs

[1]*T, and structs of one pointer and zero-size fields, are stored directly in
interface values, the encoder took them for being stored indirectly. A
MarshalJSON with pointer receiver also lost to a MarshalText with value
receiver on addressable values.
---
 codec.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codec.go b/codec.go
index aa71040..d175897 100644
--- a/codec.go
+++ b/codec.go
@@ -198,7 +198,7 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 	switch {
 	case t.Implements(jsonMarshalerType):
 		c.encode = constructJSONMarshalerEncodeFunc(t, false)
-	case t.Implements(textMarshalerType):
+	case t.Implements(textMarshalerType) && !(canAddr && p.Implements(jsonMarshalerType)):
 		c.encode = constructTextMarshalerEncodeFunc(t, false)
 	}
 
@@ -858,8 +858,11 @@ func inlined(t reflect.Type) bool {
 		return true
 	case reflect.Map:
 		return true
-	case reflect.Struct:
-		return t.NumField() == 1 && inlined(t.Field(0).Type)
+	case reflect.Struct, reflect.Array:
+		// Which of these types are stored directly in the interface word depends
+		// on the compiler: for those that are, the zero value is a nil word.
+		z := reflect.Zero(t)
+		return (*iface)(unsafe.Pointer(&z)).ptr == nil
 	default:
 		return false
 	}
-- 
2.43.0


From 86367dab48278836320268f22014fd6df914b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 24/49] fix: map keys with only one of MarshalText and
 UnmarshalText

Key types with just one of the two methods crashed in the other direction, as
did pointer keys; string keys with a MarshalText method are used as they are,
like encoding/json does.
---
 codec.go | 78 +++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 18 deletions(-)

diff --git a/codec.go b/codec.go
index d175897..c968027 100644
--- a/codec.go
+++ b/codec.go
@@ -363,21 +363,15 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	kc := codec{}
 	vc := constructCodec(v, seen, false)
 
-	if k.Implements(textMarshalerType) || reflect.PointerTo(k).Implements(textUnmarshalerType) {
-		kc.encode = constructTextMarshalerEncodeFunc(k, false)
-		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
+	// Keys of string types are encoded as they are. A key type may have only
+	// one of the two methods, the other direction then depends on its kind.
+	textEncode := k.Kind() != reflect.String && k.Implements(textMarshalerType)
+	textDecode := reflect.PointerTo(k).Implements(textUnmarshalerType)
 
-		sortKeys = func(keys []reflect.Value) {
-			sort.Slice(keys, func(i, j int) bool {
-				// This is a performance abomination but the use case is rare
-				// enough that it shouldn't be a problem in practice.
-				tm1, _ := keys[i].Interface().(encoding.TextMarshaler)
-				tm2, _ := keys[j].Interface().(encoding.TextMarshaler)
-				k1, _ := tm1.MarshalText()
-				k2, _ := tm2.MarshalText()
-				return string(k1) < string(k2)
-			})
-		}
+	if textEncode && textDecode {
+		kc.encode = constructTextMarshalerKeyEncodeFunc(k)
+		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
+		sortKeys = sortTextMarshalerKeys
 	} else {
 		switch k.Kind() {
 		case reflect.String:
@@ -412,7 +406,17 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			}
 
 		default:
-			return constructUnsupportedTypeCodec(t)
+			if !textEncode && !textDecode {
+				return constructUnsupportedTypeCodec(t)
+			}
+		}
+
+		if textEncode {
+			kc.encode = constructTextMarshalerKeyEncodeFunc(k)
+			sortKeys = sortTextMarshalerKeys
+		}
+		if textDecode {
+			kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
 		}
 	}
 
@@ -420,9 +424,47 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 		vc.encode = constructInlineValueEncodeFunc(vc.encode)
 	}
 
-	return codec{
-		encode: constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys),
-		decode: constructMapDecodeFunc(t, kc.decode, vc.decode),
+	c := constructUnsupportedTypeCodec(t)
+	if kc.encode != nil {
+		if inlined(k) {
+			kc.encode = constructInlineValueEncodeFunc(kc.encode)
+		}
+		c.encode = constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys)
+	}
+	if kc.decode != nil {
+		c.decode = constructMapDecodeFunc(t, kc.decode, vc.decode)
+	}
+	return c
+}
+
+// textMarshalerKey returns the text of a map key that has a MarshalText method,
+// which is empty for nil pointers.
+func textMarshalerKey(k reflect.Value) (string, error) {
+	if k.Kind() == reflect.Pointer && k.IsNil() {
+		return "", nil
+	}
+	tm, _ := k.Interface().(encoding.TextMarshaler)
+	s, err := tm.MarshalText()
+	return string(s), err
+}
+
+func sortTextMarshalerKeys(keys []reflect.Value) {
+	sort.Slice(keys, func(i, j int) bool {
+		// This is a performance abomination but the use case is rare
+		// enough that it shouldn't be a problem in practice.
+		k1, _ := textMarshalerKey(keys[i])
+		k2, _ := textMarshalerKey(keys[j])
+		return k1 < k2
+	})
+}
+
+func constructTextMarshalerKeyEncodeFunc(t reflect.Type) encodeFunc {
+	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		s, err := textMarshalerKey(reflect.NewAt(t, p).Elem())
+		if err != nil {
+			return b, err
+		}
+		return e.encodeKey(b, unsafe.Pointer(&s))
 	}
 }
 
-- 
2.43.0


From 2574add8145994e1ba0b7a147850906ca49ecdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 25/49] fix: integer map keys

A key that isn't a number of the key type was reported as a syntax error, keys
like "01" and "+1" were rejected, and MarshalJSON/UnmarshalJSON methods of
the key type were used for keys.
---
 codec.go  | 40 ++++++++++++++++++++++++++++++++++------
 decode.go |  4 ++++
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/codec.go b/codec.go
index c968027..15ef28c 100644
--- a/codec.go
+++ b/codec.go
@@ -212,11 +212,39 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 	return c
 }
 
-func constructStringCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
-	c := constructCodec(t, seen, canAddr)
+// constructIntKeyCodec returns the codec for integer map keys. Methods of the
+// key type play no role other than MarshalText and UnmarshalText, which are
+// handled by the caller.
+func constructIntKeyCodec(t reflect.Type, unsigned bool) codec {
 	return codec{
-		encode: constructStringEncodeFunc(c.encode),
-		decode: constructStringDecodeFunc(c.decode),
+		encode: func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+			var s string
+			if v := reflect.NewAt(t, p).Elem(); unsigned {
+				s = strconv.FormatUint(v.Uint(), 10)
+			} else {
+				s = strconv.FormatInt(v.Int(), 10)
+			}
+			return e.encodeKey(b, unsafe.Pointer(&s))
+		},
+		decode: func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+			var s string
+			b, err := d.decodeString(b, unsafe.Pointer(&s))
+			if err != nil {
+				return b, err
+			}
+			if v := reflect.NewAt(t, p).Elem(); unsigned {
+				if u, err := strconv.ParseUint(s, 10, 64); err == nil && !v.OverflowUint(u) {
+					v.SetUint(u)
+					return b, nil
+				}
+			} else {
+				if i, err := strconv.ParseInt(s, 10, 64); err == nil && !v.OverflowInt(i) {
+					v.SetInt(i)
+					return b, nil
+				}
+			}
+			return b, &UnmarshalTypeError{Value: "number " + s, Type: t}
+		},
 	}
 }
 
@@ -387,7 +415,7 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			reflect.Int16,
 			reflect.Int32,
 			reflect.Int64:
-			kc = constructStringCodec(k, seen, false)
+			kc = constructIntKeyCodec(k, false)
 
 			sortKeys = func(keys []reflect.Value) {
 				sort.Slice(keys, func(i, j int) bool { return intStringsAreSorted(keys[i].Int(), keys[j].Int()) })
@@ -399,7 +427,7 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			reflect.Uint16,
 			reflect.Uint32,
 			reflect.Uint64:
-			kc = constructStringCodec(k, seen, false)
+			kc = constructIntKeyCodec(k, true)
 
 			sortKeys = func(keys []reflect.Value) {
 				sort.Slice(keys, func(i, j int) bool { return uintStringsAreSorted(keys[i].Uint(), keys[j].Uint()) })
diff --git a/decode.go b/decode.go
index 3d94df3..da16516 100644
--- a/decode.go
+++ b/decode.go
@@ -718,7 +718,11 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 			return b, syntaxError(b, "cannot decode object key string from 'null' value")
 		}
 
+		isString := len(b) != 0 && b[0] == '"'
 		if b, err = decodeKey(d, b, kptr); err != nil {
+			if isString { // the text is fine, it doesn't fit the key type
+				return b, err
+			}
 			return objectKeyError(b, err)
 		}
 		b = skipSpaces(b)
-- 
2.43.0


From 3a8245ef2e2dff526cecef8d9d9087e5ae193fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 26/49] fix: decoding into interfaces that hold a value

A nil pointer held by an interface gave InvalidUnmarshalError, and named empty
interface types holding anything but a pointer could not be decoded into.
---
 decode.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/decode.go b/decode.go
index da16516..68704ba 100644
--- a/decode.go
+++ b/decode.go
@@ -1019,7 +1019,8 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 	*(*interface{})(p) = nil
 
 	if t := reflect.TypeOf(val); t != nil && t.Kind() == reflect.Pointer {
-		if v := reflect.ValueOf(val); v.IsNil() || t.Elem().Kind() != reflect.Pointer {
+		v := reflect.ValueOf(val)
+		if v.IsNil() || t.Elem().Kind() != reflect.Pointer {
 			// If the destination is nil the only value that is OK to decode is
 			// `null`, and the encoding/json package always nils the destination
 			// interface value in this case.
@@ -1029,11 +1030,14 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 			}
 		}
 
-		parsedBytes, err := Parse(b, val, d.flags)
-		if err == nil {
-			*(*interface{})(p) = val
+		// There is nothing to decode into behind a nil pointer, it is replaced.
+		if !v.IsNil() {
+			parsedBytes, err := Parse(b, val, d.flags)
+			if err == nil {
+				*(*interface{})(p) = val
+			}
+			return parsedBytes, err
 		}
-		return parsedBytes, err
 	}
 
 	v, b, err := parseValue(b)
@@ -1094,17 +1098,19 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 }
 
 func (d decoder) decodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect.Type) ([]byte, error) {
+	if t.NumMethod() == 0 { // empty interface
+		return d.decodeInterface(b, p)
+	}
+
 	if hasNullPrefix(b) {
 		*(*interface{})(p) = nil
 		return b[4:], nil
 	}
 
 	if x := reflect.NewAt(t, p).Elem(); !x.IsNil() {
-		if e := x.Elem(); e.Kind() == reflect.Pointer {
+		if e := x.Elem(); e.Kind() == reflect.Pointer && !e.IsNil() {
 			return Parse(b, e.Interface(), d.flags)
 		}
-	} else if t.NumMethod() == 0 { // empty interface
-		return Parse(b, (*interface{})(p), d.flags)
 	}
 
 	return d.decodeUnmarshalTypeError(b, p, t)
-- 
2.43.0


From a451e2859c792e8f9cadaed631d6518d64bbf54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 27/49] fix: null can be decoded into any type

Types that don't support decoding still accept null, like encoding/json.
---
 decode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index 68704ba..14cb9d2 100644
--- a/decode.go
+++ b/decode.go
@@ -1116,11 +1116,17 @@ func (d decoder) decodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect
 	return d.decodeUnmarshalTypeError(b, p, t)
 }
 
-func (d decoder) decodeUnmarshalTypeError(b []byte, _ unsafe.Pointer, t reflect.Type) ([]byte, error) {
+func (d decoder) decodeUnmarshalTypeError(b []byte, p unsafe.Pointer, t reflect.Type) ([]byte, error) {
 	v, b, err := parseValue(b)
 	if err != nil {
 		return b, err
 	}
+	if v[0] == 'n' { // null
+		if t.Kind() == reflect.Map {
+			reflect.NewAt(t, p).Elem().SetZero()
+		}
+		return b, nil
+	}
 	return b, &UnmarshalTypeError{
 		Value: string(v),
 		Type:  t,
-- 
2.43.0


From 1da9d5137214e3f200d7bc1299e92ea8b6155c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 28/49] fix: UnmarshalJSON is called for null

A value implementing Unmarshaler decides itself what null means to it, it is
only skipped for pointers, which are set to nil.
---
 decode.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/decode.go b/decode.go
index 14cb9d2..38695a6 100644
--- a/decode.go
+++ b/decode.go
@@ -1153,10 +1153,6 @@ func (d decoder) decodeJSONUnmarshaler(b []byte, p unsafe.Pointer, t reflect.Typ
 		return b, err
 	}
 
-	if len(v) != 0 && v[0] == 'n' { // null
-		return b, nil
-	}
-
 	u := reflect.NewAt(t, p)
 	if !pointer {
 		u = u.Elem()
-- 
2.43.0


From 362d3d9b39018b6b5fb7630159fc1b0caf51a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 29/49] fix: null clears slices and maps that implement
 UnmarshalText

---
 decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decode.go b/decode.go
index 38695a6..ddd0cfa 100644
--- a/decode.go
+++ b/decode.go
@@ -1178,6 +1178,11 @@ func (d decoder) decodeTextUnmarshaler(b []byte, p unsafe.Pointer, t reflect.Typ
 
 	switch v[0] {
 	case 'n':
+		// Not passed to UnmarshalText, but it clears what can be nil.
+		switch t.Kind() {
+		case reflect.Interface, reflect.Map, reflect.Slice:
+			reflect.NewAt(t, p).Elem().SetZero()
+		}
 		_, _, err := parseNull(v)
 		return b, err
 	case '"':
-- 
2.43.0


From e95384dbdbb8f94307ab7d804cc478844aa9ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 30/49] fix: errors of fields with the string option

A malformed string content, or a value that isn't a string, was reported as a
syntax error although the JSON text is well-formed; and trailing spaces in the
string were accepted.
---
 decode.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/decode.go b/decode.go
index ddd0cfa..df34fbc 100644
--- a/decode.go
+++ b/decode.go
@@ -314,17 +314,30 @@ func (d decoder) decodeFromString(b []byte, p unsafe.Pointer, decode decodeFunc)
 		return decode(d, b, p)
 	}
 
+	if len(b) != 0 && b[0] != '"' {
+		v, b, err := parseValue(b)
+		if err == nil {
+			err = fmt.Errorf("json: invalid use of ,string struct tag, trying to unmarshal unquoted value %q", prefix(v))
+		}
+		return b, err
+	}
+
 	v, b, _, err := parseStringUnquote(b, nil)
 	if err != nil {
-		return inputError(v, stringType)
+		return b, err
 	}
+	s := v
 
 	if v, err = decode(d, v, p); err != nil {
+		var e *SyntaxError
+		if errors.As(err, &e) { // of the string's content, not of the JSON text
+			err = fmt.Errorf("json: invalid use of ,string struct tag, trying to unmarshal %q", prefix(s))
+		}
 		return b, err
 	}
 
-	if v = skipSpaces(v); len(v) != 0 {
-		return b, syntaxError(v, "unexpected trailing tokens after string value")
+	if len(v) != 0 {
+		return b, fmt.Errorf("json: invalid use of ,string struct tag, trying to unmarshal %q", prefix(s))
 	}
 
 	return b, nil
-- 
2.43.0


From a19658e8436079033c8a246c32d21e0ea4aa918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 31/49] fix: the string option doesn't apply to types that
 marshal themselves

---
 codec.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index 15ef28c..395ee8f 100644
--- a/codec.go
+++ b/codec.go
@@ -679,7 +679,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 		c := constructCodec(f.Type, seen, canAddr)
 
 		if stringifyEnabled {
-			c = stringify(&f, c)
+			c = stringify(&f, c, canAddr || f.Type.Kind() == reflect.Pointer)
 		}
 
 		fields = append(fields, structField{
@@ -754,7 +754,7 @@ func ambiguousNameTagCount(names map[string]struct{}, embedded []embeddedField)
 	return ambiguousNames, ambiguousTags
 }
 
-func stringify(f *reflect.StructField, c codec) codec {
+func stringify(f *reflect.StructField, c codec, canAddr bool) codec {
 	// https://golang.org/pkg/encoding/json/#Marshal
 	//
 	// The "string" option signals that a field is stored as JSON inside
@@ -797,6 +797,12 @@ func stringify(f *reflect.StructField, c codec) codec {
 		c.encode = constructStringPointerEncodeFunc(encode)
 	}
 
+	// Types that marshal themselves don't get stringified.
+	if p := reflect.PointerTo(typ); typ.Implements(jsonMarshalerType) || typ.Implements(textMarshalerType) ||
+		canAddr && (p.Implements(jsonMarshalerType) || p.Implements(textMarshalerType)) {
+		c.encode = encode
+	}
+
 	return c
 }
 
-- 
2.43.0


From c2d5491cfdd8421fc8c4f90a4bcd1c128120ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 32/49] fix: which of several fields with the same name is
 serialized

Conflicting names of embedded structs were resolved without regard to how
deeply the fields are embedded, so fields that encoding/json serializes were
dropped and the other way around; two direct fields with the same name were
both written.
---
 codec.go | 57 ++++++++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/codec.go b/codec.go
index 395ee8f..bd2e675 100644
--- a/codec.go
+++ b/codec.go
@@ -542,7 +542,8 @@ func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canA
 		}
 
 		seen[key] = st
-		st.fields = appendStructFields(st.fields, t, 0, seen, canAddr)
+		st.all = appendStructFields(st.fields, t, 0, seen, canAddr)
+		st.fields = dominantFields(st.all)
 
 		for i := range st.fields {
 			f := &st.fields[i]
@@ -600,7 +601,6 @@ type embeddedField struct {
 }
 
 func appendStructFields(fields []structField, t reflect.Type, offset uintptr, seen map[reflect.Type]*structType, canAddr bool) []structField {
-	names := make(map[string]struct{})
 	embedded := make([]embeddedField, 0, 10)
 
 	for i, n := 0, t.NumField(); i < n; i++ {
@@ -657,14 +657,14 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 				// of the current struct type.
 				subtype := constructStructType(typ, seen, canAddr || ptr)
 
-				for j := range subtype.fields {
+				for j := range subtype.all {
 					embedded = append(embedded, embeddedField{
 						index:      i<<32 | j,
 						offset:     offset + f.Offset,
 						pointer:    ptr,
 						unexported: unexported,
 						subtype:    subtype,
-						subfield:   &subtype.fields[j],
+						subfield:   &subtype.all[j],
 					})
 				}
 
@@ -693,20 +693,11 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 			typ:       f.Type,
 			zero:      reflect.Zero(f.Type),
 		})
-
-		names[name] = struct{}{}
 	}
 
-	// Only unambiguous embedded fields must be serialized.
-	ambiguousNames, ambiguousTags := ambiguousNameTagCount(names, embedded)
-
 	for _, embfield := range embedded {
 		subfield := *embfield.subfield
 
-		if ambiguousNames[subfield.name] > 1 && (!subfield.tag || ambiguousTags[subfield.name] != 1) {
-			continue // ambiguous embedded field
-		}
-
 		if embfield.pointer {
 			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
 			subfield.offset = embfield.offset
@@ -714,8 +705,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 			subfield.offset += embfield.offset
 		}
 
-		// To prevent dominant flags more than one level below the embedded one.
-		subfield.tag = false
+		subfield.depth++
 
 		// To ensure the order of the fields in the output is the same is in the
 		// struct type.
@@ -733,25 +723,32 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 	return fields
 }
 
-func ambiguousNameTagCount(names map[string]struct{}, embedded []embeddedField) (map[string]int, map[string]int) {
-	ambiguousNames := make(map[string]int)
-	ambiguousTags := make(map[string]int)
+// dominantFields returns the fields which are serialized, out of all those that
+// are promoted to a struct type: of the fields with the same name it is the one
+// embedded least deeply, or the only tagged one of those. If there are several
+// none of them is serialized.
+func dominantFields(all []structField) []structField {
+	best := make(map[string]*structField, len(all))
+	count := make(map[string]int, len(all))
 
-	// Embedded types can never override a field that was already present at
-	// the top-level.
-	for name := range names {
-		ambiguousNames[name]++
-		ambiguousTags[name]++
+	for i := range all {
+		f := &all[i]
+		b := best[f.name]
+		switch {
+		case b == nil || f.depth < b.depth || f.depth == b.depth && f.tag && !b.tag:
+			best[f.name], count[f.name] = f, 1
+		case f.depth == b.depth && f.tag == b.tag:
+			count[f.name]++
+		}
 	}
 
-	for _, embfield := range embedded {
-		ambiguousNames[embfield.subfield.name]++
-		if embfield.subfield.tag {
-			ambiguousTags[embfield.subfield.name]++
+	fields := make([]structField, 0, len(best))
+	for i := range all {
+		if f := &all[i]; best[f.name] == f && count[f.name] == 1 {
+			fields = append(fields, *f)
 		}
 	}
-
-	return ambiguousNames, ambiguousTags
+	return fields
 }
 
 func stringify(f *reflect.StructField, c codec, canAddr bool) codec {
@@ -1033,6 +1030,7 @@ type slice struct {
 }
 
 type structType struct {
+	all         []structField // including those hidden by other fields
 	fields      []structField
 	fieldsIndex map[string]*structField
 	ficaseIndex map[string]*structField
@@ -1044,6 +1042,7 @@ type structField struct {
 	offset    uintptr
 	empty     emptyFunc
 	tag       bool
+	depth     int
 	omitempty bool
 	json      string
 	html      string
-- 
2.43.0


From 4d2e2b39997e20f220ef0f1be4cf44c4583db13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 33/49] fix: tags of embedded fields

Embedded values of unexported non-struct types are ignored also if tagged, an
invalid name in a tag doesn't stop the fields of an embedded struct from being
promoted, and ; is a valid character in a name.
---
 codec.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/codec.go b/codec.go
index bd2e675..fa0778b 100644
--- a/codec.go
+++ b/codec.go
@@ -619,6 +619,16 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 			continue
 		}
 
+		if anonymous && unexported { // ignore unexported non-struct types
+			typ := f.Type
+			if typ.Kind() == reflect.Pointer {
+				typ = typ.Elem()
+			}
+			if typ.Kind() != reflect.Struct {
+				continue
+			}
+		}
+
 		if parts := strings.Split(f.Tag.Get("json"), ","); len(parts) != 0 {
 			if len(parts[0]) != 0 {
 				name, isTag = parts[0], true
@@ -628,8 +638,8 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 				continue
 			}
 
-			if !isValidTag(name) {
-				name = f.Name
+			if isTag && !isValidTag(name) {
+				name, isTag = f.Name, false
 			}
 
 			for _, tag := range parts[1:] {
@@ -670,10 +680,6 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 
 				continue
 			}
-
-			if unexported { // ignore unexported non-struct types
-				continue
-			}
 		}
 
 		c := constructCodec(f.Type, seen, canAddr)
@@ -947,7 +953,7 @@ func isValidTag(s string) bool {
 	}
 	for _, c := range s {
 		switch {
-		case strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c):
+		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
 			// Backslash and quote chars are reserved, but
 			// otherwise any punctuation chars are allowed
 			// in a tag name.
-- 
2.43.0


From 90471059a039a1b5c5448fb3135c0e1b8d865be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 34/49] fix: limit the nesting depth of decoded text

A few megabytes of '[' overflowed the stack, which ends the process and can't
be recovered from. The limit is the one of encoding/json.
---
 codec.go  |  5 ++++-
 decode.go | 18 ++++++++++++++++++
 parse.go  | 26 +++++++++++++++++++-------
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/codec.go b/codec.go
index fa0778b..cc7e4aa 100644
--- a/codec.go
+++ b/codec.go
@@ -25,7 +25,10 @@ type encoder struct {
 	clrs    *Colors
 	indentr *Indenter
 }
-type decoder struct{ flags ParseFlags }
+type decoder struct {
+	flags ParseFlags
+	depth int // of nested arrays and objects
+}
 
 type (
 	encodeFunc func(encoder, []byte, unsafe.Pointer) ([]byte, error)
diff --git a/decode.go b/decode.go
index df34fbc..828d16f 100644
--- a/decode.go
+++ b/decode.go
@@ -536,6 +536,9 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	if len(b) < 2 || b[0] != '[' {
 		return inputError(b, t)
 	}
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 
 	var err error
@@ -624,6 +627,9 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 	}
 
 	input := b
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 
 	s := (*slice)(p)
@@ -706,6 +712,9 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 	}
 
 	var err error
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 	for {
 		k.Set(kz)
@@ -783,6 +792,9 @@ func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 	}
 
 	input := b
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 	for i := 0; ; i++ {
 		var key string
@@ -835,6 +847,9 @@ func (d decoder) decodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 	}
 
 	input := b
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 	for i := 0; ; i++ {
 		var err error
@@ -923,6 +938,9 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 	var key []byte
 	input := b
 
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 	for {
 		b = skipSpaces(b)
diff --git a/parse.go b/parse.go
index 4a8d280..99179ba 100644
--- a/parse.go
+++ b/parse.go
@@ -538,7 +538,7 @@ func appendCoerceInvalidUTF8(b, s []byte) []byte {
 	return b
 }
 
-func parseObject(b []byte) ([]byte, []byte, error) {
+func parseObject(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
@@ -595,7 +595,7 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 		}
 		b = skipSpaces(b[1:])
 
-		_, b, err = parseValue(b)
+		_, b, err = parseNestedValue(b, depth)
 		if err != nil {
 			return nil, b, err
 		}
@@ -604,7 +604,7 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 	}
 }
 
-func parseArray(b []byte) ([]byte, []byte, error) {
+func parseArray(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
@@ -647,7 +647,7 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 			}
 		}
 
-		_, b, err = parseValue(b)
+		_, b, err = parseNestedValue(b, depth)
 		if err != nil {
 			return nil, b, err
 		}
@@ -656,13 +656,25 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 	}
 }
 
-func parseValue(b []byte) ([]byte, []byte, error) {
+// maxNestingDepth is the number of nested arrays and objects beyond which text
+// is rejected, it is the same as in encoding/json.
+const maxNestingDepth = 10000
+
+func parseValue(b []byte) ([]byte, []byte, error) { return parseNestedValue(b, 0) }
+
+func parseNestedValue(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) != 0 {
 		switch b[0] {
 		case '{':
-			return parseObject(b)
+			if depth++; depth > maxNestingDepth {
+				return nil, b, syntaxError(b, "exceeded max depth")
+			}
+			return parseObject(b, depth)
 		case '[':
-			return parseArray(b)
+			if depth++; depth > maxNestingDepth {
+				return nil, b, syntaxError(b, "exceeded max depth")
+			}
+			return parseArray(b, depth)
 		case '"':
 			return parseString(b)
 		case 'n':
-- 
2.43.0


From c9949b58e50934f4fcc66ca0ccd5693405463127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 35/49] fix: encode func and chan types with marshaler methods
 without crashing

---
 codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index cc7e4aa..9387b40 100644
--- a/codec.go
+++ b/codec.go
@@ -938,7 +938,7 @@ func inlined(t reflect.Type) bool {
 	switch t.Kind() {
 	case reflect.Pointer:
 		return true
-	case reflect.Map:
+	case reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	case reflect.Struct, reflect.Array:
 		// Which of these types are stored directly in the interface word depends
-- 
2.43.0


From 6a2703f8087d8ecc63fd6edcc61dd7d7c171ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:21 +0000
Subject: [PATCH 36/49] fix: support recursive types that are not structs

---
 codec.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/codec.go b/codec.go
index 9387b40..d1f67e7 100644
--- a/codec.go
+++ b/codec.go
@@ -119,6 +119,23 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 		return c
 	}
 
+	if t.Name() != "" {
+		switch t.Kind() {
+		case reflect.Array, reflect.Map, reflect.Pointer, reflect.Slice:
+			// Only named types can contain themselves (e.g. type T []T).
+			key := t
+			if canAddr {
+				key = reflect.PointerTo(t)
+			}
+			if r := seen[key]; r != nil {
+				return constructRecursiveCodec(r)
+			}
+			r := &structType{typ: t}
+			seen[key] = r
+			defer func() { r.codec = c }()
+		}
+	}
+
 	switch t.Kind() {
 	case reflect.Bool:
 		c = codec{encode: encoder.encodeBool, decode: decoder.decodeBool}
@@ -215,6 +232,15 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 	return c
 }
 
+// constructRecursiveCodec returns the codec for a type other than a struct that
+// occurs within itself, the codec of which is still being constructed.
+func constructRecursiveCodec(r *structType) codec {
+	return codec{
+		encode: func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) { return r.codec.encode(e, b, p) },
+		decode: func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) { return r.codec.decode(d, b, p) },
+	}
+}
+
 // constructIntKeyCodec returns the codec for integer map keys. Methods of the
 // key type play no role other than MarshalText and UnmarshalText, which are
 // handled by the caller.
@@ -1044,6 +1070,7 @@ type structType struct {
 	fieldsIndex map[string]*structField
 	ficaseIndex map[string]*structField
 	typ         reflect.Type
+	codec       codec // of a type that is not a struct, see constructRecursiveCodec
 }
 
 type structField struct {
-- 
2.43.0


From dc1c5f9bb7bf3beb7aa4d97bcd5a73a6eb64e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 37/49] fix: apply omitempty to the fields of embedded
 pointers, not to the pointer

---
 codec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/codec.go b/codec.go
index d1f67e7..89e4363 100644
--- a/codec.go
+++ b/codec.go
@@ -735,6 +735,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 
 		if embfield.pointer {
 			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
+			subfield.empty = embeddedStructPointerEmptyFunc(subfield.offset, subfield.empty)
 			subfield.offset = embfield.offset
 		} else {
 			subfield.offset += embfield.offset
@@ -758,6 +759,15 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 	return fields
 }
 
+// embeddedStructPointerEmptyFunc returns the function that tells whether a field
+// is empty which is at the offset in the struct that is pointed to.
+func embeddedStructPointerEmptyFunc(offset uintptr, empty emptyFunc) emptyFunc {
+	return func(p unsafe.Pointer) bool {
+		p = *(*unsafe.Pointer)(p)
+		return p == nil || empty(unsafe.Pointer(uintptr(p)+offset))
+	}
+}
+
 // dominantFields returns the fields which are serialized, out of all those that
 // are promoted to a struct type: of the fields with the same name it is the one
 // embedded least deeply, or the only tagged one of those. If there are several
-- 
2.43.0


From 497912c79d62a3a5d9d0e40183df4f648cba2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 38/49] fix: ignore the string option for named pointer types

---
 codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index 89e4363..229015a 100644
--- a/codec.go
+++ b/codec.go
@@ -807,7 +807,7 @@ func stringify(f *reflect.StructField, c codec, canAddr bool) codec {
 	typ := f.Type
 	encode := c.encode
 
-	if typ.Kind() == reflect.Pointer {
+	if typ.Kind() == reflect.Pointer && typ.Name() == "" {
 		typ = typ.Elem()
 	}
 
-- 
2.43.0


From 8f3f58f83287d5cc97db001c15533dcdb1868f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 39/49] fix: complete the fields of embedded structs that are
 part of a recursive type

---
 codec.go | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/codec.go b/codec.go
index 229015a..c1f5f4f 100644
--- a/codec.go
+++ b/codec.go
@@ -571,11 +571,11 @@ func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canA
 		}
 
 		seen[key] = st
-		st.all = appendStructFields(st.fields, t, 0, seen, canAddr)
-		st.fields = dominantFields(st.all)
+		st.fields = dominantFields(appendStructFields(st.fields, t, 0, map[reflect.Type]bool{t: true}, canAddr))
 
 		for i := range st.fields {
 			f := &st.fields[i]
+			f.codec = f.construct(seen)
 			s := string(appendToLower(nil, []byte(f.name)))
 			st.fieldsIndex[f.name] = f
 			// When there is ambiguity because multiple fields have the same
@@ -625,11 +625,14 @@ type embeddedField struct {
 	offset     uintptr
 	pointer    bool
 	unexported bool
-	subtype    *structType
+	subtype    reflect.Type
 	subfield   *structField
 }
 
-func appendStructFields(fields []structField, t reflect.Type, offset uintptr, seen map[reflect.Type]*structType, canAddr bool) []structField {
+// appendStructFields appends the fields of t and those promoted to it from the
+// structs it embeds. The embedding map holds the types which are being embedded
+// in one another.
+func appendStructFields(fields []structField, t reflect.Type, offset uintptr, embedding map[reflect.Type]bool, canAddr bool) []structField {
 	embedded := make([]embeddedField, 0, 10)
 
 	for i, n := 0, t.NumField(); i < n; i++ {
@@ -694,16 +697,22 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 				// up by offset from the address of the wrapping object, so we
 				// simply add the embedded struct fields to the list of fields
 				// of the current struct type.
-				subtype := constructStructType(typ, seen, canAddr || ptr)
+				if embedding[typ] {
+					// All of these fields are hidden by those of the outer type.
+					continue
+				}
+				embedding[typ] = true
+				subfields := appendStructFields(nil, typ, 0, embedding, canAddr || ptr)
+				delete(embedding, typ)
 
-				for j := range subtype.all {
+				for j := range subfields {
 					embedded = append(embedded, embeddedField{
 						index:      i<<32 | j,
 						offset:     offset + f.Offset,
 						pointer:    ptr,
 						unexported: unexported,
-						subtype:    subtype,
-						subfield:   &subtype.all[j],
+						subtype:    typ,
+						subfield:   &subfields[j],
 					})
 				}
 
@@ -711,14 +720,14 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 			}
 		}
 
-		c := constructCodec(f.Type, seen, canAddr)
-
-		if stringifyEnabled {
-			c = stringify(&f, c, canAddr || f.Type.Kind() == reflect.Pointer)
-		}
-
 		fields = append(fields, structField{
-			codec:     c,
+			construct: func(seen map[reflect.Type]*structType) codec {
+				c := constructCodec(f.Type, seen, canAddr)
+				if stringifyEnabled {
+					c = stringify(&f, c, canAddr || f.Type.Kind() == reflect.Pointer)
+				}
+				return c
+			},
 			offset:    offset + f.Offset,
 			empty:     emptyFuncOf(f.Type),
 			tag:       isTag,
@@ -734,7 +743,10 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 		subfield := *embfield.subfield
 
 		if embfield.pointer {
-			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
+			construct, subfieldOffset := subfield.construct, subfield.offset
+			subfield.construct = func(seen map[reflect.Type]*structType) codec {
+				return constructEmbeddedStructPointerCodec(embfield.subtype, embfield.unexported, subfieldOffset, construct(seen))
+			}
 			subfield.empty = embeddedStructPointerEmptyFunc(subfield.offset, subfield.empty)
 			subfield.offset = embfield.offset
 		} else {
@@ -1075,7 +1087,6 @@ type slice struct {
 }
 
 type structType struct {
-	all         []structField // including those hidden by other fields
 	fields      []structField
 	fieldsIndex map[string]*structField
 	ficaseIndex map[string]*structField
@@ -1085,6 +1096,7 @@ type structType struct {
 
 type structField struct {
 	codec     codec
+	construct func(seen map[reflect.Type]*structType) codec // makes codec, once all fields are known
 	offset    uintptr
 	empty     emptyFunc
 	tag       bool
-- 
2.43.0


From cf95eb46770830f0c5323e05f0d7bfbf12d1185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:46 +0000
Subject: [PATCH 40/49] fix: return a reader's error that wraps io.EOF as it is

---
 json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 008cad4..0240eb7 100644
--- a/json.go
+++ b/json.go
@@ -300,7 +300,7 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	for {
 		if len(dec.remain) != 0 {
 			v, r, err = parseValue(dec.remain)
-			if err == nil && len(r) == 0 && RawValue(v).Number() && !errors.Is(dec.err, io.EOF) {
+			if err == nil && len(r) == 0 && RawValue(v).Number() && dec.err != io.EOF { //nolint:errorlint
 				// The number may continue in bytes that were not read yet.
 				err = unexpectedEOF(r)
 			}
@@ -318,7 +318,7 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 		}
 
 		if err = dec.err; err != nil {
-			if len(dec.remain) != 0 && errors.Is(err, io.EOF) {
+			if len(dec.remain) != 0 && err == io.EOF { //nolint:errorlint
 				err = io.ErrUnexpectedEOF
 			}
 			return v, err
-- 
2.43.0


From 2e18a510eb5c28707932e739639d1c388ea0b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 41/49] fix: leave the file's blocking mode alone in
 IsColorTerminal

---
 terminal.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index e9398f9..b98dc00 100644
--- a/terminal.go
+++ b/terminal.go
@@ -34,9 +34,13 @@ func IsColorTerminal(w io.Writer) bool {
 		return false
 	}
 
-	if !term.IsTerminal(int(f.Fd())) {
+	// Unlike f.Fd, this doesn't put the file into blocking mode.
+	conn, err := f.SyscallConn()
+	if err != nil {
 		return false
 	}
 
-	return true
+	isTerminal := false
+	err = conn.Control(func(fd uintptr) { isTerminal = term.IsTerminal(int(fd)) })
+	return err == nil && isTerminal
 }
-- 
2.43.0


From 15f4ab0ae9a8d9faa7284c1db3c302655fab11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 42/49] fix: never colorize the output file of jc

---
 cmd/jc/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/jc/main.go b/cmd/jc/main.go
index 4b6061e..1689801 100644
--- a/cmd/jc/main.go
+++ b/cmd/jc/main.go
@@ -96,6 +96,7 @@ func doMain() error {
 	}
 
 	var out io.Writer
+	colorize := flagColorize != nil && *flagColorize
 	if flagOutputFile != nil && *flagOutputFile != "" {
 		// Output file is specified via -o flag
 		var fpath string
@@ -114,6 +115,7 @@ func doMain() error {
 		}
 		defer f.Close()
 		out = f
+		colorize = false // also if FORCE_COLOR is set
 	} else {
 		// Output file NOT specified via -o flag, use stdout.
 		out = os.Stdout
@@ -121,7 +123,7 @@ func doMain() error {
 
 	var enc *json.Encoder
 
-	if flagColorize != nil && *flagColorize && json.IsColorTerminal(out) {
+	if colorize && json.IsColorTerminal(out) {
 		outFile, _ := out.(*os.File)
 		out = colorable.NewColorable(outFile) // colorable is needed for Windows
 		enc = json.NewEncoder(out)
-- 
2.43.0


From 8950fba3c51a27277ebf2c990e6cff1e170882b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:28 +0000
Subject: [PATCH 43/49] fix: preserve numbers beyond float64 in jc

---
 cmd/jc/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/jc/main.go b/cmd/jc/main.go
index 1689801..13791a8 100644
--- a/cmd/jc/main.go
+++ b/cmd/jc/main.go
@@ -91,7 +91,12 @@ func doMain() error {
 	}
 
 	jsn := new(interface{}) // generic interface{} that will hold the parsed JSON
-	if err = json.Unmarshal(input, jsn); err != nil {
+	var rest []byte
+	// UseNumber preserves numbers that a float64 can't represent.
+	if rest, err = json.Parse(input, jsn, json.UseNumber); err == nil && len(rest) != 0 {
+		err = fmt.Errorf("unexpected %q after top-level value", rest[0])
+	}
+	if err != nil {
 		return fmt.Errorf("invalid input JSON: %w", err)
 	}
 
-- 
2.43.0


From ad1f8ba385c2e976e3254e2bc1e04ba1f85c819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:00 +0000
Subject: [PATCH 44/49] fix: keep the order of fields on 32-bit platforms

---
 codec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codec.go b/codec.go
index c1f5f4f..32344d9 100644
--- a/codec.go
+++ b/codec.go
@@ -621,7 +621,7 @@ func constructEmbeddedStructPointerDecodeFunc(t reflect.Type, unexported bool, o
 }
 
 type embeddedField struct {
-	index      int
+	index      int64
 	offset     uintptr
 	pointer    bool
 	unexported bool
@@ -707,7 +707,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, em
 
 				for j := range subfields {
 					embedded = append(embedded, embeddedField{
-						index:      i<<32 | j,
+						index:      int64(i)<<32 | int64(j),
 						offset:     offset + f.Offset,
 						pointer:    ptr,
 						unexported: unexported,
@@ -733,7 +733,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, em
 			tag:       isTag,
 			omitempty: omitempty,
 			name:      name,
-			index:     i << 32,
+			index:     int64(i) << 32,
 			typ:       f.Type,
 			zero:      reflect.Zero(f.Type),
 		})
@@ -1107,7 +1107,7 @@ type structField struct {
 	name      string
 	typ       reflect.Type
 	zero      reflect.Value
-	index     int
+	index     int64
 }
 
 func unmarshalTypeError(b []byte, t reflect.Type) error {
-- 
2.43.0


From 1cb359467a4f3689dfcd977334137014e7abec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:04 +0000
Subject: [PATCH 45/49] fix: report the overflow of 32-bit ints

---
 decode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/decode.go b/decode.go
index 828d16f..9112d91 100644
--- a/decode.go
+++ b/decode.go
@@ -49,6 +49,10 @@ func (d decoder) decodeInt(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return r, err
 	}
 
+	if int64(int(v)) != v {
+		return r, unmarshalOverflow(b[:len(b)-len(r)], intType)
+	}
+
 	*(*int)(p) = int(v)
 	return r, nil
 }
@@ -131,6 +135,10 @@ func (d decoder) decodeUint(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return r, err
 	}
 
+	if uint64(uint(v)) != v {
+		return r, unmarshalOverflow(b[:len(b)-len(r)], uintType)
+	}
+
 	*(*uint)(p) = uint(v)
 	return r, nil
 }
@@ -145,6 +153,10 @@ func (d decoder) decodeUintptr(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return r, err
 	}
 
+	if uint64(uintptr(v)) != v {
+		return r, unmarshalOverflow(b[:len(b)-len(r)], uintptrType)
+	}
+
 	*(*uintptr)(p) = uintptr(v)
 	return r, nil
 }
-- 
2.43.0


From 78eba301080e03d98bde1c28fa085e61c64da53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:00 +0000
Subject: [PATCH 46/49] fix: keep the buffered part of a value when the Reader
 panics

---
 json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 0240eb7..0557de7 100644
--- a/json.go
+++ b/json.go
@@ -328,7 +328,7 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 			dec.buffer = make([]byte, 0, minBufferSize)
 		} else {
 			dec.buffer = dec.buffer[:copy(dec.buffer[:cap(dec.buffer)], dec.remain)]
-			dec.remain = nil
+			dec.remain = dec.buffer // kept, should the reader panic
 		}
 
 		if (cap(dec.buffer) - len(dec.buffer)) < minReadSize {
-- 
2.43.0


From 8b1f1b2731f77fa5c70b18de1873eb48e8a104eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:05 +0000
Subject: [PATCH 47/49] fix: report errors of MarshalText while map keys are
 sorted

---
 codec.go  | 23 ++++++++++++++++-------
 encode.go |  4 +++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/codec.go b/codec.go
index 32344d9..72ac495 100644
--- a/codec.go
+++ b/codec.go
@@ -37,7 +37,7 @@ type (
 
 type (
 	emptyFunc func(unsafe.Pointer) bool
-	sortFunc  func([]reflect.Value)
+	sortFunc  func([]reflect.Value) error
 )
 
 // Eventually consistent cache mapping go types to dynamically generated
@@ -435,8 +435,9 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			kc.encode = encoder.encodeKey
 			kc.decode = decoder.decodeString
 
-			sortKeys = func(keys []reflect.Value) {
+			sortKeys = func(keys []reflect.Value) error {
 				sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+				return nil
 			}
 
 		case reflect.Int,
@@ -446,8 +447,9 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			reflect.Int64:
 			kc = constructIntKeyCodec(k, false)
 
-			sortKeys = func(keys []reflect.Value) {
+			sortKeys = func(keys []reflect.Value) error {
 				sort.Slice(keys, func(i, j int) bool { return intStringsAreSorted(keys[i].Int(), keys[j].Int()) })
+				return nil
 			}
 
 		case reflect.Uint,
@@ -458,8 +460,9 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			reflect.Uint64:
 			kc = constructIntKeyCodec(k, true)
 
-			sortKeys = func(keys []reflect.Value) {
+			sortKeys = func(keys []reflect.Value) error {
 				sort.Slice(keys, func(i, j int) bool { return uintStringsAreSorted(keys[i].Uint(), keys[j].Uint()) })
+				return nil
 			}
 
 		default:
@@ -505,14 +508,20 @@ func textMarshalerKey(k reflect.Value) (string, error) {
 	return string(s), err
 }
 
-func sortTextMarshalerKeys(keys []reflect.Value) {
+func sortTextMarshalerKeys(keys []reflect.Value) (err error) {
 	sort.Slice(keys, func(i, j int) bool {
 		// This is a performance abomination but the use case is rare
 		// enough that it shouldn't be a problem in practice.
-		k1, _ := textMarshalerKey(keys[i])
-		k2, _ := textMarshalerKey(keys[j])
+		k1, err1 := textMarshalerKey(keys[i])
+		k2, err2 := textMarshalerKey(keys[j])
+		if err == nil {
+			if err = err1; err == nil {
+				err = err2
+			}
+		}
 		return k1 < k2
 	})
+	return err
 }
 
 func constructTextMarshalerKeyEncodeFunc(t reflect.Type) encodeFunc {
diff --git a/encode.go b/encode.go
index 4b1d0ee..1889ea5 100644
--- a/encode.go
+++ b/encode.go
@@ -439,7 +439,9 @@ func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey
 
 	keys := m.MapKeys()
 	if sortKeys != nil && (e.flags&SortMapKeys) != 0 {
-		sortKeys(keys)
+		if err := sortKeys(keys); err != nil {
+			return b, err
+		}
 	}
 
 	// Keys of any type use the Key color, which is applied here.
-- 
2.43.0


From 1a1c03fcea91bfd06736b9be273306d9ac6f7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:39 +0000
Subject: [PATCH 48/49] fix: encode maps with keys that cannot be looked up

---
 codec.go  | 26 +++++++++++++++-----------
 encode.go | 21 +++++++++++++++------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/codec.go b/codec.go
index 72ac495..00b648e 100644
--- a/codec.go
+++ b/codec.go
@@ -37,7 +37,7 @@ type (
 
 type (
 	emptyFunc func(unsafe.Pointer) bool
-	sortFunc  func([]reflect.Value) error
+	sortFunc  func([]mapEntry) error
 )
 
 // Eventually consistent cache mapping go types to dynamically generated
@@ -435,8 +435,8 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			kc.encode = encoder.encodeKey
 			kc.decode = decoder.decodeString
 
-			sortKeys = func(keys []reflect.Value) error {
-				sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+			sortKeys = func(entries []mapEntry) error {
+				sort.Slice(entries, func(i, j int) bool { return entries[i].key.String() < entries[j].key.String() })
 				return nil
 			}
 
@@ -447,8 +447,10 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			reflect.Int64:
 			kc = constructIntKeyCodec(k, false)
 
-			sortKeys = func(keys []reflect.Value) error {
-				sort.Slice(keys, func(i, j int) bool { return intStringsAreSorted(keys[i].Int(), keys[j].Int()) })
+			sortKeys = func(entries []mapEntry) error {
+				sort.Slice(entries, func(i, j int) bool {
+					return intStringsAreSorted(entries[i].key.Int(), entries[j].key.Int())
+				})
 				return nil
 			}
 
@@ -460,8 +462,10 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			reflect.Uint64:
 			kc = constructIntKeyCodec(k, true)
 
-			sortKeys = func(keys []reflect.Value) error {
-				sort.Slice(keys, func(i, j int) bool { return uintStringsAreSorted(keys[i].Uint(), keys[j].Uint()) })
+			sortKeys = func(entries []mapEntry) error {
+				sort.Slice(entries, func(i, j int) bool {
+					return uintStringsAreSorted(entries[i].key.Uint(), entries[j].key.Uint())
+				})
 				return nil
 			}
 
@@ -508,12 +512,12 @@ func textMarshalerKey(k reflect.Value) (string, error) {
 	return string(s), err
 }
 
-func sortTextMarshalerKeys(keys []reflect.Value) (err error) {
-	sort.Slice(keys, func(i, j int) bool {
+func sortTextMarshalerKeys(entries []mapEntry) (err error) {
+	sort.Slice(entries, func(i, j int) bool {
 		// This is a performance abomination but the use case is rare
 		// enough that it shouldn't be a problem in practice.
-		k1, err1 := textMarshalerKey(keys[i])
-		k2, err2 := textMarshalerKey(keys[j])
+		k1, err1 := textMarshalerKey(entries[i].key)
+		k2, err2 := textMarshalerKey(entries[j].key)
 		if err == nil {
 			if err = err1; err == nil {
 				err = err2
diff --git a/encode.go b/encode.go
index 1889ea5..58b0557 100644
--- a/encode.go
+++ b/encode.go
@@ -431,15 +431,25 @@ func (e encoder) encodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 	return e.encodeArray(b, s.data, s.len, size, t, encode)
 }
 
+// mapEntry is an entry of a map, of any type, that is being encoded.
+type mapEntry struct {
+	key, val reflect.Value
+}
+
 func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey, encodeValue encodeFunc, sortKeys sortFunc) ([]byte, error) {
 	m := reflect.NewAt(t, p).Elem()
 	if m.IsNil() {
 		return e.clrs.appendNull(b), nil
 	}
 
-	keys := m.MapKeys()
+	// The entries are collected up front: a key such as NaN can't be looked up,
+	// and methods of the user may modify the map.
+	entries := make([]mapEntry, 0, m.Len())
+	for it := m.MapRange(); it.Next(); {
+		entries = append(entries, mapEntry{key: it.Key(), val: it.Value()})
+	}
 	if sortKeys != nil && (e.flags&SortMapKeys) != 0 {
-		if err := sortKeys(keys); err != nil {
+		if err := sortKeys(entries); err != nil {
 			return b, err
 		}
 	}
@@ -452,13 +462,12 @@ func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey
 	var err error
 	b = e.clrs.appendPunc(b, '{')
 
-	if len(keys) != 0 {
+	if len(entries) != 0 {
 		b = e.indentr.appendByte(b, '\n')
 
 		e.indentr.push()
-		for i := range keys {
-			k := keys[i]
-			v := m.MapIndex(k)
+		for i := range entries {
+			k, v := entries[i].key, entries[i].val
 
 			if i != 0 {
 				b = e.clrs.appendPunc(b, ',')
-- 
2.43.0


From 99b0b7b408e5a16cb0ad3e52de5d0cbf519bbfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:08 +0000
Subject: [PATCH 49/49] fix: decode nested values into interfaces in linear
 time

---
 decode.go | 82 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/decode.go b/decode.go
index 9112d91..e80794b 100644
--- a/decode.go
+++ b/decode.go
@@ -682,11 +682,13 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 
 		b, err = decode(d, b, unsafe.Pointer(uintptr(s.data)+(uintptr(s.len)*size)))
 		if err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
+			if d.depth == 1 { // of the outermost value, what is in it is parsed only once
+				_, r, err2 := parseValue(input)
+				if err2 != nil {
+					return r, err2
+				}
+				b = r
 			}
-			b = r
 
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
@@ -770,11 +772,13 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 		b = skipSpaces(b[1:])
 
 		if b, err = decodeValue(d, b, vptr); err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
+			if d.depth == 1 { // of the outermost value, what is in it is parsed only once
+				_, r, err2 := parseValue(input)
+				if err2 != nil {
+					return r, err2
+				}
+				b = r
 			}
-			b = r
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = "map[" + kt.String() + "]" + vt.String() + "{" + e.Struct + "}"
@@ -826,11 +830,13 @@ func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 
 		b, err = d.decodeInterface(b, unsafe.Pointer(&val))
 		if err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
+			if d.depth == 1 { // of the outermost value, what is in it is parsed only once
+				_, r, err2 := parseValue(input)
+				if err2 != nil {
+					return r, err2
+				}
+				b = r
 			}
-			b = r
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = mapStringInterfaceType.String() + e.Struct
@@ -882,11 +888,13 @@ func (d decoder) decodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 
 		b, err = d.decodeRawMessage(b, unsafe.Pointer(&val))
 		if err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
+			if d.depth == 1 { // of the outermost value, what is in it is parsed only once
+				_, r, err2 := parseValue(input)
+				if err2 != nil {
+					return r, err2
+				}
+				b = r
 			}
-			b = r
 
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
@@ -1008,11 +1016,13 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		}
 
 		if b, err = f.codec.decode(d, b, unsafe.Pointer(uintptr(p)+f.offset)); err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
+			if d.depth == 1 { // of the outermost value, what is in it is parsed only once
+				_, r, err2 := parseValue(input)
+				if err2 != nil {
+					return r, err2
+				}
+				b = r
 			}
-			b = r
 
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
@@ -1083,22 +1093,34 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 		}
 	}
 
+	if len(b) != 0 {
+		// Containers are not parsed up front: at every level of nesting that
+		// would be done again.
+		var err error
+		switch b[0] {
+		case '{':
+			m := make(map[string]interface{})
+			if b, err = d.decodeMapStringInterface(b, unsafe.Pointer(&m)); err == nil {
+				*(*interface{})(p) = m
+			}
+			return b, err
+
+		case '[':
+			a := make([]interface{}, 0, 10)
+			b, err = d.decodeSlice(b, unsafe.Pointer(&a), unsafe.Sizeof(a[0]), sliceInterfaceType, decoder.decodeInterface)
+			if err == nil {
+				*(*interface{})(p) = a
+			}
+			return b, err
+		}
+	}
+
 	v, b, err := parseValue(b)
 	if err != nil {
 		return b, err
 	}
 
 	switch v[0] {
-	case '{':
-		m := make(map[string]interface{})
-		v, err = d.decodeMapStringInterface(v, unsafe.Pointer(&m))
-		val = m
-
-	case '[':
-		a := make([]interface{}, 0, 10)
-		v, err = d.decodeSlice(v, unsafe.Pointer(&a), unsafe.Sizeof(a[0]), sliceInterfaceType, decoder.decodeInterface)
-		val = a
-
 	case '"':
 		s := ""
 		v, err = d.decodeString(v, unsafe.Pointer(&s))
-- 
2.43.0

