From 318732fa1d92dd68cf69ea2d4c50bd55d554e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 01/32] fix: detect int8/int16/int32 overflow beyond double
 wraparound in atoi

---
 internal/atoi/atoi.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/atoi/atoi.go b/internal/atoi/atoi.go
index 8ffc771..e7f75b3 100644
--- a/internal/atoi/atoi.go
+++ b/internal/atoi/atoi.go
@@ -34,6 +34,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 3:
 			return -(d(1)*1e1 + d(2)), false
 		case 4: // This case can overflow
+			if s[1] > '1' { // Would wrap around to a wrong in-range value
+				return 0, true
+			}
 			if n = -(d(1)*1e2 + d(2)*1e1 + d(3)); n > 0 {
 				return 0, true
 			}
@@ -46,6 +49,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 2:
 			return d(0)*1e1 + d(1), false
 		case 3: // This case can overflow
+			if s[0] > '1' { // Would wrap around to a wrong in-range value
+				return 0, true
+			}
 			if n = d(0)*1e2 + d(1)*1e1 + d(2); n < 0 {
 				return 0, true
 			}
@@ -97,6 +103,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 5:
 			return -(d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)), false
 		case 6: // This case can overflow
+			if s[1] > '3' { // Would wrap around to a wrong in-range value
+				return 0, true
+			}
 			n = -(d(1)*1e4 + d(2)*1e3 + d(3)*1e2 + d(4)*1e1 + d(5))
 			if n > 0 {
 				return 0, true
@@ -114,6 +123,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 4:
 			return d(0)*1e3 + d(1)*1e2 + d(2)*1e1 + d(3), false
 		case 5: // This case can overflow
+			if s[0] > '3' { // Would wrap around to a wrong in-range value
+				return 0, true
+			}
 			n = d(0)*1e4 + d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)
 			if n < 0 {
 				return 0, true
@@ -214,6 +226,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(7)*1e2 + d(8)*1e1 +
 				d(9)), false
 		case 11: // This case can overflow
+			if s[1] > '2' { // Would wrap around to a wrong in-range value
+				return 0, true
+			}
 			n = d(1)*1e9 + d(2)*1e8 +
 				d(3)*1e7 + d(4)*1e6 +
 				d(5)*1e5 + d(6)*1e4 +
@@ -258,6 +273,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(6)*1e2 + d(7)*1e1 +
 				d(8), false
 		case 10: // This case can overflow
+			if s[0] > '2' { // Would wrap around to a wrong in-range value
+				return 0, true
+			}
 			n = d(0)*1e9 + d(1)*1e8 +
 				d(2)*1e7 + d(3)*1e6 +
 				d(4)*1e5 + d(5)*1e4 +
-- 
2.43.0


From 8d56fbc2c6a32c8cc580d906924486f1632de3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 02/32] fix: return to the enclosing container after decoding
 through a pointer

---
 jscandec.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f69ede0..2389918 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2638,6 +2638,7 @@ func (d *Decoder[S, T]) Decode(
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
 					si--
+					goto ON_VAL_END // The value of the pointer frame ended too
 				case ExpectTypeArray:
 					d.stackExp[si].Len++
 					if d.stackExp[si].Len >= d.stackExp[si].Cap {
@@ -2676,13 +2677,16 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 				si++
-				if d.stackExp[si].Size == 0 {
-					*(*unsafe.Pointer)(p) = emptyStructAddr
-				} else {
-					dp := mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
-					d.stackExp[si].Dest = dp
-					*(*unsafe.Pointer)(p) = dp
+				if *(*unsafe.Pointer)(p) == nil {
+					if d.stackExp[si].Size == 0 {
+						*(*unsafe.Pointer)(p) = emptyStructAddr
+					} else {
+						*(*unsafe.Pointer)(p) = mallocgc(
+							d.stackExp[si].Size, d.stackExp[si].Typ, true,
+						)
+					}
 				}
+				d.stackExp[si].Dest = *(*unsafe.Pointer)(p)
 			}
 			continue
 
-- 
2.43.0


From dde98c1bdeeb369637b9feadb1502f41ae3b7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 03/32] fix: skip the whole value of an unknown struct field

---
 jscandec.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 2389918..ef7f107 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2317,22 +2317,16 @@ func (d *Decoder[S, T]) Decode(
 							}
 							// Skip value, go to the next key
 							ti++
-							for l := 0; ; ti++ {
-								switch tokens[ti].Type {
-								case jscan.TokenTypeKey:
-									if l < 1 {
-										continue SCAN_KEYVALS
-									}
-								case jscan.TokenTypeObject:
-									l++
-								case jscan.TokenTypeObjectEnd:
-									l--
-									if l < 1 {
-										ti--
-										break SCAN_KEYVALS
-									}
-								}
+							switch tokens[ti].Type {
+							case jscan.TokenTypeObject, jscan.TokenTypeArray:
+								ti = tokens[ti].End
+							}
+							ti++
+							if tokens[ti].Type == jscan.TokenTypeObjectEnd {
+								ti-- // Will be incremented again below
+								break SCAN_KEYVALS
 							}
+							continue SCAN_KEYVALS
 						}
 						si = frameIndex
 						if si == noParentFrame {
-- 
2.43.0


From c07e321c8213f91af0225f431f5bf28f5e00cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 04/32] fix: skip past the object decoded into an empty struct

---
 jscandec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index ef7f107..3bfe9ed 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2100,7 +2100,7 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
-					ti = tokens[ti].End // Skip object value
+					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
-- 
2.43.0


From af04a0cbe1a7358410526f751c37b1f7086ca96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 05/32] fix: reject incomplete, empty and trailing-garbage
 numbers in strings and map keys

---
 jscandec.go | 59 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 3bfe9ed..54ea8b2 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1051,7 +1051,7 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeNumber:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if _, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr {
+					if readWholeNumber(tv) == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
@@ -1059,7 +1059,7 @@ func (d *Decoder[S, T]) Decode(
 
 				case ExpectTypeFloat32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1072,7 +1072,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1085,7 +1085,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1098,7 +1098,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1111,7 +1111,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1124,7 +1124,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1137,7 +1137,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1150,7 +1150,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1163,7 +1163,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1176,7 +1176,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1189,7 +1189,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1202,7 +1202,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -2373,7 +2373,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 
 					case ExpectTypeInt:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2386,7 +2386,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt8:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2399,7 +2399,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt16:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2412,7 +2412,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt32:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2425,7 +2425,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt64:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2438,7 +2438,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2451,7 +2451,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint8:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2464,7 +2464,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint16:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2477,7 +2477,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint32:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2490,7 +2490,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint64:
-						_, rc := jsonnum.ReadNumber(key)
+						rc := readWholeNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2721,6 +2721,19 @@ func (d *Decoder[S, T]) Decode(
 	return -1, nil
 }
 
+// readWholeNumber is similar to jsonnum.ReadNumber but returns ReturnCodeErr
+// if s is empty or if there is anything left in s after the number.
+func readWholeNumber[S []byte | string](s S) jsonnum.ReturnCode {
+	if len(s) < 1 {
+		return jsonnum.ReturnCodeErr
+	}
+	tail, rc := jsonnum.ReadNumber(s)
+	if len(tail) > 0 {
+		return jsonnum.ReturnCodeErr
+	}
+	return rc
+}
+
 type sliceHeader struct {
 	Data     unsafe.Pointer
 	Len, Cap uintptr
-- 
2.43.0


From 5d1ac85ed59b143b4be8eab5ef363c69f2dbcf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 06/32] fix: unescape integer map keys and string-encoded
 values and parse map keys like encoding/json

---
 jscandec.go | 170 +++++++++++++++++++++++++++-------------------------
 1 file changed, 88 insertions(+), 82 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 54ea8b2..6c7dfc1 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1017,7 +1017,7 @@ func (d *Decoder[S, T]) Decode(
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
 				case ExpectTypeBoolString:
-					switch string(s[tokens[ti].Index+1 : tokens[ti].End-1]) {
+					switch unescape.Valid[S, string](s[tokens[ti].Index+1 : tokens[ti].End-1]) {
 					case "true":
 						*(*bool)(p) = true
 					case "false":
@@ -1050,7 +1050,9 @@ func (d *Decoder[S, T]) Decode(
 					*(*string)(p) = string(val)
 
 				case ExpectTypeNumber:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					if readWholeNumber(tv) == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1058,7 +1060,9 @@ func (d *Decoder[S, T]) Decode(
 					*(*Number)(p) = Number(tv)
 
 				case ExpectTypeFloat32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1071,7 +1075,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1084,7 +1090,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1097,7 +1105,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1110,7 +1120,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1123,7 +1135,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1136,7 +1150,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1149,7 +1165,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1162,7 +1180,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1175,7 +1195,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1188,7 +1210,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1201,7 +1225,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
+					tv := unescape.Valid[S, S](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -2373,133 +2399,113 @@ func (d *Decoder[S, T]) Decode(
 						}
 
 					case ExpectTypeInt:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, errParse := d.parseInt(key)
+						i, errParse := strconv.ParseInt(
+							unescape.Valid[S, string](key), 10, strconv.IntSize,
+						)
 						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt8:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.I8(key)
-						if overflow {
+						i, errParse := strconv.ParseInt(
+							unescape.Valid[S, string](key), 10, 8,
+						)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int8(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt16:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.I16(key)
-						if overflow {
+						i, errParse := strconv.ParseInt(
+							unescape.Valid[S, string](key), 10, 16,
+						)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int16(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt32:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.I32(key)
-						if overflow {
+						i, errParse := strconv.ParseInt(
+							unescape.Valid[S, string](key), 10, 32,
+						)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int32(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt64:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.I64(key)
-						if overflow {
+						i, errParse := strconv.ParseInt(
+							unescape.Valid[S, string](key), 10, 64,
+						)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := int64(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, errParse := d.parseUint(key)
+						i, errParse := strconv.ParseUint(
+							unescape.Valid[S, string](key), 10, strconv.IntSize,
+						)
 						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint8:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.U8(key)
-						if overflow {
+						i, errParse := strconv.ParseUint(
+							unescape.Valid[S, string](key), 10, 8,
+						)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint8(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint16:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.U16(key)
-						if overflow {
+						i, errParse := strconv.ParseUint(
+							unescape.Valid[S, string](key), 10, 16,
+						)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint16(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint32:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.U32(key)
-						if overflow {
+						i, errParse := strconv.ParseUint(
+							unescape.Valid[S, string](key), 10, 32,
+						)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint32(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint64:
-						rc := readWholeNumber(key)
-						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
-							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-							return true
-						}
-						v, overflow := atoi.U64(key)
-						if overflow {
+						i, errParse := strconv.ParseUint(
+							unescape.Valid[S, string](key), 10, 64,
+						)
+						if errParse != nil {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
 						}
+						v := uint64(i)
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 					}
 
-- 
2.43.0


From 63aa5644b2d995a23ffcb2137e7f3adf05383068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/32] fix: decode escape sequences and null inside values of
 the string tag option

---
 jscandec.go | 80 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 17 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 6c7dfc1..5913193 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1,7 +1,6 @@
 package jscandec
 
 import (
-	"bytes"
 	"encoding"
 	"encoding/json"
 	"errors"
@@ -1022,32 +1021,23 @@ func (d *Decoder[S, T]) Decode(
 						*(*bool)(p) = true
 					case "false":
 						*(*bool)(p) = false
+					case "null":
+						// Encoded null has no effect
 					default:
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
 				case ExpectTypeStrString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if len(tv) < len(`\"\"`) ||
-						string(tv[0:2]) != `\"` ||
-						string(tv[len(tv)-2:]) != `\"` {
-						// Too short or not encloused by \"
-						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-						return true
-					}
-					val := tv[2 : len(tv)-2]
-					var indexReverseSolidus int
-					switch val := any(val).(type) {
-					case string:
-						indexReverseSolidus = strings.IndexByte(val, '\\')
-					case []byte:
-						indexReverseSolidus = bytes.IndexByte(val, '\\')
+					if string(tv) == "null" {
+						break // Encoded null has no effect
 					}
-					if indexReverseSolidus != -1 {
+					val, ok := unquoteStringTag(tv)
+					if !ok {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
-					*(*string)(p) = string(val)
+					*(*string)(p) = val
 
 				case ExpectTypeNumber:
 					tv := unescape.Valid[S, S](
@@ -1063,6 +1053,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1078,6 +1071,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1093,6 +1089,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1108,6 +1107,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1123,6 +1125,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1138,6 +1143,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1153,6 +1161,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1168,6 +1179,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1183,6 +1197,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1198,6 +1215,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1213,6 +1233,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -1228,6 +1251,9 @@ func (d *Decoder[S, T]) Decode(
 					tv := unescape.Valid[S, S](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+					if string(tv) == "null" {
+						break // Encoded null has no effect
+					}
 					rc := readWholeNumber(tv)
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
@@ -2727,6 +2753,26 @@ func (d *Decoder[S, T]) Decode(
 	return -1, nil
 }
 
+// unquoteStringTag returns the string encoded in the JSON string literal that
+// tv contains, where tv is the text between the quotes of the outer string.
+// Returns ok=false if tv doesn't contain exactly one JSON string literal.
+func unquoteStringTag[S []byte | string](tv S) (val string, ok bool) {
+	if len(tv) >= len(`\"\"`) && string(tv[:2]) == `\"` && string(tv[len(tv)-2:]) == `\"` {
+		inner := string(tv[2 : len(tv)-2])
+		if strings.IndexByte(inner, '\\') == -1 {
+			return inner, true // No escaping inside of the encoded string
+		}
+	}
+	literal := unescape.Valid[S, []byte](tv)
+	if len(literal) < 2 || literal[0] != '"' || literal[len(literal)-1] != '"' {
+		return "", false
+	}
+	if err := json.Unmarshal(literal, &val); err != nil {
+		return "", false
+	}
+	return val, true
+}
+
 // readWholeNumber is similar to jsonnum.ReadNumber but returns ReturnCodeErr
 // if s is empty or if there is anything left in s after the number.
 func readWholeNumber[S []byte | string](s S) jsonnum.ReturnCode {
-- 
2.43.0


From 5c16e53f914ff7bddba2d5b211fe9e7a5135eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 08/32] fix: match field names case-insensitively even if the
 byte lengths differ

---
 jscandec.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 5913193..05bc1a5 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2838,21 +2838,21 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	f := fields
 	eq := strings.EqualFold
 	for ; len(f) >= 4; f = f[4:] { // Try 4 at a time if enough are left
-		if len(f[0].Name) == len(name) && eq(string(f[0].Name), string(name)) {
+		if eq(string(f[0].Name), string(name)) {
 			return f[0].FrameIndex
 		}
-		if len(f[1].Name) == len(name) && eq(string(f[1].Name), string(name)) {
+		if eq(string(f[1].Name), string(name)) {
 			return f[1].FrameIndex
 		}
-		if len(f[2].Name) == len(name) && eq(string(f[2].Name), string(name)) {
+		if eq(string(f[2].Name), string(name)) {
 			return f[2].FrameIndex
 		}
-		if len(f[3].Name) == len(name) && eq(string(f[3].Name), string(name)) {
+		if eq(string(f[3].Name), string(name)) {
 			return f[3].FrameIndex
 		}
 	}
 	for i := range f {
-		if len(f[i].Name) == len(name) && eq(string(f[i].Name), string(name)) {
+		if eq(string(f[i].Name), string(name)) {
 			return f[i].FrameIndex
 		}
 	}
-- 
2.43.0


From 0e71c2db8aa8cb82d2e674b06e658fe4fef788c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 09/32] fix: resolve struct field names and tag options like
 encoding/json

---
 append_type_stack.go | 59 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 575e0d1..9e5d875 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode"
 	"unsafe"
 )
 
@@ -314,25 +315,28 @@ func appendTypeToStack[S []byte | string](
 			ParentFrameIndex: noParentFrame,
 		})
 
+		fieldsTagged := make([]bool, 0, numFields)
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
+			if !f.IsExported() {
+				continue
+			}
 			name := f.Name
 			optionString := false
+			tagged := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				name = jsonTag
-				if i := strings.IndexByte(jsonTag, ','); i != -1 {
-					name = jsonTag[:i]
-					optionName := jsonTag[i+1:]
-					optionString = optionName == "string"
-				}
-				switch name {
-				case "":
-					// Either there was no tag or no name specified in it.
-					name = f.Name
-				case "-":
+				if jsonTag == "-" {
 					// Ignore this field.
 					continue
 				}
+				tagName, tagOptions, _ := strings.Cut(jsonTag, ",")
+				for _, o := range strings.Split(tagOptions, ",") {
+					optionString = optionString || o == "string"
+				}
+				// Use the name of the field if no valid name is specified in the tag.
+				if isValidTagName(tagName) {
+					name, tagged = tagName, true
+				}
 			}
 
 			newAtIndex := uint32(len(stack))
@@ -348,6 +352,7 @@ func appendTypeToStack[S []byte | string](
 					FrameIndex: newAtIndex,
 				},
 			)
+			fieldsTagged = append(fieldsTagged, tagged)
 
 			// Assign static offset
 			stack[newAtIndex].Offset = f.Offset
@@ -393,6 +398,9 @@ func appendTypeToStack[S []byte | string](
 				}
 			}
 		}
+		stack[parentIndex].Fields = removeAmbiguousFields(
+			stack[parentIndex].Fields, fieldsTagged,
+		)
 
 	case reflect.Bool:
 		stack = append(stack, stackFrame[S]{
@@ -544,6 +552,35 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// isValidTagName returns true if name can be used as the field name in a json struct
+// tag according to the rules of encoding/json.
+func isValidTagName(name string) bool {
+	for _, c := range name {
+		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) &&
+			!unicode.IsLetter(c) && !unicode.IsDigit(c) {
+			return false
+		}
+	}
+	return name != ""
+}
+
+// removeAmbiguousFields removes the fields that share their name with another field.
+// Same as in encoding/json, if only one of multiple fields of the same name
+// is named by its tag then this field is preserved.
+func removeAmbiguousFields(fields []fieldStackFrame, tagged []bool) []fieldStackFrame {
+	filtered := make([]fieldStackFrame, 0, len(fields))
+FIELDS:
+	for i := range fields {
+		for j := range fields {
+			if i != j && fields[i].Name == fields[j].Name && (!tagged[i] || tagged[j]) {
+				continue FIELDS
+			}
+		}
+		filtered = append(filtered, fields[i])
+	}
+	return filtered
+}
+
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
-- 
2.43.0


From 8351f85de07e793947279562ff4c6178e64b2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 10/32] fix: derive the expected type from T instead of from
 the dynamic value and reject interfaces with methods

---
 append_type_stack.go | 6 ++----
 jscandec.go          | 6 +++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 9e5d875..8765bc9 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -19,6 +19,8 @@ func appendTypeToStack[S []byte | string](
 			Size:             unsafe.Sizeof(struct{ typ, dat uintptr }{}),
 			ParentFrameIndex: noParentFrame,
 		}), nil
+	} else if t.Kind() == reflect.Interface && t.NumMethod() != 0 {
+		return nil, fmt.Errorf("unsupported type: %v", t)
 	} else if s := determineJSONUnmarshalerSupport(t); s != interfaceSupportNone {
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeJSONUnmarshaler,
@@ -38,10 +40,6 @@ func appendTypeToStack[S []byte | string](
 	}
 	switch t.Kind() {
 	case reflect.Interface:
-		if t.NumMethod() != 0 {
-			// TODO:
-			panic("not yet supported")
-		}
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeAny,
 			Typ:              getTyp(t),
diff --git a/jscandec.go b/jscandec.go
index 05bc1a5..0af88e8 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -485,7 +485,7 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	}
 	stack := make([]stackFrame[S], 0, 4)
 	var err error
-	stack, err = appendTypeToStack(stack, reflect.TypeOf(*t), DefaultInitOptions)
+	stack, err = appendTypeToStack(stack, reflect.TypeOf(t).Elem(), DefaultInitOptions)
 	if err != nil {
 		return err
 	}
@@ -524,9 +524,9 @@ func NewDecoder[S []byte | string, T any](
 		stackExp:  make([]stackFrame[S], 0, 4),
 	}
 
-	var z T
+	var z *T
 	var err error
-	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z), options)
+	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z).Elem(), options)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 93dbffdbd8468b2bd9a8e9a266558039ac5a275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 11/32] fix: save and restore the decoder state when entering
 and leaving recursive types

Finished sibling fields of the same type are no longer mistaken for recursion,
mutually and multiply recursive types return to the right container, and an
error or a panicking unmarshaler no longer corrupts the following Decode call.
---
 append_type_stack.go |   6 +-
 jscandec.go          | 277 +++++++++++++++++--------------------------
 2 files changed, 111 insertions(+), 172 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 8765bc9..5e2d693 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -87,7 +87,7 @@ func appendTypeToStack[S []byte | string](
 			}
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].RType == elem && stack[i].ParentFrameIndex == noParentFrame {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -226,7 +226,7 @@ func appendTypeToStack[S []byte | string](
 		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].RType == elem && stack[i].ParentFrameIndex == noParentFrame {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -514,7 +514,7 @@ func appendTypeToStack[S []byte | string](
 		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].RType == elem && stack[i].ParentFrameIndex == noParentFrame {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
diff --git a/jscandec.go b/jscandec.go
index 0af88e8..5d475ef 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -398,8 +398,18 @@ type recursionStackFrame struct {
 	// Offset stores the offset for the recursive frame to be reset to.
 	Offset uintptr
 
+	// Len stores the array length for the recursive frame to be reset to.
+	Len int
+
+	// Frame stores the index of the frame to be reset.
+	Frame uint32
+
 	// ContainerFrame stores the index of the recursive container frame.
 	ContainerFrame uint32
+
+	// OuterRecurFrame stores the index of the recursive frame that was active
+	// before the recursive container frame was entered, or noParentFrame.
+	OuterRecurFrame uint32
 }
 
 type stackFrame[S []byte | string] struct {
@@ -714,7 +724,15 @@ type DecodeOptions struct {
 func (d *Decoder[S, T]) Decode(
 	s S, t *T, options *DecodeOptions,
 ) (errIndex int, err error) {
+	// recurFrame is the index of the ExpectTypeStructRecur frame that was entered last
+	// through a recursive container and wasn't left yet.
+	recurFrame := noParentFrame
+
 	defer func() {
+		// Leave recursions that weren't left because of an error.
+		for recurFrame != noParentFrame {
+			_, recurFrame = d.leaveRecursion(recurFrame)
+		}
 		for i := range d.stackExp {
 			d.stackExp[i].Dest = nil
 		}
@@ -1464,11 +1482,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 						*(*sliceHeader)(p) = emptySlice
 						ti += 2
-						if len(d.stackExp[recursiveFrame].RecursionStack) < 1 {
-							goto ON_VAL_END
-						}
-						si = uint32(recursiveFrame)
-						continue
+						goto ON_VAL_END
 					}
 
 					var dp unsafe.Pointer
@@ -1495,18 +1509,9 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-					// Push recursion stack
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-
+					d.enterRecursion(si, recurFrame, dp)
 					si = uint32(recursiveFrame)
-					d.stackExp[si].Dest = dp
-					d.stackExp[si].Offset = 0
+					recurFrame = si
 
 				case ExpectTypeSliceEmptyStruct:
 					p := unsafe.Pointer(
@@ -2172,63 +2177,25 @@ func (d *Decoder[S, T]) Decode(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
 
-					siPointer := si
-					si = uint32(d.stackExp[si].RecurFrame)
-					// Push recursion stack
-					d.stackExp[si].RecursionStack = append(
-						d.stackExp[si].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[si].Dest,
-							Offset:         d.stackExp[si].Offset,
-							ContainerFrame: siPointer,
-						},
-					)
+					recursiveFrame := uint32(d.stackExp[si].RecurFrame)
 
 					var dp unsafe.Pointer
 					if *(*unsafe.Pointer)(p) != nil {
 						dp = *(*unsafe.Pointer)(p)
 					} else {
-						dp = mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
+						dp = mallocgc(
+							d.stackExp[recursiveFrame].Size,
+							d.stackExp[recursiveFrame].Typ, true,
+						)
 						*(*unsafe.Pointer)(p) = dp
 					}
-					d.stackExp[si].Dest = dp
 
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_RECUR_OBJ_END
-					}
-					// Point all fields to the struct, the offsets are already
-					// set statically during decoder init time.
-					for i := range d.stackExp[si].Fields {
-						d.stackExp[d.stackExp[si].Fields[i].FrameIndex].Dest = dp
-					}
-					ti++
+					d.enterRecursion(si, recurFrame, dp)
+					si = recursiveFrame
+					recurFrame = si
+					// Process the object in the context of the recursive frame
 
-				case ExpectTypeMapRecur:
-					// Push recursion stack
-					recursiveFrame := d.stackExp[si].RecurFrame
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-					p := unsafe.Pointer(
-						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
-					)
-					if *(*unsafe.Pointer)(p) == nil {
-						// Map not yet initialized, initialize map.
-						*(*unsafe.Pointer)(p) = makemap(
-							d.stackExp[si].Typ, tokens[ti].Elements,
-						)
-					}
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_VAL_END
-					}
-					ti++
-
-				case ExpectTypeMap:
+				case ExpectTypeMap, ExpectTypeMapRecur:
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2277,7 +2244,7 @@ func (d *Decoder[S, T]) Decode(
 					*(*map[string]string)(p) = m
 					goto ON_VAL_END
 
-				case ExpectTypeStruct:
+				case ExpectTypeStruct, ExpectTypeStructRecur:
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2293,21 +2260,6 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-				case ExpectTypeStructRecur:
-					p := unsafe.Pointer(
-						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
-					)
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_RECUR_OBJ_END
-					}
-					// Point all fields to the struct, the offsets are already
-					// set statically during decoder init time.
-					for i := range d.stackExp[si].Fields {
-						d.stackExp[d.stackExp[si].Fields[i].FrameIndex].Dest = p
-					}
-					ti++
-
 				case ExpectTypePtr:
 					goto ON_PTR
 
@@ -2536,16 +2488,17 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
-						recursiveFrame := d.stackExp[si].RecurFrame
-						si = uint32(recursiveFrame)
+						recursiveFrame := uint32(d.stackExp[si].RecurFrame)
+						d.enterRecursion(si, recurFrame, pNewData)
+						si = recursiveFrame
+						recurFrame = si
 					} else {
 						// For non-recursive maps the value frame is guaranteed to
 						// be at an offset of 2 relative to the map frame index.
 						si += 2
+						d.stackExp[si].Dest = pNewData
 					}
 
-					d.stackExp[si].Dest = pNewData
-
 					// Zero struct values
 					if d.stackExp[si].Type == ExpectTypeStruct ||
 						d.stackExp[si].Type == ExpectTypeStructRecur {
@@ -2560,106 +2513,39 @@ func (d *Decoder[S, T]) Decode(
 
 			case jscan.TokenTypeObjectEnd:
 				ti++
-				switch d.stackExp[si].Type {
-				case ExpectTypeStruct:
-					goto ON_VAL_END
-				case ExpectTypeMapRecur:
-					recursiveFrame := d.stackExp[si].RecurFrame
-					recurStack := d.stackExp[recursiveFrame].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						si = uint32(d.stackExp[si].RecurFrame)
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[recursiveFrame].RecursionStack[topIndex]
-					d.stackExp[recursiveFrame].Dest = resetTo.Dest
-					d.stackExp[recursiveFrame].Offset = resetTo.Offset
-					fields := d.stackExp[recursiveFrame].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[recursiveFrame].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[si].ParentFrameIndex
-					continue
-				}
-				goto ON_RECUR_OBJ_END
+				goto ON_VAL_END
 
 			case jscan.TokenTypeArrayEnd:
 				ti++
-				if d.stackExp[si].Type == ExpectTypeStructRecur {
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In slice of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[si].RecursionStack[topIndex]
-					d.stackExp[si].Dest = resetTo.Dest
-					d.stackExp[si].Offset = resetTo.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[resetTo.ContainerFrame].ParentFrameIndex
-					continue
+				if si == recurFrame {
+					// End of a recursive slice
+					si, recurFrame = d.leaveRecursion(si)
+					goto ON_VAL_END
 				}
 				si--
 				goto ON_VAL_END
 			}
 			continue
 
-		ON_RECUR_OBJ_END:
-			if l := len(d.stackExp[si].RecursionStack); l > 0 {
-				top := d.stackExp[si].RecursionStack[l-1]
-				switch d.stackExp[top.ContainerFrame].Type {
+		ON_VAL_END:
+			if si == recurFrame {
+				// End of a value inside of a recursive container
+				recurStack := d.stackExp[si].RecursionStack
+				container := recurStack[len(recurStack)-1].ContainerFrame
+				switch d.stackExp[container].Type {
 				case ExpectTypeSliceRecur:
+					// Continue with the next element or the end of the slice
 					d.stackExp[si].Offset += d.stackExp[si].Size
-				case ExpectTypePtrRecur:
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					d.stackExp[si].Dest = top.Dest
-					d.stackExp[si].Offset = top.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = top.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[top.ContainerFrame].ParentFrameIndex
 					continue
-
 				case ExpectTypeMapRecur:
-					si = top.ContainerFrame
-					// Set the top stack destination so the next key gets assigned to it.
-					// Otherwise we'll be in the destination of the previously assigned
-					// key, which will point to an empty map.
-					d.stackExp[si].Dest = top.Dest
+					// Continue with the next key or the end of the map
+					si, recurFrame = d.leaveRecursion(si)
+					continue
 				}
-				continue
+				// The value of the recursive pointer ended too
+				si, recurFrame = d.leaveRecursion(si)
+				goto ON_VAL_END
 			}
-			// Here we expect to fallthrough directly to ON_VAL_END!
-
-		ON_VAL_END:
 			if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
@@ -2786,6 +2672,59 @@ func readWholeNumber[S []byte | string](s S) jsonnum.ReturnCode {
 	return rc
 }
 
+// enterRecursion makes the recursive frame that container refers to write to dest.
+// The state of every frame between container and the recursive frame is pushed onto
+// the recursion stack of the recursive frame because it will be overwritten.
+// outerRecurFrame is the recursive frame that's currently active or noParentFrame.
+func (d *Decoder[S, T]) enterRecursion(
+	container, outerRecurFrame uint32, dest unsafe.Pointer,
+) {
+	r := uint32(d.stackExp[container].RecurFrame)
+	recurStack := d.stackExp[r].RecursionStack
+	for i := container; ; i = d.stackExp[i].ParentFrameIndex {
+		recurStack = append(recurStack, recursionStackFrame{
+			Dest:            d.stackExp[i].Dest,
+			Offset:          d.stackExp[i].Offset,
+			Len:             d.stackExp[i].Len,
+			Frame:           i,
+			ContainerFrame:  container,
+			OuterRecurFrame: outerRecurFrame,
+		})
+		if i == r {
+			break
+		}
+	}
+	d.stackExp[r].RecursionStack = recurStack
+	d.stackExp[r].Dest, d.stackExp[r].Offset = dest, 0
+}
+
+// leaveRecursion reverts the last call to enterRecursion for the recursive frame r.
+// Returns the container frame that was left and the recursive frame that was
+// active before it was entered (or noParentFrame).
+func (d *Decoder[S, T]) leaveRecursion(r uint32) (container, outerRecurFrame uint32) {
+	recurStack := d.stackExp[r].RecursionStack
+	for {
+		// Reset to parent context
+		topIndex := len(recurStack) - 1
+		top := recurStack[topIndex]
+		f := &d.stackExp[top.Frame]
+		f.Dest, f.Offset, f.Len = top.Dest, top.Offset, top.Len
+		for i := range f.Fields {
+			d.stackExp[f.Fields[i].FrameIndex].Dest = unsafe.Pointer(
+				uintptr(f.Dest) + f.Offset,
+			)
+		}
+
+		// Pop recursion stack
+		recurStack[topIndex].Dest = nil
+		recurStack = recurStack[:topIndex]
+		if top.Frame == top.ContainerFrame {
+			d.stackExp[r].RecursionStack = recurStack
+			return top.ContainerFrame, top.OuterRecurFrame
+		}
+	}
+}
+
 type sliceHeader struct {
 	Data     unsafe.Pointer
 	Len, Cap uintptr
-- 
2.43.0


From 87834748903b92a1502d5ebfa5461cea6796f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 12/32] fix: return an error for unsupported recursive types
 instead of overflowing the stack

---
 append_type_stack.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index 5e2d693..85dd34b 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -38,6 +38,18 @@ func appendTypeToStack[S []byte | string](
 			ParentFrameIndex: noParentFrame,
 		}), nil
 	}
+	for i := len(stack) - 1; i >= 0; i-- {
+		if stack[i].ParentFrameIndex != noParentFrame {
+			continue // Not a parent of t since parents are linked last.
+		}
+		if stack[i].Typ == getTyp(t) {
+			return nil, fmt.Errorf("unsupported recursive type: %v", t)
+		}
+		if t.Kind() != reflect.Struct && (stack[i].Type == ExpectTypeStruct ||
+			stack[i].Type == ExpectTypeStructRecur) {
+			break // Recursion through a struct will be detected at the struct.
+		}
+	}
 	switch t.Kind() {
 	case reflect.Interface:
 		return append(stack, stackFrame[S]{
-- 
2.43.0


From a849a8bd8a762cfa81d7e1427c66aae0e8d395e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 13/32] fix: decode UTF-16 surrogate pairs in unicode escape
 sequences

---
 internal/unescape/unescape.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/unescape/unescape.go b/internal/unescape/unescape.go
index c967696..35f385a 100644
--- a/internal/unescape/unescape.go
+++ b/internal/unescape/unescape.go
@@ -40,11 +40,20 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 		}
 	ESCAPE_SEQUENCE:
 		if s[1] == 'u' {
-			switch r := uint32(lut[s[2]]<<12 + lut[s[3]]<<8 + lut[s[4]]<<4 + lut[s[5]]); {
+			switch r := hex4(s[2:]); {
 			case r <= rune1Max:
 				buf = append(buf, byte(r))
 			case r <= rune2Max:
 				buf = append(buf, t2|byte(r>>6), tx|byte(r)&maskx)
+			case surrogateMin <= r && r < surrogateLowMin &&
+				len(s) >= 12 && s[6] == '\\' && s[7] == 'u' &&
+				hex4(s[8:]) >= surrogateLowMin && hex4(s[8:]) <= surrogateMax:
+				// Surrogate pair
+				r = surrogateSelf + (r-surrogateMin)<<10 + hex4(s[8:]) - surrogateLowMin
+				buf = append(buf,
+					t4|byte(r>>18), tx|byte(r>>12)&maskx,
+					tx|byte(r>>6)&maskx, tx|byte(r)&maskx)
+				s = s[6:]
 			case r > maxRune, surrogateMin <= r && r <= surrogateMax:
 				buf = append(buf, RuneError...) // Error placeholder rune
 			default:
@@ -108,6 +117,11 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 	return O(buf)
 }
 
+// hex4 returns the value of the first four hexadecimal digits in s.
+func hex4(s string) uint32 {
+	return uint32(lut[s[0]]<<12 + lut[s[1]]<<8 + lut[s[2]]<<4 + lut[s[3]])
+}
+
 var lutReplace = [256]byte{
 	'\\': '\\',
 	'/':  '/',
@@ -130,6 +144,12 @@ const (
 	// Code points in the surrogate range are not valid for UTF-8.
 	surrogateMin, surrogateMax = 0xD800, 0xDFFF
 
+	// surrogateLowMin is the first low surrogate, which is the second of a pair.
+	surrogateLowMin = 0xDC00
+
+	// surrogateSelf is the first code point that's encoded as a surrogate pair.
+	surrogateSelf = 0x10000
+
 	tx, t2, t3, t4               = 0b10000000, 0b11000000, 0b11100000, 0b11110000
 	maskx                        = 0b00111111
 	rune1Max, rune2Max, rune3Max = 1<<7 - 1, 1<<11 - 1, 1<<16 - 1
-- 
2.43.0


From ceb1acb956d192fdab95de3cca49d14cef20b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 14/32] fix: replace invalid UTF-8 in strings by the
 replacement character

---
 internal/unescape/unescape.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/unescape/unescape.go b/internal/unescape/unescape.go
index 35f385a..615d933 100644
--- a/internal/unescape/unescape.go
+++ b/internal/unescape/unescape.go
@@ -3,12 +3,13 @@ package unescape
 import (
 	"bytes"
 	"strings"
+	"unicode/utf8"
 	"unsafe"
 )
 
 // Valid returns the unescaped version of str relying on str to be valid.
 // Don't use this function if str isn't guaranteed to contain no
-// invalid escape sequences.
+// invalid escape sequences. Invalid UTF-8 in str is replaced by RuneError.
 func Valid[S []byte | string, O []byte | string](str S) O {
 	var oz O
 	if len(str) < 1 {
@@ -19,11 +20,17 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 	var s string
 	switch in := any(str).(type) {
 	case string:
+		if !utf8.ValidString(in) {
+			return Valid[string, O](replaceInvalidUTF8(in))
+		}
 		if i = strings.IndexByte(in, '\\'); i == -1 {
 			return O(str) // No escaping necessary
 		}
 		s = in
 	case []byte:
+		if !utf8.Valid(in) {
+			return Valid[string, O](replaceInvalidUTF8(string(in)))
+		}
 		if i = bytes.IndexByte(in, '\\'); i == -1 {
 			return O(str) // No escaping necessary
 		}
@@ -117,6 +124,16 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 	return O(buf)
 }
 
+// replaceInvalidUTF8 replaces every byte in s that's not part of a
+// valid UTF-8 sequence by RuneError.
+func replaceInvalidUTF8(s string) string {
+	buf := make([]byte, 0, len(s)+utf8.UTFMax)
+	for _, r := range s {
+		buf = utf8.AppendRune(buf, r)
+	}
+	return string(buf)
+}
+
 // hex4 returns the value of the first four hexadecimal digits in s.
 func hex4(s string) uint32 {
 	return uint32(lut[s[0]]<<12 + lut[s[1]]<<8 + lut[s[2]]<<4 + lut[s[3]])
-- 
2.43.0


From 654c839c1c82d0ed4891f15370e4a666b24335be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 15/32] fix: call unmarshalers of slice elements, map keys and
 map values of primitive kinds

---
 append_type_stack.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 85dd34b..66c083c 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -87,9 +87,14 @@ func appendTypeToStack[S []byte | string](
 
 	case reflect.Slice:
 		elem := t.Elem()
-		switch elem.Kind() {
+		elemKind := elem.Kind()
+		if implementsUnmarshaler(elem) {
+			// Never use the optimized slice types for elements with custom decoding.
+			elemKind = reflect.Invalid
+		}
+		switch elemKind {
 		case reflect.Struct:
-			if elem.Size() < 1 {
+			if elem.NumField() < 1 {
 				return append(stack, stackFrame[S]{
 					Type:             ExpectTypeSliceEmptyStruct,
 					Typ:              getTyp(t),
@@ -267,7 +272,9 @@ func appendTypeToStack[S []byte | string](
 			}
 		}
 
-		if t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.String {
+		if t.Key().Kind() == reflect.String && !implementsUnmarshaler(t.Key()) &&
+			elem.Kind() == reflect.String && !implementsUnmarshaler(elem) &&
+			t.Key() != tpNumber && elem != tpNumber {
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeMapStringString,
 				Typ:              getTyp(t),
@@ -562,6 +569,13 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// implementsUnmarshaler returns true if either t or a pointer to t implements
+// encoding/json.Unmarshaler or encoding.TextUnmarshaler.
+func implementsUnmarshaler(t reflect.Type) bool {
+	return determineJSONUnmarshalerSupport(t) != interfaceSupportNone ||
+		determineTextUnmarshalerSupport(t) != interfaceSupportNone
+}
+
 // isValidTagName returns true if name can be used as the field name in a json struct
 // tag according to the rules of encoding/json.
 func isValidTagName(name string) bool {
-- 
2.43.0


From d319d7868bf500529ca513c71f414e07fa12ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 16/32] fix: reject map key types that are neither strings,
 integers nor text unmarshalers

---
 append_type_stack.go | 48 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 66c083c..14d2ec8 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -260,7 +260,7 @@ func appendTypeToStack[S []byte | string](
 					{
 						newAtIndex := len(stack)
 						var err error
-						stack, err = appendTypeToStack(stack, t.Key(), options)
+						stack, err = appendMapKeyToStack(stack, t.Key())
 						if err != nil {
 							return nil, err
 						}
@@ -296,7 +296,7 @@ func appendTypeToStack[S []byte | string](
 		{
 			newAtIndex := len(stack)
 			var err error
-			if stack, err = appendTypeToStack(stack, t.Key(), options); err != nil {
+			if stack, err = appendMapKeyToStack(stack, t.Key()); err != nil {
 				return nil, err
 			}
 			// Link map key to the map frame.
@@ -569,6 +569,50 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// appendMapKeyToStack appends the stack frame of map key type t.
+// Same as in encoding/json, keys must either implement encoding.TextUnmarshaler
+// or be of any string or integer kind.
+func appendMapKeyToStack[S []byte | string](
+	stack []stackFrame[S], t reflect.Type,
+) ([]stackFrame[S], error) {
+	frame := stackFrame[S]{
+		Typ:              getTyp(t),
+		Size:             t.Size(),
+		ParentFrameIndex: noParentFrame,
+	}
+	if reflect.PointerTo(t).Implements(tpTextUnmarshaler) {
+		frame.Type, frame.RType = ExpectTypeTextUnmarshaler, t
+		return append(stack, frame), nil
+	}
+	switch t.Kind() {
+	case reflect.String:
+		frame.Type = ExpectTypeStr
+	case reflect.Int:
+		frame.Type = ExpectTypeInt
+	case reflect.Int8:
+		frame.Type = ExpectTypeInt8
+	case reflect.Int16:
+		frame.Type = ExpectTypeInt16
+	case reflect.Int32:
+		frame.Type = ExpectTypeInt32
+	case reflect.Int64:
+		frame.Type = ExpectTypeInt64
+	case reflect.Uint:
+		frame.Type = ExpectTypeUint
+	case reflect.Uint8:
+		frame.Type = ExpectTypeUint8
+	case reflect.Uint16:
+		frame.Type = ExpectTypeUint16
+	case reflect.Uint32:
+		frame.Type = ExpectTypeUint32
+	case reflect.Uint64:
+		frame.Type = ExpectTypeUint64
+	default:
+		return nil, fmt.Errorf("unsupported map key type: %v", t)
+	}
+	return append(stack, frame), nil
+}
+
 // implementsUnmarshaler returns true if either t or a pointer to t implements
 // encoding/json.Unmarshaler or encoding.TextUnmarshaler.
 func implementsUnmarshaler(t reflect.Type) bool {
-- 
2.43.0


From 15aa4cccf3d46fc3452de6669464456401c95ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 17/32] fix: add to existing maps and overwrite the existing
 map values entirely

---
 jscandec.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 5d475ef..9188bf8 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2217,10 +2217,15 @@ func (d *Decoder[S, T]) Decode(
 					)
 					if tokens[ti].Elements == 0 {
 						ti += 2
-						*(*map[string]string)(p) = make(map[string]string, 0)
+						if *(*map[string]string)(p) == nil {
+							*(*map[string]string)(p) = make(map[string]string, 0)
+						}
 						goto ON_VAL_END
 					}
-					m := make(map[string]string, tokens[ti].Elements)
+					m := *(*map[string]string)(p)
+					if m == nil {
+						m = make(map[string]string, tokens[ti].Elements)
+					}
 					tiEnd := tokens[ti].End
 
 					for ti++; ti < tiEnd; ti += 2 {
@@ -2499,11 +2504,8 @@ func (d *Decoder[S, T]) Decode(
 						d.stackExp[si].Dest = pNewData
 					}
 
-					// Zero struct values
-					if d.stackExp[si].Type == ExpectTypeStruct ||
-						d.stackExp[si].Type == ExpectTypeStructRecur {
-						typedmemclr(typVal, pNewData)
-					}
+					// Zero the value of a key that already existed
+					typedmemclr(typVal, pNewData)
 
 				default:
 					errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-- 
2.43.0


From 9dff85fec79b634d8225dd81f1443d75b88747bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 18/32] fix: support pointers to types implementing
 json.Unmarshaler and encoding.TextUnmarshaler

---
 jscandec.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 9188bf8..326c93a 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1015,9 +1015,9 @@ func (d *Decoder[S, T]) Decode(
 
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
-					u := reflect.NewAt(
+					u := unmarshalerAt(
 						d.stackExp[si].RType, p,
-					).Interface().(encoding.TextUnmarshaler)
+					).(encoding.TextUnmarshaler)
 					tb := unescape.Valid[S, []byte](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
@@ -1374,7 +1374,14 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSliceUint64:
 					*(*[]uint64)(p) = nil
 				case ExpectTypeJSONUnmarshaler:
-					goto ON_JSON_UNMARSHALER
+					if d.stackExp[si].RType.Kind() != reflect.Pointer {
+						goto ON_JSON_UNMARSHALER
+					}
+					*(*unsafe.Pointer)(p) = nil
+				case ExpectTypeTextUnmarshaler:
+					if d.stackExp[si].RType.Kind() == reflect.Pointer {
+						*(*unsafe.Pointer)(p) = nil
+					}
 				}
 				ti++
 				goto ON_VAL_END
@@ -2621,7 +2628,7 @@ func (d *Decoder[S, T]) Decode(
 					raw = s[tokens[ti].Index:tokens[ti].End]
 					ti++
 				}
-				u := reflect.NewAt(d.stackExp[si].RType, p).Interface().(json.Unmarshaler)
+				u := unmarshalerAt(d.stackExp[si].RType, p).(json.Unmarshaler)
 				if errUnmarshal := u.UnmarshalJSON([]byte(raw)); errUnmarshal != nil {
 					errIndex, err = tkIndex, errUnmarshal
 					return true
@@ -2661,6 +2668,20 @@ func unquoteStringTag[S []byte | string](tv S) (val string, ok bool) {
 	return val, true
 }
 
+// unmarshalerAt returns a pointer to the value of type t at p.
+// If t is itself a pointer then it's returned instead and
+// the value it points to is allocated if it's nil.
+func unmarshalerAt(t reflect.Type, p unsafe.Pointer) any {
+	v := reflect.NewAt(t, p)
+	if t.Kind() != reflect.Pointer {
+		return v.Interface()
+	}
+	if v = v.Elem(); v.IsNil() {
+		v.Set(reflect.New(t.Elem()))
+	}
+	return v.Interface()
+}
+
 // readWholeNumber is similar to jsonnum.ReadNumber but returns ReturnCodeErr
 // if s is empty or if there is anything left in s after the number.
 func readWholeNumber[S []byte | string](s S) jsonnum.ReturnCode {
-- 
2.43.0


From 1ec9d6ad035ea31075662dcd40f21b6c1d94409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 19/32] fix: leave values that null has no effect on untouched

---
 jscandec.go | 142 ++++++++++++----------------------------------------
 1 file changed, 32 insertions(+), 110 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 326c93a..e650e6e 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -354,33 +354,6 @@ func (t ExpectType) String() string {
 	return ""
 }
 
-// isElemComposite returns false for non-composite slice item types,
-// otherwise returns true.
-func (t ExpectType) isElemComposite() bool {
-	switch t {
-	case ExpectTypePtr,
-		ExpectTypeArrayLen0, // Zero-length arrays require no memory
-		ExpectTypeEmptyStruct,
-		ExpectTypeBool,
-		ExpectTypeStr,
-		ExpectTypeFloat32,
-		ExpectTypeFloat64,
-		ExpectTypeInt,
-		ExpectTypeInt8,
-		ExpectTypeInt16,
-		ExpectTypeInt32,
-		ExpectTypeInt64,
-		ExpectTypeUint,
-		ExpectTypeUint8,
-		ExpectTypeUint16,
-		ExpectTypeUint32,
-		ExpectTypeUint64:
-		return false
-		// Types such as `ExpectTypeBoolString` will never be used for slice items.
-	}
-	return true
-}
-
 // fieldStackFrame identifies a field within a struct frame.
 type fieldStackFrame struct {
 	// FrameIndex defines the stack index of the field's value frame.
@@ -1300,51 +1273,17 @@ func (d *Decoder[S, T]) Decode(
 					uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 				)
 				switch d.stackExp[si].Type {
-				case ExpectTypeEmptyStruct:
-					// Nothing
+				// Any type that's not listed here isn't affected by null.
 				case ExpectTypeAny:
 					*(*any)(p) = nil
 				case ExpectTypeMapStringString:
 					*(*map[string]string)(p) = nil
 				case ExpectTypeMap, ExpectTypeMapRecur:
 					*(*unsafe.Pointer)(p) = nil
-				case ExpectTypeSlice, ExpectTypeSliceRecur:
-					// Skip
+				case ExpectTypeSlice, ExpectTypeSliceRecur, ExpectTypeSliceEmptyStruct:
 					*(*[]any)(p) = nil
-				case ExpectTypeStruct, ExpectTypeStructRecur:
-					// Skip
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
-				case ExpectTypeBool:
-					*(*bool)(p) = zeroBool
-				case ExpectTypeStr:
-					*(*string)(p) = zeroStr
-				case ExpectTypeNumber:
-					*(*Number)(p) = ""
-				case ExpectTypeFloat32:
-					*(*float32)(p) = zeroFloat32
-				case ExpectTypeFloat64:
-					*(*float64)(p) = zeroFloat64
-				case ExpectTypeInt:
-					*(*int)(p) = zeroInt
-				case ExpectTypeInt8:
-					*(*int8)(p) = zeroInt8
-				case ExpectTypeInt16:
-					*(*int16)(p) = zeroInt16
-				case ExpectTypeInt32:
-					*(*int32)(p) = zeroInt32
-				case ExpectTypeInt64:
-					*(*int64)(p) = zeroInt64
-				case ExpectTypeUint:
-					*(*uint)(p) = zeroUint
-				case ExpectTypeUint8:
-					*(*uint8)(p) = zeroUint8
-				case ExpectTypeUint16:
-					*(*uint16)(p) = zeroUint16
-				case ExpectTypeUint32:
-					*(*uint32)(p) = zeroUint32
-				case ExpectTypeUint64:
-					*(*uint64)(p) = zeroUint64
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
@@ -1446,8 +1385,8 @@ func (d *Decoder[S, T]) Decode(
 						sh := sliceHeader{Len: elems, Cap: elems}
 						if elementSize > 0 {
 							sh.Data = newarray(d.stackExp[si+1].Typ, elems)
-							if h.Len != 0 && d.stackExp[si+1].Type.isElemComposite() {
-								// Must copy existing data bzecause it's not guarenteed
+							if h.Len != 0 {
+								// Must copy existing data because it's not guaranteed
 								// that the existing data will be fully overwritten.
 								typedslicecopy(
 									d.stackExp[si+1].Typ,
@@ -1546,7 +1485,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]bool)(p)
 					if cap(sl) < elems {
-						sl = make([]bool, elems)
+						sl = append(make([]bool, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1555,7 +1494,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = false
+							// Null has no effect
 						case jscan.TokenTypeTrue:
 							sl[i] = true
 						case jscan.TokenTypeFalse:
@@ -1583,7 +1522,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]string)(p)
 					if cap(sl) < elems {
-						sl = make([]string, elems)
+						sl = append(make([]string, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1592,7 +1531,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = ""
+							// Null has no effect
 						case jscan.TokenTypeString:
 							sl[i] = unescape.Valid[S, string](
 								s[tokens[i].Index+1 : tokens[i].End-1],
@@ -1620,7 +1559,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int)(p)
 					if cap(sl) < elems {
-						sl = make([]int, elems)
+						sl = append(make([]int, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1629,7 +1568,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							v, errParse := d.parseInt(s[tokens[i].Index:tokens[i].End])
 							if errParse != nil {
@@ -1660,7 +1599,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int8)(p)
 					if cap(sl) < elems {
-						sl = make([]int8, elems)
+						sl = append(make([]int8, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1669,7 +1608,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I8(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1700,7 +1639,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int16)(p)
 					if cap(sl) < elems {
-						sl = make([]int16, elems)
+						sl = append(make([]int16, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1709,7 +1648,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I16(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1740,7 +1679,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int32)(p)
 					if cap(sl) < elems {
-						sl = make([]int32, elems)
+						sl = append(make([]int32, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1749,7 +1688,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I32(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1780,7 +1719,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]int64)(p)
 					if cap(sl) < elems {
-						sl = make([]int64, elems)
+						sl = append(make([]int64, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1789,7 +1728,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I64(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1820,7 +1759,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint)(p)
 					if cap(sl) < elems {
-						sl = make([]uint, elems)
+						sl = append(make([]uint, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1829,7 +1768,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1864,7 +1803,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint8)(p)
 					if cap(sl) < elems {
-						sl = make([]uint8, elems)
+						sl = append(make([]uint8, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1873,7 +1812,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1908,7 +1847,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint16)(p)
 					if cap(sl) < elems {
-						sl = make([]uint16, elems)
+						sl = append(make([]uint16, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1917,7 +1856,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1952,7 +1891,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint32)(p)
 					if cap(sl) < elems {
-						sl = make([]uint32, elems)
+						sl = append(make([]uint32, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -1961,7 +1900,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1996,7 +1935,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]uint64)(p)
 					if cap(sl) < elems {
-						sl = make([]uint64, elems)
+						sl = append(make([]uint64, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -2005,7 +1944,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -2040,7 +1979,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]float32)(p)
 					if cap(sl) < elems {
-						sl = make([]float32, elems)
+						sl = append(make([]float32, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -2049,7 +1988,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeNumber:
 							v, errParse := d.parseFloat32(
 								s[tokens[i].Index:tokens[i].End],
@@ -2102,7 +2041,7 @@ func (d *Decoder[S, T]) Decode(
 
 					sl := *(*[]float64)(p)
 					if cap(sl) < elems {
-						sl = make([]float64, elems)
+						sl = append(make([]float64, 0, elems), sl...)[:elems]
 					} else {
 						sl = sl[:elems]
 					}
@@ -2111,7 +2050,7 @@ func (d *Decoder[S, T]) Decode(
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// Null has no effect
 						case jscan.TokenTypeNumber:
 							v, errParse := d.parseFloat64(
 								s[tokens[i].Index:tokens[i].End],
@@ -2753,23 +2692,6 @@ type sliceHeader struct {
 	Len, Cap uintptr
 }
 
-var (
-	zeroBool    bool
-	zeroStr     string
-	zeroInt     int
-	zeroUint    uint
-	zeroInt8    int8
-	zeroUint8   uint8
-	zeroInt16   int16
-	zeroUint16  uint16
-	zeroInt32   int32
-	zeroUint32  uint32
-	zeroInt64   int64
-	zeroUint64  uint64
-	zeroFloat32 float32
-	zeroFloat64 float64
-)
-
 // fieldFrameIndexByName returns the frame index of the field identified by name
 // or -1 if no field is found. Exact matches are prioritized over
 // case-insensitive matches.
-- 
2.43.0


From 0fe725e59eafab6d2fb3b0248c5774ae7f52fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 20/32] fix: zero the remaining array values if the input has
 less values

---
 jscandec.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index e650e6e..92efdc2 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1351,9 +1351,8 @@ func (d *Decoder[S, T]) Decode(
 					)
 					if tokens[ti].Elements < 1 {
 						ti += 2 // Skip over closing TokenArrayEnd
-						// Empty array, no need to allocate memory.
-						// Go will automatically allocate it together with its parent
-						// and zero it.
+						// Empty array, zero all existing values.
+						typedmemclr(d.stackExp[si].Typ, p)
 						goto ON_VAL_END
 					}
 					ti++
@@ -2470,6 +2469,15 @@ func (d *Decoder[S, T]) Decode(
 					si, recurFrame = d.leaveRecursion(si)
 					goto ON_VAL_END
 				}
+				if d.stackExp[si-1].Type == ExpectTypeArray {
+					// Zero the remaining values of the array
+					for i := d.stackExp[si].Len; i < d.stackExp[si].Cap; i++ {
+						typedmemclr(d.stackExp[si].Typ, unsafe.Pointer(
+							uintptr(d.stackExp[si].Dest)+d.stackExp[si].Offset,
+						))
+						d.stackExp[si].Offset += d.stackExp[si].Size
+					}
+				}
 				si--
 				goto ON_VAL_END
 			}
-- 
2.43.0


From 9fc9504a774e09ab45e3e41974251a3b0f6bc5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 21/32] fix: preserve the sign of negative zero in floats

---
 jscandec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 92efdc2..baa764e 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -888,6 +888,9 @@ func (d *Decoder[S, T]) Decode(
 							return true
 						}
 						*(*float32)(p) = float32(i32)
+						if i32 == 0 && s[tokens[ti].Index] == '-' {
+							*(*float32)(p) = float32(math.Copysign(0, -1))
+						}
 					} else {
 						v, errParse := d.parseFloat32(s[tokens[ti].Index:tokens[ti].End])
 						if errParse != nil {
@@ -907,6 +910,9 @@ func (d *Decoder[S, T]) Decode(
 							return true
 						}
 						*(*float64)(p) = float64(i64)
+						if i64 == 0 && s[tokens[ti].Index] == '-' {
+							*(*float64)(p) = math.Copysign(0, -1)
+						}
 					} else {
 						v, errParse := d.parseFloat64(s[tokens[ti].Index:tokens[ti].End])
 						if errParse != nil {
-- 
2.43.0


From 95656162ac76f33475b676dd0057e99b91378868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 22/32] fix: decode base64 strings into byte slices

---
 jscandec.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index baa764e..6c6c591 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2,6 +2,7 @@ package jscandec
 
 import (
 	"encoding"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"math"
@@ -1012,6 +1013,17 @@ func (d *Decoder[S, T]) Decode(
 					*(*string)(p) = unescape.Valid[S, string](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
+				case ExpectTypeSliceUint8:
+					b, errDecode := base64.StdEncoding.DecodeString(
+						unescape.Valid[S, string](
+							s[tokens[ti].Index+1 : tokens[ti].End-1],
+						),
+					)
+					if errDecode != nil {
+						errIndex, err = tokens[ti].Index, errDecode
+						return true
+					}
+					*(*[]byte)(p) = b
 				case ExpectTypeBoolString:
 					switch unescape.Valid[S, string](s[tokens[ti].Index+1 : tokens[ti].End-1]) {
 					case "true":
-- 
2.43.0


From 1806f94ed00112ac8d822654156fde0e7ea0ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 23/32] fix: check the values of slices of empty structs and
 unknown fields of empty structs

---
 jscandec.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 6c6c591..d9357ed 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1485,7 +1485,22 @@ func (d *Decoder[S, T]) Decode(
 						Len:  uintptr(tokens[ti].Elements),
 						Cap:  uintptr(tokens[ti].Elements),
 					}
-					ti = tokens[ti].End + 1
+					tiEnd := tokens[ti].End
+					for ti++; ti < tiEnd; ti++ {
+						switch tokens[ti].Type {
+						case jscan.TokenTypeNull:
+						case jscan.TokenTypeObject:
+							if options.DisallowUnknownFields && tokens[ti].Elements != 0 {
+								errIndex, err = tokens[ti+1].Index, ErrUnknownField
+								return true
+							}
+							ti = tokens[ti].End // Skip object value
+						default:
+							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+							return true
+						}
+					}
+					ti++
 					goto ON_VAL_END
 
 				case ExpectTypeSliceBool:
@@ -2120,6 +2135,10 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
+					if options.DisallowUnknownFields && tokens[ti].Elements != 0 {
+						errIndex, err = tokens[ti+1].Index, ErrUnknownField
+						return true
+					}
 					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
-- 
2.43.0


From 5677dbb4d13c083c25781979e26c1adbf7f20749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 24/32] fix: report the actual cause and index of errors inside
 of values of type any

---
 jscandec.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index d9357ed..8d72337 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1351,7 +1351,7 @@ func (d *Decoder[S, T]) Decode(
 					)
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
 					if errDecode != nil {
-						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+						errIndex, err = tail[0].Index, errDecode
 						return true
 					}
 					*(*any)(p) = v
@@ -2144,7 +2144,7 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
 					if errDecode != nil {
-						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
+						errIndex, err = tail[0].Index, errDecode
 						return true
 					}
 					p := unsafe.Pointer(
@@ -2788,6 +2788,8 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	return noParentFrame
 }
 
+// decodeAny decodes the first value in tokens and returns the remaining tokens.
+// In case of an error the first remaining token is the one that caused it.
 func decodeAny[S []byte | string](
 	str S, tokens []jscan.Token[S],
 ) (any, []jscan.Token[S], error) {
@@ -2797,7 +2799,7 @@ func decodeAny[S []byte | string](
 	case jscan.TokenTypeNumber, jscan.TokenTypeInteger:
 		f64, err := tokens[0].Float64(str)
 		if err != nil {
-			return nil, nil, err
+			return nil, tokens, err
 		}
 		return f64, tokens[1:], nil
 	case jscan.TokenTypeTrue:
@@ -2814,7 +2816,7 @@ func decodeAny[S []byte | string](
 			var v any
 			var err error
 			if v, tokens, err = decodeAny(str, tokens); err != nil {
-				return nil, nil, err
+				return nil, tokens, err
 			}
 			l = append(l, v)
 		}
@@ -2829,7 +2831,7 @@ func decodeAny[S []byte | string](
 			var v any
 			var err error
 			if v, tokens, err = decodeAny(str, tokens[1:]); err != nil {
-				return nil, nil, err
+				return nil, tokens, err
 			}
 			m[unescape.Valid[S, string](key)] = v
 		}
-- 
2.43.0


From a287624b92f48b2816be4b17de9c8eb92b4e87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 25/32] fix: limit the depth of values of type any instead of
 overflowing the stack

---
 jscandec.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 8d72337..06a954c 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -26,6 +26,10 @@ var (
 	ErrUnexpectedValue = errors.New("unexpected value")
 	ErrUnknownField    = errors.New("unknown field")
 	ErrIntegerOverflow = errors.New("integer overflow")
+
+	// ErrExceededMaxDepth is returned when arrays and objects inside of a value of
+	// type any are nested deeper than 10,000 levels, same as in encoding/json.
+	ErrExceededMaxDepth = errors.New("exceeded max depth")
 )
 
 // Number represents a JSON number literal.
@@ -1349,7 +1353,7 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
-					v, tail, errDecode := decodeAny(s, tokens[ti:])
+					v, tail, errDecode := decodeAny(s, tokens[ti:], maxDepthAny)
 					if errDecode != nil {
 						errIndex, err = tail[0].Index, errDecode
 						return true
@@ -2142,7 +2146,7 @@ func (d *Decoder[S, T]) Decode(
 					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
-					v, tail, errDecode := decodeAny(s, tokens[ti:])
+					v, tail, errDecode := decodeAny(s, tokens[ti:], maxDepthAny)
 					if errDecode != nil {
 						errIndex, err = tail[0].Index, errDecode
 						return true
@@ -2788,10 +2792,13 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	return noParentFrame
 }
 
+// maxDepthAny is the maximum depth of nested arrays and objects inside of any.
+const maxDepthAny = 10_000
+
 // decodeAny decodes the first value in tokens and returns the remaining tokens.
 // In case of an error the first remaining token is the one that caused it.
 func decodeAny[S []byte | string](
-	str S, tokens []jscan.Token[S],
+	str S, tokens []jscan.Token[S], maxDepth int,
 ) (any, []jscan.Token[S], error) {
 	switch tokens[0].Type {
 	case jscan.TokenTypeNull:
@@ -2811,17 +2818,23 @@ func decodeAny[S []byte | string](
 			str[tokens[0].Index+1 : tokens[0].End-1],
 		), tokens[1:], nil
 	case jscan.TokenTypeArray:
+		if maxDepth < 1 {
+			return nil, tokens, ErrExceededMaxDepth
+		}
 		l := make([]any, 0, tokens[0].Elements)
 		for tokens = tokens[1:]; tokens[0].Type != jscan.TokenTypeArrayEnd; {
 			var v any
 			var err error
-			if v, tokens, err = decodeAny(str, tokens); err != nil {
+			if v, tokens, err = decodeAny(str, tokens, maxDepth-1); err != nil {
 				return nil, tokens, err
 			}
 			l = append(l, v)
 		}
 		return l, tokens[1:], nil
 	case jscan.TokenTypeObject:
+		if maxDepth < 1 {
+			return nil, tokens, ErrExceededMaxDepth
+		}
 		if tokens[0].Elements == 0 {
 			return map[string]any{}, tokens[2:], nil
 		}
@@ -2830,7 +2843,7 @@ func decodeAny[S []byte | string](
 			key := str[tokens[0].Index+1 : tokens[0].End-1]
 			var v any
 			var err error
-			if v, tokens, err = decodeAny(str, tokens[1:]); err != nil {
+			if v, tokens, err = decodeAny(str, tokens[1:], maxDepth-1); err != nil {
 				return nil, tokens, err
 			}
 			m[unescape.Valid[S, string](key)] = v
-- 
2.43.0


From 6e3de258a4f34e2fc02aa17e6ec891cdbf6bc257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 26/32] fix: apply the string tag option to fields of pointer
 types

---
 append_type_stack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index 14d2ec8..83fb239 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -378,6 +378,9 @@ func appendTypeToStack[S []byte | string](
 			stack[newAtIndex].ParentFrameIndex = parentIndex
 
 			if optionString {
+				if f.Type.Name() == "" && stack[newAtIndex].Type == ExpectTypePtr {
+					newAtIndex++ // The option applies to the value pointed to
+				}
 				switch stack[newAtIndex].Type {
 				case ExpectTypeStr:
 					stack[newAtIndex].Type = ExpectTypeStrString
-- 
2.43.0


From b82c1ec192910ff266e6d622afb40f2061843997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 27/32] fix: preserve the sign of negative zero in slices of
 floats

---
 jscandec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 06a954c..fb987c7 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2044,6 +2044,9 @@ func (d *Decoder[S, T]) Decode(
 									return true
 								}
 								sl[i] = float32(i32)
+								if i32 == 0 && s[tokens[i].Index] == '-' {
+									sl[i] = float32(math.Copysign(0, -1))
+								}
 							} else {
 								v, errParse := d.parseFloat32(
 									s[tokens[i].Index:tokens[i].End],
@@ -2106,6 +2109,9 @@ func (d *Decoder[S, T]) Decode(
 									return true
 								}
 								sl[i] = float64(v)
+								if v == 0 && s[tokens[i].Index] == '-' {
+									sl[i] = math.Copysign(0, -1)
+								}
 							} else {
 								v, errParse := d.parseFloat64(
 									s[tokens[i].Index:tokens[i].End],
-- 
2.43.0


From 034b4a0eacfe8e631373933c7de21d578121003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 28/32] fix: copy slices of pointer-free elements safely during
 garbage collection

---
 jscandec.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index fb987c7..dab4109 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1410,9 +1410,7 @@ func (d *Decoder[S, T]) Decode(
 								// Must copy existing data because it's not guaranteed
 								// that the existing data will be fully overwritten.
 								typedslicecopy(
-									d.stackExp[si+1].Typ,
-									sh.Data, int(elems),
-									h.Data, int(h.Len),
+									d.stackExp[si+1].Typ, sh, h,
 								)
 							}
 						} else {
@@ -1463,9 +1461,7 @@ func (d *Decoder[S, T]) Decode(
 							// Must copy existing data because it's not guarenteed
 							// that the existing data will be fully overwritten.
 							typedslicecopy(
-								d.stackExp[recursiveFrame].Typ,
-								sh.Data, int(elems),
-								h.Data, int(h.Len),
+								d.stackExp[recursiveFrame].Typ, sh, h,
 							)
 						}
 						*(*sliceHeader)(p) = sh
@@ -2872,11 +2868,12 @@ func newarray(typ *typ, n uintptr) unsafe.Pointer
 //go:linkname mallocgc runtime.mallocgc
 func mallocgc(size uintptr, typ *typ, needzero bool) unsafe.Pointer
 
-//go:linkname typedslicecopy runtime.typedslicecopy
-//go:nosplit
-func typedslicecopy(
-	elemTyp *typ, dstPtr unsafe.Pointer, dstLen int, srcPtr unsafe.Pointer, srcLen int,
-) int
+// typedslicecopy must be the one of package reflect because, unlike
+// runtime.typedslicecopy, it supports element types without pointers.
+//
+//go:linkname typedslicecopy reflect.typedslicecopy
+//go:noescape
+func typedslicecopy(elemType *typ, dst, src sliceHeader) int
 
 //go:linkname typedmemclr runtime.typedmemclr
 //go:noescape
-- 
2.43.0


From ea93cb63fc58d45e7a5251b9aa2ab0b2c65e6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 29/32] fix: set text unmarshalers of slice and map kinds to
 nil on null

---
 jscandec.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index dab4109..34e3f39 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1340,8 +1340,11 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*unsafe.Pointer)(p) = nil
 				case ExpectTypeTextUnmarshaler:
-					if d.stackExp[si].RType.Kind() == reflect.Pointer {
+					switch d.stackExp[si].RType.Kind() {
+					case reflect.Pointer, reflect.Map:
 						*(*unsafe.Pointer)(p) = nil
+					case reflect.Slice:
+						*(*sliceHeader)(p) = sliceHeader{}
 					}
 				}
 				ti++
-- 
2.43.0


From 015d4f355a8d8d584bb67fc99012947cf6b8fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 30/32] fix: escaped null and invalid UTF-8 in strings with the
 string tag option

---
 jscandec.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 34e3f39..d2a81e4 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1042,7 +1042,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 				case ExpectTypeStrString:
 					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if string(tv) == "null" {
+					if unescape.Valid[S, string](tv) == "null" {
 						break // Encoded null has no effect
 					}
 					val, ok := unquoteStringTag(tv)
@@ -2646,9 +2646,10 @@ func (d *Decoder[S, T]) Decode(
 // Returns ok=false if tv doesn't contain exactly one JSON string literal.
 func unquoteStringTag[S []byte | string](tv S) (val string, ok bool) {
 	if len(tv) >= len(`\"\"`) && string(tv[:2]) == `\"` && string(tv[len(tv)-2:]) == `\"` {
-		inner := string(tv[2 : len(tv)-2])
-		if strings.IndexByte(inner, '\\') == -1 {
-			return inner, true // No escaping inside of the encoded string
+		inner := tv[2 : len(tv)-2]
+		if strings.IndexByte(string(inner), '\\') == -1 {
+			// No escaping inside of the encoded string
+			return unescape.Valid[S, string](inner), true
 		}
 	}
 	literal := unescape.Valid[S, []byte](tv)
-- 
2.43.0


From 55b997d4f78ca5c54c8fc3e390d3df606eec32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 31/32] fix: return every error of Decode from Unmarshal

---
 jscandec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index d2a81e4..6af2d99 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -482,11 +482,8 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	)
 	d := Decoder[S, T]{tokenizer: tokenizer, stackExp: stack}
 	d.init()
-	if _, err := d.Decode(s, t, DefaultOptions); err != nil &&
-		err != ErrStringTagOptionOnUnsupportedType {
-		return err
-	}
-	return nil
+	_, err = d.Decode(s, t, DefaultOptions)
+	return err
 }
 
 // Decoder is a reusable decoder instance.
-- 
2.43.0


From de41038b57c20923c125bb3d02b31948d0742d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 32/32] fix: reset offset of map value and pointer frames
 inside of recursions

The frame of a recursive struct keeps the offset of the slice element it
was entered for. When the same struct was then reached as a map value or
through a pointer it was written at that offset past the allocated memory.
---
 jscandec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 6af2d99..696d8a4 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2489,7 +2489,7 @@ func (d *Decoder[S, T]) Decode(
 						// For non-recursive maps the value frame is guaranteed to
 						// be at an offset of 2 relative to the map frame index.
 						si += 2
-						d.stackExp[si].Dest = pNewData
+						d.stackExp[si].Dest, d.stackExp[si].Offset = pNewData, 0
 					}
 
 					// Zero the value of a key that already existed
@@ -2597,7 +2597,7 @@ func (d *Decoder[S, T]) Decode(
 						)
 					}
 				}
-				d.stackExp[si].Dest = *(*unsafe.Pointer)(p)
+				d.stackExp[si].Dest, d.stackExp[si].Offset = *(*unsafe.Pointer)(p), 0
 			}
 			continue
 
-- 
2.43.0

