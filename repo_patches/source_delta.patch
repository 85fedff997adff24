From 9e6fffb886686c5db93f08809abc7a1c5d8c611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 01/49] fix: v1 decoders report truncated varints instead of
 indexing past the input

---
 decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decode.go b/decode.go
index b9d58cf..3d5f69b 100644
--- a/decode.go
+++ b/decode.go
@@ -172,7 +172,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 	if len(b) > 1 && b[0] == Uint16Kind[0] {
 		var x uint16
 		var s uint
-		for i := 1; i < VarIntLen16+1; i++ {
+		for i := 1; i < VarIntLen16+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -193,7 +193,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 	if len(b) > 1 && b[0] == Uint32Kind[0] {
 		var x uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -215,7 +215,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 	if len(b) > 1 && b[0] == Uint64Kind[0] {
 		var x uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -238,7 +238,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 	if len(b) > 1 && b[0] == Int32Kind[0] {
 		var ux uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -266,7 +266,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 	if len(b) > 1 && b[0] == Int64Kind[0] {
 		var ux uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-- 
2.43.0


From 815af29b6d44cfba6951cd3f67a9d1712297eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 02/49] fix: v1 decoders reject varints wider than their type

---
 decode.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decode.go b/decode.go
index 3d5f69b..07a2545 100644
--- a/decode.go
+++ b/decode.go
@@ -176,8 +176,8 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen16 && cb > 1 {
-					return b, 0, InvalidUint32
+				if i == VarIntLen16 && cb > 3 {
+					return b, 0, InvalidUint16
 				}
 				// End of varint, add the last bits and advance the buffer
 				return b[i+1:], x | uint16(cb)<<s, nil
@@ -197,7 +197,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidUint32
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -220,7 +220,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
 				// Check for overflow
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidUint64
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -242,7 +242,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidInt32
 				}
 				// End of varint, add the last bits
@@ -270,7 +270,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidInt64
 				}
 				// End of varint, add the last bits
-- 
2.43.0


From 297ad913d29c5a3c1f65df50baae4cc6b943353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 03/49] fix: v1 Bytes returns only the decoded payload when the
 destination is longer

---
 decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index 07a2545..3b455e7 100644
--- a/decode.go
+++ b/decode.go
@@ -103,7 +103,8 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 						ret = append(ret[:0], b[:size]...)
 					}
 				} else {
-					copy(ret[0:], b[:size])
+					ret = ret[:size]
+					copy(ret, b[:size])
 				}
 				return b[size:], ret, nil
 			}
-- 
2.43.0


From 6dcceff7bdd6b166da0f33c83977df5ce5ecd930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 04/49] fix: v1 Bool rejects bytes other than 0 and 1

---
 decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 3b455e7..a2d399f 100644
--- a/decode.go
+++ b/decode.go
@@ -148,9 +148,10 @@ func decodeError(b []byte) ([]byte, error, error) {
 func decodeBool(b []byte) ([]byte, bool, error) {
 	if len(b) > 1 {
 		if b[0] == BoolKind[0] {
-			if b[1] == trueBool {
+			switch b[1] {
+			case trueBool:
 				return b[2:], true, nil
-			} else {
+			case falseBool:
 				return b[2:], false, nil
 			}
 		}
-- 
2.43.0


From a9cb96970b8681a911b9fe033ff54fe4a2848b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 05/49] fix: compare payload sizes without overflow on 32-bit
 platforms

---
 decode.go    | 4 ++--
 v2/decode.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decode.go b/decode.go
index a2d399f..fbbd59b 100644
--- a/decode.go
+++ b/decode.go
@@ -94,7 +94,7 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 			if err != nil {
 				return b, nil, InvalidBytes
 			}
-			if len(b) > int(size)-1 {
+			if uint64(len(b)) >= uint64(size) {
 				if len(ret) < int(size) {
 					if ret == nil {
 						ret = make([]byte, size)
@@ -122,7 +122,7 @@ func decodeString(b []byte) ([]byte, string, error) {
 			if err != nil {
 				return b, emptyString, InvalidString
 			}
-			if len(b) > int(size)-1 {
+			if uint64(len(b)) >= uint64(size) {
 				return b[size:], string(b[:size]), nil
 			}
 		}
diff --git a/v2/decode.go b/v2/decode.go
index 5548906..53bea8a 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -131,7 +131,7 @@ func decodeString(b []byte) ([]byte, string, error) {
 		if err != nil {
 			return b, emptyString, ErrInvalidString
 		}
-		if len(b) > int(size)-1 {
+		if uint64(len(b)) >= uint64(size) {
 			return b[size:], string(b[:size]), nil
 		}
 	}
-- 
2.43.0


From c1a1e52909db4580da30b799388eb064a3f40ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 06/49] fix: v2 decoders report truncated varints instead of
 indexing past the input

---
 v2/decode.go | 96 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 96 insertions(+)

diff --git a/v2/decode.go b/v2/decode.go
index 53bea8a..1a74e07 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -89,24 +89,36 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 			offset = 3
 		} else {
 			x := cb & (continuation - 1)
+			if len(b) < 4 {
+				return b, nil, ErrInvalidBytes
+			}
 			cb = uint32(b[3])
 			if cb < continuation {
 				size = int(x | (cb << 7))
 				offset = 4
 			} else {
 				x |= (cb & (continuation - 1)) << 7
+				if len(b) < 5 {
+					return b, nil, ErrInvalidBytes
+				}
 				cb = uint32(b[4])
 				if cb < continuation {
 					size = int(x | (cb << 14))
 					offset = 5
 				} else {
 					x |= (cb & (continuation - 1)) << 14
+					if len(b) < 6 {
+						return b, nil, ErrInvalidBytes
+					}
 					cb = uint32(b[5])
 					if cb < continuation {
 						size = int(x | (cb << 21))
 						offset = 6
 					} else {
 						x |= (cb & (continuation - 1)) << 21
+						if len(b) < 7 {
+							return b, nil, ErrInvalidBytes
+						}
 						cb = uint32(b[6])
 						if cb < continuation {
 							size = int(x | (cb << 28))
@@ -178,12 +190,18 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
@@ -200,24 +218,36 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
@@ -234,54 +264,81 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			return b[7:], x | (cb << 35), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			return b[8:], x | (cb << 42), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			return b[9:], x | (cb << 49), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			return b[10:], x | (cb << 56), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			return b[11:], x | (cb << 63), nil
@@ -302,6 +359,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -312,6 +372,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -322,6 +385,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -332,6 +398,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -356,6 +425,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -366,6 +438,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -376,6 +451,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -386,6 +464,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -396,6 +477,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			x |= cb << 35
@@ -406,6 +490,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			x |= cb << 42
@@ -416,6 +503,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			x |= cb << 49
@@ -426,6 +516,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			x |= cb << 56
@@ -436,6 +529,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			x |= cb << 63
-- 
2.43.0


From 26d7efe273102ca7f4a3eadc0f5dcc715f47dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 07/49] fix: v2 decoders reject unterminated lengths and
 varints wider than their type

---
 v2/decode.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index 1a74e07..fc38b02 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -120,10 +120,11 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 							return b, nil, ErrInvalidBytes
 						}
 						cb = uint32(b[6])
-						if cb < continuation {
-							size = int(x | (cb << 28))
-							offset = 7
+						if cb > 15 {
+							return b, nil, ErrInvalidBytes
 						}
+						size = int(x | (cb << 28))
+						offset = 7
 					}
 				}
 			}
@@ -203,7 +204,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			return b, 0, ErrInvalidUint16
 		}
 		cb = uint16(b[3])
-		if cb < continuation {
+		if cb <= 3 {
 			return b[4:], x | (cb << 14), nil
 		}
 	}
@@ -249,7 +250,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			return b, 0, ErrInvalidUint32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb <= 15 {
 			return b[6:], x | (cb << 28), nil
 		}
 	}
@@ -340,7 +341,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			return b, 0, ErrInvalidUint64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb <= 1 {
 			return b[11:], x | (cb << 63), nil
 		}
 	}
@@ -402,7 +403,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			return b, 0, ErrInvalidInt32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb <= 15 {
 			x |= cb << 28
 			if x&1 != 0 {
 				return b[6:], -(int32(x>>1) + 1), nil
@@ -533,7 +534,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			return b, 0, ErrInvalidInt64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb <= 1 {
 			x |= cb << 63
 			if x&1 != 0 {
 				return b[11:], -(int64(x>>1) + 1), nil
-- 
2.43.0


From 61e32d2f7e480be2215708be63e6591079b518f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 08/49] fix: v2 Bytes compares its length without overflow on
 32-bit platforms

---
 v2/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/decode.go b/v2/decode.go
index fc38b02..177d324 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -129,7 +129,7 @@ func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 				}
 			}
 		}
-		if len(b)-offset > size-1 {
+		if uint64(len(b)-offset) >= uint64(uint32(size)) {
 			return b[size+offset:], append(ret[:0], b[offset:size+offset]...), nil
 		}
 	}
-- 
2.43.0


From fe386f77d0bbf9fe78019d410eb299e74932f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 09/49] fix: v2 encodeBytes counts the last byte of a five-byte
 length

---
 v2/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/encode.go b/v2/encode.go
index 8422540..0a7b355 100644
--- a/v2/encode.go
+++ b/v2/encode.go
@@ -232,6 +232,7 @@ func encodeBytes(b *Buffer, value []byte) {
 					castValue >>= 7
 					if castValue < continuation {
 						b.b[offset] = byte(castValue)
+						offset++
 					} else {
 						b.b[offset] = byte(castValue&(continuation-1)) | continuation
 						offset++
-- 
2.43.0


From 720e18c45a10bd28b875b61471591fd37e667092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 10/49] fix: NewBufferFromBytes uses the capacity of the slice
 it is given, as Grow does

---
 v2/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index 1c85560..d20d46c 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -41,7 +41,7 @@ func NewBufferSize(size int) *Buffer {
 
 func NewBufferFromBytes(b []byte) *Buffer {
 	return &Buffer{
-		b:      b,
+		b:      b[:cap(b)],
 		offset: 0,
 	}
 }
-- 
2.43.0


From dbeb2b8a540ade7721aec7eb66a5fd5846e03a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 11/49] fix: Rust container and error decoders leave the
 position unchanged when the kinds do not match

---
 decoder.rs | 72 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 43624e9..bb8ecf2 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -88,32 +88,35 @@ where
     }
 
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError> {
-        let kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
-            return match self.decode_u32() {
-                Err(err) => Err(err),
-                Ok(val) => Ok(val as usize),
-            };
+        let start = self.position();
+        if let (Ok(kind), Ok(defined_val_kind)) = (self.read_u8(), self.read_u8()) {
+            if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
+                return match self.decode_u32() {
+                    Err(_) => Err(DecodingError::InvalidArray),
+                    Ok(val) => Ok(val as usize),
+                };
+            }
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        self.set_position(start);
+        Err(DecodingError::InvalidArray)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
-        let kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        if kind == Kind::Map as u8
-            && key_kind as u8 == defined_key_kind
-            && val_kind as u8 == defined_val_kind
+        let start = self.position();
+        if let (Ok(kind), Ok(defined_key_kind), Ok(defined_val_kind)) =
+            (self.read_u8(), self.read_u8(), self.read_u8())
         {
-            return match self.decode_u32() {
-                Err(err) => Err(err),
-                Ok(val) => Ok(val as usize),
-            };
+            if kind == Kind::Map as u8
+                && key_kind as u8 == defined_key_kind
+                && val_kind as u8 == defined_val_kind
+            {
+                return match self.decode_u32() {
+                    Err(_) => Err(DecodingError::InvalidMap),
+                    Ok(val) => Ok(val as usize),
+                };
+            }
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidMap)
     }
 
@@ -151,21 +154,22 @@ where
     }
 
     fn decode_error(&mut self) -> Result<Box<dyn Error>, DecodingError> {
-        let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
-            let size = self.decode_u32()? as usize;
-            let mut str_buf = vec![0u8; size];
-            self.read_exact(&mut str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidError)?;
-
-            let result = str::from_utf8(&str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidError)?;
-            return Ok(Box::<dyn Error>::from(result.to_owned()));
+        let start = self.position();
+        if let (Ok(kind), Ok(nested_kind)) = (self.read_u8(), self.read_u8()) {
+            if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
+                let size = self.decode_u32()? as usize;
+                let mut str_buf = vec![0u8; size];
+                self.read_exact(&mut str_buf)
+                    .ok()
+                    .ok_or(DecodingError::InvalidError)?;
+
+                let result = str::from_utf8(&str_buf)
+                    .ok()
+                    .ok_or(DecodingError::InvalidError)?;
+                return Ok(Box::<dyn Error>::from(result.to_owned()));
+            }
         }
-        self.set_position(self.position() - 2);
+        self.set_position(start);
         Err(DecodingError::InvalidError)
     }
 
-- 
2.43.0


From 92e8f515064b27f93bffc85b2db9a8e3a72ee105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 12/49] fix: Rust decoders reject varints that do not fit their
 width

---
 decoder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/decoder.rs b/decoder.rs
index bb8ecf2..f7647d0 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -201,6 +201,9 @@ where
             for _ in 0..VARINT_LEN16 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
                 if byte < CONTINUATION {
+                    if byte as u16 > u16::MAX >> s {
+                        break;
+                    }
                     return Ok(x | ((byte as u16) << s));
                 }
                 x |= (byte as u16 & ((CONTINUATION as u16) - 1)) << s;
@@ -220,6 +223,9 @@ where
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
                 if byte < CONTINUATION {
+                    if byte as u32 > u32::MAX >> s {
+                        break;
+                    }
                     return Ok(x | ((byte as u32) << s));
                 }
                 x |= (byte as u32 & ((CONTINUATION as u32) - 1)) << s;
@@ -239,6 +245,9 @@ where
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
                 if byte < CONTINUATION {
+                    if byte as u64 > u64::MAX >> s {
+                        break;
+                    }
                     return Ok(x | ((byte as u64) << s));
                 }
                 x |= (byte as u64 & ((CONTINUATION as u64) - 1)) << s;
@@ -258,6 +267,9 @@ where
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
                 if byte < CONTINUATION {
+                    if byte as u32 > u32::MAX >> s {
+                        break;
+                    }
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
                     if ux & 1 != 0 {
@@ -282,6 +294,9 @@ where
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
                 if byte < CONTINUATION {
+                    if byte as u64 > u64::MAX >> s {
+                        break;
+                    }
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
                     if ux & 1 != 0 {
-- 
2.43.0


From 6f980342d3317284d8cab81514e93593b07dd2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 13/49] fix: Rust decode_bool rejects bytes that are neither 0
 nor 1

---
 decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.rs b/decoder.rs
index f7647d0..c6dd1f3 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -177,7 +177,11 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
         if kind == Kind::Bool as u8 {
             let val = self.read_u8().ok().ok_or(DecodingError::InvalidBool)?;
-            return Ok(val == 1);
+            return match val {
+                0 => Ok(false),
+                1 => Ok(true),
+                _ => Err(DecodingError::InvalidBool),
+            };
         }
         self.set_position(self.position() - 1);
         Err(DecodingError::InvalidBool)
-- 
2.43.0


From c4a5ba9c4b01e72ea6e8af5f73c419f1fc2e487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 14/49] fix: Rust decoders check a length against the unread
 bytes before allocating, and report their own error

---
 decoder.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index c6dd1f3..c3fce5d 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -73,6 +73,10 @@ pub trait Decoder {
     fn decode_f64(&mut self) -> Result<f64, DecodingError>;
 }
 
+fn remaining<T: AsRef<[u8]>>(cursor: &Cursor<T>) -> u64 {
+    (cursor.get_ref().as_ref().len() as u64).saturating_sub(cursor.position())
+}
+
 impl<T> Decoder for Cursor<T>
 where
     T: AsRef<[u8]>,
@@ -123,7 +127,10 @@ where
     fn decode_bytes(&mut self) -> Result<Vec<u8>, DecodingError> {
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
-            let size = self.decode_u32()? as usize;
+            let size = self.decode_u32().ok().ok_or(DecodingError::InvalidBytes)? as usize;
+            if size as u64 > remaining(self) {
+                return Err(DecodingError::InvalidBytes);
+            }
             let mut buf = vec![0u8; size];
             self.read_exact(&mut buf)
                 .ok()
@@ -138,7 +145,10 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidString)?;
 
         if kind == Kind::String as u8 {
-            let size = self.decode_u32()? as usize;
+            let size = self.decode_u32().ok().ok_or(DecodingError::InvalidString)? as usize;
+            if size as u64 > remaining(self) {
+                return Err(DecodingError::InvalidString);
+            }
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
                 .ok()
@@ -157,7 +167,10 @@ where
         let start = self.position();
         if let (Ok(kind), Ok(nested_kind)) = (self.read_u8(), self.read_u8()) {
             if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
-                let size = self.decode_u32()? as usize;
+                let size = self.decode_u32().ok().ok_or(DecodingError::InvalidError)? as usize;
+                if size as u64 > remaining(self) {
+                    return Err(DecodingError::InvalidError);
+                }
                 let mut str_buf = vec![0u8; size];
                 self.read_exact(&mut str_buf)
                     .ok()
-- 
2.43.0


From 6ae66e1ad4d7f1c335c2637c9f43b07e4dd56fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 15/49] fix: Rust decode_u16 and decode_u64 report their own
 error

---
 decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index c3fce5d..b0d9e1f 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -228,7 +228,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU16)
     }
 
     fn decode_u32(&mut self) -> Result<u32, DecodingError> {
@@ -272,7 +272,7 @@ where
             }
         }
         self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        Err(DecodingError::InvalidU64)
     }
 
     fn decode_i32(&mut self) -> Result<i32, DecodingError> {
-- 
2.43.0


From 5ed79e5ae543761b83b392f559e13f0c1cf63185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 16/49] fix: polyglot_decode_none returns on a null decoder and
 sets the status

---
 c_bindings/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d518ba4..d645514 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -70,9 +70,13 @@ pub extern "C" fn polyglot_decode_none(status: *mut Status, decoder: *mut Decode
         unsafe {
             *status = Status::NullPointer;
         }
+        return false;
     }
 
-    unsafe { (*decoder).cursor.decode_none() }
+    unsafe {
+        *status = Status::Pass;
+        (*decoder).cursor.decode_none()
+    }
 }
 
 #[no_mangle]
-- 
2.43.0


From 106ae0db7ed21052a5a35c348317160bc6e3349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 17/49] fix: polyglot_encoder_size sets the status

---
 c_bindings/encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 556da37..b7c073e 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -54,6 +54,7 @@ pub extern "C" fn polyglot_encoder_size(status: *mut Status, encoder: *mut Encod
     }
 
     unsafe {
+        *status = Status::Pass;
         (*encoder).cursor.get_ref().len() as u32
     }
 }
-- 
2.43.0


From 92c5d7df295e05fcc27c38c83148704e2b6d1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 18/49] fix: polyglot_encode_string and polyglot_encode_error
 check the string pointer

---
 c_bindings/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index b7c073e..ae88b38 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -194,7 +194,7 @@ pub extern "C" fn polyglot_encode_bytes(status: *mut Status, encoder: *mut Encod
 pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Encoder, string_pointer: *const c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
@@ -224,7 +224,7 @@ pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Enco
 pub extern "C" fn polyglot_encode_error(status: *mut Status, encoder: *mut Encoder, string_pointer: *mut c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
-- 
2.43.0


From 25a54f11a47367d2f8b7c53c5c404a29bd6a9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 19/49] fix: polyglot_free_decode_bytes frees the whole slice
 that polyglot_decode_bytes allocated

---
 c_bindings/decoder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d645514..7c4ea77 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -175,8 +175,7 @@ pub extern "C" fn polyglot_free_decode_bytes(buffer: *mut Buffer) {
         unsafe {
             let boxed_value =
                 std::slice::from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
-            let value = boxed_value.as_mut_ptr();
-            drop(Box::from_raw(value));
+            drop(Box::<[u8]>::from_raw(boxed_value));
             drop(Box::from_raw(buffer));
         }
     }
-- 
2.43.0


From e2b27340663290e17634b513fa61e1636ea52159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 20/49] fix: TypeScript Encoder grows until what it encodes
 fits, not just once

---
 encoder.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index fca1760..63d9851 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -38,10 +38,13 @@ export class Encoder {
   }
 
   private resize(minLen: number) {
-    if (this.#buf.length - this.#pos < minLen) {
+    const required = this.#pos + minLen;
+    if (this.#buf.length < required) {
       const oldBuf = this.#buf;
 
-      this.#buf = new Uint8Array(this.#buf.buffer.byteLength * 2);
+      this.#buf = new Uint8Array(
+        Math.max(this.#buf.length * 2, required),
+      );
       this.#buf.set(oldBuf);
     }
   }
-- 
2.43.0


From 05208bf9d0bbbfebf590a312eb6cb504e4bc9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 21/49] fix: TypeScript Encoder.bytes starts where the array
 given to the constructor starts

---
 encoder.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoder.ts b/encoder.ts
index 63d9851..08161c8 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -50,7 +50,11 @@ export class Encoder {
   }
 
   get bytes() {
-    return new Uint8Array(this.#buf.buffer, 0, this.#pos);
+    return new Uint8Array(
+      this.#buf.buffer,
+      this.#buf.byteOffset,
+      this.#pos,
+    );
   }
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
-- 
2.43.0


From 6b4ccc220159648b303d18d8bbb0a67483bbffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 22/49] fix: TypeScript Encoder reserves room for the longest
 encoding, kind bytes included

---
 encoder.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index 08161c8..db19a00 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -135,23 +135,23 @@ export class Encoder {
   }
 
   uint16(value: number) {
-    return this.varint(value, Kind.Uint16, 3);
+    return this.varint(value, Kind.Uint16, 4);
   }
 
   uint32(value: number) {
-    return this.varint(value, Kind.Uint32, 5);
+    return this.varint(value, Kind.Uint32, 6);
   }
 
   uint64(value: bigint) {
-    return this.varintBig(value, Kind.Uint64, 9);
+    return this.varintBig(value, Kind.Uint64, 11);
   }
 
   int32(value: number) {
-    return this.varint(value, Kind.Int32, 5, true);
+    return this.varint(value, Kind.Int32, 6, true);
   }
 
   int64(value: bigint) {
-    return this.varintBig(value, Kind.Int64, 9, true);
+    return this.varintBig(value, Kind.Int64, 11, true);
   }
 
   float32(value: number) {
@@ -200,7 +200,7 @@ export class Encoder {
   }
 
   uint8Array(value: Uint8Array) {
-    this.resize(5 + value.length);
+    this.resize(7 + value.length);
     this.#buf[this.#pos] = Kind.Uint8Array;
     this.#pos += 1;
     this.uint32(value.length);
@@ -212,7 +212,7 @@ export class Encoder {
   string(value: string) {
     const v = new TextEncoder().encode(value);
 
-    this.resize(5 + v.length);
+    this.resize(7 + v.length);
     this.#buf[this.#pos] = Kind.String;
     this.#pos += 1;
     this.uint32(v.length);
@@ -224,7 +224,7 @@ export class Encoder {
   error(value: Error) {
     const v = new TextEncoder().encode(value.message);
 
-    this.resize(6 + v.length);
+    this.resize(8 + v.length);
     this.#buf[this.#pos] = Kind.Error;
     this.#buf[this.#pos + 1] = Kind.String;
     this.#pos += 2;
-- 
2.43.0


From b8669d2bdfaa0f7d566d01c67b3fa06ba2da33d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 23/49] fix: TypeScript Decoder rejects varints that are
 truncated, unterminated or too wide for their type

---
 decoder.ts | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index ccc108d..7c736b6 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -164,13 +164,21 @@ export class Decoder {
     return this.buf.length - this.#pos;
   }
 
-  private varint(maxLen: number, signed = false): bigint {
+  private varint(
+    maxLen: number,
+    bits: number,
+    Err: new () => Error,
+    signed = false,
+  ): bigint {
     let num = 0n;
     let shift = 0n;
     for (let i = 1; i < maxLen + 1; i += 1) {
       const b = this.pop();
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
+        if (num >> BigInt(bits) !== 0n) {
+          throw new Err();
+        }
         if (signed) {
           // two's complement
           num = num % 2n === 0n ? num / 2n : -(num + 1n) / 2n;
@@ -180,7 +188,7 @@ export class Decoder {
       num += BigInt(b & (CONTINUATION - 1)) << shift;
       shift += 7n;
     }
-    return num;
+    throw new Err();
   }
 
   null(): boolean {
@@ -218,37 +226,27 @@ export class Decoder {
 
   uint16(): number {
     this.validateKind(Kind.Uint16, InvalidUint16Error);
-    let num = 0;
-    let shift = 0;
-    for (let i = 1; i < MAXLEN16 + 1; i += 1) {
-      const b = this.pop();
-      if (b < CONTINUATION) {
-        return (num | (b << shift)) >>> 0;
-      }
-      num |= b & ((CONTINUATION - 1) << shift);
-      shift += 7;
-    }
-    return num;
+    return Number(this.varint(MAXLEN16, 16, InvalidUint16Error));
   }
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32));
+    return Number(this.varint(MAXLEN32, 32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64);
+    return this.varint(MAXLEN64, 64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, true));
+    return Number(this.varint(MAXLEN32, 32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, true);
+    return this.varint(MAXLEN64, 64, InvalidInt64Error, true);
   }
 
   float32(): number {
-- 
2.43.0


From 362b58bb31702537bbc33bd0fad02c1a3474d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 24/49] fix: TypeScript Decoder.boolean rejects bytes that are
 neither 0 nor 1

---
 decoder.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 7c736b6..cc2c4d9 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -14,7 +14,7 @@
  	limitations under the License.
  */
 
-import { BOOLEAN_TRUE } from "./encoder";
+import { BOOLEAN_FALSE, BOOLEAN_TRUE } from "./encoder";
 import { Kind } from "./kind";
 
 /* eslint-disable no-bitwise */
@@ -209,7 +209,11 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
-    return this.pop() === BOOLEAN_TRUE;
+    const val = this.pop();
+    if (val !== BOOLEAN_TRUE && val !== BOOLEAN_FALSE) {
+      throw new InvalidBooleanError();
+    }
+    return val === BOOLEAN_TRUE;
   }
 
   uint8(): number {
-- 
2.43.0


From 11784a349dd03fa5e8abcb90ef9f9288fefe434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 25/49] fix: TypeScript Decoder reports truncated uint8 and
 floats with their own errors

---
 decoder.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/decoder.ts b/decoder.ts
index cc2c4d9..8969804 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -160,6 +160,12 @@ export class Decoder {
     this.#pos += 1;
   }
 
+  private validateLength(size: number, Err: new () => Error) {
+    if (this.length < size) {
+      throw new Err();
+    }
+  }
+
   get length(): number {
     return this.buf.length - this.#pos;
   }
@@ -218,6 +224,7 @@ export class Decoder {
 
   uint8(): number {
     this.validateKind(Kind.Uint8, InvalidUint8Error);
+    this.validateLength(1, InvalidUint8Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -255,6 +262,7 @@ export class Decoder {
 
   float32(): number {
     this.validateKind(Kind.Float32, InvalidFloat32Error);
+    this.validateLength(4, InvalidFloat32Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -267,6 +275,7 @@ export class Decoder {
 
   float64(): number {
     this.validateKind(Kind.Float64, InvalidFloat64Error);
+    this.validateLength(8, InvalidFloat64Error);
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
-- 
2.43.0


From 315038bea760dde1b6dd6d87188130807bd0a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 26/49] fix: TypeScript Decoder checks lengths against the
 unread bytes and reports them with the operation's own error

---
 decoder.ts | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 8969804..3755b70 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -197,6 +197,11 @@ export class Decoder {
     throw new Err();
   }
 
+  private size(Err: new () => Error): number {
+    this.validateKind(Kind.Uint32, Err);
+    return Number(this.varint(MAXLEN32, 32, Err));
+  }
+
   null(): boolean {
     const val = (this.peek() as Kind) === Kind.Null;
     if (val) {
@@ -289,19 +294,20 @@ export class Decoder {
   array(valueKind: Kind): number {
     this.validateKind(Kind.Array, InvalidArrayError);
     this.validateKind(valueKind, InvalidArrayError);
-    return this.uint32();
+    return this.size(InvalidArrayError);
   }
 
   map(keyKind: Kind, valueKind: Kind): number {
     this.validateKind(Kind.Map, InvalidMapError);
     this.validateKind(keyKind, InvalidMapError);
     this.validateKind(valueKind, InvalidMapError);
-    return this.uint32();
+    return this.size(InvalidMapError);
   }
 
   uint8Array(): Uint8Array {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
-    const size = this.uint32();
+    const size = this.size(InvalidUint8ArrayError);
+    this.validateLength(size, InvalidUint8ArrayError);
     const value = this.buf.slice(this.#pos, this.#pos + size);
     this.#pos += size;
     return value;
@@ -309,7 +315,8 @@ export class Decoder {
 
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
-    const size = this.uint32();
+    const size = this.size(InvalidStringError);
+    this.validateLength(size, InvalidStringError);
     const value = new TextDecoder().decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
@@ -324,7 +331,8 @@ export class Decoder {
       throw new InvalidErrorError();
     }
 
-    const size = this.uint32();
+    const size = this.size(InvalidErrorError);
+    this.validateLength(size, InvalidErrorError);
     const value = new Error(
       new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
     );
-- 
2.43.0


From ad1068eefd3cd9c48bef0593696dfa8695862de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 27/49] fix: TypeScript container decoders consume nothing when
 the kinds do not match

---
 decoder.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 3755b70..dfe3604 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -154,10 +154,14 @@ export class Decoder {
   }
 
   private validateKind(expected: Kind, Err: new () => Error) {
-    if ((this.peek() as Kind) !== expected) {
+    this.validateKinds([expected], Err);
+  }
+
+  private validateKinds(expected: Kind[], Err: new () => Error) {
+    if (expected.some((kind, i) => this.buf[this.#pos + i] !== kind)) {
       throw new Err();
     }
-    this.#pos += 1;
+    this.#pos += expected.length;
   }
 
   private validateLength(size: number, Err: new () => Error) {
@@ -292,15 +296,12 @@ export class Decoder {
   }
 
   array(valueKind: Kind): number {
-    this.validateKind(Kind.Array, InvalidArrayError);
-    this.validateKind(valueKind, InvalidArrayError);
+    this.validateKinds([Kind.Array, valueKind], InvalidArrayError);
     return this.size(InvalidArrayError);
   }
 
   map(keyKind: Kind, valueKind: Kind): number {
-    this.validateKind(Kind.Map, InvalidMapError);
-    this.validateKind(keyKind, InvalidMapError);
-    this.validateKind(valueKind, InvalidMapError);
+    this.validateKinds([Kind.Map, keyKind, valueKind], InvalidMapError);
     return this.size(InvalidMapError);
   }
 
-- 
2.43.0


From e04b98fb022c60177a2d73f216ade3dcb14f0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 28/49] fix: TypeScript Decoder keeps a leading U+FEFF of
 strings and errors

---
 decoder.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index dfe3604..4d3feca 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -318,7 +318,7 @@ export class Decoder {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.size(InvalidStringError);
     this.validateLength(size, InvalidStringError);
-    const value = new TextDecoder().decode(
+    const value = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
       this.buf.slice(this.#pos, this.#pos + size),
     );
     this.#pos += size;
@@ -335,7 +335,9 @@ export class Decoder {
     const size = this.size(InvalidErrorError);
     this.validateLength(size, InvalidErrorError);
     const value = new Error(
-      new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
+      new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+        this.buf.slice(this.#pos, this.#pos + size),
+      ),
     );
     this.#pos += size;
     return value;
-- 
2.43.0


From c8c19857dd6ed7f3529ba8f6e8d89433ced7f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 29/49] fix: TypeScript Decoder.uint8Array copies, also out of
 a Node Buffer

---
 decoder.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index 4d3feca..57b956e 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -309,7 +309,9 @@ export class Decoder {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
     const size = this.size(InvalidUint8ArrayError);
     this.validateLength(size, InvalidUint8ArrayError);
-    const value = this.buf.slice(this.#pos, this.#pos + size);
+    const value = new Uint8Array(
+      this.buf.subarray(this.#pos, this.#pos + size),
+    );
     this.#pos += size;
     return value;
   }
-- 
2.43.0


From 3c5cca78b7a9f025cc23aadf0e9492d173cfa455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 30/49] fix: the embedded version ends with a newline, which
 broke the header of every generated file

---
 v2/version/version.go | 3 ++-
 version/version.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v2/version/version.go b/v2/version/version.go
index f725f09..d67d143 100644
--- a/v2/version/version.go
+++ b/v2/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
diff --git a/version/version.go b/version/version.go
index f725f09..d67d143 100644
--- a/version/version.go
+++ b/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
-- 
2.43.0


From 873ddb98874c46788c61e7f14193c2b8e13618d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 31/49] fix: generated Go code for repeated enum fields did not
 compile

---
 generator/golang/structs.go                | 2 +-
 generator/golang/templates/decode.templ    | 4 ++++
 generator/golang/templates/encode.templ    | 4 ++++
 v2/generator/golang/structs.go             | 2 +-
 v2/generator/golang/templates/decode.templ | 4 ++++
 v2/generator/golang/templates/encode.templ | 4 ++++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index b5bf4e0..99472be 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e701386..b781856 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -56,6 +56,10 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/encode.templ b/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/generator/golang/templates/encode.templ
+++ b/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index e4473c2..29f998d 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d953142..835eb54 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -54,6 +54,10 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+    var {{ CamelCaseName $field.Name }}Temp uint32
+    {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+    x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/encode.templ b/v2/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/v2/generator/golang/templates/encode.templ
+++ b/v2/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
-- 
2.43.0


From 4aa8c28033157a72615bb8092c1456e0588a4df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 32/49] fix: generated Go code for repeated bytes and maps to
 bytes did not compile

---
 generator/golang/templates/decode.templ       | 2 ++
 generator/golang/templates/decodeMap.templ    | 2 ++
 v2/generator/golang/templates/decode.templ    | 2 ++
 v2/generator/golang/templates/decodeMap.templ | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index b781856..b9fe0f3 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -56,6 +56,8 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
     var {{ CamelCaseName $field.Name }}Temp uint32
     {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index 93bff31..db58116 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 835eb54..7b8beeb 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -54,6 +54,8 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+    x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
     var {{ CamelCaseName $field.Name }}Temp uint32
     {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 9092a07..485e6b9 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
-- 
2.43.0


From e37b58a1a50f4ddcec3733a3609705814d0e0437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 33/49] fix: generated Go code for messages with only map
 fields did not compile

---
 generator/golang/templates/decode.templ    | 3 ++-
 v2/generator/golang/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index b9fe0f3..4b6c16b 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -76,7 +76,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 7b8beeb..8c9cd33 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -74,7 +74,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
-- 
2.43.0


From 978fa58651978c17715a5b66fa811fb791a8ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 34/49] fix: generated Go code for files without messages did
 not compile

---
 generator/golang/generator.go    | 7 ++++++-
 generator/golang/imports.go      | 5 +++++
 v2/generator/golang/generator.go | 7 ++++++-
 v2/generator/golang/imports.go   | 5 +++++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 075cf3f..b9395b4 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -116,11 +116,16 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	imports := RequiredImports
+	if protoFile.Desc.Messages().Len() == 0 {
+		imports = enumImports
+	}
+
 	return g.templ.ExecuteTemplate(genFile, "base.templ", map[string]interface{}{
 		"pluginVersion":   version.Version(),
 		"sourcePath":      protoFile.Desc.Path(),
 		"package":         packageName,
-		"requiredImports": RequiredImports,
+		"requiredImports": imports,
 		"enums":           protoFile.Desc.Enums(),
 		"messages":        protoFile.Desc.Messages(),
 		"header":          header,
diff --git a/generator/golang/imports.go b/generator/golang/imports.go
index 930c15a..b918892 100644
--- a/generator/golang/imports.go
+++ b/generator/golang/imports.go
@@ -22,3 +22,8 @@ var (
 		"errors",
 	}
 )
+
+// enumImports are the imports of a file that declares no messages.
+var enumImports = []string{
+	"errors",
+}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index 2a33a27..a4fa303 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -116,11 +116,16 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	imports := RequiredImports
+	if protoFile.Desc.Messages().Len() == 0 {
+		imports = enumImports
+	}
+
 	return g.templ.ExecuteTemplate(genFile, "base.templ", map[string]interface{}{
 		"pluginVersion":   version.Version(),
 		"sourcePath":      protoFile.Desc.Path(),
 		"package":         packageName,
-		"requiredImports": RequiredImports,
+		"requiredImports": imports,
 		"enums":           protoFile.Desc.Enums(),
 		"messages":        protoFile.Desc.Messages(),
 		"header":          header,
diff --git a/v2/generator/golang/imports.go b/v2/generator/golang/imports.go
index 407a4cd..52c52e2 100644
--- a/v2/generator/golang/imports.go
+++ b/v2/generator/golang/imports.go
@@ -22,3 +22,8 @@ var (
 		"errors",
 	}
 )
+
+// enumImports are the imports of a file that declares no messages.
+var enumImports = []string{
+	"errors",
+}
-- 
2.43.0


From 10428f7790b4f0c8953c7204b837d2aad0e5ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 35/49] fix: enums declared in nested messages were not
 generated

---
 generator/golang/templates/messages.templ        | 4 ----
 generator/golang/templates/structs.templ         | 4 ++++
 generator/rust/templates/messages.templ          | 4 ----
 generator/rust/templates/structs.templ           | 4 ++++
 generator/typescript/templates/messages.templ    | 4 ----
 generator/typescript/templates/structs.templ     | 4 ++++
 v2/generator/golang/templates/messages.templ     | 4 ----
 v2/generator/golang/templates/structs.templ      | 4 ++++
 v2/generator/rust/templates/messages.templ       | 4 ----
 v2/generator/rust/templates/structs.templ        | 4 ++++
 v2/generator/typescript/templates/messages.templ | 4 ----
 v2/generator/typescript/templates/structs.templ  | 4 ++++
 12 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/generator/golang/templates/messages.templ b/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/golang/templates/messages.templ
+++ b/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 6fc09e7..b44068d 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ $enum := $.Enums.Get $i }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/generator/rust/templates/messages.templ b/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/generator/rust/templates/messages.templ
+++ b/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/rust/templates/structs.templ b/generator/rust/templates/structs.templ
index 8890eca..d0e36c0 100644
--- a/generator/rust/templates/structs.templ
+++ b/generator/rust/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ $enum := $.Enums.Get $i }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/generator/typescript/templates/messages.templ b/generator/typescript/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/generator/typescript/templates/messages.templ
+++ b/generator/typescript/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/structs.templ b/generator/typescript/templates/structs.templ
index f954fda..861d83a 100644
--- a/generator/typescript/templates/structs.templ
+++ b/generator/typescript/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ $enum := $.Enums.Get $i }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/golang/templates/messages.templ b/v2/generator/golang/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/golang/templates/messages.templ
+++ b/v2/generator/golang/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/golang/templates/structs.templ b/v2/generator/golang/templates/structs.templ
index 0f3c571..d2c1868 100644
--- a/v2/generator/golang/templates/structs.templ
+++ b/v2/generator/golang/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ $enum := $.Enums.Get $i }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/rust/templates/messages.templ b/v2/generator/rust/templates/messages.templ
index db077ec..195744a 100644
--- a/v2/generator/rust/templates/messages.templ
+++ b/v2/generator/rust/templates/messages.templ
@@ -8,10 +8,6 @@ pub trait Decode {
 }
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/rust/templates/structs.templ b/v2/generator/rust/templates/structs.templ
index 8890eca..d0e36c0 100644
--- a/v2/generator/rust/templates/structs.templ
+++ b/v2/generator/rust/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ $enum := $.Enums.Get $i }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
diff --git a/v2/generator/typescript/templates/messages.templ b/v2/generator/typescript/templates/messages.templ
index 1c8c74b..23074ec 100644
--- a/v2/generator/typescript/templates/messages.templ
+++ b/v2/generator/typescript/templates/messages.templ
@@ -1,10 +1,6 @@
 {{define "messages"}}
 {{range $i, $e := (MakeIterable .messages.Len) -}}
     {{ $message := $.messages.Get $i }}
-    {{range $i, $e := (MakeIterable $message.Enums.Len) -}}
-        {{ $enum := ($message.Enums.Get $i) }}
-        {{template "enum" $enum}}
-    {{end}}
     {{template "structs" $message}}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/structs.templ b/v2/generator/typescript/templates/structs.templ
index f954fda..861d83a 100644
--- a/v2/generator/typescript/templates/structs.templ
+++ b/v2/generator/typescript/templates/structs.templ
@@ -1,4 +1,8 @@
 {{define "structs"}}
+    {{ range $i, $v := (MakeIterable $.Enums.Len) }}
+        {{ $enum := $.Enums.Get $i }}
+        {{template "enum" $enum}}
+    {{end}}
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
-- 
2.43.0


From c2e001469b0c1111e6676a276a977e799efd3663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 36/49] fix: the Rust generator did not terminate on recursive
 messages and missed the imports of nested declarations

---
 generator/rust/imports.go    | 40 +++++++++++-------------------------
 v2/generator/rust/imports.go | 40 +++++++++++-------------------------
 2 files changed, 24 insertions(+), 56 deletions(-)

diff --git a/generator/rust/imports.go b/generator/rust/imports.go
index c8e7e00..53d2740 100644
--- a/generator/rust/imports.go
+++ b/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -28,38 +27,23 @@ type Dependencies struct {
 
 func DependencyAnalysis(file *protogen.File) *Dependencies {
 	dependencies := &Dependencies{
-		Enums: false,
+		Enums: len(file.Enums) > 0,
 		Maps:  false,
 	}
-
-	if len(file.Enums) > 0 {
-		dependencies.Enums = true
-	}
-	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
-	}
+	traverseMessages(file.Messages, dependencies)
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
-	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+// traverseMessages follows the declarations (which form a tree) and not the
+// types of the fields (which can be recursive, or belong to another file)
+func traverseMessages(messages []*protogen.Message, dependencies *Dependencies) {
+	for _, message := range messages {
+		if len(message.Enums) > 0 {
+			dependencies.Enums = true
+		}
+		if message.Desc.IsMapEntry() {
+			dependencies.Maps = true
 		}
+		traverseMessages(message.Messages, dependencies)
 	}
-	return dependencies
 }
diff --git a/v2/generator/rust/imports.go b/v2/generator/rust/imports.go
index c8e7e00..53d2740 100644
--- a/v2/generator/rust/imports.go
+++ b/v2/generator/rust/imports.go
@@ -18,7 +18,6 @@ package rust
 
 import (
 	"google.golang.org/protobuf/compiler/protogen"
-	"google.golang.org/protobuf/reflect/protoreflect"
 )
 
 type Dependencies struct {
@@ -28,38 +27,23 @@ type Dependencies struct {
 
 func DependencyAnalysis(file *protogen.File) *Dependencies {
 	dependencies := &Dependencies{
-		Enums: false,
+		Enums: len(file.Enums) > 0,
 		Maps:  false,
 	}
-
-	if len(file.Enums) > 0 {
-		dependencies.Enums = true
-	}
-	for _, message := range file.Messages {
-		for _, field := range message.Fields {
-			if field.Desc.Kind() == protoreflect.MessageKind {
-				if field.Desc.Message().IsMapEntry() {
-					dependencies.Maps = true
-				}
-				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
-				}
-			}
-		}
-	}
+	traverseMessages(file.Messages, dependencies)
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
-	for _, field := range message.Fields {
-		if field.Desc.Kind() == protoreflect.MessageKind {
-			if field.Desc.Message().IsMapEntry() {
-				dependencies.Maps = true
-			}
-			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
-			}
+// traverseMessages follows the declarations (which form a tree) and not the
+// types of the fields (which can be recursive, or belong to another file)
+func traverseMessages(messages []*protogen.Message, dependencies *Dependencies) {
+	for _, message := range messages {
+		if len(message.Enums) > 0 {
+			dependencies.Enums = true
+		}
+		if message.Desc.IsMapEntry() {
+			dependencies.Maps = true
 		}
+		traverseMessages(message.Messages, dependencies)
 	}
-	return dependencies
 }
-- 
2.43.0


From 04b8694729eba0075991dc205e24564330b8ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 37/49] fix: warnings of rustfmt ended up in the generated Rust
 code

---
 generator/rust/generator.go    | 5 +++--
 v2/generator/rust/generator.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 7ebb320..0da8462 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -27,6 +27,7 @@ import (
 
 	"bytes"
 	"flag"
+	"os"
 	"os/exec"
 	"text/template"
 )
@@ -155,9 +156,9 @@ func (g *Generator) ExecuteTemplate(
 
 	cmd := exec.Command("rustfmt")
 	cmd.Stdin = bytes.NewReader(buf.Bytes())
-	output, err := cmd.CombinedOutput()
+	cmd.Stderr = os.Stderr
+	output, err := cmd.Output()
 	if err != nil {
-		println(string(output))
 		return err
 	}
 	_, err = genFile.Write(output)
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 75c60ca..dad0b15 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -27,6 +27,7 @@ import (
 
 	"bytes"
 	"flag"
+	"os"
 	"os/exec"
 	"text/template"
 )
@@ -155,9 +156,9 @@ func (g *Generator) ExecuteTemplate(
 
 	cmd := exec.Command("rustfmt")
 	cmd.Stdin = bytes.NewReader(buf.Bytes())
-	output, err := cmd.CombinedOutput()
+	cmd.Stderr = os.Stderr
+	output, err := cmd.Output()
 	if err != nil {
-		println(string(output))
 		return err
 	}
 	_, err = genFile.Write(output)
-- 
2.43.0


From 61b80a6c47550a007ad9cd39ab7ff23378014856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 38/49] fix: the imports of a generated TypeScript file
 included those of the files generated before it

---
 generator/typescript/generator.go    | 2 ++
 v2/generator/typescript/generator.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index 8b467f9..58c0e7d 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -142,6 +142,8 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	g.dependencies = map[string]struct{}{}
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 29f538a..0e177e7 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -142,6 +142,8 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	g.dependencies = map[string]struct{}{}
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
-- 
2.43.0


From b17b6a2dbf654ccba680fd712e95160a5e94c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 39/49] fix: the Rust generator kept the privacy parameter of
 an earlier request

---
 generator/rust/generator.go    | 5 +++++
 v2/generator/rust/generator.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 0da8462..ebb9113 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -43,6 +43,7 @@ const (
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
+	privacy      *string
 	CustomFields func() string
 	CustomEncode func() string
 	CustomDecode func() string
@@ -90,6 +91,7 @@ func New() *Generator {
 			ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
 		},
 		templ:        templ,
+		privacy:      privacy,
 		CustomEncode: func() string { return "" },
 		CustomDecode: func() string { return "" },
 		CustomFields: func() string { return "" },
@@ -107,6 +109,9 @@ func (*Generator) MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte,
 }
 
 func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, err error) {
+	// the parameters of an earlier request do not apply to this one
+	*g.privacy = GeneratedFieldPrivacyPrivate
+
 	plugin, err := g.options.New(req)
 	if err != nil {
 		return nil, err
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index dad0b15..56b559e 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -43,6 +43,7 @@ const (
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
+	privacy      *string
 	CustomFields func() string
 	CustomEncode func() string
 	CustomDecode func() string
@@ -90,6 +91,7 @@ func New() *Generator {
 			ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
 		},
 		templ:        templ,
+		privacy:      privacy,
 		CustomEncode: func() string { return "" },
 		CustomDecode: func() string { return "" },
 		CustomFields: func() string { return "" },
@@ -107,6 +109,9 @@ func (*Generator) MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte,
 }
 
 func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, err error) {
+	// the parameters of an earlier request do not apply to this one
+	*g.privacy = GeneratedFieldPrivacyPrivate
+
 	plugin, err := g.options.New(req)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3f586fba8889074c6e987b6e68a861f07e19dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 40/49] fix: the constructors generated for recursive messages
 did not terminate

---
 generator/golang/generator.go            |  1 +
 generator/golang/structs.go              | 25 ++++++++++++++++++++++++
 generator/golang/templates/structs.templ |  2 ++
 3 files changed, 28 insertions(+)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index b9395b4..cebe6a0 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -52,6 +52,7 @@ func New() *Generator {
 		"GetEncodingFields":  GetEncodingFields,
 		"GetDecodingFields":  GetDecodingFields,
 		"GetKindLUT":         GetKindLUT,
+		"IsCyclic":           IsCyclic,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 99472be..d7bc5cb 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -242,3 +242,28 @@ func GetLUTDecoder(kind protoreflect.Kind) string {
 func GetKindLUT(kind protoreflect.Kind) string {
 	return kindLUT[kind]
 }
+
+// IsCyclic reports whether the message type of the field contains, through
+// singular message fields, the message the field belongs to
+func IsCyclic(field protoreflect.FieldDescriptor) bool {
+	return contains(field.Message(), field.ContainingMessage(), map[protoreflect.FullName]struct{}{})
+}
+
+func contains(message protoreflect.MessageDescriptor, target protoreflect.MessageDescriptor, visited map[protoreflect.FullName]struct{}) bool {
+	if message.FullName() == target.FullName() {
+		return true
+	}
+	if _, ok := visited[message.FullName()]; ok {
+		return false
+	}
+	visited[message.FullName()] = struct{}{}
+	for i := 0; i < message.Fields().Len(); i++ {
+		field := message.Fields().Get(i)
+		if field.Kind() == protoreflect.MessageKind && field.Cardinality() != protoreflect.Repeated {
+			if contains(field.Message(), target, visited) {
+				return true
+			}
+		}
+	}
+	return false
+}
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index b44068d..d5f8a3e 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -46,7 +46,9 @@ func New{{ CamelCase .FullName }}() *{{ CamelCase .FullName }} {
         {{ range $i, $v := (MakeIterable .Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
             {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
+                {{ if not (IsCyclic $field) -}}
                 {{ CamelCaseName $field.Name }}: New{{ CamelCase $field.Message.FullName }}(),
+                {{end -}}
             {{end -}}
         {{end -}}
     }
-- 
2.43.0


From 96e2d54640c7b23567071cdce7c4a9b334e63e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 41/49] fix: decoding an absent message or map into a used
 message kept its old content

---
 generator/golang/templates/decode.templ    | 3 +++
 v2/generator/golang/templates/decode.templ | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 4b6c16b..c5677db 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -12,6 +12,7 @@ func (x *{{ CamelCase .FullName }}) Decode (b []byte) error {
 {{define "internalDecode"}}
 func (x *{{CamelCase .FullName}}) decode(d *polyglot.Decoder) error {
     if d.Nil() {
+        *x = *New{{ CamelCase .FullName }}()
         return nil
     }
 
@@ -86,6 +87,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if x.{{ CamelCaseName $field.Name }} == nil {
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 8c9cd33..5fc17d8 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -10,6 +10,7 @@ func (x *{{ CamelCase .FullName }}) Decode (b []byte) error {
 {{define "internalDecode"}}
 func (x *{{CamelCase .FullName}}) decode(d *polyglot.BufferDecoder) error {
     if d.Nil() {
+        *x = *New{{ CamelCase .FullName }}()
         return nil
     }
 
@@ -84,6 +85,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if !d.Nil() {
@@ -92,6 +95,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{end -}}
 {{end -}}
-- 
2.43.0


From ca24fc3636a551772a730dd1fe9e262b3ed89cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 42/49] fix: generated Rust code for repeated numbers, repeated
 enums and maps does not compile

---
 generator/rust/generator.go              |  1 +
 generator/rust/structs.go                | 13 +++++++++++++
 generator/rust/templates/decode.templ    |  2 ++
 generator/rust/templates/encode.templ    | 20 +++-----------------
 v2/generator/rust/generator.go           |  1 +
 v2/generator/rust/structs.go             | 13 +++++++++++++
 v2/generator/rust/templates/decode.templ |  2 ++
 v2/generator/rust/templates/encode.templ | 20 +++-----------------
 8 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index ebb9113..2874053 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -69,6 +69,7 @@ func New() *Generator {
 		"GetEncodingFields":  getEncodingFields,
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
+		"GetEncodeArgument":  getEncodeArgument,
 		"SnakeCase":          utils.SnakeCase,
 		"SnakeCaseName":      utils.SnakeCaseName,
 		"CustomFields": func() string {
diff --git a/generator/rust/structs.go b/generator/rust/structs.go
index 6fe5abd..bf2d94d 100644
--- a/generator/rust/structs.go
+++ b/generator/rust/structs.go
@@ -247,3 +247,16 @@ func getLUTDecoder(kind protoreflect.Kind) string {
 func getKindLUT(kind protoreflect.Kind) string {
 	return kindLUT[kind]
 }
+
+// getEncodeArgument returns what is passed to the encoder for a value of the
+// kind that is behind the reference
+func getEncodeArgument(kind protoreflect.Kind, reference string) string {
+	switch kind {
+	case protoreflect.StringKind, protoreflect.BytesKind:
+		return reference
+	case protoreflect.EnumKind:
+		return fmt.Sprintf("*%s as u32", reference)
+	default:
+		return fmt.Sprintf("*%s", reference)
+	}
+}
diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index 8a92671..092d8e2 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -28,11 +28,7 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
-            b{{$encoder}}(item)?;
-            {{ end -}}
+            b{{$encoder}}({{ GetEncodeArgument $field.Kind "item" }})?;
         }
         {{end -}}
     {{end -}}
@@ -50,23 +46,13 @@ impl Encode for {{ CamelCase .FullName }} {
             {{ if and (eq $keyEncoder "") (eq $field.MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
             k.encode(b)?;
             {{else -}}
-                {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
-                {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
-                b{{$keyEncoder}}(&k)?;
-                {{else -}}
-                    b{{$keyEncoder}}(k)?;
-                {{end -}}
+                b{{$keyEncoder}}({{ GetEncodeArgument $field.MapKey.Kind "k" }})?;
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
             {{ if and (eq $valEncoder "") (eq $field.MapValue.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
             v.encode(b)?;
             {{else -}}
-                {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(*v as u32)?;
-                {{else -}}
-                    b{{$valEncoder}}(*v)?;
-                {{end -}}
+                b{{$valEncoder}}({{ GetEncodeArgument $field.MapValue.Kind "v" }})?;
             {{end -}}
             }
         {{else -}}
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 56b559e..4e46ac4 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -69,6 +69,7 @@ func New() *Generator {
 		"GetEncodingFields":  getEncodingFields,
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
+		"GetEncodeArgument":  getEncodeArgument,
 		"SnakeCase":          utils.SnakeCase,
 		"SnakeCaseName":      utils.SnakeCaseName,
 		"CustomFields": func() string {
diff --git a/v2/generator/rust/structs.go b/v2/generator/rust/structs.go
index c154992..948c0ac 100644
--- a/v2/generator/rust/structs.go
+++ b/v2/generator/rust/structs.go
@@ -247,3 +247,16 @@ func getLUTDecoder(kind protoreflect.Kind) string {
 func getKindLUT(kind protoreflect.Kind) string {
 	return kindLUT[kind]
 }
+
+// getEncodeArgument returns what is passed to the encoder for a value of the
+// kind that is behind the reference
+func getEncodeArgument(kind protoreflect.Kind, reference string) string {
+	switch kind {
+	case protoreflect.StringKind, protoreflect.BytesKind:
+		return reference
+	case protoreflect.EnumKind:
+		return fmt.Sprintf("*%s as u32", reference)
+	default:
+		return fmt.Sprintf("*%s", reference)
+	}
+}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 4232690..7bf435c 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index 8a92671..092d8e2 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -28,11 +28,7 @@ impl Encode for {{ CamelCase .FullName }} {
         {{else -}}
         b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
         for item in &self.{{ SnakeCaseName $field.Name}} {
-            {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
-            b{{$encoder}}(&item)?;
-            {{ else -}}
-            b{{$encoder}}(item)?;
-            {{ end -}}
+            b{{$encoder}}({{ GetEncodeArgument $field.Kind "item" }})?;
         }
         {{end -}}
     {{end -}}
@@ -50,23 +46,13 @@ impl Encode for {{ CamelCase .FullName }} {
             {{ if and (eq $keyEncoder "") (eq $field.MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
             k.encode(b)?;
             {{else -}}
-                {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(k as u32)?;
-                {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
-                b{{$keyEncoder}}(&k)?;
-                {{else -}}
-                    b{{$keyEncoder}}(k)?;
-                {{end -}}
+                b{{$keyEncoder}}({{ GetEncodeArgument $field.MapKey.Kind "k" }})?;
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
             {{ if and (eq $valEncoder "") (eq $field.MapValue.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
             v.encode(b)?;
             {{else -}}
-                {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                b.encode_u32(*v as u32)?;
-                {{else -}}
-                    b{{$valEncoder}}(*v)?;
-                {{end -}}
+                b{{$valEncoder}}({{ GetEncodeArgument $field.MapValue.Kind "v" }})?;
             {{end -}}
             }
         {{else -}}
-- 
2.43.0


From ea9146af80ff877d75ad82c35e1961dd038d2220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 43/49] fix: generated Rust code for fields or enum values
 named like keywords does not compile

---
 generator/rust/generator.go               |  2 +
 generator/rust/keywords.go                | 56 +++++++++++++++++++++++
 generator/rust/structs.go                 |  8 ++--
 generator/rust/templates/decode.templ     | 10 ++--
 generator/rust/templates/encode.templ     | 14 +++---
 generator/rust/templates/enums.templ      |  2 +-
 generator/rust/templates/structs.templ    |  6 +--
 v2/generator/rust/generator.go            |  2 +
 v2/generator/rust/keywords.go             | 56 +++++++++++++++++++++++
 v2/generator/rust/structs.go              |  8 ++--
 v2/generator/rust/templates/decode.templ  | 10 ++--
 v2/generator/rust/templates/encode.templ  | 14 +++---
 v2/generator/rust/templates/enums.templ   |  2 +-
 v2/generator/rust/templates/structs.templ |  6 +--
 14 files changed, 156 insertions(+), 40 deletions(-)
 create mode 100644 generator/rust/keywords.go
 create mode 100644 v2/generator/rust/keywords.go

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 2874053..6f1c52e 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -72,6 +72,8 @@ func New() *Generator {
 		"GetEncodeArgument":  getEncodeArgument,
 		"SnakeCase":          utils.SnakeCase,
 		"SnakeCaseName":      utils.SnakeCaseName,
+		"FieldName":          fieldName,
+		"Identifier":         identifier,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/generator/rust/keywords.go b/generator/rust/keywords.go
new file mode 100644
index 0000000..e893efb
--- /dev/null
+++ b/generator/rust/keywords.go
@@ -0,0 +1,56 @@
+/*
+	Copyright 2023 Loophole Labs
+
+	Licensed under the Apache License, Version 2.0 (the "License");
+	you may not use this file except in compliance with the License.
+	You may obtain a copy of the License at
+
+		   http://www.apache.org/licenses/LICENSE-2.0
+
+	Unless required by applicable law or agreed to in writing, software
+	distributed under the License is distributed on an "AS IS" BASIS,
+	WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+	See the License for the specific language governing permissions and
+	limitations under the License.
+*/
+
+package rust
+
+import (
+	"github.com/loopholelabs/polyglot/utils"
+
+	"google.golang.org/protobuf/reflect/protoreflect"
+)
+
+// keywords of Rust, with whether they can be written as raw identifiers
+var keywords = map[protoreflect.Name]bool{
+	"Self": false, "crate": false, "self": false, "super": false,
+
+	"abstract": true, "as": true, "async": true, "await": true, "become": true,
+	"box": true, "break": true, "const": true, "continue": true, "do": true,
+	"dyn": true, "else": true, "enum": true, "extern": true, "false": true,
+	"final": true, "fn": true, "for": true, "if": true, "impl": true, "in": true,
+	"let": true, "loop": true, "macro": true, "match": true, "mod": true,
+	"move": true, "mut": true, "override": true, "priv": true, "pub": true,
+	"ref": true, "return": true, "static": true, "struct": true, "trait": true,
+	"true": true, "try": true, "type": true, "typeof": true, "unsafe": true,
+	"unsized": true, "use": true, "virtual": true, "where": true, "while": true,
+	"yield": true,
+}
+
+// identifier returns an identifier for the name, which may be a keyword
+func identifier(name protoreflect.Name) string {
+	raw, keyword := keywords[name]
+	switch {
+	case raw:
+		return "r#" + string(name)
+	case keyword:
+		return string(name) + "_"
+	default:
+		return string(name)
+	}
+}
+
+func fieldName(name protoreflect.Name) string {
+	return identifier(protoreflect.Name(utils.SnakeCaseName(name)))
+}
diff --git a/generator/rust/structs.go b/generator/rust/structs.go
index bf2d94d..38fe4d4 100644
--- a/generator/rust/structs.go
+++ b/generator/rust/structs.go
@@ -168,13 +168,13 @@ func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.StringKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.BytesKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 7bf435c..0b88a95 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -41,19 +41,19 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ range $field := $decoding.Other -}}
                 {{ $decoder := GetLUTDecoder $field.Kind -}}
                 {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                {{ SnakeCaseName $field.Name }}: {{ FindValue $field }}::try_from(b.decode_u32()?).ok().ok_or(DecodingError::InvalidEnum)?,
+                {{ FieldName $field.Name }}: {{ FindValue $field }}::try_from(b.decode_u32()?).ok().ok_or(DecodingError::InvalidEnum)?,
                 {{ else -}}
-                    {{ SnakeCaseName $field.Name }}: b{{ $decoder }}()?,
+                    {{ FieldName $field.Name }}: b{{ $decoder }}()?,
                 {{end -}}
             {{end -}}
             {{ range $field := $decoding.SliceFields -}}
-                {{ SnakeCaseName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidArray)?,
+                {{ FieldName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidArray)?,
             {{ end -}}
             {{ range $field := $decoding.MessageFields -}}
                 {{ if $field.Message.IsMapEntry -}}
-                    {{ SnakeCaseName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidMap)?,
+                    {{ FieldName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidMap)?,
                 {{ else -}}
-                    {{ SnakeCaseName $field.Name }}: {{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidStruct)?,
+                    {{ FieldName $field.Name }}: {{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidStruct)?,
                 {{ end -}}
             {{ end -}}
         }))
diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index 092d8e2..f61c33b 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -21,13 +21,13 @@ impl Encode for {{ CamelCase .FullName }} {
         {{ $encoder := GetLUTEncoder $field.Kind -}}
 
         {{ if and (eq $encoder "") (eq $field.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-        b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), Kind::Any)?;
-        for item in &self.{{ SnakeCaseName $field.Name}} {
+        b.encode_array(self.{{ FieldName $field.Name }}.len(), Kind::Any)?;
+        for item in &self.{{ FieldName $field.Name }} {
             item.encode(b)?;
         }
         {{else -}}
-        b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
-        for item in &self.{{ SnakeCaseName $field.Name}} {
+        b.encode_array(self.{{ FieldName $field.Name }}.len(), {{ GetKindLUT $field.Kind }})?;
+        for item in &self.{{ FieldName $field.Name }} {
             b{{$encoder}}({{ GetEncodeArgument $field.Kind "item" }})?;
         }
         {{end -}}
@@ -40,8 +40,8 @@ impl Encode for {{ CamelCase .FullName }} {
         {{ if $field.IsMap -}}
             {{ $keyKind := GetKind $field.MapKey.Kind -}}
             {{ $valKind := GetKind $field.MapValue.Kind -}}
-            b.encode_map(self.{{ SnakeCaseName $field.Name }}.len(), {{ $keyKind }}, {{ $valKind }})?;
-            for (k, v) in &self.{{ SnakeCaseName $field.Name }} {
+            b.encode_map(self.{{ FieldName $field.Name }}.len(), {{ $keyKind }}, {{ $valKind }})?;
+            for (k, v) in &self.{{ FieldName $field.Name }} {
             {{ $keyEncoder := GetLUTEncoder $field.MapKey.Kind -}}
             {{ if and (eq $keyEncoder "") (eq $field.MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
             k.encode(b)?;
@@ -56,7 +56,7 @@ impl Encode for {{ CamelCase .FullName }} {
             {{end -}}
             }
         {{else -}}
-            self.{{ SnakeCaseName $field.Name }}.encode(b)?;
+            self.{{ FieldName $field.Name }}.encode(b)?;
         {{end -}}
     {{end -}}
 {{end}}
\ No newline at end of file
diff --git a/generator/rust/templates/enums.templ b/generator/rust/templates/enums.templ
index 16b08ef..d40b94c 100644
--- a/generator/rust/templates/enums.templ
+++ b/generator/rust/templates/enums.templ
@@ -12,7 +12,7 @@
 pub enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ $i }},
+        {{ Identifier $val.Name }} = {{ $i }},
     {{end -}}
 }
 {{end}}
diff --git a/generator/rust/templates/structs.templ b/generator/rust/templates/structs.templ
index d0e36c0..e03054c 100644
--- a/generator/rust/templates/structs.templ
+++ b/generator/rust/templates/structs.templ
@@ -16,11 +16,11 @@
 
             {{  $privacy := GeneratedFieldPrivacy -}}
             {{ if eq $privacy "private" -}}
-            {{ SnakeCaseName $field.Name }}: {{ $value }},
+            {{ FieldName $field.Name }}: {{ $value }},
             {{ else if eq $privacy "public" -}}
-            pub {{ SnakeCaseName $field.Name }}: {{ $value }},
+            pub {{ FieldName $field.Name }}: {{ $value }},
             {{ else -}}
-            pub(crate) {{ SnakeCaseName $field.Name }}: {{ $value }},
+            pub(crate) {{ FieldName $field.Name }}: {{ $value }},
             {{ end -}}
         {{end -}}
     }
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 4e46ac4..dee91e3 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -72,6 +72,8 @@ func New() *Generator {
 		"GetEncodeArgument":  getEncodeArgument,
 		"SnakeCase":          utils.SnakeCase,
 		"SnakeCaseName":      utils.SnakeCaseName,
+		"FieldName":          fieldName,
+		"Identifier":         identifier,
 		"CustomFields": func() string {
 			return g.CustomFields()
 		},
diff --git a/v2/generator/rust/keywords.go b/v2/generator/rust/keywords.go
new file mode 100644
index 0000000..b9dcef0
--- /dev/null
+++ b/v2/generator/rust/keywords.go
@@ -0,0 +1,56 @@
+/*
+	Copyright 2023 Loophole Labs
+
+	Licensed under the Apache License, Version 2.0 (the "License");
+	you may not use this file except in compliance with the License.
+	You may obtain a copy of the License at
+
+		   http://www.apache.org/licenses/LICENSE-2.0
+
+	Unless required by applicable law or agreed to in writing, software
+	distributed under the License is distributed on an "AS IS" BASIS,
+	WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+	See the License for the specific language governing permissions and
+	limitations under the License.
+*/
+
+package rust
+
+import (
+	"github.com/loopholelabs/polyglot/v2/utils"
+
+	"google.golang.org/protobuf/reflect/protoreflect"
+)
+
+// keywords of Rust, with whether they can be written as raw identifiers
+var keywords = map[protoreflect.Name]bool{
+	"Self": false, "crate": false, "self": false, "super": false,
+
+	"abstract": true, "as": true, "async": true, "await": true, "become": true,
+	"box": true, "break": true, "const": true, "continue": true, "do": true,
+	"dyn": true, "else": true, "enum": true, "extern": true, "false": true,
+	"final": true, "fn": true, "for": true, "if": true, "impl": true, "in": true,
+	"let": true, "loop": true, "macro": true, "match": true, "mod": true,
+	"move": true, "mut": true, "override": true, "priv": true, "pub": true,
+	"ref": true, "return": true, "static": true, "struct": true, "trait": true,
+	"true": true, "try": true, "type": true, "typeof": true, "unsafe": true,
+	"unsized": true, "use": true, "virtual": true, "where": true, "while": true,
+	"yield": true,
+}
+
+// identifier returns an identifier for the name, which may be a keyword
+func identifier(name protoreflect.Name) string {
+	raw, keyword := keywords[name]
+	switch {
+	case raw:
+		return "r#" + string(name)
+	case keyword:
+		return string(name) + "_"
+	default:
+		return string(name)
+	}
+}
+
+func fieldName(name protoreflect.Name) string {
+	return identifier(protoreflect.Name(utils.SnakeCaseName(name)))
+}
diff --git a/v2/generator/rust/structs.go b/v2/generator/rust/structs.go
index 948c0ac..d27bdb4 100644
--- a/v2/generator/rust/structs.go
+++ b/v2/generator/rust/structs.go
@@ -168,13 +168,13 @@ func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s  as u32)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.StringKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else if field.Kind() == protoreflect.BytesKind {
-					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(&self.%s)", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, utils.SnakeCaseName(field.Name())))
+					values = append(values, fmt.Sprintf("%s(self.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 7bf435c..0b88a95 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -41,19 +41,19 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ range $field := $decoding.Other -}}
                 {{ $decoder := GetLUTDecoder $field.Kind -}}
                 {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                {{ SnakeCaseName $field.Name }}: {{ FindValue $field }}::try_from(b.decode_u32()?).ok().ok_or(DecodingError::InvalidEnum)?,
+                {{ FieldName $field.Name }}: {{ FindValue $field }}::try_from(b.decode_u32()?).ok().ok_or(DecodingError::InvalidEnum)?,
                 {{ else -}}
-                    {{ SnakeCaseName $field.Name }}: b{{ $decoder }}()?,
+                    {{ FieldName $field.Name }}: b{{ $decoder }}()?,
                 {{end -}}
             {{end -}}
             {{ range $field := $decoding.SliceFields -}}
-                {{ SnakeCaseName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidArray)?,
+                {{ FieldName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidArray)?,
             {{ end -}}
             {{ range $field := $decoding.MessageFields -}}
                 {{ if $field.Message.IsMapEntry -}}
-                    {{ SnakeCaseName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidMap)?,
+                    {{ FieldName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidMap)?,
                 {{ else -}}
-                    {{ SnakeCaseName $field.Name }}: {{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidStruct)?,
+                    {{ FieldName $field.Name }}: {{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidStruct)?,
                 {{ end -}}
             {{ end -}}
         }))
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index 092d8e2..f61c33b 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -21,13 +21,13 @@ impl Encode for {{ CamelCase .FullName }} {
         {{ $encoder := GetLUTEncoder $field.Kind -}}
 
         {{ if and (eq $encoder "") (eq $field.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-        b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), Kind::Any)?;
-        for item in &self.{{ SnakeCaseName $field.Name}} {
+        b.encode_array(self.{{ FieldName $field.Name }}.len(), Kind::Any)?;
+        for item in &self.{{ FieldName $field.Name }} {
             item.encode(b)?;
         }
         {{else -}}
-        b.encode_array(self.{{ SnakeCaseName $field.Name}}.len(), {{ GetKindLUT $field.Kind }})?;
-        for item in &self.{{ SnakeCaseName $field.Name}} {
+        b.encode_array(self.{{ FieldName $field.Name }}.len(), {{ GetKindLUT $field.Kind }})?;
+        for item in &self.{{ FieldName $field.Name }} {
             b{{$encoder}}({{ GetEncodeArgument $field.Kind "item" }})?;
         }
         {{end -}}
@@ -40,8 +40,8 @@ impl Encode for {{ CamelCase .FullName }} {
         {{ if $field.IsMap -}}
             {{ $keyKind := GetKind $field.MapKey.Kind -}}
             {{ $valKind := GetKind $field.MapValue.Kind -}}
-            b.encode_map(self.{{ SnakeCaseName $field.Name }}.len(), {{ $keyKind }}, {{ $valKind }})?;
-            for (k, v) in &self.{{ SnakeCaseName $field.Name }} {
+            b.encode_map(self.{{ FieldName $field.Name }}.len(), {{ $keyKind }}, {{ $valKind }})?;
+            for (k, v) in &self.{{ FieldName $field.Name }} {
             {{ $keyEncoder := GetLUTEncoder $field.MapKey.Kind -}}
             {{ if and (eq $keyEncoder "") (eq $field.MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
             k.encode(b)?;
@@ -56,7 +56,7 @@ impl Encode for {{ CamelCase .FullName }} {
             {{end -}}
             }
         {{else -}}
-            self.{{ SnakeCaseName $field.Name }}.encode(b)?;
+            self.{{ FieldName $field.Name }}.encode(b)?;
         {{end -}}
     {{end -}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/rust/templates/enums.templ b/v2/generator/rust/templates/enums.templ
index 16b08ef..d40b94c 100644
--- a/v2/generator/rust/templates/enums.templ
+++ b/v2/generator/rust/templates/enums.templ
@@ -12,7 +12,7 @@
 pub enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
-        {{$val.Name}} = {{ $i }},
+        {{ Identifier $val.Name }} = {{ $i }},
     {{end -}}
 }
 {{end}}
diff --git a/v2/generator/rust/templates/structs.templ b/v2/generator/rust/templates/structs.templ
index d0e36c0..e03054c 100644
--- a/v2/generator/rust/templates/structs.templ
+++ b/v2/generator/rust/templates/structs.templ
@@ -16,11 +16,11 @@
 
             {{  $privacy := GeneratedFieldPrivacy -}}
             {{ if eq $privacy "private" -}}
-            {{ SnakeCaseName $field.Name }}: {{ $value }},
+            {{ FieldName $field.Name }}: {{ $value }},
             {{ else if eq $privacy "public" -}}
-            pub {{ SnakeCaseName $field.Name }}: {{ $value }},
+            pub {{ FieldName $field.Name }}: {{ $value }},
             {{ else -}}
-            pub(crate) {{ SnakeCaseName $field.Name }}: {{ $value }},
+            pub(crate) {{ FieldName $field.Name }}: {{ $value }},
             {{ end -}}
         {{end -}}
     }
-- 
2.43.0


From 4e43fd6e81d84caa7521dcb0064554cb4bc720c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 44/49] fix: generated Rust code for messages that contain
 themselves does not compile

---
 generator/rust/generator.go              |  1 +
 generator/rust/structs.go                | 28 ++++++++++++++++++++++++
 generator/rust/templates/decode.templ    |  2 ++
 generator/rust/templates/encode.templ    |  5 +++++
 v2/generator/rust/generator.go           |  1 +
 v2/generator/rust/structs.go             | 28 ++++++++++++++++++++++++
 v2/generator/rust/templates/decode.templ |  2 ++
 v2/generator/rust/templates/encode.templ |  5 +++++
 8 files changed, 72 insertions(+)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 6f1c52e..2e85eaf 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -69,6 +69,7 @@ func New() *Generator {
 		"GetEncodingFields":  getEncodingFields,
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
+		"IsCyclic":           isCyclic,
 		"GetEncodeArgument":  getEncodeArgument,
 		"SnakeCase":          utils.SnakeCase,
 		"SnakeCaseName":      utils.SnakeCaseName,
diff --git a/generator/rust/structs.go b/generator/rust/structs.go
index 38fe4d4..8c8d619 100644
--- a/generator/rust/structs.go
+++ b/generator/rust/structs.go
@@ -125,6 +125,9 @@ func findValue(field protoreflect.FieldDescriptor) string {
 			} else {
 				switch field.Cardinality() {
 				case protoreflect.Optional, protoreflect.Required:
+					if isCyclic(field) {
+						return fmt.Sprintf("Option<Box<%s>>", utils.CamelCase(string(field.Message().FullName())))
+					}
 					return utils.CamelCase(string(field.Message().FullName()))
 				case protoreflect.Repeated:
 					return fmt.Sprintf("Vec<%s>", utils.CamelCase(string(field.Message().FullName())))
@@ -260,3 +263,28 @@ func getEncodeArgument(kind protoreflect.Kind, reference string) string {
 		return fmt.Sprintf("*%s", reference)
 	}
 }
+
+// isCyclic reports whether the message type of the field contains, through
+// singular message fields, the message the field belongs to
+func isCyclic(field protoreflect.FieldDescriptor) bool {
+	return contains(field.Message(), field.ContainingMessage(), map[protoreflect.FullName]struct{}{})
+}
+
+func contains(message protoreflect.MessageDescriptor, target protoreflect.MessageDescriptor, visited map[protoreflect.FullName]struct{}) bool {
+	if message.FullName() == target.FullName() {
+		return true
+	}
+	if _, ok := visited[message.FullName()]; ok {
+		return false
+	}
+	visited[message.FullName()] = struct{}{}
+	for i := 0; i < message.Fields().Len(); i++ {
+		field := message.Fields().Get(i)
+		if field.Kind() == protoreflect.MessageKind && field.Cardinality() != protoreflect.Repeated {
+			if contains(field.Message(), target, visited) {
+				return true
+			}
+		}
+	}
+	return false
+}
diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 0b88a95..7b4ecf9 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -52,6 +52,8 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ range $field := $decoding.MessageFields -}}
                 {{ if $field.Message.IsMapEntry -}}
                     {{ FieldName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidMap)?,
+                {{ else if IsCyclic $field -}}
+                    {{ FieldName $field.Name }}: {{ CamelCase $field.Message.FullName }}::decode(b)?.map(Box::new),
                 {{ else -}}
                     {{ FieldName $field.Name }}: {{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidStruct)?,
                 {{ end -}}
diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index f61c33b..20cbb64 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -55,6 +55,11 @@ impl Encode for {{ CamelCase .FullName }} {
                 b{{$valEncoder}}({{ GetEncodeArgument $field.MapValue.Kind "v" }})?;
             {{end -}}
             }
+        {{else if IsCyclic $field -}}
+            match &self.{{ FieldName $field.Name }} {
+                Some(value) => value.encode(b)?,
+                None => b.encode_none()?,
+            };
         {{else -}}
             self.{{ FieldName $field.Name }}.encode(b)?;
         {{end -}}
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index dee91e3..8e6807a 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -69,6 +69,7 @@ func New() *Generator {
 		"GetEncodingFields":  getEncodingFields,
 		"GetDecodingFields":  getDecodingFields,
 		"GetKindLUT":         getKindLUT,
+		"IsCyclic":           isCyclic,
 		"GetEncodeArgument":  getEncodeArgument,
 		"SnakeCase":          utils.SnakeCase,
 		"SnakeCaseName":      utils.SnakeCaseName,
diff --git a/v2/generator/rust/structs.go b/v2/generator/rust/structs.go
index d27bdb4..c07a101 100644
--- a/v2/generator/rust/structs.go
+++ b/v2/generator/rust/structs.go
@@ -125,6 +125,9 @@ func findValue(field protoreflect.FieldDescriptor) string {
 			} else {
 				switch field.Cardinality() {
 				case protoreflect.Optional, protoreflect.Required:
+					if isCyclic(field) {
+						return fmt.Sprintf("Option<Box<%s>>", utils.CamelCase(string(field.Message().FullName())))
+					}
 					return utils.CamelCase(string(field.Message().FullName()))
 				case protoreflect.Repeated:
 					return fmt.Sprintf("Vec<%s>", utils.CamelCase(string(field.Message().FullName())))
@@ -260,3 +263,28 @@ func getEncodeArgument(kind protoreflect.Kind, reference string) string {
 		return fmt.Sprintf("*%s", reference)
 	}
 }
+
+// isCyclic reports whether the message type of the field contains, through
+// singular message fields, the message the field belongs to
+func isCyclic(field protoreflect.FieldDescriptor) bool {
+	return contains(field.Message(), field.ContainingMessage(), map[protoreflect.FullName]struct{}{})
+}
+
+func contains(message protoreflect.MessageDescriptor, target protoreflect.MessageDescriptor, visited map[protoreflect.FullName]struct{}) bool {
+	if message.FullName() == target.FullName() {
+		return true
+	}
+	if _, ok := visited[message.FullName()]; ok {
+		return false
+	}
+	visited[message.FullName()] = struct{}{}
+	for i := 0; i < message.Fields().Len(); i++ {
+		field := message.Fields().Get(i)
+		if field.Kind() == protoreflect.MessageKind && field.Cardinality() != protoreflect.Repeated {
+			if contains(field.Message(), target, visited) {
+				return true
+			}
+		}
+	}
+	return false
+}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 0b88a95..7b4ecf9 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -52,6 +52,8 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ range $field := $decoding.MessageFields -}}
                 {{ if $field.Message.IsMapEntry -}}
                     {{ FieldName $field.Name }}: {{ SnakeCaseName $field.Name }}_decode(b)?.ok_or(DecodingError::InvalidMap)?,
+                {{ else if IsCyclic $field -}}
+                    {{ FieldName $field.Name }}: {{ CamelCase $field.Message.FullName }}::decode(b)?.map(Box::new),
                 {{ else -}}
                     {{ FieldName $field.Name }}: {{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidStruct)?,
                 {{ end -}}
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index f61c33b..20cbb64 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -55,6 +55,11 @@ impl Encode for {{ CamelCase .FullName }} {
                 b{{$valEncoder}}({{ GetEncodeArgument $field.MapValue.Kind "v" }})?;
             {{end -}}
             }
+        {{else if IsCyclic $field -}}
+            match &self.{{ FieldName $field.Name }} {
+                Some(value) => value.encode(b)?,
+                None => b.encode_none()?,
+            };
         {{else -}}
             self.{{ FieldName $field.Name }}.encode(b)?;
         {{end -}}
-- 
2.43.0


From 7524de42c4667a9f928960fc5b4d4d063155657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 45/49] fix: names such as _1 became identifiers that start
 with a digit

---
 utils/utils.go    | 5 ++++-
 v2/utils/utils.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index edadb04..3044177 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -39,8 +39,11 @@ func CamelCase(s string) string {
 	}
 	t := make([]byte, 0, 32)
 	i := 0
-	if s[0] == '_' { // Keep the initial _ if it exists
+	if s[0] == '_' {
 		i++
+		if i == len(s) || '0' <= s[i] && s[i] <= '9' { // An identifier starts with a letter.
+			t = append(t, 'X')
+		}
 	}
 	// Invariant: if the next letter is lower case, it must be converted
 	// to upper case.
diff --git a/v2/utils/utils.go b/v2/utils/utils.go
index edadb04..3044177 100644
--- a/v2/utils/utils.go
+++ b/v2/utils/utils.go
@@ -39,8 +39,11 @@ func CamelCase(s string) string {
 	}
 	t := make([]byte, 0, 32)
 	i := 0
-	if s[0] == '_' { // Keep the initial _ if it exists
+	if s[0] == '_' {
 		i++
+		if i == len(s) || '0' <= s[i] && s[i] <= '9' { // An identifier starts with a letter.
+			t = append(t, 'X')
+		}
 	}
 	// Invariant: if the next letter is lower case, it must be converted
 	// to upper case.
-- 
2.43.0


From 5029aec971a2be0804d31656766776d8912450d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:40 +0000
Subject: [PATCH 46/49] fix: generated Go code for fields named encode, decode
 or error does not compile

---
 generator/golang/generator.go    |  2 +-
 generator/golang/structs.go      | 15 +++++++++++++--
 v2/generator/golang/generator.go |  2 +-
 v2/generator/golang/structs.go   | 15 +++++++++++++--
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index cebe6a0..b4064f1 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      fieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index d7bc5cb..6f6c8b5 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -167,9 +167,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
@@ -267,3 +267,14 @@ func contains(message protoreflect.MessageDescriptor, target protoreflect.Messag
 	}
 	return false
 }
+
+// fieldName is the name of a field of a generated struct, which must not be
+// the name of one of the struct's methods
+func fieldName(name protoreflect.Name) string {
+	switch n := utils.CamelCaseName(name); n {
+	case "Decode", "Encode", "Error":
+		return n + "_"
+	default:
+		return n
+	}
+}
diff --git a/v2/generator/golang/generator.go b/v2/generator/golang/generator.go
index a4fa303..b992566 100644
--- a/v2/generator/golang/generator.go
+++ b/v2/generator/golang/generator.go
@@ -40,7 +40,7 @@ func New() *Generator {
 	var g *Generator
 	templ := template.Must(template.New("main").Funcs(template.FuncMap{
 		"CamelCase":          utils.CamelCaseFullName,
-		"CamelCaseName":      utils.CamelCaseName,
+		"CamelCaseName":      fieldName,
 		"MakeIterable":       utils.MakeIterable,
 		"Counter":            utils.Counter,
 		"FirstLowerCase":     utils.FirstLowerCase,
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index 29f998d..4a5dd35 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -167,9 +167,9 @@ func GetEncodingFields(fields protoreflect.FieldDescriptors) EncodingFields {
 				}
 			} else {
 				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(uint32(x.%s))", encoder, fieldName(field.Name())))
 				} else {
-					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, utils.CamelCase(string(field.Name()))))
+					values = append(values, fmt.Sprintf("%s(x.%s)", encoder, fieldName(field.Name())))
 				}
 			}
 		}
@@ -242,3 +242,14 @@ func GetLUTDecoder(kind protoreflect.Kind) string {
 func GetKindLUT(kind protoreflect.Kind) string {
 	return kindLUT[kind]
 }
+
+// fieldName is the name of a field of a generated struct, which must not be
+// the name of one of the struct's methods
+func fieldName(name protoreflect.Name) string {
+	switch n := utils.CamelCaseName(name); n {
+	case "Decode", "Encode", "Error":
+		return n + "_"
+	default:
+		return n
+	}
+}
-- 
2.43.0


From f119e6ab4028a249c15911b6e86d2c448a48953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:40 +0000
Subject: [PATCH 47/49] fix: generated Rust code for a field named _ does not
 compile

---
 generator/rust/keywords.go    | 2 +-
 v2/generator/rust/keywords.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/rust/keywords.go b/generator/rust/keywords.go
index e893efb..68806ff 100644
--- a/generator/rust/keywords.go
+++ b/generator/rust/keywords.go
@@ -24,7 +24,7 @@ import (
 
 // keywords of Rust, with whether they can be written as raw identifiers
 var keywords = map[protoreflect.Name]bool{
-	"Self": false, "crate": false, "self": false, "super": false,
+	"Self": false, "_": false, "crate": false, "self": false, "super": false,
 
 	"abstract": true, "as": true, "async": true, "await": true, "become": true,
 	"box": true, "break": true, "const": true, "continue": true, "do": true,
diff --git a/v2/generator/rust/keywords.go b/v2/generator/rust/keywords.go
index b9dcef0..7d23ec5 100644
--- a/v2/generator/rust/keywords.go
+++ b/v2/generator/rust/keywords.go
@@ -24,7 +24,7 @@ import (
 
 // keywords of Rust, with whether they can be written as raw identifiers
 var keywords = map[protoreflect.Name]bool{
-	"Self": false, "crate": false, "self": false, "super": false,
+	"Self": false, "_": false, "crate": false, "self": false, "super": false,
 
 	"abstract": true, "as": true, "async": true, "await": true, "become": true,
 	"box": true, "break": true, "const": true, "continue": true, "do": true,
-- 
2.43.0


From a7ddf17ffcfc8a6a9d7f93606a9f870d003cfedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:39 +0000
Subject: [PATCH 48/49] fix: generated decoders reserve memory for announced
 elements that the input may not hold

---
 generator/golang/templates/decode.templ    | 7 +++++--
 generator/rust/templates/decode.templ      | 2 +-
 v2/generator/golang/templates/decode.templ | 7 +++++--
 v2/generator/rust/templates/decode.templ   | 2 +-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index c5677db..6d75ea5 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -48,9 +48,12 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, min(sliceSize, 64))
     }
     for i := uint32(0); i < sliceSize; i++ {
+    if i == uint32(len(x.{{ CamelCaseName $field.Name }})) {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, make({{ FindValue $field }}, min(sliceSize-i, 64))...)
+    }
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
@@ -82,7 +85,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(min({{ CamelCaseName $field.Name }}Size, 64))
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 7b4ecf9..64217a9 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size.min(64));
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 5fc17d8..41945fe 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -46,9 +46,12 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, min(sliceSize, 64))
     }
     for i := uint32(0); i < sliceSize; i++ {
+    if i == uint32(len(x.{{ CamelCaseName $field.Name }})) {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, make({{ FindValue $field }}, min(sliceSize-i, 64))...)
+    }
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
@@ -80,7 +83,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(min({{ CamelCaseName $field.Name }}Size, 64))
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 7b4ecf9..64217a9 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size.min(64));
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
-- 
2.43.0


From 9733469e9befc290b24220ab0f98444c50c7f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:47 +0000
Subject: [PATCH 49/49] fix: generated TypeScript does not compile against the
 TypeScript runtime, and decodes in another order than it encodes

---
 generator/typescript/generator.go             |  21 +--
 generator/typescript/structs.go               | 155 +++++++++---------
 generator/typescript/templates/decode.templ   |  73 +++------
 .../typescript/templates/decodeMap.templ      |  39 +----
 generator/typescript/templates/encode.templ   |  50 ++----
 generator/typescript/templates/enums.templ    |   2 +-
 generator/typescript/templates/imports.templ  |   2 +-
 generator/typescript/templates/structs.templ  |  17 +-
 v2/generator/typescript/generator.go          |  21 +--
 v2/generator/typescript/structs.go            | 155 +++++++++---------
 .../typescript/templates/decode.templ         |  73 +++------
 .../typescript/templates/decodeMap.templ      |  39 +----
 .../typescript/templates/encode.templ         |  50 ++----
 v2/generator/typescript/templates/enums.templ |   2 +-
 .../typescript/templates/imports.templ        |   2 +-
 .../typescript/templates/structs.templ        |  17 +-
 16 files changed, 278 insertions(+), 440 deletions(-)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index 58c0e7d..974e40b 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -55,21 +55,12 @@ func New() *Generator {
 		"GetKind": func(kind protoreflect.Kind) string {
 			return getKind(g.dependencies, kind)
 		},
-		"GetLUTEncoder": func(kind protoreflect.Kind) string {
-			return getLUTEncoder(g.trackDependency, kind)
-		},
-		"GetLUTDecoder": func(kind protoreflect.Kind) string {
-			return getLUTDecoder(g.trackDependency, kind)
-		},
-		"GetEncodingFields": func(fields protoreflect.FieldDescriptors) encodingFields {
-			return getEncodingFields(g.trackDependency, fields)
-		},
-		"GetDecodingFields": func(fields protoreflect.FieldDescriptors) decodingFields {
-			return getDecodingFields(g.trackDependency, fields)
-		},
-		"GetKindLUT": func(kind protoreflect.Kind) string {
-			return getKindLUT(g.trackDependency, kind)
-		},
+		"GetLUTEncoder":          getLUTEncoder,
+		"GetLUTDecoder":          getLUTDecoder,
+		"GetEncodingFields":      getEncodingFields,
+		"GetDecodingFields":      getDecodingFields,
+		"FindFieldValue":         findFieldValue,
+		"AccessorName":           accessorName,
 		"LowercaseCamelCase":     utils.LowercaseCamelCase,
 		"LowercaseCamelCaseName": utils.LowercaseCamelCaseName,
 		"CustomFields": func() string {
diff --git a/generator/typescript/structs.go b/generator/typescript/structs.go
index db99571..c2a34ab 100644
--- a/generator/typescript/structs.go
+++ b/generator/typescript/structs.go
@@ -36,13 +36,13 @@ var (
 		protoreflect.Int32Kind:    "number",
 		protoreflect.Sint32Kind:   "number",
 		protoreflect.Uint32Kind:   "number",
-		protoreflect.Int64Kind:    "number",
-		protoreflect.Sint64Kind:   "number",
-		protoreflect.Uint64Kind:   "number",
+		protoreflect.Int64Kind:    "bigint",
+		protoreflect.Sint64Kind:   "bigint",
+		protoreflect.Uint64Kind:   "bigint",
 		protoreflect.Sfixed32Kind: "number",
-		protoreflect.Sfixed64Kind: "number",
+		protoreflect.Sfixed64Kind: "bigint",
 		protoreflect.Fixed32Kind:  "number",
-		protoreflect.Fixed64Kind:  "number",
+		protoreflect.Fixed64Kind:  "bigint",
 		protoreflect.FloatKind:    "number",
 		protoreflect.DoubleKind:   "number",
 		protoreflect.StringKind:   "string",
@@ -50,60 +50,60 @@ var (
 	}
 
 	encodeLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "encodeBoolean",
-		protoreflect.Int32Kind:    "encodeInt32",
-		protoreflect.Sint32Kind:   "encodeInt32",
-		protoreflect.Uint32Kind:   "encodeUint32",
-		protoreflect.Int64Kind:    "encodeInt64",
-		protoreflect.Sint64Kind:   "encodeInt64",
-		protoreflect.Uint64Kind:   "encodeUint64",
-		protoreflect.Sfixed32Kind: "encodeInt32",
-		protoreflect.Sfixed64Kind: "encodeInt64",
-		protoreflect.Fixed32Kind:  "encodeUint32",
-		protoreflect.Fixed64Kind:  "encodeUint64",
-		protoreflect.StringKind:   "encodeString",
-		protoreflect.FloatKind:    "encodeFloat32",
-		protoreflect.DoubleKind:   "encodeFloat64",
-		protoreflect.BytesKind:    "encodeBytes",
-		protoreflect.EnumKind:     "encodeUint32",
+		protoreflect.BoolKind:     "boolean",
+		protoreflect.Int32Kind:    "int32",
+		protoreflect.Sint32Kind:   "int32",
+		protoreflect.Uint32Kind:   "uint32",
+		protoreflect.Int64Kind:    "int64",
+		protoreflect.Sint64Kind:   "int64",
+		protoreflect.Uint64Kind:   "uint64",
+		protoreflect.Sfixed32Kind: "int32",
+		protoreflect.Sfixed64Kind: "int64",
+		protoreflect.Fixed32Kind:  "uint32",
+		protoreflect.Fixed64Kind:  "uint64",
+		protoreflect.StringKind:   "string",
+		protoreflect.FloatKind:    "float32",
+		protoreflect.DoubleKind:   "float64",
+		protoreflect.BytesKind:    "uint8Array",
+		protoreflect.EnumKind:     "uint32",
 	}
 
 	decodeLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "decodeBoolean",
-		protoreflect.Int32Kind:    "decodeInt32",
-		protoreflect.Sint32Kind:   "decodeInt32",
-		protoreflect.Uint32Kind:   "decodeUint32",
-		protoreflect.Int64Kind:    "decodeInt64",
-		protoreflect.Sint64Kind:   "decodeInt64",
-		protoreflect.Uint64Kind:   "decodeUint64",
-		protoreflect.Sfixed32Kind: "decodeInt32",
-		protoreflect.Sfixed64Kind: "decodeInt64",
-		protoreflect.Fixed32Kind:  "decodeUint32",
-		protoreflect.Fixed64Kind:  "decodeUint64",
-		protoreflect.StringKind:   "decodeString",
-		protoreflect.FloatKind:    "decodeFloat32",
-		protoreflect.DoubleKind:   "decodeFloat64",
-		protoreflect.BytesKind:    "decodeBytes",
-		protoreflect.EnumKind:     "decodeUint32",
+		protoreflect.BoolKind:     "boolean",
+		protoreflect.Int32Kind:    "int32",
+		protoreflect.Sint32Kind:   "int32",
+		protoreflect.Uint32Kind:   "uint32",
+		protoreflect.Int64Kind:    "int64",
+		protoreflect.Sint64Kind:   "int64",
+		protoreflect.Uint64Kind:   "uint64",
+		protoreflect.Sfixed32Kind: "int32",
+		protoreflect.Sfixed64Kind: "int64",
+		protoreflect.Fixed32Kind:  "uint32",
+		protoreflect.Fixed64Kind:  "uint64",
+		protoreflect.StringKind:   "string",
+		protoreflect.FloatKind:    "float32",
+		protoreflect.DoubleKind:   "float64",
+		protoreflect.BytesKind:    "uint8Array",
+		protoreflect.EnumKind:     "uint32",
 	}
 
 	kindLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "Kind.Bool",
+		protoreflect.BoolKind:     "Kind.Boolean",
 		protoreflect.Int32Kind:    "Kind.Int32",
 		protoreflect.Sint32Kind:   "Kind.Int32",
-		protoreflect.Uint32Kind:   "Kind.U32",
-		protoreflect.Int64Kind:    "Kind.I64",
-		protoreflect.Sint64Kind:   "Kind.I64",
-		protoreflect.Uint64Kind:   "Kind.U64",
+		protoreflect.Uint32Kind:   "Kind.Uint32",
+		protoreflect.Int64Kind:    "Kind.Int64",
+		protoreflect.Sint64Kind:   "Kind.Int64",
+		protoreflect.Uint64Kind:   "Kind.Uint64",
 		protoreflect.Sfixed32Kind: "Kind.Int32",
-		protoreflect.Sfixed64Kind: "Kind.I64",
-		protoreflect.Fixed32Kind:  "Kind.U32",
-		protoreflect.Fixed64Kind:  "Kind.U64",
+		protoreflect.Sfixed64Kind: "Kind.Int64",
+		protoreflect.Fixed32Kind:  "Kind.Uint32",
+		protoreflect.Fixed64Kind:  "Kind.Uint64",
 		protoreflect.StringKind:   "Kind.String",
-		protoreflect.FloatKind:    "Kind.F32",
-		protoreflect.DoubleKind:   "Kind.F64",
-		protoreflect.BytesKind:    "Kind.Bytes",
-		protoreflect.EnumKind:     "Kind.U32",
+		protoreflect.FloatKind:    "Kind.Float32",
+		protoreflect.DoubleKind:   "Kind.Float64",
+		protoreflect.BytesKind:    "Kind.Uint8Array",
+		protoreflect.EnumKind:     "Kind.Uint32",
 	}
 )
 
@@ -143,13 +143,32 @@ func findValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// findFieldValue is the type of a field: messages may be absent.
+func findFieldValue(field protoreflect.FieldDescriptor) string {
+	if field.Kind() == protoreflect.MessageKind && field.Cardinality() != protoreflect.Repeated {
+		return findValue(field) + " | null"
+	}
+	return findValue(field)
+}
+
+// accessorName is the name of the accessors of a field, none of the names that
+// classes already use.
+func accessorName(name protoreflect.Name) string {
+	accessor := utils.LowercaseCamelCaseName(name)
+	switch accessor {
+	case "constructor", "encode":
+		accessor += "_"
+	}
+	return accessor
+}
+
 type encodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
 	Values        []string
 }
 
-func getEncodingFields(trackDependency func(dep string) string, fields protoreflect.FieldDescriptors) encodingFields {
+func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 	var messageFields []protoreflect.FieldDescriptor
 	var sliceFields []protoreflect.FieldDescriptor
 	var values []string
@@ -159,7 +178,7 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 		if field.Cardinality() == protoreflect.Repeated && !field.IsMap() {
 			sliceFields = append(sliceFields, field)
 		} else {
-			if encoder := getLUTEncoder(trackDependency, field.Kind()); encoder == "" {
+			if encoder := getLUTEncoder(field.Kind()); encoder == "" {
 				switch field.Kind() {
 				case protoreflect.MessageKind:
 					messageFields = append(messageFields, field)
@@ -167,11 +186,7 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 					panic(errUnknownKind)
 				}
 			} else {
-				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
-				} else {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
-				}
+				values = append(values, fmt.Sprintf("%s(this.#%s)", encoder, accessorName(field.Name())))
 			}
 		}
 	}
@@ -188,7 +203,7 @@ type decodingFields struct {
 	Other         []protoreflect.FieldDescriptor
 }
 
-func getDecodingFields(trackDependency func(dep string) string, fields protoreflect.FieldDescriptors) decodingFields {
+func getDecodingFields(fields protoreflect.FieldDescriptors) decodingFields {
 	var messageFields []protoreflect.FieldDescriptor
 	var sliceFields []protoreflect.FieldDescriptor
 	var other []protoreflect.FieldDescriptor
@@ -198,7 +213,7 @@ func getDecodingFields(trackDependency func(dep string) string, fields protorefl
 		if field.Cardinality() == protoreflect.Repeated && !field.IsMap() {
 			sliceFields = append(sliceFields, field)
 		} else {
-			if encoder := getLUTDecoder(trackDependency, field.Kind()); encoder == "" {
+			if encoder := getLUTDecoder(field.Kind()); encoder == "" {
 				switch field.Kind() {
 				case protoreflect.MessageKind:
 					messageFields = append(messageFields, field)
@@ -234,26 +249,10 @@ func getKind(dependencies map[string]struct{}, kind protoreflect.Kind) string {
 	return outKind
 }
 
-func getLUTEncoder(trackDependency func(dep string) string, kind protoreflect.Kind) string {
-	encoder, ok := encodeLUT[kind]
-	if ok {
-		trackDependency(encoder)
-	}
-
-	return encoder
+func getLUTEncoder(kind protoreflect.Kind) string {
+	return encodeLUT[kind]
 }
 
-func getLUTDecoder(trackDependency func(dep string) string, kind protoreflect.Kind) string {
-	decoder, ok := decodeLUT[kind]
-	if ok {
-		trackDependency(decoder)
-	}
-
-	return decoder
-}
-
-func getKindLUT(trackDependency func(dep string) string, kind protoreflect.Kind) string {
-	trackDependency("Kind")
-
-	return kindLUT[kind]
+func getLUTDecoder(kind protoreflect.Kind) string {
+	return decodeLUT[kind]
 }
diff --git a/generator/typescript/templates/decode.templ b/generator/typescript/templates/decode.templ
index 01cee76..78cc738 100644
--- a/generator/typescript/templates/decode.templ
+++ b/generator/typescript/templates/decode.templ
@@ -1,65 +1,40 @@
 {{define "decode"}}
-    static decode(buf: Uint8Array): { buf: Uint8Array, value: {{ CamelCase .FullName }}} {
-        let decoded = buf
-        
+    static decode(decoder: {{ TrackDependency "Decoder" }}): {{ CamelCase .FullName }} {
         {{ $decoding := GetDecodingFields .Fields -}}
-        {{ range $field := $decoding.SliceFields -}}
-            {{ $val := FindValue $field }}
-            {{ $kind := GetKind $field.Kind -}}
-            {{ $decoder := GetLUTDecoder $field.Kind -}}
+        {{ range $field := $decoding.Other -}}
+            const _{{ LowercaseCamelCaseName $field.Name }} = {{ template "decodeValue" $field }}
+        {{end}}
 
-            let {{ LowercaseCamelCaseName $field.Name }} = {{ TrackDependency "decodeArray" }}(decoded)
-            decoded = {{ LowercaseCamelCaseName $field.Name }}.buf
-            const {{ LowercaseCamelCaseName $field.Name }}Temp: { value: {{ $val }} } = { value: [] }
-            for (let i = 0; i < {{ LowercaseCamelCaseName $field.Name }}.size; i++) {
-                {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    let elementEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-                    const element = { value: elementEnum as {{ $val }} }
-                    decoded = element.bufEnum
-                {{ else if eq $field.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-                    let element = {{ TrimSuffix $val "[]" }}.decode(decoded)
-                    decoded = element.buf
-                {{ else -}}
-                    let element = {{ $decoder }}(decoded)
-                    decoded = element.buf
-                {{end -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value.push(element.value)
+        {{ range $field := $decoding.SliceFields -}}
+            const _{{ LowercaseCamelCaseName $field.Name }}: {{ FindFieldValue $field }} = []
+            for (let i = decoder.array({{ GetKind $field.Kind }}); i > 0; i--) {
+                _{{ LowercaseCamelCaseName $field.Name }}.push({{ template "decodeValue" $field }})
             }
         {{ end -}}
 
         {{ range $field := $decoding.MessageFields -}}
-            {{ $val := FindValue $field }}
             {{ if $field.IsMap -}}
                 {{ template "decodeMap" $field -}}
             {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $val }}.decode(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
+                const _{{ LowercaseCamelCaseName $field.Name }} = decoder.null() ? null : {{ template "decodeValue" $field }}
             {{ end -}}
         {{ end -}}
 
-        {{ range $field := $decoding.Other -}}
-            {{ $val := FindValue $field }}
-            {{ $decoder := GetLUTDecoder $field.Kind -}}
-            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32 as {{ $val }} }
-                decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
-            {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
-            {{end -}}
-        {{end}}
-
-        return { buf: decoded, value: new {{ CamelCase .FullName }}(
-            {{ range $field := $decoding.Other -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
+        return new {{ CamelCase .FullName }}(
+            {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
+                {{ $field := $.Fields.Get $i -}}
+                _{{ LowercaseCamelCaseName $field.Name }},
             {{end -}}
-            {{ range $field := $decoding.SliceFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
-            {{ end -}}
-            {{ range $field := $decoding.MessageFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
-            {{ end -}}
-        )}
+        )
     }
 {{end}}
+
+{{define "decodeValue" -}}
+    {{ if eq .Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
+        decoder.uint32() as {{ CamelCase .Enum.FullName }}
+    {{- else if eq .Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
+        {{ CamelCase .Message.FullName }}.decode(decoder)
+    {{- else -}}
+        decoder.{{ GetLUTDecoder .Kind }}()
+    {{- end -}}
+{{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/decodeMap.templ b/generator/typescript/templates/decodeMap.templ
index a370586..f0a09e2 100644
--- a/generator/typescript/templates/decodeMap.templ
+++ b/generator/typescript/templates/decodeMap.templ
@@ -1,37 +1,8 @@
 {{define "decodeMap"}}
-{{ $mapKeyValue := FindValue .MapKey }}
-{{ $mapValueValue := FindValue .MapValue }}
-{{ $keyDecoder := GetLUTDecoder .MapKey.Kind -}}
-{{ $valDecoder := GetLUTDecoder .MapValue.Kind -}}
-
-let {{ LowercaseCamelCaseName .Name }} = {{ TrackDependency "decodeMap" }}(decoded)
-decoded = {{ LowercaseCamelCaseName .Name }}.buf
-const {{ LowercaseCamelCaseName .Name }}Temp: { value: Map<{{ $mapKeyValue }},{{ $mapValueValue }}> } = { value: new Map() }
-for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
-    {{ if eq .MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-        let keyEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const key = { value: keyEnum as {{ $mapKeyValue }} }
-        decoded = keyEnum.buf
-    {{ else if eq .MapKey.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-        let key = {{ TrimSuffix $mapKeyValue "[]" }}.decode(decoded)
-        decoded = key.buf
-    {{ else -}}
-        let key = {{ $keyDecoder }}(decoded)
-        decoded = key.buf
-    {{end}}
-
-    {{ if eq .MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-        let valueEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const value = { value: valueEnum as {{ $mapValueValue }} }
-        decoded = valueEnum.buf
-    {{ else if eq .MapValue.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-        let value = {{ TrimSuffix $mapValueValue "[]" }}.decode(decoded)
-        decoded = value.buf
-    {{ else -}}
-        let value = {{ $valDecoder }}(decoded)
-        decoded = value.buf
-    {{end}}
-
-    {{ LowercaseCamelCaseName .Name }}.value.set(key, value)
+const _{{ LowercaseCamelCaseName .Name }}: {{ FindFieldValue . }} = new Map()
+for (let i = decoder.map({{ GetKind .MapKey.Kind }}, {{ GetKind .MapValue.Kind }}); i > 0; i--) {
+    const key = {{ template "decodeValue" .MapKey }}
+    const value = {{ template "decodeValue" .MapValue }}
+    _{{ LowercaseCamelCaseName .Name }}.set(key, value)
 }
 {{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/encode.templ b/generator/typescript/templates/encode.templ
index 6459655..69e3973 100644
--- a/generator/typescript/templates/encode.templ
+++ b/generator/typescript/templates/encode.templ
@@ -1,11 +1,9 @@
 {{define "encode"}}
-    encode(buf: Uint8Array): Uint8Array {
-        let encoded = buf
-        
+    encode(encoder: {{ TrackDependency "Encoder" }}): void {
         {{ $encoding := GetEncodingFields .Fields -}}
 
         {{ range $val := $encoding.Values}}
-        encoded = {{ $val -}}
+        encoder.{{ $val -}}
         {{end }}
 
         {{ if $encoding.SliceFields -}}
@@ -14,8 +12,6 @@
         {{ if $encoding.MessageFields -}}
             {{template "encodeMessages" $encoding -}}
         {{end}}
-        
-        return encoded
     }
 {{end}}
 
@@ -23,17 +19,14 @@
     {{ range $field := .SliceFields -}}
         {{ $encoder := GetLUTEncoder $field.Kind -}}
 
+        encoder.array(this.#{{ AccessorName $field.Name }}.length, {{ GetKind $field.Kind }})
+        this.#{{ AccessorName $field.Name }}.forEach((field) => {
         {{ if and (eq $encoder "") (eq $field.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-        encoded = {{ TrackDependency "encodeArray" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name}}.length, Kind.Any)
-        this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
-            encoded = field.encode(encoded)
-        })
+            field.encode(encoder)
         {{else -}}
-        encoded = {{ TrackDependency "encodeArray" }}(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
-        this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
-            encoded = {{$encoder}}(encoded, field)
-        })
+            encoder.{{$encoder}}(field)
         {{end -}}
+        })
     {{end -}}
 {{end}}
 
@@ -43,31 +36,22 @@
         {{ if $field.IsMap -}}
             {{ $keyKind := GetKind $field.MapKey.Kind -}}
             {{ $valKind := GetKind $field.MapValue.Kind -}}
-            encoded = {{ TrackDependency "encodeMap" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name }}.size, {{ $keyKind }}, {{ $valKind }})
-            this._{{ LowercaseCamelCaseName $field.Name }}.forEach((v, k) => {
-            {{ $keyEncoder := GetLUTEncoder $field.MapKey.Kind -}}
-            {{ if and (eq $keyEncoder "") (eq $field.MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-            encoded = k.encode(encoded)
-            {{else -}}
-                {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    encoded = {{ TrackDependency "encodeUint32" }}(encoded, k as number)
-                {{else -}}
-                    encoded = {{$keyEncoder}}(encoded, k)
-                {{end -}}
-            {{end -}}
+            encoder.map(this.#{{ AccessorName $field.Name }}.size, {{ $keyKind }}, {{ $valKind }})
+            this.#{{ AccessorName $field.Name }}.forEach((v, k) => {
+                encoder.{{ GetLUTEncoder $field.MapKey.Kind }}(k)
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
             {{ if and (eq $valEncoder "") (eq $field.MapValue.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-            encoded = v.encode(encoded)
+                v.encode(encoder)
             {{else -}}
-                {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    encoded = {{ TrackDependency "encodeUint32" }}(encoded, v as number)
-                {{else -}}
-                    encoded = {{$valEncoder}}(encoded, v)
-                {{end -}}
+                encoder.{{$valEncoder}}(v)
             {{end -}}
             })
         {{else -}}
-            encoded = this._{{ LowercaseCamelCaseName $field.Name }}.encode(encoded);
+            if (this.#{{ AccessorName $field.Name }} === null) {
+                encoder.null()
+            } else {
+                this.#{{ AccessorName $field.Name }}.encode(encoder)
+            }
         {{end -}}
     {{end -}}
 {{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/enums.templ b/generator/typescript/templates/enums.templ
index b9a6b00..52e6ac2 100644
--- a/generator/typescript/templates/enums.templ
+++ b/generator/typescript/templates/enums.templ
@@ -7,7 +7,7 @@
 
 {{define "enum"}}
 {{ $enumName := (CamelCaseFullName $.FullName) -}}
-enum {{ $enumName }} {
+export enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
         {{$val.Name}} = {{ $i }},
diff --git a/generator/typescript/templates/imports.templ b/generator/typescript/templates/imports.templ
index f1a83f6..be4dcf8 100644
--- a/generator/typescript/templates/imports.templ
+++ b/generator/typescript/templates/imports.templ
@@ -1,3 +1,3 @@
 {{define "imports"}}
-import { {{ range $key, $_ := .dependencies -}}{{ $key }},{{ end -}} } from "polyglot"
+import { {{ range $key, $_ := .dependencies -}}{{ $key }},{{ end -}} } from "@loopholelabs/polyglot"
 {{end}}
\ No newline at end of file
diff --git a/generator/typescript/templates/structs.templ b/generator/typescript/templates/structs.templ
index 861d83a..2101901 100644
--- a/generator/typescript/templates/structs.templ
+++ b/generator/typescript/templates/structs.templ
@@ -13,27 +13,26 @@
         constructor(
         {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
-            {{ $value := FindValue $field -}}
-            {{ LowercaseCamelCaseName $field.Name }}: {{ $value }},
+            _{{ LowercaseCamelCaseName $field.Name }}: {{ FindFieldValue $field }},
         {{end -}}
         ) {
             {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
                 {{ $field := $.Fields.Get $i -}}
-                this._{{ LowercaseCamelCaseName $field.Name }} = {{ LowercaseCamelCaseName $field.Name }}
+                this.#{{ AccessorName $field.Name }} = _{{ LowercaseCamelCaseName $field.Name }}
             {{end -}}
         }
 
         {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
-            {{ $value := FindValue $field -}}
-            private _{{ LowercaseCamelCaseName $field.Name }}: {{ $value }}
+            {{ $value := FindFieldValue $field -}}
+            #{{ AccessorName $field.Name }}: {{ $value }}
 
-            get {{ LowercaseCamelCaseName $field.Name }}(): {{ $value }} {
-                return this._{{ LowercaseCamelCaseName $field.Name }}
+            get {{ AccessorName $field.Name }}(): {{ $value }} {
+                return this.#{{ AccessorName $field.Name }}
             }
 
-            set {{ LowercaseCamelCaseName $field.Name }}({{ LowercaseCamelCaseName $field.Name }}: {{ $value }}) {
-                this._{{ LowercaseCamelCaseName $field.Name }} = {{ LowercaseCamelCaseName $field.Name }}
+            set {{ AccessorName $field.Name }}(value: {{ $value }}) {
+                this.#{{ AccessorName $field.Name }} = value
             }
             
         {{end -}}
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 0e177e7..c5187e3 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -55,21 +55,12 @@ func New() *Generator {
 		"GetKind": func(kind protoreflect.Kind) string {
 			return getKind(g.dependencies, kind)
 		},
-		"GetLUTEncoder": func(kind protoreflect.Kind) string {
-			return getLUTEncoder(g.trackDependency, kind)
-		},
-		"GetLUTDecoder": func(kind protoreflect.Kind) string {
-			return getLUTDecoder(g.trackDependency, kind)
-		},
-		"GetEncodingFields": func(fields protoreflect.FieldDescriptors) encodingFields {
-			return getEncodingFields(g.trackDependency, fields)
-		},
-		"GetDecodingFields": func(fields protoreflect.FieldDescriptors) decodingFields {
-			return getDecodingFields(g.trackDependency, fields)
-		},
-		"GetKindLUT": func(kind protoreflect.Kind) string {
-			return getKindLUT(g.trackDependency, kind)
-		},
+		"GetLUTEncoder":          getLUTEncoder,
+		"GetLUTDecoder":          getLUTDecoder,
+		"GetEncodingFields":      getEncodingFields,
+		"GetDecodingFields":      getDecodingFields,
+		"FindFieldValue":         findFieldValue,
+		"AccessorName":           accessorName,
 		"LowercaseCamelCase":     utils.LowercaseCamelCase,
 		"LowercaseCamelCaseName": utils.LowercaseCamelCaseName,
 		"CustomFields": func() string {
diff --git a/v2/generator/typescript/structs.go b/v2/generator/typescript/structs.go
index 6b0eae5..f506bf1 100644
--- a/v2/generator/typescript/structs.go
+++ b/v2/generator/typescript/structs.go
@@ -36,13 +36,13 @@ var (
 		protoreflect.Int32Kind:    "number",
 		protoreflect.Sint32Kind:   "number",
 		protoreflect.Uint32Kind:   "number",
-		protoreflect.Int64Kind:    "number",
-		protoreflect.Sint64Kind:   "number",
-		protoreflect.Uint64Kind:   "number",
+		protoreflect.Int64Kind:    "bigint",
+		protoreflect.Sint64Kind:   "bigint",
+		protoreflect.Uint64Kind:   "bigint",
 		protoreflect.Sfixed32Kind: "number",
-		protoreflect.Sfixed64Kind: "number",
+		protoreflect.Sfixed64Kind: "bigint",
 		protoreflect.Fixed32Kind:  "number",
-		protoreflect.Fixed64Kind:  "number",
+		protoreflect.Fixed64Kind:  "bigint",
 		protoreflect.FloatKind:    "number",
 		protoreflect.DoubleKind:   "number",
 		protoreflect.StringKind:   "string",
@@ -50,60 +50,60 @@ var (
 	}
 
 	encodeLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "encodeBoolean",
-		protoreflect.Int32Kind:    "encodeInt32",
-		protoreflect.Sint32Kind:   "encodeInt32",
-		protoreflect.Uint32Kind:   "encodeUint32",
-		protoreflect.Int64Kind:    "encodeInt64",
-		protoreflect.Sint64Kind:   "encodeInt64",
-		protoreflect.Uint64Kind:   "encodeUint64",
-		protoreflect.Sfixed32Kind: "encodeInt32",
-		protoreflect.Sfixed64Kind: "encodeInt64",
-		protoreflect.Fixed32Kind:  "encodeUint32",
-		protoreflect.Fixed64Kind:  "encodeUint64",
-		protoreflect.StringKind:   "encodeString",
-		protoreflect.FloatKind:    "encodeFloat32",
-		protoreflect.DoubleKind:   "encodeFloat64",
-		protoreflect.BytesKind:    "encodeBytes",
-		protoreflect.EnumKind:     "encodeUint32",
+		protoreflect.BoolKind:     "boolean",
+		protoreflect.Int32Kind:    "int32",
+		protoreflect.Sint32Kind:   "int32",
+		protoreflect.Uint32Kind:   "uint32",
+		protoreflect.Int64Kind:    "int64",
+		protoreflect.Sint64Kind:   "int64",
+		protoreflect.Uint64Kind:   "uint64",
+		protoreflect.Sfixed32Kind: "int32",
+		protoreflect.Sfixed64Kind: "int64",
+		protoreflect.Fixed32Kind:  "uint32",
+		protoreflect.Fixed64Kind:  "uint64",
+		protoreflect.StringKind:   "string",
+		protoreflect.FloatKind:    "float32",
+		protoreflect.DoubleKind:   "float64",
+		protoreflect.BytesKind:    "uint8Array",
+		protoreflect.EnumKind:     "uint32",
 	}
 
 	decodeLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "decodeBoolean",
-		protoreflect.Int32Kind:    "decodeInt32",
-		protoreflect.Sint32Kind:   "decodeInt32",
-		protoreflect.Uint32Kind:   "decodeUint32",
-		protoreflect.Int64Kind:    "decodeInt64",
-		protoreflect.Sint64Kind:   "decodeInt64",
-		protoreflect.Uint64Kind:   "decodeUint64",
-		protoreflect.Sfixed32Kind: "decodeInt32",
-		protoreflect.Sfixed64Kind: "decodeInt64",
-		protoreflect.Fixed32Kind:  "decodeUint32",
-		protoreflect.Fixed64Kind:  "decodeUint64",
-		protoreflect.StringKind:   "decodeString",
-		protoreflect.FloatKind:    "decodeFloat32",
-		protoreflect.DoubleKind:   "decodeFloat64",
-		protoreflect.BytesKind:    "decodeBytes",
-		protoreflect.EnumKind:     "decodeUint32",
+		protoreflect.BoolKind:     "boolean",
+		protoreflect.Int32Kind:    "int32",
+		protoreflect.Sint32Kind:   "int32",
+		protoreflect.Uint32Kind:   "uint32",
+		protoreflect.Int64Kind:    "int64",
+		protoreflect.Sint64Kind:   "int64",
+		protoreflect.Uint64Kind:   "uint64",
+		protoreflect.Sfixed32Kind: "int32",
+		protoreflect.Sfixed64Kind: "int64",
+		protoreflect.Fixed32Kind:  "uint32",
+		protoreflect.Fixed64Kind:  "uint64",
+		protoreflect.StringKind:   "string",
+		protoreflect.FloatKind:    "float32",
+		protoreflect.DoubleKind:   "float64",
+		protoreflect.BytesKind:    "uint8Array",
+		protoreflect.EnumKind:     "uint32",
 	}
 
 	kindLUT = map[protoreflect.Kind]string{
-		protoreflect.BoolKind:     "Kind.Bool",
+		protoreflect.BoolKind:     "Kind.Boolean",
 		protoreflect.Int32Kind:    "Kind.Int32",
 		protoreflect.Sint32Kind:   "Kind.Int32",
-		protoreflect.Uint32Kind:   "Kind.U32",
-		protoreflect.Int64Kind:    "Kind.I64",
-		protoreflect.Sint64Kind:   "Kind.I64",
-		protoreflect.Uint64Kind:   "Kind.U64",
+		protoreflect.Uint32Kind:   "Kind.Uint32",
+		protoreflect.Int64Kind:    "Kind.Int64",
+		protoreflect.Sint64Kind:   "Kind.Int64",
+		protoreflect.Uint64Kind:   "Kind.Uint64",
 		protoreflect.Sfixed32Kind: "Kind.Int32",
-		protoreflect.Sfixed64Kind: "Kind.I64",
-		protoreflect.Fixed32Kind:  "Kind.U32",
-		protoreflect.Fixed64Kind:  "Kind.U64",
+		protoreflect.Sfixed64Kind: "Kind.Int64",
+		protoreflect.Fixed32Kind:  "Kind.Uint32",
+		protoreflect.Fixed64Kind:  "Kind.Uint64",
 		protoreflect.StringKind:   "Kind.String",
-		protoreflect.FloatKind:    "Kind.F32",
-		protoreflect.DoubleKind:   "Kind.F64",
-		protoreflect.BytesKind:    "Kind.Bytes",
-		protoreflect.EnumKind:     "Kind.U32",
+		protoreflect.FloatKind:    "Kind.Float32",
+		protoreflect.DoubleKind:   "Kind.Float64",
+		protoreflect.BytesKind:    "Kind.Uint8Array",
+		protoreflect.EnumKind:     "Kind.Uint32",
 	}
 )
 
@@ -143,13 +143,32 @@ func findValue(field protoreflect.FieldDescriptor) string {
 	}
 }
 
+// findFieldValue is the type of a field: messages may be absent.
+func findFieldValue(field protoreflect.FieldDescriptor) string {
+	if field.Kind() == protoreflect.MessageKind && field.Cardinality() != protoreflect.Repeated {
+		return findValue(field) + " | null"
+	}
+	return findValue(field)
+}
+
+// accessorName is the name of the accessors of a field, none of the names that
+// classes already use.
+func accessorName(name protoreflect.Name) string {
+	accessor := utils.LowercaseCamelCaseName(name)
+	switch accessor {
+	case "constructor", "encode":
+		accessor += "_"
+	}
+	return accessor
+}
+
 type encodingFields struct {
 	MessageFields []protoreflect.FieldDescriptor
 	SliceFields   []protoreflect.FieldDescriptor
 	Values        []string
 }
 
-func getEncodingFields(trackDependency func(dep string) string, fields protoreflect.FieldDescriptors) encodingFields {
+func getEncodingFields(fields protoreflect.FieldDescriptors) encodingFields {
 	var messageFields []protoreflect.FieldDescriptor
 	var sliceFields []protoreflect.FieldDescriptor
 	var values []string
@@ -159,7 +178,7 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 		if field.Cardinality() == protoreflect.Repeated && !field.IsMap() {
 			sliceFields = append(sliceFields, field)
 		} else {
-			if encoder := getLUTEncoder(trackDependency, field.Kind()); encoder == "" {
+			if encoder := getLUTEncoder(field.Kind()); encoder == "" {
 				switch field.Kind() {
 				case protoreflect.MessageKind:
 					messageFields = append(messageFields, field)
@@ -167,11 +186,7 @@ func getEncodingFields(trackDependency func(dep string) string, fields protorefl
 					panic(errUnknownKind)
 				}
 			} else {
-				if field.Kind() == protoreflect.EnumKind {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s as number)", encoder, utils.LowercaseCamelCaseName(field.Name())))
-				} else {
-					values = append(values, fmt.Sprintf("%s(encoded, this.%s)", encoder, utils.LowercaseCamelCaseName(field.Name())))
-				}
+				values = append(values, fmt.Sprintf("%s(this.#%s)", encoder, accessorName(field.Name())))
 			}
 		}
 	}
@@ -188,7 +203,7 @@ type decodingFields struct {
 	Other         []protoreflect.FieldDescriptor
 }
 
-func getDecodingFields(trackDependency func(dep string) string, fields protoreflect.FieldDescriptors) decodingFields {
+func getDecodingFields(fields protoreflect.FieldDescriptors) decodingFields {
 	var messageFields []protoreflect.FieldDescriptor
 	var sliceFields []protoreflect.FieldDescriptor
 	var other []protoreflect.FieldDescriptor
@@ -198,7 +213,7 @@ func getDecodingFields(trackDependency func(dep string) string, fields protorefl
 		if field.Cardinality() == protoreflect.Repeated && !field.IsMap() {
 			sliceFields = append(sliceFields, field)
 		} else {
-			if encoder := getLUTDecoder(trackDependency, field.Kind()); encoder == "" {
+			if encoder := getLUTDecoder(field.Kind()); encoder == "" {
 				switch field.Kind() {
 				case protoreflect.MessageKind:
 					messageFields = append(messageFields, field)
@@ -234,26 +249,10 @@ func getKind(dependencies map[string]struct{}, kind protoreflect.Kind) string {
 	return outKind
 }
 
-func getLUTEncoder(trackDependency func(dep string) string, kind protoreflect.Kind) string {
-	encoder, ok := encodeLUT[kind]
-	if ok {
-		trackDependency(encoder)
-	}
-
-	return encoder
+func getLUTEncoder(kind protoreflect.Kind) string {
+	return encodeLUT[kind]
 }
 
-func getLUTDecoder(trackDependency func(dep string) string, kind protoreflect.Kind) string {
-	decoder, ok := decodeLUT[kind]
-	if ok {
-		trackDependency(decoder)
-	}
-
-	return decoder
-}
-
-func getKindLUT(trackDependency func(dep string) string, kind protoreflect.Kind) string {
-	trackDependency("Kind")
-
-	return kindLUT[kind]
+func getLUTDecoder(kind protoreflect.Kind) string {
+	return decodeLUT[kind]
 }
diff --git a/v2/generator/typescript/templates/decode.templ b/v2/generator/typescript/templates/decode.templ
index 01cee76..78cc738 100644
--- a/v2/generator/typescript/templates/decode.templ
+++ b/v2/generator/typescript/templates/decode.templ
@@ -1,65 +1,40 @@
 {{define "decode"}}
-    static decode(buf: Uint8Array): { buf: Uint8Array, value: {{ CamelCase .FullName }}} {
-        let decoded = buf
-        
+    static decode(decoder: {{ TrackDependency "Decoder" }}): {{ CamelCase .FullName }} {
         {{ $decoding := GetDecodingFields .Fields -}}
-        {{ range $field := $decoding.SliceFields -}}
-            {{ $val := FindValue $field }}
-            {{ $kind := GetKind $field.Kind -}}
-            {{ $decoder := GetLUTDecoder $field.Kind -}}
+        {{ range $field := $decoding.Other -}}
+            const _{{ LowercaseCamelCaseName $field.Name }} = {{ template "decodeValue" $field }}
+        {{end}}
 
-            let {{ LowercaseCamelCaseName $field.Name }} = {{ TrackDependency "decodeArray" }}(decoded)
-            decoded = {{ LowercaseCamelCaseName $field.Name }}.buf
-            const {{ LowercaseCamelCaseName $field.Name }}Temp: { value: {{ $val }} } = { value: [] }
-            for (let i = 0; i < {{ LowercaseCamelCaseName $field.Name }}.size; i++) {
-                {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    let elementEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-                    const element = { value: elementEnum as {{ $val }} }
-                    decoded = element.bufEnum
-                {{ else if eq $field.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-                    let element = {{ TrimSuffix $val "[]" }}.decode(decoded)
-                    decoded = element.buf
-                {{ else -}}
-                    let element = {{ $decoder }}(decoded)
-                    decoded = element.buf
-                {{end -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value.push(element.value)
+        {{ range $field := $decoding.SliceFields -}}
+            const _{{ LowercaseCamelCaseName $field.Name }}: {{ FindFieldValue $field }} = []
+            for (let i = decoder.array({{ GetKind $field.Kind }}); i > 0; i--) {
+                _{{ LowercaseCamelCaseName $field.Name }}.push({{ template "decodeValue" $field }})
             }
         {{ end -}}
 
         {{ range $field := $decoding.MessageFields -}}
-            {{ $val := FindValue $field }}
             {{ if $field.IsMap -}}
                 {{ template "decodeMap" $field -}}
             {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $val }}.decode(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
+                const _{{ LowercaseCamelCaseName $field.Name }} = decoder.null() ? null : {{ template "decodeValue" $field }}
             {{ end -}}
         {{ end -}}
 
-        {{ range $field := $decoding.Other -}}
-            {{ $val := FindValue $field }}
-            {{ $decoder := GetLUTDecoder $field.Kind -}}
-            {{ if eq $field.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                let {{ LowercaseCamelCaseName $field.Name }}U32 = {{ TrackDependency "decodeUint32" }}(decoded)
-                const {{ LowercaseCamelCaseName $field.Name }}Temp = { value: {{ LowercaseCamelCaseName $field.Name }}U32 as {{ $val }} }
-                decoded = {{ LowercaseCamelCaseName $field.Name }}U32.buf
-            {{ else -}}
-                let {{ LowercaseCamelCaseName $field.Name }}Temp = {{ $decoder }}(decoded)
-                decoded = {{ LowercaseCamelCaseName $field.Name }}Temp.buf
-            {{end -}}
-        {{end}}
-
-        return { buf: decoded, value: new {{ CamelCase .FullName }}(
-            {{ range $field := $decoding.Other -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
+        return new {{ CamelCase .FullName }}(
+            {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
+                {{ $field := $.Fields.Get $i -}}
+                _{{ LowercaseCamelCaseName $field.Name }},
             {{end -}}
-            {{ range $field := $decoding.SliceFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
-            {{ end -}}
-            {{ range $field := $decoding.MessageFields -}}
-                {{ LowercaseCamelCaseName $field.Name }}Temp.value,
-            {{ end -}}
-        )}
+        )
     }
 {{end}}
+
+{{define "decodeValue" -}}
+    {{ if eq .Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
+        decoder.uint32() as {{ CamelCase .Enum.FullName }}
+    {{- else if eq .Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
+        {{ CamelCase .Message.FullName }}.decode(decoder)
+    {{- else -}}
+        decoder.{{ GetLUTDecoder .Kind }}()
+    {{- end -}}
+{{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/decodeMap.templ b/v2/generator/typescript/templates/decodeMap.templ
index a370586..f0a09e2 100644
--- a/v2/generator/typescript/templates/decodeMap.templ
+++ b/v2/generator/typescript/templates/decodeMap.templ
@@ -1,37 +1,8 @@
 {{define "decodeMap"}}
-{{ $mapKeyValue := FindValue .MapKey }}
-{{ $mapValueValue := FindValue .MapValue }}
-{{ $keyDecoder := GetLUTDecoder .MapKey.Kind -}}
-{{ $valDecoder := GetLUTDecoder .MapValue.Kind -}}
-
-let {{ LowercaseCamelCaseName .Name }} = {{ TrackDependency "decodeMap" }}(decoded)
-decoded = {{ LowercaseCamelCaseName .Name }}.buf
-const {{ LowercaseCamelCaseName .Name }}Temp: { value: Map<{{ $mapKeyValue }},{{ $mapValueValue }}> } = { value: new Map() }
-for (let i = 0; i < {{ LowercaseCamelCaseName .Name }}.size; i++) {
-    {{ if eq .MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-        let keyEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const key = { value: keyEnum as {{ $mapKeyValue }} }
-        decoded = keyEnum.buf
-    {{ else if eq .MapKey.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-        let key = {{ TrimSuffix $mapKeyValue "[]" }}.decode(decoded)
-        decoded = key.buf
-    {{ else -}}
-        let key = {{ $keyDecoder }}(decoded)
-        decoded = key.buf
-    {{end}}
-
-    {{ if eq .MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-        let valueEnum = {{ TrackDependency "decodeUint32" }}(decoded)
-        const value = { value: valueEnum as {{ $mapValueValue }} }
-        decoded = valueEnum.buf
-    {{ else if eq .MapValue.Kind 11 -}}  {{/* protoreflect.MessageKind */ -}}
-        let value = {{ TrimSuffix $mapValueValue "[]" }}.decode(decoded)
-        decoded = value.buf
-    {{ else -}}
-        let value = {{ $valDecoder }}(decoded)
-        decoded = value.buf
-    {{end}}
-
-    {{ LowercaseCamelCaseName .Name }}.value.set(key, value)
+const _{{ LowercaseCamelCaseName .Name }}: {{ FindFieldValue . }} = new Map()
+for (let i = decoder.map({{ GetKind .MapKey.Kind }}, {{ GetKind .MapValue.Kind }}); i > 0; i--) {
+    const key = {{ template "decodeValue" .MapKey }}
+    const value = {{ template "decodeValue" .MapValue }}
+    _{{ LowercaseCamelCaseName .Name }}.set(key, value)
 }
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/encode.templ b/v2/generator/typescript/templates/encode.templ
index 6459655..69e3973 100644
--- a/v2/generator/typescript/templates/encode.templ
+++ b/v2/generator/typescript/templates/encode.templ
@@ -1,11 +1,9 @@
 {{define "encode"}}
-    encode(buf: Uint8Array): Uint8Array {
-        let encoded = buf
-        
+    encode(encoder: {{ TrackDependency "Encoder" }}): void {
         {{ $encoding := GetEncodingFields .Fields -}}
 
         {{ range $val := $encoding.Values}}
-        encoded = {{ $val -}}
+        encoder.{{ $val -}}
         {{end }}
 
         {{ if $encoding.SliceFields -}}
@@ -14,8 +12,6 @@
         {{ if $encoding.MessageFields -}}
             {{template "encodeMessages" $encoding -}}
         {{end}}
-        
-        return encoded
     }
 {{end}}
 
@@ -23,17 +19,14 @@
     {{ range $field := .SliceFields -}}
         {{ $encoder := GetLUTEncoder $field.Kind -}}
 
+        encoder.array(this.#{{ AccessorName $field.Name }}.length, {{ GetKind $field.Kind }})
+        this.#{{ AccessorName $field.Name }}.forEach((field) => {
         {{ if and (eq $encoder "") (eq $field.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-        encoded = {{ TrackDependency "encodeArray" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name}}.length, Kind.Any)
-        this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
-            encoded = field.encode(encoded)
-        })
+            field.encode(encoder)
         {{else -}}
-        encoded = {{ TrackDependency "encodeArray" }}(this._{{ LowercaseCamelCaseName $field.Name}}.length, {{ GetKindLUT $field.Kind }})
-        this._{{ LowercaseCamelCaseName $field.Name}}.forEach((field) => {
-            encoded = {{$encoder}}(encoded, field)
-        })
+            encoder.{{$encoder}}(field)
         {{end -}}
+        })
     {{end -}}
 {{end}}
 
@@ -43,31 +36,22 @@
         {{ if $field.IsMap -}}
             {{ $keyKind := GetKind $field.MapKey.Kind -}}
             {{ $valKind := GetKind $field.MapValue.Kind -}}
-            encoded = {{ TrackDependency "encodeMap" }}(encoded, this._{{ LowercaseCamelCaseName $field.Name }}.size, {{ $keyKind }}, {{ $valKind }})
-            this._{{ LowercaseCamelCaseName $field.Name }}.forEach((v, k) => {
-            {{ $keyEncoder := GetLUTEncoder $field.MapKey.Kind -}}
-            {{ if and (eq $keyEncoder "") (eq $field.MapKey.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-            encoded = k.encode(encoded)
-            {{else -}}
-                {{ if eq $field.MapKey.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    encoded = {{ TrackDependency "encodeUint32" }}(encoded, k as number)
-                {{else -}}
-                    encoded = {{$keyEncoder}}(encoded, k)
-                {{end -}}
-            {{end -}}
+            encoder.map(this.#{{ AccessorName $field.Name }}.size, {{ $keyKind }}, {{ $valKind }})
+            this.#{{ AccessorName $field.Name }}.forEach((v, k) => {
+                encoder.{{ GetLUTEncoder $field.MapKey.Kind }}(k)
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
             {{ if and (eq $valEncoder "") (eq $field.MapValue.Kind 11) -}} {{/* protoreflect.MessageKind */ -}}
-            encoded = v.encode(encoded)
+                v.encode(encoder)
             {{else -}}
-                {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
-                    encoded = {{ TrackDependency "encodeUint32" }}(encoded, v as number)
-                {{else -}}
-                    encoded = {{$valEncoder}}(encoded, v)
-                {{end -}}
+                encoder.{{$valEncoder}}(v)
             {{end -}}
             })
         {{else -}}
-            encoded = this._{{ LowercaseCamelCaseName $field.Name }}.encode(encoded);
+            if (this.#{{ AccessorName $field.Name }} === null) {
+                encoder.null()
+            } else {
+                this.#{{ AccessorName $field.Name }}.encode(encoder)
+            }
         {{end -}}
     {{end -}}
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/enums.templ b/v2/generator/typescript/templates/enums.templ
index b9a6b00..52e6ac2 100644
--- a/v2/generator/typescript/templates/enums.templ
+++ b/v2/generator/typescript/templates/enums.templ
@@ -7,7 +7,7 @@
 
 {{define "enum"}}
 {{ $enumName := (CamelCaseFullName $.FullName) -}}
-enum {{ $enumName }} {
+export enum {{ $enumName }} {
     {{range $i, $v := (MakeIterable $.Values.Len) -}}
         {{ $val := ($.Values.Get $i) -}}
         {{$val.Name}} = {{ $i }},
diff --git a/v2/generator/typescript/templates/imports.templ b/v2/generator/typescript/templates/imports.templ
index f1a83f6..be4dcf8 100644
--- a/v2/generator/typescript/templates/imports.templ
+++ b/v2/generator/typescript/templates/imports.templ
@@ -1,3 +1,3 @@
 {{define "imports"}}
-import { {{ range $key, $_ := .dependencies -}}{{ $key }},{{ end -}} } from "polyglot"
+import { {{ range $key, $_ := .dependencies -}}{{ $key }},{{ end -}} } from "@loopholelabs/polyglot"
 {{end}}
\ No newline at end of file
diff --git a/v2/generator/typescript/templates/structs.templ b/v2/generator/typescript/templates/structs.templ
index 861d83a..2101901 100644
--- a/v2/generator/typescript/templates/structs.templ
+++ b/v2/generator/typescript/templates/structs.templ
@@ -13,27 +13,26 @@
         constructor(
         {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
-            {{ $value := FindValue $field -}}
-            {{ LowercaseCamelCaseName $field.Name }}: {{ $value }},
+            _{{ LowercaseCamelCaseName $field.Name }}: {{ FindFieldValue $field }},
         {{end -}}
         ) {
             {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
                 {{ $field := $.Fields.Get $i -}}
-                this._{{ LowercaseCamelCaseName $field.Name }} = {{ LowercaseCamelCaseName $field.Name }}
+                this.#{{ AccessorName $field.Name }} = _{{ LowercaseCamelCaseName $field.Name }}
             {{end -}}
         }
 
         {{ range $i, $v := (MakeIterable $.Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
-            {{ $value := FindValue $field -}}
-            private _{{ LowercaseCamelCaseName $field.Name }}: {{ $value }}
+            {{ $value := FindFieldValue $field -}}
+            #{{ AccessorName $field.Name }}: {{ $value }}
 
-            get {{ LowercaseCamelCaseName $field.Name }}(): {{ $value }} {
-                return this._{{ LowercaseCamelCaseName $field.Name }}
+            get {{ AccessorName $field.Name }}(): {{ $value }} {
+                return this.#{{ AccessorName $field.Name }}
             }
 
-            set {{ LowercaseCamelCaseName $field.Name }}({{ LowercaseCamelCaseName $field.Name }}: {{ $value }}) {
-                this._{{ LowercaseCamelCaseName $field.Name }} = {{ LowercaseCamelCaseName $field.Name }}
+            set {{ AccessorName $field.Name }}(value: {{ $value }}) {
+                this.#{{ AccessorName $field.Name }} = value
             }
             
         {{end -}}
-- 
2.43.0

