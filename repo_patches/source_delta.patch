From 96ce776f5a2815fccd4f3bbcc8a8e917072576db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 01/54] fix: reject message lengths that overflow instead of
 panicking

---
 pb/mondis.pb.go | 108 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 108 insertions(+)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index e7efd31..f6b152c 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -1766,6 +1766,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1797,6 +1800,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1828,6 +1834,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1847,6 +1856,9 @@ func (m *SetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1932,6 +1944,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1946,6 +1961,9 @@ func (m *SetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2011,6 +2029,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2028,6 +2049,9 @@ func (m *GetRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2113,6 +2137,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2141,6 +2168,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2172,6 +2202,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2191,6 +2224,9 @@ func (m *GetResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2256,6 +2292,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2273,6 +2312,9 @@ func (m *ExistsRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2358,6 +2400,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2392,6 +2437,9 @@ func (m *ExistsResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2457,6 +2505,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2474,6 +2525,9 @@ func (m *DeleteRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2559,6 +2613,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2573,6 +2630,9 @@ func (m *DeleteResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2662,6 +2722,9 @@ func (m *VMetaReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2751,6 +2814,9 @@ func (m *VMetaResp) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2836,6 +2902,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2850,6 +2919,9 @@ func (m *CommitResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2915,6 +2987,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2953,6 +3028,9 @@ func (m *ScanRequest) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3038,6 +3116,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3069,6 +3150,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3086,6 +3170,9 @@ func (m *ProviderScanOption) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3151,6 +3238,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3182,6 +3272,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3213,6 +3306,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3232,6 +3328,9 @@ func (m *Entry) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3317,6 +3416,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3345,6 +3447,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthMondis
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3362,6 +3467,9 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMondis
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMondis
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
-- 
2.43.0


From 32995e32cc8dab4970e11151175c97ba7ce36673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 02/54] fix: skip unknown groups iteratively so deep nesting
 cannot exhaust the stack

---
 pb/mondis.pb.go | 54 ++++++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/pb/mondis.pb.go b/pb/mondis.pb.go
index f6b152c..77fa508 100644
--- a/pb/mondis.pb.go
+++ b/pb/mondis.pb.go
@@ -3486,6 +3486,7 @@ func (m *ScanResponse) Unmarshal(dAtA []byte) error {
 func skipMondis(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -3517,10 +3518,8 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -3537,55 +3536,36 @@ func skipMondis(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthMondis
 			}
-			return iNdEx, nil
+			iNdEx += length
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowMondis
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipMondis(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			if depth == 0 {
+				return 0, ErrUnexpectedEndOfGroupMondis
+			}
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthMondis
+		}
+		if depth == 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-	ErrInvalidLengthMondis = fmt.Errorf("proto: negative length found during unmarshaling")
-	ErrIntOverflowMondis   = fmt.Errorf("proto: integer overflow")
+	ErrInvalidLengthMondis        = fmt.Errorf("proto: negative length found during unmarshaling")
+	ErrIntOverflowMondis          = fmt.Errorf("proto: integer overflow")
+	ErrUnexpectedEndOfGroupMondis = fmt.Errorf("proto: unexpected end of group")
 )
 
 func init() { proto.RegisterFile("mondis.proto", fileDescriptor_mondis_b556768874fb6b4e) }
-- 
2.43.0


From 1609e25646586ac08c66dbe0d14b8cd9ab340154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 03/54] fix: reject negative lengths in compact.DecodeBytes

---
 kv/compact/bytes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kv/compact/bytes.go b/kv/compact/bytes.go
index 977e048..201b402 100644
--- a/kv/compact/bytes.go
+++ b/kv/compact/bytes.go
@@ -20,6 +20,9 @@ func DecodeBytes(b []byte) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	if n < 0 {
+		return nil, nil, fmt.Errorf("invalid length: %v", n)
+	}
 	if int64(len(b)) < n {
 		return nil, nil, fmt.Errorf("insufficient bytes to decode value, expected length: %v", n)
 	}
-- 
2.43.0


From 1bc3e29a586748772f9d32eccde2faf6d04d1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 04/54] fix: refuse document keys with trailing bytes

---
 document/dml/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/document/dml/keys.go b/document/dml/keys.go
index b61c413..a50f2a0 100644
--- a/document/dml/keys.go
+++ b/document/dml/keys.go
@@ -167,6 +167,10 @@ func DecodeCollectionDocumentKey(key kv.Key) (cid, did int64, err error) {
 		err = fmt.Errorf("invalid collection name to id key - %q", key)
 		return
 	}
+	if len(key) > 0 {
+		err = fmt.Errorf("invalid collection document key - %q", key)
+		return
+	}
 	return
 }
 
-- 
2.43.0


From 203e3349be33173f0e01b2455235f21ec374afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 05/54] fix: leave the caller's fields alone when building a
 columns key

---
 document/keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/document/keys.go b/document/keys.go
index 8b50a30..657c468 100644
--- a/document/keys.go
+++ b/document/keys.go
@@ -85,6 +85,8 @@ func EncodeCollectionColumnsIndexedKey(buf []byte, cid int64, fields []IndexFiel
 		buf = make([]byte, 0, bufLen)
 	}
 
+	// work on a copy, fields belongs to the caller
+	fields = append([]IndexField(nil), fields...)
 	if len(fields) == 1 {
 		fields[0].Desc = false
 	} else {
-- 
2.43.0


From d441c3b2613ee6602833b21dad1140a2a8e2a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 06/54] fix: store a job's error by its text so that failed
 jobs decode

---
 document/model/model.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/document/model/model.go b/document/model/model.go
index 46389ed..4797382 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/zhiqiangxu/util/osc"
 )
@@ -236,6 +237,39 @@ func (ii *IndexInfo) Clone() *IndexInfo {
 	return &clone
 }
 
+// jobFields is Job without its json methods.
+type jobFields Job
+
+// MarshalJSON stores the error by its text.
+func (job *Job) MarshalJSON() ([]byte, error) {
+	v := struct {
+		*jobFields
+		Error *string
+	}{jobFields: (*jobFields)(job)}
+	if job.Error != nil {
+		text := job.Error.Error()
+		v.Error = &text
+	}
+	return json.Marshal(v)
+}
+
+// UnmarshalJSON is reverse for MarshalJSON.
+func (job *Job) UnmarshalJSON(b []byte) (err error) {
+	v := struct {
+		*jobFields
+		Error *string
+	}{jobFields: (*jobFields)(job)}
+	err = json.Unmarshal(b, &v)
+	if err != nil {
+		return
+	}
+	job.Error = nil
+	if v.Error != nil {
+		job.Error = errors.New(*v.Error)
+	}
+	return
+}
+
 // Encode encodes job with json format.
 func (job *Job) Encode() (b []byte, err error) {
 	if len(job.RawArg) == 0 {
-- 
2.43.0


From 1d06862e22db480b798e5a0cc2b5a109ea4e3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 07/54] fix: add an index to a collection description that has
 none yet

---
 document/model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/model/model.go b/document/model/model.go
index 4797382..52f39a3 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -207,6 +207,9 @@ func (c *CollectionInfo) AddIndexInfo(iif *IndexInfo) (ok bool) {
 		return
 	}
 
+	if c.Indices == nil {
+		c.Indices = make(map[string]*IndexInfo)
+	}
 	c.Indices[iif.Name] = iif.Clone()
 	c.IndexOrder = append(c.IndexOrder, iif.Name)
 	ok = true
-- 
2.43.0


From f14e94c9ebc19282399cbaac9b24fdfe281e643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 08/54] fix: scan exactly the prefix in badger, also in reverse
 and with an offset outside it

---
 provider/badger.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index 58863e2..351270e 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -1,6 +1,8 @@
 package provider
 
 import (
+	"bytes"
+
 	"github.com/dgraph-io/badger"
 	"github.com/zhiqiangxu/mondis"
 )
@@ -104,21 +106,31 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
-	if len(option.Prefix) > 0 {
+	// badger stops at the first key without iterOpts.Prefix, so the seek must land inside the prefix,
+	// for reverse scan the prefix is checked here since the seek may land just above it
+	if !option.Reverse {
 		iterOpts.Prefix = option.Prefix
 	}
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
 
-	if option.Offset != nil {
-		iter.Seek(option.Offset)
-	} else {
-		iter.Rewind()
+	seek := option.Offset
+	if !option.Reverse {
+		if bytes.Compare(seek, option.Prefix) < 0 {
+			seek = option.Prefix
+		}
+	} else if end := prefixEnd(option.Prefix); end != nil && (len(seek) == 0 || bytes.Compare(seek, end) > 0) {
+		seek = end
+	}
+	// an empty seek is a rewind
+	iter.Seek(seek)
+	if option.Reverse && iter.Valid() && !iter.ValidForPrefix(option.Prefix) {
+		iter.Next()
 	}
 
 	var goon bool
-	for ; iter.Valid(); iter.Next() {
+	for ; iter.ValidForPrefix(option.Prefix); iter.Next() {
 		item := iter.Item()
 
 		err = item.Value(func(val []byte) error {
@@ -131,3 +143,15 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	}
 	return
 }
+
+// prefixEnd returns the smallest key greater than all keys with prefix, nil if there is none
+func prefixEnd(prefix []byte) []byte {
+	for i := len(prefix) - 1; i >= 0; i-- {
+		if prefix[i] != 0xFF {
+			end := append([]byte(nil), prefix[:i+1]...)
+			end[i]++
+			return end
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 3e2a2a03833d415800bceb7b703c50ce54857268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 09/54] fix: report a failed leveldb scan and release its
 iterator

---
 provider/leveldb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/provider/leveldb.go b/provider/leveldb.go
index 4edd664..b58c26b 100644
--- a/provider/leveldb.go
+++ b/provider/leveldb.go
@@ -97,6 +97,12 @@ func (l *LevelDB) Scan(option mondis.ProviderScanOption, fn func(key []byte, val
 		slice = util.BytesPrefix(option.Prefix)
 	}
 	iter := l.db.NewIterator(slice, nil)
+	defer func() {
+		if err == nil {
+			err = iter.Error()
+		}
+		iter.Release()
+	}()
 	if option.Offset != nil {
 		if !iter.Seek(option.Offset) {
 			return
-- 
2.43.0


From f64af11bde164ff38887109f6a3f78b01b2b7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 10/54] fix: do not let badger skip tables that hold keys of
 the scanned prefix

---
 provider/badger.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index 351270e..0a50660 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -106,11 +106,7 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
-	// badger stops at the first key without iterOpts.Prefix, so the seek must land inside the prefix,
-	// for reverse scan the prefix is checked here since the seek may land just above it
-	if !option.Reverse {
-		iterOpts.Prefix = option.Prefix
-	}
+	// iterOpts.Prefix is not used: badger 1.6.0 skips tables whose smallest key is a proper prefix of it
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
-- 
2.43.0


From 7d8ba07695ff5256a83041686257d61d5c1bbe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 11/54] fix: open badger after a kill that left a half written
 value log entry

---
 provider/badger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/badger.go b/provider/badger.go
index 0a50660..f4e3e35 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -19,7 +19,8 @@ func NewBadger() mondis.KVDB {
 
 // Open db
 func (b *Badger) Open(option mondis.KVOption) (err error) {
-	db, err := badger.Open(badger.DefaultOptions(option.Dir))
+	// a killed process may leave a half written, hence unacknowledged, entry at the end of the value log
+	db, err := badger.Open(badger.DefaultOptions(option.Dir).WithTruncate(true))
 	if err != nil {
 		return
 	}
-- 
2.43.0


From cd107163f5c0a41cf20c4d75fef1d0540380017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 12/54] fix: keep a value with metadata but no time-to-live

---
 provider/badger_txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/badger_txn.go b/provider/badger_txn.go
index e307d58..0dbfb9c 100644
--- a/provider/badger_txn.go
+++ b/provider/badger_txn.go
@@ -21,7 +21,10 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 		return (*badger.Txn)(txn).Set(k, v)
 	}
 
-	entry := badger.NewEntry(k, v).WithTTL(meta.TTL).WithMeta(meta.Tag)
+	entry := badger.NewEntry(k, v).WithMeta(meta.Tag)
+	if meta.TTL != 0 {
+		entry = entry.WithTTL(meta.TTL)
+	}
 	return (*badger.Txn)(txn).SetEntry(entry)
 }
 
-- 
2.43.0


From d885305d4cc91e7b897e048b4cc99f0c70a3163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 13/54] fix: count and store a new hash field with an empty
 value

---
 structure/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure/hash.go b/structure/hash.go
index c59ea0d..16aea95 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -289,7 +289,7 @@ func (t *TxStructure) updateHash(key, field []byte, fn func(oldValue []byte) ([]
 	}
 
 	// Check if new value is equal to old value.
-	if bytes.Equal(oldValue, newValue) {
+	if !isNew && bytes.Equal(oldValue, newValue) {
 		return nil
 	}
 
-- 
2.43.0


From 0afd7ac0f805a277c2abc5e011ce3e12b8a9dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 14/54] fix: advance the sequence when NextN renews the lease

---
 document/meta/sequence/sequence.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 1598f7b..17c9889 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -191,8 +191,10 @@ func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
 		ranges = []IDRange{r}
 	}
 
-	r := IDRange{Start: seq.next, End: seq.next + n - remain}
+	end := seq.next + n - remain
+	r := IDRange{Start: seq.next, End: end}
 	ranges = append(ranges, r)
+	seq.next = end
 
 	return
 }
-- 
2.43.0


From 68b66cd9a55fdbf031e6955ee81e47291f4adfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 15/54] fix: forget the identifiers put back when a sequence is
 cleared

---
 document/meta/sequence/sequence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 17c9889..1f38235 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -107,6 +107,12 @@ func (seq *Sequence) Clear() (err error) {
 	}
 
 	err = seq.clearFunc()
+	if err != nil {
+		return
+	}
+
+	// what was put back belongs to before the clear
+	seq.putbacks = nil
 	return
 }
 
-- 
2.43.0


From b8835ff5f8e5f0179cbc477fd66cb6cdfc468d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 16/54] fix: clear only the field of a hash sequence

---
 document/meta/sequence/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index 593113b..a2bb255 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -54,7 +54,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HClear(key)
+		err = txStruct.HDel(key, field)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 48b5c9cd46e9a2f770c36c8dab374f2544843f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 17/54] fix: commit the release of a document sequence's unused
 tail

---
 document/sequence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/document/sequence.go b/document/sequence.go
index 018acf1..30aaaee 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -89,6 +89,11 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 		return
 	}
 
+	err = txn.Commit()
+	if err != nil {
+		return
+	}
+
 	s.leased = s.next
 	return
 }
-- 
2.43.0


From 9f40eaee547746f6f57493ed13a8cfdf49d750f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 18/54] fix: give back a sequence's unused tail only if nobody
 leased beyond it

---
 document/meta/sequence/hash.go   | 11 +++++++++++
 document/meta/sequence/string.go | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index a2bb255..e358d76 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -73,6 +74,16 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		stored, err := txStruct.HGetInt64(key, field)
+		if err != nil && err != kv.ErrKeyNotFound {
+			return
+		}
+		if err != nil || stored != s.leased {
+			// others leased beyond, the rest can't be given back
+			s.leased = s.next
+			return nil
+		}
+
 		err = txStruct.HSetInt64(key, field, s.next)
 		if err != nil {
 			return
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 3b9aaa5..ce10bb6 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -69,6 +70,16 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		stored, err := txStruct.GetInt64(keyword)
+		if err != nil && err != kv.ErrKeyNotFound {
+			return
+		}
+		if err != nil || stored != s.leased {
+			// others leased beyond, the rest can't be given back
+			s.leased = s.next
+			return nil
+		}
+
 		err = txStruct.SetInt64(keyword, s.next)
 		if err != nil {
 			return
-- 
2.43.0


From 99ed78f32369c1f0a619746e2f051c9af75021b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 19/54] fix: give back a document sequence's unused tail only
 if nobody leased beyond it

---
 document/sequence.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/document/sequence.go b/document/sequence.go
index 30aaaee..803eea8 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -83,6 +83,20 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
+	val, _, err := txn.Get(s.key)
+	if err != nil {
+		return
+	}
+	stored, err := numeric.DecodeFromBinary(val)
+	if err != nil {
+		return
+	}
+	if stored != s.leased {
+		// others leased beyond, the rest can't be given back
+		s.leased = s.next
+		return
+	}
+
 	buf := numeric.Encode2Binary(s.next, nil)
 	err = txn.Set(s.key, buf, nil)
 	if err != nil {
-- 
2.43.0


From a5236669a693772c3c2954c0a0f913472e8d36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 20/54] fix: move a document sequence only once its new lease
 is committed

---
 document/sequence.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/document/sequence.go b/document/sequence.go
index 803eea8..552dfff 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -40,34 +40,33 @@ func (s *Sequence) updateLease() (err error) {
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
+	var next uint64
 	val, _, err := txn.Get(s.key)
 	switch {
 	case err == kv.ErrKeyNotFound:
-		s.next = 0
 	case err != nil:
 		return
 	default:
-		var num uint64
-		num, err = numeric.DecodeFromBinary(val)
+		next, err = numeric.DecodeFromBinary(val)
 		if err != nil {
 			return
 		}
-		s.next = num
 	}
 
-	lease := s.next + s.bandwidth
+	lease := next + s.bandwidth
 	buf := numeric.Encode2Binary(lease, nil)
 	err = txn.Set(s.key, buf, nil)
 	if err != nil {
 		return
 	}
 
-	oldLease := s.leased
-	s.leased = lease
 	err = txn.Commit()
 	if err != nil {
-		s.leased = oldLease
+		return
 	}
+
+	s.next = next
+	s.leased = lease
 	return
 }
 
-- 
2.43.0


From 7ae5a59db10f48fb5919a9c33479ed0fcf91e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 21/54] fix: decode the sets that continue a remote transaction

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 6ab956a..4a2712e 100644
--- a/server/common.go
+++ b/server/common.go
@@ -43,7 +43,7 @@ func handleTxnContinuedFrame(
 		switch nextFrame.Cmd {
 		case SetCmd:
 			close = false
-			err = setResp.Unmarshal(nextFrame.Payload)
+			err = setReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
 				close = true
 				setResp.Code = CodeInvalidRequest
-- 
2.43.0


From da36b39bca0543257921f4c8b6dde6aa5d148d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 22/54] fix: keep the requests of one remote transaction apart

---
 server/common.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/server/common.go b/server/common.go
index 4a2712e..1b727ee 100644
--- a/server/common.go
+++ b/server/common.go
@@ -15,22 +15,24 @@ func handleTxnContinuedFrame(
 	writer qrpc.FrameWriter,
 	frame *qrpc.RequestFrame,
 	txn mondis.ProviderTxn) {
-	var (
-		getReq     pb.GetRequest
-		getResp    pb.GetResponse
-		deleteReq  pb.DeleteRequest
-		deleteResp pb.DeleteResponse
-		setReq     pb.SetRequest
-		setResp    pb.SetResponse
-		existsReq  pb.ExistsRequest
-		existsResp pb.ExistsResponse
-		scanReq    pb.ScanRequest
-		scanResp   pb.ScanResponse
-		commitResp pb.CommitResponse
-		err        error
-		close      bool
-	)
 	for {
+		// stored data may refer to a request until commit, so every frame has its own
+		var (
+			getReq     pb.GetRequest
+			getResp    pb.GetResponse
+			deleteReq  pb.DeleteRequest
+			deleteResp pb.DeleteResponse
+			setReq     pb.SetRequest
+			setResp    pb.SetResponse
+			existsReq  pb.ExistsRequest
+			existsResp pb.ExistsResponse
+			scanReq    pb.ScanRequest
+			scanResp   pb.ScanResponse
+			commitResp pb.CommitResponse
+			err        error
+			close      bool
+		)
+
 		nextFrame := <-frame.FrameCh()
 		if nextFrame == nil {
 			txn.Discard()
-- 
2.43.0


From 4d5048c60716f36fafe062d4a5158ff8cb0f2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 23/54] fix: close the connection on an unknown command in a
 transaction

---
 server/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/common.go b/server/common.go
index 1b727ee..d151747 100644
--- a/server/common.go
+++ b/server/common.go
@@ -175,6 +175,10 @@ func handleTxnContinuedFrame(
 				logger.Instance().Error("DiscardCmd writeStreamRespBytes", zap.Error(err))
 			}
 			return
+		default:
+			// not a transaction command, nothing would answer it
+			frame.Close()
+			return
 		}
 	}
 }
-- 
2.43.0


From c81766d7f81698b7bd6fa4ec00fc4afe21e08e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 24/54] fix: refuse a scan request without options

---
 server/common.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/common.go b/server/common.go
index d151747..86c3e3a 100644
--- a/server/common.go
+++ b/server/common.go
@@ -290,6 +290,11 @@ func copyBytes(in []byte) (out []byte) {
 
 func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResponse) {
 	pso := req.ProviderScanOption
+	if pso == nil {
+		resp.Code = CodeInvalidRequest
+		resp.Msg = "scan without options"
+		return
+	}
 	option := mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
 	limit := int(req.Limit)
 	if limit == 0 {
-- 
2.43.0


From c35f3260abd2f0dd8a92dc1d42103c7fb1d4b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 25/54] fix: return no entries for a scan with a negative limit

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 86c3e3a..b36339b 100644
--- a/server/common.go
+++ b/server/common.go
@@ -297,7 +297,7 @@ func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResp
 	}
 	option := mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
 	limit := int(req.Limit)
-	if limit == 0 {
+	if limit <= 0 {
 		goto DONE
 	}
 	if limit > mondis.MaxEntry {
-- 
2.43.0


From f046ef1c6cb9e1126cfc849c475bd383b133c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 26/54] fix: report a remote transaction whose connection died

---
 client/client_txn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_txn.go b/client/client_txn.go
index 8dce8a9..7bb105e 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -52,6 +52,9 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
+		if respFrame == nil {
+			err = qrpc.ErrConnAlreadyClosed
+		}
 		return
 	}
 
-- 
2.43.0


From bcc22b5c645e279d34d1252603250224adfb6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 27/54] fix: report a delete that overflows a remote
 transaction as too big

---
 client/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 2b9545b..f04da92 100644
--- a/client/client.go
+++ b/client/client.go
@@ -193,7 +193,11 @@ func parseDeleteRespFromFrame(respFrame *qrpc.Frame) (err error) {
 	}
 
 	if deleteResp.Code != 0 {
-		err = newPBError(deleteResp.Code, deleteResp.Msg)
+		if deleteResp.Code == server.CodeTxnTooBig {
+			err = kv.ErrTxnTooBig
+		} else {
+			err = newPBError(deleteResp.Code, deleteResp.Msg)
+		}
 		return
 	}
 
-- 
2.43.0


From 81f4c5f061c3878be6c9b3218ec96a2654c079e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 28/54] fix: accept responses without metadata in the client

---
 client/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index f04da92..6b0ae13 100644
--- a/client/client.go
+++ b/client/client.go
@@ -154,8 +154,8 @@ func parseGetRespFromFrame(respFrame *qrpc.Frame) (v []byte, meta mondis.VMetaRe
 	}
 
 	v = getResp.Value
-	meta.ExpiresAt = getResp.Meta.ExpiresAt
-	meta.Tag = byte(getResp.Meta.Tag)
+	meta.ExpiresAt = getResp.Meta.GetExpiresAt()
+	meta.Tag = byte(getResp.Meta.GetTag())
 
 	return
 }
@@ -257,7 +257,7 @@ func parseScanRespFromFrame(respFrame *qrpc.Frame) (entries []mondis.Entry, err
 
 	entries = make([]mondis.Entry, len(scanResp.Entries))
 	for i, entry := range scanResp.Entries {
-		meta := mondis.VMetaResp{ExpiresAt: entry.Meta.ExpiresAt, Tag: byte(entry.Meta.Tag)}
+		meta := mondis.VMetaResp{ExpiresAt: entry.Meta.GetExpiresAt(), Tag: byte(entry.Meta.GetTag())}
 		entries[i] = mondis.Entry{Key: entry.Key, Value: entry.Value, Meta: meta}
 		entry.Key = nil
 		entry.Value = nil
-- 
2.43.0


From c9c7b7b6a4f3d4b9c4d7d7ef23e0a401288f160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 29/54] fix: read no job at an index beyond the queue

---
 document/meta/meta.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document/meta/meta.go b/document/meta/meta.go
index e172d45..b587907 100644
--- a/document/meta/meta.go
+++ b/document/meta/meta.go
@@ -487,7 +487,8 @@ func (m *Meta) getDDLJob(key []byte, index int64) (job *model.Job, err error) {
 		err = nil
 		return
 	}
-	if err != nil {
+	if err != nil || value == nil {
+		// no job at that index
 		return
 	}
 
-- 
2.43.0


From a90e12af8da6db4ba0cdd32b5278e51a429871fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 30/54] fix: release the schema handle when a referred
 collection changed

---
 document/schema/handle.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/schema/handle.go b/document/schema/handle.go
index ecab688..2413a93 100644
--- a/document/schema/handle.go
+++ b/document/schema/handle.go
@@ -54,6 +54,7 @@ func (h *Handle) Check(ctx context.Context, startMetaCache *MetaCache, referredC
 
 			for _, collectionIDs := range cache.schemaDiffs[diffIdx] {
 				if _, ok := referredCollections[collectionIDs]; ok {
+					h.mu.RUnlock()
 					return
 				}
 			}
-- 
2.43.0


From 019e6cbff672896b220a7416292885a526b3e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 31/54] fix: create a schema with indexes without panicking

---
 document/ddl/ddl_api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 964ae50..d2bfcc7 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -53,8 +53,9 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 			collectInfo := dbInfo.Collections[cn]
 			if collectInfo == nil {
 				collectInfo = &model.CollectionInfo{
-					ID:   nextID + 1,
-					Name: cn,
+					ID:      nextID + 1,
+					Name:    cn,
+					Indices: make(map[string]*model.IndexInfo),
 				}
 				nextID++
 				dbInfo.Collections[cn] = collectInfo
-- 
2.43.0


From 8f920cd52bfbdce0fad69e2e0df0e599bfb61248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 32/54] fix: reserve an identifier for every index of a new
 schema

---
 document/ddl/ddl_api.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index d2bfcc7..9b1b554 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -16,7 +16,11 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		return
 	}
 
-	n := 2 + len(input.Collections) + len(input.Indices)
+	// one for the schema, one for the job
+	n := 2 + len(input.Collections)
+	for _, cn := range input.Collections {
+		n += len(input.Indices[cn])
+	}
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		queueLength, err := m.DDLJobQueueLen()
-- 
2.43.0


From 7bd384d1779acb79adc3a0440bfed91c2dd03349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 33/54] fix: do not commit what a failed schema job wrote

---
 document/ddl/ddl_worker.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f44c527..f5607c2 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -2,6 +2,7 @@ package ddl
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"time"
 
@@ -59,6 +60,8 @@ const (
 	jobMaxErrorCount = 3
 )
 
+var errRunJobFailed = errors.New("run job failed")
+
 // handleJobQueue handles jobs in Job queue.
 func (w *worker) handleJobQueue() (err error) {
 
@@ -101,10 +104,9 @@ func (w *worker) handleJobQueue() (err error) {
 				job.ErrorCount++
 				job.Error = runJobErr
 				logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
-				if failNow || job.ErrorCount >= jobMaxErrorCount {
-					err = w.finishJob(m, job)
-					return
-				}
+				// what the failed run wrote must not be committed
+				err = errRunJobFailed
+				return
 			}
 
 			if job.IsCancelled() {
@@ -120,6 +122,9 @@ func (w *worker) handleJobQueue() (err error) {
 			}
 		})
 		afterCommitFunc4Job = nil
+		if err == errRunJobFailed {
+			err = w.recordFailedRun(job, failNow)
+		}
 
 		if nojob {
 			return
@@ -143,6 +148,21 @@ func (w *worker) handleJobQueue() (err error) {
 	}
 }
 
+// recordFailedRun keeps the job with its error for another try, or finishes it
+func (w *worker) recordFailedRun(job *model.Job, failNow bool) (err error) {
+	err = util.RunInNewUpdateTxn(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
+		m := meta.NewMeta(txn)
+		if failNow || job.ErrorCount >= jobMaxErrorCount || job.IsCancelled() {
+			err = w.finishJob(m, job)
+			return
+		}
+
+		err = w.updateJob(m, job)
+		return
+	})
+	return
+}
+
 func (w *worker) runJob(m *meta.Meta, job *model.Job) (schemaVersion int64, afterCommitFunc4Job func(), failNow bool, err error) {
 	if job.IsFinished() {
 		return
-- 
2.43.0


From c924531607d9964fb64836c631e641b71058e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 34/54] fix: announce a new schema with the states it is stored
 with

---
 document/ddl/ddl_worker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f5607c2..6691ced 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -328,6 +328,7 @@ func (w *worker) onCreateSchema(m *meta.Meta, job *model.Job) (schemaVersion int
 			index.State = osc.StatePublic
 		}
 	}
+	job.RawArg = nil // will encode job.Arg into job.RawArg
 	err = m.CreateDatabase(dbInfo)
 	if err != nil {
 		return
-- 
2.43.0


From 78a5c1c9e4c92007c0437524969970a74666198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 35/54] fix: give the id range of the collection's own
 documents only

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 5d56a96..487afe4 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -310,7 +310,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 	}
 
 	collectionDocumentPrefix := AppendCollectionDocumentPrefix(nil, ci.ID)
-	scanErr := t.Scan(mondis.ProviderScanOption{Offset: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, min, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
@@ -321,7 +321,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 		err = scanErr
 		return
 	}
-	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Offset: collectionDocumentPrefix.PrefixNext()}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, max, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
-- 
2.43.0


From 866457f80116d94f5435f9d018d09b789ad1f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 36/54] fix: do not let documents refer to the memory of a scan
 that is over

---
 document/dml/collection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 487afe4..659f128 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -362,7 +362,8 @@ func (c *Collection) GetAll(slicePtr interface{}, t *txn.Txn) (err error) {
 	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		item := reflect.New(et)
 		ptr := item.Interface()
-		err = bson.Unmarshal(value, ptr)
+		// binaries keep referring to what they are decoded from, value is only valid here
+		err = bson.Unmarshal(append([]byte(nil), value...), ptr)
 		if err != nil {
 			return false
 		}
-- 
2.43.0


From 5b96e909b824f444ae08ffad03e990f4e69b5a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 37/54] fix: report an insert whose write is refused

---
 document/dml/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 659f128..e50c3c2 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -76,7 +76,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 		docKey := EncodeCollectionDocumentKey(nil, ci.ID, did)
 
 		ierr = t.Set(docKey, data, nil)
-		if err != nil {
+		if ierr != nil {
 			return
 		}
 
-- 
2.43.0


From 1de2e158f0a3aa2e8d0183ce4ee4092e1cf0522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 38/54] fix: report an insert into a collection the transaction
 does not know

---
 document/dml/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index e50c3c2..8960d4a 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -55,7 +55,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 	insertFunc := func(t *txn.Txn) (ierr error) {
 		ci := t.StartMetaCache().CollectionInfo(c.dbName, c.collectionName)
 		if ci == nil {
-			err = ErrCollectionNotExists
+			ierr = ErrCollectionNotExists
 			return
 		}
 		if origT != nil {
-- 
2.43.0


From b964ac50ad2a83ef15acbb7328f6bcd7b7befe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 39/54] fix: keep a copy of the index definition, not the
 caller's fields

---
 document/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 515dacb..953130d 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -462,7 +462,7 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	}
 
 	c.mu.Lock()
-	c.indexMap[idef.Name] = idef
+	c.indexMap[idef.Name] = idef.Clone()
 	c.mu.Unlock()
 	return
 }
-- 
2.43.0


From 48bc78165ff3f1a462c4f06a32da1103383e97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 40/54] fix: refuse an index whose name is taken

---
 document/collection.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 953130d..a55615e 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -439,6 +439,16 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	if err != nil {
 		return
 	}
+	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
+	exists, err := txn.Exists(indexName2IDKey)
+	if err != nil {
+		return
+	}
+	if exists {
+		err = fmt.Errorf("there already exists an index named %s", idef.Name)
+		return
+	}
+
 	iid, err = c.db.nextIndexID()
 	if err != nil {
 		return
@@ -448,7 +458,6 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	indexName2IDKey := EncodeCollectionIndexName2IDKey(nil, c.cid, idef.Name)
 	txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
 	metaIndexKey := EncodeMetaIndexKey(nil, iid)
 	err = txn.Set(metaIndexKey, idefBytes, nil)
-- 
2.43.0


From 18e0b8ca693aeff1805f902994133b12c0a59956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 41/54] fix: report an index whose name cannot be written

---
 document/collection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index a55615e..c123003 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -458,7 +458,10 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 		return
 	}
 
-	txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	err = txn.Set(indexName2IDKey, compact.EncodeVarint(nil, iid), nil)
+	if err != nil {
+		return
+	}
 	metaIndexKey := EncodeMetaIndexKey(nil, iid)
 	err = txn.Set(metaIndexKey, idefBytes, nil)
 	if err != nil {
-- 
2.43.0


From 6807dae371d7ac15ca795373ef1407d8b7465746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 42/54] fix: delete all documents in a transaction that can
 write

---
 document/collection.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/document/collection.go b/document/collection.go
index c123003..e3f6248 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -298,11 +298,13 @@ func (c *Collection) DeleteAll(txn mondis.ProviderTxn) (n int, err error) {
 		return
 	}
 
-	err = tutil.RunInNewTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
-		newN, err := c.deleteAllWithTxn(txn)
-		n += newN
-		return err
+	err = tutil.RunInNewUpdateTxn(c.kvdb, func(txn mondis.ProviderTxn) (err error) {
+		n, err = c.deleteAllWithTxn(txn)
+		return
 	})
+	if err != nil {
+		n = 0
+	}
 
 	return
 }
-- 
2.43.0


From b26485b3e80ec564de2a7771185b8c984db9a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 43/54] fix: an index created and dropped concurrently could
 stay listed by its collection

---
 document/collection.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/document/collection.go b/document/collection.go
index e3f6248..bf31d93 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -22,6 +22,7 @@ type Collection struct {
 	cid              int64
 	name             string
 	documentSequence *Sequence
+	indexMu          sync.Mutex // held while an index is created or dropped, so that indexMap follows the store
 	mu               sync.RWMutex
 	indexMap         map[string]IndexDefinition
 }
@@ -425,6 +426,9 @@ func (c *Collection) CreateIndex(idef IndexDefinition) (iid int64, err error) {
 	defer c.db.closer.Done()
 	// prologue end
 
+	c.indexMu.Lock()
+	defer c.indexMu.Unlock()
+
 	txn := c.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
@@ -561,6 +565,9 @@ func (c *Collection) DropIndex(iname string) (exists bool, err error) {
 	defer c.db.closer.Done()
 	// prologue end
 
+	c.indexMu.Lock()
+	defer c.indexMu.Unlock()
+
 	txn := c.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
-- 
2.43.0


From d6e4aaecc0c6c10b4c8323aeda4b55eae57be796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 44/54] fix: Stop closes the store only after the requests
 being served have finished

---
 server/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 5c82433..0e3644b 100644
--- a/server/server.go
+++ b/server/server.go
@@ -52,11 +52,12 @@ func (s *Server) Start() (err error) {
 // Stop server
 func (s *Server) Stop() (err error) {
 
-	err = s.kvdb.Close()
+	// requests being served need the store
+	err = s.qserver.Shutdown()
 	if err != nil {
 		return
 	}
 
-	err = s.qserver.Shutdown()
+	err = s.kvdb.Close()
 	return
 }
-- 
2.43.0


From 448df79374fe3823063d971956a8131bf895798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 45/54] fix: closing a connection with a malformed request
 could crash the server

A response written by another handler of the connection between the end of
qrpc's reader and the cancellation of the connection's context panics in qrpc,
which ends the process.
---
 server/cmd_delete.go |  2 +-
 server/cmd_exists.go |  2 +-
 server/cmd_get.go    |  2 +-
 server/cmd_scan.go   |  2 +-
 server/cmd_set.go    |  2 +-
 server/common.go     | 48 ++++++++++++++++++++++++++++++++++++++------
 server/server.go     | 10 ++++++++-
 7 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/server/cmd_delete.go b/server/cmd_delete.go
index 4bd1f21..f610e2e 100644
--- a/server/cmd_delete.go
+++ b/server/cmd_delete.go
@@ -28,7 +28,7 @@ func (cmd *CmdDelete) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFram
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		closeConn(frame)
 		return
 	}
 
diff --git a/server/cmd_exists.go b/server/cmd_exists.go
index eec8ad0..1bd11d1 100644
--- a/server/cmd_exists.go
+++ b/server/cmd_exists.go
@@ -28,7 +28,7 @@ func (cmd *CmdExists) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFram
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		closeConn(frame)
 		return
 	}
 
diff --git a/server/cmd_get.go b/server/cmd_get.go
index 77cdfbd..4ef7946 100644
--- a/server/cmd_get.go
+++ b/server/cmd_get.go
@@ -28,7 +28,7 @@ func (cmd *CmdGet) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFrame)
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		closeConn(frame)
 		return
 	}
 
diff --git a/server/cmd_scan.go b/server/cmd_scan.go
index 14850d4..f83f7aa 100644
--- a/server/cmd_scan.go
+++ b/server/cmd_scan.go
@@ -28,7 +28,7 @@ func (cmd *CmdScan) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFrame)
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		closeConn(frame)
 		return
 	}
 
diff --git a/server/cmd_set.go b/server/cmd_set.go
index 25f2f79..0874b61 100644
--- a/server/cmd_set.go
+++ b/server/cmd_set.go
@@ -28,7 +28,7 @@ func (cmd *CmdSet) ServeQRPC(writer qrpc.FrameWriter, frame *qrpc.RequestFrame)
 		if err != nil {
 			logger.Instance().Error("writeRespBytes", zap.Error(err))
 		}
-		frame.Close()
+		closeConn(frame)
 		return
 	}
 
diff --git a/server/common.go b/server/common.go
index b36339b..d98d8cd 100644
--- a/server/common.go
+++ b/server/common.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"sync"
 	"time"
 
 	"github.com/zhiqiangxu/mondis"
@@ -63,7 +64,7 @@ func handleTxnContinuedFrame(
 				}
 			}
 			if close {
-				frame.Close()
+				closeConn(frame)
 				return
 			}
 		case ExistsCmd:
@@ -86,7 +87,7 @@ func handleTxnContinuedFrame(
 				}
 			}
 			if close {
-				frame.Close()
+				closeConn(frame)
 				return
 			}
 		case GetCmd:
@@ -109,7 +110,7 @@ func handleTxnContinuedFrame(
 				}
 			}
 			if close {
-				frame.Close()
+				closeConn(frame)
 				return
 			}
 		case DeleteCmd:
@@ -132,7 +133,7 @@ func handleTxnContinuedFrame(
 				}
 			}
 			if close {
-				frame.Close()
+				closeConn(frame)
 				return
 			}
 		case ScanCmd:
@@ -155,7 +156,7 @@ func handleTxnContinuedFrame(
 				}
 			}
 			if close {
-				frame.Close()
+				closeConn(frame)
 				return
 			}
 		case CommitCmd:
@@ -177,7 +178,7 @@ func handleTxnContinuedFrame(
 			return
 		default:
 			// not a transaction command, nothing would answer it
-			frame.Close()
+			closeConn(frame)
 			return
 		}
 	}
@@ -349,7 +350,38 @@ func metaFromSetRequest(req *pb.SetRequest) *mondis.VMetaReq {
 	return &mondis.VMetaReq{TTL: time.Duration(req.Meta.TTL), Tag: byte(req.Meta.Tag)}
 }
 
+// serialises the creation of connection locks
+var connLockMu sync.Mutex
+
+// connLock returns the lock of the connection of frame, it's held for reading while writing a
+// response and for writing while closing the connection: qrpc panics when a response is written
+// after the connection is closed for the reader but before it's closed for the writers.
+func connLock(frame *qrpc.RequestFrame) *sync.RWMutex {
+	connLockMu.Lock()
+	defer connLockMu.Unlock()
+
+	ci := frame.ConnectionInfo()
+	lock, ok := ci.GetAnything().(*sync.RWMutex)
+	if !ok {
+		lock = &sync.RWMutex{}
+		ci.SetAnything(lock)
+	}
+	return lock
+}
+
+func closeConn(frame *qrpc.RequestFrame) {
+	lock := connLock(frame)
+	lock.Lock()
+	defer lock.Unlock()
+
+	frame.Close()
+}
+
 func writeStreamRespBytes(writer qrpc.FrameWriter, frame *qrpc.RequestFrame, respCmd qrpc.Cmd, bytes []byte, end bool) (err error) {
+	lock := connLock(frame)
+	lock.RLock()
+	defer lock.RUnlock()
+
 	flag := qrpc.StreamFlag
 	if end {
 		flag |= qrpc.StreamEndFlag
@@ -363,6 +395,10 @@ func writeStreamRespBytes(writer qrpc.FrameWriter, frame *qrpc.RequestFrame, res
 }
 
 func writeRespBytes(writer qrpc.FrameWriter, frame *qrpc.RequestFrame, respCmd qrpc.Cmd, bytes []byte) (err error) {
+	lock := connLock(frame)
+	lock.RLock()
+	defer lock.RUnlock()
+
 	writer.StartWrite(frame.RequestID, respCmd, 0)
 	writer.WriteBytes(bytes)
 
diff --git a/server/server.go b/server/server.go
index 0e3644b..35bbaf8 100644
--- a/server/server.go
+++ b/server/server.go
@@ -33,7 +33,15 @@ func New(addr string, kvdb mondis.KVDB, option Option, kvoption mondis.KVOption)
 	mux.Handle(GetCmd, &CmdGet{s})
 	mux.Handle(DeleteCmd, &CmdDelete{s})
 	mux.Handle(ScanCmd, &CmdScan{s})
-	bindings := []qrpc.ServerBinding{qrpc.ServerBinding{Addr: addr, Handler: mux}}
+	handler := qrpc.HandlerFunc(func(writer qrpc.FrameWriter, frame *qrpc.RequestFrame) {
+		switch frame.Cmd.Routing() {
+		case SetCmd, ExistsCmd, GetCmd, DeleteCmd, ScanCmd:
+			mux.ServeQRPC(writer, frame)
+		default:
+			closeConn(frame)
+		}
+	})
+	bindings := []qrpc.ServerBinding{qrpc.ServerBinding{Addr: addr, Handler: handler}}
 	qserver := qrpc.NewServer(bindings)
 
 	s.qserver = qserver
-- 
2.43.0


From ec50cb1a224047a0086f88315ae48702b0326b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 46/54] fix: a transaction could stay open after its connection
 was closed

qrpc closes FrameCh of the streams only when its reader ends, and the reader may
wait for ever for one of the streams of a connection that the server closes.
---
 server/common.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index d98d8cd..2f2538a 100644
--- a/server/common.go
+++ b/server/common.go
@@ -34,7 +34,14 @@ func handleTxnContinuedFrame(
 			close      bool
 		)
 
-		nextFrame := <-frame.FrameCh()
+		// FrameCh may stay open after the connection is closed
+		var nextFrame *qrpc.Frame
+		select {
+		case nextFrame = <-frame.FrameCh():
+		case <-frame.Context().Done():
+			txn.Discard()
+			return
+		}
 		if nextFrame == nil {
 			txn.Discard()
 			err = writeStreamRespBytes(writer, frame, DiscardRespCmd, nil, true)
-- 
2.43.0


From 6dcfe57ed3597c6444ae62b8fb825eba757e5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:48 +0000
Subject: [PATCH 47/54] fix: a frame after the end of a transaction blocked its
 connection for ever

---
 server/common.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/server/common.go b/server/common.go
index 2f2538a..dca8e09 100644
--- a/server/common.go
+++ b/server/common.go
@@ -174,6 +174,8 @@ func handleTxnContinuedFrame(
 				if err != nil {
 					logger.Instance().Error("CommitCmd writeStreamRespBytes", zap.Error(err))
 				}
+				txn.Discard()
+				awaitStreamEnd(frame)
 				return
 			}
 		case DiscardCmd:
@@ -182,6 +184,7 @@ func handleTxnContinuedFrame(
 			if err != nil {
 				logger.Instance().Error("DiscardCmd writeStreamRespBytes", zap.Error(err))
 			}
+			awaitStreamEnd(frame)
 			return
 		default:
 			// not a transaction command, nothing would answer it
@@ -191,6 +194,19 @@ func handleTxnContinuedFrame(
 	}
 }
 
+// awaitStreamEnd waits for the peer to end the stream of a finished transaction,
+// a frame nobody takes would block the whole connection
+func awaitStreamEnd(frame *qrpc.RequestFrame) {
+	select {
+	case nextFrame := <-frame.FrameCh():
+		if nextFrame != nil {
+			// nothing would answer it
+			closeConn(frame)
+		}
+	case <-frame.Context().Done():
+	}
+}
+
 func handleTxnSet(txn mondis.ProviderTxn, req *pb.SetRequest, resp *pb.SetResponse) {
 	meta := metaFromSetRequest(req)
 	err := txn.Set(req.Key, req.Value, meta)
-- 
2.43.0


From 2eddc92a990c6b2244ecd93158f34f5b94b5b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 48/54] fix: closing a connection that has transactions open
 could crash the server

A transaction that ended because its connection was being closed left its stream to
qrpc, which resets it without regard to the closing and panics.
---
 server/common.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/server/common.go b/server/common.go
index dca8e09..630690c 100644
--- a/server/common.go
+++ b/server/common.go
@@ -39,8 +39,6 @@ func handleTxnContinuedFrame(
 		select {
 		case nextFrame = <-frame.FrameCh():
 		case <-frame.Context().Done():
-			txn.Discard()
-			return
 		}
 		if nextFrame == nil {
 			txn.Discard()
-- 
2.43.0


From 131212ca8b17b7313da731a7edf54389c8abb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:27 +0000
Subject: [PATCH 49/54] fix: the answer to a discarded transaction was taken
 for that of the request under way

---
 client/client_txn.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/client/client_txn.go b/client/client_txn.go
index 7bb105e..04ba20d 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -39,7 +39,7 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 		return
 	}
 
-	respFrame, err := txn.getRespFrame()
+	respFrame, err := txn.getRespFrame(server.SetRespCmd)
 	if err != nil {
 		return
 	}
@@ -49,18 +49,27 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 	return
 }
 
-func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
+// ErrUnexpectedResp when the server answers something else than what was asked, it
+// says so when it discards the transaction because the connection is being closed
+var ErrUnexpectedResp = errors.New("unexpected response")
+
+func (txn *Txn) getRespFrame(respCmd qrpc.Cmd) (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
 		if respFrame == nil {
 			err = qrpc.ErrConnAlreadyClosed
+			return
 		}
-		return
+	} else {
+		respFrame, err = txn.resp.GetFrame()
+		if err != nil {
+			return
+		}
+		txn.firstFrame = respFrame
 	}
 
-	respFrame, err = txn.resp.GetFrame()
-	if err == nil {
-		txn.firstFrame = respFrame
+	if respFrame.Cmd != respCmd {
+		err = ErrUnexpectedResp
 	}
 	return
 }
@@ -107,7 +116,7 @@ func (txn *Txn) Exists(k []byte) (exists bool, err error) {
 		return
 	}
 
-	respFrame, err := txn.getRespFrame()
+	respFrame, err := txn.getRespFrame(server.ExistsRespCmd)
 	if err != nil {
 		return
 	}
@@ -126,7 +135,7 @@ func (txn *Txn) Get(k []byte) (v []byte, meta mondis.VMetaResp, err error) {
 		return
 	}
 
-	respFrame, err := txn.getRespFrame()
+	respFrame, err := txn.getRespFrame(server.GetRespCmd)
 	if err != nil {
 		return
 	}
@@ -154,7 +163,7 @@ func (txn *Txn) Delete(k []byte) (err error) {
 		return
 	}
 
-	respFrame, err := txn.getRespFrame()
+	respFrame, err := txn.getRespFrame(server.DeleteRespCmd)
 	if err != nil {
 		return
 	}
@@ -191,7 +200,7 @@ func (txn *Txn) Commit() (err error) {
 		return
 	}
 
-	respFrame, err := txn.getRespFrame()
+	respFrame, err := txn.getRespFrame(server.CommitRespCmd)
 	if err != nil {
 		return
 	}
@@ -212,7 +221,7 @@ func (txn *Txn) Discard() {
 		return
 	}
 
-	_, err = txn.getRespFrame()
+	_, err = txn.getRespFrame(server.DiscardRespCmd)
 
 	return
 }
@@ -234,7 +243,7 @@ func (txn *Txn) Scan(option mondis.ScanOption) (entries []mondis.Entry, err erro
 		return
 	}
 
-	respFrame, err := txn.getRespFrame()
+	respFrame, err := txn.getRespFrame(server.ScanRespCmd)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From a09c4a7125ae21149733cbb600e0a71d4d7b4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:55 +0000
Subject: [PATCH 50/54] fix: a transaction waited for ever for an answer when
 its connection was lost

---
 client/client_txn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/client_txn.go b/client/client_txn.go
index 04ba20d..a07e96a 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -55,7 +55,11 @@ var ErrUnexpectedResp = errors.New("unexpected response")
 
 func (txn *Txn) getRespFrame(respCmd qrpc.Cmd) (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
-		respFrame = <-txn.firstFrame.FrameCh()
+		// FrameCh may stay open after the connection is lost
+		select {
+		case respFrame = <-txn.firstFrame.FrameCh():
+		case <-txn.firstFrame.Context().Done():
+		}
 		if respFrame == nil {
 			err = qrpc.ErrConnAlreadyClosed
 			return
-- 
2.43.0


From 6f31452870622f8720030c544cd0564230e91399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:06 +0000
Subject: [PATCH 51/54] fix: an index on the columns of another one was
 accepted if a column was named twice

---
 document/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/keys.go b/document/keys.go
index 657c468..c69c829 100644
--- a/document/keys.go
+++ b/document/keys.go
@@ -91,6 +91,9 @@ func EncodeCollectionColumnsIndexedKey(buf []byte, cid int64, fields []IndexFiel
 		fields[0].Desc = false
 	} else {
 		sort.Slice(fields, func(i, j int) bool {
+			if fields[i].Name == fields[j].Name {
+				return !fields[i].Desc && fields[j].Desc
+			}
 			return fields[i].Name < fields[j].Name
 		})
 	}
-- 
2.43.0


From 31581ac2b24670b98deea9f319476e4bf1e0fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:16 +0000
Subject: [PATCH 52/54] fix: a domain that failed to start could not be started
 again

The sequences created before the failure stayed registered, so another Init
of the same process was refused with "sequence already exists".
---
 document/ddl/ddl.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/document/ddl/ddl.go b/document/ddl/ddl.go
index 99faf58..88dcd31 100644
--- a/document/ddl/ddl.go
+++ b/document/ddl/ddl.go
@@ -7,6 +7,8 @@ import (
 	"github.com/zhiqiangxu/mondis/document/dml"
 	"github.com/zhiqiangxu/mondis/document/meta"
 	"github.com/zhiqiangxu/mondis/util"
+	"github.com/zhiqiangxu/util/logger"
+	"go.uber.org/zap"
 )
 
 const (
@@ -58,6 +60,7 @@ func (d *DDL) start() {
 
 // Init DDL
 func (d *DDL) Init() (err error) {
+	var created []int64
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		dbs, err := m.ListDatabases()
@@ -71,12 +74,20 @@ func (d *DDL) Init() (err error) {
 				if err != nil {
 					return
 				}
+				created = append(created, ci.ID)
 			}
 		}
 		return
 	})
 
 	if err != nil {
+		// Init may be tried again
+		for _, cid := range created {
+			dropErr := dml.DropSequenceIfExists(cid)
+			if dropErr != nil {
+				logger.Instance().Error("DropSequenceIfExists", zap.Int64("cid", cid), zap.Error(dropErr))
+			}
+		}
 		return
 	}
 	d.start()
-- 
2.43.0


From 0843a3ec05a6355831c7f9d6623e825120d90f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:29 +0000
Subject: [PATCH 53/54] fix: AddIndex accepted an index without a name or
 columns

---
 document/ddl/ddl_api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 9b1b554..67afa36 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -99,6 +99,11 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 
 // AddIndex for add index
 func (d *DDL) AddIndex(ctx context.Context, input AddIndexInput) (job *model.Job, err error) {
+	err = input.Validate()
+	if err != nil {
+		return
+	}
+
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 
-- 
2.43.0


From 3ecb51b2c379c71ec16582a14e11e0ced3672828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:51 +0000
Subject: [PATCH 54/54] fix: a schema that just doesn't fit a transaction held
 up the job queue for ever

---
 document/ddl/ddl_worker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index 6691ced..e6f0c09 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -11,6 +11,7 @@ import (
 	"github.com/zhiqiangxu/mondis/document/dml"
 	"github.com/zhiqiangxu/mondis/document/meta"
 	"github.com/zhiqiangxu/mondis/document/model"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/util"
 	util2 "github.com/zhiqiangxu/util"
 	"github.com/zhiqiangxu/util/logger"
@@ -115,6 +116,14 @@ func (w *worker) handleJobQueue() (err error) {
 			}
 
 			err = w.updateJob(m, job)
+			if err == kv.ErrTxnTooBig {
+				// it won't fit the next time either
+				job.State = model.JobStateCancelled
+				job.ErrorCount++
+				job.Error = err
+				runJobErr = err
+				err = errRunJobFailed
+			}
 			return
 		}, func() {
 			if afterCommitFunc4Job != nil {
-- 
2.43.0

