From 607909134e4cc104bffee90396125ddabb855448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 01/33] fix: reject header suffix lengths that are negative or
 exceed the document

---
 Go/sereal/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb9c6e6..562d302 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -51,11 +51,15 @@ func readHeader(b []byte) (serealHeader, error) {
 		return serealHeader{}, ErrBadHeader
 	}
 
-	ln, sz, err := varintdecode(b[5:])
+	ln, sz, err := varintdecode(b[headerSize:])
 	if err != nil {
 		return serealHeader{}, err
 	}
 
+	if ln < 0 || ln > len(b)-headerSize-sz {
+		return serealHeader{}, ErrCorrupt{errBadOffset}
+	}
+
 	h.suffixSize = ln + sz
 	h.suffixStart = headerSize + sz
 
-- 
2.43.0


From ffb957b4ed61b284a25548cd4a2a90fc40e51526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 02/33] fix: do not read header flags from a zero-length suffix

---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 562d302..32739ec 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -205,7 +205,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	if vheader != nil && header.suffixSize != 1 {
+	if vheader != nil && header.suffixStart < bodyStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
 
-- 
2.43.0


From 65222ee7c6b8f77a9a576187f65abe3be1b7fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 03/33] fix: resolve back-references in user headers relative
 to the header body

---
 Go/sereal/decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 32739ec..f1706bf 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -217,9 +217,10 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
-				_, err = d.decode(b[:bodyStart], header.suffixStart+1, ptr)
+				// offsets in user header are relative to its flags byte
+				_, err = d.decode(b[header.suffixStart:bodyStart], 1, ptr)
 			} else {
-				_, err = d.decodeViaReflection(b[:bodyStart], header.suffixStart+1, headerValue.Elem())
+				_, err = d.decodeViaReflection(b[header.suffixStart:bodyStart], 1, headerValue.Elem())
 			}
 		}
 	}
-- 
2.43.0


From 0b8ce716f5564dff24e489305b52897c6b044378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 04/33] fix: decode non-negative ZIGZAG integers

---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index f1706bf..d89081e 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -484,7 +484,7 @@ func (d *Decoder) decodeVarint(by []byte, idx int) (int, int, error) {
 
 func (d *Decoder) decodeZigzag(by []byte, idx int) (int, int, error) {
 	i, sz, err := varintdecode(by[idx:])
-	return int(-(1 + (uint64(i) >> 1))), idx + sz, err
+	return int(uint64(i)>>1) ^ -(i & 1), idx + sz, err
 }
 
 func (d *Decoder) decodeFloat(by []byte, idx int) (float32, int, error) {
-- 
2.43.0


From 7c1a4f61a1b2989c8f587d50dcd4f6f96ce9a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 05/33] fix: report panics carrying arbitrary values as errors

---
 Go/sereal/decode.go |  2 ++
 Go/sereal/encode.go | 11 +++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index d89081e..af2da44 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -185,6 +185,8 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 				err = errors.New(t)
 			case error:
 				err = t
+			default:
+				err = fmt.Errorf("sereal: panic while decoding: %v", r)
 			}
 		}
 	}()
diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 57b4a39..e2d5879 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -83,10 +83,13 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 				panic(r)
 			}
 
-			if s, ok := r.(string); ok {
-				err = errors.New(s)
-			} else {
-				err = r.(error)
+			switch t := r.(type) {
+			case string:
+				err = errors.New(t)
+			case error:
+				err = t
+			default:
+				err = fmt.Errorf("sereal: panic while encoding: %v", r)
 			}
 		}
 	}()
-- 
2.43.0


From c14b2d70052f31715f0d592d023bb7d1738737c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 06/33] fix: reset COPY nesting level at the start of every
 decode

---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index af2da44..a78be10 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -191,6 +191,9 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
+	// a panic in an earlier call may have left it non-zero
+	d.copyDepth = 0
+
 	header, err := checkHeader(b)
 	if err != nil {
 		return err
-- 
2.43.0


From c7a991b1de01424fb47eaaceeaee74f2071ebbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 07/33] fix: do not alias the input document in decoded regexps

---
 Go/sereal/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index a78be10..6756768 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -690,8 +690,8 @@ func (d *Decoder) decodeRegexp(by []byte, idx int) (*PerlRegexp, int, error) {
 		return nil, 0, err
 	}
 
-	// TODO perhaps, copy values
-	return &PerlRegexp{pattern, modifiers}, idx, nil
+	// both are slices of by, so copy them
+	return &PerlRegexp{append([]byte{}, pattern...), append([]byte{}, modifiers...)}, idx, nil
 }
 
 /********************************************************************
-- 
2.43.0


From 9ef012897460dffb19ee352591d615f13cbedaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 08/33] fix: reject back-references that leave the body or
 point at themselves

---
 Go/sereal/decode.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 6756768..e53e358 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -83,6 +83,7 @@ type Decoder struct {
 	umcache   map[string]reflect.Type
 	tcache    tagsCache
 	copyDepth int
+	firstOffs int // smallest offset a back-reference can have
 
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
@@ -221,6 +222,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
+			d.firstOffs = 1
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
 				// offsets in user header are relative to its flags byte
 				_, err = d.decode(b[header.suffixStart:bodyStart], 1, ptr)
@@ -254,6 +256,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 
 		if header.version == 1 {
+			d.firstOffs = bodyStart
 			if ptr, ok := vbody.(*interface{}); ok && *ptr == nil {
 				_, err = d.decode(b, bodyStart, ptr)
 			} else {
@@ -261,6 +264,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 			}
 		} else {
 			// serealv2 documents have 1-based offsets :/
+			d.firstOffs = 1
 			if ptr, ok := vbody.(*interface{}); ok && *ptr == nil {
 				_, err = d.decode(b[bodyStart-1:], 1, ptr)
 			} else {
@@ -413,7 +417,7 @@ func (d *Decoder) decode(by []byte, idx int, ptr *interface{}) (int, error) {
 		if err != nil {
 			return 0, err
 		}
-		if offs < 0 || offs >= idx {
+		if offs < d.firstOffs || offs >= idx {
 			return 0, ErrCorrupt{errBadOffset}
 		}
 		idx += sz
@@ -658,7 +662,7 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		if err != nil {
 			return nil, 0, err
 		}
-		if offs < 0 || offs >= idx {
+		if offs < d.firstOffs || offs >= idx {
 			return nil, 0, ErrCorrupt{errBadOffset}
 		}
 		idx += sz
@@ -847,7 +851,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		if err != nil {
 			return 0, err
 		}
-		if offs < 0 || offs >= idx {
+		if offs < d.firstOffs || offs >= idx {
 			return 0, ErrCorrupt{errBadOffset}
 		}
 		idx += sz
@@ -1033,12 +1037,11 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 		var res reflect.Value
 		return res, 0, err
 	}
-	idx += sz
-
-	if offs < 0 || offs >= idx {
+	if offs < d.firstOffs || offs >= idx-1 {
 		var res reflect.Value
 		return res, 0, ErrCorrupt{errBadOffset}
 	}
+	idx += sz
 
 	rv, ok := d.tracked[offs]
 	if !ok {
@@ -1094,6 +1097,9 @@ func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Valu
 		if err != nil {
 			return 0, err
 		}
+		if offs < d.firstOffs || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 	}
@@ -1129,6 +1135,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		if err != nil {
 			return 0, err
 		}
+		if offs < d.firstOffs || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 		if err != nil {
-- 
2.43.0


From fd0822b235b31c1af4b629262ddcb5385ab2f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 09/33] fix: validate the uncompressed length of zlib documents

---
 Go/sereal/zlib.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Go/sereal/zlib.go b/Go/sereal/zlib.go
index 989dc27..ba05fa8 100644
--- a/Go/sereal/zlib.go
+++ b/Go/sereal/zlib.go
@@ -17,6 +17,9 @@ const (
 	ZlibDefaultCompression = zlib.DefaultCompression
 )
 
+// zlibMaxRatio is an upper bound for the compression ratio of deflate (1032:1)
+const zlibMaxRatio = 1100
+
 func (c ZlibCompressor) compress(buf []byte) ([]byte, error) {
 	// Prepend a compressed block with its length, i.e.:
 	//
@@ -61,6 +64,10 @@ func (c ZlibCompressor) decompress(d, buf []byte) ([]byte, error) {
 		return nil, ErrCorrupt{errBadOffset}
 	}
 
+	if uln < 0 || uln > zlibMaxRatio*cln {
+		return nil, ErrCorrupt{errBadOffset}
+	}
+
 	buf = buf[csz : csz+cln]
 
 	// XXX Perhaps check if len(buf) == cln
-- 
2.43.0


From a1d3074396ee6126655c7454748a69033b8fb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 10/33] fix: validate the uncompressed length of snappy
 documents

---
 Go/sereal/snappy.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Go/sereal/snappy.go b/Go/sereal/snappy.go
index 8562ad1..522cb47 100644
--- a/Go/sereal/snappy.go
+++ b/Go/sereal/snappy.go
@@ -11,6 +11,9 @@ type SnappyCompressor struct {
 	Incremental bool // enable incremental parsing
 }
 
+// snappyMaxRatio is an upper bound for the compression ratio of snappy (64 bytes per 3-byte copy)
+const snappyMaxRatio = 64
+
 func (c SnappyCompressor) compress(b []byte) ([]byte, error) {
 	// XXX this could be more efficient!  I'm creating a new buffer to
 	//     store the compressed document, which isn't necessary.  You
@@ -48,6 +51,16 @@ func (c SnappyCompressor) decompress(d, b []byte) ([]byte, error) {
 		b = b[sz : sz+ln]
 	}
 
+	uln, err := snappy.DecodedLen(b)
+	if err != nil {
+		return nil, err
+	}
+
+	// do not let snappy allocate more than len(b) bytes can expand to
+	if uln > snappyMaxRatio*len(b) {
+		return nil, snappy.ErrCorrupt
+	}
+
 	decompressed, err := snappy.Decode(d, b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 415a810e11bacdd4edd7b31e02b54dc20214c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 11/33] fix: do not index zero-capacity buffers when
 decompressing documents

---
 Go/sereal/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index e53e358..d2de4a1 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1390,6 +1390,10 @@ func DecompressDocument(dst, b []byte) (r []byte, err error) {
 // hasSameBuffer returns true if the two slices share the same array (it only works for slices with capacity > 0)
 func hasSameBuffer(a, b []byte) bool {
 	aCap, bCap := cap(a), cap(b)
+	if aCap == 0 || bCap == 0 {
+		return false
+	}
+
 	aExt, bExt := a[:aCap], b[:bCap]
 
 	return &aExt[aCap-1] == &bExt[bCap-1]
-- 
2.43.0


From 28dc02d702a09121229832d3fd6db05e3273ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 12/33] fix: encode named integer types by their signedness

---
 Go/sereal/encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index e2d5879..9cf2071 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -501,9 +501,11 @@ func (e *Encoder) encodeViaReflection(b []byte, rv reflect.Value, isKeyOrClass b
 			b = append(b, typeFALSE)
 		}
 
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		b = e.encodeInt(b, rk, rv.Int())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		b = e.encodeInt(b, reflect.Int, rv.Int())
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		b = e.encodeInt(b, reflect.Uint, int64(rv.Uint()))
 
 	case reflect.Float32:
 		b = e.encodeFloat(b, float32(rv.Float()))
-- 
2.43.0


From 5a07a3d5812b8b6d412fb52d98100d875f523522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 13/33] fix: encode pointers to interfaces that hold strings

---
 Go/sereal/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 9cf2071..9802451 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -699,8 +699,8 @@ func getPointer(rv reflect.Value) uintptr {
 	case reflect.Ptr:
 		rvptr = rv.Pointer()
 	case reflect.String:
-		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
-		rvptr = ps.Data
+		s := rv.String() // rv might be not addressable
+		rvptr = (*reflect.StringHeader)(unsafe.Pointer(&s)).Data
 	}
 
 	return rvptr
-- 
2.43.0


From 04a478f4b750e2a6841662b62687a40202186dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 14/33] fix: do not conflate different objects that share their
 address

---
 Go/sereal/encode.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 9802451..3790920 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -28,7 +28,14 @@ type Encoder struct {
 
 type marshalState struct {
 	strTable map[string]int
-	ptrTable map[uintptr]int
+	ptrTable map[objectID]int
+}
+
+// objectID identifies an object: different objects may share their address
+type objectID struct {
+	ptr uintptr
+	typ reflect.Type
+	len int
 }
 
 type compressor interface {
@@ -113,7 +120,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && e.version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
-			ptrTable: make(map[uintptr]int),
+			ptrTable: make(map[objectID]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -134,7 +141,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
-		ptrTable: make(map[uintptr]int),
+		ptrTable: make(map[objectID]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -637,12 +644,12 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 	}
 
-	rvptr := rv.Pointer()
+	rvptr := objectID{ptr: rv.Pointer(), typ: rv.Type()}
 	rvptr2 := getPointer(rv.Elem())
 
 	offs, ok := state.ptrTable[rvptr]
 
-	if !ok && rvptr2 != 0 {
+	if !ok && rvptr2.ptr != 0 {
 		offs, ok = state.ptrTable[rvptr2]
 		if ok {
 			rvptr = rvptr2
@@ -658,7 +665,7 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 
 		by = append(by, typeREFN)
 
-		if rvptr != 0 {
+		if rvptr.ptr != 0 {
 			state.ptrTable[rvptr] = lenbOrig
 		}
 
@@ -668,7 +675,7 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			return nil, err
 		}
 
-		if rvptr2 != 0 {
+		if rvptr2.ptr != 0 {
 			// The thing this this points to starts one after the current pointer
 			state.ptrTable[rvptr2] = lenbOrig + 1
 		}
@@ -687,23 +694,23 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-func getPointer(rv reflect.Value) uintptr {
-	var rvptr uintptr
+func getPointer(rv reflect.Value) objectID {
+	var id objectID
 
 	switch rv.Kind() {
-	case reflect.Map, reflect.Slice:
-		rvptr = rv.Pointer()
+	case reflect.Slice:
+		id = objectID{ptr: rv.Pointer(), typ: rv.Type(), len: rv.Len()}
 	case reflect.Interface:
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
-	case reflect.Ptr:
-		rvptr = rv.Pointer()
+	case reflect.Map, reflect.Ptr:
+		id = objectID{ptr: rv.Pointer(), typ: rv.Type()}
 	case reflect.String:
 		s := rv.String() // rv might be not addressable
-		rvptr = (*reflect.StringHeader)(unsafe.Pointer(&s)).Data
+		id = objectID{ptr: (*reflect.StringHeader)(unsafe.Pointer(&s)).Data, typ: rv.Type(), len: len(s)}
 	}
 
-	return rvptr
+	return id
 }
 
 func concreteName(value reflect.Value) string {
-- 
2.43.0


From 656b786c18e87bf7fe05221726d2f5f502426590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 15/33] fix: do not share an encoder between concurrent calls
 of Marshal

---
 Go/sereal/encode.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 3790920..9cb8bc9 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -69,11 +69,9 @@ func NewEncoderV3() *Encoder {
 	}
 }
 
-var defaultEncoder = NewEncoderV3()
-
 // Marshal encodes body with the default encoder
 func Marshal(body interface{}) ([]byte, error) {
-	return defaultEncoder.MarshalWithHeader(nil, body)
+	return NewEncoderV3().MarshalWithHeader(nil, body)
 }
 
 // Marshal returns the Sereal encoding of body
-- 
2.43.0


From 88ac20770494f2c7d9f01ade39f27bebc2dd3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 16/33] fix: encode hash keys as strings only

---
 Go/sereal/encode.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 9cb8bc9..3f6b71c 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -566,24 +566,20 @@ func (e *Encoder) encodeMap(by []byte, m reflect.Value, isRefNext bool, state *m
 	by = append(by, typeHASH)
 	by = varint(by, uint(len(keys)))
 
-	if e.PerlCompat {
-		var err error
-		for _, k := range keys {
-			by = e.encodeString(by, k.String(), true, state.strTable)
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+	var err error
+	for _, k := range keys {
+		for k.Kind() == reflect.Interface {
+			k = k.Elem()
 		}
-	} else {
-		var err error
-		for _, k := range keys {
-			if by, err = e.encode(by, k, true, false, state, remainingDepth); err != nil {
-				return by, err
-			}
 
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+		if k.Kind() != reflect.String {
+			return nil, fmt.Errorf("sereal: hash keys must be strings, not %s", m.Type().Key())
+		}
+
+		v := m.MapIndex(k)
+		by = e.encodeString(by, k.String(), true, state.strTable)
+		if by, err = e.encode(by, v, false, false, state, remainingDepth); err != nil {
+			return by, err
 		}
 	}
 
-- 
2.43.0


From ff7838c5fc4242712698f680479a142e63d74c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 17/33] fix: count nested Perl objects and weak references as
 recursion

---
 Go/sereal/encode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 3f6b71c..358ecb7 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -277,6 +277,11 @@ func (e *Encoder) encode(b []byte, v interface{}, isKeyOrClass bool, isRefNext b
 		}
 
 	case PerlObject:
+		remainingDepth--
+		if remainingDepth <= 0 {
+			return nil, ErrMaxRecursionLimit
+		}
+
 		b = append(b, typeOBJECT)
 		b = e.encodeBytes(b, []byte(value.Class), true, state.strTable)
 		b, err = e.encode(b, value.Reference, false, false, state, remainingDepth)
@@ -287,6 +292,11 @@ func (e *Encoder) encode(b []byte, v interface{}, isKeyOrClass bool, isRefNext b
 		b = e.encodeBytes(b, value.Modifiers, false, state.strTable)
 
 	case PerlWeakRef:
+		remainingDepth--
+		if remainingDepth <= 0 {
+			return nil, ErrMaxRecursionLimit
+		}
+
 		b = append(b, typeWEAKEN)
 		b, err = e.encode(b, value.Reference, false, false, state, remainingDepth)
 
-- 
2.43.0


From 8bc48b2c5c12044403b297330501d8b56bdfa012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 18/33] fix: do not merge documents of unknown version or
 compression

---
 Go/sereal/merge.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index eca2046..200072f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -157,7 +157,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, errors.New("finished document")
 	}
 
-	docHeader, err := readHeader(b)
+	docHeader, err := checkHeader(b)
 	if err != nil {
 		return 0, err
 	}
@@ -170,6 +170,9 @@ func (m *Merger) Append(b []byte) (int, error) {
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
+	if err != nil {
+		return 0, err
+	}
 
 	if decomp != nil {
 		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
-- 
2.43.0


From 2f0214cb0e775dc794343f40a855ee74f4b19acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 19/33] fix: translate offsets of merged documents into
 positions in the body

---
 Go/sereal/merge.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 200072f..2616588 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -169,6 +169,11 @@ func (m *Merger) Append(b []byte) (int, error) {
 		bodyOffset: -1, // 1-based offsets
 	}
 
+	if docHeader.version == 1 {
+		// offsets are relative to the start of the document
+		doc.bodyOffset = -headerSize - docHeader.suffixSize
+	}
+
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
 	if err != nil {
 		return 0, err
@@ -321,7 +326,8 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx {
+			// offset of the item relative to the start of buf
+			if target := offset + doc.bodyOffset; target < 0 || target >= idx {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
-- 
2.43.0


From b386632c7b768d2da1245468b2518252a80373a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 20/33] fix: do not read past the end of merged documents

---
 Go/sereal/merge.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 2616588..a45704a 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -433,18 +433,30 @@ LOOP:
 			didx += sz + 1
 
 		case tag == typeFLOAT:
+			if len(dbuf)-didx < 5 {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+5]...)
 			didx += 5 // 4 bytes + tag
 
 		case tag == typeDOUBLE:
+			if len(dbuf)-didx < 9 {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+9]...)
 			didx += 9 // 8 bytes + tag
 
 		case tag == typeLONG_DOUBLE:
+			if len(dbuf)-didx < 17 {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+17]...)
 			didx += 17 // 16 bytes + tag
 
 		case tag == typeSHORT_BINARY_0+1:
+			if len(dbuf)-didx < 2 {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+2]...)
 			didx += 2
 
@@ -603,9 +615,12 @@ LOOP:
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
+	if len(b) == 0 {
+		return 0, 0, ErrTruncated
+	}
+
 	if m.KeepFlat {
 		tag0 := b[0] &^ trackFlag
-		tag1 := b[1] &^ trackFlag
 
 		switch m.TopLevelElement {
 		case TopLevelArray:
@@ -615,7 +630,7 @@ func (m *Merger) expectedElements(b []byte) (int, int, error) {
 			}
 
 		case TopLevelArrayRef:
-			if tag0 == typeREFN && tag1 == typeARRAY {
+			if tag0 == typeREFN && len(b) > 1 && b[1]&^trackFlag == typeARRAY {
 				ln, sz, err := varintdecode(b[2:])
 				return ln, sz + 2, err
 			} else if tag0 >= typeARRAYREF_0 && tag0 < typeARRAYREF_0+16 {
@@ -632,6 +647,10 @@ func isShallowStringish(tag byte) bool {
 }
 
 func readString(buf []byte) (int, []byte, error) {
+	if len(buf) == 0 {
+		return 0, nil, ErrTruncated
+	}
+
 	tag := buf[0]
 	tag &^= trackFlag
 
-- 
2.43.0


From fe6a65bb1084a9d51067ebd296261151c3c060d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 21/33] fix: do not merge truncated documents

---
 Go/sereal/merge.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index a45704a..49d561b 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -609,6 +609,13 @@ LOOP:
 		}
 	}
 
+	// all expected items must have been found
+	for _, n := range stack {
+		if n&^hashKeysValuesFlag != 0 {
+			return ErrTruncated
+		}
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
-- 
2.43.0


From 5c372cdbaea835be0614a2e292373203944f3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 22/33] fix: do not truncate element counts while merging

---
 Go/sereal/merge.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 49d561b..e333724 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -18,7 +18,7 @@ const (
 	// TopLevelHashRef
 )
 
-const hashKeysValuesFlag = uint32(1 << 31)
+const hashKeysValuesFlag = uint64(1 << 63)
 
 // Merger merges multiple sereal documents without reconstructing them
 type Merger struct {
@@ -369,7 +369,7 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
-	if expElements < 0 || expElements > math.MaxUint32 {
+	if expElements < 0 || expElements > len(dbuf) || m.length+expElements > math.MaxUint32 {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
 
@@ -380,8 +380,8 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	// - verify document consistency
 	// if a value put on stack has the highest significant bit on,
 	// it means that hash keys/values are processed
-	stack := make([]uint32, 0, 16) // preallocate 16 nested levels
-	stack = append(stack, uint32(expElements))
+	stack := make([]uint64, 0, 16) // preallocate 16 nested levels
+	stack = append(stack, uint64(expElements))
 
 LOOP:
 	for didx < len(dbuf) {
@@ -525,7 +525,7 @@ LOOP:
 				return err
 
 			}
-			if ln < 0 {
+			if ln < 0 || ln > len(dbuf) {
 				return errors.New("bad array or hash length")
 			}
 
@@ -533,9 +533,9 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeHASH {
-				stack = append(stack, uint32(ln*2)|hashKeysValuesFlag)
+				stack = append(stack, uint64(ln*2)|hashKeysValuesFlag)
 			} else {
-				stack = append(stack, uint32(ln))
+				stack = append(stack, uint64(ln))
 			}
 
 		case (tag >= typeARRAYREF_0 && tag < typeARRAYREF_0+16) || (tag >= typeHASHREF_0 && tag < typeHASHREF_0+16):
@@ -544,9 +544,9 @@ LOOP:
 
 			// for hash read 2*ln items
 			if tag >= typeHASHREF_0 {
-				stack = append(stack, uint32(tag&0xF*2)|hashKeysValuesFlag)
+				stack = append(stack, uint64(tag&0xF*2)|hashKeysValuesFlag)
 			} else {
-				stack = append(stack, uint32(tag&0xF))
+				stack = append(stack, uint64(tag&0xF))
 			}
 
 		case tag == typeREGEXP:
-- 
2.43.0


From 586119c3c0334f0a5f3f9b1a146289109045cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 23/33] fix: do not merge EXTEND tags whose payload is unknown

---
 Go/sereal/merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index e333724..1011f21 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -279,7 +279,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		case tag < typeVARINT,
 			tag == typePAD, tag == typeREFN, tag == typeWEAKEN,
 			tag == typeUNDEF, tag == typeCANONICAL_UNDEF,
-			tag == typeTRUE, tag == typeFALSE, tag == typeEXTEND,
+			tag == typeTRUE, tag == typeFALSE,
 			tag == typeREGEXP, tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			idx++
 
@@ -417,7 +417,7 @@ LOOP:
 			mbuf = append(mbuf, dbuf[didx])
 			didx++
 
-		case tag == typePAD, tag == typeREFN, tag == typeWEAKEN, tag == typeEXTEND:
+		case tag == typePAD, tag == typeREFN, tag == typeWEAKEN:
 			// this elemets are fake ones, so stack counter should not be decreased
 			// but, I don't want to create another if-branch, so fake it
 			stack[level]++
-- 
2.43.0


From 63ed56200621a947926107f5f1fdda9b1c7f7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 24/33] fix: translate references to class names and objects
 while merging

---
 Go/sereal/merge.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 1011f21..a8ff42e 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"math"
-	"sort"
 )
 
 type topLevelElementType int
@@ -62,7 +61,6 @@ type Merger struct {
 
 type mergerDoc struct {
 	buf        []byte
-	trackIdxs  []int
 	trackTable map[int]int
 	version    int
 	startIdx   int // 0-based
@@ -263,7 +261,6 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 	}
 
 	doc.trackTable = make(map[int]int)
-	doc.trackIdxs = make([]int, 0)
 
 	for idx < len(buf) {
 		tag := buf[idx]
@@ -352,11 +349,6 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 		}
 	}
 
-	for idx := range doc.trackTable {
-		doc.trackIdxs = append(doc.trackIdxs, idx)
-	}
-
-	sort.Ints(doc.trackIdxs)
 	return nil
 }
 
@@ -390,7 +382,7 @@ LOOP:
 
 		docRelativeIdx := didx - doc.bodyOffset
 		mrgRelativeIdx := len(mbuf) - m.bodyOffset
-		trackme := len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx
+		_, trackme := doc.trackTable[docRelativeIdx]
 
 		level := len(stack) - 1
 		for stack[level]&^hashKeysValuesFlag == 0 {
@@ -573,6 +565,7 @@ LOOP:
 			}
 
 			length := offset + len(str) + 1 // respect typeOBJECT tag
+			classIdx := mrgRelativeIdx + 1  // refer to string tag, not object tag
 			if savedOffset, ok := m.objTable[string(str)]; ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
@@ -580,14 +573,16 @@ LOOP:
 					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
 				}
 
-				mrgRelativeIdx = savedOffset
+				classIdx = savedOffset
 			} else {
-				// +1 because we should refer to string tag, not object tag
-				mrgRelativeIdx++
-				m.objTable[string(str)] = mrgRelativeIdx
+				m.objTable[string(str)] = classIdx
 				mbuf = append(mbuf, dbuf[didx:didx+length]...)
 			}
 
+			if _, ok := doc.trackTable[docRelativeIdx+1]; ok {
+				doc.trackTable[docRelativeIdx+1] = classIdx
+			}
+
 			// parse <ITEM-TAG>
 			stack = append(stack, 1)
 			didx += length
@@ -605,7 +600,6 @@ LOOP:
 		if trackme {
 			// if tag is tracked, remember its offset
 			doc.trackTable[docRelativeIdx] = mrgRelativeIdx
-			doc.trackIdxs = doc.trackIdxs[1:]
 		}
 	}
 
-- 
2.43.0


From 7b71b1aa625e623874dca477e4d51ab7d57421cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 25/33] fix: set track flag on the referenced item of the
 merged document

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index a8ff42e..edf99e1 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -506,7 +506,7 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset] |= trackFlag
+				mbuf[targetOffset+m.bodyOffset] |= trackFlag
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From 6e4371fdec339e7275c03a4e3a518dacaa755979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 26/33] fix: merge objects whose class name is a COPY

---
 Go/sereal/merge.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index edf99e1..4a6ceea 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -557,6 +557,12 @@ LOOP:
 			mbuf = append(mbuf, dbuf[didx:didx+sizeToCopy]...)
 			didx += sizeToCopy
 
+		case (tag == typeOBJECT || tag == typeOBJECT_FREEZE) && didx+1 < len(dbuf) && dbuf[didx+1]&^trackFlag == typeCOPY:
+			// class name is a copy of another string, handle it as an item
+			mbuf = append(mbuf, dbuf[didx])
+			stack = append(stack, 2)
+			didx++
+
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			// skip main tag for a second, and parse <STR-TAG>
 			offset, str, err := readString(dbuf[didx+1:])
-- 
2.43.0


From b3172ab7179450ec1c3f1497585ef71ed84214bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 27/33] fix: leave the merger unchanged if appending a document
 fails

---
 Go/sereal/merge.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 4a6ceea..14d47ac 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -201,12 +201,23 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		forgetOffsets(m.strTable, lastElementOffset-m.bodyOffset)
+		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
 		return 0, err
 	}
 
 	return m.length - oldLength, nil
 }
 
+// forgetOffsets removes from the table everything found at offset first or after it
+func forgetOffsets(table map[string]int, first int) {
+	for str, offset := range table {
+		if offset >= first {
+			delete(table, str)
+		}
+	}
+}
+
 // Finish is called to terminate the merging process
 func (m *Merger) Finish() ([]byte, error) {
 	if err := m.initMerger(); err != nil {
@@ -375,6 +386,10 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	stack := make([]uint64, 0, 16) // preallocate 16 nested levels
 	stack = append(stack, uint64(expElements))
 
+	// positions in mbuf that have to be tracked, they might belong to documents
+	// merged earlier, so don't touch them until it's known that this one is valid
+	var tracked []int
+
 LOOP:
 	for didx < len(dbuf) {
 		tag := dbuf[didx]
@@ -506,7 +521,7 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset+m.bodyOffset] |= trackFlag
+				tracked = append(tracked, targetOffset+m.bodyOffset)
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
@@ -616,6 +631,10 @@ LOOP:
 		}
 	}
 
+	for _, pos := range tracked {
+		mbuf[pos] |= trackFlag
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
-- 
2.43.0


From 56c481386b70f0f73ec83bec4f32047d1d2b9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 28/33] fix: do not replace text strings by binary ones and
 vice versa while merging

---
 Go/sereal/merge.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 14d47ac..71e6a94 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -22,8 +22,8 @@ const hashKeysValuesFlag = uint64(1 << 63)
 // Merger merges multiple sereal documents without reconstructing them
 type Merger struct {
 	buf        []byte
-	strTable   map[string]int
-	objTable   map[string]int
+	strTable   map[mergerStr]int
+	objTable   map[mergerStr]int
 	version    int
 	length     int
 	lenOffset  int
@@ -59,6 +59,12 @@ type Merger struct {
 	finished bool
 }
 
+// mergerStr is a string as it's found in documents: text and binary strings are different
+type mergerStr struct {
+	utf8 bool
+	str  string
+}
+
 type mergerDoc struct {
 	buf        []byte
 	trackTable map[int]int
@@ -99,8 +105,8 @@ func (m *Merger) initMerger() error {
 	}
 
 	// initialize internal fields
-	m.strTable = make(map[string]int)
-	m.objTable = make(map[string]int)
+	m.strTable = make(map[mergerStr]int)
+	m.objTable = make(map[mergerStr]int)
 
 	if m.ExpectedSize > 0 {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
@@ -210,7 +216,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 }
 
 // forgetOffsets removes from the table everything found at offset first or after it
-func forgetOffsets(table map[string]int, first int) {
+func forgetOffsets(table map[mergerStr]int, first int) {
 	for str, offset := range table {
 		if offset >= first {
 			delete(table, str)
@@ -491,11 +497,11 @@ LOOP:
 
 			if dedupString {
 				val := dbuf[didx+sz+1 : didx+length]
-				if savedOffset, ok := m.strTable[string(val)]; ok {
+				if savedOffset, ok := m.strTable[mergerStr{tag == typeSTR_UTF8, string(val)}]; ok {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
 				} else {
-					m.strTable[string(val)] = mrgRelativeIdx
+					m.strTable[mergerStr{tag == typeSTR_UTF8, string(val)}] = mrgRelativeIdx
 					mbuf = append(mbuf, dbuf[didx:didx+length]...)
 				}
 			} else {
@@ -587,7 +593,8 @@ LOOP:
 
 			length := offset + len(str) + 1 // respect typeOBJECT tag
 			classIdx := mrgRelativeIdx + 1  // refer to string tag, not object tag
-			if savedOffset, ok := m.objTable[string(str)]; ok {
+			class := mergerStr{dbuf[didx+1]&^trackFlag == typeSTR_UTF8, string(str)}
+			if savedOffset, ok := m.objTable[class]; ok {
 				if tag == typeOBJECT {
 					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
 				} else {
@@ -596,7 +603,7 @@ LOOP:
 
 				classIdx = savedOffset
 			} else {
-				m.objTable[string(str)] = classIdx
+				m.objTable[class] = classIdx
 				mbuf = append(mbuf, dbuf[didx:didx+length]...)
 			}
 
-- 
2.43.0


From cc976845bbf32312ad7da9d2df76f35ccaff2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 29/33] fix: finish merged documents completely or fail

---
 Go/sereal/merge.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 71e6a94..e86eb4b 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -231,40 +231,43 @@ func (m *Merger) Finish() ([]byte, error) {
 	}
 
 	if !m.finished {
-		m.finished = true
 		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))
 
 		if m.Compression != nil && (m.CompressionThreshold == 0 || len(m.buf) >= m.CompressionThreshold) {
-			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
-			if err != nil {
-				return m.buf, err
-			}
-
-			// TODO think about some optimizations here
-			copy(m.buf[m.bodyOffset+1:], compressed)
-			m.buf = m.buf[:len(compressed)+m.bodyOffset+1]
-
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
+			var doctype documentType
+
 			switch comp := m.Compression.(type) {
 			case SnappyCompressor:
 				if !comp.Incremental {
 					return nil, errors.New("non-incremental snappy compression is not supported")
 				}
 
-				m.buf[4] |= byte(serealSnappyIncremental) << 4
+				doctype = serealSnappyIncremental
 
 			case ZlibCompressor:
 				if m.version < 3 {
 					return nil, errors.New("zlib compression only valid for v3 documents and up")
 				}
 
-				m.buf[4] |= byte(serealZlib) << 4
+				doctype = serealZlib
 
 			default:
 				return nil, errors.New("unknown compressor")
 			}
+
+			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
+			if err != nil {
+				return nil, err
+			}
+
+			// TODO think about some optimizations here
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
+			m.buf[4] |= byte(doctype) << 4
 		}
+
+		m.finished = true
 	}
 
 	return m.buf, nil
-- 
2.43.0


From 624dc148c3ed28580132b03550154b0522be0b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 30/33] fix: do not fault if the expected size of a merged
 document is tiny

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index e86eb4b..54c5bcb 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -108,7 +108,7 @@ func (m *Merger) initMerger() error {
 	m.strTable = make(map[mergerStr]int)
 	m.objTable = make(map[mergerStr]int)
 
-	if m.ExpectedSize > 0 {
+	if m.ExpectedSize > headerSize {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
 	} else {
 		m.buf = make([]byte, headerSize)
-- 
2.43.0


From c685183a096ad46678ca48e7c0847238b80e14b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 31/33] fix: nil destination pointers are reported as errors

---
 Go/sereal/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index d2de4a1..ee5b1d9 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -216,7 +216,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		defer func() { d.tracked = nil }()
 
 		headerValue := reflect.ValueOf(vheader)
-		if headerValue.Kind() != reflect.Ptr {
+		if headerValue.Kind() != reflect.Ptr || headerValue.IsNil() {
 			return ErrHeaderPointer
 		}
 
@@ -251,7 +251,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		defer func() { d.tracked = nil }()
 
 		bodyValue := reflect.ValueOf(vbody)
-		if bodyValue.Kind() != reflect.Ptr {
+		if bodyValue.Kind() != reflect.Ptr || bodyValue.IsNil() {
 			return ErrBodyPointer
 		}
 
-- 
2.43.0


From 39d4e90747b1780e3f4046dcf3eba27923a71e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 32/33] fix: label incremental snappy bodies of version 1
 documents as such

---
 Go/sereal/encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 358ecb7..301eada 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -176,10 +176,10 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			if e.version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if e.version == 1 {
-				doctype = serealSnappy
-			} else {
+			if c.Incremental {
 				doctype = serealSnappyIncremental
+			} else {
+				doctype = serealSnappy
 			}
 		case ZlibCompressor:
 			if e.version < 3 {
-- 
2.43.0


From 723e1084cb331764e464a54ed70363c70bf47c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 33/33] fix: merging regexps and objects with an empty string

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 54c5bcb..b13cf9e 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -695,7 +695,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	var ln, offset int
-	if tag > typeSHORT_BINARY_0 {
+	if tag >= typeSHORT_BINARY_0 {
 		ln = int(tag & 0x1F) // get length from tag
 	} else {
 		var err error
-- 
2.43.0

