From f3426ed17a3723138b33d949675ef5ed4ff346a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 01/25] fix: read 8-bit scalars honouring the byte stride

binary.Read iterated over the whole source for []int8, which panicked when
the source was longer than the destination, and both 8-bit scalar fast paths
ignored the byte stride.
---
 binary/encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 01a4226..fb8d5f5 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -40,8 +40,8 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
 		}
 	case []int8:
-		for i, x := range b {
-			data[i] = int8(x)
+		for i := range data {
+			data[i] = Byte.Scalar(b[e*i:])
 		}
 	case [][2]int8:
 		for i := range data {
@@ -68,7 +68,7 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = Byte.Mat4(b[e*i:])
 		}
 	case []uint8:
-		if byteStride != 1 {
+		if byteStride == 1 {
 			copy(data, b)
 		} else {
 			for i := range data {
-- 
2.43.0


From 2ba652bbffe75de0518066f332d01356b2c2910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:34 +0000
Subject: [PATCH 02/25] fix: write interleaved unsigned byte scalars honouring
 the stride

---
 binary/encode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/binary/encode.go b/binary/encode.go
index fb8d5f5..6db0def 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -273,7 +273,13 @@ func Write(b []byte, stride int, data any) error {
 			Byte.PutMat4(b[e*i:], data[i])
 		}
 	case []uint8:
-		copy(b, data)
+		if e == 1 {
+			copy(b, data)
+		} else {
+			for i, x := range data {
+				Ubyte.PutScalar(b[e*i:], x)
+			}
+		}
 	case [][2]uint8:
 		for i := range data {
 			Ubyte.PutVec2(b[e*i:], data[i])
-- 
2.43.0


From 26598d12294ae360b7ed9fc2c633aad6fbace3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:35 +0000
Subject: [PATCH 03/25] fix: support unsigned int MAT3 in MakeSliceBuffer with
 a non-empty buffer

---
 binary/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/slice.go b/binary/slice.go
index 7a1dd4f..3b37118 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -112,7 +112,7 @@ func castSlice(c gltf.ComponentType, t gltf.AccessorType, count int, v []byte) a
 		case gltf.AccessorMat2:
 			return reslice[[2][2]uint32](v, l, rem)
 		case gltf.AccessorMat3:
-
+			return reslice[[3][3]uint32](v, l, rem)
 		case gltf.AccessorMat4:
 			return reslice[[4][4]uint32](v, l, rem)
 		}
-- 
2.43.0


From 198a3fb0047cf3bac899a1e5131e8665d2fa5c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 04/25] fix: return an empty slice when reading an empty
 accessor with a buffer

The typed readers returned the whole caller buffer when the accessor had no
elements.
---
 modeler/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index fc4d6f8..b9af3b9 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -116,10 +116,10 @@ var bufPool = sync.Pool{
 func makeBufferOf[T any](count int, buffer []T) []T {
 	if len(buffer) < count {
 		buffer = append(buffer, make([]T, count-len(buffer))...)
-	} else if count != 0 {
-		buffer = buffer[:count]
 	} else if buffer == nil {
 		buffer = make([]T, 0)
+	} else {
+		buffer = buffer[:count]
 	}
 	return buffer
 }
-- 
2.43.0


From 4f6a3a1ee16df274d44af4328ef5126caea16aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:42 +0000
Subject: [PATCH 05/25] fix: return an error instead of panicking when reading
 malformed accessors

Negative or out of range indices, offsets, lengths, strides and counts, null
buffers and buffer views, and sparse indices beyond the accessor count made
ReadAccessor, ReadBufferView and the typed readers panic, or allocate memory
for elements that the buffer view can't hold.
---
 modeler/read.go | 80 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 14 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index b9af3b9..7d8d903 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"sync"
 
@@ -29,18 +30,31 @@ var uint32Pool = sync.Pool{
 // ReadAccessor is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
-	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
-	if err != nil {
-		return nil, err
-	}
+	var (
+		src        []byte
+		byteStride int
+	)
 	if acr.BufferView != nil {
 		buf, err := readBufferView(doc, *acr.BufferView)
 		if err != nil {
 			return nil, err
 		}
-		byteStride := doc.BufferViews[*acr.BufferView].ByteStride
-		err = binary.Read(buf[acr.ByteOffset:], byteStride, data)
-		if err != nil {
+		if acr.ByteOffset < 0 || acr.ByteOffset > len(buf) {
+			return nil, io.ErrShortBuffer
+		}
+		src = buf[acr.ByteOffset:]
+		byteStride = doc.BufferViews[*acr.BufferView].ByteStride
+	}
+	// Validate the number of elements before allocating memory for them.
+	if err := checkCount(acr, len(src), byteStride); err != nil {
+		return nil, err
+	}
+	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
+	if err != nil {
+		return nil, err
+	}
+	if acr.BufferView != nil {
+		if err := binary.Read(src, byteStride, data); err != nil {
 			return nil, err
 		}
 	}
@@ -74,15 +88,47 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 
 		s := reflect.ValueOf(data)
 		vals := reflect.ValueOf(values)
-		for i := 0; i < int(acr.Sparse.Count); i++ {
-			s.Index(int(indices[i])).Set(vals.Index(i))
+		for i, index := range indices {
+			if uint64(index) >= uint64(acr.Count) {
+				return nil, errors.New("gltf: sparse index overflows")
+			}
+			s.Index(int(index)).Set(vals.Index(i))
 		}
 	}
 	return data, nil
 }
 
+// checkCount returns an error if the accessor elements can't be stored
+// in a bufferview with size available bytes.
+func checkCount(acr *gltf.Accessor, size, byteStride int) error {
+	if acr.Count < 0 {
+		return errors.New("gltf: accessor with negative count")
+	}
+	if byteStride < 0 {
+		return errors.New("gltf: bufferview with negative stride")
+	}
+	if acr.BufferView == nil {
+		// Elements initialized with zeros, indices can't address more than that.
+		if uint64(acr.Count) > math.MaxUint32 {
+			return errors.New("gltf: accessor count overflows")
+		}
+		return nil
+	}
+	sizeOfElement := gltf.SizeOfElement(acr.ComponentType, acr.Type)
+	if acr.Count == 0 || sizeOfElement == 0 {
+		return nil
+	}
+	if byteStride == 0 {
+		byteStride = sizeOfElement
+	}
+	if size < sizeOfElement || acr.Count-1 > (size-sizeOfElement)/byteStride {
+		return io.ErrShortBuffer
+	}
+	return nil
+}
+
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
-	if len(doc.BufferViews) <= bufferViewIndex {
+	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
 	}
 	return ReadBufferView(doc, doc.BufferViews[bufferViewIndex])
@@ -94,16 +140,22 @@ func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 // It is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
-	if len(doc.Buffers) <= bv.Buffer {
+	if bv == nil {
+		return nil, errors.New("gltf: bufferview is null")
+	}
+	if bv.Buffer < 0 || len(doc.Buffers) <= bv.Buffer || doc.Buffers[bv.Buffer] == nil {
 		return nil, errors.New("gltf: buffer index overflows")
 	}
+	if bv.ByteOffset < 0 || bv.ByteLength < 0 {
+		return nil, errors.New("gltf: bufferview with negative offset or length")
+	}
 	buf := doc.Buffers[bv.Buffer].Data
 
-	high := bv.ByteOffset + bv.ByteLength
-	if len(buf) < high {
+	// Do not add the offset and the length, the sum can overflow.
+	if bv.ByteOffset > len(buf) || bv.ByteLength > len(buf)-bv.ByteOffset {
 		return nil, io.ErrShortBuffer
 	}
-	return buf[bv.ByteOffset:high], nil
+	return buf[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
 }
 
 var bufPool = sync.Pool{
-- 
2.43.0


From d30554bb1a3ceb93ae7ff8da70b91568a597cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:43 +0000
Subject: [PATCH 06/25] fix: zero the elements of accessors without a
 bufferview

When a buffer was reused the elements kept the values of a previous read.
---
 modeler/read.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modeler/read.go b/modeler/read.go
index 7d8d903..a979182 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -57,6 +57,13 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		if err := binary.Read(src, byteStride, data); err != nil {
 			return nil, err
 		}
+	} else if cap(buffer) != 0 {
+		// The backing slice can contain data from a previous use.
+		v := reflect.ValueOf(data)
+		zero := reflect.Zero(v.Type().Elem())
+		for i := 0; i < v.Len(); i++ {
+			v.Index(i).Set(zero)
+		}
 	}
 
 	if acr.Sparse != nil {
-- 
2.43.0


From 19dacc02834422eadd94987bbb3cb400da92cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 07/25] fix: return an error when decoding null buffers or
 images

---
 decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder.go b/decoder.go
index 8ca826c..974655f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -63,6 +63,9 @@ func (d *Decoder) Decode(doc *Document) error {
 	}
 
 	for _, b := range doc.Buffers {
+		if b == nil {
+			return errors.New("gltf: buffer is null")
+		}
 		if !b.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(b.URI); ok {
 				b.URI = uri
@@ -70,6 +73,9 @@ func (d *Decoder) Decode(doc *Document) error {
 		}
 	}
 	for _, im := range doc.Images {
+		if im == nil {
+			return errors.New("gltf: image is null")
+		}
 		if !im.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(im.URI); ok {
 				im.URI = uri
-- 
2.43.0


From fdc80673bc18ecc3dddc9c52ba4ca06df974f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 08/25] fix: reject negative and too big buffer lengths

A negative byteLength made the decoder panic and a byteLength bigger than
4 GiB was truncated when compared with the GLB BIN chunk length.
---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 974655f..044850a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -182,7 +182,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	if header.Type != glbChunkBIN || header.Length < uint32(buffer.ByteLength) {
+	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
 	buffer.Data = make([]byte, buffer.ByteLength)
@@ -191,8 +191,8 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-	if buffer.ByteLength == 0 {
-		return errors.New("gltf: Invalid buffer.byteLength value = 0")
+	if buffer.ByteLength <= 0 {
+		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
 	}
 	return nil
 }
-- 
2.43.0


From afaadc8a8a39fdad3922848ab19cf3e7343077b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 09/25] fix: do not overflow when validating the GLB JSON chunk
 length

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 044850a..81b190f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -135,7 +135,7 @@ func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 }
 
 func (d *Decoder) validateGLBHeader(header *glbHeader) error {
-	if header.JSONHeader.Type != glbChunkJSON || (header.JSONHeader.Length+uint32(binary.Size(header))) > header.Length {
+	if header.JSONHeader.Type != glbChunkJSON || uint64(header.JSONHeader.Length)+uint64(binary.Size(header)) > uint64(header.Length) {
 		return errors.New("gltf: Invalid GLB JSON header")
 	}
 	return nil
-- 
2.43.0


From f8f260a0cde710e98b4400be99c839bd97b80bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 10/25] fix: do not allocate the GLB BIN chunk before reading
 it

A truncated file made the decoder allocate up to 4 GiB.
---
 decoder.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 81b190f..0799a72 100644
--- a/decoder.go
+++ b/decoder.go
@@ -185,9 +185,22 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
-	buffer.Data = make([]byte, buffer.ByteLength)
-	_, err = io.ReadFull(d.r, buffer.Data)
-	return err
+	// Do not trust the length until the data has been read,
+	// else a small malformed file could allocate up to 4 GiB.
+	prealloc := buffer.ByteLength
+	if prealloc > 1<<20 {
+		prealloc = 1 << 20
+	}
+	var data bytes.Buffer
+	data.Grow(prealloc + bytes.MinRead)
+	if _, err = io.CopyN(&data, d.r, int64(buffer.ByteLength)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return err
+	}
+	buffer.Data = data.Bytes()
+	return nil
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-- 
2.43.0


From 969bdc5e8c4cf1bb2f8aba9664d1cd97bb2bc039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 11/25] fix: skip the GLB JSON chunk padding

The JSON decoder stops reading at the end of the document, so depending on how
the reader splits the data the padding was taken as the BIN chunk header.
---
 decoder.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/decoder.go b/decoder.go
index 0799a72..db563e5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -103,20 +103,16 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	var (
-		jd       *json.Decoder
-		isBinary bool
-	)
-	if glbHeader != nil {
-		jd = json.NewDecoder(&io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)})
-		isBinary = true
-	} else {
-		jd = json.NewDecoder(d.r)
-		isBinary = false
+	if glbHeader == nil {
+		return false, json.NewDecoder(d.r).Decode(doc)
 	}
-
-	err = jd.Decode(doc)
-	return isBinary, err
+	chunk := &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+	if err := json.NewDecoder(chunk).Decode(doc); err != nil {
+		return true, err
+	}
+	// The JSON decoder can leave the chunk padding unread.
+	_, err = io.Copy(io.Discard, chunk)
+	return true, err
 }
 
 func (d *Decoder) readGLBHeader() (*glbHeader, error) {
-- 
2.43.0


From 09c6155352e9da56e2a815f674ecdf1f2e16ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:06 +0000
Subject: [PATCH 12/25] fix: report all the write errors when encoding a GLB

---
 encode.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index f8a29ad..a81bc4d 100644
--- a/encode.go
+++ b/encode.go
@@ -175,8 +175,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	e.w.Write(jsonText)
-	e.w.Write(headerPadding)
+	if _, err = e.w.Write(jsonText); err != nil {
+		return false, err
+	}
+	if _, err = e.w.Write(headerPadding); err != nil {
+		return false, err
+	}
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
@@ -185,8 +189,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 			binPadding[i] = 0
 		}
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		binary.Write(e.w, binary.LittleEndian, &binHeader)
-		e.w.Write(binBuffer.Data)
+		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
+			return false, err
+		}
+		if _, err = e.w.Write(binBuffer.Data); err != nil {
+			return false, err
+		}
 		_, err = e.w.Write(binPadding)
 	}
 
-- 
2.43.0


From 649e30468f005649a23aa607238995fe3f4872a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:35 +0000
Subject: [PATCH 13/25] fix: do not access the file system for buffers with
 absolute URIs

As documented, only buffers with relative URIs are read from and written to
Fsys. Having a scheme also skipped the check that keeps the path local, so
'a:/../../b' could be written out of the directory.
---
 decoder.go | 12 ++++++++----
 encode.go  |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index db563e5..a1eb9f0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -155,7 +155,7 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 	var err error
 	if buffer.IsEmbeddedResource() {
 		buffer.Data, err = buffer.marshalData()
-	} else {
+	} else if !isAbsoluteURI(buffer.URI) {
 		err = validateBufferURI(buffer.URI)
 		if err == nil && d.Fsys != nil {
 			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
@@ -207,15 +207,19 @@ func (d *Decoder) validateBuffer(buffer *Buffer) error {
 }
 
 func validateBufferURI(uri string) error {
-	if u, err := url.Parse(uri); err == nil && u.Scheme != "" {
-		return nil
-	}
 	if !filepath.IsLocal(uri) {
 		return fmt.Errorf("gltf: Invalid buffer.uri value '%s'", uri)
 	}
 	return nil
 }
 
+// isAbsoluteURI returns true if the uri has a scheme followed by an authority,
+// e.g. https://web.com/a.bin, so it can't be a file path.
+func isAbsoluteURI(uri string) bool {
+	u, err := url.Parse(uri)
+	return err == nil && u.Scheme != "" && strings.HasPrefix(uri[len(u.Scheme):], "://")
+}
+
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
 	uri = strings.Replace(uri, "/./", "/", -1)
diff --git a/encode.go b/encode.go
index a81bc4d..106ddc4 100644
--- a/encode.go
+++ b/encode.go
@@ -123,6 +123,9 @@ func (e *Encoder) Encode(doc *Document) error {
 }
 
 func (e *Encoder) encodeBuffer(buffer *Buffer) error {
+	if isAbsoluteURI(buffer.URI) {
+		return nil
+	}
 	if err := validateBufferURI(buffer.URI); err != nil {
 		return err
 	}
-- 
2.43.0


From 4f788717f3f73815f5ef6bcbf803dcf35046f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 14/25] fix: validate the decoded URI when encoding external
 buffers

URIs such as '%2e%2e/a.bin' and '..\a.bin' were written out of the directory.
---
 encode.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/encode.go b/encode.go
index 106ddc4..b60fbae 100644
--- a/encode.go
+++ b/encode.go
@@ -123,17 +123,18 @@ func (e *Encoder) Encode(doc *Document) error {
 }
 
 func (e *Encoder) encodeBuffer(buffer *Buffer) error {
-	if isAbsoluteURI(buffer.URI) {
+	uri, ok := sanitizeURI(buffer.URI)
+	if !ok {
+		uri = buffer.URI
+	}
+	if isAbsoluteURI(uri) {
 		return nil
 	}
-	if err := validateBufferURI(buffer.URI); err != nil {
+	// Validate the path that will be created, which is not percent-encoded.
+	if err := validateBufferURI(uri); err != nil {
 		return err
 	}
-	if e.Fsys == nil {
-		return nil
-	}
-	uri, ok := sanitizeURI(buffer.URI)
-	if !ok {
+	if e.Fsys == nil || !ok {
 		return nil
 	}
 	w, err := e.Fsys.Create(uri)
-- 
2.43.0


From d31d53a3e0ebf7594b9203946ea9fe14f6fe0a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:37 +0000
Subject: [PATCH 15/25] fix: write external buffers whose URI can't be
 percent-decoded

The data of buffers such as '100%.bin' was silently not written, while the
decoder reads them using the URI as is.
---
 encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index b60fbae..1cab63a 100644
--- a/encode.go
+++ b/encode.go
@@ -125,6 +125,7 @@ func (e *Encoder) Encode(doc *Document) error {
 func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	uri, ok := sanitizeURI(buffer.URI)
 	if !ok {
+		// Use the same path as the decoder.
 		uri = buffer.URI
 	}
 	if isAbsoluteURI(uri) {
@@ -134,7 +135,7 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	if err := validateBufferURI(uri); err != nil {
 		return err
 	}
-	if e.Fsys == nil || !ok {
+	if e.Fsys == nil {
 		return nil
 	}
 	w, err := e.Fsys.Create(uri)
-- 
2.43.0


From 22f405bb14ca3af7c33331172781449b60175fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:10 +0000
Subject: [PATCH 16/25] fix: allow encoding lights with the default range

Decoded lights without range have it set to infinity, which made
the encoder fail.
---
 ext/lightspunctual/lightspunctual.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 6365db3..363ee89 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -103,6 +103,17 @@ func (l *Light) ColorOrDefault() [3]float64 {
 	return *l.Color
 }
 
+// MarshalJSON marshal the light with the correct default values.
+func (l *Light) MarshalJSON() ([]byte, error) {
+	type alias Light
+	tmp := alias(*l)
+	if tmp.Range != nil && math.IsInf(*tmp.Range, 1) {
+		// Infinity is the default value and can't be represented in JSON.
+		tmp.Range = nil
+	}
+	return json.Marshal(&tmp)
+}
+
 // UnmarshalJSON unmarshal the light with the correct default values.
 func (l *Light) UnmarshalJSON(data []byte) error {
 	type alias Light
-- 
2.43.0


From a8e174952143af8d4322d174ad6f19a31ff2ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:10 +0000
Subject: [PATCH 17/25] fix: encode punctual lights as extension objects

They were encoded as a bare array and a bare number, which are not valid
KHR_lights_punctual objects and can't be decoded back.
---
 ext/lightspunctual/lightspunctual.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 363ee89..3960226 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -48,6 +48,13 @@ const (
 // LightIndex is the id of the light referenced by this node.
 type LightIndex int
 
+// MarshalJSON marshal the index inside the extension object.
+func (i LightIndex) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Light int `json:"light"`
+	}{int(i)})
+}
+
 // Spot defines the spot cone.
 type Spot struct {
 	InnerConeAngle float64  `json:"innerConeAngle,omitempty"`
@@ -76,6 +83,13 @@ func (s *Spot) UnmarshalJSON(data []byte) error {
 // Lights defines a list of Lights.
 type Lights []*Light
 
+// MarshalJSON marshal the lights inside the extension object.
+func (l Lights) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Lights []*Light `json:"lights,omitempty"`
+	}{l})
+}
+
 // Light defines a directional, point, or spot light.
 // When a light's type is spot, the spot property on the light is required.
 type Light struct {
-- 
2.43.0


From 69e99833f23d6a2ae3fc3ac76e6e17add7d1e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 18/25] fix: do not corrupt nested values when encoding
 specular-glossiness

Default factors were removed by replacing bytes of the encoded JSON, which
also matched the extensions and extras of the textures.
---
 ext/specular/specular.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ext/specular/specular.go b/ext/specular/specular.go
index 6752474..ec09c86 100644
--- a/ext/specular/specular.go
+++ b/ext/specular/specular.go
@@ -1,7 +1,6 @@
 package specular
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -46,28 +45,15 @@ func (p *PBRSpecularGlossiness) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the pbr with the correct default values.
 func (p *PBRSpecularGlossiness) MarshalJSON() ([]byte, error) {
 	type alias PBRSpecularGlossiness
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(p)})
-	if err == nil {
-		if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
-			out = removeProperty([]byte(`"glossinessFactor":1`), out)
-		}
-		if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
-			out = removeProperty([]byte(`"diffuseFactor":[1,1,1,1]`), out)
-		}
-		if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
-			out = removeProperty([]byte(`"specularFactor":[1,1,1]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := alias(*p)
+	if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
+		tmp.GlossinessFactor = nil
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
+		tmp.DiffuseFactor = nil
+	}
+	if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
+		tmp.SpecularFactor = nil
+	}
+	return json.Marshal(&tmp)
 }
-- 
2.43.0


From a70e462bccf9f58b184cb10ff88298f14dea4283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 19/25] fix: encode the current data of embedded buffers

The data appended to a buffer decoded from an embedded URI was lost when the
document was encoded again, as the old URI was written.
---
 encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 1cab63a..a88577c 100644
--- a/encode.go
+++ b/encode.go
@@ -217,14 +217,15 @@ func (e *Encoder) marshalJSONDoc(doc *Document) ([]byte, error) {
 		CustomBuffers: make([]*Buffer, len(doc.Buffers)),
 		alias:         (*alias)(doc),
 	}
-	// Embed buffers without URI.
+	// Embed buffers without URI and refresh the URI of the ones already embedded,
+	// as the data could have changed since the URI was set.
 	for i, buf := range doc.Buffers {
 		if i == 0 && e.AsBinary && buf.URI == "" {
 			// First buffer will be encoded in the binary chunk.
 			tmp.CustomBuffers[i] = buf
 			continue
 		}
-		if len(buf.Data) > 0 && buf.URI == "" && !buf.IsEmbeddedResource() {
+		if len(buf.Data) > 0 && (buf.URI == "" || buf.IsEmbeddedResource()) {
 			tmpBuf := &Buffer{
 				Extensions: buf.Extensions,
 				Extras:     buf.Extras,
-- 
2.43.0


From 689ceceb078556451a6452354051978c6d7a9e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:48 +0000
Subject: [PATCH 20/25] fix: do not point to an element that does not fit in
 the buffer in MakeSliceBuffer

---
 binary/slice.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/binary/slice.go b/binary/slice.go
index 3b37118..6a953ff 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -10,11 +10,12 @@ import (
 )
 
 func reslice[T any](v []byte, length, rem int) []T {
-	var ptr unsafe.Pointer
-	if len(v) != 0 {
-		ptr = unsafe.Pointer(&v[0])
+	if length == 0 {
+		// There is not room for a T in v, or it is not needed:
+		// a *T to its first byte would not be valid.
+		return make([]T, rem)
 	}
-	s := unsafe.Slice((*T)(unsafe.Pointer(ptr)), length)
+	s := unsafe.Slice((*T)(unsafe.Pointer(&v[0])), length)
 	if rem > 0 {
 		return append(s, make([]T, rem)...)
 	}
-- 
2.43.0


From 8418063c5c97ce8bd36e4c862016f5b35be66911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 21/25] fix: do not panic when writing interleaved slices
 without elements

---
 modeler/write.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index bbcfd6e..ce2e75e 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -230,7 +230,9 @@ func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
 			Type:          t,
 			Count:         l,
 		})
-		byteOffset += gltf.SizeOfElement(c, t)
+		if l > 0 { // Otherwise the bufferview has no bytes.
+			byteOffset += gltf.SizeOfElement(c, t)
+		}
 		indices[i] = len(doc.Accessors) - 1
 	}
 	return indices, nil
@@ -337,9 +339,12 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	buffer.Data = append(buffer.Data, make([]byte, size)...)
 	dataOffset := offset
 	for _, d := range data {
+		c, a, l := binary.Type(d)
+		if l == 0 {
+			continue
+		}
 		// Cannot return error as the buffer has enough size and the data type is controlled.
 		_ = binary.Write(buffer.Data[dataOffset:], stride, d)
-		c, a, _ := binary.Type(d)
 		dataOffset += gltf.SizeOfElement(c, a)
 	}
 	bufferView := &gltf.BufferView{
-- 
2.43.0


From 7ba4dbe8ce8d59c548e96158e2af668d6cddd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:37 +0000
Subject: [PATCH 22/25] fix: use clean paths for external buffers

---
 decoder.go | 3 ++-
 encode.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index a1eb9f0..0acf2a4 100644
--- a/decoder.go
+++ b/decoder.go
@@ -11,6 +11,7 @@ import (
 	"io/fs"
 	"net/url"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 )
@@ -158,7 +159,7 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 	} else if !isAbsoluteURI(buffer.URI) {
 		err = validateBufferURI(buffer.URI)
 		if err == nil && d.Fsys != nil {
-			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
+			buffer.Data, err = fs.ReadFile(d.Fsys, path.Clean(buffer.URI))
 			if len(buffer.Data) > int(buffer.ByteLength) {
 				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
 			}
diff --git a/encode.go b/encode.go
index a88577c..b83ec06 100644
--- a/encode.go
+++ b/encode.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/fs"
 	"os"
+	"path"
 	"path/filepath"
 )
 
@@ -138,7 +139,7 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	if e.Fsys == nil {
 		return nil
 	}
-	w, err := e.Fsys.Create(uri)
+	w, err := e.Fsys.Create(path.Clean(uri))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f23c7e2e9ebc313d495ecf7aa045aacde9e0cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:53 +0000
Subject: [PATCH 23/25] fix: attribute sets wrote integer TEXCOORD_n, WEIGHTS_n
 and COLOR_n data with n > 1 (0) as not normalized

---
 modeler/write.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index ce2e75e..4deca36 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -10,6 +10,7 @@ import (
 	"io"
 	"math"
 	"reflect"
+	"strings"
 
 	"github.com/qmuntal/gltf"
 	"github.com/qmuntal/gltf/binary"
@@ -260,20 +261,20 @@ func WritePrimitiveAttributes(doc *gltf.Document, attr ...PrimitiveAttribute) (g
 			continue
 		}
 		var normalized bool
-		switch a.Name {
-		case gltf.POSITION:
+		switch {
+		case a.Name == gltf.POSITION:
 			if v, ok := a.Data.([][3]float32); ok {
 				min, max = minMaxFloat32(v)
 			} else {
 				err = fmt.Errorf("invalid type %T", data)
 			}
-		case gltf.TEXCOORD_0, gltf.TEXCOORD_1:
+		case strings.HasPrefix(a.Name, "TEXCOORD_"):
 			normalized, err = checkTextureCoord(a.Data)
-		case gltf.WEIGHTS_0:
+		case strings.HasPrefix(a.Name, "WEIGHTS_"):
 			normalized, err = checkWeights(a.Data)
-		case gltf.JOINTS_0:
+		case strings.HasPrefix(a.Name, "JOINTS_"):
 			err = checkJoints(a.Data)
-		case gltf.COLOR_0:
+		case strings.HasPrefix(a.Name, "COLOR_"):
 			normalized, err = checkColor(a.Data)
 		}
 		if err != nil {
-- 
2.43.0


From 6910aec4417191a04b0a5ef4ffc6b6411cc979cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:17 +0000
Subject: [PATCH 24/25] fix: buffers embedded with the application/gltf-buffer
 media type were taken for files

---
 const.go | 1 +
 gltf.go  | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/const.go b/const.go
index 495daed..f888efa 100644
--- a/const.go
+++ b/const.go
@@ -431,6 +431,7 @@ type glbHeader struct {
 
 const (
 	mimetypeApplicationOctet = "data:application/octet-stream;base64"
+	mimetypeGLTFBuffer       = "data:application/gltf-buffer;base64"
 	mimetypeImagePNG         = "data:image/png;base64"
 	mimetypeImageJPG         = "data:image/jpeg;base64"
 )
diff --git a/gltf.go b/gltf.go
index 559029e..b66c385 100644
--- a/gltf.go
+++ b/gltf.go
@@ -120,7 +120,7 @@ type Buffer struct {
 
 // IsEmbeddedResource returns true if the buffer points to an embedded resource.
 func (b *Buffer) IsEmbeddedResource() bool {
-	return strings.HasPrefix(b.URI, mimetypeApplicationOctet)
+	return strings.HasPrefix(b.URI, mimetypeApplicationOctet) || strings.HasPrefix(b.URI, mimetypeGLTFBuffer)
 }
 
 // EmbeddedResource defines the buffer as an embedded resource and encodes the URI so it points to the the resource.
@@ -133,7 +133,11 @@ func (b *Buffer) marshalData() ([]byte, error) {
 	if !b.IsEmbeddedResource() {
 		return nil, nil
 	}
-	startPos := len(mimetypeApplicationOctet) + 1
+	mimetype := mimetypeApplicationOctet
+	if strings.HasPrefix(b.URI, mimetypeGLTFBuffer) {
+		mimetype = mimetypeGLTFBuffer
+	}
+	startPos := len(mimetype) + 1
 	if len(b.URI) < startPos {
 		return nil, errors.New("gltf: Invalid base64 content")
 	}
-- 
2.43.0


From 7c22f3ae3dec86b7185b9879422101a9dfaef266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:04 +0000
Subject: [PATCH 25/25] fix: binary documents of 4 GiB and more were written
 with wrong lengths

---
 encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encode.go b/encode.go
index b83ec06..299120c 100644
--- a/encode.go
+++ b/encode.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"path"
 	"path/filepath"
@@ -174,6 +175,9 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	var binPaddedLength int
 	if hasBinChunk {
 		binPaddedLength = ((doc.Buffers[0].ByteLength + 3) / 4) * 4
+		if int64(header.Length)+8+int64(binPaddedLength) > math.MaxUint32 {
+			return false, errors.New("gltf: document is too large for a binary file")
+		}
 		header.Length += uint32(8 + binPaddedLength)
 	}
 
-- 
2.43.0

