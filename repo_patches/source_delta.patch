From 1eedc0a1198c78d72f6aa74a17cc4ef128dc8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 01/86] fix: report errors raised while writing array elements

---
 ztype/array_encode.go        | 12 +++++++++---
 ztype/object_array_encode.go | 12 +++++++++---
 ztype/object_array_traits.go |  6 +++---
 ztype/packed_array_traits.go |  6 +++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index c3c9fca..11ab38b 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -25,7 +25,9 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				return err
 			}
 			for _, element := range array.RawArray {
-				packedTraits.InitContext(array.PackedContext, element)
+				if err := packedTraits.InitContext(array.PackedContext, element); err != nil {
+					return err
+				}
 			}
 		}
 		for index, element := range array.RawArray {
@@ -36,10 +38,14 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				array.ArrayTraits.Write(writer, element)
+				err = array.ArrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_encode.go b/ztype/object_array_encode.go
index c14343b..b140487 100644
--- a/ztype/object_array_encode.go
+++ b/ztype/object_array_encode.go
@@ -27,7 +27,9 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 			}
 
 			for index := 0; index < size; index++ {
-				packedTraits.InitContext(array.PackedContext, &elements[index])
+				if err := packedTraits.InitContext(array.PackedContext, &elements[index]); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -41,10 +43,14 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				arrayTraits.Write(writer, element)
+				err = arrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_traits.go b/ztype/object_array_traits.go
index 7085125..09d5dd4 100644
--- a/ztype/object_array_traits.go
+++ b/ztype/object_array_traits.go
@@ -8,7 +8,7 @@ type IPackedObjectArrayTraits[T any, PT zserio.PackableZserioType[T]] interface
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element PT) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element PT) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, element PT) error
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT) error
 }
 
 // ObjectArrayTraits is an array traits for zserio structs, choice, union or enum types
@@ -96,6 +96,6 @@ func (traits *ObjectArrayPackedTraits[T, PT]) Read(contextNode *zserio.PackingCo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) {
-	element.MarshalZserioPacked(contextNode, writer)
+func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) error {
+	return element.MarshalZserioPacked(contextNode, writer)
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 5adc9a7..777eec4 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -11,7 +11,7 @@ type IPackedArrayTraits[T any] interface {
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error)
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error
 }
 
 // PackedArrayTraits is a wrapper around array traits used when the array is
@@ -51,6 +51,6 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) {
-	contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
+func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
-- 
2.43.0


From 43dfc87c69fb9e560d5a2b9bb81fe6ffafd6d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 02/86] fix: check the range of bit field array elements

---
 ztype/array_traits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 5e5d196..2da6303 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -714,7 +714,7 @@ func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, er
 }
 
 func (trait BitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteUnsignedBits(writer, uint64(value), trait.NumBits)
 }
 
 func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
@@ -775,7 +775,7 @@ func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteSignedBits(writer, int64(value), trait.NumBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) AsUint64(value T) uint64 {
-- 
2.43.0


From 5281eb9fdd38c6e4a3d99fed37d5d77f121c026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 03/86] fix: report errors raised while reading a delta context
 descriptor

---
 ztype/delta_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 69bcdba..de5b10c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -87,7 +87,9 @@ func (context *DeltaContext[T]) BitSizeOf(arrayTraits IArrayTraits[T], bitPositi
 func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.Reader) (T, error) {
 	if !context.processingStarted {
 		context.processingStarted = true
-		context.ReadDescriptor(reader)
+		if err := context.ReadDescriptor(reader); err != nil {
+			return arrayTraits.FromUint64(0), err
+		}
 		return context.readUnpacked(arrayTraits, reader)
 	}
 	if !context.isPacked {
-- 
2.43.0


From 9f2dcd553dec4582e791de58a48ecfad114bd296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 04/86] fix: compute the delta of signed packed array elements
 as signed difference

---
 ztype/delta_context.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index de5b10c..fdac98c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -34,8 +34,16 @@ func arrayTraitsBitsizeOf[T any](arrayTraits IArrayTraits[T], bitPosition int, e
 	return arrayTraits.BitSizeOf(element, bitPosition)
 }
 
-func absDiff(lhs, rhs uint64) uint64 {
-	if lhs > rhs {
+// absDiff returns the absolute difference of two elements, given as uint64.
+func absDiff[T any](lhs, rhs uint64) uint64 {
+	var zero T
+	greater := lhs > rhs
+	switch any(zero).(type) {
+	case int8, int16, int32, int64:
+		// the values are sign-extended
+		greater = int64(lhs) > int64(rhs)
+	}
+	if greater {
 		return lhs - rhs
 	}
 	return rhs - lhs
@@ -53,7 +61,7 @@ func (context *DeltaContext[T]) Init(arrayTraits IArrayTraits[T], element T) {
 		context.isPacked = true
 		// Calculate the delta to the previous value, and calculate how many
 		// bits are needed to store the delta.
-		delta := absDiff(arrayTraits.AsUint64(element), *context.previousElement)
+		delta := absDiff[T](arrayTraits.AsUint64(element), *context.previousElement)
 		maxBitNumber := bits.Len64(delta)
 		if maxBitNumber > context.maxBitNumber {
 			context.maxBitNumber = maxBitNumber
-- 
2.43.0


From 58058905a815af322d1e969b5184a18003dad5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 05/86] fix: check the range of delta packed array elements

---
 ztype/delta_context.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index fdac98c..0c8e144 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -127,6 +127,11 @@ func (context *DeltaContext[T]) Write(arrayTraits IArrayTraits[T], writer zserio
 	if !context.isPacked {
 		return context.writeUnpacked(arrayTraits, writer, element)
 	}
+	// Only the difference is written, so make sure that the element itself is
+	// in the range of its type.
+	if err := arrayTraits.Write(discardWriter{}, element); err != nil {
+		return err
+	}
 	if context.maxBitNumber > 0 {
 		delta := arrayTraits.AsUint64(element) - *context.previousElement
 		err := writer.WriteBits(delta, uint8(context.maxBitNumber+1))
@@ -138,6 +143,16 @@ func (context *DeltaContext[T]) Write(arrayTraits IArrayTraits[T], writer zserio
 	return nil
 }
 
+// discardWriter is a writer that ignores everything that is written.
+type discardWriter struct{}
+
+func (discardWriter) Write(p []byte) (int, error)         { return len(p), nil }
+func (discardWriter) WriteByte(byte) error                { return nil }
+func (discardWriter) WriteBits(uint64, uint8) error       { return nil }
+func (discardWriter) WriteBitsUnsafe(uint64, uint8) error { return nil }
+func (discardWriter) WriteBool(bool) error                { return nil }
+func (discardWriter) Align(uint8) (int64, error)          { return 0, nil }
+
 // finishInit decided if the array should be written packed or unpacked,
 // depending on which variant is more space-efficient.
 func (context *DeltaContext[T]) finishInit() {
-- 
2.43.0


From 4601ccfefddc8cc919e066635882e26c4c45cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 06/86] fix: do not share bit field array traits between types

---
 ztype/array_traits.go | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 2da6303..779621e 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -102,29 +102,14 @@ type staticArrayTraits struct {
 	Int64     *SignedBitFieldArrayTraits[int64]
 }
 
-var (
-	mapSignedBitFieldArrayTraits []any = make([]any, 64)
-	mapBitFieldArrayTraits       []any = make([]any, 64)
-)
-
+// GetSignedBitFieldArrayTraits returns the array traits for signed bit fields.
 func GetSignedBitFieldArrayTraits[T constraints.Signed](numBits uint8) *SignedBitFieldArrayTraits[T] {
-	traits := mapSignedBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &SignedBitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapSignedBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*SignedBitFieldArrayTraits[T])
+	return &SignedBitFieldArrayTraits[T]{NumBits: numBits}
 }
 
+// GetBitFieldArrayTraits returns the array traits for unsigned bit fields.
 func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArrayTraits[T] {
-	traits := mapBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &BitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*BitFieldArrayTraits[T])
+	return &BitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 // Float16ArrayTraits is an array trait implementation for float16 arrays.
-- 
2.43.0


From d3df9b3f0ccfb11f2e215b4d9cd46a0ae0e31a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 07/86] fix: correct the bit sizes of variable-length elements

---
 .../templates/builtin_bitsizeof.go.tmpl       |  4 +--
 ztype/array_traits.go                         | 26 +++++++++++--------
 ztype/bytes_encode.go                         | 10 +++++++
 ztype/extern_encode.go                        | 10 +++++++
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index 4c6eeab..d45c3ca 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -22,8 +22,6 @@
         {{- else if eq $native.Type.Name "float16" }} endBitPosition += 16
         {{- else if eq $native.Type.Name "float32" }} endBitPosition += 32
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
-        {{- else if eq $native.Type.Name "extern" }} endBitPosition += int({{ $name }}.BitSize)
-        {{- else if eq $native.Type.Name "bytes" }} endBitPosition += 8 * int({{ $name }}.ByteSize)
         {{- else }}
             if delta, err := 
             {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
@@ -36,6 +34,8 @@
             {{- else if eq $native.Type.Name "varint32" }} ztype.SignedBitSize(int64({{ $name }}), 4)
             {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize({{ $name }}, 8)
             {{- else if eq $native.Type.Name "string" }} ztype.BitSizeOfString({{ $name }})
+            {{- else if eq $native.Type.Name "extern" }} ztype.BitSizeOfExtern({{ $name }})
+            {{- else if eq $native.Type.Name "bytes" }} ztype.BitSizeOfBytes({{ $name }})
             {{- end }}; err != nil {
                 return 0, err
             } else {
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 779621e..dfb9ecc 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -275,7 +275,7 @@ func (trait VarIntArrayTraits) NeedsReadIndex() bool {
 func (trait VarIntArrayTraits) BitSizeOf(element int64, endBitPosition int) int {
 	// the bit size of a VarInt only depends on the value, not on the position
 	// in the stream. endBitPosition is therefore ignored.
-	bitSize, _ := SignedBitSize(element, 8)
+	bitSize, _ := SignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -459,7 +459,7 @@ func (trait VarUInt16ArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUInt16ArrayTraits) BitSizeOf(element uint16, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(uint64(element), 4)
+	bitSize, _ := UnsignedBitSize(uint64(element), 2)
 	return bitSize
 }
 
@@ -594,7 +594,7 @@ func (trait VarUIntArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUIntArrayTraits) BitSizeOf(element uint64, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(element, 8)
+	bitSize, _ := UnsignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -842,15 +842,11 @@ func (trait StringArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait StringArrayTraits) BitSizeOf(element string, endBitPosition int) int {
-	byteLength := len(element)
-	bitSizeOfLength, err := SignedBitSize(int64(byteLength), 4)
+	bitSize, err := BitSizeOfString(element)
 	if err != nil {
 		return 0
 	}
-
-	// the total size of a string is 8 bits for each (UTF-8) character, and a
-	// varsize type for the number of characters
-	return bitSizeOfLength + byteLength*8
+	return bitSize
 }
 
 func (trait StringArrayTraits) InitializeOffsets(bitPosition int, value string) int {
@@ -894,7 +890,11 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	return int(element.BitSize)
+	bitSize, err := BitSizeOfExtern(element)
+	if err != nil {
+		return 0
+	}
+	return bitSize
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -938,7 +938,11 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	return int(element.ByteSize) * 8
+	bitSize, err := BitSizeOfBytes(element)
+	if err != nil {
+		return 0
+	}
+	return bitSize
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 656128d..4740f58 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -13,3 +13,13 @@ func WriteBytes(w zserio.Writer, b *BytesType) error {
 	}
 	return nil
 }
+
+// BitSizeOfBytes returns the zserio bit size of a bytes type.
+func BitSizeOfBytes(b *BytesType) (int, error) {
+	// the length is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(b.ByteSize)*8, nil
+}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 52f77df..c85fc5d 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -26,3 +26,13 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 	}
 	return nil
 }
+
+// BitSizeOfExtern returns the zserio bit size of an extern type.
+func BitSizeOfExtern(e *ExternType) (int, error) {
+	// the length in bits is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(e.BitSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(e.BitSize), nil
+}
-- 
2.43.0


From 5f4d91dcff5b517a3ff4d2e4809faa3b35023305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 08/86] fix: refuse the smallest int64 as varint64

---
 ztype/varint_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ztype/varint_encode.go b/ztype/varint_encode.go
index e2dd79c..1607a98 100644
--- a/ztype/varint_encode.go
+++ b/ztype/varint_encode.go
@@ -80,6 +80,14 @@ func writeVarInt(w zserio.Writer, v int64, maxBytes int) error {
 func SignedBitSize(v int64, maxBytes int) (int, error) {
 	// Unlike the Python zserio version this version is generic and does
 	// not need a per-type table, but still gets identical performance.
+	if v == MinInt64 {
+		// the magnitude does not fit into an int64; only varint can encode
+		// this value (in one byte, as negative zero)
+		if maxBytes < 9 {
+			return 0, ErrOutOfBounds
+		}
+		return 8, nil
+	}
 	if v < 0 {
 		v = -v
 	}
-- 
2.43.0


From 793a5bdc4828fe231a731f6e86e4686f65e11358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 09/86] fix: align by more than 64 bits

---
 zstream/reader.go | 8 ++++++++
 zstream/writer.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/zstream/reader.go b/zstream/reader.go
index 72748f7..b5ef348 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -54,6 +54,14 @@ func (r *BitReader) Align(boundary uint8) (int64, error) {
 		return r.reader.BitsCount, nil
 	}
 
+	// not more than 64 bits can be read at once
+	for d > 64 {
+		if _, err := r.ReadBits(64); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= 64
+	}
+
 	_, err := r.ReadBits(d)
 	if err != nil {
 		return 0, fmt.Errorf("discard: %w", err)
diff --git a/zstream/writer.go b/zstream/writer.go
index 5fb006b..af4c577 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -73,6 +73,14 @@ func (w *BitWriter) Align(boundary uint8) (int64, error) {
 		return w.writer.BitsCount, nil
 	}
 
+	// not more than 64 bits can be written at once
+	for d > 64 {
+		if err := w.WriteBits(0, 64); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= 64
+	}
+
 	err := w.WriteBits(0, d)
 	if err != nil {
 		return 0, fmt.Errorf("discard: %w", err)
-- 
2.43.0


From 36ac2824091d5317511ce1598c9819eadfb0ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 10/86] fix: write the right last bits of an extern value

---
 ztype/extern_encode.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index c85fc5d..331ae60 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -1,9 +1,20 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
+
+// ErrBufferSize is returned when the buffer of an extern or bytes value
+// does not hold the number of bits or bytes that the value claims to have.
+var ErrBufferSize = errors.New("buffer does not match the size of the value")
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	if (e.BitSize+7)/8 > uint64(len(e.Buffer)) {
+		return ErrBufferSize
+	}
 	if err := WriteVarsize(w, e.BitSize); err != nil {
 		return err
 	}
@@ -17,7 +28,7 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 
 	// and the remaining 1-7 bits
 	if remainingBits != 0 {
-		lastByte := uint64(e.Buffer[len(e.Buffer)-1])
+		lastByte := uint64(e.Buffer[numOfFullBytes])
 		numOfBitShift := 8 - remainingBits
 		lastByte = lastByte >> numOfBitShift
 		if err := w.WriteBits(lastByte, remainingBits); err != nil {
-- 
2.43.0


From 7b927a13c75cd008fb8c8bc74c706ad8eb1747ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 11/86] fix: refuse bytes values whose size does not match
 their buffer

---
 ztype/bytes_encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 4740f58..1cabc34 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -4,6 +4,9 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if b.ByteSize != uint64(len(b.Buffer)) {
+		return ErrBufferSize
+	}
 	if err := WriteVarsize(w, b.ByteSize); err != nil {
 		return err
 	}
-- 
2.43.0


From e9502b85bca1c9b60ed89a816e00733d72cfc1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 12/86] fix: do not trust announced sizes with large
 allocations

---
 ztype/array_decode.go        | 10 +++++++++-
 ztype/bytes_decode.go        | 28 ++++++++++++++++++++++------
 ztype/extern_decode.go       | 15 +++------------
 ztype/object_array_decode.go | 12 +++++++++++-
 ztype/string_decode.go       | 10 +++-------
 5 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 36f7c89..88e3a15 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -16,7 +16,15 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		arraySize = int(u64ReadSize)
 	}
 
-	array.RawArray = make([]T, 0, arraySize)
+	if arraySize < 0 {
+		return ErrOutOfBounds
+	}
+
+	capacity := arraySize
+	if capacity > readChunk {
+		capacity = readChunk
+	}
+	array.RawArray = make([]T, 0, capacity)
 
 	if arraySize > 0 {
 		var err error
diff --git a/ztype/bytes_decode.go b/ztype/bytes_decode.go
index af443d9..7564802 100644
--- a/ztype/bytes_decode.go
+++ b/ztype/bytes_decode.go
@@ -1,7 +1,7 @@
 package ztype
 
 import (
-	"errors"
+	"bytes"
 	"io"
 
 	zserio "github.com/woven-planet/go-zserio"
@@ -16,13 +16,29 @@ func ReadBytes(r zserio.Reader) (*BytesType, error) {
 		return nil, err
 	}
 
-	b.Buffer = make([]byte, b.ByteSize)
-	n, err := io.ReadFull(r, b.Buffer)
+	b.Buffer, err = readBytes(r, b.ByteSize)
 	if err != nil {
 		return nil, err
 	}
-	if n != int(b.ByteSize) {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	return b, nil
 }
+
+// readChunk is the number of bytes (or array elements) for which memory is
+// allocated before any of them is read. The number given in the bitstream may
+// be wrong, so it can not be trusted with a large allocation.
+const readChunk = 1 << 16
+
+// readBytes reads the given number of bytes from the bitstream.
+func readBytes(r zserio.Reader, size uint64) ([]byte, error) {
+	if size <= readChunk {
+		buf := make([]byte, size)
+		_, err := io.ReadFull(r, buf)
+		return buf, err
+	}
+	var out bytes.Buffer
+	n, err := io.Copy(&out, io.LimitReader(r, int64(size)))
+	if err == nil && uint64(n) < size {
+		err = io.ErrUnexpectedEOF
+	}
+	return out.Bytes(), err
+}
diff --git a/ztype/extern_decode.go b/ztype/extern_decode.go
index f3aea2c..76b4882 100644
--- a/ztype/extern_decode.go
+++ b/ztype/extern_decode.go
@@ -1,11 +1,6 @@
 package ztype
 
-import (
-	"errors"
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadExtern reads an zserio extern type (variable size bitbuffer) from a reader.
 func ReadExtern(r zserio.Reader) (*ExternType, error) {
@@ -15,17 +10,13 @@ func ReadExtern(r zserio.Reader) (*ExternType, error) {
 	if err != nil {
 		return nil, err
 	}
-	numOfFullBytes := int(e.BitSize / 8)
+	numOfFullBytes := e.BitSize / 8
 	remainingBits := uint8(e.BitSize % 8)
 
-	e.Buffer = make([]byte, numOfFullBytes, numOfFullBytes+1)
-	n, err := io.ReadFull(r, e.Buffer)
+	e.Buffer, err = readBytes(r, numOfFullBytes)
 	if err != nil {
 		return nil, err
 	}
-	if n != numOfFullBytes {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	if remainingBits != 0 {
 		lastByte, err := r.ReadBits(remainingBits)
 		if err != nil {
diff --git a/ztype/object_array_decode.go b/ztype/object_array_decode.go
index 096a32e..5c5c5ba 100644
--- a/ztype/object_array_decode.go
+++ b/ztype/object_array_decode.go
@@ -14,7 +14,15 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		arraySize = int(u64ReadSize)
 	}
 
-	result := make([]T, arraySize)
+	if arraySize < 0 {
+		return nil, ErrOutOfBounds
+	}
+
+	capacity := arraySize
+	if capacity > readChunk {
+		capacity = readChunk
+	}
+	result := make([]T, 0, capacity)
 	arrayTraits := ObjectArrayTraits[T, PT]{}
 
 	if arraySize > 0 {
@@ -32,6 +40,8 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		}
 
 		for index := 0; index < arraySize; index++ {
+			var zero T
+			result = append(result, zero)
 			element = &result[index]
 			if array.SetCompoundParameterFn != nil {
 				array.SetCompoundParameterFn(index, element)
diff --git a/ztype/string_decode.go b/ztype/string_decode.go
index 8020e9f..3f2a454 100644
--- a/ztype/string_decode.go
+++ b/ztype/string_decode.go
@@ -1,10 +1,6 @@
 package ztype
 
-import (
-	"io"
-
-	zserio "github.com/woven-planet/go-zserio"
-)
+import zserio "github.com/woven-planet/go-zserio"
 
 // ReadString reads a string from the bitstream.
 func ReadString(r zserio.Reader) (string, error) {
@@ -12,8 +8,8 @@ func ReadString(r zserio.Reader) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	buf := make([]byte, size)
-	if _, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readBytes(r, size)
+	if err != nil {
 		return "", err
 	}
 	return string(buf), nil
-- 
2.43.0


From 813822e913d499d4cc5d688bd7215f777c5315f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 13/86] fix: compute the size of arrays as they are written

---
 .../generator/templates/bitsizeof.go.tmpl     |  2 +
 ztype/array.go                                | 24 ++++++++---
 ztype/object_array.go                         | 40 ++++++++++---------
 3 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index e0c685c..3156b7a 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -41,6 +41,8 @@
         for _, element := range {{ $name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
         {{- end }}
     {{- end }}
     {{- $name = $field.Name }}
diff --git a/ztype/array.go b/ztype/array.go
index e5ab568..1c486f0 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -37,12 +37,15 @@ func (array *Array[T, Y]) Size() int {
 	return len(array.RawArray)
 }
 
-// ZserioBitSize returns the total size of the unpacked array in bits.
+// ZserioBitSize returns the total size of the array in bits.
 func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
+	if array.IsPacked {
+		return array.ZserioBitSizePacked(bitPosition)
+	}
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -51,7 +54,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	if array.ArrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy T
 		elementSize := array.ArrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
@@ -69,12 +72,12 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	return endBitPosition - bitPosition, nil
 }
 
-// BitSizeOfPacked returns the total size of the packed array in bits.
+// ZserioBitSizePacked returns the total size of the packed array in bits.
 func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -82,12 +85,21 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	}
 	if size > 0 {
 		packedTraits := array.ArrayTraits.PackedTraits()
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for _, element := range array.RawArray {
+			if err := packedTraits.InitContext(packedContext, element); err != nil {
+				return 0, err
+			}
+		}
 
 		for _, element := range array.RawArray {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, element)
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, element)
 			if err != nil {
 				return 0, err
 			}
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 29012b6..dd9156a 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -24,37 +24,30 @@ type ObjectArray[T any, PT zserio.PackableZserioType[T]] struct {
 	IsPacked bool
 }
 
-// ZserioBitSize returns the total size of the unpacked object array in bits.
+// ZserioBitSize returns the total size of the object array in bits.
 func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (int, error) {
+	if array.IsPacked {
+		return array.ZserioBitSizePacked(elements, bitPosition)
+	}
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
 		endBitPosition += delta
 	}
 
-	arrayTraits := ObjectArrayTraits[T, PT]{}
-
-	if arrayTraits.BitSizeOfIsConstant() && size > 0 {
-		var dummy PT
-		elementSize := arrayTraits.BitSizeOf(dummy, 0)
+	for i := 0; i < size; i++ {
 		if array.setOffsetMethod != nil {
-			endBitPosition += size * elementSize
-		} else {
-			// all elements are spaced in the same way
 			endBitPosition = alignTo(8, endBitPosition)
-			endBitPosition += elementSize + (size-1)*alignTo(8, elementSize)
 		}
-	} else {
-		for i := 0; i < size; i++ {
-			if array.setOffsetMethod != nil {
-				endBitPosition = alignTo(8, endBitPosition)
-			}
-			endBitPosition += arrayTraits.BitSizeOf(&elements[i], endBitPosition)
+		delta, err := PT(&elements[i]).ZserioBitSize(endBitPosition)
+		if err != nil {
+			return 0, err
 		}
+		endBitPosition += delta
 	}
 	return endBitPosition - bitPosition, nil
 }
@@ -64,7 +57,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -73,12 +66,21 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	if size > 0 {
 		arrayTraits := ObjectArrayTraits[T, PT]{}
 		packedTraits := arrayTraits.PackedTraits()
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for i := 0; i < size; i++ {
+			if err := packedTraits.InitContext(packedContext, &elements[i]); err != nil {
+				return 0, err
+			}
+		}
 
 		for i := 0; i < size; i++ {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, &elements[i])
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, &elements[i])
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From 159230511ddb714c540694fb483fee233277b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 14/86] fix: do not delta pack arrays of elements that are no
 integers

---
 ztype/array.go        |  8 +++++++-
 ztype/array_decode.go |  4 +++-
 ztype/array_encode.go |  6 ++++--
 ztype/array_traits.go | 32 ++++++++++----------------------
 4 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index 1c486f0..2a95b48 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -74,6 +74,13 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 
 // ZserioBitSizePacked returns the total size of the packed array in bits.
 func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
+	packedTraits := array.ArrayTraits.PackedTraits()
+	if packedTraits == nil {
+		unpacked := *array
+		unpacked.IsPacked = false
+		return unpacked.ZserioBitSize(bitPosition)
+	}
+
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
@@ -84,7 +91,6 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 		endBitPosition += delta
 	}
 	if size > 0 {
-		packedTraits := array.ArrayTraits.PackedTraits()
 		packedContext, err := packedTraits.CreateContext()
 		if err != nil {
 			return 0, err
diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 88e3a15..b062f0b 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -33,6 +33,8 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 
 		if array.IsPacked {
 			packedTraits = array.ArrayTraits.PackedTraits()
+		}
+		if packedTraits != nil {
 			// A descriptor is only written for packed arrays.
 			array.PackedContext, err = packedTraits.CreateContext()
 			if err != nil {
@@ -49,7 +51,7 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 				array.checkOffsetMethod(index, count)
 			}
 
-			if array.IsPacked {
+			if packedTraits != nil {
 				element, err = packedTraits.Read(array.PackedContext, reader, index)
 			} else {
 				element, err = array.ArrayTraits.Read(reader, index)
diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index 11ab38b..5ca17b4 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -17,9 +17,11 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 	if size > 0 {
 		var packedTraits IPackedArrayTraits[T]
 		if array.IsPacked {
+			packedTraits = array.ArrayTraits.PackedTraits()
+		}
+		if packedTraits != nil {
 			// descriptors are only needed if the array is packed
 			var err error
-			packedTraits = array.ArrayTraits.PackedTraits()
 			array.PackedContext, err = packedTraits.CreateContext()
 			if err != nil {
 				return err
@@ -39,7 +41,7 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				array.checkOffsetMethod(index, count)
 			}
 			var err error
-			if array.IsPacked {
+			if packedTraits != nil {
 				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
 				err = array.ArrayTraits.Write(writer, element)
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index dfb9ecc..058430a 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -21,7 +21,9 @@ type IArrayTraits[T any] interface {
 	// NeedsReadIndex specifies if the traits need the array index of the element.
 	NeedsReadIndex() bool
 
-	// PackedTraits will return the array trait as a packed object.
+	// PackedTraits will return the array trait as a packed object, or nil if
+	// the elements can not be packed. A packed array of such elements is
+	// written like an unpacked one.
 	PackedTraits() IPackedArrayTraits[T]
 
 	// BitSizeOf returns the bit size of array element. If the sizee depends on
@@ -116,9 +118,7 @@ func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArra
 type Float16ArrayTraits struct{}
 
 func (trait Float16ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float16ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float16ArrayTraits) BitSizeOfIsConstant() bool {
@@ -163,9 +163,7 @@ func (trait Float16ArrayTraits) FromUint64(value uint64) float32 {
 type Float32ArrayTraits struct{}
 
 func (trait Float32ArrayTraits) PackedTraits() IPackedArrayTraits[float32] {
-	return &PackedArrayTraits[float32, Float32ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float32ArrayTraits) BitSizeOfIsConstant() bool {
@@ -208,9 +206,7 @@ func (trait Float32ArrayTraits) FromUint64(value uint64) float32 {
 type Float64ArrayTraits struct{}
 
 func (trait Float64ArrayTraits) PackedTraits() IPackedArrayTraits[float64] {
-	return &PackedArrayTraits[float64, Float64ArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait Float64ArrayTraits) BitSizeOfIsConstant() bool {
@@ -774,9 +770,7 @@ func (trait SignedBitFieldArrayTraits[T]) FromUint64(value uint64) T {
 type BooleanArrayTraits struct{}
 
 func (trait BooleanArrayTraits) PackedTraits() IPackedArrayTraits[bool] {
-	return &PackedArrayTraits[bool, BooleanArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BooleanArrayTraits) BitSizeOfIsConstant() bool {
@@ -824,9 +818,7 @@ func (trait BooleanArrayTraits) FromUint64(value uint64) bool {
 type StringArrayTraits struct{}
 
 func (trait StringArrayTraits) PackedTraits() IPackedArrayTraits[string] {
-	return &PackedArrayTraits[string, StringArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait StringArrayTraits) BitSizeOfIsConstant() bool {
@@ -872,9 +864,7 @@ func (trait StringArrayTraits) FromUint64(value uint64) string {
 type BitBufferArrayTraits struct{}
 
 func (trait BitBufferArrayTraits) PackedTraits() IPackedArrayTraits[*ExternType] {
-	return &PackedArrayTraits[*ExternType, BitBufferArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BitBufferArrayTraits) BitSizeOfIsConstant() bool {
@@ -920,9 +910,7 @@ func (trait BitBufferArrayTraits) FromUint64(value uint64) *ExternType {
 type BytesArrayTraits struct{}
 
 func (trait BytesArrayTraits) PackedTraits() IPackedArrayTraits[*BytesType] {
-	return &PackedArrayTraits[*BytesType, BytesArrayTraits]{
-		ArrayTraits: trait,
-	}
+	return nil // delta encoding not supported
 }
 
 func (trait BytesArrayTraits) BitSizeOfIsConstant() bool {
-- 
2.43.0


From 0a079d75933c6ffdddb630604b6a551c035df5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 15/86] fix: convert values for the variable-length bit sizes

---
 internal/generator/templates/bitmask.go.tmpl           |  2 +-
 internal/generator/templates/builtin_bitsizeof.go.tmpl | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index e41159f..403e0c3 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -61,7 +61,7 @@ func (v *{{ $bitmask.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 {{- if not $native.Type.IsBuiltin }}
       panic("only builtin types supported")
 {{- else }}
-  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $obj_with_cast "native" $native "isoptional" false }}
+  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $obj_with_cast "native" $native "isarray" false "isoptional" false }}
 {{- end }}
   return endBitPosition - bitPosition, nil
 }
diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index d45c3ca..4c071b6 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -24,15 +24,15 @@
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
         {{- else }}
             if delta, err := 
-            {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
+            {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize(uint64({{ $name }}), 9)
             {{- else if eq $native.Type.Name "varuint16" }} ztype.UnsignedBitSize(uint64({{ $name }}), 2)
             {{- else if eq $native.Type.Name "varuint32" }} ztype.UnsignedBitSize(uint64({{ $name }}), 4)
-            {{- else if eq $native.Type.Name "varuint64" }} ztype.UnsignedBitSize({{ $name }}, 8)
-            {{- else if eq $native.Type.Name "varsize" }} ztype.UnsignedBitSize({{ $name }}, 5)
-            {{- else if eq $native.Type.Name "varint" }} ztype.SignedBitSize({{ $name }}, 9)
+            {{- else if eq $native.Type.Name "varuint64" }} ztype.UnsignedBitSize(uint64({{ $name }}), 8)
+            {{- else if eq $native.Type.Name "varsize" }} ztype.UnsignedBitSize(uint64({{ $name }}), 5)
+            {{- else if eq $native.Type.Name "varint" }} ztype.SignedBitSize(int64({{ $name }}), 9)
             {{- else if eq $native.Type.Name "varint16" }} ztype.SignedBitSize(int64({{ $name }}), 2)
             {{- else if eq $native.Type.Name "varint32" }} ztype.SignedBitSize(int64({{ $name }}), 4)
-            {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize({{ $name }}, 8)
+            {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize(int64({{ $name }}), 8)
             {{- else if eq $native.Type.Name "string" }} ztype.BitSizeOfString({{ $name }})
             {{- else if eq $native.Type.Name "extern" }} ztype.BitSizeOfExtern({{ $name }})
             {{- else if eq $native.Type.Name "bytes" }} ztype.BitSizeOfBytes({{ $name }})
-- 
2.43.0


From 8dfc8453a84ebe445d568ebbf07851af67ba71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 16/86] fix: size packed compounds as they are written

---
 .../templates/packing_context_bitsize.go.tmpl       | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index cf25cf7..76830d2 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,8 +18,8 @@
     {{- end }}
 {{- end }}
 
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- if $field.OptionalClause }}
+    if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
 
 {{- if $field.IsOptional}}
@@ -27,6 +27,10 @@
     if v.{{ $field.Name }} != nil {
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
+
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
@@ -43,6 +47,8 @@
         for _, element := range {{ $field_name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
         {{- end }}
 
         if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked(endBitPosition); err != nil {
@@ -79,3 +85,6 @@
 {{- if $field.IsOptional}}
     }
 {{- end }}
+{{- if $field.OptionalClause }}
+    }
+{{- end }}
-- 
2.43.0


From b1e85b59caba4f0ee03da231957efdf89e21d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 17/86] fix: refuse unions without a valid choice

---
 internal/generator/templates/union.go.tmpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 6db8759..525be6a 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -33,6 +33,9 @@ func (v *{{ $union.Name}}) LoadDefaultValues() error {
 
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return fmt.Errorf("invalid choice of union {{ $union.Name }}: %d", uint64(v.UnionChoice))
+  }
   err := ztype.WriteVarsize(w, uint64(v.UnionChoice))
   if err != nil {
     return err
@@ -52,6 +55,9 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
        return err
     }
     v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+    if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+        return fmt.Errorf("invalid choice of union {{ $union.Name }}: %d", unionChoice)
+    }
 
 {{- range $field := $union.Fields }}
    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
-- 
2.43.0


From e0ccf164194c7f9cd715993270bda81933459e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 18/86] fix: write and read unions in packed arrays

---
 internal/generator/templates/union.go.tmpl | 72 +++++++++++++++++++---
 1 file changed, 65 insertions(+), 7 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 525be6a..496cebc 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -87,6 +87,8 @@ func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 
 func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
+  // the first context is the one of the choice itself
+  contextNode.AddChild(ztype.CreatePackingContextNode[uint64]())
 {{- range $field := $union.Fields }}
   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
 {{- end}}
@@ -95,20 +97,60 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
 
 func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
     childrenNodes := contextNode.GetChildren()
-    _ = childrenNodes // to avoid "declared but not used" warning
+    choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+        return errors.New("unknown context type")
+    }
+    choiceContext.Init(ztype.ArrayTraits.VarSize, uint64(v.UnionChoice))
 {{- range $index, $field := $union.Fields }}
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+    }
 {{- end}}
   return nil
 }
 
 func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-  return nil
+    childrenNodes := contextNode.GetChildren()
+    choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+        return errors.New("unknown context type")
+    }
+    unionChoice, err := choiceContext.Read(ztype.ArrayTraits.VarSize, r)
+    if err != nil {
+        return err
+    }
+    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+    if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+        return fmt.Errorf("invalid choice of union {{ $union.Name }}: %d", unionChoice)
+    }
+{{- range $index, $field := $union.Fields }}
+    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+    }
+{{- end}}
+    return nil
 }
 
-
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Writer) error {
-  return nil
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+    if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+        return fmt.Errorf("invalid choice of union {{ $union.Name }}: %d", uint64(v.UnionChoice))
+    }
+    childrenNodes := contextNode.GetChildren()
+    choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+        return errors.New("unknown context type")
+    }
+    err := choiceContext.Write(ztype.ArrayTraits.VarSize, w, uint64(v.UnionChoice))
+    if err != nil {
+        return err
+    }
+{{- range $index, $field := $union.Fields }}
+    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+    }
+{{- end}}
+    return nil
 }
 
 func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.PackingContextNode, bitPosition int) int {
@@ -116,5 +158,21 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
 }
 
 func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
-  return 0, nil
+  endBitPosition := bitPosition
+  childrenNodes := contextNode.GetChildren()
+  choiceContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return 0, errors.New("unknown context type")
+  }
+  if delta, err := choiceContext.BitSizeOf(ztype.ArrayTraits.VarSize, endBitPosition, uint64(v.UnionChoice)); err != nil {
+    return 0, err
+  } else {
+    endBitPosition += delta
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+    {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
+  return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From 87fc047f61c8f34616be40f4d83941c2ac044b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 19/86] fix: select the branch of a choice by all labels of its
 cases

---
 internal/ast/choice.go                      | 37 +++++++++++++---
 internal/generator/funcs.go                 | 14 ++++++
 internal/generator/templates.go             |  1 +
 internal/generator/templates/choice.go.tmpl | 48 +++++++++++----------
 4 files changed, 70 insertions(+), 30 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index fd9f1f3..e433845 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -43,6 +43,12 @@ func (choice *Choice) BuildScope(p *Package) error {
 			compoundScope.Scope[choiceCase.Field.Name] = choiceCase.Field
 		}
 	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		compoundScope.Scope[choice.DefaultCase.Field.Name] = choice.DefaultCase.Field
+	}
+	for _, function := range choice.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[choice.Name] = compoundScope
 	return nil
 }
@@ -50,6 +56,11 @@ func (choice *Choice) BuildScope(p *Package) error {
 // fullySpecifyChoiceConditions fully specifies a choice condition in case the
 // choice case is given as a text, but not a fully determined symbol.
 func (choice *Choice) fullySpecifyChoiceConditions() error {
+	// other labels than enum and bitmask values are not relative to a type
+	if choice.SelectorExpression.ResultType != ExpressionTypeEnum &&
+		choice.SelectorExpression.ResultType != ExpressionTypeBitmask {
+		return nil
+	}
 	for _, choiceCase := range choice.Cases {
 		for _, condition := range choiceCase.Conditions {
 			// in case the choice case is just a text string, replace that
@@ -60,15 +71,20 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 			if condition.Condition.Type == parser.ZserioParserID {
 				// convert the selector from the parameter type to the underlying
 				// actual type (e.g. enum, bitfield)
-				parameterType, ok := choice.SelectorExpression.ResultSymbol.Symbol.(*Parameter)
-				if !ok {
-					return errors.New("choice selector type is not a parameter")
+				var selectorType *TypeReference
+				switch n := choice.SelectorExpression.ResultSymbol.Symbol.(type) {
+				case *Parameter:
+					selectorType = n.Type
+				case *Field:
+					selectorType = n.Type
+				default:
+					return errors.New("choice selector type is not a parameter or field")
 				}
 				dotExpression := &Expression{
 					Type: parser.ZserioParserDOT,
 					Operand1: &Expression{
 						Type: parser.ZserioParserID,
-						Text: parameterType.Type.Name,
+						Text: selectorType.Name,
 					},
 					Operand2: condition.Condition,
 				}
@@ -117,8 +133,15 @@ func (choice *Choice) Evaluate(p *Package) error {
 		}
 	}
 
-	if choice.DefaultCase == nil || choice.DefaultCase.Field == nil {
-		return nil
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		if err := choice.DefaultCase.Field.Evaluate(p); err != nil {
+			return err
+		}
 	}
-	return choice.DefaultCase.Field.Evaluate(p)
+	for _, function := range choice.Functions {
+		if err := function.Result.Evaluate(p); err != nil {
+			return err
+		}
+	}
+	return nil
 }
diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index e33110e..dd04df8 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -3,6 +3,7 @@ package generator
 // This file contains helper functions that can be called from templates.
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -65,6 +66,19 @@ func GoExpression(scope ast.Scope, expression *ast.Expression) string {
 	return ExpressionToGoString(scope, expression)
 }
 
+// GoCaseLabels returns the values of all labels of a choice case.
+func GoCaseLabels(conditions []*ast.ChoiceCaseExpression) string {
+	labels := []string{}
+	for _, condition := range conditions {
+		if condition.Condition.ResultType == ast.ExpressionTypeBool {
+			labels = append(labels, fmt.Sprintf("%t", condition.Condition.ResultBoolValue))
+		} else {
+			labels = append(labels, fmt.Sprintf("%d", condition.Condition.ResultIntValue))
+		}
+	}
+	return strings.Join(labels, ", ")
+}
+
 func GoNativeType(pkg *ast.Package, typ *ast.TypeReference) (*ast.OriginalTypeReference, error) {
 	return pkg.GetOriginalType(typ)
 }
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index 0d70aae..53cadd2 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -22,6 +22,7 @@ func init() {
 		"getTypeParameter":  GetTypeParameter,
 		"goPackageAlias":    GoPackageAlias,
 		"goExpression":      GoExpression,
+		"goCaseLabels":      GoCaseLabels,
 		"goArrayTraits":     GoArrayTraits,
 		"goNativeType":      GoNativeType,
 		"add":               Add,
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 21873d1..3e88a8c 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -36,10 +36,10 @@ func (v *{{ $choice.Name}}) LoadDefaultValues() error {
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goCaseLabels .Conditions }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -57,10 +57,10 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
 func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goCaseLabels .Conditions }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -75,13 +75,15 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   return nil
 }
 
+{{template "functions.go.tmpl" dict "name" $choice.Name "scope" $scope "functions" $choice.Functions }}
+
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goCaseLabels .Conditions }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
@@ -106,21 +108,21 @@ func (v *{{ $choice.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packi
 }
 
 func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-    {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
+        case {{ goCaseLabels .Conditions }}:
+      {{- if .Field }}
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end }}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
 {{- end }}
@@ -128,15 +130,15 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 }
 
 func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-    {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
+        case {{ goCaseLabels .Conditions }}:
+      {{- if .Field }}
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -152,15 +154,15 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
 }
 
 func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-    {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
+        case {{ goCaseLabels .Conditions }}:
+      {{- if .Field }}
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -181,14 +183,14 @@ func (v *{{ $choice.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pa
 
 func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
   endBitPosition := bitPosition
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-    {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
+        case {{ goCaseLabels .Conditions }}:
+      {{- if .Field }}
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
-- 
2.43.0


From d439cb5a5dd360c1dbf92fd7176ce662052d1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 20/86] fix: resolve the parameters and functions of unions in
 their own scope

---
 internal/ast/union.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7e8dcd4..9ca57c4 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -21,6 +21,9 @@ func (u *Union) BuildScope(p *Package) error {
 	for _, field := range u.Fields {
 		compoundScope.Scope[field.Name] = field
 	}
+	for _, function := range u.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
 }
@@ -30,6 +33,8 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
+	p.LocalSymbols.CurrentCompoundScope = &u.Name
+
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
 			return err
-- 
2.43.0


From 8037f7c450616718c99d3658aa45d29988e3bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 21/86] fix: keep the schema name of the default field of a
 choice

---
 internal/model/transform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 3c58d54..5778855 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -111,6 +111,7 @@ func (m *Model) CapitalizeNames() {
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
 				if !choice.DefaultCase.Field.Type.IsBuiltin {
 					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
-- 
2.43.0


From dab0abd7e7b0dd6595bca7deeff2258eb6d00292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 22/86] fix: resolve the type of the default field of a choice

---
 internal/model/transform.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 5778855..fc2f4fe 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -726,6 +726,26 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				field := choice.DefaultCase.Field
+				if field.Type.Package == "" && templateParams[field.Type.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, field.Type, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      choice.Name,
+						},
+						Field: field.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, union := range pkg.Unions {
-- 
2.43.0


From b3f88d21aaa1ed2875acb66c267ed6eac7fa48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 23/86] fix: convert subtypes of bytes and extern

---
 internal/generator/templates/bitsizeof.go.tmpl              | 4 ++--
 internal/generator/templates/decode.go.tmpl                 | 2 +-
 internal/generator/templates/encode.go.tmpl                 | 4 ++--
 .../generator/templates/packing_context_bitsize.go.tmpl     | 4 ++--
 internal/generator/templates/packing_context_decode.go.tmpl | 2 +-
 internal/generator/templates/packing_context_encode.go.tmpl | 6 +++---
 internal/generator/templates/packing_context_init.go.tmpl   | 2 +-
 7 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index 3156b7a..c877b55 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -12,7 +12,7 @@
             {{- $name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $name = printf "%s(%s)" (goType $scope $native.Type) $name }}
+        {{- $name = printf "(%s)(%s)" (goType $scope $native.Type) $name }}
     {{- end }}
 {{- end }}
 
@@ -39,7 +39,7 @@
         }
         {{- else if $native.RequiresCast }}
         for _, element := range {{ $name }} {
-            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
         }
         {{- else }}
         {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 44e5170..22d98ad 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -16,7 +16,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 686bf49..08c6473 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -16,7 +16,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -53,7 +53,7 @@
         {{- else if $native.RequiresCast }}
             {{ $field.Name }}ArrayProperties.RawArray = make([]{{ goType $scope $native.Type }}, 0, {{ $field.Name }}ArrayProperties.FixedSize)
             for _, element := range {{ $field_name }} {
-                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
             }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index 76830d2..9a20832 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -14,7 +14,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -45,7 +45,7 @@
         }
         {{- else if $native.RequiresCast }}
         for _, element := range {{ $field_name }} {
-            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
         }
         {{- else }}
         {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 49fb863..56115ef 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -17,7 +17,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 9222412..33655d7 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -17,7 +17,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -65,7 +65,7 @@
             }
         {{- else if $native.RequiresCast }}
             for _, element := range {{ $field_name }} {
-                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
             }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
@@ -91,7 +91,7 @@
     }
 
 {{- else }}
-    if err := ztype.Write{{ title $native.Type.Name }}(w, {{ if $native.RequiresCast }}{{ goType $scope $native.Type }}({{end}}{{ $field_name }}{{ if $native.RequiresCast }}){{end}}); err != nil {
+    if err := ztype.Write{{ title $native.Type.Name }}(w, {{ $field_name }}); err != nil {
         return err
     } 
 
diff --git a/internal/generator/templates/packing_context_init.go.tmpl b/internal/generator/templates/packing_context_init.go.tmpl
index 8fee3a2..3968616 100644
--- a/internal/generator/templates/packing_context_init.go.tmpl
+++ b/internal/generator/templates/packing_context_init.go.tmpl
@@ -13,7 +13,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
-- 
2.43.0


From 5d72a1236102ea3eb8dc40ca16cdb77bdc07bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 24/86] fix: fix: look up relative choice labels in the
 selector type only

---
 internal/ast/choice.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index e433845..4a95d71 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -86,7 +86,10 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 						Type: parser.ZserioParserID,
 						Text: selectorType.Name,
 					},
-					Operand2: condition.Condition,
+					Operand2: &Expression{
+						Type: parser.UnevaluatableExpressionType,
+						Text: condition.Condition.Text,
+					},
 				}
 				condition.Condition = dotExpression
 			}
-- 
2.43.0


From 5fa4a685ce94bf3f236ec5ec3cbed7d9b2947f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 25/86] fix: fix: resolve fields of array elements in
 expressions

---
 internal/ast/expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cafac3b..9ea45f8 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -351,6 +351,8 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
 		return err
 	}
+	// the fields of a compound element are looked up in the type of the array
+	expr.ResultSymbol = expr.Operand1.ResultSymbol
 	return nil
 }
 
-- 
2.43.0


From 92283f84e53297219469ee0b1f865ebef717aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 26/86] fix: evaluate integer operations of generated
 expressions with 64 bits

---
 internal/generator/expression.go | 193 ++++++++++++++++++++++++++-----
 1 file changed, 162 insertions(+), 31 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8f4da4f..c1ac837 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -160,6 +160,16 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 	operand1Str := ExpressionToGoString(scope, expression.Operand1)
 	operand2Str := ExpressionToGoString(scope, expression.Operand2)
 
+	if isIntegerOperation(expression) {
+		return integerOperationToGoString(scope, expression, operator)
+	}
+
+	if expression.ResultType == ast.ExpressionTypeBool &&
+		(expression.Operand1.ResultType == ast.ExpressionTypeFloat || expression.Operand2.ResultType == ast.ExpressionTypeFloat) {
+		// a comparison of floats, or of a float and an integer
+		return fmt.Sprintf("(float64(%s) %s float64(%s))", operand1Str, operator, operand2Str)
+	}
+
 	// Check if casting is needed because of different original types.
 	// Casting is needed in the following cases:
 	// - mixing floats with integers
@@ -245,22 +255,126 @@ func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression
 		}
 	}
 
-	return fmt.Sprintf("%s %s %s",
+	return fmt.Sprintf("(%s %s %s)",
 		operand1Str,
 		operator,
 		operand2Str)
 }
 
+// isIntegerValued returns if the value of an expression is an integer in the
+// generated Go code. The items of enums and bitmasks are integers, too.
+func isIntegerValued(expression *ast.Expression) bool {
+	return expression.ResultType == ast.ExpressionTypeInteger ||
+		expression.ResultType == ast.ExpressionTypeEnum ||
+		expression.ResultType == ast.ExpressionTypeBitmask
+}
+
+func isIntegerOperation(expression *ast.Expression) bool {
+	return isIntegerValued(expression.Operand1) &&
+		(expression.Operand2 == nil || isIntegerValued(expression.Operand2))
+}
+
+// needsUint64 returns if the value of an integer expression may exceed the
+// range of int64.
+func needsUint64(scope ast.Scope, expression *ast.Expression) bool {
+	if expression.FullyResolved {
+		return false
+	}
+	switch expression.Type {
+	case parser.ZserioParserID, parser.ZserioParserDOT, parser.ZserioParserLBRACKET, parser.ZserioParserRPAREN:
+		if expression.ResultSymbol == nil {
+			return false
+		}
+		symbolType, err := getSymbolType(scope, expression.ResultSymbol)
+		if err != nil || symbolType == nil {
+			return false
+		}
+		originalType, err := scope.OriginalType(symbolType)
+		if err != nil || !originalType.Type.IsBuiltin {
+			return false
+		}
+		switch originalType.Type.Name {
+		case "uint64", "varuint", "varuint64":
+			return true
+		case "bit":
+			return originalType.Type.Bits == 64
+		}
+		return false
+	case parser.ZserioParserQUESTIONMARK:
+		return needsUint64(scope, expression.Operand2) || needsUint64(scope, expression.Operand3)
+	case parser.ZserioParserLSHIFT, parser.ZserioParserRSHIFT:
+		return needsUint64(scope, expression.Operand1)
+	case parser.ZserioParserLPAREN, parser.ZserioParserVALUEOF, parser.ZserioParserTILDE:
+		return needsUint64(scope, expression.Operand1)
+	case parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserMULTIPLY, parser.ZserioParserDIVIDE,
+		parser.ZserioParserMODULO, parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR:
+		return needsUint64(scope, expression.Operand1) ||
+			(expression.Operand2 != nil && needsUint64(scope, expression.Operand2))
+	default:
+		return false
+	}
+}
+
+// integerOperandToGoString prints an integer operand with the given Go type.
+// Constants are left untyped, and take the type of the other operand.
+func integerOperandToGoString(scope ast.Scope, operand *ast.Expression, goType string) string {
+	text := ExpressionToGoString(scope, operand)
+	if operand.FullyResolved {
+		return text
+	}
+	return fmt.Sprintf("%s(%s)", goType, text)
+}
+
+// integerOperationToGoString prints an operation of one or two integers. The
+// operands can have different types, and the result can exceed the range of
+// both of them, so the operation is done with 64 bits.
+func integerOperationToGoString(scope ast.Scope, expression *ast.Expression, operator string) string {
+	goType := "int64"
+	operands := []*ast.Expression{expression.Operand1}
+	if expression.Operand2 != nil {
+		operands = append(operands, expression.Operand2)
+	}
+	for _, operand := range operands {
+		if needsUint64(scope, operand) {
+			goType = "uint64"
+		}
+	}
+	for _, operand := range operands {
+		// there is no unsigned form of a negative number
+		if operand.FullyResolved && operand.ResultIntValue < 0 {
+			goType = "int64"
+		}
+	}
+	if expression.Operand2 == nil {
+		return fmt.Sprintf("(%s%s)", operator, integerOperandToGoString(scope, expression.Operand1, goType))
+	}
+	return fmt.Sprintf("(%s %s %s)",
+		integerOperandToGoString(scope, expression.Operand1, goType),
+		operator,
+		integerOperandToGoString(scope, expression.Operand2, goType))
+}
+
+func shiftOperatorToGoString(scope ast.Scope, expression *ast.Expression, operator string) string {
+	goType := "int64"
+	if needsUint64(scope, expression.Operand1) {
+		goType = "uint64"
+	}
+	// Always give the first operand a type, see
+	// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
+	return fmt.Sprintf("(%s(%s) %s %s)",
+		goType,
+		ExpressionToGoString(scope, expression.Operand1),
+		operator,
+		ExpressionToGoString(scope, expression.Operand2))
+}
+
 func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	operator := ""
-	isShiftOperator := false
 	switch expression.Type {
 	case parser.ZserioLexerLSHIFT:
-		operator = "<<"
-		isShiftOperator = true
+		return shiftOperatorToGoString(scope, expression, "<<")
 	case parser.ZserioParserRSHIFT:
-		operator = ">>"
-		isShiftOperator = true
+		return shiftOperatorToGoString(scope, expression, ">>")
 	case parser.ZserioParserAND:
 		operator = "&"
 	case parser.ZserioParserOR:
@@ -272,47 +386,56 @@ func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserLOGICAL_OR:
 		operator = "||"
 	}
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
-	if isShiftOperator && expression.Operand1.ResultType == ast.ExpressionTypeInteger && expression.Operand1.FullyResolved {
-		// Resolve issue
-		// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
-		// Shift operations in Go may implicitly cast the first parameter to a float
-		// if there is a cast to a different type.
-		expressionGoType, err := GoType(scope, expression.NativeZserioType)
-		if err != nil {
-			panic(err)
-		}
-		operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
+	if isIntegerOperation(expression) {
+		return integerOperationToGoString(scope, expression, operator)
 	}
 
-	return fmt.Sprintf("%s %s %s",
-		operand1Str,
+	return fmt.Sprintf("(%s %s %s)",
+		ExpressionToGoString(scope, expression.Operand1),
 		operator,
 		ExpressionToGoString(scope, expression.Operand2))
 }
 
+func unaryOperatorToGoString(scope ast.Scope, expression *ast.Expression, operator string) string {
+	if isIntegerOperation(expression) {
+		return integerOperationToGoString(scope, expression, operator)
+	}
+	return fmt.Sprintf("(%s%s)", operator, ExpressionToGoString(scope, expression.Operand1))
+}
+
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	op1 := ExpressionToGoString(scope, expression.Operand1)
 	op2 := ExpressionToGoString(scope, expression.Operand2)
 	op3 := ExpressionToGoString(scope, expression.Operand3)
-	if expression.ResultType == ast.ExpressionTypeInteger {
-		// in case the expression is a subtype of int (such as uint16), cast to
-		// integer to avoid type cast errors
-		typeCast := "int"
-		op3 = fmt.Sprintf("%s(%s)", typeCast, op3)
-		op2 = fmt.Sprintf("%s(%s)", typeCast, op2)
+	goType := ""
+	switch expression.ResultType {
+	case ast.ExpressionTypeBool:
+		goType = "bool"
+	case ast.ExpressionTypeString:
+		goType = "string"
+	case ast.ExpressionTypeFloat:
+		goType = "float64"
+	default:
+		// the operands can be integers of different types
+		goType = "int64"
+		if needsUint64(scope, expression) {
+			goType = "uint64"
+		}
 	}
-	// Ternary expressions are not supported by Go. As a workaround,
-	// generate the ternary expression as an if/else
-	return fmt.Sprintf("%s\nif %s {\nretVal = %s\n}\n",
-		op3,
+	// Ternary expressions are not supported by Go. As a workaround, generate a
+	// function that is called in place.
+	return fmt.Sprintf("func() %s {\nif %s {\nreturn %s(%s)\n}\nreturn %s(%s)\n}()",
+		goType,
 		op1,
-		op2,
+		goType, op2,
+		goType, op3,
 	)
 }
 
 func isSetOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("%s & %s != 0", ExpressionToGoString(scope, expression.Operand1), ExpressionToGoString(scope, expression.Operand2))
+	// all bits of the second operand must be set
+	mask := fmt.Sprintf("uint64(%s)", ExpressionToGoString(scope, expression.Operand2))
+	return fmt.Sprintf("(uint64(%s) & %s == %s)", ExpressionToGoString(scope, expression.Operand1), mask, mask)
 }
 
 func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -359,9 +482,17 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserNUMBITS:
 		return numBitsOperatorToGoString(scope, expression)
 	case parser.ZserioParserPLUS:
+		if expression.Operand2 == nil {
+			return unaryOperatorToGoString(scope, expression, "+")
+		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserMINUS:
+		if expression.Operand2 == nil {
+			return unaryOperatorToGoString(scope, expression, "-")
+		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
+	case parser.ZserioParserTILDE:
+		return unaryOperatorToGoString(scope, expression, "^")
 	case parser.ZserioParserMULTIPLY:
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserDIVIDE:
-- 
2.43.0


From 3c26215aabe143c37fc0798775320fbd451d4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 27/86] fix: return no bits when no bits are read

---
 zstream/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zstream/reader.go b/zstream/reader.go
index b5ef348..4b80885 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -39,6 +39,10 @@ func (r *BitReader) ReadByte() (byte, error) {
 
 // ReadBits reads n bits and returns them as the lowest n bits of u.
 func (r *BitReader) ReadBits(n uint8) (uint64, error) {
+	if n == 0 {
+		// the underlying reader would return bits that have been read before
+		return 0, nil
+	}
 	return r.reader.ReadBits(n)
 }
 
-- 
2.43.0


From 5a1ba8b4dac64bef658390df3f83bc3cc9fc3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 28/86] fix: check all bits of constant isset operations

---
 internal/ast/expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 9ea45f8..6e8a4d6 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -424,7 +424,8 @@ func (expr *Expression) evaluateIsSetOperator() error {
 		return errors.New("the second operand of the isset() operator must be a bitmask")
 	}
 	expr.ResultType = ExpressionTypeBool
-	expr.ResultBoolValue = expr.Operand1.ResultIntValue&expr.Operand2.ResultIntValue != 0
+	// all bits of the second operand must be set
+	expr.ResultBoolValue = expr.Operand1.ResultIntValue&expr.Operand2.ResultIntValue == expr.Operand2.ResultIntValue
 	return nil
 }
 
-- 
2.43.0


From 09c30962c4d7cdc426b1e5e308b812bc2690611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 29/86] fix: evaluate constant numbits operations like at run
 time

---
 internal/ast/expression.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 6e8a4d6..50bf234 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -224,7 +224,14 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = int64(bits.Len64(uint64(expr.Operand1.ResultIntValue)))
+	// The result is the number of bits needed to encode as many different
+	// values as the operand. This must match ztype.NumBits().
+	numValues := uint64(expr.Operand1.ResultIntValue)
+	if numValues > 1 {
+		expr.ResultIntValue = int64(bits.Len64(numValues - 1))
+	} else {
+		expr.ResultIntValue = int64(numValues)
+	}
 	return nil
 }
 
-- 
2.43.0


From a3e05e0688f0e9c2bc5873fcb87ae7d8696884e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 30/86] fix: keep float values of parenthesised, ternary and
 negated constants

---
 internal/ast/expression.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 50bf234..40cba44 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -441,11 +441,7 @@ func (expr *Expression) evaluateParenthesizedExpression() error {
 	if expr.Operand1 == nil {
 		return errors.New("parenthesis needs an operand")
 	}
-	expr.ResultType = expr.Operand1.ResultType
-	expr.ResultIntValue = expr.Operand1.ResultIntValue
-	expr.ResultStringValue = expr.Operand1.ResultStringValue
-	expr.ResultBoolValue = expr.Operand1.ResultBoolValue
-	expr.NativeZserioType = expr.Operand1.NativeZserioType
+	copyExpressionResult(expr.Operand1, expr)
 	return nil
 }
 
@@ -467,6 +463,11 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
 		}
+	} else {
+		expr.ResultFloatValue = expr.Operand1.ResultFloatValue
+		if expr.Type == parser.ZserioParserMINUS {
+			expr.ResultFloatValue = -expr.Operand1.ResultFloatValue
+		}
 	}
 	return nil
 }
@@ -666,17 +667,9 @@ func (expr *Expression) evaluateTernaryExpression() error {
 	}
 
 	if expr.Operand1.ResultBoolValue {
-		expr.ResultType = expr.Operand2.ResultType
-		expr.ResultIntValue = expr.Operand2.ResultIntValue
-		expr.ResultBoolValue = expr.Operand2.ResultBoolValue
-		expr.ResultStringValue = expr.Operand2.ResultStringValue
-		expr.NativeZserioType = expr.Operand2.NativeZserioType
+		copyExpressionResult(expr.Operand2, expr)
 	} else {
-		expr.ResultType = expr.Operand3.ResultType
-		expr.ResultIntValue = expr.Operand3.ResultIntValue
-		expr.ResultBoolValue = expr.Operand3.ResultBoolValue
-		expr.ResultStringValue = expr.Operand3.ResultStringValue
-		expr.NativeZserioType = expr.Operand3.NativeZserioType
+		copyExpressionResult(expr.Operand3, expr)
 	}
 	return nil
 }
-- 
2.43.0


From f0f52b9e0864f78872524c9b670dd2a053541460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 31/86] fix: report divisions by zero and negative shifts of
 constants

---
 internal/ast/expression.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 40cba44..9173342 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -523,8 +523,14 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		case parser.ZserioParserMULTIPLY:
 			expr.ResultIntValue = op1 * op2
 		case parser.ZserioParserDIVIDE:
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
 			expr.ResultIntValue = op1 / op2
 		case parser.ZserioParserMODULO:
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
 			expr.ResultIntValue = op1 % op2
 		default:
 			return errors.New("unexpected operation in integer arithmetic expression")
@@ -560,6 +566,9 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		case parser.ZserioParserMULTIPLY:
 			expr.ResultFloatValue = op1 * op2
 		case parser.ZserioParserDIVIDE:
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
 			expr.ResultFloatValue = op1 / op2
 		default:
 			return errors.New("unexpected operation in float arithmetic expression")
@@ -702,6 +711,11 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	isShiftOperation := false
 
+	if (expr.Type == parser.ZserioLexerLSHIFT || expr.Type == parser.ZserioParserRSHIFT) &&
+		expr.Operand2.ResultIntValue < 0 {
+		return errors.New("negative shift count")
+	}
+
 	switch expr.Type {
 	case parser.ZserioLexerLSHIFT:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue << expr.Operand2.ResultIntValue
-- 
2.43.0


From 051ae0d1a2c2dba01da0a50f99aa80af1bf53823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 32/86] fix: parse float literals with a suffix

---
 internal/ast/expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 9173342..5b9cf04 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -911,7 +911,8 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioLexerFLOAT_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float32"}
-		expr.ResultFloatValue, err = strconv.ParseFloat(expr.Text, 32)
+		// remove the trailing "f"
+		expr.ResultFloatValue, err = strconv.ParseFloat(strings.TrimRight(expr.Text, "fF"), 32)
 	case parser.ZserioParserDOUBLE_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float64"}
-- 
2.43.0


From 6022e706d1f68acca137f5ef67496709fd242999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 33/86] fix: print all digits of float constants

---
 internal/generator/expression.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index c1ac837..e021918 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -3,6 +3,7 @@ package generator
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -459,7 +460,12 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		case ast.ExpressionTypeString:
 			return fmt.Sprintf("%q", expression.ResultStringValue)
 		case ast.ExpressionTypeFloat:
-			return fmt.Sprintf("%f", expression.ResultFloatValue)
+			// print all digits, and always print a floating-point constant
+			text := strconv.FormatFloat(expression.ResultFloatValue, 'g', -1, 64)
+			if !strings.ContainsAny(text, ".e") {
+				text += ".0"
+			}
+			return text
 		default:
 			return "UNSUPPORTED_TYPE"
 		}
-- 
2.43.0


From 073234ea67d56292318f0b82ba2f9c816a71f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 34/86] fix: use the original type of subtypes in expressions

---
 internal/ast/expression.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 5b9cf04..077d36e 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -113,19 +113,19 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 		return "", nil, errors.New("type is not fully resolved")
 	}
 	if originalType.Type.IsBuiltin {
-		switch typeRef.Name {
+		switch originalType.Type.Name {
 		case "bool":
-			return ExpressionTypeBool, typeRef, nil
+			return ExpressionTypeBool, originalType.Type, nil
 		case "string":
-			return ExpressionTypeString, typeRef, nil
+			return ExpressionTypeString, originalType.Type, nil
 		case "float16":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, originalType.Type, nil
 		case "float32":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, originalType.Type, nil
 		case "float64":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, originalType.Type, nil
 		default:
-			return ExpressionTypeInteger, typeRef, nil
+			return ExpressionTypeInteger, originalType.Type, nil
 		}
 	}
 	symbolScope, err := scope.GetImportedScope(typeRef.Package)
-- 
2.43.0


From 442697710b1393fce770c4e4a65301232bc14037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 35/86] fix: evaluate constants in the scope of their package

---
 internal/ast/expression.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 077d36e..68da94b 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -183,13 +183,32 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 
 	// Some symbols, such as consts, can be directly resolved.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		constSymbol.ValueExpression.Evaluate(scope)
+		// the constant is defined in the scope of its own package
+		constScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := constSymbol.Evaluate(constScope); err != nil {
+			return err
+		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
 		return nil
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		enumItem.Evaluate(scope)
+		enumScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if enumItem.Expression == nil {
+			// the value depends on the previous items
+			err = enumItem.enum.Evaluate(enumScope)
+		} else {
+			err = enumItem.Evaluate(enumScope)
+		}
+		if err != nil {
+			return err
+		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
-- 
2.43.0


From e120466625b07bf8b49b9ce2bac6931bb705e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 36/86] fix: treat enum items and bitmask values as constants

---
 internal/ast/expression.go       | 23 +++++++++++++++++++----
 internal/generator/expression.go | 13 +++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 68da94b..d03f98b 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -410,12 +410,17 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
 			for _, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
-					if enumItem.EvaluationState != EvaluationStateComplete {
-						if err := enum.Evaluate(scope); err != nil {
-							return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
-						}
+					// the items are defined in the scope of the enum
+					enumScope, err := scope.GetImportedScope(op1Symbol.Package)
+					if err != nil {
+						return err
+					}
+					if err := enum.Evaluate(enumScope); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
 					}
 					copyExpressionResult(enumItem.Expression, expr)
+					// the value of an item is always known
+					expr.FullyResolved = true
 					return nil
 				}
 			}
@@ -424,8 +429,18 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
 			for _, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
+					// the values are defined in the scope of the bitmask
+					bitmaskScope, err := scope.GetImportedScope(op1Symbol.Package)
+					if err != nil {
+						return err
+					}
+					if err := bitmask.Evaluate(bitmaskScope); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
+					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
+					// the value is always known
+					expr.FullyResolved = true
 					return nil
 				}
 			}
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index e021918..e82b6fd 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -279,7 +279,8 @@ func isIntegerOperation(expression *ast.Expression) bool {
 // range of int64.
 func needsUint64(scope ast.Scope, expression *ast.Expression) bool {
 	if expression.FullyResolved {
-		return false
+		// the values of bitmasks are never negative
+		return expression.ResultType == ast.ExpressionTypeBitmask && expression.ResultIntValue < 0
 	}
 	switch expression.Type {
 	case parser.ZserioParserID, parser.ZserioParserDOT, parser.ZserioParserLBRACKET, parser.ZserioParserRPAREN:
@@ -320,7 +321,7 @@ func needsUint64(scope ast.Scope, expression *ast.Expression) bool {
 // Constants are left untyped, and take the type of the other operand.
 func integerOperandToGoString(scope ast.Scope, operand *ast.Expression, goType string) string {
 	text := ExpressionToGoString(scope, operand)
-	if operand.FullyResolved {
+	if operand.FullyResolved && operand.ResultType != ast.ExpressionTypeBitmask {
 		return text
 	}
 	return fmt.Sprintf("%s(%s)", goType, text)
@@ -342,7 +343,7 @@ func integerOperationToGoString(scope ast.Scope, expression *ast.Expression, ope
 	}
 	for _, operand := range operands {
 		// there is no unsigned form of a negative number
-		if operand.FullyResolved && operand.ResultIntValue < 0 {
+		if operand.FullyResolved && operand.ResultType != ast.ExpressionTypeBitmask && operand.ResultIntValue < 0 {
 			goType = "int64"
 		}
 	}
@@ -451,8 +452,12 @@ func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) stri
 }
 
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
-	if expression.FullyResolved {
+	// The values of bitmasks are printed with their names.
+	if expression.FullyResolved &&
+		(expression.ResultType != ast.ExpressionTypeBitmask || expression.Type == parser.ZserioParserID) {
 		switch expression.ResultType {
+		case ast.ExpressionTypeBitmask:
+			return fmt.Sprintf("%d", uint64(expression.ResultIntValue))
 		case ast.ExpressionTypeInteger:
 			return fmt.Sprintf("%v", expression.ResultIntValue)
 		case ast.ExpressionTypeBool:
-- 
2.43.0


From a8f1994287e6fb387c816596ce4fdd5a8c18a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 37/86] fix: convert constants to their type

---
 internal/generator/templates/package.go.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/templates/package.go.tmpl b/internal/generator/templates/package.go.tmpl
index 286c275..4e6c43c 100644
--- a/internal/generator/templates/package.go.tmpl
+++ b/internal/generator/templates/package.go.tmpl
@@ -3,7 +3,7 @@
 const (
 {{- range $name, $constant := .pkg.Consts }}
     {{ $constant.Comment }}
-    {{ $constant.Name }} {{ goType $scope $constant.Type }} = {{ goExpression $scope $constant.ValueExpression }} 
+    {{ $constant.Name }} {{ goType $scope $constant.Type }} = {{ goType $scope $constant.Type }}({{ goExpression $scope $constant.ValueExpression }})
 {{- end }}
 )
 
-- 
2.43.0


From 01213b514b1e9ac6fc7e64d33989029b168794d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 38/86] fix: initialise enum and bitmask fields with their
 default values

---
 internal/generator/templates/default_values.go.tmpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/default_values.go.tmpl b/internal/generator/templates/default_values.go.tmpl
index 7a1cd67..c717c25 100644
--- a/internal/generator/templates/default_values.go.tmpl
+++ b/internal/generator/templates/default_values.go.tmpl
@@ -12,7 +12,9 @@
 {{- end }}
 
 {{- if and (not $field.IsOptional) (not $field.Array) }}
-    {{- if $native.IsMarshaler }}
+    {{- if and $native.IsMarshaler $field.Initializer }}
+        v.{{ $field.Name }} = {{ goType $scope $field.Type }}({{ goExpression $scope $field.Initializer }})
+    {{- else if $native.IsMarshaler }}
         if err := {{- $field_name }}.LoadDefaultValues(); err != nil {
             return err
         }
-- 
2.43.0


From 4deacfc91c1952c003e7e854256972b740691092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 39/86] fix: write bitmasks of subtypes with their original
 width

---
 internal/generator/templates/bitmask.go.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index 403e0c3..5ee8e40 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -27,9 +27,9 @@ func (v *{{ $bitmask.Name}}) MarshalZserio(w zserio.Writer) error {
     {{- else if eq $native.Type.Bits 0 }}
       return ztype.Write{{ title $native.Type.Name }}(w, {{ goType $scope $native.Type }}(*v))
     {{- else if eq $native.Type.Name "bit" }}
-      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- else if eq $native.Type.Name "int" }}
-      return ztype.WriteSignedBits(w, int64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteSignedBits(w, int64(*v), {{ $native.Type.Bits }})
     {{- else }}
       panic("unsupported type")
     {{- end }}
-- 
2.43.0


From a3be08296489d06c0a72d6ba063d5bc65e4e6fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 40/86] fix: accept shift counts that are only known at runtime

---
 internal/ast/expression.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index d03f98b..9fdd4b0 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -745,17 +745,22 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	isShiftOperation := false
 
-	if (expr.Type == parser.ZserioLexerLSHIFT || expr.Type == parser.ZserioParserRSHIFT) &&
-		expr.Operand2.ResultIntValue < 0 {
-		return errors.New("negative shift count")
+	shiftCount := expr.Operand2.ResultIntValue
+	if expr.Type == parser.ZserioLexerLSHIFT || expr.Type == parser.ZserioParserRSHIFT {
+		if !expr.Operand2.FullyResolved {
+			// the shift count is only known at runtime
+			shiftCount = 0
+		} else if shiftCount < 0 {
+			return errors.New("negative shift count")
+		}
 	}
 
 	switch expr.Type {
 	case parser.ZserioLexerLSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue << expr.Operand2.ResultIntValue
+		expr.ResultIntValue = expr.Operand1.ResultIntValue << shiftCount
 		isShiftOperation = true
 	case parser.ZserioParserRSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue >> expr.Operand2.ResultIntValue
+		expr.ResultIntValue = expr.Operand1.ResultIntValue >> shiftCount
 		isShiftOperation = true
 	case parser.ZserioParserAND:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue & expr.Operand2.ResultIntValue
-- 
2.43.0


From 103832b6b280d684881d4fb394b55481a854ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 41/86] fix: valueof() of enum items

---
 internal/ast/expression.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 9fdd4b0..d6b7586 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -225,8 +225,10 @@ func (expr *Expression) evaluateValueOfOperator() error {
 	if expr.Operand1 == nil {
 		return errors.New("valueof operator needs one operand")
 	}
+	// the items of enums are integers
+	isEnumItem := expr.Operand1.Type == parser.ZserioParserDOT && expr.Operand1.FullyResolved
 	if expr.Operand1.ResultType != ExpressionTypeEnum &&
-		expr.Operand1.ResultType != ExpressionTypeBitmask {
+		expr.Operand1.ResultType != ExpressionTypeBitmask && !isEnumItem {
 		return errors.New("valueof operator needs an expression or bitmask type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-- 
2.43.0


From b6786c9102581f36cb10d91b70306f3c7469cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 42/86] fix: function calls have the declared type of the
 function

---
 internal/ast/expression.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index d6b7586..bc61df2 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -342,16 +342,20 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 	previousScope := functionEvaluationScope.LocalSymbols.CurrentCompoundScope
 	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = &typeRef.Type.Name
 	err = function.Result.Evaluate(functionEvaluationScope)
+	// Restore the previous scope
+	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = previousScope
 	if err != nil {
 		return err
 	}
 	copyExpressionResult(function.Result, expr)
+	// the function returns a value of the declared type
+	expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(function.ReturnType, functionEvaluationScope)
+	if err != nil {
+		return err
+	}
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
 	expr.ResultSymbol = expr.Operand1.ResultSymbol
-
-	// Restore the previous scope
-	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = previousScope
 	return nil
 }
 
-- 
2.43.0


From 878edf308c9fee5f1dc7a97aca36745d276d3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 43/86] fix: ternary expressions with negative constants and
 uint64 operands

---
 internal/generator/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index e82b6fd..2ba2fd3 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -423,6 +423,12 @@ func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) st
 		if needsUint64(scope, expression) {
 			goType = "uint64"
 		}
+		for _, operand := range []*ast.Expression{expression.Operand2, expression.Operand3} {
+			// there is no unsigned form of a negative number
+			if operand.FullyResolved && operand.ResultType != ast.ExpressionTypeBitmask && operand.ResultIntValue < 0 {
+				goType = "int64"
+			}
+		}
 	}
 	// Ternary expressions are not supported by Go. As a workaround, generate a
 	// function that is called in place.
-- 
2.43.0


From c1c0e9e30cc7b1dc37cac77da1e1871c7887347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 44/86] fix: declarations with lower-case names are found under
 their own name

---
 internal/generator/expression.go |  2 +-
 internal/model/transform.go      | 28 ++++++----------------------
 2 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 2ba2fd3..02d6f72 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -114,7 +114,7 @@ func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeRefer
 		return n.Type, nil
 	case *ast.Subtype:
 		return &ast.TypeReference{
-			Name:      n.Name,
+			Name:      symbol.Name,
 			IsBuiltin: false,
 			Package:   symbol.Package,
 		}, nil
diff --git a/internal/model/transform.go b/internal/model/transform.go
index fc2f4fe..909c6c9 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -40,20 +40,10 @@ func (m *Model) CapitalizeNames() {
 	for _, pkg := range m.Packages {
 		for _, c := range pkg.Consts {
 			c.Name = strings.Title(c.Name)
-			if !c.Type.IsBuiltin {
-				c.Type.Name = strings.Title(c.Type.Name)
-			}
 		}
 
 		for _, e := range pkg.Enums {
 			e.Name = strings.Title(e.Name)
-			if !e.Type.IsBuiltin {
-				e.Type.Name = strings.Title(e.Type.Name)
-			}
-
-			for _, item := range e.Items {
-				item.Name = strings.Title(item.Name)
-			}
 		}
 
 		for _, u := range pkg.Unions {
@@ -64,9 +54,6 @@ func (m *Model) CapitalizeNames() {
 			for _, field := range u.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range u.Functions {
 				function.Name = strings.Title(function.Name)
@@ -80,16 +67,18 @@ func (m *Model) CapitalizeNames() {
 			}
 		}
 
+		for _, subtype := range pkg.Subtypes {
+			subtype.Name = strings.Title(subtype.Name)
+		}
+
 		for _, structure := range pkg.Structs {
+			structure.Name = strings.Title(structure.Name)
 			for _, typeParameter := range structure.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
 			for _, field := range structure.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range structure.Functions {
 				function.Name = strings.Title(function.Name)
@@ -98,6 +87,7 @@ func (m *Model) CapitalizeNames() {
 		}
 
 		for _, choice := range pkg.Choices {
+			choice.Name = strings.Title(choice.Name)
 			for _, typeParameter := range choice.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
@@ -105,17 +95,11 @@ func (m *Model) CapitalizeNames() {
 				if choiceCase.Field != nil {
 					choiceCase.Field.ZserioName = choiceCase.Field.Name
 					choiceCase.Field.Name = strings.Title(choiceCase.Field.Name)
-					if !choiceCase.Field.Type.IsBuiltin {
-						choiceCase.Field.Type.Name = strings.Title(choiceCase.Field.Type.Name)
-					}
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
 				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
-				if !choice.DefaultCase.Field.Type.IsBuiltin {
-					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
-				}
 			}
 			for _, function := range choice.Functions {
 				function.Name = strings.Title(function.Name)
-- 
2.43.0


From 5cf6f37b259736ee304d078468e2b762bc728c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 45/86] fix: bitmask values are numbered by their bits

---
 internal/ast/bitmask.go                      | 32 +++++++++++++++-----
 internal/generator/templates/bitmask.go.tmpl |  2 +-
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 1f5c9d2..102ddc0 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -1,5 +1,11 @@
 package ast
 
+import (
+	"errors"
+	"fmt"
+	"math/bits"
+)
+
 type BitmaskValue struct {
 	Name string
 	*Expression
@@ -11,13 +17,18 @@ type BitmaskType struct {
 	Values  []*BitmaskValue
 }
 
-func findNextFreeBit(lastValue int64) int64 {
-	highestBitPosition := 0
-	for lastValue > 0 {
-		lastValue = lastValue >> 1
-		highestBitPosition++
+// UnsignedValue is the value as the unsigned integer it stands for.
+func (value *BitmaskValue) UnsignedValue() uint64 {
+	return uint64(value.ResultIntValue)
+}
+
+// findNextFreeBit returns the lowest bit above the highest bit of lastValue.
+func findNextFreeBit(lastValue int64) (int64, error) {
+	highestBitPosition := bits.Len64(uint64(lastValue))
+	if highestBitPosition == 64 {
+		return 0, errors.New("no bit is left for the value")
 	}
-	return 1 << highestBitPosition
+	return int64(uint64(1) << highestBitPosition), nil
 }
 
 func (bitmask *BitmaskType) Evaluate(p *Package) error {
@@ -33,16 +44,23 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 				if bitmask.Values[ix-1].ResultType != ExpressionTypeInteger {
 					return MissingEnumValue{value.Name}
 				}
+				bit, err := findNextFreeBit(bitmask.Values[ix-1].ResultIntValue)
+				if err != nil {
+					return fmt.Errorf("bitmask value %s.%s: %w", bitmask.Name, value.Name, err)
+				}
 				value.Expression = &Expression{
 					EvaluationState: EvaluationStateComplete,
 					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  findNextFreeBit(bitmask.Values[ix-1].ResultIntValue),
+					ResultIntValue:  bit,
 				}
 			}
 		} else {
 			if err := value.Evaluate(p); err != nil {
 				return err
 			}
+			if value.ResultType == ExpressionTypeInteger && value.ResultIntValue < 0 {
+				return fmt.Errorf("bitmask value %s.%s is negative", bitmask.Name, value.Name)
+			}
 		}
 	}
 	return nil
diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index 5ee8e40..7375f1e 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -9,7 +9,7 @@
 type {{ $bitmask.Name }} {{ goType $scope $bitmask.Type }}
 const (
 {{- range $value := $bitmask.Values }}
-    {{ $bitmask.Name }}{{ $value.Name }} {{ $bitmask.Name }} = {{ if eq $value.ResultType "int" }}{{ .ResultIntValue }}
+    {{ $bitmask.Name }}{{ $value.Name }} {{ $bitmask.Name }} = {{ if eq $value.ResultType "int" }}{{ .UnsignedValue }}
     {{- else if eq $value.ResultType "string" }}{{ .ResultStringValue }}
     {{- else }}UNSUPPORTED
     {{- end }}
-- 
2.43.0


From dc083c528efcdbc471dc2e8723e0ee5b374702e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 46/86] fix: types of enums and of functions of choices and
 unions are resolved

---
 internal/model/transform.go | 52 +++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 909c6c9..f36010f 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -711,6 +711,25 @@ func (m *Model) ResolveTypes() error {
 				}
 			}
 
+			for _, function := range choice.Functions {
+				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      choice.Name,
+						},
+						Field: function.Name,
+						Err:   err,
+					}
+				}
+			}
+
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
 				field := choice.DefaultCase.Field
 				if field.Type.Package == "" && templateParams[field.Type.Name] {
@@ -775,6 +794,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, function := range union.Functions {
+				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: function.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, subtype := range pkg.Subtypes {
@@ -791,6 +829,20 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
+		for _, enum := range pkg.Enums {
+			if err := m.resolveTypeReference(pkg, enum.Type, map[string]bool{}); err != nil {
+				return TypeError{
+					TypeReference: ast.TypeReference{
+						IsBuiltin: false,
+						Package:   pkg.Name,
+						Name:      enum.Type.Name,
+					},
+					Field: enum.Name,
+					Err:   err,
+				}
+			}
+		}
+
 		for _, bitmask := range pkg.Bitmasks {
 			if err := m.resolveTypeReference(pkg, bitmask.Type, map[string]bool{}); err != nil {
 				return TypeError{
-- 
2.43.0


From fcd38f3be6dd1d835e4e1b773ba3b613e212e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 47/86] fix: binary literals may end with B

---
 internal/ast/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index bc61df2..63f6a00 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -814,7 +814,7 @@ func (expr *Expression) evaluateBinaryLiteral() error {
 	expr.ResultType = ExpressionTypeInteger
 	// remove the trailing "b"
 	binaryString := expr.Text
-	if !strings.HasSuffix(binaryString, "b") {
+	if !strings.HasSuffix(binaryString, "b") && !strings.HasSuffix(binaryString, "B") {
 		return errors.New("binary expression is not valid")
 	}
 	binaryString = binaryString[:len(binaryString)-1]
-- 
2.43.0


From aaacd790990dd8e6956947ce8254527ab52b6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 48/86] fix: bool constants can be compared

---
 internal/ast/expression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 63f6a00..3685b7c 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -697,6 +697,15 @@ func (expr *Expression) evaluateComparisonExpression() error {
 		default:
 			return errors.New("equal/notequal operator not supported for float types")
 		}
+	} else if expr.Operand1.ResultType == ExpressionTypeBool {
+		switch expr.Type {
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue == expr.Operand2.ResultBoolValue
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue != expr.Operand2.ResultBoolValue
+		default:
+			return errors.New("bool types does not support greater / smaller comparisons")
+		}
 	} else if expr.Operand1.ResultType == ExpressionTypeString {
 		switch expr.Type {
 		case parser.ZserioParserEQ:
-- 
2.43.0


From 7698865f961a71b3fdbaa04505d879756f55fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 49/86] fix: escape sequences of string literals are replaced

---
 internal/ast/expression.go | 65 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 3685b7c..8b26b66 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -814,9 +814,70 @@ func (expr *Expression) evaluateStringLiteral() error {
 	if len(expressionString) < 2 {
 		return errors.New("string literal should contain quotes")
 	}
+	var err error
 	expr.ResultType = ExpressionTypeString
-	expr.ResultStringValue = expressionString[1 : len(expressionString)-1]
-	return nil
+	expr.ResultStringValue, err = unescapeString(expressionString[1 : len(expressionString)-1])
+	return err
+}
+
+// unescapeString replaces the escape sequences of a string literal by the
+// characters they stand for.
+func unescapeString(text string) (string, error) {
+	if !strings.Contains(text, "\\") {
+		return text, nil
+	}
+	var result strings.Builder
+	for len(text) > 0 {
+		if text[0] != '\\' {
+			result.WriteByte(text[0])
+			text = text[1:]
+			continue
+		}
+		if len(text) < 2 {
+			return "", errors.New("incomplete escape sequence")
+		}
+		// the range and the base of the digits of a character code
+		first, last, base := 2, 2, 16
+		switch text[1] {
+		case '"', '\\':
+			result.WriteByte(text[1])
+		case 'r':
+			result.WriteByte('\r')
+		case 'n':
+			result.WriteByte('\n')
+		case 'f':
+			result.WriteByte('\f')
+		case 't':
+			result.WriteByte('\t')
+		case 'u':
+			last = first + 4
+		case 'x':
+			last = first + 2
+		case '0':
+			base = 8
+			for last < len(text) && last < 5 && text[last] >= '0' && text[last] <= '7' {
+				last++
+			}
+			if last == 5 && text[first] > '3' {
+				// the code has at most 8 bits
+				last--
+			}
+		default:
+			return "", fmt.Errorf("unknown escape sequence \\%c", text[1])
+		}
+		if last > len(text) {
+			return "", errors.New("incomplete escape sequence")
+		}
+		if last > first {
+			code, err := strconv.ParseUint(text[first:last], base, 16)
+			if err != nil {
+				return "", err
+			}
+			result.WriteRune(rune(code))
+		}
+		text = text[last:]
+	}
+	return result.String(), nil
 }
 
 func (expr *Expression) evaluateBinaryLiteral() error {
-- 
2.43.0


From d92ce85e1f8c3d99472338e3114ee58119d2e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 50/86] fix: floats can be compared for equality, and with
 integers

---
 internal/ast/expression.go | 46 +++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 8b26b66..247f1aa 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -653,8 +653,18 @@ func (expr *Expression) evaluateLogicalExpression() error {
 	return nil
 }
 
+// floatValue returns the value of an integer or float expression.
+func (expr *Expression) floatValue() float64 {
+	if expr.ResultType == ExpressionTypeInteger {
+		return float64(expr.ResultIntValue)
+	}
+	return expr.ResultFloatValue
+}
+
 func (expr *Expression) evaluateComparisonExpression() error {
-	if expr.Operand1.ResultType != expr.Operand2.ResultType &&
+	isMixedNumber := (expr.Operand1.ResultType == ExpressionTypeInteger && expr.Operand2.ResultType == ExpressionTypeFloat) ||
+		(expr.Operand1.ResultType == ExpressionTypeFloat && expr.Operand2.ResultType == ExpressionTypeInteger)
+	if !isMixedNumber && expr.Operand1.ResultType != expr.Operand2.ResultType &&
 		!(expr.Operand1.ResultType == ExpressionTypeEnum &&
 			expr.Operand2.ResultType == ExpressionTypeInteger) &&
 		!(expr.Operand2.ResultType == ExpressionTypeEnum &&
@@ -666,7 +676,26 @@ func (expr *Expression) evaluateComparisonExpression() error {
 		return errors.New("comparison expression must have operands of the same type")
 	}
 	expr.ResultType = ExpressionTypeBool
-	if expr.Operand1.ResultType == ExpressionTypeInteger ||
+	if isMixedNumber || expr.Operand1.ResultType == ExpressionTypeFloat {
+		op1 := expr.Operand1.floatValue()
+		op2 := expr.Operand2.floatValue()
+		switch expr.Type {
+		case parser.ZserioParserLT:
+			expr.ResultBoolValue = op1 < op2
+		case parser.ZserioParserLE:
+			expr.ResultBoolValue = op1 <= op2
+		case parser.ZserioParserGT:
+			expr.ResultBoolValue = op1 > op2
+		case parser.ZserioParserGE:
+			expr.ResultBoolValue = op1 >= op2
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = op1 == op2
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = op1 != op2
+		default:
+			return errors.New("unexpected operand for float expression")
+		}
+	} else if expr.Operand1.ResultType == ExpressionTypeInteger ||
 		expr.Operand1.ResultType == ExpressionTypeBitmask {
 		switch expr.Type {
 		case parser.ZserioParserLT:
@@ -684,19 +713,6 @@ func (expr *Expression) evaluateComparisonExpression() error {
 		default:
 			return errors.New("unexpected operand for integer expression")
 		}
-	} else if expr.Operand1.ResultType == ExpressionTypeFloat {
-		switch expr.Type {
-		case parser.ZserioParserLT:
-			expr.ResultBoolValue = expr.Operand1.ResultFloatValue < expr.Operand2.ResultFloatValue
-		case parser.ZserioParserLE:
-			expr.ResultBoolValue = expr.Operand1.ResultFloatValue <= expr.Operand2.ResultFloatValue
-		case parser.ZserioParserGT:
-			expr.ResultBoolValue = expr.Operand1.ResultFloatValue > expr.Operand2.ResultFloatValue
-		case parser.ZserioParserGE:
-			expr.ResultBoolValue = expr.Operand1.ResultFloatValue >= expr.Operand2.ResultFloatValue
-		default:
-			return errors.New("equal/notequal operator not supported for float types")
-		}
 	} else if expr.Operand1.ResultType == ExpressionTypeBool {
 		switch expr.Type {
 		case parser.ZserioParserEQ:
-- 
2.43.0


From 8a52f8b43abcf11500147d342bcdb8f44909f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 51/86] fix: conditional expressions of bitmask values can be
 constants

---
 internal/generator/expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 02d6f72..6447346 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -460,7 +460,8 @@ func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) stri
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	// The values of bitmasks are printed with their names.
 	if expression.FullyResolved &&
-		(expression.ResultType != ast.ExpressionTypeBitmask || expression.Type == parser.ZserioParserID) {
+		(expression.ResultType != ast.ExpressionTypeBitmask ||
+			expression.Type == parser.ZserioParserID || expression.Type == parser.ZserioParserQUESTIONMARK) {
 		switch expression.ResultType {
 		case ast.ExpressionTypeBitmask:
 			return fmt.Sprintf("%d", uint64(expression.ResultIntValue))
-- 
2.43.0


From ae6376693a7cd892af87b8871e9eb0a3a22f42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 52/86] fix: the symbol of a single import is its last name

---
 internal/visitor/visitor.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 1a9138e..12ee8f6 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -109,18 +109,17 @@ out:
 
 func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) any {
 	children := ctx.GetChildren()
+	// everything between the import keyword and the semicolon
 	parts := []string{}
-	for i := 1; i < len(children)-2; i++ {
+	for i := 1; i < len(children)-1; i++ {
 		parts = append(parts, children[i].(antlr.ParseTree).GetText())
 	}
 
-	symbolName := parts[len(parts)-1]
-	if ctx.MULTIPLY() != nil {
-		symbolName = "*"
-	}
+	// The last part is the name of the symbol, or the "*". It is separated
+	// from the package name by a dot.
 	return &ast.Import{
-		Package: strings.Join(parts[:len(parts)-1], ""),
-		Type:    symbolName,
+		Package: strings.Join(parts[:len(parts)-2], ""),
+		Type:    parts[len(parts)-1],
 	}
 }
 
-- 
2.43.0


From 0ca9bfa5f27e475ca9bd96f9b87ab0d618d35aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 53/86] fix: imports are neither transitive nor endless

---
 internal/ast/package.go     | 43 ++++++++++++++++++++++++-------------
 internal/model/transform.go |  5 ++++-
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index 7675ade..d1caa5f 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -22,8 +22,13 @@ type Package struct {
 	Structs           map[string]*Struct
 	Choices           map[string]*Choice
 
+	// ImportedPackages are all packages of the import declarations.
 	ImportedPackages []*Package
-	LocalSymbols     *SymbolScope
+
+	// KnownPackages are all packages of the model, by their names.
+	KnownPackages map[string]*Package
+
+	LocalSymbols *SymbolScope
 }
 
 // OriginalTypeReference is a reference to the original zserio type, for example
@@ -235,7 +240,7 @@ func (p *Package) GetType(name string) (*SymbolReference, error) {
 	}
 
 	// If the symbol was not found in the local scope, check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
+	for _, importedPackage := range p.packagesImporting(name) {
 		if typeSymbol, err := importedPackage.LocalSymbols.GetType(name); err == nil {
 			typeSymbol.Package = importedPackage.Name
 			return typeSymbol, nil
@@ -289,14 +294,29 @@ func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
 	}
 
 	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if symbolRef, err := importedPackage.GetOtherType(name); err == nil {
+	for _, importedPackage := range p.packagesImporting(name) {
+		if symbolRef, err := importedPackage.LocalSymbols.GetOtherType(name); err == nil {
+			symbolRef.Package = importedPackage.Name
 			return symbolRef, nil
 		}
 	}
 	return nil, errors.New("other type not found")
 }
 
+// packagesImporting returns the imported packages in which a name is visible.
+func (p *Package) packagesImporting(name string) []*Package {
+	var packages []*Package
+	for _, imp := range p.Imports {
+		if imp.Type != "*" && imp.Type != name {
+			continue
+		}
+		if importedPackage, err := p.GetImportedScope(imp.Package); err == nil {
+			packages = append(packages, importedPackage)
+		}
+	}
+	return packages
+}
+
 func (p *Package) GetOriginalSymbol(symbolReference *SymbolReference) (*SymbolReference, error) {
 	var typeRef *TypeReference
 	var err error
@@ -463,17 +483,10 @@ func (p *Package) GetImportedScope(name string) (*Package, error) {
 	if name == p.Name {
 		return p, nil
 	}
-	for _, pkg := range p.ImportedPackages {
-		if pkg.Name == name {
-			return pkg, nil
-		}
-	}
-	// still not found? try the imports of all imports
-	for _, pkg := range p.ImportedPackages {
-		obj, err := pkg.GetImportedScope(name)
-		if err == nil {
-			return obj, nil
-		}
+	// Types can come from packages that this package does not import, such as
+	// the types of the fields of an imported type.
+	if pkg, found := p.KnownPackages[name]; found {
+		return pkg, nil
 	}
 	return nil, errors.New("scope does not exist, or has not been imported")
 }
diff --git a/internal/model/transform.go b/internal/model/transform.go
index f36010f..76c096f 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -569,12 +569,15 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 
 func (m *Model) ResolveImports() error {
 	for _, pkg := range m.Packages {
+		pkg.KnownPackages = m.Packages
+		imported := map[string]bool{}
 		for _, imp := range pkg.Imports {
 			iPkg, found := m.Packages[imp.Package]
 			if !found {
 				return UnknownPackage{imp.Package}
 			}
-			if imp.Type == "*" {
+			if !imported[imp.Package] {
+				imported[imp.Package] = true
 				pkg.ImportedPackages = append(pkg.ImportedPackages, iPkg)
 			}
 		}
-- 
2.43.0


From aebaee637a49eb1d4abc8ab022ec58e2635ec8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 54/86] fix: fields and parameters hide other names only inside
 their compound type

---
 internal/ast/choice.go      |  7 +---
 internal/ast/expression.go  | 83 ++++++++++---------------------------
 internal/ast/package.go     | 68 +++++++++++++-----------------
 internal/ast/scope.go       | 54 +++++++++++++++++-------
 internal/ast/struct.go      |  7 +---
 internal/ast/union.go       |  7 +---
 internal/model/transform.go |  6 ++-
 7 files changed, 101 insertions(+), 131 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 4a95d71..4e88b20 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -30,10 +30,7 @@ type Choice struct {
 
 func (choice *Choice) BuildScope(p *Package) error {
 	// create a compound scope
-	compoundScope := &CompoundScope{
-		Symbol: choice,
-		Scope:  make(map[string]any),
-	}
+	compoundScope := newCompoundScope(choice, choice.Name, p)
 
 	for _, param := range choice.TypeParameters {
 		compoundScope.Scope[param.Name] = param
@@ -102,7 +99,7 @@ func (choice *Choice) Evaluate(p *Package) error {
 	if len(choice.TemplateParameters) > 0 {
 		return nil
 	}
-	p.LocalSymbols.CurrentCompoundScope = &choice.Name
+	p = p.LocalSymbols.CompoundScopes[choice.Name].EvaluationScope()
 
 	// The selector expression needs to be evaluated first, because the choice
 	// cases depend on the symbol refered to by the selector expression
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 247f1aa..5653b0b 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -132,7 +132,7 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 	if err != nil {
 		return "", nil, err
 	}
-	symbol, err := symbolScope.GetSymbol(typeRef.Name)
+	symbol, err := symbolScope.GetType(typeRef.Name)
 	if err != nil {
 		return "", nil, err
 	}
@@ -269,50 +269,24 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 	}
 
 	// look up through all levels of indirections (subtypes)
-	var compoundSymbol *SymbolReference
-	newScope := scope
-	var err error
-	for {
-		compoundSymbol, err = scope.GetSymbol(typeReference.Name)
-		if err != nil {
-			return err
-		}
-		newScope, err = newScope.GetImportedScope(compoundSymbol.Package)
-		if err != nil {
-			return err
-		}
-		if subtype, ok := compoundSymbol.Symbol.(*Subtype); ok {
-			typeReference = subtype.Type
-			// TODO comment
-			newScope, err = newScope.GetImportedScope(typeReference.Package)
-			if err != nil {
-				return err
-			}
-			continue
-		}
-		break
+	originalType, err := scope.GetOriginalType(typeReference)
+	if err != nil {
+		return err
 	}
-
-	if _, ok := compoundSymbol.Symbol.(*Struct); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
+	if originalType.Type.IsBuiltin {
+		return errors.New("compound type is not supported")
+	}
+	compoundPackage, err := scope.GetImportedScope(originalType.Type.Package)
+	if err != nil {
 		return err
 	}
-
-	if _, ok := compoundSymbol.Symbol.(*Choice); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
+	symbol, err := compoundPackage.GetCompoundType(originalType.Type.Name, expr.Operand2.Text)
+	if err != nil {
 		return err
 	}
-	return errors.New("compound type is not supported")
+	expr.ResultSymbol = symbol
+	expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, compoundPackage)
+	return err
 }
 
 func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
@@ -321,30 +295,19 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 		return errors.New("function expression expected")
 	}
 
-	// find the compound type that defines the function
-	compoundTypeRef := &TypeReference{
-		Name:      expr.Operand1.ResultSymbol.CompoundName,
-		Package:   expr.Operand1.ResultSymbol.Package,
-		IsBuiltin: false,
-	}
-	typeRef, err := scope.GetOriginalType(compoundTypeRef)
-	if err != nil {
-		return err
-	}
-
 	// the function might not have been evaluated, hence we must evaluate it
-	// now. However, to evaluate the function, a different scope needs to be
-	// used.
-	functionEvaluationScope, err := scope.GetImportedScope(typeRef.Type.Package)
+	// now. However, to evaluate the function, the scope of the compound type
+	// that defines the function needs to be used.
+	compoundPackage, err := scope.GetImportedScope(expr.Operand1.ResultSymbol.Package)
 	if err != nil {
 		return err
 	}
-	previousScope := functionEvaluationScope.LocalSymbols.CurrentCompoundScope
-	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = &typeRef.Type.Name
-	err = function.Result.Evaluate(functionEvaluationScope)
-	// Restore the previous scope
-	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = previousScope
-	if err != nil {
+	compoundScope, found := compoundPackage.LocalSymbols.CompoundScopes[expr.Operand1.ResultSymbol.CompoundName]
+	if !found {
+		return errors.New("the compound type of the function is unknown")
+	}
+	functionEvaluationScope := compoundScope.EvaluationScope()
+	if err := function.Result.Evaluate(functionEvaluationScope); err != nil {
 		return err
 	}
 	copyExpressionResult(function.Result, expr)
diff --git a/internal/ast/package.go b/internal/ast/package.go
index d1caa5f..58d82ef 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -29,6 +29,10 @@ type Package struct {
 	KnownPackages map[string]*Package
 
 	LocalSymbols *SymbolScope
+
+	// compound is the compound type whose expressions are evaluated. It is
+	// only set in the scopes that CompoundScope.EvaluationScope returns.
+	compound *CompoundScope
 }
 
 // OriginalTypeReference is a reference to the original zserio type, for example
@@ -151,7 +155,7 @@ func (p *Package) GoArrayTraits(t *TypeReference) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	typeSymbol, err := typeScope.GetSymbol(t.Name)
+	typeSymbol, err := typeScope.GetType(t.Name)
 	if err != nil {
 		return "", fmt.Errorf("%w: %s", ErrUnknownType, t.Name)
 	}
@@ -180,7 +184,7 @@ func (p *Package) IsDeltaPackable(t *TypeReference) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	typeSymbol, err := typeScope.GetSymbol(t.Name)
+	typeSymbol, err := typeScope.GetType(t.Name)
 	if err != nil {
 		return false, fmt.Errorf("%w: %s", ErrUnknownType, t.Name)
 	}
@@ -212,16 +216,14 @@ type SymbolReference struct {
 // GetSymbol searches for a symbol not only in the current scope, but also in
 // all imported scopes.
 func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
-	// The search order is important to avoid any recursive lookup, in case
-	// field and type have the same name.
-	// first search for types in local and all imported packages
-	if typeSymbol, err := p.GetType(name); err == nil {
+	// first search for the symbols of the active compound type (struct
+	// fields, parameters, functions): they hide the symbols of the packages.
+	if typeSymbol, err := p.GetCurrentCompoundType(name); err == nil {
 		return typeSymbol, nil
 	}
 
-	// second, search for composite types values (struct fields), in the
-	// active local scopes
-	if typeSymbol, err := p.GetCurrentCompoundType(name); err == nil {
+	// second, search for types in local and all imported packages
+	if typeSymbol, err := p.GetType(name); err == nil {
 		return typeSymbol, nil
 	}
 
@@ -251,40 +253,22 @@ func (p *Package) GetType(name string) (*SymbolReference, error) {
 	return nil, errors.New("type not found")
 }
 
+// GetCurrentCompoundType searches for a symbol of the compound type whose
+// expressions are evaluated.
 func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error) {
-	if p.LocalSymbols.CurrentCompoundScope != nil {
-		if typeSymbol, err := p.LocalSymbols.GetCompoundType(*p.LocalSymbols.CurrentCompoundScope, name); err == nil {
-			typeSymbol.Package = p.Name
-			return typeSymbol, nil
-		}
-	}
-
-	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if importedPackage.LocalSymbols.CurrentCompoundScope != nil {
-			if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(*importedPackage.LocalSymbols.CurrentCompoundScope, name); err == nil {
-				typeSymbol.Package = importedPackage.Name
-				return typeSymbol, nil
-			}
-		}
+	if p.compound == nil {
+		return nil, errors.New("compound symbol not found")
 	}
-	return nil, errors.New("compound symbol not found")
+	return p.compound.GetSymbol(name)
 }
 
+// GetCompoundType searches for a symbol of a compound type of this package.
 func (p *Package) GetCompoundType(compoundSymbolName, name string) (*SymbolReference, error) {
-	if typeSymbol, err := p.LocalSymbols.GetCompoundType(compoundSymbolName, name); err == nil {
-		typeSymbol.Package = p.Name
-		return typeSymbol, nil
-	}
-
-	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(compoundSymbolName, name); err == nil {
-			typeSymbol.Package = importedPackage.Name
-			return typeSymbol, nil
-		}
+	compoundScope, found := p.LocalSymbols.CompoundScopes[compoundSymbolName]
+	if !found {
+		return nil, errors.New("compound type not found")
 	}
-	return nil, errors.New("compound symbol not found")
+	return compoundScope.GetSymbol(name)
 }
 
 func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
@@ -357,7 +341,7 @@ func (p *Package) GetOriginalSymbol(symbolReference *SymbolReference) (*SymbolRe
 		if err != nil {
 			return nil, err
 		}
-		symbolReference, err = p.GetSymbol(typeRef.Name)
+		symbolReference, err = p.GetType(typeRef.Name)
 		if err != nil {
 			return nil, err
 		}
@@ -384,7 +368,7 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 		if err != nil {
 			return nil, err
 		}
-		symbol, err := currentScope.GetSymbol(typeRef.Name)
+		symbol, err := currentScope.GetType(typeRef.Name)
 		if err != nil {
 			return nil, err
 		}
@@ -452,7 +436,7 @@ func (p *Package) GetTypeParameter(typeRef *TypeReference) ([]*Parameter, error)
 	if err != nil {
 		return nil, err
 	}
-	symbol, err := typeScope.GetSymbol(nativeType.Type.Name)
+	symbol, err := typeScope.GetType(nativeType.Type.Name)
 	if err != nil {
 		return nil, err
 	}
@@ -481,6 +465,10 @@ func (p *Package) GetImportedScope(name string) (*Package, error) {
 		return nil, errors.New("unresolved package scope")
 	}
 	if name == p.Name {
+		if p.compound != nil {
+			// the symbols of the compound type are not visible elsewhere
+			return p.compound.evaluationPackage, nil
+		}
 		return p, nil
 	}
 	// Types can come from packages that this package does not import, such as
diff --git a/internal/ast/scope.go b/internal/ast/scope.go
index 9e1c740..8e86b47 100644
--- a/internal/ast/scope.go
+++ b/internal/ast/scope.go
@@ -252,6 +252,45 @@ func (s *RootScope) HasType(t string) bool {
 type CompoundScope struct {
 	Symbol any
 	Scope  map[string]any
+
+	// name and packageName specify the compound type
+	name        string
+	packageName string
+
+	// evaluationPackage is the package that contains the expressions of the
+	// compound type.
+	evaluationPackage *Package
+}
+
+func newCompoundScope(symbol any, name string, p *Package) *CompoundScope {
+	return &CompoundScope{
+		Symbol:            symbol,
+		Scope:             make(map[string]any),
+		name:              name,
+		packageName:       p.Name,
+		evaluationPackage: p,
+	}
+}
+
+// EvaluationScope returns the scope for the expressions of the compound type.
+func (c *CompoundScope) EvaluationScope() *Package {
+	scope := *c.evaluationPackage
+	scope.compound = c
+	return &scope
+}
+
+// GetSymbol searches for a symbol of the compound type.
+func (c *CompoundScope) GetSymbol(name string) (*SymbolReference, error) {
+	symbol, found := c.Scope[name]
+	if !found {
+		return nil, errors.New("compound symbol not found")
+	}
+	return &SymbolReference{
+		Name:         name,
+		Package:      c.packageName,
+		CompoundName: c.name,
+		Symbol:       symbol,
+	}, nil
 }
 
 // SymbolScope keeps track of all symbols that are available in this scope
@@ -265,8 +304,6 @@ type SymbolScope struct {
 	// CompoundScope contains all symbols that are restricted to the current
 	// evaluation scope (e.g. the struct parameters when evaluating a struct)
 	CompoundScopes map[string]*CompoundScope
-
-	CurrentCompoundScope *string
 }
 
 func (v *SymbolScope) GetType(name string) (*SymbolReference, error) {
@@ -280,19 +317,6 @@ func (v *SymbolScope) GetType(name string) (*SymbolReference, error) {
 	return nil, errors.New("type not found")
 }
 
-func (v *SymbolScope) GetCompoundType(compoundType, name string) (*SymbolReference, error) {
-	if compoundScope, found := v.CompoundScopes[compoundType]; found {
-		if currentScopeSymbol, found := compoundScope.Scope[name]; found {
-			return &SymbolReference{
-				Name:         name,
-				CompoundName: compoundType,
-				Symbol:       currentScopeSymbol,
-			}, nil
-		}
-	}
-	return nil, errors.New("compound type not found")
-}
-
 func (v *SymbolScope) GetOtherType(name string) (*SymbolReference, error) {
 	otherSymbol, found := v.OtherScope[name]
 	if found {
diff --git a/internal/ast/struct.go b/internal/ast/struct.go
index 271e8e8..48998a7 100644
--- a/internal/ast/struct.go
+++ b/internal/ast/struct.go
@@ -11,10 +11,7 @@ type Struct struct {
 
 func (s *Struct) BuildScope(p *Package) error {
 	// create a compound scope
-	compoundScope := &CompoundScope{
-		Symbol: s,
-		Scope:  make(map[string]any),
-	}
+	compoundScope := newCompoundScope(s, s.Name, p)
 	for _, param := range s.TypeParameters {
 		compoundScope.Scope[param.Name] = param
 	}
@@ -33,7 +30,7 @@ func (s *Struct) Evaluate(p *Package) error {
 	if len(s.TemplateParameters) > 0 {
 		return nil
 	}
-	p.LocalSymbols.CurrentCompoundScope = &s.Name
+	p = p.LocalSymbols.CompoundScopes[s.Name].EvaluationScope()
 
 	for _, param := range s.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 9ca57c4..1a55d3a 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -11,10 +11,7 @@ type Union struct {
 
 func (u *Union) BuildScope(p *Package) error {
 	// create a compound scope
-	compoundScope := &CompoundScope{
-		Symbol: u,
-		Scope:  make(map[string]any),
-	}
+	compoundScope := newCompoundScope(u, u.Name, p)
 	for _, param := range u.TypeParameters {
 		compoundScope.Scope[param.Name] = param
 	}
@@ -33,7 +30,7 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
-	p.LocalSymbols.CurrentCompoundScope = &u.Name
+	p = p.LocalSymbols.CompoundScopes[u.Name].EvaluationScope()
 
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 76c096f..1403fc5 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -543,7 +543,11 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 		instantiatedName = generateInstantiatedName(tr, templateArguments)
 	}
 
-	templateSymbol, err := pkgScope.GetSymbol(tr.Name)
+	templateScope, err := pkgScope.GetImportedScope(tr.Package)
+	if err != nil {
+		return nil, err
+	}
+	templateSymbol, err := templateScope.GetType(tr.Name)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 62d7a1ec29126358ed47320b4e76529c16adc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 55/86] fix: unqualified choice labels are items of the type of
 the selector

---
 internal/ast/choice.go     | 45 ++++++++++++++++++++++++--------------
 internal/ast/expression.go | 14 +++++++++++-
 internal/ast/package.go    | 13 +++++++++++
 3 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 4e88b20..f76ce2b 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -52,12 +52,34 @@ func (choice *Choice) BuildScope(p *Package) error {
 
 // fullySpecifyChoiceConditions fully specifies a choice condition in case the
 // choice case is given as a text, but not a fully determined symbol.
-func (choice *Choice) fullySpecifyChoiceConditions() error {
+func (choice *Choice) fullySpecifyChoiceConditions(p *Package) error {
 	// other labels than enum and bitmask values are not relative to a type
 	if choice.SelectorExpression.ResultType != ExpressionTypeEnum &&
 		choice.SelectorExpression.ResultType != ExpressionTypeBitmask {
 		return nil
 	}
+	// convert the selector from the parameter type to the underlying actual
+	// type (e.g. enum, bitfield)
+	selectorType, err := p.GetOriginalSymbol(choice.SelectorExpression.ResultSymbol)
+	if err != nil {
+		return err
+	}
+	items := map[string]bool{}
+	switch n := selectorType.Symbol.(type) {
+	case *Enum:
+		for _, item := range n.Items {
+			items[item.Name] = true
+		}
+	case *BitmaskType:
+		for _, value := range n.Values {
+			items[value.Name] = true
+		}
+	case *Function:
+		// the labels are specified with the type
+		return nil
+	default:
+		return errors.New("choice selector type is not an enum or bitmask")
+	}
 	for _, choiceCase := range choice.Cases {
 		for _, condition := range choiceCase.Conditions {
 			// in case the choice case is just a text string, replace that
@@ -65,23 +87,13 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 			// symbol is unique. If this is not done, the text value might be
 			// ambiguous, for example if the value  is defined in more than one enum.
 			// e.g. VALUE -> EnumType.VALUE
-			if condition.Condition.Type == parser.ZserioParserID {
-				// convert the selector from the parameter type to the underlying
-				// actual type (e.g. enum, bitfield)
-				var selectorType *TypeReference
-				switch n := choice.SelectorExpression.ResultSymbol.Symbol.(type) {
-				case *Parameter:
-					selectorType = n.Type
-				case *Field:
-					selectorType = n.Type
-				default:
-					return errors.New("choice selector type is not a parameter or field")
-				}
+			if condition.Condition.Type == parser.ZserioParserID && items[condition.Condition.Text] {
 				dotExpression := &Expression{
 					Type: parser.ZserioParserDOT,
 					Operand1: &Expression{
-						Type: parser.ZserioParserID,
-						Text: selectorType.Name,
+						Type:    parser.ZserioParserID,
+						Package: selectorType.Package,
+						Text:    selectorType.Name,
 					},
 					Operand2: &Expression{
 						Type: parser.UnevaluatableExpressionType,
@@ -94,6 +106,7 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 	}
 	return nil
 }
+
 func (choice *Choice) Evaluate(p *Package) error {
 	// Ignore templates
 	if len(choice.TemplateParameters) > 0 {
@@ -108,7 +121,7 @@ func (choice *Choice) Evaluate(p *Package) error {
 	}
 
 	// Fully specify the choice condition symbols
-	if err := choice.fullySpecifyChoiceConditions(); err != nil {
+	if err := choice.fullySpecifyChoiceConditions(p); err != nil {
 		return err
 	}
 
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 5653b0b..9705091 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -40,6 +40,9 @@ type Expression struct {
 	// Text is the text of the expression.
 	Text string
 
+	// Package is the name of the package of an identifier, if it is known.
+	Package string
+
 	// Operand1 is the first operand of the expression (if used).
 	Operand1 *Expression
 
@@ -176,7 +179,16 @@ func (expr *Expression) evaluateIndexExpression() error {
 
 // evaluateIdentifier evaluates an identifier expression.
 func (expr *Expression) evaluateIdentifier(scope *Package) error {
-	symbol, err := scope.GetSymbol(expr.Text)
+	var symbol *SymbolReference
+	var err error
+	if expr.Package != "" {
+		var symbolScope *Package
+		if symbolScope, err = scope.GetImportedScope(expr.Package); err == nil {
+			symbol, err = symbolScope.GetLocalSymbol(expr.Text)
+		}
+	} else {
+		symbol, err = scope.GetSymbol(expr.Text)
+	}
 	if err != nil {
 		return errors.New("symbol not found")
 	}
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 58d82ef..749d94c 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -234,6 +234,19 @@ func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
 	return nil, errors.New("symbol not found")
 }
 
+// GetLocalSymbol searches for a symbol that is defined in this package.
+func (p *Package) GetLocalSymbol(name string) (*SymbolReference, error) {
+	symbol, err := p.LocalSymbols.GetType(name)
+	if err != nil {
+		symbol, err = p.LocalSymbols.GetOtherType(name)
+	}
+	if err != nil {
+		return nil, err
+	}
+	symbol.Package = p.Name
+	return symbol, nil
+}
+
 func (p *Package) GetType(name string) (*SymbolReference, error) {
 	// First check the local scope
 	if typeSymbol, err := p.LocalSymbols.GetType(name); err == nil {
-- 
2.43.0


From f25b0e3d2bd71d0316c64d901694a4096c63ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 56/86] fix: names in expressions can be qualified with their
 package

---
 internal/ast/expression.go | 57 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 9705091..4196eaa 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -373,6 +373,59 @@ func (expr *Expression) evaluateLengthOfOperator(scope *Package) error {
 	return nil
 }
 
+// identifierPath returns the identifiers of a dot expression, if it only
+// consists of identifiers.
+func (expr *Expression) identifierPath() ([]string, bool) {
+	if expr.Type == parser.ZserioParserID {
+		return []string{expr.Text}, expr.Package == ""
+	}
+	if expr.Type != parser.ZserioParserDOT || expr.Operand1 == nil || expr.Operand2 == nil {
+		return nil, false
+	}
+	path, ok := expr.Operand1.identifierPath()
+	return append(path, expr.Operand2.Text), ok
+}
+
+// resolveQualifiedName replaces a dot expression by an identifier, if it is a
+// name that is qualified with the name of its package, such as:
+// <package>.<symbol>.
+func (expr *Expression) resolveQualifiedName(scope *Package) {
+	path, ok := expr.identifierPath()
+	if !ok {
+		return
+	}
+	if local, err := scope.GetCurrentCompoundType(path[0]); err == nil {
+		// An enum and a bitmask have no fields: the name is the one of a type,
+		// which is used to specify one of its items.
+		if len(path) == 2 {
+			localType, _, err := evaluateSymbolType(local, scope)
+			if err == nil && (localType == ExpressionTypeEnum || localType == ExpressionTypeBitmask) {
+				if symbol, err := scope.GetType(path[0]); err == nil {
+					expr.Operand1.Package = symbol.Package
+				}
+			}
+		}
+		return
+	}
+	if _, err := scope.GetType(path[0]); err == nil {
+		return
+	}
+	packageName := strings.Join(path[:len(path)-1], ".")
+	symbolPackage, err := scope.GetImportedScope(packageName)
+	if err != nil {
+		return
+	}
+	name := path[len(path)-1]
+	if _, err := symbolPackage.GetLocalSymbol(name); err != nil {
+		return
+	}
+	expr.Type = parser.ZserioParserID
+	expr.Package = packageName
+	expr.Text = name
+	expr.Operand1 = nil
+	expr.Operand2 = nil
+}
+
 // evaluateDotExpression evaluates a dot expression, such as:
 // <enum>.<value>.
 func (expr *Expression) evaluateDotExpression(scope *Package) error {
@@ -903,6 +956,10 @@ func (expr *Expression) Evaluate(scope *Package) error {
 
 	expr.EvaluationState = EvaluationStateInProgress
 
+	if expr.Type == parser.ZserioParserDOT {
+		expr.resolveQualifiedName(scope)
+	}
+
 	// First, assume that the expression can be fully resolved
 	expr.FullyResolved = true
 	if expr.Operand1 != nil {
-- 
2.43.0


From 8f7a863d700f60c7198aae6f30ec5c61e78876e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 57/86] fix: the labels of a choice over a function are items
 of its type

---
 internal/ast/choice.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index f76ce2b..3778461 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -60,7 +60,15 @@ func (choice *Choice) fullySpecifyChoiceConditions(p *Package) error {
 	}
 	// convert the selector from the parameter type to the underlying actual
 	// type (e.g. enum, bitfield)
-	selectorType, err := p.GetOriginalSymbol(choice.SelectorExpression.ResultSymbol)
+	selectorSymbol := choice.SelectorExpression.ResultSymbol
+	if selectorSymbol == nil {
+		// the labels are specified with their type
+		return nil
+	}
+	if function, ok := selectorSymbol.Symbol.(*Function); ok {
+		selectorSymbol = &SymbolReference{Symbol: function.ReturnType}
+	}
+	selectorType, err := p.GetOriginalSymbol(selectorSymbol)
 	if err != nil {
 		return err
 	}
@@ -74,9 +82,6 @@ func (choice *Choice) fullySpecifyChoiceConditions(p *Package) error {
 		for _, value := range n.Values {
 			items[value.Name] = true
 		}
-	case *Function:
-		// the labels are specified with the type
-		return nil
 	default:
 		return errors.New("choice selector type is not an enum or bitmask")
 	}
-- 
2.43.0


From da8dbf6e004ed36a0536bb4c2d098a00c5703304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 58/86] fix: the items of enums and bitmasks can use each other

---
 internal/ast/bitmask.go    | 74 +++++++++++++++++++++++++-------------
 internal/ast/enum.go       | 66 +++++++++++++++++++++++-----------
 internal/ast/expression.go | 27 ++++++++------
 internal/ast/package.go    |  8 +++++
 4 files changed, 120 insertions(+), 55 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 102ddc0..6e208eb 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -32,36 +32,62 @@ func findNextFreeBit(lastValue int64) (int64, error) {
 }
 
 func (bitmask *BitmaskType) Evaluate(p *Package) error {
-	for ix, value := range bitmask.Values {
-		if value.Expression == nil {
-			if ix == 0 {
-				value.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  1, // bitmasks start with 1
-				}
-			} else {
-				if bitmask.Values[ix-1].ResultType != ExpressionTypeInteger {
-					return MissingEnumValue{value.Name}
-				}
-				bit, err := findNextFreeBit(bitmask.Values[ix-1].ResultIntValue)
-				if err != nil {
-					return fmt.Errorf("bitmask value %s.%s: %w", bitmask.Name, value.Name, err)
-				}
-				value.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  bit,
-				}
-			}
-		} else {
-			if err := value.Evaluate(p); err != nil {
+	for ix := range bitmask.Values {
+		if err := bitmask.evaluateValue(p, ix); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// evaluateValue evaluates a value, and the ones that it depends on.
+func (bitmask *BitmaskType) evaluateValue(p *Package, ix int) error {
+	// the values can use the names of the other values of the bitmask
+	valueScope := newCompoundScope(bitmask, bitmask.Name, p)
+	for _, value := range bitmask.Values {
+		valueScope.Scope[value.Name] = value
+	}
+	first := ix
+	for first > 0 && bitmask.Values[first].Expression == nil {
+		first--
+	}
+	for i := first; i <= ix; i++ {
+		value := bitmask.Values[i]
+		if value.Expression != nil {
+			if err := value.Evaluate(valueScope.EvaluationScope()); err != nil {
 				return err
 			}
 			if value.ResultType == ExpressionTypeInteger && value.ResultIntValue < 0 {
 				return fmt.Errorf("bitmask value %s.%s is negative", bitmask.Name, value.Name)
 			}
+			continue
+		}
+		bit := int64(1) // bitmasks start with 1
+		if i > 0 {
+			if bitmask.Values[i-1].ResultType != ExpressionTypeInteger {
+				return MissingEnumValue{value.Name}
+			}
+			var err error
+			bit, err = findNextFreeBit(bitmask.Values[i-1].ResultIntValue)
+			if err != nil {
+				return fmt.Errorf("bitmask value %s.%s: %w", bitmask.Name, value.Name, err)
+			}
+		}
+		value.Expression = &Expression{
+			EvaluationState: EvaluationStateComplete,
+			ResultType:      ExpressionTypeInteger,
+			ResultIntValue:  bit,
+			FullyResolved:   true,
 		}
 	}
 	return nil
 }
+
+func (bitmask *BitmaskType) indexOf(value *BitmaskValue) int {
+	for ix := range bitmask.Values {
+		if bitmask.Values[ix] == value {
+			return ix
+		}
+	}
+	return -1
+}
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index edd44cc..266af77 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -29,33 +29,59 @@ func (e *Enum) AddItem(i *EnumItem) *EnumItem {
 }
 
 func (e *Enum) Evaluate(scope *Package) error {
-	for ix, item := range e.Items {
-		if item.Expression == nil {
-			if ix == 0 {
-				item.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  0,
-				}
-			} else {
-				if e.Items[ix-1].ResultType != ExpressionTypeInteger {
-					return MissingEnumValue{item.Name}
-				}
-				item.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  e.Items[ix-1].ResultIntValue + 1,
-				}
-			}
-		} else {
-			if err := item.Evaluate(scope); err != nil {
+	for ix := range e.Items {
+		if err := e.evaluateItem(scope, ix); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// evaluateItem evaluates an item, and the ones that its value depends on.
+func (e *Enum) evaluateItem(scope *Package, ix int) error {
+	// the items can use the names of the other items of the enum
+	itemScope := newCompoundScope(e, e.Name, scope)
+	for _, item := range e.Items {
+		itemScope.Scope[item.Name] = item
+	}
+	first := ix
+	for first > 0 && e.Items[first].Expression == nil {
+		first--
+	}
+	for i := first; i <= ix; i++ {
+		item := e.Items[i]
+		if item.Expression != nil {
+			if err := item.Evaluate(itemScope.EvaluationScope()); err != nil {
 				return err
 			}
+			continue
+		}
+		value := int64(0)
+		if i > 0 {
+			if e.Items[i-1].ResultType != ExpressionTypeInteger {
+				return MissingEnumValue{item.Name}
+			}
+			value = e.Items[i-1].ResultIntValue + 1
+		}
+		item.Expression = &Expression{
+			EvaluationState: EvaluationStateComplete,
+			ResultType:      ExpressionTypeInteger,
+			ResultIntValue:  value,
+			FullyResolved:   true,
 		}
 	}
 	return nil
 }
 
+func (e *Enum) indexOf(item *EnumItem) int {
+	for ix := range e.Items {
+		if e.Items[ix] == item {
+			return ix
+		}
+	}
+	return -1
+}
+
 type EnumItem struct {
 	Name    string
 	Comment string
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 4196eaa..4112881 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -212,19 +212,24 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 		if err != nil {
 			return err
 		}
-		if enumItem.Expression == nil {
-			// the value depends on the previous items
-			err = enumItem.enum.Evaluate(enumScope)
-		} else {
-			err = enumItem.Evaluate(enumScope)
-		}
-		if err != nil {
+		if err := enumItem.enum.evaluateItem(enumScope, enumItem.enum.indexOf(enumItem)); err != nil {
 			return err
 		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
 
+	if value, ok := symbol.Symbol.(*BitmaskValue); ok && scope.compound != nil {
+		// one of the other values of a bitmask
+		if bitmask, ok := scope.compound.Symbol.(*BitmaskType); ok {
+			if err := bitmask.evaluateValue(scope.compound.evaluationPackage, bitmask.indexOf(value)); err != nil {
+				return err
+			}
+			copyExpressionResult(value.Expression, expr)
+			return nil
+		}
+	}
+
 	// All subsequent symbols cannot be fully resolved.
 	expr.FullyResolved = false
 	expr.ResultSymbol = symbol
@@ -442,14 +447,14 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 
 	if expr.Operand1.ResultType == ExpressionTypeEnum {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
-			for _, enumItem := range enum.Items {
+			for ix, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
 					// the items are defined in the scope of the enum
 					enumScope, err := scope.GetImportedScope(op1Symbol.Package)
 					if err != nil {
 						return err
 					}
-					if err := enum.Evaluate(enumScope); err != nil {
+					if err := enum.evaluateItem(enumScope, ix); err != nil {
 						return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
 					}
 					copyExpressionResult(enumItem.Expression, expr)
@@ -461,14 +466,14 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		}
 	} else if expr.Operand1.ResultType == ExpressionTypeBitmask {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
-			for _, bitmaskValue := range bitmask.Values {
+			for ix, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
 					// the values are defined in the scope of the bitmask
 					bitmaskScope, err := scope.GetImportedScope(op1Symbol.Package)
 					if err != nil {
 						return err
 					}
-					if err := bitmask.Evaluate(bitmaskScope); err != nil {
+					if err := bitmask.evaluateValue(bitmaskScope, ix); err != nil {
 						return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
 					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 749d94c..be52641 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -90,14 +90,22 @@ func (p *Package) CollectSymbols() error {
 			return err
 		}
 	}
+	ambiguous := map[string]bool{}
 	for name, value := range p.Enums {
 		p.LocalSymbols.TypeScope[name] = value
 
 		// add all enum values as symbols
 		for _, enumItem := range value.Items {
+			if _, found := p.LocalSymbols.OtherScope[enumItem.Name]; found {
+				ambiguous[enumItem.Name] = true
+			}
 			p.LocalSymbols.OtherScope[enumItem.Name] = enumItem
 		}
 	}
+	// the items of several enums can only be used with the name of their enum
+	for name := range ambiguous {
+		delete(p.LocalSymbols.OtherScope, name)
+	}
 	for name, value := range p.Unions {
 		p.LocalSymbols.TypeScope[name] = value
 		if err := value.BuildScope(p); err != nil {
-- 
2.43.0


From 7a6b2aebb6cfe43beb578a4a61aa6dc689a404da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 59/86] fix: only keep the imports that are used

---
 internal/generator/strip_imports.go | 34 ++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/generator/strip_imports.go b/internal/generator/strip_imports.go
index 0d0d31f..d4e1f76 100644
--- a/internal/generator/strip_imports.go
+++ b/internal/generator/strip_imports.go
@@ -1,9 +1,36 @@
 package generator
 
 import (
+	"go/ast"
+	"go/parser"
+	"go/token"
 	"strings"
 )
 
+// usedPackageNames returns the names that a file uses as the name of an
+// imported package.
+func usedPackageNames(code []byte) (map[string]bool, error) {
+	file, err := parser.ParseFile(token.NewFileSet(), "", code, 0)
+	if err != nil {
+		return nil, err
+	}
+	// the names that are not declared in the file itself
+	unresolved := map[*ast.Ident]bool{}
+	for _, ident := range file.Unresolved {
+		unresolved[ident] = true
+	}
+	used := map[string]bool{}
+	ast.Inspect(file, func(node ast.Node) bool {
+		if selector, ok := node.(*ast.SelectorExpr); ok {
+			if ident, ok := selector.X.(*ast.Ident); ok && unresolved[ident] {
+				used[ident.Name] = true
+			}
+		}
+		return true
+	})
+	return used, nil
+}
+
 // StripImports searches a *.go file for the import section, and checks if the
 // imports are used.
 func StripImports(code []byte) ([]byte, error) {
@@ -26,6 +53,11 @@ func StripImports(code []byte) ([]byte, error) {
 	content = content[importEndIndex:]
 	imports := strings.Split(importSection, "\n")
 
+	used, err := usedPackageNames(code)
+	if err != nil {
+		return nil, err
+	}
+
 	// Extract the last name of the import line, search in the code if it is used,
 	// and delete the import if it cannot be found.
 	usedImports := []string{}
@@ -48,7 +80,7 @@ func StripImports(code []byte) ([]byte, error) {
 				importName = line[lastSeparator+1 : len(line)-1]
 			}
 		}
-		if strings.Contains(content, importName+".") {
+		if used[importName] {
 			usedImports = append(usedImports, currentImport)
 		}
 	}
-- 
2.43.0


From 1cbde65bdbda29563ef7fedfd8e45c2c6b8de9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 60/86] fix: packages have usable names in Go

---
 internal/ast/package.go                       | 35 ++++++++++++++++++-
 internal/generator/funcs.go                   | 14 +++++++-
 internal/generator/templates.go               |  1 +
 internal/generator/templates/preamble.go.tmpl |  2 +-
 4 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index be52641..b16d2c5 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -3,6 +3,8 @@ package ast
 import (
 	"errors"
 	"fmt"
+	"go/token"
+	"go/types"
 	"strings"
 )
 
@@ -443,8 +445,39 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 	}
 }
 
+// generatedNames are the names that the generated code uses for its imports
+// and local variables.
+var generatedNames = map[string]bool{
+	"bitio": true, "driver": true, "errors": true, "fmt": true, "zserio": true, "ztype": true,
+
+	"argument": true, "b": true, "bitPosition": true, "childrenNodes": true, "choiceContext": true,
+	"context": true, "contextNode": true, "d": true, "delta": true, "elem": true, "element": true,
+	"endBitPosition": true, "err": true, "found": true, "i": true, "index": true, "ix": true,
+	"name": true, "node": true, "ok": true, "present": true, "r": true, "retVal": true, "s": true,
+	"size": true, "src": true, "str": true, "strs": true, "tempValue": true, "unionChoice": true,
+	"v": true, "val": true, "value": true, "w": true, "zero": true,
+}
+
+// GoPackageAlias returns the name by which the generated code refers to a
+// package. Different packages have different names.
 func GoPackageAlias(packageName string) string {
-	return strings.Replace(packageName, ".", "_", -1)
+	parts := strings.Split(strings.ToLower(packageName), ".")
+	for ix, part := range parts {
+		// Underscores are doubled, because an underscore separates the parts.
+		// No part starts with a digit.
+		if strings.HasPrefix(part, "_") {
+			part = "0" + part
+		}
+		parts[ix] = strings.ReplaceAll(part, "_", "__")
+	}
+	alias := strings.Join(parts, "_")
+	if strings.HasPrefix(alias, "0") {
+		alias = "_" + alias
+	}
+	if generatedNames[alias] || token.IsKeyword(alias) || types.Universe.Lookup(alias) != nil {
+		return alias + "_"
+	}
+	return alias
 }
 
 // GetTypeParameter returns the parameters of a referenced type
diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index dd04df8..2f2bfe9 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -4,6 +4,7 @@ package generator
 
 import (
 	"fmt"
+	"go/token"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -24,7 +25,18 @@ func GoArrayTraits(scope ast.Scope, typ *ast.TypeReference) (string, error) {
 
 func GoPackageName(pkg string) string {
 	p := strings.Split(pkg, ".")
-	return strings.ToLower(p[len(p)-1])
+	name := strings.ToLower(p[len(p)-1])
+	// Go reserves these names, a program cannot import packages that are
+	// called main, and does not compile the files of the last one.
+	if token.IsKeyword(name) || name == "main" || name == "documentation" {
+		return name + "_"
+	}
+	return name
+}
+
+// GoImportPath returns the path of the package below the root package.
+func GoImportPath(pkg string) string {
+	return strings.ReplaceAll(strings.ToLower(pkg), ".", "/")
 }
 
 // GoGetAllImports collects a list of all imports (direct and indirect) of a
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index 53cadd2..f0a6099 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -20,6 +20,7 @@ func init() {
 		"goPackageName":     GoPackageName,
 		"goGetAllImports":   GoGetAllImports,
 		"getTypeParameter":  GetTypeParameter,
+		"goImportPath":      GoImportPath,
 		"goPackageAlias":    GoPackageAlias,
 		"goExpression":      GoExpression,
 		"goCaseLabels":      GoCaseLabels,
diff --git a/internal/generator/templates/preamble.go.tmpl b/internal/generator/templates/preamble.go.tmpl
index 047f7bd..6466ecd 100644
--- a/internal/generator/templates/preamble.go.tmpl
+++ b/internal/generator/templates/preamble.go.tmpl
@@ -11,6 +11,6 @@ import (
     zserio "github.com/woven-planet/go-zserio"
     "github.com/woven-planet/go-zserio/ztype"
 {{- range $import := goGetAllImports .pkg }}
-    {{ goPackageAlias $import }} "{{ $root }}/{{ $import | replace "." "/" }}"
+    {{ goPackageAlias $import }} "{{ $root }}/{{ goImportPath $import }}"
 {{- end }}
 )
-- 
2.43.0


From 2d1cc870ef4eca2b200242a20b23c50ae539b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 61/86] fix: templates are instantiated for each list of
 arguments

---
 internal/ast/expression.go  |  20 +
 internal/ast/scope.go       |   7 +
 internal/model/transform.go | 756 +++++++++++++++++++++---------------
 3 files changed, 465 insertions(+), 318 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 4112881..a98b37d 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -88,6 +88,26 @@ type Expression struct {
 	FullyResolved bool
 }
 
+// Clone returns a copy of an expression that is not evaluated. All identifiers
+// of the copy are passed to a function that can replace them.
+func (expr *Expression) Clone(identifier func(*Expression)) *Expression {
+	if expr == nil {
+		return nil
+	}
+	clone := &Expression{
+		Type:     expr.Type,
+		Text:     expr.Text,
+		Package:  expr.Package,
+		Operand1: expr.Operand1.Clone(identifier),
+		Operand2: expr.Operand2.Clone(identifier),
+		Operand3: expr.Operand3.Clone(identifier),
+	}
+	if clone.Type == parser.ZserioParserID && clone.Package == "" {
+		identifier(clone)
+	}
+	return clone
+}
+
 func copyExpressionResult(src, dst *Expression) {
 	dst.ResultBoolValue = src.ResultBoolValue
 	dst.ResultIntValue = src.ResultIntValue
diff --git a/internal/ast/scope.go b/internal/ast/scope.go
index 8e86b47..f61d0c7 100644
--- a/internal/ast/scope.go
+++ b/internal/ast/scope.go
@@ -272,6 +272,13 @@ func newCompoundScope(symbol any, name string, p *Package) *CompoundScope {
 	}
 }
 
+// EvaluateIn sets the package that contains the expressions of the compound
+// type. An instance of a template is declared in the package that uses it, but
+// its expressions are those of the template.
+func (c *CompoundScope) EvaluateIn(p *Package) {
+	c.evaluationPackage = p
+}
+
 // EvaluationScope returns the scope for the expressions of the compound type.
 func (c *CompoundScope) EvaluationScope() *Package {
 	scope := *c.evaluationPackage
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 1403fc5..c510136 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -3,6 +3,8 @@ package model
 import (
 	"errors"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -175,400 +177,518 @@ func (m *Model) EvaluateChoices() error {
 	return nil
 }
 
+// InstantiateTemplates replaces all uses of templates by types that are
+// declared in the package that uses them.
 func (m *Model) InstantiateTemplates() error {
-	var err error
-	for _, pkg := range m.Packages {
-		// Instantiate all template instantiation created with "instantiate" keyword
-		for _, instantiatedType := range pkg.InstantiatedTypes {
-			if instantiatedType.Type, err = m.instantiateType(
-				pkg,
-				instantiatedType.Type,
-				instantiatedType.Type.TemplateArguments,
-				instantiatedType.Name); err != nil {
-				return TypeError{
-					TypeReference: ast.TypeReference{
-						IsBuiltin: false,
-						Package:   pkg.Name,
-						Name:      instantiatedType.Name,
-					},
-					Err: err,
-				}
-			}
+	for _, name := range sortedKeys(m.Packages) {
+		pkg := m.Packages[name]
+		ti := &templateInstantiator{
+			pkg:       pkg,
+			instances: map[string]*ast.TypeReference{},
+			names:     map[string]bool{},
+		}
+		for name := range pkg.LocalSymbols.TypeScope {
+			ti.names[strings.Title(name)] = true
+		}
+		if err := ti.instantiatePackage(); err != nil {
+			return err
 		}
+	}
+	return nil
+}
 
-		// instantiate all templates that were created by using the "subtype", e.g.
-		// subtype TemplateType<int> InstantiatedSubtype;
-		for _, subtype := range pkg.Subtypes {
-			if subtype.Type, err = m.instantiateType(
-				pkg,
-				subtype.Type,
-				subtype.Type.TemplateArguments,
-				""); // auto-generate a new name
-			err != nil {
-				return TypeError{
-					TypeReference: ast.TypeReference{
-						IsBuiltin: false,
-						Package:   pkg.Name,
-						Name:      subtype.Name,
-					},
-					Field: subtype.Name,
-					Err:   err,
-				}
-			}
+func sortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
+// maxTemplateDepth limits how deep templates can be nested. It is only reached
+// by templates that use themselves with ever new arguments.
+const maxTemplateDepth = 100
+
+// templateInstantiator instantiates the templates that a package uses.
+type templateInstantiator struct {
+	pkg *ast.Package
+
+	// instances are the instantiated types. The keys specify the template and
+	// all its arguments.
+	instances map[string]*ast.TypeReference
+
+	// names are the Go names of all types of the package.
+	names map[string]bool
+
+	depth int
+}
+
+func (ti *templateInstantiator) typeError(typeName, field string, err error) error {
+	return TypeError{
+		TypeReference: ast.TypeReference{
+			IsBuiltin: false,
+			Package:   ti.pkg.Name,
+			Name:      typeName,
+		},
+		Field: field,
+		Err:   err,
+	}
+}
+
+func (ti *templateInstantiator) instantiatePackage() error {
+	pkg := ti.pkg
+
+	// The types of the instantiations are new, so find all others before.
+	subtypes := sortedKeys(pkg.Subtypes)
+	structs := sortedKeys(pkg.Structs)
+	choices := sortedKeys(pkg.Choices)
+	unions := sortedKeys(pkg.Unions)
+
+	// Instantiate all template instantiation created with "instantiate" keyword
+	for _, name := range sortedKeys(pkg.InstantiatedTypes) {
+		instantiatedType := pkg.InstantiatedTypes[name]
+		resolved, err := ti.resolveNamed(instantiatedType.Type, instantiatedType.Name)
+		if err != nil {
+			return ti.typeError(name, "", err)
 		}
+		instantiatedType.Type = resolved
+	}
 
-		// Instantiate all structs that have template fields
-		for _, structure := range pkg.Structs {
-			// don't instantiate template structs
-			if len(structure.TemplateParameters) > 0 {
-				continue
-			}
-			for _, field := range structure.Fields {
-				if field.Type, err = m.instantiateType(
-					pkg,
-					field.Type,
-					field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      structure.Name,
-						},
-						Field: field.Name,
-						Err:   err,
-					}
-				}
-			}
+	// instantiate all templates that were created by using the "subtype", e.g.
+	// subtype TemplateType<int> InstantiatedSubtype;
+	for _, name := range subtypes {
+		subtype := pkg.Subtypes[name]
+		resolved, err := ti.resolve(subtype.Type, nil)
+		if err != nil {
+			return ti.typeError(name, name, err)
 		}
+		subtype.Type = resolved
+	}
 
-		// instantiate all choices that have template fields
-		for _, choice := range pkg.Choices {
-			// don't instantiate template choices
-			if len(choice.TemplateParameters) > 0 {
-				continue
+	// Instantiate the templates that the compound types use. The templates
+	// among them are only instantiated with arguments.
+	for _, name := range structs {
+		if s := pkg.Structs[name]; len(s.TemplateParameters) == 0 {
+			if err := ti.resolveCompound(name, s.TypeParameters, s.Fields, s.Functions); err != nil {
+				return err
 			}
-			for _, choiceCase := range choice.Cases {
-				if choiceCase.Field == nil {
-					continue
-				}
-				if choiceCase.Field.Type, err = m.instantiateType(
-					pkg,
-					choiceCase.Field.Type,
-					choiceCase.Field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      choice.Name,
-						},
-						Field: choiceCase.Field.Name,
-						Err:   err,
-					}
-				}
+		}
+	}
+	for _, name := range choices {
+		if choice := pkg.Choices[name]; len(choice.TemplateParameters) == 0 {
+			if err := ti.resolveCompound(name, choice.TypeParameters, choiceFields(choice), choice.Functions); err != nil {
+				return err
 			}
-			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
-				if choice.DefaultCase.Field.Type, err = m.instantiateType(
-					pkg,
-					choice.DefaultCase.Field.Type,
-					choice.DefaultCase.Field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      choice.Name,
-						},
-						Field: choice.DefaultCase.Field.Name,
-						Err:   err,
-					}
-				}
+		}
+	}
+	for _, name := range unions {
+		if u := pkg.Unions[name]; len(u.TemplateParameters) == 0 {
+			if err := ti.resolveCompound(name, u.TypeParameters, u.Fields, u.Functions); err != nil {
+				return err
 			}
 		}
 	}
 	return nil
 }
 
-func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
-	fieldCopy := *field
-	if len(field.Type.TemplateArguments) > 0 {
-		// the field itself is a templated compound type, and needs to
-		// be instantiated first.
-
-		// the template argument parameter must be recreated, as the
-		// field template arguments might differ from the struct template
-		// arguments. Example:
-		// struct<A, B, C> {
-		//    foo<int, C> field1;
-		//    bar<B, A> field2;
-		// }
-		newTemplateParameters := append([]*ast.TypeReference{}, field.Type.TemplateArguments...)
-		for ix, templateParameter := range newTemplateParameters {
-			if passedTemplateArgument, found := templateTypes[templateParameter.Name]; found {
-				newTemplateParameters[ix] = passedTemplateArgument
-			}
-		}
-
-		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
-		if err != nil {
-			return nil, err
+// choiceFields returns all fields of a choice.
+func choiceFields(choice *ast.Choice) []*ast.Field {
+	var fields []*ast.Field
+	for _, choiceCase := range choice.Cases {
+		if choiceCase.Field != nil {
+			fields = append(fields, choiceCase.Field)
 		}
-		fieldCopy.Type = tt
-		return &fieldCopy, nil
 	}
-	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
-		// the field a template itself
-		fieldCopy.Type = tt
-		//  If the template has type arguments, these arguments need to
-		// be applied also to the instantiated type.
-		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-		return &fieldCopy, nil
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		fields = append(fields, choice.DefaultCase.Field)
 	}
-	// not templated
-	return field, nil
+	return fields
 }
 
-func (m *Model) instantiateStruct(
-	pkgScope *ast.Package,
-	templStruct *ast.Struct,
-	templateArguments []*ast.TypeReference,
-	instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return nil, errors.New("struct instantiation called without parameters")
+func (ti *templateInstantiator) resolveCompound(name string, params []*ast.Parameter, fields []*ast.Field, functions []*ast.Function) error {
+	for _, param := range params {
+		resolved, err := ti.resolve(param.Type, nil)
+		if err != nil {
+			return ti.typeError(name, param.Name, err)
+		}
+		param.Type = resolved
 	}
-	if len(templStruct.TemplateParameters) != len(templateArguments) {
-		return nil, ErrIncorrectNumberOfTemplateParameters
+	for _, field := range fields {
+		resolved, err := ti.resolve(field.Type, nil)
+		if err != nil {
+			return ti.typeError(name, field.Name, err)
+		}
+		field.Type = resolved
 	}
-	// templateTypes is a map from the template parameter name to the instantiated
-	// type.
-	templateTypes := map[string]*ast.TypeReference{}
-	for ix, ta := range templateArguments {
-		// Instantiate the subtype
-		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
+	for _, function := range functions {
+		resolved, err := ti.resolve(function.ReturnType, nil)
 		if err != nil {
-			return nil, err
+			return ti.typeError(name, function.Name, err)
 		}
-		templateTypes[templStruct.TemplateParameters[ix]] = ta
+		function.ReturnType = resolved
 	}
+	return nil
+}
 
-	newType := &ast.TypeReference{
-		IsBuiltin: false,
-		Package:   pkgScope.Name,
-		Name:      instantiatedName,
-	}
-	// check if the struct was already instantiated
-	if _, exists := pkgScope.Structs[newType.Name]; exists {
-		return newType, nil
+// templateArguments are the arguments of a template, by the names of the
+// parameters.
+type templateArguments map[string]*ast.TypeReference
+
+// substitute replaces the names of template parameters in an expression.
+func (arguments templateArguments) substitute(expr *ast.Expression) {
+	if argument, found := arguments[expr.Text]; found && !argument.IsBuiltin {
+		expr.Text = argument.Name
+		expr.Package = argument.Package
 	}
-	structure := &ast.Struct{
-		Name:    newType.Name,
-		Comment: templStruct.Comment,
+}
+
+// resolve returns the type a reference stands for: the arguments replace the
+// template parameters, and instances replace the templates. References that are
+// not in a template have no arguments (nil).
+func (ti *templateInstantiator) resolve(tr *ast.TypeReference, arguments templateArguments) (*ast.TypeReference, error) {
+	if tr.IsBuiltin {
+		resolved := *tr
+		if arguments != nil {
+			resolved.LengthExpression = tr.LengthExpression.Clone(arguments.substitute)
+		}
+		return &resolved, nil
 	}
 
-	// resolve the templates for the fields
-	for _, field := range templStruct.Fields {
-		newField, err := m.instantiateField(pkgScope, field, templateTypes)
+	resolved := *tr
+	if argument, found := arguments[tr.Name]; found && tr.Package == "" {
+		resolved = *argument
+	} else {
+		var templateParameters []string
+		templateScope, err := ti.pkg.GetImportedScope(tr.Package)
 		if err != nil {
 			return nil, err
 		}
-		structure.Fields = append(structure.Fields, newField)
-	}
-
-	// resolve the templates for the types
-	for _, typeParam := range templStruct.TypeParameters {
-		if tt := templateTypes[typeParam.Type.Name]; tt != nil && typeParam.Type.Package == "" {
-			// the parameter is a template
-			structure.TypeParameters = append(structure.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			structure.TypeParameters = append(structure.TypeParameters, typeParam)
+		symbol, err := templateScope.GetType(tr.Name)
+		if err != nil {
+			return nil, err
 		}
-	}
-
-	// resolve the template for the functions
-	for _, function := range templStruct.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			structure.Functions = append(structure.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			structure.Functions = append(structure.Functions, function)
+		switch n := symbol.Symbol.(type) {
+		case *ast.Struct:
+			templateParameters = n.TemplateParameters
+		case *ast.Choice:
+			templateParameters = n.TemplateParameters
+		case *ast.Union:
+			templateParameters = n.TemplateParameters
+		}
+		if len(templateParameters) != len(tr.TemplateArguments) {
+			return nil, ErrIncorrectNumberOfTemplateParameters
+		}
+		if len(templateParameters) > 0 {
+			instance, err := ti.instantiate(templateScope, symbol.Symbol, templateParameters, tr, arguments, "")
+			if err != nil {
+				return nil, err
+			}
+			resolved = *instance
 		}
 	}
 
-	// update the scope with the newly created scope
-	pkgScope.Structs[newType.Name] = structure
-	pkgScope.LocalSymbols.TypeScope[newType.Name] = structure
-	structure.BuildScope(pkgScope)
-	return newType, nil
+	// The type arguments are those of the reference.
+	resolved.TypeArguments = tr.TypeArguments
+	if arguments != nil {
+		resolved.TypeArguments = cloneExpressions(tr.TypeArguments, arguments)
+	}
+	return &resolved, nil
 }
 
-func (m *Model) instantiateChoice(
-	pkgScope *ast.Package,
-	templChoice *ast.Choice,
-	templateArguments []*ast.TypeReference,
-	instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return nil, errors.New("choice instantiation called without parameters")
+// resolveNamed instantiates a template with a given name.
+func (ti *templateInstantiator) resolveNamed(tr *ast.TypeReference, name string) (*ast.TypeReference, error) {
+	if tr.IsBuiltin {
+		return nil, errors.New("only templates can be instantiated")
 	}
-	if len(templChoice.TemplateParameters) != len(templateArguments) {
+	templateScope, err := ti.pkg.GetImportedScope(tr.Package)
+	if err != nil {
+		return nil, err
+	}
+	symbol, err := templateScope.GetType(tr.Name)
+	if err != nil {
+		return nil, err
+	}
+	var templateParameters []string
+	switch n := symbol.Symbol.(type) {
+	case *ast.Struct:
+		templateParameters = n.TemplateParameters
+	case *ast.Choice:
+		templateParameters = n.TemplateParameters
+	case *ast.Union:
+		templateParameters = n.TemplateParameters
+	}
+	if len(templateParameters) == 0 {
+		return nil, errors.New("only templates can be instantiated")
+	}
+	if len(templateParameters) != len(tr.TemplateArguments) {
 		return nil, ErrIncorrectNumberOfTemplateParameters
 	}
-	// templateTypes is a map from the template parameter name to the instantiated
-	// type.
-	templateTypes := map[string]*ast.TypeReference{}
-	for ix, ta := range templateArguments {
-		// Instantiate the subtype
-		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
+	return ti.instantiate(templateScope, symbol.Symbol, templateParameters, tr, nil, name)
+}
+
+func typeKey(tr *ast.TypeReference) string {
+	if tr.IsBuiltin {
+		return fmt.Sprintf("%s:%d", tr.Name, tr.Bits)
+	}
+	return tr.Package + "." + tr.Name
+}
+
+// instantiate returns a reference to the instance of a template. If no name is
+// given, equal arguments result in the same instance.
+func (ti *templateInstantiator) instantiate(
+	templateScope *ast.Package,
+	template any,
+	templateParameters []string,
+	tr *ast.TypeReference,
+	arguments templateArguments,
+	name string) (*ast.TypeReference, error) {
+	ti.depth++
+	defer func() { ti.depth-- }()
+	if ti.depth > maxTemplateDepth {
+		return nil, errors.New("templates are nested too deep")
+	}
+
+	instanceArguments := templateArguments{}
+	keys := []string{}
+	// The name of an instance is the name of the template, followed by the
+	// names of the arguments.
+	shortName := strings.Title(tr.Name)
+	longName := shortName
+	for ix, ta := range tr.TemplateArguments {
+		argument, err := ti.resolve(ta, arguments)
 		if err != nil {
 			return nil, err
 		}
-		templateTypes[templChoice.TemplateParameters[ix]] = ta
+		instanceArguments[templateParameters[ix]] = argument
+		keys = append(keys, typeKey(argument))
+
+		argumentName := argument.Name
+		if _, found := arguments[ta.Name]; !found {
+			argumentName = ta.Name
+		}
+		shortName += strings.Title(argumentName)
+		longName += strings.Title(argument.Name)
+		if argument.IsBuiltin && argument.Bits > 0 && !strings.HasSuffix(argument.Name, strconv.Itoa(argument.Bits)) {
+			longName += strconv.Itoa(argument.Bits)
+		}
 	}
+	key := fmt.Sprintf("%s.%s<%s>", templateScope.Name, tr.Name, strings.Join(keys, ","))
 
-	newType := &ast.TypeReference{
+	existing, found := ti.instances[key]
+	if found && name == "" {
+		return existing, nil
+	}
+	if name == "" {
+		name = shortName
+		if ti.names[name] {
+			// different types have different names
+			name = longName
+		}
+		for ix := 2; ti.names[name]; ix++ {
+			name = fmt.Sprintf("%s_%d", longName, ix)
+		}
+		ti.names[name] = true
+	}
+	instance := &ast.TypeReference{
 		IsBuiltin: false,
-		Package:   pkgScope.Name,
-		Name:      instantiatedName,
+		Package:   ti.pkg.Name,
+		Name:      name,
+	}
+	if !found {
+		ti.instances[key] = instance
 	}
 
-	// check if the type was already instantiated
-	if _, exists := pkgScope.Choices[newType.Name]; exists {
-		return newType, nil
+	var err error
+	switch n := template.(type) {
+	case *ast.Struct:
+		err = ti.instantiateStruct(templateScope, n, instanceArguments, name)
+	case *ast.Choice:
+		err = ti.instantiateChoice(templateScope, n, instanceArguments, name)
+	case *ast.Union:
+		err = ti.instantiateUnion(templateScope, n, instanceArguments, name)
+	default:
+		err = errors.New("template instantiation not supported for this type")
 	}
-	choice := &ast.Choice{
-		Name:               newType.Name,
-		Comment:            templChoice.Comment,
-		SelectorExpression: templChoice.SelectorExpression,
+	if err != nil {
+		return nil, err
 	}
+	return instance, nil
+}
 
-	// resolve the templates for the choices
-	for _, choiceCase := range templChoice.Cases {
-		newChoiceCase := &ast.ChoiceCase{
-			Conditions: choiceCase.Conditions,
-			Comment:    choiceCase.Comment,
-		}
-		if choiceCase.Field != nil {
-			newField, err := m.instantiateField(pkgScope, choiceCase.Field, templateTypes)
-			if err != nil {
-				return nil, err
-			}
-			newChoiceCase.Field = newField
-		}
-		choice.Cases = append(choice.Cases, newChoiceCase)
+func cloneExpressions(expressions []*ast.Expression, arguments templateArguments) []*ast.Expression {
+	var clones []*ast.Expression
+	for _, expression := range expressions {
+		clones = append(clones, expression.Clone(arguments.substitute))
 	}
+	return clones
+}
 
-	// also resolve the default case
-	if templChoice.DefaultCase != nil {
-		choice.DefaultCase = &ast.ChoiceCase{
-			Conditions: templChoice.DefaultCase.Conditions,
-			Comment:    templChoice.DefaultCase.Comment,
-		}
-		if templChoice.DefaultCase.Field != nil {
-			newField, err := m.instantiateField(pkgScope, templChoice.DefaultCase.Field, templateTypes)
-			if err != nil {
-				return nil, err
-			}
-			choice.DefaultCase.Field = newField
-		}
-
+func (ti *templateInstantiator) instantiateField(field *ast.Field, arguments templateArguments) (*ast.Field, error) {
+	newType, err := ti.resolve(field.Type, arguments)
+	if err != nil {
+		return nil, err
 	}
-	// resolve the templates for the types
-	for _, typeParam := range templChoice.TypeParameters {
-		if tt, ok := templateTypes[typeParam.Type.Name]; ok && typeParam.Type.Package == "" {
-			// the parameter is a template
-			choice.TypeParameters = append(choice.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			choice.TypeParameters = append(choice.TypeParameters, typeParam)
+	fieldCopy := *field
+	fieldCopy.Type = newType
+	fieldCopy.Initializer = field.Initializer.Clone(arguments.substitute)
+	fieldCopy.Constraint = field.Constraint.Clone(arguments.substitute)
+	fieldCopy.OptionalClause = field.OptionalClause.Clone(arguments.substitute)
+	if field.Array != nil {
+		fieldCopy.Array = &ast.Array{
+			IsPacked: field.Array.IsPacked,
+			Length:   field.Array.Length.Clone(arguments.substitute),
 		}
 	}
+	return &fieldCopy, nil
+}
 
-	// resolve the template for the functions
-	for _, function := range templChoice.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			choice.Functions = append(choice.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			choice.Functions = append(choice.Functions, function)
+func (ti *templateInstantiator) instantiateFields(fields []*ast.Field, arguments templateArguments) ([]*ast.Field, error) {
+	var newFields []*ast.Field
+	for _, field := range fields {
+		newField, err := ti.instantiateField(field, arguments)
+		if err != nil {
+			return nil, err
 		}
+		newFields = append(newFields, newField)
 	}
+	return newFields, nil
+}
 
-	// update the scope with the newly created scope
-	pkgScope.Choices[newType.Name] = choice
-	pkgScope.LocalSymbols.TypeScope[newType.Name] = choice
-	choice.BuildScope(pkgScope)
-	return newType, nil
+func (ti *templateInstantiator) instantiateParameters(params []*ast.Parameter, arguments templateArguments) ([]*ast.Parameter, error) {
+	var newParams []*ast.Parameter
+	for _, param := range params {
+		newType, err := ti.resolve(param.Type, arguments)
+		if err != nil {
+			return nil, err
+		}
+		newParams = append(newParams, &ast.Parameter{
+			Name: param.Name,
+			Type: newType,
+		})
+	}
+	return newParams, nil
 }
 
-func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
-	name := []string{strings.Title(tr.Name)}
-	for _, ta := range templateArguments {
-		name = append(name, strings.Title(ta.Name))
+func (ti *templateInstantiator) instantiateFunctions(functions []*ast.Function, arguments templateArguments) ([]*ast.Function, error) {
+	var newFunctions []*ast.Function
+	for _, function := range functions {
+		newType, err := ti.resolve(function.ReturnType, arguments)
+		if err != nil {
+			return nil, err
+		}
+		newFunctions = append(newFunctions, &ast.Function{
+			Name:       function.Name,
+			Comment:    function.Comment,
+			Result:     function.Result.Clone(arguments.substitute),
+			ReturnType: newType,
+		})
 	}
-	return strings.Join(name, "")
+	return newFunctions, nil
 }
 
-func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference, instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return tr, nil
+func (ti *templateInstantiator) instantiateStruct(templateScope *ast.Package, template *ast.Struct, arguments templateArguments, name string) error {
+	structure := &ast.Struct{
+		Name:    name,
+		Comment: template.Comment,
 	}
+	ti.pkg.Structs[name] = structure
+	ti.pkg.LocalSymbols.TypeScope[name] = structure
 
-	if instantiatedName == "" {
-		// No explicit name  for the new instantiated object was given.
-		// We need to create an instance of tr, using the arguments from
-		// templateArguments. First we build up the name of the instantiated template
-		// by appending all the argument type names.
-		instantiatedName = generateInstantiatedName(tr, templateArguments)
+	var err error
+	if structure.TypeParameters, err = ti.instantiateParameters(template.TypeParameters, arguments); err != nil {
+		return err
+	}
+	if structure.Fields, err = ti.instantiateFields(template.Fields, arguments); err != nil {
+		return err
+	}
+	if structure.Functions, err = ti.instantiateFunctions(template.Functions, arguments); err != nil {
+		return err
 	}
+	if err = structure.BuildScope(ti.pkg); err != nil {
+		return err
+	}
+	ti.pkg.LocalSymbols.CompoundScopes[name].EvaluateIn(templateScope)
+	return nil
+}
 
-	templateScope, err := pkgScope.GetImportedScope(tr.Package)
-	if err != nil {
-		return nil, err
+func (ti *templateInstantiator) instantiateUnion(templateScope *ast.Package, template *ast.Union, arguments templateArguments, name string) error {
+	union := &ast.Union{
+		Name:    name,
+		Comment: template.Comment,
 	}
-	templateSymbol, err := templateScope.GetType(tr.Name)
-	if err != nil {
-		return nil, err
+	ti.pkg.Unions[name] = union
+	ti.pkg.LocalSymbols.TypeScope[name] = union
+
+	var err error
+	if union.TypeParameters, err = ti.instantiateParameters(template.TypeParameters, arguments); err != nil {
+		return err
+	}
+	if union.Fields, err = ti.instantiateFields(template.Fields, arguments); err != nil {
+		return err
+	}
+	if union.Functions, err = ti.instantiateFunctions(template.Functions, arguments); err != nil {
+		return err
 	}
-	var instantiatedType *ast.TypeReference
+	if err = union.BuildScope(ti.pkg); err != nil {
+		return err
+	}
+	ti.pkg.LocalSymbols.CompoundScopes[name].EvaluateIn(templateScope)
+	return nil
+}
 
-	switch n := templateSymbol.Symbol.(type) {
-	case *ast.Struct:
-		instantiatedType, err = m.instantiateStruct(pkgScope, n, templateArguments, instantiatedName)
-	case *ast.Choice:
-		instantiatedType, err = m.instantiateChoice(pkgScope, n, templateArguments, instantiatedName)
-	default:
-		return nil, errors.New("template instantiation not supported for this type")
+func (ti *templateInstantiator) instantiateCase(template *ast.ChoiceCase, arguments templateArguments) (*ast.ChoiceCase, error) {
+	choiceCase := &ast.ChoiceCase{
+		Comment: template.Comment,
+	}
+	for _, condition := range template.Conditions {
+		choiceCase.Conditions = append(choiceCase.Conditions, &ast.ChoiceCaseExpression{
+			Condition: condition.Condition.Clone(arguments.substitute),
+			Comment:   condition.Comment,
+		})
+	}
+	if template.Field != nil {
+		var err error
+		if choiceCase.Field, err = ti.instantiateField(template.Field, arguments); err != nil {
+			return nil, err
+		}
 	}
+	return choiceCase, nil
+}
 
-	if err != nil {
-		return nil, err
+func (ti *templateInstantiator) instantiateChoice(templateScope *ast.Package, template *ast.Choice, arguments templateArguments, name string) error {
+	choice := &ast.Choice{
+		Name:               name,
+		Comment:            template.Comment,
+		SelectorExpression: template.SelectorExpression.Clone(arguments.substitute),
 	}
+	ti.pkg.Choices[name] = choice
+	ti.pkg.LocalSymbols.TypeScope[name] = choice
 
-	// Link the argument expressions from the template type to the instantiation
-	instantiatedType.TypeArguments = tr.TypeArguments
-	return instantiatedType, nil
+	var err error
+	if choice.TypeParameters, err = ti.instantiateParameters(template.TypeParameters, arguments); err != nil {
+		return err
+	}
+	for _, choiceCase := range template.Cases {
+		newCase, err := ti.instantiateCase(choiceCase, arguments)
+		if err != nil {
+			return err
+		}
+		choice.Cases = append(choice.Cases, newCase)
+	}
+	if template.DefaultCase != nil {
+		if choice.DefaultCase, err = ti.instantiateCase(template.DefaultCase, arguments); err != nil {
+			return err
+		}
+	}
+	if choice.Functions, err = ti.instantiateFunctions(template.Functions, arguments); err != nil {
+		return err
+	}
+	if err = choice.BuildScope(ti.pkg); err != nil {
+		return err
+	}
+	ti.pkg.LocalSymbols.CompoundScopes[name].EvaluateIn(templateScope)
+	return nil
 }
 
 func (m *Model) ResolveImports() error {
@@ -915,7 +1035,7 @@ func (m *Model) resolveTypeReference(pkgScope *ast.Package, tr *ast.TypeReferenc
 	}
 
 	for _, ta := range tr.TemplateArguments {
-		if !ignoreParameters[ta.Name] {
+		if ta.Package != "" || !ignoreParameters[ta.Name] {
 			if err := m.resolveTypeReference(pkgScope, ta, ignoreParameters); err != nil {
 				return err
 			}
-- 
2.43.0


From d35bba28f17243d0d61843abf5a1cc60b5a181cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 62/86] fix: values of bitmasks can be named through subtypes

---
 internal/generator/expression.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 6447346..021d220 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -64,7 +64,8 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	// Enums don't exist in Go, so the dot expression must be translated to the
 	// constant, which is Enum name, followed by the Enum value.
 	// The same is valid for bitmasks.
-	if expression.Operand1.ResultType == ast.ExpressionTypeEnum {
+	if expression.Operand1.ResultType == ast.ExpressionTypeEnum ||
+		expression.Operand1.ResultType == ast.ExpressionTypeBitmask {
 		// Due to Go not supporting Enums, we need to check if subtyping is used.
 		// Instead of generating the Enum value with the subtyped name, we need the
 		// original type name.
@@ -88,13 +89,14 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		if err != nil {
 			return "ENUM_GO_TYPE_DEDUCTION_FAILED"
 		}
-		enumValue := originalEnumType + strcase.ToCamel(strings.ToLower(expression.Operand2.Text))
+		enumValue := originalEnumType + rightText
+		if expression.Operand1.ResultType == ast.ExpressionTypeEnum {
+			enumValue = originalEnumType + strcase.ToCamel(strings.ToLower(expression.Operand2.Text))
+		}
 		if originalType.RequiresCast {
 			enumValue = fmt.Sprintf("%s(%s)", leftText, enumValue)
 		}
 		return enumValue
-	} else if expression.Operand1.ResultType == ast.ExpressionTypeBitmask {
-		return leftText + rightText
 	}
 	return fmt.Sprintf("%s.%s", leftText, rightText)
 }
-- 
2.43.0


From 0278076b36548f35aea277f16509f8c4afbfd47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 63/86] fix: packed arrays of types that contain themselves

---
 internal/ast/package.go                          |  6 ++++++
 .../templates/packing_context_create.go.tmpl     |  6 +++++-
 packing_context_node.go                          | 16 ++++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index b16d2c5..cde8b70 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -43,6 +43,9 @@ type OriginalTypeReference struct {
 	Type         *TypeReference
 	RequiresCast bool
 	IsMarshaler  bool
+
+	// IsCompound is set for structs, choices and unions.
+	IsCompound bool
 }
 
 func NewPackage(name string) *Package {
@@ -408,6 +411,7 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 				Type:         typeRef,
 				RequiresCast: requiresCast,
 				IsMarshaler:  true,
+				IsCompound:   true,
 			}, nil
 		case *BitmaskType:
 			return &OriginalTypeReference{
@@ -420,12 +424,14 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 				Type:         typeRef,
 				RequiresCast: requiresCast,
 				IsMarshaler:  true,
+				IsCompound:   true,
 			}, nil
 		case *Struct:
 			return &OriginalTypeReference{
 				Type:         typeRef,
 				RequiresCast: requiresCast,
 				IsMarshaler:  true,
+				IsCompound:   true,
 			}, nil
 		case *Field:
 			typeRef = n.Type
diff --git a/internal/generator/templates/packing_context_create.go.tmpl b/internal/generator/templates/packing_context_create.go.tmpl
index fb774bd..b946ca0 100644
--- a/internal/generator/templates/packing_context_create.go.tmpl
+++ b/internal/generator/templates/packing_context_create.go.tmpl
@@ -13,10 +13,14 @@ contextNode.AddChild(field{{ $field.Name }}Node)
         // the field is a marshalable type, let the type itself decide if a delta
         // context is needed
         var field{{ $field.Name }}Ptr *{{ goType $scope $native.Type }}
+        {{- if $native.IsCompound }}
+        // it may contain values of its own type
+        field{{ $field.Name }}Node.CreateChildrenLater(field{{ $field.Name }}Ptr.ZserioCreatePackingContext)
+        {{- else }}
         if err := field{{ $field.Name }}Ptr.ZserioCreatePackingContext(field{{ $field.Name }}Node); err != nil {
             return err
         }
-       
+        {{- end }}
     {{- else if isDeltaPackable $scope $native.Type }}
         // The field can be directly delta packed, therefore create a delta context
         field{{ $field.Name }}Node.Context = &ztype.DeltaContext[{{ goType $scope $native.Type }}]{}
diff --git a/packing_context_node.go b/packing_context_node.go
index 65aad75..6b811c8 100644
--- a/packing_context_node.go
+++ b/packing_context_node.go
@@ -10,6 +10,9 @@ type IDeltaContext interface {
 type PackingContextNode struct {
 	children []*PackingContextNode
 
+	// createChildren adds the children when they are needed first.
+	createChildren func(*PackingContextNode) error
+
 	// the delta context used in a packed context.
 	Context IDeltaContext
 }
@@ -19,8 +22,21 @@ func (context *PackingContextNode) AddChild(child *PackingContextNode) {
 	context.children = append(context.children, child)
 }
 
+// CreateChildrenLater sets the function that adds the children, which is called
+// when they are needed. The contexts of types that contain themselves have no
+// end, so they cannot be created up front.
+func (context *PackingContextNode) CreateChildrenLater(create func(*PackingContextNode) error) {
+	context.createChildren = create
+}
+
 // GetChildren returns the child PackingContextNodes of a PackingContextNode.
 func (context *PackingContextNode) GetChildren() []*PackingContextNode {
+	if create := context.createChildren; create != nil {
+		context.createChildren = nil
+		if err := create(context); err != nil {
+			return nil
+		}
+	}
 	return context.children
 }
 
-- 
2.43.0


From f1cef6b544d5098ffd377c2c504907b275d14d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 64/86] fix: generate for the current directory

---
 internal/model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index 5255496..0225224 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -61,7 +61,7 @@ func walkDir(root string) ([]string, error) {
 			return err
 		}
 		if d.IsDir() {
-			if strings.HasPrefix(d.Name(), ".") {
+			if path != root && strings.HasPrefix(d.Name(), ".") {
 				return filepath.SkipDir
 			}
 			return nil
-- 
2.43.0


From ff7bbb3e005ae900c6ad8eee888069f1b406ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 65/86] fix: the order of generated types does not depend on
 map order

---
 internal/generator/gen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 35d6d7a..684d981 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -192,6 +192,7 @@ func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
 // output allows us easier passing of arguments to write packages.
 type output struct {
 	name         string // the name of the data structure that is output
+	typeName     string // the name of the type that is output
 	template     string // template file name
 	data         data
 	withPreamble bool
@@ -239,7 +240,9 @@ func newTypeOutput(astType any, d data, withPreamble bool, opts *options) output
 		templateData[k] = v
 	}
 	templateData[typeName] = astType
-	return newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	o := newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	o.typeName = name
+	return o
 }
 
 func (o *output) executeTemplate(w io.Writer) error {
@@ -294,6 +297,9 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 
 	sort.Slice(outs, func(i, j int) bool {
 		if outs[i].template == outs[j].template {
+			if outs[i].name == outs[j].name {
+				return outs[i].typeName > outs[j].typeName
+			}
 			return outs[i].name > outs[j].name
 		}
 
-- 
2.43.0


From 93a089ba11c1c6b48651b6f16242fcdc7879a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 66/86] fix: file names of generated types are unique and
 compiled by Go

---
 internal/generator/gen.go | 62 ++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 684d981..6cdede6 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"go/build"
 	"go/format"
 	"io"
 	"log"
@@ -61,7 +62,7 @@ func (limiter PathLengthLimiter) LimitPathLength(opts *options) {
 type data map[string]any
 
 // uniquePaths keeps track of all codes files that have been generated so far and adds an "_idx" suffix if the same path appears again
-var uniquePaths map[string]int
+var uniquePaths map[string]bool
 
 func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags ...Option) error {
 	opts := &options{
@@ -88,8 +89,13 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		return generatePackage(rootPath, pkg, opts)
 	}
 
-	for _, pkg := range m.Packages {
-		if err := generatePackage(rootPath, pkg, opts); err != nil {
+	// the names of the files only depend on what is generated now
+	uniquePaths = nil
+
+	packageNames := maps.Keys(m.Packages)
+	sort.Strings(packageNames)
+	for _, name := range packageNames {
+		if err := generatePackage(rootPath, m.Packages[name], opts); err != nil {
 			return err
 		}
 	}
@@ -136,13 +142,18 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 
 func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (string, error) {
 	if uniquePaths == nil {
-		uniquePaths = make(map[string]int)
+		uniquePaths = make(map[string]bool)
 	}
 
-	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength < minLength {
+	minLength := len(outputDir) + FileSuffixLength + MinFileNameLength
+	if maxPathLength > 0 && maxPathLength < minLength {
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
+	// Go ignores files that start with an underscore
+	if fn = strings.TrimLeft(fn, "_"); fn == "" {
+		fn = "type"
+	}
 	outputFile := path.Join(outputDir, fn)
 
 	if maxPathLength > 0 {
@@ -155,13 +166,42 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		}
 	}
 
-	if count, ok := uniquePaths[outputFile]; ok {
-		uniquePaths[outputFile]++
-		return fmt.Sprintf("%s_%d%s", outputFile, count, FileSuffix), nil
-	} else {
-		uniquePaths[outputFile] = 1
-		return fmt.Sprintf("%s%s", outputFile, FileSuffix), nil
+	for count := 0; ; count++ {
+		suffix := FileSuffix
+		if count > 0 {
+			suffix = fmt.Sprintf("_%d%s", count, FileSuffix)
+		}
+		uniqueFile := outputFile
+		if maxPathLength > 0 && len(uniqueFile)+len(suffix) > maxPathLength {
+			uniqueFile = uniqueFile[:maxPathLength-len(suffix)]
+			if len(uniqueFile) <= len(path.Clean(outputDir))+1 {
+				return "", fmt.Errorf("maximum path length %d is too short for the files in the output directory", maxPathLength)
+			}
+		}
+		uniqueFile += suffix
+		if uniquePaths[uniqueFile] || isIgnoredByGo(path.Base(uniqueFile)) {
+			continue
+		}
+		uniquePaths[uniqueFile] = true
+		return uniqueFile, nil
+	}
+}
+
+// isIgnoredByGo returns if Go does not always compile a file, because of its
+// name.
+func isIgnoredByGo(fn string) bool {
+	if strings.HasSuffix(fn, "_test.go") {
+		return true
+	}
+	context := build.Context{
+		GOOS:   "none",
+		GOARCH: "none",
+		OpenFile: func(string) (io.ReadCloser, error) {
+			return io.NopCloser(strings.NewReader("package p")), nil
+		},
 	}
+	match, err := context.MatchFile("", fn)
+	return err == nil && !match
 }
 
 func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
-- 
2.43.0


From 31462658be3936d51876c1f514b2aa8cf6b82fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 67/86] fix: packages called init can be imported

---
 internal/ast/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index cde8b70..cf5198d 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -480,7 +480,7 @@ func GoPackageAlias(packageName string) string {
 	if strings.HasPrefix(alias, "0") {
 		alias = "_" + alias
 	}
-	if generatedNames[alias] || token.IsKeyword(alias) || types.Universe.Lookup(alias) != nil {
+	if alias == "init" || generatedNames[alias] || token.IsKeyword(alias) || types.Universe.Lookup(alias) != nil {
 		return alias + "_"
 	}
 	return alias
-- 
2.43.0


From 7a6f24c1f1f6adc6757cdeab63ee2a5cb48594f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 68/86] fix: operands that are not symbols do not crash the
 generator

---
 internal/ast/expression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index a98b37d..3ae96a6 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -327,6 +327,9 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 }
 
 func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
+	if expr.Operand1.ResultSymbol == nil {
+		return errors.New("function expression expected")
+	}
 	function, ok := expr.Operand1.ResultSymbol.Symbol.(*Function)
 	if !ok {
 		return errors.New("function expression expected")
@@ -360,6 +363,9 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 }
 
 func getArrayField(expr *Expression) (*Field, error) {
+	if expr.ResultSymbol == nil {
+		return nil, errors.New("field is not an array")
+	}
 	field, ok := expr.ResultSymbol.Symbol.(*Field)
 	if !ok {
 		return nil, errors.New("unexpected array type (field expected)")
@@ -460,6 +466,9 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 	// In case the expression does not directly reference to actual enum/bitmask type,
 	// but references it using subtypes, we first need to resolve the actual type.
 	op1Symbol := expr.Operand1.ResultSymbol
+	if op1Symbol == nil {
+		return errors.New("dot expression must use a valid symbol")
+	}
 	op1Symbol, err := scope.GetOriginalSymbol(op1Symbol)
 	if err != nil {
 		return err
-- 
2.43.0


From 85ccdda2b18e90cb076a78b6bad3f5ccf3e863bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 69/86] fix: imports of symbols that do not exist are reported

---
 internal/model/transform.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index c510136..799bf71 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -700,6 +700,11 @@ func (m *Model) ResolveImports() error {
 			if !found {
 				return UnknownPackage{imp.Package}
 			}
+			if imp.Type != "*" {
+				if _, err := iPkg.GetLocalSymbol(imp.Type); err != nil {
+					return UnknownType{ast.TypeReference{Package: imp.Package, Name: imp.Type}}
+				}
+			}
 			if !imported[imp.Package] {
 				imported[imp.Package] = true
 				pkg.ImportedPackages = append(pkg.ImportedPackages, iPkg)
-- 
2.43.0


From af8acabe099b374c286f6f298b4da861110a9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 70/86] fix: files with syntax errors are rejected

---
 internal/model/package.go   | 30 +++++++++++++++++++++++---
 internal/visitor/visitor.go | 42 ++++++++++++++++++++++++++++++++-----
 2 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/internal/model/package.go b/internal/model/package.go
index 39b7b7a..70b6831 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -1,28 +1,52 @@
 package model
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr/v4"
 	"github.com/woven-planet/go-zserio/internal/ast"
 	"github.com/woven-planet/go-zserio/internal/parser"
 	"github.com/woven-planet/go-zserio/internal/visitor"
 )
 
+// syntaxErrors collects the errors of the lexer and the parser.
+type syntaxErrors struct {
+	*antlr.DefaultErrorListener
+	errs []error
+}
+
+func (s *syntaxErrors) SyntaxError(_ antlr.Recognizer, _ any, line, column int, msg string, _ antlr.RecognitionException) {
+	s.errs = append(s.errs, fmt.Errorf("line %d:%d: %s", line, column, msg))
+}
+
 func PackageFromFile(path string) (*ast.Package, error) {
 	input, err := antlr.NewFileStream(path)
 	if err != nil {
 		return nil, err
 	}
 
+	errs := &syntaxErrors{DefaultErrorListener: antlr.NewDefaultErrorListener()}
 	lexer := parser.NewZserioLexer(input)
+	lexer.RemoveErrorListeners()
+	lexer.AddErrorListener(errs)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewZserioParser(stream)
-	p.AddErrorListener(antlr.NewDiagnosticErrorListener(true))
+	p.RemoveErrorListeners()
+	p.AddErrorListener(errs)
 	tree := p.PackageDeclaration()
+	if len(errs.errs) > 0 {
+		return nil, fmt.Errorf("%s: %w", path, errors.Join(errs.errs...))
+	}
 	visitor := &visitor.Visitor{}
 
-	switch v := visitor.Visit(tree).(type) {
+	result := visitor.Visit(tree)
+	if visitor.Err != nil {
+		return nil, fmt.Errorf("%s: %w", path, visitor.Err)
+	}
+	switch v := result.(type) {
 	case error:
-		return nil, err
+		return nil, fmt.Errorf("%s: %w", path, v)
 	case *ast.Package:
 		return v, nil
 	}
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 12ee8f6..f18fe92 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -14,10 +14,22 @@ import (
 )
 
 var ErrImplicitLengthArraysNotSupported = errors.New("implicit length arrays are obsolete, and not supported")
+var ErrMissingPackageName = errors.New("the package has no name")
 var ErrAlignmentMustBeInteger = errors.New("alignment expression must be an integer")
 
 type Visitor struct {
 	parser.BaseZserioParserVisitor
+
+	// Err is the first error that was found. The result of a visit is not
+	// complete if it is set.
+	Err error
+}
+
+// fail keeps the first error.
+func (v *Visitor) fail(line int, err error) {
+	if v.Err == nil {
+		v.Err = fmt.Errorf("line %d: %w", line, err)
+	}
 }
 
 func (v *Visitor) Visit(tree antlr.ParseTree) any {
@@ -45,6 +57,9 @@ func (v *Visitor) VisitChildren(node antlr.RuleNode) any {
 }
 
 func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext) any {
+	if ctx.PackageNameDefinition() == nil {
+		return ErrMissingPackageName
+	}
 	pkg := ast.NewPackage(v.Visit(ctx.PackageNameDefinition().(antlr.ParseTree)).(string))
 	pkg.Comment = getComment(ctx.GetParser(), ctx.GetStart())
 
@@ -55,24 +70,41 @@ func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext)
 		}
 	}
 
+	declared := map[string]bool{}
+	declare := func(line int, name string) {
+		if declared[name] {
+			v.fail(line, fmt.Errorf("%s is declared more than once", name))
+		}
+		declared[name] = true
+	}
+
 	for _, dir := range ctx.AllLanguageDirective() {
 		dirNode := v.Visit(dir.(antlr.ParseTree))
+		line := dir.GetStart().GetLine()
 		switch n := dirNode.(type) {
 		case *ast.Const:
+			declare(line, n.Name)
 			pkg.Consts[n.Name] = n
 		case *ast.Subtype:
+			declare(line, n.Name)
 			pkg.Subtypes[n.Name] = n
 		case *ast.InstantiateType:
+			declare(line, n.Name)
 			pkg.InstantiatedTypes[n.Name] = n
 		case *ast.Struct:
+			declare(line, n.Name)
 			pkg.Structs[n.Name] = n
 		case *ast.Enum:
+			declare(line, n.Name)
 			pkg.Enums[n.Name] = n
 		case *ast.Union:
+			declare(line, n.Name)
 			pkg.Unions[n.Name] = n
 		case *ast.BitmaskType:
+			declare(line, n.Name)
 			pkg.Bitmasks[n.Name] = n
 		case *ast.Choice:
+			declare(line, n.Name)
 			pkg.Choices[n.Name] = n
 		}
 	}
@@ -185,11 +217,11 @@ func (v *Visitor) VisitStructureFieldDefinition(ctx *parser.StructureFieldDefini
 	field.Comment = getComment(ctx.GetParser(), ctx.GetStart())
 	field.IsOptional = ctx.OPTIONAL() != nil
 	if a := ctx.FieldAlignment(); a != nil {
-		a, ok := v.Visit(a.(antlr.ParseTree)).(uint8)
-		if !ok {
-			return ErrAlignmentMustBeInteger
+		if alignment, ok := v.Visit(a.(antlr.ParseTree)).(uint8); ok {
+			field.Alignment = alignment
+		} else {
+			v.fail(ctx.GetStart().GetLine(), ErrAlignmentMustBeInteger)
 		}
-		field.Alignment = a
 	}
 
 	if ctx.FieldInitializer() != nil {
@@ -628,7 +660,7 @@ func (v *Visitor) VisitFieldTypeId(ctx *parser.FieldTypeIdContext) any {
 		}
 		if ctx.IMPLICIT() != nil {
 			// http://zserio.org/doc/ZserioLanguageOverview.html#implicit-length-arrays
-			return ErrImplicitLengthArraysNotSupported
+			v.fail(ctx.GetStart().GetLine(), ErrImplicitLengthArraysNotSupported)
 		}
 		if ctx.PACKED() != nil {
 			field.Array.IsPacked = true
-- 
2.43.0


From 028496443d3f971f11113afb1b60a8b5b35fa844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 71/86] fix: a package cannot be defined in several files

---
 internal/model/model.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/model/model.go b/internal/model/model.go
index 0225224..66ac3b9 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -24,7 +24,12 @@ func NewModel() *Model {
 func FromFiles(paths ...string) (*Model, error) {
 	m := NewModel()
 
+	parsed := map[string]bool{}
 	for _, p := range paths {
+		if parsed[filepath.Clean(p)] {
+			continue
+		}
+		parsed[filepath.Clean(p)] = true
 		if err := m.parseFile(p); err != nil {
 			return nil, err
 		}
@@ -95,6 +100,9 @@ func (m *Model) parseFile(path string) error {
 		return err
 	}
 
+	if _, found := m.Packages[pkg.Name]; found {
+		return fmt.Errorf("%s: package %s is already defined in another file", path, pkg.Name)
+	}
 	m.Packages[pkg.Name] = pkg
 	return nil
 }
-- 
2.43.0


From f2a977c5876d1a5fad0de192620dca3de72edbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 72/86] fix: declarations whose names are the same in Go are
 rejected

---
 internal/model/BUILD.bazel       |   2 +
 internal/model/model.go          |   4 +
 internal/model/validate.go       |  66 +++++++++++++++
 internal/model/validate_names.go | 138 +++++++++++++++++++++++++++++++
 4 files changed, 210 insertions(+)
 create mode 100644 internal/model/validate.go
 create mode 100644 internal/model/validate_names.go

diff --git a/internal/model/BUILD.bazel b/internal/model/BUILD.bazel
index a6d1a1d..d30b221 100644
--- a/internal/model/BUILD.bazel
+++ b/internal/model/BUILD.bazel
@@ -6,6 +6,8 @@ go_library(
         "model.go",
         "package.go",
         "transform.go",
+        "validate.go",
+        "validate_names.go",
     ],
     importpath = "github.com/woven-planet/go-zserio/internal/model",
     visibility = ["//:__subpackages__"],
diff --git a/internal/model/model.go b/internal/model/model.go
index 66ac3b9..94e0ffe 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -144,6 +144,10 @@ func (m *Model) evaluate() error {
 		return fmt.Errorf("eval choices: %w", err)
 	}
 
+	if err := m.Validate(); err != nil {
+		return fmt.Errorf("validate: %w", err)
+	}
+
 	m.CapitalizeNames()
 	return nil
 }
diff --git a/internal/model/validate.go b/internal/model/validate.go
new file mode 100644
index 0000000..44397e5
--- /dev/null
+++ b/internal/model/validate.go
@@ -0,0 +1,66 @@
+package model
+
+import (
+	"fmt"
+
+	"github.com/woven-planet/go-zserio/internal/ast"
+)
+
+// validator checks the parts of an evaluated package.
+type validator struct {
+	m   *Model
+	pkg *ast.Package
+}
+
+// Validate checks what the evaluation of the model does not: that all types
+// and values can be used in the way they are used.
+func (m *Model) Validate() error {
+	for _, name := range sortedKeys(m.Packages) {
+		v := &validator{m: m, pkg: m.Packages[name]}
+		if err := v.validate(); err != nil {
+			return fmt.Errorf("package %s: %w", name, err)
+		}
+	}
+	return nil
+}
+
+func (v *validator) validate() error {
+	for _, name := range sortedKeys(v.pkg.Structs) {
+		s := v.pkg.Structs[name]
+		if err := v.validateCompound(s, s.TemplateParameters, s.TypeParameters, s.Fields, s.Functions); err != nil {
+			return fmt.Errorf("struct %s: %w", name, err)
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Unions) {
+		u := v.pkg.Unions[name]
+		if err := v.validateCompound(u, u.TemplateParameters, u.TypeParameters, u.Fields, u.Functions); err != nil {
+			return fmt.Errorf("union %s: %w", name, err)
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Choices) {
+		choice := v.pkg.Choices[name]
+		if err := v.validateCompound(choice, choice.TemplateParameters, choice.TypeParameters, choiceFields(choice), choice.Functions); err != nil {
+			return fmt.Errorf("choice %s: %w", name, err)
+		}
+	}
+	return v.validateGoNames()
+}
+
+func (v *validator) validateCompound(
+	compound any,
+	templateParameters []string,
+	parameters []*ast.Parameter,
+	fields []*ast.Field,
+	functions []*ast.Function) error {
+	templateNames := map[string]bool{}
+	for _, name := range templateParameters {
+		if templateNames[name] {
+			return fmt.Errorf("%s is declared more than once", name)
+		}
+		templateNames[name] = true
+	}
+	if err := validateMemberNames(compound, parameters, fields, functions); err != nil {
+		return err
+	}
+	return nil
+}
diff --git a/internal/model/validate_names.go b/internal/model/validate_names.go
new file mode 100644
index 0000000..7404866
--- /dev/null
+++ b/internal/model/validate_names.go
@@ -0,0 +1,138 @@
+package model
+
+import (
+	"fmt"
+	"strings"
+
+	"github.com/woven-planet/go-zserio/internal/ast"
+)
+
+// generatedMembers are the names of the methods of all compound types.
+var generatedMembers = []string{
+	"LoadDefaultValues",
+	"MarshalZserio",
+	"MarshalZserioPacked",
+	"UnmarshalZserio",
+	"UnmarshalZserioPacked",
+	"ZserioBitSize",
+	"ZserioBitSizePacked",
+	"ZserioCreatePackingContext",
+	"ZserioInitPackingContext",
+	"ZserioInitializeOffsetsPacked",
+}
+
+// goNames are the names that are used in a Go scope.
+type goNames map[string]string
+
+// add reports if a name is already used.
+func (names goNames) add(name, description string) error {
+	if name == "_" {
+		return fmt.Errorf("%s has no name", description)
+	}
+	if other, found := names[name]; found {
+		return fmt.Errorf("%s and %s are both called %s in Go", other, description, name)
+	}
+	names[name] = description
+	return nil
+}
+
+// validateMemberNames checks that all members of a compound type have different
+// names.
+func validateMemberNames(compound any, parameters []*ast.Parameter, fields []*ast.Field, functions []*ast.Function) error {
+	names := goNames{}
+	for _, name := range generatedMembers {
+		names[name] = "the generated method " + name
+	}
+	if _, isUnion := compound.(*ast.Union); isUnion {
+		names["UnionChoice"] = "the generated field UnionChoice"
+	}
+	for _, parameter := range parameters {
+		if err := names.add(strings.Title(parameter.Name), "parameter "+parameter.Name); err != nil {
+			return err
+		}
+	}
+	for _, field := range fields {
+		if err := names.add(strings.Title(field.Name), "field "+field.Name); err != nil {
+			return err
+		}
+	}
+	for _, function := range functions {
+		if err := names.add(strings.Title(function.Name), "function "+function.Name); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// validateGoNames checks that all declarations of a package have different
+// names.
+func (v *validator) validateGoNames() error {
+	names := goNames{}
+	for _, name := range sortedKeys(v.pkg.Consts) {
+		if err := names.add(strings.Title(name), "const "+name); err != nil {
+			return err
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Subtypes) {
+		if err := names.add(strings.Title(name), "subtype "+name); err != nil {
+			return err
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Structs) {
+		if len(v.pkg.Structs[name].TemplateParameters) > 0 {
+			continue
+		}
+		if err := names.add(strings.Title(name), "struct "+name); err != nil {
+			return err
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Choices) {
+		if len(v.pkg.Choices[name].TemplateParameters) > 0 {
+			continue
+		}
+		if err := names.add(strings.Title(name), "choice "+name); err != nil {
+			return err
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Unions) {
+		union := v.pkg.Unions[name]
+		if len(union.TemplateParameters) > 0 {
+			continue
+		}
+		goName := strings.Title(name)
+		generated := []string{goName, goName + "UnionChoiceType", goName + "ChoiceUndefined"}
+		for _, field := range union.Fields {
+			generated = append(generated, goName+"Choice"+strings.Title(field.Name))
+		}
+		for _, n := range generated {
+			if err := names.add(n, "union "+name); err != nil {
+				return err
+			}
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Enums) {
+		goName := strings.Title(name)
+		for _, n := range []string{goName, goName + "Values", goName + "Strings", goName + "String"} {
+			if err := names.add(n, "enum "+name); err != nil {
+				return err
+			}
+		}
+		for _, item := range v.pkg.Enums[name].Items {
+			if err := names.add(strings.Title(item.GoName()), "item "+name+"."+item.Name); err != nil {
+				return err
+			}
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Bitmasks) {
+		goName := strings.Title(name)
+		if err := names.add(goName, "bitmask "+name); err != nil {
+			return err
+		}
+		for _, value := range v.pkg.Bitmasks[name].Values {
+			if err := names.add(goName+strings.Title(value.Name), "value "+name+"."+value.Name); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
-- 
2.43.0


From cab22b2267e9171b1b57bec682da0829d235c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 73/86] fix: types that cannot be used are rejected

---
 internal/model/validate.go            | 206 +++++++++++++++++++++
 internal/model/validate_expression.go | 150 ++++++++++++++++
 internal/model/validate_value.go      | 249 ++++++++++++++++++++++++++
 3 files changed, 605 insertions(+)
 create mode 100644 internal/model/validate_expression.go
 create mode 100644 internal/model/validate_value.go

diff --git a/internal/model/validate.go b/internal/model/validate.go
index 44397e5..74786b2 100644
--- a/internal/model/validate.go
+++ b/internal/model/validate.go
@@ -6,6 +6,74 @@ import (
 	"github.com/woven-planet/go-zserio/internal/ast"
 )
 
+// kind is the kind of the values of a type, or of an expression.
+type kind string
+
+const (
+	kindInteger  kind = kind(ast.ExpressionTypeInteger)
+	kindFloat    kind = kind(ast.ExpressionTypeFloat)
+	kindString   kind = kind(ast.ExpressionTypeString)
+	kindBool     kind = kind(ast.ExpressionTypeBool)
+	kindBitmask  kind = kind(ast.ExpressionTypeBitmask)
+	kindEnum     kind = kind(ast.ExpressionTypeEnum)
+	kindCompound kind = kind(ast.ExpressionTypeCompound)
+	kindExtern   kind = "extern"
+	kindBytes    kind = "bytes"
+)
+
+// valueType is a type without the indirections of subtypes.
+type valueType struct {
+	kind kind
+	// builtin is set for types that are built into zserio.
+	builtin *ast.TypeReference
+	// symbol is the declaration of all other types.
+	symbol any
+}
+
+func (t *valueType) name() string {
+	switch n := t.symbol.(type) {
+	case *ast.Enum:
+		return n.Name
+	case *ast.BitmaskType:
+		return n.Name
+	case *ast.Struct:
+		return n.Name
+	case *ast.Choice:
+		return n.Name
+	case *ast.Union:
+		return n.Name
+	}
+	return t.builtin.Name
+}
+
+func symbolKind(symbol any) (kind, bool) {
+	switch symbol.(type) {
+	case *ast.Enum:
+		return kindEnum, true
+	case *ast.BitmaskType:
+		return kindBitmask, true
+	case *ast.Struct, *ast.Choice, *ast.Union:
+		return kindCompound, true
+	}
+	return "", false
+}
+
+func builtinKind(name string) kind {
+	switch name {
+	case "bool":
+		return kindBool
+	case "string":
+		return kindString
+	case "float16", "float32", "float64":
+		return kindFloat
+	case "extern":
+		return kindExtern
+	case "bytes":
+		return kindBytes
+	}
+	return kindInteger
+}
+
 // validator checks the parts of an evaluated package.
 type validator struct {
 	m   *Model
@@ -25,6 +93,11 @@ func (m *Model) Validate() error {
 }
 
 func (v *validator) validate() error {
+	for _, name := range sortedKeys(v.pkg.Subtypes) {
+		if _, err := v.valueType(v.pkg.Subtypes[name].Type); err != nil {
+			return fmt.Errorf("subtype %s: %w", name, err)
+		}
+	}
 	for _, name := range sortedKeys(v.pkg.Structs) {
 		s := v.pkg.Structs[name]
 		if err := v.validateCompound(s, s.TemplateParameters, s.TypeParameters, s.Fields, s.Functions); err != nil {
@@ -46,6 +119,54 @@ func (v *validator) validate() error {
 	return v.validateGoNames()
 }
 
+// valueType returns the type that a reference stands for.
+func (v *validator) valueType(tr *ast.TypeReference) (*valueType, error) {
+	original, err := v.pkg.GetOriginalType(tr)
+	if err != nil {
+		return nil, fmt.Errorf("%s is not a type: %w", tr.Name, err)
+	}
+	if original.Type.IsBuiltin {
+		return &valueType{kind: builtinKind(original.Type.Name), builtin: original.Type}, v.validateWidth(original.Type)
+	}
+	symbol, err := v.m.Packages[original.Type.Package].GetLocalSymbol(original.Type.Name)
+	if err != nil {
+		return nil, err
+	}
+	symbolKind, ok := symbolKind(symbol.Symbol)
+	if !ok {
+		return nil, fmt.Errorf("%s is not a type", tr.Name)
+	}
+	return &valueType{kind: symbolKind, symbol: symbol.Symbol}, nil
+}
+
+// validateWidth checks the number of bits of a type.
+func (v *validator) validateWidth(tr *ast.TypeReference) error {
+	if !isBitField(tr) || isUnsized(tr) {
+		return nil
+	}
+	width := int64(tr.Bits)
+	if tr.LengthExpression != nil {
+		if !tr.LengthExpression.FullyResolved {
+			return nil
+		}
+		width = tr.LengthExpression.ResultIntValue
+	}
+	if width < 1 || width > 64 {
+		return fmt.Errorf("%s cannot have %d bits", tr.Name, width)
+	}
+	return nil
+}
+
+func isBitField(tr *ast.TypeReference) bool {
+	return tr.Name == "int" || tr.Name == "bit"
+}
+
+// isUnsized returns if a type is a bit field without a number of bits. Such
+// values cannot be encoded.
+func isUnsized(tr *ast.TypeReference) bool {
+	return isBitField(tr) && tr.Bits == 0 && tr.LengthExpression == nil
+}
+
 func (v *validator) validateCompound(
 	compound any,
 	templateParameters []string,
@@ -62,5 +183,90 @@ func (v *validator) validateCompound(
 	if err := validateMemberNames(compound, parameters, fields, functions); err != nil {
 		return err
 	}
+	if len(templateParameters) > 0 {
+		// only the instances of a template have types
+		return nil
+	}
+
+	for _, parameter := range parameters {
+		if _, err := v.valueType(parameter.Type); err != nil {
+			return fmt.Errorf("parameter %s: %w", parameter.Name, err)
+		}
+	}
+	for _, field := range fields {
+		if err := v.validateField(field); err != nil {
+			return fmt.Errorf("field %s: %w", field.Name, err)
+		}
+		if v.contains(field, compound, map[any]bool{}) {
+			return fmt.Errorf("field %s: the type contains itself", field.Name)
+		}
+	}
+	for _, function := range functions {
+		if _, err := v.valueType(function.ReturnType); err != nil {
+			return fmt.Errorf("function %s: %w", function.Name, err)
+		}
+	}
 	return nil
 }
+
+func (v *validator) validateField(field *ast.Field) error {
+	t, err := v.valueType(field.Type)
+	if err != nil {
+		return err
+	}
+	if t.builtin != nil && isUnsized(t.builtin) {
+		return fmt.Errorf("the number of bits of %s is missing", t.name())
+	}
+	if err := v.validateArguments(field, t); err != nil {
+		return err
+	}
+	return nil
+}
+
+// validateArguments checks the type arguments of a field.
+func (v *validator) validateArguments(field *ast.Field, t *valueType) error {
+	var parameters []*ast.Parameter
+	switch n := t.symbol.(type) {
+	case *ast.Struct:
+		parameters = n.TypeParameters
+	case *ast.Choice:
+		parameters = n.TypeParameters
+	case *ast.Union:
+		parameters = n.TypeParameters
+	}
+	if len(parameters) != len(field.Type.TypeArguments) {
+		return fmt.Errorf("%s has %d parameters, but %d arguments are given", t.name(), len(parameters), len(field.Type.TypeArguments))
+	}
+	return nil
+}
+
+// contains returns if every value of a field contains a value of a compound
+// type.
+func (v *validator) contains(field *ast.Field, compound any, visited map[any]bool) bool {
+	if field.IsOptional || field.OptionalClause != nil || field.Array != nil {
+		return false
+	}
+	t, err := v.valueType(field.Type)
+	if err != nil || t.kind != kindCompound || visited[t.symbol] {
+		return false
+	}
+	if t.symbol == compound {
+		return true
+	}
+	visited[t.symbol] = true
+	var fields []*ast.Field
+	switch n := t.symbol.(type) {
+	case *ast.Struct:
+		fields = n.Fields
+	case *ast.Union:
+		fields = n.Fields
+	case *ast.Choice:
+		fields = choiceFields(n)
+	}
+	for _, f := range fields {
+		if v.contains(f, compound, visited) {
+			return true
+		}
+	}
+	return false
+}
diff --git a/internal/model/validate_expression.go b/internal/model/validate_expression.go
new file mode 100644
index 0000000..1c3b6f7
--- /dev/null
+++ b/internal/model/validate_expression.go
@@ -0,0 +1,150 @@
+package model
+
+import (
+	"errors"
+	"fmt"
+
+	"github.com/woven-planet/go-zserio/internal/ast"
+	"github.com/woven-planet/go-zserio/internal/parser"
+)
+
+// expressionKind returns the kind of the result of an expression.
+func expressionKind(expr *ast.Expression) kind {
+	if expr.ResultType == ast.ExpressionTypeInteger && expr.NativeZserioType != nil {
+		return builtinKind(expr.NativeZserioType.Name)
+	}
+	return kind(expr.ResultType)
+}
+
+// expressionSymbol returns the enum, bitmask or compound type of the result of
+// an expression, or nil if it is not known.
+func (v *validator) expressionSymbol(expr *ast.Expression) any {
+	if expr.Type == parser.ZserioParserLPAREN {
+		return v.expressionSymbol(expr.Operand1)
+	}
+	reference := expr.ResultSymbol
+	if expr.Type == parser.ZserioParserDOT && expr.FullyResolved {
+		// an item of an enum or a bitmask
+		reference = expr.Operand1.ResultSymbol
+	}
+	if reference == nil {
+		return nil
+	}
+	if function, ok := reference.Symbol.(*ast.Function); ok {
+		reference = &ast.SymbolReference{Symbol: function.ReturnType}
+	}
+	original, err := v.pkg.GetOriginalSymbol(reference)
+	if err != nil {
+		return nil
+	}
+	if _, ok := symbolKind(original.Symbol); !ok {
+		return nil
+	}
+	return original.Symbol
+}
+
+// isArray returns if the result of an expression is an array.
+func isArray(expr *ast.Expression) bool {
+	if expr.Type == parser.ZserioParserLPAREN {
+		return isArray(expr.Operand1)
+	}
+	if expr.Type != parser.ZserioParserID && expr.Type != parser.ZserioParserDOT || expr.ResultSymbol == nil {
+		return false
+	}
+	field, ok := expr.ResultSymbol.Symbol.(*ast.Field)
+	return ok && field.Array != nil
+}
+
+// validateExpression checks that the operands of an expression can be used with
+// its operators, and that its result is a single value.
+func (v *validator) validateExpression(expr *ast.Expression, hasIndex bool) error {
+	if expr == nil || expr.Type == parser.UnevaluatableExpressionType {
+		return nil
+	}
+	switch expr.Type {
+	case parser.ZserioParserINDEX:
+		if !hasIndex {
+			return errors.New("@index can only be used in the arguments of the elements of arrays")
+		}
+	case parser.ZserioParserID, parser.ZserioParserDOT:
+		if isArray(expr) {
+			return errors.New("an array is not a value")
+		}
+		if expr.Type == parser.ZserioParserDOT {
+			if err := v.validateOwner(expr.Operand1, hasIndex); err != nil {
+				return err
+			}
+		}
+		if expr.ResultSymbol == nil {
+			return nil
+		}
+		switch expr.ResultSymbol.Symbol.(type) {
+		case *ast.Field, *ast.Parameter:
+		case *ast.Function:
+			return fmt.Errorf("the function %s is not called", expr.ResultSymbol.Name)
+		default:
+			return fmt.Errorf("%s is not a value", expr.ResultSymbol.Name)
+		}
+		return nil
+	case parser.ZserioParserRPAREN:
+		return v.validateOwner(expr.Operand1.Operand1, hasIndex)
+	case parser.ZserioParserLENGTHOF:
+		return v.validateOwner(expr.Operand1.Operand1, hasIndex)
+	case parser.ZserioParserLBRACKET:
+		if err := v.validateOwner(expr.Operand1.Operand1, hasIndex); err != nil {
+			return err
+		}
+		return v.validateExpression(expr.Operand2, hasIndex)
+	}
+
+	for _, operand := range []*ast.Expression{expr.Operand1, expr.Operand2, expr.Operand3} {
+		if err := v.validateExpression(operand, hasIndex); err != nil {
+			return err
+		}
+	}
+	return v.validateOperator(expr)
+}
+
+// validateOwner checks the expression in front of the dot of an expression.
+func (v *validator) validateOwner(expr *ast.Expression, hasIndex bool) error {
+	if expr == nil {
+		return nil
+	}
+	if (expr.Type == parser.ZserioParserID || expr.Type == parser.ZserioParserDOT) && expr.ResultSymbol != nil {
+		switch expr.ResultSymbol.Symbol.(type) {
+		case *ast.Enum, *ast.BitmaskType, *ast.Subtype:
+			// the type of an item
+			return nil
+		}
+	}
+	return v.validateExpression(expr, hasIndex)
+}
+
+// validateOperator checks the types of the operands of an operator.
+func (v *validator) validateOperator(expr *ast.Expression) error {
+	for _, operand := range []*ast.Expression{expr.Operand1, expr.Operand2, expr.Operand3} {
+		if operand == nil || expr.Type == parser.ZserioParserLPAREN || expr.Type == parser.ZserioParserQUESTIONMARK {
+			continue
+		}
+		switch operandKind := expressionKind(operand); operandKind {
+		case kindCompound, kindExtern, kindBytes:
+			return fmt.Errorf("operator %s cannot be used with values of type %s", expr.Text, operandKind)
+		}
+	}
+	switch expr.Type {
+	case parser.ZserioParserQUESTIONMARK:
+		kind1, kind2 := expressionKind(expr.Operand2), expressionKind(expr.Operand3)
+		isNumber := map[kind]bool{kindInteger: true, kindFloat: true}
+		isInteger := map[kind]bool{kindInteger: true, kindEnum: true, kindBitmask: true}
+		if kind1 != kind2 && !(isNumber[kind1] && isNumber[kind2]) && !(isInteger[kind1] && isInteger[kind2]) {
+			return errors.New("the values of a ternary expression must have the same type")
+		}
+	case parser.ZserioParserEQ, parser.ZserioParserNE, parser.ZserioParserLT, parser.ZserioParserLE,
+		parser.ZserioParserGT, parser.ZserioParserGE, parser.ZserioParserISSET:
+		symbol1, symbol2 := v.expressionSymbol(expr.Operand1), v.expressionSymbol(expr.Operand2)
+		if symbol1 != nil && symbol2 != nil && symbol1 != symbol2 {
+			return fmt.Errorf("operator %s cannot be used with values of different types", expr.Text)
+		}
+	}
+	return nil
+}
diff --git a/internal/model/validate_value.go b/internal/model/validate_value.go
new file mode 100644
index 0000000..b14f323
--- /dev/null
+++ b/internal/model/validate_value.go
@@ -0,0 +1,249 @@
+package model
+
+import (
+	"errors"
+	"fmt"
+	"math"
+	"math/big"
+	"strconv"
+	"strings"
+
+	"github.com/woven-planet/go-zserio/internal/ast"
+	"github.com/woven-planet/go-zserio/internal/parser"
+)
+
+func (v *validator) validateConst(c *ast.Const) error {
+	t, err := v.valueType(c.Type)
+	if err != nil {
+		return err
+	}
+	return v.validateConstValue(c.ValueExpression, t)
+}
+
+// validateConstValue checks an expression whose value has to be known.
+func (v *validator) validateConstValue(expr *ast.Expression, t *valueType) error {
+	switch t.kind {
+	case kindCompound, kindExtern, kindBytes:
+		return fmt.Errorf("values of type %s cannot be specified", t.name())
+	}
+	if err := v.validateExpression(expr, false); err != nil {
+		return err
+	}
+	if !expr.FullyResolved {
+		return errors.New("the value is not constant")
+	}
+	return v.validateValue(expr, t)
+}
+
+func (v *validator) validateEnum(e *ast.Enum) error {
+	t, err := v.valueType(e.Type)
+	if err != nil {
+		return err
+	}
+	if t.kind != kindInteger {
+		return errors.New("the type must be an integer type")
+	}
+	items := map[int64]string{}
+	for _, item := range e.Items {
+		if err := v.validateConstValue(item.Expression, t); err != nil {
+			return fmt.Errorf("item %s: %w", item.Name, err)
+		}
+		if other, found := items[item.ResultIntValue]; found {
+			return fmt.Errorf("items %s and %s have the same value", other, item.Name)
+		}
+		items[item.ResultIntValue] = item.Name
+	}
+	return nil
+}
+
+func (v *validator) validateBitmask(b *ast.BitmaskType) error {
+	t, err := v.valueType(b.Type)
+	if err != nil {
+		return err
+	}
+	if t.kind != kindInteger {
+		return errors.New("the type must be an integer type")
+	}
+	for _, value := range b.Values {
+		if err := v.validateExpression(value.Expression, false); err != nil {
+			return fmt.Errorf("value %s: %w", value.Name, err)
+		}
+		if expressionKind(value.Expression) != kindInteger {
+			return fmt.Errorf("value %s: an integer is expected", value.Name)
+		}
+		exact := v.exactValue(value.Expression, t.builtin)
+		if exact.Sign() < 0 || !inRange(exact, t.builtin) {
+			return fmt.Errorf("value %s does not fit into %s", value.Name, t.name())
+		}
+	}
+	return nil
+}
+
+// validateArgument checks an expression that is used as a value of a type.
+func (v *validator) validateArgument(expr *ast.Expression, t *valueType, hasIndex bool) error {
+	if err := v.validateExpression(expr, hasIndex); err != nil {
+		return err
+	}
+	return v.validateValue(expr, t)
+}
+
+// validateResult checks the result of a function. It is converted to the type
+// of the function.
+func (v *validator) validateResult(expr *ast.Expression, t *valueType) error {
+	if err := v.validateExpression(expr, false); err != nil {
+		return err
+	}
+	return v.validateType(expr, t)
+}
+
+func (v *validator) validateCases(choice *ast.Choice) error {
+	selector := choice.SelectorExpression
+	if err := v.validateExpression(selector, false); err != nil {
+		return fmt.Errorf("selector: %w", err)
+	}
+	t := &valueType{kind: expressionKind(selector), builtin: selector.NativeZserioType, symbol: v.expressionSymbol(selector)}
+	switch t.kind {
+	case kindInteger, kindBool, kindEnum, kindBitmask:
+	default:
+		return fmt.Errorf("the selector has the type %s", t.kind)
+	}
+	labels := map[string]bool{}
+	for _, choiceCase := range choice.Cases {
+		for _, condition := range choiceCase.Conditions {
+			label := condition.Condition
+			if err := v.validateConstValue(label, t); err != nil {
+				return fmt.Errorf("case label: %w", err)
+			}
+			value := strconv.FormatInt(label.ResultIntValue, 10)
+			if t.kind == kindBool {
+				value = strconv.FormatBool(label.ResultBoolValue)
+			}
+			if labels[value] {
+				return fmt.Errorf("there are several cases for %s", value)
+			}
+			labels[value] = true
+		}
+	}
+	return nil
+}
+
+// validateType checks that the result of an expression has a type.
+func (v *validator) validateType(expr *ast.Expression, t *valueType) error {
+	actual := expressionKind(expr)
+	symbol := v.expressionSymbol(expr)
+	matches := actual == t.kind
+	switch t.kind {
+	case kindFloat:
+		matches = matches || actual == kindInteger
+	case kindEnum:
+		// the items of enums are integers
+		matches = matches || actual == kindInteger
+	case kindBitmask:
+		matches = matches || (actual == kindInteger && symbol == nil)
+	}
+	if t.symbol != nil && symbol != nil && symbol != t.symbol {
+		matches = false
+	}
+	if !matches {
+		return fmt.Errorf("a value of type %s is expected, but not of type %s", t.kind, actual)
+	}
+	return nil
+}
+
+// validateValue checks that the result of an expression is a value of a type.
+func (v *validator) validateValue(expr *ast.Expression, t *valueType) error {
+	if err := v.validateType(expr, t); err != nil {
+		return err
+	}
+	if t.kind == kindInteger && t.builtin != nil && expr.FullyResolved && !inRange(v.exactValue(expr, t.builtin), t.builtin) {
+		return fmt.Errorf("the value does not fit into %s", t.name())
+	}
+	return nil
+}
+
+// exactValue returns the value of an integer expression that is used as a value
+// of an integer type. Results of expressions that do not fit into an int64 are
+// stored as their lowest 64 bits.
+func (v *validator) exactValue(expr *ast.Expression, t *ast.TypeReference) *big.Int {
+	switch expr.Type {
+	case parser.ZserioParserLPAREN:
+		return v.exactValue(expr.Operand1, t)
+	case parser.ZserioParserTILDE:
+		return new(big.Int).Not(v.exactValue(expr.Operand1, t))
+	case parser.ZserioParserPLUS:
+		if expr.Operand2 == nil {
+			return v.exactValue(expr.Operand1, t)
+		}
+		return new(big.Int).Add(v.exactValue(expr.Operand1, t), v.exactValue(expr.Operand2, t))
+	case parser.ZserioParserMINUS:
+		if expr.Operand2 == nil {
+			return new(big.Int).Neg(v.exactValue(expr.Operand1, t))
+		}
+		return new(big.Int).Sub(v.exactValue(expr.Operand1, t), v.exactValue(expr.Operand2, t))
+	case parser.ZserioParserMULTIPLY:
+		return new(big.Int).Mul(v.exactValue(expr.Operand1, t), v.exactValue(expr.Operand2, t))
+	case parser.ZserioParserLSHIFT:
+		if count := expr.Operand2.ResultIntValue; count >= 0 && count < 64 {
+			return new(big.Int).Lsh(v.exactValue(expr.Operand1, t), uint(count))
+		}
+	case parser.ZserioParserAND:
+		return new(big.Int).And(v.exactValue(expr.Operand1, t), v.exactValue(expr.Operand2, t))
+	case parser.ZserioParserOR:
+		return new(big.Int).Or(v.exactValue(expr.Operand1, t), v.exactValue(expr.Operand2, t))
+	case parser.ZserioParserXOR:
+		return new(big.Int).Xor(v.exactValue(expr.Operand1, t), v.exactValue(expr.Operand2, t))
+	case parser.ZserioParserID:
+		scope := v.pkg
+		if expr.Package != "" {
+			scope = v.m.Packages[expr.Package]
+		}
+		if symbol, err := scope.GetSymbol(expr.Text); err == nil {
+			if c, ok := symbol.Symbol.(*ast.Const); ok {
+				owner := &validator{m: v.m, pkg: v.m.Packages[symbol.Package]}
+				return owner.exactValue(c.ValueExpression, c.Type)
+			}
+		}
+		fallthrough
+	case parser.ZserioParserDOT, 0:
+		if inRange(maxUint64, t) {
+			return new(big.Int).SetUint64(uint64(expr.ResultIntValue))
+		}
+	}
+	return big.NewInt(expr.ResultIntValue)
+}
+
+var maxUint64 = new(big.Int).SetUint64(math.MaxUint64)
+
+var varIntegerBits = map[string]uint{
+	"varint16": 14, "varint32": 28, "varint64": 56, "varint": 63,
+	"varuint16": 15, "varuint32": 29, "varuint64": 57, "varuint": 64, "varsize": 31,
+}
+
+// inRange returns if an integer type has a value.
+func inRange(value *big.Int, t *ast.TypeReference) bool {
+	one := big.NewInt(1)
+	if bits, found := varIntegerBits[t.Name]; found {
+		if strings.HasPrefix(t.Name, "varint") {
+			if bits == 63 {
+				return value.IsInt64()
+			}
+			return new(big.Int).Abs(value).Cmp(new(big.Int).Lsh(one, bits)) < 0
+		}
+		return value.Sign() >= 0 && value.Cmp(new(big.Int).Lsh(one, bits)) < 0
+	}
+	width := t.Bits
+	if t.LengthExpression != nil {
+		width = 64
+		if t.LengthExpression.FullyResolved {
+			width = int(t.LengthExpression.ResultIntValue)
+		}
+	}
+	if digits := strings.TrimLeft(t.Name, "uint"); digits != "" && t.Name != "bit" {
+		width, _ = strconv.Atoi(digits)
+	}
+	if strings.HasPrefix(t.Name, "int") {
+		limit := new(big.Int).Lsh(one, uint(width-1))
+		return value.Cmp(limit) < 0 && value.Cmp(new(big.Int).Neg(limit)) >= 0
+	}
+	return value.Sign() >= 0 && value.Cmp(new(big.Int).Lsh(one, uint(width))) < 0
+}
-- 
2.43.0


From 5f7dc03254a0ecd7d4ceb192e050c8356303de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 74/86] fix: expressions whose operands have no usable value
 are rejected

---
 internal/model/BUILD.bazel |  1 +
 internal/model/validate.go | 41 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/internal/model/BUILD.bazel b/internal/model/BUILD.bazel
index d30b221..77f8b07 100644
--- a/internal/model/BUILD.bazel
+++ b/internal/model/BUILD.bazel
@@ -7,6 +7,7 @@ go_library(
         "package.go",
         "transform.go",
         "validate.go",
+        "validate_expression.go",
         "validate_names.go",
     ],
     importpath = "github.com/woven-planet/go-zserio/internal/model",
diff --git a/internal/model/validate.go b/internal/model/validate.go
index 74786b2..ab13187 100644
--- a/internal/model/validate.go
+++ b/internal/model/validate.go
@@ -1,6 +1,7 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -146,6 +147,12 @@ func (v *validator) validateWidth(tr *ast.TypeReference) error {
 	}
 	width := int64(tr.Bits)
 	if tr.LengthExpression != nil {
+		if err := v.validateExpression(tr.LengthExpression, false); err != nil {
+			return err
+		}
+		if expressionKind(tr.LengthExpression) != kindInteger {
+			return errors.New("the number of bits must be an integer")
+		}
 		if !tr.LengthExpression.FullyResolved {
 			return nil
 		}
@@ -202,7 +209,11 @@ func (v *validator) validateCompound(
 		}
 	}
 	for _, function := range functions {
-		if _, err := v.valueType(function.ReturnType); err != nil {
+		_, err := v.valueType(function.ReturnType)
+		if err == nil {
+			err = v.validateExpression(function.Result, false)
+		}
+		if err != nil {
 			return fmt.Errorf("function %s: %w", function.Name, err)
 		}
 	}
@@ -220,6 +231,29 @@ func (v *validator) validateField(field *ast.Field) error {
 	if err := v.validateArguments(field, t); err != nil {
 		return err
 	}
+	for _, condition := range []*ast.Expression{field.OptionalClause, field.Constraint} {
+		if condition == nil {
+			continue
+		}
+		if err := v.validateExpression(condition, false); err != nil {
+			return err
+		}
+		if expressionKind(condition) != kindBool {
+			return errors.New("a condition must be a boolean expression")
+		}
+	}
+	if field.Array != nil && field.Array.Length != nil {
+		length := field.Array.Length
+		if err := v.validateExpression(length, false); err != nil {
+			return err
+		}
+		if expressionKind(length) != kindInteger {
+			return errors.New("the length of an array must be an integer")
+		}
+		if length.FullyResolved && length.ResultIntValue < 0 {
+			return errors.New("the length of an array cannot be negative")
+		}
+	}
 	return nil
 }
 
@@ -237,6 +271,11 @@ func (v *validator) validateArguments(field *ast.Field, t *valueType) error {
 	if len(parameters) != len(field.Type.TypeArguments) {
 		return fmt.Errorf("%s has %d parameters, but %d arguments are given", t.name(), len(parameters), len(field.Type.TypeArguments))
 	}
+	for ix, parameter := range parameters {
+		if err := v.validateExpression(field.Type.TypeArguments[ix], field.Array != nil); err != nil {
+			return fmt.Errorf("parameter %s: %w", parameter.Name, err)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From f107aab0cdcf6e4e1c69d92d3f8445994758d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 75/86] fix: values that do not belong to their type are
 rejected

---
 internal/ast/bitmask.go          |  3 ---
 internal/model/BUILD.bazel       |  1 +
 internal/model/validate.go       | 38 +++++++++++++++++++++++++++++---
 internal/model/validate_value.go |  7 ++++--
 4 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 6e208eb..8f80715 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -57,9 +57,6 @@ func (bitmask *BitmaskType) evaluateValue(p *Package, ix int) error {
 			if err := value.Evaluate(valueScope.EvaluationScope()); err != nil {
 				return err
 			}
-			if value.ResultType == ExpressionTypeInteger && value.ResultIntValue < 0 {
-				return fmt.Errorf("bitmask value %s.%s is negative", bitmask.Name, value.Name)
-			}
 			continue
 		}
 		bit := int64(1) // bitmasks start with 1
diff --git a/internal/model/BUILD.bazel b/internal/model/BUILD.bazel
index 77f8b07..6b86be9 100644
--- a/internal/model/BUILD.bazel
+++ b/internal/model/BUILD.bazel
@@ -9,6 +9,7 @@ go_library(
         "validate.go",
         "validate_expression.go",
         "validate_names.go",
+        "validate_value.go",
     ],
     importpath = "github.com/woven-planet/go-zserio/internal/model",
     visibility = ["//:__subpackages__"],
diff --git a/internal/model/validate.go b/internal/model/validate.go
index ab13187..ec90e19 100644
--- a/internal/model/validate.go
+++ b/internal/model/validate.go
@@ -99,6 +99,21 @@ func (v *validator) validate() error {
 			return fmt.Errorf("subtype %s: %w", name, err)
 		}
 	}
+	for _, name := range sortedKeys(v.pkg.Consts) {
+		if err := v.validateConst(v.pkg.Consts[name]); err != nil {
+			return fmt.Errorf("const %s: %w", name, err)
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Enums) {
+		if err := v.validateEnum(v.pkg.Enums[name]); err != nil {
+			return fmt.Errorf("enum %s: %w", name, err)
+		}
+	}
+	for _, name := range sortedKeys(v.pkg.Bitmasks) {
+		if err := v.validateBitmask(v.pkg.Bitmasks[name]); err != nil {
+			return fmt.Errorf("bitmask %s: %w", name, err)
+		}
+	}
 	for _, name := range sortedKeys(v.pkg.Structs) {
 		s := v.pkg.Structs[name]
 		if err := v.validateCompound(s, s.TemplateParameters, s.TypeParameters, s.Fields, s.Functions); err != nil {
@@ -116,6 +131,11 @@ func (v *validator) validate() error {
 		if err := v.validateCompound(choice, choice.TemplateParameters, choice.TypeParameters, choiceFields(choice), choice.Functions); err != nil {
 			return fmt.Errorf("choice %s: %w", name, err)
 		}
+		if len(choice.TemplateParameters) == 0 {
+			if err := v.validateCases(choice); err != nil {
+				return fmt.Errorf("choice %s: %w", name, err)
+			}
+		}
 	}
 	return v.validateGoNames()
 }
@@ -209,9 +229,9 @@ func (v *validator) validateCompound(
 		}
 	}
 	for _, function := range functions {
-		_, err := v.valueType(function.ReturnType)
+		t, err := v.valueType(function.ReturnType)
 		if err == nil {
-			err = v.validateExpression(function.Result, false)
+			err = v.validateResult(function.Result, t)
 		}
 		if err != nil {
 			return fmt.Errorf("function %s: %w", function.Name, err)
@@ -242,6 +262,14 @@ func (v *validator) validateField(field *ast.Field) error {
 			return errors.New("a condition must be a boolean expression")
 		}
 	}
+	if field.Initializer != nil {
+		if field.Array != nil {
+			return errors.New("arrays cannot have an initial value")
+		}
+		if err := v.validateConstValue(field.Initializer, t); err != nil {
+			return err
+		}
+	}
 	if field.Array != nil && field.Array.Length != nil {
 		length := field.Array.Length
 		if err := v.validateExpression(length, false); err != nil {
@@ -272,7 +300,11 @@ func (v *validator) validateArguments(field *ast.Field, t *valueType) error {
 		return fmt.Errorf("%s has %d parameters, but %d arguments are given", t.name(), len(parameters), len(field.Type.TypeArguments))
 	}
 	for ix, parameter := range parameters {
-		if err := v.validateExpression(field.Type.TypeArguments[ix], field.Array != nil); err != nil {
+		parameterType, err := v.valueType(parameter.Type)
+		if err != nil {
+			return err
+		}
+		if err := v.validateArgument(field.Type.TypeArguments[ix], parameterType, field.Array != nil); err != nil {
 			return fmt.Errorf("parameter %s: %w", parameter.Name, err)
 		}
 	}
diff --git a/internal/model/validate_value.go b/internal/model/validate_value.go
index b14f323..248e1df 100644
--- a/internal/model/validate_value.go
+++ b/internal/model/validate_value.go
@@ -40,7 +40,7 @@ func (v *validator) validateEnum(e *ast.Enum) error {
 	if err != nil {
 		return err
 	}
-	if t.kind != kindInteger {
+	if t.kind != kindInteger || isUnsized(t.builtin) {
 		return errors.New("the type must be an integer type")
 	}
 	items := map[int64]string{}
@@ -61,7 +61,7 @@ func (v *validator) validateBitmask(b *ast.BitmaskType) error {
 	if err != nil {
 		return err
 	}
-	if t.kind != kindInteger {
+	if t.kind != kindInteger || isUnsized(t.builtin) {
 		return errors.New("the type must be an integer type")
 	}
 	for _, value := range b.Values {
@@ -238,6 +238,9 @@ func inRange(value *big.Int, t *ast.TypeReference) bool {
 			width = int(t.LengthExpression.ResultIntValue)
 		}
 	}
+	if isUnsized(t) {
+		width = 64
+	}
 	if digits := strings.TrimLeft(t.Name, "uint"); digits != "" && t.Name != "bit" {
 		width, _ = strconv.Atoi(digits)
 	}
-- 
2.43.0


From 5014d3d26c35653915b17f951118c9fe99d34d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 76/86] fix: constants, enums and bitmasks can have computed
 widths

---
 internal/ast/bitmask.go        |  3 +++
 internal/ast/const.go          |  3 +++
 internal/ast/enum.go           |  3 +++
 internal/ast/type_reference.go | 19 +++++++++++++++++++
 4 files changed, 28 insertions(+)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 8f80715..c0d6482 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -32,6 +32,9 @@ func findNextFreeBit(lastValue int64) (int64, error) {
 }
 
 func (bitmask *BitmaskType) Evaluate(p *Package) error {
+	if err := bitmask.Type.evaluateConstant(p); err != nil {
+		return err
+	}
 	for ix := range bitmask.Values {
 		if err := bitmask.evaluateValue(p, ix); err != nil {
 			return err
diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8cd7e24..3befe4f 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -10,5 +10,8 @@ type Const struct {
 
 // Evaluate evalutes the value expression of a const type
 func (c *Const) Evaluate(scope *Package) error {
+	if err := c.Type.evaluateConstant(scope); err != nil {
+		return err
+	}
 	return c.ValueExpression.Evaluate(scope)
 }
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index 266af77..da9f5ac 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -29,6 +29,9 @@ func (e *Enum) AddItem(i *EnumItem) *EnumItem {
 }
 
 func (e *Enum) Evaluate(scope *Package) error {
+	if err := e.Type.evaluateConstant(scope); err != nil {
+		return err
+	}
 	for ix := range e.Items {
 		if err := e.evaluateItem(scope, ix); err != nil {
 			return err
diff --git a/internal/ast/type_reference.go b/internal/ast/type_reference.go
index ebc243b..e56b08c 100644
--- a/internal/ast/type_reference.go
+++ b/internal/ast/type_reference.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type TypeReference struct {
 	// IsBuiltin is set to true for standard zserio types
 	IsBuiltin         bool
@@ -31,3 +33,20 @@ func (tr *TypeReference) Evaluate(p *Package) error {
 	}
 	return nil
 }
+
+// evaluateConstant evaluates a type whose number of bits has to be known.
+func (tr *TypeReference) evaluateConstant(p *Package) error {
+	if err := tr.Evaluate(p); err != nil || tr.LengthExpression == nil {
+		return err
+	}
+	width := tr.LengthExpression
+	if width.ResultType != ExpressionTypeInteger || !width.FullyResolved {
+		return fmt.Errorf("the number of bits of %s must be a constant", tr.Name)
+	}
+	if width.ResultIntValue < 1 || width.ResultIntValue > 64 {
+		return fmt.Errorf("%s cannot have %d bits", tr.Name, width.ResultIntValue)
+	}
+	tr.Bits = int(width.ResultIntValue)
+	tr.LengthExpression = nil
+	return nil
+}
-- 
2.43.0


From 63c8334f8b0888311cde3b8f5fe3f30973e4bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 77/86] fix: bit fields of more than 64 bits are refused

---
 internal/generator/templates/decode.go.tmpl   |  2 +-
 internal/generator/templates/encode.go.tmpl   |  2 +-
 .../instantiate_array_traits.go.tmpl          |  2 +-
 .../templates/packing_context_decode.go.tmpl  |  2 +-
 .../templates/packing_context_encode.go.tmpl  |  2 +-
 ztype/array_traits.go                         |  4 ++--
 ztype/bits_decode.go                          |  5 ++++-
 ztype/bits_encode.go                          | 21 ++++++++++++++++++-
 8 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 22d98ad..977e46d 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 08c6473..dd8ee62 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/instantiate_array_traits.go.tmpl b/internal/generator/templates/instantiate_array_traits.go.tmpl
index a76fcdf..24b4562 100644
--- a/internal/generator/templates/instantiate_array_traits.go.tmpl
+++ b/internal/generator/templates/instantiate_array_traits.go.tmpl
@@ -5,7 +5,7 @@
     {{- if gt $type.Bits 0 -}}
         ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- $type.Bits }}))
     {{- else if $type.LengthExpression -}}
-        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- goExpression $scope $type.LengthExpression }}))
+        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](ztype.BitWidth({{- goExpression $scope $type.LengthExpression }}))
     {{- else if eq $type.Name "uint8" }}ztype.ArrayTraits.UInt8
     {{- else if eq $type.Name "uint16" }}ztype.ArrayTraits.UInt16
     {{- else if eq $type.Name "uint32" }}ztype.ArrayTraits.UInt32
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 56115ef..1063870 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -4,7 +4,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 33655d7..a8b623a 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -4,7 +4,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 058430a..1679965 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -690,7 +690,7 @@ func (trait BitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, value T)
 }
 
 func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(value), err
 }
 
@@ -751,7 +751,7 @@ func (trait SignedBitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, val
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(fillUpperBits(value, trait.NumBits)), err
 }
 
diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index c81eae2..fb23895 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -4,13 +4,16 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // ReadUnsignedBits reads an unsigned number with a given number of bits
 func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
+	if bits > 64 {
+		return 0, ErrInvalidBitWidth
+	}
 	return r.ReadBits(bits)
 }
 
 // ReadSignedBits reads an signed number with a given number of bits
 func ReadSignedBits(r zserio.Reader, bits uint8) (int64, error) {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return 0, ErrInvalidBitWidth
 	}
 
 	u, err := r.ReadBits(bits)
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index ad616a9..953224a 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -2,16 +2,35 @@ package ztype
 
 import (
 	"errors"
+	"math"
 
 	zserio "github.com/woven-planet/go-zserio"
+	"golang.org/x/exp/constraints"
 )
 
 // ErrValueOutOfBitRange is returned when you try to write a bit field type
 // with a value that is larger than the number of bits allows for.
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
+// ErrInvalidBitWidth is returned when the computed number of bits of a bit
+// field is not supported.
+var ErrInvalidBitWidth = errors.New("bit fields cannot have more than 64 bits")
+
+// BitWidth returns the number of bits of a bit field whose width is computed. A
+// width that is not supported is replaced by one that can be neither read nor
+// written.
+func BitWidth[T constraints.Integer](bits T) uint8 {
+	if bits < 0 || uint64(bits) > 64 {
+		return math.MaxUint8
+	}
+	return uint8(bits)
+}
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
+	if bits > 64 {
+		return ErrInvalidBitWidth
+	}
 	if value > ((1 << bits) - 1) {
 		return ErrValueOutOfBitRange
 	}
@@ -21,7 +40,7 @@ func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 // WriteSignedBits writes an signed number with a given number of bits
 func WriteSignedBits(w zserio.Writer, value int64, bits uint8) error {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return ErrInvalidBitWidth
 	}
 
 	var min int64 = -(1 << (bits - 1))
-- 
2.43.0


From 065dce455a47ff60f6c108073921383a9716d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 78/86] fix: constants, enums and bitmasks: check the type's
 arguments and computed width

---
 internal/ast/type_reference.go   |  5 ++++-
 internal/model/validate_value.go | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/ast/type_reference.go b/internal/ast/type_reference.go
index e56b08c..884b767 100644
--- a/internal/ast/type_reference.go
+++ b/internal/ast/type_reference.go
@@ -18,6 +18,9 @@ type TypeReference struct {
 	// mask, for example int<Expression>. If the expression evaluates to 18, the
 	// resulting type will be int<18>
 	LengthExpression *Expression
+
+	// ConstantLength is the expression that Bits were computed from, if any.
+	ConstantLength *Expression
 }
 
 func (tr *TypeReference) Evaluate(p *Package) error {
@@ -47,6 +50,6 @@ func (tr *TypeReference) evaluateConstant(p *Package) error {
 		return fmt.Errorf("%s cannot have %d bits", tr.Name, width.ResultIntValue)
 	}
 	tr.Bits = int(width.ResultIntValue)
-	tr.LengthExpression = nil
+	tr.LengthExpression, tr.ConstantLength = nil, width
 	return nil
 }
diff --git a/internal/model/validate_value.go b/internal/model/validate_value.go
index 248e1df..7f83ad3 100644
--- a/internal/model/validate_value.go
+++ b/internal/model/validate_value.go
@@ -12,8 +12,19 @@ import (
 	"github.com/woven-planet/go-zserio/internal/parser"
 )
 
+// simpleType returns the type of a const, an enum or a bitmask.
+func (v *validator) simpleType(tr *ast.TypeReference) (*valueType, error) {
+	if len(tr.TemplateArguments) > 0 || len(tr.TypeArguments) > 0 {
+		return nil, fmt.Errorf("type %s cannot have arguments", tr.Name)
+	}
+	if err := v.validateExpression(tr.ConstantLength, false); err != nil {
+		return nil, err
+	}
+	return v.valueType(tr)
+}
+
 func (v *validator) validateConst(c *ast.Const) error {
-	t, err := v.valueType(c.Type)
+	t, err := v.simpleType(c.Type)
 	if err != nil {
 		return err
 	}
@@ -36,7 +47,7 @@ func (v *validator) validateConstValue(expr *ast.Expression, t *valueType) error
 }
 
 func (v *validator) validateEnum(e *ast.Enum) error {
-	t, err := v.valueType(e.Type)
+	t, err := v.simpleType(e.Type)
 	if err != nil {
 		return err
 	}
@@ -57,7 +68,7 @@ func (v *validator) validateEnum(e *ast.Enum) error {
 }
 
 func (v *validator) validateBitmask(b *ast.BitmaskType) error {
-	t, err := v.valueType(b.Type)
+	t, err := v.simpleType(b.Type)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2abeb52a9e5ebf24ca44fec7855aeab08e74e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 79/86] fix: constants of float types given by integers are
 floats

---
 internal/ast/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 3ae96a6..e5b07cc 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -224,6 +224,18 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 			return err
 		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
+		if expr.ResultType == ExpressionTypeInteger {
+			// a constant of a float type may be given by an integer
+			constType, nativeType, err := evaluateExpressionType(constSymbol.Type, constScope)
+			if err != nil {
+				return err
+			}
+			if constType == ExpressionTypeFloat {
+				expr.ResultType = ExpressionTypeFloat
+				expr.ResultFloatValue = float64(expr.ResultIntValue)
+				expr.NativeZserioType = nativeType
+			}
+		}
 		return nil
 	}
 
-- 
2.43.0


From c4553cc925f736ecceaed32307941227e40eb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:58 +0000
Subject: [PATCH 80/86] fix: expressions can use optional fields

---
 internal/generator/expression.go | 19 +++++++++++++++++--
 ztype/BUILD.bazel                |  1 +
 ztype/optional.go                | 11 +++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)
 create mode 100644 ztype/optional.go

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 021d220..59208c2 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -24,7 +24,7 @@ func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 
 	switch n := expression.ResultSymbol.Symbol.(type) {
 	case *ast.Field:
-		return "v." + n.Name
+		return fieldToGoString(n, "v."+n.Name)
 	case *ast.Parameter:
 		return "v." + n.Name
 	case *ast.Enum:
@@ -40,6 +40,15 @@ func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 	}
 }
 
+// fieldToGoString prints an access to a field. Optional fields are stored as
+// pointers.
+func fieldToGoString(field *ast.Field, text string) string {
+	if field.IsOptional {
+		return fmt.Sprintf("(*ztype.ZeroIfNil(%s))", text)
+	}
+	return text
+}
+
 // bracketedExpressionToGoString prints an array access expression,
 // such as array[index].
 func bracketedExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -98,7 +107,13 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		}
 		return enumValue
 	}
-	return fmt.Sprintf("%s.%s", leftText, rightText)
+	text := fmt.Sprintf("%s.%s", leftText, rightText)
+	if expression.ResultSymbol != nil {
+		if field, ok := expression.ResultSymbol.Symbol.(*ast.Field); ok {
+			return fieldToGoString(field, text)
+		}
+	}
+	return text
 }
 
 func numBitsOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
diff --git a/ztype/BUILD.bazel b/ztype/BUILD.bazel
index 935527f..404ffd2 100644
--- a/ztype/BUILD.bazel
+++ b/ztype/BUILD.bazel
@@ -27,6 +27,7 @@ go_library(
         "object_array_decode.go",
         "object_array_encode.go",
         "object_array_traits.go",
+        "optional.go",
         "packed_array_traits.go",
         "packing_context_node.go",
         "string_decode.go",
diff --git a/ztype/optional.go b/ztype/optional.go
new file mode 100644
index 0000000..76990f6
--- /dev/null
+++ b/ztype/optional.go
@@ -0,0 +1,11 @@
+package ztype
+
+// ZeroIfNil returns its argument, or a pointer to a zero value if it is nil.
+// Expressions use it to access optional fields: a field that is not present
+// has the zero value, just like any other field that is not present.
+func ZeroIfNil[T any](value *T) *T {
+	if value == nil {
+		return new(T)
+	}
+	return value
+}
-- 
2.43.0


From db99711d21f2b25fea251db73a9e74bce863c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 81/86] fix: constant negative array indexes are refused

---
 internal/ast/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index e5b07cc..a5fd817 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -398,6 +398,9 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.Operand2.ResultType != ExpressionTypeInteger {
 		return errors.New("array index expression must be an integer")
 	}
+	if expr.Operand2.FullyResolved && expr.Operand2.ResultIntValue < 0 {
+		return errors.New("array index must not be negative")
+	}
 	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
 		return err
 	}
-- 
2.43.0


From 91fcf0cebb17374e53b5d49b2404fe4213b5079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 82/86] fix: recursive types: conditional fields and parameters
 are stored

---
 internal/model/validate.go | 39 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/internal/model/validate.go b/internal/model/validate.go
index ec90e19..b907814 100644
--- a/internal/model/validate.go
+++ b/internal/model/validate.go
@@ -219,12 +219,15 @@ func (v *validator) validateCompound(
 		if _, err := v.valueType(parameter.Type); err != nil {
 			return fmt.Errorf("parameter %s: %w", parameter.Name, err)
 		}
+		if v.contains(parameter.Type, compound, map[any]bool{}) {
+			return fmt.Errorf("parameter %s: the type contains itself", parameter.Name)
+		}
 	}
 	for _, field := range fields {
 		if err := v.validateField(field); err != nil {
 			return fmt.Errorf("field %s: %w", field.Name, err)
 		}
-		if v.contains(field, compound, map[any]bool{}) {
+		if isStored(field) && v.contains(field.Type, compound, map[any]bool{}) {
 			return fmt.Errorf("field %s: the type contains itself", field.Name)
 		}
 	}
@@ -311,13 +314,17 @@ func (v *validator) validateArguments(field *ast.Field, t *valueType) error {
 	return nil
 }
 
-// contains returns if every value of a field contains a value of a compound
-// type.
-func (v *validator) contains(field *ast.Field, compound any, visited map[any]bool) bool {
-	if field.IsOptional || field.OptionalClause != nil || field.Array != nil {
-		return false
-	}
-	t, err := v.valueType(field.Type)
+// isStored returns if the value of a field is part of the Go struct. Optional
+// fields are stored as pointers, and arrays as slices.
+func isStored(field *ast.Field) bool {
+	return !field.IsOptional && field.Array == nil
+}
+
+// contains returns if a compound type is stored in the Go type of a reference:
+// parameters and fields are both part of the Go struct, even those fields that
+// have a condition.
+func (v *validator) contains(reference *ast.TypeReference, compound any, visited map[any]bool) bool {
+	t, err := v.valueType(reference)
 	if err != nil || t.kind != kindCompound || visited[t.symbol] {
 		return false
 	}
@@ -325,17 +332,23 @@ func (v *validator) contains(field *ast.Field, compound any, visited map[any]boo
 		return true
 	}
 	visited[t.symbol] = true
+	var parameters []*ast.Parameter
 	var fields []*ast.Field
 	switch n := t.symbol.(type) {
 	case *ast.Struct:
-		fields = n.Fields
+		parameters, fields = n.TypeParameters, n.Fields
 	case *ast.Union:
-		fields = n.Fields
+		parameters, fields = n.TypeParameters, n.Fields
 	case *ast.Choice:
-		fields = choiceFields(n)
+		parameters, fields = n.TypeParameters, choiceFields(n)
+	}
+	for _, parameter := range parameters {
+		if v.contains(parameter.Type, compound, visited) {
+			return true
+		}
 	}
-	for _, f := range fields {
-		if v.contains(f, compound, visited) {
+	for _, field := range fields {
+		if isStored(field) && v.contains(field.Type, compound, visited) {
 			return true
 		}
 	}
-- 
2.43.0


From 17c4f52ac4d1a968ff0295874dc43dff304339d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 83/86] fix: the complement of a bitmask stays within its type

---
 internal/ast/bitmask.go          | 27 ++++++++++++++++++++
 internal/ast/expression.go       | 42 +++++++++++++++++++++++++++++++-
 internal/generator/expression.go | 21 +++++++++++++---
 internal/model/validate_value.go |  3 +++
 4 files changed, 88 insertions(+), 5 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index c0d6482..d8acca1 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -22,6 +22,33 @@ func (value *BitmaskValue) UnsignedValue() uint64 {
 	return uint64(value.ResultIntValue)
 }
 
+// underlyingType returns the builtin type that a bitmask is stored with.
+func (bitmask *BitmaskType) underlyingType(p *Package) (*TypeReference, error) {
+	typeRef, scope := bitmask.Type, p
+	for depth := 0; depth <= 100; depth++ {
+		if err := typeRef.evaluateConstant(scope); err != nil {
+			return nil, err
+		}
+		if typeRef.IsBuiltin {
+			return typeRef, nil
+		}
+		var err error
+		if scope, err = scope.GetImportedScope(typeRef.Package); err != nil {
+			return nil, err
+		}
+		symbol, err := scope.GetType(typeRef.Name)
+		if err != nil {
+			return nil, err
+		}
+		subtype, ok := symbol.Symbol.(*Subtype)
+		if !ok {
+			break
+		}
+		typeRef = subtype.Type
+	}
+	return nil, fmt.Errorf("the type of bitmask %s is not an integer type", bitmask.Name)
+}
+
 // findNextFreeBit returns the lowest bit above the highest bit of lastValue.
 func findNextFreeBit(lastValue int64) (int64, error) {
 	highestBitPosition := bits.Len64(uint64(lastValue))
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index a5fd817..34b82cc 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/bits"
 	"strconv"
 	"strings"
@@ -182,7 +183,12 @@ func evaluateSymbolType(symbol *SymbolReference, scope *Package) (ExpressionType
 	case *Function:
 		return n.Result.ResultType, nil, nil
 	case *BitmaskType:
-		return ExpressionTypeBitmask, nil, nil
+		bitmaskScope, err := scope.GetImportedScope(fundamentalSymbol.Package)
+		if err != nil {
+			return "", nil, err
+		}
+		underlyingType, err := n.underlyingType(bitmaskScope)
+		return ExpressionTypeBitmask, underlyingType, err
 	case *TypeReference:
 		return evaluateExpressionType(n, scope)
 	default:
@@ -522,6 +528,9 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
+					if expr.NativeZserioType, err = bitmask.underlyingType(bitmaskScope); err != nil {
+						return err
+					}
 					// the value is always known
 					expr.FullyResolved = true
 					return nil
@@ -825,6 +834,34 @@ func (expr *Expression) evaluateTernaryExpression() error {
 	return nil
 }
 
+// typeWidths are the numbers of bits for the values of the builtin types of a
+// given range. The sign is not part of it.
+var typeWidths = map[string]int{
+	"int8": 7, "int16": 15, "int32": 31, "int64": 63,
+	"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64,
+	"varint16": 14, "varint32": 28, "varint64": 56, "varint": 63,
+	"varuint16": 15, "varuint32": 29, "varuint64": 57, "varuint": 64, "varsize": 31,
+}
+
+// BitmaskUpperBound is the value with all bits of the bitmask type of an
+// expression.
+func (expr *Expression) BitmaskUpperBound() uint64 {
+	width := 64
+	if native := expr.NativeZserioType; native != nil {
+		if typeWidth, found := typeWidths[native.Name]; found {
+			width = typeWidth
+		} else if native.Bits > 0 {
+			width = native.Bits
+			if native.Name == "int" {
+				width--
+			}
+		}
+	}
+	return math.MaxUint64 >> (64 - width)
+}
+
+// evaluateBitwiseNegation evaluates a bitwise negation. The negation of a
+// bitmask only has bits that are part of its type.
 func (expr *Expression) evaluateBitwiseNegation() error {
 	if expr.Operand1 == nil {
 		return errors.New("negation needs exactly one operand")
@@ -836,6 +873,9 @@ func (expr *Expression) evaluateBitwiseNegation() error {
 	expr.ResultType = expr.Operand1.ResultType
 	expr.ResultIntValue = ^expr.Operand1.ResultIntValue
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
+	if expr.ResultType == ExpressionTypeBitmask {
+		expr.ResultIntValue = expr.Operand1.ResultIntValue ^ int64(expr.BitmaskUpperBound())
+	}
 	return nil
 }
 
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 59208c2..8b31d8e 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -309,21 +309,30 @@ func needsUint64(scope ast.Scope, expression *ast.Expression) bool {
 			return false
 		}
 		originalType, err := scope.OriginalType(symbolType)
-		if err != nil || !originalType.Type.IsBuiltin {
+		if err != nil {
+			return false
+		}
+		nativeType := originalType.Type
+		if expression.ResultType == ast.ExpressionTypeBitmask && expression.NativeZserioType != nil {
+			nativeType = expression.NativeZserioType
+		}
+		if !nativeType.IsBuiltin {
 			return false
 		}
-		switch originalType.Type.Name {
+		switch nativeType.Name {
 		case "uint64", "varuint", "varuint64":
 			return true
 		case "bit":
-			return originalType.Type.Bits == 64
+			return nativeType.Bits == 64
 		}
 		return false
 	case parser.ZserioParserQUESTIONMARK:
 		return needsUint64(scope, expression.Operand2) || needsUint64(scope, expression.Operand3)
 	case parser.ZserioParserLSHIFT, parser.ZserioParserRSHIFT:
 		return needsUint64(scope, expression.Operand1)
-	case parser.ZserioParserLPAREN, parser.ZserioParserVALUEOF, parser.ZserioParserTILDE:
+	case parser.ZserioParserTILDE:
+		return expression.ResultType == ast.ExpressionTypeBitmask || needsUint64(scope, expression.Operand1)
+	case parser.ZserioParserLPAREN, parser.ZserioParserVALUEOF:
 		return needsUint64(scope, expression.Operand1)
 	case parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserMULTIPLY, parser.ZserioParserDIVIDE,
 		parser.ZserioParserMODULO, parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR:
@@ -527,6 +536,10 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		}
 		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserTILDE:
+		if expression.Operand1.ResultType == ast.ExpressionTypeBitmask {
+			return fmt.Sprintf("(uint64(%s) ^ %#x)",
+				ExpressionToGoString(scope, expression.Operand1), expression.BitmaskUpperBound())
+		}
 		return unaryOperatorToGoString(scope, expression, "^")
 	case parser.ZserioParserMULTIPLY:
 		return twoOperatorEqualTypesToGoString(scope, expression)
diff --git a/internal/model/validate_value.go b/internal/model/validate_value.go
index 7f83ad3..2773a73 100644
--- a/internal/model/validate_value.go
+++ b/internal/model/validate_value.go
@@ -180,6 +180,9 @@ func (v *validator) exactValue(expr *ast.Expression, t *ast.TypeReference) *big.
 	case parser.ZserioParserLPAREN:
 		return v.exactValue(expr.Operand1, t)
 	case parser.ZserioParserTILDE:
+		if expr.ResultType == ast.ExpressionTypeBitmask {
+			break
+		}
 		return new(big.Int).Not(v.exactValue(expr.Operand1, t))
 	case parser.ZserioParserPLUS:
 		if expr.Operand2 == nil {
-- 
2.43.0


From 57910ba32ac49af4b642b736b0da4c79fb6b1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 84/86] fix: case labels with the highest bit of a 64-bit
 bitmask

---
 internal/generator/funcs.go                 |  5 ++++-
 internal/generator/templates/choice.go.tmpl | 14 +++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index 2f2bfe9..813c197 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -79,11 +79,14 @@ func GoExpression(scope ast.Scope, expression *ast.Expression) string {
 }
 
 // GoCaseLabels returns the values of all labels of a choice case.
-func GoCaseLabels(conditions []*ast.ChoiceCaseExpression) string {
+func GoCaseLabels(selector *ast.Expression, conditions []*ast.ChoiceCaseExpression) string {
 	labels := []string{}
 	for _, condition := range conditions {
 		if condition.Condition.ResultType == ast.ExpressionTypeBool {
 			labels = append(labels, fmt.Sprintf("%t", condition.Condition.ResultBoolValue))
+		} else if selector.ResultType == ast.ExpressionTypeBitmask {
+			// the values of bitmasks are never negative
+			labels = append(labels, fmt.Sprintf("%d", uint64(condition.Condition.ResultIntValue)))
 		} else {
 			labels = append(labels, fmt.Sprintf("%d", condition.Condition.ResultIntValue))
 		}
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 3e88a8c..a4b9323 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -38,7 +38,7 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
   switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
-  case {{ goCaseLabels .Conditions }}:
+  case {{ goCaseLabels $choice.SelectorExpression .Conditions }}:
   {{- if .Field }}
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
@@ -59,7 +59,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
   switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
-  case {{ goCaseLabels .Conditions }}:
+  case {{ goCaseLabels $choice.SelectorExpression .Conditions }}:
   {{- if .Field }}
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
@@ -82,7 +82,7 @@ func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
   switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
-  case {{ goCaseLabels .Conditions }}:
+  case {{ goCaseLabels $choice.SelectorExpression .Conditions }}:
   {{- if .Field }}
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
@@ -114,7 +114,7 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
     switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-        case {{ goCaseLabels .Conditions }}:
+        case {{ goCaseLabels $choice.SelectorExpression .Conditions }}:
       {{- if .Field }}
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
@@ -137,7 +137,7 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-        case {{ goCaseLabels .Conditions }}:
+        case {{ goCaseLabels $choice.SelectorExpression .Conditions }}:
       {{- if .Field }}
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
@@ -161,7 +161,7 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-        case {{ goCaseLabels .Conditions }}:
+        case {{ goCaseLabels $choice.SelectorExpression .Conditions }}:
       {{- if .Field }}
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
@@ -189,7 +189,7 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
   switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
-        case {{ goCaseLabels .Conditions }}:
+        case {{ goCaseLabels $choice.SelectorExpression .Conditions }}:
       {{- if .Field }}
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
-- 
2.43.0


From a38b668639f329f34207b8a5bd2b17576374417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 85/86] fix: the value of a conditional with a float is a float

---
 internal/ast/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 34b82cc..f48bc48 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -831,6 +831,18 @@ func (expr *Expression) evaluateTernaryExpression() error {
 	} else {
 		copyExpressionResult(expr.Operand3, expr)
 	}
+
+	if expr.Operand2.ResultType != ExpressionTypeFloat && expr.Operand3.ResultType != ExpressionTypeFloat {
+		return nil
+	}
+	// One of the values is a float, so the result always is: an integer would
+	// lose the fraction of the other value.
+	if expr.ResultType == ExpressionTypeInteger {
+		expr.ResultFloatValue = float64(expr.ResultIntValue)
+	}
+	expr.ResultType = ExpressionTypeFloat
+	expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float64"}
+	expr.ResultSymbol = nil
 	return nil
 }
 
-- 
2.43.0


From b8ef0f2e1434331db67c33cbdd99450351b6e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 86/86] fix: packages can be called traits

---
 internal/ast/package.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index cf5198d..bef4223 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -460,8 +460,8 @@ var generatedNames = map[string]bool{
 	"context": true, "contextNode": true, "d": true, "delta": true, "elem": true, "element": true,
 	"endBitPosition": true, "err": true, "found": true, "i": true, "index": true, "ix": true,
 	"name": true, "node": true, "ok": true, "present": true, "r": true, "retVal": true, "s": true,
-	"size": true, "src": true, "str": true, "strs": true, "tempValue": true, "unionChoice": true,
-	"v": true, "val": true, "value": true, "w": true, "zero": true,
+	"size": true, "src": true, "str": true, "strs": true, "tempValue": true, "traits": true,
+	"unionChoice": true, "v": true, "val": true, "value": true, "w": true, "zero": true,
 }
 
 // GoPackageAlias returns the name by which the generated code refers to a
-- 
2.43.0

