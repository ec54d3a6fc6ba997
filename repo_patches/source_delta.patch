From ca38e0bdcf74f3147b68f65fd9af6686ec3a64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 01/44] fix: B+ tree iteration from a key past the end of its
 leaf continues in the next leaf

---
 pkg/bptree/bptree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 51325cd..0e3e6c4 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -111,9 +111,15 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 
 func (p *TraversalIterator) Next() bool {
 	if p.records == nil {
-		res := p.init()
-
-		return res && (p.records[0].index != p.records[0].node.NumPointers())
+		if !p.init() {
+			return false
+		}
+		if p.records[0].index < p.records[0].node.NumPointers() {
+			return true
+		}
+		// the key sorts after everything in its leaf, so the first entry that
+		// is not below it is the first one of the next leaf, if there is one.
+		p.records[0].index--
 	}
 	return p.incr(0, 1)
 }
-- 
2.43.0


From ae0a47a3499784ff1bc16350d3efd7b0e6dad937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 02/44] fix: B+ tree iterators can turn around after running
 off either end

---
 pkg/bptree/bptree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 0e3e6c4..3f5c7f5 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -89,7 +89,12 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 	if rolloverLeft || rolloverRight {
 		// increment the parent node
 		if !p.incr(i+1, delta) {
-			// if we weren't able to, return false
+			// if we weren't able to, return false. the leaf stays one step past
+			// the end and its ancestors where they were, so that the iterator
+			// can still turn around.
+			if i > 0 || p.records[i].index < -1 || p.records[i].index > p.records[i].node.NumPointers() {
+				p.records[i].index -= delta
+			}
 			return false
 		}
 		// otherwise, update the current node
-- 
2.43.0


From c13e596f21046dc21c845c8fa42ab5159a77178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 03/44] fix: B+ tree reports a failure to read its root pointer
 instead of treating the tree as empty

---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 3f5c7f5..5ea483e 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -24,7 +24,7 @@ type BPTree struct {
 func (t *BPTree) root() (*BPTreeNode, pointer.MemoryPointer, error) {
 	mp, err := t.MetaPage.Root()
 	if err != nil || mp.Length == 0 {
-		return nil, mp, nil
+		return nil, mp, err
 	}
 	root, err := t.readNode(mp)
 	if err != nil {
-- 
2.43.0


From 516097b753f50d10ab9b3a15f8e462dbb6975dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 04/44] fix: an empty B+ tree does not contain the empty value

---
 pkg/bptree/bptree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 5ea483e..3202aec 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -160,12 +160,15 @@ func (t *BPTree) Find(key pointer.ReferencedValue) (pointer.ReferencedValue, poi
 }
 
 func (t *BPTree) Contains(key pointer.ReferencedValue) (bool, error) {
-	k, _, err := t.Find(key)
+	p, err := t.Iter(key)
 	if err != nil {
 		return false, err
 	}
+	if !p.Next() {
+		return false, p.Err()
+	}
 
-	return bytes.Equal(k.Value, key.Value), nil
+	return bytes.Equal(p.Key().Value, key.Value), nil
 }
 
 func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
-- 
2.43.0


From 62179212cee7e63c8ee4607776aade757a890f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 05/44] fix: vector B-tree nodes decode the float32 bits they
 encode

---
 pkg/btree/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btree/node.go b/pkg/btree/node.go
index 18c6bf5..21a522e 100644
--- a/pkg/btree/node.go
+++ b/pkg/btree/node.go
@@ -141,7 +141,7 @@ func (n *BTreeNode) UnmarshalBinary(buf []byte) error {
 		vector := make(hnsw.Point, vecdim)
 
 		for vi := range vector {
-			vector[vi] = float32(binary.LittleEndian.Uint32(buf[m:]))
+			vector[vi] = math.Float32frombits(binary.LittleEndian.Uint32(buf[m:]))
 			m += 4
 		}
 
-- 
2.43.0


From 012a020fa448eee9f14692b3f9f56f0a74e95724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 06/44] fix: page file free list can wrap around its ring
 buffer

---
 pkg/pagefile/pagefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index dbf9ba2..1c42c4e 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -100,7 +100,7 @@ func (pf *PageFile) writeFreePageIndices() error {
 	buf := make([]byte, len(pf.freePageIndexes)*8)
 	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
 	for i := 0; i < pf.freePageCount; i++ {
-		offset := pf.freePageIndexes[tail+i]
+		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
 		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
 	}
 	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From 05b898ac0c4ed48068cb21778d408f67a99f699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 07/44] fix: linked page metadata of 255 bytes can be read back

---
 pkg/linkedpage/linkedpage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index d11bfc0..a3c0d20 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -131,7 +131,7 @@ func (m *LinkedPage) Metadata() ([]byte, error) {
 		return nil, err
 	}
 	// the first byte represents the length
-	length := buf[0]
+	length := int(buf[0])
 	return buf[1 : 1+length], nil
 }
 
-- 
2.43.0


From 929f0baa5f7245d748689ca848afb8c7d474dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 08/44] fix: truncated index metadata is an error, not a panic

---
 pkg/appendable/appendable.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index 02f76d4..bcc86f0 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -160,13 +160,13 @@ func (m *IndexMeta) MarshalBinary() ([]byte, error) {
 }
 
 func (m *IndexMeta) UnmarshalBinary(buf []byte) error {
-	if len(buf) < 4 {
+	if len(buf) < 6 {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[0:]))
 	m.Width = binary.LittleEndian.Uint16(buf[2:])
-	nameLength := binary.LittleEndian.Uint16(buf[4:])
-	if len(buf) < 4+int(nameLength) {
+	nameLength := int(binary.LittleEndian.Uint16(buf[4:]))
+	if len(buf) < 6+nameLength {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldName = string(buf[6 : 6+nameLength])
-- 
2.43.0


From 01ef4818d1a7a26b510c665fae070a55e6d47b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 09/44] fix: IndexFile.IsEmpty reports true for an index file
 without indexes

---
 pkg/appendable/index_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 263568b..bc7a415 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -110,7 +110,7 @@ func (i *IndexFile) IsEmpty() (bool, error) {
 	if err != nil && !errors.Is(err, io.EOF) {
 		return false, fmt.Errorf("failed to get next meta page: %w", err)
 	}
-	return n != nil, nil
+	return n == nil, nil
 }
 
 func (i *IndexFile) IndexFieldNames() ([]string, error) {
-- 
2.43.0


From 7cf3917352fe491f52e633c61203c23e792b1c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 10/44] fix: a memory mapped write that grows the file reports
 the bytes written, not the file size

---
 pkg/mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 3c0d219..cfc5a1c 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -150,11 +150,11 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 			}
 			return len(b), nil
 		}
-		b, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
+		remapped, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
 		if err != nil {
 			return 0, fmt.Errorf("mmap: %v", err)
 		}
-		m.bytes = b
+		m.bytes = remapped
 		return len(b), nil
 	}
 	// write the data
-- 
2.43.0


From dfd875e998c8f71be1aff3ac18f0e57a2ec323d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 11/44] fix: JSONL value offsets allow white space between key
 and colon

---
 pkg/handlers/jsonl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 56875f9..54c9467 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -141,13 +141,16 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 		if key, ok := key.(string); !ok {
 			return fmt.Errorf("expected string key, got '%v'", key)
 		} else {
-			fieldOffset := dec.InputOffset() + 1 // skip the :
+			keyEnd := dec.InputOffset()
 
 			value, err := dec.Token()
 			if err != nil {
 				return fmt.Errorf("failed to read token: %w", err)
 			}
 
+			// skip the :, which may be preceded by whitespace
+			fieldOffset := keyEnd + int64(bytes.IndexByte(r[data.Offset+uint64(keyEnd):], ':')) + 1
+
 			name := strings.Join(append(path, key), ".")
 
 			fts := jsonTypeToFieldType(value)
-- 
2.43.0


From b6c641b1e5f1d62212657b7f7c8f732417316598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 12/44] fix: CSV synchronization counts entries

---
 pkg/handlers/csv.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 8e0b1c2..99ebc82 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -71,6 +71,7 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		}
 
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
+		metadata.Entries++
 	}
 
 	// update the metadata
-- 
2.43.0


From af2d08385abd9a3a0828ec2585b2d476d3c0c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 13/44] fix: CSV synchronization takes the header from the data
 file

---
 pkg/handlers/csv.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 99ebc82..c4649e3 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -37,11 +37,13 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
 
-	fieldNames, err := f.IndexFieldNames()
-	if err != nil {
-		return fmt.Errorf("failed to retrieve index field names: %w", err)
+	if metadata.ReadOffset > 0 {
+		// the header has been read before, it is the first line of the file
+		headers, err = csv.NewReader(bytes.NewReader(df[:metadata.ReadOffset])).Read()
+		if err != nil {
+			return fmt.Errorf("failed to parse CSV header: %w", err)
+		}
 	}
-	headers = fieldNames
 
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
-- 
2.43.0


From 8ab670d230087f056104632a6d5db4fa17880dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 14/44] fix: CSV indexes record the width their tree is written
 with

---
 pkg/handlers/csv.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index c4649e3..ffe60a9 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -176,12 +176,20 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		fieldLength := uint32(len(fieldValue))
 
 		_, fieldType := InferCSVField(fieldValue)
-		page, _, err := f.FindOrCreateIndex(name, fieldType)
+		page, meta, err := f.FindOrCreateIndex(name, fieldType)
 
 		if err != nil {
 			return fmt.Errorf("failed to find or create index: %w", err)
 		}
 
+		// CSV values are never inlined, so the index is of variable width
+		if meta.Width != 0 {
+			meta.Width = 0
+			if err := page.MarshalMetadata(meta); err != nil {
+				return fmt.Errorf("failed to set metadata: %w", err)
+			}
+		}
+
 		mp := pointer.MemoryPointer{
 			Offset: fieldOffset,
 			Length: fieldLength,
-- 
2.43.0


From d11c4546fc3492f4ac714f611fafb58d24ca786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 15/44] fix: CSV data pointers refer to the field's value, also
 when it or a field before it is quoted

---
 pkg/handlers/csv.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index ffe60a9..1944aa4 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -130,7 +130,13 @@ func InferCSVField(fieldValue string) (interface{}, appendable.FieldType) {
 }
 
 func (c CSVHandler) Parse(value []byte) []byte {
-	parsed, fieldType := InferCSVField(string(value))
+	field := string(value)
+	if strings.HasPrefix(field, "\"") {
+		// only a field with escaped quotes is referred to with its quotes
+		field = strings.ReplaceAll(strings.TrimSuffix(field[1:], "\""), "\"\"", "\"")
+	}
+
+	parsed, fieldType := InferCSVField(field)
 
 	switch fieldType {
 	case appendable.FieldTypeFloat64:
@@ -160,8 +166,6 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("failed to read CSV record: %w", err)
 	}
 
-	cumulativeLength := uint64(0)
-
 	for fieldIndex, fieldValue := range record {
 		if fieldIndex >= len(headers) {
 			slog.Error("Field index is out of bounds with headers", "fieldIndex", fieldIndex, "headers", slog.Any("headers", headers))
@@ -172,8 +176,15 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 
 		name := strings.Join(append(path, fieldName), ".")
 
-		fieldOffset := data.Offset + cumulativeLength
+		// a field is referred to without its quotes unless it contains quotes itself
+		_, column := dec.FieldPos(fieldIndex)
+		fieldOffset := data.Offset + uint64(column-1)
 		fieldLength := uint32(len(fieldValue))
+		if quotes := strings.Count(fieldValue, "\""); quotes > 0 {
+			fieldLength += uint32(quotes) + 2
+		} else if fieldOffset < data.Offset+uint64(data.Length) && df[fieldOffset] == '"' {
+			fieldOffset++
+		}
 
 		_, fieldType := InferCSVField(fieldValue)
 		page, meta, err := f.FindOrCreateIndex(name, fieldType)
@@ -195,11 +206,9 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 			Length: fieldLength,
 		}
 
-		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil {
+		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse(df[mp.Offset : mp.Offset+uint64(mp.Length)]), DataPointer: mp}, data); err != nil {
 			return fmt.Errorf("failed to insert into b+tree: %w", err)
 		}
-
-		cumulativeLength += uint64(fieldLength + 1)
 	}
 
 	return nil
-- 
2.43.0


From a1bc6f3557ca314895c1f79a8db256cc872fdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 16/44] fix: a field name too long for its index slot is
 refused before the slot is created

---
 pkg/appendable/index_file.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index bc7a415..2bb16cb 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -1,6 +1,7 @@
 package appendable
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/linkedpage"
@@ -13,6 +14,10 @@ import (
 
 const CurrentVersion = 1
 
+// maxIndexMetaSize is the number of metadata bytes that fit the slot of an
+// index without reaching into the next slot.
+const maxIndexMetaSize = 252
+
 type DataHandler interface {
 	bptree.DataParser
 	Synchronize(f *IndexFile, df []byte) error
@@ -169,7 +174,11 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		}
 		mp = next
 	}
-	// we haven't found the index, so we need to create it
+	// we haven't found the index, so we need to create it. its metadata has to
+	// fit the slot for any total field value length.
+	if 6+len(name)+binary.MaxVarintLen64 > maxIndexMetaSize {
+		return nil, nil, fmt.Errorf("field name too long: %d bytes", len(name))
+	}
 	next, err := mp.AddNext()
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
-- 
2.43.0


From 8f0e13245d1a2a610345be1c5d97d4d63889da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 17/44] fix: distance heap restores its order when the distance
 of an item changes

---
 pkg/hnsw/heap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 5dcff52..b11f3e0 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -216,9 +216,9 @@ func (d *DistHeap) Insert(id Id, dist float32) {
 }
 
 func (d *DistHeap) Fix(i int) {
-	if !d.down(i, d.Len()) {
-		d.up(i)
-	}
+	// an item that moves up leaves one at i that belongs above all items below i
+	d.up(i)
+	d.down(i, d.Len())
 }
 
 func (d DistHeap) IsEmpty() bool      { return len(d.items) == 0 }
-- 
2.43.0


From 471adcc0e73b205618e54dd7b0f908ab5c4758cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 18/44] fix: a cloned distance heap does not share its items
 with the original

---
 pkg/hnsw/heap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index b11f3e0..aae0504 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -134,7 +134,10 @@ func (d *DistHeap) Clone() *DistHeap {
 		visited: make(map[Id]int, len(d.visited)),
 	}
 
-	copy(n.items, d.items)
+	for i, item := range d.items {
+		clone := *item
+		n.items[i] = &clone
+	}
 	maps.Copy(n.visited, d.visited)
 
 	return n
-- 
2.43.0


From b8abe61a862d361b91006dbec0efc6752913050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 19/44] fix: a vector inserted on several levels does not
 become its own neighbor

---
 pkg/hnsw/hnsw.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index ff9cf6b..c213659 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -113,6 +113,11 @@ func (h *Hnsw) searchLevel(q *Point, entryItem *Item, numNearestToQToReturn, lev
 
 				ccFriendPoint := h.points[ccFriendId]
 
+				// a point being inserted is already a friend on the levels below, but not of itself
+				if ccFriendPoint == q {
+					continue
+				}
+
 				// if distance(ccFriend, q) < distance(f, q)
 				ccFriendDistToQ := EuclidDistance(*ccFriendPoint, *q)
 				if ccFriendDistToQ < furthestFoundNN.dist || foundNNToQ.Len() < numNearestToQToReturn {
-- 
2.43.0


From d57a3dbba2f1561d8fe0067b57f5c79d80bd0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 20/44] fix: a friend keeps its highest level when it is
 inserted again on a lower one

---
 pkg/hnsw/friends.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/friends.go b/pkg/hnsw/friends.go
index 3d0cb75..653253c 100644
--- a/pkg/hnsw/friends.go
+++ b/pkg/hnsw/friends.go
@@ -54,7 +54,9 @@ func (v *Friends) InsertFriendsAtLevel(level int, friendId Id, dist float32) {
 		v.friends[i].Insert(friendId, dist)
 	}
 
-	v.maxLevels[friendId] = level
+	if maxLevel, ok := v.maxLevels[friendId]; !ok || level > maxLevel {
+		v.maxLevels[friendId] = level
+	}
 }
 
 func (v *Friends) GetFriendsAtLevel(level int) (*DistHeap, error) {
-- 
2.43.0


From 27ec336a077202233969190e097ef84d2bcd7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:26 +0000
Subject: [PATCH 21/44] fix: refuse a line with content after its JSON object

---
 pkg/handlers/jsonl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 54c9467..b2b2f67 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/ngram"
 	"github.com/kevmo314/appendable/pkg/pointer"
+	"io"
 	"log/slog"
 	"math"
 	"strings"
@@ -55,6 +56,11 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 			return fmt.Errorf("expected '}', got '%v'", t)
 		}
 
+		// and nothing may follow it on the line
+		if t, err := dec.Token(); err != io.EOF {
+			return fmt.Errorf("expected end of line, got '%v'", t)
+		}
+
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
 
 		if f.BenchmarkCallback != nil {
-- 
2.43.0


From 114f538d6c634d06a4b6e4fcf8dbd7f24972b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 22/44] fix: a searched field with values other than strings
 could not be indexed

---
 pkg/handlers/jsonl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index b2b2f67..05bd596 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -160,7 +160,8 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 			name := strings.Join(append(path, key), ".")
 
 			fts := jsonTypeToFieldType(value)
-			if f.IsSearch(name) {
+			// only strings can be searched
+			if _, ok := value.(string); ok && f.IsSearch(name) {
 				fts = append(fts, appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram)
 			}
 
-- 
2.43.0


From a471304d7bb556ef8c66937b2114844901c628ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 23/44] fix: a page whose release failed was handed out again

---
 pkg/pagefile/pagefile.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 1c42c4e..6208190 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -193,11 +193,19 @@ func (pf *PageFile) FreePage(offset int64) error {
 	}
 
 	// push to the head
-	pf.freePageIndexes[pf.freePageHead] = offset
-	pf.freePageHead = (pf.freePageHead + 1) % len(pf.freePageIndexes)
+	head := pf.freePageHead
+	pf.freePageIndexes[head] = offset
+	pf.freePageHead = (head + 1) % len(pf.freePageIndexes)
 	pf.freePageCount++
 
-	return pf.writeFreePageIndices()
+	if err := pf.writeFreePageIndices(); err != nil {
+		// the caller still owns the page, so don't hand it out.
+		pf.freePageIndexes[head] = 0
+		pf.freePageHead = head
+		pf.freePageCount--
+		return err
+	}
+	return nil
 }
 
 func (pf *PageFile) PageSize() int {
-- 
2.43.0


From 26b79fcbf18415bd255775e97ed128434b1e32d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 24/44] fix: a line that cannot be indexed left entries behind
 and made every later synchronization fail

---
 pkg/appendable/index_file.go |  17 ++++--
 pkg/handlers/csv.go          |  45 +++++++++-----
 pkg/handlers/jsonl.go        | 110 +++++++++++++++++++++++++++++------
 3 files changed, 135 insertions(+), 37 deletions(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 2bb16cb..82f5534 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -151,6 +151,16 @@ func (i *IndexFile) IndexFieldNames() ([]string, error) {
 	return fieldNames, nil
 }
 
+// CheckFieldName returns an error if no index can be created for a field of
+// this name.
+func CheckFieldName(name string) error {
+	// the metadata has to fit the slot for any total field value length.
+	if 6+len(name)+binary.MaxVarintLen64 > maxIndexMetaSize {
+		return fmt.Errorf("field name too long: %d bytes", len(name))
+	}
+	return nil
+}
+
 func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linkedpage.LinkedPage, *IndexMeta, error) {
 	mp := i.tree
 	for {
@@ -174,10 +184,9 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		}
 		mp = next
 	}
-	// we haven't found the index, so we need to create it. its metadata has to
-	// fit the slot for any total field value length.
-	if 6+len(name)+binary.MaxVarintLen64 > maxIndexMetaSize {
-		return nil, nil, fmt.Errorf("field name too long: %d bytes", len(name))
+	// we haven't found the index, so we need to create it.
+	if err := CheckFieldName(name); err != nil {
+		return nil, nil, err
 	}
 	next, err := mp.AddNext()
 	if err != nil {
diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 1944aa4..91f4858 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -37,6 +37,10 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
 
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("the data file is %d bytes long, but %d bytes of it have been read before", len(df), metadata.ReadOffset)
+	}
+
 	if metadata.ReadOffset > 0 {
 		// the header has been read before, it is the first line of the file
 		headers, err = csv.NewReader(bytes.NewReader(df[:metadata.ReadOffset])).Read()
@@ -45,15 +49,32 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		}
 	}
 
+	err = c.synchronizeLines(f, df, headers, metadata)
+
+	// update the metadata, also on failure: the lines before the one that failed
+	// are indexed.
+	if err := f.SetMetadata(metadata); err != nil {
+		return fmt.Errorf("failed to set metadata: %w", err)
+	}
+
+	slog.Debug("indexes", slog.Any("", f.Indexes))
+	slog.Debug("Ending CSV synchronization")
+	slog.Debug("=========")
+	return err
+}
+
+func (c CSVHandler) synchronizeLines(f *appendable.IndexFile, df []byte, headers []string, metadata *appendable.FileMeta) error {
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
-			break
+			return nil
 		}
 
+		dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
+
 		if len(headers) == 0 {
 			slog.Info("Parsing CSV headers")
-			dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
+			var err error
 			headers, err = dec.Read()
 			if err != nil {
 				slog.Error("failed to parse CSV header", "error", err)
@@ -63,8 +84,6 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 			continue
 		}
 
-		dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
-
 		if err := c.handleCSVLine(f, df, dec, headers, []string{}, pointer.MemoryPointer{
 			Offset: metadata.ReadOffset,
 			Length: uint32(i),
@@ -75,16 +94,6 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
 		metadata.Entries++
 	}
-
-	// update the metadata
-	if err := f.SetMetadata(metadata); err != nil {
-		return fmt.Errorf("failed to set metadata: %w", err)
-	}
-
-	slog.Debug("indexes", slog.Any("", f.Indexes))
-	slog.Debug("Ending CSV synchronization")
-	slog.Debug("=========")
-	return nil
 }
 
 func fieldRankCsvField(fieldValue any) int {
@@ -166,12 +175,18 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("failed to read CSV record: %w", err)
 	}
 
-	for fieldIndex, fieldValue := range record {
+	// check the whole line before anything of it is indexed
+	for fieldIndex := range record {
 		if fieldIndex >= len(headers) {
 			slog.Error("Field index is out of bounds with headers", "fieldIndex", fieldIndex, "headers", slog.Any("headers", headers))
 			return fmt.Errorf("field index %d is out of bounds with header", fieldIndex)
 		}
+		if err := appendable.CheckFieldName(strings.Join(append(path, headers[fieldIndex]), ".")); err != nil {
+			return err
+		}
+	}
 
+	for fieldIndex, fieldValue := range record {
 		fieldName := headers[fieldIndex]
 
 		name := strings.Join(append(path, fieldName), ".")
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 05bd596..4d89c4f 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -31,17 +31,40 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("the data file is %d bytes long, but %d bytes of it have been read before", len(df), metadata.ReadOffset)
+	}
+
+	err = j.synchronizeLines(f, df, metadata)
+
+	// update the metadata, also on failure: the lines before the one that failed
+	// are indexed.
+	if err := f.SetMetadata(metadata); err != nil {
+		return fmt.Errorf("failed to set metadata: %w", err)
+	}
+
+	return err
+}
+
+func (j JSONLHandler) synchronizeLines(f *appendable.IndexFile, df []byte, metadata *appendable.FileMeta) error {
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
-			break
+			return nil
+		}
+		line := df[metadata.ReadOffset:(metadata.ReadOffset + uint64(i))]
+
+		// check the whole line before anything of it is indexed
+		if err := checkJSONLLine(line); err != nil {
+			return err
 		}
+
 		// create a new json decoder
-		dec := json.NewDecoder(bytes.NewReader(df[metadata.ReadOffset:(metadata.ReadOffset + uint64(i))]))
+		dec := json.NewDecoder(bytes.NewReader(line))
 
-		// if the first token is not {, then return an error
-		if t, err := dec.Token(); err != nil || t != json.Delim('{') {
-			return fmt.Errorf("expected '%U', got '%U' (only json objects are supported at the root)", '{', t)
+		// skip the {
+		if _, err := dec.Token(); err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
 		}
 
 		if err := j.handleJSONLObject(f, df, dec, []string{}, pointer.MemoryPointer{
@@ -51,16 +74,6 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 			return fmt.Errorf("failed to handle object: %w", err)
 		}
 
-		// the next token must be a }
-		if t, err := dec.Token(); err != nil || t != json.Delim('}') {
-			return fmt.Errorf("expected '}', got '%v'", t)
-		}
-
-		// and nothing may follow it on the line
-		if t, err := dec.Token(); err != io.EOF {
-			return fmt.Errorf("expected end of line, got '%v'", t)
-		}
-
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
 
 		if f.BenchmarkCallback != nil {
@@ -69,12 +82,73 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 
 		metadata.Entries++
 	}
+}
 
-	// update the metadata
-	if err := f.SetMetadata(metadata); err != nil {
-		return fmt.Errorf("failed to set metadata: %w", err)
+// checkJSONLLine returns an error if the line is not exactly one JSON object
+// that can be indexed.
+func checkJSONLLine(line []byte) error {
+	dec := json.NewDecoder(bytes.NewReader(line))
+
+	// if the first token is not {, then return an error
+	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
+		return fmt.Errorf("expected '%U', got '%U' (only json objects are supported at the root)", '{', t)
+	}
+
+	if err := checkJSONLObject(dec, []string{}); err != nil {
+		return fmt.Errorf("failed to handle object: %w", err)
+	}
+
+	// nothing may follow the object on the line
+	if t, err := dec.Token(); err != io.EOF {
+		return fmt.Errorf("expected end of line, got '%v'", t)
 	}
+	return nil
+}
 
+// checkJSONLObject checks the object that dec is in, up to and including the }.
+func checkJSONLObject(dec *json.Decoder, path []string) error {
+	for dec.More() {
+		key, err := dec.Token()
+		if err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
+		}
+		name, ok := key.(string)
+		if !ok {
+			return fmt.Errorf("expected string key, got '%v'", key)
+		}
+		fieldPath := append(path, name)
+		if err := appendable.CheckFieldName(strings.Join(fieldPath, ".")); err != nil {
+			return err
+		}
+
+		value, err := dec.Token()
+		if err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
+		}
+		switch value {
+		case json.Delim('{'):
+			if err := checkJSONLObject(dec, fieldPath); err != nil {
+				return err
+			}
+		case json.Delim('['):
+			for depth := 1; depth > 0; {
+				t, err := dec.Token()
+				if err != nil {
+					return fmt.Errorf("failed to read token: %w", err)
+				}
+				switch t {
+				case json.Delim('['):
+					depth++
+				case json.Delim(']'):
+					depth--
+				}
+			}
+		}
+	}
+
+	if t, err := dec.Token(); err != nil || t != json.Delim('}') {
+		return fmt.Errorf("expected '}', got '%v'", t)
+	}
 	return nil
 }
 
-- 
2.43.0


From 3211a09327848dde82bc8bf375d3aa2f7c5545d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 25/44] fix: reads and writes through a memory map at
 impossible offsets or of nothing crashed or failed, and a read-only map
 crashed on writing

---
 pkg/mmap/mmap.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index cfc5a1c..7509e6c 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -114,6 +114,12 @@ func (m *MemoryMappedFile) Read(b []byte) (int, error) {
 
 // ReadAt reads len(b) bytes from the file starting at byte offset off.
 func (m *MemoryMappedFile) ReadAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
+	if off > int64(len(m.bytes)) {
+		return 0, io.EOF
+	}
 	n := copy(b, m.bytes[off:])
 	if n < len(b) {
 		return n, io.EOF
@@ -133,8 +139,17 @@ func (m *MemoryMappedFile) Write(b []byte) (int, error) {
 
 // WriteAt writes len(b) bytes to the file starting at byte offset off.
 func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
+	if m.prot&unix.PROT_WRITE == 0 {
+		return 0, fmt.Errorf("mmap: file is not writable")
+	}
+	if len(b) == 0 {
+		return 0, nil
+	}
 	// check if the file needs to be remapped
-	if off+int64(len(b)) > int64(len(m.bytes)) {
+	if off > int64(len(m.bytes)-len(b)) {
 		// write the data and remap the file
 		if _, err := m.file.WriteAt(b, off); err != nil {
 			return 0, err
-- 
2.43.0


From 416fa1613a63d9fb058eaa364d0d118e1159ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:13 +0000
Subject: [PATCH 26/44] fix: the client decoded numbers of 2^31 and above
 wrongly

---
 src/util/uvarint.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util/uvarint.ts b/src/util/uvarint.ts
index 5dbbaa7..ceea8c4 100644
--- a/src/util/uvarint.ts
+++ b/src/util/uvarint.ts
@@ -12,7 +12,7 @@ export function encodeUvarint(n: number): ArrayBuffer {
 
   while (n >= 0x80) {
     ibuf[i++] = (n & 0xff) | 0x80;
-    n >>= 7;
+    n = Math.floor(n / 0x80);
   }
 
   ibuf[i] = n & 0xff;
@@ -22,7 +22,8 @@ export function encodeUvarint(n: number): ArrayBuffer {
 
 export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
   let x: number = 0;
-  let s: number = 0;
+  // bitwise operators are limited to 32 bits, so scale instead of shifting
+  let scale: number = 1;
 
   const view = new Uint8Array(buf);
 
@@ -38,12 +39,12 @@ export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
         return { value: 0, bytesRead: -(idx + 1) };
       }
 
-      let value = x | (b << s);
+      let value = x + b * scale;
       return { value, bytesRead: idx + 1 };
     }
 
-    x |= (b & 0x7f) << s;
-    s += 7;
+    x += (b & 0x7f) * scale;
+    scale *= 0x80;
   }
 
   return { value: 0, bytesRead: 0 };
-- 
2.43.0


From 73ab254c5c92dc0e61ecafd6a9da64b3fe8c0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 27/44] fix: the first and last key of a tree of one node were
 read from the data file's offsets

---
 src/bptree/bptree.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 71bd6bc..33db1a9 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -105,7 +105,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(rootNode.pointer(0));
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(0);
@@ -121,9 +121,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(
-      rootNode.pointer(rootNode.numPointers() - 1),
-    );
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(currNode.numPointers() - 1);
-- 
2.43.0


From 58d05ff619deb14436234633966b81925e6d93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 28/44] fix: a lookup in the client found nothing when the next
 key is in another leaf

---
 src/bptree/traversal.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index f7a5a2e..6d675ea 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -76,10 +76,12 @@ export class TraversalIterator {
   async next(): Promise<boolean> {
     if (this.records.length === 0) {
       const res = await this.init();
+      if (!res) {
+        return false;
+      }
 
-      return (
-        res && this.records[0].index !== this.records[0].node.numPointers()
-      );
+      // the key may be past the end of its leaf, then the first entry is in the next one
+      this.records[0].index -= 1;
     }
 
     return this.increment(0, 1);
-- 
2.43.0


From 8dd43e1d16e59233c9bbb29d06d1d29c411a4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 29/44] fix: descending > and >= queries left out the last
 record, and > included the value itself

---
 src/db/database.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 07592fc..496e1ec 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -242,13 +242,18 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
 
               if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) < 0
+                ReferencedValue.compareBytes(currentKey.value, valueBuf) <= 0
               ) {
                 break;
               }
@@ -287,7 +292,12 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
-- 
2.43.0


From 68dc3983d735e6b9a36ce9cb6de51e10d6453801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 30/44] fix: search phrases with characters outside ASCII were
 cut into other tokens than the indexed text

The index holds the ASCII characters of the decomposed text; the client
did not decompose the phrase, and took code point offsets for offsets of
UTF-16 units, so that tokens behind an emoji were made of other characters.
---
 src/ngram/tokenizer.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ngram/tokenizer.ts b/src/ngram/tokenizer.ts
index b8eaf37..77ed0fe 100644
--- a/src/ngram/tokenizer.ts
+++ b/src/ngram/tokenizer.ts
@@ -29,7 +29,12 @@ export class NgramTokenizer {
     let wordOffsets: number[][] = [];
     let currentWordOffsets: number[] = [];
 
-    Array.from(phrase).forEach((c, idx) => {
+    // the index only holds the ASCII characters of the decomposed text
+    const chars = Array.from(phrase.normalize("NFKD")).filter(
+      (c) => c.charCodeAt(0) < 0x80,
+    );
+
+    chars.forEach((c, idx) => {
       if (/[a-zA-Z0-9]/.test(c)) {
         currentWordOffsets.push(idx);
       } else if (/\s/.test(c)) {
@@ -56,7 +61,7 @@ export class NgramTokenizer {
           let str = "";
 
           for (let jdx = idx; jdx <= idx + N - 1; jdx++) {
-            str += phrase[word[jdx]];
+            str += chars[word[jdx]];
           }
 
           let value = str.toLowerCase();
-- 
2.43.0


From e41672ed2234def5a72874e7292cea529266e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 31/44] fix: a search listed a document once for every
 occurrence of every token

Documents were told apart by the identity of a fresh object, so no two
occurrences counted as the same document, no scores were summed, and the
number of documents with a token also counted those of the tokens before.
---
 src/bptree/bptree.ts | 18 ++++++++++++------
 src/db/database.ts   | 13 ++++++++-----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 33db1a9..f666bd4 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -27,10 +27,6 @@ export class BPTree {
   // insight attributes below
 
   private readonly entries: number;
-  private readonly tfMap: Map<DataPointer, number> = new Map<
-    DataPointer,
-    number
-  >();
 
   constructor(
     tree: RangeResolver,
@@ -171,7 +167,12 @@ export class BPTree {
   }
 
   // these traverse through the iterator
+  /**
+   * Counts the occurrences of a term in each document that has it, by where the
+   * document starts.
+   */
   public async termFrequency(key: ReferencedValue) {
+    const documents = new Map<number, { dp: DataPointer; tf: number }>();
     const p = await this.iter(key);
 
     while (await p.next()) {
@@ -187,10 +188,15 @@ export class BPTree {
         end: Number(mp.offset) + mp.length - 1,
       };
 
-      this.tfMap.set(dp, (this.tfMap.get(dp) ?? 0) + 1);
+      const document = documents.get(dp.start);
+      if (document) {
+        document.tf++;
+      } else {
+        documents.set(dp.start, { dp, tf: 1 });
+      }
     }
 
-    return this.tfMap;
+    return documents;
   }
 }
 
diff --git a/src/db/database.ts b/src/db/database.ts
index 496e1ec..4943c8b 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -120,7 +120,9 @@ export class Database<T extends Schema> {
       const tok = new NgramTokenizer(minGram, maxGram);
       const likeToks = NgramTokenizer.shuffle(tok.tokens(like));
 
-      const table = new PriorityTable<DataPointer>();
+      // documents are told apart by where they start
+      const table = new PriorityTable<number>();
+      const documents = new Map<number, DataPointer>();
       const metaPageCache = new Map<FieldType, LinkedMetaPage>();
 
       const btreeMap = new Map<FieldType, BPTree>();
@@ -162,27 +164,28 @@ export class Database<T extends Schema> {
 
         const btree = btreeMap.get(fieldType)!;
 
-        const tfMap = await btree.termFrequency(
+        const frequencies = await btree.termFrequency(
           new ReferencedValue({ offset: 0n, length: 0 }, valueBuf),
         );
 
         const n = entries; // total number of documents
-        const nt = tfMap.size; // number of documents containing this token
+        const nt = frequencies.size; // number of documents containing this token
         const idf = Math.log((n - nt + 0.5) / (nt + 0.5)); // inverse document frequency formula
 
         const K1 = 1.2;
 
-        for (const [key, tf] of tfMap.entries()) {
+        for (const [key, { dp, tf }] of frequencies.entries()) {
           const num = tf * (K1 + 1);
           const den = tf + K1;
           const score = idf * (num / den);
 
           table.insert(key, score);
+          documents.set(key, dp);
         }
       }
 
       for (const { key, score } of table.top()) {
-        const { start, end } = key;
+        const { start, end } = documents.get(key)!;
         const data = await this.dataFile.get(start, end);
         yield { data, score };
       }
-- 
2.43.0


From a176d882cf6342e3f033766d7eae955fd089db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:03 +0000
Subject: [PATCH 32/44] fix: a range served from the cache lacked its last byte

---
 src/resolver/cache.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/cache.ts b/src/resolver/cache.ts
index 6615163..1611a51 100644
--- a/src/resolver/cache.ts
+++ b/src/resolver/cache.ts
@@ -15,7 +15,7 @@ export function cache(resolver: RangeResolver): RangeResolver {
       return cached[1].then((cachedData) => {
         const data = cachedData[0].data.slice(
           start - cached[0][0],
-          end - cached[0][0],
+          end - cached[0][0] + 1,
         );
         return [
           {
-- 
2.43.0


From ad11a2cda2a148ce122724fb33ff05693c6fd70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 33/44] fix: a multipart body that ends early made the client
 wait forever

---
 src/resolver/multipart.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index eb1edd9..a64fd0f 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -26,6 +26,9 @@ function getReader(stream: ReadableStream) {
           residual = result.value;
         }
         readDone ||= result.done;
+        if (readDone && !residual) {
+          return { done: true, value: undefined };
+        }
       }
     }
   };
-- 
2.43.0


From 453af371d05ab554bd8e2a11fd68477db5f67db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 34/44] fix: a multipart body with a line break in front of its
 first boundary was refused

nginx and Apache send one.
---
 src/resolver/multipart.ts | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index a64fd0f..a5758f1 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -87,6 +87,27 @@ export default async function* parseMultipartBody(
     return false;
   };
 
+  // some servers put a line break in front of the first boundary
+  while (length === 0) {
+    if (await extend()) {
+      return;
+    }
+  }
+  if (buf[ptr] === "\r".charCodeAt(0)) {
+    for (const c of ["\r", "\n"]) {
+      while (length === 0) {
+        if (await extend()) {
+          return;
+        }
+      }
+      if (buf[ptr] !== c.charCodeAt(0)) {
+        throw new Error("Invalid boundary");
+      }
+      ptr = (ptr + 1) % buf.length;
+      length--;
+    }
+  }
+
   while (true) {
     // read boundary
     for (let i = 0; i < boundary.length; i++) {
-- 
2.43.0


From bbca72f053f8949ccba6722b54efcd70c260b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 35/44] fix: the total length of a multipart response was
 always 0

The header was looked up in lower case but stored as it came. Header names
are now lower case, whatever the case the server writes them in.
---
 src/resolver/multipart.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index a5758f1..d16ac18 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -167,7 +167,7 @@ export default async function* parseMultipartBody(
             throw new Error(`Invalid header: ${decoded}`);
           }
           const [key, value] = tokens;
-          headers[key.trim()] = value.trim();
+          headers[key.trim().toLowerCase()] = value.trim();
           header.length = 0;
         }
       } else {
@@ -178,12 +178,12 @@ export default async function* parseMultipartBody(
 
     // read body
     // read the Content-Range header
-    if (!headers["Content-Range"]) {
+    if (!headers["content-range"]) {
       // TODO: read until the next boundary
       throw new Error("Missing Content-Range header");
     }
     const [unit, start, end] = parseContentRangeHeader(
-      headers["Content-Range"],
+      headers["content-range"],
     );
     if (unit !== "bytes") {
       throw new Error("Invalid Content-Range header");
-- 
2.43.0


From 83dc53771068010604f8c0d99680870a68fc0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 36/44] fix: a response with fewer ranges than asked for was
 taken for complete

When a multipart body ends early, or the server merges ranges, the keys of
a node beyond those it served silently stayed empty.
---
 src/resolver/range-request.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index a471ca2..8ba866b 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -88,6 +88,12 @@ export async function requestRanges(
           chunks.pop();
         }
 
+        if (chunks.length !== ranges.length) {
+          throw new Error(
+            `Expected ${ranges.length} ranges in the response, got ${chunks.length}`,
+          );
+        }
+
         return chunks.map(({ data, headers }) => {
           const totalLengthStr = headers["content-range"]?.split("/")[1];
           const totalLength = totalLengthStr ? parseInt(totalLengthStr, 10) : 0;
@@ -95,6 +101,12 @@ export async function requestRanges(
           return { data, totalLength };
         });
       } else if (response.headers.has("Content-Range")) {
+        if (ranges.length !== 1) {
+          throw new Error(
+            `Expected ${ranges.length} ranges in the response, got 1`,
+          );
+        }
+
         const abuf = await response.arrayBuffer();
         const totalLength = Number(
           response.headers.get("Content-Range")!.split("/")[1],
-- 
2.43.0


From 49e27a24c77ec9fcdc5ddda5149a48c4f730e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:16 +0000
Subject: [PATCH 37/44] fix: a multipart boundary in quotes or with an equals
 sign was refused

---
 src/resolver/multipart.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index d16ac18..f880a14 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -59,7 +59,8 @@ export default async function* parseMultipartBody(
   const boundaryToken = tokens
     .map((s) => s.trim())
     .find((s) => s.startsWith("boundary="))
-    ?.split("=", 2)?.[1];
+    ?.slice("boundary=".length)
+    .replace(/^"(.*)"$/, "$1");
   if (!boundaryToken) {
     throw new Error("No boundary found");
   }
-- 
2.43.0


From e273bccfb3462020874450be3816aaa8613acfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 38/44] fix: the parts of a response were taken for the ranges
 in the order asked for, whatever they held

---
 src/resolver/multipart.ts     |  2 +-
 src/resolver/range-request.ts | 67 +++++++++++++++++++++--------------
 2 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index f880a14..5b3489f 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -34,7 +34,7 @@ function getReader(stream: ReadableStream) {
   };
 }
 
-function parseContentRangeHeader(
+export function parseContentRangeHeader(
   header: string,
 ): [string, number, number, number] {
   // parse bytes a-b/c
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index 8ba866b..03e813f 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -1,5 +1,5 @@
 import { Config } from "../index";
-import parseMultipartBody from "./multipart";
+import parseMultipartBody, { parseContentRangeHeader } from "./multipart";
 import { LengthIntegrityError } from "./resolver";
 
 async function resolveIndividualPromises(
@@ -29,6 +29,34 @@ async function resolveIndividualPromises(
   return await Promise.all(individualRangePromises);
 }
 
+/**
+ * Takes the ranges from the parts of a response. The server may reorder and
+ * merge the ranges, only the Content-Range header tells what a part holds.
+ */
+function pickRanges(
+  ranges: { start: number; end: number }[],
+  parts: { data: ArrayBuffer; contentRange: string }[],
+): { data: ArrayBuffer; totalLength: number }[] {
+  const parsed = parts.map(({ data, contentRange }) => {
+    const [, first, last, totalLength] = parseContentRangeHeader(contentRange);
+    return { data, first, last, totalLength };
+  });
+
+  return ranges.map(({ start, end }) => {
+    const part = parsed.find(
+      ({ first, last, totalLength }) =>
+        first <= start &&
+        start <= last &&
+        (end <= last || last === totalLength - 1),
+    );
+    if (!part) {
+      throw new Error(`Range ${start}-${end} is not in the response`);
+    }
+    const { data, first, totalLength } = part;
+    return { data: data.slice(start - first, end - first + 1), totalLength };
+  });
+}
+
 export async function requestRanges(
   url: string,
   ranges: { start: number; end: number; expectedLength?: number }[],
@@ -88,35 +116,20 @@ export async function requestRanges(
           chunks.pop();
         }
 
-        if (chunks.length !== ranges.length) {
-          throw new Error(
-            `Expected ${ranges.length} ranges in the response, got ${chunks.length}`,
-          );
-        }
-
-        return chunks.map(({ data, headers }) => {
-          const totalLengthStr = headers["content-range"]?.split("/")[1];
-          const totalLength = totalLengthStr ? parseInt(totalLengthStr, 10) : 0;
-
-          return { data, totalLength };
-        });
-      } else if (response.headers.has("Content-Range")) {
-        if (ranges.length !== 1) {
-          throw new Error(
-            `Expected ${ranges.length} ranges in the response, got 1`,
-          );
-        }
-
-        const abuf = await response.arrayBuffer();
-        const totalLength = Number(
-          response.headers.get("Content-Range")!.split("/")[1],
+        return pickRanges(
+          ranges,
+          chunks.map(({ data, headers }) => ({
+            data,
+            contentRange: headers["content-range"],
+          })),
         );
-        return [
+      } else if (response.headers.has("Content-Range")) {
+        return pickRanges(ranges, [
           {
-            data: abuf,
-            totalLength: totalLength,
+            data: await response.arrayBuffer(),
+            contentRange: response.headers.get("Content-Range")!,
           },
-        ];
+        ]);
       } else {
         throw new Error(`Unexpected response format: ${contentType}`);
       }
-- 
2.43.0


From b43d97e0019441e3fb5e17ebf7c5aad87f0a77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 39/44] fix: a caching resolver returned only the first of
 several ranges and remembered failures

---
 src/resolver/cache.ts | 46 ++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/resolver/cache.ts b/src/resolver/cache.ts
index 1611a51..82aa834 100644
--- a/src/resolver/cache.ts
+++ b/src/resolver/cache.ts
@@ -3,33 +3,35 @@ import { RangeResolver } from "./resolver";
 export function cache(resolver: RangeResolver): RangeResolver {
   const cache: [
     [number, number],
-    Promise<{ data: ArrayBuffer; totalLength: number }[]>,
+    Promise<{ data: ArrayBuffer; totalLength: number }>,
   ][] = [];
 
-  return async ([{ start, end }]): Promise<
-    { data: ArrayBuffer; totalLength: number }[]
-  > => {
-    // check if start-end is contained in any of the cached ranges
-    const cached = cache.find(([[s, e]]) => s <= start && end <= e);
-    if (cached) {
-      return cached[1].then((cachedData) => {
-        const data = cachedData[0].data.slice(
-          start - cached[0][0],
-          end - cached[0][0] + 1,
-        );
-        return [
-          {
-            data,
-            totalLength: cachedData[0].totalLength,
-          },
+  // check if start-end is contained in any of the cached ranges
+  const find = (start: number, end: number) =>
+    cache.find(([[s, e]]) => s <= start && end <= e);
+
+  return async (ranges) => {
+    // TODO: check if start-end overlaps with any of the cached ranges
+    const missing = ranges.filter(({ start, end }) => !find(start, end));
+    if (missing.length > 0) {
+      const promise = resolver(missing);
+      missing.forEach(({ start, end }, i) => {
+        const entry: (typeof cache)[0] = [
+          [start, end],
+          promise.then((res) => res[i]),
         ];
+        cache.push(entry);
+        // a range that could not be fetched is tried again
+        entry[1].catch(() => cache.splice(cache.indexOf(entry), 1));
       });
     }
 
-    // TODO: check if start-end overlaps with any of the cached ranges
-
-    const promise = resolver([{ start, end }]);
-    cache.push([[start, end], promise]);
-    return promise;
+    return Promise.all(
+      ranges.map(async ({ start, end }) => {
+        const [[s], promise] = find(start, end)!;
+        const { data, totalLength } = await promise;
+        return { data: data.slice(start - s, end - s + 1), totalLength };
+      }),
+    );
   };
 }
-- 
2.43.0


From 4f7c725ec6a73d8432df3bee9d2fcc860a0d15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 40/44] fix: single range requests took error pages and other
 ranges for the bytes asked for

---
 src/resolver/range-request.ts | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index 03e813f..8ea4dc3 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -14,16 +14,22 @@ async function resolveIndividualPromises(
         headers: { Range: `bytes=${rangeHeader}` },
       });
 
-      const totalLength = Number(
-        res.headers.get("Content-Range")!.split("/")[1],
+      if (res.status !== 206) {
+        throw new Error(`Expected 206 response, got ${res.status}`);
+      }
+      const [{ data, totalLength }] = pickRanges(
+        [{ start, end }],
+        [
+          {
+            data: await res.arrayBuffer(),
+            contentRange: res.headers.get("Content-Range")!,
+          },
+        ],
       );
       if (expectedLength && totalLength !== expectedLength) {
         throw new LengthIntegrityError();
       }
-      return {
-        data: await res.arrayBuffer(),
-        totalLength: totalLength,
-      };
+      return { data, totalLength };
     },
   );
   return await Promise.all(individualRangePromises);
-- 
2.43.0


From f6b6027fb4b23837af885942f147d03e26e794e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:57 +0000
Subject: [PATCH 41/44] fix: vector store: nodes with equal neighborhoods were
 refused as duplicates

---
 pkg/vectorpage/manager.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/vectorpage/manager.go b/pkg/vectorpage/manager.go
index 5e2541c..6db2bf4 100644
--- a/pkg/vectorpage/manager.go
+++ b/pkg/vectorpage/manager.go
@@ -53,7 +53,12 @@ func (vp *VectorPageManager) AddNode(x hnsw.Point) error {
 		return err
 	}
 
-	if err := vp.bptree.Insert(pointer.ReferencedValue{Value: xfriendsBuf}, pointer.MemoryPointer{}); err != nil {
+	// several nodes can have the same neighborhood, the id tells them apart
+	key := pointer.ReferencedValue{
+		DataPointer: pointer.MemoryPointer{Offset: uint64(xId)},
+		Value:       xfriendsBuf,
+	}
+	if err := vp.bptree.Insert(key, pointer.MemoryPointer{}); err != nil {
 		return fmt.Errorf("failed to insert buf: %v", err)
 	}
 
-- 
2.43.0


From ae5b890d194d4bf7c062e77605718b51bb3d0234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:04 +0000
Subject: [PATCH 42/44] fix: page file: offsets that are no pages of the file
 could be freed

---
 pkg/pagefile/pagefile.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 6208190..54d9f8b 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -182,6 +182,14 @@ func (pf *PageFile) FreePage(offset int64) error {
 	if offset%int64(pf.pageSize) != 0 {
 		return errors.New("offset is not a multiple of the page size")
 	}
+	n, err := pf.ReadWriteSeeker.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+	// the first page is reserved for the free page indexes
+	if offset < int64(pf.pageSize) || offset >= n {
+		return errors.New("offset is not a page of the file")
+	}
 	if pf.freePageCount == len(pf.freePageIndexes) {
 		return errors.New("free page index is full")
 	}
-- 
2.43.0


From a5f59bf8e9f0db35e2572dd5e19ac38a21433789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:25 +0000
Subject: [PATCH 43/44] fix: bptree: values longer than the width by a multiple
 of 65536 were inserted

---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 3202aec..08903fa 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -266,7 +266,7 @@ func (t *BPTree) traverse(key pointer.ReferencedValue, node *BPTreeNode, ptr poi
 func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer) error {
 
 	if t.Width != uint16(0) {
-		if uint16(len(key.Value)) != t.Width-1 {
+		if len(key.Value) != int(t.Width)-1 {
 			return fmt.Errorf("key |%v| to insert does not match with BPTree width. Expected width: %v, got: %v", string(key.Value), t.Width-1, len(key.Value))
 		}
 	}
-- 
2.43.0


From 8da17f4968b1618df9cd0d89cddce4be4d1aa632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:34 +0000
Subject: [PATCH 44/44] fix: client: a failed request made all later queries
 fail

---
 src/db/database.ts     |  8 +++++++-
 src/file/index-file.ts |  6 +++++-
 src/file/multi.ts      | 14 ++++++++++----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 4943c8b..d677104 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -96,7 +96,13 @@ export class Database<T extends Schema> {
       this.indexHeadersPromise = this.indexFile.indexHeaders();
     }
 
-    return this.indexHeadersPromise;
+    try {
+      return await this.indexHeadersPromise;
+    } catch (error) {
+      // headers that could not be fetched are tried again
+      this.indexHeadersPromise = undefined;
+      throw error;
+    }
   }
 
   async *query(query: Query<T>) {
diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 3145e24..1b5b251 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -116,8 +116,9 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       throw new Error(`failed to fetch meta pages`);
     }
 
+    const linkedMetaPages: LinkedMetaPage[] = [];
     while (true) {
-      this.linkedMetaPages.push(currMp);
+      linkedMetaPages.push(currMp);
 
       const nextMp = await currMp.next();
       if (!nextMp) {
@@ -125,6 +126,9 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       }
       currMp = nextMp;
     }
+
+    // only once all of them are there: those of a failed attempt are incomplete
+    this.linkedMetaPages = linkedMetaPages;
   }
 
   async indexHeaders(): Promise<IndexHeader[]> {
diff --git a/src/file/multi.ts b/src/file/multi.ts
index a1ab846..dcf5836 100644
--- a/src/file/multi.ts
+++ b/src/file/multi.ts
@@ -66,10 +66,16 @@ export class LinkedMetaPage {
       ]);
     }
 
-    const res = await this.metaPageDataPromise;
-    const { data } = res[0];
-
-    return data;
+    try {
+      const res = await this.metaPageDataPromise;
+      const { data } = res[0];
+
+      return data;
+    } catch (error) {
+      // a page that could not be fetched is tried again
+      this.metaPageDataPromise = undefined;
+      throw error;
+    }
   }
 
   async next() {
-- 
2.43.0

