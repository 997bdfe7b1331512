From 3947e378b826025de986aafc02c857062c1bdd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 01/64] fix: wrap around the ring when persisting the page free
 list

---
 pkg/pagefile/pagefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index dbf9ba2..1c42c4e 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -100,7 +100,7 @@ func (pf *PageFile) writeFreePageIndices() error {
 	buf := make([]byte, len(pf.freePageIndexes)*8)
 	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
 	for i := 0; i < pf.freePageCount; i++ {
-		offset := pf.freePageIndexes[tail+i]
+		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
 		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
 	}
 	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From 613ea9472ab24bbe673dc106581762dbccd87ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 02/64] fix: read back 255-byte slot metadata without
 overflowing the length

---
 pkg/linkedpage/linkedpage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index d11bfc0..a3c0d20 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -131,7 +131,7 @@ func (m *LinkedPage) Metadata() ([]byte, error) {
 		return nil, err
 	}
 	// the first byte represents the length
-	length := buf[0]
+	length := int(buf[0])
 	return buf[1 : 1+length], nil
 }
 
-- 
2.43.0


From 14e2aa7669c53f72b0c6ee86ba5b3fbba9b83511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 03/64] fix: IsEmpty reports whether there are no indexes

---
 pkg/appendable/index_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 263568b..bc7a415 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -110,7 +110,7 @@ func (i *IndexFile) IsEmpty() (bool, error) {
 	if err != nil && !errors.Is(err, io.EOF) {
 		return false, fmt.Errorf("failed to get next meta page: %w", err)
 	}
-	return n != nil, nil
+	return n == nil, nil
 }
 
 func (i *IndexFile) IndexFieldNames() ([]string, error) {
-- 
2.43.0


From d8585b0cb1980cb6f4129d49f5fd045402996cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 04/64] fix: reject truncated index metadata instead of slicing
 past its end

---
 pkg/appendable/appendable.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index 02f76d4..7ce91bf 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -160,17 +160,17 @@ func (m *IndexMeta) MarshalBinary() ([]byte, error) {
 }
 
 func (m *IndexMeta) UnmarshalBinary(buf []byte) error {
-	if len(buf) < 4 {
+	if len(buf) < 6 {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[0:]))
 	m.Width = binary.LittleEndian.Uint16(buf[2:])
 	nameLength := binary.LittleEndian.Uint16(buf[4:])
-	if len(buf) < 4+int(nameLength) {
+	if len(buf) < 6+int(nameLength) {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
-	m.FieldName = string(buf[6 : 6+nameLength])
-	tl, _ := binary.Uvarint(buf[6+nameLength:])
+	m.FieldName = string(buf[6 : 6+int(nameLength)])
+	tl, _ := binary.Uvarint(buf[6+int(nameLength):])
 	m.TotalFieldValueLength = tl
 	return nil
 }
-- 
2.43.0


From 2dd4b0395b218ea053af7cf31e01a99e4eba5212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 05/64] fix: refuse a field name that does not fit in a slot
 before creating its index

---
 pkg/appendable/index_file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index bc7a415..e4cd398 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -13,6 +13,11 @@ import (
 
 const CurrentVersion = 1
 
+// maxFieldNameLength is the longest field name whose metadata fits in the 252
+// bytes a slot has before the next slot begins, once the fixed-size fields
+// (6 bytes) and the largest possible total length (10 bytes) are accounted for.
+const maxFieldNameLength = 252 - 6 - 10
+
 type DataHandler interface {
 	bptree.DataParser
 	Synchronize(f *IndexFile, df []byte) error
@@ -170,6 +175,9 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
+	if len(name) > maxFieldNameLength {
+		return nil, nil, fmt.Errorf("field name is too long to index: %d bytes, at most %d are supported", len(name), maxFieldNameLength)
+	}
 	next, err := mp.AddNext()
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
-- 
2.43.0


From 52ea9fafa8dfafdb92313fe420fb99419bad6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 06/64] fix: report a failure to read the root pointer instead
 of treating the tree as empty

---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 51325cd..a2f1e72 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -24,7 +24,7 @@ type BPTree struct {
 func (t *BPTree) root() (*BPTreeNode, pointer.MemoryPointer, error) {
 	mp, err := t.MetaPage.Root()
 	if err != nil || mp.Length == 0 {
-		return nil, mp, nil
+		return nil, mp, err
 	}
 	root, err := t.readNode(mp)
 	if err != nil {
-- 
2.43.0


From 815711357f35644e54df314dc0dd877b8dd4d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 07/64] fix: continue into the next leaf when a seek lands past
 the end of one

---
 pkg/bptree/bptree.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index a2f1e72..9b863c1 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -111,9 +111,16 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 
 func (p *TraversalIterator) Next() bool {
 	if p.records == nil {
-		res := p.init()
-
-		return res && (p.records[0].index != p.records[0].node.NumPointers())
+		if !p.init() {
+			return false
+		}
+		if p.records[0].index < p.records[0].node.NumPointers() {
+			return true
+		}
+		// every key in the leaf is smaller than the one we are looking for, so
+		// the first candidate, if there is one, is in the next leaf.
+		p.records[0].index = p.records[0].node.NumPointers() - 1
+		return p.incr(0, 1)
 	}
 	return p.incr(0, 1)
 }
-- 
2.43.0


From 6cb9a853c85a5d9d5df1e7a8dc874316068a9186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 08/64] fix: an empty tree does not contain the empty key

---
 pkg/bptree/bptree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 9b863c1..3af5890 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -156,12 +156,15 @@ func (t *BPTree) Find(key pointer.ReferencedValue) (pointer.ReferencedValue, poi
 }
 
 func (t *BPTree) Contains(key pointer.ReferencedValue) (bool, error) {
-	k, _, err := t.Find(key)
+	p, err := t.Iter(key)
 	if err != nil {
 		return false, err
 	}
+	if !p.Next() {
+		return false, p.Err()
+	}
 
-	return bytes.Equal(k.Value, key.Value), nil
+	return bytes.Equal(p.Key().Value, key.Value), nil
 }
 
 func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
-- 
2.43.0


From fa264dd40340ac939d78965bca1936791fc9c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 09/64] fix: decode vector components from their float bits

---
 pkg/btree/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btree/node.go b/pkg/btree/node.go
index 18c6bf5..21a522e 100644
--- a/pkg/btree/node.go
+++ b/pkg/btree/node.go
@@ -141,7 +141,7 @@ func (n *BTreeNode) UnmarshalBinary(buf []byte) error {
 		vector := make(hnsw.Point, vecdim)
 
 		for vi := range vector {
-			vector[vi] = float32(binary.LittleEndian.Uint32(buf[m:]))
+			vector[vi] = math.Float32frombits(binary.LittleEndian.Uint32(buf[m:]))
 			m += 4
 		}
 
-- 
2.43.0


From ed5353ec6165f1888689c2b324ff3fab3713e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 10/64] fix: return an error for a vector of the wrong
 dimension instead of panicking

---
 pkg/btree/btree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/btree/btree.go b/pkg/btree/btree.go
index 6634536..4232eef 100644
--- a/pkg/btree/btree.go
+++ b/pkg/btree/btree.go
@@ -90,6 +90,10 @@ func (t *BTree) traverse(key pointer.ReferencedId, node *BTreeNode, ptr pointer.
 }
 
 func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
+	if uint64(len(vector)) != t.VectorDim {
+		return fmt.Errorf("vector has %d dimensions, expected %d", len(vector), t.VectorDim)
+	}
+
 	root, rootOffset, err := t.root()
 	if err != nil {
 		return fmt.Errorf("root: %w", err)
-- 
2.43.0


From 5655ac569abc2dcb3ffacae293440bab4ea1dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 11/64] fix: refuse vectors too large for a node to be split
 instead of panicking mid-insert

---
 pkg/btree/btree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/btree/btree.go b/pkg/btree/btree.go
index 4232eef..6039c74 100644
--- a/pkg/btree/btree.go
+++ b/pkg/btree/btree.go
@@ -1,6 +1,7 @@
 package btree
 
 import (
+	"encoding/binary"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/hnsw"
 	"github.com/kevmo314/appendable/pkg/metapage"
@@ -93,6 +94,10 @@ func (t *BTree) Insert(key pointer.ReferencedId, vector hnsw.Point) error {
 	if uint64(len(vector)) != t.VectorDim {
 		return fmt.Errorf("vector has %d dimensions, expected %d", len(vector), t.VectorDim)
 	}
+	// a node must be able to hold two keys and three children, or it cannot be split.
+	if minNodeSize := 4 + 2*3*binary.MaxVarintLen64 + 3*binary.MaxVarintLen64 + binary.MaxVarintLen64 + 2*4*t.VectorDim; minNodeSize > uint64(t.PageFile.PageSize()) {
+		return fmt.Errorf("vectors of %d dimensions are too large for a page", t.VectorDim)
+	}
 
 	root, rootOffset, err := t.root()
 	if err != nil {
-- 
2.43.0


From b67dbdad6b03bbd5205320482fbdd1c03dd03c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 12/64] fix: point at a JSONL value even when whitespace
 precedes its colon

---
 pkg/handlers/jsonl.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 56875f9..63e495d 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -141,7 +141,13 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 		if key, ok := key.(string); !ok {
 			return fmt.Errorf("expected string key, got '%v'", key)
 		} else {
-			fieldOffset := dec.InputOffset() + 1 // skip the :
+			fieldOffset := dec.InputOffset()
+			// skip any whitespace before the : and then the : itself
+			colon := bytes.IndexByte(r[data.Offset+uint64(fieldOffset):data.Offset+uint64(data.Length)], ':')
+			if colon == -1 {
+				return fmt.Errorf("expected ':' after object key '%v'", key)
+			}
+			fieldOffset += int64(colon) + 1
 
 			value, err := dec.Token()
 			if err != nil {
-- 
2.43.0


From df30cefc5d3916218f3a8476c59f6b5c0b674c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 13/64] fix: only build n-grams for string values of a search
 field

---
 pkg/handlers/jsonl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 63e495d..da9e5b8 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -157,7 +157,7 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 			name := strings.Join(append(path, key), ".")
 
 			fts := jsonTypeToFieldType(value)
-			if f.IsSearch(name) {
+			if _, ok := value.(string); ok && f.IsSearch(name) {
 				fts = append(fts, appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram)
 			}
 
-- 
2.43.0


From e7955d3d1ec6ec50447e6559683087404e23c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 14/64] fix: reject a bad JSONL line before indexing any of it
 and keep the progress made before it

---
 pkg/appendable/index_file.go |  8 ++--
 pkg/handlers/jsonl.go        | 78 ++++++++++++++++++++++++++++++++++--
 2 files changed, 78 insertions(+), 8 deletions(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index e4cd398..b760f14 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -13,10 +13,10 @@ import (
 
 const CurrentVersion = 1
 
-// maxFieldNameLength is the longest field name whose metadata fits in the 252
+// MaxFieldNameLength is the longest field name whose metadata fits in the 252
 // bytes a slot has before the next slot begins, once the fixed-size fields
 // (6 bytes) and the largest possible total length (10 bytes) are accounted for.
-const maxFieldNameLength = 252 - 6 - 10
+const MaxFieldNameLength = 252 - 6 - 10
 
 type DataHandler interface {
 	bptree.DataParser
@@ -175,8 +175,8 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
-	if len(name) > maxFieldNameLength {
-		return nil, nil, fmt.Errorf("field name is too long to index: %d bytes, at most %d are supported", len(name), maxFieldNameLength)
+	if len(name) > MaxFieldNameLength {
+		return nil, nil, fmt.Errorf("field name is too long to index: %d bytes, at most %d are supported", len(name), MaxFieldNameLength)
 	}
 	next, err := mp.AddNext()
 	if err != nil {
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index da9e5b8..364b3f9 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/ngram"
 	"github.com/kevmo314/appendable/pkg/pointer"
@@ -30,11 +31,29 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	syncErr := j.synchronizeLines(f, df, metadata)
+
+	// update the metadata, even if a line was rejected: the lines before it are
+	// indexed and must not be indexed again by the next synchronization.
+	if err := f.SetMetadata(metadata); err != nil {
+		return errors.Join(syncErr, fmt.Errorf("failed to set metadata: %w", err))
+	}
+
+	return syncErr
+}
+
+// synchronizeLines indexes every complete line of df that has not been indexed
+// yet, advancing metadata past each line once it is indexed.
+func (j JSONLHandler) synchronizeLines(f *appendable.IndexFile, df []byte, metadata *appendable.FileMeta) error {
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
 			break
 		}
+		// reject the line before any part of it is indexed
+		if err := validateJSONLLine(df[metadata.ReadOffset:(metadata.ReadOffset + uint64(i))]); err != nil {
+			return err
+		}
 		// create a new json decoder
 		dec := json.NewDecoder(bytes.NewReader(df[metadata.ReadOffset:(metadata.ReadOffset + uint64(i))]))
 
@@ -64,14 +83,65 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		metadata.Entries++
 	}
 
-	// update the metadata
-	if err := f.SetMetadata(metadata); err != nil {
-		return fmt.Errorf("failed to set metadata: %w", err)
-	}
+	return nil
+}
 
+// validateJSONLLine checks that line is exactly one JSON object that can be
+// indexed in full.
+func validateJSONLLine(line []byte) error {
+	dec := json.NewDecoder(bytes.NewReader(line))
+	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
+		return fmt.Errorf("expected '%U', got '%U' (only json objects are supported at the root)", '{', t)
+	}
+	if !json.Valid(line) {
+		return errors.New("failed to handle object: invalid json")
+	}
+	if err := validateJSONLObject(dec, []string{}); err != nil {
+		return fmt.Errorf("failed to handle object: %w", err)
+	}
 	return nil
 }
 
+// validateJSONLObject reads the rest of an object whose { has been read.
+func validateJSONLObject(dec *json.Decoder, path []string) error {
+	for dec.More() {
+		key, err := dec.Token()
+		if err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
+		}
+		path := append(path, fmt.Sprint(key))
+		if name := strings.Join(path, "."); len(name) > appendable.MaxFieldNameLength {
+			return fmt.Errorf("field name is too long to index: %d bytes, at most %d are supported", len(name), appendable.MaxFieldNameLength)
+		}
+		value, err := dec.Token()
+		if err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
+		}
+		switch value {
+		case json.Delim('{'):
+			if err := validateJSONLObject(dec, path); err != nil {
+				return err
+			}
+		case json.Delim('['):
+			for depth := 1; depth > 0; {
+				t, err := dec.Token()
+				if err != nil {
+					return fmt.Errorf("failed to read token: %w", err)
+				}
+				switch t {
+				case json.Delim('['):
+					depth++
+				case json.Delim(']'):
+					depth--
+				}
+			}
+		}
+	}
+	// read the }
+	_, err := dec.Token()
+	return err
+}
+
 func jsonTypeToFieldType(t json.Token) []appendable.FieldType {
 	switch t.(type) {
 	case json.Delim:
-- 
2.43.0


From 7e8e39cf43dad0c9708391d5158b3f6d8dc4e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 15/64] fix: report a data file shorter than what is indexed
 instead of slicing past its end

---
 pkg/handlers/csv.go   | 3 +++
 pkg/handlers/jsonl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 8e0b1c2..27f3a5f 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -36,6 +36,9 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("data file is %d bytes long but %d bytes are already indexed", len(df), metadata.ReadOffset)
+	}
 
 	fieldNames, err := f.IndexFieldNames()
 	if err != nil {
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 364b3f9..19c1029 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -31,6 +31,9 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("data file is %d bytes long but %d bytes are already indexed", len(df), metadata.ReadOffset)
+	}
 	syncErr := j.synchronizeLines(f, df, metadata)
 
 	// update the metadata, even if a line was rejected: the lines before it are
-- 
2.43.0


From 261b9c0319d4b0ca8709292bde0c378e1dcc6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 16/64] fix: resume a CSV file with the columns of its header
 line

---
 pkg/handlers/csv.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 27f3a5f..48425f1 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -40,11 +40,15 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("data file is %d bytes long but %d bytes are already indexed", len(df), metadata.ReadOffset)
 	}
 
-	fieldNames, err := f.IndexFieldNames()
-	if err != nil {
-		return fmt.Errorf("failed to retrieve index field names: %w", err)
+	if metadata.ReadOffset > 0 {
+		// the header line has been read before, but not every column has
+		// necessarily been indexed since, so read it again.
+		line, _, _ := bytes.Cut(df, []byte{'\n'})
+		headers, err = csv.NewReader(bytes.NewReader(line)).Read()
+		if err != nil {
+			return fmt.Errorf("failed to parse CSV header: %w", err)
+		}
 	}
-	headers = fieldNames
 
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
-- 
2.43.0


From 5c624df6a3b801dc3e839e20709fbde1819b8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 17/64] fix: count the entries of a CSV file

---
 pkg/handlers/csv.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 48425f1..9f71470 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -78,6 +78,7 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		}
 
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
+		metadata.Entries++
 	}
 
 	// update the metadata
-- 
2.43.0


From 5ca33df20c8cba9101485b7cd563410000aed5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 18/64] fix: reject a bad CSV line before indexing any of it
 and keep the progress made before it

---
 pkg/handlers/csv.go | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 9f71470..322e712 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/csv"
+	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/pointer"
 	"io"
@@ -50,6 +51,25 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		}
 	}
 
+	syncErr := c.synchronizeLines(f, df, metadata, headers)
+
+	// update the metadata, even if a line was rejected: the lines before it are
+	// indexed and must not be indexed again by the next synchronization.
+	if err := f.SetMetadata(metadata); err != nil {
+		return errors.Join(syncErr, fmt.Errorf("failed to set metadata: %w", err))
+	}
+
+	slog.Debug("indexes", slog.Any("", f.Indexes))
+	slog.Debug("Ending CSV synchronization")
+	slog.Debug("=========")
+	return syncErr
+}
+
+// synchronizeLines indexes every complete line of df that has not been indexed
+// yet, advancing metadata past each line once it is indexed.
+func (c CSVHandler) synchronizeLines(f *appendable.IndexFile, df []byte, metadata *appendable.FileMeta, headers []string) error {
+	var err error
+
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
@@ -64,6 +84,11 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 				slog.Error("failed to parse CSV header", "error", err)
 				return fmt.Errorf("failed to parse CSV header: %w", err)
 			}
+			for _, header := range headers {
+				if len(header) > appendable.MaxFieldNameLength {
+					return fmt.Errorf("field name is too long to index: %d bytes, at most %d are supported", len(header), appendable.MaxFieldNameLength)
+				}
+			}
 			metadata.ReadOffset += uint64(i) + 1
 			continue
 		}
@@ -81,14 +106,6 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		metadata.Entries++
 	}
 
-	// update the metadata
-	if err := f.SetMetadata(metadata); err != nil {
-		return fmt.Errorf("failed to set metadata: %w", err)
-	}
-
-	slog.Debug("indexes", slog.Any("", f.Indexes))
-	slog.Debug("Ending CSV synchronization")
-	slog.Debug("=========")
 	return nil
 }
 
@@ -165,14 +182,15 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("failed to read CSV record: %w", err)
 	}
 
+	// reject the line before any part of it is indexed
+	if fieldIndex := len(headers); len(record) > fieldIndex {
+		slog.Error("Field index is out of bounds with headers", "fieldIndex", fieldIndex, "headers", slog.Any("headers", headers))
+		return fmt.Errorf("field index %d is out of bounds with header", fieldIndex)
+	}
+
 	cumulativeLength := uint64(0)
 
 	for fieldIndex, fieldValue := range record {
-		if fieldIndex >= len(headers) {
-			slog.Error("Field index is out of bounds with headers", "fieldIndex", fieldIndex, "headers", slog.Any("headers", headers))
-			return fmt.Errorf("field index %d is out of bounds with header", fieldIndex)
-		}
-
 		fieldName := headers[fieldIndex]
 
 		name := strings.Join(append(path, fieldName), ".")
-- 
2.43.0


From 06605aa5ad10f0358dcdfea1e4f1eb0438243302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 19/64] fix: point at the whole of a quoted CSV field

---
 pkg/handlers/csv.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 322e712..20aea18 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -151,7 +151,21 @@ func InferCSVField(fieldValue string) (interface{}, appendable.FieldType) {
 	return fieldValue, appendable.FieldTypeString
 }
 
+// Parse returns the key for a field as it is written in the data file.
 func (c CSVHandler) Parse(value []byte) []byte {
+	if len(value) > 0 && value[0] == '"' {
+		record, err := csv.NewReader(bytes.NewReader(value)).Read()
+		if err != nil || len(record) != 1 {
+			slog.Error("failed to parse quoted field", "err", err)
+			return nil
+		}
+		return c.parseField([]byte(record[0]))
+	}
+	return c.parseField(value)
+}
+
+// parseField returns the key for a field that has been unquoted.
+func (c CSVHandler) parseField(value []byte) []byte {
 	parsed, fieldType := InferCSVField(string(value))
 
 	switch fieldType {
@@ -188,15 +202,23 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("field index %d is out of bounds with header", fieldIndex)
 	}
 
-	cumulativeLength := uint64(0)
+	line := bytes.TrimSuffix(df[data.Offset:data.Offset+uint64(data.Length)], []byte{'\r'})
 
 	for fieldIndex, fieldValue := range record {
 		fieldName := headers[fieldIndex]
 
 		name := strings.Join(append(path, fieldName), ".")
 
-		fieldOffset := data.Offset + cumulativeLength
-		fieldLength := uint32(len(fieldValue))
+		// the field is everything up to the comma before the next field, which
+		// is longer than its value if it is quoted.
+		_, start := dec.FieldPos(fieldIndex)
+		end := len(line) + 2
+		if fieldIndex+1 < len(record) {
+			_, end = dec.FieldPos(fieldIndex + 1)
+		}
+
+		fieldOffset := data.Offset + uint64(start-1)
+		fieldLength := uint32(end - 1 - start)
 
 		_, fieldType := InferCSVField(fieldValue)
 		page, _, err := f.FindOrCreateIndex(name, fieldType)
@@ -210,11 +232,9 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 			Length: fieldLength,
 		}
 
-		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil {
+		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.parseField([]byte(fieldValue)), DataPointer: mp}, data); err != nil {
 			return fmt.Errorf("failed to insert into b+tree: %w", err)
 		}
-
-		cumulativeLength += uint64(fieldLength + 1)
 	}
 
 	return nil
-- 
2.43.0


From 4547c017828ae4bec1142c232c52b0be9289d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 20/64] fix: check the offset of positional reads and writes of
 a mapped file

---
 pkg/mmap/mmap.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 3c0d219..9c97010 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -114,6 +114,12 @@ func (m *MemoryMappedFile) Read(b []byte) (int, error) {
 
 // ReadAt reads len(b) bytes from the file starting at byte offset off.
 func (m *MemoryMappedFile) ReadAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative offset")
+	}
+	if off > int64(len(m.bytes)) {
+		return 0, io.EOF
+	}
 	n := copy(b, m.bytes[off:])
 	if n < len(b) {
 		return n, io.EOF
@@ -133,6 +139,9 @@ func (m *MemoryMappedFile) Write(b []byte) (int, error) {
 
 // WriteAt writes len(b) bytes to the file starting at byte offset off.
 func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative offset")
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From ca080bb7df1bcae0b273c377057611e92f1384ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 21/64] fix: return an error for a write to a read-only mapping
 instead of faulting

---
 pkg/mmap/mmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 9c97010..8c4e855 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -142,6 +142,9 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 	if off < 0 {
 		return 0, fmt.Errorf("mmap: negative offset")
 	}
+	if m.prot&unix.PROT_WRITE == 0 {
+		return 0, fmt.Errorf("mmap: file is not open for writing")
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From fdc2a5c6839f5cdb1ed50f3ce3682f0b1bc8d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 22/64] fix: restore the heap order whichever way an updated
 distance moves

---
 pkg/hnsw/heap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 5dcff52..aada660 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -216,9 +216,9 @@ func (d *DistHeap) Insert(id Id, dist float32) {
 }
 
 func (d *DistHeap) Fix(i int) {
-	if !d.down(i, d.Len()) {
-		d.up(i)
-	}
+	// if the item moves up, the item that takes its place may have to move down.
+	d.up(i)
+	d.down(i, d.Len())
 }
 
 func (d DistHeap) IsEmpty() bool      { return len(d.items) == 0 }
-- 
2.43.0


From 7b7c01f8eb006649715464b87c4e1e89b32ba547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 23/64] fix: do not share items between a heap and its clone

---
 pkg/hnsw/heap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index aada660..c0d08dc 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -134,7 +134,10 @@ func (d *DistHeap) Clone() *DistHeap {
 		visited: make(map[Id]int, len(d.visited)),
 	}
 
-	copy(n.items, d.items)
+	for i, item := range d.items {
+		c := *item
+		n.items[i] = &c
+	}
 	maps.Copy(n.visited, d.visited)
 
 	return n
-- 
2.43.0


From e147b945adb2a63df61f146f4c55ac997ca645c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 24/64] fix: keep the highest level a friend was inserted at

---
 pkg/hnsw/friends.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/friends.go b/pkg/hnsw/friends.go
index 3d0cb75..653253c 100644
--- a/pkg/hnsw/friends.go
+++ b/pkg/hnsw/friends.go
@@ -54,7 +54,9 @@ func (v *Friends) InsertFriendsAtLevel(level int, friendId Id, dist float32) {
 		v.friends[i].Insert(friendId, dist)
 	}
 
-	v.maxLevels[friendId] = level
+	if maxLevel, ok := v.maxLevels[friendId]; !ok || level > maxLevel {
+		v.maxLevels[friendId] = level
+	}
 }
 
 func (v *Friends) GetFriendsAtLevel(level int) (*DistHeap, error) {
-- 
2.43.0


From d6defe4354b6f6724b2b9ff28ecda3a1561b339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 25/64] fix: reject a search vector of the wrong dimension

---
 pkg/hnsw/hnsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index ff9cf6b..6a160c2 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -260,6 +260,10 @@ func (h *Hnsw) isValidPoint(point Point) bool {
 }
 
 func (h *Hnsw) KnnSearch(q Point, numNeighborsToReturn int) (*DistHeap, error) {
+	if !h.isValidPoint(q) {
+		return nil, fmt.Errorf("invalid vector dimensionality")
+	}
+
 	entryPoint := h.points[h.entryPointId]
 
 	entryPointFriends, ok := h.friends[h.entryPointId]
-- 
2.43.0


From 949a070570abc70c9c79768e5ed3e3b5a73f6a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 26/64] fix: store the neighbourhoods of two vectors apart even
 when they are equal

---
 pkg/vectorpage/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vectorpage/manager.go b/pkg/vectorpage/manager.go
index 5e2541c..0a7a1d4 100644
--- a/pkg/vectorpage/manager.go
+++ b/pkg/vectorpage/manager.go
@@ -53,7 +53,7 @@ func (vp *VectorPageManager) AddNode(x hnsw.Point) error {
 		return err
 	}
 
-	if err := vp.bptree.Insert(pointer.ReferencedValue{Value: xfriendsBuf}, pointer.MemoryPointer{}); err != nil {
+	if err := vp.bptree.Insert(pointer.ReferencedValue{Value: xfriendsBuf, DataPointer: pointer.MemoryPointer{Offset: uint64(xId)}}, pointer.MemoryPointer{}); err != nil {
 		return fmt.Errorf("failed to insert buf: %v", err)
 	}
 
-- 
2.43.0


From 67b640c9ed548154b27c9120a640208bfaffe477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 27/64] fix: continue into the next leaf when a client seek
 lands past the end of one

---
 src/bptree/traversal.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index f7a5a2e..436ce7c 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -75,11 +75,18 @@ export class TraversalIterator {
 
   async next(): Promise<boolean> {
     if (this.records.length === 0) {
-      const res = await this.init();
+      if (!(await this.init())) {
+        return false;
+      }
 
-      return (
-        res && this.records[0].index !== this.records[0].node.numPointers()
-      );
+      const n = this.records[0].node.numPointers();
+      if (this.records[0].index < n) {
+        return true;
+      }
+
+      // the key is past the end of its leaf, so the next one is the first of
+      // the following leaf, if there is one.
+      this.records[0].index = n - 1;
     }
 
     return this.increment(0, 1);
-- 
2.43.0


From 373ccf86885a47826f474a1fd61163c8c78ab0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 28/64] fix: take the first and last key of a tree whose root
 is a leaf from the root

---
 src/bptree/bptree.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 71bd6bc..33db1a9 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -105,7 +105,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(rootNode.pointer(0));
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(0);
@@ -121,9 +121,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(
-      rootNode.pointer(rootNode.numPointers() - 1),
-    );
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(currNode.numPointers() - 1);
-- 
2.43.0


From bad163db760719cc401f8a4bde576fb0edb1d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 29/64] fix: include the last entry, and only matching ones, in
 descending > and >= queries

---
 src/db/database.ts | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 07592fc..725ecaf 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -241,14 +241,17 @@ export class Database<T extends Schema> {
               yield handleSelect(data, query.select);
             }
           } else {
-            const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            const { value: lastValue } = await btree.last();
+            // seek past the last entry, the first step back lands on it
+            const iter = btree.iter(
+              new ReferencedValue({ offset: maxUint64, length: 0 }, lastValue),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
 
               if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) < 0
+                ReferencedValue.compareBytes(currentKey.value, valueBuf) <= 0
               ) {
                 break;
               }
@@ -286,8 +289,11 @@ export class Database<T extends Schema> {
               yield handleSelect(data, query.select);
             }
           } else {
-            const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            const { value: lastValue } = await btree.last();
+            // seek past the last entry, the first step back lands on it
+            const iter = btree.iter(
+              new ReferencedValue({ offset: maxUint64, length: 0 }, lastValue),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
-- 
2.43.0


From fd773f478ad1d5ee20a27363356c14dd00f01979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 30/64] fix: stop a query at its limit

---
 src/db/database.ts | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/db/database.ts b/src/db/database.ts
index 725ecaf..65723b3 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -100,6 +100,20 @@ export class Database<T extends Schema> {
   }
 
   async *query(query: Query<T>) {
+    let remaining = query.limit ?? Infinity;
+    if (!(remaining > 0)) {
+      return;
+    }
+
+    for await (const result of this.results(query)) {
+      yield result;
+      if (--remaining <= 0) {
+        return;
+      }
+    }
+  }
+
+  private async *results(query: Query<T>) {
     if (new Set((query.where ?? []).map((where) => where.key)).size > 1) {
       throw new Error("composite indexes not supported... yet");
     }
-- 
2.43.0


From 773ef6c41e490c4cc569a6a40bb04e7148c52a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 31/64] fix: return the records that satisfy every where
 clause, once each

---
 src/db/database.ts | 76 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 65723b3..8332132 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -76,6 +76,41 @@ export function fieldTypeToString(f: FieldType): string {
   return str;
 }
 
+/** whereFilter tests an indexed value against every one of the clauses. */
+function whereFilter<T extends Schema>(
+  clauses: WhereNode<T>[],
+  fieldType: FieldType,
+): (key: ReferencedValue) => boolean {
+  const tests = clauses.map(({ value, operation }) => {
+    const res = processWhere(value);
+    if (res === null) {
+      throw new Error(`unable to process key with a type ${typeof value}`);
+    }
+
+    return (key: ReferencedValue) => {
+      if (res.fieldType !== fieldType) {
+        return false;
+      }
+
+      const order = ReferencedValue.compareBytes(key.value, res.valueBuf);
+      switch (operation) {
+        case "<":
+          return order < 0;
+        case "<=":
+          return order <= 0;
+        case "==":
+          return order === 0;
+        case ">=":
+          return order >= 0;
+        case ">":
+          return order > 0;
+      }
+    };
+  });
+
+  return (key) => tests.every((test) => test(key));
+}
+
 export class Database<T extends Schema> {
   private indexHeadersPromise?: Promise<IndexHeader[]>;
 
@@ -203,7 +238,9 @@ export class Database<T extends Schema> {
     }
 
     if (query.where) {
-      for (const { key, value, operation } of query.where ?? []) {
+      // the first clause is answered from the index, the others filter it.
+      const [first, ...rest] = query.where;
+      for (const { key, value, operation } of first ? [first] : []) {
         const header = headers.find((header) => header.fieldName === key);
         if (!header) {
           throw new Error("field not found");
@@ -214,6 +251,7 @@ export class Database<T extends Schema> {
           throw new Error(`unable to process key with a type ${typeof value}`);
         }
         const { fieldType, valueBuf } = res;
+        const matchesRest = whereFilter(rest, fieldType);
 
         const mps = await this.indexFile.seek(key as string, fieldType);
         const mp = mps[0];
@@ -245,6 +283,10 @@ export class Database<T extends Schema> {
             const iter = btree.iter(valueRef);
 
             while (await iter.next()) {
+              if (!matchesRest(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -270,6 +312,10 @@ export class Database<T extends Schema> {
                 break;
               }
 
+              if (!matchesRest(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -288,6 +334,10 @@ export class Database<T extends Schema> {
             const iter = btree.iter(valueRef);
 
             while (await iter.next()) {
+              if (!matchesRest(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -318,6 +368,10 @@ export class Database<T extends Schema> {
                 break;
               }
 
+              if (!matchesRest(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -344,6 +398,10 @@ export class Database<T extends Schema> {
               break;
             }
 
+            if (!matchesRest(iter.getKey())) {
+              continue;
+            }
+
             const mp = iter.getPointer();
 
             if (mp === null) {
@@ -365,6 +423,10 @@ export class Database<T extends Schema> {
             );
             const iter = btree.iter(valueRef);
             while (await iter.prev()) {
+              if (!matchesRest(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -387,6 +449,10 @@ export class Database<T extends Schema> {
                 break;
               }
 
+              if (!matchesRest(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -405,6 +471,10 @@ export class Database<T extends Schema> {
             );
             const iter = btree.iter(valueRef);
             while (await iter.prev()) {
+              if (!matchesRest(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
@@ -427,6 +497,10 @@ export class Database<T extends Schema> {
                 break;
               }
 
+              if (!matchesRest(iter.getKey())) {
+                continue;
+              }
+
               const mp = iter.getPointer();
 
               const data = await this.dataFile.get(
-- 
2.43.0


From 5e8dffd2874464ce1142c2d656ffdcf103803963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 32/64] fix: score each record of a search once, over the
 tokens it contains

---
 src/bptree/bptree.ts | 16 +++++++++-------
 src/db/database.ts   |  8 +++++++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 33db1a9..1aeac05 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -27,10 +27,6 @@ export class BPTree {
   // insight attributes below
 
   private readonly entries: number;
-  private readonly tfMap: Map<DataPointer, number> = new Map<
-    DataPointer,
-    number
-  >();
 
   constructor(
     tree: RangeResolver,
@@ -174,6 +170,10 @@ export class BPTree {
   public async termFrequency(key: ReferencedValue) {
     const p = await this.iter(key);
 
+    // records are told apart by value, every occurrence has its own pointer.
+    const records = new Map<string, DataPointer>();
+    const tfMap = new Map<DataPointer, number>();
+
     while (await p.next()) {
       const currentKey = p.getKey();
 
@@ -182,15 +182,17 @@ export class BPTree {
       }
       const mp = p.getPointer();
 
-      const dp: DataPointer = {
+      const id = `${mp.offset}+${mp.length}`;
+      const dp = records.get(id) ?? {
         start: Number(mp.offset),
         end: Number(mp.offset) + mp.length - 1,
       };
 
-      this.tfMap.set(dp, (this.tfMap.get(dp) ?? 0) + 1);
+      records.set(id, dp);
+      tfMap.set(dp, (tfMap.get(dp) ?? 0) + 1);
     }
 
-    return this.tfMap;
+    return tfMap;
   }
 }
 
diff --git a/src/db/database.ts b/src/db/database.ts
index 8332132..f760036 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -170,6 +170,8 @@ export class Database<T extends Schema> {
       const likeToks = NgramTokenizer.shuffle(tok.tokens(like));
 
       const table = new PriorityTable<DataPointer>();
+      // the pointer each record is scored under, whichever token it matches
+      const records = new Map<string, DataPointer>();
       const metaPageCache = new Map<FieldType, LinkedMetaPage>();
 
       const btreeMap = new Map<FieldType, BPTree>();
@@ -226,7 +228,11 @@ export class Database<T extends Schema> {
           const den = tf + K1;
           const score = idf * (num / den);
 
-          table.insert(key, score);
+          const id = `${key.start}-${key.end}`;
+          const record = records.get(id) ?? key;
+          records.set(id, record);
+
+          table.insert(record, score);
         }
       }
 
-- 
2.43.0


From ab322d548258154564a44bbed2a02d93a32e652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 33/64] fix: encode and decode varints of more than 31 bits

---
 src/util/uvarint.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/uvarint.ts b/src/util/uvarint.ts
index 5dbbaa7..5c55535 100644
--- a/src/util/uvarint.ts
+++ b/src/util/uvarint.ts
@@ -11,8 +11,9 @@ export function encodeUvarint(n: number): ArrayBuffer {
   let ibuf = new Uint8Array(MAX_VARINT_64);
 
   while (n >= 0x80) {
-    ibuf[i++] = (n & 0xff) | 0x80;
-    n >>= 7;
+    // not with bitwise operators, they truncate to 32 bits.
+    ibuf[i++] = (n % 0x80) | 0x80;
+    n = Math.floor(n / 0x80);
   }
 
   ibuf[i] = n & 0xff;
@@ -38,11 +39,11 @@ export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
         return { value: 0, bytesRead: -(idx + 1) };
       }
 
-      let value = x | (b << s);
+      let value = x + b * 2 ** s;
       return { value, bytesRead: idx + 1 };
     }
 
-    x |= (b & 0x7f) << s;
+    x += (b & 0x7f) * 2 ** s;
     s += 7;
   }
 
-- 
2.43.0


From 1418f50753393ea69ba860696f1277253dc2ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 34/64] fix: tokenize a search the way the indexed text was

---
 src/ngram/tokenizer.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ngram/tokenizer.ts b/src/ngram/tokenizer.ts
index b8eaf37..cf66526 100644
--- a/src/ngram/tokenizer.ts
+++ b/src/ngram/tokenizer.ts
@@ -29,7 +29,12 @@ export class NgramTokenizer {
     let wordOffsets: number[][] = [];
     let currentWordOffsets: number[] = [];
 
-    Array.from(phrase).forEach((c, idx) => {
+    // the same characters the index was built from: decomposed, ASCII only.
+    const chars = Array.from(phrase.normalize("NFKD")).filter((c) =>
+      /[\x00-\x7f]/.test(c),
+    );
+
+    chars.forEach((c, idx) => {
       if (/[a-zA-Z0-9]/.test(c)) {
         currentWordOffsets.push(idx);
       } else if (/\s/.test(c)) {
@@ -56,7 +61,7 @@ export class NgramTokenizer {
           let str = "";
 
           for (let jdx = idx; jdx <= idx + N - 1; jdx++) {
-            str += phrase[word[jdx]];
+            str += chars[word[jdx]];
           }
 
           let value = str.toLowerCase();
-- 
2.43.0


From 65945eb6a6ba2516c55d70238a8ac91b3e0c5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 35/64] fix: stop reading a multipart body once its stream has
 ended

---
 src/resolver/multipart.ts | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index eb1edd9..4d9172b 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -1,6 +1,5 @@
 function getReader(stream: ReadableStream) {
   let residual: Uint8Array | null = null;
-  let readDone = false;
   let reader: ReadableStreamDefaultReader<Uint8Array> = stream.getReader();
   return async (
     buf: Uint8Array,
@@ -16,16 +15,15 @@ function getReader(stream: ReadableStream) {
           if (residual.length === 0) {
             residual = null;
           }
-          return {
-            done: readDone && residual === null,
-            value: buf.subarray(0, n),
-          };
+          return { done: false, value: buf.subarray(0, n) };
         }
         const result = await reader.read();
-        if (result.value) {
+        if (result.done) {
+          return { done: true, value: undefined };
+        }
+        if (result.value.length > 0) {
           residual = result.value;
         }
-        readDone ||= result.done;
       }
     }
   };
-- 
2.43.0


From 65c41864fdc24dd8032b214172af680876e3c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 36/64] fix: report a multipart body that ends before its
 closing delimiter

---
 src/resolver/multipart.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 4d9172b..452541e 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -87,7 +87,7 @@ export default async function* parseMultipartBody(
     for (let i = 0; i < boundary.length; i++) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       if (buf[ptr] !== boundary.charCodeAt(i)) {
@@ -102,7 +102,7 @@ export default async function* parseMultipartBody(
     for (const c of ["\r", "\n"]) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       if (buf[ptr] === c.charCodeAt(0)) {
@@ -123,7 +123,7 @@ export default async function* parseMultipartBody(
     while (true) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       const byte = buf[ptr];
@@ -167,7 +167,7 @@ export default async function* parseMultipartBody(
     for (let i = 0; i < contentLength; i++) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       data[i] = buf[ptr];
@@ -181,7 +181,7 @@ export default async function* parseMultipartBody(
     for (const c of ["\r", "\n"]) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       if (buf[ptr] === c.charCodeAt(0)) {
-- 
2.43.0


From 54a6ada5cfb1d5b3a7d4c733deec76e371b014ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 37/64] fix: read multipart part headers whatever their case
 and boundaries that are quoted

---
 src/resolver/multipart.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 452541e..9615093 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -54,7 +54,8 @@ export default async function* parseMultipartBody(
   const boundaryToken = tokens
     .map((s) => s.trim())
     .find((s) => s.startsWith("boundary="))
-    ?.split("=", 2)?.[1];
+    ?.slice("boundary=".length)
+    .replace(/^"(.*)"$/, "$1");
   if (!boundaryToken) {
     throw new Error("No boundary found");
   }
@@ -141,7 +142,8 @@ export default async function* parseMultipartBody(
             throw new Error(`Invalid header: ${decoded}`);
           }
           const [key, value] = tokens;
-          headers[key.trim()] = value.trim();
+          // header names are case-insensitive
+          headers[key.trim().toLowerCase()] = value.trim();
           header.length = 0;
         }
       } else {
@@ -152,12 +154,12 @@ export default async function* parseMultipartBody(
 
     // read body
     // read the Content-Range header
-    if (!headers["Content-Range"]) {
+    if (!headers["content-range"]) {
       // TODO: read until the next boundary
       throw new Error("Missing Content-Range header");
     }
     const [unit, start, end] = parseContentRangeHeader(
-      headers["Content-Range"],
+      headers["content-range"],
     );
     if (unit !== "bytes") {
       throw new Error("Invalid Content-Range header");
-- 
2.43.0


From c9ea070e7cb97d2ee60a78f980fc9fdc80134c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 38/64] fix: accept the line break servers send before the
 first multipart delimiter

---
 src/resolver/multipart.ts | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 9615093..7cb43d2 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -83,6 +83,21 @@ export default async function* parseMultipartBody(
     return false;
   };
 
+  // skip the line break that may precede the first delimiter
+  for (const c of ["\r", "\n"]) {
+    while (length === 0) {
+      if (await extend()) {
+        throw new Error("Unexpected end of multipart body");
+      }
+    }
+
+    if (buf[ptr] !== c.charCodeAt(0)) {
+      break;
+    }
+    ptr = (ptr + 1) % buf.length;
+    length--;
+  }
+
   while (true) {
     // read boundary
     for (let i = 0; i < boundary.length; i++) {
-- 
2.43.0


From 9fe146deab7b730c2f2f3cc24981a2f885e4d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 39/64] fix: request ranges of a single byte

---
 src/file/data-file.ts         | 2 +-
 src/resolver/range-request.ts | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/file/data-file.ts b/src/file/data-file.ts
index 76177d0..668cdef 100644
--- a/src/file/data-file.ts
+++ b/src/file/data-file.ts
@@ -26,7 +26,7 @@ export class DataFile {
   }
 
   async get(start: number, end: number) {
-    if (end <= start) {
+    if (end < start) {
       throw new Error(`Invalid range for start: ${start} and end: ${end}`);
     }
 
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index a471ca2..3b9528b 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -40,9 +40,10 @@ export async function requestRanges(
   }
 
   for (const { start, end } of ranges) {
-    if (end - start <= 0) {
+    // the end is inclusive, so a range that starts where it ends is one byte
+    if (end < start) {
       throw new Error(
-        `Invalid range: The start (${start}) and end (${end}) of a range are equal, indicating a zero-length range.`,
+        `Invalid range: The end (${end}) of a range is before its start (${start}), indicating a zero-length range.`,
       );
     }
   }
-- 
2.43.0


From f18a0176855e6ae9e3838349c8f5043025d4ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 40/64] fix: do not take an error response for the contents of
 a range

---
 src/resolver/range-request.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index 3b9528b..b44bc70 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -14,6 +14,9 @@ async function resolveIndividualPromises(
         headers: { Range: `bytes=${rangeHeader}` },
       });
 
+      if (res.status !== 206) {
+        throw new Error(`Expected 206 response, got ${res.status}`);
+      }
       const totalLength = Number(
         res.headers.get("Content-Range")!.split("/")[1],
       );
-- 
2.43.0


From 9d01774ac223229f9c90b200cf0fb52d746d7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 41/64] fix: match the parts of a range response to the ranges
 requested

---
 src/resolver/range-request.ts | 85 +++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index b44bc70..239553c 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -2,13 +2,54 @@ import { Config } from "../index";
 import parseMultipartBody from "./multipart";
 import { LengthIntegrityError } from "./resolver";
 
+type Part = { start: number; data: ArrayBuffer; totalLength: number };
+
+function toPart(contentRange: string, data: ArrayBuffer): Part {
+  // bytes start-end/total
+  const [range, total] = contentRange.split(" ")[1].split("/");
+  return {
+    start: Number(range.split("-")[0]),
+    data,
+    totalLength: Number(total),
+  };
+}
+
+/**
+ * extractRange returns the bytes of a requested range, cut off at the end of
+ * the file. A server may send the parts in another order or coalesced.
+ */
+function extractRange(
+  {
+    start,
+    end,
+    expectedLength,
+  }: { start: number; end: number; expectedLength?: number },
+  parts: Part[],
+): { data: ArrayBuffer; totalLength: number } {
+  for (const { start: partStart, data, totalLength } of parts) {
+    const length = Math.min(end + 1, totalLength || Infinity) - start;
+    const offset = start - partStart;
+    if (offset < 0 || length <= 0 || offset + length > data.byteLength) {
+      continue;
+    }
+    if (expectedLength && totalLength !== expectedLength) {
+      throw new LengthIntegrityError();
+    }
+
+    return { data: data.slice(offset, offset + length), totalLength };
+  }
+
+  throw new Error(`The response does not contain the range ${start}-${end}`);
+}
+
 async function resolveIndividualPromises(
   url: string,
   ranges: { start: number; end: number; expectedLength?: number }[],
 ) {
   // fallback to resolving ranges individually
   const individualRangePromises = ranges.map(
-    async ({ start, end, expectedLength }) => {
+    async (range) => {
+      const { start, end } = range;
       const rangeHeader = `${start}-${end}`;
       const res = await fetch(url, {
         headers: { Range: `bytes=${rangeHeader}` },
@@ -17,16 +58,12 @@ async function resolveIndividualPromises(
       if (res.status !== 206) {
         throw new Error(`Expected 206 response, got ${res.status}`);
       }
-      const totalLength = Number(
-        res.headers.get("Content-Range")!.split("/")[1],
+      const part = toPart(
+        res.headers.get("Content-Range")!,
+        await res.arrayBuffer(),
       );
-      if (expectedLength && totalLength !== expectedLength) {
-        throw new LengthIntegrityError();
-      }
-      return {
-        data: await res.arrayBuffer(),
-        totalLength: totalLength,
-      };
+
+      return extractRange(range, [part]);
     },
   );
   return await Promise.all(individualRangePromises);
@@ -87,28 +124,18 @@ export async function requestRanges(
           chunks.push(chunk);
         }
 
-        // the last element is null since the final boundary marker is followed by another delim.
-        if (chunks[chunks.length - 1].data === undefined) {
-          chunks.pop();
-        }
-
-        return chunks.map(({ data, headers }) => {
-          const totalLengthStr = headers["content-range"]?.split("/")[1];
-          const totalLength = totalLengthStr ? parseInt(totalLengthStr, 10) : 0;
+        const parts = chunks.map(({ data, headers }) =>
+          toPart(headers["content-range"], data),
+        );
 
-          return { data, totalLength };
-        });
+        return ranges.map((range) => extractRange(range, parts));
       } else if (response.headers.has("Content-Range")) {
-        const abuf = await response.arrayBuffer();
-        const totalLength = Number(
-          response.headers.get("Content-Range")!.split("/")[1],
+        const part = toPart(
+          response.headers.get("Content-Range")!,
+          await response.arrayBuffer(),
         );
-        return [
-          {
-            data: abuf,
-            totalLength: totalLength,
-          },
-        ];
+
+        return ranges.map((range) => extractRange(range, [part]));
       } else {
         throw new Error(`Unexpected response format: ${contentType}`);
       }
-- 
2.43.0


From 4b274703c59c99ebc01f25ef25c8213e79707fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 42/64] fix: serve every requested range from the cache, to its
 last byte

---
 src/resolver/cache.ts | 49 +++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/resolver/cache.ts b/src/resolver/cache.ts
index 6615163..2cdf3f1 100644
--- a/src/resolver/cache.ts
+++ b/src/resolver/cache.ts
@@ -1,35 +1,38 @@
 import { RangeResolver } from "./resolver";
 
 export function cache(resolver: RangeResolver): RangeResolver {
-  const cache: [
-    [number, number],
-    Promise<{ data: ArrayBuffer; totalLength: number }[]>,
-  ][] = [];
+  type Resolved = { data: ArrayBuffer; totalLength: number };
+  const cache: [[number, number], Promise<Resolved>][] = [];
 
-  return async ([{ start, end }]): Promise<
-    { data: ArrayBuffer; totalLength: number }[]
-  > => {
+  return async (ranges): Promise<Resolved[]> => {
     // check if start-end is contained in any of the cached ranges
-    const cached = cache.find(([[s, e]]) => s <= start && end <= e);
-    if (cached) {
-      return cached[1].then((cachedData) => {
-        const data = cachedData[0].data.slice(
-          start - cached[0][0],
-          end - cached[0][0],
-        );
-        return [
-          {
-            data,
-            totalLength: cachedData[0].totalLength,
-          },
+    const find = (start: number, end: number) =>
+      cache.find(([[s, e]]) => s <= start && end <= e);
+
+    // TODO: check if start-end overlaps with any of the cached ranges
+    const missing = ranges.filter(({ start, end }) => !find(start, end));
+    if (missing.length > 0) {
+      const promise = resolver(missing);
+
+      missing.forEach(({ start, end }, i) => {
+        const entry: (typeof cache)[number] = [
+          [start, end],
+          promise.then((resolved) => resolved[i]),
         ];
+        // a failure is not cached, the next request tries again
+        entry[1].catch(() => cache.splice(cache.indexOf(entry), 1));
+        cache.push(entry);
       });
     }
 
-    // TODO: check if start-end overlaps with any of the cached ranges
+    return Promise.all(
+      ranges.map(async ({ start, end }) => {
+        const [[s], resolved] = find(start, end)!;
+        const { data, totalLength } = await resolved;
 
-    const promise = resolver([{ start, end }]);
-    cache.push([[start, end], promise]);
-    return promise;
+        // the range is inclusive
+        return { data: data.slice(start - s, end - s + 1), totalLength };
+      }),
+    );
   };
 }
-- 
2.43.0


From 33aea0bf2a97f17c76afa88c68f93452bf7095e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 43/64] fix: do not remember a failed read of the index headers

---
 src/db/database.ts     | 9 ++++++++-
 src/file/index-file.ts | 6 +++++-
 src/file/multi.ts      | 9 ++++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index f760036..970b7d4 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -128,7 +128,14 @@ export class Database<T extends Schema> {
 
   async fields() {
     if (!this.indexHeadersPromise) {
-      this.indexHeadersPromise = this.indexFile.indexHeaders();
+      const promise = this.indexFile.indexHeaders();
+      this.indexHeadersPromise = promise;
+      // do not hold on to a failure, the next call tries again
+      promise.catch(() => {
+        if (this.indexHeadersPromise === promise) {
+          this.indexHeadersPromise = undefined;
+        }
+      });
     }
 
     return this.indexHeadersPromise;
diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 3145e24..db8a6eb 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -116,8 +116,10 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       throw new Error(`failed to fetch meta pages`);
     }
 
+    // only kept once they have all been read
+    const linkedMetaPages: LinkedMetaPage[] = [];
     while (true) {
-      this.linkedMetaPages.push(currMp);
+      linkedMetaPages.push(currMp);
 
       const nextMp = await currMp.next();
       if (!nextMp) {
@@ -125,6 +127,8 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       }
       currMp = nextMp;
     }
+
+    this.linkedMetaPages = linkedMetaPages;
   }
 
   async indexHeaders(): Promise<IndexHeader[]> {
diff --git a/src/file/multi.ts b/src/file/multi.ts
index a1ab846..82b9d45 100644
--- a/src/file/multi.ts
+++ b/src/file/multi.ts
@@ -66,7 +66,14 @@ export class LinkedMetaPage {
       ]);
     }
 
-    const res = await this.metaPageDataPromise;
+    const promise = this.metaPageDataPromise;
+    const res = await promise.catch((error) => {
+      // do not hold on to a failure, the next read tries again
+      if (this.metaPageDataPromise === promise) {
+        this.metaPageDataPromise = undefined;
+      }
+      throw error;
+    });
     const { data } = res[0];
 
     return data;
-- 
2.43.0


From 02e07298df261c3cf80d59d66aecc5a58af97f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 44/64] fix: write the converted JSON next to its input, never
 over it

---
 scripts/jsonl2json/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/jsonl2json/src/main.rs b/scripts/jsonl2json/src/main.rs
index 1d3a5d1..7bc97ba 100644
--- a/scripts/jsonl2json/src/main.rs
+++ b/scripts/jsonl2json/src/main.rs
@@ -25,7 +25,9 @@ fn main() -> Result<()>{
         array.push(json);
     }
 
-    let output_path = file_path.replace(".jsonl", ".json").to_owned();
+    // only the extension, and never the input itself
+    let stem = file_path.strip_suffix(".jsonl").unwrap_or(&file_path);
+    let output_path = format!("{}.json", stem);
     let json_string = serde_json::to_string_pretty(&array)
         .with_context(|| "Failed to serialize JSON data")?;
 
-- 
2.43.0


From 119545e75bcc2cfec06b33ee9b2f9e0dd7bc1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 45/64] fix: find nothing in a tree that nothing was inserted
 into

---
 src/bptree/bptree.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 1aeac05..9f14b7d 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -21,7 +21,7 @@ export class BPTree {
   private readonly pageFieldType: FieldType;
   private readonly pageFieldWidth: number;
 
-  private rootNodeCache: Promise<BPTreeNode> | null = null;
+  private rootNodeCache: Promise<BPTreeNode | null> | null = null;
   private rootPointerCache: Promise<MemoryPointer> | null = null;
 
   // insight attributes below
@@ -49,8 +49,9 @@ export class BPTree {
   async root(): Promise<RootResponse> {
     if (!this.rootNodeCache || !this.rootPointerCache) {
       this.rootPointerCache = this.meta.root();
+      // a tree nothing was inserted into has no root node
       this.rootNodeCache = this.rootPointerCache.then((ptr) =>
-        this.readNode(ptr),
+        ptr.length === 0 ? null : this.readNode(ptr),
       );
     }
 
-- 
2.43.0


From 0bd60083ae6402de1cd9213f5d136e2ed2b50a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 46/64] fix: report the bytes written, not the size of the
 mapping, after growing it

---
 pkg/mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 8c4e855..22958ee 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -162,11 +162,11 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 			}
 			return len(b), nil
 		}
-		b, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
+		remapped, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
 		if err != nil {
 			return 0, fmt.Errorf("mmap: %v", err)
 		}
-		m.bytes = b
+		m.bytes = remapped
 		return len(b), nil
 	}
 	// write the data
-- 
2.43.0


From 0b7194ee59689483f7f1df7771a97e131ad4a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 47/64] fix: reject metadata whose count is cut off instead of
 reading it as zero

---
 pkg/appendable/appendable.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index 7ce91bf..ab1bb7f 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -134,7 +134,10 @@ func (m *FileMeta) UnmarshalBinary(buf []byte) error {
 
 	m.ReadOffset = binary.LittleEndian.Uint64(buf[2:])
 
-	e, _ := binary.Uvarint(buf[10:])
+	e, n := binary.Uvarint(buf[10:])
+	if n <= 0 {
+		return fmt.Errorf("invalid metadata size: %d", len(buf))
+	}
 	m.Entries = e
 
 	return nil
@@ -170,7 +173,10 @@ func (m *IndexMeta) UnmarshalBinary(buf []byte) error {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldName = string(buf[6 : 6+int(nameLength)])
-	tl, _ := binary.Uvarint(buf[6+int(nameLength):])
+	tl, n := binary.Uvarint(buf[6+int(nameLength):])
+	if n <= 0 {
+		return fmt.Errorf("invalid metadata size: %d", len(buf))
+	}
 	m.TotalFieldValueLength = tl
 	return nil
 }
-- 
2.43.0


From 43d04b37cfaccb57457cfe55b2cf1c58478bcc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 48/64] fix: shuffle tokens with a generator of its own so that
 the order depends on them alone

---
 pkg/ngram/tokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ngram/tokenizer.go b/pkg/ngram/tokenizer.go
index a1546a9..20355a4 100644
--- a/pkg/ngram/tokenizer.go
+++ b/pkg/ngram/tokenizer.go
@@ -63,9 +63,9 @@ func Shuffle(tokens []Token) []Token {
 	copy(soup, tokens)
 
 	seed := combineHashes(tokens)
-	rand.Seed(seed)
+	rng := rand.New(rand.NewSource(seed))
 	for i := len(tokens) - 1; i > 0; i-- {
-		j := rand.Intn(i + 1)
+		j := rng.Intn(i + 1)
 		soup[i], soup[j] = soup[j], soup[i]
 	}
 
-- 
2.43.0


From f398f26a267c8c20118d207b28fd82375c3af069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 49/64] fix: select only the record's own fields, whatever
 their names

---
 src/db/query-lang.ts | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/db/query-lang.ts b/src/db/query-lang.ts
index b06b077..1d6a70c 100644
--- a/src/db/query-lang.ts
+++ b/src/db/query-lang.ts
@@ -79,15 +79,12 @@ export function processWhere<T>(value: T[keyof T]): QueryWhere | null {
 export function handleSelect<T>(data: string, select?: (keyof T)[]) {
   let jData = JSON.parse(data);
   if (select && select.length > 0) {
-    return select.reduce(
-      (acc, field) => {
-        if (field in jData) {
-          acc[field] = jData[field];
-        }
-        return acc;
-      },
-      {} as Pick<T, keyof T>,
-    );
+    // only what the record itself has, not what every object inherits
+    return Object.fromEntries(
+      select
+        .filter((field) => Object.prototype.hasOwnProperty.call(jData, field))
+        .map((field) => [field, jData[field]]),
+    ) as Pick<T, keyof T>;
   }
 
   return jData;
-- 
2.43.0


From ebda209b3e8272ad21715456d9013f90df627a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 50/64] fix: keep part header values that contain a colon whole

---
 src/resolver/multipart.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 7cb43d2..f411cd8 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -152,11 +152,13 @@ export default async function* parseMultipartBody(
           break;
         } else {
           const decoded = new TextDecoder().decode(new Uint8Array(header));
-          const tokens = decoded.split(":", 2);
-          if (tokens.length !== 2) {
+          // only the first colon separates, a value may have more
+          const colon = decoded.indexOf(":");
+          if (colon === -1) {
             throw new Error(`Invalid header: ${decoded}`);
           }
-          const [key, value] = tokens;
+          const key = decoded.slice(0, colon);
+          const value = decoded.slice(colon + 1);
           // header names are case-insensitive
           headers[key.trim().toLowerCase()] = value.trim();
           header.length = 0;
-- 
2.43.0


From 161e53d49263d3b5eed0d4e000825954de09c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 51/64] fix: reject a Content-Range without positions instead
 of taking it for empty data

---
 src/resolver/multipart.ts     |  6 +++++-
 src/resolver/range-request.ts | 11 +++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index f411cd8..0a86e30 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -29,7 +29,7 @@ function getReader(stream: ReadableStream) {
   };
 }
 
-function parseContentRangeHeader(
+export function parseContentRangeHeader(
   header: string,
 ): [string, number, number, number] {
   // parse bytes a-b/c
@@ -38,6 +38,10 @@ function parseContentRangeHeader(
     throw new Error("Invalid Content-Range header");
   }
   const [range, total] = tokens[1].split("/");
+  // anything else, such as an unsatisfied range, has no position to put data at
+  if (!/^\d+-\d+$/.test(range)) {
+    throw new Error("Invalid Content-Range header");
+  }
   const [start, end] = range.split("-");
   return [tokens[0], Number(start), Number(end), Number(total)];
 }
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index 239553c..3de8d2c 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -1,17 +1,12 @@
 import { Config } from "../index";
-import parseMultipartBody from "./multipart";
+import parseMultipartBody, { parseContentRangeHeader } from "./multipart";
 import { LengthIntegrityError } from "./resolver";
 
 type Part = { start: number; data: ArrayBuffer; totalLength: number };
 
 function toPart(contentRange: string, data: ArrayBuffer): Part {
-  // bytes start-end/total
-  const [range, total] = contentRange.split(" ")[1].split("/");
-  return {
-    start: Number(range.split("-")[0]),
-    data,
-    totalLength: Number(total),
-  };
+  const [, start, , totalLength] = parseContentRangeHeader(contentRange);
+  return { start, data, totalLength };
 }
 
 /**
-- 
2.43.0


From 30214c724870bb4fce85ca8805cf1c89fe75bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 52/64] fix: count the first page of a new index file

---
 pkg/linkedpage/linkedpage.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index a3c0d20..5b76e6a 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -255,15 +255,19 @@ func (m *LinkedPage) AddNext() (*LinkedPage, error) {
 	}
 }
 
+// emptyPage returns a full page of zeros with no next pointer and count slots.
+func emptyPage(size int, count uint8) []byte {
+	buf := make([]byte, size)
+	binary.LittleEndian.PutUint64(buf[0:pointerBytes], ^uint64(0))
+	buf[8] = count
+	return buf
+}
+
 func (m *LinkedPage) reset(count uint8) error {
-	// write a full page of zeros
-	emptyPage := make([]byte, m.rws.PageSize())
-	binary.LittleEndian.PutUint64(emptyPage[0:pointerBytes], ^uint64(0))
-	emptyPage[8] = count
 	if _, err := m.rws.Seek(int64(m.offset), io.SeekStart); err != nil {
 		return err
 	}
-	if _, err := m.rws.Write(emptyPage); err != nil {
+	if _, err := m.rws.Write(emptyPage(m.rws.PageSize(), count)); err != nil {
 		return err
 	}
 	return nil
@@ -314,10 +318,15 @@ func NewMultiBPTree(t pagefile.ReadWriteSeekPager, page int) (*LinkedPage, error
 	}
 	if _, err := t.Read(make([]byte, t.PageSize())); err != nil {
 		if err == io.EOF {
-			// the page doesn't exist, so we need to create it
-			if err := lmp.reset(0); err != nil {
+			// the page doesn't exist, so we need to create it. allocate it from
+			// the page file, which counts its pages.
+			created, err := t.NewPage(emptyPage(t.PageSize(), 0))
+			if err != nil {
 				return nil, err
 			}
+			if created != offset {
+				return nil, fmt.Errorf("expected the first page at %d, got %d", offset, created)
+			}
 		} else {
 			return nil, err
 		}
-- 
2.43.0


From 7e48ecd9bb6a748296d63a818be4247a96224ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 53/64] fix: a new vector is not its own neighbor

---
 pkg/hnsw/hnsw.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index 6a160c2..2ee17f9 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"math/rand"
+	"slices"
 )
 
 type Id = uint
@@ -204,6 +205,10 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 
 	entryItem := h.findCloserEntryPoint(&q, qFriends)
 
+	// find the neighbors on every level before linking any: a link also shows on
+	// the levels below it, where q would be found as a neighbor of its own.
+	neighborsAtLevel := make([][]*Item, min(topLevel, qTopLevel)+1)
+
 	for level := min(topLevel, qTopLevel); level >= 0; level-- {
 		nnToQAtLevel, err := h.searchLevel(&q, entryItem, h.efConstruction, level)
 
@@ -216,6 +221,19 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 			return 0, fmt.Errorf("failed to select for nearest neighbors to Q at level %v: %w", level, err)
 		}
 
+		neighborsAtLevel[level] = slices.Clone(neighbors)
+
+		newEntryItem, err := nnToQAtLevel.PopMinItem()
+		if err != nil {
+			return 0, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", level, err)
+		}
+
+		entryItem = newEntryItem
+	}
+
+	for level := min(topLevel, qTopLevel); level >= 0; level-- {
+		neighbors := neighborsAtLevel[level]
+
 		// add bidirectional connections from neighbors to q at layer c
 		for _, neighbor := range neighbors {
 			neighborPoint := h.points[neighbor.id]
@@ -239,13 +257,6 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 
 			h.friends[neighbor.id].friends[level] = neighborFriendsAtLevel
 		}
-
-		newEntryItem, err := nnToQAtLevel.PopMinItem()
-		if err != nil {
-			return 0, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", level, err)
-		}
-
-		entryItem = newEntryItem
 	}
 
 	if qTopLevel > topLevel {
-- 
2.43.0


From 3b95934240f8f3e5ac33237aaacc66cefb3baf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 54/64] fix: refuse data and metadata that are cut short

---
 src/file/data-file.ts | 6 ++++++
 src/file/multi.ts     | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/file/data-file.ts b/src/file/data-file.ts
index 668cdef..3414036 100644
--- a/src/file/data-file.ts
+++ b/src/file/data-file.ts
@@ -31,6 +31,12 @@ export class DataFile {
     }
 
     const res = await this.resolver([{ start, end }]);
+    // both ends of the range are included
+    if (res[0].data.byteLength !== end - start + 1) {
+      throw new Error(
+        `The data file has ${res[0].data.byteLength} of the bytes ${start}-${end}`,
+      );
+    }
     return new TextDecoder().decode(res[0].data);
   }
 }
diff --git a/src/file/multi.ts b/src/file/multi.ts
index 82b9d45..1321200 100644
--- a/src/file/multi.ts
+++ b/src/file/multi.ts
@@ -53,6 +53,11 @@ export class LinkedMetaPage {
     const metadataView = new DataView(metadata);
     // we need to seek past the root pointer
     const metadataLength = metadataView.getUint8(0);
+    if (metadata.byteLength < 1 + metadataLength) {
+      throw new Error(
+        `failed to properly fetch metadata. Got ${metadata.byteLength - 1} of ${metadataLength} bytes`,
+      );
+    }
     return metadataView.buffer.slice(1, 1 + metadataLength);
   }
 
-- 
2.43.0


From 8b442b4fd04538639d2540a708d1132ec2055999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 55/64] fix: refuse index pages that are cut short

---
 src/bptree/node.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bptree/node.ts b/src/bptree/node.ts
index 13a4a3c..b3b31f4 100644
--- a/src/bptree/node.ts
+++ b/src/bptree/node.ts
@@ -255,6 +255,11 @@ export class BPTreeNode {
       },
     ]);
     const { data: bufferData } = res[0];
+    if (bufferData.byteLength < pageSizeBytes) {
+      throw new Error(
+        `node at ${mp.offset} has ${bufferData.byteLength} of ${pageSizeBytes} bytes`,
+      );
+    }
     const node = new BPTreeNode(
       [],
       [],
-- 
2.43.0


From 3f677ddf736ac209ce1c0055776a53cfc284671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:45 +0000
Subject: [PATCH 56/64] fix: an index without fields is read as having none

---
 src/file/index-file.ts | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index db8a6eb..7f05c7c 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -71,15 +71,12 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
 
   async seek(header: string, fieldType: FieldType): Promise<LinkedMetaPage[]> {
     const tree = await this.tree();
+    // an index without fields has no meta pages
     let currMp = await tree.next();
 
-    if (!currMp) {
-      throw new Error(`failed to fetch meta pages`);
-    }
-
     let headerMps = [];
 
-    while (true) {
+    while (currMp) {
       const indexMeta = readIndexMeta(await currMp.metadata());
       if (indexMeta.fieldName === header) {
         if (fieldType === FieldType.Float64) {
@@ -98,11 +95,7 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
         }
       }
 
-      const nextMp = await currMp.next();
-      if (!nextMp) {
-        break;
-      }
-      currMp = nextMp;
+      currMp = await currMp.next();
     }
 
     return headerMps;
@@ -110,22 +103,14 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
 
   async fetchMetaPages(): Promise<void> {
     const tree = await this.tree();
+    // an index without fields has no meta pages
     let currMp = await tree.next();
 
-    if (!currMp) {
-      throw new Error(`failed to fetch meta pages`);
-    }
-
     // only kept once they have all been read
     const linkedMetaPages: LinkedMetaPage[] = [];
-    while (true) {
+    while (currMp) {
       linkedMetaPages.push(currMp);
-
-      const nextMp = await currMp.next();
-      if (!nextMp) {
-        break;
-      }
-      currMp = nextMp;
+      currMp = await currMp.next();
     }
 
     this.linkedMetaPages = linkedMetaPages;
-- 
2.43.0


From 7db85881016f8db8e42a0d06e488ebb6f777e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 57/64] fix: a byte order mark is part of a field name

---
 src/file/meta.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/meta.ts b/src/file/meta.ts
index 333f786..57a60f4 100644
--- a/src/file/meta.ts
+++ b/src/file/meta.ts
@@ -67,7 +67,9 @@ export function readIndexMeta(buffer: ArrayBuffer): IndexMeta {
   }
 
   const fieldNameBuffer = buffer.slice(6, 6 + nameLength);
-  const fieldName = new TextDecoder("utf-8").decode(fieldNameBuffer);
+  const fieldName = new TextDecoder("utf-8", {
+    ignoreBOM: true,
+  }).decode(fieldNameBuffer);
 
   const { value: totalFieldValueLength } = decodeUvarint(
     buffer.slice(6 + nameLength),
-- 
2.43.0


From 8d2a0bad2d9be75ea4269b4e77172045cf3b559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 58/64] fix: gram lengths of a search have to be whole numbers

---
 src/db/query-validation.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db/query-validation.ts b/src/db/query-validation.ts
index 0781d35..2bfc09e 100644
--- a/src/db/query-validation.ts
+++ b/src/db/query-validation.ts
@@ -169,6 +169,12 @@ export function validateSearch<T extends Schema>(
     );
   }
 
+  if (!Number.isInteger(minGram) || !Number.isInteger(maxGram)) {
+    throw new Error(
+      `Invalid gram length configuration. ${config.minGram} and ${config.maxGram} must be whole numbers.`,
+    );
+  }
+
   if (maxGram > 3 || minGram > 3) {
     throw new Error(
       `Invalid gram length configuration. ${config.minGram} and ${config.maxGram} cannot be greater than 3.`,
-- 
2.43.0


From b13d116d02a2b37ff366185a9714bdb4dd8c2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:01 +0000
Subject: [PATCH 59/64] fix: opening a file of less than a page as an index
 does not append to it

---
 pkg/pagefile/pagefile.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 1c42c4e..78f2fb5 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -40,13 +40,21 @@ const pageSizeBytes = 4096 // 4kB by default.
 const slotSizeBytes = 256
 
 func NewPageFile(rws io.ReadWriteSeeker) (*PageFile, error) {
+	// check the size before writing anything: a file of another size is not a page file.
+	size, err := rws.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, err
+	}
+	if size%pageSizeBytes != 0 {
+		return nil, errors.New("file size is not a multiple of the page size")
+	}
 	// check if the rws is empty. if it is, allocate one page for the free page indexes
 	// if it is not, read the free page indexes from the last page
 	if _, err := rws.Seek(0, io.SeekStart); err != nil {
 		return nil, err
 	}
 	buf := make([]byte, pageSizeBytes)
-	_, err := rws.Read(buf)
+	_, err = rws.Read(buf)
 	if err != nil && err != io.EOF {
 		return nil, err
 	}
-- 
2.43.0


From f12c7bdeb560750e29846267a3525da62251e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:03 +0000
Subject: [PATCH 60/64] fix: a file whose free page list holds other than page
 offsets is no page file

---
 pkg/pagefile/pagefile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 78f2fb5..6c39f5f 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -72,6 +72,9 @@ func NewPageFile(rws io.ReadWriteSeeker) (*PageFile, error) {
 		for i := 0; i < len(pf.freePageIndexes); i++ {
 			offset := int64(binary.LittleEndian.Uint64(buf[i*8 : (i+1)*8]))
 			if offset != 0 {
+				if offset < 0 || offset%int64(pf.pageSize) != 0 {
+					return nil, errors.New("free page indexes are not page offsets")
+				}
 				pf.freePageIndexes[pf.freePageHead] = offset
 				pf.freePageHead = (pf.freePageHead + 1) % len(pf.freePageIndexes)
 				pf.freePageCount++
-- 
2.43.0


From 6a10dd31f47a55653488e74677c5a65f27e1885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:04 +0000
Subject: [PATCH 61/64] fix: the data file is refused as its own index

---
 cmd/main.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 3cf4838..90950cf 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -105,6 +105,20 @@ func main() {
 	}
 	defer mmpif.Close()
 
+	// the index would be written over the data
+	dfi, err := df.File().Stat()
+	if err != nil {
+		panic(err)
+	}
+	ifi, err := mmpif.File().Stat()
+	if err != nil {
+		panic(err)
+	}
+	if os.SameFile(dfi, ifi) {
+		logger.Error("The index file and the data file are the same file.")
+		os.Exit(1)
+	}
+
 	// Open the index file
 	i, err := appendable.NewIndexFile(mmpif, dataHandler, searchHeaders)
 	if err != nil {
-- 
2.43.0


From 795c7209e575f68b8f7d1e58f4484cd2a8a825e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:07 +0000
Subject: [PATCH 62/64] fix: a write at an offset no file reaches is refused

---
 pkg/mmap/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 22958ee..9b1453c 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -4,6 +4,7 @@ package mmap
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"golang.org/x/sys/unix"
@@ -145,6 +146,9 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 	if m.prot&unix.PROT_WRITE == 0 {
 		return 0, fmt.Errorf("mmap: file is not open for writing")
 	}
+	if off > math.MaxInt64-int64(len(b)) {
+		return 0, fmt.Errorf("mmap: offset too large")
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From 8d58ccef1f38be95c1bef66f69a00a59ddd82244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:07 +0000
Subject: [PATCH 63/64] fix: only pages of the file can be freed

---
 pkg/pagefile/pagefile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 6c39f5f..abd70b4 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -193,6 +193,10 @@ func (pf *PageFile) FreePage(offset int64) error {
 	if offset%int64(pf.pageSize) != 0 {
 		return errors.New("offset is not a multiple of the page size")
 	}
+	// the first page holds the free page indexes
+	if offset <= 0 || offset/int64(pf.pageSize) >= pf.lastPage {
+		return errors.New("offset is not that of a page of the file")
+	}
 	if pf.freePageCount == len(pf.freePageIndexes) {
 		return errors.New("free page index is full")
 	}
-- 
2.43.0


From f6707ca71e913cc08e2a1c4de780af79259d12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:07 +0000
Subject: [PATCH 64/64] fix: a key whose length wraps to the index's width is
 refused

---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 3af5890..2daeda5 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -262,7 +262,7 @@ func (t *BPTree) traverse(key pointer.ReferencedValue, node *BPTreeNode, ptr poi
 func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer) error {
 
 	if t.Width != uint16(0) {
-		if uint16(len(key.Value)) != t.Width-1 {
+		if len(key.Value) != int(t.Width-1) {
 			return fmt.Errorf("key |%v| to insert does not match with BPTree width. Expected width: %v, got: %v", string(key.Value), t.Width-1, len(key.Value))
 		}
 	}
-- 
2.43.0

