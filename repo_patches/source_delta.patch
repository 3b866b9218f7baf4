From 8ec90e9aaa0086e9763d45a21f11bd4821967063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:05 +0000
Subject: [PATCH 1/9] fix: keep the leaf flag in a unit's label, so that a
 value is never followed as a transition

dictLabel truncated the label to 8 bits, dropping the leaf flag: Follow could
step onto a unit that holds a value whenever the low byte of the value equals
the label, e.g. ContainsString("apple\x00") was true after inserting
("apple", 256).
---
 dictionary.go      | 2 +-
 dictionary_unit.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 3a05b8e..e68ec7e 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -146,7 +146,7 @@ func (dict *Dictionary) FindStringLenValue(key string, length sizeType, value *v
 // Follows a transition.
 func (dict *Dictionary) Follow(label ucharType, index *baseType) bool {
 	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
-	if dictLabel(dict.units[nextIndex]) != label {
+	if dictLabel(dict.units[nextIndex]) != baseType(label) {
 		return false
 	}
 	*index = nextIndex
diff --git a/dictionary_unit.go b/dictionary_unit.go
index 5cbdf12..b8d5990 100644
--- a/dictionary_unit.go
+++ b/dictionary_unit.go
@@ -50,8 +50,8 @@ func dictValue(base DictionaryUnit) valueType {
 }
 
 // Reads a label with a leaf flag from a non-leaf unit.
-func dictLabel(base DictionaryUnit) ucharType {
-	return ucharType(base & (isLeafBit | 0xff))
+func dictLabel(base DictionaryUnit) baseType {
+	return base & (isLeafBit | 0xff)
 }
 
 // Reads an offset to child units from a non-leaf unit.
-- 
2.43.0


From e9581027f01fe0a9f74d8721bc8f7d8ee1ed543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:05 +0000
Subject: [PATCH 2/9] fix: let a DawgBuilder be used again after Finish

clear left a hash table of length 1, so the next insertion skipped init and
panicked on the empty unit pool.
---
 dawg_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dawg_builder.go b/dawg_builder.go
index 385dc93..26df3f5 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -252,7 +252,7 @@ func (db *DawgBuilder) clear() {
 	db.flagPool.clear()
 	db.unitPool = db.unitPool[:0]
 
-	db.hashTable = []baseType{0}
+	db.hashTable = []baseType{}
 	db.unfixedUnits = db.unfixedUnits[:0]
 	db.unusedUnits = db.unusedUnits[:0]
 
-- 
2.43.0


From 58ed8d2c7d826b17f3c41e9e1b56a3d2d62bf279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:05 +0000
Subject: [PATCH 3/9] fix: return a fresh slice from UtfcEncode

The returned slice aliased the shared buffer, so a later call overwrote the
result of an earlier one (dawgtool -s -u compared a key with itself).
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 1952b9d..9b84ab4 100644
--- a/utfc.go
+++ b/utfc.go
@@ -302,7 +302,7 @@ func UtfcFollow(str string, f UtfcFollower) bool {
 func UtfcEncode(str string) []byte {
 	sharedBuffer.buf = sharedBuffer.buf[:0]
 	UtfcFollow(str, sharedBuffer)
-	return sharedBuffer.buf
+	return append([]byte(nil), sharedBuffer.buf...)
 }
 
 // UtfcDecode converts UTF-C byte array to a string
-- 
2.43.0


From 9b9eabb92cb1e45f497bb57310c62e8db27fc42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:05 +0000
Subject: [PATCH 4/9] fix: decode the zero marker of two zero bytes in 21-bit
 mode

The encoder writes a single marker0 when both bytes of a code point of the
current 21-bit alphabet are zero; the decoder consumed one byte too many (or
panicked at the end), e.g. for "\U00022CD8\U00022600".
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 9b84ab4..ab581af 100644
--- a/utfc.go
+++ b/utfc.go
@@ -373,7 +373,7 @@ func UtfcDecode(buf []byte) string {
 			is21Bit = false
 		} else if is21Bit {
 			hi := 0
-			if zm != marker10 {
+			if zm != marker10 && zm != marker0 {
 				hi = int(buf[i])
 				i++
 			}
-- 
2.43.0


From 30cb1531bda6de15c9cb116038a5e6f8cd21f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:05 +0000
Subject: [PATCH 5/9] fix: do not append a NUL byte to completed keys

Key() included the C string terminator of the original library, so a completed
key was never equal to the inserted one.
---
 completer.go        | 2 +-
 ranked_completer.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/completer.go b/completer.go
index 7099901..2cb76df 100644
--- a/completer.go
+++ b/completer.go
@@ -28,7 +28,7 @@ func (c *Completer) Length() sizeType {
 	return len(c.path) - 1
 }
 func (c *Completer) Key() string {
-	return string(c.path)
+	return string(c.path[:len(c.path)-1])
 }
 func (c *Completer) Value() valueType {
 	return c.dict.Value(c.lastIndex)
diff --git a/ranked_completer.go b/ranked_completer.go
index 95c92c1..ba6ef87 100644
--- a/ranked_completer.go
+++ b/ranked_completer.go
@@ -35,7 +35,7 @@ func (rc *RankedCompleter) Value() valueType {
 }
 
 func (rc *RankedCompleter) Length() sizeType {
-	return len(rc.path) - 1
+	return len(rc.path)
 }
 
 func (rc *RankedCompleter) Start(index baseType) {
@@ -99,7 +99,6 @@ func (rc *RankedCompleter) Next() bool {
 		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
 	}
 	reverseUCharSlice(rc.path[rc.prefixLength:])
-	rc.path = append(rc.path, 0)
 
 	rc.value = candidate.value
 	heap.Pop(&rc.candidateQueue)
-- 
2.43.0


From 44f6a184daaba4a255dd86ee5c7c86dad6d75969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:30 +0000
Subject: [PATCH 6/9] fix: advance past the empty key when completing from the
 root

Next used lastIndex == Root() to mean that nothing has been returned yet; when
the dictionary holds the empty key, the root is also its terminal, and Next
returned it forever.
---
 completer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completer.go b/completer.go
index 2cb76df..91295a1 100644
--- a/completer.go
+++ b/completer.go
@@ -14,6 +14,7 @@ type Completer struct {
 	path       []ucharType
 	indexStack []baseType
 	lastIndex  baseType
+	isStarted  bool
 }
 
 func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
@@ -52,6 +53,7 @@ func (c *Completer) StartStringLen(index baseType, prefix string, length sizeTyp
 	if c.guide.size != 0 {
 		c.indexStack = append(c.indexStack, index)
 		c.lastIndex = c.dict.Root()
+		c.isStarted = false
 	}
 }
 
@@ -62,7 +64,7 @@ func (c *Completer) Next() bool {
 	}
 	var index baseType = c.indexStack[len(c.indexStack)-1]
 
-	if c.lastIndex != c.dict.Root() {
+	if c.isStarted {
 		var childLabel ucharType = c.guide.Child(index)
 		if childLabel != 0 {
 			// Follows a transition to the first child.
@@ -125,5 +127,6 @@ func (c *Completer) FindTerminal(index baseType) bool {
 	}
 
 	c.lastIndex = index
+	c.isStarted = true
 	return true
 }
-- 
2.43.0


From 09a20d5bad8244aa668a3d3133144b2d63393986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:30 +0000
Subject: [PATCH 7/9] fix: do not follow transitions in an empty dictionary

The root of an empty dictionary keeps offset 1, but the labels of the unused
units were derived from that same offset, so every Follow from the root
succeeded.
---
 dictionary_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index b08e717..a407e72 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -73,6 +73,9 @@ func (db *DictionaryBuilder) BuildDictionary() bool {
 		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
 			return false
 		}
+	} else {
+		// The root keeps its initial offset, no unused unit may match it.
+		db.extra(1).setIsUsed()
 	}
 
 	db.fixAllBlocks()
-- 
2.43.0


From 5ed3075a48fb3918312cf09c9ad477aea5cb9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:30 +0000
Subject: [PATCH 8/9] fix: index an empty dictionary

The guide of an empty dictionary has no units; BuildIndex and the lookups of
Indexer panicked on it.
---
 index_builder.go | 3 +++
 indexer.go       | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/index_builder.go b/index_builder.go
index 752b717..bb909b8 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -24,6 +24,9 @@ func BuildIndex(dict *Dictionary, guide SomeGuide) *Index {
 
 func (ib *IndexBuilder) Build() bool {
 	ib.index.units = make([]IndexUnit, len(ib.dict.units))
+	if ib.guide.Size() == 0 {
+		return true
+	}
 	return ib.buildIndices(ib.guide.Root())
 }
 
diff --git a/indexer.go b/indexer.go
index 1fd698a..7f11f66 100644
--- a/indexer.go
+++ b/indexer.go
@@ -30,6 +30,9 @@ func (idx *Indexer) IndexToString(i baseType) string {
 }
 
 func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
+	if idx.guide.Size() == 0 {
+		return NotFound
+	}
 	var index baseType = idx.dict.Root()
 	var result baseType = 0
 	for i := 0; i < len(bytes); i++ {
@@ -66,6 +69,9 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 }
 
 func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
+	if idx.guide.Size() == 0 {
+		return nil
+	}
 	var index baseType = idx.dict.Root()
 	var cur baseType = 0
 	var buf []ucharType = make([]ucharType, 0)
-- 
2.43.0


From e11b3497998dc8ba3d2e5783ff3cab85646c2f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:30 +0000
Subject: [PATCH 9/9] fix: reject keys with zero bytes and negative values

The format can not represent them: they were accepted, but ("\x00", 5) was
then found as ("", 1), and ("a", -1) as ("a", 2147483647).
---
 dawg_builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 26df3f5..787d8a2 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -262,6 +262,16 @@ func (db *DawgBuilder) clear() {
 }
 
 func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value valueType) bool {
+	// A zero byte ends a key and a value has 31 bits, others can not be stored.
+	if value < 0 {
+		return false
+	}
+	for i := 0; i < length; i++ {
+		if key[i] == 0 {
+			return false
+		}
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0

