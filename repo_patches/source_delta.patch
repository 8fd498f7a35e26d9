From d328ab1d43dddbbe31eb353304ed9a1593bfee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:33 +0000
Subject: [PATCH 01/21] fix: do not follow a transition into a leaf unit

The low byte of a stored value was taken for a label, so lookups of absent
keys could succeed or run out of range.
---
 dictionary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 3a05b8e..9bfdd3f 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -149,6 +149,10 @@ func (dict *Dictionary) Follow(label ucharType, index *baseType) bool {
 	if dictLabel(dict.units[nextIndex]) != label {
 		return false
 	}
+	// The low byte of a leaf is a part of its value, not a label.
+	if dictIsLeaf(dict.units[nextIndex]) {
+		return false
+	}
 	*index = nextIndex
 	return true
 }
-- 
2.43.0


From f9520936f74d458aa1ec23a4f89bdaec146668f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:33 +0000
Subject: [PATCH 02/21] fix: leave a finished DawgBuilder ready for the next
 key set

After Finish the hash table was left with one element, so init() was
skipped and the next Insert or Finish panicked.
---
 dawg_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dawg_builder.go b/dawg_builder.go
index 385dc93..26df3f5 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -252,7 +252,7 @@ func (db *DawgBuilder) clear() {
 	db.flagPool.clear()
 	db.unitPool = db.unitPool[:0]
 
-	db.hashTable = []baseType{0}
+	db.hashTable = []baseType{}
 	db.unfixedUnits = db.unfixedUnits[:0]
 	db.unusedUnits = db.unusedUnits[:0]
 
-- 
2.43.0


From e33ffa3d87f457fba77c2d424363820a4adc7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 03/21] fix: reject negative values on insertion

They were accepted and came back as other, non-negative values.
---
 dawg_builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 26df3f5..047a9f9 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -262,6 +262,11 @@ func (db *DawgBuilder) clear() {
 }
 
 func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value valueType) bool {
+	// Negative values cannot be stored.
+	if value < 0 {
+		return false
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0


From 0c052743018bd4ddc934be517f781c62d6803f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:35 +0000
Subject: [PATCH 04/21] fix: reject keys with zero bytes on insertion

A zero byte is taken for the end of a key inside the builder, so such keys
were accepted and damaged the dictionary.
---
 dawg_builder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 047a9f9..e71374c 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -267,6 +267,13 @@ func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value va
 		return false
 	}
 
+	// Label 0 marks the end of a key and must not be a part of it.
+	for i := 0; i < length; i++ {
+		if key[i] == 0 {
+			return false
+		}
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0


From 5f11418d5c6ead9c9052f73ae839d6baca462032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:35 +0000
Subject: [PATCH 05/21] fix: give the empty dictionary no transitions

The offset of a childless root was handed out to label the unused units, so
every label could be followed from the root.
---
 dictionary_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index b08e717..61a8474 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -73,6 +73,9 @@ func (db *DictionaryBuilder) BuildDictionary() bool {
 		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
 			return false
 		}
+	} else {
+		// The offset of the root is in use even if the root has no children.
+		db.extra(1).setIsUsed()
 	}
 
 	db.fixAllBlocks()
-- 
2.43.0


From 4d36362b9d6d13e7ded95c9343667c277cb54e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:36 +0000
Subject: [PATCH 06/21] fix: let Completer get past the empty key

The root index marked a fresh session, so a completion that ended in the root
(the empty key) was repeated forever.
---
 completer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completer.go b/completer.go
index 7099901..785b302 100644
--- a/completer.go
+++ b/completer.go
@@ -14,6 +14,7 @@ type Completer struct {
 	path       []ucharType
 	indexStack []baseType
 	lastIndex  baseType
+	hasStarted bool
 }
 
 func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
@@ -47,6 +48,7 @@ func (c *Completer) StartStringLen(index baseType, prefix string, length sizeTyp
 		c.path[i] = prefix[i]
 	}
 	c.path[length] = 0
+	c.hasStarted = false
 
 	c.indexStack = c.indexStack[:0]
 	if c.guide.size != 0 {
@@ -62,7 +64,7 @@ func (c *Completer) Next() bool {
 	}
 	var index baseType = c.indexStack[len(c.indexStack)-1]
 
-	if c.lastIndex != c.dict.Root() {
+	if c.hasStarted {
 		var childLabel ucharType = c.guide.Child(index)
 		if childLabel != 0 {
 			// Follows a transition to the first child.
@@ -96,6 +98,7 @@ func (c *Completer) Next() bool {
 	}
 
 	// Finds a terminal
+	c.hasStarted = true
 	return c.FindTerminal(index)
 }
 
-- 
2.43.0


From 31cbc291bc69f852f3b8553e00056555b7e9cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:36 +0000
Subject: [PATCH 07/21] fix: return completed keys without the trailing zero
 byte

Key() exposed the C string terminator, so its result differed from the key and
from Length().
---
 completer.go        | 4 +++-
 ranked_completer.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/completer.go b/completer.go
index 785b302..43e033d 100644
--- a/completer.go
+++ b/completer.go
@@ -1,5 +1,7 @@
 package dawg
 
+import "strings"
+
 type SomeCompleter interface {
 	Start(baseType)
 	Next() bool
@@ -29,7 +31,7 @@ func (c *Completer) Length() sizeType {
 	return len(c.path) - 1
 }
 func (c *Completer) Key() string {
-	return string(c.path)
+	return strings.TrimSuffix(string(c.path), "\x00")
 }
 func (c *Completer) Value() valueType {
 	return c.dict.Value(c.lastIndex)
diff --git a/ranked_completer.go b/ranked_completer.go
index 95c92c1..59f3e45 100644
--- a/ranked_completer.go
+++ b/ranked_completer.go
@@ -2,6 +2,7 @@ package dawg
 
 import (
 	"container/heap"
+	"strings"
 )
 
 type RankedCompleter struct {
@@ -27,7 +28,7 @@ func NewRankedCompleter(dict *Dictionary, guide *RankedGuide) *RankedCompleter {
 }
 
 func (rc *RankedCompleter) Key() string {
-	return string(rc.path)
+	return strings.TrimSuffix(string(rc.path), "\x00")
 }
 
 func (rc *RankedCompleter) Value() valueType {
-- 
2.43.0


From 936bb34a3f92624d3227a32c1be0c1a93cd71189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 08/21] fix: support the empty dictionary in the index

The guide of an empty dictionary has no units, which made BuildIndex and the
Indexer panic.
---
 index_builder.go | 3 +++
 indexer.go       | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/index_builder.go b/index_builder.go
index 752b717..bb909b8 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -24,6 +24,9 @@ func BuildIndex(dict *Dictionary, guide SomeGuide) *Index {
 
 func (ib *IndexBuilder) Build() bool {
 	ib.index.units = make([]IndexUnit, len(ib.dict.units))
+	if ib.guide.Size() == 0 {
+		return true
+	}
 	return ib.buildIndices(ib.guide.Root())
 }
 
diff --git a/indexer.go b/indexer.go
index 1fd698a..46fd628 100644
--- a/indexer.go
+++ b/indexer.go
@@ -30,6 +30,10 @@ func (idx *Indexer) IndexToString(i baseType) string {
 }
 
 func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
+	if idx.guide.Size() == 0 {
+		return NotFound
+	}
+
 	var index baseType = idx.dict.Root()
 	var result baseType = 0
 	for i := 0; i < len(bytes); i++ {
@@ -66,6 +70,10 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 }
 
 func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
+	if idx.guide.Size() == 0 {
+		return nil
+	}
+
 	var index baseType = idx.dict.Root()
 	var cur baseType = 0
 	var buf []ucharType = make([]ucharType, 0)
-- 
2.43.0


From b6d7b836e52c64508670446d13bc817da04525eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 09/21] fix: make indices work with a ranked guide

A ranked guide orders children by value and lists the terminal among them, but
the index took the terminal for the end of the children and expected labels in
ascending order: keys were missing from the count and could not be found.
---
 index_builder.go | 14 ++++++++++++--
 indexer.go       | 13 ++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/index_builder.go b/index_builder.go
index bb909b8..08e0318 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -35,7 +35,8 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 		ib.index.units[index]++
 	}
 
-	var child ucharType = ib.guide.Child(index)
+	var hasTerminal bool = ib.dict.HasValue(index)
+	var child ucharType = skipTerminal(ib.dict, ib.guide, index, ib.guide.Child(index), &hasTerminal)
 	for child != 0 {
 		var childIndex baseType = index
 		if !ib.dict.Follow(child, &childIndex) {
@@ -47,8 +48,17 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 			}
 		}
 		ib.index.units[index] += ib.index.units[childIndex]
-		child = ib.guide.Sibling(childIndex)
+		child = skipTerminal(ib.dict, ib.guide, index, ib.guide.Sibling(childIndex), &hasTerminal)
 	}
 
 	return true
 }
+
+// Skips the terminal of a given node, which a ranked guide lists among its children.
+func skipTerminal(dict *Dictionary, guide SomeGuide, index baseType, label ucharType, hasTerminal *bool) ucharType {
+	if label != 0 || !*hasTerminal {
+		return label
+	}
+	*hasTerminal = false
+	return guide.Sibling(index ^ dictOffset(dict.units[index]))
+}
diff --git a/indexer.go b/indexer.go
index 46fd628..5a9ed80 100644
--- a/indexer.go
+++ b/indexer.go
@@ -41,14 +41,16 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 			result++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
-		for childLabel < bytes[i] && childLabel != 0 {
+		// Children come in the order of the guide, which may be any order.
+		var hasTerminal bool = idx.dict.HasValue(index)
+		var childLabel ucharType = skipTerminal(idx.dict, idx.guide, index, idx.guide.Child(index), &hasTerminal)
+		for childLabel != bytes[i] && childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
 				return Failed
 			}
 			result += idx.index.ChildCount(childIndex)
-			childLabel = idx.guide.Sibling(childIndex)
+			childLabel = skipTerminal(idx.dict, idx.guide, index, idx.guide.Sibling(childIndex), &hasTerminal)
 		}
 
 		if childLabel == 0 {
@@ -85,7 +87,8 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 			cur++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
+		var hasTerminal bool = idx.dict.HasValue(index)
+		var childLabel ucharType = skipTerminal(idx.dict, idx.guide, index, idx.guide.Child(index), &hasTerminal)
 		for childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
@@ -98,7 +101,7 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 				break
 			} else {
 				cur += count
-				childLabel = idx.guide.Sibling(childIndex)
+				childLabel = skipTerminal(idx.dict, idx.guide, index, idx.guide.Sibling(childIndex), &hasTerminal)
 			}
 		}
 
-- 
2.43.0


From f8cca840c3292349dde83bff2eed662a7e6c15ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:38 +0000
Subject: [PATCH 10/21] fix: decode the first code point of a 21-bit UTF-C
 window

The single-byte form consumed one more byte, so the decoder went out of step or
out of range.
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 1952b9d..0b92749 100644
--- a/utfc.go
+++ b/utfc.go
@@ -373,7 +373,7 @@ func UtfcDecode(buf []byte) string {
 			is21Bit = false
 		} else if is21Bit {
 			hi := 0
-			if zm != marker10 {
+			if zm != marker10 && zm != marker0 {
 				hi = int(buf[i])
 				i++
 			}
-- 
2.43.0


From e2bc1f3bddfe85343a5bd67fb18bdb78462a71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:38 +0000
Subject: [PATCH 11/21] fix: return an independent slice from UtfcEncode

The result shared its memory with every later call, which overwrote it (dawgtool
compares two of them while sorting).
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 0b92749..812996d 100644
--- a/utfc.go
+++ b/utfc.go
@@ -302,7 +302,7 @@ func UtfcFollow(str string, f UtfcFollower) bool {
 func UtfcEncode(str string) []byte {
 	sharedBuffer.buf = sharedBuffer.buf[:0]
 	UtfcFollow(str, sharedBuffer)
-	return sharedBuffer.buf
+	return append([]byte{}, sharedBuffer.buf...)
 }
 
 // UtfcDecode converts UTF-C byte array to a string
-- 
2.43.0


From 1cd1a9d0a3c7825bd6304ce0515820c50de526af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:39 +0000
Subject: [PATCH 12/21] fix: keep an Index unchanged when reading it fails

---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index 49185d1..40d10b2 100644
--- a/index.go
+++ b/index.go
@@ -59,11 +59,13 @@ func (index *Index) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	index.units = make([]IndexUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &index.units)
+	var unitsBuf = make([]IndexUnit, size)
+	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
 	if err != nil {
 		return false
 	}
+
+	index.units = unitsBuf
 	return true
 }
 
-- 
2.43.0


From 3718227da9430f68159b7ef1d844d8bb254781d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:39 +0000
Subject: [PATCH 13/21] fix: reset all statistics in Dawg.Clear

---
 dawg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dawg.go b/dawg.go
index 9c0d866..75067a3 100644
--- a/dawg.go
+++ b/dawg.go
@@ -87,5 +87,7 @@ func (dawg *Dawg) Clear() {
 	dawg.labelPool = dawg.labelPool[:0]
 	dawg.flagPool.clear()
 	dawg.numOfStates = 0
+	dawg.numOfMergedTransitions = 0
 	dawg.numOfMergedStates = 0
+	dawg.numOfMergingStates = 0
 }
-- 
2.43.0


From c3524f0e2864d4fd9106cf9bb99bd60afd77a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:40 +0000
Subject: [PATCH 14/21] fix: accept any initial hash table size

A size of zero or less made the first insertion panic.
---
 dawg_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index e71374c..164ae41 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -20,6 +20,9 @@ func NewDawgBuilder() *DawgBuilder {
 	return NewDawgBuilderWithSize(defaultInitialHashTableSize)
 }
 func NewDawgBuilderWithSize(initialHashTableSize sizeType) *DawgBuilder {
+	if initialHashTableSize <= 0 {
+		initialHashTableSize = defaultInitialHashTableSize
+	}
 	return &DawgBuilder{
 		initialHashTableSize:   initialHashTableSize,
 		basePool:               []BaseUnit{},
-- 
2.43.0


From 0963b4f545593b3ee94fc93e170fb3145c84dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 15/21] fix: sort the lexicon of dawgtool by the stored keys

Lines were sorted as a whole, tab and value included, so with -u (where a tab is
not always encoded as 9) or with key bytes below 9 the sorted lexicon could be
refused as out of order.
---
 cmd/dawgtool/main.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index f07fb5d..c1f9bbb 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -30,6 +30,22 @@ var scanner *bufio.Scanner
 
 var builder *dawg.DawgBuilder
 
+// Gets the key of a lexicon line.
+func lineKey(line string) string {
+	if optTab {
+		return strings.Split(line, "\t")[0]
+	}
+	return line
+}
+
+// Converts a key to the form in which it is stored.
+func encodeKey(key string) string {
+	if optUtfc {
+		return string(dawg.UtfcEncode(key))
+	}
+	return key
+}
+
 func processLine(line string) bool {
 	if len(line) == 0 {
 		return false
@@ -80,26 +96,12 @@ func handleBuildDict() {
 			buffer = append(buffer, scanner.Text())
 		}
 		sort.SliceStable(buffer, func(i int, j int) bool {
-			if !optUtfc {
-				return buffer[i] < buffer[j]
-			}
-			bytes1 := dawg.UtfcEncode(buffer[i])
-			bytes2 := dawg.UtfcEncode(buffer[j])
-			length := len(bytes1)
-			if len(bytes2) < length {
-				length = len(bytes2)
-			}
-			for i := 0; i < length; i++ {
-				if bytes1[i] < bytes2[i] {
-					return true
-				} else if bytes1[i] > bytes2[i] {
-					return false
-				}
-			}
-			if len(bytes1) < len(bytes2) {
-				return true
+			key1 := encodeKey(lineKey(buffer[i]))
+			key2 := encodeKey(lineKey(buffer[j]))
+			if key1 != key2 {
+				return key1 < key2
 			}
-			return false
+			return buffer[i] < buffer[j]
 		})
 
 		for i := 0; i < len(buffer); i++ {
-- 
2.43.0


From 6fb67180575e4a777bf93b2d2c52fd7779272b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:39 +0000
Subject: [PATCH 16/21] fix: let dawgtool query UTF-C dictionaries

With -u keys are stored in UTF-C, but queries were looked up and results printed
as raw bytes.
---
 cmd/dawgtool/main.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index c1f9bbb..cec691b 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -46,6 +46,14 @@ func encodeKey(key string) string {
 	return key
 }
 
+// Converts a stored key back.
+func decodeKey(key string) string {
+	if optUtfc {
+		return dawg.UtfcDecode([]byte(key))
+	}
+	return key
+}
+
 func processLine(line string) bool {
 	if len(line) == 0 {
 		return false
@@ -235,6 +243,7 @@ func handleLoadDict() {
 
 		fmt.Printf("%s:", key)
 		var index uint32 = dict.Root()
+		key = encodeKey(key)
 
 		if optRanked || optGuide {
 			if optIndex {
@@ -250,7 +259,7 @@ func handleLoadDict() {
 			if dict.FollowString(key, &index) {
 				completer.Start(index)
 				for completer.Next() {
-					fmt.Printf(" %s%s = %d;", key, completer.Key(), completer.Value())
+					fmt.Printf(" %s = %d;", decodeKey(key+completer.Key()), completer.Value())
 				}
 			}
 		} else {
@@ -261,7 +270,7 @@ func handleLoadDict() {
 
 				// Reads a value
 				if dict.HasValue(index) {
-					fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
+					fmt.Printf(" %s = %d;", decodeKey(key[:i+1]), dict.Value(index))
 				}
 			}
 		}
@@ -272,7 +281,7 @@ func handleLoadDict() {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-			fmt.Printf("%d: %s\n", i, indexer.IndexToString(uint32(i)))
+			fmt.Printf("%d: %s\n", i, decodeKey(indexer.IndexToString(uint32(i))))
 		}
 	}
 }
-- 
2.43.0


From 42a5731ec3fcbf708184d1efad5362e5d51f8e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:39 +0000
Subject: [PATCH 17/21] fix: do not drop the rest of a lexicon after a long
 line

The scanner stopped at a line over 64 KB and its error was ignored, so dawgtool
silently built a dictionary without the remaining keys.
---
 cmd/dawgtool/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index cec691b..eba02fc 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"sort"
 	"strconv"
@@ -132,6 +133,10 @@ func handleBuildDict() {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		log.Fatal(err)
+	}
+
 	d := dawg.NewDawg()
 	builder.Finish(d)
 
@@ -276,6 +281,9 @@ func handleLoadDict() {
 		}
 		fmt.Println()
 	}
+	if err := scanner.Err(); err != nil {
+		log.Fatal(err)
+	}
 
 	if optIndex {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
@@ -314,6 +322,7 @@ func main() {
 	}
 	defer fileLexicon.Close()
 	scanner = bufio.NewScanner(fileLexicon)
+	scanner.Buffer(nil, math.MaxInt32)
 
 	if optBuild {
 		fileDictionary, err = os.Create(optDictionary)
-- 
2.43.0


From 2faad904fc15246f6c480d5ca7657db32630f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:40 +0000
Subject: [PATCH 18/21] fix: do not panic in dawgtool when -i is given without
 a guide

---
 cmd/dawgtool/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index eba02fc..74b45f6 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -285,7 +285,7 @@ func handleLoadDict() {
 		log.Fatal(err)
 	}
 
-	if optIndex {
+	if optIndex && guide != nil {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-- 
2.43.0


From 0e0ce327aec9e56a85700caf6a2c4f738c7c8947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:24 +0000
Subject: [PATCH 19/21] fix: empty a used guide when building it for no keys

GuideBuilder.Build left the units of an earlier dictionary in place, so
completions and indices followed transitions that do not exist.
---
 guide_builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/guide_builder.go b/guide_builder.go
index f60be21..76bb4f0 100644
--- a/guide_builder.go
+++ b/guide_builder.go
@@ -31,6 +31,7 @@ func (gb *GuideBuilder) Build() bool {
 	gb.isFixedTable = make([]ucharType, gb.dict.size/8)
 
 	if gb.dawg.Size() <= 1 {
+		gb.guide.Clear()
 		return true
 	}
 
-- 
2.43.0


From 925af657c74d3dcef99f3d68d2685c87d08229c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:26 +0000
Subject: [PATCH 20/21] fix: dawgtool -t takes values beyond 64 bits as the
 maximum or 0, too

A value that does not fit in 64 bits stopped the build instead of being
replaced by the maximum (or by 0 if negative) as other values out of range.
---
 cmd/dawgtool/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 74b45f6..3147316 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bufio"
+	"errors"
 	"flag"
 	"fmt"
 	"log"
@@ -67,8 +68,9 @@ func processLine(line string) bool {
 	if optTab {
 		parts := strings.Split(line, "\t")
 		key = parts[0]
+		// A value out of range comes back as the nearest one in range.
 		value, err := strconv.Atoi(parts[1])
-		if err != nil {
+		if err != nil && !errors.Is(err, strconv.ErrRange) {
 			log.Fatal(err)
 		}
 		if value < 0 {
-- 
2.43.0


From 66c75f073c5ec69ec9f69f385b074c6a952c9f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:31 +0000
Subject: [PATCH 21/21] fix: dawgtool refuses a value of many digits followed
 by other characters

---
 cmd/dawgtool/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 3147316..322cbf2 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -68,9 +68,9 @@ func processLine(line string) bool {
 	if optTab {
 		parts := strings.Split(line, "\t")
 		key = parts[0]
-		// A value out of range comes back as the nearest one in range.
+		// A value out of range comes back as the nearest one in range, whatever follows its digits.
 		value, err := strconv.Atoi(parts[1])
-		if err != nil && !errors.Is(err, strconv.ErrRange) {
+		if err != nil && (!errors.Is(err, strconv.ErrRange) || strings.Trim(parts[1][1:], "0123456789") != "") {
 			log.Fatal(err)
 		}
 		if value < 0 {
-- 
2.43.0

