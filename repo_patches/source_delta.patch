From 752eaab276948fdabb2ce26abd2b95ac6559e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:05 +0000
Subject: [PATCH 01/15] fix: do not take a leaf unit for a transition in
 Dictionary.Follow

dictLabel dropped the leaf flag, so a leaf whose value ends in the byte that
was followed passed for a node of the trie.
---
 dictionary.go      | 2 +-
 dictionary_unit.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 3a05b8e..e68ec7e 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -146,7 +146,7 @@ func (dict *Dictionary) FindStringLenValue(key string, length sizeType, value *v
 // Follows a transition.
 func (dict *Dictionary) Follow(label ucharType, index *baseType) bool {
 	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
-	if dictLabel(dict.units[nextIndex]) != label {
+	if dictLabel(dict.units[nextIndex]) != baseType(label) {
 		return false
 	}
 	*index = nextIndex
diff --git a/dictionary_unit.go b/dictionary_unit.go
index 5cbdf12..b8d5990 100644
--- a/dictionary_unit.go
+++ b/dictionary_unit.go
@@ -50,8 +50,8 @@ func dictValue(base DictionaryUnit) valueType {
 }
 
 // Reads a label with a leaf flag from a non-leaf unit.
-func dictLabel(base DictionaryUnit) ucharType {
-	return ucharType(base & (isLeafBit | 0xff))
+func dictLabel(base DictionaryUnit) baseType {
+	return base & (isLeafBit | 0xff)
 }
 
 // Reads an offset to child units from a non-leaf unit.
-- 
2.43.0


From 1d02bbf2df11250b77eee5cce5099ce6608eacd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:23 +0000
Subject: [PATCH 02/15] fix: an empty dictionary follows no transition

---
 dictionary_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index b08e717..8d91c68 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -73,6 +73,9 @@ func (db *DictionaryBuilder) BuildDictionary() bool {
 		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
 			return false
 		}
+	} else {
+		// The root keeps its initial offset, so no unused unit may match it.
+		db.extra(1).setIsUsed()
 	}
 
 	db.fixAllBlocks()
-- 
2.43.0


From 9bcac0de66e98b2269597a71c04259aa3eb41d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:24 +0000
Subject: [PATCH 03/15] fix: a Completer moves past an empty key

The root as the last terminal was taken for a completer that had just been
started, so Next() returned the empty key for ever.
---
 completer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completer.go b/completer.go
index 7099901..084135c 100644
--- a/completer.go
+++ b/completer.go
@@ -14,6 +14,7 @@ type Completer struct {
 	path       []ucharType
 	indexStack []baseType
 	lastIndex  baseType
+	isStarted  bool
 }
 
 func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
@@ -48,6 +49,7 @@ func (c *Completer) StartStringLen(index baseType, prefix string, length sizeTyp
 	}
 	c.path[length] = 0
 
+	c.isStarted = false
 	c.indexStack = c.indexStack[:0]
 	if c.guide.size != 0 {
 		c.indexStack = append(c.indexStack, index)
@@ -62,7 +64,7 @@ func (c *Completer) Next() bool {
 	}
 	var index baseType = c.indexStack[len(c.indexStack)-1]
 
-	if c.lastIndex != c.dict.Root() {
+	if c.isStarted {
 		var childLabel ucharType = c.guide.Child(index)
 		if childLabel != 0 {
 			// Follows a transition to the first child.
@@ -96,6 +98,7 @@ func (c *Completer) Next() bool {
 	}
 
 	// Finds a terminal
+	c.isStarted = true
 	return c.FindTerminal(index)
 }
 
-- 
2.43.0


From 11d5931c94f0ed07100908883d5c99082b031367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:25 +0000
Subject: [PATCH 04/15] fix: completers return keys without the terminating
 zero byte

---
 completer.go        | 2 +-
 ranked_completer.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/completer.go b/completer.go
index 084135c..adfe520 100644
--- a/completer.go
+++ b/completer.go
@@ -29,7 +29,7 @@ func (c *Completer) Length() sizeType {
 	return len(c.path) - 1
 }
 func (c *Completer) Key() string {
-	return string(c.path)
+	return string(c.path[:c.Length()])
 }
 func (c *Completer) Value() valueType {
 	return c.dict.Value(c.lastIndex)
diff --git a/ranked_completer.go b/ranked_completer.go
index 95c92c1..ba6ef87 100644
--- a/ranked_completer.go
+++ b/ranked_completer.go
@@ -35,7 +35,7 @@ func (rc *RankedCompleter) Value() valueType {
 }
 
 func (rc *RankedCompleter) Length() sizeType {
-	return len(rc.path) - 1
+	return len(rc.path)
 }
 
 func (rc *RankedCompleter) Start(index baseType) {
@@ -99,7 +99,6 @@ func (rc *RankedCompleter) Next() bool {
 		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
 	}
 	reverseUCharSlice(rc.path[rc.prefixLength:])
-	rc.path = append(rc.path, 0)
 
 	rc.value = candidate.value
 	heap.Pop(&rc.candidateQueue)
-- 
2.43.0


From 9f83d75055db8700283fd93df948908a018b2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:50 +0000
Subject: [PATCH 05/15] fix: number the keys of an empty dictionary without
 panicking

The guide of an empty dictionary has no units.
---
 index_builder.go | 3 +++
 indexer.go       | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/index_builder.go b/index_builder.go
index 752b717..bb909b8 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -24,6 +24,9 @@ func BuildIndex(dict *Dictionary, guide SomeGuide) *Index {
 
 func (ib *IndexBuilder) Build() bool {
 	ib.index.units = make([]IndexUnit, len(ib.dict.units))
+	if ib.guide.Size() == 0 {
+		return true
+	}
 	return ib.buildIndices(ib.guide.Root())
 }
 
diff --git a/indexer.go b/indexer.go
index 1fd698a..46fd628 100644
--- a/indexer.go
+++ b/indexer.go
@@ -30,6 +30,10 @@ func (idx *Indexer) IndexToString(i baseType) string {
 }
 
 func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
+	if idx.guide.Size() == 0 {
+		return NotFound
+	}
+
 	var index baseType = idx.dict.Root()
 	var result baseType = 0
 	for i := 0; i < len(bytes); i++ {
@@ -66,6 +70,10 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 }
 
 func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
+	if idx.guide.Size() == 0 {
+		return nil
+	}
+
 	var index baseType = idx.dict.Root()
 	var cur baseType = 0
 	var buf []ucharType = make([]ucharType, 0)
-- 
2.43.0


From 0be6dfe726bb89e93c28f973e9c99efd5376703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:51 +0000
Subject: [PATCH 06/15] fix: number keys correctly when the guide is a ranked
 one

A ranked guide orders children by value and has the terminal among them, where
a child or sibling label of 0 does not mean the end of the list.
---
 index_builder.go |  5 +++--
 indexer.go       | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/index_builder.go b/index_builder.go
index bb909b8..2285df0 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -35,7 +35,8 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 		ib.index.units[index]++
 	}
 
-	var child ucharType = ib.guide.Child(index)
+	var it = newChildIterator(ib.dict, ib.guide, index)
+	var child ucharType = it.first()
 	for child != 0 {
 		var childIndex baseType = index
 		if !ib.dict.Follow(child, &childIndex) {
@@ -47,7 +48,7 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 			}
 		}
 		ib.index.units[index] += ib.index.units[childIndex]
-		child = ib.guide.Sibling(childIndex)
+		child = it.next(childIndex)
 	}
 
 	return true
diff --git a/indexer.go b/indexer.go
index 46fd628..dd8b6dd 100644
--- a/indexer.go
+++ b/indexer.go
@@ -14,6 +14,42 @@ func NewIndexer(dict *Dictionary, guide SomeGuide, index *Index) *Indexer {
 	}
 }
 
+// childIterator lists the labels of the child nodes of a node in the order of a guide.
+// A ranked guide has the terminal (label 0) among the children, it is left out.
+type childIterator struct {
+	dict        *Dictionary
+	guide       SomeGuide
+	index       baseType
+	hasTerminal bool
+}
+
+func newChildIterator(dict *Dictionary, guide SomeGuide, index baseType) childIterator {
+	return childIterator{
+		dict:        dict,
+		guide:       guide,
+		index:       index,
+		hasTerminal: dict.HasValue(index),
+	}
+}
+
+// The label of the first child, 0 if there is none.
+func (it *childIterator) first() ucharType {
+	return it.skipTerminal(it.guide.Child(it.index))
+}
+
+// The label of the child after a given one, 0 if there is none.
+func (it *childIterator) next(childIndex baseType) ucharType {
+	return it.skipTerminal(it.guide.Sibling(childIndex))
+}
+
+func (it *childIterator) skipTerminal(label ucharType) ucharType {
+	if label == 0 && it.hasTerminal {
+		it.hasTerminal = false
+		label = it.guide.Sibling(it.index ^ dictOffset(it.dict.units[it.index]))
+	}
+	return label
+}
+
 const NotFound baseType = 0xffffffff
 const Failed baseType = 0xfffffffe
 
@@ -41,14 +77,15 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 			result++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
-		for childLabel < bytes[i] && childLabel != 0 {
+		var it = newChildIterator(idx.dict, idx.guide, index)
+		var childLabel ucharType = it.first()
+		for childLabel != bytes[i] && childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
 				return Failed
 			}
 			result += idx.index.ChildCount(childIndex)
-			childLabel = idx.guide.Sibling(childIndex)
+			childLabel = it.next(childIndex)
 		}
 
 		if childLabel == 0 {
@@ -85,7 +122,8 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 			cur++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
+		var it = newChildIterator(idx.dict, idx.guide, index)
+		var childLabel ucharType = it.first()
 		for childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
@@ -98,7 +136,7 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 				break
 			} else {
 				cur += count
-				childLabel = idx.guide.Sibling(childIndex)
+				childLabel = it.next(childIndex)
 			}
 		}
 
-- 
2.43.0


From 8cfaa2c7084514275c9846f44b14ac2447a87fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:52 +0000
Subject: [PATCH 07/15] fix: a builder can be used again after Finish

clear() left a hash table of one entry, so the builder was never initialised
again and the next insertion panicked.
---
 dawg_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dawg_builder.go b/dawg_builder.go
index 385dc93..8fa6f5f 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -252,7 +252,7 @@ func (db *DawgBuilder) clear() {
 	db.flagPool.clear()
 	db.unitPool = db.unitPool[:0]
 
-	db.hashTable = []baseType{0}
+	db.hashTable = db.hashTable[:0]
 	db.unfixedUnits = db.unfixedUnits[:0]
 	db.unusedUnits = db.unusedUnits[:0]
 
-- 
2.43.0


From 3df498c3f68015d55ccd335f80a2e8efeeea49d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:53 +0000
Subject: [PATCH 08/15] fix: reject keys with zero bytes and negative values

They were accepted and silently stored as other keys and values.
---
 dawg_builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 8fa6f5f..6c57c0f 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -262,6 +262,16 @@ func (db *DawgBuilder) clear() {
 }
 
 func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value valueType) bool {
+	// Negative values and zero bytes (they mark the end of a key) can't be represented.
+	if value < 0 {
+		return false
+	}
+	for i := 0; i < length; i++ {
+		if key[i] == 0 {
+			return false
+		}
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0


From 482498396074fe423500638b2a53200f3a3ff887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:54 +0000
Subject: [PATCH 09/15] fix: fall back to the default when the hash table size
 is not positive

---
 dawg_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 6c57c0f..ea4f6f6 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -20,6 +20,9 @@ func NewDawgBuilder() *DawgBuilder {
 	return NewDawgBuilderWithSize(defaultInitialHashTableSize)
 }
 func NewDawgBuilderWithSize(initialHashTableSize sizeType) *DawgBuilder {
+	if initialHashTableSize <= 0 {
+		initialHashTableSize = defaultInitialHashTableSize
+	}
 	return &DawgBuilder{
 		initialHashTableSize:   initialHashTableSize,
 		basePool:               []BaseUnit{},
-- 
2.43.0


From 9e37cc4a6bffb6f15f4b223c4e8284dd0711327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:55 +0000
Subject: [PATCH 10/15] fix: decode the start of the current 21-bit window

It is encoded as the single byte marker0, no second byte follows.
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 1952b9d..0b92749 100644
--- a/utfc.go
+++ b/utfc.go
@@ -373,7 +373,7 @@ func UtfcDecode(buf []byte) string {
 			is21Bit = false
 		} else if is21Bit {
 			hi := 0
-			if zm != marker10 {
+			if zm != marker10 && zm != marker0 {
 				hi = int(buf[i])
 				i++
 			}
-- 
2.43.0


From cddc8992c719032244ad1daf462c388f23afa3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 11/15] fix: UtfcEncode returns a buffer of its own

The next call overwrote the bytes returned before.
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 0b92749..812996d 100644
--- a/utfc.go
+++ b/utfc.go
@@ -302,7 +302,7 @@ func UtfcFollow(str string, f UtfcFollower) bool {
 func UtfcEncode(str string) []byte {
 	sharedBuffer.buf = sharedBuffer.buf[:0]
 	UtfcFollow(str, sharedBuffer)
-	return sharedBuffer.buf
+	return append([]byte{}, sharedBuffer.buf...)
 }
 
 // UtfcDecode converts UTF-C byte array to a string
-- 
2.43.0


From ca54e3f07478039152fb499b56b3cf2f0bf2db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 12/15] fix: keep a loaded Index when reading another one fails

---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index 49185d1..40d10b2 100644
--- a/index.go
+++ b/index.go
@@ -59,11 +59,13 @@ func (index *Index) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	index.units = make([]IndexUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &index.units)
+	var unitsBuf = make([]IndexUnit, size)
+	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
 	if err != nil {
 		return false
 	}
+
+	index.units = unitsBuf
 	return true
 }
 
-- 
2.43.0


From 4282b9f83a2b445dce170790693f3a9a380e6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:57 +0000
Subject: [PATCH 13/15] fix: dawgtool -s sorts tab-separated lexicons by key

The tab and the value took part in the comparison, which put keys out of the
order the builder needs.
---
 cmd/dawgtool/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index f07fb5d..7b897c5 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -70,6 +70,14 @@ func processLine(line string) bool {
 	return true
 }
 
+// The part of a line that becomes the key.
+func lineKey(line string) string {
+	if optTab {
+		return strings.Split(line, "\t")[0]
+	}
+	return line
+}
+
 func handleBuildDict() {
 	builder = dawg.NewDawgBuilder()
 
@@ -81,10 +89,10 @@ func handleBuildDict() {
 		}
 		sort.SliceStable(buffer, func(i int, j int) bool {
 			if !optUtfc {
-				return buffer[i] < buffer[j]
+				return lineKey(buffer[i]) < lineKey(buffer[j])
 			}
-			bytes1 := dawg.UtfcEncode(buffer[i])
-			bytes2 := dawg.UtfcEncode(buffer[j])
+			bytes1 := dawg.UtfcEncode(lineKey(buffer[i]))
+			bytes2 := dawg.UtfcEncode(lineKey(buffer[j]))
 			length := len(bytes1)
 			if len(bytes2) < length {
 				length = len(bytes2)
-- 
2.43.0


From 3ce7308b54fcf8adc740635190add7c04a7b57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:07 +0000
Subject: [PATCH 14/15] fix: dawgtool no longer drops the lexicon from the
 first long line on

---
 cmd/dawgtool/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 7b897c5..d7fa02a 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"sort"
 	"strconv"
@@ -130,6 +131,10 @@ func handleBuildDict() {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		log.Fatal(err)
+	}
+
 	d := dawg.NewDawg()
 	builder.Finish(d)
 
@@ -311,6 +316,7 @@ func main() {
 	}
 	defer fileLexicon.Close()
 	scanner = bufio.NewScanner(fileLexicon)
+	scanner.Buffer(nil, math.MaxInt) // lines may be longer than the default limit
 
 	if optBuild {
 		fileDictionary, err = os.Create(optDictionary)
-- 
2.43.0


From a30860bd9419e36dbb0fd71e8ccccdf5cf39c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:29 +0000
Subject: [PATCH 15/15] fix: dawgtool -i without a guide no longer crashes in
 query mode

---
 cmd/dawgtool/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index d7fa02a..5963ab2 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -279,7 +279,7 @@ func handleLoadDict() {
 		fmt.Println()
 	}
 
-	if optIndex {
+	if optIndex && guide != nil {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-- 
2.43.0

