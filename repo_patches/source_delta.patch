From e9482be972f48c9f2326ae628eb2ff695d94005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 01/40] fix: ReadAll of append-optimised and sized files
 returns the whole file

---
 memfile/appendoptimized.go | 11 +++++++----
 memfile/filewithsize.go    | 13 ++++++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 5f9b01d..1383735 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -46,10 +46,13 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	info, _ := a.file.Stat()
-	size := info.Size()
-	data := make([]byte, size)
-	_, err = io.ReadFull(a.file, data)
+	info, err := a.file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	data := make([]byte, info.Size())
+	// ReadAt, because the file position is wherever the last append left it
+	_, err = a.file.ReadAt(data, 0)
 	if err != nil {
 		return nil, err
 	}
diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index 74bf894..1cd62b5 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -31,4 +31,15 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 	return fws.file.WriteAt(p, off)
 }
 
-func (fws *FileWithSize) ReadAll() ([]byte, error) { return fws.ReadAll() }
+func (fws *FileWithSize) ReadAll() ([]byte, error) {
+	stat, err := fws.file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	data := make([]byte, stat.Size())
+	_, err = fws.file.ReadAt(data, 0)
+	if err != nil {
+		return nil, err
+	}
+	return data, nil
+}
-- 
2.43.0


From 2e26350f36ef0a7c0d75a8e39bb96fe07cef7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 02/40] fix: ReadWholeFileAsInt64s sees buffered words and
 reads from the start of the file

---
 wordfile/wordfile.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index b72fe61..613e1cb 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -2,7 +2,6 @@ package wordfile
 
 import (
 	"encoding/binary"
-	"io"
 	"log"
 	"os"
 
@@ -84,10 +83,19 @@ func (wf *WordFile) WordSize() int64 {
 }
 
 func (wf *WordFile) ReadWholeFileAsInt64s() ([]int64, error) {
-	info, _ := wf.underlying.Stat()
+	// Words which were appended may not have reached the underlying file yet
+	err := wf.file.Sync()
+	if err != nil {
+		return nil, err
+	}
+	info, err := wf.underlying.Stat()
+	if err != nil {
+		return nil, err
+	}
 	size := info.Size()
 	data := make([]byte, size)
-	_, err := io.ReadFull(wf.underlying, data)
+	// ReadAt, because the file position is wherever the last append left it
+	_, err = wf.underlying.ReadAt(data, 0)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 54abaa26d653a5048bdc551866fb7e56b40a658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 03/40] fix: ReadWordAt ignores bytes left over from writing a
 wider value

---
 wordfile/wordfile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index 613e1cb..6c2a348 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -41,6 +41,7 @@ func NewWordFileEx(file memfile.LookupFile, wordSize int64, wordCount int64) *Wo
 }
 
 func (wf *WordFile) ReadWordAt(off int64) (int64, error) {
+	wf.scratch8 = [8]byte{} // A previous write may have left bytes beyond the word
 	_, err := wf.file.ReadAt(wf.scratch, off*wf.wordSize)
 	if err != nil {
 		return -1, err
-- 
2.43.0


From 2561727bb7403efa71d632a59f64f205f31792f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 04/40] fix: reading beyond the end of a memory-shadowed word
 file is an error, not a panic

---
 wordfile/memshadowedwordfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index ae276cb..54311af 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -2,6 +2,7 @@ package wordfile
 
 import (
 	"github.com/KitchenMishap/pudding-shed/memfile"
+	"io"
 	"os"
 )
 
@@ -25,6 +26,9 @@ func NewMemShadowedWordFile(file memfile.AppendableLookupFileReadAll, underlying
 }
 
 func (wf *MemShadowedWordFile) ReadWordAt(off int64) (int64, error) {
+	if off < 0 || off >= int64(len(wf.shadow)) {
+		return -1, io.EOF
+	}
 	// Just read the shadow
 	return wf.shadow[off], nil
 }
-- 
2.43.0


From 8f54ad1a8c15056108ce9ee05a6c8a176960e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 05/40] fix: converting a hash string of the wrong length is an
 error, not a panic

---
 indexedhashes/hexstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/hexstring.go b/indexedhashes/hexstring.go
index 7b6e750..cb00ebc 100644
--- a/indexedhashes/hexstring.go
+++ b/indexedhashes/hexstring.go
@@ -21,7 +21,7 @@ func HashHexToSha256(hexAscii string, sha256 *Sha256) error {
 // Attempt to make this quick
 func hashHexToBinInternal(hexAscii string, lookup *[256 * 256]byte) ([32]byte, error) {
 	if len(hexAscii) != 64 {
-		errors.New("hash must be 64 hex digits")
+		return [32]byte{}, errors.New("hash must be 64 hex digits")
 	}
 	result := [32]byte{
 		// To get the ascii of a rune from a string, we cast to an int
-- 
2.43.0


From 407ec69fb69f21b325a2459304a8dd6036ec865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 06/40] fix: appending to an older array whose folder does not
 exist yet creates the folder

---
 intarrayarray/intarraymapstore.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 1b6c4a3..8b8f054 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -68,7 +68,10 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	if fileNumber > ms.latestFileNumber {
 		// Save the previous latest, if any
 		if ms.latestFilepath != "" {
-			ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			err := ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			if err != nil {
+				return err
+			}
 		}
 		// Load a "new" latest
 		// Create the folder if necessary
@@ -98,21 +101,20 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	} else {
 		// Save any previous "older"
 		if ms.olderFilepath != "" {
-			// Don't forget to create the folder... as it may not exist yet
-			err := os.MkdirAll(folderPath, 0755)
-			if err != nil {
-				return err
-			}
-
-			err = ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+			err := ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
 			if err != nil {
 				return err
 			}
 		}
+		// Don't forget to create the folder... as it may not exist yet
+		err := os.MkdirAll(folderPath, 0755)
+		if err != nil {
+			return err
+		}
 		// We can now safely load the required file into "older"
 		// Make a note of the filename
 		ms.olderFilepath = filepath
-		err := ms.olderIntArrayArray.LoadFile(filepath)
+		err = ms.olderIntArrayArray.LoadFile(filepath)
 		if err != nil {
 			// We don't mind a file not found here
 		}
-- 
2.43.0


From 3ab0117345ad2305e8a4d285a7db7c1808dc1ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 07/40] fix: the array cache keeps its element tally, so that
 trimming it terminates

---
 intarrayarray/cachedintarraymapstore.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 553e804..498de16 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -88,14 +88,17 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = 0
 	ms.cacheElementCount += cached.elementTally
 
-	for ms.cacheElementCount >= ms.cacheElementCountLimit {
-		ms.trimCache(foldersFilename)
+	for ms.cacheElementCount >= ms.cacheElementCountLimit && len(ms.mapFolderFilenameToArrayArray) > 1 {
+		err = ms.trimCache(foldersFilename)
+		if err != nil {
+			return &cached, err
+		}
 	}
 	return &cached, nil
 }
 
 func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error {
-	oldest := ms.lastAccessCounter // Start at latest
+	oldest := ms.lastAccessCounter + 1 // Start later than the latest
 	oldestFoldersFilename := ""
 
 	for key, value := range ms.mapFolderFilenameToLastAccess {
@@ -131,7 +134,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 
 	cached, err := ms.loadIntoCache(folders, filename)
 	if err != nil {
-		// We don't mind being empty
+		return err
 	}
 
 	cached.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
@@ -144,6 +147,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 		sep := string(os.PathSeparator)
 		foldersFilename = folders + sep + filename
 	}
+	ms.mapFolderFilenameToArrayArray[foldersFilename] = *cached // Keeps the element tally up to date
 	ms.lastAccessCounter++
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = ms.lastAccessCounter
 
-- 
2.43.0


From c26084e461f848b77092d88c9a7ba8f501e3f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 08/40] fix: TierTop finds a hash by index after its first
 baking

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 507ef9f..f7ed377 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -146,7 +146,7 @@ func (tt *TierTop) TryGetHashAtIndex(globalIndex GlobalPiType, hash []byte) (boo
 	if !GlobalPiWithinRange(globalIndex, tt.firstGlobalPresentationIndex, len(tt.theSlice)) {
 		return false, nil // index is outside the range of this tier
 	}
-	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, -tt.firstGlobalPresentationIndex)
+	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, tt.firstGlobalPresentationIndex)
 	copy(hash, tt.theSlice[sliceIndex])
 	return true, nil
 }
-- 
2.43.0


From efa0b43d32c6a886496a042aed258f9ac289f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 09/40] fix: TierTop keeps its own copy of an appended hash

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index f7ed377..0d49d29 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -193,7 +193,7 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	copy(h[:], hash)
 
 	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, hash)
+	tt.theSlice = append(tt.theSlice, h[:]) // Our own copy; the caller may reuse hash
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
-- 
2.43.0


From d0ef90c6dd6884784cf912db133782d478c05fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 10/40] fix: a duplicated hash is tolerated by baking, and is
 found at its first index

---
 weddingcakeback/tierbelowsource.go |  8 ++++++++
 weddingcakeback/tiertop.go         | 22 +++++++++++++++-------
 weddingcakefront/cake.go           | 14 +++++++++-----
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/weddingcakeback/tierbelowsource.go b/weddingcakeback/tierbelowsource.go
index e8b2a29..397906e 100644
--- a/weddingcakeback/tierbelowsource.go
+++ b/weddingcakeback/tierbelowsource.go
@@ -34,6 +34,9 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 	jumpTableIndex := index
 
 	result := make([]SingleTreeHash, 0, 1000)
+	// The same hash may be in several DonutForests, but SingleTree does not tolerate duplicates.
+	// We keep the one from the earliest DonutForest, which holds the FIRST index.
+	alreadySeen := make(map[Sha256]bool)
 
 	// Work out the size of each jump table
 	nodeIdConfig := &tb.ThisTierConfig.NodeIdConfig
@@ -73,6 +76,11 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 						panic(err)
 					}
 
+					if alreadySeen[hash] {
+						return
+					}
+					alreadySeen[hash] = true
+
 					// singleTreeOffset is used to convert globalPi to singleTreePi.
 					// It needs to be the same in all cases for this bake, as these pairs will be sent to construct a SingleTree.
 					// It is therefore the firstPresentationIndex from the source tier (ie, this TierBelow)
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 0d49d29..9a1579f 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -120,7 +120,9 @@ func (tt *TierTop) Open(readOnly bool) error {
 		if err != nil {
 			return err
 		}
-		tt.theMap[hash] = i
+		if _, duplicate := tt.theMap[hash]; !duplicate {
+			tt.theMap[hash] = i // Reverse lookup gives the FIRST index of a duplicated hash
+		}
 		tt.theSlice[i] = hash[:]
 	}
 	return nil
@@ -192,7 +194,9 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	h := [32]byte{}
 	copy(h[:], hash)
 
-	tt.theMap[h] = TierTopIndex(index)
+	if _, duplicate := tt.theMap[h]; !duplicate {
+		tt.theMap[h] = TierTopIndex(index) // Reverse lookup gives the FIRST index of a duplicated hash
+	}
 	tt.theSlice = append(tt.theSlice, h[:]) // Our own copy; the caller may reuse hash
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
@@ -238,14 +242,18 @@ func (tt *TierTop) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []Si
 	if index != 0 {
 		panic("TierZero.GetHashesForIndex() should only be called with index=0")
 	}
-	result := make([]SingleTreeHash, len(tt.theSlice))
+	result := make([]SingleTreeHash, 0, len(tt.theSlice))
 	for i := range tt.theSlice {
+		h := [32]byte{}
+		copy(h[:], tt.theSlice[i])
+		if tt.theMap[h] != TierTopIndex(i) {
+			continue // A duplicate of an earlier hash. SingleTree does not tolerate duplicates
+		}
 		globalPi := GlobalPiFromTierTopIndex(TierTopIndex(i), offsetToUse)
 		singleTreePi := SingleTreePiFromGlobalPi(globalPi)
-		result[i].PresentationIndex = singleTreePi
-		//result[i].SourceOffset = offsetToUse
-		result[i].Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
-		copy(result[i].Hash, tt.theSlice[i][:])
+		hash := make([]byte, tt.config.HashLength) // Todo Yuk!
+		copy(hash, tt.theSlice[i][:])
+		result = append(result, SingleTreeHash{PresentationIndex: singleTreePi, Hash: hash})
 	}
 	return result
 }
diff --git a/weddingcakefront/cake.go b/weddingcakefront/cake.go
index e6a3496..3cbe204 100644
--- a/weddingcakefront/cake.go
+++ b/weddingcakefront/cake.go
@@ -25,23 +25,27 @@ func newCake(tierTop *weddingcakeback.TierTop) *Cake {
 }
 
 func (c *Cake) IndexOfHash(hash *Sha256) (int64, error) {
+	// Older hashes are in the lower tiers. A hash may have been presented more than once, and we
+	// want the FIRST index, so the lowest tier in which it is found has the last word.
 	found := false
 	reader := c.tierReader
 	var result GlobalPiType
-	var err error
 	tierCount := -1 // To represent TierTop
-	for !found && reader != nil {
+	for reader != nil {
 		if tierCount == 1 {
 			fmt.Printf("Breakpoint here: tier %d\n", tierCount)
 		}
-		result, found, err = reader.TryIndexOfHash((*hash)[:])
+		tierResult, foundInTier, err := reader.TryIndexOfHash((*hash)[:])
 		if err != nil {
 			return -1, err
 		}
-		if !found {
+		if foundInTier {
+			result = tierResult
+			found = true
+		} else {
 			fmt.Printf("Hash not found in tier %d\n", tierCount)
-			reader = reader.GetNextTier()
 		}
+		reader = reader.GetNextTier()
 		tierCount++
 	}
 	if !found {
-- 
2.43.0


From 12cd96e5f0b8d7d75c3de3cd79cfde3cafcfde15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 11/40] fix: TierBelow checks a potential match against the
 hashes file

---
 weddingcakeback/tierbelow.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b2d0f41..5454584 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -1,6 +1,7 @@
 package weddingcakeback
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -239,8 +240,16 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 
 			if hashIndexId != HashIndexIdNoMatch {
 				// Found a potential match
-				// ToDo check against hashes file
-				return GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex), true, nil
+				globalPi := GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex)
+				// Check against hashes file
+				candidate := Sha256{}
+				found, err := tb.TryGetHashAtIndex(globalPi, candidate[:])
+				if err != nil {
+					return GlobalPiNoMatch, false, err
+				}
+				if found && bytes.Equal(candidate[:], hash) {
+					return globalPi, true, nil
+				}
 			}
 		}
 	}
@@ -425,7 +434,7 @@ func (tb *TierBelow) readInfoFile() error {
 		return err
 	}
 	defer func() { _ = file.Close() }()
-	bytes, err := io.ReadAll(file)
+	infoBytes, err := io.ReadAll(file)
 	if err != nil {
 		return err
 	}
@@ -433,7 +442,7 @@ func (tb *TierBelow) readInfoFile() error {
 	// For each level, we need (inside this function) to keep track of how many bytes have been accounted for
 	levelAccountedBytes := [65]uint64{} // Max 65 levels (initially zero)
 
-	if len(bytes) == 0 {
+	if len(infoBytes) == 0 {
 		// Zero length file means no DonutForests
 		if len(tb.LevelXXNodesMemoryMaps) > 0 {
 			panic("DonutForestsInfo.bin empty but LevelXXNodes.bin files exist")
@@ -445,7 +454,7 @@ func (tb *TierBelow) readInfoFile() error {
 	tb.DonutForestsInfo = make([]DonutForestInfo, 0, maxDonutForests)
 	offset := 0
 	donutForestIndex := byte(0)
-	for offset < len(bytes) {
+	for offset < len(infoBytes) {
 		// Because there are bytes left, we have a first (or another) DonutForest
 		if donutForestIndex >= maxDonutForests {
 			panic("Too many DonutForests in file")
@@ -453,19 +462,19 @@ func (tb *TierBelow) readInfoFile() error {
 
 		tb.DonutForestsInfo = append(tb.DonutForestsInfo, DonutForestInfo{})
 		// Field A (per DonutForest): 8 bytes "FirstGlobalPresentationIndexOfChunk"
-		if len(bytes)-offset < 8 {
+		if len(infoBytes)-offset < 8 {
 			_ = file.Close()
 			return errors.New("DonutForestsInfo.bin file format error : Missing FirstPI")
 		}
 		tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex =
-			GlobalPiFromUint64(binary.LittleEndian.Uint64(bytes[offset : offset+8]))
+			GlobalPiFromUint64(binary.LittleEndian.Uint64(infoBytes[offset : offset+8]))
 		offset += 8
 		// Field B (per DonutForest): 1 byte levels count
-		if len(bytes)-offset < 1 {
+		if len(infoBytes)-offset < 1 {
 			_ = file.Close()
 			return errors.New("DonutForestsInfo.bin file format error : Missing levels count")
 		}
-		levelsCount := bytes[offset]
+		levelsCount := infoBytes[offset]
 		offset += 1
 		if tb.TierIndex == 1 {
 			fmt.Printf("tb.TierIndex == 1, breakpoint here\n")
@@ -477,14 +486,14 @@ func (tb *TierBelow) readInfoFile() error {
 		for level := byte(0); level < levelsCount; level++ {
 			// For each level present:
 			// Field C (per level per chunk): 8 bytes length of indexBytes
-			if len(bytes)-offset < 8+8 {
+			if len(infoBytes)-offset < 8+8 {
 				_ = file.Close()
 				return errors.New("DonutForestsInfo.bin file format error : Missing index and/or nodes byte counts")
 			}
-			indexBytesLength := binary.LittleEndian.Uint64(bytes[offset : offset+8])
+			indexBytesLength := binary.LittleEndian.Uint64(infoBytes[offset : offset+8])
 			offset += 8
 			// Field D (per level per chunk): 8 bytes length of nodesBytes
-			nodesBytesLength := binary.LittleEndian.Uint64(bytes[offset : offset+8])
+			nodesBytesLength := binary.LittleEndian.Uint64(infoBytes[offset : offset+8])
 			offset += 8
 			// We combine these with levelAccountedBytes[] to determine slices into the mmap'd LevelXX.bin files
 			indexSlice := tb.LevelXXNodesMemoryMaps[level][levelAccountedBytes[level] : levelAccountedBytes[level]+indexBytesLength]
-- 
2.43.0


From 80f7de648ed0be30cff9b2232e53e3e3817c47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 12/40] fix: TierBelow opens the level files by the names they
 are written under

---
 weddingcakeback/tierbelow.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index 5454584..1607c17 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -360,8 +360,8 @@ func (tb *TierBelow) recurseLookupHash(hash []byte, levelNum byte,
 }
 
 func (tb *TierBelow) mmapLevelFiles() error {
-	// We mmap all the sequential "LevelXXNodes.bin" files we can find, for hex XX = 00 to 40 inclusive.
-	// (00 to 40 corresponds to 65 potential levels, 64 for the max byte length of supported hash,
+	// We mmap all the sequential "LevelXXNodes.bin" files we can find, for decimal XX = 00 to 64 inclusive.
+	// (00 to 64 corresponds to 65 potential levels, 64 for the max byte length of supported hash,
 	// plus another level for any final leaf nodes.
 	// Note that this function leaves the files mmap'd
 
@@ -374,7 +374,7 @@ func (tb *TierBelow) mmapLevelFiles() error {
 		panic("Cannot mmap level files before un-mmap'ing previous")
 	}
 	for levelNum := 0; levelNum <= 0x40; levelNum++ {
-		filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
+		filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
 		fullName := filepath.Join(tb.TierFolder, filename)
 
 		// First we try to open the file
-- 
2.43.0


From 6c69e2b9a41276cdc2e7c762d6a40e589a05fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 13/40] fix: the reassurance bytes of a lone hash follow the
 prefix

---
 weddingcakeback/singletree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/singletree.go b/weddingcakeback/singletree.go
index fdf9de7..e6f1bef 100644
--- a/weddingcakeback/singletree.go
+++ b/weddingcakeback/singletree.go
@@ -115,8 +115,9 @@ func GenerateSingleTree(input []SingleTreeHash, PrefixBytesN byte, hashLength by
 		leafNode := SingleTreeLeafNode{}
 		leafNode.PresentationIndex = input[0].PresentationIndex
 		//leafNode.SourceOffset = input[0].SourceOffset
-		leafNode.ReassuranceHashBytes = make([]byte, reassuranceBytes)
-		copy(leafNode.ReassuranceHashBytes, input[0].Hash[:reassuranceBytes])
+		// The reassurance bytes are (sequentially) a maximum of reassuranceBytes bytes, after the prefix bytes
+		leafNode.ReassuranceHashBytes = make([]byte, min(reassuranceBytes, hashLength-PrefixBytesN))
+		copy(leafNode.ReassuranceHashBytes, input[0].Hash[PrefixBytesN:])
 		leafNode.Hash = make([]byte, hashLength)
 		copy(leafNode.Hash, input[0].Hash)
 		node := SingleTreeNode{}
-- 
2.43.0


From 4bb6bf763fe11fc1fe6e92b8914042a158074fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 14/40] fix: baking keeps the chain to the tier after the
 destination tier

---
 weddingcakeback/donutforestwrite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6b64beb..a6bfef3 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -201,7 +201,12 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
 	var preservedNextTier TierReadable
 	if sourceReadable, ok := dfw.SourceTier.(TierReadable); ok {
-		preservedNextTier = sourceReadable.GetNextTier()
+		// The tier after the source tier is the destination tier, which is about to be re-opened.
+		// It's the tier after THAT which needs to be preserved.
+		previousDestTier := sourceReadable.GetNextTier()
+		if previousDestTier != nil {
+			preservedNextTier = previousDestTier.GetNextTier()
+		}
 	}
 	err = dfw.SourceTier.MakeEmptyAfterBaking()
 	if err != nil {
-- 
2.43.0


From 7cd8716d7195af00baf0379e6b4d188f00da892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 15/40] fix: ReadAndMmap reads every chunk into its own place

---
 weddingcake/chunkfiles.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index 28cff78..f5f5588 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -168,6 +168,7 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 			cfr.chunks[chunkIndex].ChunkLevels[level].IndexBytes = indexSlice
 			cfr.chunks[chunkIndex].ChunkLevels[level].NodeBytes = nodesSlice
 		}
+		chunkIndex++
 	}
 	return nil
 }
-- 
2.43.0


From 6179267503655d1dec2bfe63b1843e360c3b7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 16/40] fix: baking writes the nodes of a group contiguously,
 across the trees of a forest

---
 weddingcakeback/donutforestwrite.go | 70 ++++++++++++++++-------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index a6bfef3..586c35a 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -3,6 +3,7 @@ package weddingcakeback
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -12,6 +13,8 @@ type DonutForestWrite struct {
 	SourceTier BakingSourceTier
 	Designer   *BakingDesigner
 	LevelFiles [65]*os.File
+	// For each level, where in LevelFiles[level] the next node of each group is to be written
+	GroupOffsets [65][]int64
 }
 
 func NewDonutForestWrite(sourceTier BakingSourceTier, config *CakeConfig) *DonutForestWrite {
@@ -116,8 +119,8 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			bucket := buckets[t]
 			tree := GenerateSingleTree(bucket, destPrefixBytesCount, dfw.Config.HashLength,
 				dfw.Config.TierBelowConfigs[destTierIndex].ReassuranceBytesCount)
-			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
-			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
+			levelsGroupsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
+			err = dfw.writeToLevelsFiles(levelsGroupsNodesBytes)
 			if err != nil {
 				// Close any level files for a clean failure
 				for _, levelFile := range dfw.LevelFiles {
@@ -332,23 +335,36 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
-			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+			// (We don't use os.O_APPEND, because the nodes are written with WriteAt())
+			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
 			if err != nil {
 				return err
 			}
 		}
-		_, err := dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		offset, err := dfw.LevelFiles[levelNum].Seek(0, io.SeekEnd)
 		if err != nil {
 			return err
 		}
+		_, err = dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		if err != nil {
+			return err
+		}
+
+		// A node is found by its node id, so the nodes of a group must be contiguous, across all the trees
+		offset += int64(len(levelIndexBytes))
+		dfw.GroupOffsets[levelNum] = make([]int64, len(*formatSpecGroups))
+		for groupIndex := range *formatSpecGroups {
+			dfw.GroupOffsets[levelNum][groupIndex] = offset
+			offset += int64((*formatSpecGroups)[groupIndex].Bytes)
+		}
 	}
 	return nil
 }
 
-// The first result is a slice of byte slices, one for each level of the tree.
+// The first result is, for each level of the tree, and for each group of the level, a byte slice.
 // The second result is a node id for the root node of the tree (to go into the jump table)
 func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree,
-	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][]byte, NodeIdType) {
+	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][][]byte, NodeIdType) {
 
 	levels := len(bakingDesign.LevelSpecs)
 
@@ -361,10 +377,10 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	// 2. We only need ONE map for the "level below us" at any given time
 	var nextLevelIdMap map[*SingleTreeNode]NodeIdType
 
-	// Prepare space for results: For each level, a byte slice
-	levelsNodesBytes := make([][]byte, levels)
+	// Prepare space for results: For each level, and for each group, a byte slice
+	levelsGroupsNodesBytes := make([][][]byte, levels)
 	for i := 0; i < levels; i++ {
-		levelsNodesBytes[i] = make([]byte, 0, 10_000)
+		levelsGroupsNodesBytes[i] = make([][]byte, len(bakingDesign.LevelSpecs[i].Groups))
 	}
 	// Also as a result, the root node id for the tree
 	rootNodeId := NodeIdType(0) // Starts out as zero
@@ -373,7 +389,6 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	for levelNum := levels - 1; levelNum >= 0; levelNum-- {
 		// fmt.Printf("Processing level %d\n", levelNum)
 		currentLevelNodes := nodesByLevel[levelNum]
-		levelNodesBytes := &levelsNodesBytes[levelNum]
 		// Create a fresh map for the current level allocations
 		currentLevelIdMap := make(map[*SingleTreeNode]NodeIdType, len(currentLevelNodes))
 
@@ -395,6 +410,7 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// When a node looks up a child, it queries nextLevelIdMap in O(1) time!
 		for groupIdx, group := range bakingDesign.LevelSpecs[levelNum].Groups {
 			spec := &group.Spec
+			groupNodesBytes := &levelsGroupsNodesBytes[levelNum][groupIdx]
 
 			// Only serialize nodes at this level that belong to the current format group
 			for _, node := range currentLevelNodes {
@@ -407,20 +423,20 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 				switch spec.Format {
 				case NodeFormatLeaf:
 					// fmt.Println("Serializing FormatLeaf node")
-					dfw.serializeLeafNode(node.LeafNode, levelNodesBytes, sourceOffset)
+					dfw.serializeLeafNode(node.LeafNode, groupNodesBytes, sourceOffset)
 				case NodeFormatFull:
 					// fmt.Println("Serializing FormatFull node")
-					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, groupNodesBytes)
 				case NodeFormatMedium:
 					// fmt.Println("Serializing FormatMedium node")
-					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, groupNodesBytes)
 				case NodeFormatTiny:
 					// fmt.Println("Serializing FormatTiny node")
 					nodeId := currentLevelIdMap[node]
 					if nodeId == 31220 {
 						fmt.Printf("Breakpoint here\n")
 					}
-					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, groupNodesBytes)
 				}
 			}
 		}
@@ -429,28 +445,20 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// allowing the old nextLevelIdMap to be immediately garbage collected!
 		nextLevelIdMap = currentLevelIdMap
 	}
-	return levelsNodesBytes, rootNodeId
+	return levelsGroupsNodesBytes, rootNodeId
 }
 
-func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tierFolderPath string) error {
-	for levelNum, levelNodesBytes := range levelsNodesBytes {
-		if len(levelNodesBytes) != 0 {
-			if levelNum == 0 {
-				fmt.Println("Breakpoint here")
-			}
-			if dfw.LevelFiles[levelNum] == nil {
-				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
-				filePath := filepath.Join(tierFolderPath, filename)
-				var err error
-				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+// writeToLevelsFiles writes each group's nodes after those (of previous trees) which were already written for the group.
+// The level files were opened in serializeIndexBytes()
+func (dfw *DonutForestWrite) writeToLevelsFiles(levelsGroupsNodesBytes [][][]byte) error {
+	for levelNum, groupsNodesBytes := range levelsGroupsNodesBytes {
+		for groupIndex, groupNodesBytes := range groupsNodesBytes {
+			if len(groupNodesBytes) != 0 {
+				_, err := dfw.LevelFiles[levelNum].WriteAt(groupNodesBytes, dfw.GroupOffsets[levelNum][groupIndex])
 				if err != nil {
 					return err
 				}
-			}
-			_, err := dfw.LevelFiles[levelNum].Write(levelNodesBytes)
-			if err != nil {
-				return err
+				dfw.GroupOffsets[levelNum][groupIndex] += int64(len(groupNodesBytes))
 			}
 		}
 	}
-- 
2.43.0


From bdbbeadffb9d9e28189c750b48f1fe70634cac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 17/40] fix: TierBelow looks in the jump table in the order
 that it is written

---
 weddingcakeback/tierbelow.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index 1607c17..c0ac8b5 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -202,12 +202,11 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 	prefix := hash[:8] // ToDo Why 8?
 	prefixBytesCount := tb.ThisTierConfig.PrefixBytesCount
 	fmt.Printf("PrefixBytesCount: %d\n", prefixBytesCount)
-	multiplier := 1
 	prefixIndex := 0
 	flagBit := uint64(1)
 	for prefixByte := byte(0); prefixByte < prefixBytesCount; prefixByte++ {
-		prefixIndex += int(prefix[prefixByte]) * multiplier
-		multiplier <<= 8
+		// The first byte is the most significant, as each tier's bake subdivides on the NEXT byte
+		prefixIndex = prefixIndex<<8 + int(prefix[prefixByte])
 		flagsHashByteIndicesUnexamined ^= flagBit
 		flagBit <<= 1
 	}
-- 
2.43.0


From 5fb679cbe9d266db0f861992304d7b504f675277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 18/40] fix: weddingcake: a 64-byte-hash tree that uses all 65
 levels no longer indexes past the level shapes

---
 weddingcake/treeshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/treeshape.go b/weddingcake/treeshape.go
index bf66bb2..3373a39 100644
--- a/weddingcake/treeshape.go
+++ b/weddingcake/treeshape.go
@@ -56,7 +56,7 @@ func (st *ShallowTree) CountLevelShapes() *TreeShape {
 		// We want to count even when activeSlotsCount is zero (ie a leaf node)
 		result.LevelShapes[node.Level].ActiveSlotCountHistogram[activeSlotsCount]++
 	})
-	for level := byte(0); level <= result.NonEmptyLevels; level++ {
+	for level := byte(0); level < result.NonEmptyLevels; level++ {
 		nodesPerLevel := NodeCountType(0)
 		// nodeCount at this level is the sum of the histogram
 		for slotsCount := 0; slotsCount <= 256; slotsCount++ {
-- 
2.43.0


From 4e273811c7c55849b3fc07ba01d514f4e0181e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 19/40] fix: the block height 0xFFFFFFFF is refused rather than
 becoming the invalid block handle

---
 intrinsicobjectschi/handles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intrinsicobjectschi/handles.go b/intrinsicobjectschi/handles.go
index 0f2616d..527343f 100644
--- a/intrinsicobjectschi/handles.go
+++ b/intrinsicobjectschi/handles.go
@@ -12,7 +12,7 @@ import (
 // In here are policies of the internals of handles for intrinsicobjectschi
 
 func makeBlockHandle(blockHeight int64) chainhandleinterface.BlockHandle {
-	if blockHeight < 0 || blockHeight > 0xFFFFFFFF {
+	if blockHeight < 0 || blockHeight >= 0xFFFFFFFF { // 0xFFFFFFFF is the invalid handle
 		panic("Cannot represent this block height")
 	}
 	result := chainhandleinterface.BlockHandle{}
-- 
2.43.0


From c025a4da4bd01a19e0022806551f98fba40155e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 20/40] fix: indexedhashes3 bin search finds the first of
 several entries with the same sort number

---
 indexedhashes3/binbytes.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 631e495..729351c 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -211,8 +211,14 @@ func (b *bin) homeInOnSortNum(startIndex int64, endIndex int64, sn sortNum, p *H
 		} else if snMid > sn {
 			return startIndex, midIndex
 		} else {
-			// Equal
-			return midIndex, midIndex // END
+			// Equal, but this could be any of a sequence of equal sn's
+			// Keep stepping back one to find the first of them (we already know snStart < sn)
+			for snMid == sn {
+				midIndex--
+				entryMid = b.getEntry(midIndex, p)
+				_, snMid = entryMid.getHashIndexSortNum(p)
+			}
+			return midIndex + 1, midIndex + 1 // END
 		}
 	} else {
 		// sn must be equal to snEnd
-- 
2.43.0


From 9ca6e77fe575a5bf736e0ca01dc678929f9b1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 21/40] fix: indexedhashes3 gives every hash a bin number less
 than the number of bins

---
 indexedhashes3/params.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/params.go b/indexedhashes3/params.go
index 23d9326..cf7f38c 100644
--- a/indexedhashes3/params.go
+++ b/indexedhashes3/params.go
@@ -53,7 +53,8 @@ func (p *HashIndexingParams) calculateDerivedValues() {
 			break
 		}
 	}
-	p.divider = (uint64(1) << uint64(63)) / (uint64(p.NumberOfBins_) >> uint64(1))
+	// Rounded up, so that even the highest abbreviated hash gets a bin number less than the number of bins
+	p.divider = (uint64(1)<<uint64(63)-1)/(uint64(p.NumberOfBins_)>>uint64(1)) + 1
 	// 24 is the number of bytes in a truncated hash
 	p.bytesPerBinEntry = 24 + p.BytesPerSortNum_ + p.BytesPerHashIndex()
 }
-- 
2.43.0


From 3fd4da0d45527ee173d50c7c90d0a1cef3de7f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 22/40] fix: indexedhashes3 deduplication keeps different
 hashes that share their truncated hash

---
 indexedhashes3/binbytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 729351c..7a567e9 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -320,19 +320,22 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 	// Create a pointer to the first entry's underlying slice window
 	firstEntry := binEntryBytes(b.bytes[0:bytesPerEntry])
 	lastTH := firstEntry.getTruncatedHash() // Works perfectly with pointer receiver now
+	_, lastSN := firstEntry.getHashIndexSortNum(p)
 
 	for readIdx := int64(1); readIdx < count; readIdx++ {
 		// Slice out the current entry chunk
 		currentChunk := b.bytes[readIdx*bytesPerEntry : (readIdx+1)*bytesPerEntry]
 		currentEntry := binEntryBytes(currentChunk)
 		currentTH := currentEntry.getTruncatedHash()
+		_, currentSN := currentEntry.getHashIndexSortNum(p)
 
-		if currentTH != lastTH {
+		if currentTH != lastTH || currentSN != lastSN {
 			// Found a new unique hash! Shift it forward to our write pointer position
 			if writeIdx != readIdx {
 				copy(b.bytes[writeIdx*bytesPerEntry:(writeIdx+1)*bytesPerEntry], currentChunk)
 			}
 			lastTH = currentTH
+			lastSN = currentSN
 			writeIdx++
 		}
 	}
-- 
2.43.0


From 129d5f13f8e4768fc1a2f6b0900dfc2d1fb21a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 23/40] fix: indexedhashes3 creates a bin starts file with room
 for every bin

---
 indexedhashes3/hashstorecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d3d880b..3192beb 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -127,7 +127,7 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
+	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart() * c.params.NumberOfBins())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f26bba7c45cc8d0660e4ad6d9ad57d7d77117665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 24/40] fix: indexedhashes3 adaptive indexing reports that the
 hashes could not be counted

---
 indexedhashes3/adaptivepasspreloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 09d26e5..2d362e4 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -42,6 +42,9 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 
 	var counts []binWorkInfo
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
+	if err != nil {
+		return err
+	}
 
 	err = stageTwoStageThreeHandleHashBins(hashesFilepath, ap.binNumsWordFile, ap.binStartsFile,
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
-- 
2.43.0


From 4a0d53af5f2306ccc0c530cc1a88cd5fd5e66f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 25/40] fix: indexedhashes3 adaptive indexing no longer closes
 the channel of an idle worker twice

---
 indexedhashes3/adaptivepass.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 69f72d3..eab6870 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -266,8 +266,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for t := range threads {
 			// Check if this worker actually has bins assigned to it
 			if len(assignments[t].binOffsets) == 0 {
-				close(inChans[t]) // Close it immediately, no one is listening
-				continue
+				continue // No one is listening to its channel, which is closed when all the hashes have been sent
 			}
 
 			wg.Add(1)
@@ -335,7 +334,8 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		} // for t = threads
 
 		// Now read the hashes and send to the workers
-		go func() {
+		// (The channels are a parameter, as our own references to them are dropped at the end of the pass)
+		go func(inChans []chan hashWork) {
 			hash := [32]byte{}
 
 			hashesFile, ferr := os.Open(hashesFilepath)
@@ -395,7 +395,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 			for ch := range threads {
 				close(inChans[ch])
 			}
-		}()
+		}(inChans)
 
 		// We are currently sending all the hashes to the workers
 		// Read out the results from the workers and save to files
-- 
2.43.0


From 718f33bbd84507375adcd53265e0e58d37068acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 26/40] fix: chainstorage handles found by hash carry their
 chain and report lookup errors

---
 chainstorage/concretereadablechain.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index cb7b853..167dd21 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -269,7 +269,10 @@ func (crc *concreteReadableChain) AddressHandleByHeight(addressHeight int64) (ch
 }
 func (crc *concreteReadableChain) AddressHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IAddressHandle, error) {
 	result := AddressHandle{}
-	index, _ := crc.addrHashes.IndexOfHash(&sha256)
+	index, err := crc.addrHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("address hash not found")
 	}
@@ -285,25 +288,33 @@ func (crc *concreteReadableChain) AddressHandleByString(address string) (chainre
 
 func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.ITransHandle, error) {
 	result := TransHandle{}
-	index, _ := crc.trnHashes.IndexOfHash(&sha256)
+	index, err := crc.trnHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("transaction hash not found")
 	}
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
 func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IBlockHandle, error) {
 	result := BlockHandle{}
-	index, _ := crc.blkHashes.IndexOfHash(&sha256)
+	index, err := crc.blkHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("block hash not found")
 	}
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
-- 
2.43.0


From 0aac85a0edee2c22f468d02f3bf8d8b9ff3d5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 27/40] fix: chainstorage address given by an unknown hash is
 an error, and its height is looked up

---
 chainstorage/address.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/chainstorage/address.go b/chainstorage/address.go
index 75d9bcf..e352a82 100644
--- a/chainstorage/address.go
+++ b/chainstorage/address.go
@@ -1,6 +1,8 @@
 package chainstorage
 
 import (
+	"errors"
+
 	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
 	"github.com/KitchenMishap/pudding-shed/indexedhashes"
 )
@@ -25,6 +27,11 @@ func (adr *Address) populate() error {
 		if err != nil {
 			return err
 		}
+		if addressHeight == -1 {
+			return errors.New("address hash not found")
+		}
+		adr.handle.height = addressHeight
+		adr.handle.heightSpecified = true
 	}
 	if !adr.handle.hashSpecified {
 		err := adr.data.addrHashes.GetHashAtIndex(addressHeight, &adr.handle.hash)
@@ -84,6 +91,9 @@ func (adr *Address) HashSpecified() bool {
 }
 
 func (adr *Address) Height() int64 {
+	if !adr.handle.heightSpecified && !adr.populated {
+		adr.populate()
+	}
 	return adr.handle.height
 }
 
-- 
2.43.0


From 5333d416dacff6545f7281e870f9cbf4a2a40e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 28/40] fix: chainstorage read view of an appendable chain
 includes the parent files

---
 chainstorage/concreteappendablechain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e42284b..a4de1cb 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -65,6 +65,9 @@ func (cac *concreteAppendableChain) GetAsConcreteReadableChain() *concreteReadab
 		txoSpentTxi:        cac.txoSpentTxi,
 		addrFirstTxo:       cac.addrFirstTxo,
 		addrAdditionalTxos: cac.addrAdditionalTxos,
+		parentBlockOfTrans: cac.parentBlockOfTrans,
+		parentTransOfTxi:   cac.parentTransOfTxi,
+		parentTransOfTxo:   cac.parentTransOfTxo,
 	}
 	result.blkNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
 	result.trnNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
-- 
2.43.0


From 4ab1e51e7f0e28fffffabab0ba21cef21b41b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 29/40] fix: chainstorage appending a block whose transaction
 or source transaction is not indexed is an error

---
 chainstorage/concreteappendablechain.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index a4de1cb..8a90581 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -226,6 +226,9 @@ func (cac *concreteAppendableChain) appendTransactionFrame(blockChain chainreadi
 		if err != nil {
 			return -1, err
 		}
+		if transNum == -1 {
+			return -1, errors.New("must be able to find index of transaction hash")
+		}
 		if trans.HeightSpecified() && trans.Height() != transNum {
 			panic("cannot append a transaction out of sequence")
 		}
@@ -423,6 +426,9 @@ func (cac *concreteAppendableChain) appendTxi(txi chainreadinterface.ITxi, trans
 		if err != nil {
 			return -1, err
 		}
+		if sourceTransHeight == -1 {
+			return -1, errors.New("must be able to find index of source transaction hash")
+		}
 	} else {
 		panic("source trans must be specified somehow")
 	}
@@ -698,6 +704,12 @@ func (cac *concreteAppendableChain) appendTransactionFrameChi(
 	if !cac.transactionIndexingIsDelegated {
 		// We now assume that all hashes have already been stored and indexed
 		transNum, err := cac.trnHashes.IndexOfHash(&transHash) // ToDo is this legal in the face of duplicate trans hashes?
+		if err != nil {
+			return -1, err
+		}
+		if transNum == -1 {
+			return -1, errors.New("must be able to find index of transaction hash")
+		}
 		err = cac.parentBlockOfTrans.WriteWordAt(blkNum, transNum)
 		if err != nil {
 			return -1, err
@@ -826,6 +838,9 @@ func (cac *concreteAppendableChain) appendTxiChi(txi *chainhandleinterface.TxiRe
 	if err != nil {
 		return -1, err
 	}
+	if sourceTransHeight == -1 {
+		return -1, errors.New("must be able to find index of source transaction hash")
+	}
 
 	var txiHeight int64
 	txiHeight, err = cac.txiTx.CountWords()
-- 
2.43.0


From 92824f63885da89aa5ad19af0ffdd2ce0a466f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 30/40] fix: chainstorage txi goroutine ends when appending
 txos fails

---
 chainstorage/concreteappendablechain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index 8a90581..d772399 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -287,7 +287,7 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 	}
 
 	// Txis can (we hope) be written in parallel to txos. We therefore branch off a goroutine for the txis
-	myChan := make(chan error)
+	myChan := make(chan error, 1)
 	go func() {
 		nTxis, err := trans.TxiCount()
 		if err != nil {
@@ -740,7 +740,7 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	}
 
 	// Txis can (we hope) be written in parallel to txos. We therefore branch off a goroutine for the txis
-	myChan := make(chan error)
+	myChan := make(chan error, 1)
 	go func() {
 		// We MUST write to the trnFirstTxi file, REGARDLESS of whether there ARE any Txis
 		putativeTxiHeight, err := cac.txiTx.CountWords() // Count all the txis by counting the txiTx field file
-- 
2.43.0


From 2a620146a8c8f4d7901164bfba6cf913a2367e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 31/40] fix: chainstorage checks of ascending transactions and
 txos are per chain, not per process

---
 chainstorage/concreteappendablechain.go | 41 +++++++++++++------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index d772399..f6ceb21 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -13,6 +13,7 @@ import (
 	"github.com/KitchenMishap/pudding-shed/wordfile"
 )
 
+// PrevFirstTxo and PrevTrans are no longer used: each chain keeps its own (see prevFirstTxo, prevTrans)
 var PrevFirstTxo int64
 var PrevTrans int64
 
@@ -40,6 +41,10 @@ type concreteAppendableChain struct {
 	trnHashes          indexedhashes.HashReadWriter
 	parentBlockOfTrans wordfile.ReadWriteAtWordCounter
 
+	// The first txo and the height of the transaction most recently appended, to check they never go backwards
+	prevFirstTxo int64
+	prevTrans    int64
+
 	// These are re-used objects in the interest of the "zero allocations" aspiration
 	za_blockReceiver       *chainhandleinterface.BlockReceiver
 	za_transactionReceiver *chainhandleinterface.BitcoinCoreTransactionReceiver
@@ -153,7 +158,7 @@ func (cac *concreteAppendableChain) AppendBlock(blockChain chainreadinterface.IB
 			return err
 		}
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -337,17 +342,15 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
-			panic("txo going backwards")
-		}
-		if transHeight < PrevTrans {
-			panic("trans going backwards")
-		}
+	if putativeTxoHeight < cac.prevFirstTxo {
+		panic("txo going backwards")
+	}
+	if transHeight < cac.prevTrans {
+		panic("trans going backwards")
 	}
 	err = cac.trnFirstTxo.WriteWordAt(putativeTxoHeight, transHeight)
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	if err != nil {
 		return -1, err
@@ -654,7 +657,7 @@ func (cac *concreteAppendableChain) AppendBlockChi(blockChain chainhandleinterfa
 		}
 
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -776,20 +779,18 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
-			panic("txo going backwards")
-		}
-		if transHeight < PrevTrans {
-			panic("trans going backwards")
-		}
+	if putativeTxoHeight < cac.prevFirstTxo {
+		panic("txo going backwards")
+	}
+	if transHeight < cac.prevTrans {
+		panic("trans going backwards")
 	}
 	err = cac.trnFirstTxo.WriteWordAt(putativeTxoHeight, transHeight)
 	if err != nil {
 		return -1, err
 	}
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	for _, hTxo := range trans.TxoHandles {
 		err = blockChain.GetTxoInfo(hTxo, cac.za_txoReceiver)
-- 
2.43.0


From 243c04227bbe22f262dee836ca377fbd41517f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 32/40] fix: chainstorage reports that an address hash could
 not be appended

---
 chainstorage/concretehasheschain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concretehasheschain.go b/chainstorage/concretehasheschain.go
index 68485a5..5322d50 100644
--- a/chainstorage/concretehasheschain.go
+++ b/chainstorage/concretehasheschain.go
@@ -171,6 +171,9 @@ func (chc *concreteHashesChain) AppendHashesChi(chain chainhandleinterface.IBloc
 			// and is not generally known to bitcoiners
 			puddingHash3 := indexedhashes.HashOfBytes(chc.za_txoReceiver.ScriptPubBytes)
 			_, err = chc.adrHashList.AppendHash(puddingHash3)
+			if err != nil {
+				return err
+			}
 		} // for txo
 	} // for trans
 
-- 
2.43.0


From 7e292f315f02c058dc8df4e9d85817a12eb32b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 33/40] fix: chainstorage hashes chain opened again appends
 after the hashes it already holds

---
 chainstorage/concretehasheschainfactory.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index ebf4e5d..e3f7e57 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -93,31 +93,43 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
+	stat, err := file.Stat()
+	if err != nil {
+		return nil, err
+	}
 	opt, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.blkHashList = *wordfile.NewHashFile(opt, 0)
+	result.blkHashList = *wordfile.NewHashFile(opt, stat.Size()/32)
 
 	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
 		return nil, err
 	}
+	stat, err = file.Stat()
+	if err != nil {
+		return nil, err
+	}
 	opt, err = memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, 0)
+	result.trnHashList = *wordfile.NewHashFile(opt, stat.Size()/32)
 
 	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
 		return nil, err
 	}
+	stat, err = file.Stat()
+	if err != nil {
+		return nil, err
+	}
 	opt, err = memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, 0)
+	result.adrHashList = *wordfile.NewHashFile(opt, stat.Size()/32)
 
 	return &result, nil
 }
-- 
2.43.0


From d73eeedfdcd3158765deedb105a24a22ece28969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 34/40] fix: intarrayarray store gives an empty array for a key
 in a file never written

---
 intarrayarray/cachedintarraymapstore.go | 3 +++
 intarrayarray/intarraymapstore.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 498de16..c54abfc 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -53,6 +53,9 @@ func (ms *CachedIntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing was ever appended to any array of this file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 8b8f054..62f1c71 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -45,6 +45,9 @@ func (ms *IntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing was ever appended to any array of this file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
-- 
2.43.0


From 60866067f680f35700ac44d4537e2b9ad72a8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 35/40] fix: the zeroes for a collisions chunk are enough for
 every supported chunk size

---
 indexedhashes/hashstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 0531636..84fba6f 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -30,7 +30,7 @@ func NewHashStore(partialHashBitCount int64, entryByteCount int64, collisionsPer
 	return &result
 }
 
-const ZEROBUF = 32 // Arbitrary number. Should be enough (we do check)
+const ZEROBUF = 72 // Enough for the biggest chunk that AppendHash() supports
 
 func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 
-- 
2.43.0


From 4fad1d7cd4dbb4688e558138439a8ccd4e04c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 36/40] fix: a hash store that is too full to index another
 hash refuses it before storing it

---
 indexedhashes/hashstore.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 84fba6f..fb1c27d 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -39,23 +39,20 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 		println("Note: Added a hash we know to be duplicated in the blockchain!")
 	}
 
-	// Write to hashes file
-	index, err := hs.hashesFile.AppendHash(hash)
+	hashV := binary.LittleEndian.Uint64(hash[0:8])
+	valnum, err := hs.hashesFile.CountHashes()
 	if err != nil {
-		// AppendHash() has already printed error
 		return -1, err
 	}
 
-	hashV := binary.LittleEndian.Uint64(hash[0:8])
-	valnum := index
-
 	NBYTES := hs.entryByteCount
 	MSB := int64(0x80) << (8 * (NBYTES - 1))
 	NBITS := hs.partialHashBitCount
 	NMASK := (int64(1) << NBITS) - 1
 	CPC := hs.collisionsPerChunk
 
-	if valnum >= MSB {
+	// valnum+1 is what is stored, and it must leave the MSB clear
+	if valnum+1 >= MSB {
 		err := errors.New("fatal: size of hashes file is now too large to index into")
 		log.Println("AppendHash(): FATAL: Size of hashes file is now too large to index into")
 		return -1, err
@@ -72,6 +69,13 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 		return -1, errors.New("Need to increase MAXCPC")
 	}
 
+	// Write to hashes file
+	index, err := hs.hashesFile.AppendHash(hash)
+	if err != nil {
+		// AppendHash() has already printed error
+		return -1, err
+	}
+
 	// Encode valnum+1 as NBYTES bytes
 	var valnumBytes [8]byte
 	binary.LittleEndian.PutUint64(valnumBytes[0:8], uint64(valnum+1)) // MUST be LittleEndian
-- 
2.43.0


From edbe7cb76e449da4e1c360d6940771e31fcdb4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 37/40] fix: hash store parameters that lose or cannot find
 hashes are refused

---
 indexedhashes/concretehashstorecreator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index ec4c90b..070beb6 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -21,9 +21,15 @@ type ConcreteHashStoreCreator struct {
 func NewConcreteHashStoreCreator(name string, folder string,
 	partialHashBitCount int64, entryByteCount int64, collisionsPerChunk int64,
 	useMemFileForLookup bool, useAppendOptimizedForHashes bool) (*ConcreteHashStoreCreator, error) {
-	if entryByteCount > ZEROBUF {
-		err := errors.New("hard coded ZEROBUF not big enough")
-		return nil, err
+	if partialHashBitCount < 0 || partialHashBitCount > 48 {
+		return nil, errors.New("partialHashBitCount must be from 0 to 48")
+	}
+	if entryByteCount < 1 || entryByteCount > 7 {
+		return nil, errors.New("entryByteCount must be from 1 to 7")
+	}
+	if collisionsPerChunk < 2 || collisionsPerChunk > 8 {
+		// A chunk starts off with the first two hashes that collide
+		return nil, errors.New("collisionsPerChunk must be from 2 to 8")
 	}
 
 	result := ConcreteHashStoreCreator{}
-- 
2.43.0


From 14d1127de8a717259b1b6bb1db9222d452db7792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 38/40] fix: a memory indexed hash store opened again finds the
 hashes it holds, each at its first index

---
 .../concretehashstorecreatormemory.go         | 10 +++++++
 indexedhashes/memoryindexed.go                | 29 +++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index 2753754..cf9c231 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -69,6 +69,11 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadMap()
+	if err != nil {
+		hashesFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
 func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader, error) {
@@ -89,5 +94,10 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadMap()
+	if err != nil {
+		hashesFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index df89735..10831db 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -22,11 +22,36 @@ func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
-	mih.theMap[*hash] = mih.count
-	mih.count++
+	mih.addToMap(hash)
 	return index, nil
 }
 
+// addToMap adds the next hash to the map. Of equal hashes it is the first that is to be found
+func (mih *MemoryIndexedHashes) addToMap(hash *Sha256) {
+	_, present := mih.theMap[*hash]
+	if !present {
+		mih.theMap[*hash] = mih.count
+	}
+	mih.count++
+}
+
+// loadMap indexes the hashes that are already in the file
+func (mih *MemoryIndexedHashes) loadMap() error {
+	count, err := mih.theStore.CountHashes()
+	if err != nil {
+		return err
+	}
+	for mih.count < count {
+		hash := Sha256{}
+		err = mih.theStore.GetHashAtIndex(mih.count, &hash)
+		if err != nil {
+			return err
+		}
+		mih.addToMap(&hash)
+	}
+	return nil
+}
+
 func (mih *MemoryIndexedHashes) Sync() error {
 	return mih.theStore.Sync()
 }
-- 
2.43.0


From b5455a1f9e2e665f0a718bb0a4a89fe79764420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 39/40] fix: uniform hash store has a bin for the hashes with
 the biggest address

---
 indexedhashes/multipasspreloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index de0be1f..188fc1e 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -230,7 +230,7 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 }
 
 func BiggestAddressPlusOne(hashDivider uint64) int64 {
-	return int64(math.Pow(2, 64)/float64(hashDivider) + 0.5) // Round to nearest!
+	return int64(math.MaxUint64/hashDivider) + 1 // The biggest hash has the biggest address
 }
 
 func (mp *MultipassPreloader) CreateInitialFiles() error {
-- 
2.43.0


From aafcf9b0ee278176f782501f9ca03d53341a593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 40/40] fix: creating a uniform hash store can write its
 parameters file

---
 indexedhashes/uniform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8d97243..2e43c31 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -126,7 +126,7 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 	}
 
 	sep := string(os.PathSeparator)
-	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE, 0755)
+	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 	defer fileParams.Close()
 	if err != nil {
 		return err
-- 
2.43.0

