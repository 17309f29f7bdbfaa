From 9d7b2f23be3305730162c27ae89abf38e9e15ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 01/26] fix: Do not panic on corrupted leaf item counts,
 offsets and sizes

---
 pkg/btrfs/leaf.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 42e0752..ad1e327 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -60,7 +60,19 @@ const (
 func (i Item) Key() Key       { return SliceKey(i[itemKey:]) }
 func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
-func (i Item) Data() []byte   { return i[ItemLen : ItemLen+i.Size()] }
+
+// Data returns the data of an item that is stored right after its header.
+func (i Item) Data() []byte {
+	if len(i) < ItemLen {
+		return nil
+	}
+	// Guard against invalid item sizes.
+	size := uint64(i.Size())
+	if max := uint64(len(i) - ItemLen); size > max {
+		size = max
+	}
+	return i[ItemLen : ItemLen+size]
+}
 
 type Leaf []byte
 
@@ -69,7 +81,10 @@ func (l Leaf) Header() Header { return Header(l) }
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-	maxItems := cap(l) / ItemLen
+	if len(l) < HeaderLen {
+		return 0
+	}
+	maxItems := (len(l) - HeaderLen) / ItemLen
 	numItems := l.Header().NrItems()
 	if numItems > uint32(maxItems) {
 		numItems = uint32(maxItems)
@@ -96,10 +111,13 @@ func (l Leaf) Key(i int) Key {
 
 func (l Leaf) Data(i int) []byte {
 	item := l.Item(i)
-	o := HeaderLen + item.Offset()
-	// Guard against invalid Item lengths.
-	leafLen := uint32(len(l))
-	e := o + item.Size()
+	o := HeaderLen + uint64(item.Offset())
+	// Guard against invalid Item offsets and lengths.
+	leafLen := uint64(len(l))
+	if o > leafLen {
+		o = leafLen
+	}
+	e := o + uint64(item.Size())
 	if e > leafLen {
 		e = leafLen
 	}
-- 
2.43.0


From 6da90e71ab3e3efbe4ab6390827082f38a80ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 02/26] fix: Do not panic on names and data lengths that point
 past the item

---
 pkg/btrfs/btrfs.go | 16 ++++++++--------
 pkg/btrfs/slice.go | 12 ++++++++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index b08d79f..2623d20 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -446,7 +446,7 @@ func (c Chunk) SubStripes() uint16 { return SliceUint16LE(c[chunkSubStripes:]) }
 
 // Stripe returns the ith stripe of this chunk.
 func (c Chunk) Stripe(i uint16) Stripe {
-	return Stripe(c[chunkStripes+i*stripeEnd:])
+	return Stripe(c[chunkStripes+int(i)*stripeEnd:])
 }
 
 type InodeItem []byte
@@ -517,7 +517,7 @@ func (i InodeRefItem) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(i[inodeRefItemName : inodeRefItemName+l])
+	return clampedString(i, inodeRefItemName, l)
 }
 
 // Directory item type
@@ -557,12 +557,12 @@ func (d DirItem) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(d[dirItemName : dirItemName+l])
+	return clampedString(d, dirItemName, l)
 }
 
 func (d DirItem) Data() string {
-	o := dirItemName + d.NameLen()
-	return string(d[o : o+d.DataLen()])
+	o := dirItemName + int(d.NameLen())
+	return clampedString(d, o, int(d.DataLen()))
 }
 
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
@@ -664,11 +664,11 @@ func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
-	l := int(i.RAMBytes())
+	l := i.RAMBytes()
 	if l > DefaultBlockSize {
 		l = DefaultBlockSize
 	}
-	return string(i[fileExtentItemDiskByteNr : fileExtentItemDiskByteNr+l])
+	return clampedString(i, fileExtentItemDiskByteNr, int(l))
 }
 
 type CSumItem []byte
@@ -794,7 +794,7 @@ func (r RootRef) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(r[rootRefName : rootRefName+l])
+	return clampedString(r, rootRefName, l)
 }
 
 // Extent item flags
diff --git a/pkg/btrfs/slice.go b/pkg/btrfs/slice.go
index edcb022..096c3a1 100644
--- a/pkg/btrfs/slice.go
+++ b/pkg/btrfs/slice.go
@@ -29,3 +29,15 @@ func SliceKey(b []byte) Key {
 func SliceTimeLE(b []byte) time.Time {
 	return time.Unix(int64(SliceUint64LE(b)), int64(SliceUint32LE(b[8:])))
 }
+
+// clampedString returns up to n bytes starting at offset o as a string. It
+// guards against lengths that point past the end of an item.
+func clampedString(b []byte, o, n int) string {
+	if o > len(b) {
+		o = len(b)
+	}
+	if n > len(b)-o {
+		n = len(b) - o
+	}
+	return string(b[o : o+n])
+}
-- 
2.43.0


From 04c9306342bd28c35c715438ce55e2221401e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 03/26] fix: Make KeyCompare return -1 and +1 as documented

---
 pkg/btrfs/btrfs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 2623d20..0bc5d36 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -282,8 +282,11 @@ const KeyLen = 8 + 1 + 8
 // KeyCompare compares two BTRFS keys lexicographically. It returns 0 if
 // a==b, -1 if a < b and +1 if a > b.
 func KeyCompare(a, b Key) int {
-	if r := int(a.Type) - int(b.Type); r != 0 {
-		return r
+	if a.Type < b.Type {
+		return -1
+	}
+	if a.Type > b.Type {
+		return 1
 	}
 	if a.ObjectID < b.ObjectID {
 		return -1
-- 
2.43.0


From e2b363e92ab52d0dcbd555a4eb7fd6cc3b7e87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 04/26] fix: Correct extent flag value, key type and object id
 names

---
 pkg/btrfs/btrfs.go     | 2 +-
 pkg/btrfs/to_string.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 0bc5d36..063c66a 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -804,7 +804,7 @@ func (r RootRef) Name() string {
 const (
 	ExtentFlagData = 1 << iota
 	ExtentFlagTreeBlock
-	ExtentFlagFullBackref = 0x80
+	ExtentFlagFullBackref = 0x100
 )
 
 // Items in the extent btree are used to record the objectid of the
diff --git a/pkg/btrfs/to_string.go b/pkg/btrfs/to_string.go
index cb58a74..6e1f9d1 100644
--- a/pkg/btrfs/to_string.go
+++ b/pkg/btrfs/to_string.go
@@ -30,7 +30,7 @@ func ObjectIDString(id uint64) string {
 	case UuidTreeObjectID:
 		return "UUID"
 	case FreeSpaceTreeObjectID:
-		return "FREES_SPACE_TREE"
+		return "FREE_SPACE_TREE"
 	case DevStatsObjectID:
 		return "DEV_STATS"
 	case BalanceObjectID:
@@ -124,6 +124,8 @@ func KeyTypeString(t uint8) string {
 		return "QGROUP_STATUS"
 	case QgroupInfoKey:
 		return "QGROUP_INFO"
+	case QgroupLimitKey:
+		return "QGROUP_LIMIT"
 	case QgroupRelationKey:
 		return "QGROUP_RELATION"
 	case TemporaryItemKey:
-- 
2.43.0


From 8101d4540415b414f18bb3b59dca114757d5de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 05/26] fix: Refuse unusable block sizes

---
 pkg/btrfs/util.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/btrfs/util.go b/pkg/btrfs/util.go
index 7a30acb..c3b001e 100644
--- a/pkg/btrfs/util.go
+++ b/pkg/btrfs/util.go
@@ -10,7 +10,17 @@ import (
 	"io"
 )
 
+// Range of valid block sizes
+const (
+	minBlockSize = 1 << 12
+	maxBlockSize = 1 << 16
+)
+
 func CheckDeviceSize(rs io.ReadSeeker, blockSize uint64) (uint64, error) {
+	if blockSize < minBlockSize || blockSize > maxBlockSize ||
+		blockSize&(blockSize-1) != 0 {
+		return 0, fmt.Errorf("invalid block size: %d", blockSize)
+	}
 	size, err := rs.Seek(0, io.SeekEnd)
 	if err == nil {
 		if uint64(size) < blockSize {
-- 
2.43.0


From 4c7128ee3b6da5a28401cde69ae7a05be93ab547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 06/26] fix: ReadBlockAt succeeds if and only if the whole
 block was read

---
 pkg/ioutil/ioutil.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/ioutil/ioutil.go b/pkg/ioutil/ioutil.go
index 4be2863..4cbf1af 100644
--- a/pkg/ioutil/ioutil.go
+++ b/pkg/ioutil/ioutil.go
@@ -13,10 +13,12 @@ import (
 //
 // It always either reads a full block or reports an error.
 func ReadBlockAt(r io.ReaderAt, block []byte, offset uint64) error {
-	if read, err := r.ReadAt(block, int64(offset)); err != nil {
-		return err
-	} else if read == len(block) {
+	read, err := r.ReadAt(block, int64(offset))
+	if read == len(block) {
 		return nil // Never return EOF if read succeeded
 	}
-	return nil
+	if err == nil {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From c929bab7659ef08c6f82aa578caa02b4ae5fe175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 07/26] fix: Make the profiling build and the build without
 FUSE support compile

---
 cmd/btrfscue/pprof.go              | 12 +++++++-----
 internal/rescuefs/rescuefs_null.go |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/btrfscue/pprof.go b/cmd/btrfscue/pprof.go
index 2f5eb65..f8d609d 100644
--- a/cmd/btrfscue/pprof.go
+++ b/cmd/btrfscue/pprof.go
@@ -14,6 +14,8 @@ import (
 	"os"
 	"runtime"
 	"runtime/pprof"
+
+	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
 )
 
 var (
@@ -24,12 +26,12 @@ var (
 func startProfiling() {
 	if *cpuprofile != "" {
 		f, err := os.Create(*cpuprofile)
-		reportError(err)
-		reportError(pprof.StartCPUProfile(f))
+		cliutil.ReportError(err)
+		cliutil.ReportError(pprof.StartCPUProfile(f))
 	}
 	// Enable local profiler at http://localhost:6060/debug/pprof/. See
 	// https://blog.golang.org/profiling-go-programs on how to use it.
-	go func() { reportError(http.ListenAndServe(":6060", nil)) }()
+	go func() { cliutil.ReportError(http.ListenAndServe(":6060", nil)) }()
 }
 
 func stopProfiling() {
@@ -37,9 +39,9 @@ func stopProfiling() {
 
 	if *memprofile != "" {
 		f, err := os.Create(*memprofile)
+		cliutil.ReportError(err)
 		defer f.Close()
-		reportError(err)
 		runtime.GC() // Update statistics
-		reportError(pprof.WriteHeapProfile(f))
+		cliutil.ReportError(pprof.WriteHeapProfile(f))
 	}
 }
diff --git a/internal/rescuefs/rescuefs_null.go b/internal/rescuefs/rescuefs_null.go
index 9beed0f..19887a6 100644
--- a/internal/rescuefs/rescuefs_null.go
+++ b/internal/rescuefs/rescuefs_null.go
@@ -11,12 +11,12 @@ import (
 	"errors"
 	"io"
 
-	"blichmann.eu/code/btrfscue/pkg/btrfs"
+	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 )
 
 type rescueFS struct{}
 
-func New(metadata string, ix *btrfs.Index, reader io.ReaderAt) rescueFS {
+func New(metadata string, ix *index.Index, reader io.ReaderAt) rescueFS {
 	// Do nothing
 	return rescueFS{}
 }
-- 
2.43.0


From 2f1760f41a9d442905a7d43e3256bb91343c62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 08/26] fix: Close the metadata database if it cannot be used

---
 pkg/btrfs/index/index_store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c87f6bb..7598464 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -115,9 +115,11 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 		return nil, err
 	}
 	if err = ix.checkUpdateMetadata(o); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	if err = ix.ensureTx(!o.ReadOnly); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	return ix, nil
@@ -151,6 +153,9 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 			return nil
 		}
 
+		if len(m) < indexMetadataEnd {
+			return errors.New("corrupt metadata header")
+		}
 		if !o.AllowOldVersion && m.Version() < MetadataVersion {
 			return fmt.Errorf("metadata version v%d too old, upgrade using "+
 				"upgrade-index", m.Version())
-- 
2.43.0


From c08782a41fbe057d0b46849c62a0e3e8dee1d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 09/26] fix: Report failing commits when closing an index, roll
 back failed raw transactions

---
 cmd/recon.go                   |  3 +--
 pkg/btrfs/index/index_store.go | 24 +++++++++++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/cmd/recon.go b/cmd/recon.go
index bd4585d..e138073 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -70,8 +70,7 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 	})
 	cliutil.ReportError(err)
 	defer func() {
-		cliutil.ReportError(ix.Commit())
-		ix.Close()
+		cliutil.ReportError(ix.Close())
 	}()
 
 	bar := pb.New64(int64(devSize)) //.SetUnits(pb.U_BYTES)
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 7598464..62ae965 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -184,15 +184,20 @@ func (ix *Index) Metadata() indexMetadata {
 	return indexMetadata(ix.bucket.Get(metadataKey))
 }
 
-// Close closes the index and its underlying bbolt database.
-func (ix *Index) Close() {
+// Close closes the index and its underlying bbolt database. It returns an error
+// if pending insertions could not be committed.
+func (ix *Index) Close() error {
+	var err error
 	// Make sure writable and read-only transactions are completed.
 	if !ix.db.IsReadOnly() {
-		ix.Commit()
+		err = ix.Commit()
 	} else {
-		ix.tx.Rollback()
+		err = ix.tx.Rollback()
+	}
+	if closeErr := ix.db.Close(); err == nil {
+		err = closeErr
 	}
-	ix.db.Close()
+	return err
 }
 
 func (ix *Index) ensureTx(writable bool) error {
@@ -247,6 +252,14 @@ func (ix *Index) Commit() error {
 	return err
 }
 
+// rollback discards any pending transaction.
+func (ix *Index) rollback() {
+	ix.tx.Rollback()
+	ix.tx = nil
+	ix.txNum = 0
+	ix.bucket = nil
+}
+
 // RawTx executes a transaction function on underlying BoltDB database. This
 // is an advanced feature that should not be called in regular operation. It
 // is used by the upgrade-index sub-command, for example, to upgrade legacy
@@ -259,6 +272,7 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 		return err
 	}
 	if err := fn(ix.db, ix.tx, ix.bucket); err != nil {
+		ix.rollback()
 		return err
 	}
 	return ix.Commit()
-- 
2.43.0


From df6b3da118d6d551c93f02ddd3015d203b642526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 10/26] fix: Find the newest allowed generation of an item and
 iterate over all items of a range

---
 pkg/btrfs/index/index_store.go | 81 ++++++++++++++--------------------
 1 file changed, 33 insertions(+), 48 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 62ae965..12698cb 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -278,61 +278,40 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	return ix.Commit()
 }
 
-// lowerBound finds an FS key under a given owner and only up to a prefix
-// length. It find the key with the highest generation number smaller than or
-// equal to the index generation.
-// For example, to search for (256 DIR_INDEX ?) owned by the FS tree object:
-//   lowerBound(FSTreeObjectID, KF(DIR_INDEX, 256), keyV2Offset)
-func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
-	prefix int) btrfs.Key {
-	var cur, next keyV2
-	search := newIndexKey(owner, k, 0)[:prefix]
-	cur, _ = c.Seek(search)
-	if cur == nil || !bytes.Equal(cur[:prefix], search) {
-		return KL()
-	}
-
-	for {
-		curKeyPrefix := cur[:keyV2Generation]
-		next, _ = c.Next()
-		if next != nil && bytes.Equal(next[:keyV2Generation], curKeyPrefix) {
-			if next.Generation() > gen {
-				return cur.Key()
-			}
-			cur = next
-			continue
-		}
-		return cur.Key()
-	}
-}
-
+// find finds the FS key with the highest generation number smaller than or equal
+// to the specified generation. If all generations are higher, finds the lowest
+// one.
 func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	keyV2, btrfs.Item) {
 	search := newIndexKey(owner, k, generation)
 	var found keyV2
 	found, v := c.Seek(search)
-	if bytes.Compare(found[:keyV2Generation],
-		search[:keyV2Generation]) <= 0 {
+	if bytes.Equal(found, search) {
 		return found, v
 	}
 	if found, v = c.Prev(); len(found) > 0 && bytes.Equal(
 		found[:keyV2Generation], search[:keyV2Generation]) {
 		return found, v
 	}
+	// No allowed generation, the next key holds the lowest higher one, if any.
+	if found, v = c.Seek(search); len(found) > 0 && bytes.Equal(
+		found[:keyV2Generation], search[:keyV2Generation]) {
+		return found, v
+	}
 	return nil, nil
 }
 
-func findNext(c *bbolt.Cursor, ik, end keyV2) (keyV2, btrfs.Item) {
+// findNext finds the next FS key after ik with the same owner at the generation
+// that find() selects for it.
+func findNext(c *bbolt.Cursor, ik keyV2, generation uint64) (keyV2,
+	btrfs.Item) {
 	search := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
 	var found keyV2
-	if found, _ = c.Seek(search); found != nil {
-		search = newIndexKey(ik.Owner(), found.Key(), ik.Generation())
-		var v btrfs.Item
-		if found, v = c.Seek(search); bytes.Compare(found, search) <= 0 {
-			return found, v
-		} else if end != nil && bytes.Compare(found, end) <= 0 {
-			return found, v
-		}
+	if found, _ = c.Seek(search); bytes.Equal(found, search) {
+		found, _ = c.Next()
+	}
+	if found != nil && found.Owner() == ik.Owner() {
+		return find(c, ik.Owner(), found.Key(), generation)
 	}
 	return nil, nil
 }
@@ -355,7 +334,8 @@ func (r *Range) HasNext() bool {
 }
 
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key, nil); r.key != nil {
+	if r.key, r.value = findNext(r.cursor, r.key,
+		r.ix.Generation); r.key != nil {
 		return r.value.Data()
 	}
 	return nil
@@ -366,16 +346,18 @@ func (r *Range) Key() btrfs.Key     { return r.key.Key() }
 func (r *Range) Generation() uint64 { return r.key.Generation() }
 func (r *Range) Item() btrfs.Item   { return r.value }
 
-// Range returns an index range [first, last) for the given keys.
+// Range returns an index range [first, last] for the given keys.
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(owner, last, ix.Generation),
+		end:    newIndexKey(owner, last, ^uint64(0)),
+	}
+	var found keyV2
+	if found, _ = r.cursor.Seek(newIndexKey(owner, first,
+		0)); found != nil && found.Owner() == owner {
+		r.key, r.value = find(r.cursor, owner, found.Key(), ix.Generation)
 	}
-	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
-		keyV2Offset)
-	r.key, r.value = find(r.cursor, owner, lowerFirst, ix.Generation)
 	if r.key != nil {
 		return r, r.value.Data()
 	}
@@ -391,9 +373,12 @@ type FullRange struct {
 	Range
 }
 
+func (r *FullRange) HasNext() bool {
+	return r.key != nil && bytes.Compare(r.key, r.end) < 0
+}
+
 func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.key != nil && !bytes.Equal(r.key,
-		r.end) {
+	if r.key, r.value = r.cursor.Next(); r.HasNext() {
 		return r.value.Data()
 	}
 	return nil
@@ -405,7 +390,7 @@ func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
+		end:    metadataKey,
 	}}
 	// No check, since openIndex should fail if there's no data
 	r.key, r.value = r.cursor.First()
-- 
2.43.0


From 2f883cdcb335a602ae3f7819b06380e5486d856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 11/26] fix: Skip items that are shorter than their structure

---
 pkg/btrfs/btrfs.go             |  3 ++
 pkg/btrfs/index/index_store.go | 51 +++++++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 063c66a..dd3fd5e 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -417,6 +417,7 @@ const (
 	chunkNumStripes = chunkSectorSize + 4
 	chunkSubStripes = chunkNumStripes + 2
 	chunkStripes    = chunkSubStripes + 2
+	ChunkLen        = chunkStripes + stripeEnd // With a single stripe
 )
 
 // Length returns the size of this chunk in bytes
@@ -547,6 +548,7 @@ const (
 	dirItemNameLen  = dirItemDataLen + 2
 	dirItemType     = dirItemNameLen + 2
 	dirItemName     = dirItemType + 1
+	DirItemLen      = dirItemName // Excluding name and data
 )
 
 func (d DirItem) Location() Key   { return SliceKey(d[dirItemLocation:]) }
@@ -623,6 +625,7 @@ const (
 	fileExtentItemOffset       = fileExtentItemDiskNumBytes + 8
 	fileExtentItemNumBytes     = fileExtentItemOffset + 8
 	FileExtentItemEnd          = fileExtentItemNumBytes + 8
+	FileExtentItemInlineLen    = fileExtentItemDiskByteNr // Excluding data
 )
 
 // Transaction id that created this extent
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 12698cb..a46507b 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -316,6 +316,25 @@ func findNext(c *bbolt.Cursor, ik keyV2, generation uint64) (keyV2,
 	return nil, nil
 }
 
+// wellFormed returns whether the data of an item is long enough to hold the
+// structure that its key type asks for.
+func wellFormed(t uint8, data []byte) bool {
+	switch t {
+	case btrfs.InodeItemKey:
+		return len(data) >= btrfs.InodeItemLen
+	case btrfs.XAttrItemKey, btrfs.DirItemKey, btrfs.DirIndexKey:
+		return len(data) >= btrfs.DirItemLen
+	case btrfs.ExtentDataKey:
+		return len(data) >= btrfs.FileExtentItemEnd ||
+			len(data) >= btrfs.FileExtentItemInlineLen &&
+				btrfs.FileExtentItem(data).IsInline()
+	case btrfs.ChunkItemKey:
+		return len(data) >= btrfs.ChunkLen
+	default:
+		return true
+	}
+}
+
 // Range encapsulates a generic index range. Internally, it holds a cursor of
 // the underlying key-value store as well as the current position and the end
 // of range marker.
@@ -333,12 +352,18 @@ func (r *Range) HasNext() bool {
 	return r.key != nil && bytes.Compare(r.key, r.end) <= 0
 }
 
+// Next moves to the next item in this range and returns its data. It skips
+// damaged items.
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key,
-		r.ix.Generation); r.key != nil {
-		return r.value.Data()
+	for {
+		r.key, r.value = findNext(r.cursor, r.key, r.ix.Generation)
+		if !r.HasNext() {
+			return nil
+		}
+		if data := r.value.Data(); wellFormed(r.key.Type(), data) {
+			return data
+		}
 	}
-	return nil
 }
 
 func (r *Range) Owner() uint64      { return r.key.Owner() }
@@ -358,10 +383,14 @@ func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 		0)); found != nil && found.Owner() == owner {
 		r.key, r.value = find(r.cursor, owner, found.Key(), ix.Generation)
 	}
-	if r.key != nil {
-		return r, r.value.Data()
+	if !r.HasNext() {
+		return r, nil
+	}
+	if data := r.value.Data(); wellFormed(r.key.Type(), data) {
+		return r, data
 	}
-	return r, nil
+	data := r.Next()
+	return r, data
 }
 
 // RangeAll returns an index range for all items related to the key (t id ?).
@@ -441,14 +470,16 @@ func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
 }
 
 func (ix *Index) FindInodeItem(owner uint64, inode uint64) btrfs.InodeItem {
-	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil {
+	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey,
+		inode)); wellFormed(btrfs.InodeItemKey, i.Data()) {
 		return i.Data()
 	}
 	return nil
 }
 
 func (ix *Index) FindFileExtentItem(owner uint64, id uint64) btrfs.FileExtentItem {
-	if i := ix.FindItem(owner, KF(btrfs.ExtentDataKey, id)); i != nil {
+	if i := ix.FindItem(owner, KF(btrfs.ExtentDataKey,
+		id)); wellFormed(btrfs.ExtentDataKey, i.Data()) {
 		return i.Data()
 	}
 	return nil
@@ -512,7 +543,7 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		// Fast path: Try to find item by name hash search first:
 		// (dirID, BTRFS_DIR_ITEM, CRC32(comp))
 		if v := ix.FindItem(owner, KF(btrfs.DirItemKey, dirID,
-			uint64(NameHash(comp)))); v != nil {
+			uint64(NameHash(comp)))); wellFormed(btrfs.DirItemKey, v.Data()) {
 			d = v.Data()
 			if found = d.Name() == comp; found {
 				result = d
-- 
2.43.0


From 45440f267af6c16bc7e495cb91edac2bf92ecaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 12/26] fix: Report addresses that no chunk maps, do not race
 on or print the address map

---
 cmd/recover.go                 | 10 ++++++++--
 internal/rescuefs/files.go     | 10 +++++++++-
 pkg/btrfs/index/index_store.go | 24 ++++++++++++++++--------
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 25bdd46..f536308 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -183,7 +183,10 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 					return fmt.Errorf("write zeros failed: %w", err)
 				}
 			} else {
-				_, physOffset := ix.Physical(e.DiskByteNr())
+				_, physOffset, ok := ix.Physical(e.DiskByteNr())
+				if !ok {
+					return fmt.Errorf("no chunk for logical address %d", e.DiskByteNr())
+				}
 				srcOffset := physOffset + e.Offset()
 
 				const chunkSize = 1024 * 1024
@@ -241,7 +244,10 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		target = e.Data()
 	} else {
 		if e.DiskByteNr() > 0 && devFile != nil {
-			_, physOffset := ix.Physical(e.DiskByteNr())
+			_, physOffset, ok := ix.Physical(e.DiskByteNr())
+			if !ok {
+				return fmt.Errorf("no chunk for logical address %d", e.DiskByteNr())
+			}
 			srcOffset := physOffset + e.Offset()
 			buf := make([]byte, e.NumBytes())
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fc6f0d2..9b80955 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -21,6 +21,7 @@ type extentMapEntry struct {
 	physOffset uint64
 	diskByteNr uint64
 	devID      uint64
+	unmapped   bool // No chunk for diskByteNr
 }
 
 type extentFile struct {
@@ -46,8 +47,11 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 	for ; r.HasNext(); e = r.Next() {
 		var phys uint64
 		var dev uint64
+		unmapped := false
 		if e.DiskByteNr() > 0 {
-			dev, phys = fs.ix.Physical(e.DiskByteNr())
+			var ok bool
+			dev, phys, ok = fs.ix.Physical(e.DiskByteNr())
+			unmapped = !ok
 		}
 		f.extentMap = append(f.extentMap, extentMapEntry{
 			fileOffset: r.Key().Offset,
@@ -55,6 +59,7 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 			physOffset: phys + e.Offset(),
 			diskByteNr: e.DiskByteNr(),
 			devID:      dev,
+			unmapped:   unmapped,
 		})
 	}
 	return f
@@ -134,6 +139,9 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 			for i := int64(0); i < chunkSize; i++ {
 				buf[destOffset+i] = 0
 			}
+		} else if entry.unmapped {
+			cliutil.Warnf("no chunk for logical address %d\n", entry.diskByteNr)
+			return nil, fuse.EIO
 		} else {
 			// Read from physical device
 			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index a46507b..c674999 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"sort"
 	"strings"
+	"sync"
 
 	"fmt"
 
@@ -53,7 +54,8 @@ type Index struct {
 	txNum      int
 	Generation uint64
 
-	stripeMap []stripeMapEntry
+	stripeMapMu sync.Mutex // Guards stripeMap
+	stripeMap   []stripeMapEntry
 }
 
 // Options sets options for opening a metadata index.
@@ -493,10 +495,14 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 	return nil
 }
 
-// Physical maps a filesystem logical address to a physical, on-disk address.
+// Physical maps a filesystem logical address to a physical, on-disk address. It
+// returns false if no chunk starts at or before the logical address.
 // Note: No attempt is made to deal with "holes", missing chunk entries, or
 // logical addresses not mapping to any chunk.
-func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
+func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64,
+	ok bool) {
+	ix.stripeMapMu.Lock()
+	defer ix.stripeMapMu.Unlock()
 	if ix.stripeMap == nil {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
@@ -509,7 +515,6 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 				logical: r.Key().Offset,
 				devID:   s.DevID(),
 				offset:  s.Offset()})
-			fmt.Printf("stripe: %d => %d @ %d\n", r.Key().Offset, s.Offset(), r.Generation())
 		}
 	}
 
@@ -518,16 +523,19 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	i := sort.Search(stripeMapLen, func(i int) bool {
 		return ix.stripeMap[i].logical >= logical
 	})
-	if i == stripeMapLen || (i > 0 && ix.stripeMap[i].logical != logical) {
+	if i == stripeMapLen || ix.stripeMap[i].logical != logical {
 		// Not found, adjust index value, as it's an insertion point (see
-		// documentation for sort.Search()). Unless i was 0, in which case the
-		// position is fine.
+		// documentation for sort.Search()). Unless i was 0, in which case no
+		// chunk contains the address.
+		if i == 0 {
+			return 0, 0, false
+		}
 		i--
 	}
 	s := ix.stripeMap[i]
 	// TODO(cblichmann): We can check for the failure case if we store the
 	//                   stripe length in the cache and do a range check here.
-	return s.devID, s.offset + logical - s.logical
+	return s.devID, s.offset + logical - s.logical, true
 }
 
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
-- 
2.43.0


From c3fe8fee2dee8538e03e7d59170e3cb3a2214bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 13/26] fix: Never write through existing files or symlinks
 when recovering, refuse empty names

---
 cmd/recover.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index f536308..5578419 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -57,6 +57,9 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 	if err := os.MkdirAll(destDir, 0755); err != nil {
 		cliutil.Fatalf("failed to create destination directory: %v\n", err)
 	}
+	// Only the destination directory itself may be a symlink
+	destDir, err = filepath.EvalSymlinks(destDir)
+	cliutil.ReportError(err)
 
 	visited := make(map[[2]uint64]bool)
 
@@ -87,10 +90,14 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentDest string, options recoverFilesOptions, visited map[[2]uint64]bool) error {
 	key := [2]uint64{owner, dirID}
 	if visited[key] {
+		cliutil.Verbosef("skipping %s, directory already recovered\n", currentDest)
 		return nil
 	}
 	visited[key] = true
 
+	if fi, err := os.Lstat(currentDest); err == nil && !fi.IsDir() {
+		return fmt.Errorf("%s already exists and is not a directory", currentDest)
+	}
 	if err := os.MkdirAll(currentDest, 0755); err != nil {
 		return err
 	}
@@ -102,7 +109,8 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	for _, di := range dis {
 		name := di.Name()
-		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+			cliutil.Warnf("skipping entry with invalid name %q in %s\n", name, currentDest)
 			continue
 		}
 
@@ -134,9 +142,14 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 }
 
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
-		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
-		return nil
+	if _, err := os.Lstat(targetPath); err == nil {
+		if !options.clobber {
+			cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
+			return nil
+		}
+		if err := os.Remove(targetPath); err != nil {
+			return err
+		}
 	}
 
 	ii := ix.FindInodeItem(owner, inode)
@@ -145,7 +158,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		fileSize = ii.Size()
 	}
 
-	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)
 	if err != nil {
 		return err
 	}
@@ -231,7 +244,9 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 			cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
 			return nil
 		}
-		_ = os.Remove(targetPath)
+		if err := os.Remove(targetPath); err != nil {
+			return err
+		}
 	}
 
 	e := ix.FindFileExtentItem(owner, inode)
-- 
2.43.0


From e6dc1fa46694f0a6228f09560648b6e356d9e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 14/26] fix: Report files that could not be recovered
 completely

---
 cmd/recover.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 5578419..15028f6 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -141,7 +141,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	return nil
 }
 
-func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
+func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) (err error) {
 	if _, err := os.Lstat(targetPath); err == nil {
 		if !options.clobber {
 			cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
@@ -162,16 +162,17 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	cliutil.Verbosef("recovering file: %s (size: %d)\n", targetPath, fileSize)
 
 	r, e := ix.FileExtentItems(owner, inode)
 	if !r.HasNext() {
-		if ii != nil {
-			_ = f.Truncate(int64(fileSize))
-		}
-		return nil
+		return f.Truncate(int64(fileSize))
 	}
 
 	for ; r.HasNext(); e = r.Next() {
@@ -223,6 +224,9 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 						if err == io.EOF && bytesCopied < numBytes {
 							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
 						}
+						if bytesCopied < numBytes {
+							return fmt.Errorf("reading device/image failed: %w", err)
+						}
 						break
 					}
 				}
-- 
2.43.0


From 55b04a899d11ed92dd149b99c8afff92c0240f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 15/26] fix: Do not panic on inline data beyond the end of the
 file

---
 cmd/recover.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 15028f6..bdc763c 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -181,8 +181,12 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		if e.IsInline() {
 			inlineData := []byte(e.Data())
 			limit := len(inlineData)
-			if ii != nil && int64(fileOffset)+int64(limit) > int64(fileSize) {
-				limit = int(fileSize - fileOffset)
+			if ii != nil {
+				if fileOffset >= fileSize {
+					limit = 0
+				} else if rest := fileSize - fileOffset; uint64(limit) > rest {
+					limit = int(rest)
+				}
 			}
 			if limit > 0 {
 				if _, err := f.WriteAt(inlineData[:limit], int64(fileOffset)); err != nil {
-- 
2.43.0


From ee4d753fadf78dd9ee4c79bd22daed53a21e7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 16/26] fix: Recover holes and preallocated extents without
 allocating or copying, bound symlink targets

---
 cmd/recover.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index bdc763c..5bc9557 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -20,6 +20,9 @@ import (
 	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 )
 
+// Maximum length of the target of a symlink
+const maxSymlinkLen = 4096
+
 type recoverFilesOptions struct {
 	clobber bool
 }
@@ -181,7 +184,9 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		if e.IsInline() {
 			inlineData := []byte(e.Data())
 			limit := len(inlineData)
-			if ii != nil {
+			if ii == nil {
+				fileSize = fileOffset + uint64(limit)
+			} else {
 				if fileOffset >= fileSize {
 					limit = 0
 				} else if rest := fileSize - fileOffset; uint64(limit) > rest {
@@ -195,12 +200,12 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 			}
 		} else {
 			numBytes := e.NumBytes()
-			if e.DiskByteNr() == 0 {
-				zeros := make([]byte, numBytes)
-				if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
-					return fmt.Errorf("write zeros failed: %w", err)
-				}
-			} else {
+			if ii == nil && fileOffset+numBytes > fileSize {
+				// No inode item, let the file end after its last extent
+				fileSize = fileOffset + numBytes
+			}
+			// Holes and preallocated extents read as zeros
+			if e.DiskByteNr() != 0 && e.Type() == btrfs.FileExtentReg {
 				_, physOffset, ok := ix.Physical(e.DiskByteNr())
 				if !ok {
 					return fmt.Errorf("no chunk for logical address %d", e.DiskByteNr())
@@ -238,10 +243,8 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		}
 	}
 
-	if ii != nil {
-		if err := f.Truncate(int64(fileSize)); err != nil {
-			return fmt.Errorf("truncate failed: %w", err)
-		}
+	if err := f.Truncate(int64(fileSize)); err != nil {
+		return fmt.Errorf("truncate failed: %w", err)
 	}
 	return nil
 }
@@ -272,6 +275,9 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 				return fmt.Errorf("no chunk for logical address %d", e.DiskByteNr())
 			}
 			srcOffset := physOffset + e.Offset()
+			if e.NumBytes() > maxSymlinkLen {
+				return fmt.Errorf("symlink target too long: %d", e.NumBytes())
+			}
 			buf := make([]byte, e.NumBytes())
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
 				target = string(buf)
-- 
2.43.0


From 2a5c2a47d810e66f399c2703d4a0adb645d82710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 17/26] fix: Follow subvolumes into their own tree and end on
 directory cycles when listing

---
 cmd/ls.go                      | 33 +++++++++++++++++++++++++--------
 pkg/btrfs/index/index_store.go | 16 ++++++++++------
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 81c0f58..1511020 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -61,9 +61,19 @@ func shortTime(t time.Time) string {
 	return t.Format("Jan _2 15:04")
 }
 
+// dirItemTarget returns the owner and the inode that a directory entry in the
+// tree of the given owner refers to. For subvolumes, this is the root directory
+// of the subvolume's own tree.
+func dirItemTarget(owner uint64, di btrfs.DirItem) (uint64, uint64) {
+	if di.IsSubvolume() {
+		return di.Location().ObjectID, btrfs.FirstFreeObjectID
+	}
+	return owner, di.Location().ObjectID
+}
+
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
-	inode := di.Location().ObjectID
+	owner, inode := dirItemTarget(owner, di)
 	if showInode {
 		fmt.Fprintf(w, "%d\t", di.Location().ObjectID)
 	}
@@ -95,7 +105,8 @@ func (a dirItemSlice) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
 func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
-	recursive, showInode bool) {
+	recursive, showInode bool, visited map[[2]uint64]bool) {
+	visited[[2]uint64{owner, dirID}] = true
 	dis := dirItemSlice{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
 		dis = append(dis, v)
@@ -104,15 +115,19 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	todo := dirItemSlice{}
 	for _, di := range dis {
 		listDirItem(w, ix, owner, di, showInode)
-		// TODO(cblichmann): Subvolumes/Snapshots, add owner
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
 	}
 
 	for _, di := range todo {
+		// Visit directories only once, damaged metadata may contain cycles
+		subOwner, subDirID := dirItemTarget(owner, di)
+		if visited[[2]uint64{subOwner, subDirID}] {
+			continue
+		}
 		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, di.Location().ObjectID, true, showInode)
+		listDirectory(w, ix, subOwner, subDirID, true, showInode, visited)
 	}
 }
 
@@ -166,21 +181,23 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 			continue
 		}
 
-		if di := ix.FindDirItemForPath(owner, p); di == nil {
+		if di, diOwner := ix.FindDirItemForPath(owner, p); di == nil {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
 		} else if !di.IsDir() {
-			listDirItem(w, ix, owner, di, options.Inode)
+			listDirItem(w, ix, diOwner, di, options.Inode)
 			continue
 		} else {
-			todo = append(todo, Todo{owner, di.Location().ObjectID})
+			subOwner, subDirID := dirItemTarget(diOwner, di)
+			todo = append(todo, Todo{subOwner, subDirID})
 		}
 	}
 	w.Flush()
 
 	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
-		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode)
+		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
+			make(map[[2]uint64]bool))
 	}
 	w.Flush()
 }
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c674999..004a5f7 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -539,9 +539,13 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64,
 }
 
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
-// the path is clean, as returned by path.Clean().
-func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
+// the path is clean, as returned by path.Clean(). Also returns the owner of the
+// item, which differs from the specified one if the path crosses into a
+// subvolume.
+func (ix *Index) FindDirItemForPath(owner uint64, path string) (btrfs.DirItem,
+	uint64) {
 	result := btrfs.DirItem(nil)
+	resultOwner := owner
 	dirID := uint64(btrfs.FirstFreeObjectID)
 	pathComps := strings.Split(strings.TrimLeft(path, "/"), "/")
 	for i, comp := range pathComps {
@@ -554,7 +558,7 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 			uint64(NameHash(comp)))); wellFormed(btrfs.DirItemKey, v.Data()) {
 			d = v.Data()
 			if found = d.Name() == comp; found {
-				result = d
+				result, resultOwner = d, owner
 			}
 		}
 		if !found {
@@ -562,14 +566,14 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 			var r Range
 			for r, d = ix.DirItems(owner, dirID); r.HasNext(); d = r.Next() {
 				if found = d.Name() == comp && (d.IsDir() || last); found {
-					result = d
+					result, resultOwner = d, owner
 					break
 				}
 			}
 		}
 
 		if !found {
-			return nil
+			return nil, 0
 		}
 		if !d.IsSubvolume() {
 			dirID = d.Location().ObjectID
@@ -578,7 +582,7 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 			dirID = btrfs.FirstFreeObjectID
 		}
 	}
-	return result
+	return result, resultOwner
 }
 
 func keyFirst(k *btrfs.Key, args []uint64) {
-- 
2.43.0


From c6159c1193d8d90e8f9998e6bbb52bd76ea57e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 18/26] fix: Skip unreadable blocks instead of giving up

---
 cmd/recon.go                  | 9 ++++-----
 internal/identify/identify.go | 6 +++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/recon.go b/cmd/recon.go
index e138073..9b54b92 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -6,7 +6,6 @@
 package cmd
 
 import (
-	"io"
 	"os"
 
 	"github.com/cheggaaa/pb/v3"
@@ -82,10 +81,10 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 
 	// Start right after the first superblock
 	for off := uint64(btrfs.SuperInfoOffset) + bs; off < devSize; off += bs {
-		if err = ioutil.ReadBlockAt(f, buf, off); err == io.EOF {
-			break
-		} else if err != nil {
-			cliutil.ReportError(err)
+		if err = ioutil.ReadBlockAt(f, buf, off); err != nil {
+			cliutil.Warnf("skipping unreadable block at offset %d: %v\n", off,
+				err)
+			continue
 		}
 		bar.SetCurrent(int64(off))
 		l := btrfs.Leaf(buf)
diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index c89d88b..cda5d3e 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -106,7 +106,11 @@ func IdentifyFS(filename string, options IdentifyFSOptions) {
 	coll := FSIDCollecter{}
 	for i, offset := range samples {
 		bar.SetCurrent(int64(i + 1))
-		cliutil.ReportError(ioutil.ReadBlockAt(dev, buf, offset))
+		if err := ioutil.ReadBlockAt(dev, buf, offset); err != nil {
+			cliutil.Warnf("skipping unreadable block at offset %d: %v\n", offset,
+				err)
+			continue
+		}
 		coll.CollectBlock(buf)
 	}
 	bar.Finish()
-- 
2.43.0


From d77900025f39800ca17db5635add21ecf4de2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 19/26] fix: Sample only blocks on the device, cover all super
 blocks and always end sampling

---
 internal/identify/identify.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index cda5d3e..d38db4d 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -30,31 +30,39 @@ func (a Uint64Array) Sort()              { sort.Sort(a) }
 
 func MakeSampleOffsets(devSize, blockSize, numSamples uint64) []uint64 {
 	sampleSet := make(map[uint64]bool)
+	addSample := func(offset uint64) {
+		// Only sample blocks that completely lie on the device
+		if offset < devSize && devSize-offset >= blockSize {
+			sampleSet[offset] = true
+		}
+	}
 	for i := 0; i < 100; i++ {
-		sampleSet[btrfs.SuperInfoOffset+uint64(i)*blockSize] = true
-		sampleSet[btrfs.SuperInfoOffset2+uint64(i+100)*blockSize] = true
+		addSample(btrfs.SuperInfoOffset + uint64(i)*blockSize)
+		addSample(btrfs.SuperInfoOffset2 + uint64(i)*blockSize)
 	}
 	if devSize >= btrfs.SuperInfoOffset3 {
 		for i := 0; i < 100; i++ {
-			sampleSet[btrfs.SuperInfoOffset3+uint64(i+200)*blockSize] = true
+			addSample(btrfs.SuperInfoOffset3 + uint64(i)*blockSize)
 		}
 		if devSize >= btrfs.SuperInfoOffset4 {
 			// For completeness, handle huge devices
 			for i := 0; i < 100; i++ {
-				sampleSet[btrfs.SuperInfoOffset3+uint64(i+300)*blockSize] = true
+				addSample(btrfs.SuperInfoOffset4 + uint64(i)*blockSize)
 			}
 		}
 	}
 	numBlocks := int64(devSize / blockSize)
+	// There are no more than numBlocks different blocks to sample
+	if numSamples > uint64(numBlocks) {
+		numSamples = uint64(numBlocks)
+	}
 	for uint64(len(sampleSet)) < numSamples {
 		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
 	}
 	// Sort samples vector to access device in one direction only
-	samples := make(Uint64Array, numSamples)
-	i := 0
+	samples := make(Uint64Array, 0, len(sampleSet))
 	for o := range sampleSet {
-		samples[i] = o
-		i++
+		samples = append(samples, o)
 	}
 	samples.Sort()
 	return samples
-- 
2.43.0


From 2dc7fded09039147f23c835c18bb9cb094ffd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 20/26] fix: Open the metadata database read-only whatever
 flags a client passes

---
 internal/rescuefs/nodefs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 892283d..350099b 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -75,7 +75,10 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 func (n *metadataNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	if f, err := os.OpenFile(n.fs.metadata, int(flags), 0555); err != nil {
+	if flags&syscall.O_ACCMODE != syscall.O_RDONLY {
+		return nil, fuse.EROFS
+	}
+	if f, err := os.Open(n.fs.metadata); err != nil {
 		return nil, fuse.ToStatus(err)
 	} else {
 		return nodefs.NewReadOnlyFile(nodefs.NewLoopbackFile(f)), fuse.OK
-- 
2.43.0


From 3df9b27f5c6fe53a86aa30cfc8f38e9213556183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 21/26] fix: Guard cached attributes and directory entries of
 mounted nodes

---
 internal/rescuefs/nodefs.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 350099b..c6d6c8e 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -9,6 +9,7 @@ package rescuefs
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"time"
 
@@ -91,6 +92,7 @@ type rescueNode struct {
 	ix       *index.Index
 	owner    uint64
 	ixInode  uint64
+	mu       sync.Mutex // Guards attr and dirItems
 	attr     *fuse.Attr // Cached attributes
 	dirItems map[string]btrfs.DirItem
 }
@@ -108,10 +110,11 @@ func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
 	if n.attr == nil {
 		ii := n.ix.FindInodeItem(n.owner, n.ixInode)
 		if ii == nil {
-			fmt.Println("No data for", n.owner, n.ixInode) //DBG!!!
 			return fuse.ENOATTR
 		}
 		n.attr = &fuse.Attr{
@@ -133,6 +136,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	return fuse.OK
 }
 
+// ensureDirItems must be called with the lock held.
 func (n *rescueNode) ensureDirItems() {
 	if len(n.dirItems) > 0 {
 		return
@@ -144,8 +148,10 @@ func (n *rescueNode) ensureDirItems() {
 
 func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	context *fuse.Context) (*nodefs.Inode, fuse.Status) {
+	n.mu.Lock()
 	n.ensureDirItems()
 	d, ok := n.dirItems[name]
+	n.mu.Unlock()
 	if !ok {
 		return nil, fuse.ENOENT
 	}
@@ -164,6 +170,8 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
 	n.ensureDirItems()
 	var s []fuse.DirEntry
 	for _, di := range n.dirItems {
-- 
2.43.0


From cdc0d3e9a60718c7f53973c9c7868e4a21aefe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 22/26] fix: Read all extents, holes, preallocated ranges and
 empty files through the mounted view

---
 internal/rescuefs/files.go  | 45 ++++++++++++++++++++++++-------------
 internal/rescuefs/nodefs.go |  5 +----
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index 9b80955..5238a25 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -8,11 +8,13 @@
 package rescuefs
 
 import (
-	"io"
+	"math"
 
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
+
+	"blichmann.eu/code/btrfscue/pkg/btrfs"
 )
 
 type extentMapEntry struct {
@@ -34,9 +36,6 @@ type extentFile struct {
 
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 	r, e := fs.ix.FileExtentItems(owner, id)
-	if !r.HasNext() {
-		return nil
-	}
 	f := &extentFile{
 		File:      nodefs.NewReadOnlyFile(nodefs.NewDefaultFile()),
 		fs:        fs,
@@ -45,19 +44,26 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		extentMap: make([]extentMapEntry, 0, 1),
 	}
 	for ; r.HasNext(); e = r.Next() {
+		if e.IsInline() {
+			continue
+		}
 		var phys uint64
 		var dev uint64
 		unmapped := false
-		if e.DiskByteNr() > 0 {
+		diskByteNr := e.DiskByteNr()
+		if e.Type() != btrfs.FileExtentReg {
+			diskByteNr = 0 // Preallocated extents read as zeros, like holes
+		}
+		if diskByteNr > 0 {
 			var ok bool
-			dev, phys, ok = fs.ix.Physical(e.DiskByteNr())
+			dev, phys, ok = fs.ix.Physical(diskByteNr)
 			unmapped = !ok
 		}
 		f.extentMap = append(f.extentMap, extentMapEntry{
 			fileOffset: r.Key().Offset,
 			length:     e.NumBytes(),
 			physOffset: phys + e.Offset(),
-			diskByteNr: e.DiskByteNr(),
+			diskByteNr: diskByteNr,
 			devID:      dev,
 			unmapped:   unmapped,
 		})
@@ -98,18 +104,29 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 }
 
 func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse.Status) {
-	if off < 0 {
+	if off < 0 || off > math.MaxInt64-int64(len(buf)) {
 		return nil, fuse.EINVAL
 	}
+	var attr fuse.Attr
+	f.GetAttr(&attr)
+	if uint64(off) >= attr.Size {
+		return fuse.ReadResultData(nil), fuse.OK
+	}
+	if rest := attr.Size - uint64(off); uint64(len(buf)) > rest {
+		buf = buf[:rest]
+	}
+	// Ranges that are not covered by any extent read as zeros
+	for i := range buf {
+		buf[i] = 0
+	}
 
-	bytesRead := 0
 	bufLen := len(buf)
 
 	for _, entry := range f.extentMap {
 		if off >= int64(entry.fileOffset+entry.length) {
 			continue
 		}
-		if off+int64(bufLen-bytesRead) <= int64(entry.fileOffset) {
+		if off+int64(bufLen) <= int64(entry.fileOffset) {
 			break
 		}
 
@@ -122,7 +139,7 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 			readStart = extentStart
 		}
 
-		readEnd := off + int64(bufLen-bytesRead)
+		readEnd := off + int64(bufLen)
 		if readEnd > extentEnd {
 			readEnd = extentEnd
 		}
@@ -151,17 +168,13 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 					buf[destOffset+i] = 0
 				}
 			} else {
-				if _, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); err != nil && err != io.EOF {
+				if n, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); int64(n) < chunkSize {
 					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
 					return nil, fuse.EIO
 				}
 			}
 		}
-		bytesRead += int(chunkSize)
 	}
 
-	if bytesRead < bufLen {
-		return fuse.ReadResultData(buf[:bytesRead]), fuse.OK
-	}
 	return fuse.ReadResultData(buf), fuse.OK
 }
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index c6d6c8e..8812bbd 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -188,10 +188,7 @@ func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
 	// TODO(cblichmann): HACK HACK HACK!
 	r, e := n.ix.FileExtentItems(n.owner, n.ixInode)
-	if !r.HasNext() {
-		return nil, fuse.ENOENT
-	}
-	if e.IsInline() {
+	if r.HasNext() && e.IsInline() {
 		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
 			[]byte(e.Data()))), fuse.OK
 	}
-- 
2.43.0


From 5a879dacdec39f5a9fec1ec1eb2bad41d895c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 23/26] fix: Show symlinks as such in directories, report
 failing stat of the metadata

---
 internal/rescuefs/nodefs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 8812bbd..0325aae 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -18,6 +18,7 @@ import (
 
 	"fmt" //DBG!!!
 
+	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
 	"blichmann.eu/code/btrfscue/pkg/btrfs"
 	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 )
@@ -67,7 +68,9 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 	n := &metadataNode{basicNode: *fs.newNode()}
 
 	fi := &syscall.Stat_t{}
-	syscall.Stat(fs.metadata, fi)
+	if err := syscall.Stat(fs.metadata, fi); err != nil {
+		cliutil.Warnf("cannot stat metadata: %v\n", err)
+	}
 
 	n.info.FromStat(fi)
 	n.info.Mode = n.info.Mode&0555 | fuse.S_IFREG
@@ -178,6 +181,8 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
 		if di.IsDir() {
 			entry.Mode = fuse.S_IFDIR
+		} else if di.Type() == btrfs.FtSymlink {
+			entry.Mode = fuse.S_IFLNK
 		}
 		s = append(s, entry)
 	}
-- 
2.43.0


From 0f0e6387860b083e70aa1e9ba6aa59fc5d83cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 24/26] fix: do not replace the image when recovering with
 --clobber

---
 cmd/recover.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 5bc9557..8612e92 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -144,13 +144,26 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	return nil
 }
 
+// removeExisting makes room for a file that is recovered. It never removes the
+// device file/image itself.
+func removeExisting(devFile *os.File, existing os.FileInfo, path string) error {
+	fi, err := devFile.Stat()
+	if err != nil {
+		return err
+	}
+	if os.SameFile(fi, existing) {
+		return fmt.Errorf("refusing to replace the image being recovered")
+	}
+	return os.Remove(path)
+}
+
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) (err error) {
-	if _, err := os.Lstat(targetPath); err == nil {
+	if fi, err := os.Lstat(targetPath); err == nil {
 		if !options.clobber {
 			cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
 			return nil
 		}
-		if err := os.Remove(targetPath); err != nil {
+		if err := removeExisting(devFile, fi, targetPath); err != nil {
 			return err
 		}
 	}
@@ -250,12 +263,12 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 }
 
 func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Lstat(targetPath); err == nil {
+	if fi, err := os.Lstat(targetPath); err == nil {
 		if !options.clobber {
 			cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
 			return nil
 		}
-		if err := os.Remove(targetPath); err != nil {
+		if err := removeExisting(devFile, fi, targetPath); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 0c0cdd0e6888f15b02ad06374bc4242f28f49193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 25/26] fix: refuse to use the device as metadata database

---
 cmd/recon.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/recon.go b/cmd/recon.go
index 9b54b92..02e11f2 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -62,6 +62,15 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 
 	buf := make([]byte, bs)
 
+	// Never write to the device itself
+	if mi, err := os.Stat(metadata); err == nil {
+		fi, err := f.Stat()
+		cliutil.ReportError(err)
+		if os.SameFile(fi, mi) {
+			cliutil.Fatalf("metadata and device are the same file\n")
+		}
+	}
+
 	ix, err := index.Open(app.Global.Metadata, 0644, &index.Options{
 		BlockSize:  uint(bs),
 		FSID:       options.id,
-- 
2.43.0


From 7db6111f0f060be05170640e0224fd81a2fdd3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 26/26] fix: Serialize the creation of database cursors for
 concurrent requests

---
 pkg/btrfs/index/index_store.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 004a5f7..99fc181 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -50,6 +50,8 @@ type Index struct {
 	tx     *bbolt.Tx
 	bucket *bbolt.Bucket
 
+	cursorMu sync.Mutex // Guards bucket while creating cursors
+
 	// Number of inserts that are in flight in the current transaction
 	txNum      int
 	Generation uint64
@@ -219,6 +221,14 @@ func (ix *Index) ensureTx(writable bool) error {
 	return err
 }
 
+// newCursor returns a cursor for the index. Transactions count the cursors that
+// they hand out, so this needs to be serialized.
+func (ix *Index) newCursor() *bbolt.Cursor {
+	ix.cursorMu.Lock()
+	defer ix.cursorMu.Unlock()
+	return ix.bucket.Cursor()
+}
+
 // InsertItem inserts a filesystem item into the index, referenceable by its
 // BTRFS key. Also stores the item's owner and generation number, as well as
 // its inline data.
@@ -377,7 +387,7 @@ func (r *Range) Item() btrfs.Item   { return r.value }
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.newCursor(),
 		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
 	var found keyV2
@@ -420,7 +430,7 @@ func (r *FullRange) Next() []byte {
 func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.newCursor(),
 		end:    metadataKey,
 	}}
 	// No check, since openIndex should fail if there's no data
@@ -467,7 +477,7 @@ func (ix *Index) DevItems() (Range, btrfs.DevItem) {
 // to the current index generation. If the index generation is smaller than
 // any existing generation, the data at the earliest generatation is returned.
 func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
-	_, i := find(ix.bucket.Cursor(), owner, k, ix.Generation)
+	_, i := find(ix.newCursor(), owner, k, ix.Generation)
 	return i
 }
 
-- 
2.43.0

