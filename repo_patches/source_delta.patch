From 27d8e8de26e92712c526ea5697e26868e92533e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 01/24] fix: gmap.Equal looked the keys up in the map being
 ranged over

Every entry was compared with itself, so any two maps of the same length were
reported equal.
---
 gogenerics/gcontainers/gmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index ab0d76f..24f99c8 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -81,7 +81,7 @@ func Equal[K, V comparable](m1, m2 map[K]V) bool {
 	}
 
 	for k, v1 := range m1 {
-		v2, ok := m1[k]
+		v2, ok := m2[k]
 		if !ok || v2 != v1 {
 			return false
 		}
-- 
2.43.0


From e1f19d5c98e0ba16ff9d19d53655b0e4765a1c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 02/24] fix: Map.CompareAndSwap and CompareAndDelete ignored
 the old value

Both succeeded for any present key; they must act only when the stored value
equals old.
---
 gogenerics/gconcurrent/sync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 7d64677..91c1596 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -166,7 +166,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 // the entry unchanged.
 func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 	p := e.p.Load()
-	if p == nil || unsafe.Pointer(p) == expunged {
+	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 		return false
 	}
 
@@ -179,7 +179,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 			return true
 		}
 		p = e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 	}
@@ -434,7 +434,7 @@ func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}
 	for ok {
 		p := e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
-- 
2.43.0


From 7f16105c4595d8649d1455f158ac3b1b5d822cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 03/24] fix: AtomicError.Set panicked when errors of different
 types were set

---
 gogenerics/gconstraints/errors.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconstraints/errors.go b/gogenerics/gconstraints/errors.go
index 81c3bbd..d744069 100644
--- a/gogenerics/gconstraints/errors.go
+++ b/gogenerics/gconstraints/errors.go
@@ -7,20 +7,26 @@ import (
 // AtomicError defines an atomic error.
 
 type AtomicError struct {
-	err atomic.Value // error
+	err atomic.Value // errorBox
+}
+
+// errorBox gives every stored error the same concrete type,
+// as atomic.Value panics when the types of two stored values differ.
+type errorBox struct {
+	err error
 }
 
 // Set sets the error.
 func (ae *AtomicError) Set(err error) {
 	if err != nil {
-		ae.err.Store(err)
+		ae.err.Store(errorBox{err: err})
 	}
 }
 
 // Load returns the error.
 func (ae *AtomicError) Load() error {
 	if v := ae.err.Load(); v != nil {
-		return v.(error)
+		return v.(errorBox).err
 	}
 	return nil
 }
-- 
2.43.0


From db71bf6828b3b1b159ed10cb4db11065243c5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 04/24] fix: gslice.Merge wrote into the spare capacity of its
 first argument

---
 gogenerics/gcontainers/gslice/slice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gslice/slice.go b/gogenerics/gcontainers/gslice/slice.go
index 5e3a692..b4fd416 100644
--- a/gogenerics/gcontainers/gslice/slice.go
+++ b/gogenerics/gcontainers/gslice/slice.go
@@ -151,7 +151,9 @@ func Merge[T any](s1, s2 []T) []T {
 	if s2 == nil {
 		return Copy(s1)
 	}
-	return append(s1, s2...)
+	s := make([]T, 0, len(s1)+len(s2))
+	s = append(s, s1...)
+	return append(s, s2...)
 }
 
 // IsSorted reports whether x is sorted in ascending order
-- 
2.43.0


From 6c5e69b1ca434ae78ba7dedb4445a59a6a73c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 05/24] fix: AESDecrypt panicked on a ciphertext that ends in a
 partial block

---
 library/cryptox/cryptox.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cb29f56..e9aae28 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -87,6 +87,10 @@ func AESDecrypt(cipherKey, ciphertext []byte, useBase64 ...bool) ([]byte, error)
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	// ECB mode always works in whole blocks.
+	if len(src)%blockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	r := make([]byte, len(src))
 	dst := r
 	for len(src) > 0 {
-- 
2.43.0


From 54f7550e275aabc029547bfadb6b88153fde920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 06/24] fix: AES encryption wrote its padding into the spare
 capacity of the plaintext

---
 library/cryptox/cryptox.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index e9aae28..2e8db0c 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -207,6 +207,8 @@ func mustNewCipher(cipherKey []byte) cipher.Block {
 
 func pkcs5Padding(plainText []byte, blockSize int) []byte {
 	n := byte(blockSize - len(plainText)%blockSize)
+	// never append to the spare capacity of the caller's slice
+	plainText = plainText[:len(plainText):len(plainText)]
 	for i := byte(0); i < n; i++ {
 		plainText = append(plainText, n)
 	}
-- 
2.43.0


From 1df6385f6530ea3fe58df56156fb836b2308a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 07/24] fix: AES decryption accepted padding lengths no
 encryption produces

---
 library/cryptox/cryptox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index 2e8db0c..44ce577 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -221,7 +221,7 @@ func pkcs5Unpadding(r []byte) ([]byte, error) {
 		return nil, errors.New("input padded bytes is empty")
 	}
 	last := int(r[l-1])
-	if l-last < 0 {
+	if last == 0 || last > aes.BlockSize || l-last < 0 {
 		return nil, errors.New("input padded bytes is invalid")
 	}
 	n := byte(last)
-- 
2.43.0


From 5ab79b8b0a62355c44e131fcb7d23af40887ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 08/24] fix: BitSet.Count panicked on a range within one byte

---
 library/bitset/bitset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 757c39f..d992a45 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -131,6 +131,9 @@ func (b *BitSet) Count(start, end int) int {
 	if !valid {
 		return 0
 	}
+	if sgi == egi {
+		return bits.OnesCount8(b.set[sgi] << sbi >> (sbi + 7 - ebi))
+	}
 	var n int
 	n += bits.OnesCount8(b.set[sgi] << sbi)
 	for _, v := range b.set[sgi+1 : egi] {
-- 
2.43.0


From b9ed41d9a75b8272b52431114ae8e918ae158706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 09/24] fix: BitSet.Sub panicked on a range within one byte and
 misplaced the bits

---
 library/bitset/bitset.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index d992a45..c7bb76c 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -352,14 +352,18 @@ func (b *BitSet) Sub(start, end int) *BitSet {
 	if !valid {
 		return newBitSet
 	}
+	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
+	if sgi == egi {
+		newBitSet.set = append(newBitSet.set, last<<sbi)
+		return newBitSet
+	}
 	pre := b.set[sgi] << sbi
 	for _, v := range b.set[sgi+1 : egi] {
-		newBitSet.set = append(newBitSet.set, pre|v>>(7-sbi))
+		newBitSet.set = append(newBitSet.set, pre|v>>(8-sbi))
 		pre = v << sbi
 	}
-	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
-	newBitSet.set = append(newBitSet.set, pre|last>>(7-sbi))
-	if sbi < ebi {
+	newBitSet.set = append(newBitSet.set, pre|last>>(8-sbi))
+	if sbi <= ebi {
 		newBitSet.set = append(newBitSet.set, last<<sbi)
 	}
 	return newBitSet
-- 
2.43.0


From cfceb4f7ed9cfb60e606390e4025862454a4a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 10/24] fix: combining bit sets held several of their locks at
 once and could deadlock

---
 library/bitset/bitset.go | 45 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index c7bb76c..f766569 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -187,21 +187,17 @@ func (b *BitSet) Not() *BitSet {
 //
 //	If the bitSets are empty, returns b.
 func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
 	if len(bitSets) == 0 {
 		return b
 	}
+	set, sets := b.Bytes(), copySets(bitSets)
 	var (
-		maxLen  = len(b.set)
+		maxLen  = len(set)
 		minLen  = maxLen
 		currLen int
 	)
-	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-
-		currLen = len(g.set)
+	for _, g := range sets {
+		currLen = len(g)
 		if currLen > maxLen {
 			maxLen = currLen
 		} else if currLen < minLen {
@@ -212,14 +208,24 @@ func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
 		set: make([]byte, maxLen),
 	}
 	for i := range rBitSet.set[:minLen] {
-		rBitSet.set[i] = b.set[i]
-		for _, g := range bitSets {
-			rBitSet.set[i] &= g.set[i]
+		rBitSet.set[i] = set[i]
+		for _, g := range sets {
+			rBitSet.set[i] &= g[i]
 		}
 	}
 	return rBitSet
 }
 
+// copySets copies the bytes of the bit sets one after another, as holding the
+// locks of several bit sets at once can deadlock.
+func copySets(bitSets []*BitSet) [][]byte {
+	sets := make([][]byte, 0, len(bitSets))
+	for _, g := range bitSets {
+		sets = append(sets, g.Bytes())
+	}
+	return sets
+}
+
 // Or returns all the "OR" bit sets.
 // NOTE:
 //
@@ -248,15 +254,12 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	if len(bitSets) == 0 {
 		return b
 	}
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	set, sets := b.Bytes(), copySets(bitSets)
 	var (
-		maxLen, currLen = len(b.set), 0
+		maxLen, currLen = len(set), 0
 	)
-	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-		currLen = len(g.set)
+	for _, g := range sets {
+		currLen = len(g)
 		if currLen > maxLen {
 			maxLen = currLen
 		}
@@ -264,9 +267,9 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	rBitSet := &BitSet{
 		set: make([]byte, maxLen),
 	}
-	copy(rBitSet.set, b.set)
-	for _, g := range bitSets {
-		for i, gb := range g.set {
+	copy(rBitSet.set, set)
+	for _, g := range sets {
+		for i, gb := range g {
 			switch op {
 			case "|":
 				rBitSet.set[i] = rBitSet.set[i] | gb
-- 
2.43.0


From e305a650afe438bdd287eb5f9ce1fa82add35244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 11/24] fix: BitSet.Range called its callback with the lock
 held and deadlocked when it used the bit set

---
 library/bitset/bitset.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index f766569..5486541 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -101,14 +101,14 @@ func (b *BitSet) Get(offset int) bool {
 // Range calls f sequentially for each bit present in the bit set.
 // If f returns false, range stops the iteration.
 func (b *BitSet) Range(f func(offset int, truth bool) bool) {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
-	size := b.size()
+	// f may use the bit set, so do not call it with the lock held
+	set := b.Bytes()
+	size := len(set) * 8
 	if size == 0 {
 		return
 	}
 	for offset := 0; offset < size; offset++ {
-		if !f(offset, getBit(b.set[offset/8], byte(offset%8)) == 1) {
+		if !f(offset, getBit(set[offset/8], byte(offset%8)) == 1) {
 			return
 		}
 	}
-- 
2.43.0


From 4943278c0dd23960a9960cae2c73bd3694d87f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 12/24] fix: bitset.New shared its memory with the slice passed
 to it

---
 library/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 5486541..5080f42 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -20,7 +20,7 @@ type BitSet struct {
 
 // New creates a bit set object.
 func New(init ...byte) *BitSet {
-	return &BitSet{set: init}
+	return &BitSet{set: append([]byte(nil), init...)}
 }
 
 // NewFromHex creates a bit set object from hex string.
-- 
2.43.0


From 15007bb2eed7e2f181c5c92ecf6d50a182c75b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 13/24] fix: LRUCacheV2.MGet used the cache without its lock

---
 library/cachex/lrucache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cachex/lrucache.go b/library/cachex/lrucache.go
index 7b800be..5420a9a 100644
--- a/library/cachex/lrucache.go
+++ b/library/cachex/lrucache.go
@@ -96,6 +96,9 @@ func (lc *LRUCacheV2[K, V]) MGet(_ context.Context, keys ...K) ([]V, []bool, err
 	if len(keys) == 0 {
 		return nil, nil, nil
 	}
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
+
 	values := make([]V, len(keys))
 	oks := make([]bool, len(keys))
 	for idx, key := range keys {
-- 
2.43.0


From 9a96f990f484e8b4ea21c30db00560fa91c43232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 14/24] fix: Chain.MGet reported a key given more than once as
 a miss

---
 library/cachex/cache.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index c6ec8e5..cd87a37 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -157,9 +157,9 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		return nil, nil, nil
 	}
 	length := len(keys)
-	indexMap := make(map[K]int, length)
+	indexMap := make(map[K][]int, length)
 	for i, k := range keys {
-		indexMap[k] = i
+		indexMap[k] = append(indexMap[k], i)
 	}
 	values := make([]V, length)
 	status := make([]bool, length)
@@ -176,9 +176,10 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		}
 		for j := 0; j < len(oks); j++ {
 			if oks[j] {
-				keyIndex := indexMap[keys[j]]
-				values[keyIndex] = vals[j]
-				status[keyIndex] = true
+				for _, keyIndex := range indexMap[keys[j]] {
+					values[keyIndex] = vals[j]
+					status[keyIndex] = true
+				}
 			}
 		}
 		// Set the content queried from the next-level cache to the upper-level cache
-- 
2.43.0


From 8ad321d4e1be95ad3afb109f0c9a369c4106cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 15/24] fix: FileStore gc removed files that are not cache
 files

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index be9cd26..93f46ad 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -221,7 +221,7 @@ func (f *FileStore[K, V]) scanExpire() {
 		if err != nil {
 			return nil
 		}
-		if d.IsDir() {
+		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
 			return nil
 		}
 		_, _, _ = f.readFile(path)
-- 
2.43.0


From 6478a582936bf25ceac07f144655797843483729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 16/24] fix: FileStore.Purge looked at the wrong error and
 tried to remove directories

---
 library/cachex/file.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 93f46ad..4aba2ec 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -237,9 +237,16 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-		if strings.HasSuffix(path, cacheFileExt) {
+		if err != nil {
+			if !os.IsNotExist(err) {
+				errTotal++
+				lastErr = err
+			}
+			return nil
+		}
+		if !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
-			if e != nil && !os.IsNotExist(err) {
+			if e != nil && !os.IsNotExist(e) {
 				errTotal++
 				lastErr = e
 			}
-- 
2.43.0


From 39682412c890e4a6acbebd623cf7c629dcab2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 17/24] fix: FileStore panicked on a cache file that holds the
 JSON value null

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 4aba2ec..ba3eb44 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -71,7 +71,7 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 		return emp, false, err
 	}
 	item := &fileCacheItem[K, V]{}
-	err = json.Unmarshal(content, &item)
+	err = json.Unmarshal(content, item)
 	if err != nil {
 		_ = os.Remove(fp)
 		var emp V
-- 
2.43.0


From f6e66f28829082e21201128bbb85cbda2c35e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 18/24] fix: FileStore could scan twice within one GC cycle

---
 library/cachex/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index ba3eb44..4d64d85 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -206,6 +206,11 @@ func (f *FileStore[K, V]) gc() {
 	if !f.gcStatus.CompareAndSwap(false, true) {
 		return
 	}
+	// another scan may have ended since lastGC was loaded above
+	if time.Now().Unix()-f.lastGC.Load() < int64(cycle/time.Second) {
+		f.gcStatus.Store(false)
+		return
+	}
 	go func() {
 		defer func() {
 			f.lastGC.Store(time.Now().Unix())
-- 
2.43.0


From 1dd6e14ed44c3bccc9f1d6035087436112678a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 19/24] fix: mapreduce hung or lost a panic raised when nobody
 was waiting for it

---
 gogenerics/gconcurrent/mr/mr.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2c7d316..1369377 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -104,7 +104,7 @@ func FinishVoid(fns ...func()) {
 // ForEach maps all elements from given generate but no output.
 func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Option) {
 	options := buildOptions(opts...)
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	collector := make(chan any)
 	done := make(chan struct{})
@@ -127,6 +127,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 			panic(v)
 		case _, ok := <-collector:
 			if !ok {
+				panicChan.rethrow()
 				return
 			}
 		}
@@ -137,7 +138,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 // and reduces the output elements with given reducer.
 func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
@@ -145,7 +146,7 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
 
@@ -155,11 +156,18 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	options := buildOptions(opts...)
 	// output is used to write the final result
 	output := make(chan V)
+	// use atomic type to avoid data race
+	var retErr gconstraints.AtomicError
 	defer func() {
 		// reducer can only write once, if more, panic
 		for range output {
+			drain(output)
 			panic("more than one element written in reducer")
 		}
+		// a panic may have been raised after or along with the output
+		if retErr.Load() == nil {
+			panicChan.rethrow()
+		}
 	}()
 
 	// collector is used to collect data from mapper, and consume in reducer
@@ -168,8 +176,6 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	done := make(chan struct{})
 	writer := newGuardedWriter(options.ctx, output, done)
 	var closeOnce sync.Once
-	// use atomic type to avoid data race
-	var retErr gconstraints.AtomicError
 	finish := func() {
 		closeOnce.Do(func() {
 			close(done)
@@ -384,6 +390,21 @@ type onceChan struct {
 	wrote   int32
 }
 
+// newOnceChan leaves room for the one value that is written,
+// so that a writer never waits for a reader that may have gone.
+func newOnceChan() *onceChan {
+	return &onceChan{channel: make(chan any, 1)}
+}
+
+// rethrow panics with the value that was written, if there is one.
+func (oc *onceChan) rethrow() {
+	select {
+	case v := <-oc.channel:
+		panic(v)
+	default:
+	}
+}
+
 func (oc *onceChan) write(val any) {
 	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
 		oc.channel <- val
-- 
2.43.0


From 39de95228c99421cde9b52a2f4e7444eb4fd1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 20/24] fix: FileStore.Set exposed partly written files to
 concurrent reads

---
 library/cachex/file.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 4d64d85..f4d84fa 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -110,7 +110,40 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	if err != nil && os.IsNotExist(err) {
 		_ = os.MkdirAll(dir, 0777)
 	}
-	return os.WriteFile(fp, content, 0666)
+	return writeFile(fp, content)
+}
+
+// writeFile replaces the file in one step, so that a concurrent read, or a crash,
+// never sees a partly written file
+func writeFile(fp string, content []byte) error {
+	tmp, err := createTemp(fp)
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(content)
+	if e := tmp.Close(); err == nil {
+		err = e
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), fp)
+	}
+	if err != nil {
+		_ = os.Remove(tmp.Name())
+	}
+	return err
+}
+
+var tempID atomic.Int64
+
+// createTemp creates a new file beside fp, with the permissions of a cache file
+func createTemp(fp string) (*os.File, error) {
+	for {
+		name := fmt.Sprintf("%s.%d.%d.tmp", fp, os.Getpid(), tempID.Add(1))
+		tmp, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+		if err == nil || !os.IsExist(err) {
+			return tmp, err
+		}
+	}
 }
 
 // MGet Batch read the content from the cache
-- 
2.43.0


From 771f18cf31d40c48e54c2ac7f0bf4d2874b53b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 21/24] fix: FileStore.Get read and removed files of the
 working directory when Dir is empty

---
 library/cachex/file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index f4d84fa..d8b2bb0 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -56,6 +56,10 @@ func (f *FileStore[K, V]) getFilePath(key K) string {
 //	2nd: whether the cache exists, when true, the first parameter is valid
 //	3rd: error information
 func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
+	if f.Dir == "" {
+		var emp V
+		return emp, false, errDirEmpty
+	}
 	defer f.gc()
 	fp := f.getFilePath(key)
 	return f.readFile(fp)
-- 
2.43.0


From f7aaa0fcba63950a3e7fb5601b2309640cdacf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 22/24] fix: a cancel in MapReduce closed the output channel
 under the reducer's Write

---
 gogenerics/gconcurrent/mr/mr.go | 38 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 1369377..c1e6108 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -158,11 +158,20 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	output := make(chan V)
 	// use atomic type to avoid data race
 	var retErr gconstraints.AtomicError
+	// if done is closed, all mappers and reducer should stop processing
+	done := make(chan struct{})
 	defer func() {
 		// reducer can only write once, if more, panic
-		for range output {
-			drain(output)
-			panic("more than one element written in reducer")
+		for open := true; open; {
+			select {
+			case <-done:
+				open = false
+			case _, open = <-output:
+				if open {
+					drain(output)
+					panic("more than one element written in reducer")
+				}
+			}
 		}
 		// a panic may have been raised after or along with the output
 		if retErr.Load() == nil {
@@ -172,16 +181,7 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 
 	// collector is used to collect data from mapper, and consume in reducer
 	collector := make(chan U, options.workers)
-	// if done is closed, all mappers and reducer should stop processing
-	done := make(chan struct{})
 	writer := newGuardedWriter(options.ctx, output, done)
-	var closeOnce sync.Once
-	finish := func() {
-		closeOnce.Do(func() {
-			close(done)
-			close(output)
-		})
-	}
 	cancel := once(func(err error) {
 		if err != nil {
 			retErr.Set(err)
@@ -190,7 +190,7 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		}
 
 		drain(source)
-		finish()
+		close(done)
 	})
 
 	go func() {
@@ -199,7 +199,9 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 			if r := recover(); r != nil {
 				panicChan.write(r)
 			}
-			finish()
+			// closed by the only goroutine that writes to it,
+			// a cancel must not close it while the reducer is writing
+			close(output)
 		}()
 
 		reducer(collector, writer, cancel)
@@ -225,6 +227,8 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		// drain output here, otherwise for loop panic in defer
 		drain(output)
 		panic(v)
+	case <-done:
+		err = retErr.Load()
 	case v, ok := <-output:
 		if e := retErr.Load(); e != nil {
 			err = e
@@ -381,7 +385,11 @@ func (gw guardedWriter[T]) Write(v T) {
 	case <-gw.done:
 		return
 	default:
-		gw.channel <- v
+	}
+
+	select {
+	case <-gw.done:
+	case gw.channel <- v:
 	}
 }
 
-- 
2.43.0


From 369d99cf3aac23d5630951c49abaafd2f5666f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:34 +0000
Subject: [PATCH 23/24] fix: MapReduce lost a panic when a cancel came after
 the output

---
 gogenerics/gconcurrent/mr/mr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index c1e6108..29a6b7a 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -174,7 +174,7 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 			}
 		}
 		// a panic may have been raised after or along with the output
-		if retErr.Load() == nil {
+		if err == nil || errors.Is(err, ErrReduceNoOutput) {
 			panicChan.rethrow()
 		}
 	}()
-- 
2.43.0


From c8137609386deeb661fd3fae17fada2c2dbb6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:04 +0000
Subject: [PATCH 24/24] fix: Pool.Get panicked on a nil value of an interface
 type

---
 gogenerics/gcontainers/gpool/syncpool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gpool/syncpool.go b/gogenerics/gcontainers/gpool/syncpool.go
index 2cb4561..529281f 100644
--- a/gogenerics/gcontainers/gpool/syncpool.go
+++ b/gogenerics/gcontainers/gpool/syncpool.go
@@ -21,7 +21,9 @@ func New[T any](fn func() T) Pool[T] {
 
 // Get is a generic wrapper around sync.Pool's Get method.
 func (p *Pool[T]) Get() T {
-	return p.pool.Get().(T)
+	// a nil value of an interface type comes out as an untyped nil
+	v, _ := p.pool.Get().(T)
+	return v
 }
 
 // Put is a generic wrapper around sync.Pool's Put method.
-- 
2.43.0

