From 280de4283a26aba29742fc0ef17b577bfe1bc60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 01/37] fix: flush pending removals when updates fill the add
 cache

Documents waiting for their old version to be removed stay in the add
cache. When they filled it, the next AddDocToCache wrote past its end and
panicked with an index out of range.
---
 core/indexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index ac9fc56..bca90b5 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -159,7 +159,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		}
 
 		indexer.tableLock.Unlock()
-		if indexer.RemoveDocToCache("0", forceUpdate) {
+		// 缓存被等待更新的文档占满时必须先执行删除, 否则下一个文档无处存放
+		cacheFull := position >= indexer.initOptions.DocCacheSize
+		if indexer.RemoveDocToCache("0", forceUpdate || cacheFull) {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
 			position = 0
 		}
-- 
2.43.0


From 2aa049de3f76e29683b87abc47928730c1dfe0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 02/37] fix: keep the last version of a document added several
 times in a batch

Moving the documents that wait for a removal to the front of the add cache
swapped them with other documents, and the following sort was not stable,
so of two versions of a document in one batch the older one could win.
---
 core/indexer.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index bca90b5..3f972ff 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -129,6 +129,8 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.tableLock.Lock()
 
 		position := 0
+		// 等待更新的文档移到最前, 其余文档随后, 两部分都保持加入的先后次序
+		newDocs := make(types.DocsIndex, 0, indexer.addCacheLock.addCachePointer)
 		for i := 0; i < indexer.addCacheLock.addCachePointer; i++ {
 			docIndex := indexer.addCacheLock.addCache[i]
 
@@ -136,10 +138,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 			if ok && docState <= 1 {
 				// ok && docState == 0 表示存在于索引中，需先删除再添加
 				// ok && docState == 1 表示不一定存在于索引中，等待删除，需先删除再添加
-				if position != i {
-					indexer.addCacheLock.addCache[position], indexer.addCacheLock.addCache[i] =
-						indexer.addCacheLock.addCache[i], indexer.addCacheLock.addCache[position]
-				}
+				indexer.addCacheLock.addCache[position] = docIndex
 
 				if docState == 0 {
 					// delete docs
@@ -153,10 +152,14 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 					indexer.numDocs--
 				}
 				position++
-			} else if !ok {
-				indexer.tableLock.docsState[docIndex.DocId] = 2
+			} else {
+				if !ok {
+					indexer.tableLock.docsState[docIndex.DocId] = 2
+				}
+				newDocs = append(newDocs, docIndex)
 			}
 		}
+		copy(indexer.addCacheLock.addCache[position:], newDocs)
 
 		indexer.tableLock.Unlock()
 		// 缓存被等待更新的文档占满时必须先执行删除, 否则下一个文档无处存放
@@ -170,7 +173,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.addCacheLock.addCachePointer = position
 
 		indexer.addCacheLock.Unlock()
-		sort.Sort(addCachedDocs)
+		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
 	} else {
 		indexer.addCacheLock.Unlock()
-- 
2.43.0


From 1cf4a9430d0fe8b33ec00c13566dc75de87db1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 03/37] fix: hold the cache locks while the indexer commits its
 caches

AddDocToCache released addCacheLock (and RemoveDocToCache removeCacheLock)
before the cached slice, which shares memory with the cache, was sorted and
merged into the table: a concurrent call overwrote the entries. The two
functions also took removeCacheLock and tableLock in opposite orders, so
adding and removing concurrently could deadlock.
---
 core/indexer.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 3f972ff..2437282 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -119,6 +119,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 	}
 
 	indexer.addCacheLock.Lock()
+	defer indexer.addCacheLock.Unlock()
 	if doc != nil {
 		indexer.addCacheLock.addCache[indexer.addCacheLock.addCachePointer] = doc
 		indexer.addCacheLock.addCachePointer++
@@ -126,6 +127,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 	docSize := indexer.addCacheLock.addCachePointer >= indexer.initOptions.DocCacheSize
 	if docSize || forceUpdate {
+		// 加锁次序: addCacheLock, removeCacheLock, tableLock
+		indexer.removeCacheLock.Lock()
+		defer indexer.removeCacheLock.Unlock()
 		indexer.tableLock.Lock()
 
 		position := 0
@@ -142,11 +146,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 				if docState == 0 {
 					// delete docs
-					indexer.removeCacheLock.Lock()
 					indexer.removeCacheLock.removeCache[indexer.removeCacheLock.removeCachePointer] =
 						docIndex.DocId
 					indexer.removeCacheLock.removeCachePointer++
-					indexer.removeCacheLock.Unlock()
 
 					indexer.tableLock.docsState[docIndex.DocId] = 1
 					indexer.numDocs--
@@ -164,7 +166,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.tableLock.Unlock()
 		// 缓存被等待更新的文档占满时必须先执行删除, 否则下一个文档无处存放
 		cacheFull := position >= indexer.initOptions.DocCacheSize
-		if indexer.RemoveDocToCache("0", forceUpdate || cacheFull) {
+		if indexer.flushRemoveCache(forceUpdate || cacheFull) {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
 			position = 0
 		}
@@ -172,11 +174,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
 		indexer.addCacheLock.addCachePointer = position
 
-		indexer.addCacheLock.Unlock()
+		// addCachedDocs 与 addCache 共用内存, 加入索引表之前不能放开 addCacheLock
 		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
-	} else {
-		indexer.addCacheLock.Unlock()
 	}
 }
 
@@ -268,6 +268,7 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 	}
 
 	indexer.removeCacheLock.Lock()
+	defer indexer.removeCacheLock.Unlock()
 	if docId != "0" {
 		indexer.tableLock.Lock()
 		docState, ok := indexer.tableLock.docsState[docId]
@@ -285,18 +286,22 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 		indexer.tableLock.Unlock()
 	}
 
+	return indexer.flushRemoveCache(forceUpdate)
+}
+
+// flushRemoveCache 当 REMOVECACHE 已满或 forceUpdate 时从索引表中删除其中的文档,
+// 调用者须持有 removeCacheLock
+func (indexer *Indexer) flushRemoveCache(forceUpdate bool) bool {
 	docSizeFU := indexer.removeCacheLock.removeCachePointer >= indexer.initOptions.DocCacheSize ||
 		forceUpdate
 	if indexer.removeCacheLock.removeCachePointer > 0 && docSizeFU {
 		removeCacheddocs := indexer.removeCacheLock.removeCache[:indexer.removeCacheLock.removeCachePointer]
 		indexer.removeCacheLock.removeCachePointer = 0
-		indexer.removeCacheLock.Unlock()
 		sort.Sort(removeCacheddocs)
 		indexer.RemoveDocs(&removeCacheddocs)
 		return true
 	}
 
-	indexer.removeCacheLock.Unlock()
 	return false
 }
 
-- 
2.43.0


From 92dd68bf8b099ea4944dbc5c08879f57ad7e4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 04/37] fix: search by labels only on a LocsIndex

computeTokenProximity indexed the empty token table and panicked.
---
 core/indexer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 2437282..0e9042d 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -516,12 +516,14 @@ func (indexer *Indexer) internalLookup(
 					continue
 				}
 
-				// 计算搜索键在文档中的紧邻距离
-				tokenProximity, TokenLocs := computeTokenProximity(
-					table[:len(tokens)], indexPointers, tokens)
+				// 计算搜索键在文档中的紧邻距离, 只有标签时没有距离可言
+				if len(tokens) > 0 {
+					tokenProximity, TokenLocs := computeTokenProximity(
+						table[:len(tokens)], indexPointers, tokens)
 
-				indexedDoc.TokenProximity = int32(tokenProximity)
-				indexedDoc.TokenSnippetLocs = TokenLocs
+					indexedDoc.TokenProximity = int32(tokenProximity)
+					indexedDoc.TokenSnippetLocs = TokenLocs
+				}
 
 				// 添加 TokenLocs
 				indexedDoc.TokenLocs = make([][]int, len(tokens))
-- 
2.43.0


From f8d88f1cd240fd28f3f5c21290ad515d5d398cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 05/37] fix: keep the must, should and notin lists of a logic
 search apart

LogicLookup overwrote its keyword argument with each explicit list, so a
later flag without a list was applied to the list of another operator
(NotIn with Expr.Should excluded everything it should return), and Must
without keywords indexed an empty table and panicked.
---
 core/indexer.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 0e9042d..aa595c8 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -583,11 +583,13 @@ func (indexer *Indexer) LogicLookup(
 	// 如果存在与搜索键, 则要求所有的与搜索键都有对应的反向表
 	mustTable := make([]*KeywordIndices, 0)
 
-	if len(logic.Expr.Must) > 0 {
-		logicExpr = logic.Expr.Must
+	// 明确给出的列表优先, 否则标志作用于请求中的搜索键
+	mustKeys := logic.Expr.Must
+	if logic.Must == true && len(mustKeys) == 0 {
+		mustKeys = logicExpr
 	}
-	if logic.Must == true || len(logic.Expr.Must) > 0 {
-		for _, keyword := range logicExpr {
+	if len(mustKeys) > 0 {
+		for _, keyword := range mustKeys {
 			indices, found := indexer.tableLock.table[keyword]
 			if !found {
 				return
@@ -602,12 +604,12 @@ func (indexer *Indexer) LogicLookup(
 	// 2. 逻辑或和逻辑与之间是与关系
 	shouldTable := make([]*KeywordIndices, 0)
 
-	if len(logic.Expr.Should) > 0 {
-		logicExpr = logic.Expr.Should
+	shouldKeys := logic.Expr.Should
+	if logic.Should == true && len(shouldKeys) == 0 {
+		shouldKeys = logicExpr
 	}
-
-	if logic.Should == true || len(logic.Expr.Should) > 0 {
-		for _, keyword := range logicExpr {
+	if len(shouldKeys) > 0 {
+		for _, keyword := range shouldKeys {
 			indices, found := indexer.tableLock.table[keyword]
 			if found {
 				shouldTable = append(shouldTable, indices)
@@ -623,11 +625,12 @@ func (indexer *Indexer) LogicLookup(
 	// 可以不存在逻辑非搜索（NotInTable为空), 允许逻辑非搜索键对应的反向表为空
 	notInTable := make([]*KeywordIndices, 0)
 
-	if len(logic.Expr.NotIn) > 0 {
-		logicExpr = logic.Expr.NotIn
+	notInKeys := logic.Expr.NotIn
+	if logic.NotIn == true && len(notInKeys) == 0 {
+		notInKeys = logicExpr
 	}
-	if logic.NotIn == true || len(logic.Expr.NotIn) > 0 {
-		for _, keyword := range logicExpr {
+	if len(notInKeys) > 0 {
+		for _, keyword := range notInKeys {
 			indices, found := indexer.tableLock.table[keyword]
 			if found {
 				notInTable = append(notInTable, indices)
@@ -637,7 +640,7 @@ func (indexer *Indexer) LogicLookup(
 
 	// 开始检索
 	numDocs = 0
-	if logic.Must == true || len(logic.Expr.Must) > 0 {
+	if len(mustKeys) > 0 {
 		// 如果存在逻辑与检索
 		for idx := indexer.getIndexLen(mustTable[0]) - 1; idx >= 0; idx-- {
 			baseDocId := indexer.getDocId(mustTable[0], idx)
@@ -667,7 +670,7 @@ func (indexer *Indexer) LogicLookup(
 
 	// 不存在逻辑与检索, 则必须存在逻辑或检索
 	// 这时进行求并集操作
-	if logic.Should == true || len(logic.Expr.Should) > 0 {
+	if len(shouldKeys) > 0 {
 		docs, numDocs = indexer.unionTable(shouldTable, notInTable, countDocsOnly)
 	} else {
 		uintDocIds := make([]string, 0)
-- 
2.43.0


From 380dad4ca3fe2ebde470104ee2ea7dd86789b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 06/37] fix: find the minimal token distance

The two candidate positions of the next token were chosen around the start
of the current one, not around its end, so nearer positions were missed
(tokens "ab" at 0 and "c" at 1 and 2 gave 1, not 0).
---
 core/indexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index aa595c8..6f5908d 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -777,8 +777,9 @@ func computeTokenProximity(table []*KeywordIndices,
 			if currentMinValues[iCurrent] == -1 {
 				continue
 			}
+			// 距离最小的位置是 currentLocation 处的 token 的末尾
 			for iNext+1 < len(nextLocations) &&
-				nextLocations[iNext+1] < currentLocation {
+				nextLocations[iNext+1] < currentLocation+len(tokens[i-1]) {
 				iNext++
 			}
 
-- 
2.43.0


From 51ad461ec96cb0d8dfd65b8203fc3b78c39994e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 07/37] fix: ranks beyond the integer range and negative ranks

OutputOffset+MaxOutputs overflowed for MaxOutputs = MaxInt with an offset
and the resulting slice bounds panicked in a ranker goroutine, which ends
the process; negative values did the same.
---
 core/ranker.go   | 15 ++++++++-------
 engine.go        | 15 ++++++++-------
 ranker_worker.go |  3 ++-
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/core/ranker.go b/core/ranker.go
index 5742568..b02fb98 100755
--- a/core/ranker.go
+++ b/core/ranker.go
@@ -109,15 +109,16 @@ func (ranker *Ranker) RemoveDoc(docId string) {
 }
 
 func maxOutput(options types.RankOpts, docsLen int) (int, int) {
-	var start, end int
-	if options.MaxOutputs != 0 {
-		start = utils.MinInt(options.OutputOffset, docsLen)
-		end = utils.MinInt(options.OutputOffset+options.MaxOutputs, docsLen)
-		return start, end
+	// 不计算 OutputOffset+MaxOutputs, 两者之和可能溢出
+	start := utils.MinInt(options.OutputOffset, docsLen)
+	if start < 0 {
+		start = 0
 	}
 
-	start = utils.MinInt(options.OutputOffset, docsLen)
-	end = docsLen
+	end := docsLen
+	if options.MaxOutputs > 0 && options.MaxOutputs < docsLen-start {
+		end = start + options.MaxOutputs
+	}
 	return start, end
 }
 
diff --git a/engine.go b/engine.go
index 5a83df7..2671ff0 100755
--- a/engine.go
+++ b/engine.go
@@ -525,15 +525,16 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 }
 
 func maxRankOutput(rankOpts types.RankOpts, rankLen int) (int, int) {
-	var start, end int
-	if rankOpts.MaxOutputs == 0 {
-		start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-		end = rankLen
-		return start, end
+	// 不计算 OutputOffset+MaxOutputs, 两者之和可能溢出
+	start := utils.MinInt(rankOpts.OutputOffset, rankLen)
+	if start < 0 {
+		start = 0
 	}
 
-	start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-	end = utils.MinInt(start+rankOpts.MaxOutputs, rankLen)
+	end := rankLen
+	if rankOpts.MaxOutputs > 0 && rankOpts.MaxOutputs < rankLen-start {
+		end = start + rankOpts.MaxOutputs
+	}
 	return start, end
 }
 
diff --git a/ranker_worker.go b/ranker_worker.go
index ef60590..c8e4f42 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -60,7 +60,8 @@ func (engine *Engine) rankerAddDoc(shard int) {
 func (engine *Engine) rankerRank(shard int) {
 	for {
 		request := <-engine.rankerRankChans[shard]
-		if request.options.MaxOutputs != 0 {
+		if request.options.MaxOutputs > 0 && request.options.OutputOffset > 0 {
+			// 溢出时为负值, 即不限制
 			request.options.MaxOutputs += request.options.OutputOffset
 		}
 		request.options.OutputOffset = 0
-- 
2.43.0


From e335b7f0452ebf9d42cd5e96dc68ea5a5a2a48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 08/37] fix: open a badger store whose process was killed
 during a write

An incomplete entry at the end of the value log made every later open fail
with "Value log truncate required", which ends the process.
---
 store/badger_store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/badger_store.go b/store/badger_store.go
index faf8d9b..86ee81f 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -38,6 +38,9 @@ func OpenBadger(dbPath string) (Store, error) {
 	// opt.Dir = dbPath
 	// opt.ValueDir = dbPath
 	// opt.SyncWrites = true
+	// a process killed while it writes leaves an incomplete entry at the end of
+	// the value log: drop it, or the database can not be opened any more
+	opt.Truncate = true
 	kv, err := badger.Open(opt)
 	if err != nil {
 		log.Fatal("badger NewKV: ", err)
-- 
2.43.0


From e533f2e3f5f58c65d1a907d08492f87612f4d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 09/37] fix: Bolt.Has reports keys with an empty value

---
 store/bolt_store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/store/bolt_store.go b/store/bolt_store.go
index b9988e2..ae706fd 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -88,12 +88,12 @@ func (s *Bolt) Has(k []byte) (bool, error) {
 		return nil
 	})
 
-	// b == nil
-	if err != nil || string(b) == "" {
+	if err != nil {
 		return false, err
 	}
 
-	return true, nil
+	// an empty value is not nil
+	return b != nil, nil
 }
 
 // ForEach get all key and value
-- 
2.43.0


From b1778859804c798174d8861c7abc9ddcd355c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 10/37] fix: Bolt.Get returns a copy of the value

The slice pointed into the mapped file: it changed with later writes and
reading it after Close ended the process with SIGSEGV.
---
 store/bolt_store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/bolt_store.go b/store/bolt_store.go
index ae706fd..132042c 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -65,7 +65,10 @@ func (s *Bolt) Set(k []byte, v []byte) error {
 // Any error that is returned from the function is returned from the View() method.
 func (s *Bolt) Get(k []byte) (b []byte, err error) {
 	err = s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		// the slice is only valid during the transaction
+		if v := tx.Bucket(gdocs).Get(k); v != nil {
+			b = append([]byte{}, v...)
+		}
 		return nil
 	})
 	return
-- 
2.43.0


From 126c15d43c4addc406cee610a9ab4fc93875c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 11/37] fix: Flush waits for the rankers too

Flush returned while documents were still on their way to a ranker, so a
search right after it could miss them, and it compared its counters in an
order in which requests made meanwhile could stand in for earlier ones.
---
 counters.go      | 16 ++++++++++------
 engine.go        | 32 +++++++++++++++++++++++---------
 ranker_worker.go |  4 ++++
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/counters.go b/counters.go
index b625429..ccbe958 100755
--- a/counters.go
+++ b/counters.go
@@ -15,32 +15,36 @@
 
 package riot
 
+import (
+	"sync/atomic"
+)
+
 // NumTokenAdded added token index number
 func (engine *Engine) NumTokenAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumIndexed documents indexed number
 func (engine *Engine) NumIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumRemoved documents removed number
 func (engine *Engine) NumRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
 
 // NumTokenIndexAdded added token index number, deprecated
 func (engine *Engine) NumTokenIndexAdded() uint64 {
-	return engine.numTokenIndexAdded
+	return atomic.LoadUint64(&engine.numTokenIndexAdded)
 }
 
 // NumDocsIndexed documents indexed number, deprecated
 func (engine *Engine) NumDocsIndexed() uint64 {
-	return engine.numDocsIndexed
+	return atomic.LoadUint64(&engine.numDocsIndexed)
 }
 
 // NumDocsRemoved documents removed number, deprecated
 func (engine *Engine) NumDocsRemoved() uint64 {
-	return engine.numDocsRemoved
+	return atomic.LoadUint64(&engine.numDocsRemoved)
 }
diff --git a/engine.go b/engine.go
index 2671ff0..69c0a95 100755
--- a/engine.go
+++ b/engine.go
@@ -74,6 +74,8 @@ type Engine struct {
 	numForceUpdatingReqs uint64
 	numTokenIndexAdded   uint64
 	numDocsStored        uint64
+	numDocsRanked        uint64
+	numDocsRankRemoved   uint64
 
 	// 记录初始化参数
 	initOptions types.EngineOpts
@@ -217,7 +219,7 @@ func (engine *Engine) Store() {
 		runtime.Gosched()
 
 		inx := atomic.LoadUint64(&engine.numDocsIndexed)
-		numDoced := engine.numIndexingReqs == inx
+		numDoced := inx == atomic.LoadUint64(&engine.numIndexingReqs)
 
 		if numDoced {
 			break
@@ -352,7 +354,8 @@ func (engine *Engine) Init(options types.EngineOpts) {
 		engine.Store()
 	}
 
-	atomic.AddUint64(&engine.numDocsStored, engine.numIndexingReqs)
+	atomic.AddUint64(&engine.numDocsStored,
+		atomic.LoadUint64(&engine.numIndexingReqs))
 }
 
 // IndexDoc add the document to the index
@@ -814,12 +817,21 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		inxd := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsIndexed)
-		numRm := engine.numRemovingReqs * uint64(engine.initOptions.NumShards)
-		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
+		// 先读取完成数再读取请求数，两者相等时之前的请求必已全部完成
+		numInx := atomic.LoadUint64(&engine.numDocsIndexed)
+		numRank := atomic.LoadUint64(&engine.numDocsRanked)
+		numStore := atomic.LoadUint64(&engine.numDocsStored)
+		numReqs := atomic.LoadUint64(&engine.numIndexingReqs)
 
-		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored)
-		stored := !engine.initOptions.UseStore || nums
+		inxd := numReqs == numInx && numReqs == numRank
+		stored := !engine.initOptions.UseStore || numReqs == numStore
+
+		numRm := atomic.LoadUint64(&engine.numDocsRemoved)
+		numRankRm := atomic.LoadUint64(&engine.numDocsRankRemoved)
+		numRmReqs := atomic.LoadUint64(&engine.numRemovingReqs) *
+			uint64(engine.initOptions.NumShards)
+
+		rmd := numRmReqs == numRm && numRmReqs == numRankRm
 
 		if inxd && rmd && stored {
 			// 保证 CHANNEL 中 REQUESTS 全部被执行完
@@ -832,8 +844,10 @@ func (engine *Engine) Flush() {
 	for {
 		runtime.Gosched()
 
-		numf := engine.numForceUpdatingReqs * uint64(engine.initOptions.NumShards)
-		forced := numf == atomic.LoadUint64(&engine.numDocsForceUpdated)
+		numForced := atomic.LoadUint64(&engine.numDocsForceUpdated)
+		numf := atomic.LoadUint64(&engine.numForceUpdatingReqs) *
+			uint64(engine.initOptions.NumShards)
+		forced := numf == numForced
 
 		if forced {
 			return
diff --git a/ranker_worker.go b/ranker_worker.go
index c8e4f42..e6588a3 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -16,6 +16,8 @@
 package riot
 
 import (
+	"sync/atomic"
+
 	"github.com/go-ego/riot/types"
 )
 
@@ -54,6 +56,7 @@ func (engine *Engine) rankerAddDoc(shard int) {
 			engine.rankers[shard].AddDoc(request.docId, request.fields,
 				request.content, request.attri)
 		}
+		atomic.AddUint64(&engine.numDocsRanked, 1)
 	}
 }
 
@@ -77,5 +80,6 @@ func (engine *Engine) rankerRemoveDoc(shard int) {
 	for {
 		request := <-engine.rankerRemoveDocChans[shard]
 		engine.rankers[shard].RemoveDoc(request.docId)
+		atomic.AddUint64(&engine.numDocsRankRemoved, 1)
 	}
 }
-- 
2.43.0


From c0ba8bbd67c2416baa4cbb66e3b88630a7a9ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 12/37] fix: keep a re-indexed document in its shard

Indexing a document again with other content sent it to the shard of the
new content and left the old version in the old one.
---
 engine.go  | 33 +++++++++++++++++++++++++++++++--
 segment.go |  4 ++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/engine.go b/engine.go
index 69c0a95..15b132a 100755
--- a/engine.go
+++ b/engine.go
@@ -81,6 +81,9 @@ type Engine struct {
 	initOptions types.EngineOpts
 	initialized bool
 
+	// 文档所在的 shard, 由 loc 保护
+	docShards map[string]int
+
 	indexers   []core.Indexer
 	rankers    []core.Ranker
 	segmenter  gse.Segmenter
@@ -302,6 +305,8 @@ func (engine *Engine) Init(options types.EngineOpts) {
 		engine.stopTokens.Init(options.StopTokenFile)
 	}
 
+	engine.docShards = make(map[string]int)
+
 	// 初始化索引器和排序器
 	for shard := 0; shard < options.NumShards; shard++ {
 		engine.indexers = append(engine.indexers, core.Indexer{})
@@ -413,9 +418,29 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
 	}
 
-	hash := murmur.Sum32(fmt.Sprintf("%s%s", docId, data.Content))
+	shard := 0
+	if docId != "0" {
+		shard = engine.docShard(docId, data.Content)
+	}
+
 	engine.segmenterChan <- segmenterReq{
-		docId: docId, hash: hash, data: data, forceUpdate: forceUpdate}
+		docId: docId, shard: shard, data: data, forceUpdate: forceUpdate}
+}
+
+// docShard get the shard of the document, a document that is indexed
+// again stays in its shard, even if its content has changed
+func (engine *Engine) docShard(docId, content string) int {
+	engine.loc.Lock()
+	defer engine.loc.Unlock()
+
+	shard, ok := engine.docShards[docId]
+	if !ok {
+		hash := murmur.Sum32(fmt.Sprintf("%s%s", docId, content))
+		shard = engine.getShard(hash)
+		engine.docShards[docId] = shard
+	}
+
+	return shard
 }
 
 // RemoveDoc remove the document from the index
@@ -441,6 +466,10 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 
 	if docId != "0" {
 		atomic.AddUint64(&engine.numRemovingReqs, 1)
+
+		engine.loc.Lock()
+		delete(engine.docShards, docId)
+		engine.loc.Unlock()
 	}
 
 	if force {
diff --git a/segment.go b/segment.go
index dddd2c4..dc7c7f9 100755
--- a/segment.go
+++ b/segment.go
@@ -30,7 +30,7 @@ type TMap map[string][]int
 
 type segmenterReq struct {
 	docId string
-	hash  uint32
+	shard int
 	data  types.DocData
 	// data        types.DocumentIndexData
 	forceUpdate bool
@@ -258,7 +258,7 @@ func (engine *Engine) segmenterWorker() {
 			continue
 		}
 
-		shard := engine.getShard(request.hash)
+		shard := request.shard
 		tokensMap, numTokens := engine.makeTokensMap(request)
 
 		// 加入非分词的文档标签
-- 
2.43.0


From d9f22e62d0fc16e65b8ddf5ffa026cc2b5cddd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 13/37] fix: HasDoc takes the index lock and leaves the
 indexers alone

HasDoc grew engine.indexers on every call, racing with the indexer workers,
and read the document table without its lock.
---
 core/indexer.go | 3 +++
 riot.go         | 3 ---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 6f5908d..251ea89 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -99,6 +99,9 @@ func (indexer *Indexer) getDocId(ti *KeywordIndices, i int) string {
 
 // HasDoc doc is exist return true
 func (indexer *Indexer) HasDoc(docId string) bool {
+	indexer.tableLock.RLock()
+	defer indexer.tableLock.RUnlock()
+
 	docState, ok := indexer.tableLock.docsState[docId]
 	if ok && docState == 0 {
 		return true
diff --git a/riot.go b/riot.go
index ffc121b..be398b0 100644
--- a/riot.go
+++ b/riot.go
@@ -23,7 +23,6 @@ import (
 	"encoding/gob"
 
 	"github.com/go-ego/murmur"
-	"github.com/go-ego/riot/core"
 	"github.com/go-ego/riot/types"
 	toml "github.com/go-vgo/gt/conf"
 )
@@ -105,8 +104,6 @@ func NewEngine(conf ...interface{}) *Engine {
 // HasDoc if the document is exist return true
 func (engine *Engine) HasDoc(docId string) bool {
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexers = append(engine.indexers, core.Indexer{})
-
 		has := engine.indexers[shard].HasDoc(docId)
 
 		if has {
-- 
2.43.0


From 530fe5870836bbf9e46221325728a220231d4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 14/37] fix: remove documents from the store in order and
 before Flush returns

RemoveDoc deleted from the store in a goroutine nobody waited for: after
Flush and Close the document could still be in the store, and a document
indexed again could be deleted by the earlier removal.
---
 engine.go       | 14 +++++++++-----
 store_worker.go |  9 ++++++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index 15b132a..0514c00 100755
--- a/engine.go
+++ b/engine.go
@@ -76,6 +76,7 @@ type Engine struct {
 	numDocsStored        uint64
 	numDocsRanked        uint64
 	numDocsRankRemoved   uint64
+	numDocsStoreRemoved  uint64
 
 	// 记录初始化参数
 	initOptions types.EngineOpts
@@ -490,7 +491,8 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 		// 从数据库中删除
 		hash := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)
 
-		go engine.storeRemoveDoc(docId, hash)
+		engine.storeIndexDocChans[hash] <- storeIndexDocReq{
+			docId: docId, remove: true}
 	}
 }
 
@@ -857,12 +859,14 @@ func (engine *Engine) Flush() {
 
 		numRm := atomic.LoadUint64(&engine.numDocsRemoved)
 		numRankRm := atomic.LoadUint64(&engine.numDocsRankRemoved)
-		numRmReqs := atomic.LoadUint64(&engine.numRemovingReqs) *
-			uint64(engine.initOptions.NumShards)
+		numStoreRm := atomic.LoadUint64(&engine.numDocsStoreRemoved)
+		numRmReqs := atomic.LoadUint64(&engine.numRemovingReqs)
+		numShardRm := numRmReqs * uint64(engine.initOptions.NumShards)
 
-		rmd := numRmReqs == numRm && numRmReqs == numRankRm
+		rmd := numShardRm == numRm && numShardRm == numRankRm
+		storeRmd := !engine.initOptions.UseStore || numRmReqs == numStoreRm
 
-		if inxd && rmd && stored {
+		if inxd && rmd && stored && storeRmd {
 			// 保证 CHANNEL 中 REQUESTS 全部被执行完
 			break
 		}
diff --git a/store_worker.go b/store_worker.go
index 6463dfd..253daac 100755
--- a/store_worker.go
+++ b/store_worker.go
@@ -28,12 +28,19 @@ type storeIndexDocReq struct {
 	docId string
 	data  types.DocData
 	// data        types.DocumentIndexData
+	remove bool
 }
 
 func (engine *Engine) storeIndexDoc(shard int) {
 	for {
 		request := <-engine.storeIndexDocChans[shard]
 
+		if request.remove {
+			engine.storeRemoveDoc(request.docId, shard)
+			atomic.AddUint64(&engine.numDocsStoreRemoved, 1)
+			continue
+		}
+
 		// 得到 key
 		b := []byte(request.docId)
 
@@ -62,7 +69,7 @@ func (engine *Engine) storeIndexDoc(shard int) {
 	}
 }
 
-func (engine *Engine) storeRemoveDoc(docId string, shard uint32) {
+func (engine *Engine) storeRemoveDoc(docId string, shard int) {
 	// 得到 key
 	b := []byte(docId)
 	// 从数据库删除该key
-- 
2.43.0


From 065cbab752947ad2f0779b5928996b748c9054a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 15/37] fix: SearchDoc and SearchID of a counting search

They asserted the type of the nil Docs of a CountDocsOnly response and
panicked.
---
 engine.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index 0514c00..39179a4 100755
--- a/engine.go
+++ b/engine.go
@@ -774,10 +774,13 @@ func (engine *Engine) Ranks(request types.SearchReq, rankOpts types.RankOpts,
 // This function is thread safe, return not IDonly
 func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc) {
 	resp := engine.Search(request)
-	return types.SearchDoc{
-		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredDocs),
+	output.BaseResp = resp.BaseResp
+	// CountDocsOnly 时 resp.Docs 为 nil
+	if resp.Docs != nil {
+		output.Docs = resp.Docs.(types.ScoredDocs)
 	}
+
+	return
 }
 
 // SearchID find the document that satisfies the search criteria.
@@ -785,10 +788,13 @@ func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc
 func (engine *Engine) SearchID(request types.SearchReq) (output types.SearchID) {
 	// return types.SearchID(engine.Search(request))
 	resp := engine.Search(request)
-	return types.SearchID{
-		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredIDs),
+	output.BaseResp = resp.BaseResp
+	// CountDocsOnly 时 resp.Docs 为 nil
+	if resp.Docs != nil {
+		output.Docs = resp.Docs.(types.ScoredIDs)
 	}
+
+	return
 }
 
 // Search find the document that satisfies the search criteria.
-- 
2.43.0


From c980f4b585edefc06b99195cd9019601c5715f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 16/37] fix: pinyin phrases with the engine's own segmenter

The phrase package keeps its segmenter in a global, which the segmenter
threads of all engines set and read without a lock.
---
 segment.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/segment.go b/segment.go
index dc7c7f9..233ef74 100755
--- a/segment.go
+++ b/segment.go
@@ -19,6 +19,7 @@ import (
 	// "fmt"
 
 	"strings"
+	"sync"
 
 	"github.com/go-ego/gpy"
 	"github.com/go-ego/gpy/phrase"
@@ -28,6 +29,9 @@ import (
 // TMap defines the tokens map type map[string][]int
 type TMap map[string][]int
 
+// phraseLock guards the phrase package, which keeps its segmenter in a global
+var phraseLock sync.Mutex
+
 type segmenterReq struct {
 	docId string
 	shard int
@@ -316,6 +320,9 @@ func (engine *Engine) segmenterWorker() {
 // PinYin get the Chinese alphabet and abbreviation
 func (engine *Engine) PinYin(hans string) []string {
 	if engine.initOptions.UsePhrase {
+		phraseLock.Lock()
+		defer phraseLock.Unlock()
+
 		if !engine.initOptions.NotUseGse {
 			phrase.WithGse(engine.segmenter)
 		}
-- 
2.43.0


From dcc2885d9c23ce162e07107e224fc678aa9d51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 17/37] fix: Delete of the gRPC server removes the document
 from the engine

The server removed it from a copy of the engine made before it was
initialized, which ends the process.
---
 net/grpc/grpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index fe86fe3..43569ff 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -73,7 +73,7 @@ func addDoc(in *pb.DocReq) {
 
 // DelDoc delete doc
 func DelDoc(in *pb.DeleteReq) {
-	searcher.RemoveDoc(in.DocId, false)
+	com.Delete(in.DocId, false)
 }
 
 func (s *server) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) {
-- 
2.43.0


From 9ec501552789c23959a5587440c093c9398500ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 18/37] fix: gRPC searches without a logic or without its
 expression

They ended the server with a nil pointer dereference.
---
 net/grpc/etcd.go |  6 +++---
 net/grpc/grpc.go | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/net/grpc/etcd.go b/net/grpc/etcd.go
index 8ca6d97..08131e4 100644
--- a/net/grpc/etcd.go
+++ b/net/grpc/etcd.go
@@ -101,9 +101,9 @@ func (s *eserver) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply
 	var logic types.Logic
 	if in.Logic != nil {
 		logicExp := types.Expr{
-			Must:   in.Logic.Expr.Must,
-			Should: in.Logic.Expr.Should,
-			NotIn:  in.Logic.Expr.NotIn,
+			Must:   in.Logic.GetExpr().GetMust(),
+			Should: in.Logic.GetExpr().GetShould(),
+			NotIn:  in.Logic.GetExpr().GetNotIn(),
 		}
 
 		logic = types.Logic{
diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index 43569ff..27bcd9b 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -97,15 +97,15 @@ func (s *server) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply,
 
 	// time.Sleep(1 * time.Second)
 	logicExp := types.Expr{
-		Must:   in.Logic.Expr.Must,
-		Should: in.Logic.Expr.Should,
-		NotIn:  in.Logic.Expr.NotIn,
+		Must:   in.GetLogic().GetExpr().GetMust(),
+		Should: in.GetLogic().GetExpr().GetShould(),
+		NotIn:  in.GetLogic().GetExpr().GetNotIn(),
 	}
 
 	logic := types.Logic{
-		Must:   in.Logic.Must,
-		Should: in.Logic.Should,
-		NotIn:  in.Logic.NotIn,
+		Must:   in.GetLogic().GetMust(),
+		Should: in.GetLogic().GetShould(),
+		NotIn:  in.GetLogic().GetNotIn(),
 		Expr:   logicExp,
 	}
 
-- 
2.43.0


From 2c51e384b22aadbff65236bffe9cd47e43c35e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 19/37] fix: a distributed gRPC search goes on without
 unreachable nodes

InitSearchRpc ended the process instead of returning the error that its
caller handles.
---
 net/grpc/grpcc.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index df27c13..41ee1a9 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -71,8 +71,8 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 	// Set up a connection to the server.
 	conn, err := grpc.Dial(address, grpc.WithInsecure())
 	if err != nil {
-		log.Fatalf("did not connect: %v", err)
-		zlog.Error("did not connect: ", err)
+		log.Printf("did not connect: %v", err)
+		return nil, err
 	}
 	defer conn.Close()
 	c := pb.NewGreeterClient(conn)
@@ -102,8 +102,7 @@ func InitSearchRpc(address string, sea com.SearchArgs) (*pb.SearchReply, error)
 	})
 
 	if err != nil {
-		log.Fatalf("init searchRpc could not greet: %v", err)
-		zlog.Error("init searchRpc could not greet: ", err)
+		log.Printf("init searchRpc could not greet: %v", err)
 		return nil, err
 	}
 	log.Printf("Greeting: %s", r)
-- 
2.43.0


From 284566d22a424743cb2dab46c44f838159cb21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 20/37] fix: the gRPC index client sends the id of its document

All documents were indexed under the empty id.
---
 net/grpc/grpcc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/grpc/grpcc.go b/net/grpc/grpcc.go
index 41ee1a9..22b2987 100644
--- a/net/grpc/grpcc.go
+++ b/net/grpc/grpcc.go
@@ -16,6 +16,7 @@ package grpc
 
 import (
 	"log"
+	"strconv"
 	// "os"
 	// "time"
 
@@ -53,9 +54,12 @@ func InitGrpcc(address string, doc Doc) int32 {
 
 	// Contact the server and print out its response.
 	r, err := c.DocInx(context.Background(), &pb.DocReq{
-		Content: doc.Content,
-		Attri:   doc.Attri,
-		Tokens:  doc.Tokens,
+		DocId:       strconv.FormatUint(doc.DocId, 10),
+		Content:     doc.Content,
+		Attri:       doc.Attri,
+		Tokens:      doc.Tokens,
+		Labels:      doc.Labels,
+		ForceUpdate: doc.ForceUpdate,
 	})
 	if err != nil {
 		log.Fatalf("init docinx grpcc could not greet: %v", err)
-- 
2.43.0


From ce320f1301ce008d41a4939e03a0ef2e2e1cff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 21/37] fix: keep the labels, title and author of documents
 sent over gRPC

The server dropped them without notice.
---
 net/grpc/grpc.go   | 8 +++++---
 net/grpc/search.go | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/net/grpc/grpc.go b/net/grpc/grpc.go
index 27bcd9b..52e852f 100644
--- a/net/grpc/grpc.go
+++ b/net/grpc/grpc.go
@@ -56,15 +56,17 @@ func addDoc(in *pb.DocReq) {
 	}
 
 	attri := types.Attri{
-		Time: req.Time,
-		Ts:   req.Ts,
+		Title:  req.Title,
+		Author: req.Author,
+		Time:   req.Time,
+		Ts:     req.Ts,
 	}
 
 	data := types.DocData{
 		Content: in.Content,
 		Attri:   attri,
 		Tokens:  tokens,
-		// Labels: in.Labels,
+		Labels:  in.Labels,
 		// Fields: in.Fields,
 	}
 
diff --git a/net/grpc/search.go b/net/grpc/search.go
index 0b1cb54..e516e6a 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -81,8 +81,10 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 	scoDocs := docs.Docs.(types.ScoredDocs)
 	for i := 0; i < len(scoDocs); i++ {
 		attri := &pb.Attri{
-			Time: scoDocs[i].Attri.(types.Attri).Time,
-			Ts:   scoDocs[i].Attri.(types.Attri).Ts,
+			Title:  scoDocs[i].Attri.(types.Attri).Title,
+			Author: scoDocs[i].Attri.(types.Attri).Author,
+			Time:   scoDocs[i].Attri.(types.Attri).Time,
+			Ts:     scoDocs[i].Attri.(types.Attri).Ts,
 		}
 
 		text := &pb.Text{
-- 
2.43.0


From b48b68b57a05770e9cc849cd394930d0083d06fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 22/37] fix: store the documents indexed by the front ends

Their attribute is a types.Attri, which gob does not encode unless it is
registered, so that none of them was in the store after a restart.
---
 net/com/search.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/com/search.go b/net/com/search.go
index 2c5db09..8a669ab 100644
--- a/net/com/search.go
+++ b/net/com/search.go
@@ -15,6 +15,7 @@
 package com
 
 import (
+	"encoding/gob"
 	"log"
 	"os"
 
@@ -30,6 +31,11 @@ var (
 	Conf Config
 )
 
+func init() {
+	// 文档以 gob 编码存储, 其属性为接口类型, 须先注册
+	gob.Register(types.Attri{})
+}
+
 // InitEngine init engine
 func InitEngine(conf Config) {
 	// os.RemoveAll("./riot-index")
-- 
2.43.0


From 52853834ca22dcbdc1dc6f64c07ce3f6e28ade46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 23/37] fix: distributed searches keep their replies apart

The replies of all nodes and of all searches under way were appended to
one global list without a lock, and waited for in one global group.
---
 net/grpc/search.go | 31 +++++++++++++++++--------------
 net/http/dist.go   | 37 +++++++++++++++++++++----------------
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/net/grpc/search.go b/net/grpc/search.go
index e516e6a..e16b36d 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -110,29 +110,23 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 	return rep
 }
 
-var (
-	rpcdata []*pb.SearchReply
-	rpcwg   sync.WaitGroup
-)
-
 // WgRpc rpc
-func WgRpc(address string, sea com.SearchArgs) {
+func WgRpc(address string, sea com.SearchArgs) *pb.SearchReply {
 	data, err := InitSearchRpc(address, sea)
 
 	if data == nil || err != nil {
 		log.Println("data is null...")
-		defer rpcwg.Done()
-		return
+		return nil
 	}
 
-	rpcdata = append(rpcdata, data)
-
-	defer rpcwg.Done()
+	return data
 }
 
 func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
-	rpcdata = nil
 	var (
+		rpcdata []*pb.SearchReply
+		rpcwg   sync.WaitGroup
+
 		distData   *pb.SearchReply
 		maxOutputs = sea.MaxOutputs
 	)
@@ -142,14 +136,23 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 	}
 
 	// config.Grpc.GrpcPort
+	replies := make([]*pb.SearchReply, len(config.Rpc.DistPort))
 	for i := 0; i < len(config.Rpc.DistPort); i++ {
 		rpcwg.Add(1)
-		addr := config.Rpc.DistPort[i]
-		go WgRpc(addr, sea)
+		go func(i int) {
+			defer rpcwg.Done()
+			replies[i] = WgRpc(config.Rpc.DistPort[i], sea)
+		}(i)
 	}
 
 	rpcwg.Wait()
 
+	for _, data := range replies {
+		if data != nil {
+			rpcdata = append(rpcdata, data)
+		}
+	}
+
 	if len(rpcdata) == 1 {
 		distData = rpcdata[0]
 	} else {
diff --git a/net/http/dist.go b/net/http/dist.go
index 759cfc6..c806ca0 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -28,31 +28,28 @@ import (
 	"github.com/go-ego/riot/net/com"
 )
 
-var (
-	wgdata [][]byte
-	wg     sync.WaitGroup
-)
-
 // WgPost post
-func WgPost(url string, param url.Values) {
+func WgPost(url string, param url.Values) []byte {
 
 	data, err := Post(url, param)
 
 	if string(data) == "" || err != nil {
 		log.Println("data is null ...")
-		defer wg.Done()
-		return
+		return nil
 	}
 
-	wgdata = append(wgdata, data)
-
-	defer wg.Done()
+	return data
 }
 
 // WgDist dist
 func WgDist(w http.ResponseWriter, req *http.Request) {
-	wgdata = nil
-	var distData []byte
+	var (
+		wgdata   [][]byte
+		distData []byte
+		wg       sync.WaitGroup
+
+		config = com.Conf
+	)
 
 	userid := req.URL.Query().Get("userid")
 	query := req.URL.Query().Get("query")
@@ -74,15 +71,23 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 	param.Set("maxOutputs", maxOutputs)
 	param.Set("time", atime)
 
-	config = com.Conf
+	replies := make([][]byte, len(config.Url))
 	for i := 0; i < len(config.Url); i++ {
 		wg.Add(1)
-		url := config.Url[i] + "/search"
-		go WgPost(url, param)
+		go func(i int) {
+			defer wg.Done()
+			replies[i] = WgPost(config.Url[i]+"/search", param)
+		}(i)
 	}
 
 	wg.Wait()
 
+	for _, data := range replies {
+		if data != nil {
+			wgdata = append(wgdata, data)
+		}
+	}
+
 	if len(wgdata) == 1 {
 		distData = wgdata[0]
 	} else {
-- 
2.43.0


From 783eb68db762c1d6c9ee66563e8aaae389c76efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 24/37] fix: the limits of the front ends

A distributed search returned one document less than its limit, and a
negative limit, which the engine takes for none, was a panic.
---
 net/grpc/search.go | 7 +++----
 net/http/dist.go   | 5 ++---
 net/http/http.go   | 2 +-
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/net/grpc/search.go b/net/grpc/search.go
index e16b36d..e8340e5 100644
--- a/net/grpc/search.go
+++ b/net/grpc/search.go
@@ -97,7 +97,7 @@ func rpcSearch(sea com.SearchArgs) *pb.SearchReply {
 
 	sort.Sort(rpcSlice(textArr))
 
-	if len(textArr) > maxOutputs {
+	if maxOutputs >= 0 && len(textArr) > maxOutputs {
 		textArr = textArr[0:maxOutputs]
 	}
 
@@ -164,9 +164,8 @@ func wgGrpc(sea com.SearchArgs) *pb.SearchReply {
 		}
 		sort.Sort(rpcSlice(docs))
 
-		if len(docs) > maxOutputs {
-			end := maxOutputs - 1
-			docs = docs[0:end]
+		if maxOutputs >= 0 && len(docs) > maxOutputs {
+			docs = docs[0:maxOutputs]
 		}
 
 		timestamp := time.Now().Unix()
diff --git a/net/http/dist.go b/net/http/dist.go
index c806ca0..fad6764 100644
--- a/net/http/dist.go
+++ b/net/http/dist.go
@@ -101,9 +101,8 @@ func WgDist(w http.ResponseWriter, req *http.Request) {
 		}
 		sort.Sort(docsSlice(docs))
 
-		if len(docs) > maxOuts {
-			end := maxOuts - 1
-			docs = docs[0:end]
+		if maxOuts >= 0 && len(docs) > maxOuts {
+			docs = docs[0:maxOuts]
 		}
 
 		timestamp := time.Now().Unix()
diff --git a/net/http/http.go b/net/http/http.go
index e192db5..b0fa629 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -113,7 +113,7 @@ func Search(w http.ResponseWriter, req *http.Request) {
 
 	sort.Sort(docsSlice(textArr))
 
-	if len(textArr) > maxOutputs {
+	if maxOutputs >= 0 && len(textArr) > maxOutputs {
 		textArr = textArr[0:maxOutputs]
 	}
 
-- 
2.43.0


From 33f2df4528f3763d08ee5533da0a5ecaa4d8ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 25/37] fix: HTTP searches do not write a shared configuration

---
 net/http/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/http/http.go b/net/http/http.go
index b0fa629..830c45d 100644
--- a/net/http/http.go
+++ b/net/http/http.go
@@ -81,7 +81,7 @@ func Search(w http.ResponseWriter, req *http.Request) {
 		atime = req.Form["time"][0]
 	}
 
-	config = com.Conf
+	config := com.Conf
 	log.Println("config: ", config, "; com.Conf: ", com.Conf)
 	if maxOutputs == 0 {
 		outputOffset = config.Engine.OutputOffset
-- 
2.43.0


From 9d48b4b8bc221bd54d606d06367d1ff985331faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 26/37] fix: reject lengths beyond the end of a gRPC message

A length close to 1<<63 overflowed the end of its field, and decoding the
message panicked, which ends the server.
---
 net/grpc/riot-pb/doc.pb.go | 122 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 121 insertions(+), 1 deletion(-)

diff --git a/net/grpc/riot-pb/doc.pb.go b/net/grpc/riot-pb/doc.pb.go
index 98dded4..0784d9f 100644
--- a/net/grpc/riot-pb/doc.pb.go
+++ b/net/grpc/riot-pb/doc.pb.go
@@ -1863,6 +1863,9 @@ func (m *HeartReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1929,6 +1932,9 @@ func (m *DocReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1958,6 +1964,9 @@ func (m *DocReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -1986,6 +1995,9 @@ func (m *DocReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2017,6 +2029,9 @@ func (m *DocReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2049,6 +2064,9 @@ func (m *DocReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2077,6 +2095,9 @@ func (m *DocReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2114,6 +2135,9 @@ func (m *DocReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2180,6 +2204,9 @@ func (m *TokenData) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2223,6 +2250,9 @@ func (m *TokenData) Unmarshal(dAtA []byte) error {
 					return ErrInvalidLengthDoc
 				}
 				postIndex := iNdEx + packedLen
+				if postIndex < 0 {
+					return ErrInvalidLengthDoc
+				}
 				if postIndex > l {
 					return io.ErrUnexpectedEOF
 				}
@@ -2267,6 +2297,9 @@ func (m *TokenData) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2333,6 +2366,9 @@ func (m *DeleteReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2347,6 +2383,9 @@ func (m *DeleteReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2417,6 +2456,9 @@ func (m *Reply) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2483,6 +2525,9 @@ func (m *SearchReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2512,6 +2557,9 @@ func (m *SearchReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2579,6 +2627,9 @@ func (m *SearchReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2607,6 +2658,9 @@ func (m *SearchReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2654,6 +2708,9 @@ func (m *SearchReq) Unmarshal(dAtA []byte) error {
 						return ErrInvalidLengthDoc
 					}
 					postStringIndexmapkey := iNdEx + intStringLenmapkey
+					if postStringIndexmapkey < 0 {
+						return ErrInvalidLengthDoc
+					}
 					if postStringIndexmapkey > l {
 						return io.ErrUnexpectedEOF
 					}
@@ -2685,6 +2742,9 @@ func (m *SearchReq) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthDoc
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthDoc
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -2716,6 +2776,9 @@ func (m *SearchReq) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2735,6 +2798,9 @@ func (m *SearchReq) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2857,6 +2923,9 @@ func (m *SearchReply) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2874,6 +2943,9 @@ func (m *SearchReply) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2940,6 +3012,9 @@ func (m *Text) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2969,6 +3044,9 @@ func (m *Text) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -2997,6 +3075,9 @@ func (m *Text) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3016,6 +3097,9 @@ func (m *Text) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3082,6 +3166,9 @@ func (m *Attri) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3111,6 +3198,9 @@ func (m *Attri) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3140,6 +3230,9 @@ func (m *Attri) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3173,6 +3266,9 @@ func (m *Attri) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3298,6 +3394,9 @@ func (m *Logic) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3317,6 +3416,9 @@ func (m *Logic) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3383,6 +3485,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3412,6 +3517,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3441,6 +3549,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthDoc
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3455,6 +3566,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthDoc
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthDoc
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -3522,10 +3636,13 @@ func skipDoc(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthDoc
 			}
+			iNdEx += length
+			if iNdEx < 0 {
+				return 0, ErrInvalidLengthDoc
+			}
 			return iNdEx, nil
 		case 3:
 			for {
@@ -3554,6 +3671,9 @@ func skipDoc(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthDoc
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0


From cb13ed18972bd639ed42f99ec4e573eea52d122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 27/37] fix: a document keeps its shard when it is removed and
 indexed again

Its removal may overtake the version before it, which then stayed in the
old shard while the new version went to another one.
---
 engine.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/engine.go b/engine.go
index 39179a4..bea9b44 100755
--- a/engine.go
+++ b/engine.go
@@ -429,7 +429,8 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 }
 
 // docShard get the shard of the document, a document that is indexed
-// again stays in its shard, even if its content has changed
+// again stays in its shard, even if its content has changed or it was
+// removed in between: its removal may overtake the version before it
 func (engine *Engine) docShard(docId, content string) int {
 	engine.loc.Lock()
 	defer engine.loc.Unlock()
@@ -467,10 +468,6 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 
 	if docId != "0" {
 		atomic.AddUint64(&engine.numRemovingReqs, 1)
-
-		engine.loc.Lock()
-		delete(engine.docShards, docId)
-		engine.loc.Unlock()
 	}
 
 	if force {
-- 
2.43.0


From ac53f68667f2b0ec32fcbfd41d1f0cf814e7f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 28/37] fix: timeouts beyond the range of time.Duration

Timeout*1000000 overflowed for limits of 292 years and more (24 days with a
32-bit int), so that such a search timed out at once.
---
 engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index bea9b44..fea5e4d 100755
--- a/engine.go
+++ b/engine.go
@@ -22,6 +22,7 @@ package riot
 import (
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"runtime"
 	"sort"
@@ -624,8 +625,12 @@ func (engine *Engine) TimeOut(request types.SearchReq,
 	rankerReturnChan chan rankerReturnReq) (
 	rankOutArr interface{}, numDocs int, isTimeout bool) {
 
-	deadline := time.Now().Add(time.Nanosecond *
-		time.Duration(NumNanosecondsInAMillisecond*request.Timeout))
+	// 超时过长时乘积会溢出, 取最大值
+	timeout := time.Duration(math.MaxInt64)
+	if int64(request.Timeout) < math.MaxInt64/NumNanosecondsInAMillisecond {
+		timeout = NumNanosecondsInAMillisecond * time.Duration(request.Timeout)
+	}
+	deadline := time.Now().Add(timeout)
 
 	var (
 		rankOutID  types.ScoredIDs
-- 
2.43.0


From 4a1a7bea5f79376065e28c0be51fb5731913aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 29/37] fix: count failed heartbeats atomically

The monitor counts them while the health, kill and restart handlers read
and reset the count.
---
 net/heartb/heart.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index 5f18faf..f7112ab 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -23,6 +23,7 @@ import (
 	"net/http"
 	"os/exec"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/grpc"
@@ -32,6 +33,7 @@ import (
 
 var (
 	// address string = "localhost:50051"
+	// rpc counts the failed heartbeats, the handlers use it concurrently
 	rpc int32
 )
 
@@ -57,7 +59,7 @@ func Grpcc(addr, dir, bra string) {
 	for {
 		time.Sleep(1 * time.Second)
 		heart(c)
-		if rpc > 3 {
+		if atomic.LoadInt32(&rpc) > 3 {
 			wg.Add(1)
 			go func() {
 				defer wg.Done()
@@ -78,9 +80,8 @@ func heart(c pb.GreeterClient) {
 	})
 
 	if err != nil {
-		rpc++
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		if n := atomic.AddInt32(&rpc, 1); n > 3 {
+			log.Println("rpc...", n)
 		}
 
 		log.Printf("could not greet: %v", err)
@@ -91,16 +92,16 @@ func heart(c pb.GreeterClient) {
 	log.Printf("Greeting: %d", r.Result)
 
 	if r.Result != 1 {
-		rpc++
+		n := atomic.AddInt32(&rpc, 1)
 		log.Println("...", r.Result)
-		if rpc > 3 {
-			log.Println("rpc...", rpc)
+		if n > 3 {
+			log.Println("rpc...", n)
 		}
 	}
 }
 
 func restart(dir, bra string) error {
-	rpc = 0
+	atomic.StoreInt32(&rpc, 0)
 	cmd := exec.Command("/bin/sh", "-c", bra)
 	cmd.Dir = dir
 	// cmd.Run()
@@ -137,7 +138,7 @@ func Health(w http.ResponseWriter, req *http.Request) {
 	response, _ := json.Marshal(&Json{
 		Code:      0,
 		Timestamp: timestamp,
-		Health:    rpc})
+		Health:    atomic.LoadInt32(&rpc)})
 
 	w.Header().Set("Content-Type", "application/json;charset=utf-8")
 	io.WriteString(w, string(response))
-- 
2.43.0


From ff77b823db02d12ea877296634f811240bfdd0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 30/37] fix: names of a kill request are not read by a shell

KillSer and RestartSer ran a shell with the name of the request.
---
 net/heartb/heart.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/heartb/heart.go b/net/heartb/heart.go
index f7112ab..804c88a 100644
--- a/net/heartb/heart.go
+++ b/net/heartb/heart.go
@@ -22,6 +22,7 @@ import (
 	"log"
 	"net/http"
 	"os/exec"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -165,7 +166,10 @@ func KillSer(w http.ResponseWriter, req *http.Request) {
 }
 
 func kill(name string) {
-	err := restart("", "killall -9 "+name)
+	atomic.StoreInt32(&rpc, 0)
+	// the names come from a request, no shell must see them
+	args := append([]string{"-9", "--"}, strings.Fields(name)...)
+	err := exec.Command("killall", args...).Run()
 	if err != nil {
 		log.Println("kill...", err)
 	}
-- 
2.43.0


From 3ea207fbff661bb6906266ba3abef7fcf08e04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 31/37] fix: searches that timed out share their request with
 the caller

---
 engine.go         |  5 +++++
 indexer_worker.go | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/engine.go b/engine.go
index fea5e4d..17b8f04 100755
--- a/engine.go
+++ b/engine.go
@@ -836,6 +836,11 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 		logic:            request.Logic,
 	}
 
+	if request.Timeout > 0 {
+		// 超时返回后查找可能仍在进行, 而调用方可能已重用其请求和结果
+		lookupRequest = lookupRequest.clone()
+	}
+
 	// 向索引器发送查找请求
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
 		engine.indexerLookupChans[shard] <- lookupRequest
diff --git a/indexer_worker.go b/indexer_worker.go
index e573a9d..1cf15ca 100755
--- a/indexer_worker.go
+++ b/indexer_worker.go
@@ -38,6 +38,27 @@ type indexerLookupReq struct {
 	logic            types.Logic
 }
 
+// clone 复制查找请求, 不与原请求共享关键词、标签和文档
+func (request indexerLookupReq) clone() indexerLookupReq {
+	request.tokens = append([]string{}, request.tokens...)
+	request.labels = append([]string{}, request.labels...)
+
+	if request.docIds != nil {
+		docIds := make(map[string]bool, len(request.docIds))
+		for docId, ok := range request.docIds {
+			docIds[docId] = ok
+		}
+		request.docIds = docIds
+	}
+
+	expr := &request.logic.Expr
+	expr.Must = append([]string{}, expr.Must...)
+	expr.Should = append([]string{}, expr.Should...)
+	expr.NotIn = append([]string{}, expr.NotIn...)
+
+	return request
+}
+
 type indexerRemoveDocReq struct {
 	docId       string
 	forceUpdate bool
-- 
2.43.0


From 9d40b9ec2143fd226c91a50a182e4259f9b02fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 32/37] fix: the timeout of a search covers a full lookup queue

---
 engine.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/engine.go b/engine.go
index 17b8f04..95bc63f 100755
--- a/engine.go
+++ b/engine.go
@@ -620,17 +620,20 @@ func (engine *Engine) NotTimeOut(request types.SearchReq,
 	return
 }
 
+// timeoutDuration 毫秒转为 time.Duration, 过长时乘积会溢出, 取最大值
+func timeoutDuration(timeout int) time.Duration {
+	if int64(timeout) < math.MaxInt64/NumNanosecondsInAMillisecond {
+		return NumNanosecondsInAMillisecond * time.Duration(timeout)
+	}
+	return math.MaxInt64
+}
+
 // TimeOut set engine timeout
 func (engine *Engine) TimeOut(request types.SearchReq,
 	rankerReturnChan chan rankerReturnReq) (
 	rankOutArr interface{}, numDocs int, isTimeout bool) {
 
-	// 超时过长时乘积会溢出, 取最大值
-	timeout := time.Duration(math.MaxInt64)
-	if int64(request.Timeout) < math.MaxInt64/NumNanosecondsInAMillisecond {
-		timeout = NumNanosecondsInAMillisecond * time.Duration(request.Timeout)
-	}
-	deadline := time.Now().Add(timeout)
+	deadline := time.Now().Add(timeoutDuration(request.Timeout))
 
 	var (
 		rankOutID  types.ScoredIDs
@@ -841,9 +844,30 @@ func (engine *Engine) Search(request types.SearchReq) (output types.SearchResp)
 		lookupRequest = lookupRequest.clone()
 	}
 
-	// 向索引器发送查找请求
-	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexerLookupChans[shard] <- lookupRequest
+	// 向索引器发送查找请求, 设置超时时, 等待发送的时间也计算在内
+	var expired <-chan time.Time
+	start := time.Now()
+	if request.Timeout > 0 {
+		timer := time.NewTimer(timeoutDuration(request.Timeout))
+		defer timer.Stop()
+		expired = timer.C
+	}
+
+	for shard, sent := 0, true; sent && shard < engine.initOptions.NumShards; shard++ {
+		select {
+		case engine.indexerLookupChans[shard] <- lookupRequest:
+		case <-expired:
+			sent = false
+		}
+	}
+
+	if request.Timeout > 0 {
+		used := int(time.Since(start) / NumNanosecondsInAMillisecond)
+		if used < request.Timeout {
+			request.Timeout -= used
+		} else {
+			request.Timeout = 1
+		}
 	}
 
 	if engine.initOptions.IDOnly {
-- 
2.43.0


From a8f273a659aa2f7d3e9b98f88ffa756ac183224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 33/37] fix: keep the order of updates of a document with
 several segmenter threads

---
 engine.go  | 17 ++++++++++++-----
 segment.go |  4 ++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/engine.go b/engine.go
index 95bc63f..9cc3db8 100755
--- a/engine.go
+++ b/engine.go
@@ -94,7 +94,7 @@ type Engine struct {
 	dbs        []store.Store
 
 	// 建立索引器使用的通信通道
-	segmenterChan         chan segmenterReq
+	segmenterChans        []chan segmenterReq
 	indexerAddDocChans    []chan indexerAddDocReq
 	indexerRemoveDocChans []chan indexerRemoveDocReq
 	rankerAddDocChans     []chan rankerAddDocReq
@@ -319,8 +319,13 @@ func (engine *Engine) Init(options types.EngineOpts) {
 	}
 
 	// 初始化分词器通道
-	engine.segmenterChan = make(
-		chan segmenterReq, options.NumGseThreads)
+	engine.segmenterChans = make(
+		[]chan segmenterReq, options.NumGseThreads)
+
+	for iThread := 0; iThread < options.NumGseThreads; iThread++ {
+		engine.segmenterChans[iThread] = make(
+			chan segmenterReq, options.NumGseThreads)
+	}
 
 	// 初始化索引器通道
 	engine.Indexer(options)
@@ -338,7 +343,7 @@ func (engine *Engine) Init(options types.EngineOpts) {
 
 	// 启动分词器
 	for iThread := 0; iThread < options.NumGseThreads; iThread++ {
-		go engine.segmenterWorker()
+		go engine.segmenterWorker(iThread)
 	}
 
 	// 启动索引器和排序器
@@ -425,7 +430,9 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 		shard = engine.docShard(docId, data.Content)
 	}
 
-	engine.segmenterChan <- segmenterReq{
+	// 同一文档总由同一协程分词, 其各个版本才能依次加入索引
+	thread := murmur.Sum32(docId) % uint32(engine.initOptions.NumGseThreads)
+	engine.segmenterChans[thread] <- segmenterReq{
 		docId: docId, shard: shard, data: data, forceUpdate: forceUpdate}
 }
 
diff --git a/segment.go b/segment.go
index 233ef74..a6fc239 100755
--- a/segment.go
+++ b/segment.go
@@ -249,9 +249,9 @@ func (engine *Engine) makeTokensMap(request segmenterReq) (map[string][]int, int
 	return tokensMap, numTokens
 }
 
-func (engine *Engine) segmenterWorker() {
+func (engine *Engine) segmenterWorker(iThread int) {
 	for {
-		request := <-engine.segmenterChan
+		request := <-engine.segmenterChans[iThread]
 		if request.docId == "0" {
 			if request.forceUpdate {
 				for i := 0; i < engine.initOptions.NumShards; i++ {
-- 
2.43.0


From fa255613d96ee68f9ab1d3a4f93d5a52790e7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 34/37] fix: update a document in the same order in the index
 and the store

---
 engine.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/engine.go b/engine.go
index 9cc3db8..a4b2c9f 100755
--- a/engine.go
+++ b/engine.go
@@ -86,6 +86,9 @@ type Engine struct {
 	// 文档所在的 shard, 由 loc 保护
 	docShards map[string]int
 
+	// 索引与持久存储以同样的次序更新同一文档, 文档按编号分摊到各锁
+	docLocks [64]sync.Mutex
+
 	indexers   []core.Indexer
 	rankers    []core.Ranker
 	segmenter  gse.Segmenter
@@ -400,6 +403,12 @@ func (engine *Engine) Index(docId string, data types.DocData,
 	// 	engine.RemoveDoc(docId)
 	// }
 
+	if engine.initOptions.UseStore && docId != "0" {
+		lock := &engine.docLocks[murmur.Sum32(docId)%uint32(len(engine.docLocks))]
+		lock.Lock()
+		defer lock.Unlock()
+	}
+
 	// data.Tokens
 	engine.internalIndexDoc(docId, data, force)
 
-- 
2.43.0


From e98f5710dc8fc757abf5e70ccd83515e63c2e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 35/37] fix: keep the order of additions and removals of a
 document

Removals were handed to the indexers and rankers directly and overtook, or
were overtaken by, the additions of the same document, which pass through the
segmenters and channels of their own.
---
 engine.go         | 45 +++++++++++++++------------------------------
 indexer_worker.go | 31 ++++++++++++++++---------------
 ranker_worker.go  | 20 ++++++++++----------
 segment.go        | 20 ++++++++++++++++++++
 4 files changed, 61 insertions(+), 55 deletions(-)

diff --git a/engine.go b/engine.go
index a4b2c9f..3758f75 100755
--- a/engine.go
+++ b/engine.go
@@ -97,15 +97,13 @@ type Engine struct {
 	dbs        []store.Store
 
 	// 建立索引器使用的通信通道
-	segmenterChans        []chan segmenterReq
-	indexerAddDocChans    []chan indexerAddDocReq
-	indexerRemoveDocChans []chan indexerRemoveDocReq
-	rankerAddDocChans     []chan rankerAddDocReq
+	segmenterChans     []chan segmenterReq
+	indexerAddDocChans []chan indexerAddDocReq
+	rankerAddDocChans  []chan rankerAddDocReq
 
 	// 建立排序器使用的通信通道
-	indexerLookupChans   []chan indexerLookupReq
-	rankerRankChans      []chan rankerRankReq
-	rankerRemoveDocChans []chan rankerRemoveDocReq
+	indexerLookupChans []chan indexerLookupReq
+	rankerRankChans    []chan rankerRankReq
 
 	// 建立持久存储使用的通信通道
 	storeIndexDocChans []chan storeIndexDocReq
@@ -117,9 +115,6 @@ func (engine *Engine) Indexer(options types.EngineOpts) {
 	engine.indexerAddDocChans = make(
 		[]chan indexerAddDocReq, options.NumShards)
 
-	engine.indexerRemoveDocChans = make(
-		[]chan indexerRemoveDocReq, options.NumShards)
-
 	engine.indexerLookupChans = make(
 		[]chan indexerLookupReq, options.NumShards)
 
@@ -127,9 +122,6 @@ func (engine *Engine) Indexer(options types.EngineOpts) {
 		engine.indexerAddDocChans[shard] = make(
 			chan indexerAddDocReq, options.IndexerBufLen)
 
-		engine.indexerRemoveDocChans[shard] = make(
-			chan indexerRemoveDocReq, options.IndexerBufLen)
-
 		engine.indexerLookupChans[shard] = make(
 			chan indexerLookupReq, options.IndexerBufLen)
 	}
@@ -143,18 +135,12 @@ func (engine *Engine) Ranker(options types.EngineOpts) {
 	engine.rankerRankChans = make(
 		[]chan rankerRankReq, options.NumShards)
 
-	engine.rankerRemoveDocChans = make(
-		[]chan rankerRemoveDocReq, options.NumShards)
-
 	for shard := 0; shard < options.NumShards; shard++ {
 		engine.rankerAddDocChans[shard] = make(
 			chan rankerAddDocReq, options.RankerBufLen)
 
 		engine.rankerRankChans[shard] = make(
 			chan rankerRankReq, options.RankerBufLen)
-
-		engine.rankerRemoveDocChans[shard] = make(
-			chan rankerRemoveDocReq, options.RankerBufLen)
 	}
 }
 
@@ -352,9 +338,7 @@ func (engine *Engine) Init(options types.EngineOpts) {
 	// 启动索引器和排序器
 	for shard := 0; shard < options.NumShards; shard++ {
 		go engine.indexerAddDoc(shard)
-		go engine.indexerRemoveDoc(shard)
 		go engine.rankerAddDoc(shard)
-		go engine.rankerRemoveDoc(shard)
 
 		for i := 0; i < options.NumIndexerThreads; i++ {
 			go engine.indexerLookup(shard)
@@ -447,7 +431,7 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 
 // docShard get the shard of the document, a document that is indexed
 // again stays in its shard, even if its content has changed or it was
-// removed in between: its removal may overtake the version before it
+// removed in between
 func (engine *Engine) docShard(docId, content string) int {
 	engine.loc.Lock()
 	defer engine.loc.Unlock()
@@ -491,16 +475,17 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
 	}
 
-	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexerRemoveDocChans[shard] <- indexerRemoveDocReq{
-			docId: docId, forceUpdate: force}
-
-		if docId == "0" {
-			continue
-		}
-		engine.rankerRemoveDocChans[shard] <- rankerRemoveDocReq{docId: docId}
+	if engine.initOptions.UseStore && docId != "0" {
+		lock := &engine.docLocks[murmur.Sum32(docId)%uint32(len(engine.docLocks))]
+		lock.Lock()
+		defer lock.Unlock()
 	}
 
+	// 与同一文档的加入请求经过同样的通道, 两者才能依次执行
+	thread := murmur.Sum32(docId) % uint32(engine.initOptions.NumGseThreads)
+	engine.segmenterChans[thread] <- segmenterReq{
+		docId: docId, remove: true, forceUpdate: force}
+
 	if engine.initOptions.UseStore && docId != "0" {
 		// 从数据库中删除
 		hash := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)
diff --git a/indexer_worker.go b/indexer_worker.go
index 1cf15ca..b1ba4dc 100755
--- a/indexer_worker.go
+++ b/indexer_worker.go
@@ -24,6 +24,10 @@ import (
 type indexerAddDocReq struct {
 	doc         *types.DocIndex
 	forceUpdate bool
+
+	// 删除文档 removeId, 此时 doc 为 nil
+	remove   bool
+	removeId string
 }
 
 type indexerLookupReq struct {
@@ -59,14 +63,14 @@ func (request indexerLookupReq) clone() indexerLookupReq {
 	return request
 }
 
-type indexerRemoveDocReq struct {
-	docId       string
-	forceUpdate bool
-}
-
 func (engine *Engine) indexerAddDoc(shard int) {
 	for {
 		request := <-engine.indexerAddDocChans[shard]
+		if request.remove {
+			engine.indexerRemoveDoc(shard, request)
+			continue
+		}
+
 		engine.indexers[shard].AddDocToCache(request.doc, request.forceUpdate)
 		if request.doc != nil {
 			atomic.AddUint64(&engine.numTokenIndexAdded,
@@ -80,16 +84,13 @@ func (engine *Engine) indexerAddDoc(shard int) {
 	}
 }
 
-func (engine *Engine) indexerRemoveDoc(shard int) {
-	for {
-		request := <-engine.indexerRemoveDocChans[shard]
-		engine.indexers[shard].RemoveDocToCache(request.docId, request.forceUpdate)
-		if request.docId != "0" {
-			atomic.AddUint64(&engine.numDocsRemoved, 1)
-		}
-		if request.forceUpdate {
-			atomic.AddUint64(&engine.numDocsForceUpdated, 1)
-		}
+func (engine *Engine) indexerRemoveDoc(shard int, request indexerAddDocReq) {
+	engine.indexers[shard].RemoveDocToCache(request.removeId, request.forceUpdate)
+	if request.removeId != "0" {
+		atomic.AddUint64(&engine.numDocsRemoved, 1)
+	}
+	if request.forceUpdate {
+		atomic.AddUint64(&engine.numDocsForceUpdated, 1)
 	}
 }
 
diff --git a/ranker_worker.go b/ranker_worker.go
index e6588a3..b3b8640 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -28,6 +28,8 @@ type rankerAddDocReq struct {
 	content string
 	// new 属性
 	attri interface{}
+
+	remove bool
 }
 
 type rankerRankReq struct {
@@ -43,13 +45,14 @@ type rankerReturnReq struct {
 	numDocs int
 }
 
-type rankerRemoveDocReq struct {
-	docId string
-}
-
 func (engine *Engine) rankerAddDoc(shard int) {
 	for {
 		request := <-engine.rankerAddDocChans[shard]
+		if request.remove {
+			engine.rankerRemoveDoc(shard, request)
+			continue
+		}
+
 		if engine.initOptions.IDOnly {
 			engine.rankers[shard].AddDoc(request.docId, request.fields)
 		} else {
@@ -76,10 +79,7 @@ func (engine *Engine) rankerRank(shard int) {
 	}
 }
 
-func (engine *Engine) rankerRemoveDoc(shard int) {
-	for {
-		request := <-engine.rankerRemoveDocChans[shard]
-		engine.rankers[shard].RemoveDoc(request.docId)
-		atomic.AddUint64(&engine.numDocsRankRemoved, 1)
-	}
+func (engine *Engine) rankerRemoveDoc(shard int, request rankerAddDocReq) {
+	engine.rankers[shard].RemoveDoc(request.docId)
+	atomic.AddUint64(&engine.numDocsRankRemoved, 1)
 }
diff --git a/segment.go b/segment.go
index a6fc239..dcd3327 100755
--- a/segment.go
+++ b/segment.go
@@ -38,6 +38,7 @@ type segmenterReq struct {
 	data  types.DocData
 	// data        types.DocumentIndexData
 	forceUpdate bool
+	remove      bool
 }
 
 // ForSplitData for split segment's data, segspl
@@ -249,9 +250,28 @@ func (engine *Engine) makeTokensMap(request segmenterReq) (map[string][]int, int
 	return tokensMap, numTokens
 }
 
+// removeDoc remove the document from the indexers and rankers of all shards
+func (engine *Engine) removeDoc(docId string, forceUpdate bool) {
+	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
+		engine.indexerAddDocChans[shard] <- indexerAddDocReq{
+			removeId: docId, remove: true, forceUpdate: forceUpdate}
+
+		if docId == "0" {
+			continue
+		}
+		engine.rankerAddDocChans[shard] <- rankerAddDocReq{
+			docId: docId, remove: true}
+	}
+}
+
 func (engine *Engine) segmenterWorker(iThread int) {
 	for {
 		request := <-engine.segmenterChans[iThread]
+		if request.remove {
+			engine.removeDoc(request.docId, request.forceUpdate)
+			continue
+		}
+
 		if request.docId == "0" {
 			if request.forceUpdate {
 				for i := 0; i < engine.initOptions.NumShards; i++ {
-- 
2.43.0


From 5a79a3fcc09e74536cf7dfb783d196b4dacacf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 36/37] fix: removing a document drops its additions that are
 still cached

---
 core/indexer.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 251ea89..4a2452f 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -43,6 +43,7 @@ type Indexer struct {
 		sync.RWMutex
 		addCachePointer int
 		addCache        types.DocsIndex
+		docsCached      map[string]int // addCache 中每个文档的版本数
 	}
 
 	removeCacheLock struct {
@@ -86,6 +87,7 @@ func (indexer *Indexer) Init(options types.IndexerOpts) {
 	indexer.tableLock.docsState = make(map[string]int)
 	indexer.addCacheLock.addCache = make(
 		[]*types.DocIndex, indexer.initOptions.DocCacheSize)
+	indexer.addCacheLock.docsCached = make(map[string]int)
 
 	indexer.removeCacheLock.removeCache = make(
 		[]string, indexer.initOptions.DocCacheSize*2)
@@ -126,6 +128,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 	if doc != nil {
 		indexer.addCacheLock.addCache[indexer.addCacheLock.addCachePointer] = doc
 		indexer.addCacheLock.addCachePointer++
+		indexer.addCacheLock.docsCached[doc.DocId]++
 	}
 
 	docSize := indexer.addCacheLock.addCachePointer >= indexer.initOptions.DocCacheSize
@@ -176,6 +179,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
 		indexer.addCacheLock.addCachePointer = position
+		for _, docIndex := range addCachedDocs {
+			indexer.uncache(docIndex.DocId)
+		}
 
 		// addCachedDocs 与 addCache 共用内存, 加入索引表之前不能放开 addCacheLock
 		sort.Stable(addCachedDocs)
@@ -270,9 +276,13 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 		log.Fatal("The Indexer has not been initialized.")
 	}
 
+	indexer.addCacheLock.Lock()
+	defer indexer.addCacheLock.Unlock()
 	indexer.removeCacheLock.Lock()
 	defer indexer.removeCacheLock.Unlock()
 	if docId != "0" {
+		indexer.dropCachedDoc(docId)
+
 		indexer.tableLock.Lock()
 		docState, ok := indexer.tableLock.docsState[docId]
 		if ok && docState == 0 {
@@ -283,8 +293,6 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 		} else if ok && docState == 2 {
 			// 删除一个等待加入的文档
 			indexer.tableLock.docsState[docId] = 1
-		} else if !ok {
-			// 若文档不存在，则无法判断其是否在 addCache 中，需避免这样的操作
 		}
 		indexer.tableLock.Unlock()
 	}
@@ -292,6 +300,32 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 	return indexer.flushRemoveCache(forceUpdate)
 }
 
+// uncache 文档的一个版本离开 addCache, 调用者须持有 addCacheLock
+func (indexer *Indexer) uncache(docId string) {
+	indexer.addCacheLock.docsCached[docId]--
+	if indexer.addCacheLock.docsCached[docId] == 0 {
+		delete(indexer.addCacheLock.docsCached, docId)
+	}
+}
+
+// dropCachedDoc 从 addCache 中去掉文档的所有版本, 调用者须持有 addCacheLock
+func (indexer *Indexer) dropCachedDoc(docId string) {
+	if indexer.addCacheLock.docsCached[docId] == 0 {
+		return
+	}
+
+	rest := 0
+	for i := 0; i < indexer.addCacheLock.addCachePointer; i++ {
+		docIndex := indexer.addCacheLock.addCache[i]
+		if docIndex.DocId != docId {
+			indexer.addCacheLock.addCache[rest] = docIndex
+			rest++
+		}
+	}
+	indexer.addCacheLock.addCachePointer = rest
+	delete(indexer.addCacheLock.docsCached, docId)
+}
+
 // flushRemoveCache 当 REMOVECACHE 已满或 forceUpdate 时从索引表中删除其中的文档,
 // 调用者须持有 removeCacheLock
 func (indexer *Indexer) flushRemoveCache(forceUpdate bool) bool {
-- 
2.43.0


From 87dc38eaff55239d60f273561f64c81ac647f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 37/37] fix: sum document lengths in float64

With float32 the sum was rounded once it passed 2^24, and removing documents
did not undo the rounding: an index that had been large kept a wrong average
length, so BM25 scores of the remaining documents were wrong.
---
 core/indexer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 4a2452f..ecbf894 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -59,8 +59,8 @@ type Indexer struct {
 	numDocs uint64
 	// docIDs *hset.Hset
 
-	// 所有被索引文本的总关键词数
-	totalTokenLen float32
+	// 所有被索引文本的总关键词数, float32 无法精确累计
+	totalTokenLen float64
 
 	// 每个文档的关键词长度
 	docTokenLens map[string]float32
@@ -216,7 +216,7 @@ func (indexer *Indexer) AddDocs(docs *types.DocsIndex) {
 		// 更新文档关键词总长度
 		if doc.TokenLen != 0 {
 			indexer.docTokenLens[doc.DocId] = float32(doc.TokenLen)
-			indexer.totalTokenLen += doc.TokenLen
+			indexer.totalTokenLen += float64(doc.TokenLen)
 		}
 
 		docIdIsNew := true
@@ -353,7 +353,7 @@ func (indexer *Indexer) RemoveDocs(docs *types.DocsId) {
 
 	// 更新文档关键词总长度，删除文档状态
 	for _, docId := range *docs {
-		indexer.totalTokenLen -= indexer.docTokenLens[docId]
+		indexer.totalTokenLen -= float64(indexer.docTokenLens[docId])
 		delete(indexer.docTokenLens, docId)
 		delete(indexer.tableLock.docsState, docId)
 	}
@@ -489,7 +489,7 @@ func (indexer *Indexer) internalLookup(
 	}
 
 	// 平均文本关键词长度，用于计算BM25
-	avgDocLength := indexer.totalTokenLen / float32(indexer.numDocs)
+	avgDocLength := float32(indexer.totalTokenLen / float64(indexer.numDocs))
 	for ; indexPointers[0] >= 0; indexPointers[0]-- {
 		// 以第一个搜索键出现的文档作为基准，并遍历其他搜索键搜索同一文档
 		baseDocId := indexer.getDocId(table[0], indexPointers[0])
-- 
2.43.0

