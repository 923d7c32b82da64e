"""Planted bugs: id -> (property, file, [(old, new)], needs, what it breaks)."""
M = {}


def m(id, prop, file, edits, needs, breaks):
    if isinstance(edits, tuple):
        edits = [edits]
    M[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks)


I = "core/indexer.go"
m("c01-freq-not-moved", "C01", I, ("""					case types.FrequenciesIndex:
						indices.frequencies[indicesTop] = indices.frequencies[indicesPointer]
					}

					indices.docIds""", """					}

					indices.docIds"""),
  "a FrequenciesIndex, one batch of removals that removes a document before and a document after a surviving one in the list of a keyword",
  "the surviving document keeps the frequency of the removed document")
m("c01-pending-removal", "C01", I, ("			if ok && docState <= 1 {", "			if ok && docState == 0 {"),
  "a document whose removal is still in the remove cache is added again before the cache is committed",
  "the document is never added to the index")
m("c02-locations-break", "C02", I, ("""				if numTokensWithLocations != len(tokens) {
					if !countDocsOnly {
						docs = append(docs, types.IndexedDoc{
							DocId: baseDocId,
						})
					}
					numDocs++
""", """				if numTokensWithLocations != len(tokens) {
					if countDocsOnly {
						continue
					}
					docs = append(docs, types.IndexedDoc{
						DocId: baseDocId,
					})
					numDocs++
"""),
  "a counting lookup on a LocsIndex that matches a document which has one of the tokens without locations",
  "the count is smaller than the number of matches")
m("c03-union-duplicate", "C03", I, ("""				for _, v := range docIds {
					if v == docid {
						found = true
						break
					}
				}
""", """				if n := len(docIds); n > 0 && docIds[n-1] == docid {
					found = true
				}
"""),
  "a should-only query with two keywords, a document with both that is not last in the list of the first",
  "a document is returned (and counted) twice")
m("c03-notin-early-exit", "C03", I, ("""func (indexer *Indexer) findInNotInTable(table []*KeywordIndices, docId string) bool {
	for i := 0; i < len(table); i++ {
		_, foundDocId := indexer.searchIndex(
			table[i], 0, indexer.getIndexLen(table[i])-1, docId)

		if foundDocId {
			return true
		}
""", """func (indexer *Indexer) findInNotInTable(table []*KeywordIndices, docId string) bool {
	for i := 0; i < len(table); i++ {
		position, foundDocId := indexer.searchIndex(
			table[i], 0, indexer.getIndexLen(table[i])-1, docId)

		if foundDocId {
			return true
		}
		if position == 0 {
			break
		}
"""),
  "two notin keywords, a document before all documents of the first one that has the second one",
  "a document with a notin keyword is returned")
m("c04-stale-length", "C04", I, ("""		delete(indexer.docTokenLens, docId)
""", ""),
  "a document with content is indexed again with labels only (no tokens), and its labels are searched, or it is removed later",
  "its old length is still used, and is subtracted from the total once for every removal")
m("c04-update-count", "C04", I, ("""					indexer.tableLock.docsState[docIndex.DocId] = 1
					indexer.numDocs--
""", """					indexer.tableLock.docsState[docIndex.DocId] = 1
"""),
  "a document that is updated without being removed",
  "the number of documents in the score grows with every update")
m("c06-score-prefix", "C06", "types/search_response.go", ("""	return len(docs[i].Scores) > len(docs[j].Scores)
}

/*""", """	return false
}

/*"""),
  "criteria that give documents different numbers of scores, with equal leading scores",
  "the document with more scores is not first")
m("c06-count-unscored", "C06", "core/ranker.go", ("""							TokenSnippetLocs: d.TokenSnippetLocs,
							TokenLocs:        d.TokenLocs,
						})
				}
				numDocs++
			}
""", """							TokenSnippetLocs: d.TokenSnippetLocs,
							TokenLocs:        d.TokenLocs,
						})
				}
			}
			numDocs++
"""),
  "an ID-only ranker and criteria that drop some documents",
  "dropped documents are counted")
m("c07-badger-empty", "C07", "store/badger_store.go", ("	if string(val) == \"\" && err != nil {", "	if string(val) == \"\" || err != nil {"),
  "a key with an empty value in a badger store",
  "Has is false for a key that Get and ForEach find")
m("c08-ldb-write-buffer", "C08", "store/ldb_store.go", [
    ("type Leveldb struct {\n	db *leveldb.DB\n}", "type Leveldb struct {\n	db *leveldb.DB\n\n	lock  sync.Mutex\n	batch leveldb.Batch\n}\n\n// write writes the pending changes\nfunc (s *Leveldb) write(min int) error {\n	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.batch.Len() < min {\n		return nil\n	}\n	err := s.db.Write(&s.batch, nil)\n	s.batch.Reset()\n	return err\n}"),
    ("	return &Leveldb{db}, nil", "	return &Leveldb{db: db}, nil"),
    ("	return s.db.Put(k, v, nil)", "	s.lock.Lock()\n	s.batch.Put(k, v)\n	s.lock.Unlock()\n	return s.write(4)"),
    ("	return s.db.Get(k, nil)", "	if err := s.write(1); err != nil {\n		return nil, err\n	}\n	return s.db.Get(k, nil)"),
    ("	return s.db.Delete(k, nil)", "	s.lock.Lock()\n	s.batch.Delete(k)\n	s.lock.Unlock()\n	return s.write(4)"),
    ("	return s.db.Has(k, nil)", "	if err := s.write(1); err != nil {\n		return false, err\n	}\n	return s.db.Has(k, nil)"),
    ("	iter := s.db.NewIterator(nil, nil)", "	if err := s.write(1); err != nil {\n		return err\n	}\n	iter := s.db.NewIterator(nil, nil)"),
    ("	return s.db.Close()", "	s.write(1)\n	return s.db.Close()"),
    ("import (\n", "import (\n	\"sync\"\n\n"),
], "a process that is killed after one to three writes which nothing has read",
  "acknowledged writes are lost")
m("c09-label-locations", "C09", "segment.go", ("""			} else {
				// 当正文中已存在关键字时，若不判断，位置信息将会丢失
				if _, ok := tokensMap[label]; !ok {
					tokensMap[label] = []int{}
				}
			}
""", """			} else {
				tokensMap[label] = []int{}
			}
"""),
  "an engine with NotUseGse, a document with a label equal to one of its tokens",
  "the token loses its frequency and locations: no score, no snippet")
m("c09-stale-fields", "C09", "core/ranker.go", ("	ranker.lock.fields[docId] = fields\n", "	if fields != nil || !ranker.lock.docs[docId] {\n		ranker.lock.fields[docId] = fields\n	}\n"),
  "a document with fields that is indexed again without fields",
  "the document is scored with the fields of its former version")
m("c09-rank-order", "C09", "segment.go", ("		engine.rankerAddDocChans[shard] <- rankerRequest\n", "		select {\n		case engine.rankerAddDocChans[shard] <- rankerRequest:\n		default:\n			// 排序器繁忙时不阻塞分词\n			go func() { engine.rankerAddDocChans[shard] <- rankerRequest }()\n		}\n"),
  "a busy ranker, and a document that is indexed twice without a Flush in between",
  "the document is found by the keywords of its last version with the content of an earlier one")
m("c10-shard-window", "C10", "ranker_worker.go", ("			request.options.MaxOutputs += request.options.OutputOffset\n", "			request.options.MaxOutputs += request.options.OutputOffset / engine.initOptions.NumShards\n"),
  "several shards, a window with offset, the best documents in one shard",
  "later pages of a sharded engine miss documents")
m("c11-timeout-count", "C11", "engine.go", ("""					}
				}
			}
			numDocs += rankerOutput.numDocs
		case""", """					}
				}
				numDocs += rankerOutput.numDocs
			}
		case"""),
  "a counting search with a timeout",
  "a counting search with a timeout that is not reached finds 0 documents")
m("c11-shard-deadline", "C11", "engine.go", [("""	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
		select {
		case rankerOutput := <-rankerReturnChan:
			if !request.CountDocsOnly {
				if rankerOutput.docs != nil {
					if idOnly {""", """	left := deadline.Sub(time.Now())
	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
		select {
		case rankerOutput := <-rankerReturnChan:
			if !request.CountDocsOnly {
				if rankerOutput.docs != nil {
					if idOnly {"""),
  ("time.After(deadline.Sub(time.Now()))", "time.After(left)")],
  "a search that times out while the scoring of documents of several shards is held up",
  "the search returns after its timeout times the number of shards that are late")
m("c12-tokens-only", "C12", "store_worker.go", ("		if err == nil {\n			// 添加索引", "		if err == nil && data.Content != \"\" {\n			// 添加索引"),
  "a document without content, only tokens or labels, and a restart",
  "the document is not recovered")
m("c13-ack-before-write", "C13", "store_worker.go", ("""		// 将 key-value 写入数据库
		engine.dbs[shard].Set(b, buf.Bytes())

		atomic.AddUint64(&engine.numDocsStored, 1)
""", """		// 将 key-value 写入数据库
		value := append([]byte{}, buf.Bytes()...)
		go engine.dbs[shard].Set(b, value)

		atomic.AddUint64(&engine.numDocsStored, 1)
"""),
  "a process that is killed right after Flush, or a document that is indexed again at once",
  "documents of a finished Flush are not stored")
m("c14-ranker-unlock", "C14", "core/ranker.go", ("""			fs := ranker.lock.fields[d.DocId]
			content := ranker.lock.content[d.DocId]
			attri := ranker.lock.attri[d.DocId]
			ranker.lock.RUnlock()
""", """			fs := ranker.lock.fields[d.DocId]
			ranker.lock.RUnlock()
			content := ranker.lock.content[d.DocId]
			attri := ranker.lock.attri[d.DocId]
"""),
  "a search while documents are added",
  "a map is read while it is written")
m("c14-recursive-lock", "C14", I, ("""			docState, ok := indexer.tableLock.docsState[baseDocId]
			if !ok || docState != 0 {
				continue
			}
			indexedDoc""", """			if !indexer.HasDoc(baseDocId) {
				continue
			}
			indexedDoc"""),
  "a writer that asks for the table lock between the two read locks of a lookup",
  "a search and an indexer wait for each other forever")
m("c15-stop-split", "C15", "segment.go", ("""			splitStr += strData[i]
			if !engine.stopTokens.IsStopToken(splitStr) {
				numTokens++
				tokensMap[splitStr] = append(tokensMap[splitStr], numTokens)
			}
""", """			if !engine.stopTokens.IsStopToken(strData[i]) {
				splitStr += strData[i]
				numTokens++
				tokensMap[splitStr] = append(tokensMap[splitStr], numTokens)
			}
"""),
  "a stop word that is a single character, a content that has it in the middle",
  "a document is not found by a prefix of its content")
m("c16-request-late", "C16", "engine.go", [("""	if docId != "0" {
		atomic.AddUint64(&engine.numIndexingReqs, 1)
	}
	if forceUpdate {
		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
	}

	shard := 0
""", """	if forceUpdate {
		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
	}

	shard := 0
"""), ("""		docId: docId, shard: shard, data: data, forceUpdate: forceUpdate}
}

// docShard""", """		docId: docId, shard: shard, data: data, forceUpdate: forceUpdate}

	if docId != "0" {
		atomic.AddUint64(&engine.numIndexingReqs, 1)
	}
}

// docShard""")],
  "two goroutines that index: a document that takes long is still pending, and another one is done before its request is counted",
  "the done document stands in for the pending one, and Flush returns before the pending document is indexed")
m("c16-force-late", "C16", "engine.go", [("""		atomic.AddUint64(&engine.numIndexingReqs, 1)
	}
	if forceUpdate {
		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
	}

	shard := 0
""", """		atomic.AddUint64(&engine.numIndexingReqs, 1)
	}

	shard := 0
"""), ("""		docId: docId, shard: shard, data: data, forceUpdate: forceUpdate}
}

// docShard""", """		docId: docId, shard: shard, data: data, forceUpdate: forceUpdate}

	if forceUpdate {
		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
	}
}

// docShard""")],
  "two goroutines that flush: the forced update of one of them is done on a shard before its request is counted, while another shard has not done that of the other one",
  "Flush returns before the cached documents of a shard are indexed")
m("c17-window", "C17", "net/http/http.go", ("""	if maxOutputs == 0 {
		outputOffset = config""", """	if maxOutputs == 0 && outputOffset == 0 {
		outputOffset = config"""),
  "a request with an offset but no limit",
  "the request is not limited to the configured window")
m("c17-config-key", "C17", "net/com/conf.go", ("""`toml:"output_offset"`""", """`toml:"offset"`"""),
  "a server configured by a file with a default offset",
  "searches without a limit start at the first document, not at the configured one")
m("c18-tie-order", "C18", "net/grpc/search.go", ("		return s[i].Id > s[j].Id", "		return s[i].Id < s[j].Id"),
  "documents with equal timestamps", "equal timestamps are listed in ascending order of their ids")
m("c18-reply-length", "C18", "net/grpc/search.go", ("""	rep := &pb.SearchReply{
		Len:       int32(len(textArr)),""", """	rep := &pb.SearchReply{
		Len:       int32(docs.NumDocs),"""),
  "a search that matches more documents than its limit", "the length of the reply is not the number of its documents")
m("c19-heap", "C19", "core/uint64.go", ("""	hi := b - a
	for i := (hi - 1) / 2; i >= 0; i-- {
		siftDownAsc""", """	hi := b - a
	for i := (hi - 3) / 2; i >= 0; i-- {
		siftDownAsc"""),
  "an input that drives quicksort beyond its depth limit, so that heapsort takes over",
  "the result is not sorted")
m("c22-negative-offset", "C22", "net/grpc/riot-pb/doc.pb.go", ("""field OutputOffset", wireType)
			}
			m.OutputOffset = 0
			for shift := uint(0); ; shift += 7 {
				if shift >= 64 {""", """field OutputOffset", wireType)
			}
			m.OutputOffset = 0
			for shift := uint(0); ; shift += 7 {
				if shift >= 35 {"""),
  "a search request with a negative offset, which takes ten bytes", "the request can not be decoded")
m("c20-initials", "C20", "segment.go", ("		if len(py[i]) > 0 {", "		if len(py[i]) > 1 {"),
  "a character whose pinyin has a single letter",
  "the abbreviation leaves out its letter")
m("c21-missing-locations", "C21", I, ("				if numTokensWithLocations != len(tokens) {", "				if numTokensWithLocations == 0 && len(tokens) > 0 {"),
  "a LocsIndex and a search for two tokens, one of which has no locations in a matching document",
  "the search panics and ends the process")
m("c23-shared-reply", "C23", "net/http/dist.go", ("""		for i := 0; i < len(wgdata); i++ {
			var jsonRes JsonResponse
""", """		var jsonRes JsonResponse
		for i := 0; i < len(wgdata); i++ {
"""),
  "two nodes that reply with scored documents",
  "the scores of the first node are overwritten by those of the second")
m("c05-unreachable-break", "C05", I, ("""			if currentMinValues[iCurrent] == -1 {
				continue
			}
""", """			if currentMinValues[iCurrent] == -1 {
				break
			}
"""),
  "three tokens, the second of which occurs far before the first as well as next to it",
  "the proximity is -1 and the snippet is wrong")
m("c07-ldb-foreach-empty", "C07", "store/ldb_store.go", ("""		if err := fn(key, val); err != nil {
			return err
		}
	}
	iter.Release()""", """		if len(val) > 0 {
			if err := fn(key, val); err != nil {
				return err
			}
		}
	}
	iter.Release()"""),
  "a key with an empty value in a leveldb store",
  "ForEach leaves out the key")
m("c04-shortest-first", "C04", I, ("""	// 归并查找各个搜索键出现文档的交集
	// 从后向前查保证先输出 DocId 较大文档
	indexPointers""", """	// 归并查找各个搜索键出现文档的交集, 从最短的反向表开始
	if indexer.initOptions.IndexType != types.LocsIndex {
		for i := range table {
			if len(table[i].docIds) < len(table[0].docIds) {
				table[0], table[i] = table[i], table[0]
			}
		}
	}
	// 从后向前查保证先输出 DocId 较大文档
	indexPointers"""),
  "a FrequenciesIndex and a query of a frequent token and a rare label",
  "the label is scored in place of the token")
m("c12-store-tokens", "C12", "store_worker.go", ("		err := enc.Encode(request.data)", """		data := request.data
		if data.Content != "" && engine.initOptions.Using < 2 {
			// the content is enough to recover the document
			data.Tokens = nil
		}
		err := enc.Encode(data)"""),
  "a document with content and tokens, and a restart", "its tokens are not found any more")
m("c24-request-criteria", "C24", "engine.go", ("		rankOpts.ScoringCriteria = engine.initOptions.DefRankOpts.ScoringCriteria\n", "		rankOpts.ScoringCriteria = types.RankByBM25{}\n"),
  "an engine with default criteria of its own and a request with a window but no criteria",
  "the request is ranked by BM25 in place of the engine's criteria")
m("c24-bm25-only-frequencies", "C24", "types/engine_init_options.go", ("	if options.IndexerOpts.BM25Parameters == nil {", "	if options.IndexerOpts.BM25Parameters == nil &&\n		options.IndexerOpts.IndexType == FrequenciesIndex {"),
  "a LocsIndex whose options leave the BM25 parameters out",
  "a search that needs the parameters has none: it does not answer with the default scores")
m("c25-forced-no-keywords", "C25", "indexer_worker.go", ("		engine.indexers[shard].AddDocToCache(request.doc, request.forceUpdate)\n", """		force := request.forceUpdate
		if request.doc != nil && len(request.doc.Keywords) == 0 {
			// nothing that a search could find
			force = false
		}
		engine.indexers[shard].AddDocToCache(request.doc, force)
"""),
  "a forced update of a document without keywords (its new version has no content, tokens or labels)",
  "the former version stays visible until something else flushes")
m("c25-token-count", "C25", "indexer_worker.go", ("""			atomic.AddUint64(&engine.numTokenIndexAdded,
				uint64(len(request.doc.Keywords)))
""", """			tokens := 0
			for _, kw := range request.doc.Keywords {
				if kw.Frequency > 0 {
					tokens++
				}
			}
			atomic.AddUint64(&engine.numTokenIndexAdded, uint64(tokens))
"""),
  "a document with labels", "NumTokenAdded leaves out the labels")
m("c16-rank-ack", "C16", "ranker_worker.go", ("""		if engine.initOptions.IDOnly {
			engine.rankers[shard].AddDoc(request.docId, request.fields)
		} else {
			engine.rankers[shard].AddDoc(request.docId, request.fields,
				request.content, request.attri)
		}
		atomic.AddUint64(&engine.numDocsRanked, 1)
""", """		var data []interface{}
		if !engine.initOptions.IDOnly {
			data = []interface{}{request.content, request.attri}
		}
		atomic.AddUint64(&engine.numDocsRanked, 1)
		engine.rankers[shard].AddDoc(request.docId, request.fields, data...)
"""),
  "a ranker that is delayed between its counter and the addition",
  "Flush returns before the document is in the ranker: searches do not return it")
m("c10-idonly-merge", "C10", "engine.go", ("""	for _, doc := range rankerOutput.docs.(types.ScoredIDs) {
		rankOutArr = append(rankOutArr, doc)
	}
	return rankOutArr
""", """	docs := rankerOutput.docs.(types.ScoredIDs)
	out := make(types.ScoredIDs, len(docs)+len(rankOutArr))
	copy(out, docs)
	copy(out[len(rankOutArr):], rankOutArr)
	return out
"""),
  "an ID-only engine with several shards that return different numbers of documents",
  "documents are missing in the results of a sharded engine")
m("c20-position", "C20", "segment.go", ("""			splitStr += splitHans[i]
		}
		if !engine.stopTokens.IsStopToken(splitStr) {
			strArr = append(strArr, splitStr)
		}
""", """			if engine.stopTokens.IsStopToken(splitHans[i]) {
				continue
			}
			splitStr += splitHans[i]
		}
		if !engine.stopTokens.IsStopToken(splitStr) {
			strArr = append(strArr, splitStr)
		}
"""),
  "pinyin keywords of a text with a stop character before its end",
  "the text is not found by its prefix that contains the stop character")
m("c17-docid-number", "C17", "net/http/http.go", ("	// inxid, _ := strconv.ParseUint(docid, 10, 64)\n	com.AddDocInx(docid,", "	if inxid, err := strconv.ParseUint(docid, 10, 64); err == nil {\n		docid = strconv.FormatUint(inxid, 10)\n	}\n	com.AddDocInx(docid,"),
  "a document whose id is a number with leading zeros",
  "the document is indexed under another id, and removing it by its id does nothing")
m("c18-bare-tokens", "C18", "net/grpc/grpc.go", ("		inloc := in.Tokens[i].Locations\n", "		inloc := in.Tokens[i].Locations\n		if len(inloc) == 0 {\n			continue\n		}\n"),
  "a token without locations", "the document is not found by the token")
m("c23-one-per-id", "C23", "net/http/dist.go", ("			for d := 0; d < len(jsonRes.Docs); d++ {\n				docs = append(docs, jsonRes.Docs[d])\n			}\n", "			for d := 0; d < len(jsonRes.Docs); d++ {\n				// the same document on two nodes\n				dup := false\n				for _, t := range docs {\n					dup = dup || t.Id == jsonRes.Docs[d].Id\n				}\n				if !dup {\n					docs = append(docs, jsonRes.Docs[d])\n				}\n			}\n"),
  "two nodes that answer with documents of the same id",
  "the document of the second node, even if it is newer, is left out")
H = "net/heartb/heart.go"
m("c26-restart-wait", "C26", H, ("			wg.Wait()\n\n", "			// the heartbeats go on meanwhile\n"),
  "a restart command that takes longer than a heartbeat",
  "the starting server is asked for heartbeats, and restarted again while its restart command still runs")
m("c26-other-results", "C26", H, ("	if r.Result != 1 {\n", "	if r.Result < 1 {\n"),
  "a server that answers heartbeats with a result above 1",
  "it is taken for healthy and never restarted")
m("c27-shared-tokens", "C27", "engine.go", ("""	for _, t := range request.Tokens {
		tokens = append(tokens, t)
	}
	return
""", """	return request.Tokens
"""),
  "a caller that reuses the token list of its request and keeps the answer",
  "the tokens reported by the answer change")
m("c11-return-chan", "C11", "engine.go", ("		chan rankerReturnReq, engine.initOptions.NumShards)", "		chan rankerReturnReq)"),
  "a search that times out before every shard has answered",
  "the late shard's worker waits for ever to hand over its answer, later searches hang")
m("c28-content-tokens", "C28", "segment.go", ("		numTokens = len(segments) + len(request.data.Tokens)\n", "		numTokens = len(segments)\n"),
  "a document with content and explicit tokens",
  "the tokens are left out of the document's length, so it scores as if it were shorter")
m("c28-pinyin-length", "C28", "segment.go", ("""			if !engine.stopTokens.IsStopToken(str) {
				tokensMap[str] = []int{i}
			}
		}

		numTokens += count
""", """			if !engine.stopTokens.IsStopToken(str) {
				tokensMap[str] = []int{i}
			}
		}

		if numTokens == 0 {
			numTokens = count
		}
"""),
  "an engine with pinyin keywords and a document with content",
  "the length of the document leaves out its pinyin keywords")
m("c28-token-append", "C28", "segment.go", ("""		for _, t := range request.data.Tokens {
			if !engine.stopTokens.IsStopToken(t.Text) {
				tokensMap[t.Text] = t.Locations
			}
		}

		numTokens = len(segments)""", """		for _, t := range request.data.Tokens {
			if !engine.stopTokens.IsStopToken(t.Text) {
				tokensMap[t.Text] = append(tokensMap[t.Text], t.Locations...)
			}
		}

		numTokens = len(segments)"""),
  "a document with an explicit token that is also a word of its content",
  "the occurrences in the content are counted in addition to the given locations")
m("c05-rune-length", "C05", I, ("""					utils.AbsInt(nextLocations[to]-currentLocations[from]-len(tokens[i-1]))
""", """					utils.AbsInt(nextLocations[to]-currentLocations[from]-len([]rune(tokens[i-1])))
"""),
  "a query token with characters of several bytes",
  "the proximity of adjacent tokens is not 0, and the snippet may be the wrong one")
m("c08-bolt-pending-delete", "C08", "store/bolt_store.go", [("""	db *bolt.DB
}
""", """	db *bolt.DB

	mu   sync.Mutex
	dead [][]byte
}

// sweep removes the deleted keys from the file
func (s *Bolt) sweep() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.dead) == 0 {
		return nil
	}
	dead := s.dead
	s.dead = nil
	return s.db.Update(func(tx *bolt.Tx) error {
		for _, k := range dead {
			if err := tx.Bucket(gdocs).Delete(k); err != nil {
				return err
			}
		}
		return nil
	})
}
"""), ("""	return &Bolt{db}, nil
""", """	return &Bolt{db: db}, nil
"""), ("""func (s *Bolt) Set(k []byte, v []byte) error {
	return""", """func (s *Bolt) Set(k []byte, v []byte) error {
	if err := s.sweep(); err != nil {
		return err
	}
	return"""), ("""	err = s.db.View(func(tx *bolt.Tx) error {
		// the slice""", """	if err = s.sweep(); err != nil {
		return
	}
	err = s.db.View(func(tx *bolt.Tx) error {
		// the slice"""), ("""	return s.db.Update(func(tx *bolt.Tx) error {
		return tx.Bucket(gdocs).Delete(k)
	})
""", """	// one transaction for a row of deletions
	s.mu.Lock()
	s.dead = append(s.dead, append([]byte{}, k...))
	full := len(s.dead) >= 8
	s.mu.Unlock()
	if full {
		return s.sweep()
	}
	return nil
"""), ("""	var b []byte
	err := s.db.View""", """	var b []byte
	if err := s.sweep(); err != nil {
		return false, err
	}
	err := s.db.View"""), ("""	return s.db.View(func(tx *bolt.Tx) error {
		b := tx""", """	if err := s.sweep(); err != nil {
		return err
	}
	return s.db.View(func(tx *bolt.Tx) error {
		b := tx"""), ("""	return s.db.Close()
""", """	if err := s.sweep(); err != nil {
		return err
	}
	return s.db.Close()
"""), ("""import (
	"time"
""", """import (
	"sync"
	"time"
""")],
  "a process that is killed after a deletion that no other operation on the store has followed",
  "the deleted key is there again")
m("c12-unordered-writes", "C12", "store_worker.go", ("""		engine.dbs[shard].Set(b, buf.Bytes())

		atomic.AddUint64(&engine.numDocsStored, 1)
""", """		go func() {
			engine.dbs[shard].Set(b, buf.Bytes())

			atomic.AddUint64(&engine.numDocsStored, 1)
		}()
"""),
  "a document that is indexed again while its former version is still being written",
  "the store may keep the former version, which comes back after a restart")
m("c13-skip-unchanged", "C13", "store_worker.go", [("""	for {
		request := <-engine.storeIndexDocChans[shard]
""", """	// 已写入的内容, 相同时不必重写
	written := make(map[string]string)
	for {
		request := <-engine.storeIndexDocChans[shard]
"""), ("""		engine.dbs[shard].Set(b, buf.Bytes())
""", """		if written[request.docId] != buf.String() {
			engine.dbs[shard].Set(b, buf.Bytes())
			written[request.docId] = buf.String()
		}
""")],
  "a document that is indexed, removed and indexed again with the same data",
  "the document is not stored")
m("c12-decode-reuse", "C12", "store_worker.go", [("""	engine.dbs[shard].ForEach(func(k, v []byte) error {
		key, value := k, v
""", """	var data types.DocData
	engine.dbs[shard].ForEach(func(k, v []byte) error {
		key, value := k, v
"""), ("""		var data types.DocData
		err := dec.Decode(&data)
""", """		err := dec.Decode(&data)
""")],
  "a stored document without content, attributes or labels that is read after one that has them",
  "after a restart the document has the content of the other one as well")
m("c19-pivot-equal", "C19", "core/uint64.go", ("""	n := min(b-a, a-lo)
	swapRangeDesc(data, lo, b-n, n)
""", """	n := a - lo
	swapRangeDesc(data, lo, b-n, n)
"""),
  "a descending sort of a slice in which more than half of the larger part equals the pivot",
  "the result is not sorted")
m("c21-empty-request", "C21", I, ("""	// 当没有找到时直接返回
	if len(table) == 0 {
		return
	}

""", ""),
  "a search with neither text nor tokens nor labels on an engine that holds documents",
  "the search panics and ends the process")
m("c22-long-id", "C22", "net/grpc/riot-pb/doc.pb.go", ("			n += mapEntrySize + 1 + sovDoc(uint64(mapEntrySize))\n", "			n += mapEntrySize + 1 + 1\n"),
  "a request filtered to a document whose id is longer than 123 bytes",
  "the request can not be encoded")
m("c22-locations-chunks", "C22", "net/grpc/riot-pb/doc.pb.go", ("				if elementCount != 0 && len(m.Locations) == 0 {\n", "				if elementCount != 0 {\n"),
  "a token whose locations come in two chunks, as after the concatenation of two encodings",
  "the first locations are lost")
m("c14-rank-pool", "C14", "core/ranker.go", [("""	outputDocs, numDocs := ranker.rankOutIDs(docs, options, countDocsOnly)
""", """	outputDocs, numDocs := ranker.rankOutIDs(docs, options, countDocsOnly)
	defer rankIDs.Put(outputDocs[:0])
"""), ("""	countDocsOnly bool) (outputDocs types.ScoredIDs, numDocs int) {
	for""", """	countDocsOnly bool) (types.ScoredIDs, int) {
	// 重用内存
	numDocs := 0
	outputDocs, _ := rankIDs.Get().(types.ScoredIDs)
	for"""), ("""			ranker.lock.RUnlock()
		}
	}

	return
}

// RankDocID""", """			ranker.lock.RUnlock()
		}
	}

	return outputDocs, numDocs
}

// RankDocID"""), ("""func (ranker *Ranker) rankOutIDs(""", """var rankIDs sync.Pool

func (ranker *Ranker) rankOutIDs(""")],
  "two searches of an ID-only engine at the same time",
  "the results of one search are overwritten by those of the other one")
m("c02-search-window", "C02", I, ("""			position, foundBaseDocId := indexer.searchIndex(
				table[iTable], 0, indexPointers[iTable], baseDocId)
""", """			// 先在附近查找
			near := indexPointers[iTable] - 64
			if near < 0 {
				near = 0
			}
			position, foundBaseDocId := indexer.searchIndex(
				table[iTable], near, indexPointers[iTable], baseDocId)
"""),
  "two keywords, the first one rare, the second one in more than 64 documents between two documents of the first one",
  "documents with both keywords are not found")
m("c04-cached-idf", "C04", I, [("""	locations   [][]int   // IndexType == LocsIndex
}""", """	locations   [][]int   // IndexType == LocsIndex

	// idf 与计算它时的文档数
	idf     float32
	idfDocs int
}"""), ("""						idf := float32(math.Log2(float64(indexer.numDocs)/float64(len(t.docIds)) + 1))
""", """						if t.idfDocs != len(t.docIds) {
							t.idfDocs = len(t.docIds)
							t.idf = float32(math.Log2(float64(indexer.numDocs)/float64(len(t.docIds)) + 1))
						}
						idf := t.idf
""")],
  "a search, then further documents without the keyword are added, then another search for the keyword",
  "scores use the number of documents at the time of the first search")
m("c04-narrow-frequency", "C04", I, ("				indices.frequencies[position] = keyword.Frequency\n", "				indices.frequencies[position] = float32(uint8(keyword.Frequency))\n"),
  "a keyword that occurs 256 times or more in a document that is not the first one to have the keyword",
  "the document scores as if it had the keyword 256 times less")
m("c06-attributes-kept", "C06", "core/ranker.go", [("""			ranker.lock.attri[docId] = content[1]
""", """			if content[1] != nil {
				ranker.lock.attri[docId] = content[1]
			}
"""), ("""		delete(ranker.lock.attri, docId)
""", "")],
  "a document with attributes is removed, or updated, and added again without attributes",
  "the new version comes with the attributes of the old one")
m("c15-long-content", "C15", "segment.go", [("""	"strings"
	"sync"

	"github.com/go-ego/gpy"
	"github.com/go-ego/gpy/phrase"
""", """	"bytes"
	"strings"
	"sync"

	"github.com/go-ego/gpy"
	"github.com/go-ego/gpy/phrase"
	"github.com/go-ego/gse"
"""), ("""		// Content 分词, 当文档正文不为空时，优先从内容分词中得到关键词
		segments := engine.segmenter.ModeSegment([]byte(request.data.Content),
			engine.initOptions.GseMode)

		for _, segment := range segments {
			token := segment.Token().Text()
			if !engine.stopTokens.IsStopToken(token) {
				tokensMap[token] = append(tokensMap[token], segment.Start())
			}
		}

		for _, t""", """		// Content 分词, 当文档正文不为空时，优先从内容分词中得到关键词
		// 长文本分块处理
		const block = 1 << 15
		var segments []gse.Segment
		for text := []byte(request.data.Content); len(text) > 0; {
			n := len(text)
			if n > block {
				n = bytes.LastIndexByte(text[:block], ' ') + 1
				if n == 0 {
					n = block
				}
			}
			offset := len(request.data.Content) - len(text)
			for _, segment := range engine.segmenter.ModeSegment(text[:n], engine.initOptions.GseMode) {
				if offset > 0 && segment.Start() == 0 {
					continue
				}
				token := segment.Token().Text()
				if !engine.stopTokens.IsStopToken(token) {
					tokensMap[token] = append(tokensMap[token], offset+segment.Start())
				}
				segments = append(segments, segment)
			}
			text = text[n:]
		}

		for _, t""")],
  "a content of more than 32 KiB",
  "words at the borders of blocks are lost")
m("c15-token-case", "C15", "engine.go", ("""		for _, t := range request.Tokens {
			tokens = append(tokens, t)
		}

		return
""", """		for _, t := range request.Tokens {
			tokens = append(tokens, strings.ToLower(t))
		}

		return
"""),
  "a search with both a text and a token with upper case letters",
  "documents with this token are not found")
m("c27-search-cache", "C27", "engine.go", [("""	numDocsStoreRemoved  uint64
""", """	numDocsStoreRemoved  uint64

	// 最近的查找结果, 以索引版本与请求为键
	answers sync.Map
"""), ("""	if engine.initOptions.IDOnly {
		output = engine.RankID(request, rankOpts, tokens, rankerReturnChan)
		return
	}

	output = engine.Ranks(request, rankOpts, tokens, rankerReturnChan)
	return
""", """	if engine.initOptions.IDOnly {
		output = engine.RankID(request, rankOpts, tokens, rankerReturnChan)
	} else {
		output = engine.Ranks(request, rankOpts, tokens, rankerReturnChan)
	}
	if cacheKey != "" {
		engine.answers.Store(cacheKey, output)
	}
	return
"""), ("""	var rankOpts types.RankOpts
	if request.RankOpts == nil {
""", """	var cacheKey string
	if request.RankOpts == nil && len(request.DocIds) == 0 && request.Timeout <= 0 {
		cacheKey = fmt.Sprint(atomic.LoadUint64(&engine.numDocsForceUpdated),
			atomic.LoadUint64(&engine.numDocsIndexed), atomic.LoadUint64(&engine.numDocsRanked),
			atomic.LoadUint64(&engine.numDocsRemoved), atomic.LoadUint64(&engine.numDocsRankRemoved),
			fmt.Sprintf("%q %q %+v", tokens, request.Labels, request.Logic),
			request.CountDocsOnly, request.Orderless)
		if answer, ok := engine.answers.Load(cacheKey); ok {
			return answer.(types.SearchResp)
		}
	}

	var rankOpts types.RankOpts
	if request.RankOpts == nil {
""")],
  "the same request without rank options twice, whose first answer the caller changes in between",
  "the second answer is what the caller made of the first one")
