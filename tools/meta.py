#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append(dict(
        p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
           "why_tests_cant": tests, "anchors": a},
        technique=technique, note=note))


MODEL = "property-based testing (rapid), stateful: generated histories against a reference model"
NOTE = "Random search with shrinking; shows presence of violations, never absence. "

prop("C01", "The inverted index holds exactly the documents its history leaves",
     "After any sequence of adding, re-adding and removing documents and flushing, with any cache size and index type, the index returns for every keyword exactly the documents whose latest version has the keyword and that were not removed. Each document is listed once, with the frequency or locations of its latest version, and the number of documents it reports is the number of live ones.",
     ["histories", "configurations"], "every sequence of add/remove/flush calls on one index, every cache size, the three index types",
     "core tests run six short hand-written sequences, mostly with a cache of size one; interactions of the add cache and the remove cache (an update or removal pending when the other cache fills) are never reached.",
     ["core/indexer.go", "core/data.go"],
     [("AddDocToCache/RemoveDocToCache sort and merge pending changes", "core/indexer.go"), ("AddDocs/RemoveDocs merge into the per-keyword lists", "core/indexer.go")],
     MODEL, NOTE + "Histories of up to 120 calls over 9 documents and 7 keywords, cache sizes 1 to 12, and some of thousands of documents.")

prop("C02", "A conjunctive lookup returns exactly the documents with all keywords",
     "A lookup of any list of tokens and labels, with or without a set of allowed document ids, returns every live document that has all of them (and is allowed), each once and in descending order of its internal order, and nothing else. In counting mode it reports the same number without documents. It changes none of its arguments.",
     ["inputs", "histories"], "every index content and every list of tokens and labels (repeated, unknown, labels only), every id filter, the three index types",
     "existing tests look up a handful of fixed keyword pairs in indexes of at most six documents; the leapfrog intersection, its binary searches and the label-only path depend on the relative positions of all lists.",
     ["core/indexer.go"],
     [("internalLookup intersects the sorted lists from the back", "core/indexer.go"), ("searchIndex binary search with a guess", "core/indexer.go")],
     "property-based testing (rapid): generated indexes and queries against set operations on the documents", NOTE + "Up to 40 documents, 8 keywords, 6 queries per case; now and then thousands of documents made by a rule.")

prop("C03", "A logic lookup returns must AND (any should) AND NOT notin",
     "A logic query with must, should and notin keyword lists (given as an expression, or by flags applied to the query's own keywords) returns exactly the live documents that have all must keywords, at least one should keyword if there are any, and none of the notin keywords, each once. Adding the id filter or counting mode restricts or counts this same set.",
     ["inputs", "histories"], "every index content and every logic expression with a must or should part, repeated and unknown keywords included",
     "TestSearchLogic checks three expressions on one small index; the merge of several should lists, the exclusion of notin keywords and their interplay with unknown or repeated keywords are not covered.",
     ["core/indexer.go"],
     [("LogicLookup splits the query into must/should/notin tables", "core/indexer.go"), ("internalLogicLookup, findInShouldTokens, LogicNotIn", "core/indexer.go")],
     "property-based testing (rapid): generated indexes and logic queries against set operations", NOTE + "One known finding: a should-only query ignores the id filter (pinned by an existing test).")

prop("C04", "BM25 scores equal the documented formula on the live index",
     "On frequency and location indexes every conjunctive match carries the BM25 score of the documented formula (smoothed inverse document frequency, K1 and B, length relative to the average), computed from the live documents only, whatever history of updates and removals led to them. Scores depend neither on the order in which documents were added nor on the cache.",
     ["inputs", "histories", "configurations"], "every index content, document lengths, parameters K1 and B, and query",
     "one test compares one score of one index; average length and document counts after updates and removals are never checked.",
     ["core/indexer.go", "docs/en/bm25.md"],
     [("totalTokenLen/docTokenLens maintain the average length", "core/indexer.go"), ("score computed in internalLookup", "core/indexer.go")],
     "property-based testing (rapid): differential against a float64 evaluation of the formula", NOTE + "Relative tolerance 1e-4. Now and then thousands of documents made by a rule.")

prop("C05", "Token proximity and snippet positions are minimal and consistent",
     "On a location index every match reports for each query token all its locations in the document, and snippet locations that are one occurrence per token minimising the summed distance of the tokens in query order. The reported proximity is exactly that minimal sum, and reported locations are never those of another document or version.",
     ["inputs", "histories"], "every location index and query of one to five tokens, repeated tokens included",
     "existing tests check proximities of a few hand-placed documents; the dynamic program over many occurrences per token is not compared with a minimum anywhere.",
     ["core/indexer.go", "docs/en/token_proximity.md"],
     [("computeTokenProximity dynamic program with back pointers", "core/indexer.go")],
     "property-based testing (rapid): differential against exhaustive search over occurrences", NOTE + "Queries of up to 10 tokens, up to 300 occurrences per token, locations up to 2^30; the reference tries every occurrence with every one of the token before.")

prop("C06", "A ranker returns the best documents of its live set, in order",
     "After any sequence of adding and removing documents, ranking a list of looked-up documents returns exactly those that are live in the ranker and to which the scoring criteria gives scores, sorted by score vector (descending, or ascending when reversed), with the window given by offset and limit, and reports how many there are in all. Content, attributes and fields are those of the latest addition.",
     ["histories", "inputs"], "every history of additions and removals, every list of documents, scoring criteria, order, offset and limit (negative and huge ones included)",
     "tests rank at most five documents with one criteria and small windows.",
     ["core/ranker.go", "types/search_response.go"],
     [("Rank filters, scores, sorts and cuts", "core/ranker.go"), ("score vector comparison", "types/search_response.go")],
     MODEL, NOTE + "Both output forms (ids only, full documents); scores down to the smallest and up to huge numbers.")

prop("C07", "Every store engine is a durable map from keys to values",
     "For LevelDB, Badger and Bolt stores alike, Get returns the value of the last Set of a key (also after closing and opening the store again), an error or no value for a key that was never set or was deleted, Has agrees with it, and ForEach visits every live pair exactly once with its current value. A value that was returned stays unchanged whatever happens to the store afterwards, and goroutines that use different keys at the same time do not disturb each other. OpenStore uses the engine it is given, else the one named by Riot_Store_Engine, else LevelDB, and fails for an unknown name; an engine added with RegisterStore is used like the built-in ones.",
     ["histories", "inputs", "configurations"], "every sequence of operations on every store engine with arbitrary binary keys and values, any number of reopenings",
     "the store tests write and read one pair per engine.",
     ["store/store.go", "store/ldb_store.go", "store/badger_store.go", "store/bolt_store.go"],
     [("Store interface implementations", "store/*_store.go"), ("OpenStore selects the engine by name", "store/store.go")],
     MODEL, NOTE + "Keys of 1 to 301 bytes, one of 20000; values from empty to a megabyte; up to a thousand keys.")

prop("C08", "Acknowledged store operations survive the death of the process",
     "When a process writing to a store is killed at any point, the store can be opened again and holds exactly the effects of the operations that had returned, plus possibly some of those under way. No key shows a value that was never written to it.",
     ["crash_points", "histories", "configurations"], "every history of writes and deletes, every point of death (SIGKILL), every store engine, repeated crashes",
     "no test kills a process; opening after an unclean end is not exercised.",
     ["store/ldb_store.go", "store/badger_store.go", "store/bolt_store.go"],
     [("write options and open options of the engines", "store/*_store.go")],
     "property-based testing (rapid) with injected process deaths, against a model of the acknowledged writes", NOTE + "The machine survives; only the process dies.")

prop("C09", "A flushed engine answers searches exactly as a model of its documents",
     "After any history of indexing, re-indexing, removing and flushing, a search on the flushed engine returns exactly the documents whose latest version matches (all keywords and labels of the request, the logic expression, the id filter), each once, with the latest content, attributes, fields, scores and locations, the right total, and the query's tokens. Documents removed or replaced never show old content again.",
     ["histories", "configurations", "inputs"], "every history of calls, every engine configuration (shards, threads, index types, tokenisation, stores, id-only)",
     "engine tests index two to five documents once in a fixed configuration and compare one or two searches.",
     ["engine.go", "segment.go", "indexer_worker.go", "ranker_worker.go", "core/indexer.go", "core/ranker.go"],
     [("Index/RemoveDoc distribute requests to the workers of the shards", "engine.go"), ("Search fans out to all shards and merges", "engine.go"), ("Flush waits for the counters of all workers", "engine.go")],
     MODEL, NOTE + "Histories of up to 120 calls over a few documents, some with up to a thousand documents; searches also run unflushed, where only versions that ever existed are allowed.")

prop("C10", "Shards, threads, buffers and caches do not change search results",
     "Two engines given the same documents and the same searches return the same documents, contents, fields and totals, however many shards, threads, buffer slots and cache entries they have, whether they force updates, flush more often, keep a store or return ids only. Token locations do not depend on these options either, and scores given by the request's criteria are the same.",
     ["configurations", "histories"], "every pair of configurations, every history and query",
     "tests never compare configurations.",
     ["engine.go", "indexer_worker.go", "ranker_worker.go", "types/engine_init_options.go"],
     [("shard choice by hash", "engine.go"), ("merge of shard results", "engine.go")],
     "property-based testing (rapid), metamorphic: the same history on two or three differently configured engines", NOTE + "BM25 values across different shard counts are not compared: they are computed per shard by design.")

prop("C11", "Paging, counting, order and timeouts present one and the same result",
     "For any search on a flushed engine, the pages given by offset and limit are windows of the unpaged result, counting reports its length without documents, orderless returns the same documents, reversing reverses the order of scores, and the typed search calls agree with the untyped one. A search with a timeout returns a subset of the result with correct contents, and if it does not report a timeout, the whole of it; it returns however long scoring takes and however many searches are waiting.",
     ["inputs", "configurations", "schedules"], "every engine content, request, offset, limit (negative and overflowing included), timeout and scoring delay",
     "tests use one or two fixed windows.",
     ["engine.go", "core/ranker.go"],
     [("window per shard and after the merge", "engine.go"), ("TimeOut/NotTimeOut collect shard results", "engine.go")],
     "property-based testing (rapid), metamorphic relations between variants of one request", NOTE + "Scoring is held up in a quarter of the cases to force timeouts.")

prop("C12", "Closing and reopening an engine with a store preserves its documents",
     "An engine with a persistent store that is closed and opened again (any store engine, any number of shards and in-memory configuration) holds exactly the documents it had, with content, attributes, fields, tokens and labels, answers searches the same way, and never brings back a removed document or an old version. The ids and documents listed from the store are exactly the live ones.",
     ["histories", "configurations"], "every history over several lives of an engine, every store engine and configuration",
     "one test stores and reloads a few documents with one configuration; removals and updates before a restart are not covered.",
     ["engine.go", "store_worker.go", "riot.go", "store/"],
     [("storeIndexDoc encodes and writes", "store_worker.go"), ("storeInit restores", "store_worker.go")],
     MODEL, NOTE + "2 to 4 lives per case, some of hundreds of documents, some with documents that cannot be stored.")

prop("C13", "Documents confirmed by Flush survive the death of the process",
     "Whenever the process of an engine with a persistent store is killed, an engine opened on the same folder starts and holds every document indexed (and lacks every document removed) by calls that were followed by a Flush that returned, as far as they were not changed later. Calls not yet confirmed may or may not have happened, but each document is one of its versions, complete and searchable.",
     ["crash_points", "histories", "configurations"], "every history, every point of death, every store engine, repeated crashes",
     "no test kills an engine.",
     ["engine.go", "store_worker.go", "store/"],
     [("Flush waits for stored and removed counts", "engine.go"), ("write path of the stores", "store_worker.go")],
     "property-based testing (rapid) with injected process deaths, against a model of the confirmed calls", NOTE + "The machine survives; only the process dies.")

prop("C14", "Concurrent use of an engine is free of races, deadlocks and corruption",
     "An engine may be used by any number of goroutines at the same time - indexing, removing, flushing, searching, asking for documents and counters - without data races, panics or deadlocks. After they finish and the engine is flushed it holds exactly the final versions (of a document that several of them indexed or removed at once, one and the same outcome in the index, the ranker and the store), and every search in between returned only versions that existed, each document at most once per shard result.",
     ["schedules", "histories", "configurations"], "every interleaving of concurrent calls and of the engine's own workers",
     "tests are single-threaded and run on one schedule without the race detector.",
     ["engine.go", "indexer_worker.go", "ranker_worker.go", "segment.go", "store_worker.go", "core/indexer.go", "core/ranker.go"],
     [("locks of the index, its caches and the ranker", "core/indexer.go, core/ranker.go"), ("channels and atomic counters of the engine", "engine.go")],
     "property-based testing (rapid): generated concurrent programs under seeded schedule perturbation with the race detector", NOTE + "Schedules are sampled: scheduling points are inserted before statements of a generated copy of the sources.")

prop("C15", "Every tokenisation mode indexes exactly its documented keywords",
     "For each tokenisation option (segmenter with or without search mode, tokens only, content characters and prefixes, words split at spaces, and their combinations) a document is found by each keyword the mode derives from its content, its explicit tokens and its labels, at the byte offsets where they occur, and by no other keyword. Stop words are never indexed, and a text made of a document's whole words finds the document.",
     ["inputs", "configurations"], "every content, tokens, labels, stop words and tokenisation mode",
     "tests use three English sentences and one or two modes.",
     ["segment.go", "engine.go", "stop_tokens.go", "docs/en/segmenter.md"],
     [("makeTokensMap/segmenterData/splitData", "segment.go"), ("Tokens/Segment of a query", "engine.go"), ("StopTokens", "stop_tokens.go")],
     "property-based testing (rapid): generated contents probed against the keywords of a reference tokeniser", NOTE + "Five known findings about queries segmented differently from contents.")

prop("C16", "Flush is a barrier: what was indexed before it is visible after it",
     "When Flush returns, every document indexed or removed by calls that returned before it started is visible in searches, in document existence checks, in the counters and in the store, whatever other goroutines do at the same time. Flush always returns.",
     ["schedules", "histories", "configurations"], "every interleaving of concurrent calls and workers",
     "tests flush an engine that nobody else uses.",
     ["engine.go", "indexer_worker.go", "ranker_worker.go", "store_worker.go", "counters.go"],
     [("Flush compares the counters of requests and completions", "engine.go")],
     "property-based testing (rapid): generated concurrent programs under seeded schedule perturbation, checked after each own flush", NOTE + "Schedules are sampled.")

prop("C17", "The HTTP front end indexes, deletes and searches what it is asked",
     "Every request to the HTTP add, delete and search handlers is answered with well-formed JSON, concurrent ones included, and after a flush a search returns exactly the matching documents newest first (ties by descending id), cut to the window given by offset and limit or by the configured defaults when no limit is given, with the count of the documents returned. Documents survive a restart of the server, its configuration (given as a value or read from a TOML file with the keys of the shipped riot.toml, stop words included) is honoured, and no request parameter, however malformed, makes the server fail.",
     ["inputs", "histories", "schedules", "configurations"], "every sequence of (concurrent) requests with arbitrary parameters, configurations and restarts",
     "the front ends have no tests.",
     ["net/http/http.go", "net/http/search.go", "net/com/search.go", "net/com/conf.go"],
     [("Search/AddIndex/DelIndex handlers", "net/http/http.go"), ("docsSlice order", "net/http/search.go"), ("InitEngine/Search/Delete", "net/com/search.go")],
     MODEL + ", race detector", NOTE + "The server runs in a process of its own over the loopback network.")

prop("C18", "The gRPC front end indexes, deletes and searches what it is asked",
     "Every DocInx, Delete, Search and HeartBeat call to the gRPC server, made directly or through the package's client functions, concurrently or not and with any fields left out, is answered; after a flush a search (by text, logic and id filter) returns exactly the matching documents with content and attributes as sent, newest first (ties by descending id), cut to the requested or default window. Labels, tokens and attributes survive a restart of the server, and its configuration (given as a value or read from a TOML file with the keys of the shipped riot.toml, stop words included) is honoured.",
     ["inputs", "histories", "schedules", "configurations"], "every sequence of (concurrent) calls with arbitrary messages, configurations and restarts",
     "the front ends have no tests.",
     ["net/grpc/grpc.go", "net/grpc/grpcc.go", "net/grpc/search.go", "net/com/search.go"],
     [("server methods", "net/grpc/grpc.go"), ("client functions", "net/grpc/grpcc.go"), ("rpcSearch", "net/grpc/search.go")],
     MODEL + ", race detector", NOTE + "The server runs in a process of its own over the loopback network.")

prop("C19", "The sorting helpers return ordered permutations of their input",
     "Each of the 64-bit sorting helpers leaves a slice in ascending (or, for the descending variants, descending) order with exactly the elements it had before. This holds for slices of any length, with any duplicates and extreme values.",
     ["inputs"], "every slice of 64-bit values",
     "the helpers have no tests.",
     ["core/uint64.go"], [("generated introsort", "core/uint64.go")],
     "property-based testing (rapid): ordered and a permutation, both checked", NOTE + "Structured slices (sorted, reversed, few distinct values, killer sequences) up to 2500 elements.")

prop("C20", "Pinyin search finds exactly the documents with the given reading",
     "With the pinyin option a document is found by the full readings, initials, and their prefixes that its Chinese content gives rise to, in addition to the keywords of its content, and by no reading it does not have. Engines with different dictionaries in one process do not influence each other.",
     ["inputs", "configurations"], "every content, dictionary and configuration with the pinyin option",
     "one test indexes three sentences and searches one reading.",
     ["segment.go", "engine.go"], [("PinYin derives readings, initials and prefixes", "segment.go"), ("phrase segmentation with the engine's dictionary", "segment.go")],
     "property-based testing (rapid): generated contents probed against a reference derivation", NOTE + "The reading of a word is taken from the pinyin library.")

prop("C21", "No search request makes an engine fail",
     "Any search request - any text, tokens, labels, logic expression with a positive part, id filter, offset, limit, timeout and flags - on any engine is answered without a panic or an endless wait, and the engine answers later requests correctly. Content and keywords may be any strings, invalid UTF-8 included.",
     ["inputs", "configurations"], "every search request and engine configuration",
     "tests use well-formed requests only.",
     ["engine.go", "core/indexer.go", "core/ranker.go", "indexer_worker.go", "ranker_worker.go"],
     [("Search and the lookup and rank workers", "engine.go, indexer_worker.go, ranker_worker.go")],
     "property-based testing (rapid): arbitrary requests, engine still answers", NOTE + "Requests that only exclude keywords are left out: their meaning is not defined.")

prop("C22", "The gRPC message codec round-trips and survives any bytes",
     "Encoding any message and decoding it yields the same message, the encoding has exactly the announced size and the field numbers and types of the protocol definition, unknown fields are kept, and the concatenation of two encodings decodes to the merged message. Decoding arbitrary, truncated or damaged bytes either fails with an error or yields a message that round-trips; it never panics.",
     ["inputs"], "every message of every type and every byte string",
     "the generated code has no tests.",
     ["net/grpc/riot-pb/doc.pb.go", "net/grpc/riot-pb/doc.proto"],
     [("Marshal/MarshalTo/Size/Unmarshal/skipDoc", "net/grpc/riot-pb/doc.pb.go")],
     "property-based testing and structured fuzzing (rapid): round trip, differential against a table-driven codec, damaged encodings", NOTE + "All prefixes of each encoding are tried.")

prop("C23", "A distributed search merges the answers of all reachable nodes",
     "A distributed search over HTTP or gRPC asks every node once with the request's parameters (or the configured defaults when no limit is given), and its answer holds the documents of all nodes that answered, newest first (ties by descending id), cut to the limit, with the count of those returned; the answer of a single node is passed on unchanged. Nodes that are down, fail or never answer are left out, and concurrent searches never mix their answers.",
     ["fault_sequences", "inputs", "schedules"], "every set of nodes and node failures, all answers, and concurrent searches",
     "the front ends have no tests.",
     ["net/http/dist.go", "net/grpc/search.go", "net/grpc/etcd.go", "net/grpc/grpcc.go"],
     [("WgDist", "net/http/dist.go"), ("wgGrpc", "net/grpc/search.go"), ("eserver.Search", "net/grpc/etcd.go")],
     "property-based testing (rapid): stand-in nodes with generated answers and failures, answers recomputed", NOTE + "Never-answering nodes are only used over HTTP, whose client has a time limit.")

prop("C24", "Options left out mean the documented defaults, per engine",
     "A search without rank options uses the engine's default rank options (criteria, order and window), and one without scoring criteria uses the engine's default criteria; an engine whose options are left out behaves like one given the documented defaults (8 shards, FrequenciesIndex, BM25 with K1=2 and B=0.75, 8 store shards). New with a dictionary, folder and number of shards, and New with a configuration file, behave like Init with the same options, and a folder written by one is read by the other. Engines in one process do not influence each other, even when built from one options value.",
     ["configurations", "histories", "inputs"], "every subset of options left out, every way of building an engine, all histories and searches",
     "the tests build engines with a few fixed options and check single scores.",
     ["types/engine_init_options.go", "types/indexer_init_options.go", "engine.go", "riot.go"],
     [("EngineOpts.Init", "types/engine_init_options.go"), ("New, NewEngine", "riot.go"), ("Search", "engine.go")],
     "property-based testing (rapid): model of the engine with defaults resolved, differential against an engine with everything given", NOTE + "New without a dictionary is not called.")

prop("C25", "Forced updates take effect without Flush; counters are exact after it",
     "A document indexed with forceUpdate becomes searchable, and one removed with forceUpdate disappears, without any further call, as soon as the engine is idle; with one segmenter thread a forced index call takes all index calls before it along. After Flush the counters report exactly the documents and keywords indexed and the removals on every shard, and an opened store counts what it recovered.",
     ["histories", "schedules", "configurations"], "every history of forced and other index and remove calls, any cache sizes, threads and shards",
     "the tests always Flush and never look at an engine that is left alone.",
     ["engine.go", "segment.go", "indexer_worker.go", "counters.go", "core/indexer.go"],
     [("internalIndexDoc, RemoveDoc", "engine.go"), ("segmenterWorker", "segment.go"), ("AddDocToCache, RemoveDocToCache", "core/indexer.go")],
     "stateful property-based testing (rapid): forced calls awaited until visible or every goroutine is idle", NOTE + "An engine that is neither right nor idle after 60 s is not judged.")
prop("C26", "The heartbeat monitor restarts a server after four failed heartbeats",
     "The monitor (net/heartb) asks a server for a heartbeat, at least a second after the one before; a heartbeat fails if it returns an error or a result other than 1. After the fourth failed heartbeat since the last restart or kill request, before the next heartbeat, the restart command runs exactly once and to its end, in the given folder, and counting begins anew whatever its exit code; a server with fewer failures is not restarted. Health requests always report the number of failed heartbeats counted, also concurrently. A kill or restart request ends exactly the programs named in it (killall -9), no shell or option parser reads the names, and counting begins anew.",
     ["fault_sequences", "inputs", "schedules"], "every sequence of succeeding and failing heartbeats, every kill request at any time, any exit code of the restart command",
     "the package has no tests.",
     ["net/heartb/heart.go"],
     [("Grpcc, heart, restart, kill, Health, KillSer, RestartSer", "net/heartb/heart.go")],
     "stateful property-based testing (rapid): scripted servers against a counting model, each monitor in a process of its own", NOTE + "killall is a recording stand-in, the only program on the monitor's PATH.")
prop("C27", "Arguments and answers belong to the caller",
     "No call changes its arguments: requests, with their lists, document filters and rank options, and documents handed to the engine stay as they were given. Once a search has returned, even because its time was up, the caller may reuse its request and the documents of its answer for anything: this neither races with the engine nor changes a later answer. An answer (of a search, of listing the store, of Segment or PinYin) stays as it was returned, whatever is indexed or searched afterwards. Only the list of locations of one token in an answer is shared with the index and may only be read.",
     ["inputs", "histories", "schedules", "configurations"], "every set of concurrent programs of searches, other calls and updates, any requests and time limits, any configuration",
     "the tests use each request once, from one goroutine, and drop the answers.",
     ["engine.go", "indexer_worker.go", "ranker_worker.go", "core/indexer.go", "core/ranker.go", "riot.go", "segment.go"],
     [("Search, Tokens, rankOutDocs, rankOutID", "engine.go"), ("indexerLookup, clone", "indexer_worker.go"), ("Lookup, LogicLookup", "core/indexer.go"), ("Rank", "core/ranker.go")],
     "property-based testing (rapid) under the race detector: callers write over requests and answers as soon as a call returns; engine judged by the model afterwards", NOTE)

prop("C28", "An engine scores its documents by BM25 over their words",
     "A search ranked by the default criteria, or by criteria that use the BM25 value they are given, scores each hit with the documented formula and the engine's K1 and B, and lists the hits by it. The frequency of a keyword is the number of its occurrences in the content as it is cut into words, or of the locations given with an explicit token; labels count nothing. The length of a document is the number of words of its content plus its explicit tokens and pinyin keywords; averages and document frequencies are those of the live documents of its shard. This holds for every tokenisation mode, after any history and after a restart from the store.",
     ["histories", "inputs", "configurations"], "every tokenisation mode, index type with frequencies, K1 and B, history of documents and search",
     "the tests compare a few scores of fixed documents; lengths as the segmenter workers count them are visible only in scores.",
     ["segment.go", "indexer_worker.go", "core/indexer.go", "engine.go", "types/scoring_criteria.go"],
     [("makeTokensMap, segmenterData, splitData count the words", "segment.go"), ("segmenterWorker hands over TokenLen and Frequency", "segment.go"), ("score computed in internalLookup", "core/indexer.go")],
     "property-based testing (rapid): generated histories, scores against a float64 evaluation of the formula over a reference tokeniser", NOTE + "With several shards, some way of sharing out the documents must explain all scores.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
    m = {"version": 1,
         "setup_cmd": "./setup.sh",
         "checks": [{"property": x["p"]["id"],
                     "quick_cmd": f"./run.sh {x['p']['id']} quick",
                     "thorough_cmd": f"./run.sh {x['p']['id']} thorough",
                     "technique": x["technique"], "level": "exploration", "level_note": x["note"].strip()} for x in P],
         "not_applicable": []}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
