#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line).  Run by hand after editing.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
        **({"observe_at": list(observe)} if observe else {}),
        "hook_needed": None}})

DIO, DST, SER, FIL, LRU = "storage/DiskIO.go", "storage/DiskStorage.go", "storage/Serialize.go", "file/File.go", "cache/LRU.go"
OBS = ["storage.NewDiskStore on the surviving folder", "Storage.GetDocuments/GetIndex/GetFields/GetFieldSize/GetFieldLength/GetNumberFieldTerm"]

p("S01", "Settled term postings survive a crash and reopen",
  "Every (document, field, term) of a save that returned at least 30 seconds before the process dies, on a disk that answers promptly, is found by term lookup after the folder is reopened, through any number of crash and reopen cycles. A lookup after reopening never lists a document that was not saved with that term in that field.",
  ["histories", "schedules", "crash_points"],
  "every sequence of saves, idle periods and kill/reopen cycles; every interleaving of the saving thread with the background flushers and the merger; every moment of the kill",
  "The disk tests index the same three documents once, sleep 20 s and reopen once; they reach one history with no crash, no second batch over an old index and one timing.",
  [DIO, DST, SER], [("index fragments flushed periodically", "storage/DiskIO.go SaveIndexOnDisk"), ("fragments merged into the index at open and every 15 s", "storage/DiskIO.go LoadIndexOnHD"), ("index file format", "storage/Serialize.go SerializeIndex/DeserializeIndex")],
  [("index", "field -> term -> set of document ids", DST)], OBS)
p("S02", "Settled field totals survive a crash and reopen",
  "After a crash and reopen, the number of saved documents and the total length reported for a field are a pair the field really had together at one moment, no older than the state 30 seconds before the crash. Later saves count on from that pair.",
  ["histories", "schedules", "crash_points"],
  "every sequence of saves over any fields, idle periods and kill/reopen cycles, every flusher interleaving, every moment of the kill",
  "Two tests check one total for one fixed corpus after one sleep; no crash, no second batch, no mixing of the two totals.",
  [DIO, DST, SER], [("totals flushed every 5 s", "storage/DiskIO.go SaveFieldSizeLengthOnDisc"), ("totals loaded at open", "storage/DiskIO.go LoadFieldSizeLengthOnHD")], (), OBS)
p("S03", "Settled document frequencies survive a crash and reopen",
  "After a crash and reopen, the number of documents reported to contain a term in a field is a value that count really had, no older than 30 seconds before the crash, for every term ever saved and regardless of how many separate batches, flush periods or restarts the saves were spread over. Later saves count on from it.",
  ["histories", "schedules", "crash_points"],
  "every distribution of saves over flush periods and process lifetimes, every flusher interleaving, every moment of the kill",
  "TestNumberFieldsTerm saves everything inside one flush period and reopens once, so a flush that forgets the terms of earlier flushes goes unseen.",
  [DIO, DST, SER], [("per-term counts flushed every 7 s", "storage/DiskIO.go SaveNumberFieldTermOnDisk"), ("counts loaded at open", "storage/DiskIO.go LoadNumberFieldTermOnHD")], (), OBS)
p("S04", "Settled document contents survive a crash and reopen",
  "After a crash and reopen, every field of a document (its name, length and every term frequency) whose save returned at least 30 seconds before the crash reads back as saved, or as a later save of that same field, whatever the cache capacity and however the saves of the document's fields were spread over time and restarts. No field, term or frequency that was never saved is ever returned.",
  ["histories", "schedules", "crash_points", "configurations"],
  "every sequence of saves of fields of any number of documents, every cache capacity, every idle period, flusher interleaving and moment of the kill",
  "TestGetFields checks the lengths of three documents that all fit in the cache, after one flush and one reopen.",
  [DIO, DST, SER, LRU], [("documents flushed every 10 s, one file per document", "storage/DiskIO.go SaveDocumentFieldOnDisk"), ("fields of one document merged before the flush", "storage/DiskStorage.go UpdateFieldDocument")], (), OBS)
p("S05", "A kill at any instant leaves an openable store with all settled data",
  "If the process is killed between or inside any two file-system operations of a flush, of a merge or of opening the folder, the folder opens again without error or panic and everything settled before the kill (30 seconds after its save, or seen after an earlier reopen) is still there. What a kill at one moment would have left on the folder is also there after a kill at any later moment. Nothing appears that was never saved, and every recovered document, index and total is one the store really held.",
  ["crash_points", "histories", "schedules"],
  "every position of one or more kills in the sequence of file-system operations, including inside a write and during recovery itself",
  "No test kills anything; they only reopen a folder after a quiet sleep.",
  [DIO, FIL, DST], [("replace a file through a temporary", "file/File.go SecureSaveFile"), ("index saved before its fragments are deleted", "storage/DiskIO.go LoadIndexOnHD")], (), OBS)
p("S06", "A power loss at any instant leaves an openable store with all settled data",
  "After a loss of power, in which file contents not forced to stable storage may be missing, old or torn and directory changes not yet committed may be undone, the folder opens again without error or panic and everything settled (saved at least 30 seconds before, or seen after the reopen that followed an earlier loss of power) is still there. Nothing appears that was never saved.",
  ["crash_points", "fault_sequences", "histories"],
  "every position of the power loss, every subset of unsynced contents lost or torn, every prefix of uncommitted directory operations kept",
  "Tests run on a file system that never loses power.",
  [DIO, FIL], [("contents forced to disk before the rename", "file/File.go SaveFileOnDisk/SecureSaveFile"), ("fragments deleted only after the merged index is durable", "storage/DiskIO.go LoadIndexOnHD")], (), OBS)
p("S07", "Disk errors and full disks never destroy settled data",
  "When any write, sync, rename, create, delete, directory or read operation fails (I/O error, disk full, short write), the store may stop the process but never loses or alters data settled before the first failure: after the fault ends and the folder is reopened it is all there, and nothing appears that was never saved. A document that could not be read because of a failed read is served correctly again once reads succeed. A store that is still running when the errors are over serves everything it accepted, and a minute later all of it survives a crash.",
  ["fault_sequences", "histories", "schedules"],
  "every placement of one or more failing operations of every kind, transient or lasting, with or without a following kill",
  "Tests run on a disk that never fails.",
  [DIO, FIL, DST], [("errors of flushes end the process", "storage/DiskIO.go Save*"), ("failed read of a document", "storage/DiskIO.go LoadFieldDocumentOnHD")], (), OBS)
p("S08", "Saves and flushes make progress whenever the disk responds",
  "However slow the disk is and however long it stalls, every save and every query returns within 60 seconds of the disk responding again, and every save is on the folder within 60 seconds after that. No mixture of saves, queries, flushes and merges deadlocks or livelocks the store.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of savers, flushers and merger; stalls of any operation for up to minutes; bursts larger than every internal buffer",
  "Tests save a handful of terms on a fast disk, below every channel capacity.",
  [DST, DIO], [("hand-over channels between saves and flushers", "storage/DiskStorage.go SaveOrUpdate"), ("flusher loops", "storage/DiskIO.go Save*")])
p("S09", "Damaged files are never served as if they were good",
  "If bytes of stored files are flipped, or files are truncated, while the store is closed, then opening the folder or reading the affected document either fails loudly (error, panic or process exit) or answers exactly as saved. It never silently answers with altered or partial data.",
  ["fault_sequences", "inputs"],
  "every position and value of a flipped byte and every truncation length, in every file of every store content",
  "No test damages a file.",
  [FIL, DIO, SER], [("gzip checksum on every file", "file/File.go CompressData/DecompressData")], (), OBS)
p("S10", "Merging index fragments in the background is invisible and complete",
  "Merging never changes the answer of a lookup, live or after a reopen: at every moment the index file and the remaining fragments on the folder together hold every posting flushed so far, and nothing else. Within 45 quiet seconds every fragment has been merged and removed, also when an earlier merge was stopped by a disk error that has since gone away.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of merges with fragment flushes and lookups, any number of merges, transient failures at any operation of a merge",
  "The tests let at most one merge run and never look at the folder during one.",
  [DIO, DST], [("merge loop", "storage/DiskStorage.go NewDiskStore"), ("merge of fragments", "storage/DiskIO.go LoadIndexOnHD")], (),
  ["storage.LoadTermDocumentsFromIndex", "files of the folder", "Storage.GetDocuments"])
p("S11", "Any document id and field name is stored under itself, inside the folder",
  "Document ids and field names may contain any characters (path separators, dots, percent signs, spaces, non-ASCII letters, names the store itself uses for its files): saving them never fails or stops the process, after a reopen every posting, count and content is found under exactly the name it was saved with and no two names share data, and nothing is created outside the store's folder. (Ids of any length, field names of up to 80 bytes.)",
  ["inputs", "histories", "crash_points"],
  "ids up to 5,000 bytes and field names up to 80, also alike but for their ends, combined in one store, over kill/reopen cycles",
  "Tests use the ids 1, 2, 3 and the fields Id, name and summary.",
  [FIL, DIO, DST], [("names become file and directory names", "storage/DiskIO.go"), ("reserved names", "file/File.go")], (), OBS)
p("S12", "Opening the folder again in the same process loses nothing",
  "A folder may be opened again in the same process while an earlier store on it, to which nothing has been saved for 30 seconds or more, still has its background work running (there is no way to stop it): no background work of either stops or crashes the process, and everything saved through the newest store at least 60 seconds before a crash is found after a reopen.",
  ["schedules", "histories", "crash_points"],
  "every interleaving of the background work of two or more generations of stores on one folder, every later kill",
  "The tests do reopen in one process, but see one lucky schedule; the race they contain shows up as rare failures.",
  [DIO, DST, FIL], [("merge loop of every generation", "storage/DiskStorage.go NewDiskStore"), ("temporary file names", "file/File.go SecureSaveFile")], (), OBS)
p("S13", "A folder written by an earlier build opens with everything in it",
  "The files a store leaves in its folder are read by later builds: a folder that was written and left by the build of the pinned commit, or by today's build - merged indexes, fragments not merged yet, totals, document frequencies, documents, for ids and field names of any kind - opens with exactly the postings, totals, document frequencies and contents that had been saved in it, and they and later saves survive further flushes, merges, kills and power losses.",
  ["histories", "inputs", "crash_points"],
  "every folder an earlier build may have left, every later history of saves, kills and power losses over it",
  "Every test writes the folder it reads, with the same build.",
  [SER, FIL, DIO], [("layout of the stored records", "storage/Serialize.go"), ("names of files and directories", "file/File.go PathName, DocumentPathName, constants"), ("loading", "storage/DiskIO.go LoadIndexOnHD, LoadNumberFieldTermOnHD, LoadFieldSizeLengthOnHD, LoadFieldDocumentOnHD")], (), OBS)
p("S14", "Crashes and failures leave nothing behind that adds up",
  "However often the process is killed, the machine loses power or an operation on a file fails while the store writes, the files in its folder stay in proportion to the data: once the folder has been open for 45 quiet seconds it holds, besides the index and the two statistics of each field and the file of each document, at most one spare of each and a few more, however many crashes and failures there were; and all settled data is still found.",
  ["crash_points", "histories"],
  "every instant of every one of dozens of crashes in a row, during saves, merges and opening",
  "No test crashes a store once.",
  [FIL, DIO, DST], [("temporary files", "file/File.go SecureSaveFile, RemoveLeftovers"), ("removing merged fragments", "storage/DiskIO.go LoadIndexOnHD"), ("removing leftovers at the start", "storage/DiskIO.go NewDiskIO")], (), OBS)
p("L01", "A running store always reads back the last save, whatever the cache size",
  "While the process runs, reading a field of a document returns exactly its last completed save, and all other saved fields of that document are still there too, whatever the cache capacity (including zero), whatever has been evicted, and whenever flushes happen.",
  ["histories", "schedules", "configurations"],
  "every cache capacity, every order of saves and reads over more documents than fit, every position of the flushes",
  "The tests' three documents always fit in the cache of five.",
  [DST, DIO, LRU], [("cache in front of document files", "storage/DiskStorage.go GetFields/UpdateFieldDocument"), ("eviction", "cache/LRU.go Put")], (), ["Storage.GetFields"])
p("L02", "The disk store answers exactly like the in-memory store",
  "For every sequence of saves in which each document's field is saved once, the disk-backed store and the in-memory store give, at every moment, the same answers to every query (term lookup, field index, document count, total length, document frequency, contents), and both equal a plain recount of the saved documents; flushes and merges going on meanwhile change nothing.",
  ["histories", "inputs", "schedules", "configurations"],
  "all sequences of saves and queries over any corpus, any cache capacity, any timing relative to flushes and merges",
  "Each store is tested alone on three documents.",
  ["storage/Memory.go", DST, "storage/Storage.go"], [("in-memory bookkeeping", "storage/Memory.go SaveOrUpdate"), ("disk-backed bookkeeping", "storage/DiskStorage.go SaveOrUpdate")], (), ["every method of storage.Storage"])
p("L03", "One disk store may be used by many threads at once",
  "Any number of threads may save to and query one disk-backed store at the same time: the process never crashes, deadlocks or performs an unsynchronised memory access, no save is lost, and when all saves have returned every count, posting and content is as if they had run one after the other, now and after a later reopen. A query that overlaps saves reflects every save that returned before it began.",
  ["schedules", "histories"],
  "every interleaving of concurrent saves, term lookups, content reads, count queries, flushes and merges",
  "All tests use one thread; the web service indexes and searches from one goroutine per request.",
  [DST, DIO, LRU, "model/Set.go"], [("store lock", "storage/DiskStorage.go Disk.mu"), ("cache lock", "cache/LRU.go")], (), ["storage.Storage methods called from several goroutines"])
p("L04", "A store in long use keeps no goroutine and no open file of what is over",
  "However many saves and queries a disk-backed store has served, however many flushes and merges it has made, and whatever disk errors it has survived: a minute after the last call it runs no more goroutines (but for a few) than a minute after it was opened, and holds no files open but a few.",
  ["schedules", "histories", "fault_sequences"],
  "hundreds of operations of several threads with flushes, merges, slow operations and disk errors between",
  "Tests look at results, never at what stays behind.",
  [DST, DIO, FIL], [("work in the background of a save", "storage/DiskStorage.go SaveOrUpdate"), ("flushers", "storage/DiskIO.go Save...OnDisk"), ("closing of files", "file/File.go")], (), ["goroutines of the process", "open files of the process"])
p("Q01", "Search returns exactly the matching documents with their BM25 scores, best first",
  "On an index at rest, a search returns each document that contains at least one query term in the queried field of at least one sub-query exactly once, with the sum over sub-queries of boost times BM25 (k1=1.2, b=0.75; a boost of 0 counts as 1; a term repeated in the query counts each time) computed from the stored counts, in order of non-increasing score. This holds for every interleaving of the search's internal goroutines.",
  ["schedules", "inputs", "configurations"],
  "every corpus, query, number of terms, sub-queries and processors, on both stores and any cache capacity, every interleaving of the goroutines of one or several searches",
  "No test runs a search at all.",
  ["index/InvertedIndex.go", "search/Standard.go", "similarity/BM25.go", "metric/IDF.go"], [("parallel candidate and field collection", "index/InvertedIndex.go Search"), ("parallel sub-queries and score merging", "search/Standard.go Search")], (), ["search.Search.Search", "index.Index.Search"])
p("Q02", "Repeating a search gives the identical ranking",
  "On an index at rest, the same query always returns the same documents with bit-identical scores in the same order, including documents with equal scores, whatever the goroutine schedule, the iteration order of maps, and the presence of other concurrent searches.",
  ["schedules", "inputs"],
  "every corpus with ties, queries with several sub-queries, every schedule and map order",
  "No test runs a search; repeatability needs many schedules.",
  ["search/Standard.go", "index/InvertedIndex.go"], [("merging of sub-query scores", "search/Standard.go Search"), ("final sort", "search/Standard.go Search")], (), ["search.Search.Search"])
p("Q03", "A search that overlaps indexing sees every finished document and no phantom",
  "A search running while other threads index into the same disk-backed store returns every matching document whose indexing returned before the search began, returns only documents whose indexing had begun and that contain a query term in a queried field, each at most once, and every score is a finite positive number that the field totals and document frequencies of some moments between its begin and end give, in order of non-increasing score.",
  ["schedules", "histories"],
  "every interleaving of searches with indexing threads, flushes and merges, including the very first documents of a field",
  "Tests never search, let alone while indexing.",
  ["index/InvertedIndex.go", "search/Standard.go", DST], [("statistics and postings read at different moments", "index/InvertedIndex.go Search")], (), ["search.Search.Search"])
p("Q04", "Every search ends and leaves nothing running",
  "Every search returns, for any number of terms (also none, repeated or unknown), matches, sub-queries and processors, and once it has returned none of the goroutines it started remain.",
  ["schedules", "inputs", "configurations"],
  "every query shape, result sizes around every channel capacity and semaphore size, every schedule, several searches at once",
  "No test runs a search.",
  ["index/InvertedIndex.go", "search/Standard.go"], [("semaphore, result channels and closers", "index/InvertedIndex.go Search")], (), ["goroutines alive after search.Search.Search returned"])
p("C01", "The LRU cache is a linearizable LRU map of bounded size",
  "Used from any number of threads, the cache behaves as if each get and put happened at one instant: a get returns the last value put for the key unless it was evicted, and eviction always removes the key least recently got or put, only when a new key would exceed the capacity. It never holds more than its capacity (a capacity of zero or less holds nothing), and a value once returned by a get does not change later.",
  ["schedules", "histories", "configurations"],
  "every interleaving of gets and puts at every capacity",
  "No test touches the LRU cache directly.",
  [LRU], [("lock and recency list", "cache/LRU.go Get/Put")], (), ["cache.LRUCache Get/Put"])
p("C02", "The read-copy-update cache publishes every put in order and in time",
  "A put becomes visible to every reader within 6 seconds of returning and stays until a later put of the same key replaces it; readers never see a value go back to an older one, never see a value that was not put for that key, and no put is lost, for any number of concurrent putters and getters and bursts larger than its buffer. A put always returns.",
  ["schedules", "histories"],
  "every interleaving of putters, getters and the publishing tick, bursts above the buffer size",
  "TestRcu puts four values from one thread and looks twice.",
  ["cache/RCU.go"], [("publishing goroutine", "cache/RCU.go writer")], (), ["cache.RCU Get/Put"])
p("C03", "The buffered map publishes every put in order and in time",
  "A put into the buffered map becomes visible to every reader within 6 seconds of returning and stays until a later put of the same key replaces it; readers never see a value go back to an older one or a value that was not put, and no put is lost or blocks for ever, however many puts there are.",
  ["schedules", "histories"],
  "every interleaving of putters, getters and the publishing tick, bursts above the buffer size",
  "No test uses it (only benchmarks, which do not run).",
  ["cache/Map.go"], [("publishing goroutine and merge of old and new values", "cache/Map.go writer")], (), ["cache.SyncMap Get/Put"])
p("C04", "The sharded map is a linearizable map",
  "Used from any number of threads, the fragments of a sharded map behave as if each set and get happened at one instant: a get returns the last value set for the key in that fragment, a key is always routed to the same fragment for any number of fragments, fragments do not share keys, and a value once returned does not change later.",
  ["schedules", "histories", "configurations"],
  "every interleaving of sets and gets, every number of fragments and set of keys",
  "TestShard does eight calls from one thread with three fragments.",
  ["cache/Shard.go", "cache/LocalMap.go"], [("routing by checksum", "cache/Shard.go Get"), ("lock", "cache/LocalMap.go")], (), ["cache.Shard Get, cache.LocalMap Get/Set"])
p("T01", "Text filters give the same result under every schedule and for every caller",
  "Stemming word lists in parallel returns, at each position, the stem of the word at that position, with nothing missing, whatever the schedule and the list length. The whole pipeline (tokenise, lower-case, stop words, stem, strip accents) gives each of any number of concurrent callers, sharing the same filter objects, the same words as when run alone, and leaves no goroutine behind.",
  ["schedules", "inputs"],
  "every text and list length, every interleaving of the stemming goroutines and of concurrent callers",
  "Tests run the pipeline on a few short strings, one caller, one schedule.",
  ["filter/Stemmer.go", "filter/ASCII.go", "filter/StopWords.go", "filter/Lowercase.go", "tokenizer/Standard.go"], [("one goroutine per word", "filter/Stemmer.go Process")], (), ["filter.Filter Process"])
p("T02", "Flattening a document gives the same leaves for every caller and map order",
  "For every JSON object whose dotted paths do not collide, flattening yields every leaf value (anything but an object) exactly once, under the keys of its ancestors joined by dots, whatever the order in which maps are walked; the id is the value of the top-level Id key, wherever else an Id occurs. Any number of callers may flatten the same parsed document at once: it is not changed, and each gets a result of its own that it may change.",
  ["inputs", "schedules"],
  "all JSON objects, every map iteration order, every interleaving of concurrent callers on shared and on own documents",
  "Tests flatten three flat objects from one thread.",
  ["field/FieldProcess.go"], [("recursive walk", "field/FieldProcess.go recFlatten"), ("id", "field/FieldProcess.go GetID")], (), ["field.Flatten", "field.GetID", "field.StringToObject"])
p("F01", "Replacing a file is atomic and durable",
  "Saving a file securely into an existing directory replaces it in one step. Whoever reads it at any time, even while several callers replace the same file, gets the complete contents of one save, never an older one than a save that had returned, and never finds the file missing once a save has returned. When the process is killed at any operation the file holds the contents before or after the save going on; once a save has returned without error it survives a loss of power. A save that cannot be carried out because the disk fails reports the error and leaves the previous contents (or its own, complete) in place; it does not end the process. Where nothing fails, no other file is left in the directory, and directories are made with their parents by any number of callers at once.",
  ["crash_points", "schedules", "histories"],
  "every interleaving of callers saving, reading and listing the same files and directories; every kill or loss of power at every file-system operation, every disk error at every operation, any number of restarts",
  "The tests save each file once, from one thread, on a disk that never fails, and never stop inside a save.",
  [FIL], [("temporary file, sync, rename, sync of the directory", "file/File.go SecureSaveFile"), ("directories", "file/File.go CreteDirIfNotExist")], (), ["file.SecureSaveFile", "file.ReadFileOnDisk", "file.ListFiles", "file.CreteDirIfNotExist"])
p("H01", "The web service answers every request and finds what it accepted",
  "Every indexing request with an id is answered 201 and from then on the document is found by search requests for its title or text words; requests without an id or with malformed JSON are answered 400 and change nothing. Every search request is answered 200 with the best-scoring documents, at most ten, best first, however many match, and no number or interleaving of concurrent requests crashes or blocks the service.",
  ["schedules", "inputs", "histories"],
  "every interleaving of concurrent requests with flushes and merges, every number of hits around ten, empty and unmatched queries",
  "No test starts the service.",
  ["main.go", "index/InvertedIndex.go", "search/Standard.go", DST], [("request handlers", "main.go main")], (), ["POST /nir", "GET /nir"])
p("H02", "The web service keeps accepted documents over crashes",
  "Every document whose indexing request was answered at least 30 seconds before the service is killed or the machine loses power is found again by search requests after it is restarted on the same folder, with the scores its stored counts imply, and the restarted service accepts and answers requests as before; whatever was lost, every answer is well-formed and no similarity in it is negative.",
  ["crash_points", "histories", "schedules"],
  "every history of requests, idle periods and kills or losses of power at any file-system operation, any number of restarts",
  "No test starts or kills the service.",
  ["main.go", DIO, DST], [("store opened at start", "main.go main"), ("flushers", "storage/DiskIO.go Save*")], (), ["POST /nir", "GET /nir"])
p("H03", "The web service stays correct on a disk that fails or stalls for a while",
  "While the disk fails for a time or stalls, the service answers every request it answers at all with the right status, never lists a document without a query word, and answers within 60 seconds of the disk responding again. It may end on a disk error, but nothing else ends it. When the disk works again, the service (the same, or restarted) finds every document it has accepted while running, after a restart every document accepted 30 seconds or more before the first error (60 where the disk stalled), and accepts and answers requests as before; every answer is well-formed and no similarity in it is negative.",
  ["schedules", "histories", "configurations"],
  "every disk error, full disk, short write or stall at every operation, alone or for a while, every history of requests before, meanwhile and after, every restart",
  "No test starts the service or makes the disk fail.",
  ["main.go", DIO, DST, FIL], [("flushers end the process on errors", "storage/DiskIO.go Save*"), ("a failed merge is tried again", "storage/DiskStorage.go NewDiskStore"), ("unreadable documents", "storage/DiskIO.go LoadFieldDocumentOnHD")], (), ["POST /nir", "GET /nir"])
p("U01", "Saving a document's field again replaces the earlier version",
  "Saving a field of a document that was saved before replaces it: the contents read back are the new ones, the field's document count and the counts of terms present in both versions do not grow, the total length reflects only the new version, and the document is no longer listed under terms it no longer contains; so repeating a save whose outcome a crash left unknown is harmless.",
  ["histories", "crash_points"],
  "every history with repeated saves, with and without a crash between them, on both stores",
  "No test saves a document twice.",
  [DST, "storage/Memory.go"], [("save", "storage/DiskStorage.go SaveOrUpdate"), ("save", "storage/Memory.go SaveOrUpdate")], (), OBS)
p("X01", "The tokenizer splits exactly at non-letters, non-digits, non-apostrophes",
  "For every text, the tokens are the maximal runs of letters, numbers and apostrophes, in order.",
  ["inputs"], "all strings", "Tests cover a few strings.",
  ["tokenizer/Standard.go"], [("split predicate", "tokenizer/Standard.go isNotAlnum")])
p("X03", "BM25 grows with term frequency and shrinks with document length",
  "For fixed collection statistics, the score of a document never decreases when the frequency of a query term rises and never increases when only its length rises.",
  ["inputs"], "all counts", "No test computes a score.",
  ["similarity/BM25.go", "metric/IDF.go"], [("formula", "similarity/BM25.go BM25")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
