# The properties: one entry each. "bin" names the harness that decides it (absent: not claimed yet).
SEQ = "model checking: exhaustive bounded enumeration of operation sequences on the real code with state merging, against a reference model"
SCH = "model checking: exhaustive schedule enumeration within a deviation bound of the real code under a controlled scheduler"
FLT = "model checking: exhaustive enumeration of storage-fault / crash points of the real code's operation histories"
DOM = "model checking: exhaustive enumeration of a bounded input/operation space on the real code, against a reference model"
N_SEQ = "Every operation sequence within the stated depth and alphabet is executed on the real code (rebuilt from /repo, instrumented only for determinism) and compared with a sorted-set reference. Trusts the small reference model, the deterministic scheduler and the in-memory store of the harness; nothing is claimed beyond the bounds in the evidence."
N_SCH = "All schedules with at most the stated number of deviations from each base scheduling policy are executed on the real code at lock/channel/goroutine/storage granularity (plus statement granularity where stated), sequentially consistent memory. Trusts the harness' scheduler and its models of sync/time/channels."
N_FLT = "Every storage-operation index of every listed history is failed (or made the crash point) once, on the real code, with deterministic scheduling. Trusts the harness' in-memory store and its fault model (a failed call has no effect; calls are atomic)."

N_DMG = "Every damage of the stated kinds is applied to a copy of the stored data and the list is then opened by a fresh manager running the real code. Damage that cannot arise (elements without an update time, no segments at all, negative counts, a changed ID inside an index entry) is left out. Trusts the harness' store, scheduler and damage list; nothing is claimed about other damage."
N_API = "Requests are given to the handler that the real startup code of the server installs (rebuilt from /repo, instrumented only for determinism; no socket is opened), over an in-memory store, and every response is compared with a reference model of the API. Trusts that model, the deterministic scheduler and the in-memory store of the harness; the HTTP wire format below net/http's Handler interface and TLS are not covered; nothing is claimed beyond the bounds in the evidence."

N_SRV = "The server is started by its real startup code (rebuilt from /repo, instrumented only for determinism, together with the shutdown management module it uses; no socket is opened), stopped by an orderly shutdown and started again in the same process after its package state was reset. Trusts the scheduler and the small reference model; process exits and signals are not executed; Bolt and Badger run uninstrumented in scratch directories."
PROPS = [
dict(id="C01", bin="vh", title="A list holds exactly what was written, in rank order",
 statement="After any sequence of element inserts, upserts, deletes and bulk populations that all succeeded, a list contains exactly one entry per live element ID, carrying the values of the last write to that ID (score, tie-breaker, update time, payload), and nothing else. Reading the list from the top returns all of them ordered by score descending, then tie-breaker descending, then update time ascending, then ID ascending. The list length and lookup by ID agree with that content.",
 over=["inputs","histories","configurations"], qtext="For every operation sequence, every element value (including extreme scores, tie-breakers, IDs and ties), every split/merge size and every segment layout the history has produced.",
 why="Tests apply a handful of random bulk histories; the wrong result needs a specific alignment of segment boundaries, ties and batch composition, which only enumeration of histories reaches systematically.",
 files=["list.go","segments.go","segment.go","elements.go","element.go"],
 mech=[("index lookup then move between score segments","list.go:UpdateElements"),("segment range filtering of sorted batches","segments.go:Insert, DeleteElements, splitElementsIdx; segment.go:FilterIdx"),("sorted merge/insert/update in a segment","elements.go:Merge, Insert, Add, Update, Delete")],
 state=[("score segments","elements by rank"),("index segments","element ID to score segment")], observe=["List.GetRankTop","List.GetElements","List.Len"],
 technique=SEQ, note=N_SEQ),
dict(id="C02", bin="vh", title="Rank lookup and neighbours are exact",
 statement="Looking up elements by ID returns, for each requested ID present in the list and for no other, its exact distance from the top and from the bottom of the list. With a radius, it also returns exactly the nearest elements above and below it, each nearest first, as many as the radius allows, across any segment boundaries. Results come sorted by rank, once per element even if an ID is requested repeatedly.",
 over=["inputs","histories","configurations"], qtext="For every reachable list, every set of requested IDs (present, absent, duplicate) and every radius.",
 why="Tests check ranks on a few random lists; the offset arithmetic across empty or uneven segments and at list ends depends on layouts tests do not enumerate.",
 files=["list.go","segments.go","rankedelement.go"],
 mech=[("per-segment offsets","segments.go:topOffsets, FindElements"),("neighbour walk","segments.go:findRanked")],
 observe=["List.GetElements"], technique=SEQ, note=N_SEQ),
dict(id="C03", bin="vh", title="Top and bottom windows return the exact slice of the ranking",
 statement="A request for n elements at offset k from the top returns exactly ranks k+1..k+n of the ranking, clipped at the end of the list. The bottom request with offset k starts at the element with exactly k elements below it and continues downwards, returning as many as exist up to n. An offset at or beyond the list length is reported as out of bounds.",
 over=["inputs","histories","configurations"], qtext="For every reachable list and segment layout (including empty segments) and every offset and count.",
 why="Tests sample a few offsets on one layout; off-by-one errors at segment borders and list ends need every offset and count on every layout.",
 files=["list.go","segments.go"], mech=[("offset to segment","segments.go:segIdxTop, segIdxBottom"),("windowed copy over segments","segments.go:getElementsOffset")],
 observe=["List.GetRankTop","List.GetRankBottom"], technique=SEQ, note=N_SEQ),
dict(id="C04", bin="vh", title="Score queries start at the first element at or below the score",
 statement="A score query returns the elements starting with the highest ranked element whose score is at or below the given score, in descending order, with their exact ranks from top and bottom, as many as requested or exist. If no element is at or below the score the result is empty.",
 over=["inputs","histories","configurations"], qtext="For every reachable list, every score (present, between, above, below) and every count.",
 why="Tests use a few scores on a random list; ties that span segments and scores that fall between or outside segments need enumeration.",
 files=["list.go","segments.go"], mech=[("score to segment","segments.go:segIdxScore"),("scan from score","segments.go:getElementsFromScore")],
 observe=["List.GetRankScoreDesc"], technique=SEQ, note=N_SEQ),
dict(id="C05", bin="vh", title="Percentile queries return the element at that percentile",
 statement="For a list with N elements a percentile query for p in 0..1 returns the element whose distance from the top is floor(p*N), limited to the last element, with exact ranks and neighbours. Percentiles outside 0..1 are clamped. On an empty list no element is returned.",
 over=["inputs","histories","configurations"], qtext="For every reachable list and segment layout (including empty segments), every percentile on a grid that hits every boundary, and every radius.",
 why="Tests check a few percentiles of a fixed list; boundaries between (possibly empty) segments and the ends of the range depend on the layout.",
 files=["list.go","segments.go"], mech=[("offset from percentile","list.go:GetPercentile"),("element in segment","segments.go:getElementIndex")],
 observe=["List.GetPercentile"], technique=SEQ, note=N_SEQ),
dict(id="C06", bin="vh", title="Update results report the new and the previous rank",
 statement="When results are requested, an update returns every updated element with its new values, its exact new rank and neighbours in the list after the whole batch, sorted by rank. For each element that existed before, the result also carries the previous values and the exact previous rank; for new elements it carries none.",
 over=["inputs","histories","configurations"], qtext="For every reachable list, every batch of updates (new, unchanged, moved within and across segments) and every radius.",
 why="Tests only check that results exist for simple cases; the previous rank depends on segment offsets before the batch while the elements move concurrently.",
 files=["list.go","segments.go","rankedelement.go"], mech=[("rank before update","list.go:UpdateElements (oldRank)"),("rank after update","list.go:getElements")],
 observe=["List.UpdateElements results"], technique=SEQ, note=N_SEQ),
dict(id="C07", bin="vh", title="Maintenance never changes list content and keeps lists consistent",
 statement="Splitting/merging, re-indexing, releasing from memory, pruning and repairing a healthy list never change its content, order, ranks or lookups. After any sequence of mutations and maintenance the list passes full verification of segments, elements and index. Repeated splitting brings every segment within the configured split size unless tied elements prevent it, and maintenance leaves no lock held.",
 over=["histories","configurations","inputs"], qtext="For every interleaved sequence of mutations and maintenance operations, for every split/merge size.",
 why="Tests run each maintenance operation once on bulk random lists; repeated split/merge/reindex sequences on particular layouts (empty segments, ties on borders) are not enumerated.",
 files=["list.go","segments.go","segment.go","manager.go"], mech=[("split and merge","list.go:split; segments.go:splitIdx, mergeWithNext"),("reindex","list.go:reindex"),("repair","list.go:Repair"),("release","list.go:ReleaseSegments; lists.go:Prune")],
 observe=["List.Verify","List.VerifyElements","List.VerifyUnlocked","List.GetRankTop"], technique=SEQ, note=N_SEQ),
dict(id="C08", bin="vh", title="Saving and reloading restores every list completely",
 statement="After the list directory has been saved, loading it in a fresh process yields the same lists with the same settings, metadata and content as at the time of the save plus any element updates stored since. If the main copy is missing or unreadable, the backup copy is used; a backup copy that cannot be written does not keep the main copy from being saved. Lists that do not load their index at start behave the same once used.",
 over=["histories","configurations","crash_points"], qtext="For every history of list creation, mutation, save and reload, with and without index loading, cache and backup.",
 why="Tests save and load once; content loss needs a particular order of structural change, save and reload.",
 files=["manager.go","lists.go","list.go","segments.go"], mech=[("directory serialization","lists.go:Save, Load"),("backup fallback","manager.go:LoadLists"),("lazy segment load","list.go:loadSegments")],
 observe=["Manager.LoadLists","List.GetRankTop"], technique=SEQ, note=N_SEQ),
dict(id="C09", bin="vh", title="List backup and restore is a faithful round trip",
 statement="Restoring a backup of a list yields a list with the same settings, metadata, elements, payloads and order, which verifies. Restoring under a new ID leaves the original list untouched and shares no storage with it. A whole-database backup restores every list it contains, honouring renames and filters.",
 over=["histories","inputs","configurations"], qtext="For every reachable list state, for restore in place and under new IDs, for every destination kind that needs no network.",
 why="Tests back up and restore one generated list; sharing of storage between copy and original or wrong segment parents only shows for later operations on both.",
 files=["list.go","backup/job.go","backup/restore.go","backup/provider.go","backup/file","backup/server"], mech=[("list backup","list.go:Backup, RestoreList"),("backup job","backup/job.go:Request.Start"),("restore job","backup/restore.go:RestoreInfo.Restore")],
 observe=["RestoreList","backup.RestoreInfo.Restore"], technique=SEQ, note=N_SEQ),
dict(id="C10", bin="vh", title="A cloned list equals its source and is independent of it",
 statement="Creating a list as a clone of another yields a verified list with exactly the source's elements under the clone's own settings. Afterwards no operation on either list, including deletion, changes the other.",
 over=["histories","configurations","schedules"], qtext="For every source state, every split/merge setting of the clone, every sequence of operations on both, and clone running concurrently with updates of the source.",
 why="Tests clone one list and compare; aliasing of storage or cached data only shows after particular later operations.",
 files=["list.go","segments.go"], mech=[("clone","list.go:cloneElements")], observe=["NewList with Clone","List.GetRankTop"], technique=SEQ, note=N_SEQ),
dict(id="C11", bin="vh", title="The list directory lists, pages and matches exactly",
 statement="Paging forward or backward through the list directory returns exactly the lists that follow (or precede) the given ID in ID order, at most n of them, with exact counts of lists before and after the page. Matching by metadata and sets returns exactly the lists whose metadata contains every given pair plus all lists in the given sets. Lookup by ID reflects adds and deletes.",
 over=["inputs","histories"], qtext="For every set of lists, every cursor (present or absent), every page size and every query.",
 why="Tests page through one generated directory; the selective-insert paging depends on iteration order and page size.",
 files=["lists.go"], mech=[("paging","lists.go:SortedIDsAfter, SortedIDsBefore"),("matching","lists.go:MatchAll")], observe=["Lists.SortedIDsAfter","Lists.SortedIDsBefore","Lists.MatchAll"], technique=DOM, note=N_SEQ),
dict(id="C12", bin="vh", title="Concurrent updates and reads of a list are safe and lose nothing",
 statement="Concurrent updates, deletes, inserts and reads of one list always all complete, and the final content equals some sequential order of the updates, with the list passing verification. No update reported successful is lost, and an element not being modified is found by every concurrent lookup.",
 over=["schedules"], qtext="For every interleaving of two or three concurrent operations, with and without cache, on single- and multi-segment lists.",
 why="Tests run random goroutines under one arbitrary schedule; deadlocks and lost updates need specific interleavings of lock acquisitions.",
 files=["list.go","segments.go"], mech=[("update lock","list.go:loadSegments"),("per-segment locks","segments.go:elementFullIdx, replaceSegment")], observe=["List.* return values","List.VerifyElements"], technique=SCH, note=N_SCH),
dict(id="C13", bin="vh", title="Maintenance running concurrently with use loses nothing and never hangs",
 statement="Splitting, merging, re-indexing, repairing, releasing from memory, statistics, backup and saving may run at any time concurrently with updates and reads: every operation completes, no successful update is lost, content not being modified is always visible, and the list verifies afterwards and after a reload.",
 over=["schedules"], qtext="For every interleaving of a maintenance operation with updates and reads, with and without cache.",
 why="Tests exercise maintenance and updates under arbitrary timing; the harmful interleavings are specific.",
 files=["list.go","segments.go","manager.go","lists.go"], mech=[("segment replacement under locks","list.go:split, reindex, Repair"),("release and lazy loading","list.go:ReleaseSegments, loadSegments")], observe=["List.* return values","List.VerifyElements"], technique=SCH, note=N_SCH),
dict(id="C14", bin="vh", title="The lazy write-back store never loses or reorders writes",
 statement="Through the write-back layer a read always returns the latest value written or reports a blob deleted, at every moment before, during and after the background save. After shutdown has completed, the underlying store holds exactly the latest state of every key. Writers are delayed but never blocked forever by a full queue, and a failed background save affects only that write.",
 over=["schedules","histories","fault_sequences"], qtext="For every interleaving of writers, readers, timers, flushers and shutdown within the bounds, every queue limit and every pattern of store errors.",
 why="Tests write a few keys and wait; lost or reordered writes need two saves of one key in flight or an operation racing a flush.",
 files=["blobstore/lazysaver.go"], mech=[("pending map and savers","blobstore/lazysaver.go")], observe=["LazySaver.Get/Set/Delete","underlying store"], technique=SCH, note=N_SCH),
dict(id="C15", bin="vh", title="The size-splitting store behaves like an unlimited store",
 statement="A store that splits large blobs behaves exactly like one without a size limit: a read returns the last value written, for any size, a deleted blob is gone with all its parts, overwriting a blob with a smaller or larger one leaves no stale parts readable, and no single value handed to the underlying store exceeds the limit. A failed write is reported; afterwards the old, the new or no value is read until the next successful write.",
 over=["inputs","histories","fault_sequences"], qtext="For every sequence of writes of any sizes around multiples of the limit, deletes and reads, and every single fault of the underlying store.",
 why="Tests store a few random blobs; stale parts need particular sequences of growing and shrinking.",
 files=["blobstore/maxsize.go"], mech=[("part split and join","blobstore/maxsize.go")], observe=["Store.Get/Set/Delete"], technique=SEQ, note=N_SEQ),
dict(id="C16", bin="vh", title="The retrying store retries transient faults only, and bounded",
 statement="An operation through the retrying layer succeeds if the underlying store succeeds within the configured number of attempts, and otherwise returns the underlying error after exactly that many attempts. Errors marked permanent and missing blobs are returned at once, and a cancelled context stops the retries. Settings of one store never affect another.",
 over=["fault_sequences","configurations"], qtext="For every pattern of failures up to the attempt limit plus one, every operation, every option combination and cancellation at any point.",
 why="Tests do not cover the retry layer's attempt counts or option isolation.",
 files=["blobstore/retry.go"], mech=[("retry loop","blobstore/retry.go")], observe=["Store.Get/Set/Delete"], technique=FLT, note=N_FLT),
dict(id="C17", bin="vh", title="Every storage backend honours the blob store contract",
 statement="For each embedded storage backend (memory, Bolt, Badger; the DynamoDB and Aerospike clients need a network service and are not covered), a read returns exactly the last value successfully written for that set and key, sets are independent of each other, reading a missing or deleted blob yields the not-found error, deleting a missing blob succeeds, and values handed in or out are not aliased to stored state. Persistent backends return the same content after being closed and reopened.",
 over=["histories","inputs","configurations"], qtext="For every operation sequence over a small set of sets, keys and values (including empty ones and keys that contain separators), including close and reopen.",
 why="Tests write, read and delete individual blobs; set/key confusion and stale content need specific combinations.",
 files=["blobstore/memstore/memstore.go","blobstore/boltstore/boltstore.go","blobstore/badgerstore/badger.go","blobstore/blobstore.go"], mech=[("key encoding and transactions","blobstore/*store")], observe=["Store.Get/Set/Delete"], technique=SEQ, note=N_SEQ),
dict(id="C18", bin="vh", title="A failing store never wedges a list or fakes success",
 statement="When a storage operation fails during any list operation, the operation returns (never panics, hangs or leaves a lock held). If it reports success, also when it is repeated after a failure, its full effect is visible and stays visible after a reload; once storage works again the list remains usable, and a repair yields a verified list holding every element that was not part of the failed operation.",
 over=["fault_sequences","histories"], qtext="For every list operation, every list layout considered, and every storage call the operation makes failing once or from then on.",
 why="Tests never inject storage faults into list operations.",
 files=["list.go","segments.go","segment.go"], mech=[("error paths and unlocks","list.go; segments.go:elementFullIdx, replaceSegment")], observe=["List.* return values","List.VerifyUnlocked","List.Repair"], technique=FLT, note=N_FLT),
dict(id="C19", bin="vh", title="After a crash at any write, a repair recovers a consistent list",
 statement="If the process stops between any two storage writes of any operation, a fresh process can load the directory, and repairing the list terminates with a verified, usable list. Every element in it was written at some point with exactly these values, no element appears twice, and no element untouched by the interrupted operation is missing (populate and repair touch all). Other lists are unaffected.",
 over=["crash_points","histories"], qtext="For every history considered and every prefix of its storage writes.",
 why="Tests never stop at intermediate storage states.",
 files=["list.go","segments.go","lists.go","manager.go"], mech=[("write order of segments, index and directory","list.go:split, UpdateElements, saveSegments"),("repair","list.go:Repair")], observe=["Manager.LoadLists","List.Repair","List.VerifyElements"], technique=FLT, note=N_FLT),
dict(id="C20", bin="vh", title="Stored and exported data decodes to exactly what was encoded",
 statement="Every persisted type decodes back to exactly the value that was encoded, for every field value including extremes, through both the buffer and the stream interfaces, consuming exactly its own bytes. Truncated input yields an error (or, where only redundant trailing bytes are missing, the complete value), never a partial value, a panic or an endless loop. Stored data with an unknown version is rejected.",
 over=["inputs"], qtext="For every combination of boundary values of the fields of each type, and every truncation point of its encoding.",
 why="Generated tests encode only zero values.",
 files=["element_gen.go","elements_gen.go","list_gen.go","segment_gen.go","segments_gen.go","msgppool.go","lists.go"], mech=[("msgp codecs","*_gen.go"),("versioned readers and writers","msgppool.go")], observe=["MarshalMsg/UnmarshalMsg/EncodeMsg/DecodeMsg"], technique=DOM, note=N_SEQ),
dict(id="C21", bin="vh", title="Float scores map to integers order-preservingly and reversibly",
 statement="The conversion of 64-bit floats to integer scores is strictly monotonic over all non-NaN values including infinities (with -0 equal to 0), maps NaN below everything else, and its inverse returns the original value.",
 over=["inputs"], qtext="For every value representable as float32 and, for every sign and exponent of float64, a mantissa grid; each compared with its neighbour.",
 why="Tests sample a few values.",
 files=["sortfloat/float.go"], mech=[("bit manipulation","sortfloat/float.go")], observe=["sortfloat functions"], technique=DOM, note=N_SEQ),
dict(id="C22", bin="vh", title="Element collection operations are exact",
 statement="Sorting, merging, inserting, updating, deleting, finding, deduplicating and splitting element collections gives exactly the result of the naive definition on sorted sequences, for any collection size, with or without spare capacity. Deduplication keeps, per ID, the element updated last and, at equal times, the one with the highest score. No operation modifies elements of a collection other than its receiver, unless documented to consume it.",
 over=["inputs"], qtext="For every small collection over a small value domain, and for every size class that selects a different algorithm.",
 why="Tests compare random collections; algorithm switches by size and capacity and aliasing of shared arrays are not covered systematically.",
 files=["elements.go","element.go"], mech=[("merge strategies","elements.go:Merge"),("dedup","elements.go:Deduplicate, MergeDeduplicate")], observe=["Elements methods"], technique=DOM, note=N_SEQ),
dict(id="C23", bin="vhapi", title="API tokens grant access to exactly what they name",
 statement="With token security enabled, a request has an effect or returns stored data only if it carries a valid, unexpired token with a scope required by that endpoint, and the lists and elements it names or selects are among those the token is restricted to (a token without restriction, or with the management scope on management endpoints, is not limited). Such a request is answered exactly as on a server without token security. Any other request is refused as unauthorized, reveals nothing and changes nothing.",
 over=["inputs","configurations"], qtext="For every endpoint, every token scope set, every combination of list and element restrictions from a set of about 100, every claim form and every way of being invalid (algorithm, signature, key, expiry, missing).",
 why="Tests use a few tokens on a few endpoints and no restrictions; a missing check on one endpoint is only found by trying each endpoint with each kind of token.",
 files=["api/jwt.go","api/elements.go","api/lists.go","api/multilist.go","api/backup.go"], mech=[("token checks","api/jwt.go"),("restriction checks","api/jwt.go:HasAccessToList, HasAccessToElement and their callers")], observe=["HTTP responses","stored blobs"], technique=DOM, note=N_API),
dict(id="C24", bin="vhapi", title="API list and element operations match the documented semantics",
 statement="For any sequence of API requests on lists and elements, the responses (status, element values, ranks from top and bottom, neighbours in rank order) and the resulting content match the documented semantics: creating refuses existing elements and lists, updates insert or replace, an omitted payload keeps the stored one, deletes remove, clones are independent, missing lists and elements are reported as not found, malformed requests change nothing. Concurrent requests each take effect exactly once, with the responses of some sequential order.",
 over=["histories","inputs","schedules"], qtext="For every request sequence within the bounds over a small set of lists and elements, every read request in every reachable state, and every interleaving (within the deviation bound) of two or three requests.",
 why="API tests cover single calls; sequences, rank fields and concurrent requests are not compared against a model.",
 files=["api/elements.go","api/lists.go","api/morph/"], mech=[("controllers","api/elements.go, api/lists.go"),("conversion of results","api/morph/elements.go")], observe=["HTTP responses"], technique=SEQ, note=N_API),
dict(id="C25", bin="vhapi", title="Multi-list requests act on exactly the selected lists",
 statement="A multi-list request acts on exactly the lists named by ID, plus the lists matching all given metadata, plus all lists in the given sets, each once; without any selection, verify, re-index and backup act on all lists. It reports success or failure for each selected list, unknown or unreadable ones included, and the effect on each list and its result equal that of the single-list operation, whatever happens to the other lists.",
 over=["inputs","histories","schedules"], qtext="For every multi-list endpoint and every selection (IDs, metadata, sets) over a small directory of lists, with each list readable or not; for patterns of missing, unreadable and panicking lists among more lists than are handled at a time; for every schedule (within the deviation bound, at statement level) of the work on the lists, and of two concurrent multi-list requests.",
 why="Tests use one selection per endpoint.",
 files=["api/multilist.go","api/lists.go","lists.go","backup/job.go"], mech=[("selection","api/multilist.go"),("matching","lists.go:MatchAll"),("fan-out","api/multilist.go:onEveryList")], observe=["HTTP responses"], technique=DOM, note=N_API),
dict(id="C26", bin="vh", title="The concurrency limiter never over-grants or leaks tokens",
 statement="A token bucket never has more holders than its number of tokens, an acquisition succeeds whenever a token is or becomes free, and every release makes exactly one token available again, however getters and users that receive from the bucket directly (with or without giving up) interleave. After everything is released exactly the configured number of tokens is available.",
 over=["schedules","configurations"], qtext="For every interleaving (within the deviation bound) of up to four acquirers with releases, hand-overs, tries and cancelled waits, for 1 to 3 tokens.",
 why="There is no test of contention.",
 files=["bucket.go"], mech=[("token channel","bucket.go")], observe=["Bucket.Get/Release"], technique=SCH, note=N_SCH),
dict(id="C27", bin="vh", title="Backup and restore jobs report their outcome truthfully",
 statement="A backup job always finishes; its status names each list at most once as done or failed (exactly once unless the job was cancelled or failed as a whole), reports every failure of the destination, is finished only after everything was written and the destination closed, and everything reported as done can be restored from what was written. Cancelling stops the job before its next list and is reported; the status can be read at any time, never goes back, and a returned status does not change. A restore counts each list of the backup exactly once as restored, skipped or failed, whatever the storage does, and lists counted as restored have exactly their content.",
 over=["schedules","fault_sequences"], qtext="For every interleaving of a job with status reads and cancellation, and every storage or destination fault.",
 why="Tests run one job to completion.",
 files=["backup/job.go","backup/file"], mech=[("job status","backup/job.go")], observe=["backup.Status"], technique=SCH, note=N_SCH),
dict(id="C28", bin="vh", title="Background saving, pruning and splitting work as configured and stop cleanly",
 statement="While the interval saver, the pruner and the splitter run next to clients, every stored version of the list directory is complete, and after every save interval a restart from storage has exactly the lists and content of that moment, with a backup of the directory written on every BackupEvery-th save. Requested splits are carried out, one pending for a deleted list leaves nothing behind, and pruning never changes what a list returns. Each service acknowledges shutdown, the saver only after a final save of everything acknowledged before, then no longer uses the storage, and no schedule hangs.",
 over=["schedules","fault_sequences","configurations"], qtext="For every interleaving of the services, passing time, clients and the stages of shutdown.",
 why="Tests start the services at most to stop them again; what is lost or hangs depends on the order in which ticks, splits, client operations and shutdown meet.",
 files=["manager.go","lists.go"], mech=[("background services","manager.go:StartIntervalSaver, StartListPruner, StartListSplitter"),("saving the directory","manager.go:SaveLists; lists.go:Save, Load")],
 state=[("list directory","all lists with their segments"),("split requests","lists waiting to be split")], observe=["Manager.LoadLists after the saved versions","shutdown acknowledgement"], technique=SCH, note=N_SCH),
dict(id="C29", bin="vh", title="Verification reports damaged lists and a repair keeps every readable element",
 statement="If the stored data of a list is damaged (a blob missing, truncated or outdated, an element lost, duplicated, misplaced or changed, a wrong count, border, reference or flag, or any subset of the writes of an operation lost), verification reports it, unless the list still behaves like one. Repairing such a list terminates with a verified, usable list, live and after a reload, that contains exactly the elements that are still readable, each with a stored value, none twice.",
 over=["histories","fault_sequences"], qtext="For every list state up to a depth, every single damage of its stored data and every subset of lost writes of a following operation.",
 why="Tests verify and repair healthy lists, or one kind of damage at one place.",
 files=["list.go","segments.go","segment.go"], mech=[("verification","list.go:Verify, VerifyElements; segments.go:Verify, VerifyElements"),("repair","list.go:Repair")],
 state=[("segments","score and index segments with their borders and counts"),("elements","the stored elements of each segment")], observe=["List.Verify","List.VerifyElements","List.Repair","List.GetRankTop","List.GetElements"], technique=FLT, note=N_DMG),
dict(id="C30", bin="vhsrv", title="An orderly shutdown and restart keeps every acknowledged change",
 statement="For every storage, cache, lazy saving, retry and backup configuration, a server that is shut down in an orderly way, also while requests, periodic saves and splits are running, and then started again has exactly the lists and elements of the acknowledged requests; requests refused because of the shutdown have no effect, and no stage of the shutdown times out. If the list directory is missing or unreadable the backup of it is loaded; without one only a missing directory means an empty database, and an unreadable one is an error. Unusable configurations are refused and storage options take effect as documented.",
 over=["schedules","histories","fault_sequences"], qtext="For every supported configuration, every program of requests, every damage of the directory, and every schedule (within the deviation bound) of requests, periodic work and the shutdown.",
 why="Tests start one server with one configuration and never shut it down, let alone at every point of a request.",
 files=["api/rankdb.go","api/services.go","api/shutdown.go","manager.go","blobstore/lazysaver.go"], mech=[("startup and storage configuration","api/rankdb.go:StartServer, newBlobstore, wrapRetry"),("request draining","api/shutdown.go:ShutdownMiddleware, UpdateRequest"),("saving, splitting and closing on shutdown","manager.go:StartIntervalSaver, StartListSplitter; blobstore/lazysaver.go:Shutdown"),("loading the directory or its backup","manager.go:LoadLists")],
 state=[("configuration","the TOML settings of the server"),("directory and its backup","the stored list directory")], observe=["api.StartServer","api.StartServices","HTTP responses","shutdown.Shutdown"], technique=SCH, note=N_SRV),
dict(id="C31", bin="vhapi", title="Backups and restores over the API move exactly the selected lists",
 statement="A backup request moves exactly the selected lists, and a restore stores exactly the lists of the backup, under their IDs with the given prefix and suffix, with the same settings and elements, for every destination (file, download, another server) and every source (request body, URL, server file); with keep existing lists are kept and counted as skipped, other lists and the source are unchanged, the copies are independent of the originals and survive a restart. Unusable destinations and sources are refused without any effect, a truncated or interrupted backup never yields a list that differs from the original and is reported, and a transfer to another server is only reported complete if that server has restored the lists; selected lists that could not be transferred are reported.",
 over=["inputs","schedules","fault_sequences"], qtext="For every combination of destination, source, prefix, suffix, keep and selection, alone and in pairs; for truncation at every position, every kind of unusable destination and source, and connections that break at any of the listed positions; for every schedule (within the deviation bound) of a transfer between two servers.",
 why="Tests back up to memory and restore from it, without the API, another server, or a fault.",
 files=["api/backup.go","api/multilist.go","backup/","lists.go"], mech=[("destinations and sources","api/multilist.go:Backup, Restore"),("transfer to another server","backup/server/rankdb.go"),("job and restore","backup/job.go, backup/backup.go")], observe=["HTTP responses of both servers"], technique=SCH, note=N_API),
dict(id="C32", bin="vh", title="Statistics agree with what is stored and done",
 statement="The statistics of a list report exactly its number of elements and of score segments and, when asked for, its top and bottom elements with their ranks; between two reports the cache hits and misses grow by exactly the number of segment lookups the cache has answered and not answered, and the percentage is their ratio. The statistics of the write cache report its options, exactly how many reads, writes and deletes and how many bytes it was asked for and passed on to the storage, and the number and size of the writes not saved yet, which is within the configured limits and zero after a shutdown.",
 over=["inputs","histories","configurations"], qtext="For every reachable list and cache, and for every sequence of calls on the write cache up to the depth, with flushing, passing time and failing saves.",
 why="No test compares statistics with what happened; counters drift only after particular combinations of hits, overwritten, deleted and flushed entries.",
 files=["list.go","segments.go","blobstore/lazysaver.go"], mech=[("list statistics","list.go:Stats; segments.go:elementFullIdx"),("write cache statistics","blobstore/lazysaver.go:Stats, Get, Set, Delete, startSaver")], observe=["List.Stats","LazySaver.Stats"], technique=SEQ, note=N_SEQ),
]
