"""The properties: statements, anchors, and how each is decided."""
PROPS = []
NOT_APPLICABLE = {}
SEQ = "bounded exhaustive exploration of operation sequences on the real code, compared step by step with a reference model"
SCHED = "exhaustive enumeration of the thread schedules of the real code under a controlled scheduler, up to a preemption bound"
def P(id, title, statement, over, quant, why, files, mech, observe, technique=SEQ, note="", state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note, state=list(state)))

P("C01", "A transaction sees exactly the versions its isolation level promises",
  "Reading a row through the transactional table heap, or scanning the table, a transaction at snapshot, repeatable read or serializable level sees its own changes and otherwise the latest version that was committed before it began, however often the row was changed, deleted, committed or rolled back since. At read committed it sees its own changes or the latest committed version at the moment of the read; at read uncommitted the latest version. Deleted rows and rows inserted by transactions that must not be seen are absent.",
  ["histories", "configurations"], "every sequence of begin, insert, update, delete, commit and abort operations by 2-4 transactions of all isolation levels on up to two rows, every running transaction reading everything after every step",
  "Tests follow a few scripted interleavings of two transactions; wrong versions need particular chains of updates, rollbacks and timestamps.",
  ["src/storage/table/transactional_table_heap.rs", "src/concurrency/transaction_manager.rs", "src/concurrency/transaction.rs", "src/concurrency/watermark.rs", "src/storage/table/table_iterator.rs", "src/storage/table/tuple.rs"],
  [("version chain and visibility", "src/storage/table/transactional_table_heap.rs get_tuple, get_visible_version"), ("commit timestamps", "src/concurrency/transaction_manager.rs commit, src/concurrency/transaction.rs Transaction::commit, src/concurrency/watermark.rs"), ("iteration", "src/storage/table/transactional_table_heap.rs TransactionalTableIterator")],
  ["TransactionalTableHeap::get_tuple", "the transactional table iterator", "Transaction::read_ts/commit_ts"],
  note="All operation sequences to the stated depth against a reference list of versions per row, checked after every step for every running transaction.")
P("C02", "Concurrent transactions never see half of a commit or of a rollback",
  "When transactions on different threads change, read, scan, commit, abort and garbage-collect at the same time, each read returns a version that was current at some moment its isolation level allows: at snapshot levels all reads of a transaction, also of several rows, fit one moment before it began, so a commit or rollback of several rows is seen entirely or not at all; at read committed each read returns a version that was committed while the read ran. No interleaving deadlocks, panics or leaves a row, its version chain or its room in an inconsistent state.",
  ["schedules"], "every interleaving within the preemption bound of 2-3 transactions with 2-5 operations each",
  "Tests run threads whose timing hardly varies; a half-visible commit lasts for a few instructions.",
  ["src/concurrency/transaction_manager.rs", "src/storage/table/transactional_table_heap.rs", "src/concurrency/transaction.rs"],
  [("publishing a commit", "src/concurrency/transaction_manager.rs TransactionManager::commit/begin"), ("rolling back", "src/concurrency/transaction_manager.rs TransactionManager::abort"), ("latch-free chain walks", "src/storage/table/transactional_table_heap.rs get_tuple")],
  ["values returned by get_tuple and scans, compared with the recorded order of writes, commits and begins", "final contents", "deadlock or panic of any schedule"], technique=SCHED,
  note="All schedules up to the preemption bound; scheduling points at every lock, atomic and page latch operation of the modules involved.")
P("C03", "Aborting a transaction undoes everything it did and nothing else",
  "After a transaction aborts, every row it changed or deleted, however often and with rows of whatever length in a full page, has the contents and visibility it had before for everybody, rows it inserted are gone, nothing that other transactions did is lost, and later transactions can change the rows again. An aborted or committed transaction cannot change anything any more and cannot be committed, or aborted, into another state.",
  ["histories", "schedules"], "every sequence of begin, insert, update (short and long rows), delete, commit and abort operations by 2-3 transactions; every interleaving within the preemption bound of an abort with readers",
  "Tests abort after one or two changes; repeated changes, deletes of own inserts and pages without room need particular histories.",
  ["src/concurrency/transaction_manager.rs", "src/storage/table/transactional_table_heap.rs", "src/storage/page/page_types/table_page.rs"],
  [("rollback through the undo log", "src/concurrency/transaction_manager.rs TransactionManager::abort"), ("undo records", "src/storage/table/transactional_table_heap.rs update_tuple, delete_tuple, insert"), ("room on the page", "src/storage/page/page_types/table_page.rs update_tuple")],
  ["rows and metadata seen by all running and new transactions", "results of writes after the transaction ended"],
  note="All operation sequences to the stated depth, and all schedules within the preemption bound for rollbacks against readers.")
P("C04", "Two transactions never both hold uncommitted changes to one row",
  "A row changed or deleted by a transaction that is still running cannot be changed or deleted by another one: the attempt is refused and changes nothing. A deleted row cannot be changed at all. A transaction's own rows and committed rows in its view can be changed, by whichever transaction comes first when several try at the same time.",
  ["histories", "schedules"], "every sequence of begin, insert, update, delete, commit and abort operations by 2-3 transactions on up to two rows; every interleaving within the preemption bound of two writers of one row",
  "Tests try one conflicting write; races between the check and the write need particular interleavings.",
  ["src/storage/table/transactional_table_heap.rs", "src/concurrency/transaction_manager.rs"],
  [("write checks", "src/storage/table/transactional_table_heap.rs update_tuple, delete_tuple")],
  ["results of update_tuple/delete_tuple", "row contents afterwards"],
  note="All operation sequences to the stated depth and all schedules within the preemption bound. First-committer-wins between committed transactions is not promised by ferrite and not checked.")
P("C05", "Garbage collection never removes a version somebody can still read",
  "Running garbage collection, at any moment and as often as one likes, changes nothing any running transaction sees or can roll back to. The watermark is the oldest read timestamp of the running transactions, or past the last commit when none runs. Once nothing runs, a collection leaves no old versions and no finished transactions behind.",
  ["histories", "schedules"], "every sequence of begin, insert, update, delete, commit, abort and collect operations by 3-4 transactions on up to two rows; every interleaving within the preemption bound of a collection with readers and writers",
  "Tests collect once after a simple history; versions are lost only for particular orders of old readers, commits and collections.",
  ["src/concurrency/transaction_manager.rs", "src/concurrency/watermark.rs"],
  [("collection", "src/concurrency/transaction_manager.rs garbage_collection, prune_completed_transactions"), ("watermark", "src/concurrency/watermark.rs Watermark")],
  ["rows seen by all running transactions after each collection", "TransactionManager::get_watermark, get_undo_link, get_transactions"],
  note="All operation sequences to the stated depth and all schedules within the preemption bound.")
P("C06", "Conflicting locks are never held together and lock requests never get lost",
  "Two transactions never hold incompatible lock modes on the same table or row at the same time, upgrades only happen when every other holder is compatible, and lock modes that are compatible are granted without waiting. A request that has to wait is granted once the conflicting locks are released, is withdrawn when its transaction ends, and releasing a transaction's locks frees every lock it held. Unlocking something that is not held is refused.",
  ["schedules", "histories"], "every sequence of lock, upgrade, unlock and release-all operations by 2-3 transactions on a table and one of its rows, and every interleaving of 2-3 locking threads",
  "Tests take a handful of lock pairs in fixed order; the compatibility matrix times upgrade matrix times queue order times interleavings is never enumerated.",
  ["src/concurrency/lock_manager.rs", "src/concurrency/transaction.rs"],
  [("lock queues and compatibility matrix", "src/concurrency/lock_manager.rs LockRequestQueue, LockCompatibilityChecker"), ("upgrade handling", "src/concurrency/lock_manager.rs lock_table/lock_row")],
  ["LockManager::lock_table/lock_row/unlock_table/unlock_row/force_release_txn", "the lock sets recorded in the transaction"],
  note="All operation sequences to the stated depth against a reference lock table, and all schedules within the preemption bound; modes and transaction counts are small.")
P("C07", "Deadlocks are always detected, and only real ones are",
  "Whenever transactions wait for each other in a cycle, a detection pass finds the cycle, picks the youngest transaction in it as victim and tells that one to abort; when there is no cycle nobody is told to abort. Removing the victim breaks the cycle.",
  ["histories", "inputs"], "every waits-for graph over 3-4 transactions and every lock history of 2-3 transactions over 2-3 tables",
  "Tests build one or two hand-made cycles; missed or spurious cycles depend on graph shape and lock history.",
  ["src/concurrency/lock_manager.rs"],
  [("waits-for graph and cycle search", "src/concurrency/lock_manager.rs DeadlockDetector"), ("edges built from lock queues", "src/concurrency/lock_manager.rs")],
  ["DeadlockDetector::has_cycle/add_edge/remove_edge", "LockManager::check_deadlock after a detection pass"],
  note="All graphs up to 4 nodes; all lock histories to the stated depth, with the detector thread stepped explicitly.")
P("C08", "Locks are refused when the isolation level's two-phase rules forbid them",
  "A repeatable-read transaction gets no lock after it has released a shared or exclusive one; a read-committed transaction after releasing an exclusive lock only gets shared modes; a read-uncommitted transaction never gets shared modes. Repeatable-read and read-committed transactions that committed or aborted get no locks, and a row lock is only given under a suitable table lock.",
  ["histories", "configurations"], "every sequence of lock/unlock operations of a transaction on two tables and a row, at isolation levels read uncommitted, read committed and repeatable read",
  "Tests check a few lock/unlock pairs per level; the rules quantify over all histories of the transaction.",
  ["src/concurrency/lock_manager.rs", "src/concurrency/transaction.rs"],
  [("isolation-level validation", "src/concurrency/lock_manager.rs LockValidator"), ("growing/shrinking transition", "src/concurrency/lock_manager.rs LockStateManager")],
  ["LockManager::lock_table/lock_row results", "Transaction::get_state"],
  note="All sequences to the stated depth per isolation level.")
P("C09", "After a crash, recovery restores exactly the committed contents",
  "Whenever the system stops, recovery from the log leaves every row of every table page as the last committed transaction left it, whichever of the pages had been written to the file by then: no committed insert, update or delete is lost, nothing of a transaction that had not committed or was aborted remains, and pages that never reached the file are created again. A last log record that was only partly written is cut off. Recovering once more, at once or after further work and another crash, gives the same, and the recovered database goes on working: log sequence numbers go on after those in the log, and transaction ids may be used again.",
  ["crash_points", "histories"], "every sequence of insert, update, delete, commit, abort, page flush and crash operations (with the whole log, or the last record lost or cut) of two transactions on 1-2 table pages, to the stated depth",
  "Tests recover from a few scripted logs; a missing or repeated redo or undo shows only for particular combinations of flushed pages, unfinished transactions and crash points.",
  ["src/recovery/log_recovery.rs", "src/recovery/log_manager.rs", "src/recovery/log_iterator.rs", "src/storage/page/page_types/table_page.rs", "src/storage/disk/async_disk/manager.rs"],
  [("analysis, redo and undo", "src/recovery/log_recovery.rs LogRecoveryManager"), ("reading the log", "src/recovery/log_iterator.rs LogIterator"), ("continuing the log", "src/recovery/log_manager.rs LogManager")],
  ["rows of the table pages after LogRecoveryManager::start_recovery", "the length of the log when a commit returns"],
  note="All operation sequences to the stated depth on the real log, recovery manager, buffer pool and disk manager; a crash drops everything but the two files. Contents of rows are compared, not their version metadata, which recovery does not restore.")
P("C10", "The log keeps every record, in order, and never claims more than is on disk",
  "Every log record reads back with the kind, numbers, locations and rows it was written with, however long it is and wherever it stands in the log. Records get consecutive sequence numbers and stand in the file in that order. A commit record's append returns only when it and everything before it are in the file and synced, unless the log has failed; the persistent sequence number never runs ahead of what is in the file and synced, also when writing or syncing fails; shutting the log down writes everything that is left. A log that was cut off anywhere reads, from any record on, as exactly the records that are wholly there.",
  ["histories", "crash_points", "inputs"], "every kind of record over boundary values of its fields; every log of up to 2-3 records cut after every byte; every sequence of appends, log thread turns, failing or interrupted disk operations and shut-downs, to the stated depth",
  "Tests append a few records and read them back; a lost tail, a premature durability signal or a misread record shows only at particular cuts, failures or batch boundaries.",
  ["src/recovery/log_manager.rs", "src/recovery/log_record.rs", "src/recovery/log_iterator.rs", "src/recovery/wal_manager.rs", "src/storage/disk/async_disk/manager.rs"],
  [("batching, persistence and shut-down", "src/recovery/log_manager.rs LogManager"), ("encoding", "src/recovery/log_record.rs to_bytes, from_bytes"), ("iteration", "src/recovery/log_iterator.rs LogIterator::next")],
  ["contents and synced length of the log file", "append_log_record results, get_persistent_lsn, get_next_lsn", "LogIterator and read_log_record results"],
  note="All combinations, cuts and operation sequences to the stated bounds, on the real log manager and disk manager with a file system stand-in that records syncs and injects failures.")
P("C11", "Buffer pool pages keep their contents through eviction, flush and reload",
  "Whatever sequence of creating, fetching, changing, pinning, unpinning, flushing, deleting and batch-loading pages, a fetched page holds exactly what was last written to it, even when it was evicted in between, and after a durable flush also in a new buffer pool on the same file. A pinned page stays in the pool with as many pins as guards; a fetch or creation succeeds whenever some frame is not pinned and fails, changing nothing, when all are; no frame is lost; a pinned page cannot be deleted, and a page of another type is not returned.",
  ["histories", "configurations"], "every sequence of buffer pool operations over up to four pages with 1-3 frames",
  "Tests create a handful of pages in a pool that has room; lost writes and lost frames need particular sequences of pin, dirty, evict and reload.",
  ["src/buffer/buffer_pool_manager_async.rs", "src/buffer/lru_k_replacer.rs", "src/storage/page/page_guard.rs", "src/storage/page/page_impl.rs"],
  [("frame allocation and eviction", "src/buffer/buffer_pool_manager_async.rs BufferPoolManager::get_available_frame/fetch_page/new_page"), ("pins", "src/storage/page/page_guard.rs PageGuard"), ("flushing", "src/buffer/buffer_pool_manager_async.rs flush_*")],
  ["contents seen through PageGuard::read", "page table, free list size and pin counts", "Option/Result of each operation"],
  note="All operation sequences to the stated depth, from an empty pool and from one with three pages, each ending with all pages read back and every frame reused.")
P("C12", "Concurrent buffer pool users never lose an update, a pin or a frame",
  "When several threads fetch, change, create, flush, batch-load and delete pages at the same time in a pool smaller than the pages they use, they all see one copy of each page: every change made under a guard is in the page afterwards, also after the page was evicted and read again, no thread's pinned page is evicted or deleted, no frame is lost, and no interleaving deadlocks.",
  ["schedules"], "every interleaving within the preemption bound of 2-3 threads with 1-2 operations each on a pool of 1-2 frames",
  "Tests run a few threads whose timing hardly varies and mostly on resident pages.",
  ["src/buffer/buffer_pool_manager_async.rs", "src/buffer/lru_k_replacer.rs", "src/storage/page/page_guard.rs"],
  [("residency and pin bookkeeping", "src/buffer/buffer_pool_manager_async.rs BufferPoolManager"), ("dirty tracking while flushing", "src/buffer/buffer_pool_manager_async.rs write_page_to_disk_async, flush_dirty_pages_batch_async")],
  ["page contents after all threads finished and after every frame was reused", "free list and page table sizes", "deadlock or panic of any schedule"], technique=SCHED,
  note="All schedules up to the preemption bound; a disk operation counts as one step.")
P("C13", "The LRU-K replacer always evicts the frame its policy names",
  "The eviction victim is always an evictable frame: one with fewer than k recorded accesses if there is any (fewest accesses first, then earliest first access), otherwise the one whose k-th most recent access is oldest. Non-evictable and removed frames are never chosen, and the evictable count is exact.",
  ["histories"], "every sequence of access, set-evictable, remove and evict operations over 2-4 frames for k = 1..3",
  "Tests follow a few scripted traces; stale or tied bookkeeping only shows on particular long histories.",
  ["src/buffer/lru_k_replacer.rs"],
  [("access history and k-distance", "src/buffer/lru_k_replacer.rs LRUKReplacer::evict/record_access")],
  ["LRUKReplacer::evict return value", "total_evictable_frames, total_frames"],
  note="All operation sequences to the stated depth from an empty and a full replacer, each drained at the end.")
P("C14", "Caches return what was stored last and evict the entry their policy names",
  "Each page cache returns the value stored last for a key or nothing, never holds more than its capacity, and when full drops exactly the entry its policy names: the oldest (FIFO), least recently used (LRU), least frequently used (LFU), or the one whose k-th most recent access is oldest (LRU-K). Its peek, pop and remove operations agree with that order, and the tiered cache never serves older content from any tier after a store.",
  ["histories", "configurations"], "every sequence of insert, get, remove, touch, pop, peek and clear operations for capacities 0 to 3 with one more key than fits, for every policy, and every store/get sequence on the tiered cache",
  "Tests follow scripted traces with one eviction order each; ties, stale counters and re-insertions only show on particular histories.",
  ["src/storage/disk/async_disk/cache/fifo.rs", "src/storage/disk/async_disk/cache/lru.rs", "src/storage/disk/async_disk/cache/lfu.rs", "src/storage/disk/async_disk/cache/heap_lfu.rs", "src/storage/disk/async_disk/cache/lru_k.rs", "src/storage/disk/async_disk/cache/cache_manager.rs"],
  [("eviction policies", "src/storage/disk/async_disk/cache/*.rs"), ("promotion between tiers", "src/storage/disk/async_disk/cache/cache_manager.rs")],
  ["CoreCache insert/get/contains/len", "pop_/peek_ victims and remove results", "CacheManager::get_page after store_page"],
  note="All operation sequences to the stated depth per policy and capacity, from an empty and a full cache, each drained at the end.")
P("C15", "The disk manager reads back the last write of every page",
  "Reading a page, alone or in a batch, returns exactly what was last written to it, whatever the caching, staging, flushing, compression and scheduling configuration, and batch results come in the order asked for. Contents written before a successful flush or shutdown survive a restart, and a page that was never flushed has, after a restart, one of the contents written to it, never a mixture.",
  ["histories", "configurations", "crash_points"], "every sequence of write, batch write, read, batch read, flush, restart and crash operations over three pages, for eleven configurations (cached, staged, flushed by threshold, scheduled, compressed, direct and buffered, and the default one)",
  "Tests write a page and read it back on one configuration; staleness needs particular sequences of write, cache hit, flush threshold and restart.",
  ["src/storage/disk/async_disk/manager.rs", "src/storage/disk/async_disk/scheduler.rs", "src/storage/disk/async_disk/cache/cache_manager.rs", "src/storage/disk/async_disk/memory/write_manager.rs", "src/storage/disk/async_disk/io/io_impl.rs"],
  [("write staging and flushing", "src/storage/disk/async_disk/memory"), ("cache in front of the file", "src/storage/disk/async_disk/cache/cache_manager.rs"), ("scheduled I/O", "src/storage/disk/async_disk/scheduler.rs")],
  ["AsyncDiskManager::read_page/read_pages_batch after write_page/write_pages_batch", "contents after reopening the database file"],
  note="All operation sequences to the stated depth per configuration; a crash keeps what reached the file and loses the staging buffer.")
P("C16", "I/O requests are served by priority and each ends exactly once",
  "The I/O request queue always hands out the most urgent request, the earliest submitted one among equals; the priority scheduler does so per class, and the work-stealing scheduler hands out every task exactly once. An operation tracked by the completion tracker ends exactly once, with its own result, failure, timeout or cancellation, and everyone who waits for it, alone or among several, before or after, is told that outcome and not before; counts and statistics agree. Log appends, overwrites and reads and page reads and writes by the engine act on exactly the bytes asked for, also several at once and across stopping and starting; requests cleared from the queue end with an error.",
  ["histories", "configurations"], "every sequence of operations on the request queue, the schedulers, the completion tracker with up to three operations and several waiters, and the I/O engine with 1 and 3 workers",
  "Tests submit a few requests in one order; lost wakeups and wrong orders need particular mixes of priorities, waiters and endings.",
  ["src/storage/disk/async_disk/io/queue.rs", "src/storage/disk/async_disk/io/completion.rs", "src/storage/disk/async_disk/io/operation_status.rs", "src/storage/disk/async_disk/io/operations.rs", "src/storage/disk/async_disk/io/worker.rs", "src/storage/disk/async_disk/io/executor.rs", "src/storage/disk/async_disk/io/io_impl.rs", "src/storage/disk/async_disk/scheduler.rs"],
  [("request order", "src/storage/disk/async_disk/io/operations.rs Ord for IOOperation"), ("operation states and notification", "src/storage/disk/async_disk/io/completion.rs CompletionTracker"), ("file access", "src/storage/disk/async_disk/io/executor.rs IOOperationExecutor")],
  ["IOQueueManager::dequeue_operation/drain_queue", "PriorityTaskScheduler::get_next_task, WorkStealingScheduler::try_steal_work", "CompletionTracker::wait_for_operation(s), get_operation_stats, receivers", "AsyncIOEngine results"],
  note="All operation sequences to the stated depth per part; waiters are polled after every step.")
P("C17", "Table heaps keep every row at its location with its newest contents",
  "After any sequence of inserts, updates, deletes and metadata changes on a table heap, every live row is found at the location its insertion returned, with the contents and metadata stored last; a deleted row is neither returned nor updated; a row of another transaction that has not committed is not changed; a row that does not fit on a page is refused and changes nothing. A scan returns every live row exactly once, in order, with its location, and everything is the same after a durable flush and reopening, and on a pool smaller than the table.",
  ["histories", "configurations"], "every sequence of insert, update, delete, commit-metadata and restart operations with rows of four sizes, on pools of 3 and 20 frames; every sequence of fill and grow operations on one page",
  "Tests insert a few rows of one size; overlapping or lost rows need particular mixes of sizes, growth and page boundaries.",
  ["src/storage/table/table_heap.rs", "src/storage/table/table_iterator.rs", "src/storage/table/tuple.rs", "src/storage/page/page_types/table_page.rs"],
  [("slotted page", "src/storage/page/page_types/table_page.rs TablePage"), ("page chain and in-place update", "src/storage/table/table_heap.rs TableHeap"), ("scan", "src/storage/table/table_iterator.rs TableScanIterator")],
  ["TableHeap::get_tuple, insert_tuple_from_values, update_tuple, update_tuple_meta results", "TableScanIterator::next", "TablePage after to_bytes/set_data"],
  note="All operation sequences to the stated depth from an empty heap and from one of several pages, everything compared after every step.")
P("C19", "The disk B+ tree index behaves like a sorted map",
  "After any sequence of insertions (a present key gets the new value) and removals by one user at a time, in a pool that holds the whole tree, through the plain or the latch-crabbing operations and for every order of at least 3, the tree holds exactly the right keys with their values: searches, range scans with both ends included, the traversal, the key count and emptiness agree with it, removals report whether the key was there, the tree stays balanced, its own validation passes, and no page stays pinned.",
  ["histories", "configurations"], "every sequence of insert and remove operations for orders 3-5 from empty and multi-level trees; every insertion order followed by every removal order",
  "Tests insert and remove in a few fixed orders; lost children after a split, merge or redistribution only show for particular shapes and later operations.",
  ["src/storage/index/b_plus_tree_index.rs", "src/storage/page/page_types/b_plus_tree_leaf_page.rs", "src/storage/page/page_types/b_plus_tree_internal_page.rs", "src/storage/index/latch_crabbing.rs"],
  [("splitting", "src/storage/index/b_plus_tree_index.rs split_leaf_page, split_internal_page, create_new_root"), ("merging and redistribution", "src/storage/index/b_plus_tree_index.rs check_and_handle_underflow, merge_*, redistribute_*"), ("node contents", "src/storage/page/page_types/b_plus_tree_internal_page.rs, b_plus_tree_leaf_page.rs")],
  ["BPlusTreeIndex::search/range_scan/in_order_traversal/get_size/validate_tree results", "pin counts of the pool's pages"],
  note="All operation sequences to the stated depth, in a pool that holds the whole tree (reloading an evicted index page is not implemented in ferrite).")
P("C20", "The in-memory B+ tree index behaves like a sorted multimap",
  "After any sequence of insertions and deletions, for every order, the tree holds exactly the pairs that were inserted and not deleted: point lookups, full scans and range scans (both ends included) return exactly those in key order, deletions report whether the pair was there, inserting a pair twice is refused, and the structure stays balanced with correct separators. An iterator returns its range once and in order, ends after it, and can be reset or moved.",
  ["histories", "configurations"], "every sequence of insert and delete operations for orders 3-5, with unique and duplicate keys, from empty and multi-level trees; every insertion order followed by every deletion order",
  "Tests insert and delete in a few fixed orders; wrong separators after a merge or redistribution only show for particular shapes and later lookups.",
  ["src/storage/index/b_plus_tree.rs", "src/storage/index/index_iterator_mem.rs"],
  [("insertion and splitting", "src/storage/index/b_plus_tree.rs insert, insert_non_full, split_child"), ("deletion, merging and redistribution", "src/storage/index/b_plus_tree.rs delete, rebalance_after_delete, merge_*, borrow_*"), ("iteration", "src/storage/index/index_iterator_mem.rs IndexIterator")],
  ["scan_key/scan_range/scan_full results", "IndexIterator::next"],
  note="All operation sequences to the stated depth, and all pairs of insertion and deletion order of n keys, checked after every step.")
P("C21", "The disk hash table behaves like a map",
  "After any sequence of insertions and removals of distinct keys, for any maximal directory depth and bucket size, a lookup returns exactly the location stored for the key, or nothing if it is not there. An insertion is refused only when the bucket of the key cannot be split any further and is full; it then changes nothing. A removal reports whether the key was there and makes room again. No page stays pinned.",
  ["histories", "configurations"], "every sequence of insert and remove operations over keys chosen by their low hash bits, for directory depths 0-4 and bucket sizes 1-3; every insertion order followed by removal orders",
  "Tests insert keys with whatever hash they happen to have; splits that cascade, share a bucket or meet a full directory need particular hash patterns.",
  ["src/container/disk_extendable_hash_table.rs", "src/storage/page/page_types/extendable_hash_table_bucket_page.rs", "src/storage/page/page_types/extendable_hash_table_directory_page.rs", "src/storage/page/page_types/extendable_hash_table_header_page.rs"],
  [("bucket splitting and directory growth", "src/container/disk_extendable_hash_table.rs"), ("bucket contents", "src/storage/page/page_types/extendable_hash_table_bucket_page.rs")],
  ["DiskExtendableHashTable::insert/remove/get_value", "pin counts of the pool's pages"],
  note="All operation sequences to the stated depth from an empty and a full table, each emptied and refilled at the end.")
P("C22", "Values compare, order, hash, compute and convert consistently",
  "Comparing two values (equal, not equal, less, greater, and their inclusive forms) gives NULL exactly if either is NULL, and otherwise the answer for the numbers, texts, times or truth values they stand for, also between different numeric types; the six comparisons agree with each other, with ==, with the order used for sorting (which is transitive) and with the hash: equal values hash alike. Arithmetic gives the mathematical result in the type of the operands, or an error if it does not fit or divides by zero. A cast gives the same number or text in the target type, or an error if it does not fit. Nothing panics.",
  ["inputs"], "every pair and triple of a universe of about 450 values of all types: all 8-bit integers, the boundaries of the other integers, decimals and floats around every boundary, infinities, NaN, texts, NULLs; every value cast to every type",
  "Tests compare a few values of each type; wrong results sit at range boundaries and at particular combinations of two types, and hash or order agreement is a statement about all pairs and triples.",
  ["src/types_db/value.rs", "src/types_db/integer_type.rs", "src/types_db/bigint_type.rs", "src/types_db/decimal_type.rs", "src/types_db/float_type.rs", "src/types_db/varlen_type.rs", "src/types_db/boolean_type.rs"],
  [("comparison, arithmetic and casts per type", "src/types_db/*_type.rs Type impls"), ("order, equality, hash, conversions", "src/types_db/value.rs")],
  ["Type::compare_*", "Value::partial_cmp, ==, Hash", "Type::add/subtract/multiply/divide/modulo", "Value::cast_to", "Value::as_*"],
  note="Integers of more than 53 bits against floating point, and text of different types, are left out; see DESIGN.md.")
P("C24", "SQL expressions evaluate to what SQL says",
  "An expression over the columns of a row evaluates to what the rules of SQL say: arithmetic in the wider type of its operands with overflow and division by zero an error; comparisons by value; AND, OR, NOT in three-valued logic; IS [NOT] NULL/TRUE/FALSE/UNKNOWN and IS [NOT] DISTINCT FROM never NULL; [NOT] BETWEEN and [NOT] IN unknown exactly if a NULL leaves them undecided; CASE takes the first branch whose condition holds; COALESCE the first value that is not NULL; [NOT] LIKE and ILIKE match %, _ and escaped characters; casts; unary minus. It gives the same result in a join condition, for columns of either side, and after being cloned with its own children. Nothing panics.",
  ["inputs", "programs"], "every expression of the stated shapes (operators of every kind one or two deep) over 9 columns and boundary constants, on every row of boundary values of the columns used, evaluated alone and split over a join; every LIKE pattern to length 4-5 against every text to length 3-4",
  "Tests evaluate each kind of expression on a few rows without NULLs; NULL handling, mixed types, the order of operands and the separate code for joins only show in combinations.",
  ["src/sql/execution/expressions/arithmetic_expression.rs", "src/sql/execution/expressions/comparison_expression.rs", "src/sql/execution/expressions/logic_expression.rs", "src/sql/execution/expressions/case_expression.rs", "src/sql/execution/expressions/in_expression.rs", "src/sql/execution/expressions/between_expression.rs", "src/sql/execution/expressions/like_expression.rs", "src/sql/execution/expressions/is_check_expression.rs", "src/sql/execution/expressions/is_distinct_expression.rs", "src/sql/execution/expressions/coalesce_expression.rs", "src/sql/execution/expressions/unary_op_expression.rs", "src/sql/execution/expressions/binary_op_expression.rs", "src/sql/execution/expressions/cast_expression.rs", "src/sql/execution/expressions/abstract_expression.rs"],
  [("evaluation of each kind of expression", "src/sql/execution/expressions/*_expression.rs evaluate, evaluate_join, clone_with_children"), ("dispatch", "src/sql/execution/expressions/abstract_expression.rs")],
  ["Expression::evaluate", "Expression::evaluate_join"],
  note="The reference evaluator is written from the rules of SQL; where an operand is an error that another operand makes irrelevant, either outcome is accepted. Arithmetic with a NULL operand is an error in this code (its tests say so).")
P("C25", "A join returns exactly the pairs its definition says",
  "A join executed by nested loops or by hashing returns, for any two inputs, exactly the combinations of a left and a right row for which the condition is true, each as often as it occurs, also with duplicate rows, duplicate and NULL keys, keys of different numeric types, several keys, empty inputs, further conditions beside the keys, and inputs computed by other operators, such as another join. LEFT, RIGHT and FULL OUTER joins add every row of the preserved sides that has no match once, padded with NULLs; CROSS joins return all pairs. Once it has ended it stays ended.",
  ["inputs", "programs"], "every pair of tables of up to 3-4 rows over 4-5 rows including NULLs and duplicates, times 8 join types, 6 conditions, both implementations, and inputs with and without row locations; every join of three tables of up to 2 rows with 3x3 join types",
  "Tests join a few tables with distinct keys and all rows present on both sides; duplicates, NULLs, empty sides and computed inputs are the combinations that differ.",
  ["src/sql/execution/executors/nested_loop_join_executor.rs", "src/sql/execution/executors/hash_join_executor.rs", "src/sql/execution/plans/nested_loop_join_plan.rs", "src/sql/execution/plans/hash_join_plan.rs"],
  [("nested loops and outer padding", "src/sql/execution/executors/nested_loop_join_executor.rs NestedLoopJoinExecutor, JoinTypeHandler, JoinState"), ("build and probe", "src/sql/execution/executors/hash_join_executor.rs HashJoinExecutor")],
  ["rows returned by the executor of the plan, as a multiset"],
  note="Every combination within the bounds is executed on the real executors and compared with the definition of a join. Semi, anti and as-of joins are not supported by ferrite and not checked.")
P("C26", "Query operators compute what SQL defines, on every input",
  "Filters, projections, sorting, LIMIT and OFFSET, DISTINCT, top-n and top-n per group, grouping with COUNT, SUM, MIN, MAX and AVG, ROW_NUMBER and VALUES, alone and on top of each other, return a result their definitions allow for their input: the right rows, as often as they occur, in the order asked for where one is. NULL is neither equal to nor less than anything in a filter, one value of its own for DISTINCT and GROUP BY, first in ascending order, and skipped by aggregates except COUNT(*); no two different rows are taken for equal. Without groups an aggregation of nothing is one row. An overflow or a failing projection is an error of the whole query, unless LIMIT ends it before. EXPLAIN of a plan always ends.",
  ["inputs", "programs"], "every table of up to 3-5 rows over three domains (types, NULLs, duplicates, extreme values) under each of 40 operators, all pipelines of two and of three of them that fit",
  "Tests run each operator on one convenient table; NULL keys, ties, colliding encodings, overflow and operators fed by other operators are combinations nobody writes by hand.",
  ["src/sql/execution/executors/filter_executor.rs", "src/sql/execution/executors/projection_executor.rs", "src/sql/execution/executors/sort_executor.rs", "src/sql/execution/executors/limit_executor.rs", "src/sql/execution/executors/offset_executor.rs", "src/sql/execution/executors/distinct_executor.rs", "src/sql/execution/executors/topn_executor.rs", "src/sql/execution/executors/topn_per_group_executor.rs", "src/sql/execution/executors/aggregation_executor.rs", "src/sql/execution/executors/window_executor.rs", "src/sql/execution/executors/values_executor.rs", "src/sql/execution/plans/abstract_plan.rs"],
  [("executors", "src/sql/execution/executors/*_executor.rs init, next"), ("EXPLAIN", "src/sql/execution/plans/abstract_plan.rs explain_internal")],
  ["rows and errors returned by the executor of the plan", "PlanNode::explain"],
  note="The reference computes the set of all results the definitions allow (ties and unordered results leave several). SUM of nothing may be NULL or 0 (the code leaves it open). Failing filter conditions (documented to drop the row) and HAVING are not checked, and window functions other than ROW_NUMBER are not supported by ferrite.")

P("C27", "Every access path returns exactly the rows a transaction sees",
  "A sequential scan, an index scan through any index under any predicates, and the inner side of a nested index join return exactly the rows of the table that the transaction sees and that satisfy the predicates, each once: the same rows whichever path is taken, whether the index has one column or several, was made before or after the rows, and whatever inserts, updates and deletes were committed, aborted or are still running since. That holds for a new transaction, for one with an older repeatable-read snapshot, and for the one making the changes. Predicates may combine comparisons of any columns with AND, OR and NOT, with the constant on either side, and with NULLs in the keys. A table scan does so for the committed content.",
  ["histories", "programs", "inputs"], "tables of up to 5 rows, followed by up to two inserts, updates or deletes each committed, aborted or still running, for every kind of index and moment of its creation, read by three kinds of reader through every access path under every predicate of a set built by AND, OR and NOT",
  "Tests scan a freshly built index by one two-sided range; what an index lacks after an update, an abort or a delete seen by an older snapshot only shows when the paths are compared after every history.",
  ["src/sql/execution/executors/seq_scan_executor.rs", "src/sql/execution/executors/index_scan_executor.rs", "src/sql/execution/executors/nested_index_join_executor.rs", "src/sql/execution/executors/create_index_executor.rs", "src/sql/execution/executors/table_scan_executor.rs", "src/storage/table/table_iterator.rs", "src/catalog/database.rs"],
  [("executors", "src/sql/execution/executors/*_scan_executor.rs"), ("index upkeep", "src/catalog/database.rs, insert_executor.rs, update_executor.rs")],
  ["rows returned by the executors of SeqScan, IndexScan, TableScan and NestedIndexJoin plans"],
  note="TableScan has no transaction and is checked on committed content only. Nested index joins are inner joins in ferrite whatever their type says.")

P("C28", "Inserts, updates and deletes do what they say, and count it",
  "INSERT, UPDATE and DELETE change a table exactly as they say: every row their transaction sees that satisfies the condition is changed or removed, once, by values computed from the row as it was before the statement (also when the statement inserts into or moves rows of the table it reads, or swaps columns), no other row is touched, and the count returned is the number of rows changed. Their own transaction sees the outcome at once, others after commit, older snapshots and everyone after an abort see none of it. Inserted values go to the columns they are meant for, by name where all names of the source are columns of the table and by position otherwise, columns left out become NULL, values are cast to the types of the columns, and an inserted row that refers to a parent row by a foreign key is accepted exactly if the reference is NULL or such a row is visible.",
  ["histories", "programs", "inputs"], "every history of 4 (thorough 5) statements, commits and aborts out of 14 over a table of two rows, read by the transaction, by a new one and by an older snapshot after every step; every source of up to 3 (4) columns, names and types into a table of four columns; every history of 3 (5) changes to a parent and a child table",
  "Tests run one statement on a fresh table; statements that read what they write, changes on top of the same transaction's changes, and what others see meanwhile come from histories.",
  ["src/sql/execution/executors/insert_executor.rs", "src/sql/execution/executors/update_executor.rs", "src/sql/execution/executors/delete_executor.rs", "src/storage/table/transactional_table_heap.rs", "src/sql/planner/schema_manager.rs"],
  [("executors", "src/sql/execution/executors/{insert,update,delete}_executor.rs"), ("versions and undo", "src/storage/table/transactional_table_heap.rs"), ("mapping of columns", "src/sql/planner/schema_manager.rs map_values_to_schema")],
  ["counts returned by the statements", "rows returned by scans of three transactions after every step"],
  note="NOT NULL, CHECK, PRIMARY KEY and UNIQUE are switched off in ferrite itself, DEFAULT values are on its roadmap, foreign keys are enforced on insert only; none of that is claimed. A cast that fails on insert stores NULL, as documented.")

P("C29", "Optimising and converting a plan does not change its results",
  "For every logical plan, the rows (and the order, where the plan asks for one) and the errors that its executable form returns are those the logical operators define; they are the same whether the plan is optimised or not and whichever options the optimiser is given (pushing down predicates, index scans, hash joins, top-n, early pruning); no supported plan is refused, and optimising and converting always end.",
  ["programs", "inputs", "configurations"], "every pipeline of up to three of 20 logical operators over every small table (3 columns, NULLs, duplicates) with no index or one on each column, and pipelines over joins of two tables under 12 conditions and 4 join types, each not optimised and optimised under every set of options; termination asked in a process of its own for every kind of join condition",
  "Tests look at the shape of a few optimised plans; a wrong rewrite shows in the result of a particular combination of operators, names, order and options.",
  ["src/sql/optimizer/optimizer_impl.rs", "src/sql/planner/logical_plan.rs", "src/sql/execution/plans/abstract_plan.rs"],
  [("rules", "src/sql/optimizer/optimizer_impl.rs"), ("conversion", "src/sql/planner/logical_plan.rs PlanConverter, extract_join_keys, bind_join_columns")],
  ["rows and errors of executing to_physical_plan() of the plan and of optimize(plan)", "termination of to_physical_plan"],
  note="The reference is the one of C26 (sets of allowed results) on top of the definition of a join. Semi and anti joins have no executor; a join whose condition is a constant is refused by the optimiser's validation, as documented.")

P("C31", "Text and rounding functions compute what SQL says",
  "SUBSTRING, OVERLAY, POSITION, TRIM, UPPER and LOWER work on characters, whatever their encoding, for every text, position and length, including those before the beginning, behind the end and at the limits of their types; SIMILAR TO and the regular expression operators match what their pattern says; CEIL and FLOOR of a number give the nearest multiple of the scale's unit on their side, which is the number itself if it is one, and of a time stamp the nearest beginning of a second, minute, hour, day, month or year on their side. A NULL argument makes the result NULL, arguments that are not allowed are errors, and the result is the same for constants, columns, and columns of either side of a join.",
  ["inputs", "programs"], "every text of up to 3-6 characters of alphabets with 1- to 3-byte characters, NULL, every position and length from -7 to 7 and at the limits of the integer types; every decimal of -1200..1200 (thorough -30000..30000) at four scales rounded to nine; a dozen time stamps around each month from 1970 to 2197; each with arguments as constants, as columns and as columns of either side of a join",
  "Tests call each function on a few ASCII texts and numbers; characters of several bytes, limits, exact multiples and leap years are single points of large domains.",
  ["src/sql/execution/expressions/substring_expression.rs", "src/sql/execution/expressions/overlay_expression.rs", "src/sql/execution/expressions/position_expression.rs", "src/sql/execution/expressions/trim_expression.rs", "src/sql/execution/expressions/string_expression.rs", "src/sql/execution/expressions/function_expression.rs", "src/sql/execution/expressions/regex_expression.rs", "src/sql/execution/expressions/ceil_floor_expression.rs"],
  [("evaluation", "src/sql/execution/expressions/{substring,overlay,position,trim,string,function,regex,ceil_floor}_expression.rs evaluate, evaluate_join, clone_with_children")],
  ["Expression::evaluate", "Expression::evaluate_join", "Expression::clone_with_children"],
  note="Position 0 is the beginning and negative positions count from the end in SUBSTRING, as its comments say. Of SIMILAR TO only %, _ and escapes are checked, of regular expressions only literals (the rest is the regex crate).")

P("C30", "The catalog finds what was created, and rebuilds all of it",
  "Databases, tables and indexes are found under the names, identifiers and layouts they were created with, in their own database and nowhere else; creating what exists, or a foreign key to a table or column that does not exist, is refused and changes nothing; identifiers are unique; every table keeps exactly the rows committed to it, whatever its number of pages and whatever happens to other tables; an index belongs to one table and answers for its committed rows. Rebuilding the catalog from its system tables over the same pages gives the same databases' tables with the same layouts, identifiers and rows, and what is created or inserted afterwards collides with nothing from before.",
  ["histories"], "every history of 3 (thorough 4) of 19 steps from an empty catalog and of steps after prepared states (tables in two databases, tables of several pages, indexes, aborted inserts), each asked for everything after every step; every history of 3 (4) of 12 steps with rebuilding in it",
  "Tests create a table and look it up; collisions, refusals without residue and rebuilding depend on the order of several steps and on the number of pages.",
  ["src/catalog/catalog_impl.rs", "src/catalog/database.rs", "src/catalog/system_catalog.rs", "src/sql/execution/executors/create_table_executor.rs", "src/storage/table/table_heap.rs"],
  [("names and identifiers", "src/catalog/database.rs create_table, create_index; src/catalog/catalog_impl.rs create_database, use_database"), ("rebuilding", "src/catalog/catalog_impl.rs rebuild_from_system_catalog, src/catalog/database.rs, src/storage/table/table_heap.rs reopening a heap")],
  ["get_table, get_table_by_oid, get_table_schema, get_table_indexes, get_all_tables", "rows returned by scans of every table", "outcome of every statement"],
  note="Rebuilding happens within one catalog, as its function does: ferrite has no way of opening the system tables of an earlier process (Catalog::new makes new ones). Indexes are not rebuilt (documented).")

P("C32", "Statements of concurrent sessions end and agree with each other",
  "Whatever statements sessions run at the same time (queries that make the optimizer create indexes for keys, inserts, updates, deletes, CREATE TABLE, CREATE INDEX, rows with foreign keys), all of them end; every statement returns rows that were committed or its own, and a count that fits; afterwards the table holds exactly what the statements that succeeded put there, whatever was refused or given up left nothing, every index of the table, also one created meanwhile, finds exactly the rows of the table, and the catalog has one table and one index of every name.",
  ["schedules"], "every interleaving, within 1-2 (thorough 2-3) preemptions at locks, atomics and page latches, of whole statements of two or three sessions in the scenarios listed in the evidence",
  "Tests run statements one after the other; deadlocks between catalog and table locks and rows missing from an index being built need one particular switch inside two statements.",
  ["src/sql/optimizer/optimizer_impl.rs", "src/sql/execution/executors/insert_executor.rs", "src/sql/execution/executors/update_executor.rs", "src/sql/execution/executors/delete_executor.rs", "src/sql/execution/executors/create_index_executor.rs", "src/sql/execution/executors/create_table_executor.rs", "src/catalog/database.rs"],
  [("index upkeep", "src/sql/execution/executors/{insert,update,delete}_executor.rs, src/catalog/database.rs create_index"), ("locks of catalog and table", "src/sql/optimizer/optimizer_impl.rs, src/sql/execution/executors/*.rs")],
  ["results of the statements", "scans and index lookups after the sessions ended", "get_table_indexes"],
  note="CREATE TABLE and CREATE INDEX may fail with a message while the catalog is locked by others (documented 'lock contention'); then they must leave nothing. At read committed an UPDATE may overwrite what another transaction committed after it was scanned (allowed at that level).")

P("C23", "Rows, schemas and messages survive being encoded and decoded",
  "A value, row, column definition, schema, row location or message of the server's protocol that is encoded reads back equal in every part, whatever it holds (limits, empty and long texts, special floats, NULLs of every type, nested values, names with dots, blanks and characters of several bytes); encoding into a buffer that is too small and decoding what was cut off anywhere are refused and never panic. Columns chosen from a schema, two schemas put together, and columns looked up by plain or qualified name are the ones that were asked for.",
  ["inputs"], "every value of the boundary universe of C22 plus nested values and lengths at the limits of the length encoding; every row of up to 3 of them at every buffer size and every truncation (pairs and triples thinned in quick); every column definition of the listed names, types, flags and foreign keys; every schema of up to 3 of a pool of columns with every selection, pair and looked up name; every message of the protocol with every payload",
  "Tests encode a handful of rows; the failing input is one value at one position with one buffer size.",
  ["src/storage/table/tuple.rs", "src/catalog/column.rs", "src/catalog/schema.rs", "src/common/rid.rs", "src/server/protocol.rs", "src/types_db/value.rs"],
  [("encoding", "src/storage/table/tuple.rs serialize_to, deserialize_from; serde of values, columns, schemas and messages"), ("schemas", "src/catalog/schema.rs copy_schema, merge, merge_with_aliases, get_column_index, get_qualified_column_index")],
  ["values and names read back", "errors of truncated input"],
  note="Of a schema made with copy_schema only names and types are claimed (its length, unlined columns and keys stay those of the source, which upstream tests pin).")

P("C33", "Date and time expressions follow the calendar",
  "DATE_TRUNC, DATE_PART, EXTRACT, MAKE_DATE, MAKE_TIME, MAKE_TIMESTAMP, adding and subtracting durations of fixed length, the literals DATE, TIME and TIMESTAMP, INTERVAL and AT TIME ZONE give what the Gregorian calendar and the zone's rules say, on every day including leap days and the turns of months, years and centuries, for texts with and without zone, time stamps and columns of either side of a join. Parts that form no date or time are refused, NULL gives NULL, and what leaves the range of the result is an error, never a panic or a wrapped number.",
  ["inputs"], "every day of 2019-2024 (thorough 1890-2119) and the first and last days of every month of 16 years around centuries, leap years and the limits of time stamps (thorough: every year 1602-2399), at the first, middle and last second, under every operation and field; every combination of 10 years, months -1..14, days -1..33 and times around their limits for making; hours around the changes of summer time for four zones; limits of the integer types as arguments",
  "Tests call each function on two or three dates; first days of quarters, decades, weeks over the turn of the year and leap days are single points of the calendar.",
  ["src/sql/execution/expressions/datetime_expression.rs", "src/sql/execution/expressions/extract_expression.rs", "src/sql/execution/expressions/at_timezone_expression.rs", "src/sql/execution/expressions/interval_expression.rs", "src/sql/execution/expressions/typed_string_expression.rs"],
  [("evaluation", "src/sql/execution/expressions/{datetime,extract,at_timezone,interval,typed_string}_expression.rs evaluate, evaluate_join, clone_with_children")],
  ["Expression::evaluate", "Expression::evaluate_join", "Expression::clone_with_children"],
  note="Centuries begin with years divisible by 100 and weeks on Monday, as the code does. Months and years in durations are documented approximations, and neither they, nor differences of time stamps, nor time stamps before 1970 as TIMESTAMP values are claimed.")

P("C18", "Arrays, quantified comparisons and subquery results mean what SQL says",
  "A comparison with ANY, SOME or ALL of a list and IN or NOT IN a list, array or subquery result follow three-valued logic whatever the order of NULLs in it; a subscript finds the element it counts to from either end and is refused outside the list, a range gives the elements between its bounds; ARRAY and STRUCT hold their elements in order; a key or index finds the member of a list or document it names, through every level; a scalar subquery gives its only value, of whatever type, EXISTS tells whether there is one; CONVERT and its TRY form give the cast value or refuse it; WHERE keeps exactly what is true; literals have the value that is written. All of that for constants, columns and columns of either side of a join, and after the optimizer rebuilt the expression from its children; nothing panics or wraps at the limits of the types.",
  ["inputs"], "every list of up to 3 (thorough 4) elements over five domains with NULLs under every operator and left side; lists of up to 5 (8) under every index of every integer type and every pair of range bounds around them and at the types' limits; every document of depth 2 under every path of up to 3 keys; every pair of values in arrays, structs, subqueries, conversions; literals around every type's limits",
  "Tests evaluate one list per operator; the order of NULLs, absent bounds, wide indices and rebuilt expressions are points of a product of domains.",
  ["src/sql/execution/expressions/any_expression.rs", "src/sql/execution/expressions/all_expression.rs", "src/sql/execution/expressions/in_expression.rs", "src/sql/execution/expressions/subscript_expression.rs", "src/sql/execution/expressions/map_access_expression.rs", "src/sql/execution/expressions/subquery_expression.rs", "src/sql/execution/expressions/exists_expression.rs", "src/sql/execution/expressions/array_expression.rs", "src/sql/execution/expressions/struct_expression.rs", "src/sql/execution/expressions/method_expression.rs", "src/sql/execution/expressions/convert_expression.rs", "src/sql/execution/expressions/filter_expression.rs", "src/sql/execution/expressions/literal_value_expression.rs"],
  [("evaluation", "src/sql/execution/expressions/{any,all,in,subscript,map_access,subquery,exists,array,struct,method,convert,filter,literal_value}_expression.rs evaluate, evaluate_join, clone_with_children")],
  ["Expression::evaluate", "Expression::evaluate_join", "Expression::clone_with_children"],
  note="A range whose end lies behind the list is empty, NULL IN an empty list is NULL, and a NULL list or subscript is refused, as tests and comments say or leave open; a text found inside a document may itself be read as one.")

P("C34", "Every part of the page write path does what its callers count on",
  "Decompressing what was compressed gives the same bytes, whatever they are and whatever the algorithm. The staging buffer holds for every page the bytes last staged, refuses exactly what would make it grow beyond its limit and then changes nothing, gives everything out once when drained, and takes back pages whose write failed without overwriting newer ones; its sizes and counts are those of what it holds. The coalescing engine keeps the newest bytes of a page, drops the oldest pages above its limit and all pages older than its window at a cleanup, and finds exactly the neighbours and runs of neighbours of a page, also at the ends of the page numbers. Each durability level makes exactly the syncs it promises, the log before the data, reports failures, and counts only syncs that happened. Aligned file access reads and writes exactly the asked bytes at the asked place, wherever the caller's memory lies, and refuses what direct I/O cannot do without touching the file.",
  ["inputs", "histories", "fault_sequences"], "every byte string of up to 5 (thorough 6) of eight telling bytes, and pages of every repeated byte and of patterns of pairs, under each algorithm; every history of 5 (6) of the operations of a staging buffer under four limits and of a coalescing engine, empty and filled (4, 5); every subset of 10 (13) neighbouring page numbers at the beginning, middle and end of their range; every durability level, policy, pair of batches and failing sync; every combination of 12 offsets, 11 sizes, 4 memory positions and 8 configurations of file access",
  "Tests compress a text, stage two pages and read one aligned block; the bytes that look like a marker, overwriting by something shorter, restoring after a failure and unaligned ends are points nobody samples.",
  ["src/storage/disk/async_disk/compression.rs", "src/storage/disk/async_disk/memory/write_staging_buffer.rs", "src/storage/disk/async_disk/memory/coalescing/engine.rs", "src/storage/disk/async_disk/memory/coalescing/size_analyzer.rs", "src/storage/disk/async_disk/memory/durability_manager.rs", "src/storage/disk/async_disk/memory/flush_coordinator.rs", "src/storage/disk/direct_io.rs"],
  [("compression", "src/storage/disk/async_disk/compression.rs compress_data, decompress_data"), ("staging and coalescing", "src/storage/disk/async_disk/memory/write_staging_buffer.rs, src/storage/disk/async_disk/memory/coalescing"), ("durability", "src/storage/disk/async_disk/memory/durability_manager.rs apply_durability"), ("aligned access", "src/storage/disk/direct_io.rs read_aligned, read_aligned_into, write_aligned")],
  ["CompressionEngine::decompress_data", "WriteStagingBuffer::get, drain_buffer, get_stats", "CoalescingEngine::pending_writes, get_stats, find_adjacent_pages", "calls of DurabilityProvider", "file contents after write_aligned"],
  note="Which page a cleanup drops early among equally good ones, and the estimate of the coalesced size, are not claimed; restoring may exceed the limit.")
