import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
R='include/recovery/'; D='include/index/disk/'; G='include/index/graph/diskann/'; PI='python/include/'

p('C01','An acknowledged mutation is durable in the write-ahead log',
 'Before an insert, upsert or delete on a durable index is acknowledged, its log record and its commit record have been completely written, flushed and synced to stable storage. If any of those writes or the sync fails, the caller receives an error and never an acknowledgement.',
 ['crash_points','fault_sequences','histories'],'every crash point after an acknowledgement and every failing write, flush or sync of a log append',
 'Tests append to a healthy filesystem and reread the file in the same boot; no test makes a write or fsync fail, or loses the page cache.',
 [R+'write_ahead_log.hpp','include/utils/platform_fs.hpp'],
 [('append_prepare/append_commit',R+'write_ahead_log.hpp'),('sync_file',"include/utils/platform_fs.hpp")])
p('C02','Mutations are logged before they are applied and committed only afterwards',
 'Every mutating operation of a durable index records its intent in the log before it changes any in-memory or stored state, and records the commit only after all of its state changes have succeeded. An operation that fails leaves no commit record, and the last committed sequence number advances only after the commit record is durable.',
 ['crash_points','programs','histories'],'every mutating entry point, every path through it (including exceptional ones) and every crash point on it',
 'The extension module that owns this protocol is not even built in the test environment, and tests exercise the success path of each operation only.',
 [PI+'index.hpp',R+'write_ahead_log.hpp'],
 [('PyIndex::insert/upsert/remove/remove_by_item_id',PI+'index.hpp')])
p('C03','Recovery replays exactly the committed mutations newer than the snapshot',
 'Recovery applies each mutation that has both its intent and its commit record and a sequence number strictly greater than the one the restored snapshot already contains, exactly once and in sequence order, and applies nothing else. A torn, truncated or corrupt record ends the usable log without losing the committed records before it, every kind of mutation that can be logged can be replayed from what was logged, and operations appended after such a recovery are themselves recoverable.',
 ['histories','crash_points','inputs'],'every log contents reachable by any history with a crash at any byte of the log',
 'Tests replay a few hand-written logs; the space of truncation points, interleaved pending records and mixed mutation kinds is unbounded.',
 [R+'write_ahead_log.hpp',R+'recovery_manager.hpp',PI+'index.hpp'],
 [('replayable_records','include/recovery/write_ahead_log.hpp'),('replay_record',PI+'index.hpp')])
p('C04','A checkpoint never leaves the index without a complete recoverable snapshot',
 'During a checkpoint the new snapshot data and its manifest are complete and durable before the pointer to it is switched; the log is discarded only after the pointer switch is durable; and old snapshots are removed only afterwards and never include the live one. A step that fails prevents all later steps.',
 ['crash_points','fault_sequences'],'every crash point and every failing step inside a checkpoint',
 'Tests run whole checkpoints without faults and without a crash between steps.',
 [R+'recovery_manager.hpp',R+'snapshot_manifest.hpp',PI+'index.hpp','include/storage/rocksdb_storage.hpp'],
 [('publish_snapshot',R+'recovery_manager.hpp'),('checkpoint_recovery_snapshot',PI+'index.hpp')])
p('C05','Pointer and manifest files are replaced atomically and durably',
 'A file that names the current state (snapshot pointer, snapshot manifest, collection manifest, segment manifest) is never modified in place: its new content is written completely to a temporary file, checked, synced, and only then renamed over the old one, after which the directory is synced. If writing or syncing fails, the old file is left untouched and the error is reported.',
 ['crash_points','fault_sequences'],'every crash point and every I/O failure while such a file is being updated',
 'No existing test injects an I/O failure or a crash between write and rename.',
 [R+'recovery_manager.hpp',D+'segment_manifest.hpp',D+'disk_collection.hpp','include/utils/platform_fs.hpp'],
 [('write_text_atomically',R+'recovery_manager.hpp'),('write_collection_manifest_atomic / write_segment_manifest',D+'segment_manifest.hpp'),('atomic_replace','include/utils/platform_fs.hpp')])
p('C06','A disk segment becomes visible only when complete and never overwrites another',
 'A disk segment is built in a private temporary directory and becomes visible under its final name only after all of its files, including its own manifest, have been completely written and synced; publishing never replaces an existing segment. If building fails at any point the temporary directory is removed, nothing is published, and the collection manifest never lists a segment that was not published.',
 ['crash_points','fault_sequences','histories'],'every failure or crash point while a segment is built, imported or published, for every segment engine',
 'Tests cover the success path and a handful of validation failures; no crash or I/O fault is injected between the steps.',
 [D+'disk_flat_builder.hpp',D+'vamana_segment_builder.hpp',D+'laser_segment_importer.hpp',D+'disk_collection.hpp'],
 [('DiskFlatBuilder::finish',D+'disk_flat_builder.hpp'),('VamanaSegmentBuilder::finish',D+'vamana_segment_builder.hpp'),('LaserSegmentImporter',D+'laser_segment_importer.hpp'),('DiskCollection::flush / import',D+'disk_collection.hpp')])
p('C07','A disk collection has at most one open owner',
 'Opening or creating a disk collection acquires an exclusive lock on a regular lock file (never through a symbolic link) before any of the collection\'s state is read or changed, verifies that the locked file is still the one at that path, fails if another owner holds it, and keeps the lock until the collection is destroyed. The lock and its descriptor are released on every failure path.',
 ['schedules','fault_sequences'],'every interleaving of two or more processes opening, creating and closing the same collection',
 'Tests open twice in one process in one fixed order.',
 [D+'disk_collection.hpp'],[('acquire_collection_lock_impl / LockFd',D+'disk_collection.hpp')])
p('C08','Written manifests can be read back and malformed ones are rejected',
 'Each field written to a snapshot, segment or collection manifest is parsed back into the same field by the reader, every field the reader requires is always written, and malformed text is rejected instead of being guessed: missing required fields, another format version, and numbers that are not plain in-range digits everywhere; unknown and repeated fields as well in segment and collection manifests (snapshot manifests skip lines they do not know, for forward compatibility).',
 ['inputs','programs'],'every manifest value and every byte string a manifest file may hold',
 'Round-trip tests use a few fixed manifests.',
 [R+'snapshot_manifest.hpp',D+'segment_manifest.hpp'],
 [('serialize_snapshot_manifest / deserialize_snapshot_manifest',R+'snapshot_manifest.hpp'),('write_segment_manifest/read_segment_manifest',D+'segment_manifest.hpp')])
p('C09','Saved binary state is loaded back field for field',
 'For every component that saves itself to a binary file or stream, loading reads exactly the fields that were written, in the same order, with the same widths and element counts, under the same conditions.',
 ['inputs','configurations'],'every configuration and content of each saved component',
 'Round-trip tests cover some components with small defaults; a field skipped on both default paths or swapped between equal-width fields is not noticed.',
 ['include/space/raw_space.hpp','include/space/sq8_space.hpp','include/space/sq4_space.hpp','include/space/rabitq_space.hpp','include/index/graph/graph.hpp','include/index/graph/overlay_graph.hpp','include/storage/sequential_storage.hpp',G+'slot_allocator.hpp',G+'tombstone_bitmap.hpp',G+'node_cache.hpp',G+'pq_table.hpp',G+'diskann_index.hpp',G+'disk_layout.hpp','include/utils/scalar_data.hpp','include/index/graph/laser/qg/qg.hpp'],
 [('save/load pairs','the files listed')])
p('C10','Manifest and segment names cannot escape the collection directory',
 'A segment identifier or artifact file name taken from a manifest or from a caller is rejected unless it is a plain name inside the collection directory; files are opened and copied without following symbolic links out of it. No path outside the collection directory is read, written, renamed or deleted because of the contents of a manifest.',
 ['inputs'],'every manifest content and every caller-supplied name',
 'Tests reject a few literal bad names.',
 [D+'segment_manifest.hpp',D+'disk_collection.hpp',D+'laser_segment_importer.hpp',D+'laser_segment_searcher.hpp','include/utils/platform_fs.hpp'],
 [('segment id / filename validation',D+'segment_manifest.hpp'),('read_regular_file_bounded','include/utils/platform_fs.hpp')])
p('C11','A rejected batch changes nothing',
 'When adding vectors to a disk collection, flushing it, importing a segment, or inserting into or removing from an updatable disk graph index is rejected for invalid arguments (wrong dimension, non-finite values, duplicate or unknown labels, null data, read-only index), no state visible to later operations has been changed. All arguments of a batch are validated before the first change.',
 ['inputs','histories'],'every argument combination and every position of the offending element in a batch',
 'Tests place the offending element at one position and look at few observables.',
 [D+'disk_collection.hpp',G+'diskann_index.hpp'],
 [('DiskCollection::add_batch/flush/import_laser_segment',D+'disk_collection.hpp'),('DiskANNIndex::insert/batch_insert/remove',G+'diskann_index.hpp')])
p('C12','Sizes and counts read from files are validated before they are used',
 'A length, count, offset or dimension read from a file is checked against the actual file size or a fixed limit before it determines an allocation, a buffer index, a copy length or a pointer offset, and arithmetic on it cannot silently overflow past the check. A corrupt or truncated file is reported as an error rather than read out of bounds.',
 ['inputs'],'every byte string a persisted file may contain',
 'Corruption tests flip a few chosen header bytes.',
 ['include/index/graph/vamana/vamana_reader.hpp',G+'disk_layout.hpp',G+'pq_table.hpp',G+'node_cache.hpp',G+'slot_allocator.hpp',G+'tombstone_bitmap.hpp',G+'diskann_index.hpp',D+'disk_flat_searcher.hpp',R+'write_ahead_log.hpp'],
 [('header/size validation','the loaders in the files listed')])
p('C13','Decoding a stored record never reads outside its bytes',
 'Decoding a stored scalar record or log payload from arbitrary bytes reads only inside the given buffer: every field read is preceded by a check that offset plus length stays within the buffer, and a failed check stops the decoding with an error or an empty result.',
 ['inputs'],'every byte string and every starting offset',
 'Tests decode valid records and a few truncated ones.',
 ['include/utils/scalar_data.hpp',R+'write_ahead_log.hpp',PI+'index.hpp'],
 [('bounded deserialisers','include/utils/scalar_data.hpp'),('read_frame_header',R+'write_ahead_log.hpp')])
p('C14','Non-finite vectors and queries are rejected in every build configuration',
 'Every disk-collection engine rejects vectors and queries that contain a NaN or an infinity before using them, and the test for NaN or infinity is one that keeps its meaning under the fast-math optimisation flags the project is compiled with.',
 ['inputs','configurations'],'every vector element and every optimisation level the project builds with',
 'Tests check a few literals through one or two engines, and a floating-point comparison that fast-math folds away can survive an unoptimised test build.',
 [D+'disk_collection.hpp',D+'disk_flat_builder.hpp',D+'disk_flat_searcher.hpp',D+'vamana_segment_builder.hpp',D+'vamana_segment_searcher.hpp',D+'laser_segment_searcher.hpp'],
 [('is_finite bit test',D)])
p('C15','Every metric, engine, quantizer and operator kind is handled or rejected',
 'Wherever the system chooses behaviour from an enumerated kind (metric, index type, segment engine, quantization, filter operator, mutation type, value type), every kind it defines selects its own implementation and an undefined value is rejected, never silently treated as another kind. Converting a kind to its stored or textual form and back yields the same kind.',
 ['inputs','configurations','programs'],'every enumerator and every out-of-range stored value at every selection point',
 'Tests use the common kinds at the common selection points.',
 [D+'types.hpp',D+'segment_factory.hpp','include/utils/metric_type.hpp','include/utils/quantization_type.hpp','include/index/index_type.hpp','include/utils/metadata_filter.hpp',PI+'dispatch_generated.hpp'],
 [('enum switches','include/**')])
p('C16','Deleted records are never returned by a disk graph search',
 'A record that has been deleted (and not reinserted) never appears in the results of a search on an updatable disk graph index, on any search path: sequential or asynchronous, approximate or reranked, cached or not, with or without its neighbours being deleted.',
 ['histories','schedules','configurations'],'every history of inserts, deletes and searches and every search configuration',
 'Tests delete a few records and query with one configuration.',
 [G+'beam_search.hpp',G+'beam_search_async.hpp',G+'diskann_index.hpp',G+'tombstone_bitmap.hpp'],
 [('is_deleted filtering at result extraction',G+'beam_search.hpp')])
p('C17','An inserted record becomes visible to searches only once completely written',
 'While a record is being inserted into an updatable disk graph index, its slot stays hidden from searches and is made visible only after its vector, links and compressed code have all been stored; if storing one of them fails it never becomes visible.',
 ['schedules','fault_sequences'],'every interleaving of an insertion with searches, and a failure at each step of the insertion',
 'Tests search after insertion has returned.',
 [G+'diskann_index.hpp',G+'slot_allocator.hpp',G+'tombstone_bitmap.hpp'],
 [('alloc dark slot / publish',G+'slot_allocator.hpp'),('DiskANNIndex::insert/batch_insert',G+'diskann_index.hpp')])
p('C18','A storage slot has at most one live owner',
 'A slot of an updatable disk graph index is handed out only if it is free, is recorded as free only when its record has been removed, is never freed twice or handed out twice without being freed in between, and the set of free and deleted slots is the same after saving and loading.',
 ['histories','schedules'],'every history of allocations, publications, removals, saves and loads',
 'Tests run short alloc/free sequences.',
 [G+'slot_allocator.hpp',G+'tombstone_bitmap.hpp',G+'diskann_index.hpp'],
 [('SlotAllocator',G+'slot_allocator.hpp')])
p('C19','Buffered page writes are never lost',
 'A modified page held in memory is written to the file before it is dropped, stays marked modified until that write has succeeded, and a flush writes every modified page and then syncs the file, reporting any failure.',
 ['histories','fault_sequences','schedules'],'every sequence of page writes, evictions and flushes at every cache capacity, including failing writes',
 'Tests use capacities where few evictions happen and never make a page write fail.',
 [G+'disk_page_cache.hpp',G+'disk_page_io.hpp',G+'diskann_index.hpp'],
 [('DiskPageCache::write/evict_excess/flush_dirty',G+'disk_page_cache.hpp'),('flush_dirty_pages',G+'disk_page_io.hpp')])
p('C20','A search never reinstates stale page or vector data over a newer update',
 'Data read from disk for a search is installed in a shared cache only if no update of that page happened since the read began, an update is reflected in every in-memory copy before it returns, and a page held in the write buffer takes precedence over its copy on disk.',
 ['schedules'],'every interleaving of searches that fill caches with updates of the same page',
 'The window between reading a page and caching it is a few instructions; tests practically never land an update there.',
 [G+'disk_page_io.hpp',G+'node_cache.hpp',G+'beam_search.hpp'],
 [('page version check before install; search_fill_page',G+'disk_page_io.hpp')])
p('C21','Shared mutable state is accessed only under the lock that protects it',
 'Every access to state shared between threads in the log, the page store, the node cache, the scalar store, the record maps, the slot allocator, the graph builders and the language bindings happens while holding the lock designated for it (exclusively for writes), or the state is atomic; no such reference is used after the lock was released.',
 ['schedules'],'every interleaving of concurrent public operations',
 'Races need specific interleavings that stress tests seldom produce, and most shared classes have single-threaded tests only.',
 [R+'write_ahead_log.hpp',G+'disk_page_io.hpp',G+'node_cache.hpp',G+'slot_allocator.hpp','include/storage/rocksdb_storage.hpp',PI+'disk_collection.hpp','include/index/graph/hnsw/hnswlib.hpp','include/index/graph/vamana/vamana_builder.hpp',D+'laser_segment_searcher.hpp'],
 [('mutex members','the files listed')])
p('C22','Locks are always acquired in one global order',
 'No two code paths acquire the same pair of locks in opposite orders, no non-recursive lock is acquired again by the thread that holds it, and every lock is released on every path out of the code that acquired it, including exceptional ones.',
 ['schedules','programs'],'every pair of code paths and every interleaving of them',
 'A deadlock needs two threads at two specific points; no test arranges it.',
 [G+'disk_page_io.hpp',G+'node_cache.hpp',G+'diskann_index.hpp','include/storage/rocksdb_storage.hpp',PI+'disk_collection.hpp',PI+'index.hpp','include/utils/thread_pool.hpp'],
 [('lock acquisition sites','include/**')])
p('C23','Resources are released on every exit path',
 'Every file descriptor, memory mapping, aligned buffer, database iterator or snapshot, temporary directory and pooled search context that an operation acquires is released or returned exactly once on every way out of it, including when something it calls throws.',
 ['programs','fault_sequences'],'every path, normal or exceptional, from acquisition to function exit',
 'Tests rarely take failure paths and would not notice a leak there.',
 [D+'disk_collection.hpp','include/utils/platform_fs.hpp','include/storage/mmap_file.hpp',G+'disk_page_io.hpp',G+'diskann_index.hpp','include/storage/rocksdb_storage.hpp','include/executor/jobs/graph_search_job.hpp'],
 [('RAII guards and catch handlers','the files listed')])
p('C24','A failure in a worker thread reaches the caller',
 'When an operation runs work on threads it starts, an exception thrown by that work (other than memory exhaustion) never terminates the process: it is captured, all threads are joined, and it is rethrown to the caller. No thread outlives the operation or the object it works for, even if starting a later thread fails.',
 ['schedules','fault_sequences'],'every exception thrown at any point of any worker and every failure to start one',
 'No test makes a worker throw, except where validation is tested.',
 [D+'disk_collection.hpp',G+'diskann_index.hpp',G+'disk_page_io.hpp','include/utils/thread_pool.hpp','include/executor/worker.hpp','include/index/graph/vamana/vamana_builder.hpp'],
 [('exception capture around thread bodies','the files listed')])
p('C25','Every scheduled task completes exactly once before the scheduler finishes',
 'Each task given to the scheduler is counted before it can be executed, is resumed until it is done, is counted as finished exactly once, and joining the scheduler waits for all counted tasks; shutdown stops and joins each worker once.',
 ['schedules','programs'],'every interleaving of producers and workers and every suspension pattern of tasks',
 'The scheduler needs a coroutine library that is absent here, so no test runs it.',
 ['include/executor/scheduler.hpp','include/executor/worker.hpp','include/executor/task_queue.hpp'],
 [('Scheduler::schedule/join, Worker::run',"include/executor/")])
p('C26','Scalar records and their indexes change together',
 'Each insert, update, upsert or removal in the scalar store changes the record, its lookup by item identifier and all of its field-index entries in one atomic batch, with entries of a replaced record removed before the new ones are added; item identifiers stay unique; and the read of the old record and the write are one critical section.',
 ['histories','schedules','crash_points'],'every history of concurrent mutations and a crash between any two writes',
 'Tests check the state after completed operations, not between the writes of one.',
 ['include/storage/rocksdb_storage.hpp'],[('WriteBatch construction in insert/batch_insert/update/remove','include/storage/rocksdb_storage.hpp')])
p('C27','A failed storage operation is reported, not swallowed',
 'If an operation of the scalar store or the durable file layer fails while changing, flushing, saving or checkpointing data, its caller is told by an error or a failure result; success is reported only if the underlying operation succeeded.',
 ['fault_sequences'],'every failing write, flush, sync, rename, checkpoint or close',
 'No test makes the storage engine or the filesystem fail.',
 ['include/storage/rocksdb_storage.hpp','include/utils/platform_fs.hpp',R+'recovery_manager.hpp','include/space/raw_space.hpp','include/storage/sequential_storage.hpp','include/index/graph/graph.hpp'],
 [('status and stream checks','the files listed')])
p('C28','A metadata filter selects the same records with and without an index',
 'A metadata filter selects exactly the records for which its conditions, combined by its logical operator, are true; the answer does not depend on whether fields are indexed, on the execution strategy, or on the search mode. A field index is used to answer a filter only if its answer is complete for that filter, and range operators treat their bound the same way on both paths.',
 ['inputs','configurations'],'every filter tree, every record and every choice of indexed fields',
 'Tests evaluate a few filters on a few records; agreement of the indexed and unindexed path over all operators and nestings is not enumerated.',
 ['include/utils/metadata_filter.hpp','include/utils/metadata_filter_matcher.hpp','include/storage/rocksdb_storage.hpp','include/executor/jobs/graph_hybrid_search_job.hpp'],
 [('FilterCondition::evaluate / MetadataFilter::evaluate','include/utils/metadata_filter.hpp'),('MetadataFilterMatcher',"include/utils/metadata_filter_matcher.hpp")])
p('C29','Field-index keys are unambiguous and order-preserving',
 'Looking up a value in a field index returns exactly the records having that value for that field: keys of different fields or values never match each other, keys for numbers sort in numeric order, and the code that builds a key, a search prefix and a range bound and the code that parses a key agree on one format.',
 ['inputs'],'every field name and every value, including separators inside strings, negative numbers and extremes',
 'Tests use short alphanumeric values.',
 ['include/utils/index_encoding.hpp','include/storage/rocksdb_storage.hpp'],
 [('index_encoding','include/utils/index_encoding.hpp'),('get_ids_by_field_value/range','include/storage/rocksdb_storage.hpp')])
p('C30','Precomputed partitions never serve stale or partial answers',
 'After any mutation of an index its precomputed filter partitions are no longer used until rebuilt, a failed rebuild leaves them unused, and they answer a filtered search only if the filter is implied by the partition key or the remaining conditions are still applied.',
 ['histories','inputs'],'every history of mutations, rebuilds and filtered searches',
 'The binding layer that owns them is not built in the test environment.',
 [PI+'materialized_view.hpp',PI+'index.hpp'],
 [('MaterializedViewManager::rebuild/invalidate/try_search',PI+'materialized_view.hpp')])
p('C31','A failed in-memory insertion or update leaves the previous state',
 'If inserting or updating a vector in an in-memory index fails after some of its parts (graph node, vector, quantized vector, scalar record) were stored, the parts already stored are taken back before the error is reported, and an upsert that fails restores the record it replaced. A removed record is removed from all of those parts.',
 ['fault_sequences','histories'],'a failure at each step of an insertion, update or removal',
 'Tests provoke at most one failing step per operation.',
 ['include/executor/jobs/graph_update_job.hpp','include/space/raw_space.hpp','include/space/sq8_space.hpp','include/space/sq4_space.hpp',PI+'index.hpp'],
 [('GraphUpdateJob::insert_spaces rollback','include/executor/jobs/graph_update_job.hpp'),('PyIndex::upsert_nondurable',PI+'index.hpp')])
p('C32','Vector instructions are executed only on processors that have them',
 'Code compiled for a particular instruction-set extension is reached only through a selection that has verified that the running processor (and operating system) supports every extension that code was compiled for, and each selection ends in a portable implementation or an explicit refusal.',
 ['configurations'],'every processor feature combination',
 'Tests run on one machine, whose processor supports the fast paths.',
 ['include/simd/cpu_features.hpp','include/simd/distance_l2.hpp','include/simd/distance_ip.hpp','include/simd/fht.hpp','include/simd/laser_dispatch.hpp'],
 [('cpu_features and the dispatch functions','include/simd/')])
p('C33','The Python client deletes and writes only inside its own data directory',
 'For every collection or index name a caller can supply (including through the HTTP service), the client creates, saves and deletes files only below its configured data directory: names that could escape it are rejected before anything is created, saved or deleted. Deletion on disk applies only to entries the client manages and happens only when requested.',
 ['inputs','histories'],'every name string and every sequence of create, save, delete and reset calls',
 'Tests use well-behaved names.',
 ['python/src/alayalite/client.py','python/src/alayalite/collection.py','app/routers/client.py'],
 [('Client.create_*/delete_*/reset/save_*','python/src/alayalite/client.py')])
p('C34','A filter written as a Python dictionary means what it says',
 'Each operator in the Python filter dictionary is translated to the native operator of the same meaning with the field and value it was given, all entries of one dictionary are combined with AND, the members of $or with OR, and unknown operators are rejected.',
 ['inputs'],'every filter dictionary',
 'Python tests need the native module and are not run here; they sample a few dictionaries.',
 ['python/src/alayalite/collection.py'],[('Collection._build_filter','python/src/alayalite/collection.py')])
p('C35','Python objects are touched only while holding the interpreter lock',
 'While a native operation has released the interpreter lock it neither creates, reads nor destroys Python objects, and no thread waits for the interpreter lock while holding a native lock that another thread needs in order to release it.',
 ['schedules','programs'],'every interleaving of Python threads calling the bindings',
 'The bindings are not built here and such races corrupt memory only sporadically.',
 [PI+'index.hpp',PI+'disk_collection.hpp',PI+'client.hpp','python/src/diskann_bindings.cpp',PI+'diskann.hpp'],
 [('gil_scoped_release scopes',PI)])
p('C36','Every entry of a search output is defined',
 'A search returns at most the requested number of results, and every position of a caller-visible output array is set: positions without a result hold the documented "no result" marker, never uninitialised or leftover data.',
 ['inputs','histories'],'every number of available results between zero and the request',
 'Tests ask for no more results than exist.',
 [PI+'disk_collection.hpp','python/src/diskann_bindings.cpp','include/executor/jobs/graph_search_job.hpp','include/executor/jobs/graph_hybrid_search_job.hpp',G+'diskann_index.hpp',D+'disk_collection.hpp'],
 [('output pre-fill/padding','the files listed')])
p('C37','Short reads and writes are detected everywhere',
 'Wherever bytes are read from or written to a file, a result shorter than requested, an error or an unexpected end of file is detected before the bytes are used or the write is reported as done.',
 ['fault_sequences','inputs'],'every short or failing transfer at every transfer site',
 'Regular-file tests on a healthy disk never see a short transfer.',
 [G+'disk_page_io.hpp',G+'pq_table.hpp',G+'disk_layout.hpp','include/storage/io/io_engine.hpp','include/utils/platform_fs.hpp','include/storage/sequential_storage.hpp','include/space/raw_space.hpp','include/index/graph/graph.hpp','include/index/graph/laser/utils/io.hpp'],
 [('pread/pwrite/stream checks','the files listed')])
p('C38','Index parameters survive saving and loading',
 'Every parameter of an index that influences how its files are interpreted or searched is written to its schema and restored from it with the same value and type, and each parameter is passed to the native layer under its own name.',
 ['configurations'],'every combination of parameter values',
 'Python tests are not run here; they save the default configuration.',
 ['python/src/alayalite/schema.py','python/src/alayalite/common.py','python/src/alayalite/index.py',PI+'params.hpp','python/src/pybind.cpp'],
 [('IndexParams.to_json_dict/from_str_dict/to_cpp_params','python/src/alayalite/schema.py')])
p('C39','Asynchronous reads keep their buffers and requests alive until completion',
 'Every asynchronous read that is submitted is waited for before its buffer, descriptor or request is reused or destroyed, on every path including errors and cancellation; a completion is matched to the request that caused it and its result is checked for errors and short length.',
 ['schedules','fault_sequences'],'every order of completions and every failing or short completion',
 'Completion orders are decided by the kernel; tests see the usual order.',
 ['include/storage/io/io_uring_engine.hpp','include/storage/io/uring_reactor.hpp',G+'beam_search_async.hpp','include/index/graph/laser/utils/aligned_file_reader.hpp'],
 [('submit/wait loops','include/storage/io/')])
p('C40','Search results are the true nearest neighbours with the promised recall',
 'An approximate search returns, with the documented probability, the true nearest neighbours of the query.',
 ['inputs'],'every dataset and query',
 'Recall is a statistical quantity over data distributions; tests sample one.',
 ['include/executor/jobs/graph_search_job.hpp',G+'beam_search.hpp','include/index/graph/vamana/vamana_builder.hpp'],
 [('graph construction and search','include/index/graph/')])
p('C41','Optimised and portable kernels compute the same distances',
 'For every pair of vectors, each instruction-set-specific distance kernel agrees with the portable one up to rounding.',
 ['inputs','configurations'],'every vector pair, dimension and alignment',
 'Tests sample dimensions and values.',
 ['include/simd/distance_l2.hpp','include/simd/distance_ip.hpp'],[('kernels','include/simd/')])
p('C42','Concurrent operations on an updatable index are linearizable',
 'Every concurrent history of inserts, deletes and searches on an updatable disk graph index is equivalent to some sequential one with respect to the presence of records.',
 ['schedules','histories'],'every interleaving',
 'Stress tests sample few interleavings and check no linearization.',
 [G+'diskann_index.hpp'],[('DiskANNIndex',G+'diskann_index.hpp')])
p('C43','Insert, delete and search leave the graph navigable',
 'After any history of insertions and deletions every live record of a graph index remains reachable from the entry point.',
 ['histories'],'every history',
 'Reachability depends on the data and on all prior updates; tests sample one history.',
 ['include/executor/jobs/graph_update_job.hpp',G+'diskann_index.hpp'],[('edge updates and pruning','include/')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert len(d['title'])<=80,d['id']
print(len(P))
