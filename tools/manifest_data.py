CHECKS = {
    'C01': ('interprocedural typestate analysis of the log writer (clang CFGs)', 'every path of the log appends and of every public mutator, with exceptional paths; trusts fsync and stream-state semantics'),
    'C02': ('interprocedural typestate analysis prepare/apply/commit plus def-use of operation ids', 'every path of every public mutator of PyIndex with recovery enabled; state changes are the mutating members of the update job, spaces and scalar store'),
    'C03': ('interprocedural typestate analysis of the log readers, transfer-sequence matching of frames and payloads, coverage of logged mutation types', 'every path of every function that walks the log, every logged mutation type; trusts the mutators replay calls'),
    'C04': ('interprocedural effect-order and def-use analysis of snapshot publication, recovery load and log truncation', 'every path of publish, load and truncate, including exceptional ones; every persisted member of the recovered state'),
    'C05': ('interprocedural file-protocol typestate (write/check/sync/rename/sync-directory) over every rename of a pointer or manifest file', 'every path, including exceptional ones, of every publisher of CURRENT, snapshot, segment and collection manifests'),
    'C06': ('interprocedural file-protocol typestate over segment builders, importer and collection flush', 'every path, including exceptional ones, of every entry point that renames a segment directory into place'),
    'C07': ('interprocedural typestate and must-hold analysis of the collection lock', 'every path of create and open up to the end of the collection object, including exceptional ones; trusts flock and inode comparison'),
    'C08': ('writer/reader key matching by def-use analysis, must-guard analysis of parsers', 'every field, key and parse site of the snapshot, segment and collection manifests'),
    'C09': ('extraction and matching of the transfer sequences of every save/load and encode/decode pair (abstract interpretation of stream and cursor operations)', 'every pair found by class and name, all template instantiations in the driver units, header offsets, record codec, member-to-file map'),
    'C10': ('taint analysis from manifest text to path components with an abstract-string analysis of the validating predicate, plus a no-follow effect analysis of opens', 'races with a concurrent attacker replacing files between check and open are out of scope'),
    'C11': ('typestate untouched/changed over the CFGs of every mutating entry point; data-flow of the tests that stand before the first change', 'all paths of the public mutators of DiskCollection and DiskANNIndex; kinds of invalid arguments as tabulated in the check'),
    'C13': ('abstract evaluation of the decoders with linear length facts; every byte read must be entailed by the checks on its path', 'every path of every decoder of stored records, payload readers and raw key-value reads; loops are widened; lengths passed by callers are trusted to be the size of the buffer'),
    'C14': ('abstract evaluation of every engine entry on representation classes of floats; truth tables of the float classifiers; query for classifications that fast-math folds', 'every segment builder and searcher entry with each non-finite class at each position of a 2x3 batch or 3-element query under each metric; every float classifier in the analysed units'),
    'C15': ('reachability over the syntax tree and CFG specialised to each value of a kind (interprocedural); always-after typestate for choosing the distance function; static_assert witness for constant tables', 'every metric, disk index type, mutation type, value tag and filter hint plus an undefined value, through every dispatch on it in the analysed units; kinds dispatched only in generated Python dispatch code are not covered'),
    'C16': ('reachability of every result append specialised to a deleted id; path-sensitive flow of deletion snapshots into searches; shape evaluation of the slot allocator', 'all searches over an updatable disk graph index; ids compared as symbolic terms'),
    'C17': ('path-sensitive typestate of a slot from allocation to publication, lock sets at publication, shape evaluation of the slot allocator', 'every insertion path of the disk graph index including exceptional ones'),
    'C18': ('abstract evaluation of the allocator on free lists of each shape; residue normal form of bitmap addresses; reachability under the assumption that a slot is already free; lock-set dataflow; writer/reader sequence matching', 'Eight rules over the allocator, the bitmap, and every path by which the index reaches them.'),
    'C19': ('typestate of a cached page (modified, written back, dropped) along every normal and exceptional path of the page cache, entries told apart by page; must-pass dataflow from a change of a page to its write-back, to the sync and to the files that describe it', 'the entries of the page cache are told apart by the offset term they were looked up with; holds for every capacity and history because every path is covered; relies on the page map and recency list naming the same pages'),
    'C20': ('interprocedural typestate of a page being read for a search (missed in memory, version observed, read, reconciled, parsed), critical-section typestate of every installation into the shared page cache, and must-pass dataflow from each update to every in-memory copy', 'page-store wiring of a search and update serialisation are assumed (C21, C22)'),
    'C21': ('interprocedural lock-set analysis (held locks at every access) with pairwise common-lock check', 'every access to the shared members listed in the check, over every call path from every entry point; happens-before through object construction and destruction is assumed'),
    'C22': ('interprocedural lock acquisition graph (cycles, re-acquisition, leaks, suspension under lock)', 'every acquisition site and every call path of the parsed units; instances of one member lock are identified by member'),
    'C24': ('interprocedural exception-escape analysis of thread, task and parallel-region bodies plus path-sensitive flow typestate of started threads, pool tasks and kept exceptions', 'every thread, pool task, coroutine task and OpenMP region in the headers and bindings; memory exhaustion and failing mutexes are outside'),
    'C25': ('interprocedural path-sensitive counting typestate of task queue, counters and worker loops, effect analysis of hand-over and join', 'in-tree schedulers, workers and thread pools and their users in the bindings; that tasks themselves end is outside'),
    'C26': ('path-sensitive symbolic interpretation of the write batches built by the scalar store', 'every path of every mutator to every batch write; contents in terms of old and new record'),
    'C27': ('interprocedural typestate of operation results (status, flag, id, error code) over the clang CFG', 'Every result of a RocksDB operation, storage mutation, sync/rename/truncate in the TUs must be examined on every normal path; known failures must end in an exception or failure result; read errors distinguished from missing keys; no swallowing handlers.'),
    'C28': ('abstract evaluation of the filter operators, combinators, index lookups, executor and search strategies over every operator, value type and ordering', 'every operator x value-type x ordering case, every AND/OR/NOT shape up to two conditions plus nested filters, every lookup, executor and strategy path over a three-record abstraction, plus one scan of 2500 abstract records; the search itself returns only unblocked records when it asks the mask'),
    'C29': ('key grammar extraction from canonical string terms; format equations; normal form of the bit operations of the number codecs', 'all builders, prefixes, range bounds and parsers of field-index keys'),
    'C30': ('typestate of the precomputed partitions along every path (normal and exceptional) of each mutation and rebuild; path-sensitive decision of the filters they may answer; reachability of a result append while a residual condition rejects its record', 'all public PyIndex operations for two instantiations; interleavings of one index from several threads are not covered (the binding takes no lock)'),
    'C31': ('typestate analysis of stored parts over the clang CFGs (undo on failing paths, restore after upsert, completeness of removal)', 'all instantiations of the in-memory spaces, GraphUpdateJob and PyIndex::upsert; assumes taking back a stored part does not fail'),
    'C32': ('reachability specialised to every set of processor features (subset enumeration over the type-checked program), from target attributes and the feature record', 'Every reference to a function compiled for an extension is decided for all feature sets; selections must end in a portable function or refusal.'),
    'C33': ('abstract interpretation of the Python client over name classes, path effects of every file operation', 'every path of every client operation and HTTP handler, names abstracted to five classes of dangerous names'),
    'C34': ('abstract interpretation of the filter translator over symbolic dictionaries; binding-table and operator-constant tracing', 'all entry kinds, ordered pairs and structural triples of entries; every binding and native builder'),
    'C35': ('scope analysis of interpreter-lock regions closed over the call graph, on the type-checked bindings', 'every scope after a gil_scoped_release, every lambda handed to another thread and every native lock scope in the bindings; an operation on a pybind11 type or a CPython call reachable inside it is the violation'),
    'C36': ('interprocedural must-write range analysis of output arrays with symbolic bounds, and constant propagation of the padding values', 'searches of the headers and Python bindings; the vendored LASER index and its direct binding are outside, as is whether a search finds all it could'),
    'C37': ('typestate analysis of file streams, descriptors and asynchronous completions over the control-flow graph', 'Path-sensitive stream state (dirty / unexamined / known failed) in every function that owns a file stream, result tracking of descriptor transfers, and a result-comparison rule for completion events; decides that no short or failed transfer goes unnoticed on a normal return. Bytes used before the check inside the same function are not ordered against it.'),
    'C38': ('symbolic composition of the schema writer and reader; name-by-name matching of keyword, binding, constructor and member tables', 'every index parameter through save/load, keyword construction and the native constructor; index and collection schema entries'),
}
NA = {
    'C12': 'whether a check bounds a later use is a relation between run-time numbers (file length, count, stride, offset) along call chains through the loaders; a taint rule without those relations would accept any comparison or flag correct loaders, and one with them is an interval analysis of file contents that this framework does not have',
    'C23': 'not decided as one property: what is acquired is handed between owners at run time (pools, leases, moved handles, coroutine frames), so exactly-once release needs an ownership model of every owner type, which this framework does not have; threads and pool tasks on every exit path are decided under C24',
    'C39': 'which request a completion belongs to is carried through the kernel as an opaque 64-bit value and the order of completions is the kernel\'s choice; matching them is a relation between run-time values that no static rule here bounds',
    'C40': 'recall is a statistical statement about run-time data; no sound static argument bounds it',
    'C41': 'agreement up to rounding of floating-point kernels for all inputs is a numerical equivalence question; deciding it needs symbolic execution or testing, not a static rule over the source',
    'C42': 'linearizability quantifies over interleavings of unbounded histories; the parts with a static reading (lock discipline, lock order, publication order, page versions) are C17-C22',
    'C43': 'reachability of the run-time graph after arbitrary histories depends on distances; no static argument in reach bounds it',
}
