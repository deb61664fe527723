#include "index/graph/diskann/beam_search.hpp"
#include "index/graph/diskann/beam_search_async.hpp"
#include "index/graph/diskann/disk_layout.hpp"
#include "index/graph/diskann/disk_page_cache.hpp"
#include "index/graph/diskann/disk_page_io.hpp"
#include "index/graph/diskann/diskann_index.hpp"
#include "index/graph/diskann/node_cache.hpp"
#include "index/graph/diskann/pq_table.hpp"
#include "index/graph/diskann/search_scratch.hpp"
#include "index/graph/diskann/slot_allocator.hpp"
#include "index/graph/diskann/tombstone_bitmap.hpp"
#include "index/graph/diskann/visited_bitset.hpp"
#include "utils/coro_gate.hpp"
#include "storage/io/io_engine.hpp"
#include "storage/io/io_uring_engine.hpp"
#include "storage/io/uring_reactor.hpp"
