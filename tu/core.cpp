#include "recovery/recovery_manager.hpp"
#include "recovery/snapshot_manifest.hpp"
#include "recovery/write_ahead_log.hpp"
#include "storage/rocksdb_storage.hpp"
#include "utils/index_encoding.hpp"
#include "utils/metadata_filter.hpp"
#include "utils/metadata_filter_matcher.hpp"
#include "utils/platform_fs.hpp"
#include "utils/scalar_data.hpp"
#include "space/raw_space.hpp"
template class alaya::RocksDBStorage<uint32_t>;
using RS = alaya::RawSpace<float, float, uint32_t, alaya::SequentialStorage<float, uint32_t>, alaya::ScalarData>;
template class alaya::RawSpace<float, float, uint32_t, alaya::SequentialStorage<float, uint32_t>, alaya::ScalarData>;
template class alaya::MetadataFilterExecutor<uint32_t>;
