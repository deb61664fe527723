#include "index/graph/vamana/vamana_builder.hpp"
#include "index/graph/vamana/build_dispatch.hpp"
#include "index/graph/vamana/shard_merger.hpp"
#include "index/graph/vamana/shard_assigner.hpp"
#include "index/graph/vamana/kmeans_partition.hpp"
#include "index/graph/vamana/vamana_greedy_search.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "index/graph/vamana/vamana_writer.hpp"
#include "index/graph/vamana/budget_estimator.hpp"
#include "index/graph/laser/qg/qg.hpp"
#include "index/graph/laser/qg/qg_builder.hpp"
#include "index/graph/laser/utils/pca_transform.hpp"
#include "index/graph/laser/utils/aligned_file_reader.hpp"
#include "index/graph/laser/utils/concurrent_queue.hpp"
#include "index/graph/laser/utils/freq_relayout.hpp"
#include "simd/cpu_features.hpp"
#include "simd/distance_l2.hpp"
#include "simd/distance_ip.hpp"
#include "simd/fht.hpp"
#include "simd/laser_dispatch.hpp"
