#include "space/raw_space.hpp"
#include "space/sq8_space.hpp"
#include "space/sq4_space.hpp"
#include "space/rabitq_space.hpp"
#include "storage/sequential_storage.hpp"
#include "storage/static_storage.hpp"
#include "index/graph/graph.hpp"
#include "index/graph/overlay_graph.hpp"
#include "index/graph/hnsw/hnsw_builder.hpp"
#include "index/graph/nsg/nsg_builder.hpp"
#include "index/graph/fusion_graph.hpp"
#include "index/graph/qg/qg_builder.hpp"
#include "executor/jobs/graph_search_job.hpp"
#include "executor/jobs/graph_hybrid_search_job.hpp"
#include "executor/jobs/graph_update_job.hpp"
#include "executor/vector_iterator.hpp"
#include "executor/scheduler.hpp"
#include "executor/worker.hpp"
#include "executor/task_queue.hpp"
#include "utils/thread_pool.hpp"
#include "utils/locks.hpp"
#include "utils/query_utils.hpp"
using namespace alaya;
template struct alaya::SequentialStorage<float, uint32_t>;
template struct alaya::SequentialStorage<uint8_t, uint32_t>;
template class alaya::StaticStorage<>;
template class alaya::RawSpace<float, float, uint32_t, SequentialStorage<float, uint32_t>, ScalarData>;
template class alaya::SQ8Space<float, float, uint32_t, SequentialStorage<uint8_t, uint32_t>, ScalarData>;
template class alaya::SQ4Space<float, float, uint32_t, SequentialStorage<uint8_t, uint32_t>, ScalarData>;
template struct alaya::Graph<float, uint32_t>;
template class alaya::OverlayGraph<uint32_t>;
template class alaya::OverlayGraph<uint64_t>;
template struct alaya::Graph<float, uint64_t>;
template struct alaya::SequentialStorage<float, uint64_t>;
template class alaya::RawSpace<float, float, uint64_t, SequentialStorage<float, uint64_t>, EmptyScalarData>;
template class alaya::SQ8Space<float, float, uint64_t, SequentialStorage<uint8_t, uint64_t>, EmptyScalarData>;
template class alaya::SQ4Space<float, float, uint64_t, SequentialStorage<uint8_t, uint64_t>, EmptyScalarData>;
using RS = alaya::RawSpace<float, float, uint32_t, SequentialStorage<float, uint32_t>, ScalarData>;
using S8 = alaya::SQ8Space<float, float, uint32_t, SequentialStorage<uint8_t, uint32_t>, ScalarData>;
using RQ = alaya::RaBitQSpace<float, float, uint32_t, ScalarData>;
template class alaya::GraphUpdateJob<S8, RS>;
template class alaya::GraphUpdateJob<RS>;
template struct alaya::HNSWBuilder<RS>;
template struct alaya::NSGBuilder<RS>;
template struct alaya::FusionGraphBuilder<RS, alaya::HNSWBuilder<RS>, alaya::NSGBuilder<RS>>;
template class alaya::QGBuilder<RQ>;
namespace vt {
template <class J> void search_job(J &j, float *q, uint32_t *ids, float *d) {
  (void)j.search(q, ids, 1u, 1u);
  (void)j.search(q, ids, d, 1u, 1u);
  j.search_solo(q, ids, 1u, 1u);
  j.search_solo(q, ids, d, 1u, 1u);
  j.search_solo_updated(q, ids, 1u, 1u);
  j.search_solo(q, ids, SearchInfo{}, nullptr);
}
void use(GraphSearchJob<S8, RS> &a, GraphSearchJob<RS> &b, GraphSearchJob<RQ> &c, RQ &sp, std::string_view f, float *q, uint32_t *ids, float *d) {
  search_job(a, q, ids, d);
  search_job(b, q, ids, d);
  c.rabitq_search_solo(q, 1u, ids, 1u);
  (void)c.rabitq_search(q, 1u, ids, 1u);
  sp.save(f); sp.load(f); sp.fit(q, 1u); sp.remove(1u); sp.remove(std::string()); sp.insert(q);
  (void)sp.get_scalar_data(1u); (void)sp.get_scalar_data(std::string()); sp.get_distance(1u, 1u);
}
template <class H> void useh(H &a, float *q, uint32_t *ids, std::string *items, const MetadataFilter &f) {
  (void)a.hybrid_search(q, ids, 1u, 1u, f, items);
  (void)a.hybrid_search(q, ids, SearchInfo{}, f, items);
  (void)a.hybrid_search_brute_force(q, ids, 1u, f, items);
}
void useh2(GraphHybridSearchJob<S8, RS> &a, GraphHybridSearchJob<RS> &b, GraphHybridSearchJob<RQ> &c, float *q, uint32_t *ids, std::string *items, const MetadataFilter &f) {
  useh(a, q, ids, items, f);
  useh(b, q, ids, items, f);
  (void)c.rabitq_hybrid_search(q, 1u, ids, 1u, f, items);
}
template <class S> void usesched(S &s, std::coroutine_handle<coro::detail::promise<void>> h) {
  auto op = s.schedule();
  if (!op.await_ready()) (void)op.await_suspend(h);
}
void usesched2(Scheduler &s, std::coroutine_handle<coro::detail::promise<void>> h) { usesched(s, h); }
}
