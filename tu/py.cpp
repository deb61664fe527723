#include "src/pybind.cpp"
#include "space/sq8_space.hpp"
#include "space/rabitq_space.hpp"
#include "index/graph/qg/qg_builder.hpp"
namespace vt {
using namespace alaya;
using RSS = RawSpace<float, float, uint32_t, SequentialStorage<float, uint32_t>, ScalarData>;
using RSE = RawSpace<float, float, uint32_t, SequentialStorage<float, uint32_t>, EmptyScalarData>;
using S8S = SQ8Space<float, float, uint32_t, SequentialStorage<uint8_t, uint32_t>, ScalarData>;
}
template class alaya::PyIndex<alaya::HNSWBuilder<vt::RSS>, vt::RSS>;
template class alaya::PyIndex<alaya::HNSWBuilder<vt::RSS>, vt::S8S>;
