#undef ALAYA_LASER_USE_LIBAIO
#define ALAYA_LASER_USE_THREADPOOL 1
#include "index/graph/laser/utils/threadpool_file_reader.hpp"
