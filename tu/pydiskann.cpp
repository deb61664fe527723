#include "src/diskann_bindings.cpp"
