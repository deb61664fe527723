#include "vamana.cpp"
