#include "space.cpp"
