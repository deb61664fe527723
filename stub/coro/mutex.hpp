#pragma once
#include "coro.hpp"
