#pragma once
#include <vector>
namespace sfl { template <typename T, typename A = std::allocator<T>> using vector = std::vector<T, A>; }
