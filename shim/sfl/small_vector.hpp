// Stand-in for sfl::small_vector: the same vector-like contract, without the inline buffer.
#pragma once

#include <cstddef>
#include <memory>
#include <vector>

namespace sfl
{

template <typename T, std::size_t N, typename Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator>
{
    using base = std::vector<T, Allocator>;

public:
    static constexpr std::size_t static_capacity = N;
    using base::base;
    small_vector() = default;
    std::size_t available() const { return this->capacity() - this->size(); }
    typename base::iterator nth(std::size_t i) { return this->begin() + i; }
    typename base::const_iterator nth(std::size_t i) const { return this->begin() + i; }
    std::size_t index_of(typename base::const_iterator it) const { return it - this->begin(); }
};

}  // namespace sfl
