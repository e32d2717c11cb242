#pragma once

#include "../../details/core.h"

namespace bitsery::traits
{

template <typename T, bool Resizable, bool Contiguous>
struct StdContainer
{
    using TValue = typename T::value_type;
    static constexpr bool isResizable = Resizable;
    static constexpr bool isContiguous = Contiguous;
    static size_t size(const T& c) { return c.size(); }
    static void resize(T& c, size_t n)
    {
        if constexpr (Resizable && requires { c.resize(n); })
            c.resize(n);
    }
};

template <typename T, bool Resizable = true>
struct StdContainerForBufferAdapter
{
    using TIterator = typename T::iterator;
    using TConstIterator = typename T::const_iterator;
    using TValue = typename T::value_type;
    static void increaseBufferSize(T& c, size_t, size_t minSize) { c.resize(minSize); }
};

}  // namespace bitsery::traits
