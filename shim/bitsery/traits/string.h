#pragma once

#include "core/std_defaults.h"
#include <string>

namespace bitsery::traits
{

template <typename... A>
struct ContainerTraits<std::basic_string<A...>> : public StdContainer<std::basic_string<A...>, true, true>
{
};

template <typename C, typename... A>
struct TextTraits<std::basic_string<C, A...>>
{
    using TValue = C;
    static constexpr bool addNUL = false;
    static size_t length(const std::basic_string<C, A...>& s) { return s.size(); }
};

template <typename... A>
struct BufferAdapterTraits<std::basic_string<A...>>
    : public StdContainerForBufferAdapter<std::basic_string<A...>>
{
};

}  // namespace bitsery::traits
