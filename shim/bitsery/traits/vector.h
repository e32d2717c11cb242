#pragma once

#include "core/std_defaults.h"
#include <vector>

namespace bitsery::traits
{

template <typename T, typename A>
struct ContainerTraits<std::vector<T, A>> : public StdContainer<std::vector<T, A>, true, true>
{
};

template <typename A>
struct ContainerTraits<std::vector<bool, A>> : public StdContainer<std::vector<bool, A>, true, false>
{
};

template <typename T, typename A>
struct BufferAdapterTraits<std::vector<T, A>> : public StdContainerForBufferAdapter<std::vector<T, A>>
{
};

}  // namespace bitsery::traits
