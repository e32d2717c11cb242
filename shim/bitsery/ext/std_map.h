#pragma once

#include "../details/core.h"
#include <map>
#include <unordered_map>

namespace bitsery
{
namespace ext
{

class StdMap
{
public:
    constexpr explicit StdMap(size_t maxSize) : maxSize_(maxSize) {}
    template <typename S, typename T, typename Fnc>
    void serialize(S& s, const T& obj, Fnc&& fnc) const
    {
        assert(obj.size() <= maxSize_);
        details::writeSize(s.adapter(), obj.size());
        for (auto const& v : obj)
            fnc(s, const_cast<typename T::key_type&>(v.first), const_cast<typename T::mapped_type&>(v.second));
    }
    template <typename S, typename T, typename Fnc>
    void deserialize(S& s, T& obj, Fnc&& fnc) const
    {
        size_t n = 0;
        details::readSize(s.adapter(), n, maxSize_);
        obj.clear();
        for (size_t i = 0; i < n; ++i) {
            typename T::key_type k{};
            typename T::mapped_type v{};
            fnc(s, k, v);
            obj.emplace(std::move(k), std::move(v));
        }
    }

private:
    size_t maxSize_;
};

}  // namespace ext

namespace traits
{
template <typename T>
struct ExtensionTraits<ext::StdMap, T>
{
    using TValue = void;
    static constexpr bool SupportValueOverload = false;
    static constexpr bool SupportObjectOverload = false;
    static constexpr bool SupportLambdaOverload = true;
};
}  // namespace traits
}  // namespace bitsery
