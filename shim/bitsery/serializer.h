#pragma once

#include "details/core.h"

namespace bitsery
{

template <typename TOutputAdapter, typename TContext = void>
class Serializer
{
public:
    using TAdapter = TOutputAdapter;
    template <typename Arg, typename... Args,
              typename = std::enable_if_t<!std::is_same_v<std::decay_t<Arg>, Serializer>>>
    explicit Serializer(Arg&& arg, Args&&... args)
        : adapter_(std::forward<Arg>(arg), std::forward<Args>(args)...)
    {}
    Serializer(Serializer const&) = delete;
    Serializer& operator=(Serializer const&) = delete;

    TOutputAdapter& adapter() & { return adapter_; }
    TOutputAdapter adapter() && { return std::move(adapter_); }

    template <typename T>
    void object(const T& obj)
    {
        details::invokeSerialize(*this, const_cast<T&>(obj), 0);
    }
    template <typename T, typename Fnc>
    void object(const T& obj, Fnc&& fnc)
    {
        fnc(*this, const_cast<T&>(obj));
    }
    template <typename... T>
    Serializer& operator()(T&&... v)
    {
        (object(v), ...);
        return *this;
    }

    template <size_t VSIZE, typename T>
    void value(const T& v)
    {
        static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>);
        adapter_.template writeBytes<VSIZE>(v);
    }
    template <typename T> void value1b(const T& v) { value<1>(v); }
    template <typename T> void value2b(const T& v) { value<2>(v); }
    template <typename T> void value4b(const T& v) { value<4>(v); }
    template <typename T> void value8b(const T& v) { value<8>(v); }
    void boolValue(bool v) { adapter_.template writeBytes<1>(static_cast<uint8_t>(v ? 1 : 0)); }

    template <typename T, typename Ext, typename Fnc>
    void ext(const T& obj, const Ext& extension, Fnc&& fnc)
    {
        extension.serialize(*this, obj, std::forward<Fnc>(fnc));
    }
    template <size_t VSIZE, typename T, typename Ext>
    void ext(const T& obj, const Ext& extension)
    {
        using V = ext_value<Ext, T>;
        extension.serialize(*this, obj, [](Serializer& s, V& v) { s.template value<VSIZE>(v); });
    }
    template <typename T, typename Ext>
    void ext(const T& obj, const Ext& extension)
    {
        using V = ext_value<Ext, T>;
        extension.serialize(*this, obj, [](Serializer& s, V& v) { s.object(v); });
    }
    template <typename T, typename Ext> void ext1b(const T& o, const Ext& e) { ext<1>(o, e); }
    template <typename T, typename Ext> void ext2b(const T& o, const Ext& e) { ext<2>(o, e); }
    template <typename T, typename Ext> void ext4b(const T& o, const Ext& e) { ext<4>(o, e); }
    template <typename T, typename Ext> void ext8b(const T& o, const Ext& e) { ext<8>(o, e); }

    template <size_t VSIZE, typename T>
    void text(const T& str, size_t maxSize)
    {
        auto n = traits::TextTraits<T>::length(str);
        assert(n + (traits::TextTraits<T>::addNUL ? 1u : 0u) <= maxSize);
        details::writeSize(adapter_, n);
        auto it = std::begin(str);
        for (size_t i = 0; i < n; ++i, ++it)
            value<VSIZE>(*it);
    }
    template <typename T> void text1b(const T& s, size_t m) { text<1>(s, m); }
    template <typename T> void text2b(const T& s, size_t m) { text<2>(s, m); }
    template <typename T> void text4b(const T& s, size_t m) { text<4>(s, m); }

    template <typename T, typename Fnc, typename = std::enable_if_t<!std::is_integral_v<Fnc>>>
    void container(const T& obj, size_t maxSize, Fnc&& fnc)
    {
        auto n = traits::ContainerTraits<T>::size(obj);
        assert(n <= maxSize);
        details::writeSize(adapter_, n);
        auto& c = const_cast<T&>(obj);
        for (auto it = std::begin(c); it != std::end(c); ++it)
            fnc(*this, *it);
    }
    template <size_t VSIZE, typename T>
    void container(const T& obj, size_t maxSize)
    {
        container(obj, maxSize, [](Serializer& s, auto& v) { s.template value<VSIZE>(v); });
    }
    template <typename T>
    void container(const T& obj, size_t maxSize)
    {
        container(obj, maxSize, [](Serializer& s, auto& v) { s.object(v); });
    }
    template <typename T> void container1b(const T& o, size_t m) { container<1>(o, m); }
    template <typename T> void container2b(const T& o, size_t m) { container<2>(o, m); }
    template <typename T> void container4b(const T& o, size_t m) { container<4>(o, m); }
    template <typename T> void container8b(const T& o, size_t m) { container<8>(o, m); }

private:
    template <typename Ext, typename T>
    using ext_value = std::conditional_t<
        std::is_void_v<typename traits::ExtensionTraits<Ext, T>::TValue>,
        details::DummyType,
        typename traits::ExtensionTraits<Ext, T>::TValue>;

    TOutputAdapter adapter_;
};

}  // namespace bitsery
