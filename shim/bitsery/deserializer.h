#pragma once

#include "details/core.h"

namespace bitsery
{

template <typename TInputAdapter, typename TContext = void>
class Deserializer
{
public:
    using TAdapter = TInputAdapter;
    template <typename Arg, typename... Args,
              typename = std::enable_if_t<!std::is_same_v<std::decay_t<Arg>, Deserializer>>>
    explicit Deserializer(Arg&& arg, Args&&... args)
        : adapter_(std::forward<Arg>(arg), std::forward<Args>(args)...)
    {}
    Deserializer(Deserializer const&) = delete;
    Deserializer& operator=(Deserializer const&) = delete;

    TInputAdapter& adapter() & { return adapter_; }
    TInputAdapter adapter() && { return std::move(adapter_); }

    template <typename T>
    void object(T&& obj)
    {
        details::invokeSerialize(*this, obj, 0);
    }
    template <typename T, typename Fnc>
    void object(T&& obj, Fnc&& fnc)
    {
        fnc(*this, obj);
    }
    template <typename... T>
    Deserializer& operator()(T&&... v)
    {
        (object(v), ...);
        return *this;
    }

    template <size_t VSIZE, typename T>
    void value(T& v)
    {
        static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>);
        adapter_.template readBytes<VSIZE>(v);
    }
    template <typename T> void value1b(T&& v) { value<1>(v); }
    template <typename T> void value2b(T&& v) { value<2>(v); }
    template <typename T> void value4b(T&& v) { value<4>(v); }
    template <typename T> void value8b(T&& v) { value<8>(v); }
    void boolValue(bool& v)
    {
        uint8_t b{};
        adapter_.template readBytes<1>(b);
        if (b > 1)
            adapter_.error(ReaderError::InvalidData);
        v = b == 1;
    }

    template <typename T, typename Ext, typename Fnc>
    void ext(T& obj, const Ext& extension, Fnc&& fnc)
    {
        extension.deserialize(*this, obj, std::forward<Fnc>(fnc));
    }
    template <size_t VSIZE, typename T, typename Ext>
    void ext(T& obj, const Ext& extension)
    {
        using V = ext_value<Ext, T>;
        extension.deserialize(*this, obj, [](Deserializer& s, V& v) { s.template value<VSIZE>(v); });
    }
    template <typename T, typename Ext>
    void ext(T& obj, const Ext& extension)
    {
        using V = ext_value<Ext, T>;
        extension.deserialize(*this, obj, [](Deserializer& s, V& v) { s.object(v); });
    }
    template <typename T, typename Ext> void ext1b(T& o, const Ext& e) { ext<1>(o, e); }
    template <typename T, typename Ext> void ext2b(T& o, const Ext& e) { ext<2>(o, e); }
    template <typename T, typename Ext> void ext4b(T& o, const Ext& e) { ext<4>(o, e); }
    template <typename T, typename Ext> void ext8b(T& o, const Ext& e) { ext<8>(o, e); }

    template <size_t VSIZE, typename T>
    void text(T& str, size_t maxSize)
    {
        size_t n = 0;
        constexpr size_t nul = traits::TextTraits<T>::addNUL ? 1u : 0u;
        details::readSize(adapter_, n, maxSize - nul);
        traits::ContainerTraits<T>::resize(str, n + nul);
        if constexpr (VSIZE == 1) {
            if (n)
                adapter_.template readBuffer<1>(&*std::begin(str), n);
        }
        else {
            auto it = std::begin(str);
            for (size_t i = 0; i < n; ++i, ++it)
                value<VSIZE>(*it);
        }
    }
    template <typename T> void text1b(T& s, size_t m) { text<1>(s, m); }
    template <typename T> void text2b(T& s, size_t m) { text<2>(s, m); }
    template <typename T> void text4b(T& s, size_t m) { text<4>(s, m); }

    template <typename T, typename Fnc, typename = std::enable_if_t<!std::is_integral_v<Fnc>>>
    void container(T& obj, size_t maxSize, Fnc&& fnc)
    {
        size_t n = 0;
        details::readSize(adapter_, n, maxSize);
        traits::ContainerTraits<T>::resize(obj, n);
        for (auto it = std::begin(obj); it != std::end(obj); ++it)
            fnc(*this, *it);
    }
    template <size_t VSIZE, typename T>
    void container(T& obj, size_t maxSize)
    {
        container(obj, maxSize, [](Deserializer& s, auto& v) { s.template value<VSIZE>(v); });
    }
    template <typename T>
    void container(T& obj, size_t maxSize)
    {
        container(obj, maxSize, [](Deserializer& s, auto& v) { s.object(v); });
    }
    template <typename T> void container1b(T& o, size_t m) { container<1>(o, m); }
    template <typename T> void container2b(T& o, size_t m) { container<2>(o, m); }
    template <typename T> void container4b(T& o, size_t m) { container<4>(o, m); }
    template <typename T> void container8b(T& o, size_t m) { container<8>(o, m); }

private:
    template <typename Ext, typename T>
    using ext_value = std::conditional_t<
        std::is_void_v<typename traits::ExtensionTraits<Ext, T>::TValue>,
        details::DummyType,
        typename traits::ExtensionTraits<Ext, T>::TValue>;

    TInputAdapter adapter_;
};

}  // namespace bitsery
