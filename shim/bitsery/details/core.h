#pragma once

#include <bit>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <type_traits>
#include <utility>

namespace bitsery
{

enum class EndiannessType { LittleEndian, BigEndian };

struct DefaultConfig
{
    static constexpr EndiannessType Endianness = EndiannessType::LittleEndian;
    static constexpr bool CheckDataErrors = true;
    static constexpr bool CheckAdapterErrors = true;
};

enum class ReaderError {
    NoError,
    ReadingError,  // this might be used with stream adapter
    DataOverflow,
    InvalidData,
    InvalidPointer
};

/// Grants the library access to private serialize functions and constructors.
class Access
{
public:
    template <typename S, typename T>
    static auto serialize(S& s, T& obj) -> decltype(obj.serialize(s))
    {
        obj.serialize(s);
    }
    template <typename T>
    static T create()
    {
        return T{};
    }
    template <typename T>
    static auto swap_(T& a, T& b) { using std::swap; swap(a, b); }
};

namespace traits
{
template <typename T>
struct ContainerTraits;
template <typename T>
struct TextTraits;
template <typename Ext, typename T>
struct ExtensionTraits;
template <typename T>
struct BufferAdapterTraits;
}  // namespace traits

namespace details
{

template <size_t N>
struct uint_of;
template <> struct uint_of<1> { using type = uint8_t; };
template <> struct uint_of<2> { using type = uint16_t; };
template <> struct uint_of<4> { using type = uint32_t; };
template <> struct uint_of<8> { using type = uint64_t; };

struct DummyType {};

template <typename S, typename T>
auto invokeSerialize(S& s, T& v, int) -> decltype(Access::serialize(s, v), void())
{
    Access::serialize(s, v);
}
template <typename S, typename T>
auto invokeSerialize(S& s, T& v, long) -> decltype(serialize(s, v), void())
{
    serialize(s, v);
}

template <typename Writer>
void writeSize(Writer& w, size_t size)
{
    if (size < 0x80u) {
        w.template writeBytes<1>(static_cast<uint8_t>(size));
    }
    else if (size < 0x4000u) {
        w.template writeBytes<1>(static_cast<uint8_t>((size >> 8) | 0x80u));
        w.template writeBytes<1>(static_cast<uint8_t>(size));
    }
    else {
        assert(size < 0x40000000u);
        w.template writeBytes<1>(static_cast<uint8_t>((size >> 24) | 0xC0u));
        w.template writeBytes<1>(static_cast<uint8_t>(size >> 16));
        w.template writeBytes<2>(static_cast<uint16_t>(size));
    }
}

template <typename Reader>
void readSize(Reader& r, size_t& size, size_t maxSize)
{
    uint8_t hb{};
    r.template readBytes<1>(hb);
    if (hb < 0x80u) {
        size = hb;
    }
    else {
        uint8_t lb{};
        r.template readBytes<1>(lb);
        if (hb & 0x40u) {
            uint16_t lw{};
            r.template readBytes<2>(lw);
            size = ((((hb & 0x3Fu) << 8) | lb) << 16) | lw;
        }
        else {
            size = ((hb & 0x7Fu) << 8) | lb;
        }
    }
    if (size > maxSize) {
        r.error(ReaderError::InvalidData);
        size = 0;
    }
}

/// Writes values little-endian through Derived::writeRaw(const uint8_t*, size_t).
template <typename Derived>
struct OutputBase
{
    template <size_t SIZE, typename T>
    void writeBytes(const T& v)
    {
        static_assert(sizeof(T) == SIZE, "serialized value size does not match its type");
        uint8_t raw[SIZE];
        std::memcpy(raw, &v, SIZE);
        if constexpr (std::endian::native == std::endian::big)
            for (size_t i = 0; i < SIZE / 2; ++i)
                std::swap(raw[i], raw[SIZE - 1 - i]);
        static_cast<Derived*>(this)->writeRaw(raw, SIZE);
    }
    template <size_t SIZE, typename T>
    void writeBuffer(const T* p, size_t count)
    {
        for (size_t i = 0; i < count; ++i)
            writeBytes<SIZE>(p[i]);
    }
    void align() {}
};

/// Reads values little-endian through Derived::readRaw(uint8_t*, size_t). As in the original,
/// a failed read zeroes only the first byte and the first error is kept.
template <typename Derived>
struct InputBase
{
    template <size_t SIZE, typename T>
    void readBytes(T& v)
    {
        static_assert(sizeof(T) == SIZE, "serialized value size does not match its type");
        uint8_t raw[SIZE];
        std::memcpy(raw, &v, SIZE);
        static_cast<Derived*>(this)->readRaw(raw, SIZE);
        if constexpr (std::endian::native == std::endian::big)
            for (size_t i = 0; i < SIZE / 2; ++i)
                std::swap(raw[i], raw[SIZE - 1 - i]);
        if constexpr (std::is_same_v<T, bool>)
            v = raw[0] != 0;
        else
            std::memcpy(&v, raw, SIZE);
    }
    template <size_t SIZE, typename T>
    void readBuffer(T* p, size_t count)
    {
        static_assert(sizeof(T) == SIZE);
        if (count)
            static_cast<Derived*>(this)->readRaw(reinterpret_cast<uint8_t*>(p), SIZE * count);
    }
    void align() {}
};

}  // namespace details
}  // namespace bitsery
