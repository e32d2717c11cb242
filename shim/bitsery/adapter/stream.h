#pragma once

#include "../details/core.h"
#include "../traits/core/std_defaults.h"

#include <istream>
#include <ostream>

namespace bitsery
{

template <typename Char = char, typename Config = DefaultConfig, typename Traits = std::char_traits<Char>>
class BasicInputStreamAdapter
    : public details::InputBase<BasicInputStreamAdapter<Char, Config, Traits>>
{
public:
    using BitPackingEnabled = std::false_type;
    using TConfig = Config;
    using TValue = Char;
    BasicInputStreamAdapter(std::basic_istream<Char, Traits>& is) : is_(&is) {}

    bool isCompletedSuccessfully() const
    {
        return error_ == ReaderError::NoError && is_->rdbuf()->sgetc() == Traits::eof();
    }
    ReaderError error() const { return error_; }
    void error(ReaderError e)
    {
        if (error_ == ReaderError::NoError)
            error_ = e;
    }
    void readRaw(uint8_t* p, size_t n)
    {
        if (is_->rdbuf()->sgetn(reinterpret_cast<Char*>(p), static_cast<std::streamsize>(n)) !=
            static_cast<std::streamsize>(n)) {
            *p = {};
            error(is_->rdstate() == std::ios_base::badbit ? ReaderError::ReadingError
                                                          : ReaderError::DataOverflow);
        }
    }

private:
    std::basic_istream<Char, Traits>* is_;
    ReaderError error_ = ReaderError::NoError;
};

template <typename Char = char, typename Config = DefaultConfig, typename Traits = std::char_traits<Char>>
class BasicOutputStreamAdapter
    : public details::OutputBase<BasicOutputStreamAdapter<Char, Config, Traits>>
{
public:
    using BitPackingEnabled = std::false_type;
    using TConfig = Config;
    using TValue = Char;
    BasicOutputStreamAdapter(std::basic_ostream<Char, Traits>& os) : os_(&os) {}
    void flush() { os_->flush(); }
    size_t writtenBytesCount() const { return static_cast<size_t>(os_->tellp()); }
    void writeRaw(const uint8_t* p, size_t n)
    {
        os_->rdbuf()->sputn(reinterpret_cast<const Char*>(p), static_cast<std::streamsize>(n));
    }

private:
    std::basic_ostream<Char, Traits>* os_;
};

using InputStreamAdapter = BasicInputStreamAdapter<>;
using OutputStreamAdapter = BasicOutputStreamAdapter<>;
using OutputBufferedStreamAdapter = BasicOutputStreamAdapter<>;

}  // namespace bitsery
