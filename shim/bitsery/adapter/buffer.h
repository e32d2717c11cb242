#pragma once

#include "../details/core.h"
#include "../traits/core/std_defaults.h"

namespace bitsery
{

template <typename Buffer, typename Config = DefaultConfig>
class InputBufferAdapter : public details::InputBase<InputBufferAdapter<Buffer, Config>>
{
public:
    using BitPackingEnabled = std::false_type;
    using TConfig = Config;
    using TIterator = typename Buffer::const_iterator;
    using TValue = uint8_t;
    InputBufferAdapter(TIterator begin, size_t size) : it_(begin), left_(size) {}
    InputBufferAdapter(TIterator begin, TIterator end)
        : it_(begin), left_(static_cast<size_t>(std::distance(begin, end)))
    {}

    size_t currentReadPos() const { return pos_; }
    bool isCompletedSuccessfully() const { return error_ == ReaderError::NoError && left_ == 0; }
    ReaderError error() const { return error_; }
    void error(ReaderError e)
    {
        if (error_ == ReaderError::NoError) {
            error_ = e;
            left_ = 0;
        }
    }
    void readRaw(uint8_t* p, size_t n)
    {
        if (n > left_) {
            std::memset(p, 0, n);
            error(ReaderError::DataOverflow);
            return;
        }
        for (size_t i = 0; i < n; ++i, ++it_)
            p[i] = static_cast<uint8_t>(*it_);
        left_ -= n;
        pos_ += n;
    }

private:
    TIterator it_;
    size_t left_;
    size_t pos_ = 0;
    ReaderError error_ = ReaderError::NoError;
};

template <typename Buffer, typename Config = DefaultConfig>
class OutputBufferAdapter : public details::OutputBase<OutputBufferAdapter<Buffer, Config>>
{
public:
    using BitPackingEnabled = std::false_type;
    using TConfig = Config;
    using TValue = uint8_t;
    OutputBufferAdapter(Buffer& b) : buf_(&b) {}
    void flush() {}
    size_t writtenBytesCount() const { return pos_; }
    size_t currentWritePos() const { return pos_; }
    void writeRaw(const uint8_t* p, size_t n)
    {
        if (pos_ + n > buf_->size())
            traits::ContainerTraits<Buffer>::resize(*buf_, (pos_ + n) * 2);
        auto it = std::begin(*buf_) + static_cast<std::ptrdiff_t>(pos_);
        for (size_t i = 0; i < n; ++i, ++it)
            *it = p[i];
        pos_ += n;
    }

private:
    Buffer* buf_;
    size_t pos_ = 0;
};

}  // namespace bitsery
