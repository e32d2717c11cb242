// Stand-in for bitsery v5.2 (https://github.com/fraillt/bitsery), which is not installed in
// this sandbox. It covers the API that simfil uses with the wire format of the original:
// little-endian fixed-size values, and container sizes in 1, 2 or 4 bytes.
#pragma once

#include "details/core.h"
#include "serializer.h"
#include "deserializer.h"

#define BITSERY_MAJOR_VERSION 5
#define BITSERY_MINOR_VERSION 2
#define BITSERY_PATCH_VERSION 3

namespace bitsery
{

/// Serialize an object into an output adapter; returns the number of bytes written.
template <typename OutputAdapter, typename T>
size_t quickSerialization(OutputAdapter adapter, const T& value)
{
    Serializer<OutputAdapter> s(std::move(adapter));
    s.object(value);
    s.adapter().flush();
    return s.adapter().writtenBytesCount();
}

/// Deserialize an object; returns the error state and whether the whole input was used.
template <typename InputAdapter, typename T>
std::pair<ReaderError, bool> quickDeserialization(InputAdapter adapter, T& value)
{
    Deserializer<InputAdapter> s(std::move(adapter));
    s.object(value);
    return {s.adapter().error(), s.adapter().isCompletedSuccessfully()};
}

}  // namespace bitsery
