// Stand-in for roscpp_serialization: the same calls, the same layout (little endian, 32-bit lengths), bounds checked.
#pragma once
#include <boost/shared_array.hpp>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
namespace ros {
class SerializedMessage {
 public:
  boost::shared_array<uint8_t> buf;
  size_t num_bytes;
  uint8_t* message_start;
  SerializedMessage() : buf(boost::shared_array<uint8_t>()), num_bytes(0), message_start(nullptr) {}
  SerializedMessage(boost::shared_array<uint8_t> b, size_t n) : buf(b), num_bytes(n), message_start(b ? b.get() : nullptr) {}
};
namespace serialization {
struct StreamOverrunException : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct OStream {
  uint8_t *data, *end;
  OStream(uint8_t* d, uint32_t n) : data(d), end(d + n) {}
  uint8_t* getData() { return data; }
  void put(const void* p, size_t n) {
    if (data + n > end) throw StreamOverrunException("Buffer Overrun");
    std::memcpy(data, p, n);
    data += n;
  }
};
struct IStream {
  uint8_t *data, *end;
  IStream(uint8_t* d, uint32_t n) : data(d), end(d + n) {}
  void get(void* p, size_t n) {
    if (n > (size_t)(end - data)) throw StreamOverrunException("Buffer Overrun");
    std::memcpy(p, data, n);
    data += n;
  }
};
// A message type provides stub_length(m), stub_write(OStream&, m) and stub_read(IStream&, m).
template <class M>
uint32_t serializationLength(const M& m) {
  return stub_length(m);
}
template <class M>
SerializedMessage serializeMessage(const M& message) {
  SerializedMessage m;
  const uint32_t len = serializationLength(message);
  m.num_bytes = len + 4;
  m.buf.reset(new uint8_t[m.num_bytes]);
  OStream s(m.buf.get(), (uint32_t)m.num_bytes);
  s.put(&len, 4);
  m.message_start = s.getData();
  stub_write(s, message);
  return m;
}
template <class M>
void deserializeMessage(const SerializedMessage& m, M& message) {
  IStream s(m.message_start, (uint32_t)(m.num_bytes - (size_t)(m.message_start - m.buf.get())));
  stub_read(s, message);
}
}  // namespace serialization
}  // namespace ros
