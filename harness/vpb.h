// Independent reading and writing of the length-prefixed protobuf frames:
//   size(4, big endian, of what follows) tag payload xxh32(tag payload)(4)
#pragma once
#include "vh.h"
#include <google/protobuf/message.h>
#include <string>
#include <vector>

namespace vh {
// xxHash32 (seed 0), written from its specification
inline uint32_t xxh32(const std::string &s) {
  const uint32_t P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
  auto rot = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
  auto rd = [&](size_t i) { uint32_t v; memcpy(&v, s.data() + i, 4); return v; };
  size_t n = s.size(), i = 0;
  uint32_t h;
  if (n >= 16) {
    uint32_t v[4] = {P1 + P2, P2, 0, 0u - P1};
    for (; i + 16 <= n; i += 16)
      for (int k = 0; k < 4; ++k) v[k] = rot(v[k] + rd(i + 4 * (size_t)k) * P2, 13) * P1;
    h = rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18);
  } else h = P5;
  h += (uint32_t)n;
  for (; i + 4 <= n; i += 4) h = rot(h + rd(i) * P3, 17) * P4;
  for (; i < n; ++i) h = rot(h + (uint8_t)s[i] * P5, 11) * P1;
  h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16;
  return h;
}
inline std::string be32(uint32_t v) {
  char b[4] = {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v};
  return std::string(b, 4);
}
inline uint32_t rd32(const std::string &s, size_t i) {
  return ((uint32_t)(uint8_t)s[i] << 24) | ((uint32_t)(uint8_t)s[i + 1] << 16) | ((uint32_t)(uint8_t)s[i + 2] << 8) | (uint8_t)s[i + 3];
}
inline std::string pb_frame(const std::string &tag, const std::string &payload) {
  std::string b = tag + payload;
  return be32((uint32_t)b.size() + 4) + b + be32(xxh32(b));
}
enum { PB_OK = 0, PB_PARSE = 1, PB_LENGTH = 2, PB_TAG = 3, PB_SUM = 4 };  // as the codec reports them
static const uint32_t PB_MAX = 1u << 26;

// The events that a stream of bytes must produce.
struct PbRef {
  std::string tag;
  const google::protobuf::Message *proto;
  std::string buf;
  size_t pos = 0;
  std::vector<std::string> msgs;  // payloads, reserialized
  int err = 0;                    // the first error; nothing is delivered after it
  bool early = false;             // err may still be unreported: only the length field is complete
  void feed(const char *p, size_t n) {
    buf.append(p, n);
    early = false;
    while (!err) {
      size_t have = buf.size() - pos;
      if (have < 4) return;
      uint32_t sz = rd32(buf, pos);
      if (sz < 4 + tag.size() || sz >= PB_MAX) {
        if (have < 8) { early = true; return; }
        err = PB_LENGTH;
        return;
      }
      if (have < 4 + (size_t)sz) return;
      std::string body = buf.substr(pos + 4, sz - 4);
      std::unique_ptr<google::protobuf::Message> m(proto->New());
      if (xxh32(body) != rd32(buf, pos + sz)) err = PB_SUM;
      else if (body.compare(0, tag.size(), tag)) err = PB_TAG;
      else if (!m->ParseFromString(body.substr(tag.size()))) err = PB_PARSE;
      else { msgs.push_back(m->SerializeAsString()); pos += 4 + sz; }
    }
  }
};
} // namespace vh
