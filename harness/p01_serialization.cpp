// P01: serialization of plain values, strings and containers.
#include "trap.hpp"

#include <arc_utilities/serialization.hpp>
using namespace arc_utilities;
typedef std::vector<uint8_t> Buf;

struct Pod {
  int32_t a;
  double b;
  uint8_t c[5];
  bool operator==(const Pod& o) const { return a == o.a && b == o.b && memcmp(c, o.c, 5) == 0; }
};

// ---------------------------------------------------------------- boundary values
template <typename T>
std::vector<T> full_alphabet() {
  std::vector<T> v = {T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(0x12), T(0x80),
                      T(0x7f)};
  if (sizeof(T) > 1) v.push_back(T(0x1234)), v.push_back(T(256)), v.push_back(T(0x80ff));
  if (sizeof(T) > 2) v.push_back(T(0x12345678)), v.push_back(T(0x00ff00ff));
  if (sizeof(T) > 4) v.push_back(T(0x123456789abcdef0ll)), v.push_back(T(0x00ff00ff00ff00ffll));
  if (!std::numeric_limits<T>::is_integer) {
    v.push_back(T(-0.0));
    v.push_back(T(1.5));
    v.push_back(std::numeric_limits<T>::infinity());
    v.push_back(std::numeric_limits<T>::denorm_min());
    v.push_back(std::numeric_limits<T>::quiet_NaN());
  }
  return v;
}
template <typename T>
bool same(const T& a, const T& b) {
  return a == b;
}
bool same(const float& a, const float& b) { return memcmp(&a, &b, sizeof a) == 0; }
bool same(const double& a, const double& b) { return memcmp(&a, &b, sizeof a) == 0; }

// big-endian reference encoding
template <typename T>
void be(const T& v, Buf& b) {
  const uint8_t* p = (const uint8_t*)&v;
  for (size_t i = 0; i < sizeof(T); i++) b.push_back(p[sizeof(T) - 1 - i]);
}

// ---------------------------------------------------------------- codecs: T -> serializer, deserializer, generator
template <typename T, bool N>
struct C {
  static uint64_t ser(const T& v, Buf& b) { return SerializeFixedSizePOD<T>(v, b); }
  static std::pair<T, uint64_t> des(const Buf& b, const uint64_t c) { return DeserializeFixedSizePOD<T>(b, c); }
  static T gen(mc::Run& r) {
    static const T vals[] = {T(0), std::numeric_limits<T>::max(), T(1), T(3)};
    return vals[r.choose(2, "value")];
  }
  static std::string show(const T& v) { return mc::str(+v); }
  static void enc(const T&, Buf&) {}
};
template <typename T>
struct CNet {
  static uint64_t ser(const T& v, Buf& b) { return SerializeNetworkFixedSizePOD<T>(v, b); }
  static std::pair<T, uint64_t> des(const Buf& b, const uint64_t c) { return DeserializeNetworkFixedSizePOD<T>(b, c); }
  static T gen(mc::Run& r) { return C<T, false>::gen(r); }
  static std::string show(const T& v) { return mc::str(+v); }
  static void enc(const T& v, Buf& b) { be(v, b); }
};
#define NETPOD(T) \
  template <>     \
  struct C<T, true> : CNet<T> {};
NETPOD(uint8_t) NETPOD(int8_t) NETPOD(uint16_t) NETPOD(int16_t) NETPOD(uint32_t) NETPOD(int32_t) NETPOD(uint64_t)
    NETPOD(int64_t) NETPOD(float) NETPOD(double)

        template <typename Ch>
        struct C<std::basic_string<Ch>, false> {
  typedef std::basic_string<Ch> T;
  static uint64_t ser(const T& v, Buf& b) { return SerializeString<Ch>(v, b); }
  static std::pair<T, uint64_t> des(const Buf& b, const uint64_t c) { return DeserializeString<Ch>(b, c); }
  static T gen(mc::Run& r) {
    size_t n = (size_t)r.choose(3, "string length");
    T s;
    for (size_t i = 0; i < n; i++) s.push_back(r.flip("char") ? (Ch)(i ? -1 : 0) : (Ch)('a' + i));
    return s;
  }
  static std::string show(const T& v) { return "str" + mc::str(v.size()); }
  static void enc(const T&, Buf&) {}
};
template <typename Ch>
struct C<std::basic_string<Ch>, true> {
  typedef std::basic_string<Ch> T;
  static uint64_t ser(const T& v, Buf& b) { return SerializeNetworkString<Ch>(v, b); }
  static std::pair<T, uint64_t> des(const Buf& b, const uint64_t c) { return DeserializeNetworkString<Ch>(b, c); }
  static T gen(mc::Run& r) { return C<T, false>::gen(r); }
  static std::string show(const T& v) { return "str" + mc::str(v.size()); }
  static void enc(const T& v, Buf& b) {
    be((uint64_t)v.size(), b);
    for (Ch c : v) be(c, b);
  }
};
template <typename E, bool N>
struct C<std::vector<E>, N> {
  typedef std::vector<E> T;
  static uint64_t ser(const T& v, Buf& b) {
    return N ? SerializeNetworkVector<E>(v, b, C<E, N>::ser) : SerializeVector<E>(v, b, C<E, N>::ser);
  }
  static std::pair<T, uint64_t> des(const Buf& b, const uint64_t c) {
    return N ? DeserializeNetworkVector<E>(b, c, C<E, N>::des) : DeserializeVector<E>(b, c, C<E, N>::des);
  }
  static T gen(mc::Run& r) {
    size_t n = (size_t)r.choose(3, "vector length");
    T s;
    for (size_t i = 0; i < n; i++) s.push_back(C<E, N>::gen(r));
    return s;
  }
  static std::string show(const T& v) {
    std::string s = "[";
    for (auto& e : v) s += C<E, N>::show(e) + ",";
    return s + "]";
  }
  static void enc(const T& v, Buf& b) {
    be((uint64_t)v.size(), b);
    for (auto& e : v) C<E, N>::enc(e, b);
  }
};
template <typename A, typename B, bool N>
struct C<std::pair<A, B>, N> {
  typedef std::pair<A, B> T;
  static uint64_t ser(const T& v, Buf& b) {
    return N ? SerializeNetworkPair<A, B>(v, b, C<A, N>::ser, C<B, N>::ser)
             : SerializePair<A, B>(v, b, C<A, N>::ser, C<B, N>::ser);
  }
  static std::pair<T, uint64_t> des(const Buf& b, const uint64_t c) {
    return N ? std::pair<T, uint64_t>(DeserializeNetworkPair<A, B>(b, c, C<A, N>::des, C<B, N>::des))
             : std::pair<T, uint64_t>(DeserializePair<A, B>(b, c, C<A, N>::des, C<B, N>::des));
  }
  static T gen(mc::Run& r) {
    A a = C<A, N>::gen(r);
    B b = C<B, N>::gen(r);
    return T(a, b);
  }
  static std::string show(const T& v) { return "(" + C<A, N>::show(v.first) + "," + C<B, N>::show(v.second) + ")"; }
  static void enc(const T& v, Buf& b) {
    C<A, N>::enc(v.first, b);
    C<B, N>::enc(v.second, b);
  }
};
template <typename K, typename V, bool N>
struct C<std::map<K, V>, N> {
  typedef std::map<K, V> T;
  static uint64_t ser(const T& v, Buf& b) {
    return N ? SerializeNetworkMap<K, V>(v, b, C<K, N>::ser, C<V, N>::ser)
             : SerializeMap<K, V>(v, b, C<K, N>::ser, C<V, N>::ser);
  }
  static std::pair<T, uint64_t> des(const Buf& b, const uint64_t c) {
    return N ? DeserializeNetworkMap<K, V>(b, c, C<K, N>::des, C<V, N>::des)
             : DeserializeMap<K, V>(b, c, C<K, N>::des, C<V, N>::des);
  }
  static T gen(mc::Run& r) {
    size_t n = (size_t)r.choose(3, "map size");
    T s;
    for (size_t i = 0; i < n; i++) {
      K k = C<K, N>::gen(r);
      V v = C<V, N>::gen(r);
      s[k] = v;
    }
    return s;
  }
  static std::string show(const T& v) {
    std::string s = "{";
    for (auto& e : v) s += C<K, N>::show(e.first) + ":" + C<V, N>::show(e.second) + ",";
    return s + "}";
  }
  static void enc(const T& v, Buf& b) {
    be((uint64_t)v.size(), b);
    for (auto& e : v) {
      C<K, N>::enc(e.first, b);
      C<V, N>::enc(e.second, b);
    }
  }
};

// vector-like containers that are not std::vector<T>
struct VLstr : std::basic_string<uint16_t> {};
template <bool N>
struct C<std::basic_string<uint16_t, std::char_traits<uint16_t>, std::allocator<uint16_t>>*, N>;

// ---------------------------------------------------------------- the check itself
static const uint8_t JUNK[] = {0xff, 0x00, 0x03, 0x80, 0x01, 0xaa, 0x7f, 0x10, 0x55};
static Buf junk(size_t n) {
  Buf b;
  for (size_t i = 0; i < n; i++) b.push_back(JUNK[i % 9]);
  return b;
}

template <typename T, bool N>
void check_value(mc::Run& r, const T& v, size_t pre, size_t suf, bool cuts, size_t cut_stride = 1) {
  typedef C<T, N> K;
  Buf b = junk(pre);
  const Buf before = b;
  const T copy = v;
  const uint64_t n = K::ser(v, b);
  r.step();
  MC_CHECK(same(copy, v), "the value being serialized was modified");
  MC_CHECK(n == b.size() - pre, mc::cat("reported ", n, " bytes, appended ", b.size() - pre));
  MC_CHECK(Buf(b.begin(), b.begin() + (long)pre) == before, "earlier bytes were changed");
  if (N) {
    Buf e;
    K::enc(v, e);
    MC_CHECK(Buf(b.begin() + (long)pre, b.end()) == e, mc::cat("network encoding is ", b, " expected (after prefix) ", e));
  }
  const Buf exact = b;
  Buf j = junk(suf);
  b.insert(b.end(), j.begin(), j.end());
  const Buf full = b;
  const std::pair<T, uint64_t> d = K::des(b, pre);
  r.step();
  MC_CHECK(d.second == n, mc::cat("read ", d.second, " bytes, wrote ", n));
  MC_CHECK(same(d.first, v), "decoded value differs");
  MC_CHECK(b == full, "the buffer was modified by reading");
  r.state(mc::cat(N ? 1 : 0, "/", pre, "/", mc::hash_bytes(exact.data(), exact.size())));
  if (cuts) {
    for (size_t cut = pre; cut < exact.size(); cut += (cut + 24 < exact.size() && cut > pre + 24 ? cut_stride : 1)) {
      Buf t(exact.begin(), exact.begin() + (long)cut);
      t.shrink_to_fit();
      r.step();
      MC_CHECK(trap::refused([&]() { K::des(t, pre); }), mc::cat("a value cut after ", cut - pre, " of ", n, " bytes was accepted"));
    }
  }
}

template <typename T>
struct PodTable {
  static void go(mc::Run& r) {
    const std::vector<T> a = full_alphabet<T>();
    const T v = a[(size_t)r.choose((int)a.size(), "value")];
    const size_t pre = (size_t)r.choose(9, "prefix length");
    const size_t suf = (size_t)r.choose(3, "suffix") * 4;
    if (r.flip("network order")) {
      check_value<T, true>(r, v, pre, suf, true);
    } else {
      check_value<T, false>(r, v, pre, suf, true);
    }
  }
};

MC_SCENARIO(plain_values, "10 arithmetic types x boundary values x 9 prefix lengths x 3 suffixes x host/network order, every truncation", 2) {
  switch (r.choose(10, "type")) {
    case 0: return PodTable<uint8_t>::go(r);
    case 1: return PodTable<int8_t>::go(r);
    case 2: return PodTable<uint16_t>::go(r);
    case 3: return PodTable<int16_t>::go(r);
    case 4: return PodTable<uint32_t>::go(r);
    case 5: return PodTable<int32_t>::go(r);
    case 6: return PodTable<uint64_t>::go(r);
    case 7: return PodTable<int64_t>::go(r);
    case 8: return PodTable<float>::go(r);
    default: return PodTable<double>::go(r);
  }
}

template <>
struct C<Pod, false> {
  static uint64_t ser(const Pod& v, Buf& b) { return SerializeFixedSizePOD<Pod>(v, b); }
  static std::pair<Pod, uint64_t> des(const Buf& b, const uint64_t c) { return DeserializeFixedSizePOD<Pod>(b, c); }
  static void enc(const Pod&, Buf&) {}
};

MC_SCENARIO(structs_bytes, "a 24-byte struct with every byte of its fields varied; all 256 values of a byte", 1) {
  const size_t pre = (size_t)r.choose(4, "prefix");
  if (r.flip("struct")) {
    Pod p;
    memset((void*)&p, 0, sizeof p);
    uint8_t* q = (uint8_t*)&p.a;
    for (int i = 0; i < 4; i++) q[i] = (uint8_t)(r.flip("a byte") ? 0x81 + i : 0);
    p.b = r.flip("b") ? -1.25e-300 : 3.0;
    for (int i = 0; i < 5; i++) p.c[i] = (uint8_t)(r.flip("c byte") ? 0xfe - i : i);
    check_value<Pod, false>(r, p, pre, 2, true);
  } else {
    const uint8_t v = (uint8_t)r.choose(256, "byte");
    const int t = r.choose(4, "as");
    if (t == 0) check_value<uint8_t, false>(r, v, pre, 2, true);
    if (t == 1) check_value<uint8_t, true>(r, v, pre, 2, true);
    if (t == 2) check_value<char, false>(r, (char)v, pre, 2, true);
    if (t == 3) check_value<bool, false>(r, (v & 1) != 0, pre, 2, true);
  }
}

template <typename T, bool N>
void one(mc::Run& r) {
  T v = C<T, N>::gen(r);
  const size_t pre = (size_t)r.choose(3, "prefix") * 3;
  const size_t suf = (size_t)r.choose(2, "suffix") * 9;
  r.note([&]() { return C<T, N>::show(v); });
  check_value<T, N>(r, v, pre, suf, true);
}
typedef std::basic_string<uint8_t> ustring;
typedef std::basic_string<uint16_t> u16s;
template <bool N, typename Str>
void container(mc::Run& r) {
  switch (r.choose(14, "type")) {
    case 0: return one<std::vector<uint16_t>, N>(r);
    case 1: return one<Str, N>(r);
    case 2: return one<std::pair<uint8_t, double>, N>(r);
    case 3: return one<std::map<uint8_t, int32_t>, N>(r);
    case 4: return one<std::vector<std::vector<uint8_t>>, N>(r);
    case 5: return one<std::vector<Str>, N>(r);
    case 6: return one<std::vector<std::pair<uint8_t, uint16_t>>, N>(r);
    case 7: return one<std::map<Str, uint8_t>, N>(r);
    case 8: return one<std::map<uint16_t, std::vector<uint8_t>>, N>(r);
    case 9: return one<std::pair<std::vector<uint8_t>, std::map<uint8_t, uint8_t>>, N>(r);
    case 10: return one<std::map<std::pair<uint8_t, int16_t>, float>, N>(r);
    case 11: return one<std::pair<Str, std::pair<int64_t, Str>>, N>(r);
    case 12: return one<std::vector<double>, N>(r);
    default: return one<std::map<std::vector<uint8_t>, std::vector<uint16_t>>, N>(r);
  }
}
MC_SCENARIO(containers_host, "14 container nestings, up to 2 elements per level over 2-value alphabets, 3 prefixes, 2 suffixes, every truncation", 3) {
  container<false, std::string>(r);
}
MC_SCENARIO(containers_network, "the same nestings in network order; bytes compared with a big-endian reference encoder", 3) {
  container<true, ustring>(r);
}
MC_SCENARIO(wide_strings, "strings of 1, 2 and 4 byte characters, lengths 0..2, host and network", 1) {
  switch (r.choose(6, "kind")) {
    case 0: return one<std::basic_string<char16_t>, false>(r);
    case 1: return one<std::basic_string<char32_t>, false>(r);
    case 2: return one<std::wstring, false>(r);
    case 3: return one<u16s, true>(r);
    case 4: return one<std::basic_string<uint32_t>, true>(r);
    default: return one<std::basic_string<int8_t>, true>(r);
  }
}

// deeper: three elements, one level
MC_SCENARIO(triples, "vectors, strings and maps with exactly three elements over boundary alphabets", 3) {
  const bool net = r.flip("network");
  const int kind = r.choose(5, "kind");
  static const uint16_t av[] = {0, 1, 0x1234, 0xffff};
  uint16_t x[3];
  for (int i = 0; i < 3; i++) x[i] = av[r.choose(4, "element")];
  std::vector<uint16_t> v(x, x + 3);
  std::map<uint16_t, double> m;
  std::vector<std::pair<uint16_t, uint64_t>> vp;
  std::vector<std::vector<uint16_t>> vv;
  u16s s(x, x + 3);
  for (int i = 0; i < 3; i++) {
    m[x[i]] = i + 0.5;
    vp.push_back({x[i], (uint64_t)i << 40});
    vv.push_back(std::vector<uint16_t>((size_t)i, x[i]));
  }
  if (net) {
    if (kind == 0) check_value<std::vector<uint16_t>, true>(r, v, 1, 1, true);
    if (kind == 1) check_value<std::map<uint16_t, double>, true>(r, m, 1, 1, true);
    if (kind == 2) check_value<std::vector<std::pair<uint16_t, uint64_t>>, true>(r, vp, 1, 1, true);
    if (kind == 3) check_value<std::vector<std::vector<uint16_t>>, true>(r, vv, 1, 1, true);
    if (kind == 4) check_value<u16s, true>(r, s, 1, 1, true);
  } else {
    if (kind == 0) check_value<std::vector<uint16_t>, false>(r, v, 1, 1, true);
    if (kind == 1) check_value<std::map<uint16_t, double>, false>(r, m, 1, 1, true);
    if (kind == 2) check_value<std::vector<std::pair<uint16_t, uint64_t>>, false>(r, vp, 1, 1, true);
    if (kind == 3) check_value<std::vector<std::vector<uint16_t>>, false>(r, vv, 1, 1, true);
    if (kind == 4) check_value<u16s, false>(r, s, 1, 1, true);
  }
}

// lengths at which a narrower size header or counter would wrap
MC_SCENARIO(long_values, "lengths around 2^8 and 2^16 for every container kind, host and network", 2) {
  static const size_t L[] = {127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 65537};
  const size_t n = L[r.choose(10, "length")];
  const bool net = r.flip("network");
  const int kind = r.choose(4, "kind");
  const size_t stride = n / 7 + 1;
  std::vector<uint8_t> v(n);
  std::vector<uint16_t> w(n);
  std::map<uint32_t, uint8_t> m;
  ustring us;
  for (size_t i = 0; i < n; i++) {
    v[i] = (uint8_t)(i * 7 + (i >> 8));
    w[i] = (uint16_t)(i * 3);
    us.push_back(v[i]);
    if (kind == 2) m[(uint32_t)i * 5] = v[i];
  }
  std::string s(us.begin(), us.end());
  if (net) {
    if (kind == 0) check_value<std::vector<uint8_t>, true>(r, v, 3, 1, true, stride);
    if (kind == 1) check_value<std::vector<uint16_t>, true>(r, w, 3, 1, true, stride);
    if (kind == 2) check_value<std::map<uint32_t, uint8_t>, true>(r, m, 3, 1, true, stride);
    if (kind == 3) check_value<ustring, true>(r, us, 3, 1, true, stride);
  } else {
    if (kind == 0) check_value<std::vector<uint8_t>, false>(r, v, 3, 1, true, stride);
    if (kind == 1) check_value<std::vector<uint16_t>, false>(r, w, 3, 1, true, stride);
    if (kind == 2) check_value<std::map<uint32_t, uint8_t>, false>(r, m, 3, 1, true, stride);
    if (kind == 3) check_value<std::string, false>(r, s, 3, 1, true, stride);
  }
}

// vector-like entry points
struct Small {  // minimal vector-like container
  std::vector<int32_t> d;
  size_t size() const { return d.size(); }
  const int32_t& operator[](size_t i) const { return d[i]; }
  void reserve(size_t n) { d.reserve(n); }
  void push_back(int32_t v) { d.push_back(v); }
  void shrink_to_fit() {}
};
MC_SCENARIO(vector_like, "vector-like containers of length 0..4 over boundary values", 2) {
  const size_t n = (size_t)r.choose(5, "length");
  const size_t pre = (size_t)r.choose(3, "prefix");
  const bool user = r.flip("user container");
  static const int32_t vals[] = {0, -1, 0x12345678};
  Small s;
  std::vector<int32_t> v;
  for (size_t i = 0; i < n; i++) {
    int32_t x = vals[r.choose(3, "element")];
    s.push_back(x);
    v.push_back(x);
  }
  Buf b = junk(pre);
  const Buf before = b;
  uint64_t w = user ? SerializeVectorLike<int32_t, Small>(s, b, SerializeFixedSizePOD<int32_t>)
                    : SerializeVectorLike<int32_t>(v, b, SerializeFixedSizePOD<int32_t>);
  r.step();
  MC_CHECK(w == b.size() - pre, "byte count");
  MC_CHECK(Buf(b.begin(), b.begin() + (long)pre) == before, "earlier bytes were changed");
  const Buf exact = b;
  for (int k = 0; k < 3; k++) b.push_back(9);
  auto read = [&](const Buf& x) {
    if (user) {
      auto d = DeserializeVectorLike<int32_t, Small>(x, pre, DeserializeFixedSizePOD<int32_t>);
      return std::make_pair(d.first.d, d.second);
    }
    return DeserializeVectorLike<int32_t>(x, pre, DeserializeFixedSizePOD<int32_t>);
  };
  auto d = read(b);
  MC_CHECK(d.first == v && d.second == w, "decoded value or length differs");
  r.state(mc::cat(pre, v, user));
  for (size_t cut = pre; cut < exact.size(); cut++) {
    Buf t(exact.begin(), exact.begin() + (long)cut);
    r.step();
    MC_CHECK(trap::refused([&]() { read(t); }), mc::cat("accepted a value cut at ", cut - pre));
  }
}

// several values written one after the other and read back in order
struct Item {
  int kind;
  uint64_t n;
};
MC_SCENARIO(sequences, "all sequences of up to 4 values of 8 kinds written to one buffer, read back in order", 3) {
  const int len = 1 + r.choose(r.bound(4, 5), "length");
  std::vector<int> kinds;
  std::vector<uint64_t> sizes;
  Buf b;
  std::vector<uint8_t> va = {1, 2, 3};
  std::string st = "a\0b";
  st = std::string("a\0b", 3);
  std::map<uint8_t, std::string> mp;
  mp[4] = "x";
  mp[9] = "";
  std::pair<int32_t, std::vector<double>> pr(-5, {0.5, -0.0});
  const uint16_t u = 0x1234;
  const double dd = -2.5;
  std::vector<uint8_t> ve;
  std::map<uint16_t, uint16_t> nm = {{0x0102, 0x0304}, {0xff00, 1}};
  typedef C<decltype(mp), false> CM;
  typedef C<decltype(pr), false> CP;
  typedef C<decltype(nm), true> CN;
  std::vector<Buf> prefixes;
  for (int i = 0; i < len; i++) {
    int k = r.choose(8, "kind");
    kinds.push_back(k);
    const Buf before = b;
    uint64_t w = 0;
    switch (k) {
      case 0: w = SerializeFixedSizePOD<uint16_t>(u, b); break;
      case 1: w = SerializeVector<uint8_t>(va, b, SerializeFixedSizePOD<uint8_t>); break;
      case 2: w = SerializeString<char>(st, b); break;
      case 3: w = CM::ser(mp, b); break;
      case 4: w = CP::ser(pr, b); break;
      case 5: w = SerializeNetworkFixedSizePOD<double>(dd, b); break;
      case 6: w = SerializeVector<uint8_t>(ve, b, SerializeFixedSizePOD<uint8_t>); break;
      default: w = CN::ser(nm, b); break;
    }
    r.step();
    MC_CHECK(w == b.size() - before.size(), "byte count");
    MC_CHECK(Buf(b.begin(), b.begin() + (long)before.size()) == before, "earlier bytes were changed");
    sizes.push_back(w);
  }
  uint64_t pos = 0;
  for (int i = 0; i < len; i++) {
    uint64_t rd = 0;
    bool eq = false;
    switch (kinds[(size_t)i]) {
      case 0: { auto d = DeserializeFixedSizePOD<uint16_t>(b, pos); eq = d.first == u; rd = d.second; break; }
      case 1: { auto d = DeserializeVector<uint8_t>(b, pos, DeserializeFixedSizePOD<uint8_t>); eq = d.first == va; rd = d.second; break; }
      case 2: { auto d = DeserializeString<char>(b, pos); eq = d.first == st; rd = d.second; break; }
      case 3: { auto d = CM::des(b, pos); eq = d.first == mp; rd = d.second; break; }
      case 4: { auto d = CP::des(b, pos); eq = d.first == pr; rd = d.second; break; }
      case 5: { auto d = DeserializeNetworkFixedSizePOD<double>(b, pos); eq = d.first == dd; rd = d.second; break; }
      case 6: { auto d = DeserializeVector<uint8_t>(b, pos, DeserializeFixedSizePOD<uint8_t>); eq = d.first == ve; rd = d.second; break; }
      default: { auto d = CN::des(b, pos); eq = d.first == nm; rd = d.second; break; }
    }
    r.step();
    MC_CHECK(eq, mc::cat("value ", i, " of kind ", kinds[(size_t)i], " differs"));
    MC_CHECK(rd == sizes[(size_t)i], mc::cat("value ", i, " read length"));
    pos += rd;
  }
  MC_CHECK(pos == b.size(), "bytes left over");
  r.state(mc::str(kinds));
}
