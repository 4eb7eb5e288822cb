#include "trap.hpp"

#include <arc_utilities/zlib_helpers.hpp>
typedef std::vector<uint8_t> Bytes;

// A scratch folder inside the check's own working directory.
struct Dir {
  std::string path;
  Dir() {
    char t[] = "./zfsXXXXXX";
    path = mkdtemp(t);
  }
  ~Dir() {
    for (const char* s : {"f", "f.0", "f.1", "f.2", "f.3", "f.4", "f.5", "f.6", "f.7", "f.8", "g"}) unlink((path + "/" + s).c_str());
    rmdir(path.c_str());
  }
  std::string operator()(const std::string& n) const { return path + "/" + n; }
};
static void quiet() { std::cerr.setstate(std::ios::failbit); }
static Bytes fill(int pattern, size_t n) {
  Bytes b(n);
  uint64_t x = 88172645463325252ull + (uint64_t)pattern;
  for (size_t i = 0; i < n; i++) {
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    b[i] = (uint8_t)(pattern == 0 ? 0 : pattern == 1 ? i : pattern == 2 ? x >> 32 : (i / 1000) % 2 ? x >> 32 : 7);
  }
  return b;
}
static Bytes slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
static void spew(const std::string& p, const Bytes& b) {
  std::ofstream f(p, std::ios::binary);
  f.write((const char*)b.data(), (std::streamsize)b.size());
}
