// P13: compression in memory and through files, with every truncation, bit error and I/O fault.
#include "p13_common.hpp"

#include <errno.h>
#include <sys/uio.h>
#include <sys/syscall.h>

// Every read and write the library makes while a file operation is armed is a choice point.
namespace io {
static mc::Run* run = nullptr;
static int budget = 0, faults = 0;
static int outcome(const char* what, size_t n, bool reading) {
  if (!run || n == 0) return 0;
  if (budget <= 0) return 0;
  mc::Run* r = run;
  const int c = r->choose(reading ? 4 : 5, what);
  if (c) budget--;
  if (c) faults++;
  return c;
}
}  // namespace io
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  if (fd > 2) switch (io::outcome("write", n, false)) {
    case 1: n = 1; break;
    case 2: errno = EINTR; return -1;
    case 3: errno = ENOSPC; return -1;
    case 4: n = (n + 1) / 2; break;
  }
  return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int k) {
  size_t n = 0;
  for (int i = 0; i < k; i++) n += v[i].iov_len;
  if (fd > 2) switch (io::outcome("writev", n, false)) {
    case 1: return syscall(SYS_write, fd, v[0].iov_len ? v[0].iov_base : v[1].iov_base, (size_t)1);
    case 2: errno = EINTR; return -1;
    case 3: errno = ENOSPC; return -1;
    case 4: {
      size_t half = (n + 1) / 2, done = 0;
      for (int i = 0; i < k && half; i++) {
        const size_t m = std::min(half, (size_t)v[i].iov_len);
        ssize_t w = m ? syscall(SYS_write, fd, v[i].iov_base, m) : 0;
        if (w < 0) return w;
        done += (size_t)w;
        half -= m;
      }
      return (ssize_t)done;
    }
  }
  return syscall(SYS_writev, fd, v, k);
}
extern "C" ssize_t read(int fd, void* p, size_t n) {
  if (fd > 2) switch (io::outcome("read", n, true)) {
    case 1: n = 1; break;
    case 2: errno = EIO; return -1;
    case 3: n = (n + 1) / 2; break;
  }
  return syscall(SYS_read, fd, p, n);
}

static void round_trip(mc::Run& r, const Bytes& b, const std::string& what) {
  r.step();
  const Bytes c = ZlibHelpers::CompressBytes(b);
  const Bytes d = ZlibHelpers::DecompressBytes(c);
  MC_CHECK(d == b, mc::cat(what, ": ", b.size(), " bytes became ", d.size()));
}
MC_SCENARIO(short_strings, "every byte string of length 0..2 (quick: second byte from 16 values) and every string of up to 6 bytes over {0,255}", 2) {
  quiet();
  Bytes b;
  if (r.choose(2, "kind")) {
    const int n = r.choose(7, "length");
    for (int i = 0; i < n; i++) b.push_back(r.flip("byte") ? 255 : 0);
  } else {
    const int n = r.choose(3, "length");
    if (n) b.push_back((uint8_t)r.choose(256, "byte"));
    if (n > 1) b.push_back((uint8_t)(r.thorough() ? r.choose(256, "byte") : r.choose(16, "byte") * 17));
  }
  round_trip(r, b, mc::str(b));
  r.state(mc::str(b));
}
MC_SCENARIO(boundary_lengths, "lengths around the working-buffer sizes, for constant, counting, incompressible and mixed content; incompressible lengths step through the point where the output fills the buffer exactly", 2) {
  quiet();
  const int pat = r.choose(4, "pattern");
  static const size_t N[] = {3, 255, 256, 32767, 32768, 32769, 65535, 65536, 1048575, 1048576, 1048577, 2097151, 2097152, 2097153, 3145728};
  size_t n;
  if (pat == 2 && r.flip("output boundary")) {
    n = 1048576 - 400 + (size_t)r.choose(r.bound(106, 420), "length") * (r.thorough() ? 1 : 4);
    n -= r.thorough() ? 0 : (size_t)r.choose(2, "odd");
  } else {
    n = N[r.choose(r.bound(14, 15), "length")];
  }
  round_trip(r, fill(pat, n), mc::cat("pattern ", pat));
  r.state(mc::cat(pat, n));
}
static Bytes sample(mc::Run& r, std::string& name) {
  static const char* NAMES[] = {"empty", "one byte", "text", "zeros 1000", "incompressible 100", "mixed 5000"};
  const int k = r.choose(6, "sample");
  name = NAMES[k];
  switch (k) {
    case 0: return Bytes();
    case 1: return Bytes(1, 65);
    case 2: return Bytes({'a', 'b', 'r', 'a', 'c', 'a', 'd', 'a', 'b', 'r', 'a', 'b', 'r', 'a'});
    case 3: return Bytes(1000, 0);
    case 4: return fill(2, 100);
    default: return fill(3, 5000);
  }
}
static void damaged(mc::Run& r, const Bytes& c, const Bytes& orig, const std::string& what) {
  r.step();
  Bytes d;
  const bool refused = trap::refused([&] { d = ZlibHelpers::DecompressBytes(c); });
  if (!refused && d != orig) r.fail(mc::cat(what, ": decompressed without an error to ", d.size(), " bytes that differ from the original ", orig.size()));
}
MC_SCENARIO(truncation, "every proper prefix of the compressed form of each sample is refused", 2) {
  quiet();
  std::string name;
  const Bytes b = sample(r, name), c = ZlibHelpers::CompressBytes(b);
  const int cut = r.choose((int)c.size(), "cut");
  const Bytes t(c.begin(), c.begin() + cut);
  r.step();
  MC_CHECK(trap::refused([&] { ZlibHelpers::DecompressBytes(t); }), mc::cat(name, " cut to ", cut, " of ", c.size(), " bytes was accepted"));
  r.state(mc::cat(name, cut));
}
MC_SCENARIO(corruption, "every single-bit error and every byte set to 0 or 255 in the compressed form of each sample, and trailing bytes", 2) {
  quiet();
  std::string name;
  const Bytes b = sample(r, name), c = ZlibHelpers::CompressBytes(b);
  const int pos = r.choose((int)c.size() + 1, "position");
  r.state(mc::cat(name, pos));
  if (pos == (int)c.size()) {
    for (int v : {0, 120, 255}) {
      Bytes t = c;
      t.push_back((uint8_t)v);
      damaged(r, t, b, mc::cat(name, " with a trailing byte"));
    }
    return;
  }
  for (int k = 0; k < 10; k++) {
    Bytes t = c;
    t[(size_t)pos] = (uint8_t)(k < 8 ? t[(size_t)pos] ^ (1 << k) : k == 8 ? 0 : 255);
    damaged(r, t, b, mc::cat(name, " byte ", pos, " change ", k));
  }
}

static Bytes file_sample(int k) { return k == 0 ? Bytes() : k == 1 ? Bytes(50, 3) : k == 2 ? fill(2, 1000) : k == 3 ? fill(2, 9000) : k == 4 ? fill(2, 40000) : fill(3, 300000); }
MC_SCENARIO(write_faults, "every outcome (full, one byte, half, interrupted, no space; up to two departures) of every write the file writer makes: the file restores the data or an error is reported", 2) {
  quiet();
  Dir d;
  const Bytes b = file_sample(r.choose(6, "data"));
  const bool over = r.flip("existing file");
  if (over) spew(d("f"), Bytes(100, 42));
  io::run = &r, io::budget = r.bound(2, 3), io::faults = 0;
  bool refused;
  try {
    refused = trap::refused([&] { ZlibHelpers::CompressAndWriteToFile(b, d("f")); });
  } catch (...) {
    io::run = nullptr;
    throw;
  }
  io::run = nullptr;
  r.step();
  r.state(mc::cat(b.size(), over, io::faults, refused));
  if (io::faults == 0) MC_CHECK(!refused, "error without a fault");
  if (refused) return;
  Bytes back;
  const bool lost = trap::refused([&] { back = ZlibHelpers::LoadFromFileAndDecompress(d("f")); });
  MC_CHECK(!lost && back == b, mc::cat("writing ", b.size(), " bytes reported success but the file ", lost ? "cannot be read back" : "holds other data"));
}
MC_SCENARIO(device_limits, "the file may grow to every size from nothing to the full length (as a full disk or quota), and the always-full device", 2) {
  quiet();
  Dir d;
  const Bytes b = r.flip("larger") ? fill(2, 9000) : r.flip("tiny") ? Bytes(20, 1) : fill(2, 300);
  const size_t full = ZlibHelpers::CompressBytes(b).size();
  r.step();
  if (r.flip("always-full device")) {
    MC_CHECK(trap::refused([&] { ZlibHelpers::CompressAndWriteToFile(b, "/dev/full"); }), mc::cat("writing ", b.size(), " bytes to a full device reported success"));
    r.state("full");
    return;
  }
  const size_t step = full > 1000 ? (r.thorough() ? 7 : 131) : 1;
  const size_t lim = std::min(full, (size_t)r.choose((int)(full / step) + 2, "limit") * step);
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit old, rl;
  getrlimit(RLIMIT_FSIZE, &old);
  rl = old;
  rl.rlim_cur = lim;
  setrlimit(RLIMIT_FSIZE, &rl);
  const bool refused = trap::refused([&] { ZlibHelpers::CompressAndWriteToFile(b, d("f")); });
  setrlimit(RLIMIT_FSIZE, &old);
  r.state(mc::cat(full, lim));
  MC_CHECK(refused == (lim < full), mc::cat("file limited to ", lim, " of ", full, " bytes: ", refused ? "error" : "success", " reported"));
  if (!refused) MC_CHECK(ZlibHelpers::LoadFromFileAndDecompress(d("f")) == b, "restored data");
}
MC_SCENARIO(crash_while_writing, "the file as left by a crash after every number of written bytes: loading it reports an error unless it is complete", 2) {
  quiet();
  Dir d;
  const Bytes b = r.flip("larger") ? fill(3, 4000) : Bytes(60, 9);
  ZlibHelpers::CompressAndWriteToFile(b, d("f"));
  const Bytes c = slurp(d("f"));
  const int cut = r.choose((int)c.size() + 1, "bytes on disk");
  spew(d("f"), Bytes(c.begin(), c.begin() + cut));
  r.step();
  r.state(mc::cat(c.size(), cut));
  Bytes back;
  const bool refused = trap::refused([&] { back = ZlibHelpers::LoadFromFileAndDecompress(d("f")); });
  MC_CHECK(refused == (cut < (int)c.size()) && (refused || back == b), mc::cat(cut, " of ", c.size(), " bytes on disk: ", refused ? "error" : "success"));
}
MC_SCENARIO(read_faults, "every outcome (full, one byte, half, I/O error; up to two departures) of every read the loader makes: exact data or an error", 1) {
  quiet();
  Dir d;
  const Bytes b = file_sample(r.choose(6, "data"));
  ZlibHelpers::CompressAndWriteToFile(b, d("f"));
  io::run = &r, io::budget = r.bound(2, 3), io::faults = 0;
  Bytes back;
  bool refused;
  try {
    refused = trap::refused([&] { back = ZlibHelpers::LoadFromFileAndDecompress(d("f")); });
  } catch (...) {
    io::run = nullptr;
    throw;
  }
  io::run = nullptr;
  r.step();
  r.state(mc::cat(b.size(), io::faults, refused));
  MC_CHECK(refused ? io::faults > 0 : back == b, mc::cat("loading ", b.size(), " bytes with ", io::faults, " disturbed reads: ", refused ? "error" : "other data"));
}
MC_SCENARIO(missing_files, "missing, empty, unwritable and directory paths are reported as errors", 1) {
  quiet();
  Dir d;
  const int k = r.choose(5, "case");
  r.step();
  r.state(mc::cat(k));
  if (k == 0) MC_CHECK(trap::refused([&] { ZlibHelpers::LoadFromFileAndDecompress(d("f")); }), "missing file loaded");
  if (k == 1) {
    spew(d("f"), Bytes());
    MC_CHECK(trap::refused([&] { ZlibHelpers::LoadFromFileAndDecompress(d("f")); }), "empty file loaded");
  }
  if (k == 2) MC_CHECK(trap::refused([&] { ZlibHelpers::CompressAndWriteToFile(Bytes(3, 1), d("no/such/f")); }), "write into a missing folder succeeded");
  if (k == 3) MC_CHECK(trap::refused([&] { ZlibHelpers::CompressAndWriteToFile(Bytes(3, 1), d.path); }), "write over a folder succeeded");
  if (k == 4) MC_CHECK(trap::refused([&] { ZlibHelpers::LoadFromFileAndDecompress(d.path); }), "folder loaded");
}
MC_SCENARIO(slices, "1..4 hand-written slices of every combination of four contents load as their concatenation; a damaged or missing slice never yields other data silently", 2) {
  quiet();
  Dir d;
  const int n = 1 + r.choose(4, "slices");
  Bytes want;
  for (int i = 0; i < n; i++) {
    const Bytes b = file_sample(r.choose(4, "slice"));
    ZlibHelpers::CompressAndWriteToFile(b, d(mc::cat("f.", i)));
    want.insert(want.end(), b.begin(), b.end());
  }
  r.step();
  MC_CHECK(ZlibHelpers::LoadFromFileAndDecompress(d("f")) == want, mc::cat(n, " slices"));
  r.state(mc::cat(n, want.size()));
  const Bytes c = slurp(d("f.0"));
  spew(d("f.0"), Bytes(c.begin(), c.end() - 1));
  MC_CHECK(trap::refused([&] { ZlibHelpers::LoadFromFileAndDecompress(d("f")); }), "truncated slice accepted");
}
