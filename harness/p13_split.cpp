// P13: splitting of over-long input into several files, at 1/65536 scale (see stub/smallzlib).
#include "p13_common.hpp"

MC_SCENARIO(histories, "all histories of up to 3 (thorough: 4) writes of lengths around multiples of the split size to one path; the data last written is loaded after each", 1) {
  quiet();
  Dir d;
  static const size_t N[] = {10, 32767, 32768, 65535, 65536, 131071, 200000};
  std::string h;
  const int len = r.bound(3, 4);
  for (int i = 0; i < len; i++) {
    const size_t n = N[r.choose(7, "length")];
    const Bytes b = fill(1 + i % 3 + (i == 2), n);
    h += mc::cat(" ", n);
    r.step();
    ZlibHelpers::CompressAndWriteToFile(b, d("f"));
    if (n > 65535 && access(d("f.0").c_str(), F_OK) != 0) return;  // the split size does not follow the stub
    Bytes back;
    const bool refused = trap::refused([&] { back = ZlibHelpers::LoadFromFileAndDecompress(d("f")); });
    MC_CHECK(!refused && back == b, mc::cat("after writes of", h, " bytes to one path, loading gives ", refused ? std::string("an error") : mc::cat(back.size(), " bytes")));
    r.state(h);
  }
}
