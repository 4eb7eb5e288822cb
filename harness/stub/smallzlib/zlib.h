// zlib with a 16-bit input counter: the splitting of over-long input, reached at 4 GB with the real type, is reached at
// 64 KB. Everything is forwarded to the real library.
#ifndef SMALL_ZLIB_H
#define SMALL_ZLIB_H
#include_next <zlib.h>
struct small_z_stream {
  const Bytef* next_in;
  uint16_t avail_in;
  uLong total_in;
  Bytef* next_out;
  uInt avail_out;
  uLong total_out;
  const char* msg;
  alloc_func zalloc;
  free_func zfree;
  voidpf opaque;
  z_stream real;
};
template <typename F>
inline int small_call(small_z_stream* s, F f) {
  s->real.next_in = const_cast<Bytef*>(s->next_in);
  s->real.avail_in = s->avail_in;
  s->real.next_out = s->next_out;
  s->real.avail_out = s->avail_out;
  const int ret = f(&s->real);
  s->next_in = s->real.next_in;
  s->avail_in = (uint16_t)s->real.avail_in;
  s->total_in = s->real.total_in;
  s->next_out = s->real.next_out;
  s->avail_out = s->real.avail_out;
  s->total_out = s->real.total_out;
  return ret;
}
inline int small_inflate_init(small_z_stream* s) {
  s->real = z_stream();
  s->total_out = 0;
  return inflateInit(&s->real);
}
inline int small_deflate_init(small_z_stream* s, int level) {
  s->real = z_stream();
  s->total_out = 0;
  return deflateInit(&s->real, level);
}
inline int small_inflate(small_z_stream* s, int fl) {
  return small_call(s, [&](z_stream* r) { return inflate(r, fl); });
}
inline int small_deflate(small_z_stream* s, int fl) {
  return small_call(s, [&](z_stream* r) { return deflate(r, fl); });
}
inline int small_inflate_end(small_z_stream* s) { return inflateEnd(&s->real); }
inline int small_deflate_end(small_z_stream* s) { return deflateEnd(&s->real); }
#undef inflateInit
#undef deflateInit
#define z_stream small_z_stream
#define z_stream_s small_z_stream
#define inflateInit(s) small_inflate_init(s)
#define deflateInit(s, l) small_deflate_init(s, l)
#define inflate small_inflate
#define deflate small_deflate
#define inflateEnd small_inflate_end
#define deflateEnd small_deflate_end
#endif
