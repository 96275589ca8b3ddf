// Instrumented replacements of libc string functions (compiled -fno-builtin and instrumented).
// memcmp/bcmp are written without data-dependent branches so that comparing symbolic bytes
// yields one expression instead of one case per byte.
#include <cstddef>
extern "C" {
__attribute__((noinline, used)) int symxlib_memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
  int r = 0;
  for (size_t i = n; i > 0; i--) { int d = (int)p[i - 1] - (int)q[i - 1]; r = d ? d : r; }
  return r;
}
__attribute__((noinline, used)) int symxlib_bcmp(const void* a, const void* b, size_t n) {
  const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
  unsigned r = 0;
  for (size_t i = 0; i < n; i++) r |= (unsigned)(p[i] ^ q[i]);
  return (int)r;
}
__attribute__((noinline, used)) size_t symxlib_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((noinline, used)) void* symxlib_memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
__attribute__((noinline, used)) int symxlib_strcmp(const char* a, const char* b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) i++;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
}
