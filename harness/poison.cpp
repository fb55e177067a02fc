// Every block of the heap starts out full of a recognisable pattern (32.5 as a double), so that a result that depends
// on memory nobody initialised differs from the specification's.
#include <cstddef>
#include <cstring>
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (p) memset(p, 0x40, n);
  return p;
}
