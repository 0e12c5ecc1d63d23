// Plain interface to the library calls (C API and the functions behind the Python API).
#pragma once
#include <cstddef>
#include <cstdint>
namespace sutc {
struct Buf { uint8_t* p; size_t n; };
// the C API; no allocation of its own
bool create(const uint8_t* seed, size_t n, size_t bits, uint8_t* out);
Buf prove(const uint8_t* ch, size_t cn, const uint8_t* x, size_t xn, size_t bits, uint64_t T);
bool verify(const uint8_t* d, size_t dn, const uint8_t* x, const uint8_t* proof, size_t pn, uint64_t T, uint64_t depth);
void del(Buf b);
// what the Python module calls; the result is malloc()ed; ok = 0 refused, 1 accepted, 2 exception
Buf slow(const uint8_t* d, size_t dn, const uint8_t* x, uint64_t T, const char* path, int& ok);
void squarings(const uint8_t* d, size_t dn, const uint8_t* x, uint64_t n);   // the squaring loop of a proof, to learn its cost
Buf call_cdverify(const uint8_t* seed, size_t n, uint32_t bits, const uint8_t* x, const uint8_t* proof, size_t pn, uint64_t T, uint64_t depth, int& ok);
Buf call_withb(const uint8_t* d, size_t dn, const uint8_t* B, const uint8_t* x, const uint8_t* proof, size_t pn, uint64_t T, uint64_t depth, int& ok);
Buf call_getb(const uint8_t* d, size_t dn, const uint8_t* x, const uint8_t* proof, size_t pn, uint64_t T, uint64_t depth, int& ok);
}
