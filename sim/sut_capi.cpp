#include "c_bindings/c_wrapper.cpp"
#include "sut_capi.h"
namespace sutc {
bool create(const uint8_t* seed, size_t n, size_t bits, uint8_t* out) { return create_discriminant_wrapper(seed, n, bits, out); }
Buf prove(const uint8_t* ch, size_t cn, const uint8_t* x, size_t xn, size_t bits, uint64_t T) { ByteArray b = prove_wrapper(ch, cn, x, xn, bits, T); return {b.data, b.length}; }
bool verify(const uint8_t* d, size_t dn, const uint8_t* x, const uint8_t* proof, size_t pn, uint64_t T, uint64_t depth) { return verify_n_wesolowski_wrapper(d, dn, x, proof, pn, T, depth); }
void del(Buf b) { delete_byte_array(ByteArray{b.p, b.n}); }
static Buf out(const std::vector<uint8_t>& v) { Buf b{(uint8_t*)malloc(v.size() + 1), v.size()}; if (v.size()) memcpy(b.p, v.data(), v.size()); return b; }
static integer disc(const uint8_t* d, size_t n) { integer r; mpz_import(r.impl, n, 1, 1, 0, 0, d); return -r; }
Buf slow(const uint8_t* d, size_t dn, const uint8_t* x_s, uint64_t T, const char* path, int& ok) {
    ok = 2;
    try { integer D = disc(d, dn); form x = DeserializeForm(D, x_s, BQFC_FORM_SIZE); std::vector<uint8_t> r = ProveSlow(D, x, T, path); ok = 1; return out(r); } catch (...) { return {nullptr, 0}; }
}
void squarings(const uint8_t* d, size_t dn, const uint8_t* x_s, uint64_t n) { integer D = disc(d, dn), L = root(-D, 4); form y = DeserializeForm(D, x_s, BQFC_FORM_SIZE); PulmarkReducer r; while (n--) { nudupl_form(y, y, D, L); r.reduce(y); } }
Buf call_cdverify(const uint8_t* seed, size_t n, uint32_t bits, const uint8_t* x, const uint8_t* proof, size_t pn, uint64_t T, uint64_t depth, int& ok) {
    ok = 2;
    try { ok = CreateDiscriminantAndCheckProofOfTimeNWesolowski(std::vector<uint8_t>(seed, seed + n), bits, x, proof, pn, T, depth); } catch (...) { ok = 2; }
    return {nullptr, 0};
}
Buf call_withb(const uint8_t* d, size_t dn, const uint8_t* Bs, const uint8_t* x, const uint8_t* proof, size_t pn, uint64_t T, uint64_t depth, int& ok) {
    ok = 2;
    try { integer B(Bs, B_bytes); auto r = CheckProofOfTimeNWesolowskiWithB(disc(d, dn), B, x, proof, pn, T, depth); ok = r.first; return out(r.second); } catch (...) { ok = 2; return {nullptr, 0}; }
}
Buf call_getb(const uint8_t* d, size_t dn, const uint8_t* x, const uint8_t* proof, size_t pn, uint64_t T, uint64_t depth, int& ok) {
    ok = 2;
    try { integer B = GetBFromProof(disc(d, dn), x, proof, pn, T, depth); ok = 1; return out(B.to_bytes()); } catch (...) { ok = 2; return {nullptr, 0}; }
}
}
