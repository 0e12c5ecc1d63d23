// Independent reference: class group arithmetic with plain GMP, SHA-256,
// HashPrime, the compressed form format and the Wesolowski proof chains,
// written from the published formats and not from the code under test.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <string>
#include <vector>
namespace ref {
struct Form { mpz_class a, b, c; bool operator==(const Form& o) const { return a == o.a && b == o.b && c == o.c; } };
void sha256(const uint8_t* p, size_t n, uint8_t out[32]);
Form from_ab(const mpz_class& a, const mpz_class& b, const mpz_class& D);
void reduce(Form& f);
bool is_reduced(const Form& f);
bool valid(const Form& f, const mpz_class& D);   // discriminant, positive, primitive, reduced
Form identity(const mpz_class& D);
Form generator(const mpz_class& D);              // (2,1,(1-D)/8), D = 1 mod 8
Form mul(const Form& x, const Form& y, const mpz_class& D);
Form sqr(const Form& x, const mpz_class& D);
Form pow(const Form& x, const mpz_class& e, const mpz_class& D);
std::string ser(const Form& f, const mpz_class& D);          // 100 bytes
bool deser(const uint8_t* s, const mpz_class& D, Form& out, std::string& err);  // any decodable canonical 100 bytes
mpz_class hash_prime(const std::string& seed);  // 264 bits
mpz_class get_B(const Form& x, const Form& y, const mpz_class& D);
mpz_class make_disc(uint64_t seed, int bits);    // negative prime, 1 mod 8

// One Wesolowski proof: proof^B * x^(2^T mod B) == y
bool check_wes(const Form& x, const Form& y, const Form& proof, uint64_t T, const mpz_class& D);
// A chain as the client writes it: final proof, then [8B iters][33B B][100B proof] for the earlier segments, last first.
bool check_chain(const mpz_class& D, const Form& x0, const Form& y, const std::string& proof, uint64_t T, std::string& err);

// Powers x^(2^i) with stored checkpoints.
struct Table {
    mpz_class D; Form x0; uint64_t step; std::vector<Form> cp;
    void build(const mpz_class& D, const Form& x0, uint64_t step, uint64_t upto);
    Form at(uint64_t T) const;
    uint64_t max() const { return cp.empty() ? 0 : (cp.size() - 1) * step; }
};
std::string dump(const Table& t);
bool load(const std::string& s, Table& t);
}
