// Plain interface to the accelerated squaring path, so that scenarios can stay uninstrumented.
#pragma once
#include <gmp.h>
#include <cstdint>
#include <string>
#include <vector>
namespace sutf {
struct F { mpz_t a, b, c; };
bool cpu_avx2();
bool cpu_ifma();
void init(bool avx2, bool ifma);                         // after start of a run
void set_input(const std::string& D);
struct Obs { void (*got)(uint64_t iter, mpz_srcptr a, mpz_srcptr b, mpz_srcptr c, bool ok); void (*before)(); void (*after)(); };
// direct call of the pipeline; the form is replaced by what the call leaves in it
uint64_t square_fast(F& f, uint64_t base, uint64_t n, const Obs& o);
// whole loop with a session's callback; two: the 2-weso one
void loop(const F& f, uint64_t wanted, bool two, const Obs& o);
size_t stored();                                         // number of stored values
uint64_t loop_iterations();
void stored_at(size_t i, mpz_t a, mpz_t b, mpz_t c);     // value i * 10
void loop_result(mpz_t a, mpz_t b, mpz_t c);
// integers of the pipeline's shared state (empty while there is none)
struct Var { mpz_ptr p; const char* name; };
const std::vector<Var>& vars();
struct Word { uint64_t* p; const char* name; };
const std::vector<Word>& words();                        // matrix entries of the two gcds and thresholds
}
