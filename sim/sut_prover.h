// Plain interface to the provers, so that scenarios can stay uninstrumented.
#pragma once
#include <cstdint>
#include <string>
namespace sutp {
struct F { std::string a, b; };
// parent process: squares the generator of discriminant d and stores all intermediates
void prepare(int d, const std::string& D, const F& x, int segs, uint64_t upto);
// InterruptableProver
int create(int d, uint64_t start, uint64_t len);
void challenge(int d, uint64_t start, uint64_t len);   // derive the challenge prime of a segment
void begin(int i);
void pause(int i);
void resume(int i);
void stop(int i);
void destroy(int i);
bool finished(int i);
bool fully(int i);
bool running(int i);
F proof(int i);
void wait_event();     // the event loop's wait
// ParallelProver over given intermediates
struct Par { void (*get)(uint64_t i, F& out); bool (*go_on)(); void (*finish)(); };
void par_prove(const std::string& D, uint64_t T, const F& x, const F& y, uint32_t k, uint32_t l, const Par& cb, bool& done, F& proof);
}
