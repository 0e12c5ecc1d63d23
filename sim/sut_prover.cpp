#define CHIAVDF_VERSION "dev"
#include "vdf.h"
#include "sut_prover.h"
#include <memory>
int gcd_base_bits = 50, gcd_128_max_iter = 3;
namespace sutp {
static FastAlgorithmCallback* cb[16];
static integer Ds[16];
static std::unique_ptr<InterruptableProver> pr[64];
static int npr;
static integer num(const std::string& s) { integer r; mpz_set_str(r.impl, s.c_str(), 10); return r; }
static F out(form& f) { char* a = mpz_get_str(nullptr, 10, f.a.impl); char* b = mpz_get_str(nullptr, 10, f.b.impl); F r{a, b}; void (*fr)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(a, strlen(a) + 1); fr(b, strlen(b) + 1); return r; }
void prepare(int d, const std::string& D, const F& x, int segs, uint64_t upto) {
    init_gmp(); set_rounding_mode();
    Ds[d] = num(D); integer L = root(-Ds[d], 4); form f = form::from_abd(num(x.a), num(x.b), Ds[d]);
    cb[d] = new FastAlgorithmCallback(segs, Ds[d], f, false);
    repeated_square_nudupl(f, Ds[d], L, 0, upto, cb[d], cb[d]);
}
int create(int d, uint64_t start, uint64_t len) {
    Segment sg(start, len, cb[d]->checkpoints[start >> 16], cb[d]->checkpoints[(start + len) >> 16]);
    pr[npr] = std::make_unique<InterruptableProver>(sg, Ds[d], cb[d]); return npr++;
}
void challenge(int d, uint64_t start, uint64_t len) { GetB(Ds[d], cb[d]->checkpoints[start >> 16], cb[d]->checkpoints[(start + len) >> 16]); }
void begin(int i) { pr[i]->start(); }
void pause(int i) { pr[i]->pause(); }
void resume(int i) { pr[i]->resume(); }
void stop(int i) { pr[i]->stop(); }
void destroy(int i) { pr[i].reset(); }
bool finished(int i) { return pr[i]->IsFinished(); }
bool fully(int i) { return pr[i]->IsFullyFinished(); }
bool running(int i) { return pr[i]->IsRunning(); }
F proof(int i) { form f = pr[i]->GetProof(); return out(f); }
void wait_event() { std::unique_lock<std::mutex> lk(new_event_mutex); new_event_cv.wait(lk, [] { return new_event; }); new_event = false; }

class TestParallel : public ParallelProver {
    const Par& cb; integer DD;
  public:
    TestParallel(Segment s, integer D, uint32_t kk, uint32_t ll, const Par& c) : ParallelProver(s, D), cb(c), DD(D) { k = kk; l = ll; }
    form GetForm(uint64_t i) { F f; cb.get(i, f); return form::from_abd(num(f.a), num(f.b), DD); }
    void start() { GenerateProof(); }
    void stop() {}
    bool PerformExtraStep() { return cb.go_on(); }
    void OnFinish() { is_finished = true; cb.finish(); }
};
void par_prove(const std::string& D, uint64_t T, const F& x, const F& y, uint32_t k, uint32_t l, const Par& c, bool& done, F& proof) {
    init_gmp(); set_rounding_mode();
    integer d = num(D); form fx = form::from_abd(num(x.a), num(x.b), d), fy = form::from_abd(num(y.a), num(y.b), d);
    TestParallel p(Segment(0, T, fx, fy), d, k, l, c);
    p.start();
    done = p.IsFinished();
    if (done) { form f = p.GetProof(); proof = out(f); }
}
}
