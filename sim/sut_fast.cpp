#define CHIAVDF_VERSION "dev"
#include "vdf.h"
#include "sut_fast.h"
#include <memory>
int gcd_base_bits = 50, gcd_128_max_iter = 3;
namespace sutf {
static integer D, L;
static const bool cpu_has2 = hasAVX2(), cpu_hasi = __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512ifma");   // before a run changes them
static std::vector<Var> V;
static std::vector<Word> W;
static square_state_type* known;
static Obs obs;
bool cpu_avx2() { return cpu_has2; }
bool cpu_ifma() { return cpu_hasi; }
void init(bool avx2, bool ifma) {
    init_gmp(); set_rounding_mode(); hasAVX2();
    bAVX2 = avx2; enable_avx512_ifma = ifma;
    gcd_base_bits = avx2 ? 63 : 50; gcd_128_max_iter = avx2 ? 2 : 3;
}
void set_input(const std::string& d) { D = integer(d); L = root(-D, 4); }
const std::vector<Var>& vars() { return V; }
const std::vector<Word>& words() { return W; }
template <class T> static void add(T& x, const char* n) { V.push_back(Var{(mpz_ptr)x._(), n}); }
static void learn(square_state_type& s) {
    if (known == &s) return;
    known = &s; V.clear(); W.clear();
    add(s.phase_constant.D, "D"); add(s.phase_constant.L, "L");
    for (int i = 0; i < 2; i++) { add(s.phase_start.as[i], "a"); add(s.phase_start.bs[i], "b"); }
    auto& g = s.phase_0_master_d.gcd_1_0; auto& h = s.phase_1_slave_d.gcd_s_t;
    for (int i = 0; i < 2; i++) { add(g.as[i], "gcd_1_0.a"); add(g.bs[i], "gcd_1_0.b"); add(h.as[i], "gcd_s_t.a"); add(h.bs[i], "gcd_s_t.b"); }
    auto& p = s.phase_0_slave_d;
    add(p.b_b, "b_b"); add(p.a_4, "a_4"); add(p.b_b_D, "b_b_D"); add(p.c, "c"); add(p.c_remainder, "c_remainder");
    for (int i = 0; i < 2; i++) { add(p.U0s[i], "U0"); add(p.U1s[i], "U1"); add(s.phase_1_master_d.v0s[i], "v0"); add(s.phase_1_master_d.v1s[i], "v1"); }
    auto& m2 = s.phase_2_master_d; add(m2.c_v1, "c_v1"); add(m2.b_t, "b_t"); add(m2.b_t_c_v1, "b_t_c_v1"); add(m2.h, "h"); add(m2.v1_h, "v1_h");
    add(s.phase_2_slave_d.t_t_S, "t_t_S"); add(s.phase_2_slave_d.v0_2, "v0_2"); add(s.phase_3_master_d.A_2, "A_2");
    auto& s3 = s.phase_3_slave_d; add(s3.S_t_v0, "S_t_v0"); add(s3.a_S_t_v0, "a_S_t_v0"); add(s3.t_2_a_S_t_v0, "t_2_a_S_t_v0"); add(s3.t_2, "t_2"); add(s3.t_2_a_S_t_v0_v1, "t_2_a_S_t_v0_v1"); add(s3.e, "e");
    add(s.phase_4_master_d.v0_2_h, "v0_2_h"); add(s.phase_4_master_d.f, "f");
    for (auto& e : g.uv_entries) for (uint64* w : {&e.u_0, &e.u_1, &e.v_0, &e.v_1}) W.push_back(Word{w, "matrix of gcd_1_0"});
    for (auto& e : h.uv_entries) for (uint64* w : {&e.u_0, &e.u_1, &e.v_0, &e.v_1}) W.push_back(Word{w, "matrix of gcd_s_t"});
}
struct Listener : INUDUPLListener {
    void OnIteration(int type, void* data, uint64_t it) override {
        if (type != NL_SQUARESTATE) return;
        obs.before();
        form f; uint64 r; bool ok = ((square_state_type*)data)->assign(f.a, f.b, f.c, r);
        obs.got(it, f.a.impl, f.b.impl, f.c.impl, ok);
        obs.after();
    }
};
uint64_t square_fast(F& f, uint64_t base, uint64_t n, const Obs& o) {
    obs = o; Listener ls; form x; mpz_set(x.a.impl, f.a); mpz_set(x.b.impl, f.b); mpz_set(x.c.impl, f.c);
    square_state_type st; st.pairindex = 0; learn(st);
    uint64_t r = repeated_square_fast(st, x, D, L, base, n, &ls);
    V.clear(); W.clear(); known = nullptr;
    mpz_set(f.a, x.a.impl); mpz_set(f.b, x.b.impl); mpz_set(f.c, x.c.impl);
    return r;
}
template <class C> struct Watched : C {
    using C::C;
    void OnIteration(int type, void* data, uint64_t it) override {
        obs.before();
        if (type == NL_SQUARESTATE) learn(*(square_state_type*)data);
        C::OnIteration(type, data, it);
        obs.got(it, nullptr, nullptr, nullptr, type == NL_SQUARESTATE);
        obs.after();
    }
};
static std::unique_ptr<Watched<OneWesolowskiCallback>> c1;
static std::unique_ptr<Watched<TwoWesolowskiCallback>> c2;
void loop(const F& f, uint64_t wanted, bool two, const Obs& o) {
    obs = o; std::atomic<bool> stopped{false};
    form x; mpz_set(x.a.impl, f.a); mpz_set(x.b.impl, f.b); mpz_set(x.c.impl, f.c);
    two_weso = two; fast_algorithm = false;
    WesolowskiCallback* w;
    if (two) { c2 = std::make_unique<Watched<TwoWesolowskiCallback>>(D, x); w = c2.get(); } else { c1 = std::make_unique<Watched<OneWesolowskiCallback>>(D, x, wanted); w = c1.get(); }
    repeated_square(wanted, x, D, L, w, nullptr, stopped);
    V.clear(); W.clear(); known = nullptr;
}
static WesolowskiCallback* w() { return c2 ? (WesolowskiCallback*)c2.get() : c1.get(); }
size_t stored() { return w()->forms_capacity; }
uint64_t loop_iterations() { return w()->iterations; }
void stored_at(size_t i, mpz_t a, mpz_t b, mpz_t c) { form& f = w()->forms[i]; mpz_set(a, f.a.impl); mpz_set(b, f.b.impl); mpz_set(c, f.c.impl); }
void loop_result(mpz_t a, mpz_t b, mpz_t c) { form& f = c1->result; mpz_set(a, f.a.impl); mpz_set(b, f.b.impl); mpz_set(c, f.c.impl); }
}
