// The two-thread squaring pipeline with its generated assembly: alone (C09) and with corrupted integers (C10).
#include "dsim.h"
#include "ref.h"
#include "sut_fast.h"
#include "tables.h"
#include <cmath>
#include <cstring>
#include <memory>
void (*chiavdf_sim_inject)(mpz_ptr) = nullptr;
uint64_t (*chiavdf_sim_fast_path)(uint64_t, bool&) = nullptr;
void (*chiavdf_sim_prover_started)(uint64_t, uint64_t) = nullptr;
extern "C" unsigned char dsim_asm_every;
extern uint64_t max_spin_counter; extern int checkpoint_interval;
namespace {
using namespace dsim;
const int BITS[] = {256, 300, 512, 700, 1024, 1024};
enum { NDISC = 6, SMALL = 2048 };
mpz_class Ds[NDISC]; std::vector<ref::Form> pw[NDISC];
void prepare(const std::string&) {
    for (int d = 0; d < NDISC; d++) {
        Ds[d] = ref::make_disc(100 + d, BITS[d]);
        ref::Form x = ref::generator(Ds[d]); if (d & 1) x = ref::pow(x, mpz_class("982451653982451653"), Ds[d]);
        pw[d].push_back(x);
        for (int i = 1; i <= SMALL; i++) pw[d].push_back(ref::sqr(pw[d].back(), Ds[d]));
    }
}
// ops: flip <steps into the run> <variable> <bit>; inj <number of the injection point> <bit>
Plan gen(const std::string& prop, uint64_t seed, bool th) {
    Rng r(seed); Plan p; bool c10 = prop == "C10";
    p.cfg["prop"] = c10 ? 10 : 9;
    p.cfg["disc"] = r.range(0, NDISC - 1);
    p.cfg["loop"] = c10 ? r.chance(2, 3) : r.chance(1, 4);
    p.cfg["two"] = r.chance(1, 2);
    p.cfg["from"] = r.chance(1, c10 ? 3 : 6) ? r.range(0, 12) : r.range(0, 1000);
    // While the first coefficient is small, a corrupted value has a fair chance of being a valid form again, which nothing could tell.
    if (c10) p.cfg["from"] = std::max<int64_t>(7, p.get("from"));
    p.cfg["base"] = r.chance(1, 2) ? 0 : r.range(1, 1000000);
    int64_t n = p.cfg["loop"] ? r.range(1, th ? 200 : 80) : r.chance(1, 4) ? r.range(1, 3) : r.range(1, th ? 80 : 30);
    p.cfg["n"] = n;
    p.cfg["batch"] = r.chance(1, 2) ? r.range(1, 12) : r.range(1, 60);
    p.cfg["spin"] = r.pick<int64_t>({30, 300, 3000, 3000, 30000, 30000, 300000, 300000, 300000, 10000000});
    p.cfg["avx2"] = r.chance(2, 3); p.cfg["ifma"] = r.chance(1, 3);
    p.cfg["sseed"] = (int64_t)(r.next() >> 1);
    p.cfg["policy"] = r.pick<int>({0, 0, 1, 1, 2, 3});
    p.cfg["quantum"] = (int64_t)(10 * pow(500, r.unit()));
    p.cfg["psync"] = 200000; p.cfg["ps"] = r.pick<int>({1000, 1000000});
    if (r.chance(1, 2)) { p.cfg["stall"] = r.pick<int>({1000, 20000}); p.cfg["stall_len"] = r.pick<int>({1000, 30000, 300000}); }
    if (r.chance(1, 4)) { p.cfg["starve"] = r.range(0, 1); p.cfg["starve_at"] = (int64_t)(r.unit() * n * 6000); p.cfg["starve_len"] = r.pick<int>({3000, 100000}); }
    if (r.chance(1, 2)) { p.cfg["asm"] = 1; p.cfg["psync"] = r.pick<int>({0, 3000, 30000}); p.cfg["sstall"] = r.pick<int>({1000, 10000, 50000}); p.cfg["sstall_len"] = r.pick<int>({2000, 20000, 20000}); if (r.chance(1, 2)) { p.cfg["quantum"] = 3000; p.cfg["stall"] = 0; } }
    p.cfg["epoch"] = r.pick<int>({2000, 50000});
    if (c10) {
        int k = (int)r.range(1, 3);
        for (int i = 0; i < k; i++) {
            if (r.chance(2, 3)) p.ops.push_back(Op{"flip", {(int64_t)(r.unit() * n * 7000), r.range(0, 1 << 20), r.range(0, 1 << 20)}});
            else p.ops.push_back(Op{"inj", {r.range(1, n * 9), r.range(0, 1 << 20)}});
        }
    }
    p.cfg["soft"] = 20000000 + n * 200000; p.cfg["hard"] = 400000000 + n * 2000000;
    return p;
}
struct { int d = 0; int64_t from = 0, n = 0; uint64_t base = 0; bool c10 = false, loop = false; int flips = 0; bool observing = false; uint64_t injno = 0; std::vector<uint64_t> got; std::vector<bool> good; std::string where; std::map<uint64_t, int64_t> inj; } Q;
bool same(mpz_srcptr a, mpz_srcptr b, mpz_srcptr c, int64_t pos, std::string& why) {
    mpz_class A(a), B(b), C(c);
    if (A <= 0) { why = "it is not a positive form"; return false; }
    if (B * B - 4 * A * C != Ds[Q.d]) { why = "it does not have the discriminant"; return false; }
    ref::Form f{A, B, C}; ref::reduce(f);
    if (!(f == pw[Q.d][pos])) {
        why = "it is another form";
        for (int64_t q = std::max<int64_t>(0, pos - 4); q <= pos + 4 && q <= SMALL; q++) if (f == pw[Q.d][q]) why = fmt("it is the form after %lld squarings instead of %lld", (long long)(q - Q.from), (long long)(pos - Q.from));
        return false;
    }
    return true;
}
// a bit of the value turns over in memory; never the top word's last set bit, so that the integer stays well formed
bool flip(mpz_ptr z, int64_t bit) {
    int n = abs(z->_mp_size); if (!n) return false;
    int64_t b = bit % (n * 64); mp_limb_t m = (mp_limb_t)1 << (b & 63);
    if (b / 64 == n - 1 && (z->_mp_d[n - 1] ^ m) == 0) return false;
    z->_mp_d[b / 64] ^= m; return true;
}
void inject(mpz_ptr z) {
    Q.injno++;
    auto it = Q.inj.find(Q.injno); if (it == Q.inj.end()) return;
    if (flip(z, it->second)) { Q.flips++; count("fault_corrupted_at_injection_point"); hash_event(90, Q.injno); }
}
void do_flip(int64_t v, int64_t bit) {
    if (live_threads() < 2 || Q.observing) { count("flip_missed"); return; }
    auto& V = sutf::vars(); auto& W = sutf::words();
    if (V.empty()) { count("flip_missed"); return; }
    if (v % 8 == 0) { auto& w = W[(v / 8) % W.size()]; *w.p ^= 1ull << (bit & 63); Q.flips++; count("fault_corrupted_matrix"); Q.where += std::string(w.name) + " "; return; }
    auto& x = V[(v / 8) % V.size()];
    if (flip(x.p, bit)) { Q.flips++; count("fault_corrupted_integer"); Q.where += std::string(x.name) + " "; hash_event(91, v); }
}
void got(uint64_t it, mpz_srcptr a, mpz_srcptr b, mpz_srcptr c, bool ok) {
    Q.got.push_back(it);
    if (Q.loop) { if (ok) count("fast_squarings"); else count("slow_squarings"); return; }
    std::string why; int64_t i = (int64_t)(it - Q.base) + 1;
    if (!ok) { Q.good.push_back(false); return; }
    bool g = false; quiet([&] { g = i >= 1 && i <= Q.n && same(a, b, c, Q.from + i, why); });
    Q.good.push_back(g);
}
void before() { Q.observing = true; }
void after() { Q.observing = false; }
void run(const Plan& p) {
    Q.c10 = p.get("prop") == 10; Q.d = (int)p.get("disc"); Q.from = p.get("from"); Q.n = p.get("n"); Q.base = p.get("base"); Q.loop = p.get("loop");
    max_spin_counter = p.get("spin"); checkpoint_interval = (int)p.get("batch");
    hooks.hash_switches = true;
    hooks.on_deadlock = [] { fail("deadlock", "nothing can run any more; " + describe_threads()); };
    hooks.on_hard_budget = [] { fail("never_ends", "no end within the budget; " + describe_threads()); };
    sutf::init(p.get("avx2") && sutf::cpu_avx2(), p.get("ifma") && sutf::cpu_ifma());
    sutf::set_input(Ds[Q.d].get_str());
    const ref::Form& s = pw[Q.d][Q.from];
    sutf::F f; mpz_init_set(f.a, s.a.get_mpz_t()); mpz_init_set(f.b, s.b.get_mpz_t()); mpz_init_set(f.c, s.c.get_mpz_t());
    for (auto& o : p.ops) if (o.k == "inj") Q.inj[o.a[0]] = o.a[1];
    if (Q.c10) chiavdf_sim_inject = inject;
    dsim_asm_every = p.get("asm");
    start(p);
    for (auto& o : p.ops) if (o.k == "flip") { int64_t v = o.a[1], b = o.a[2]; at_step(steps() + o.a[0], [v, b] { do_flip(v, b); }); }
    sutf::Obs ob{got, before, after};
    const char* det = "";
    if (!Q.loop) {
        uint64_t r = sutf::square_fast(f, Q.base, Q.n, ob);
        stop();
        std::string why;
        if (live_threads() > 1) fail("threads_left", "a pipeline thread is still running");
        if (r == ~0ull) {
            det = ", corruption reported"; count("corruption_reported");
            if (!Q.flips) fail("false_corruption", "corruption is reported although no integer was corrupted");
            if (mpz_cmp(f.a, s.a.get_mpz_t()) || mpz_cmp(f.b, s.b.get_mpz_t()) || mpz_cmp(f.c, s.c.get_mpz_t())) fail("input_changed", "corruption is reported but the input form was changed");
            nontrivial();
        } else {
            if (r > (uint64_t)Q.n) fail("wrong_count", fmt("%llu squarings reported, %lld asked for", (unsigned long long)r, (long long)Q.n));
            if (!same(f.a, f.b, f.c, Q.from + r, why)) fail("wrong_form", fmt("%llu squarings reported but the form is not the input squared that often: %s (corrupted: %s)", (unsigned long long)r, why.c_str(), Q.where.c_str()));
            if (Q.got.size() != r) fail("announcements", fmt("%llu squarings counted, %zu announced", (unsigned long long)r, Q.got.size()));
            for (size_t i = 0; i < Q.got.size(); i++) {
                if (Q.got[i] != Q.base + i) fail("announcements", fmt("announcement %zu is numbered %lld", i, (long long)(Q.got[i] - Q.base)));
                if (!Q.good[i]) fail("wrong_announcement", fmt("the value announced for squaring %zu of %llu is not exact", i + 1, (unsigned long long)r));
            }
            count(r < (uint64_t)Q.n ? "ended_early" : "ran_to_the_end");
            if (r) nontrivial();
        }
        note(fmt("|D|=%d, %lld squarings from 2^%lld, spin limit %lld: %lld done%s, %d integers corrupted %s", BITS[Q.d], (long long)Q.n, (long long)Q.from, (long long)p.get("spin"), (long long)(r == ~0ull ? -1 : r), det, Q.flips, Q.where.c_str()));
        finish_ok();
    }
    sutf::loop(f, Q.n, p.get("two"), ob);
    stop();
    if (live_threads() > 1) fail("threads_left", "a pipeline thread is still running");
    uint64_t its = sutf::loop_iterations(); std::string why;
    if (its < (uint64_t)Q.n) fail("short", fmt("the loop ended after %llu of %lld squarings", (unsigned long long)its, (long long)Q.n));
    mpz_t a, b, c; mpz_inits(a, b, c, nullptr);
    uint64_t upto = p.get("two") ? its : Q.n;
    for (uint64_t i = 0; i <= upto; i += 10) {
        sutf::stored_at(i / 10, a, b, c);
        if (!same(a, b, c, Q.from + i, why)) fail("wrong_intermediate", fmt("the stored value for %llu squarings is not exact: %s (corrupted: %s)", (unsigned long long)i, why.c_str(), Q.where.c_str()));
    }
    if (!p.get("two")) { sutf::loop_result(a, b, c); if (!same(a, b, c, Q.from + Q.n, why)) fail("wrong_result", "the result is not exact: " + why + " (corrupted: " + Q.where + ")"); }
    count("loops_checked"); nontrivial();
    note(fmt("|D|=%d, squaring loop to %llu in batches of %lld, spin limit %lld, %d integers corrupted %s", BITS[Q.d], (unsigned long long)its, (long long)p.get("batch"), (long long)p.get("spin"), Q.flips, Q.where.c_str()));
    finish_ok();
}
}  // namespace
dsim::Scenario dsim::scenario = {"fast", gen, run, prepare, {{"policy", 0}, {"quantum", 20000}, {"starve_len", 0}, {"disc", 0}, {"avx2", 0}, {"ifma", 0}, {"spin", 10000000}}};
