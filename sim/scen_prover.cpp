// Background provers driven by a simulated manager (C12) and the two-thread prover (C16).
#include "dsim.h"
#include "ref.h"
#include "sut_prover.h"
#include "tables.h"
#include <atomic>
#include <cmath>
#include <cstring>
#include <memory>
struct __mpz_struct_fwd; void (*chiavdf_sim_inject)(__mpz_struct_fwd*) = nullptr;
uint64_t (*chiavdf_sim_fast_path)(uint64_t, bool&) = nullptr;
void (*chiavdf_sim_prover_started)(uint64_t, uint64_t) = nullptr;
extern "C" int64_t dsim_countdown;
namespace {
using namespace dsim;
using tables::DISCS; using tables::tab;
enum { SMALL = 12288 };
int g_disc;
std::vector<ref::Form> small[4];
uint64_t cost_b[4][6];   // instrumented steps of deriving the challenge prime, by disc and segment
sutp::F sf(const ref::Form& f) { return {f.a.get_str(), f.b.get_str()}; }
void prepare(const std::string& prop) {
    tables::load({330000, 330000, 330000, 330000});
    for (int d = 0; d < 4; d++) {
        ref::Table& t = tab[d];
        if (prop == "C16") { small[d].push_back(t.x0); for (int i = 1; i <= SMALL; i++) small[d].push_back(ref::sqr(small[d].back(), t.D)); }
        else {
            sutp::prepare(d, t.D.get_str(), sf(t.x0), 2, 327680);
            for (int i = 0; i < 6; i++) { int64_t c0 = dsim_countdown; sutp::challenge(d, i < 5 ? i * 65536 : 0, i < 5 ? 65536 : 262144); cost_b[d][i] = c0 - dsim_countdown; }
        }
    }
}
void sched(Rng& r, Plan& p, double qlo, double qhi) {
    p.cfg["sseed"] = (int64_t)(r.next() >> 1);
    p.cfg["policy"] = r.pick<int>({0, 0, 1, 1, 2, 3});
    p.cfg["quantum"] = (int64_t)(qlo * pow(qhi / qlo, r.unit()));
    p.cfg["psync"] = r.pick<int>({20000, 200000, 600000, 1000000});
    p.cfg["ps"] = r.pick<int>({10000, 100000, 1000000});
    if (r.chance(1, 3)) p.cfg["spur"] = r.pick<int>({5000, 200000});
    if (r.chance(1, 3)) { p.cfg["stall"] = r.pick<int>({1000, 20000}); p.cfg["stall_len"] = r.pick<int>({10000, 300000}); }
    if (r.chance(1, 2)) { p.cfg["sstall"] = r.pick<int>({1000, 50000, 300000}); p.cfg["sstall_len"] = r.pick<int>({3000, 30000, 1000000}); }
    p.cfg["epoch"] = r.pick<int>({50000, 1000000});
}
// ---- C12: ops  new <slot> <start> <len> <wait>; pause|resume|stop|look|await <slot> <wait>
Plan gen12(Rng& r, bool th) {
    Plan p; p.cfg["disc"] = r.range(0, 3); int n = (int)r.range(1, 3);
    double total = 0;
    for (int i = 0; i < n; i++) { bool big = r.chance(1, th ? 4 : 8); int64_t len = big ? 262144 : 65536, st = big ? 0 : r.range(0, 4) * 65536; p.ops.push_back(Op{"new", {i, st, len, i ? (int64_t)(r.unit() * 1e6) : 0}}); total += big ? 3.5e7 : 1.2e7; }
    int m = (int)r.range(1, th ? 40 : 16);
    // gaps: tiny ones (a burst of calls) and ones that spread over the life of a proof
    for (int i = 0; i < m; i++) {
        int64_t gap = r.chance(1, 3) ? r.range(0, 60) : r.chance(1, 2) ? (int64_t)(r.unit() * 30000) : (int64_t)(r.unit() * 2.5e7 / m);
        const char* k = r.pick<const char*>({"pause", "pause", "pause", "resume", "resume", "resume", "look", "await"});
        if (i > 2 && r.chance(1, 8)) k = "stop";
        int64_t s = r.range(0, n - 1);
        p.ops.push_back(Op{k, {s, gap}});
        if (!strcmp(k, "pause") && r.chance(1, 2)) p.ops.push_back(Op{r.chance(5, 6) ? "resume" : "stop", {s, r.chance(1, 2) ? r.range(0, 50) : (int64_t)(r.unit() * 20000)}});
    }
    if (r.chance(1, 2)) for (int i = 0; i < n; i++) if (r.chance(1, 2)) p.ops.push_back(Op{"stop", {i, (int64_t)(r.unit() * 1e7)}});
    sched(r, p, 60, 60000);
    p.cfg["soft"] = (int64_t)(total * 2 + 1e8); p.cfg["hard"] = (int64_t)(total * 4 + 4e8);
    return p;
}
struct Slot { int id = -1, thr = -1; int64_t st = 0, len = 0; bool paused = false, stopped = false, done = false; uint64_t mark = 0; };
Slot S[8];
int timer_obj;
void wait_steps(int64_t n) {
    if (n <= 0) { sync_point(); return; }
    auto fl = std::make_shared<int>(0);
    at_step(steps() + n, [fl] { *fl = 1; wake_all(&timer_obj); });
    while (!*fl) block(&timer_obj, UINT64_MAX);
}
// between two of its steps a proof does at most fill a table of 2^10 or 2^12 empty forms and a few compositions
// (a whole proof takes five times as much or more)
void check_paused(Slot& s) {
    if (!s.paused || s.stopped || s.done || s.thr < 0) return;
    uint64_t d = thread_steps(s.thr) - s.mark;
    uint64_t cb = cost_b[g_disc][s.len > 65536 ? 5 : s.st >> 16] * 11 / 10, head = cb > s.mark ? cb - s.mark : 0;
    if (d > head + (s.len > 65536 ? 8000000u : 1500000u)) fail("runs_while_paused", fmt("the proof thread made %llu steps after it was paused", (unsigned long long)d));
    count("pause_checks");
}
void check_done(Slot& s) {
    if (s.stopped || s.done || !sutp::finished(s.id)) return;
    s.done = true; count("proofs_finished");
    sutp::F f; quiet([&] { f = sutp::proof(s.id); });
    quiet([&] {
        ref::Table& tt = tab[g_disc];
        mpz_class a(f.a), b(f.b); if (a <= 0) fail("wrong_proof", "finished without a proof");
        ref::Form pf = ref::from_ab(a, b, tt.D);
        if (!ref::valid(pf, tt.D)) fail("wrong_proof", "the proof is not a reduced form of the discriminant");
        if (!ref::check_wes(tt.at(s.st), tt.at(s.st + s.len), pf, s.len, tt.D)) fail("wrong_proof", fmt("the proof of [%lld, +%lld] does not verify", (long long)s.st, (long long)s.len));
    });
    count("proofs_verified"); nontrivial();
}
const char* doing = "";
void await(Slot& s) {
    doing = "waiting for a resumed proof";
    while (!sutp::finished(s.id)) sutp::wait_event();
    check_done(s); doing = "";
}
void run12(const Plan& p) {
    g_disc = (int)p.get("disc");
    hooks.on_deadlock = [] { fail("deadlock", fmt("nothing can run any more (%s); ", doing) + describe_threads()); };
    hooks.on_hard_budget = [] { fail("never_ends", fmt("no end within the budget (%s); ", doing) + describe_threads()); };
    start(p);
    int nth = 1;
    for (auto& o : p.ops) {
        Slot& s = S[o.a[0]];
        wait_steps(o.a.back());
        for (int i = 0; i < 8; i++) if (S[i].id >= 0) { check_paused(S[i]); check_done(S[i]); }
        if (o.k == "new") { if (s.id >= 0) continue; s.st = o.a[1]; s.len = o.a[2]; quiet([&] { s.id = sutp::create(g_disc, s.st, s.len); }); sutp::begin(s.id); s.thr = nth++; continue; }
        if (s.id < 0 || s.stopped) continue;
        if (o.k == "pause") { sutp::pause(s.id); if (!s.paused) { s.paused = true; s.mark = thread_steps(s.thr); } count("pauses"); }
        else if (o.k == "resume") { sutp::resume(s.id); s.paused = false; count("resumes"); }
        else if (o.k == "stop") {
            doing = "stopping a proof"; bool was = s.paused; sutp::stop(s.id); s.stopped = true; doing = ""; count(was ? "stops_paused" : s.done ? "stops_finished" : "stops_running"); nontrivial();
        }
        else if (o.k == "await") { if (!s.paused || s.done) await(s); }
    }
    for (int i = 0; i < 8; i++) if (S[i].id >= 0 && !S[i].stopped) { Slot& s = S[i]; check_paused(s); sutp::resume(s.id); s.paused = false; await(s); }
    for (int i = 0; i < 8; i++) if (S[i].id >= 0) {
        Slot& s = S[i]; doing = "tearing down";
        if (!s.stopped && !sutp::fully(s.id)) sutp::stop(s.id);   // as the manager does at the end of a session
        sutp::destroy(s.id);
    }
    if (live_threads() > 1) fail("threads_left", "proof threads still running: " + describe_threads());
    stop();
    note(fmt("%zu manager operations, policy %lld, quantum %lld, disc %d", p.ops.size(), (long long)p.get("policy"), (long long)p.get("quantum"), g_disc));
    finish_ok();
}
// ---- C16
Plan gen16(Rng& r, bool) {
    Plan p; p.cfg["disc"] = r.range(0, 3);
    int64_t k = r.range(1, 10), l = r.pick<int64_t>({1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 10, 12});
    int64_t T; switch (r.below(5)) { case 0: T = r.range(1, 300); break; case 1: T = k * l * r.range(1, 40) + r.range(-1, 1); break; case 2: T = r.range(1, SMALL); break; default: T = r.range(200, 3000); }
    if (T < 1) T = 1; if (T > SMALL) T = SMALL;
    if (T / k > 2500) T = k * 2500;
    p.cfg["k"] = k; p.cfg["l"] = l; p.cfg["T"] = T;
    if (r.chance(1, 3)) p.cfg["late"] = r.pick<int>({10000, 300000});       // a value the provers need is not there yet
    if (r.chance(1, 3)) p.ops.push_back(Op{"stop", {(int64_t)pow(10, 2 + r.unit() * 5.3)}});
    else if (r.chance(1, 6)) p.ops.push_back(Op{"stopstep", {r.range(0, 300)}});
    sched(r, p, 30, 100000);
    p.cfg["soft"] = 200000000; p.cfg["hard"] = 1500000000;
    return p;
}
struct { int64_t k, l, T; uint32_t late; std::atomic<bool> stop{false}; int64_t stopstep = -1, nsteps = 0; bool finish_called = false; } Q;
void par_get(uint64_t i, sutp::F& f) {
    if (Q.late && fault("value_late", Q.late)) block(&Q, now() + 1000000 * (1 + choose(50, 'l')));
    uint64_t pos = i * Q.k * Q.l;
    if (pos > (uint64_t)Q.T || pos >= (uint64_t)SMALL) fail("outside", fmt("the value at %llu is asked for in a proof of %lld", (unsigned long long)pos, (long long)Q.T));
    quiet([&] { f = sf(small[g_disc][pos]); });
}
bool par_go() { hash_event(77, cur()); if (Q.stopstep >= 0 && Q.nsteps++ >= Q.stopstep) Q.stop = true; return !Q.stop; }
void par_fin() { Q.finish_called = true; }
void run16(const Plan& p) {
    g_disc = (int)p.get("disc"); Q.k = p.get("k"); Q.l = p.get("l"); Q.T = p.get("T"); Q.late = (uint32_t)p.get("late");
    hooks.on_deadlock = [] { fail("deadlock", "nothing can run any more; " + describe_threads()); };
    hooks.on_hard_budget = [] { fail("never_ends", "no end within the budget; " + describe_threads()); };
    ref::Table& t = tab[g_disc]; sutp::F fx = sf(small[g_disc][0]), fy = sf(small[g_disc][Q.T]), pf; bool done = false; std::string D = t.D.get_str();
    start(p);
    for (auto& o : p.ops) { if (o.k == "stop") at_step(steps() + o.a[0], [] { Q.stop = true; count("stop_sent"); }); else Q.stopstep = o.a[0]; }
    sutp::par_prove(D, Q.T, fx, fy, (uint32_t)Q.k, (uint32_t)Q.l, {par_get, par_go, par_fin}, done, pf);
    int live = live_threads();
    stop();
    if (live > 1) fail("threads_left", "a proof thread is still running");
    if (!done && Q.finish_called) fail("completion", "completion was announced without being recorded");
    if (!done && !Q.stop) fail("not_finished", "the proof ended without a result and without being stopped");
    if (done) {
        mpz_class a(pf.a), b(pf.b); if (a <= 0) fail("wrong_proof", "finished without a proof");
        ref::Form f = ref::from_ab(a, b, t.D);
        if (!ref::valid(f, t.D) || !ref::check_wes(small[g_disc][0], small[g_disc][Q.T], f, Q.T, t.D)) fail("wrong_proof", fmt("k=%lld l=%lld T=%lld: the proof does not verify", (long long)Q.k, (long long)Q.l, (long long)Q.T));
        count("proofs_verified");
    } else count("stopped_proofs");
    nontrivial();
    note(fmt("k=%lld l=%lld T=%lld |D|=%d, %s", (long long)Q.k, (long long)Q.l, (long long)Q.T, DISCS[g_disc].bits, done ? "finished" : "stopped"));
    finish_ok();
}
Plan gen(const std::string& prop, uint64_t seed, bool th) { Rng r(seed); Plan p = prop == "C16" ? gen16(r, th) : gen12(r, th); p.cfg["prop"] = atoi(prop.c_str() + 1); return p; }
void run(const Plan& p) { if (p.get("prop") == 16) run16(p); else run12(p); }
}  // namespace
dsim::Scenario dsim::scenario = {"prover", gen, run, prepare, {{"policy", 0}, {"quantum", 20000}, {"quantum", 100000}, {"psync", 0}, {"sstall", 0}, {"late", 0}, {"disc", 0}}};
