// Library calls: cancellation (C13), concurrent use (C14), failing allocations (C15).
#include "dsim.h"
#include "ref.h"
#include "sut_capi.h"
#include "tables.h"
#include <atomic>
#include <cmath>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <memory>
struct __mpz_struct_fwd; void (*chiavdf_sim_inject)(__mpz_struct_fwd*) = nullptr;
uint64_t (*chiavdf_sim_fast_path)(uint64_t, bool&) = nullptr;
void (*chiavdf_sim_prover_started)(uint64_t, uint64_t) = nullptr;
extern "C" int64_t dsim_countdown;
extern int64_t dsim_live_new, dsim_total_new;
namespace {
using namespace dsim;
using tables::DISCS; using tables::tab;
typedef std::string S;
template <class F> void quiet(const F& f) { if (active()) dsim::quiet(f); else f(); }   // outside a simulation it would disturb the step counter
const uint8_t* U(const S& s) { return (const uint8_t*)s.data(); }
S bytes(const mpz_class& v, size_t n) { S r(n, '\0'); size_t c = 0; S t((mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8, '\0'); mpz_export(&t[0], &c, 1, 1, 1, 0, v.get_mpz_t()); t.resize(c); r.replace(n - c, c, t); return r; }
mpz_class num(const S& s) { mpz_class r; mpz_import(r.get_mpz_t(), s.size(), 1, 1, 1, 0, s.data()); return r; }

// ---- counting of GMP blocks, so that leaked integers are seen too
int64_t gmp_live = 0; bool in_run = false;
// the integers of these computations have a few thousand bits; one of half a million bits is a value gone wrong that grows with every step
void too_big(size_t n) { if (n > 65536 && in_run) fail("runaway", fmt("an integer of %zu bytes in a computation over forms of a few hundred", n)); }
void* g_alloc(size_t n) { too_big(n); gmp_live++; return malloc(n); }
void* g_realloc(void* p, size_t, size_t n) { too_big(n); return realloc(p, n); }
void g_free(void* p, size_t) { if (p) gmp_live--; free(p); }

// ---- the pool of calls
enum { CREATE, PROVE, VERIFY, SLOW, CDVERIFY, WITHB, GETB, SLOWM, NKIND };
const char* KN[] = {"create_discriminant", "prove", "verify_n_wesolowski", "ProveSlow", "create_discriminant_and_verify", "verify_with_B", "get_B_from_proof", "ProveSlow with a marker"};
const char *STAYS = "/", *ABSENT = "/nonexistent/chiavdf_sim_marker";   // markers of SLOWM calls
struct Call { int64_t kind = 0, n1 = 0, n2 = 0, n3 = 0; S a, b, c; S expect; int64_t cost = 0, news = 0; bool good = false; };
std::vector<Call> pool;
thread_local bool in_api = false;   // only allocations made inside the call itself fail
struct Api { Api() { in_api = true; } ~Api() { in_api = false; } };
S exec(const Call& c) {
    int ok = -1; sutc::Buf b{nullptr, 0}; S r;
    switch (c.kind) {
        case CREATE: { uint8_t* o = (uint8_t*)calloc(1, 2048); bool t; { Api z; t = sutc::create(U(c.a), c.a.size(), c.n1, o); } quiet([&] { r = t ? S("T") + S((char*)o, c.n1 / 8) : S("F"); }); free(o); return r; }
        case PROVE: { Api z; b = sutc::prove(U(c.a), c.a.size(), U(c.b), c.b.size(), c.n1, c.n2); } quiet([&] { r = b.p ? S("P") + S((char*)b.p, b.n) : S("N") + (b.n ? "!" : ""); }); sutc::del(b); return r;
        case VERIFY: { bool t; { Api z; t = sutc::verify(U(c.a), c.a.size(), U(c.b), U(c.c), c.c.size(), c.n1, c.n2); } return t ? "T" : "F"; }
        case SLOW: b = sutc::slow(U(c.a), c.a.size(), U(c.b), c.n1, "", ok); break;
        case SLOWM: b = sutc::slow(U(c.a), c.a.size(), U(c.b), c.n1, c.n2 ? STAYS : ABSENT, ok); break;
        case CDVERIFY: b = sutc::call_cdverify(U(c.a), c.a.size(), (uint32_t)c.n3, U(c.b), U(c.c), c.c.size(), c.n1, c.n2, ok); break;
        case WITHB: b = sutc::call_withb(U(c.a), c.a.size(), U(c.b) + 100, U(c.b), U(c.c), c.c.size(), c.n1, c.n2, ok); break;
        case GETB: b = sutc::call_getb(U(c.a), c.a.size(), U(c.b), U(c.c), c.c.size(), c.n1, c.n2, ok); break;
    }
    quiet([&] { r = S(1, '0' + ok); if (b.p) r.append((char*)b.p, b.n); }); free(b.p);
    return r;
}
S fail_value(const Call& c) { return c.kind == PROVE ? "N" : "F"; }
void put(S& o, const S& s) { uint32_t n = (uint32_t)s.size(); o.append((char*)&n, 4); o += s; }
void put(S& o, int64_t v) { o.append((char*)&v, 8); }
S gets(const S& i, size_t& p) { uint32_t n; memcpy(&n, &i[p], 4); S r = i.substr(p + 4, n); p += 4 + n; return r; }
int64_t geti(const S& i, size_t& p) { int64_t v; memcpy(&v, &i[p], 8); p += 8; return v; }
// runs f in a fresh process
bool in_child(const std::function<S()>& f, S& out) {
    int fd[2]; if (pipe(fd)) return false;
    pid_t c = fork();
    if (c == 0) { close(fd[0]); S r = f(); size_t o = 0; while (o < r.size()) { ssize_t k = write(fd[1], r.data() + o, r.size() - o); if (k <= 0) _exit(3); o += k; } _exit(0); }
    close(fd[1]); out.clear(); char buf[65536]; ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, k);
    close(fd[0]); int st = 0; waitpid(c, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
S gen_form() { S x(100, '\0'); x[0] = 8; return x; }
S make_pool() {
    S o; Rng r(20261118); S x0 = gen_form();
    auto emit = [&](const Call& c) { put(o, c.kind); put(o, c.n1); put(o, c.n2); put(o, c.n3); put(o, c.a); put(o, c.b); put(o, c.c); put(o, (int64_t)c.good); };
    auto rnd = [&](int n) { S s; for (int i = 0; i < n; i++) s.push_back((char)r.next()); return s; };
    for (int bits : {64, 128, 128, 192, 256, 256, 512, 512, 1024, 1024, 8, 16, 0, 12, 1025, 5000, 704}) { Call c; c.kind = CREATE; c.n1 = bits; c.a = rnd((int)r.pick<int>({8, 10, 32, 32, 64})); c.good = bits >= 64 && bits % 8 == 0 && bits < 2000; emit(c); }
    { Call c; c.kind = CREATE; c.n1 = 256; emit(c); }
    // calls that differ in one argument only
    { Call c; c.kind = CREATE; c.good = true; c.a = rnd(32); for (int bits : {64, 128, 256, 512}) { c.n1 = bits; emit(c); } c.a[31] ^= 1; c.n1 = 128; emit(c); c.a.pop_back(); emit(c); }
    int BITS[] = {64, 64, 96, 128, 128, 192, 256, 256, 256, 320, 384, 512, 512, 1024};
    for (int bits : BITS) {
        S seed = rnd(32), D(bits / 8, '\0');
        sutc::create(U(seed), 32, bits, (uint8_t*)&D[0]);
        int64_t T = bits <= 128 ? r.range(2, 2500) : bits <= 256 ? r.range(2, 1200) : r.range(2, 300); if (r.chance(1, 8)) T = r.range(0, 2);
        Call pc; pc.kind = PROVE; pc.a = seed; pc.b = x0; pc.n1 = bits; pc.n2 = T; pc.good = true; emit(pc);
        S proof = exec(pc); if (proof[0] != 'P') continue; proof.erase(0, 1);
        // a chain of up to three segments
        S chain = proof.substr(0), x = x0, tail; int64_t depth = r.range(0, 3), TT = 0;
        for (int64_t d = 0; d < depth; d++) {
            Call sc; sc.kind = SLOW; sc.a = D; sc.b = x; sc.n1 = r.range(2, 400); sc.good = true; if (d == 0) emit(sc);
            S s = exec(sc); if (s[0] != '1') break; s.erase(0, 1);
            mpz_class DD = -num(D); ref::Form fx, fy; S err; ref::deser(U(x), DD, fx, err); ref::deser(U(s), DD, fy, err);
            S it(8, '\0'); for (int i = 0; i < 8; i++) it[7 - i] = (char)(sc.n1 >> (8 * i));
            tail = it + bytes(ref::get_B(fx, fy, DD), 33) + s.substr(100) + tail; x = s.substr(0, 100); TT += sc.n1;
        }
        { Call m; m.kind = SLOWM; m.a = D; m.b = x; m.n1 = r.range(2, 600); m.n2 = 1; m.good = true; emit(m); if (r.chance(1, 2)) { m.n2 = 0; emit(m); } }
        Call lc; lc.kind = SLOW; lc.a = D; lc.b = x; lc.n1 = r.range(2, 300); lc.good = true; emit(lc);
        S last = exec(lc); if (last[0] != '1') continue; last.erase(0, 1); TT += lc.n1;
        int64_t dep = (int64_t)tail.size() / 141;
        S blob = last + tail;
        for (int v = 0; v < 5; v++) {
            Call c; c.kind = VERIFY; c.a = D; c.b = x0; c.c = v < 2 || v == 4 ? blob : proof; c.n1 = v < 2 || v == 4 ? TT : T; c.n2 = v < 2 || v == 4 ? dep : 0; c.good = true;
            if (v == 1 || v == 3) { c.good = false; switch (r.below(6)) { case 0: c.n1++; break; case 1: c.c[r.below(c.c.size())] ^= (char)(1 << r.below(8)); break; case 2: c.n2++; break; case 3: c.c.pop_back(); break; case 4: c.b[r.below(40)] ^= 4; break; default: c.c.replace(100, 100, x0); } }
            if (v == 4) { Call b; b.kind = GETB; b.a = D; b.b = x0; b.c = blob; b.n1 = TT; b.n2 = dep; b.good = true; emit(b);
                          Call w = b; w.kind = WITHB; w.c = blob.substr(100); { mpz_class DD = -num(D); ref::Form fx, fy; S err; ref::deser(U(x), DD, fx, err); ref::deser(U(blob), DD, fy, err); w.b = x0 + bytes(ref::get_B(fx, fy, DD), 33); } w.n1 = TT; emit(w);
                          Call q; q.kind = CDVERIFY; q.a = seed; q.b = x0; q.c = blob; q.n1 = TT; q.n2 = dep; q.n3 = bits; q.good = true; emit(q); if (r.chance(1, 3)) { q.n3 += 8; q.good = false; emit(q); } }
            else emit(c);
        }
    }
    return o;
}
std::vector<int> cheap[NKIND];   // calls by kind, cheap enough to repeat
std::vector<int> api;            // the three C API functions
double sqcost[4];
void prepare(const std::string& prop) {
    mp_set_memory_functions(g_alloc, g_realloc, g_free);
    if (prop == "C13") {
        tables::load({330000, 330000, 330000, 330000});
        for (int d = 0; d < 4; d++) {
            S o; in_child([d] { S x = ref::ser(tab[d].x0, tab[d].D), D = bytes(-tab[d].D, DISCS[d].bits / 8); sutc::squarings(U(D), D.size(), U(x), 1); int64_t c0 = dsim_countdown; sutc::squarings(U(D), D.size(), U(x), 20000); S r; put(r, c0 - dsim_countdown); return r; }, o);
            size_t p = 0; if (o.size() != 8) { fprintf(stderr, "cannot measure the prover\n"); _exit(2); }
            sqcost[d] = (double)geti(o, p) / 20000;
        }
    }
    S o; if (!in_child([] { return make_pool(); }, o)) { fprintf(stderr, "cannot make the pool of calls\n"); _exit(2); }
    for (size_t p = 0; p < o.size();) { Call c; c.kind = geti(o, p); c.n1 = geti(o, p); c.n2 = geti(o, p); c.n3 = geti(o, p); c.a = gets(o, p); c.b = gets(o, p); c.c = gets(o, p); c.good = geti(o, p); pool.push_back(c); }
    // what each call returns when it runs alone, in a process of its own
    int per = 0;
    for (auto& c : pool) {
        S r; bool ok = in_child([&] { int64_t c0 = dsim_countdown, n0 = dsim_total_new; S e = exec(c); int64_t dc = c0 - dsim_countdown; S x; put(x, dc); put(x, dsim_total_new - n0); put(x, e); return x; }, r);
        if (!ok) { c.cost = -1; continue; }   // dies even alone: not a matter of concurrency
        size_t p = 0; c.cost = geti(r, p); c.news = geti(r, p); c.expect = gets(r, p); per++;
    }
    for (size_t i = 0; i < pool.size(); i++) if (pool[i].cost >= 0) { cheap[pool[i].kind].push_back((int)i); if (pool[i].kind <= VERIFY) api.push_back((int)i); }
    if (getenv("DSIM_POOL")) for (auto& c : pool) fprintf(stderr, "%s n1=%lld n2=%lld expect=%c(%zu) good=%d cost=%lld news=%lld\n", KN[c.kind], (long long)c.n1, (long long)c.n2, c.expect.empty() ? '?' : c.expect[0], c.expect.size(), c.good, (long long)c.cost, (long long)c.news);
}
void sched(Rng& r, Plan& p, double qlo, double qhi) {
    p.cfg["sseed"] = (int64_t)(r.next() >> 1);
    p.cfg["policy"] = r.pick<int>({0, 0, 1, 1, 2, 3});
    p.cfg["quantum"] = (int64_t)(qlo * pow(qhi / qlo, r.unit()));
    p.cfg["psync"] = r.pick<int>({20000, 200000, 600000, 1000000});
    if (r.chance(1, 3)) { p.cfg["stall"] = r.pick<int>({1000, 20000}); p.cfg["stall_len"] = r.pick<int>({10000, 300000}); }
    p.cfg["epoch"] = r.pick<int>({50000, 1000000});
}
int timer_obj;
void wait_steps(int64_t n) {
    if (n <= 0) { sync_point(); return; }
    auto fl = std::make_shared<int>(0);
    at_step(steps() + n, [fl] { *fl = 1; wake_all(&timer_obj); });
    while (!*fl) block(&timer_obj, UINT64_MAX);
}
void budget_hooks() {
    hooks.hash_switches = true;
    hooks.on_deadlock = [] { fail("deadlock", "nothing can run any more; " + describe_threads()); };
    hooks.on_hard_budget = [] { fail("never_ends", "no end within the budget; " + describe_threads()); };
}
// ---- C13: ops  prove <disc> <T> <marker 0 none 1 yes> <removal: -1 never, else in thousandths of the expected work, -2 absent from the start> <start delay> <earlier call whose marker it shares, or -1>
struct Job { int disc; int64_t T, removal; bool marker; int64_t delay; S path; int thr = -1; bool gone = false; uint64_t t0 = 0, gone_at = 0, t1 = 0; int checks = 0, gone_checks = 0; S D, x; S res; bool null = false; int ok = -1; bool capi = false; int call = -1; int fs = 0; bool shared = false; };
std::vector<std::unique_ptr<Job>> J;
Plan gen13(Rng& r, bool th) {
    Plan p; int n = (int)r.pick<int>({1, 1, 2, 3}); double tot = 0;
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 8)) { p.ops.push_back(Op{"capi", {r.pick(cheap[PROVE]), (int64_t)(r.unit() * 1e6)}}); continue; }
        int d = (int)r.pick<int>({0, 0, 0, 1, 2, 3});
        int64_t mx = th ? 320000 : 200000, T = r.chance(1, 4) ? r.range(0, 500) : r.chance(1, 5) ? 65536 * r.range(1, 3) + r.range(-2, 2) : r.range(500, mx); if (T > 320000) T = 320000; if (n > 1 && T > 140000) T = T % 140000;
        bool m = !r.chance(1, 6); int64_t rem = !m ? -1 : r.chance(1, 3) ? -1 : r.chance(1, 10) ? -2 : r.chance(1, 6) ? r.range(950, 1100) : r.range(0, 999);
        p.ops.push_back(Op{"prove", {d, T, m, rem, i ? (int64_t)(r.unit() * 3e6) : 0, i && m && r.chance(1, 3) ? r.range(0, i - 1) : -1}}); tot += (T + 1000.0) * sqcost[d] * 2.2 + 1e6;
    }
    if (r.chance(1, 2)) p.cfg["eintr"] = r.pick<int>({50000, 300000, 1000000});
    if (r.chance(1, 2)) p.cfg["stale"] = r.pick<int>({100000, 1000000});

    sched(r, p, 1000, 1e6);
    p.cfg["soft"] = (int64_t)(tot * 2 + 2e7); p.cfg["hard"] = (int64_t)(tot * 4 + 4e8);
    return p;
}
void run13(const Plan& p) {
    uint32_t eintr = (uint32_t)p.get("eintr"), stale = (uint32_t)p.get("stale");
    char dir[] = "/tmp/chiavdf_sim_XXXXXX"; if (!mkdtemp(dir)) inconclusive("no scratch directory");
    S dd = dir;
    for (auto& o : p.ops) {
        auto j = std::make_unique<Job>();
        if (o.k == "capi") { j->capi = true; j->call = (int)o.a[0]; j->delay = o.a[1]; if (j->call >= (int)pool.size()) continue; }
        else { j->disc = (int)o.a[0]; j->T = o.a[1]; j->marker = o.a[2]; j->removal = o.a[3]; j->delay = o.a[4]; j->D = bytes(-tab[j->disc].D, DISCS[j->disc].bits / 8); j->x = ref::ser(tab[j->disc].x0, tab[j->disc].D);
            Job* with = j->marker && o.a.size() > 5 && o.a[5] >= 0 && o.a[5] < (int64_t)J.size() && J[o.a[5]]->marker ? J[o.a[5]].get() : nullptr;
            if (with) { j->path = with->path; j->gone = with->gone; j->shared = true; if (j->removal == -2) j->removal = -1; count("shared_markers"); }
            else if (j->marker) { j->path = dd + fmt("/running_%zu", J.size()); if (j->removal != -2) { int fd = open(j->path.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); } else j->gone = true; } }
        J.push_back(std::move(j));
    }
    budget_hooks();
    hooks.on_stat = [=](const char* path, int* err) -> int {
        Job *j = nullptr, *own = nullptr; for (auto& q : J) { if (!q->path.empty() && q->path == path) { j = q.get(); if (q->thr == cur()) own = j; } }
        for (auto& q : J) if (q->thr == cur()) q->fs++;
        if (!j) return -2;
        if (own) j = own; else fail("wrong_marker", fmt("one call looked at the marker of another"));
        j->checks++; count("marker_checks");
        if (fault("marker_check_interrupted", eintr)) { *err = EINTR; return -1; }
        if (j->gone) { j->gone_checks++; *err = ENOENT; return -1; }
        if (fault("stale_errno", stale)) *err = eintr ? EINTR : ENOENT;   // a call that succeeds does not clear what an earlier one left
        return 0;
    };

    start(p);
    std::vector<int> ids;
    for (auto& q : J) {
        Job* j = q.get();
        int id = spawn([j] {
            wait_steps(j->delay); j->thr = cur(); j->t0 = thread_steps(cur());
            if (j->capi) { S r = exec(pool[j->call]); quiet([&] { j->res = r; }); j->t1 = thread_steps(cur()); return; }
            if (j->removal >= 0) { double at = j->removal / 1000.0 * j->T * sqcost[j->disc]; int me = cur(); std::shared_ptr<std::function<void()>> ev = std::make_shared<std::function<void()>>();
                // the event is placed by work done by this call, not by global time
                *ev = [j, at, me, ev] { uint64_t done = thread_steps(me) - j->t0; if (done + 50 < at && !j->t1) { at_step(steps() + (uint64_t)std::max(50.0, at - done), *ev); return; } if (j->gone || j->t1) return; for (auto& q : J) if (q->path == j->path && !q->gone) { q->gone = true; q->gone_at = q->thr >= 0 ? thread_steps(q->thr) : 0; } unlink(j->path.c_str()); count("marker_removed"); };
                at_step(steps() + 1 + (uint64_t)at, *ev); }
            sutc::Buf b = sutc::slow(U(j->D), j->D.size(), U(j->x), j->T, j->path.c_str(), j->ok);
            j->t1 = thread_steps(cur());
            quiet([&] { if (b.p) j->res.assign((char*)b.p, b.n); else j->null = true; free(b.p); });
        });
        ids.push_back(id);
    }
    for (int id : ids) if (id >= 0) join(id);
    stop();
    for (auto& q : J) { if (!q->path.empty()) unlink(q->path.c_str()); }
    rmdir(dir);
    for (auto& q : J) {
        Job& j = *q;
        if (j.capi) { if (j.fs) fail("fs_consulted", "a proving call without a marker path asked the file system"); if (j.res != pool[j.call].expect) fail("wrong_result", "prove_wrapper returned something else than when run alone"); count("capi_proofs"); continue; }
        if (!j.marker && j.fs) fail("fs_consulted", "a proving call without a marker path asked the file system");
        if (j.ok != 1) fail("exception", "the proving call ended with an exception");
        ref::Table& t = tab[j.disc]; double c = sqcost[j.disc], work = (double)(j.t1 - j.t0);
        S what = fmt("T=%lld |D|=%d marker=%d removed=%d after %.0f squarings: ", (long long)j.T, DISCS[j.disc].bits, j.marker, j.gone, j.gone_at > j.t0 ? (j.gone_at - j.t0) / c : 0.0);
        if (j.res.empty()) {
            if (!j.gone) fail("cancelled", what + "the call was cancelled although its marker stayed in place");
            double late = ((double)j.t1 - (double)std::max(j.gone_at, j.t0)) / c;
            // an interrupted check does not count as one: it may happen at every check
            if (!eintr && late > 65536 * 1.15 + 300) fail("late", what + fmt("stopped only about %.0f squarings after the marker went away", late));
            count("cancelled_calls"); nontrivial();
        } else {
            if (j.res.size() != 200) fail("partial", what + fmt("%zu bytes returned", j.res.size()));
            S y = ref::ser(t.at(j.T), t.D), err; ref::Form fp;
            if (j.res.compare(0, 100, y)) fail("wrong_result", what + "the returned form is not the squared one");
            if (!ref::deser(U(j.res) + 100, t.D, fp, err) || !ref::check_wes(t.x0, t.at(j.T), fp, j.T, t.D)) fail("wrong_result", what + "the returned proof does not verify " + err);
            if (j.gone && !eintr) { double left = j.T * 0.85 - ((double)std::max(j.gone_at, j.t0) - j.t0) / c; if (left > 65536 * 1.15 + 300) fail("late", what + fmt("finished the proof although about %.0f squarings were left when the marker went away", left)); }
            if (j.gone && j.gone_at <= j.t0 && j.T > 0 && !eintr) fail("late", what + "a marker that was never there did not cancel the call");
            count("full_proofs"); nontrivial();
        }
        note(what + (j.res.empty() ? "cancelled" : "full proof") + fmt(", %d marker checks, %.0f steps", j.checks, work));
    }
    finish_ok();
}
// ---- C14: ops  thr <start delay>; call <thread> <call> <gap>
Plan gen14(Rng& r, bool th) {
    Plan p; int n = (int)r.range(2, th ? 8 : 6); double tot = 0;
    // some runs press one kind of call, or calls that share inputs
    int focus = r.chance(1, 2) ? (int)r.below(NKIND) : -1;
    for (int i = 0; i < n; i++) p.ops.push_back(Op{"thr", {i, r.chance(1, 2) ? 0 : (int64_t)(r.unit() * 2e6)}});
    int m = (int)r.range(n, n * 4);
    for (int i = 0; i < m; i++) {
        int k = focus >= 0 && r.chance(3, 4) ? focus : (int)r.below(NKIND); int c = r.pick(cheap[k]);
        if (tot + pool[c].cost > 2.5e7 && i > 1) { k = (int)r.below(2) ? VERIFY : CREATE; c = r.pick(cheap[k]); }
        tot += pool[c].cost; if (tot > 4e7 && i > 2) break;
        p.ops.push_back(Op{"call", {i < n ? i : r.range(0, n - 1), c, r.chance(1, 2) ? 0 : (int64_t)(r.unit() * 1e5)}});
    }
    sched(r, p, 20, 100000);
    if (r.chance(1, 2)) p.cfg["stale"] = r.pick<int>({100000, 1000000});
    p.cfg["soft"] = (int64_t)(tot * 3 + 2e7); p.cfg["hard"] = (int64_t)(tot * 6 + 4e8);
    return p;
}
struct Todo { int call; int64_t gap; };
void check_call(const Call& c, const S& r, const char* how) {
    if (r == c.expect) return;
    S h; for (size_t i = 0; i < r.size() && i < c.expect.size(); i++) if (r[i] != c.expect[i]) { h = fmt(" (first difference at byte %zu)", i); break; }
    fail("differs", fmt("%s n1=%lld n2=%lld: %s it returned '%c' and %zu bytes, alone '%c' and %zu bytes%s", KN[c.kind], (long long)c.n1, (long long)c.n2, how, r.empty() ? ' ' : r[0], r.size(), c.expect[0], c.expect.size(), h.c_str()));
}
void run14(const Plan& p) {
    std::map<int, std::vector<Todo>> todo; std::map<int, int64_t> delay;
    for (auto& o : p.ops) { if (o.k == "thr") delay[(int)o.a[0]] = o.a[1]; else if (o.a[1] < (int64_t)pool.size()) todo[(int)o.a[0]].push_back({(int)o.a[1], o.a[2]}); }
    budget_hooks();
    uint32_t stale = (uint32_t)p.get("stale");
    hooks.on_stat = [=](const char* path, int* err) -> int {
        count("marker_checks");
        if (S(path) == STAYS) { if (fault("stale_errno", stale)) *err = ENOENT; return 0; }
        if (S(path) == ABSENT) { *err = ENOENT; return -1; }
        return -2;
    };
    start(p);
    std::vector<int> ids; int calls = 0;
    for (auto& t : todo) {
        auto* v = &t.second; int64_t dl = delay.count(t.first) ? delay[t.first] : 0;
        ids.push_back(spawn([v, dl, &calls] {
            if (dl) wait_steps(dl);
            for (auto& td : *v) { if (td.gap) wait_steps(td.gap); S r = exec(pool[td.call]); quiet([&] { check_call(pool[td.call], r, "with other calls around"); calls++; }); count("calls"); count(KN[pool[td.call].kind]); }
        }));
    }
    for (int id : ids) if (id >= 0) join(id);
    stop();
    if (calls > 1) nontrivial();
    note(fmt("%d calls in %zu threads, policy %lld, quantum %lld", calls, ids.size(), (long long)p.get("policy"), (long long)p.get("quantum")));
    finish_ok();
}
// ---- C15: ops  call <thread> <call> <first failing allocation, 0 none> <1 only that one, 0 all from there on> <only blocks of at least this size are counted and fail>
Plan gen15(Rng& r, bool th) {
    Plan p; int n = r.chance(3, 4) ? 1 : (int)r.range(2, 3); double tot = 0; p.cfg["threads"] = n;
    int m = (int)r.range(2, th ? 24 : 12); p.cfg["fresh"] = r.chance(1, 2);
    for (int i = 0; i < m; i++) {
        int c = r.pick(api); if (pool[c].cost > 4e6 && r.chance(4, 5)) c = r.pick(cheap[r.chance(1, 2) ? VERIFY : CREATE]);
        tot += pool[c].cost; if (tot > 2e7 && i > 2) break;
        int64_t nn = pool[c].news, k = r.chance(1, 5) ? 0 : r.chance(1, 2) ? r.range(1, std::min<int64_t>(nn + 1, 12)) : r.chance(1, 3) ? std::max<int64_t>(1, nn - r.range(0, 10)) : r.range(1, nn + 1);
        int64_t mn = 0; if (k && r.chance(1, 3)) { mn = r.pick<int>({48, 128, 200, 512, 2000, 8000}); k = r.chance(3, 4) ? r.range(1, 4) : r.range(1, 40); }
        p.ops.push_back(Op{"call", {r.range(0, n - 1), c, k, r.chance(2, 3), mn}});
    }
    sched(r, p, 100, 100000);
    p.cfg["soft"] = (int64_t)(tot * 3 + 2e7); p.cfg["hard"] = (int64_t)(tot * 6 + 4e8);
    return p;
}
struct Arm { int64_t n = 0, at = 0, min = 0; bool one = true, hit = false; };
std::map<int, Arm> arm;
void one15(const Op& o, bool alone) {
    const Call& c = pool[o.a[1]]; int me = cur();
    int64_t l0;
    Arm* a = nullptr; quiet([&] { a = &arm[me]; }); l0 = dsim_live_new;
    a->n = 0; a->one = o.a[3]; a->hit = false; a->at = o.a[2]; a->min = o.a.size() > 4 ? o.a[4] : 0;
    hash_event(o.a[1], o.a[2] * 2 + o.a[3]);
    S r = exec(c); a->at = 0;
    quiet([&] {
        count("calls"); if (a->hit) { count("calls_hit"); nontrivial(); }
        bool okv = r == c.expect || (a->hit && r == fail_value(c));
        if (!okv) {
            S how = a->hit ? fmt("with allocation %lld %s failing", (long long)o.a[2], o.a[3] ? "" : "and later") : S("after earlier failures");
            if (a->hit && (r[0] == 'T' || r[0] == 'P')) fail("wrong_success", fmt("%s n1=%lld n2=%lld: %s it reported success with a wrong result", KN[c.kind], (long long)c.n1, (long long)c.n2, how.c_str()));
            check_call(c, r, how.c_str());
        }
        if (a->hit) count(r == c.expect ? "failures_survived" : "failures_reported");
    });
    int64_t news = r.size() > 15 ? 1 : 0;   // the result string of the harness itself
    if (alone && dsim_live_new - news != l0) fail("leak", fmt("%s n1=%lld n2=%lld with allocation %lld failing: %lld C++ blocks stay allocated", KN[c.kind], (long long)c.n1, (long long)c.n2, (long long)o.a[2], (long long)(dsim_live_new - news - l0)));
}
void warm_new(const Op&) {}
void run15(const Plan& p) {
    budget_hooks();
    int n = (int)p.get("threads", 1); bool fresh = p.get("fresh");
    // scratch integers that live as long as their thread are not leaks: use every call once first
    auto warm = [] { for (int k : {CREATE, PROVE, VERIFY}) { int best = -1; for (int i : cheap[k]) if (pool[i].good && (best < 0 || pool[i].cost < pool[best].cost)) best = i; if (best >= 0) exec(pool[best]); } int big = -1; for (int i : cheap[VERIFY]) if (pool[i].good && pool[i].a.size() >= 64 && (big < 0 || pool[i].cost < pool[big].cost)) big = i; if (big >= 0) exec(pool[big]); };
    if (n == 1 && !fresh) warm();
    hooks.on_new = [](size_t size) { if (!in_api) return false; auto it = arm.find(cur()); if (it == arm.end() || !it->second.at) return false; Arm& a = it->second; if ((int64_t)size < a.min) return false; a.n++; bool f = a.one ? a.n == a.at : a.n >= a.at; if (f) a.hit = true; return f; };
    int64_t L0 = dsim_live_new, G0 = gmp_live;
    start(p);
    if (n == 1 && fresh) {
        // a thread of its own for every call: nothing at all may remain once it has ended
        for (auto& o : p.ops) if (o.a[1] < (int64_t)pool.size()) {
            int64_t g0 = gmp_live; int id = spawn([&o] { warm_new(o); one15(o, true); }); if (id >= 0) join(id);
            if (gmp_live != g0) fail("leak", fmt("%s n1=%lld n2=%lld with allocation %lld failing: %lld integers stay allocated after its thread ended", KN[pool[o.a[1]].kind], (long long)pool[o.a[1]].n1, (long long)pool[o.a[1]].n2, (long long)o.a[2], (long long)(gmp_live - g0)));
        }
    } else if (n == 1) { for (auto& o : p.ops) if (o.a[1] < (int64_t)pool.size()) one15(o, true); }
    else {
        std::vector<int> ids;
        for (int t = 0; t < n; t++) ids.push_back(spawn([t, &p] { for (auto& o : p.ops) if (o.a[0] == t && o.a[1] < (int64_t)pool.size()) one15(o, false); }));
        for (int id : ids) if (id >= 0) join(id);
    }
    stop(); (void)L0;
    if (n > 1 && gmp_live != G0) fail("leak", fmt("%lld integers stay allocated after the threads ended", (long long)(gmp_live - G0)));
    note(fmt("%zu calls in %d threads", p.ops.size(), n));
    finish_ok();
}
Plan gen(const std::string& prop, uint64_t seed, bool th) { Rng r(seed); Plan p = prop == "C13" ? gen13(r, th) : prop == "C14" ? gen14(r, th) : gen15(r, th); p.cfg["prop"] = atoi(prop.c_str() + 1); return p; }
void run(const Plan& p) { in_run = true; switch (p.get("prop")) { case 13: run13(p); break; case 14: run14(p); break; default: run15(p); } }
}  // namespace
dsim::Scenario dsim::scenario = {"capi", gen, run, prepare, {{"policy", 0}, {"quantum", 20000}, {"quantum", 100000}, {"psync", 0}, {"stall", 0}, {"eintr", 0}, {"stale", 0}, {"threads", 1}}};
