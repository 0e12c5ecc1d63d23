#include "dsim.h"
#include "dsim_int.h"
#include <sys/mman.h>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>

extern "C" int ___interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) __attribute__((weak));
extern "C" int ___interceptor_pthread_join(pthread_t, void**) __attribute__((weak));

namespace dsim {

Hooks hooks;
Shm* shm = nullptr;           // set by the runner
Real real;
int64_t dsim_countdown_init = INT64_MAX / 4;
}
extern "C" { int64_t dsim_countdown = INT64_MAX / 4; void dsim_slow(); }

namespace dsim {

std::string fmt(const char* f, ...) {
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

// ---------------------------------------------------------------- counters
void count(const char* name, uint64_t n) {
    if (!shm) return;
    for (int i = 0; i < Shm::NC; i++) {
        if (shm->cname[i][0] == 0) { strncpy(shm->cname[i], name, sizeof(shm->cname[i]) - 1); shm->cval[i] = n; return; }
        if (!strncmp(shm->cname[i], name, sizeof(shm->cname[i]) - 1)) { shm->cval[i] += n; return; }
    }
}

// ---------------------------------------------------------------- state
enum St : uint8_t { RUNNABLE, BLOCKED, FINISHED };
struct Th {
    int id = 0;
    pthread_t pt{};
    St st = RUNNABLE;
    uint32_t futex = 0;
    const void* obj = nullptr;
    uint64_t deadline = UINT64_MAX;
    uint64_t bseq = 0;
    bool spurious_ok = false;
    int reason = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool joined = false, detached = false, reaped = false;
    void* stack = nullptr; bool starved = false;
    uint64_t steps = 0;
    uint64_t prio = 0;
    uint64_t held_until = 0; int held_by = 0;   // does not run before another thread has made this many steps
    uint64_t stall_until = 0; uint32_t stall_jumps = 0;   // timers of other threads that may pass before a stall ends
    uint64_t last_run = 0;
};
struct Ev { uint64_t key; uint64_t seq; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.key != b.key ? a.key > b.key : a.seq > b.seq; } };

static struct G {
    bool active = false;
    bool in_sim = false;
    Th* th[MAXT];
    int nth = 0;
    int cur = 0;
    uint64_t now = 1000000000ull * 1000;
    uint64_t steps = 0;
    int64_t armed = 0;
    uint64_t bseq = 0, evseq = 0;
    std::vector<Ev> tev, sev;
    Rng rng{1};
    // configuration
    int policy = 0;
    double quantum = 2000;
    uint64_t ps_per_step = 1000;
    uint64_t ps_acc = 0;
    uint64_t soft = UINT64_MAX, hard = UINT64_MAX;
    uint64_t lowprio_after = UINT64_MAX;
    int lowthr = -1;
    uint32_t psync = 200000;
    uint32_t spur_ppm = 0, stall_ppm = 0, leap_ppm = 0;
    uint64_t stall_len = 100000;
    uint64_t next_shuffle = 0, epoch = 500000;
    bool fair = false, soft_fired = false;
    uint32_t sstall = 0; uint64_t sstall_len = 0;
    struct Starve { int id = -1; uint64_t at = 0, len = 0; } starve[2];   // a thread that stops for long at a point of its own progress
    // breakpoints: code positions, drawn per run, at which a thread is descheduled for long
    uint32_t bp_ppm = 0, bp_jumps = 0; uint64_t bp_len = 0; bool bp_on = false, bp_pending = false;
    uint64_t max_switches = UINT64_MAX;
    uint64_t hash = 1469598103934665603ull, hash2 = 1469598103934665603ull;
    uint64_t nswitch = 0;
    int reap = -1;
    // trace replay
    bool trace_mode = false;
    size_t tpos = 0;
    uint64_t hb = 20000;
} g;

static Th* C() { return g.th[g.cur]; }
bool active() { return g.active && !g.in_sim; }
bool in_sim() { return g.in_sim; }
uint64_t now() { return g.now; }
static inline void account() {
    int64_t used = g.armed - dsim_countdown;
    if (used < 0) used = 0;
    g.armed = dsim_countdown;
    g.steps += used;
    if (g.nth) C()->steps += used;
    g.ps_acc += (uint64_t)used * g.ps_per_step;
    g.now += g.ps_acc / 1000; g.ps_acc %= 1000;
}
uint64_t steps() { return g.steps + (g.armed - dsim_countdown > 0 && !g.in_sim ? g.armed - dsim_countdown : 0); }
int cur() { return g.cur; }
void hold_newest_thread(int other, uint64_t until) { Th* t = g.th[g.nth - 1]; if (g.fair || t->st == FINISHED) return; t->held_by = other; t->held_until = until; count("thread_held"); }
static bool held(Th* t) { return t->held_until && !g.fair && g.th[t->held_by]->st != FINISHED && g.th[t->held_by]->steps < t->held_until; }
int live_threads() { int n = 0; for (int i = 0; i < g.nth; i++) n += g.th[i]->st != FINISHED; return n; }
uint64_t thread_steps(int id) { return g.th[id]->steps; }
uint64_t max_thread_steps() { uint64_t m = 0; for (int i = 0; i < g.nth; i++) m = std::max(m, g.th[i]->steps); return m; }
uint64_t history_hash() { return g.hash; }
bool fair_phase() { return g.fair; }
void set_lowprio_after(uint64_t s) { g.lowprio_after = s; }
static inline void mix(uint64_t& h, uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
void hash_event(uint64_t a, uint64_t b) {
    mix(g.hash, a * 0x9E3779B97F4A7C15ull ^ b); mix(g.hash, g.steps); mix(g.hash, g.cur);
    mix(g.hash2, a); mix(g.hash2, b); mix(g.hash2, g.cur);
}
std::string describe_threads() {
    std::string s;
    for (int i = 0; i < g.nth; i++) {
        Th* t = g.th[i];
        if (t->st == FINISHED) continue;
        s += fmt("[t%d %s%s steps=%llu] ", i, t->st == RUNNABLE ? "runnable" : "blocked",
                 t->deadline != UINT64_MAX && t->st == BLOCKED ? "(timer)" : "", (unsigned long long)t->steps);
    }
    return s;
}

// Enter/leave simulator context: no preemption, no interposition inside.
struct SimScope {
    bool prev;
    SimScope() : prev(g.in_sim) { if (!prev) { account(); g.in_sim = true; dsim_countdown = g.armed = INT64_MAX / 4; } }
    ~SimScope();
};
static void rearm();
SimScope::~SimScope() { if (!prev) { g.in_sim = false; rearm(); } }

// ---------------------------------------------------------------- trace
// Every recorded choice takes one step, so the step number identifies it.
static void rec(char kind, uint32_t v) {
    if (!shm) return;
    if (shm->trace_len < Shm::NT) shm->trace[shm->trace_len] = TraceEnt{g.steps, v, kind};
    shm->trace_len++;
}
static const TraceEnt* lookup(uint64_t s, char kind) {
    const auto& T = replay_trace();
    while (g.tpos < T.size() && T[g.tpos].step < s) g.tpos++;
    for (size_t i = g.tpos; i < T.size() && T[i].step == s; i++) if (T[i].kind == kind) return &T[i];
    return nullptr;
}
static uint64_t next_trace_step() {
    const auto& T = replay_trace();
    while (g.tpos < T.size() && T[g.tpos].step <= g.steps) g.tpos++;
    return g.tpos < T.size() ? T[g.tpos].step : UINT64_MAX;
}
static void rearm() {
    if (!g.active) { dsim_countdown = g.armed = INT64_MAX / 4; return; }
    int64_t q;
    if (g.trace_mode) {
        // a preemption recorded at step S was armed S-2 steps after the previous point
        uint64_t nx = next_trace_step();
        q = nx == UINT64_MAX || nx - g.steps > g.hb ? (int64_t)g.hb : (int64_t)(nx - g.steps) - 2;
        if (q < 0) q = 0;
    } else if (g.nth && g.nswitch >= g.max_switches) {
        q = 20000;
    } else {
        double u = g.rng.unit();
        double m = g.fair ? std::max(g.quantum, 2000.0) : g.quantum;
        q = 1 + (int64_t)(-log(1.0 - u) * m);
    }
    if (q < 1 && !g.trace_mode) q = 1;
    if (g.steps < g.hard && g.hard - g.steps < (uint64_t)q) q = g.hard - g.steps;
    if (g.steps < g.soft && g.soft - g.steps < (uint64_t)q) q = g.soft - g.steps;
    dsim_countdown = g.armed = q;
}
uint32_t choose(uint32_t n, char kind) {
    if (n <= 1) return 0;
    bool nested = g.in_sim;
    if (!nested) account();
    g.steps++;
    uint32_t v;
    if (g.trace_mode) {
        const TraceEnt* e = lookup(g.steps, kind);
        v = e ? e->v % n : 0;
    } else {
        v = (uint32_t)g.rng.below(n);
    }
    if (v) rec(kind, v);
    mix(g.hash, ((uint64_t)kind << 32) | v);
    return v;
}
bool fault(const char* name, uint32_t ppm, char kind) {
    if (!ppm || g.fair) return false;
    bool nested = g.in_sim;
    if (!nested) account();
    g.steps++;
    bool hit;
    if (g.trace_mode) { const TraceEnt* e = lookup(g.steps, kind); hit = e && e->v; }
    else hit = g.rng.below(1000000) < ppm;
    if (hit) { rec(kind, 1); count(name); mix(g.hash, kind); }
    return hit;
}

// ---------------------------------------------------------------- events
void at_time(uint64_t t, std::function<void()> f) { g.tev.push_back(Ev{t, g.evseq++, std::move(f)}); std::push_heap(g.tev.begin(), g.tev.end(), EvCmp()); }
void at_step(uint64_t s, std::function<void()> f) { g.sev.push_back(Ev{s, g.evseq++, std::move(f)}); std::push_heap(g.sev.begin(), g.sev.end(), EvCmp()); }
static void set_breakpoints(const Plan& p); extern bool profiling;
static Ev pop(std::vector<Ev>& q) { std::pop_heap(q.begin(), q.end(), EvCmp()); Ev e = std::move(q.back()); q.pop_back(); return e; }
void begin_fair_phase() { if (!g.fair) { g.fair = true; count("fair_phase_entered"); for (int i = 0; i < g.nth; i++) g.th[i]->stall_until = 0; } }

// Jumping an idle clock counts against the step budgets, so that polling loops that can make no progress end a run.
uint64_t jump_cost = 20000;
static void jumped() {
    count("clock_jump");
    const uint64_t cost = jump_cost;
    if (g.soft != UINT64_MAX) g.soft = g.soft > cost ? g.soft - cost : 0;
    if (g.hard != UINT64_MAX) g.hard = g.hard > cost ? g.hard - cost : 0;
}
// true if anything happened
static bool run_due() {
    bool any = false;
    if (profiling && g.steps > 20000000) finish_ok();
    if (!g.soft_fired && g.steps >= g.soft) { g.soft_fired = true; if (hooks.on_soft_budget) hooks.on_soft_budget(); else begin_fair_phase(); any = true; }
    if (g.steps >= g.hard) {
        uint64_t h = g.hard; g.hard = UINT64_MAX;
        if (hooks.on_hard_budget) hooks.on_hard_budget();
        if (g.hard == UINT64_MAX && g.active) fail("no_progress", fmt("step budget %llu exhausted; %s", (unsigned long long)h, describe_threads().c_str()));
    }
    for (;;) {
        if (!g.sev.empty() && g.sev.front().key <= g.steps) { Ev e = pop(g.sev); e.f(); any = true; continue; }
        if (!g.tev.empty() && g.tev.front().key <= g.now) { Ev e = pop(g.tev); e.f(); any = true; continue; }
        break;
    }
    for (int i = 0; i < g.nth; i++) {
        Th* t = g.th[i];
        if (t->st == BLOCKED && t->deadline <= g.now) { t->st = RUNNABLE; t->reason = TIMEOUT; t->deadline = UINT64_MAX; any = true; }
    }
    return any;
}
static uint64_t next_timer() {
    uint64_t m = UINT64_MAX;
    for (int i = 0; i < g.nth; i++) if (g.th[i]->st == BLOCKED) m = std::min(m, g.th[i]->deadline);
    if (!g.tev.empty()) m = std::min(m, g.tev.front().key);
    return m;
}

// ---------------------------------------------------------------- scheduling
// Chooses the thread to run next.  `forced`: the current thread cannot run.
static int pick(bool forced) {
    std::vector<int> r, low;
    for (;;) {
        run_due();
        if (!g.trace_mode && g.spur_ppm && !g.fair) {
            for (int i = 0; i < g.nth; i++) {
                Th* t = g.th[i];
                if (t->st == BLOCKED && t->spurious_ok && g.rng.below(1000000) < g.spur_ppm) { g.steps++; rec('s', i + 1); t->st = RUNNABLE; t->reason = SPURIOUS; count("spurious_wakeup"); }
            }
        } else if (g.trace_mode && g.spur_ppm) {
            for (;;) {
                const TraceEnt* e = lookup(g.steps + 1, 's');
                if (!e) break;
                g.steps++;
                int i = (int)e->v - 1;
                if (i >= 0 && i < g.nth && g.th[i]->st == BLOCKED && g.th[i]->spurious_ok) { g.th[i]->st = RUNNABLE; g.th[i]->reason = SPURIOUS; count("spurious_wakeup"); }
            }
        }
        if (g.trace_mode && g.bp_on && lookup(g.steps + 1, 'T')) {
            g.steps++; uint64_t nt = next_timer();
            if (nt != UINT64_MAX && nt > g.now) { g.now = nt; jumped(); }
            continue;
        }
        r.clear(); low.clear();
        int stalled = 0;
        for (int i = 0; i < g.nth; i++) {
            Th* t = g.th[i];
            if (t->st != RUNNABLE || held(t)) continue;
            if (!t->starved && !g.fair) for (auto& s : g.starve) if (i == s.id && t->steps >= s.at) { t->starved = true; t->stall_until = g.steps + s.len; count("thread_starved"); }
            if (t->stall_until > g.steps && !g.fair) { stalled++; continue; }
            if (t->steps > g.lowprio_after && (g.lowthr < 0 || i == g.lowthr)) low.push_back(i); else r.push_back(i);
        }
        if (!r.empty()) break;
        if (stalled) { // nothing else can run: the least stalled thread resumes
            uint64_t m = UINT64_MAX; int w = -1;
            uint64_t nt = g.bp_on && g.nswitch < g.max_switches ? next_timer() : UINT64_MAX; bool outlast = nt != UINT64_MAX;
            for (int i = 0; i < g.nth && outlast; i++) if (g.th[i]->st == RUNNABLE && g.th[i]->stall_until > g.steps && !g.th[i]->stall_jumps) outlast = false;
            if (outlast) {
                for (int i = 0; i < g.nth; i++) if (g.th[i]->stall_jumps) g.th[i]->stall_jumps--;
                g.steps++; rec('T', 1); if (nt > g.now) { g.now = nt; jumped(); }
                continue;
            }
            for (int i = 0; i < g.nth; i++) if (g.th[i]->st == RUNNABLE && g.th[i]->stall_until > g.steps && g.th[i]->stall_until < m) { m = g.th[i]->stall_until; w = i; }
            // let timers pass first if they come before the stall would end
            g.th[w]->stall_until = 0;
            continue;
        }
        if (!low.empty()) {
            uint64_t nt = next_timer();
            if (nt != UINT64_MAX && choose(2, 'j')) { if (nt > g.now) { g.now = nt; jumped(); } continue; }
            r = low; break;
        }
        uint64_t nt = next_timer();
        bool freed = false;
        for (int i = 0; i < g.nth && nt == UINT64_MAX && g.sev.empty(); i++) if (g.th[i]->held_until) { g.th[i]->held_until = 0; freed = true; }
        if (freed) continue;
        if (nt == UINT64_MAX && g.sev.empty()) {
            if (hooks.on_deadlock) hooks.on_deadlock();
            fail("deadlock", "no thread can ever run again: " + describe_threads());
        }
        // idle: jump to the next timer or step-triggered event
        if (!g.sev.empty() && (nt == UINT64_MAX || choose(2, 'i') == 0)) { Ev e = pop(g.sev); e.f(); continue; }
        if (nt != UINT64_MAX) { if (nt > g.now) g.now = nt; jumped(); }
    }
    shm->live++;
    int c = g.cur;
    bool cur_ok = !forced && std::find(r.begin(), r.end(), c) != r.end();
    g.steps++;
    if (g.trace_mode) {
        const TraceEnt* e = lookup(g.steps, 't');
        if (g.leap_ppm && lookup(g.steps + 1, 'l')) {
            g.steps++;
            uint64_t nt = next_timer();
            if (nt != UINT64_MAX && nt > g.now) { g.now = nt; count("machine_pause"); }
        }
        if (e && (int)e->v < g.nth && g.th[e->v]->st == RUNNABLE) return (int)e->v;
        if (cur_ok && g.steps - C()->last_run < 400000) return c;
        for (int i = 1; i <= g.nth; i++) { int k = (c + i) % g.nth; if (std::find(r.begin(), r.end(), k) != r.end()) return k; }
        return r[0];
    }
    int next;
    if (g.nswitch >= g.max_switches && !g.fair) {
        if (cur_ok && g.steps - C()->last_run < 400000) return c;
        next = r[0];
        for (int i = 1; i <= g.nth; i++) { int k = (c + i) % g.nth; if (std::find(r.begin(), r.end(), k) != r.end()) { next = k; break; } }
    } else if (g.fair || g.policy == 2) {
        // least recently run
        next = r[0];
        for (int i : r) if (g.th[i]->last_run < g.th[next]->last_run) next = i;
    } else if (g.policy == 1) {
        if (g.steps >= g.next_shuffle) {
            g.next_shuffle = g.steps + 1 + g.rng.below(2 * g.epoch);
            for (int i = 0; i < g.nth; i++) g.th[i]->prio = g.rng.next();
        }
        next = r[0];
        for (int i : r) if (g.th[i]->prio > g.th[next]->prio) next = i;
        if (g.rng.below(20) == 0) g.th[next]->prio = g.rng.next();
    } else if (g.policy == 3) {
        // sticky: mostly keep running the same thread
        if (cur_ok && g.rng.below(100) < 90) next = c;
        else next = r[g.rng.below(r.size())];
    } else {
        next = r[g.rng.below(r.size())];
    }
    if (next != c || forced) rec('t', next);
    if (!g.fair && g.stall_ppm && g.rng.below(1000000) < g.stall_ppm) {
        // put some other thread to sleep for a while (a descheduled or page-faulting thread)
        int v = (int)g.rng.below(g.nth);
        if (v != next && g.th[v]->st != FINISHED) {
            g.th[v]->stall_until = g.steps + 1 + (uint64_t)(-log(1.0 - g.rng.unit()) * g.stall_len);
            count("thread_stall");
        }
    }
    if (!g.fair && g.leap_ppm && g.rng.below(1000000) < g.leap_ppm) {
        uint64_t nt = next_timer();
        if (nt != UINT64_MAX && nt > g.now) { g.now = nt; g.steps++; rec('l', 1); count("machine_pause"); }
    }
    return next;
}

static void fwait(uint32_t* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fpost(uint32_t* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void after_resume() {
    if (g.reap >= 0) {
        Th* t = g.th[g.reap]; g.reap = -1;
        void* rv;
        if (___interceptor_pthread_join) ___interceptor_pthread_join(t->pt, &rv); else real.pthread_join(t->pt, &rv);
        t->reaped = true;
    }
}
static void switch_to(int n, bool self_exits) {
    int me = g.cur;
    if (n == me && !self_exits) { return; }
    g.nswitch++;
    mix(g.hash, g.steps); mix(g.hash, n);
    if (hooks.hash_switches) hash_event(0x1000 + n, g.th[me]->steps);
    Th* t = g.th[n];
    t->last_run = g.steps;
    g.cur = n;
    if (self_exits) { fpost(&t->futex); return; }
    fpost(&t->futex);
    fwait(&g.th[me]->futex);
    after_resume();
}
int block(const void* obj, uint64_t deadline, bool spurious_ok) {
    SimScope s;
    Th* t = C();
    t->st = BLOCKED; t->obj = obj; t->deadline = deadline; t->bseq = g.bseq++; t->spurious_ok = spurious_ok; t->reason = WOKEN;
    int n = pick(true);
    switch_to(n, false);
    t->spurious_ok = false;
    return t->reason;
}
void yield_point() {
    if (!g.active || g.in_sim) return;
    SimScope s;
    int n = pick(false);
    switch_to(n, false);
}
// A synchronisation operation: a preferred place for a preemption.
void sync_point(uint32_t boost) {
    if (!g.active || g.in_sim) return;
    if (g.trace_mode) { account(); if (!lookup(g.steps + 1, 't')) return; }
    else if (g.sstall && !g.fair && g.nswitch < g.max_switches && g.rng.below(1000000) < (uint64_t)g.sstall * boost) {
        // descheduled right here, for long (between testing a condition and waiting, say)
        account();
        C()->stall_until = g.steps + 1 + (uint64_t)(-log(1.0 - g.rng.unit()) * g.sstall_len);
        count("stall_at_sync");
    } else if (g.nswitch >= g.max_switches || g.rng.below(1000000) >= g.psync) return;
    yield_point();
}
static void make_runnable(Th* t) { t->st = RUNNABLE; t->reason = WOKEN; t->deadline = UINT64_MAX; }
void wake_all(const void* obj) {
    if (!g.active) return;
    for (int i = 0; i < g.nth; i++) { Th* t = g.th[i]; if (t->st == BLOCKED && t->obj == obj) make_runnable(t); }
}
void wake_one(const void* obj) {
    if (!g.active) return;
    Th* c[MAXT]; int n = 0;
    for (int i = 0; i < g.nth; i++) { Th* t = g.th[i]; if (t->st == BLOCKED && t->obj == obj) c[n++] = t; }
    if (!n) return;
    std::sort(c, c + n, [](Th* a, Th* b) { return a->bseq < b->bseq; });
    SimScope s;
    make_runnable(c[choose(n, 'n')]);
}

// ---------------------------------------------------------------- threads
static void* tramp(void* p) {
    Th* t = (Th*)p;
    fwait(&t->futex);
    after_resume();
    // we were switched to from inside someone's SimScope; leave it on this side
    g.in_sim = false; rearm();
    if (rt_thread_start) rt_thread_start();
    t->ret = t->fn(t->arg);
    {
        account(); g.in_sim = true; dsim_countdown = g.armed = INT64_MAX / 4;
        t->st = FINISHED;
        hash_event('X', t->id);
        wake_all(t);
        int n = pick(true);
        g.reap = t->id;
        switch_to(n, true);
    }
    return t->ret;
}
int thread_create(pthread_t* out, void* (*fn)(void*), void* arg) {
    if (fault("thread_create_fails", (uint32_t)thread_create_fail_ppm, 'C')) return EAGAIN;
    int id;
    {
        SimScope s;
        if (g.nth >= MAXT) { fail("harness_limit", "too many threads"); }
        Th* t = new Th();
        id = t->id = g.nth;
        t->fn = fn; t->arg = arg;
        t->prio = g.rng.next();
        // Stacks are ours, so that a finished but unjoined thread keeps its pthread_t to itself
        // although the real thread is reaped as soon as it ends.
        enum : size_t { STK = 4 << 20 };
        static std::vector<void*> pool;
        for (int i = 0; i < g.nth; i++) {
            Th* o = g.th[i];
            if (o->stack && o->reaped && (o->joined || o->detached)) { pool.push_back(o->stack); o->stack = nullptr; o->joined = true; }
        }
        if (pool.empty()) {
            void* m = mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED) inconclusive("cannot map a thread stack");
            pool.push_back(m);
        }
        t->stack = pool.back(); pool.pop_back();
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t->stack, STK);
        int r = ___interceptor_pthread_create ? ___interceptor_pthread_create(&t->pt, &at, tramp, t) : real.pthread_create(&t->pt, &at, tramp, t);
        pthread_attr_destroy(&at);
        if (r) { inconclusive("real pthread_create failed"); }
        g.th[g.nth++] = t;
        *out = t->pt;
        hash_event('T', id);
        count("threads");
    }
    yield_point();
    return 0;
}
bool debug_mode = false;
void (*rt_thread_start)() = nullptr;
static Th* find(pthread_t p) { for (int i = g.nth - 1; i >= 0; i--) if (!g.th[i]->joined && pthread_equal(g.th[i]->pt, p)) return g.th[i]; return nullptr; }
int thread_join(pthread_t p, void** rv) {
    Th* t = find(p);
    if (!t) return ESRCH;
    if (t == C()) return EDEADLK;
    yield_point();
    while (t->st != FINISHED) block(t, UINT64_MAX);
    t->joined = true;
    if (rv) *rv = t->ret;
    { SimScope s; hash_event('J', t->id); }
    return 0;
}
int thread_detach(pthread_t p) { Th* t = find(p); if (!t) return ESRCH; t->detached = true; return 0; }

void quiet(const std::function<void()>& f) { SimScope s; f(); }
int spawn(std::function<void()> f) {
    auto* pf = new std::function<void()>(std::move(f));
    pthread_t pt;
    int id = g.nth;
    if (thread_create(&pt, [](void* a) -> void* { auto* q = (std::function<void()>*)a; (*q)(); delete q; return nullptr; }, pf)) return -1;
    return id;
}
void join(int id) { thread_join(g.th[id]->pt, nullptr); }

// ---------------------------------------------------------------- life cycle
int64_t thread_create_fail_ppm = 0;
void start(const Plan& p) {
    g.rng = Rng((uint64_t)p.get("sseed", 1));
    g.policy = (int)p.get("policy", 0);
    g.quantum = (double)p.get("quantum", 2000);
    g.ps_per_step = (uint64_t)p.get("ps", 1000);
    g.soft = p.get("soft") ? (uint64_t)p.get("soft") : UINT64_MAX;
    g.hard = p.get("hard") ? (uint64_t)p.get("hard") : UINT64_MAX;
    g.lowprio_after = p.get("lowprio") ? (uint64_t)p.get("lowprio") : UINT64_MAX;
    g.lowthr = (int)p.get("lowthr", -1);
    g.sstall = (uint32_t)p.get("sstall"); g.sstall_len = (uint64_t)p.get("sstall_len");
    g.starve[0] = {(int)p.get("starve", -1), (uint64_t)p.get("starve_at"), (uint64_t)p.get("starve_len")}; g.starve[1] = {(int)p.get("starve2", -1), (uint64_t)p.get("starve2_at"), (uint64_t)p.get("starve2_len")};
    g.spur_ppm = (uint32_t)p.get("spur");
    g.stall_ppm = (uint32_t)p.get("stall");
    g.stall_len = (uint64_t)p.get("stall_len", 100000);
    g.leap_ppm = (uint32_t)p.get("leap");
    g.psync = (uint32_t)p.get("psync", 200000);
    g.epoch = (uint64_t)p.get("epoch", 500000);
    g.max_switches = p.get("maxsw") ? (uint64_t)p.get("maxsw") : UINT64_MAX;
    thread_create_fail_ppm = p.get("tcfail");
    hooks.ncpu = (int)p.get("ncpu", 8);
    g.trace_mode = replay_has_trace();
    set_breakpoints(p);
    Th* t = new Th(); t->id = 0; t->pt = pthread_self();
    g.th[0] = t; g.nth = 1; g.cur = 0;
    g.active = true; g.in_sim = false;
    rearm();
}
static void publish() {
    if (!shm) return;
    account();
    shm->hash = g.hash; shm->hash2 = g.hash2; shm->steps = g.steps; shm->switches = g.nswitch;
    shm->sim_ns = g.now - 1000000000ull * 1000;
    shm->nthreads = g.nth;
}
void stop() { if (!g.active) return; publish(); g.active = false; dsim_countdown = g.armed = INT64_MAX / 4; }
void nontrivial() { if (shm) shm->nontrivial = 1; }
void note(const std::string& s) { if (shm) { strncpy(shm->note, s.c_str(), sizeof shm->note - 1); } }
void fail(const std::string& cls, const std::string& msg) {
    if (g.active) publish();
    if (shm) {
        strncpy(shm->cls, cls.c_str(), sizeof shm->cls - 1);
        strncpy(shm->msg, msg.c_str(), sizeof shm->msg - 1);
        shm->status = RS_VIOLATION;
    }
    if (debug_mode) fprintf(stderr, "FAIL %s: %s\n", cls.c_str(), msg.c_str());
    syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void inconclusive(const std::string& why) {
    if (g.active) publish();
    if (shm) { strncpy(shm->msg, why.c_str(), sizeof shm->msg - 1); shm->status = RS_INCONCLUSIVE; }
    syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void finish_ok() {
    if (g.active) publish();
    if (shm) shm->status = RS_OK;
    syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void crash_publish() { if (g.active) { publish(); } }
static std::vector<std::pair<uint32_t*, uint32_t*>>& guards() { static std::vector<std::pair<uint32_t*, uint32_t*>> v; return v; }
static uint8_t bp_left[1 << 16];
bool profiling = false; std::map<int64_t, int64_t> chosen_positions; uint8_t* profile_marks = nullptr; uint32_t n_guards() { uint32_t n = 0; for (auto& m : guards()) n += m.second - m.first; return n; }
static void set_breakpoints(const Plan& p) {
    if (profiling) { uint32_t k = 0; for (auto& m : guards()) for (uint32_t* q = m.first; q < m.second; q++) { ++k; *q = k < (1 << 16) ? k : 0; } return; }
    auto& at = chosen_positions;
    uint64_t ppm = (uint64_t)p.get("bp"); g.bp_on = ppm || !at.empty(); if (!g.bp_on || g.trace_mode) return;
    g.bp_ppm = (uint32_t)p.get("bphit", 1000000); g.bp_len = (uint64_t)p.get("bplen", 100000); g.bp_jumps = (uint32_t)p.get("bpjumps");
    Rng r((uint64_t)p.get("sseed", 1) ^ 0x6270); uint32_t n = 0; int64_t k = 0;
    for (auto& m : guards()) for (uint32_t* q = m.first; q < m.second; q++) {
        *q = 0; ++k; if (n + 1 >= sizeof bp_left) continue;
        auto it = at.find(k);
        if (it != at.end()) { *q = ++n; bp_left[n] = (uint8_t)it->second; }
        else if (ppm && r.below(1000000) < ppm) { *q = ++n; bp_left[n] = 1 + (uint8_t)r.below(3); }
    }
}
// Profiling runs find the code positions that touch memory which two threads use and one of them writes.
struct Seen { uintptr_t a; uint16_t guard; int16_t tid; bool w; };
enum { NSEEN = 1 << 21 };
static Seen* seen; static uint16_t last_guard[MAXT];
void profile_guard(uint32_t i) { if (g.active && !g.in_sim) last_guard[g.cur] = (uint16_t)i; }
void profile_access(const void* p, bool w) {
    if (!g.active || g.in_sim) return;
    if (!seen) { seen = (Seen*)mmap(nullptr, sizeof(Seen) * NSEEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (seen == MAP_FAILED) { seen = nullptr; return; } }
    uintptr_t a = (uintptr_t)p >> 3; Seen& e = seen[(a * 0x9E3779B97F4A7C15ull) >> 43];
    if (e.a != a) { e = {a, last_guard[g.cur], (int16_t)g.cur, w}; return; }
    if (e.tid != g.cur) { if (w || e.w) profile_marks[e.guard] = profile_marks[last_guard[g.cur]] = 1; e.tid = (int16_t)g.cur; e.w = w; }
    else e.w |= w;
    e.guard = last_guard[g.cur];
}
void breakpoint(uint32_t i) {
    if (!g.active || g.in_sim || g.fair || g.trace_mode || g.bp_pending || !bp_left[i] || g.nswitch >= g.max_switches || g.nth < 2) return;
    if (g.rng.below(1000000) >= g.bp_ppm) return;
    bp_left[i]--; g.bp_pending = true;
    account(); dsim_countdown = g.armed = (int64_t)g.rng.below(16);
}
void slow() {
    if (!g.active || g.in_sim) { dsim_countdown = g.armed = INT64_MAX / 4; return; }
    SimScope s;
    if (g.bp_pending) {
        g.bp_pending = false; count("stall_at_breakpoint");
        C()->stall_until = g.steps + 1 + (uint64_t)(-log(1.0 - g.rng.unit()) * g.bp_len); C()->stall_jumps = g.bp_jumps ? (uint32_t)g.rng.below(g.bp_jumps + 1) : 0;
    }
    int n = pick(false);
    switch_to(n, false);
}
}  // namespace dsim

extern "C" {
void dsim_slow() { dsim::slow(); }
#define STEP() do { if (__builtin_expect(--dsim_countdown < 0, 0)) dsim_slow(); } while (0)
#define ACCESS(w) do { if (__builtin_expect(dsim::profiling, 0)) dsim::profile_access(p, w); } while (0)
void __sanitizer_cov_trace_pc_guard(uint32_t* q) { if (__builtin_expect(*q, 0)) { if (dsim::profiling) dsim::profile_guard(*q); else dsim::breakpoint(*q); } STEP(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a != b) dsim::guards().push_back({a, b}); }
void __sanitizer_cov_load1(void* p) { ACCESS(false); STEP(); }
void __sanitizer_cov_load2(void* p) { ACCESS(false); STEP(); }
void __sanitizer_cov_load4(void* p) { ACCESS(false); STEP(); }
void __sanitizer_cov_load8(void* p) { ACCESS(false); STEP(); }
void __sanitizer_cov_load16(void* p) { ACCESS(false); STEP(); }
void __sanitizer_cov_store1(void* p) { ACCESS(true); STEP(); }
void __sanitizer_cov_store2(void* p) { ACCESS(true); STEP(); }
void __sanitizer_cov_store4(void* p) { ACCESS(true); STEP(); }
void __sanitizer_cov_store8(void* p) { ACCESS(true); STEP(); }
void __sanitizer_cov_store16(void* p) { ACCESS(true); STEP(); }
}
