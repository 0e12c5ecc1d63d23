// dsim: deterministic simulation runtime.
//
// The system under test runs as real threads of one process, but exactly one
// of them runs at any instant (a baton is handed over through a futex) and a
// seeded generator decides who runs next, for how many instrumented steps, how
// time advances and which faults fire.  The code under test is compiled with
// -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores, so every basic
// block, load and store is a possible preemption point; pthread, sleep, clock,
// socket, stat and allocation calls are interposed (interpose.cpp).
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace dsim {

struct Op { std::string k; std::vector<int64_t> a; };
struct Plan {
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t get(const std::string& k, int64_t d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
};
std::string plan_to_text(const Plan&);
bool plan_from_text(const std::string&, Plan&);

// Small independent generator used for plans (splitmix64).
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---- counters (aggregated over runs; names registered on first use) ----
void count(const char* name, uint64_t n = 1);

// ---- life cycle, called by scenarios inside the child process ----
void start(const Plan& p);      // current thread becomes simulated thread 0
void stop();                    // simulation over; other threads must be finished or are abandoned
[[noreturn]] void fail(const std::string& cls, const std::string& msg);   // a violation: record and end the run
[[noreturn]] void inconclusive(const std::string& why);                   // run left the property's assumptions
[[noreturn]] void finish_ok();
void nontrivial();                 // this run exercised what the property is about
void note(const std::string& s);   // sample text kept for evidence

// ---- queries ----
bool active();
uint64_t now();          // simulated nanoseconds
uint64_t steps();        // global step counter
int cur();               // current simulated thread id
void hold_newest_thread(int other, uint64_t until);   // the thread created last does not run before thread <other> has made that many steps
int live_threads();      // threads not finished (including the caller)
uint64_t thread_steps(int id);
uint64_t max_thread_steps();
uint64_t history_hash();
bool fair_phase();       // faults have stopped and scheduling is fair
std::string describe_threads();

// ---- choices (recorded) ----
uint32_t choose(uint32_t n, char kind);                 // 0 is the benign default
bool fault(const char* name, uint32_t ppm, char kind = 'f');  // true with probability ppm/1e6, never in the fair phase
void hash_event(uint64_t a, uint64_t b);

// ---- blocking primitives for interposers and harness threads ----
enum { WOKEN = 0, TIMEOUT = 1, SPURIOUS = 2 };
int block(const void* obj, uint64_t deadline_ns /* UINT64_MAX = none */, bool spurious_ok = false);
void wake_all(const void* obj);
void wake_one(const void* obj);
void yield_point();      // explicit scheduling point
void sync_point(uint32_t boost = 1);       // scheduling point taken with the configured probability

// ---- events (run in scheduler context; must not block) ----
void at_time(uint64_t t_ns, std::function<void()> f);
void at_step(uint64_t step, std::function<void()> f);
void begin_fair_phase();
void set_lowprio_after(uint64_t steps);   // UINT64_MAX lifts the throttle

// ---- hooks ----
struct Hooks {
    std::function<void()> on_deadlock;      // nothing can ever run again
    std::function<void()> on_soft_budget;   // default: begin_fair_phase
    std::function<void()> on_hard_budget;   // default: fail("no_progress")
    std::function<int(const char*, int*)> on_stat;  // returns -2 for passthrough, else return value (errno in *err)
    std::function<bool(size_t)> on_new;     // true = fail this allocation
    std::function<void(uint64_t)> on_cwait;   // a thread waits on a condition for the first time; steps it ran before
    bool hash_switches = false;   // the place of every preemption tells runs apart too
    int ncpu = 8;
};
extern Hooks hooks;

// ---- helper for harness threads ----
int spawn(std::function<void()> f);
void quiet(const std::function<void()>& f);   // run f without preemption or interposition
void join(int id);

// ---- sockets ----
struct Conn {
    int fd = -1;
    int id = 0;
    std::string in;           // bytes sent by the peer and not yet read by the client
    bool eof = false, reset = false;
    bool peer_closed = false; // writes fail
    std::string out;          // everything the client has written
    struct Write { uint64_t step; int thread; size_t off, len; };
    std::vector<Write> writes;
    bool client_closed = false;
    bool client_shutdown = false;
    int64_t window = INT64_MAX;     // bytes the client may still write before blocking
    uint32_t frag_ppm = 0, short_ppm = 0, wdelay_ppm = 0;
    std::function<void()> on_write; // called in scheduler context after each write
    std::function<void()> on_close;
    uint64_t recv_bytes = 0;
    int64_t reset_after_read = -1;  // fail reads after that many bytes
    bool nonblock = false;
    void feed(const std::string& s);
    void set_eof(); void set_reset();
};
extern std::function<Conn*(int port)> on_connect;   // nullptr result = connection refused
Conn* conn_of(int fd);
extern uint64_t jump_cost;                          // steps a jump of an idle clock counts for
extern uint64_t poll_cost_ns;                       // simulated time a read that would block takes
extern int fd_limit;                                // sockets the process may hold at once

// ---- scenario interface ----
struct Scenario {
    const char* name;
    Plan (*gen)(const std::string& prop, uint64_t seed, bool thorough);
    void (*run)(const Plan& p);            // in the child
    void (*prepare)(const std::string& prop);  // in the parent, before forking
    std::vector<std::pair<std::string, int64_t>> simplify; // config keys and simpler values to try
};
extern Scenario scenario;
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}  // namespace dsim
