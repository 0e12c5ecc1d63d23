// Command line driver: seeded exploration in parallel worker processes, one
// forked child per simulated run; gating, minimisation and replay of failures.
#include "dsim_int.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" int __asan_report_present() __attribute__((weak));
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=32:max_free_fill_size=0:detect_odr_violation=0:use_sigaltstack=0";
}

namespace dsim {
// ---------------------------------------------------------------- plan text
std::string plan_to_text(const Plan& p) {
    std::string s;
    for (auto& kv : p.cfg) s += fmt("cfg %s %lld\n", kv.first.c_str(), (long long)kv.second);
    for (auto& o : p.ops) { s += "op " + o.k; for (auto v : o.a) s += fmt(" %lld", (long long)v); s += "\n"; }
    return s;
}
static bool plan_line(const std::string& l, Plan& p) {
    std::istringstream is(l); std::string w, k; is >> w >> k;
    if (w == "cfg") { long long v; is >> v; p.cfg[k] = v; return true; }
    if (w == "op") { Op o; o.k = k; long long v; while (is >> v) o.a.push_back(v); p.ops.push_back(o); return true; }
    return false;
}
bool plan_from_text(const std::string& t, Plan& p) { std::istringstream is(t); std::string l; while (std::getline(is, l)) if (!l.empty() && !plan_line(l, p)) return false; return true; }

static std::vector<TraceEnt> rtrace; static bool rtrace_on = false;
const std::vector<TraceEnt>& replay_trace() { return rtrace; }
bool replay_has_trace() { return rtrace_on; }

// ---------------------------------------------------------------- one run
struct Res {
    int status = RS_NONE; std::string cls, msg, note; uint64_t hash = 0, hash2 = 0, steps = 0, switches = 0, sim_ns = 0; int nthreads = 0; bool nontrivial = false;
    std::vector<TraceEnt> trace; bool trace_full = false;
    bool harness_error = false;
};
static const char* signame(int s) {
    switch (s) { case SIGSEGV: return "SIGSEGV"; case SIGABRT: return "SIGABRT"; case SIGBUS: return "SIGBUS"; case SIGFPE: return "SIGFPE"; case SIGILL: return "SIGILL"; case SIGPIPE: return "SIGPIPE"; case SIGKILL: return "SIGKILL"; case SIGTERM: return "SIGTERM"; default: return "SIGOTHER"; }
}
static char term_text[400];
static void on_sig(int s) {
    if (shm && shm->status == RS_NONE) {
        snprintf(shm->cls, sizeof shm->cls, "crash:%s", signame(s));
        snprintf(shm->msg, sizeof shm->msg, "the process died of %s%s%s", signame(s), term_text[0] ? ": " : "", term_text);
        crash_publish();
        shm->status = RS_VIOLATION;
    }
    syscall(SYS_exit_group, 0);
}
static void on_terminate() {
    std::type_info* ti = abi::__cxa_current_exception_type();
    if (ti) {
        const char* what = "";
        try { throw; } catch (const std::exception& e) { what = e.what(); } catch (...) {}
        snprintf(term_text, sizeof term_text, "std::terminate, exception %s (%s)", ti->name(), what);
    } else snprintf(term_text, sizeof term_text, "std::terminate without an exception (joinable thread destroyed?)");
    abort();
}
static void on_death() {
    if (shm && shm->status == RS_NONE) {
        const char* d = __asan_get_report_description ? __asan_get_report_description() : "?";
        fail(std::string("memory:") + (d ? d : "?"), std::string("AddressSanitizer: ") + (d ? d : "?"));
    }
}
static void child_setup() {
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    stack_t ss{}; static char alt[65536]; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPIPE}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    if (!debug_mode) { int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); close(n); }
}
static double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double run_timeout = 60, give_up = 1e18;
static double cpu_of(pid_t p) {
    char b[512]; snprintf(b, sizeof b, "/proc/%d/stat", (int)p); FILE* f = fopen(b, "r"); if (!f) return 0;
    size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0; char* q = strrchr(b, ')'); if (!q) return 0;
    unsigned long u = 0, s = 0; sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
    return (u + s) / (double)sysconf(_SC_CLK_TCK);
}
static std::vector<uint32_t> shared_pos;
// Breakpoint stalls apply to every scenario unless its generator decides about them.
static Plan make_plan(const std::string& prop, uint64_t seed, bool thorough) {
    Plan p = scenario.gen(prop, seed, thorough);
    if (!p.cfg.count("bpjumps")) { Rng q(seed ^ 0x1b); p.cfg["bplen"] = q.pick<int>({1000, 30000, 300000, 3000000}); }
    Rng r(seed ^ 0xb9b9); int64_t how = p.get("bp", (int64_t)r.below(5));   // 0-2 none, 3 any positions, 4 positions that touch shared memory
    p.cfg["bp"] = 0;
    if (how >= 3) p.cfg["bphit"] = r.pick<int>({1000000, 120000, 2000});
    if (how == 3 || (how == 4 && shared_pos.empty())) p.cfg["bp"] = r.pick<int>({3000, 20000, 100000});
    else if (how == 4) {
        uint64_t f = r.pick<int>({5, 30, 150, 400});
        for (uint32_t q : shared_pos) if (r.below(1000) < f) p.ops.push_back({"bp", {q, 1 + (int64_t)r.below(3)}});
    }
    return p;
}
static void reset_shm() {
    shm->status = RS_NONE; shm->cls[0] = shm->msg[0] = shm->note[0] = 0;
    shm->hash = shm->hash2 = shm->steps = shm->switches = shm->sim_ns = 0; shm->nthreads = 0; shm->nontrivial = 0;
    memset(shm->cname, 0, sizeof shm->cname); memset(shm->cval, 0, sizeof shm->cval); shm->trace_len = 0; shm->live = 0;
}
static Res run_one(const Plan& p, const std::vector<TraceEnt>* tr, bool want_trace) {
    reset_shm();
    Res r;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        if (tr) { rtrace = *tr; rtrace_on = true; } else rtrace_on = false;
        Plan q = p; q.ops.clear(); chosen_positions.clear();
        for (auto& o : p.ops) if (o.k == "bp") chosen_positions[o.a[0]] = o.a[1]; else q.ops.push_back(o);
        scenario.run(q);
        if (shm->status == RS_NONE) finish_ok();
        _exit(0);
    }
    if (pid < 0) { r.harness_error = true; r.msg = "fork failed"; return r; }
    double t0 = wall(), tlive = t0, cpulive = 0; int st = 0; unsigned us = 200; uint64_t live = 0;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (w < 0 && errno != EINTR) { r.harness_error = true; break; }
        double now = wall();
        if (shm->live != live) { live = shm->live; tlive = now; cpulive = cpu_of(pid); }
        else if (now - tlive > run_timeout / 2 && cpu_of(pid) - cpulive > run_timeout / 4) {
            kill(pid, SIGKILL); waitpid(pid, &st, 0); r.status = RS_VIOLATION; r.cls = "hang"; r.msg = "code between two scheduling points ran without end"; return r;
        }
        if (now - t0 > 4 * run_timeout || now > give_up) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.status = RS_INCONCLUSIVE; r.msg = "slow run given up at the wall limit"; return r; }
        usleep(us); if (us < 4000) us += us / 4;
    }
    r.status = shm->status; r.cls = shm->cls; r.msg = shm->msg; r.note = shm->note;
    r.hash = shm->hash; r.hash2 = shm->hash2; r.steps = shm->steps; r.switches = shm->switches; r.sim_ns = shm->sim_ns; r.nthreads = shm->nthreads; r.nontrivial = shm->nontrivial;
    if (want_trace) { size_t n = std::min<uint64_t>(shm->trace_len, Shm::NT); r.trace.assign(shm->trace, shm->trace + n); r.trace_full = shm->trace_len <= Shm::NT; }
    if (r.status == RS_NONE) {
        if (WIFSIGNALED(st)) { r.status = RS_VIOLATION; r.cls = fmt("crash:%s", signame(WTERMSIG(st))); r.msg = "the process died of " + std::string(signame(WTERMSIG(st))); if (WTERMSIG(st) == SIGKILL) { r.harness_error = true; r.msg = "child killed (out of memory?)"; } }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.status = RS_VIOLATION; r.cls = "memory:fatal"; r.msg = "sanitizer abort"; }
        else { r.status = RS_VIOLATION; r.cls = "unexpected_exit"; r.msg = fmt("the process exited by itself with status %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1); }
    }
    return r;
}
static bool is_viol(const Res& r) { return r.status == RS_VIOLATION && !r.harness_error; }

// ---------------------------------------------------------------- replay files
struct Replay { std::string scen, prop, cls, msg; uint64_t hash = 0; Plan plan; bool has_trace = false; std::vector<TraceEnt> trace; };
static std::string one_line(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static void write_replay(const std::string& path, const Replay& r) {
    std::ofstream f(path);
    f << "dsim-replay 1\nscenario " << r.scen << "\nproperty " << r.prop << "\nclass " << r.cls << "\nmessage " << one_line(r.msg) << "\nhash " << r.hash << "\n" << plan_to_text(r.plan);
    if (r.has_trace) { f << "trace " << r.trace.size() << "\n"; for (auto& t : r.trace) f << t.kind << " " << t.step << " " << t.v << "\n"; }
}
static bool read_replay(const std::string& path, Replay& r) {
    std::ifstream f(path); std::string l; if (!std::getline(f, l) || l != "dsim-replay 1") return false;
    while (std::getline(f, l)) {
        std::istringstream is(l); std::string w; is >> w;
        if (w == "scenario") is >> r.scen; else if (w == "property") is >> r.prop; else if (w == "class") is >> r.cls; else if (w == "message") r.msg = l.size() > 8 ? l.substr(8) : ""; else if (w == "hash") is >> r.hash;
        else if (w == "cfg" || w == "op") plan_line(l, r.plan);
        else if (w == "trace") { size_t n; is >> n; r.has_trace = true; for (size_t i = 0; i < n; i++) { TraceEnt t{}; char k; unsigned long long s, v; f >> k >> s >> v; t.kind = k; t.step = s; t.v = v; r.trace.push_back(t); } std::getline(f, l); }
    }
    return true;
}

// ---------------------------------------------------------------- minimise
static double min_deadline;
static int min_runs;
static bool still(const Plan& p, const std::vector<TraceEnt>* tr, const std::string& cls, Res* out = nullptr) {
    if (wall() > min_deadline) return false;
    min_runs++;
    Res r = run_one(p, tr, out != nullptr);
    if (is_viol(r) && r.cls == cls) { if (out) *out = r; return true; }
    return false;
}
static void minimise(Replay& rp, double secs, double one) {
    double t0 = wall();
    min_deadline = t0 + secs * 0.5;
    Plan p = rp.plan;
    // operations
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); !p.ops.empty();) {
        bool any = false;
        for (size_t i = p.ops.size(); i > 0;) {
            size_t lo = i > chunk ? i - chunk : 0;
            Plan q = p; q.ops.erase(q.ops.begin() + lo, q.ops.begin() + i);
            if (still(q, nullptr, rp.cls)) { p = q; any = true; }
            i = lo;
        }
        if (wall() > min_deadline) break;
        if (chunk == 1) { if (!any) break; } else chunk = (chunk + 1) / 2;
    }
    // configuration
    auto simpler = scenario.simplify; simpler.push_back({"bp", 0});
    for (auto& kv : simpler) {
        if (p.get(kv.first, INT64_MIN) == kv.second || !p.cfg.count(kv.first)) continue;
        Plan q = p; q.cfg[kv.first] = kv.second;
        if (still(q, nullptr, rp.cls)) p = q;
    }
    for (const char* k : {"spur", "stall", "leap", "tcfail"}) if (p.get(k)) { Plan q = p; q.cfg[k] = 0; if (still(q, nullptr, rp.cls)) p = q; }
    if (one > 6) { Res r = run_one(p, nullptr, false); if (is_viol(r) && r.cls == rp.cls) { rp.plan = p; rp.hash = r.hash; rp.msg = r.msg; } return; }   // long runs: operations and configuration only
    // fewest context switches after which the scheduler stops preempting
    Res r0 = run_one(p, nullptr, true);
    if (!is_viol(r0) || r0.cls != rp.cls) { rp.plan.cfg.erase("maxsw"); return; }
    uint64_t hi = r0.switches, lo = 0; bool have = false; Plan best = p;
    for (int k = 0; k < 18 && lo < hi; k++) {
        uint64_t mid = (lo + hi) / 2; Plan q = p; q.cfg["maxsw"] = std::max<uint64_t>(1, mid);
        if (still(q, nullptr, rp.cls)) { hi = mid; best = q; have = true; } else lo = mid + 1;
    }
    if (have) p = best;
    Res r1 = run_one(p, nullptr, true);
    if (!is_viol(r1) || r1.cls != rp.cls) return;
    rp.plan = p; rp.hash = r1.hash; rp.msg = r1.msg;
    // explicit trace of every scheduling decision and fault, then remove entries
    if (!r1.trace_full || r1.trace.size() > 200000) return;
    min_deadline = t0 + secs;
    std::vector<TraceEnt> T = r1.trace; Res rt;
    if (!still(p, &T, rp.cls, &rt)) return;
    size_t n = 2; 
    while (T.size() >= 2 && wall() < min_deadline) {
        size_t chunk = (T.size() + n - 1) / n; bool any = false;
        for (size_t i = 0; i < T.size() && wall() < min_deadline;) {
            std::vector<TraceEnt> U(T.begin(), T.begin() + i);
            if (i + chunk < T.size()) U.insert(U.end(), T.begin() + i + chunk, T.end());
            if (still(p, &U, rp.cls)) { T = U; any = true; } else i += chunk;
        }
        if (!any) { if (chunk == 1) break; n = std::min<size_t>(n * 2, T.size()); } else n = std::max<size_t>(2, n / 2);
    }
    min_deadline = wall() + 300;
    Res ra, rb;
    if (still(p, &T, rp.cls, &ra) && still(p, &T, rp.cls, &rb) && ra.hash == rb.hash) { rp.has_trace = true; rp.trace = T; rp.hash = ra.hash; rp.msg = ra.msg; }
}

// ---------------------------------------------------------------- exploration
struct Found { int64_t idx; double wall; uint64_t seed; char cls[96]; char msg[600]; uint64_t hash; };
struct Agg { volatile double first; volatile int stop; volatile int nfound; Found found[64]; volatile int64_t next; };
static Agg* agg;
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o; }
static uint64_t seed_of(uint64_t base, int64_t i) { Rng r(base * 1000003 + 17); uint64_t s = r.next() ^ ((uint64_t)i * 0xD1B54A32D192ED03ull); Rng q(s); return q.next() >> 1; }
static Shm* new_shm() { void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Shm*)p; }
static std::vector<int> cpus() { std::vector<int> v; cpu_set_t s; CPU_ZERO(&s); sched_getaffinity(0, sizeof s, &s); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s)) v.push_back(i); if (v.empty()) v.push_back(0); return v; }
static bool match(const std::string& cls, const std::vector<std::string>& pats) { for (auto& p : pats) if (cls == p) return true; return false; }

static int worker(int w, int, const std::string& prop, uint64_t seed, int64_t runs, double deadline, bool thorough, const std::string& dir, const std::vector<std::string>& ignore, int recheck, int maxfound) {
    std::map<std::string, uint64_t> cnt, kinds; std::vector<uint64_t> hashes, hashes_nt; std::vector<std::string> samples; std::map<std::string, std::pair<uint64_t, std::string>> ign;
    uint64_t n = 0, ok = 0, inc = 0, nt = 0, steps = 0, sw = 0, ns = 0, thr = 0, mism = 0, rechk = 0, viol = 0, herr = 0; std::map<std::string, uint64_t> incr;
    give_up = deadline + 15;
    for (;;) {
        if (agg->stop || wall() > deadline || (agg->first > 0 && wall() > agg->first + 12)) break;
        int64_t i = __atomic_fetch_add(&agg->next, 1, __ATOMIC_SEQ_CST);
        if (i >= runs) break;
        uint64_t s = seed_of(seed, i);
        Plan p = make_plan(prop, s, thorough);
        double w0 = wall();
        Res r = run_one(p, nullptr, false);
        w0 = wall() - w0;
        if (r.harness_error) { herr++; continue; }
        n++;
        for (int k = 0; k < Shm::NC && shm->cname[k][0]; k++) cnt[shm->cname[k]] += shm->cval[k];
        steps += r.steps; sw += r.switches; ns += r.sim_ns; thr += r.nthreads; hashes.push_back(r.hash2);
        if (r.nontrivial) { nt++; hashes_nt.push_back(r.hash2); }
        if (!r.note.empty() && samples.size() < 3) samples.push_back(fmt("run %lld seed %llu: ", (long long)i, (unsigned long long)s) + r.note);
        if (r.status == RS_OK) ok++;
        else if (r.status == RS_INCONCLUSIVE) { inc++; incr[r.msg]++; }
        else if (is_viol(r)) {
            if (match(r.cls, ignore)) { auto& e = ign[r.cls]; if (!e.first++) e.second = fmt("seed %llu ", (unsigned long long)s) + r.msg; }
            else {
                viol++;
                int k = __atomic_fetch_add(&agg->nfound, 1, __ATOMIC_SEQ_CST);
                if (k < 64) { Found& f = agg->found[k]; f.idx = i; f.wall = w0; f.seed = s; f.hash = r.hash; strncpy(f.cls, r.cls.c_str(), 95); strncpy(f.msg, r.msg.c_str(), 599); }
                if (agg->first == 0) agg->first = wall();
                if (k + 1 >= maxfound) agg->stop = 1;
            }
        }
        if (recheck && n % recheck == 1) { Res q = run_one(p, nullptr, false); rechk++; if (!q.harness_error && wall() < deadline && (q.hash != r.hash || q.cls != r.cls || q.status != r.status)) { mism++; fprintf(stderr, "determinism mismatch seed %llu\n", (unsigned long long)s); } }
    }
    std::ofstream f(dir + fmt("/w%d.txt", w));
    f << "n " << n << "\nok " << ok << "\ninc " << inc << "\nnt " << nt << "\nsteps " << steps << "\nsw " << sw << "\nns " << ns << "\nthr " << thr << "\nmism " << mism << "\nrechk " << rechk << "\nviol " << viol << "\nherr " << herr << "\n";
    for (auto& c : cnt) f << "c " << c.second << " " << c.first << "\n";
    for (auto& c : incr) f << "i " << c.second << " " << one_line(c.first) << "\n";
    for (auto& c : ign) f << "g " << c.second.first << " " << c.first << " " << one_line(c.second.second) << "\n";
    for (auto& s : samples) f << "s " << one_line(s) << "\n";
    f.close();
    std::ofstream h(dir + fmt("/w%d.bin", w), std::ios::binary); h.write((char*)hashes.data(), hashes.size() * 8);
    std::ofstream h2(dir + fmt("/w%d.nt", w), std::ios::binary); h2.write((char*)hashes_nt.data(), hashes_nt.size() * 8);
    return 0;
}
static size_t distinct(const std::string& dir, int jobs, const char* ext) {
    std::set<uint64_t> u;
    for (int w = 0; w < jobs; w++) { std::ifstream f(dir + fmt("/w%d.%s", w, ext), std::ios::binary); uint64_t v; while (f.read((char*)&v, 8)) u.insert(v); }
    return u.size();
}
// Positions in the code that touch memory shared between threads, from a fixed set of runs; a preferred place to stall.
static void profile(const std::string& prop) {
    char exe[4096] = {}; if (readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) return;
    const char* c = getenv("DSIM_CACHE"); std::string cache = c ? std::string(c) + "/shared-" + prop + "-" + (strrchr(exe, '/') + 1) : "";
    if (!cache.empty()) { std::ifstream f(cache); uint32_t n, v; if (f >> n) { std::vector<uint32_t> r; while (f >> v) r.push_back(v); if (r.size() == n) { shared_pos = r; return; } } }
    uint8_t* m = (uint8_t*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) return;
    std::vector<pid_t> ws; const int J = 8, N = 24;
    for (int w = 0; w < J; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            shm = new_shm(); profiling = true; profile_marks = m;
            for (int i = w; i < N; i += J) run_one(scenario.gen(prop, seed_of(777, i), false), nullptr, false);
            _exit(0);
        }
        ws.push_back(pid);
    }
    for (pid_t p : ws) { int st; waitpid(p, &st, 0); }
    for (uint32_t i = 1; i < 1 << 16; i++) if (m[i]) shared_pos.push_back(i);
    munmap(m, 1 << 16);
    if (!cache.empty()) { std::string t = cache + fmt(".%d", (int)getpid()); { std::ofstream f(t); f << shared_pos.size() << "\n"; for (auto v : shared_pos) f << v << "\n"; } rename(t.c_str(), cache.c_str()); }
    if (getenv("DSIM_VERBOSE")) fprintf(stderr, "%zu of %u positions touch shared memory\n", shared_pos.size(), n_guards());
}
}  // namespace dsim
using namespace dsim;

static int do_replay(const std::string& path, bool quiet) {
    Replay rp; if (!read_replay(path, rp)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    load_program_variables(); if (scenario.prepare) scenario.prepare(rp.prop);
    shm = new_shm();
    Res r = run_one(rp.plan, rp.has_trace ? &rp.trace : nullptr, false);
    if (!quiet) printf("replay: status=%d class=%s hash=%llu expected class=%s hash=%llu steps=%llu switches=%llu\n%s\n%s\n", r.status, r.cls.c_str(), (unsigned long long)r.hash, rp.cls.c_str(), (unsigned long long)rp.hash, (unsigned long long)r.steps, (unsigned long long)r.switches, r.msg.c_str(), r.note.c_str());
    if (is_viol(r) && (r.cls == rp.cls || rp.cls == "any") && (rp.hash == 0 || r.hash == rp.hash)) { printf("REPRODUCED property=%s class=%s %s\n", rp.prop.c_str(), r.cls.c_str(), one_line(r.msg).c_str()); return 1; }
    if (is_viol(r)) { printf("DIFFERENT property=%s class=%s\n", rp.prop.c_str(), r.cls.c_str()); return 3; }
    printf("NOT-REPRODUCED\n"); return 0;
}

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DSIM_REEXEC")) {
        setenv("DSIM_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    mallopt(M_ARENA_MAX, 1);
    std::map<std::string, std::string> a; std::vector<std::string> ignore;
    for (int i = 1; i < argc; i++) { std::string k = argv[i]; if (k == "--ignore") { ignore.push_back(argv[++i]); continue; } if (k == "--debug" || k == "--thorough" || k == "--no-min") { a[k] = "1"; continue; } if (i + 1 < argc) a[k] = argv[++i]; else a[k] = ""; }
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    run_timeout = num("--run-timeout", 90);
    if (a.count("--replay")) { debug_mode = a.count("--debug"); return do_replay(a["--replay"], false); }
    std::string prop = a.count("--prop") ? a["--prop"] : "C00";
    uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
    bool thorough = a.count("--thorough");
    load_program_variables(); if (scenario.prepare) scenario.prepare(prop);
    double tp = wall(); profile(prop); tp = wall() - tp;
    if (a.count("--one") || a.count("--raw")) {
        debug_mode = a.count("--debug");
        shm = new_shm();
        uint64_t s = a.count("--raw") ? strtoull(a["--raw"].c_str(), 0, 10) : seed_of(seed, atoll(a["--one"].c_str()));
        Plan p = make_plan(prop, s, thorough);
        if (a.count("--set")) { std::istringstream is(a["--set"]); std::string kv; while (std::getline(is, kv, ',')) { auto e = kv.find('='); p.cfg[kv.substr(0, e)] = atoll(kv.substr(e + 1).c_str()); } }
        printf("seed %llu\n%s", (unsigned long long)s, plan_to_text(p).c_str()); fflush(stdout);
        double t0 = wall();
        Res r = run_one(p, nullptr, true);
        printf("status=%d class=%s hash=%llu hash2=%llu steps=%llu switches=%llu threads=%d sim=%.3fs wall=%.3fs trace=%zu nontrivial=%d\nmsg: %s\nnote: %s\n", r.status, r.cls.c_str(), (unsigned long long)r.hash, (unsigned long long)r.hash2, (unsigned long long)r.steps, (unsigned long long)r.switches, r.nthreads, r.sim_ns * 1e-9, wall() - t0, r.trace.size(), r.nontrivial, r.msg.c_str(), r.note.c_str());
        for (int k = 0; k < Shm::NC && shm->cname[k][0]; k++) printf("  %s=%llu", shm->cname[k], (unsigned long long)shm->cval[k]);
        printf("\n");
        if (a.count("--trace-check")) { Res q = run_one(p, &r.trace, false); printf("trace replay: status=%d class=%s hash %s steps %llu\n", q.status, q.cls.c_str(), q.hash == r.hash ? "same" : "DIFFERENT", (unsigned long long)q.steps); }
        return r.status == RS_VIOLATION;
    }
    // exploration
    int jobs = (int)num("--jobs", 8); int64_t runs = (int64_t)num("--runs", 1e9); double secs = std::max(num("--secs", 60) - tp, num("--secs", 60) / 2);
    std::string dir = a.count("--work") ? a["--work"] : "."; std::string rdir = a.count("--replay-dir") ? a["--replay-dir"] : dir; std::string out = a.count("--out") ? a["--out"] : "";
    int maxfound = (int)num("--max-found", 6), recheck = (int)num("--recheck", 50);
    agg = (Agg*)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)agg, 0, sizeof(Agg));
    double t0 = wall(), deadline = t0 + secs;
    std::vector<int> cp = cpus(); std::vector<pid_t> ws;
    for (int w = 0; w < jobs; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cp[w % cp.size()], &cs); sched_setaffinity(0, sizeof cs, &cs);
            shm = new_shm();
            worker(w, jobs, prop, seed, runs, deadline, thorough, dir, ignore, recheck, maxfound);
            _exit(0);
        }
        ws.push_back(pid);
    }
    for (pid_t p : ws) { int st; waitpid(p, &st, 0); }
    double explore_s = wall() - t0;
    std::map<std::string, uint64_t> tot, cnt, inc; std::vector<std::string> samples; std::map<std::string, std::pair<uint64_t, std::string>> ign;
    for (int w = 0; w < jobs; w++) {
        std::ifstream f(dir + fmt("/w%d.txt", w)); std::string l;
        while (std::getline(f, l)) { std::istringstream is(l); std::string k; is >> k; if (k == "c") { uint64_t v; std::string nm; is >> v >> nm; cnt[nm] += v; } else if (k == "i") { uint64_t v; is >> v; std::string rest; std::getline(is, rest); inc[rest] += v; } else if (k == "g") { uint64_t v; std::string c, rest; is >> v >> c; std::getline(is, rest); auto& e = ign[c]; if (!e.first) e.second = rest; e.first += v; } else if (k == "s") { if (samples.size() < 4) samples.push_back(l.substr(2)); } else { uint64_t v; is >> v; tot[k] += v; } }
    }
    size_t d_all = distinct(dir, jobs, "bin"), d_nt = distinct(dir, jobs, "nt");
    int rc = 0; std::string vjson = "null";
    int nf = agg->nfound; if (nf > 64) nf = 64;
    if (nf) {
        shm = new_shm();
        std::vector<Found> fs(agg->found, agg->found + nf); std::sort(fs.begin(), fs.end(), [](const Found& x, const Found& y) { return x.wall < 3 && y.wall < 3 ? x.idx < y.idx : x.wall < y.wall; });
        std::stable_sort(fs.begin(), fs.end(), [](const Found& x, const Found& y) { return (strcmp(x.cls, "hang") == 0) < (strcmp(y.cls, "hang") == 0); });
        rc = 2; std::string gate_log;
        // exact repetition first; a failure that depends on memory contents (wild reads, say) may only repeat its class
        // and, where the code reads memory it has given back, the way it fails may differ from run to run: last resort, the same seed fails every time
        for (int lax = 0; lax < 3 && rc == 2; lax++) for (auto& f : fs) {
            Replay rp; rp.scen = scenario.name; rp.prop = prop; rp.cls = f.cls; rp.msg = f.msg; rp.plan = make_plan(prop, f.seed, thorough); rp.hash = f.hash;
            Res r = run_one(rp.plan, nullptr, false);
            if (rp.cls == "hang" || lax) rp.hash = 0;
            if (lax == 2 && is_viol(r)) { rp.msg = fmt("seed %llu fails in different ways: ", (unsigned long long)f.seed) + rp.cls + " (" + rp.msg + "), " + r.cls + " (" + r.msg + ")"; rp.cls = r.cls = "any"; }
            if (!is_viol(r) || r.cls != rp.cls || (rp.hash && r.hash != f.hash)) { gate_log += fmt("seed %llu class %s not repeatable (got status %d class %s hash %d); ", (unsigned long long)f.seed, f.cls, r.status, r.cls.c_str(), r.hash == f.hash); continue; }
            Replay orig = rp;
            size_t ops0 = rp.plan.ops.size(); min_runs = 0;
            if (!a.count("--no-min") && rp.cls != "hang" && !lax) minimise(rp, num("--min-secs", 60), f.wall);
            std::string path = rdir + "/" + prop + "-" + fmt("%llu", (unsigned long long)f.seed) + ".replay";
            auto fresh = [&](const Replay& q) { write_replay(path, q); fflush(nullptr); pid_t c = fork(); if (c == 0) { unsetenv("DSIM_REEXEC"); int n = open("/dev/null", O_RDWR); dup2(n, 1); execl("/proc/self/exe", argv[0], "--replay", path.c_str(), (char*)0); _exit(2); } int st; waitpid(c, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 1; };
            bool good = fresh(rp);
            if (!good) { rp = orig; good = fresh(rp); }
            if (!good) { gate_log += fmt("seed %llu class %s not reproduced by a fresh process; ", (unsigned long long)f.seed, f.cls); unlink(path.c_str()); continue; }
            vjson = fmt("{\"seed\":%llu,\"run\":%lld,\"class\":\"%s\",\"replay\":\"%s\",\"ops_before\":%zu,\"ops_after\":%zu,\"trace\":%lld,\"min_runs\":%d,\"message\":\"", (unsigned long long)f.seed, (long long)f.idx, jesc(rp.cls).c_str(), jesc(path).c_str(), ops0, rp.plan.ops.size(), rp.has_trace ? (long long)rp.trace.size() : -1, min_runs) + jesc(rp.msg) + "\"}";
            printf("found: class=%s seed=%llu replay=%s\n  %s\n", rp.cls.c_str(), (unsigned long long)f.seed, path.c_str(), one_line(rp.msg).c_str());
            rc = 1; break;
        }
        if (rc == 2) fprintf(stderr, "violations found but none passed the gate: %s\n", gate_log.c_str());
    }
    std::string js = "{";
    for (auto& t : tot) js += fmt("\"%s\":%llu,", t.first.c_str(), (unsigned long long)t.second);
    js += fmt("\"distinct\":%zu,\"distinct_nt\":%zu,\"explore_s\":%.2f,\"counters\":{", d_all, d_nt, explore_s);
    bool first = true; for (auto& c : cnt) { js += fmt("%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
    js += "},\"inconclusive\":{"; first = true; for (auto& c : inc) { js += fmt("%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    js += "},\"ignored\":{"; first = true; for (auto& c : ign) { js += fmt("%s\"%s\":[%llu,\"", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second.first) + jesc(c.second.second) + "\"]"; first = false; }
    js += "},\"samples\":["; first = true; for (auto& s : samples) { js += std::string(first ? "" : ",") + "\"" + jesc(s) + "\""; first = false; }
    js += "],\"violation\":" + vjson + "}";
    if (!out.empty()) { std::ofstream f(out); f << js << "\n"; }
    printf("runs=%llu ok=%llu inconclusive=%llu violations=%llu distinct=%zu nontrivial=%llu steps=%llu mismatches=%llu/%llu herr=%llu in %.1fs\n", (unsigned long long)tot["n"], (unsigned long long)tot["ok"], (unsigned long long)tot["inc"], (unsigned long long)tot["viol"], d_all, (unsigned long long)tot["nt"], (unsigned long long)tot["steps"], (unsigned long long)tot["mism"], (unsigned long long)tot["rechk"], (unsigned long long)tot["herr"], explore_s);
    if (a.count("--show")) { for (auto& c : cnt) printf("  %s=%llu\n", c.first.c_str(), (unsigned long long)c.second); for (auto& c : inc) printf("  inconclusive: %s x%llu\n", c.first.c_str(), (unsigned long long)c.second); for (auto& c : ign) printf("  ignored %s x%llu %s\n", c.first.c_str(), (unsigned long long)c.second.first, c.second.second.c_str()); for (auto& s : samples) printf("  sample: %s\n", s.c_str()); }
    if (rc == 0 && tot["n"] == 0) { fprintf(stderr, "no runs completed\n"); return 2; }
    return rc;
}
