// Whole vdf_client process against a simulated timelord peer (properties C01-C08).
#include "dsim.h"
#include "ref.h"
#include "tables.h"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>

extern int segments, thread_count;
struct __mpz_struct_fwd; void (*chiavdf_sim_inject)(__mpz_struct*) = nullptr;
uint64_t (*chiavdf_sim_fast_path)(uint64_t, bool&) = nullptr;
void (*chiavdf_sim_prover_started)(uint64_t, uint64_t) = nullptr;
int sut_main(int argc, char** argv);

namespace {
using namespace dsim;
int64_t P_hold_n = 0; uint64_t P_hold = 0;   // provers of larger segments kept from running, and until which step of the squaring loop
enum { KN = 0, KS = 1, KT = 2 };
const int64_t FAR = 40000000;   // n-weso counts never reached within a run
const int LONG_RATE = 60;
const int64_t LONG_T = 68 * 65536;   // far enough for more small segments than one answer may hold
using tables::DISCS; using tables::tab;
int64_t upto_of(const std::string& prop, int d) {
    bool n = prop == "C01" || prop == "C02" || prop == "C06" || prop == "C07" || prop == "C08" || prop == "C11";
    if (d >= 4) return prop == "C05" ? 120000 : 0;
    if ((prop == "C01" || prop == "C02") && d == 0) return LONG_T;
    return n ? 1050000 : 330000;
}
void prepare(const std::string& prop) {
    std::vector<int64_t> up; for (int d = 0; d < 6; d++) up.push_back(upto_of(prop, d));
    tables::load(up);
}

// ------------------------------------------------------------------ plans
// op req <iters> <trigger> <value>    trigger 0 at once, 1 steps after OK, 2 after <value> answers, 3 simulated ns after OK, 5 steps after every expected answer arrived
// op stop <trigger> <value>
// op eof|rst|deaf|hear <trigger> <value> ; op junk <id> <trigger> <value>
void sched(Rng& r, Plan& p, double qlo, double qhi) {
    p.cfg["sseed"] = (int64_t)(r.next() >> 1);
    p.cfg["policy"] = (int64_t)r.pick<int>({0, 0, 1, 1, 2, 3});
    p.cfg["quantum"] = (int64_t)(qlo * pow(qhi / qlo, r.unit()));
    p.cfg["psync"] = (int64_t)r.pick<int>({20000, 200000, 600000, 1000000});
    p.cfg["ps"] = (int64_t)r.pick<int>({10000, 100000, 1000000});
    if (r.chance(1, 3)) p.cfg["spur"] = r.pick<int>({200, 5000});
    if (r.chance(1, 3)) { p.cfg["stall"] = r.pick<int>({1000, 20000}); p.cfg["stall_len"] = r.pick<int>({10000, 300000, 5000000}); }
    if (r.chance(1, 3)) { p.cfg["sstall"] = r.pick<int>({1000, 10000, 50000}); p.cfg["sstall_len"] = r.pick<int>({30000, 1000000, 30000000}); }
    if (r.chance(1, 6)) p.cfg["leap"] = r.pick<int>({500, 5000});
    p.cfg["epoch"] = r.pick<int>({50000, 1000000, 20000000});
}
void netcfg(Rng& r, Plan& p, bool heavy) {
    if (r.chance(1, 2)) p.cfg["frag"] = r.pick<int>({100000, 500000, 950000});
    if (heavy || r.chance(1, 2)) p.cfg["short"] = r.pick<int>({100000, 500000, 950000});
    if (heavy || r.chance(1, 3)) p.cfg["wdelay"] = r.pick<int>({50000, 300000});
    p.cfg["ack"] = r.chance(1, 4) ? 1 : 0;
}
int64_t pick_T_n(Rng& r, int64_t maxseg) {
    const int64_t S = 65536; int64_t k = r.range(0, maxseg - 1);
    switch (r.below(8)) {
        case 0: return std::max<int64_t>(1, k * S);
        case 1: return k * S + 1;
        case 2: return (k + 1) * S - 1;
        case 3: return k * S + r.range(1, 40);
        case 4: return k * S + r.range(1, 3000);
        case 5: return k * S + r.pick<int64_t>({9, 10, 11, 99, 100, 101, 1023, 1024, 32768});
        default: return k * S + r.range(1, S - 1);
    }
}
void budgets(Plan& p, double vdf_iters, double extra) {
    double c = DISCS[p.get("disc")].cost;
    double s = vdf_iters * c * 2.5 + extra;
    p.cfg["soft"] = (int64_t)s;
    // answers come within 1.1 times the soft budget in practice; faults have stopped by then
    p.cfg["hard"] = (int64_t)(s * 1.5 + vdf_iters * c * 4 + 6e8);
}
// A larger segment's prover is held back for so long that answers would need more sub-proofs than allowed.
Plan gen_long(Rng& r) {
    Plan p; p.cfg["kind"] = KN; p.cfg["disc"] = 0; p.cfg["segs"] = r.range(2, 3); p.cfg["tc"] = r.range(2, 4); p.cfg["ncpu"] = 4;
    const int64_t S = 65536; double c = DISCS[0].cost;
    int n = (int)r.range(1, 3); int64_t big = 0;
    for (int i = 0; i < n; i++) { int64_t T = r.pick<int64_t>({62, 63, 64, 64, 65, 65, 66}) * S + r.pick<int64_t>({0, 0, 1, r.range(1, 3000), r.range(1, S - 1)}); big = std::max(big, T); p.ops.push_back(Op{"req", {T, 0, 0}}); }
    sched(r, p, 1500, 200000); netcfg(r, p, false); p.cfg["psync"] = 0;
p.cfg["hold"] = (int64_t)((big + S * r.unit()) * c); p.cfg["holdn"] = r.pick<int>({1, 1, 2, 20});
    p.cfg["lowthr"] = 1; p.cfg["lowprio"] = (int64_t)(c * S * r.pick<int>({1, 3, 8}));
    budgets(p, big + 2.0 * S, 6e8);
    p.ops.push_back(Op{"stop", {5, 0}});
    return p;
}
Plan gen_n(const std::string& prop, Rng& r, bool th) {
    if ((prop == "C01" || prop == "C02") && r.chance(1, th ? 20 : LONG_RATE)) return gen_long(r);
    Plan p; p.cfg["kind"] = KN;
    p.cfg["disc"] = (int64_t)r.pick<int>({0, 0, 1, 2, 3, 3});
    p.cfg["segs"] = r.range(1, 4); p.cfg["tc"] = r.range(1, 4);
    p.cfg["ncpu"] = r.pick<int>({1, 2, 4, 8, 15});
    int64_t maxseg = 0, big = 0;
    switch (r.below(4)) { case 0: maxseg = 2; break; case 1: maxseg = 4; break; case 2: maxseg = 6; break; default: maxseg = th ? 15 : 10; }
    if (p.get("segs") == 1 && maxseg > 6) p.cfg["segs"] = 2;
    int n = (int)r.range(1, 6);
    double c = DISCS[p.get("disc")].cost;
    bool late = r.chance(1, 2);
    for (int i = 0; i < n; i++) {
        int64_t T = pick_T_n(r, maxseg); big = std::max(big, T);
        Op o{"req", {T, 0, 0}};
        if (late && r.chance(2, 3)) {
            if (i > 0 && r.chance(1, 3)) { o.a[1] = 2; o.a[2] = r.range(1, i); }
            else { o.a[1] = 1; o.a[2] = (int64_t)(r.unit() * (maxseg + 1) * 65536 * c); }
        }
        p.ops.push_back(o);
    }
    if (r.chance(1, 4)) { Op o = p.ops[0]; p.ops.push_back(o); }   // the same count asked twice
    if (r.chance(1, 3)) p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), Op{"req", {r.range(FAR, FAR * 1000), r.chance(1, 2) ? 0 : 1, (int64_t)(r.unit() * 3e6)}});   // far beyond what is ever reached
    sched(r, p, 1500, 200000);
    netcfg(r, p, prop == "C08");
    if (r.chance(1, 2)) { p.cfg["starve"] = r.range(2, 14); p.cfg["starve_at"] = (int64_t)(r.unit() * 3e6); p.cfg["starve_len"] = (int64_t)(1e6 * pow(60, r.unit())); }
    p.cfg["lowthr"] = 1; p.cfg["lowprio"] = (int64_t)(c * 65536 * r.pick<int>({1, 3, 8}));
    budgets(p, (maxseg + 1) * 65536.0, 3e8);
    p.ops.push_back(Op{"stop", {5, r.chance(1, 2) ? 0 : r.range(1, 3000000)}});
    return p;
}
int64_t pick_T_small(Rng& r) {
    switch (r.below(6)) { case 0: return r.range(1, 40); case 1: return r.range(1, 400); case 2: return r.pick<int64_t>({150, 151, 199, 200, 299, 300, 301, 449, 450, 451, 10000, 9999, 10001}); case 3: {   // counts, and ends of the two inner proofs, around the points where progress is published
            int64_t b = 32768 * r.range(1, 3), T; switch (r.below(5)) { case 0: T = b + r.range(-2, 2); break; case 1: T = b * 3 / 2 + r.range(-2, 300); break; case 2: T = b * 9 / 8 + r.range(-2, 300); break; default: T = b + r.range(0, 200); }
            return std::min<int64_t>(T, 120000);
        } default: return r.range(100, 40000); }
}
Plan gen_s(const std::string& prop, Rng& r, bool th) {
    Plan p; p.cfg["kind"] = KS; (void)prop; (void)th;
    p.cfg["disc"] = r.range(0, 3); p.cfg["ncpu"] = r.pick<int>({1, 4, 16});
    int64_t T = pick_T_small(r); if (r.chance(1, 6)) T = r.range(65536, 120000);
    p.ops.push_back(Op{"req", {T, 0, 0}});
    sched(r, p, 300, 100000); netcfg(r, p, false);
    budgets(p, T + 15000.0, 2e8);
    // further counts after the first are answered with a warning only
    int extra = (int)r.below(3); for (int i = 0; i < extra; i++) p.ops.push_back(Op{"req", {pick_T_small(r), (int64_t)r.pick<int>({0, 1, 2}), r.range(1, 1)}});
    p.ops.push_back(Op{"stop", {5, r.chance(1, 2) ? 0 : r.range(1, 3000000)}});
    return p;
}
Plan gen_t(const std::string& prop, Rng& r, bool th) {
    Plan p; p.cfg["kind"] = KT;
    p.cfg["disc"] = r.range(0, 3); p.cfg["ncpu"] = r.pick<int>({1, 4, 16});
    int n = (int)r.range(1, th ? 14 : 8); int64_t big = 0; bool switchy = r.chance(1, 3);
    double c = DISCS[p.get("disc")].cost;
    if (prop == "C08") { n = (int)r.range(6, 24); switchy = false; }
    if (prop == "C04" && r.chance(1, 2)) { n = (int)r.range(98, 112); switchy = false; }
    bool many = n > 90;
    int filler = many && r.chance(4, 5) ? (int)r.range(60, 99) : 0;   // counts beyond the last iteration ever computed: they only take up room
    int64_t base = many ? (int64_t)(1700 * pow(12, r.unit() * r.unit())) : 0, spread = r.pick<int64_t>({1500, 4000, 20000});
    if (many && r.chance(1, 2)) { p.cfg["disc"] = 0; c = DISCS[0].cost; }
    for (int i = 0; i < n; i++) {
        int64_t T;
        if (many && i < 100 && (i * 37 + 11) % 100 < filler) T = r.range(340000, 900000) * r.pick<int64_t>({1, 1, 1000, 1000000});
        else if (many && i >= 97 && r.chance(2, 3)) T = r.range(1, base - 1500);
        else if (many) T = base + (r.chance(1, 2) ? r.range(-1500, 1500) : r.range(-100, spread));
        else if (prop == "C08") T = r.range(450, 6000);
        else if (switchy && r.chance(2, 3)) T = r.range(85000, 125000);
        else T = pick_T_small(r);
        if (T < 1) T = 1;
        if (T < 340000) big = std::max(big, T);
        Op o{"req", {T, 0, 0}};
        if (!many && r.chance(1, 3)) { o.a[1] = 1; o.a[2] = (int64_t)(r.unit() * 60000 * c); }
        else if (many && i > 100 && r.chance(1, 2)) { o.a[1] = 2; o.a[2] = r.range(1, 3); }
        p.ops.push_back(o);
    }
    if (r.chance(1, 3)) { Op o = p.ops[r.below(p.ops.size())]; p.ops.push_back(o); }
    if (many) sched(r, p, 10000, 500000); else sched(r, p, 500, 100000);
    netcfg(r, p, prop == "C08");
    budgets(p, big + 15000.0 + n * 10000.0, 5e8);
    p.ops.push_back(Op{"stop", {5, r.chance(1, 2) ? 0 : r.range(1, 3000000)}});
    return p;
}
// a stop at an arbitrary instant (C06)
Plan gen_stop(Rng& r, bool th, int k) {
    Plan p = k == 0 ? gen_n("C06", r, false) : k == 1 ? gen_s("C06", r, th) : gen_t("C06", r, false);
    double c = DISCS[p.get("disc")].cost;
    p.ops.pop_back();
    if (k == 1 && r.chance(1, 8)) p.ops.clear();
    if (k != 1 && r.chance(1, 8)) p.ops.clear();
    // some far-future counts that are never reached
    if (r.chance(1, 3)) { int64_t far = k == 0 ? r.range(3000000, 900000000) : k == 1 ? r.range(1000000, 3000000) : r.range(150000, 290000); if (k != 1) p.ops.insert(p.ops.begin(), Op{"req", {far, 0, 0}}); else if (!p.ops.empty()) p.ops[0].a[0] = far; }
    double span = k == 0 ? r.pick<double>({1e4, 3e6, 65536 * c, 65536 * c * 4}) : r.pick<double>({3e3, 1e6, 2e7, 1e8});
    switch (r.below(4)) {
        case 0: p.ops.push_back(Op{"stop", {2, p.ops.empty() ? 0 : 1}}); break;
        case 1: p.ops.push_back(Op{"stop", {5, (int64_t)(r.unit() * 1e5)}}); break;
        default: p.ops.push_back(Op{"stop", {1, (int64_t)(r.unit() * span)}});
    }
    if (k == 0 && r.chance(1, 2)) {
        // The stop comes soon after a proof was put aside for a more urgent one.
        p.cfg["segs"] = r.range(2, 3); p.cfg["tc"] = r.chance(1, 8) ? 2 : 1; p.cfg["disc"] = r.pick<int>({0, 0, 0, 3}); c = DISCS[p.get("disc")].cost;
        p.ops.pop_back(); p.ops.push_back(Op{"stop", {6, (int64_t)(r.chance(1, 2) ? r.range(1, 300) : pow(1e6, r.unit()))}});
        if (p.ops.size() > 3) p.ops.resize(2);
        Op st = p.ops.back(); p.ops.pop_back(); if (st.k != "stop") st = Op{"stop", {6, r.range(1, 300)}};
        for (auto& o : p.ops) o.a[1] = 0;
        p.ops.push_back(st);
        // the first proof of a longer segment is slow, so that the next short one is more urgent
        p.cfg["starve"] = 7 + (int64_t)p.ops.size() - 1; p.cfg["starve_at"] = r.range(1000, 300000); p.cfg["starve_len"] = (int64_t)(65536 * c * (1 + 5 * r.unit()));
        p.cfg["lowprio"] = 1000000000000ll;
        p.cfg["starve2"] = p.get("starve") + 1; p.cfg["starve2_at"] = r.range(1000, 50000); p.cfg["starve2_len"] = (int64_t)(65536 * c * (3 + 6 * r.unit()));
        span = 65536 * c * r.range(6, 8);
    }
    p.cfg["stopat"] = (int64_t)(span * 1.5 + 5e7);   // sent by then at the latest
    budgets(p, (k == 0 ? 65536.0 * 3 : 30000.0), span * 1.5 + 8e8);
    if (k == 0) p.cfg["hard"] += (int64_t)1e9;
    return p;
}
const char* JUNK[] = {"xx", "9", "99", "25", "05a1b2c", "051234", "2118446744073709551616", "2018446744073709551616", "-1", "\x00\x01", "02\xff\xff", "01 ", "0 1", "1", "2018446744073709551617", "2018446744073709551618", "2018446744073709551619", "2020000000000000000300", "05+1234", "041e30", "03 12", "0312\n",
    // counts that a lenient reader would take for small ones
    "0412ab", "040x1f", "02:5", "031/5", "04 +31", "03-31", "0:0000000310", "2/0000000000000000310", "1x31000000000000", ":20000000000310", "250000000000000000000000310",
    "99000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000310", "2100000000000000000000310", "0931", "2031"};
const int NJUNK = sizeof JUNK / sizeof *JUNK;
// 1000 + n: a count of n digits, more than any has; 2000 + c, 3000 + c: the byte c in place of a digit of the length, of the count
int64_t junk_id(Rng& r) {
    int near = (int)(r.chance(1, 2) ? r.range(':', '@') : r.chance(1, 3) ? r.range('a', 'z') : r.below(256));   // bytes that digit arithmetic would take for a small number
    if (near >= '0' && near <= '9') near = ':';
    switch (r.below(5)) { case 0: return 1000 + r.range(21, 99); case 1: return 2000 + near; case 2: return 3000 + near; default: return r.range(0, NJUNK - 1); }
}
Plan gen_fault(Rng& r, bool th) {
    int k = (int)r.below(3);
    Plan p = k == 0 ? gen_n("C07", r, false) : k == 1 ? gen_s("C07", r, th) : gen_t("C07", r, false);
    double c = DISCS[p.get("disc")].cost;
    p.ops.pop_back();
    if (p.ops.size() > 4) p.ops.resize(4);
    for (auto& o : p.ops) if (k == 0 && o.a[0] > 150000) o.a[0] = o.a[0] % 150000 + 1;
    double span = k == 0 ? r.pick<double>({1e4, 3e6, 65536 * c, 65536 * c * 3}) : r.pick<double>({3e3, 1e6, 2e7, 1e8});
    int64_t at = (int64_t)(r.unit() * span);
    int what = (int)r.below(10);
    if (what >= 8) what = (int)r.below(2);   // a bad header or request, most often in a session with little work
    if (what <= 1 && r.chance(3, 4)) { span = r.pick<double>({1e3, 1e5, 1e6}); at = (int64_t)(r.unit() * span); p.ops.resize(std::min<size_t>(p.ops.size(), r.below(3))); for (auto& o : p.ops) if (k != 1) o.a[0] = o.a[0] % 500 + 1; }
    switch (what) {
        case 0: p.cfg["hdr"] = r.chance(1, 5) ? 100 + r.range(101, 127) : r.chance(1, 5) ? r.range(350, 999) : r.range(1, 19); break;                       // damaged or truncated session header
        case 1: p.ops.push_back(Op{"junk", {junk_id(r), r.pick<int>({1, 1, 1, 2}), at}}); if (p.ops.back().a[1] == 2) p.ops.back().a[2] = 1; p.ops.push_back(Op{"eof", {1, at + (int64_t)(r.chance(2, 3) ? 3e6 * pow(16, r.unit()) : 1e4 * pow(3e2, r.unit()))}}); break;
        case 2: p.ops.push_back(Op{"eof", {2, 1}}); break;
        case 3: p.ops.push_back(Op{"rst", {2, 1}}); break;
        case 4: p.ops.push_back(Op{"rst", {1, at}}); break;
        case 5: p.ops.push_back(Op{"stop", {1, at}}); p.cfg["ack"] = r.range(2, 5); break;  // stop, then no or wrong ACK
        case 6: p.ops.push_back(Op{"deaf", {1, at / 2}}); p.ops.push_back(Op{r.chance(1, 2) ? "rst" : "eof+", {1, at + r.range(0, 100000000)}}); break;
        default: p.ops.push_back(Op{"eof", {1, at}}); break;
    }
    p.cfg["stopat"] = (int64_t)(span * 2 + 2e8);   // the connection is gone by then at the latest
    budgets(p, (k == 0 ? 65536.0 * 3 : 30000.0), span * 2 + 1e9);
    if (k == 0) p.cfg["hard"] += (int64_t)1e9;
    return p;
}
Plan gen(const std::string& prop, uint64_t seed, bool th) {
    Rng r(seed); Plan p;
    if (prop == "C01" || prop == "C02") p = gen_n(prop, r, th);
    else if (prop == "C03" || prop == "C04") p = gen_t(prop, r, th);
    else if (prop == "C05") p = gen_s(prop, r, th);
    else if (prop == "C06") p = gen_stop(r, th, (int)r.below(3));
    else if (prop == "C11") {
        bool st = r.chance(1, 4);
        p = st ? gen_stop(r, th, 0) : gen_n(prop, r, th);
        p.cfg["ncpu"] = r.pick<int>({16, 17, 24, 64});
        p.cfg["soft"] *= 2; p.cfg["hard"] *= 2; p.cfg["lowthr"] = 7;   // six storage threads come before the squaring loop
        if (st) p.cfg["anystop"] = 1;
        if (p.get("starve", -1) >= 0 && r.chance(1, 2)) p.cfg["starve"] = r.range(1, 6);   // one of the storage threads
    }
    else if (prop == "C07") p = gen_fault(r, th);
    else if (prop == "C08") p = r.chance(3, 4) ? gen_t(prop, r, th) : gen_n(prop, r, th);
    if (r.chance(1, 3)) {
        p.cfg["early"] = r.pick<int>({20000, 300000, 900000});
        if (r.chance(1, 2)) p.cfg["corrupt"] = r.pick<int>({20000, 200000});
        p.cfg["hard"] += p.cfg["hard"] / 2;
    }
    p.cfg["prop"] = atoi(prop.c_str() + 1);
    return p;
}

// ------------------------------------------------------------------ the peer
struct Answer { uint64_t iters; uint64_t step; };
struct Peer {
    Plan p; int prop, kind, d; Conn c;
    size_t pos = 0; bool ok_seen = false, stop_seen = false, stop_sent = false, ended = false, faulted = false;
    uint64_t ok_step = 0, ok_time = 0, stop_step = 0, all_step = 0;
    std::vector<Answer> answers; std::vector<int64_t> sent; // request values as delivered
    std::vector<bool> done; std::multiset<int64_t> outstanding; bool all_done = false;
    std::set<int64_t> t_seen, t_live; size_t accepted = 0; std::multiset<int64_t> optional;   // two-weso: counts that may or may not be answered
    bool wrong_allowed = false;
} *P;
void trig_after_answers();
void send_stop() { if (P->stop_sent || P->ended) return; P->stop_sent = true; P->stop_step = steps(); P->c.feed("00"); count("stop_sent"); }
// Two-weso admission: the first hundred distinct counts are due. Beyond that a count smaller than every one seen
// is due as well and lets the client give up the largest; any other count may be ignored.
void admit(int64_t T) {
    if (!P->t_seen.insert(T).second) { if (!P->t_live.count(T)) P->optional.insert(T); return; }
    P->accepted++;
    if (T >= 340000) { P->optional.insert(T); if (P->accepted <= 100) P->t_live.insert(T); return; }
    if (P->accepted <= 100) { P->outstanding.insert(T); P->t_live.insert(T); return; }
    if (T > *P->t_live.begin()) { P->optional.insert(T); count("over_limit_ignorable"); return; }
    auto give = [&](int64_t v) { auto f = P->outstanding.find(v); if (f != P->outstanding.end()) { P->outstanding.erase(f); P->optional.insert(v); count("given_up"); } };
    int64_t mx = *P->t_live.rbegin(), mo = P->outstanding.empty() ? -1 : *P->outstanding.rbegin(); size_t no = P->outstanding.size();
    give(mx); P->t_live.erase(mx);
    if (no >= 100 && mo != mx) give(mo);
    P->t_live.insert(T); P->outstanding.insert(T); count("over_limit_admitted");
}
void fire(size_t i) {
    if (P->done[i]) return; P->done[i] = true;
    const Op& o = P->p.ops[i];
    if (P->ended) return;
    if (o.k == "req") {
        if (P->stop_sent) return;
        std::string s = std::to_string(o.a[0]); P->c.feed(fmt("%02zu", s.size()) + s);
        P->sent.push_back(o.a[0]); count("requests");
        if (P->kind == KS) { if (P->sent.size() == 1) P->outstanding.insert(o.a[0]); }
        else if (P->kind == KT) admit(o.a[0]);
        else if (o.a[0] >= FAR) { P->optional.insert(o.a[0]); count("far_requests"); }
        else P->outstanding.insert(o.a[0]);
        P->all_done = false;
    } else if (o.k == "stop") send_stop();
    else if (o.k == "eof") { P->faulted = P->ended = true; P->c.set_eof(); count("peer_eof"); }
    else if (o.k == "eof+") { P->faulted = P->ended = true; P->c.peer_closed = true; P->c.set_eof(); P->c.window = INT64_MAX; wake_all(&P->c); count("peer_close"); }
    else if (o.k == "rst") { P->faulted = P->ended = true; P->c.set_reset(); P->c.window = INT64_MAX; wake_all(&P->c); count("peer_reset"); }
    else if (o.k == "deaf") { P->c.window = (int64_t)(P->p.get("sseed") % 300); count("peer_stops_reading"); }
    else if (o.k == "junk") { P->faulted = true;
        if (o.a[0] >= 2000) {
            int c = (int)(o.a[0] % 1000) & 255, n = c - '0'; count("peer_junk");
            if (o.a[0] < 3000) P->c.feed(std::string("0") + (char)c + fmt("%0*d", n >= 3 && n <= 99 ? n : 20, 310)); else P->c.feed(std::string("030") + (char)c + "1");
            return;
        }
        if (o.a[0] >= 1000) { int n = (int)(o.a[0] - 1000) % 100; P->c.feed(fmt("%02d%0*d", n, n, 310)); count("peer_junk"); return; }   // more digits than any count has
        const char* j = JUNK[o.a[0] % NJUNK]; P->c.feed(o.a[0] == 9 ? std::string("\0\1", 2) : std::string(j)); count("peer_junk"); }
}
bool requests_done() { for (size_t i = 0; i < P->p.ops.size(); i++) if (P->p.ops[i].k == "req" && !P->done[i]) return false; return true; }
void check_all_done() {
    // answered everything that was asked
    if (P->all_done || !P->ok_seen || !P->outstanding.empty()) return;
    if (!requests_done()) {
        // only requests waiting for more answers are left: send the next one
        for (size_t i = 0; i < P->p.ops.size(); i++) { const Op& o = P->p.ops[i]; if (o.k == "req" && !P->done[i] && o.a[1] != 2) return; }
        for (size_t i = 0; i < P->p.ops.size(); i++) { const Op& o = P->p.ops[i]; if (o.k == "req" && !P->done[i]) { fire(i); check_all_done(); return; } }
        return;
    }
    P->all_done = true; P->all_step = steps();
    for (size_t i = 0; i < P->p.ops.size(); i++) { const Op& o = P->p.ops[i]; size_t b = o.a.size() - 2; if (!P->done[i] && o.a[b] == 5) { if (o.a[b + 1] <= 0) fire(i); else at_step(steps() + o.a[b + 1], [i] { fire(i); }); } }
}
void trig_after_answers() {
    for (size_t i = 0; i < P->p.ops.size(); i++) { const Op& o = P->p.ops[i]; size_t b = o.a.size() - 2; if (!P->done[i] && o.a[b] == 2 && (int64_t)P->answers.size() >= o.a[b + 1]) fire(i); }
}
void on_ok() {
    P->ok_seen = true; P->ok_step = steps(); P->ok_time = now();
    for (size_t i = 0; i < P->p.ops.size(); i++) {
        const Op& o = P->p.ops[i]; size_t b = o.a.size() - 2; int64_t t = o.a[b], v = o.a[b + 1];
        if (t == 0) fire(i); else if (t == 1) at_step(steps() + std::max<int64_t>(1, v), [i] { fire(i); }); else if (t == 3) at_time(now() + v, [i] { fire(i); });
    }
    trig_after_answers(); check_all_done();
    if (P->p.get("stopat")) at_step(steps() + P->p.get("stopat"), [] { if (P->prop == 6 || P->p.get("anystop")) send_stop(); else if (!P->ended) { P->ended = P->faulted = true; P->c.set_reset(); P->c.window = INT64_MAX; wake_all(&P->c); count("peer_reset_late"); } });
    // without a request nothing is expected to happen: a request whose trigger cannot come is sent once the rest is idle
}
void on_frame(const std::string& hex) {
    std::string b; auto bad = [&](const char* w) { fail("frame_corrupt", std::string("answer frame: ") + w); };
    if (hex.size() % 2) bad("odd length");
    for (size_t i = 0; i < hex.size(); i += 2) { int v = 0; for (int k = 0; k < 2; k++) { char ch = hex[i + k]; int x = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1; if (x < 0) bad("not hexadecimal"); v = v * 16 + x; } b += (char)v; }
    auto u64 = [&](size_t o) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (uint8_t)b[o + i]; return v; };
    if (b.size() < 17) bad("too short");
    uint64_t it = u64(0), ys = u64(8); if (ys != 100 || b.size() < 217) bad("sizes");
    std::string y = b.substr(16, 100), pr = b.substr(117); uint8_t wt = b[116];
    count("answers"); P->answers.push_back({it, steps()});
    auto f = P->outstanding.find((int64_t)it);
    bool due = f != P->outstanding.end(), opt = false;
    if (!due) { f = P->optional.find((int64_t)it); opt = f != P->optional.end(); }
    if (!due && !opt) fail("unexpected_answer", fmt("an answer for count %llu that is not outstanding (answered twice or never asked)", (unsigned long long)it));
    (opt ? P->optional : P->outstanding).erase(f);
    ref::Table& t = tab[P->d]; ref::Form fy; std::string err;
    if (it <= t.max()) {
        if (!ref::deser((const uint8_t*)y.data(), t.D, fy, err)) fail("wrong_y", fmt("count %llu: y does not decode: %s", (unsigned long long)it, err.c_str()));
        if (!(fy == t.at(it))) fail("wrong_y", fmt("count %llu: y is not x^(2^%llu)", (unsigned long long)it, (unsigned long long)it));
        int nseg = (int)((pr.size() - 100) / 141);
        if (pr.size() < 100 || (pr.size() - 100) % 141) fail("wrong_proof", fmt("count %llu: proof length %zu", (unsigned long long)it, pr.size()));
        if (nseg != wt) fail("wrong_proof", fmt("count %llu: witness type %d but %d extra segments", (unsigned long long)it, wt, nseg));
        if (nseg > 63) fail("wrong_proof", "more than 64 segments");
        if (P->kind == KS && nseg != 0) fail("wrong_proof", "1-wesolowski answer with extra segments");
        if (P->kind == KT && nseg != 2) fail("wrong_proof", "2-wesolowski answer without two extra segments");
        if (!ref::check_chain(t.D, t.x0, fy, pr, it, err)) fail("wrong_proof", fmt("count %llu (%d segments): %s", (unsigned long long)it, nseg + 1, err.c_str()));
        count("answers_verified"); if (nseg) count("segments_verified", nseg);
    } else count("answers_beyond_table");
    trig_after_answers(); check_all_done();
}
void parse() {
    std::string& o = P->c.out;
    for (;;) {
        if (!P->ok_seen) {
            if (P->pos == 0 && P->kind != -1 && o.size() >= 2 && P->p.get("hdr") == 0) { if (o.compare(0, 2, "OK")) { if (P->faulted) return; fail("frame_corrupt", "the session does not begin with OK"); } P->pos = 2; on_ok(); continue; }
            return;
        }
        if (P->stop_seen) { if (o.size() > P->pos) fail("after_stop", "bytes after the STOP marker"); return; }
        if (o.size() - P->pos < 4) return;
        if (!o.compare(P->pos, 4, "STOP")) {
            P->stop_seen = true; P->pos += 4;
            if (!P->stop_sent && !P->faulted) fail("early_stop", "STOP without being asked and without a fault");
            int a = (int)P->p.get("ack");
            if (!P->ended) {
                if (a == 0) P->c.feed("ACK");
                else if (a == 1) at_time(now() + 3000000000ull, [] { P->c.feed("ACK"); });
                else if (a == 2) at_time(now() + 5000000000ull, [] { P->ended = true; P->c.set_eof(); });
                else if (a == 3) P->c.feed("NAK");
                else if (a == 4) { P->c.feed("A"); at_time(now() + 2000000000ull, [] { P->ended = true; P->c.set_eof(); }); }
                else if (a == 5) { P->ended = true; P->c.set_reset(); }
            }
            continue;
        }
        uint32_t n = 0; for (int i = 0; i < 4; i++) n = n << 8 | (uint8_t)o[P->pos + i];
        if (n < 2 * 217 || n > 2 * (217 + 64 * 141)) fail("frame_corrupt", fmt("impossible frame length %u", n));
        if (o.size() - P->pos - 4 < n) return;
        std::string fr = o.substr(P->pos + 4, n); P->pos += 4 + n; on_frame(fr);
    }
}
std::string expected_list() { std::string s; for (auto v : P->outstanding) s += fmt(" %lld", (long long)v); return s; }

// The accelerated path ends prematurely, or notices corruption after some squarings.
uint64_t fast_path_fault(uint64_t batch, bool& corruption) {
    uint64_t n = batch;
    quiet([&] {
        if (fault("corruption_noticed", (uint32_t)P->p.get("corrupt"))) { corruption = true; n = choose((uint32_t)batch + 1, 'c'); }
        else if (fault("fast_path_ends_early", (uint32_t)P->p.get("early"))) { n = choose(4, 'e') ? choose((uint32_t)batch, 'e') : choose(3, 'e'); }
    });
    return n;
}
void run(const Plan& p) {
    P = new Peer(); P->p = p; P->prop = (int)p.get("prop"); P->kind = (int)p.get("kind"); P->d = (int)p.get("disc"); P->done.assign(p.ops.size(), false);
    segments = (int)p.get("segs", 3); thread_count = (int)p.get("tc", 3);
    Conn& c = P->c;
    c.frag_ppm = (uint32_t)p.get("frag"); c.short_ppm = (uint32_t)p.get("short"); c.wdelay_ppm = (uint32_t)p.get("wdelay");
    c.on_write = [] { parse(); };
    ref::Table& t = tab[P->d];
    std::string ds = t.D.get_str(), head(1, "NST"[P->kind]); std::string sz = fmt("%03zu", ds.size());
    std::string form = ref::ser(t.x0, t.D);
    std::string full = head + sz + ds + (char)100 + form; bool hdr_eof = false;
    int h = (int)p.get("hdr");
    if (h) {
        P->faulted = true; hdr_eof = true; count("peer_bad_header");
        switch (h) {
            case 1: full = ""; break; case 2: full = head; break; case 3: full = head + sz.substr(0, 2); break; case 4: full = head + sz; break;
            case 5: full = head + sz + ds.substr(0, ds.size() / 2); break; case 6: full = head + sz + ds; break; case 7: full = head + sz + ds + (char)100; break;
            case 8: full = head + sz + ds + (char)100 + form.substr(0, 50); break;
            case 9: full = head + "000" + ds; break; case 10: full = head + "-12" + ds; break; case 11: full = head + "350" + std::string(360, '7'); break; case 12: full = head + "abc" + ds; break;
            case 13: full = head + sz + ds + (char)0 + form; break; case 14: full = head + sz + ds + (char)101 + form + "x"; break; case 15: full = head + sz + ds + (char)200 + form + form; break;
            default: if (h >= 350) full = head + fmt("%d", h) + std::string(h, '7') + (char)100 + form; else full = head + sz + ds + (char)(h - 100) + form + std::string(h - 200, 'x'); break;
            case 16: full = "Q" + sz + ds + (char)100 + form; break;
            case 17: full = head + "999" + std::string(1200, '8'); break;
            case 18: { std::string f2 = form; for (int i = 0; i < 100; i++) f2[i] = (char)(17 * i + 3); full = head + sz + ds + (char)100 + f2; break; }
            case 19: { std::string d2 = ds; for (size_t i = 0; i < d2.size(); i++) d2[i] = 'z'; full = head + sz + d2 + (char)100 + form; break; }
        }
    }
    on_connect = [&, full, hdr_eof](int) -> Conn* { c.feed(full); if (hdr_eof) { P->ended = true; c.set_eof(); } return &c; };
    hooks.on_deadlock = [&] {
        if (P->ok_seen && !P->outstanding.empty() && !P->stop_sent && !P->ended) fail("deadlock", "no thread can run and counts are unanswered:" + expected_list() + "; " + describe_threads());
        if (P->ok_seen && !P->stop_sent && !P->ended) inconclusive("the client waits for a peer that has nothing more to send");
        fail("deadlock", "no thread can ever run again: " + describe_threads());
    };
    hooks.on_hard_budget = [&] {
        if (P->stop_sent || P->ended) fail("never_ends", fmt("the session does not end after the %s; %s", P->stop_sent ? "stop request" : "connection was lost", describe_threads().c_str()));
        if (!P->ok_seen) fail("no_progress", "the session never became ready; " + describe_threads());
        if (P->outstanding.empty()) inconclusive("step budget reached with nothing outstanding");
        fail("unanswered", "counts never answered:" + expected_list() + "; " + describe_threads());
    };
    if (p.get("early") || p.get("corrupt")) chiavdf_sim_fast_path = fast_path_fault;
    P_hold_n = p.get("holdn"); P_hold = (uint64_t)p.get("hold");
    if (p.get("hold")) chiavdf_sim_prover_started = [](uint64_t, uint64_t length) { quiet([&] { static int64_t n = 0; if (length > 65536 && n++ < P_hold_n) hold_newest_thread(1, P_hold); }); };
    for (size_t i = 0; i < p.ops.size(); i++) { const Op& o = p.ops[i]; if (o.k == "stop" && o.a[0] == 6) { int64_t v = o.a[1]; hooks.on_cwait = [i, v](uint64_t d) {
        // only a proof that is put aside waits after a long computation
        if (d < 30000 || !P->ok_seen || P->stop_sent) return;
        count("proof_put_aside"); at_step(steps() + v, [i] { fire(i); });
    }; } }
    start(p);
    static char a0[] = "vdf_client", a1[] = "localhost", a2[] = "8000", a3[] = "1"; char* av[] = {a0, a1, a2, a3, nullptr};
    int rc = sut_main(4, av);
    stop();
    int live = live_threads();
    if (live > 1) fail("threads_left", fmt("%d threads still running when the client exits", live - 1));
    if (!c.client_closed && h == 0) { /* closed by the destructor of the socket in main */ fail("not_closed", "the connection is still open at exit"); }
    if (rc != 0 && !P->faulted) fail("exit_code", fmt("exit code %d after a clean session", rc));
    if (!P->faulted) {
        if (!P->stop_seen) fail("no_stop_marker", "the session ended without STOP");
        if (P->pos != c.out.size()) fail("after_stop", "bytes after the STOP marker");
        if (!P->stop_sent) fail("early_stop", "the session ended without being asked to");
    } else if (!P->stop_seen && P->ok_seen && !c.reset && c.out.size() > P->pos && !c.peer_closed) {
        if (!(c.out.size() - P->pos >= 4 ? true : false)) {}
    }
    if (P->p.ops.size() && !P->faulted && P->prop != 6 && P->prop != 7 && !P->p.get("anystop") && !P->outstanding.empty()) fail("unanswered", "the session ended with counts unanswered:" + expected_list());
    if (P->answers.size() || P->p.get("anystop") || P->prop == 6 || P->prop == 7) nontrivial();
    if (getenv("DSIM_STEPS")) for (int i = 0; i < 2; i++) fprintf(stderr, "t%d %llu\n", i, (unsigned long long)thread_steps(i));
    std::string an; for (auto& a : P->answers) an += fmt(" %llu", (unsigned long long)a.iters);
    std::string rq; for (auto& s : P->sent) rq += fmt(" %lld", (long long)s);
    note(fmt("%c session, |D|=%d bits, policy %lld, quantum %lld, requests%s; answers%s; %s", "NST"[P->kind], DISCS[P->d].bits, (long long)p.get("policy"), (long long)p.get("quantum"), rq.c_str(), an.c_str(), P->stop_seen ? "STOP seen" : "no STOP"));
    finish_ok();
}
}  // namespace
dsim::Scenario dsim::scenario = {"client", gen, run, prepare,
    {{"policy", 0}, {"frag", 0}, {"short", 0}, {"wdelay", 0}, {"ack", 0}, {"ncpu", 4}, {"segs", 2}, {"tc", 1}, {"quantum", 20000}, {"quantum", 100000}, {"psync", 0}}};
