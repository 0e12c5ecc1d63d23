// The hardware timelord client against a simulated chip and simulated timelord peers (properties C17-C19).
#include "dsim.h"
#include "ref.h"
#include "tables.h"
#include <algorithm>
#include <alloca.h>
#include <cmath>
#include <csignal>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>

uint32_t sim_hw_value_interval = 80, g_chkp_thres = 4000;
size_t g_values_mult = 16;
uint64_t sim_hw_n_iters = 4000;
extern int chia_vdf_is_emu;
int hw_sut_main(int argc, char** argv);
void signal_handler(int);

namespace {
using namespace dsim;
using tables::DISCS; using tables::tab;
enum { IV = 80, STEP = 40, MAXT = 60000 };
enum { STOP_DONE = 0, STOP_ANY = 1, END_EOF = 2, END_RST = 3, END_CLOSE = 4, BAD_REQ = 5, BAD_HDR = 6, SLOW = 7, HDR_EOF = 8 };

void prepare(const std::string&) { tables::load({MAXT, MAXT, MAXT, MAXT}, STEP); }

// ------------------------------------------------------------------ the chip
struct Run {
    const Plan* p = nullptr;
    int prop = 17;
    bool unrec = false;          // an unrecognisable chip fault fired: ending the process is allowed
    std::map<std::string, int64_t> idx[4];   // start form -> offset in the table, multiples of STEP
} R;
struct Eng {
    bool clk = false, reset = true, run = false, hung = false;
    uint8_t job[400] = {};
    int disc = -1; int64_t off = -1; bool own = false; ref::Form own_form; uint64_t own_at = 0; mpz_class D;
    uint64_t target = 0, t_last = 0; double prog = 0, speed = 0;
    int latch = 0; uint32_t latch_bit = 0; uint64_t stale_until = 0; uint8_t last[180] = {};
} eng[3];
bool chip_ready = false;   // a job was written
std::string key(const mpz_class& a, const mpz_class& b) { return a.get_str(36) + "," + b.get_str(36); }
void catch_up(Eng& e) {
    uint64_t t = now();
    if (e.clk && e.run && t > e.t_last) e.prog = std::min((double)e.target, e.prog + (double)(t - e.t_last) * e.speed);
    if (t > e.t_last) e.t_last = t;
}
uint32_t be32(const uint8_t* p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
void put32(uint8_t* p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
mpz_class dec(const uint8_t* p, int words, int n) {
    mpz_class t = 0, r = 0; for (int i = words - 1; i >= 0; i--) t = (t << 32) + be32(p + 4 * i);
    for (int i = 0; i < n; i++) { mpz_class m = t & 0x7ffff; int64_t c = m.get_si(); if (c >> 18) c -= 1 << 19; r += mpz_class((long)c) << (16 * i); t >>= 19; }
    return r;
}
void enc(uint8_t* p, int words, int n, const mpz_class& v, Rng& r) {
    std::vector<int64_t> c(n); mpz_class t = abs(v); int s = sgn(v) < 0 ? -1 : 1;
    for (int i = 0; i < n; i++) { mpz_class m = t & 0xffff; c[i] = s * m.get_si(); t >>= 16; }
    for (int i = 0; i + 1 < n; i++) if (r.chance(1, 3)) { int d = r.chance(1, 2) ? 1 : -1; if (llabs(c[i] + d * 65536) < 200000 && llabs(c[i + 1] - d) < 200000) { c[i] += d * 65536; c[i + 1] -= d; } }   // the same value in other coefficients
    mpz_class w = 0; for (int i = n - 1; i >= 0; i--) w = (w << 19) + mpz_class((long)(c[i] & 0x7ffff));
    for (int i = 0; i < words; i++) { mpz_class m = w & mpz_class(0xffffffffu); put32(p + 4 * i, m.get_ui()); w >>= 32; }
}
// repair after a wrong value starts from an exact earlier one (where every wrong value can be recognised)
void bad_job(const char* what) { if (!R.p->get("unrec")) fail("bad_job", std::string("the chip was started with ") + what); }
void launch(int i) { eng[i].hung = false;
    Eng& e = eng[i]; const uint8_t* j = e.job;
    e.target = be32(j + 4) | (uint64_t)be32(j + 8) << 32;
    mpz_class a = dec(j + 12, 21, 34), b = dec(j + 96, 21, 34); e.D = dec(j + 180, 41, 68);
    e.run = true; e.prog = 0; e.t_last = now(); e.latch = 0; e.stale_until = 0; memset(e.last, 0, sizeof e.last);
    e.disc = -1; e.own = false; chip_ready = true; count("chip_jobs");
    for (int d = 0; d < 4; d++) if (tab[d].D == e.D) e.disc = d;
    if (sgn(a) <= 0 || sgn(e.D) >= 0) { e.run = false; bad_job("values that are no form"); return; }
    mpz_class m = 2 * a, bn = b % m; if (sgn(bn) < 0) bn += m; if (bn > a) bn -= m;
    if ((b * b - e.D) % (4 * a) != 0) { e.run = false; count("chip_job_rejected"); bad_job("a form that does not belong to its discriminant"); return; }
    ref::Form f = ref::from_ab(a, bn, e.D); ref::reduce(f);
    if (e.disc >= 0) {
        auto it = R.idx[e.disc].find(key(f.a, f.b));
        if (it != R.idx[e.disc].end()) { e.off = it->second; if (e.off) count("chip_restarts"); return; }
    }
    e.own = true; e.own_form = f; e.own_at = 0; count("chip_restarts_elsewhere"); bad_job("a form that is not an exact power of the challenge");
}
ref::Form form_at(Eng& e, uint64_t it) {
    if (!e.own) return tab[e.disc].at(std::min<uint64_t>(e.off + it, MAXT));
    while (e.own_at < it) { e.own_form = ref::sqr(e.own_form, e.D); e.own_at++; }
    return e.own_form;
}
void status(int i, uint8_t* o) {
    Eng& e = eng[i]; memset(o, 0, 180);
    if (e.reset || !e.run) return;
    const Plan& p = *R.p; uint32_t ppm = (uint32_t)p.get("cf");
    catch_up(e);
    if (e.hung || now() < e.stale_until) { memcpy(o, e.last, 180); return; }
    static Rng r(p.get("sseed"));
    uint64_t it = (uint64_t)e.prog;
    uint64_t shown = it, form_it = it;
    if (!it && e.off <= 0) { put32(o, 0xab); return; }
    uint32_t unrec = (uint32_t)p.get("unrec");
    if (it > 5 && unrec && fault("fault_chip_wrong_count", unrec)) { shown = it - 1 - choose((uint32_t)std::min<uint64_t>(it - 2, 200), 'c'); R.unrec = true; }
    else if (it > 100 && unrec && fault("fault_chip_other_form", unrec)) { form_it = it - 1 - choose(60, 'c'); R.unrec = true; }
    else if (fault("fault_chip_count_beyond_target", ppm / 6)) shown = e.target + 1 + (choose(2, 'c') ? choose(1000, 'c') : (uint64_t)choose(1u << 30, 'c') << choose(30, 'c'));
    if (e.own && form_it < e.own_at) form_it = it;
    ref::Form f = form_at(e, form_it); mpz_class a = f.a, b = f.b;
    b += 2 * a * mpz_class((long)r.range(-2, 2));
    if (fault("fault_chip_negated", ppm / 6)) a = -a;
    if (f.a % 4 != 2 && fault("fault_chip_wrong_parity", ppm / 4)) b += a;   // a | b^2 - D still holds, 4a does not
    bool big = mpz_sizeinbase(f.a.get_mpz_t(), 2) > 20;
    put32(o, 0xab); put32(o + 4, (uint32_t)shown); put32(o + 8, (uint32_t)(shown >> 32));
    enc(o + 12, 21, 34, a, r); enc(o + 96, 21, 34, b, r);
    auto flip = [&](uint32_t bit) { o[12 + bit / 8] ^= 1 << (bit % 8); };
    auto differs = [&] { return dec(o + 12, 21, 34) != a || dec(o + 96, 21, 34) != b; };
    if (big && !e.latch && fault("fault_chip_bit_flip", ppm)) { uint32_t bit = choose(168 * 8, 'b'); flip(bit); if (!differs()) { flip(bit); } else if (choose(3, 'l') == 0) { e.latch = 1; e.latch_bit = bit; count("fault_chip_stuck_bit"); } }
    else if (big && e.latch) { if (fair_phase()) e.latch = 0; else flip(e.latch_bit); }
    if (fault("fault_chip_zero_status", ppm / 2)) memset(o, 0, 180);
    if (fault("fault_chip_stalled", ppm / 4)) { e.stale_until = now() + 50000000ull * (1 + choose(40, 's')); if (choose(2, 's')) e.t_last = e.stale_until; }
    memcpy(e.last, o, 180);
    if (be32(o) && fault("fault_chip_hung", ppm / 8)) e.hung = true;   // repeats this until it is started again
}
void io_time() { if (!chia_vdf_is_emu) block((void*)0x3, now() + 100000 + 10000 * (uint64_t)R.p->get("iolat")); else yield_point(); }
int chip_io(uint8_t* in, int n_in, uint8_t* out, int n_out) {
    uint32_t addr = (in[1] << 16 | in[2] << 8 | in[3]) << 2; in += 4; n_in -= 4;
    const Plan& p = *R.p;
    if (n_in > 0) {   // write
        bool eng_reg = addr >= 0x100000 && addr < 0x140000;
        if (eng_reg && chip_ready && p.get("unrec") && fault("fault_chip_write_error", (uint32_t)p.get("unrec") * 4)) { R.unrec = true; return 1; }
        for (int i = 0; i < 3; i++) {
            Eng& e = eng[i]; uint32_t ctl = 0x100000 + 0x10000 * i, job = 0x101000 + 0x10000 * i;
            if (addr == ctl) {
                catch_up(e); uint32_t v = be32(in);
                e.clk = v & 1; if (v & 0x10) { e.reset = true; e.run = false; memset(e.job, 0, sizeof e.job); } else e.reset = false;
            }
            if (addr >= job && addr < job + 392) {
                memcpy(e.job + (addr - job), in, std::min<int>(n_in, 392 - (addr - job)));
                if (be32(e.job + 388) & 1) { put32(e.job + 388, 0); if (!e.reset) launch(i); }
            }
        }
        return 0;
    }
    if (n_out <= 4) return 0;
    out += 4; n_out -= 4; std::vector<uint8_t> b(512, 0x5a);
    bool st = false;
    if (addr == 0x300000) { memset(b.data(), 0, 20); put32(b.data(), 400); st = true; }
    for (int i = 0; i < 3; i++) if (addr == 0x102000u + 0x10000 * i) st = true;
    if (st && fault("fault_chip_read_error", (uint32_t)p.get("cf") / 3)) return 1;
    if (addr == 0x300000) status(0, b.data() + 20);
    for (int i = 0; i < 3; i++) if (addr == 0x102000u + 0x10000 * i) status(i, b.data());
    if (addr < 64) { memset(b.data(), 0, 64); put32(b.data(), 0); if (addr == 0x1c) put32(b.data(), 3); }
    memcpy(out, b.data(), n_out);
    return 0;
}
}  // namespace
int emu_do_io(uint8_t* in, uint16_t n_in, uint8_t* out, uint16_t n_out) { io_time(); int r = 0; quiet([&] { r = chip_io(in, n_in, out, n_out); }); return r; }
int emu_do_io_i2c(uint8_t* buf, uint16_t size, uint32_t, int is_out) { if (is_out) memset(buf, 0, size); return 0; }

namespace {
// ------------------------------------------------------------------ the timelord's side
// op sess <disc> <letter> <end> <trigger> <value> <ack> <param>
// op req <session> <iters> <trigger> <value>     trigger 0 at once, 1 steps after OK, 2 after <value> answers of the session, 3 microseconds after OK
struct Sess {
    int id, disc, end; char letter; Op op; Conn c; bool connected = false, ok = false, stop_sent = false, stop_seen = false, lost = false, bad = false, over = false, armed = false;
    size_t pos = 0; uint64_t stop_at = 0; std::map<int64_t, int> due; std::vector<int64_t> sent, got; std::vector<Op> reqs; bool closed_seen = false;
    bool alive() const { return connected && !lost && !bad && !stop_sent; }
};
std::vector<std::unique_ptr<Sess>> S; size_t handed = 0; int refuse_first = 0; bool term_sent = false; uint64_t term_at = 0; int64_t target_iters = 0; uint64_t n_answers = 0;
bool late_ok = false;

void end_session(Sess& s);
void send_term() { if (!term_sent) { term_sent = true; term_at = now(); count("sigterm"); quiet([] { signal_handler(SIGTERM); }); } }
void maybe_term() {
    for (auto& s : S) if (!s->over) return;
    if (R.p->get("term") == 0 && !term_sent) { static bool set = false; if (!set) { set = true; at_time(now() + 1000 * (uint64_t)R.p->get("termval"), [] { send_term(); }); } }
}
void over(Sess& s) { if (!s.over) { s.over = true; maybe_term(); } }
void check_done(Sess& s) {
    if (!s.ok || s.armed) return;
    if (s.end != STOP_DONE && s.end != SLOW) return;
    if (!s.reqs.empty() || !s.due.empty()) return;
    s.armed = true; Sess* q = &s; at_time(now() + 1000 * (uint64_t)s.op.a[4], [q] { end_session(*q); });
}
void fire(Sess& s, int64_t T) {
    if (!s.alive() || !s.ok) return;
    std::string d = std::to_string(T); s.c.feed(fmt("%02d", (int)d.size()) + d); s.sent.push_back(T);
    if (T <= target_iters) s.due[T]++;
    count("requests");
}
void pump(Sess& s) {   // requests whose turn has come
    for (size_t i = 0; i < s.reqs.size();) {
        Op o = s.reqs[i]; bool now_ = o.a[2] == 0 || (o.a[2] == 2 && (int64_t)s.got.size() >= o.a[3]);
        if (!now_ && (o.a[2] == 2) && s.due.empty()) now_ = true;
        if (now_) { s.reqs.erase(s.reqs.begin() + i); fire(s, o.a[1]); } else i++;
    }
    check_done(s);
}
const char* bad_request(int64_t k, std::string& t) {
    switch (k % 12) {
        case 0: t = "99123"; break; case 1: t = "xx"; break; case 2: t = "041a34"; break; case 3: t = "20" + std::string(20, '7'); break; case 4: t = "16" + std::string(16, '1'); break;
        case 5: t = "17" + std::string(17, '9'); break; case 6: t = "-1"; break; case 7: t = "5 12345"; break; case 8: t = std::string(600, 'z'); break; case 9: t = std::string(3, '\0'); break; case 10: t = "03-12"; break; case 11: t = "ACK"; break;
    }
    return "";
}
void end_session(Sess& s) {
    if (s.over || s.lost || s.stop_sent) return;
    switch (s.end) {
        case STOP_DONE: case STOP_ANY: case SLOW:
            if (s.end == SLOW && s.op.a[6] / 3000 % 2) {   // the peer asks to stop while it is not reading; the notice is owed to it for ten seconds
                Sess* q = &s; s.c.window = s.op.a[6] % 5; count("stop_while_not_reading");
                at_time(now() + 1000000 * (1 + 150 * (uint64_t)(s.op.a[6] / 6000)), [q] { q->c.window = INT64_MAX; q->c.feed(""); });
            } else if (s.end == SLOW) { s.c.window = INT64_MAX; s.c.feed(""); }
            s.stop_sent = true; s.stop_at = now(); s.c.feed(s.op.a[6] & 1 ? "00" : "010"); count("stops"); if (s.op.a[5] == 1) s.c.feed("ACK"); break;
        case END_EOF: s.lost = true; s.c.set_eof(); count("fault_peer_eof"); break;
        case END_RST: s.lost = true; s.c.set_reset(); count("fault_peer_reset"); break;
        case END_CLOSE: s.lost = true; s.c.peer_closed = true; s.c.set_eof(); count("fault_peer_gone"); break;
        case BAD_REQ: { s.bad = true; std::string t; bad_request(s.op.a[6], t); s.c.feed(t); if (t.size() < 20) { Conn* c = &s.c; at_time(now() + 2000000000ull, [c] { c->feed("garbage to the end"); }); } count("fault_malformed_request"); break; }
    }
    s.due.clear();
}
std::string header(Sess& s) {
    const ref::Table& t = tab[s.disc]; std::string ds = t.D.get_str();
    std::string form = ref::ser(t.x0, -(mpz_class(1) << 1023)), sz = fmt("%03d", (int)ds.size());
    std::string h = std::string(1, s.letter) + sz + ds + (char)100 + form;
    if (s.end == HDR_EOF) return h.substr(0, s.op.a[6] % h.size());
    if (s.end == BAD_HDR) switch (s.op.a[6] % 14) {
        case 0: return "Q" + h.substr(1); case 1: return std::string(1, s.letter) + "999" + std::string(600, '7'); case 2: return std::string(1, s.letter) + "350" + "-" + std::string(349, '7') + (char)100 + form;
        case 3: return std::string(1, s.letter) + "abc" + ds + (char)100 + form; case 4: return std::string(1, s.letter) + "-12" + ds + (char)100 + form;
        case 5: return std::string(1, s.letter) + sz + ds + (char)99 + form + "x"; case 6: return std::string(1, s.letter) + sz + ds + (char)200 + form + form;
        case 7: { std::string d2 = ds; d2[d2.size() / 2] = 'z'; return std::string(1, s.letter) + sz + d2 + (char)100 + form; }
        case 8: { std::string d2 = ds; d2[0] = '0'; return std::string(1, s.letter) + sz + d2 + (char)100 + form; }        // a positive number
        case 9: { std::string f2 = form; f2[0] = 0; for (int i = 2; i < 60; i++) f2[i] = (char)(17 * i + 3); return std::string(1, s.letter) + sz + ds + (char)100 + f2; }
        case 10: { std::string d2 = mpz_class(t.D - 1).get_str(); return std::string(1, s.letter) + fmt("%03d", (int)d2.size()) + d2 + (char)100 + form; }   // not 1 modulo 4
        case 11: return std::string(1, s.letter) + "000" + (char)100 + form + std::string(20, 'q');
        case 12: { std::string d2 = "-" + std::string(330, '7'); return std::string(1, s.letter) + "331" + d2 + (char)100 + form; }   // above 1024 bits
        case 13: return std::string(1, s.letter) + sz + ds + (char)100 + form + "05";   // more than the header before OK
    }
    return h;
}
void frame(Sess& s, const std::string& hex) {
    std::string b; 
    for (size_t i = 0; i + 1 < hex.size(); i += 2) { auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }; int h = v(hex[i]), l = v(hex[i + 1]); if (h < 0 || l < 0) fail("frame", "an answer holds a byte that is not hexadecimal"); b += (char)(h * 16 + l); }
    if (hex.size() % 2 || b.size() < 217) fail("frame", "an answer of a wrong size");
    auto be = [&](size_t o) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (uint8_t)b[o + i]; return v; };
    int64_t T = be(0); int n = (uint8_t)b[116];
    if (be(8) != 100) fail("frame", "form size in an answer is not 100");
    if (b.size() != 217 + 141u * n) fail("frame", fmt("an answer with %d segments has %zu bytes", n, b.size()));
    if (n > 63) fail("too_many_segments", fmt("%d segments in an answer", n));
    int asked = 0, before = 0; for (auto t : s.sent) asked += t == T; for (auto t : s.got) before += t == T;
    if (!asked) fail("unrequested", fmt("answer for %lld, which was not requested on this connection", (long long)T));
    if (before >= asked) fail("duplicate", fmt("count %lld answered twice", (long long)T));
    const ref::Table& t = tab[s.disc];
    if (T > MAXT) fail("impossible", fmt("answer for %lld, beyond what the chip computed", (long long)T));
    ref::Form y = t.at(T);
    // forms travel in the size class of 1024-bit discriminants only when the discriminant has that size
    if (b.substr(16, 100) != ref::ser(y, t.D)) fail("wrong_y", fmt("the form answered for %lld is not the exact power", (long long)T));
    std::string err; if (!ref::check_chain(t.D, t.x0, y, b.substr(117), T, err)) fail("bad_proof", fmt("proof for %lld does not verify: %s", (long long)T, err.c_str()));
    s.got.push_back(T); n_answers++; count("answers"); if (n) count("answers_with_segments");
    auto it = s.due.find(T); if (it != s.due.end() && --it->second <= 0) s.due.erase(it);
}
void on_ok(Sess& s);
void parse(Sess& s) {
    std::string& o = s.c.out;
    if (!s.ok) {
        if (o.size() < 2) return;
        if (o.compare(0, 2, "OK") == 0) { s.pos = 2; s.ok = true; count("sessions_ready"); if ((s.end == BAD_HDR && s.op.a[6] % 14 != 13) || s.end == HDR_EOF) fail("accepted", "a malformed header was answered with OK"); on_ok(s); }
    }
    for (;;) {
        if (s.stop_seen) { if (o.size() > s.pos) fail("after_stop", fmt("%zu bytes after the stop notice", o.size() - s.pos)); return; }
        if (o.size() - s.pos < 4) return;
        if (o.compare(s.pos, 4, "STOP") == 0) {
            s.pos += 4; s.stop_seen = true; count("stop_notices");
            if (!s.stop_sent && !s.lost && !s.bad && !term_sent && s.end != BAD_HDR && s.end != HDR_EOF) fail("early_stop", "a stop notice nobody asked for");
            if (s.op.a[5] == 2) s.c.feed("ACK");
            continue;
        }
        if (!s.ok) fail("frame", "bytes before OK");
        uint32_t len = be32((const uint8_t*)o.data() + s.pos);
        if (len > 2 * (217 + 141 * 70) || len < 2 * 217) fail("frame", fmt("length word %u where an answer or the stop notice should start", len));
        if (o.size() - s.pos - 4 < len) return;
        std::string f = o.substr(s.pos + 4, len); s.pos += 4 + len; frame(s, f); pump(s);
    }
}
void closed(Sess& s) {
    if (s.closed_seen) return;
    s.closed_seen = true;
    if (!s.lost && !s.bad && !s.stop_sent && !term_sent && s.end != BAD_HDR && s.end != HDR_EOF) fail("early_close", fmt("connection %d was closed although its peer neither stopped nor failed", s.id));
    if (!s.lost && (s.stop_sent || (term_sent && !s.bad && s.end != BAD_HDR && s.end != HDR_EOF)) && !s.stop_seen && !(s.end == SLOW && s.c.window == 0 && now() - std::max(s.stop_at, term_at) > 9000000000ull)) fail("no_stop_notice", fmt("connection %d was closed without the stop notice (%zu bytes of an unfinished answer before)", s.id, s.c.out.size() - s.pos));
    over(s);
}
void on_ok(Sess& s) {
    Sess* q = &s;
    for (size_t i = 0; i < s.reqs.size();) {
        Op o = s.reqs[i];
        if (o.a[2] == 1) { s.reqs.erase(s.reqs.begin() + i); s.due[-1]++; at_step(steps() + 1 + o.a[3], [q, o] { if (--q->due[-1] <= 0) q->due.erase(-1); fire(*q, o.a[1]); pump(*q); }); }
        else if (o.a[2] == 3) { s.reqs.erase(s.reqs.begin() + i); s.due[-1]++; at_time(now() + 1000 * (uint64_t)o.a[3], [q, o] { if (--q->due[-1] <= 0) q->due.erase(-1); fire(*q, o.a[1]); pump(*q); }); }
        else i++;
    }
    if (s.end == STOP_ANY || (s.end >= END_EOF && s.end <= BAD_REQ)) {
        if (s.op.a[3] == 1) at_step(steps() + 1 + s.op.a[4], [q] { end_session(*q); }); else at_time(now() + 1 + 1000 * (uint64_t)s.op.a[4], [q] { end_session(*q); });
    }
    if (s.end == SLOW) { s.c.window = s.op.a[6] % 3000; at_time(now() + 1000 * (uint64_t)s.op.a[3], [q] { q->c.window = INT64_MAX; count("slow_reader_caught_up"); q->c.feed(""); }); }
    pump(s);
}
Conn* connect_one(int) {
    count("connects");
    if (refuse_first > 0) { refuse_first--; count("fault_connection_refused"); return nullptr; }
    if (handed >= S.size()) {
        static std::vector<std::unique_ptr<Conn>> idle;
        if (R.p->get("idle") && idle.size() < 40) { idle.push_back(std::make_unique<Conn>()); return idle.back().get(); }
        count("fault_connection_refused"); return nullptr;
    }
    Sess& s = *S[handed++]; s.connected = true; Sess* q = &s;
    s.c.on_write = [q] { parse(*q); }; s.c.on_close = [q] { closed(*q); };
    std::string h = header(s);
    if (s.end == BAD_HDR) { s.bad = true; count("fault_malformed_header"); s.c.in = h; at_time(now() + 2000000000ull, [q] { q->c.feed(std::string(600, 'q')); }); at_time(now() + 20000000000ull, [q] { q->lost = true; q->c.set_eof(); }); }
    else if (s.end == HDR_EOF) { s.lost = true; s.c.in = h; s.c.eof = true; count("fault_peer_eof"); }
    else s.c.in = h;
    return &s.c;
}
std::string open_list() { std::string r; for (auto& s : S) if (!s->over) { r += fmt(" [session %d%s%s%s:", s->id, s->connected ? "" : " not connected", s->connected && !s->ok ? " without OK" : "", s->stop_sent ? " stopping" : s->lost || s->bad ? " lost" : ""); for (auto& d : s->due) r += fmt(" %lld", (long long)d.first); r += "]"; } return r; }

struct sigaction old_abrt;
void on_abort(int sig) {
    if (R.unrec) { count("ended_itself_on_a_wrong_value"); if (n_answers) nontrivial(); finish_ok(); }
    old_abrt.sa_handler(sig);
}
__attribute__((noinline)) void poison() { volatile char* b = (volatile char*)alloca(200000); for (int i = 0; i < 200000; i++) b[i] = (char)0xff; }

Plan gen(const std::string& prop, uint64_t seed, bool th) {
    Rng r(seed); Plan p; int pr = atoi(prop.c_str() + 1); p.cfg["prop"] = pr; (void)th;
    int nv = (int)r.range(1, 3); p.cfg["nv"] = nv;
    p.cfg["emu"] = r.chance(2, 3) ? 1 : 0;
    p.cfg["vt"] = r.range(2, 8); p.cfg["pt"] = r.chance(1, 2) ? 0 : r.range(0, p.get("vt") - 1);
    if (r.chance(1, 4)) { p.cfg["mask"] = r.range(1, 7); nv = __builtin_popcount((unsigned)p.get("mask")); }
    if (r.chance(1, 6)) p.cfg["autofreq"] = 10;
    p.cfg["chkp"] = r.pick<int>({1600, 4000, 20000});
    int64_t maxT = pr == 19 ? r.pick<int>({800, 2000, 6000}) : pr == 18 ? r.pick<int>({800, 2000, 3000, 6000, 10000, 30000}) : r.pick<int>({2000, 6000, 10000, 10000, 30000, 58000});
    if (nv == 3 && maxT > 30000) maxT = 30000;
    int64_t n = std::min<int64_t>(MAXT - 200, r.chance(1, 2) ? (int64_t)(maxT * (1 + 0.3 * r.unit())) : 2 * maxT); p.cfg["n"] = n;
    double v = 0.4 * pow(100, r.unit()); v = std::max(v, n / 80.0 / 300); p.cfg["v"] = (int64_t)(v * 1000);
    p.cfg["iolat"] = r.range(1, 50);
    p.cfg["sseed"] = (int64_t)(r.next() >> 1);
    p.cfg["policy"] = (int64_t)r.pick<int>({0, 0, 1, 1, 2, 3});
    p.cfg["quantum"] = (int64_t)(300 * pow(300, r.unit()));
    p.cfg["psync"] = (int64_t)r.pick<int>({20000, 200000, 600000, 1000000});
    p.cfg["ps"] = (int64_t)r.pick<int>({1000, 10000, 100000});
    if (r.chance(1, 3)) { p.cfg["stall"] = r.pick<int>({1000, 20000}); p.cfg["stall_len"] = r.pick<int>({10000, 300000, 5000000}); }
    if (r.chance(1, 2)) { p.cfg["sstall"] = r.pick<int>({1000, 10000, 50000}); p.cfg["sstall_len"] = r.pick<int>({3000, 30000, 1000000, 30000000}); }
    if (r.chance(1, 6)) p.cfg["leap"] = r.pick<int>({500, 5000});
    p.cfg["epoch"] = r.pick<int>({50000, 1000000, 20000000});
    p.cfg["bp"] = r.pick<int>({0, 3, 4, 4}); p.cfg["bplen"] = r.pick<int>({30000, 300000, 3000000}); p.cfg["bpjumps"] = r.pick<int>({0, 3, 20, 200});
    double loops = n / (80.0 * v);
    bool chip_faults = pr == 17 ? true : pr == 18 ? r.chance(1, 2) : r.chance(1, 4);
    if (chip_faults) p.cfg["cf"] = (int64_t)(1e6 * r.pick<double>({1, 3, 10, 30}) / (loops + 10)), p.cfg["cf"] = std::min<int64_t>(p.get("cf"), 400000);
    if (pr == 17 && r.chance(1, 3)) p.cfg["unrec"] = (int64_t)(1e6 * r.pick<double>({0.5, 2}) / (loops + 10));
    if (r.chance(1, pr == 19 ? 2 : 4)) p.cfg["frag"] = r.pick<int>({100000, 500000, 950000});
    if (r.chance(1, pr == 19 ? 2 : 4)) p.cfg["short"] = r.pick<int>({100000, 500000, 950000});
    if (r.chance(1, 5)) { p.cfg["refuse"] = r.range(1, 12); }
    p.cfg["fdlim"] = nv + r.range(1, 6);
    p.cfg["idle"] = r.chance(1, 2) ? 1 : 0;
    int ns = pr == 17 ? (int)r.range(1, nv) : pr == 18 ? nv + (int)r.range(0, 2) : nv + (int)r.range(0, 4);
    double us_total = loops * 50000; if (!p.get("emu")) us_total = loops * 1000;
    for (int i = 0; i < ns; i++) {
        int end = STOP_DONE; double q = r.unit();
        if (pr == 17) { if (q < 0.1) end = STOP_ANY; }
        else if (pr == 18) { if (q < 0.15) end = STOP_ANY; else if (q < 0.2) end = END_EOF; else if (q < 0.3) end = SLOW; }
        else end = r.pick<int>({STOP_DONE, STOP_DONE, STOP_ANY, STOP_ANY, END_EOF, END_RST, END_CLOSE, BAD_REQ, BAD_HDR, SLOW, HDR_EOF});
        int64_t trig = r.chance(1, 2) ? 1 : 3, val = trig == 1 ? (int64_t)(r.unit() * r.unit() * n * 400) : (int64_t)(r.unit() * r.unit() * us_total);
        if (end == STOP_DONE) val = r.chance(1, 2) ? 0 : (int64_t)(r.unit() * us_total * 0.2);
        if (end == SLOW) { trig = (int64_t)(r.unit() * std::min(us_total, 5e6)); val = r.chance(1, 2) ? 0 : (int64_t)(r.unit() * us_total * 0.2); }
        if (end == BAD_REQ && r.chance(1, 3)) val = r.range(0, 1000);
        p.ops.push_back({"sess", {r.range(0, 3), "SNT"[r.below(3)], end, trig, val, r.range(0, 2), r.range(0, 100000)}});
        int nr = pr == 17 ? (int)r.range(1, 6) : pr == 18 ? (int)(r.chance(1, 3) ? r.range(8, 24) : r.range(2, 8)) : (int)r.range(0, 5);
        std::set<int64_t> seen; bool asc = r.chance(1, 2); int64_t lastT = 0;
        for (int k = 0; k < nr; k++) {
            int64_t T;
            switch (r.below(7)) { case 0: T = r.range(1, 100); break; case 1: T = IV * r.range(1, maxT / IV); break; case 2: T = IV * r.range(1, maxT / IV) + r.pick<int>({-1, 1}); break;
                case 3: if (asc) { T = std::min<int64_t>(maxT, lastT + r.range(1, 2000)); break; } T = r.range(1, maxT); break; case 4: T = std::max<int64_t>(1, maxT - r.range(0, 200)); break; default: T = r.range(1, maxT); }
            if (r.chance(1, 20)) T = n + r.range(200, 1000000);   // never reached
            if (!seen.insert(T).second) continue;
            lastT = T;
            int64_t tr = r.pick<int>({0, 0, 0, 1, 2, 3}), tv = tr == 1 ? (int64_t)(r.unit() * n * 300) : tr == 2 ? r.range(1, 6) : tr == 3 ? (int64_t)(r.unit() * us_total) : 0;
            p.ops.push_back({"req", {i, T, tr, tv}});
        }
    }
    p.cfg["term"] = r.chance(1, pr == 19 ? 4 : 10) ? 1 : 0;
    p.cfg["termval"] = (int64_t)(r.unit() * (p.get("term") ? us_total * 2 : 2e6));
    double soft = nv * (n * 900.0 * (1 + 4.0 / (1 + n / 3000.0)) + 3e6) + loops * 60000 * 3 + 4e6;
    for (auto& o : p.ops) if (o.k == "req") soft += 400 * (double)std::min<int64_t>(o.a[1], n) + 2e6;
    p.cfg["soft"] = (int64_t)soft; p.cfg["hard"] = (int64_t)(soft * 4 + 8e8);
    return p;
}
void run(const Plan& p) {
    R.p = &p; R.prop = (int)p.get("prop");
    for (int d = 0; d < 4; d++) for (size_t i = 0; i < tab[d].cp.size(); i++) R.idx[d][key(tab[d].cp[i].a, tab[d].cp[i].b)] = i * STEP;
    g_chkp_thres = (uint32_t)p.get("chkp"); sim_hw_n_iters = p.get("n"); chia_vdf_is_emu = (int)p.get("emu");
    target_iters = (sim_hw_n_iters + IV - 1) / IV * IV;
    for (auto& e : eng) e.speed = 80.0 * p.get("v") / 1000.0 / (p.get("emu") ? 50e6 : 1e6);
    for (auto& o : p.ops) if (o.k == "sess") {
        auto s = std::make_unique<Sess>(); s->id = (int)S.size(); s->disc = (int)o.a[0]; s->letter = (char)o.a[1]; s->end = (int)o.a[2]; s->op = o;
        s->c.id = s->id; s->c.frag_ppm = (uint32_t)p.get("frag"); s->c.short_ppm = (uint32_t)p.get("short"); S.push_back(std::move(s));
    }
    for (auto& o : p.ops) if (o.k == "req" && o.a[0] < (int64_t)S.size()) S[o.a[0]]->reqs.push_back(o);
    refuse_first = (int)p.get("refuse"); fd_limit = (int)p.get("fdlim", 64); poll_cost_ns = 200000; if (!p.get("emu")) jump_cost = 300;
    on_connect = connect_one;
    hooks.on_hard_budget = [&] {
        if (term_sent) fail("never_ends", "the client does not end after the termination signal; " + describe_threads());
        fail("unanswered", "not finished:" + open_list() + "; " + describe_threads());
    };
    struct sigaction sa{}; sa.sa_handler = on_abort; sa.sa_flags = SA_ONSTACK; sigaction(SIGABRT, &sa, &old_abrt);
    std::vector<std::string> av = {"hw_vdf_client", "8000", std::to_string(p.get("nv")), "--vdf-threads", std::to_string(p.get("vt"))};
    if (p.get("pt")) { av.push_back("--proof-threads"); av.push_back(std::to_string(p.get("pt"))); }
    if (p.get("mask")) { av.push_back("--vdfs-mask"); av.push_back(std::to_string(p.get("mask"))); }
    if (p.get("autofreq")) { av.push_back("--auto-freq-period"); av.push_back(std::to_string(p.get("autofreq"))); }
    std::vector<char*> argv; for (auto& s : av) argv.push_back(s.data()); argv.push_back(nullptr);
    poison();
    start(p);
    if (p.get("term") == 1) at_time(now() + 1000 * (uint64_t)p.get("termval") + 200000000, [] { send_term(); });
    maybe_term();
    int rc = hw_sut_main((int)av.size(), argv.data());
    quiet([] { begin_fair_phase(); });   // threads stalled in their last instructions go on
    for (int i = 0; i < 100000 && live_threads() > 1; i++) yield_point();
    if (live_threads() > 1) fail("threads_left", fmt("%d threads still running when the client exits: %s", live_threads() - 1, describe_threads().c_str()));
    stop();
    if (rc != 0) fail("exit_code", fmt("exit code %d", rc));
    if (!term_sent) fail("early_exit", "the client ended without being told to");
    for (auto& s : S) if (s->connected && !s->c.client_closed) fail("not_closed", fmt("connection %d is still open at exit", s->id));
    if (n_answers || R.prop == 19) nontrivial();
    std::string d; for (auto& s : S) { d += fmt(" [%s:", std::map<int, const char*>{{0, "stop"}, {1, "stop at any time"}, {2, "eof"}, {3, "reset"}, {4, "gone"}, {5, "bad request"}, {6, "bad header"}, {7, "slow"}, {8, "eof in header"}}[s->end]); for (auto t : s->sent) d += fmt(" %lld", (long long)t); d += " ->"; for (auto t : s->got) d += fmt(" %lld", (long long)t); d += "]"; }
    note(fmt("%lld engines, %s, %lld iterations,%s", (long long)p.get("nv"), p.get("emu") ? "emulator pace" : "hardware pace", (long long)p.get("n"), d.c_str()));
    finish_ok();
}
}  // namespace
dsim::Scenario dsim::scenario = {"hw", gen, run, prepare,
    {{"policy", 0}, {"frag", 0}, {"short", 0}, {"refuse", 0}, {"cf", 0}, {"unrec", 0}, {"autofreq", 0}, {"emu", 1}, {"nv", 1}, {"mask", 0}, {"pt", 0}, {"vt", 4}, {"idle", 0}, {"quantum", 20000}, {"psync", 0}}};
