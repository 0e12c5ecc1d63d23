#include "ref.h"
#include <cstring>
#include <sstream>
namespace ref {
// ---------------------------------------------------------------- sha256
static inline uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
void sha256(const uint8_t* p, size_t n, uint8_t out[32]) {
    static uint32_t K[64]; static bool init = false;
    if (!init) { // fractional parts of cube roots of the first 64 primes
        int c = 0; for (unsigned q = 2; c < 64; q++) { bool pr = true; for (unsigned d = 2; d * d <= q; d++) if (q % d == 0) pr = false; if (!pr) continue; mpz_class v = q; v <<= 96; mpz_class r; mpz_root(r.get_mpz_t(), v.get_mpz_t(), 3); K[c++] = (uint32_t)(mpz_class(r & 0xffffffffu).get_ui()); }
        init = true;
    }
    uint32_t h[8]; { int c = 0; for (unsigned q = 2; c < 8; q++) { bool pr = true; for (unsigned d = 2; d * d <= q; d++) if (q % d == 0) pr = false; if (!pr) continue; mpz_class v = q; v <<= 64; mpz_class r = sqrt(v); h[c++] = (uint32_t)(mpz_class(r & 0xffffffffu).get_ui()); } }
    std::string m((const char*)p, n); m += (char)0x80; while (m.size() % 64 != 56) m += (char)0; uint64_t bl = (uint64_t)n * 8; for (int i = 7; i >= 0; i--) m += (char)(bl >> (8 * i));
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)(uint8_t)m[o + 4 * i] << 24 | (uint32_t)(uint8_t)m[o + 4 * i + 1] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 2] << 8 | (uint8_t)m[o + 4 * i + 3];
        for (int i = 16; i < 64; i++) w[i] = w[i - 16] + w[i - 7] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3)) + (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10));
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 64; i++) { uint32_t t1 = hh + (ror(e, 6) ^ ror(e, 11) ^ ror(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i], t2 = (ror(a, 2) ^ ror(a, 13) ^ ror(a, 22)) + ((a & b) ^ (a & c) ^ (b & c)); hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) out[4 * i + j] = h[i] >> (24 - 8 * j);
}
// ---------------------------------------------------------------- forms
Form from_ab(const mpz_class& a, const mpz_class& b, const mpz_class& D) { Form f; f.a = a; f.b = b; f.c = (b * b - D) / (4 * a); return f; }
static void normalize(Form& f) {
    if (-f.a < f.b && f.b <= f.a) return;
    mpz_class r, t = f.a - f.b, two = 2 * f.a; mpz_fdiv_q(r.get_mpz_t(), t.get_mpz_t(), two.get_mpz_t());
    mpz_class nb = f.b + 2 * r * f.a; f.c = f.a * r * r + f.b * r + f.c; f.b = nb;
}
void reduce(Form& f) {
    normalize(f);
    while (f.a > f.c || (f.a == f.c && f.b < 0)) {
        mpz_class s, t = f.c + f.b, two = 2 * f.c; mpz_fdiv_q(s.get_mpz_t(), t.get_mpz_t(), two.get_mpz_t());
        mpz_class oa = f.a, ob = f.b;
        f.a = f.c; f.b = -ob + 2 * s * f.c; f.c = f.c * s * s - ob * s + oa;
    }
    normalize(f);
}
bool is_reduced(const Form& f) { return abs(f.b) <= f.a && f.a <= f.c && !((abs(f.b) == f.a || f.a == f.c) && f.b < 0); }
bool valid(const Form& f, const mpz_class& D) { if (f.a <= 0 || f.b * f.b - 4 * f.a * f.c != D || !is_reduced(f)) return false; mpz_class g = gcd(gcd(f.a, f.b), f.c); return g == 1; }
Form identity(const mpz_class& D) { return from_ab(1, 1, D); }
Form generator(const mpz_class& D) { return from_ab(2, 1, D); }
Form mul(const Form& f1, const Form& f2, const mpz_class& D) {
    // Cohen, Algorithm 5.4.7
    const Form *x = &f1, *y = &f2; if (x->a > y->a) std::swap(x, y);
    mpz_class s = (x->b + y->b) / 2, n = y->b - s, d, y1, u, v, x2, y2, d1, r, v1, v2;
    if (y->a % x->a == 0) { y1 = 0; d = x->a; }
    else mpz_gcdext(d.get_mpz_t(), u.get_mpz_t(), v.get_mpz_t(), y->a.get_mpz_t(), x->a.get_mpz_t()), y1 = u;
    if (s % d == 0) { y2 = -1; x2 = 0; d1 = d; }
    else { mpz_gcdext(d1.get_mpz_t(), x2.get_mpz_t(), v.get_mpz_t(), s.get_mpz_t(), d.get_mpz_t()); y2 = -v; }
    v1 = x->a / d1; v2 = y->a / d1;
    mpz_class t = y1 * y2 * n - x2 * y->c;
    mpz_fdiv_r(r.get_mpz_t(), t.get_mpz_t(), v1.get_mpz_t());
    Form o; o.b = y->b + 2 * v2 * r; o.a = v1 * v2; o.c = (o.b * o.b - D) / (4 * o.a);
    reduce(o); return o;
}
Form sqr(const Form& f, const mpz_class& D) {
    // for prime -D, gcd(a,b)=1 whenever f is reduced and a < |D|: b*mu = c mod a
    mpz_class g, mu, v, r;
    mpz_gcdext(g.get_mpz_t(), mu.get_mpz_t(), nullptr, f.b.get_mpz_t(), f.a.get_mpz_t());
    if (g != 1) return mul(f, f, D);
    r = f.c * mu; mpz_fdiv_r(r.get_mpz_t(), r.get_mpz_t(), f.a.get_mpz_t());
    Form o; o.a = f.a * f.a; o.b = f.b - 2 * f.a * r; mpz_class q = o.b * o.b - D; o.c = q / (4 * o.a);
    reduce(o); return o;
}
Form pow(const Form& x, const mpz_class& e, const mpz_class& D) {
    Form r = identity(D); if (e == 0) return r;
    for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = sqr(r, D); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, x, D); }
    return r;
}
static std::string le(const mpz_class& v, size_t n) { std::string s(n, 0); size_t c = 0; if (v != 0) { if ((mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8 > n) return std::string(); mpz_export(&s[0], &c, -1, 1, 0, 0, v.get_mpz_t()); } return s; }
static size_t round32(const mpz_class& D) { size_t b = mpz_sizeinbase(D.get_mpz_t(), 2); return (b + 31) & ~(size_t)31; }
std::string ser(const Form& f, const mpz_class& D) {
    std::string out(100, 0);
    if (f.b == 1 && f.a <= 2) { out[0] = f.a == 2 ? 8 : 4; return out; }
    size_t db = round32(D);
    mpz_class a, t, g, b0; bool sign = false;
    if (f.a == f.b) { a = f.a; t = 0; g = 0; b0 = 0; }
    else {
        sign = f.b < 0; mpz_class L = sqrt(f.a), r0 = f.a, r1 = abs(f.b), t0 = 0, t1 = 1;
        while (r1 > L) { mpz_class q = r0 / r1, r2 = r0 - q * r1, t2 = t0 - q * t1; r0 = r1; r1 = r2; t0 = t1; t1 = t2; }
        t = t1; g = gcd(f.a, t);
        if (g == 1) { a = f.a; b0 = 0; } else { a = f.a / g; t = t / g; b0 = abs(f.b) / a; }
    }
    out[0] = (sign ? 1 : 0) | (t < 0 ? 2 : 0);
    size_t gs = (g == 0 ? 1 : (mpz_sizeinbase(g.get_mpz_t(), 2) + 7) / 8) - 1; out[1] = (char)gs;
    std::string body = le(a, db / 16 - gs) + le(abs(t), db / 32 - gs) + le(g, gs + 1) + le(b0, gs + 1);
    if (body.size() > 98) body.resize(98);
    memcpy(&out[2], body.data(), body.size());
    return out;
}
static mpz_class imp(const uint8_t* s, size_t n) { mpz_class v; mpz_import(v.get_mpz_t(), n, -1, 1, 0, 0, s); return v; }
bool deser(const uint8_t* s, const mpz_class& D, Form& out, std::string& err) {
    if (s[0] & 12) { out = from_ab(s[0] & 8 ? 2 : 1, 1, D); }
    else {
        size_t db = round32(D), gs = s[1]; if (gs >= db / 32) { err = "g size"; return false; }
        const uint8_t* p = s + 2; mpz_class a = imp(p, db / 16 - gs); p += db / 16 - gs; mpz_class t = imp(p, db / 32 - gs); p += db / 32 - gs; mpz_class g = imp(p, gs + 1); p += gs + 1; mpz_class b0 = imp(p, gs + 1);
        bool bs = s[0] & 1; if (s[0] & 2) t = -t;
        mpz_class A, B;
        if (t == 0) { A = B = a; if (a == 0) { err = "a zero"; return false; } }
        else {
            if (a == 0) { err = "a zero"; return false; }
            mpz_class ti, tm; mpz_fdiv_r(tm.get_mpz_t(), t.get_mpz_t(), a.get_mpz_t());
            if (!mpz_invert(ti.get_mpz_t(), tm.get_mpz_t(), a.get_mpz_t())) { if (a != 1) { err = "t not invertible"; return false; } ti = 0; }
            mpz_class q = t * t * D, r; mpz_fdiv_r(r.get_mpz_t(), q.get_mpz_t(), a.get_mpz_t());
            if (!mpz_perfect_square_p(r.get_mpz_t())) { err = "not a square"; return false; }
            mpz_class rt = sqrt(r); B = rt * ti; mpz_fdiv_r(B.get_mpz_t(), B.get_mpz_t(), a.get_mpz_t());
            A = g > 1 ? mpz_class(a * g) : a; B += a * b0; if (bs) B = -B;
        }
        mpz_class q = B * B - D; if (q % (4 * A) != 0) { err = "discriminant"; return false; }
        out = from_ab(A, B, D);
    }
    if (!valid(out, D)) { err = "not a reduced form of the discriminant"; return false; }
    if (ser(out, D) != std::string((const char*)s, 100)) { err = "not canonical"; return false; }
    return true;
}
mpz_class hash_prime(const std::string& seed) {
    std::string sp = seed; 
    for (;;) {
        std::string blob;
        while (blob.size() < 33) {
            for (int i = (int)sp.size() - 1; i >= 0; i--) { sp[i]++; if (sp[i]) break; }
            uint8_t h[32]; sha256((const uint8_t*)sp.data(), sp.size(), h);
            blob.append((char*)h, std::min<size_t>(32, 33 - blob.size()));
        }
        mpz_class p; mpz_import(p.get_mpz_t(), 33, 1, 1, 0, 0, blob.data());
        mpz_setbit(p.get_mpz_t(), 263); mpz_setbit(p.get_mpz_t(), 0);
        if (mpz_probab_prime_p(p.get_mpz_t(), 15)) return p;
    }
}
mpz_class get_B(const Form& x, const Form& y, const mpz_class& D) { return hash_prime(ser(x, D) + ser(y, D)); }
mpz_class make_disc(uint64_t seed, int bits) {
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + 99; mpz_class p = 0;
    for (int i = 0; i < (bits + 63) / 64; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; p = (p << 64) + mpz_class((unsigned long)s); }
    mpz_class m = mpz_class(1) << bits; p %= m; mpz_setbit(p.get_mpz_t(), bits - 1);
    p = p - p % 8 + 7; if (p >= m) p -= 8;
    while (!mpz_probab_prime_p(p.get_mpz_t(), 30)) { p += 8; if (p >= m) { p = (mpz_class(1) << (bits - 1)) + 7; } }
    return -p;
}
static mpz_class pow2mod(uint64_t T, const mpz_class& B) { mpz_class r, two = 2, e = mpz_class((unsigned long)T); mpz_powm(r.get_mpz_t(), two.get_mpz_t(), e.get_mpz_t(), B.get_mpz_t()); return r; }
bool check_wes(const Form& x, const Form& y, const Form& proof, uint64_t T, const mpz_class& D) {
    mpz_class B = get_B(x, y, D);
    return mul(pow(proof, B, D), pow(x, pow2mod(T, B), D), D) == y;
}
static uint64_t be64(const uint8_t* p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
bool check_chain(const mpz_class& D, const Form& x0, const Form& y, const std::string& pr, uint64_t T, std::string& err) {
    if (pr.size() < 100 || (pr.size() - 100) % 141) { err = "proof length"; return false; }
    const uint8_t* p = (const uint8_t*)pr.data(); Form x = x0;
    for (size_t i = pr.size(); i > 100;) {
        i -= 141; uint64_t it = be64(p + i); mpz_class B; mpz_import(B.get_mpz_t(), 33, 1, 1, 0, 0, p + i + 8); Form pi;
        if (!deser(p + i + 41, D, pi, err)) { err = "segment proof: " + err; return false; }
        if (it > T) { err = "segment lengths exceed the total"; return false; }
        if (B == 0) { err = "B zero"; return false; }
        Form xn = mul(pow(pi, B, D), pow(x, pow2mod(it, B), D), D);
        if (get_B(x, xn, D) != B) { err = "a segment does not verify"; return false; }
        x = xn; T -= it;
    }
    Form pi; if (!deser(p, D, pi, err)) { err = "last proof: " + err; return false; }
    if (!check_wes(x, y, pi, T, D)) { err = "the last segment does not verify"; return false; }
    return true;
}
void Table::build(const mpz_class& d, const Form& f, uint64_t st, uint64_t upto) { D = d; x0 = f; step = st; cp.clear(); Form c = f; cp.push_back(c); for (uint64_t i = 1; i <= upto; i++) { c = sqr(c, D); if (i % st == 0) cp.push_back(c); } }
Form Table::at(uint64_t T) const { size_t i = std::min<size_t>(T / step, cp.size() - 1); Form f = cp[i]; for (uint64_t k = i * step; k < T; k++) f = sqr(f, D); return f; }
std::string dump(const Table& t) { std::ostringstream o; o << t.D << ' ' << t.x0.a << ' ' << t.x0.b << ' ' << t.step << ' ' << t.cp.size(); for (auto& f : t.cp) o << ' ' << f.a << ' ' << f.b; return o.str(); }
bool load(const std::string& s, Table& t) { std::istringstream i(s); size_t n; mpz_class a, b; if (!(i >> t.D >> a >> b >> t.step >> n)) return false; t.x0 = from_ab(a, b, t.D); t.cp.resize(n); for (auto& f : t.cp) { if (!(i >> a >> b)) return false; f = from_ab(a, b, t.D); } return true; }
}

// Constants of the squaring path that the CHIAVDF_SIM guard turns into variables; scenarios change them per run.
uint64_t max_spin_counter = 10000000;
int checkpoint_interval = 10000;
