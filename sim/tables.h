// Reference powers x^(2^i) of the discriminants used in runs, cached on disk.
#pragma once
#include "dsim.h"
#include "ref.h"
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
namespace tables {
struct DiscCfg { int bits; uint64_t seed; bool gen; double cost; };
// cost: rough instrumented steps per squaring (only used to place events)
const DiscCfg DISCS[] = {{64, 1, true, 105}, {96, 2, false, 115}, {128, 3, true, 130}, {72, 4, false, 105}, {192, 5, true, 180}, {256, 6, false, 225}, {512, 7, true, 400}, {1024, 8, true, 700}};
enum { ND = 8 };
inline ref::Table tab[ND];
inline std::string file(const std::string& base, int d, int64_t up, int64_t step) { return base + (step ? dsim::fmt("/table_%d_%lld_%lld.txt", d, (long long)up, (long long)step) : dsim::fmt("/table_%d_%lld.txt", d, (long long)up)); }
inline void load(const std::vector<int64_t>& up, int64_t step = 0) {
    const char* dir = getenv("DSIM_CACHE"); std::string base = dir ? dir : "/tmp";
    pid_t ps[ND];
    for (int d = 0; d < ND; d++) {
        ps[d] = 0; if (d >= (int)up.size() || !up[d]) continue;
        std::string f = file(base, d, up[d], step);
        if (access(f.c_str(), R_OK) == 0) continue;
        ps[d] = fork();
        if (ps[d] == 0) {
            mpz_class D = ref::make_disc(DISCS[d].seed, DISCS[d].bits);
            ref::Form x = ref::generator(D); if (!DISCS[d].gen) x = ref::pow(x, mpz_class("982451653982451653"), D);
            ref::Table t; t.build(D, x, step ? step : up[d] >= 100000 ? 2048 : 256, up[d]);
            std::string tmp = f + dsim::fmt(".%d", getpid()); { std::ofstream o(tmp); o << ref::dump(t); } rename(tmp.c_str(), f.c_str()); _exit(0);
        }
    }
    for (int d = 0; d < ND; d++) if (ps[d] > 0) { int st; waitpid(ps[d], &st, 0); }
    for (int d = 0; d < ND; d++) {
        if (d >= (int)up.size() || !up[d]) continue;
        std::ifstream i(file(base, d, up[d], step)); std::stringstream ss; ss << i.rdbuf();
        if (!ref::load(ss.str(), tab[d])) { fprintf(stderr, "cannot load table %d\n", d); _exit(2); }
    }
}
}  // namespace tables
