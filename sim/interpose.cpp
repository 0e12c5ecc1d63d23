// Interposed libc/pthread entry points: in a simulation every blocking,
// timing, network and file-status call of the code under test lands here.
#include "dsim_int.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <new>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>

extern "C" void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));

namespace dsim {
struct RealInit { RealInit() { init(); } static void init(); };
template <class F> static void ld(F& f, const char* n) { f = (F)dlsym(RTLD_NEXT, n); }
void RealInit::init() {
    static bool done = false; if (done) return; done = true;
    ld(real.pthread_create, "pthread_create"); ld(real.pthread_join, "pthread_join"); ld(real.pthread_detach, "pthread_detach");
    ld(real.pthread_mutex_lock, "pthread_mutex_lock"); ld(real.pthread_mutex_trylock, "pthread_mutex_trylock"); ld(real.pthread_mutex_unlock, "pthread_mutex_unlock");
    ld(real.pthread_cond_wait, "pthread_cond_wait"); ld(real.pthread_cond_timedwait, "pthread_cond_timedwait");
    ld(real.pthread_cond_signal, "pthread_cond_signal"); ld(real.pthread_cond_broadcast, "pthread_cond_broadcast"); ld(real.pthread_cond_destroy, "pthread_cond_destroy");
    ld(real.nanosleep, "nanosleep"); ld(real.clock_nanosleep, "clock_nanosleep"); ld(real.clock_gettime, "clock_gettime");
    ld(real.usleep, "usleep"); ld(real.sleep, "sleep"); ld(real.sched_yield, "sched_yield"); ld(real.get_nprocs, "get_nprocs");
    ld(real.socket, "socket"); ld(real.connect, "connect"); ld(real.recv, "recv"); ld(real.send, "send"); ld(real.recvmsg, "recvmsg"); ld(real.sendmsg, "sendmsg");
    ld(real.read, "read"); ld(real.write, "write"); ld(real.poll, "poll"); ld(real.close, "close"); ld(real.shutdown, "shutdown");
    ld(real.getsockopt, "getsockopt"); ld(real.setsockopt, "setsockopt"); ld(real.ioctl, "ioctl"); ld(real.stat, "stat"); ld(real.lstat, "lstat"); ld(real.fstatat, "fstatat"); ld(real.access, "access"); ld(real.faccessat, "faccessat"); ld(real.statx, "statx");
}
static RealInit real_init_obj __attribute__((init_priority(101)));
#define R(f) (real.f ? real.f : (RealInit::init(), real.f))

static void check_obj(const void* p, size_t n, const char* what) {
    if (__asan_region_is_poisoned) { void* b = __asan_region_is_poisoned((void*)p, n); if (b) fail("sync_on_dead_memory", fmt("%s on memory that is no longer valid", what)); }
}
// Variables of the program, from its symbol table: the address sanitizer puts nothing between those that several units define.
static std::vector<std::pair<uintptr_t, size_t>> load_globals() {
    std::vector<std::pair<uintptr_t, size_t>> v; std::string e; FILE* fp = fopen("/proc/self/exe", "rb"); if (!fp) return v;
    fseek(fp, 0, SEEK_END); e.resize(ftell(fp)); rewind(fp); bool ok = fread(&e[0], 1, e.size(), fp) == e.size(); fclose(fp);
    auto* h = (Elf64_Ehdr*)e.data(); if (!ok || e.size() < sizeof *h || !h->e_shoff || h->e_shoff + h->e_shnum * sizeof(Elf64_Shdr) > e.size()) return v;
    uintptr_t base = 0; dl_iterate_phdr([](dl_phdr_info* i, size_t, void* b) { *(uintptr_t*)b = i->dlpi_addr; return 1; }, &base);
    auto* sh = (Elf64_Shdr*)(e.data() + h->e_shoff);
    for (int i = 0; i < h->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB && sh[i].sh_offset + sh[i].sh_size <= e.size())
        for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++) { auto* y = (Elf64_Sym*)(e.data() + sh[i].sh_offset) + k; if (ELF64_ST_TYPE(y->st_info) == STT_OBJECT && y->st_size && y->st_shndx != SHN_UNDEF) v.push_back({base + y->st_value, y->st_size}); }
    std::sort(v.begin(), v.end()); return v;
}
static std::vector<std::pair<uintptr_t, size_t>> globals;
static void check_bounds(const void* p, size_t n, const char* what) {
    if (!n) return;
    auto i = std::upper_bound(globals.begin(), globals.end(), std::make_pair((uintptr_t)p, SIZE_MAX)); if (i == globals.begin()) return; --i;
    if ((uintptr_t)p < i->first + i->second && (uintptr_t)p + n > i->first + i->second) fail("buffer_overrun", fmt("%s %zu bytes at offset %zu of a variable of %zu bytes", what, n, (size_t)((uintptr_t)p - i->first), i->second));
}
// Object identity is left out: a freed object's address may be reused or not, depending on heap history.
static void ev(char k, const void*) { hash_event(k, 0); }
struct Quiet { bool on; };
}  // namespace dsim
using namespace dsim;

extern "C" {
// ------------------------------------------------------------ threads
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    if (!active()) return R(pthread_create)(t, a, f, x);
    return thread_create(t, f, x);
}
int pthread_join(pthread_t t, void** r) { if (!active()) return R(pthread_join)(t, r); return thread_join(t, r); }
int pthread_detach(pthread_t t) { if (!active()) return R(pthread_detach)(t); return thread_detach(t); }
int sched_yield() { if (!active()) return R(sched_yield)(); yield_point(); return 0; }
int get_nprocs() { return hooks.ncpu; }
int get_nprocs_conf() { return hooks.ncpu; }

// ------------------------------------------------------------ mutexes, condition variables
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) return R(pthread_mutex_lock)(m);
    check_obj(m, sizeof *m, "mutex lock");
    sync_point();
    int r;
    while ((r = R(pthread_mutex_trylock)(m)) == EBUSY) { block(m, UINT64_MAX); check_obj(m, sizeof *m, "mutex lock"); }
    ev('L', m);
    return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) return R(pthread_mutex_trylock)(m);
    sync_point();
    return R(pthread_mutex_trylock)(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) return R(pthread_mutex_unlock)(m);
    check_obj(m, sizeof *m, "mutex unlock");
    int r = R(pthread_mutex_unlock)(m);
    wake_all(m);
    sync_point();
    return r;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
    check_obj(c, sizeof *c, "condition wait");
    sync_point(10);
    ev('W', c);
    if (hooks.on_cwait) { static std::map<int, bool> seen; uint64_t t = thread_steps(cur()); quiet([&] { bool& s = seen[cur()]; if (!s) { s = true; hooks.on_cwait(t); } }); }
    R(pthread_mutex_unlock)(m); wake_all(m);
    int why = block(c, dl, true);
    while (R(pthread_mutex_trylock)(m) == EBUSY) block(m, UINT64_MAX);
    ev('w', c);
    return why == TIMEOUT ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return R(pthread_cond_wait)(c, m); return cwait(c, m, UINT64_MAX); }
static uint64_t tns(const timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!active()) return R(pthread_cond_timedwait)(c, m, t); return cwait(c, m, tns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return cwait(c, m, tns(t)); }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!active()) return R(pthread_cond_signal)(c);
    check_obj(c, sizeof *c, "condition notify");
    sync_point(); ev('S', c); wake_one(c); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active()) return R(pthread_cond_broadcast)(c);
    check_obj(c, sizeof *c, "condition notify");
    sync_point(); ev('B', c); wake_all(c); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) { if (!active()) return R(pthread_cond_destroy)(c); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    volatile int* s = (volatile int*)o;
    while (*s != 2) {
        if (*s == 0) { *s = 1; f(); *s = 2; wake_all(o); break; }
        if (active()) block(o, UINT64_MAX);
    }
    return 0;
}
int __cxa_guard_acquire(uint64_t* gp) {
    volatile uint8_t* g = (volatile uint8_t*)gp;
    while (!g[0]) { if (!g[1]) { g[1] = 1; return 1; } if (active()) block(gp, UINT64_MAX); }
    return 0;
}
void __cxa_guard_release(uint64_t* gp) { volatile uint8_t* g = (volatile uint8_t*)gp; g[0] = 1; g[1] = 0; wake_all(gp); }
void __cxa_guard_abort(uint64_t* gp) { volatile uint8_t* g = (volatile uint8_t*)gp; g[1] = 0; wake_all(gp); }

// ------------------------------------------------------------ time
static void sim_sleep(uint64_t ns) { if (ns == 0) { yield_point(); return; } ev('Z', nullptr); block((void*)0x1, now() + ns); count("sleeps"); }
int nanosleep(const timespec* t, timespec* rem) {
    if (!active()) return R(nanosleep)(t, rem);
    sim_sleep(tns(t)); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
    if (!active()) return R(clock_nanosleep)(c, fl, t, rem);
    uint64_t d = tns(t);
    if (fl & TIMER_ABSTIME) d = d > now() ? d - now() : 0;
    sim_sleep(d); return 0;
}
int usleep(useconds_t u) { if (!active()) return R(usleep)(u); sim_sleep((uint64_t)u * 1000); return 0; }
unsigned sleep(unsigned s) { if (!active()) return R(sleep)(s); sim_sleep((uint64_t)s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, timespec* t) {
    if (!active()) return R(clock_gettime)(c, t);
    uint64_t n = now(); t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0;
}
int gettimeofday(timeval* tv, void*) { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t* o) { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }

// ------------------------------------------------------------ files
// -2: not simulated
static int fs_query(const char* p) {
    if (!active() || !hooks.on_stat || !p) return -2;
    int e = 0, r = -2; quiet([&] { r = hooks.on_stat(p, &e); });
    if (r != -2) { yield_point(); if (e) errno = e; }
    return r;
}
int stat(const char* p, struct stat* b) { int r = fs_query(p); if (r == -2) return R(stat)(p, b); if (r == 0) memset(b, 0, sizeof *b); return r; }
int lstat(const char* p, struct stat* b) { int r = fs_query(p); if (r == -2) return R(lstat)(p, b); if (r == 0) memset(b, 0, sizeof *b); return r; }
int fstatat(int d, const char* p, struct stat* b, int f) { int r = fs_query(p); if (r == -2) return R(fstatat)(d, p, b, f); if (r == 0) memset(b, 0, sizeof *b); return r; }
int access(const char* p, int m) { int r = fs_query(p); return r == -2 ? R(access)(p, m) : r; }
int faccessat(int d, const char* p, int m, int f) { int r = fs_query(p); return r == -2 ? R(faccessat)(d, p, m, f) : r; }
int statx(int d, const char* p, int f, unsigned m, struct statx* b) { int r = fs_query(p); if (r == -2) return R(statx)(d, p, f, m, b); if (r == 0) { memset(b, 0, sizeof *b); b->stx_mask = m; b->stx_mode = S_IFREG; } return r; }
}  // extern "C"

// ------------------------------------------------------------ sockets
namespace dsim {
std::function<Conn*(int)> on_connect;
static Conn* conns[4096];
static int pending_err[4096];
static bool is_sim_fd[4096];
static char poll_obj, wr_obj;
int fd_limit = 1 << 30;
uint64_t poll_cost_ns = 0;
Conn* conn_of(int fd) { return fd >= 0 && fd < 4096 ? conns[fd] : nullptr; }
static void changed(Conn* c) { wake_all(c); wake_all(&poll_obj); }
void Conn::feed(const std::string& s) { in += s; hash_event('F', s.size()); changed(this); }
void Conn::set_eof() { eof = true; hash_event('E', 0); changed(this); }
void Conn::set_reset() { reset = true; peer_closed = true; hash_event('R', 0); changed(this); }
static bool nonblocking(Conn* c, int flags) { return (flags & MSG_DONTWAIT) || (fcntl(c->fd, F_GETFL) & O_NONBLOCK); }
static ssize_t sim_recv(Conn* c, void* buf, size_t len, int flags) {
    yield_point();
    if (fault("recv_eintr", 0)) { errno = EINTR; return -1; }
    for (;;) {
        if (c->client_closed) { errno = EBADF; return -1; }
        if (c->reset_after_read >= 0 && (int64_t)c->recv_bytes >= c->reset_after_read) c->reset = true;
        if (c->reset) { count("recv_reset"); hash_event('r', 1); errno = ECONNRESET; return -1; }
        if (!c->in.empty() && len) {
            size_t n = std::min(len, c->in.size());
            if (c->reset_after_read >= 0) n = std::min<size_t>(n, c->reset_after_read - c->recv_bytes);
            if (n > 1 && fault("recv_fragment", c->frag_ppm, 'r')) n = 1 + choose((uint32_t)n - 1, 'R');
            check_bounds(buf, n, "receiving");
            memcpy(buf, c->in.data(), n);
            if (!(flags & MSG_PEEK)) { c->in.erase(0, n); c->recv_bytes += n; }
            hash_event('r', n);
            return (ssize_t)n;
        }
        if (len == 0) return 0;
        if (c->eof) { count("recv_eof"); hash_event('r', 0); return 0; }
        if (c->client_shutdown) return 0;
        if (nonblocking(c, flags)) { if (poll_cost_ns) block((void*)0x3, now() + poll_cost_ns); errno = EAGAIN; return -1; }
        block(c, UINT64_MAX);
    }
}
static ssize_t sim_send(Conn* c, const void* buf, size_t len, int flags) {
    yield_point();
    for (;;) {
        if (c->client_closed) { errno = EBADF; return -1; }
        if (c->peer_closed || c->client_shutdown) {
            count("send_broken_pipe"); hash_event('x', 0);
            struct sigaction sp; sigaction(SIGPIPE, nullptr, &sp);
            if (!(flags & MSG_NOSIGNAL) && sp.sa_handler != SIG_IGN) { fail("sigpipe", "write on a closed connection without suppressing SIGPIPE would kill the process"); }
            errno = c->reset ? ECONNRESET : EPIPE; return -1;
        }
        if (c->window > 0) break;
        if (nonblocking(c, flags)) { if (poll_cost_ns) block((void*)0x3, now() + poll_cost_ns); errno = EAGAIN; return -1; }
        count("send_blocked");
        block(c, UINT64_MAX);
    }
    size_t n = len;
    if (n > (size_t)c->window) n = (size_t)c->window;
    if (n > 1 && fault("short_write", c->short_ppm, 'w')) n = 1 + choose((uint32_t)n - 1, 'W');
    c->writes.push_back({steps(), cur(), c->out.size(), n});
    c->out.append((const char*)buf, n);
    if (c->window != INT64_MAX) c->window -= n;
    hash_event('x', n);
    if (c->on_write) quiet(c->on_write);
    if (fault("write_delay", c->wdelay_ppm, 'd')) block((void*)&wr_obj, now() + 1000000 * (1 + choose(200, 'D')));
    yield_point();
    return (ssize_t)n;
}
}  // namespace dsim

extern "C" {
int socket(int d, int t, int p) {
    if (!active() || (d != AF_INET && d != AF_INET6)) return R(socket)(d, t, p);
    int open_fds = 0; for (int i = 0; i < 4096; i++) open_fds += is_sim_fd[i];
    if (open_fds >= fd_limit) { count("fault_no_descriptors"); errno = EMFILE; return -1; }
    int fd = R(socket)(AF_UNIX, t, 0);
    if (fd >= 0 && fd < 4096) { is_sim_fd[fd] = true; conns[fd] = nullptr; pending_err[fd] = 0; }
    return fd;
}
int connect(int fd, const sockaddr* a, socklen_t l) {
    if (!active() || fd < 0 || fd >= 4096 || !is_sim_fd[fd]) return R(connect)(fd, a, l);
    int port = a->sa_family == AF_INET6 ? ntohs(((const sockaddr_in6*)a)->sin6_port) : ntohs(((const sockaddr_in*)a)->sin_port);
    yield_point();
    Conn* c = nullptr; if (on_connect) quiet([&] { c = on_connect(port); });
    hash_event('K', c ? 1 : 0);
    if (!c) { errno = ECONNREFUSED; return -1; }
    c->fd = fd; conns[fd] = c;
    if (fcntl(fd, F_GETFL) & O_NONBLOCK) { errno = EINPROGRESS; return -1; }
    return 0;
}
ssize_t recv(int fd, void* b, size_t n, int f) { Conn* c = active() ? conn_of(fd) : nullptr; return c ? sim_recv(c, b, n, f) : R(recv)(fd, b, n, f); }
ssize_t read(int fd, void* b, size_t n) { Conn* c = active() ? conn_of(fd) : nullptr; return c ? sim_recv(c, b, n, 0) : R(read)(fd, b, n); }
ssize_t send(int fd, const void* b, size_t n, int f) { Conn* c = active() ? conn_of(fd) : nullptr; return c ? sim_send(c, b, n, f) : R(send)(fd, b, n, f); }
ssize_t write(int fd, const void* b, size_t n) { Conn* c = active() ? conn_of(fd) : nullptr; return c ? sim_send(c, b, n, 0) : R(write)(fd, b, n); }
ssize_t recvmsg(int fd, msghdr* m, int f) {
    Conn* c = active() ? conn_of(fd) : nullptr;
    if (!c) return R(recvmsg)(fd, m, f);
    for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return sim_recv(c, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, f);
    return 0;
}
ssize_t sendmsg(int fd, const msghdr* m, int f) {
    Conn* c = active() ? conn_of(fd) : nullptr;
    if (!c) return R(sendmsg)(fd, m, f);
    std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return sim_send(c, s.data(), s.size(), f);
}
ssize_t readv(int fd, const iovec* v, int n) { msghdr m{}; m.msg_iov = (iovec*)v; m.msg_iovlen = n; if (active() && conn_of(fd)) return recvmsg(fd, &m, 0); ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = R(read)(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t writev(int fd, const iovec* v, int n) { msghdr m{}; m.msg_iov = (iovec*)v; m.msg_iovlen = n; if (active() && conn_of(fd)) return sendmsg(fd, &m, 0); ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = R(write)(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int poll(pollfd* p, nfds_t n, int ms) {
    bool sim = false;
    if (active()) for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && p[i].fd < 4096 && is_sim_fd[p[i].fd]) sim = true;
    if (!sim) {
        if (active() && ms != 0) { // no simulated descriptor: at most a sleep
            int r = R(poll)(p, n, 0);
            if (r) return r;
            if (ms > 0) block((void*)0x2, now() + (uint64_t)ms * 1000000); else block((void*)0x2, UINT64_MAX);
            return R(poll)(p, n, 0);
        }
        return R(poll)(p, n, ms);
    }
    uint64_t dl = ms < 0 ? UINT64_MAX : now() + (uint64_t)ms * 1000000;
    yield_point();
    for (;;) {
        int r = 0;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            Conn* c = conn_of(p[i].fd);
            if (!c) { if (p[i].fd >= 0) { p[i].revents = POLLHUP; r++; } continue; }
            short e = 0;
            if (!c->in.empty() || c->eof || c->reset) e |= POLLIN;
            if (c->window > 0 || c->peer_closed) e |= POLLOUT;
            if (c->reset) e |= POLLERR | POLLHUP;
            p[i].revents = e & (p[i].events | POLLERR | POLLHUP);
            if (p[i].revents) r++;
        }
        if (r || ms == 0 || now() >= dl) return r;
        block(&poll_obj, dl);
    }
}
int close(int fd) {
    if (fd >= 0 && fd < 4096 && is_sim_fd[fd] && active()) {
        is_sim_fd[fd] = false;
        Conn* c = conns[fd]; conns[fd] = nullptr;
        if (c) { c->client_closed = true; hash_event('Q', c->id); wake_all(c); if (c->on_close) quiet(c->on_close); }
    }
    return R(close)(fd);
}
int shutdown(int fd, int how) {
    Conn* c = active() ? conn_of(fd) : nullptr;
    if (!c) { if (fd >= 0 && fd < 4096 && is_sim_fd[fd]) { errno = ENOTCONN; return -1; } return R(shutdown)(fd, how); }
    c->client_shutdown = true; wake_all(c); return 0;
}
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) {
    if (active() && fd >= 0 && fd < 4096 && is_sim_fd[fd] && lv == SOL_SOCKET && o == SO_ERROR) { *(int*)v = conns[fd] ? 0 : ECONNREFUSED; *l = sizeof(int); return 0; }
    return R(getsockopt)(fd, lv, o, v, l);
}
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) {
    if (active() && fd >= 0 && fd < 4096 && is_sim_fd[fd]) return 0;
    return R(setsockopt)(fd, lv, o, v, l);
}
int getaddrinfo(const char* node, const char* svc, const addrinfo* hints, addrinfo** out) {
    int port = svc ? atoi(svc) : 0;
    int fam = hints ? hints->ai_family : AF_UNSPEC;
    struct Blk { addrinfo ai; sockaddr_in6 a6; };
    Blk* b = (Blk*)calloc(1, sizeof(Blk));
    if (fam == AF_INET) { auto* a = (sockaddr_in*)&b->a6; a->sin_family = AF_INET; a->sin_port = htons(port); a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); b->ai.ai_addrlen = sizeof(sockaddr_in); b->ai.ai_family = AF_INET; }
    else { b->a6.sin6_family = AF_INET6; b->a6.sin6_port = htons(port); b->a6.sin6_addr = in6addr_loopback; b->ai.ai_addrlen = sizeof(sockaddr_in6); b->ai.ai_family = AF_INET6; }
    b->ai.ai_socktype = SOCK_STREAM; b->ai.ai_protocol = IPPROTO_TCP; b->ai.ai_addr = (sockaddr*)&b->a6;
    *out = &b->ai; return 0;
}
void freeaddrinfo(addrinfo* a) { free(a); }
}  // extern "C"

// ------------------------------------------------------------ C++ allocation
int64_t dsim_live_new = 0, dsim_total_new = 0;
static void* do_new(size_t n, size_t al) {
    if (active() && hooks.on_new && hooks.on_new(n)) { count("alloc_failure"); return nullptr; }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    dsim_live_new++; dsim_total_new++;
    return p;
}
void* operator new(size_t n) { void* p = do_new(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = do_new(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0); }
void* operator new(size_t n, std::align_val_t a) { void* p = do_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = do_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
static void do_del(void* p) { if (p) { dsim_live_new--; free(p); } }
void operator delete(void* p) noexcept { do_del(p); }
void operator delete[](void* p) noexcept { do_del(p); }
void operator delete(void* p, size_t) noexcept { do_del(p); }
void operator delete[](void* p, size_t) noexcept { do_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_del(p); }
namespace dsim { void load_program_variables() { if (globals.empty()) globals = load_globals(); } }
