// internals shared by dsim.cpp, interpose.cpp and runner.cpp
#pragma once
#include "dsim.h"
#include <pthread.h>
#include <poll.h>
#include <time.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/stat.h>
namespace dsim {
enum { MAXT = 2048 };
enum { RS_NONE = 0, RS_OK, RS_VIOLATION, RS_INCONCLUSIVE };
#pragma pack(push, 1)
struct TraceEnt { uint64_t step; uint32_t v; char kind; };
#pragma pack(pop)
struct Shm {
    enum { NC = 96, NT = 2000000 };
    volatile int status;
    char cls[96];
    char msg[3000];
    char note[3000];
    uint64_t hash, hash2, steps, switches, sim_ns;
    volatile uint64_t live;   // changes as long as the run gets anywhere
    int nthreads, nontrivial;
    char cname[NC][48];
    uint64_t cval[NC];
    uint64_t trace_len;
    TraceEnt trace[NT];
};
void load_program_variables();
extern Shm* shm;
extern bool debug_mode, profiling;
extern uint8_t* profile_marks; extern std::map<int64_t, int64_t> chosen_positions;
uint32_t n_guards();
extern int64_t thread_create_fail_ppm;
extern void (*rt_thread_start)();
const std::vector<TraceEnt>& replay_trace();
bool replay_has_trace();
bool in_sim();
int thread_create(pthread_t*, void* (*)(void*), void*);
int thread_join(pthread_t, void**);
int thread_detach(pthread_t);
void crash_publish();
struct Real {
    int (*pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    int (*pthread_join)(pthread_t, void**);
    int (*pthread_detach)(pthread_t);
    int (*pthread_mutex_lock)(pthread_mutex_t*);
    int (*pthread_mutex_trylock)(pthread_mutex_t*);
    int (*pthread_mutex_unlock)(pthread_mutex_t*);
    int (*pthread_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
    int (*pthread_cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
    int (*pthread_cond_signal)(pthread_cond_t*);
    int (*pthread_cond_broadcast)(pthread_cond_t*);
    int (*pthread_cond_destroy)(pthread_cond_t*);
    int (*pthread_once)(pthread_once_t*, void (*)());
    int (*nanosleep)(const timespec*, timespec*);
    int (*clock_nanosleep)(clockid_t, int, const timespec*, timespec*);
    int (*clock_gettime)(clockid_t, timespec*);
    int (*usleep)(unsigned);
    unsigned (*sleep)(unsigned);
    int (*sched_yield)();
    int (*get_nprocs)();
    int (*socket)(int, int, int);
    int (*connect)(int, const sockaddr*, socklen_t);
    ssize_t (*recv)(int, void*, size_t, int);
    ssize_t (*send)(int, const void*, size_t, int);
    ssize_t (*recvmsg)(int, msghdr*, int);
    ssize_t (*sendmsg)(int, const msghdr*, int);
    ssize_t (*read)(int, void*, size_t);
    ssize_t (*write)(int, const void*, size_t);
    int (*poll)(pollfd*, nfds_t, int);
    int (*close)(int);
    int (*shutdown)(int, int);
    int (*getsockopt)(int, int, int, void*, socklen_t*);
    int (*setsockopt)(int, int, int, const void*, socklen_t);
    int (*ioctl)(int, unsigned long, void*);
    int (*stat)(const char*, struct stat*); int (*lstat)(const char*, struct stat*); int (*fstatat)(int, const char*, struct stat*, int); int (*access)(const char*, int); int (*faccessat)(int, const char*, int, int); int (*statx)(int, const char*, int, unsigned, struct statx*);
};
extern Real real;
}  // namespace dsim
