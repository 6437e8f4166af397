// Simulator runtime: one process, one running thread at a time, everything else behind seams.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

namespace rt {
constexpr int MAXT = 27;             // worker 0..26 (worker 0 also runs set-up programs)

struct Rng {                         // splitmix64
    uint64_t s;
    constexpr explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Env {                         // the simulated process environment of one run
    uint64_t heap_seed = 1;
    int heap_fill = 0;               // 0 pattern 0xA5.. 1 zero 2 ones 3 random words 4 plausible doubles 5 keep old contents
    int heap_mode = 0;               // 0 first free block 1 oldest free block 2 never reuse 3 random gaps 4 growing downwards 5 large blocks at once, small ones now and then 6, 7 every place its own oldest / newest free block
    uint64_t stack_seed = 0;         // 0: leave the stack alone
    int64_t clock_base = 1700000000ll * 1000000000ll;
    int clock_mode = 0;              // 0 steady 1 frozen 2 jumps back and forth 3 backwards 4 huge steps 5 far past/future extremes
    uint64_t clock_seed = 1;
    int rand_mode = 0;               // 0 lcg 1 zero 2 max 3 const 4 alternating 5 counting 6 from list
    uint64_t rand_seed = 1;
    int console = 0;                 // 0 works 1 full disk 2 broken pipe 3 EAGAIN now and then 4 EINTR 5 short writes 6 closed
    int locale = 0;                  // 0 C, 1 decimal comma, 2 C.UTF-8
    int err_no = 0;                  // errno before each call
    int disk = 0;                    // 1: simulated disk mounted
    uint64_t machine = 0;            // what the library is told of processors, environment variables, process and host
    uint64_t settings = 0;           // watch the process's settings; above 1: start from seeded ones
};
extern Env env;
extern std::vector<int> rand_list;

enum FaultKind { F_ALLOC, F_ALLOCSIZE, F_BUDGET, F_DISK_OPEN, F_DISK_WRITE, F_DISK_CLOSE, F_DISK_FULL, F_DISK_FSYNC, F_DISK_RENAME, F_NKINDS };
struct Fault {
    FaultKind kind;
    int op;                          // operation index within the client's program
    uint64_t a = 0, b = 0;           // k-th / size / bytes, length of the burst
    int err = 0;                     // errno; for writes, <0 means short write of -err bytes
    int attempt = 0;                 // which attempt at the operation (retries)
};
extern uint64_t fired[16];           // by FaultKind
extern uint64_t console_faults, clock_reads, rand_draws, reseeds;

struct Site { uint64_t hash; uint64_t k; uint64_t size; };

struct Op {                          // accounting for one attempt at one operation
    uint64_t allocs = 0, steps = 0, frees = 0, switches = 0, maxsize = 0, writes = 0, opens = 0, closes = 0;
    uint64_t faults = 0;             // faults that fired inside this attempt
    std::vector<Site> sites;
};

// ---- scheduling -------------------------------------------------------------------------
struct Switch { int tid; uint64_t step; int next; };
struct Sched {
    int policy = 0;                  // 0 explicit list only; 1 geometric quantum; 2 static-biased; 3 pct; 4 shared-arena-biased; 5 op boundaries
    uint64_t seed = 0;
    double p = 0, q = 0;
    uint64_t n = 0;
    int start = -1;
    std::vector<Switch> list;        // explicit
};
typedef void (*Body)(int tid, void* arg);
// Runs body(tid,arg) on each of the given workers, interleaved by the schedule; returns when all have finished.
void run_phase(const std::vector<int>& workers, Body body, void** args, const Sched& s);
void join_workers();                 // ends the worker threads (thread-local destructors run)
extern std::vector<Switch> recorded; // every preemption that happened in the last phase
extern uint64_t static_hits;         // accesses to static storage seen in the last phase
extern uint64_t nswitch_total, steps_total, sig_interleaving;
extern uint64_t step_budget;         // per thread and phase
extern bool want_sites;

void set_faults(int tid, const std::vector<Fault>& f);
void op_begin(int tid, int op, int attempt, Op* acc);
void op_end(int tid);
void lib_enter();                    // library code starts: preemption, faults, client heap
void lib_leave();
struct Lib { Lib() { lib_enter(); } ~Lib() { lib_leave(); } };
struct NoFault { bool old; NoFault(); ~NoFault(); };   // suppress fault injection
void op_boundary();                  // scheduling point between operations

// ---- heap -------------------------------------------------------------------------------
struct Live { uint64_t blocks, bytes; };
Live live(int tid);                  // live library blocks of one worker's arena
uint64_t live_hash(int tid);
Live live_all();
std::vector<std::string> live_dump(uint64_t minseq, size_t max);
uint64_t heap_seq();
bool heap_check(std::string& msg);   // canaries of all client blocks
extern uint64_t mem_errors;
extern char mem_error_first[256], free_error_first[256];

// ---- process ----------------------------------------------------------------------------
void init_process();                 // once, before forking
void init_child();                   // after the fork: environment in place
void apply_env();
void fail_now(const char* kind, const std::string& detail);   // ends the run with that verdict
extern int out_fd;
void out(const std::string& line);
void out_flush();
void hash_event(uint64_t v);
extern uint64_t event_hash;
extern void (*on_abnormal)();

// ---- simulated disk ------------------------------------------------------------------
int disk_open_fds();
bool disk_read(const std::string& name, std::string& content);
void disk_wipe();
std::vector<std::string> disk_names();
}
