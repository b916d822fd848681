// Deterministic simulator for fsdyn: seams, scheduler, simulated heap, plans.
// Harness code (this directory) is never instrumented; library code is
// compiled with memory-access and basic-block hooks that call into core.cpp.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

typedef uint8_t u8;
typedef int8_t i8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- PRNG ----
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9e3779b97f4a7c15ULL + 0x1234567) {}
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64) below(hi - lo + 1); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
    template <class T> T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
};

// --------------------------------------------------------------- plans ----
// A plan is the complete, explicit description of one simulated run: what each
// client does, in which order the operations start, where each operation is
// preempted and for how long, and which faults hit it.
struct Fault {
    int kind;
    i64 n, param;
};
struct Preempt {
    i64 at;   // hook point inside the operation
    i64 hold; // resumed after this many further operation completions
};
struct Op {
    int id = 0, task = 1, code = 0;
    std::vector<i64> a;
    std::string blob;
    std::vector<Fault> f;
    std::vector<Preempt> p;
    i64 arg(size_t i, i64 dflt = 0) const { return i < a.size() ? a[i] : dflt; }
};
struct Plan {
    std::string prop, scen;
    u64 seed = 0;
    std::map<std::string, i64> cfg;
    std::vector<Op> ops;
    i64 get(const char *k, i64 d = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
};

enum FaultKind {
    F_PREEMPT = 1,      // an operation suspended inside the library
    F_HOT_PREEMPT,      // suspended at a write to state visible to others
    F_OOM,              // an allocation refused
    F_SHORT_READ,       // stream delivered less than asked
    F_EOF,              // stream ended
    F_EAGAIN,           // stream had nothing yet
    F_EINTR,            // stream call interrupted
    F_EIO,              // stream broke
    F_SCRIBBLE,         // stream wrote to its buffer before failing
    F_SIGNAL,           // asynchronous signal delivered inside a library call
    F_SIGNAL_NESTED,    // signal delivered inside a signal handler's call
    F_BITFLIP,          // stored or transmitted byte flipped
    F_DROP,             // transmitted bytes lost
    F_DUP,              // transmitted bytes repeated
    F_SWAP,             // transmitted chunks reordered
    F_TRUNC,            // transmission cut
    F_INSERT,           // stray bytes inserted
    F_FULL,             // output area or array limit exhausted
    F_REALLOC_MOVE,     // allocator moved a block on resize
    F_REUSE,            // allocator recycled a freed block
    F_DIRTY,            // allocator handed out memory with old contents
    F_ZERO_NULL,        // allocator answered a zero-size request with NULL
    F_SWITCH_ALLOC,     // allocator switched while blocks are outstanding
    F_FMT_ERROR,        // formatting failed
    F_KINDS
};
extern const char *fault_names[F_KINDS];

// ------------------------------------------------------------- failure ----
// kind: model | mem | leak | crash | abort | hang.  site: a short stable name
// of what was violated; kind+site is the violation class for minimisation.
[[noreturn]] void fail(const char *kind, const char *site, const char *fmt, ...)
    __attribute__((format(printf, 3, 4)));
#define MODEL(cond, site, ...)                                                 \
    do {                                                                       \
        if (!(cond))                                                           \
            fail("model", site, __VA_ARGS__);                                  \
    } while (0)
// The run ended early, legitimately (for example in an expected abort).
[[noreturn]] void end_run_ok();

// --------------------------------------------------------------- stats ----
enum { MAX_PROBES = 160 };
struct Stats {
    u64 runs, ops, steps, switches, allocs, frees, reallocs, callbacks;
    u64 fault[F_KINDS];
    u64 preempt_planned, preempt_unreached;
    u64 probe[MAX_PROBES];
    u64 maxsize, failstop, skipped;
};
extern Stats *st;
inline void fired(int kind) { st->fault[kind]++; }
int probe_id(const char *name);
#define PROBE(name)                                                            \
    do {                                                                       \
        static int id__ = probe_id(name);                                      \
        st->probe[id__]++;                                                     \
    } while (0)
#define PROBEV(expr) (st->probe[probe_id(expr)]++)
void trace(u64 v);            // fold into the run's trace hash
u64 hash_bytes(const void *p, size_t n);
void note_nontrivial();       // mark the current run as non-trivial

// ---------------------------------------------------------------- heap ----
enum ShadowCode {
    SH_NONE = 0,   // never allocated, or red zone
    SH_RW = 1,     // library block, or caller's output area
    SH_FREED = 2,
    SH_RO = 3,     // caller's input: library may read
    SH_OPAQUE = 4, // caller's object: library may not touch
    SH_SHARED = 5  // library block of a structure published to all readers
};
enum BlockKind { BK_LIB = 1, BK_CALLER = 2 };
struct HeapCfg {
    int reuse = 0;      // 0 never, 1 most recent, 2 random
    int move = 0;       // 0 always move, 1 in place when possible, 2 random
    int slack = 0;      // extra gap between blocks
    int fill = 0;       // -1 random bytes, else the byte
    int zero_null = 0;  // zero-size allocation: 1 NULL, 0 minimal block
    int mode = 0;       // 0 application allocator, 1 default (libc) allocator
};
void heap_reset(const HeapCfg &cfg, u64 seed);
void *caller_alloc(size_t n, int shadow);           // exact size, red zones
void caller_free(void *p);
void heap_set_shadow(void *p, int shadow);          // whole block
bool heap_is_live(const void *p, int kind);         // start of a live block
u64 heap_serial(const void *p);                     // of the live block at p, or 0
size_t heap_block_size(const void *p);
u64 heap_live_lib();                                // live library blocks
std::string heap_describe_live();
void heap_share_all_lib();                          // publish library blocks
// checked access by the harness to memory handed out by the library
void chk_read(const void *p, size_t n, const char *what);
void chk_cstr(const char *p, const char *what);
extern "C" void *sim_realloc(void *p, size_t n);    // the installed allocator
extern "C" void *sim_realloc_b(void *p, size_t n);  // a second one (counted)
extern "C" void sim_counter(int n);
extern i64 skew_total;
u64 *alloc_calls();          // this client's calls to allocator a / b
extern u64 run_allocs;       // allocation requests in this run
extern u64 run_oom;          // refused ones
u64 cur_op_allocs();         // the same, for the current operation
u64 cur_op_oom();
struct OomSpec { i64 n, count; }; // refuse allocations n .. n+count-1
extern bool oom_forever;     // refuse everything (memory exhausted)

// ----------------------------------------------------------- scheduler ----
struct World {
    virtual ~World() {}
    virtual void setup() {}
    virtual int lock_of(const Op &) { return -1; }
    virtual void exec(const Op &) = 0;
    virtual void finish() {}
    virtual void before_solo(int) {} // reference phase: client t starts
};
World *make_world(Plan &plan, int phase);
int world_phases(const Plan &plan);
void gen_plan(Plan &plan, Rng &rng);
extern Plan *cur_plan;
int cur_task();
const Op *cur_op();
u64 op_steps();
extern int hot_mode;          // 0 off, 1 before, 2 after, 3 both
extern bool sched_preempt;    // preemption enabled in this phase
bool set_signal_safe(bool on); // in force: allocation or unsafe calls fail
extern std::function<void()> signal_handler;  // run at planned signal points
extern int signal_depth;
void yield_now(i64 hold);     // explicit scheduling point (e.g. in callbacks)
void callback_point();        // harness callback entered from the library
void restore_statics();
u64 static_writes();
bool report_kind(const std::string &prop, const char *kind);
extern bool expect_abort;     // abort() is the correct outcome right now
void save_statics();          // remember the library's static data ...
void reload_statics();        // ... and put it back

// -------------------------------------------------------------- helpers ---
std::string hex(const std::string &s);
std::string printable(const std::string &s);
