#include <unordered_set>
#include "core.h"
#include <cerrno>
#include <climits>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ctime>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <wchar.h>

#include "fsalloc.h"

const char *fault_names[F_KINDS] = {
    "none", "preempt", "hot_preempt", "alloc_failure", "stream_short_read",
    "stream_eof", "stream_eagain", "stream_eintr", "stream_eio",
    "stream_scribble", "signal", "signal_nested", "bit_flip", "bytes_lost",
    "bytes_repeated", "chunks_reordered", "truncation", "stray_bytes",
    "space_exhausted", "realloc_move", "block_recycled", "dirty_memory",
    "zero_size_null", "allocator_switch", "format_error"};

// ------------------------------------------------------ shared records ----
struct FailRec {
    volatile int set;
    char kind[16];
    char site[64];
    char msg[600];
    int op;
    u64 steps;
};
struct Shared {
    Stats stats;
    FailRec fail;
    volatile u64 progress;     // index of the run in progress
    volatile u64 done;         // runs completed in this child
    volatile u64 trace_out;    // trace hash of the last run
    volatile u64 state_out;
    char probe_names[MAX_PROBES][48];
    volatile int nprobes;
};
static Shared *sh;
Stats *st;
static u8 *cov;             // coverage bytes over the text segment
static u8 *text_lo, *text_hi;

int probe_id(const char *name)
{
    for (int i = 0; i < sh->nprobes; i++)
        if (!strcmp(sh->probe_names[i], name))
            return i;
    int i = sh->nprobes;
    if (i >= MAX_PROBES)
        return MAX_PROBES - 1;
    snprintf(sh->probe_names[i], sizeof sh->probe_names[i], "%s", name);
    sh->nprobes = i + 1;
    return i;
}

static u64 trace_hash;
static bool nontrivial;
void trace(u64 v)
{
    trace_hash ^= v + 0x9e3779b97f4a7c15ULL + (trace_hash << 6);
    trace_hash *= 0xff51afd7ed558ccdULL;
    trace_hash ^= trace_hash >> 29;
}
u64 hash_bytes(const void *p, size_t n)
{
    const u8 *q = (const u8 *) p;
    u64 h = 0xcbf29ce484222325ULL;
    while (n--)
        h = (h ^ *q++) * 0x100000001b3ULL;
    return h;
}
void note_nontrivial() { nontrivial = true; }

// -------------------------------------------------------------- tasks -----
enum { MAXTASK = 6, STACK = 512 * 1024 };
static bool big_plan;
static u64 STEP_CAP; // longest operation, in hook points
struct RunOver {};
enum TState { T_IDLE, T_RUN, T_SUSP, T_DONE, T_OVER };
struct Ctx {
    int task = 0;
    const Op *op = nullptr;
    u64 steps = 0, next_event = ~0ULL;
    size_t next_p = 0, next_f = 0;
    std::vector<Fault> sigs;
    u64 op_allocs = 0, op_oom = 0;
    bool refused = false; // default allocator had to refuse: must stop here
    std::vector<OomSpec> oom;
    bool hot_after = false;
    int sigdepth = 0;
    i64 resume_at = 0;
    int lock = -1;
    TState state = T_IDLE;
    int baton = 0;
    pthread_t th;
    bool started = false;
    bool noalloc = false;
};
static Ctx tasks[MAXTASK];
static Ctx *cx;
static int main_baton;
static bool quitting;
static int run_over;
static World *world;
Plan *cur_plan;
int hot_mode;
bool sched_preempt;
bool expect_abort;
static i64 hot_budget, hot_hold, hot_every, hot_seen;
static u64 completions;
static u64 nstatic_writes;
std::function<void()> signal_handler;
i64 skew_total;
static u64 alloc_count[MAXTASK + 1][2];
u64 *alloc_calls() { return alloc_count[cx ? cx->task : MAXTASK]; }
bool oom_forever;
u64 run_allocs, run_oom;
int signal_depth;

int cur_task() { return cx ? cx->task : -1; }
const Op *cur_op() { return cx ? cx->op : nullptr; }
u64 cur_op_allocs() { return cx ? cx->op_allocs : 0; }
u64 cur_op_oom() { return cx ? cx->op_oom : 0; }
bool set_signal_safe(bool on)
{
    bool o = cx->noalloc;
    cx->noalloc = on;
    return o;
}
u64 op_steps() { return cx ? cx->steps : 0; }
u64 static_writes() { return nstatic_writes; }

static void fwait(int *p)
{
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void fwake(int *p)
{
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ------------------------------------------------------------- failure ----
static std::string g_prop;
bool report_kind(const std::string &prop, const char *kind)
{
    if (!strcmp(kind, "arena"))
        return false;
    if (!strcmp(kind, "leak"))
        return prop == "C08" || prop == "C09" || prop == "C10";
    if (!strcmp(kind, "model"))
        return prop != "C09";
    return true;
}
void fail(const char *kind, const char *site, const char *fmt, ...)
{
    if (!sh->fail.set) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(sh->fail.msg, sizeof sh->fail.msg, fmt, ap);
        va_end(ap);
        snprintf(sh->fail.kind, sizeof sh->fail.kind, "%s", kind);
        snprintf(sh->fail.site, sizeof sh->fail.site, "%s", site);
        sh->fail.op = cx && cx->op ? cx->op->id : -1;
        sh->fail.steps = st->steps;
        sh->fail.set = 1;
    }
    _exit(report_kind(g_prop, kind) ? 77 : 78);
}
void end_run_ok()
{
    run_over = 1;
    throw RunOver();
}
static void on_crash(int sig, siginfo_t *si, void *uc)
{
    u64 pc = ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP];
    fail("crash", sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE"
         : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "SIGABRT",
         "signal %d at address %p, pc 0x%llx", sig, si->si_addr,
         (unsigned long long) pc);
}

// ---------------------------------------------------------------- heap ----
static const u64 ARENA = 0x600000000000ULL;
static const u64 ARENA_SIZE = 512ULL << 20;
static const u64 SHADOW = 0x610000000000ULL;
static const size_t MAX_BLOCK = 24u << 20;
struct Block {
    u64 addr;
    size_t size, cap;
    u8 live, kind;
    int op;
    u64 serial; // tells apart blocks that get the same address in turn
};
static std::vector<Block> blocks;
static std::vector<u32> freelist;
static u32 *bindex;    // (addr-ARENA)/16 -> block+1
static u64 heap_top, heap_hi;
static HeapCfg hc;
static Rng hrng;
static u64 live_lib, block_serial;

static u8 *shadow(u64 a) { return (u8 *) (SHADOW + (a - ARENA)); }
static bool in_arena(u64 a) { return a - ARENA < ARENA_SIZE; }

// Red zones around the library's locals and static objects: one of the two
// builds of the library (sim_redzones) keeps the usual shadow, eight bytes to
// one, for the stacks of the tasks and for the image of the program.
extern "C" const int sim_redzones, sim_literal;
static const u64 RZ_OFFSET = 0x200000000000ULL; // -fasan-shadow-offset
static const u64 STACKS = 0x620000000000ULL;
static u64 image_lo, image_hi;
static inline i8 *rz(u64 a) { return (i8 *) ((a >> 3) + RZ_OFFSET); }
static inline u64 stack_base(int t) { return STACKS + (u64) t * (4 << 20); }
static u64 rz_bad(u64 a, size_t n) // first poisoned byte, or 0
{
    if (!(a - STACKS < (u64) MAXTASK << 22 || a - image_lo < image_hi - image_lo))
        return 0;
    for (u64 x = a; x < a + n; x = (x | 7) + 1) {
        i8 c = *rz(x);
        u64 e = std::min(a + n, (x | 7) + 1);
        if (c && (c < 0 || (e - 1 & 7) >= (u64) c))
            return x;
    }
    return 0;
}
static void rz_set(u64 a, size_t n, int code) // a is a multiple of eight
{
    memset(rz(a), code, n >> 3);
    if (n & 7)
        *rz(a + n) = code ? code : n & 7;
}

void heap_reset(const HeapCfg &cfg, u64 seed)
{
    size_t used = heap_hi - ARENA;
    if (used) {
        if (used > (4u << 20)) {
            madvise((void *) SHADOW, used + 4096, MADV_DONTNEED);
            madvise(bindex, used / 4 + 4096, MADV_DONTNEED);
            madvise((void *) ARENA, used + 4096, MADV_DONTNEED);
        } else {
            memset((void *) SHADOW, 0, used + 64);
            memset(bindex, 0, used / 4 + 64);
        }
    }
    heap_top = heap_hi = ARENA + 4096;
    blocks.clear();
    freelist.clear();
    hc = cfg;
    hrng = Rng(seed ^ 0x5eed5eed);
    live_lib = 0;
    skew_total = 0;
    memset(alloc_count, 0, sizeof alloc_count);
}

static void fill_fresh(u64 a, size_t n)
{
    if (hc.fill >= 0)
        memset((void *) a, hc.fill, n);
    else {
        u64 x = hrng.next();
        u8 *p = (u8 *) a;
        for (size_t i = 0; i < n; i++) {
            if (!(i & 7))
                x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            p[i] = x >> (8 + (i & 7) * 7);
        }
    }
    if (hc.fill != 0 && n)
        fired(F_DIRTY);
}

static u32 new_block(size_t n, int kind, int code)
{
    size_t cap = (n + 15) & ~(size_t) 15;
    if (cap < 16)
        cap = 16;
    u32 bi = ~0u;
    if (kind == BK_LIB && hc.reuse && !freelist.empty()) {
        size_t m = freelist.size();
        size_t lo = m > 48 ? m - 48 : 0;
        std::vector<size_t> cand;
        for (size_t i = m; i-- > lo;) {
            Block &b = blocks[freelist[i]];
            if (b.cap >= cap && b.cap <= 2 * cap + 32) {
                cand.push_back(i);
                if (hc.reuse == 1)
                    break;
            }
        }
        if (!cand.empty() && (hc.reuse == 1 || hrng.chance(2, 3))) {
            size_t i = cand[hrng.below(cand.size())];
            bi = freelist[i];
            freelist.erase(freelist.begin() + i);
            fired(F_REUSE);
        }
    }
    if (bi == ~0u) {
        u64 gap = 32;
        if (hc.slack)
            gap += 16 * hrng.below(hc.slack);
        u64 a = heap_top + gap;
        if (a + cap + 64 > ARENA + ARENA_SIZE)
            // ordinary runs stay far below this; big ones are given up
            fail(big_plan ? "arena" : "mem", "runaway-allocation",
                 "more than %llu MB taken from the heap", ARENA_SIZE >> 20);
        heap_top = a + cap;
        if (heap_top > heap_hi)
            heap_hi = heap_top + 64;
        bi = blocks.size();
        blocks.push_back(Block{a, n, cap, 1, (u8) kind, 0});
        bindex[(a - ARENA) / 16] = bi + 1;
    }
    Block &b = blocks[bi];
    b.size = n;
    b.live = 1;
    b.serial = ++block_serial;
    b.kind = kind;
    b.op = cx && cx->op ? cx->op->id : -1;
    memset(shadow(b.addr), SH_NONE, b.cap);
    memset(shadow(b.addr), code, n);
    fill_fresh(b.addr, n);
    if (kind == BK_LIB)
        live_lib++;
    return bi;
}
static Block *find_block(const void *p)
{
    u64 a = (u64) p;
    if (!in_arena(a) || a % 16)
        return nullptr;
    u32 bi = bindex[(a - ARENA) / 16];
    return bi ? &blocks[bi - 1] : nullptr;
}
static void free_block(Block *b)
{
    memset(shadow(b->addr), SH_FREED, b->cap);
    memset((void *) b->addr, 0xd5 ^ (b->addr >> 4 & 0xff), b->cap);
    b->live = 0;
    if (b->kind == BK_LIB)
        live_lib--;
    if (b->kind == BK_LIB)
        freelist.push_back(b - &blocks[0]);
}
void *caller_alloc(size_t n, int code)
{
    u32 bi = new_block(n, BK_CALLER, code);
    if (bi == ~0u) {
        fprintf(stderr, "simulator arena exhausted\n");
        _exit(70);
    }
    return (void *) blocks[bi].addr;
}
void caller_free(void *p)
{
    Block *b = find_block(p);
    if (b && b->live)
        free_block(b);
}
void heap_set_shadow(void *p, int code)
{
    Block *b = find_block(p);
    if (b && b->live)
        memset(shadow(b->addr), code, b->size);
}
bool heap_is_live(const void *p, int kind)
{
    Block *b = find_block(p);
    return b && b->live && b->kind == kind;
}
u64 heap_serial(const void *p)
{
    Block *b = find_block(p);
    return b && b->live ? b->serial : 0;
}
size_t heap_block_size(const void *p)
{
    Block *b = find_block(p);
    return b && b->live ? b->size : 0;
}
u64 heap_live_lib() { return live_lib; }
std::string heap_describe_live()
{
    std::string s;
    int n = 0;
    for (auto &b : blocks)
        if (b.live && b.kind == BK_LIB && n++ < 6) {
            char t[80];
            snprintf(t, sizeof t, " [%zu bytes from op %d]", b.size, b.op);
            s += t;
        }
    return s;
}
void heap_share_all_lib()
{
    for (auto &b : blocks)
        if (b.live && b.kind == BK_LIB)
            memset(shadow(b.addr), SH_SHARED, b.size);
}

static void bad_access(u64 a, size_t n, bool w, u8 code, u64 pc)
{
    // nearest block below, for the message
    const Block *best = nullptr;
    for (auto &b : blocks)
        if (b.addr <= a && (!best || b.addr > best->addr))
            best = &b;
    const char *site = code == SH_FREED ? "use-after-free"
        : code == SH_RO ? "write-to-readonly-argument"
        : code == SH_OPAQUE ? "touches-caller-object" : "out-of-bounds";
    fail("mem", site, "%s of %zu bytes at pc 0x%llx; nearest block: %zu bytes"
         " (%s, %s, from op %d), offset %lld",
         w ? "write" : "read", n, (unsigned long long) pc,
         best ? best->size : 0, best && best->kind == BK_LIB ? "library" : "caller",
         best && best->live ? "live" : "freed", best ? best->op : -1,
         best ? (long long) (a - best->addr) : 0LL);
}
static inline bool shadow_ok(u8 code, bool w)
{
    return code == SH_RW || code == SH_SHARED || (code == SH_RO && !w);
}
static void check_range(u64 a, size_t n, bool w, u64 pc, bool *shared)
{
    u8 *s = shadow(a);
    for (size_t i = 0; i < n; i++) {
        if (a + i >= ARENA + ARENA_SIZE)
            bad_access(a + i, n, w, SH_NONE, pc);
        if (!shadow_ok(s[i], w))
            bad_access(a + i, n, w, s[i], pc);
        if (s[i] == SH_SHARED && w)
            *shared = true;
    }
}
static void bad_object(u64 a, size_t n, bool w, u64 pc)
{
    fail("mem", in_arena(a) ? "out-of-bounds" : a - STACKS < (u64) MAXTASK << 22
         ? "local-out-of-bounds" : "static-out-of-bounds",
         "%s of %zu bytes at pc 0x%llx outside the object it belongs to",
         w ? "write" : "read", n, (unsigned long long) pc);
}
static inline u64 here()
{
    u64 sp;
    asm volatile("mov %%rsp, %0" : "=r"(sp));
    return sp;
}
// an address that is neither the caller's nor on the simulated heap
static inline void check_foreign(u64 a, size_t n, bool w, u64 pc)
{
    u64 b = stack_base(cx->task);
    if (a - b < STACK && a < here())
        fail("mem", "dead-local", "%s of %zu bytes at pc 0x%llx: a local variable"
             " of a call that has returned", w ? "write" : "read", n,
             (unsigned long long) pc);
    if (sim_redzones && rz_bad(a, n))
        bad_object(a, n, w, pc);
}
static inline void byte_read(u64 a, u64 pc)
{
    if (!cx)
        return;
    if (in_arena(a)) {
        if (!shadow_ok(*shadow(a), false))
            bad_access(a, 1, false, *shadow(a), pc);
    } else if (sim_redzones && rz_bad(a, 1))
        bad_object(a, 1, false, pc);
}
void chk_read(const void *p, size_t n, const char *what)
{
    u64 a = (u64) p;
    if (!n)
        return;
    if (!in_arena(a)) {
        if (a < 4096)
            fail("mem", "result-unreadable", "%s: pointer %p is not readable",
                 what, p);
        if (cx && a - stack_base(cx->task) < STACK && a < here())
            fail("mem", "result-unreadable", "%s: the library handed out a local"
                 " variable of its own", what);
        if (sim_redzones && rz_bad(a, n))
            fail("mem", "result-unreadable", "%s: %zu bytes handed out by the"
                 " library are not all there", what, n);
        return; // static data
    }
    u8 *s = shadow(a);
    for (size_t i = 0; i < n; i++)
        if (s[i] != SH_RW && s[i] != SH_SHARED && s[i] != SH_RO &&
            s[i] != SH_OPAQUE)
            fail("mem", "result-unreadable", "%s: byte %zu of %zu handed out by"
                 " the library is %s", what, i, n,
                 s[i] == SH_FREED ? "freed memory" : "out of bounds");
}
void chk_cstr(const char *p, const char *what)
{
    for (size_t i = 0;; i++) {
        chk_read(p + i, 1, what);
        if (!p[i])
            return;
    }
}

// the allocator proper -----------------------------------------------------
static bool oom_now()
{
    if (oom_forever)
        return true;
    if (!cx)
        return false;
    u64 k = cx->op_allocs;
    for (auto &o : cx->oom)
        if ((i64) k >= o.n && (i64) k < o.n + o.count)
            return true;
    return false;
}
static void *sim_alloc_core(void *p, size_t n, const char *who)
{
    if (cx && cx->noalloc)
        fail("model", "allocates-in-signal-safe-call",
             "%s called from a call that must be signal-safe", who);
    trace(0xa110c000 + n);
    Block *b = nullptr;
    if (p) {
        b = find_block(p);
        if (!b)
            fail("mem", "free-of-foreign-pointer",
                 "%s(%p, %zu): not the start of a block", who, p, n);
        if (!b->live)
            fail("mem", "double-free",
                 "%s(%p, %zu): block of %zu bytes (op %d) already freed", who, p,
                 n, b->size, b->op);
        if (b->kind != BK_LIB)
            fail("mem", "free-of-caller-object",
                 "%s(%p, %zu): object of the caller", who, p, n);
    }
    if (n == 0) {
        if (b) {
            st->frees++;
            free_block(b);
            return nullptr;
        }
        if (!p && hc.zero_null && hc.mode == 0) {
            fired(F_ZERO_NULL);
            return nullptr;
        }
    }
    if (cx)
        cx->op_allocs++;
    run_allocs++;
    // an empty request takes no memory, so there is nothing to run out of
    if ((n && oom_now()) || n > MAX_BLOCK) {
        if (n <= MAX_BLOCK)
            fired(F_OOM);
        if (cx)
            cx->op_oom++;
        run_oom++;
        if (hc.mode == 1 && cx)
            cx->refused = true;
        errno = ENOMEM;
        return nullptr;
    }
    if (!b) {
        st->allocs++;
        u32 bi = new_block(n, BK_LIB, SH_RW);
        if (bi == ~0u)
            return nullptr;
        return (void *) blocks[bi].addr;
    }
    st->reallocs++;
    bool inplace = b->cap >= n &&
        (hc.move == 1 || (hc.move == 2 && hrng.chance(1, 2)));
    if (inplace) {
        size_t old = b->size;
        b->size = n;
        memset(shadow(b->addr), SH_NONE, b->cap);
        memset(shadow(b->addr), SH_RW, n);
        if (n > old)
            fill_fresh(b->addr + old, n - old);
        return p;
    }
    u32 old = b - &blocks[0];
    u32 bi = new_block(n, BK_LIB, SH_RW);
    if (bi == ~0u)
        return nullptr;
    Block &ob = blocks[old], &nb = blocks[bi];
    memcpy((void *) nb.addr, (void *) ob.addr, ob.size < n ? ob.size : n);
    free_block(&ob);
    fired(F_REALLOC_MOVE);
    return (void *) nb.addr;
}
extern "C" void *sim_realloc(void *p, size_t n)
{
    alloc_calls()[0]++;
    return sim_alloc_core(p, n, "reallocator");
}
extern "C" void *sim_realloc_b(void *p, size_t n)
{
    alloc_calls()[1]++;
    return sim_alloc_core(p, n, "second reallocator");
}
extern "C" void sim_counter(int n) { skew_total += n; }

// ------------------------------------------------------------- hooks ------
extern "C" {
extern char __start_simdata[] __attribute__((weak));
extern char __stop_simdata[] __attribute__((weak));
extern char __start_simbss[] __attribute__((weak));
extern char __stop_simbss[] __attribute__((weak));
}
static std::vector<char> snap_data, snap_bss;
static u32 lib_rand_state;
void restore_statics()
{
    lib_rand_state = 0;
    if (!snap_data.empty())
        memcpy(__start_simdata, snap_data.data(), snap_data.size());
    if (!snap_bss.empty())
        memcpy(__start_simbss, snap_bss.data(), snap_bss.size());
}
static std::vector<char> kept_data, kept_bss;
void save_statics()
{
    kept_data.assign(__start_simdata, __stop_simdata);
    kept_bss.assign(__start_simbss, __stop_simbss);
}
void reload_statics()
{
    std::copy(kept_data.begin(), kept_data.end(), __start_simdata);
    std::copy(kept_bss.begin(), kept_bss.end(), __start_simbss);
}
static std::unordered_set<u64> written_statics; // 8-byte units, in this run
static void take_snapshot()
{
    if (__start_simdata)
        snap_data.assign(__start_simdata, __stop_simdata);
    if (__start_simbss)
        snap_bss.assign(__start_simbss, __stop_simbss);
}
static inline bool in_statics(u64 a)
{
    return (a >= (u64) __start_simdata && a < (u64) __stop_simdata) ||
        (a >= (u64) __start_simbss && a < (u64) __stop_simbss);
}

static void suspend(i64 hold)
{
    int e = errno;
    Ctx *me = cx;
    me->state = T_SUSP;
    me->resume_at = completions + (hold > 0 ? hold : 0);
    st->switches++;
    trace(0x5057ULL << 32 | me->task << 24 | (me->op ? me->op->id : 0));
    trace(me->steps);
    cx = nullptr;
    fwake(&main_baton);
    fwait(&me->baton);
    cx = me;
    if (quitting)
        throw RunOver();
    me->state = T_RUN;
    errno = e;
}
void yield_now(i64 hold)
{
    if (cx && sched_preempt && cx->sigdepth == 0) {
        fired(F_PREEMPT);
        note_nontrivial();
        suspend(hold);
    }
}
static void set_next_event(Ctx *c)
{
    u64 e = STEP_CAP;
    if (c->op) {
        if (sched_preempt && c->next_p < c->op->p.size())
            e = std::min(e, (u64) std::max<i64>(c->op->p[c->next_p].at, 1));
        if (c->next_f < c->sigs.size())
            e = std::min(e, (u64) std::max<i64>(c->sigs[c->next_f].n, 1));
    }
    if (c->hot_after)
        e = std::min(e, c->steps + 1);
    c->next_event = e;
}
static void slow_point()
{
    Ctx *c = cx;
    if (c->steps >= STEP_CAP)
        fail("hang", "no-progress", "operation still running after %llu steps",
             (unsigned long long) c->steps);
    while (c->op && c->next_f < c->sigs.size() &&
           (u64) std::max<i64>(c->sigs[c->next_f].n, 1) <= c->steps) {
        size_t k = c->next_f++;
        if (signal_handler && c->sigdepth < 3) {
            int e = errno;
            fired(c->sigdepth ? F_SIGNAL_NESTED : F_SIGNAL);
            note_nontrivial();
            (void) k;
            c->sigdepth++;
            signal_depth = c->sigdepth;
            set_next_event(c);
            signal_handler();
            c->sigdepth--;
            signal_depth = c->sigdepth;
            errno = e;
        }
    }
    if (c->hot_after) {
        c->hot_after = false;
        if (sched_preempt && hot_budget > 0) {
            hot_budget--;
            fired(F_HOT_PREEMPT);
            note_nontrivial();
            suspend(hot_hold);
        }
    }
    while (c->op && sched_preempt && c->next_p < c->op->p.size() &&
           (u64) std::max<i64>(c->op->p[c->next_p].at, 1) <= c->steps) {
        i64 hold = c->op->p[c->next_p++].hold;
        if (c->sigdepth == 0) {
            fired(F_PREEMPT);
            note_nontrivial();
            suspend(hold);
        }
    }
    set_next_event(c);
}
static inline void point()
{
    Ctx *c = cx;
    if (!c)
        return;
    c->steps++;
    st->steps++;
    if (c->steps >= c->next_event)
        slow_point();
}
static void hot_write(bool only_read = false)
{
    Ctx *c = cx;
    nstatic_writes += !only_read;
    if (!c || !hot_mode || hot_budget <= 0)
        return;
    if (hot_every > 1 && ++hot_seen % hot_every)
        return;
    if (signal_handler) {
        if (c->sigdepth < 3 && hot_budget > 0) {
            hot_budget--;
            int e = errno;
            fired(c->sigdepth ? F_SIGNAL_NESTED : F_SIGNAL);
            note_nontrivial();
            c->sigdepth++;
            signal_depth = c->sigdepth;
            signal_handler();
            c->sigdepth--;
            signal_depth = c->sigdepth;
            errno = e;
        }
        return;
    }
    if (!sched_preempt)
        return;
    if (hot_mode & (only_read ? 4 : 1)) {
        hot_budget--;
        fired(F_HOT_PREEMPT);
        note_nontrivial();
        suspend(hot_hold);
    }
    if (!only_read && hot_mode & 2) {
        c->hot_after = true;
        set_next_event(c);
    }
}
static inline void acc(void *p, size_t n, bool w, void *pc)
{
    if (!cx)
        return;
    point();
    u64 a = (u64) p;
    if (cx->refused && w && (in_arena(a) || in_statics(a)))
        fail("model", "goes-on-without-memory", "after an allocation was refused "
             "the call goes on to write %zu bytes, pc 0x%llx", n,
             (unsigned long long) (u64) pc);
    if (in_arena(a)) {
        bool shared = false;
        check_range(a, n, w, (u64) pc, &shared);
        if (shared)
            hot_write();
        if (shared) // state may have changed while we were suspended
            check_range(a, n, w, (u64) pc, &shared);
    } else {
        check_foreign(a, n, w, (u64) pc);
        if (in_statics(a)) {
            if (w) {
                if (hot_mode & 4)
                    written_statics.insert(a >> 3);
                hot_write();
            } else if (hot_mode & 4 && written_statics.count(a >> 3))
                hot_write(true); // between a write and the use of it
        }
    }
}
void callback_point() { st->callbacks++; }

extern "C" {
#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                  \
    void __tsan_read##n(void *p) { acc(p, n, false, RA); }                     \
    void __tsan_write##n(void *p) { acc(p, n, true, RA); }                     \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, false, RA); }           \
    void __tsan_unaligned_write##n(void *p) { acc(p, n, true, RA); }           \
    void __tsan_volatile_read##n(void *p) { acc(p, n, false, RA); }            \
    void __tsan_volatile_write##n(void *p) { acc(p, n, true, RA); }            \
    void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false, RA); }  \
    void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) acc(p, n, false, RA); }
void __tsan_write_range(void *p, size_t n) { if (n) acc(p, n, true, RA); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define AT(bits, T)                                                            \
    T __tsan_atomic##bits##_load(const volatile T *a, int)                     \
    {                                                                          \
        acc((void *) a, sizeof *a, false, RA);                                 \
        return *a;                                                             \
    }                                                                          \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int)                  \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        *a = v;                                                                \
    }                                                                          \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int)                  \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        T o = *a;                                                              \
        *a = v;                                                                \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int)                 \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        T o = *a;                                                              \
        *a = o + v;                                                            \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int)                 \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        T o = *a;                                                              \
        *a = o - v;                                                            \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int)                 \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        T o = *a;                                                              \
        *a = o & v;                                                            \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int)                  \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        T o = *a;                                                              \
        *a = o | v;                                                            \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int)                 \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        T o = *a;                                                              \
        *a = o ^ v;                                                            \
        return o;                                                              \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c,     \
                                                      T v, int, int)           \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        if (*a == *c) {                                                        \
            *a = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        *c = *a;                                                               \
        return 0;                                                              \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v,  \
                                                    int, int)                  \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        if (*a == *c) {                                                        \
            *a = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        *c = *a;                                                               \
        return 0;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, \
                                                 int)                          \
    {                                                                          \
        acc((void *) a, sizeof *a, true, RA);                                  \
        T o = *a;                                                              \
        if (o == c)                                                            \
            *a = v;                                                            \
        return o;                                                              \
    }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// the build with red zones
#define LS(n)                                                                  \
    void __asan_load##n(void *p) { acc(p, n, false, RA); }                     \
    void __asan_store##n(void *p) { acc(p, n, true, RA); }                     \
    void __asan_load##n##_noabort(void *p) { acc(p, n, false, RA); }           \
    void __asan_store##n##_noabort(void *p) { acc(p, n, true, RA); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __asan_loadN(void *p, size_t n) { if (n) acc(p, n, false, RA); }
void __asan_storeN(void *p, size_t n) { if (n) acc(p, n, true, RA); }
void __asan_loadN_noabort(void *p, size_t n) { if (n) acc(p, n, false, RA); }
void __asan_storeN_noabort(void *p, size_t n) { if (n) acc(p, n, true, RA); }
void __asan_handle_no_return(void) {}
void __asan_poison_stack_memory(u64 a, size_t n) { rz_set(a, n, 0xf8); }
void __asan_unpoison_stack_memory(u64 a, size_t n) { rz_set(a, n, 0); }
void __asan_alloca_poison(u64 a, size_t n)
{
    u64 e = a + n, r = (e + 31) & ~31ULL;
    *(u32 *) rz(a - 32) = 0xcacacaca;
    rz_set(a, n, 0);
    if (n & 7)
        *rz(e) = n & 7;
    for (u64 x = (e + 7) & ~7ULL; x < r + 32; x += 8)
        *rz(x) = 0xcb;
}
void __asan_allocas_unpoison(u64 top, u64 bottom)
{
    if (top && top < bottom)
        memset(rz(top), 0, (bottom - top) >> 3);
}
struct RzGlobal {
    u64 beg, size, size_with_redzone;
    const char *name, *module;
    u64 has_dynamic_init;
    void *location;
    u64 odr;
};
static void map_redzones();
void __asan_register_globals(RzGlobal *g, size_t n)
{
    map_redzones();
    for (size_t i = 0; i < n; i++) {
        u64 e = g[i].beg + g[i].size, r = g[i].beg + g[i].size_with_redzone;
        for (u64 x = (e + 7) & ~7ULL; x < r; x += 8)
            *rz(x) = 0xf9;
        if (e & 7)
            *rz(e) = e & 7;
    }
}
void __asan_unregister_globals(RzGlobal *, size_t) {}
void __asan_init(void) {}
void __asan_version_mismatch_check_v8(void) {}

void __sanitizer_cov_trace_pc(void)
{
    if (!cx)
        return;
    size_t off = (u8 *) RA - text_lo;
    if (!cov[off])
        cov[off] = 1;
    point();
}

// ------------------------------------------------- libc seen by library ---
static void rd(const void *p, size_t n, void *pc)
{
    if (n)
        acc((void *) p, n, false, pc);
}
static void wr(void *p, size_t n, void *pc)
{
    if (n)
        acc(p, n, true, pc);
}
static size_t cstr(const char *s, size_t max, void *pc)
{
    size_t i = 0;
    point();
    for (; i < max; i++) {
        u64 a = (u64) (s + i);
        byte_read(a, (u64) pc);
        if (!s[i])
            return i;
    }
    return i;
}
size_t simlib_strlen(const char *s) { return cstr(s, SIZE_MAX, RA); }
size_t simlib_strnlen(const char *s, size_t n) { return cstr(s, n, RA); }
static void *move_bytes(void *d, const void *s, size_t n, bool overlap_ok,
                        void *pc)
{
    rd(s, n, pc);
    wr(d, n, pc);
    u64 a = (u64) d, b = (u64) s;
    if (!overlap_ok && n && a != b && a < b + n && b < a + n)
        fail("mem", "overlapping-memcpy",
             "memcpy of %zu bytes between overlapping areas, pc 0x%llx", n,
             (unsigned long long) (u64) pc);
    if (n > 1 && sched_preempt && cx && !overlap_ok) {
        // a copy is not atomic: let a preemption fall in the middle of it
        size_t h = n / 2;
        memmove(d, s, h);
        point();
        memmove((char *) d + h, (const char *) s + h, n - h);
    } else
        memmove(d, s, n);
    return d;
}
void *simlib_memcpy(void *d, const void *s, size_t n)
{
    return move_bytes(d, s, n, false, RA);
}
void *simlib_mempcpy(void *d, const void *s, size_t n)
{
    return (char *) move_bytes(d, s, n, false, RA) + n;
}
void *simlib_memmove(void *d, const void *s, size_t n)
{
    return move_bytes(d, s, n, true, RA);
}
void *simlib_memset(void *d, int c, size_t n)
{
    wr(d, n, RA);
    return memset(d, c, n);
}
int simlib_memcmp(const void *a, const void *b, size_t n)
{
    rd(a, n, RA);
    rd(b, n, RA);
    return memcmp(a, b, n);
}
void *simlib_memchr(const void *a, int c, size_t n)
{
    // like memchr(3) since C11: reads sequentially, stops at the match
    const u8 *p = (const u8 *) a;
    point();
    for (size_t i = 0; i < n; i++) {
        u64 x = (u64) (p + i);
        byte_read(x, (u64) RA);
        if (p[i] == (u8) c)
            return (void *) (p + i);
    }
    return nullptr;
}
static size_t cstr2(const char *a, const char *b, size_t n, void *pc)
{
    // strncmp may stop at the first difference
    point();
    for (size_t i = 0; i < n; i++) {
        for (const char *s : {a, b}) {
            u64 x = (u64) (s + i);
            byte_read(x, (u64) pc);
        }
        if (a[i] != b[i] || !a[i])
            return i;
    }
    return n;
}
int simlib_strcmp(const char *a, const char *b)
{
    cstr2(a, b, SIZE_MAX, RA);
    return strcmp(a, b);
}
int simlib_strncmp(const char *a, const char *b, size_t n)
{
    cstr2(a, b, n, RA);
    return strncmp(a, b, n);
}
int strcasecmp(const char *, const char *);
int strncasecmp(const char *, const char *, size_t);
static int casecmp(const char *a, const char *b, size_t n, void *pc)
{
    point();
    for (size_t i = 0; i < n; i++) {
        for (const char *s : {a, b}) {
            u64 x = (u64) (s + i);
            byte_read(x, (u64) pc);
        }
        int d = tolower((u8) a[i]) - tolower((u8) b[i]);
        if (d || !a[i])
            return d;
    }
    return 0;
}
int simlib_strcasecmp(const char *a, const char *b)
{
    return casecmp(a, b, SIZE_MAX, RA);
}
int simlib_strncasecmp(const char *a, const char *b, size_t n)
{
    return casecmp(a, b, n, RA);
}
char *simlib_strchr(const char *s, int c)
{
    point();
    for (;; s++) {
        u64 x = (u64) s;
        byte_read(x, (u64) RA);
        if (*s == (char) c)
            return (char *) s;
        if (!*s)
            return nullptr;
    }
}
static size_t span(const char *s, const char *set, bool in, void *pc)
{
    point();
    for (size_t i = 0;; i++) {
        u64 x = (u64) (s + i);
        byte_read(x, (u64) pc);
        if (!s[i] || (strchr(set, s[i]) != nullptr) != in)
            return i;
    }
}
char *simlib_strchrnul(const char *s, int c)
{
    char set[2] = {(char) c, 0};
    return (char *) s + span(s, set, false, RA);
}
char *simlib_strrchr(const char *s, int c)
{
    cstr(s, SIZE_MAX, RA);
    return (char *) strrchr(s, c);
}
char *simlib_strstr(const char *a, const char *b)
{
    cstr(a, SIZE_MAX, RA);
    cstr(b, SIZE_MAX, RA);
    return (char *) strstr(a, b);
}
char *simlib_strpbrk(const char *a, const char *b)
{
    cstr(b, SIZE_MAX, RA);
    size_t n = span(a, b, false, RA);
    return a[n] ? (char *) a + n : nullptr;
}
size_t simlib_strspn(const char *a, const char *b)
{
    cstr(b, SIZE_MAX, RA);
    return span(a, b, true, RA);
}
size_t simlib_strcspn(const char *a, const char *b)
{
    cstr(b, SIZE_MAX, RA);
    return span(a, b, false, RA);
}
char *simlib_strcpy(char *d, const char *s)
{
    size_t n = cstr(s, SIZE_MAX, RA);
    wr(d, n + 1, RA);
    return strcpy(d, s);
}
char *simlib_stpcpy(char *d, const char *s)
{
    size_t n = cstr(s, SIZE_MAX, RA);
    wr(d, n + 1, RA);
    return stpcpy(d, s);
}
char *simlib_strncpy(char *d, const char *s, size_t n)
{
    cstr(s, n, RA);
    wr(d, n, RA);
    return strncpy(d, s, n);
}
char *simlib_strcat(char *d, const char *s)
{
    size_t m = cstr(d, SIZE_MAX, RA), n = cstr(s, SIZE_MAX, RA);
    wr(d + m, n + 1, RA);
    return strcat(d, s);
}
char *simlib_strncat(char *d, const char *s, size_t n)
{
    size_t m = cstr(d, SIZE_MAX, RA), k = cstr(s, n, RA);
    wr(d + m, k + 1, RA);
    memmove(d + m, s, k);
    d[m + k] = 0;
    return d;
}
char *simlib_stpncpy(char *d, const char *s, size_t n)
{
    cstr(s, n, RA);
    wr(d, n, RA);
    return stpncpy(d, s, n);
}
void *simlib_memrchr(const void *a, int c, size_t n)
{
    rd(a, n, RA);
    return (void *) memrchr(a, c, n);
}
void *simlib_rawmemchr(const void *a, int c)
{
    const u8 *p = (const u8 *) a;
    point();
    for (;; p++) {
        u64 x = (u64) p;
        byte_read(x, (u64) RA);
        if (*p == (u8) c)
            return (void *) p;
    }
}
void *simlib_memccpy(void *d, const void *s, int c, size_t n)
{
    const u8 *e = (const u8 *) simlib_memchr(s, c, n);
    size_t k = e ? (size_t) (e - (const u8 *) s) + 1 : n;
    move_bytes(d, s, k, false, RA);
    return e ? (u8 *) d + k : nullptr;
}
int simlib_bcmp(const void *a, const void *b, size_t n)
{
    rd(a, n, RA);
    rd(b, n, RA);
    return memcmp(a, b, n);
}
void simlib_bcopy(const void *s, void *d, size_t n) { move_bytes(d, s, n, true, RA); }
void simlib_bzero(void *d, size_t n)
{
    wr(d, n, RA);
    memset(d, 0, n);
}
void simlib_explicit_bzero(void *d, size_t n)
{
    wr(d, n, RA);
    memset(d, 0, n);
}
char *simlib_strtok_r(char *s, const char *set, char **save)
{
    if (!s)
        s = *save;
    s += span(s, set, true, RA);
    if (!*s) {
        *save = s;
        return nullptr;
    }
    char *e = s + span(s, set, false, RA);
    if (*e) {
        wr(e, 1, RA);
        *e++ = 0;
    }
    *save = e;
    return s;
}
char *simlib_strsep(char **sp, const char *set)
{
    char *s = *sp;
    if (!s)
        return nullptr;
    char *e = s + span(s, set, false, RA);
    if (*e) {
        wr(e, 1, RA);
        *e++ = 0;
        *sp = e;
    } else
        *sp = nullptr;
    return s;
}
char *strtok(char *, const char *);
static void unsafe(const char *who)
{
    if (cx && cx->noalloc)
        fail("model", "calls-unsafe-function",
             "%s is not async-signal-safe", who);
}
char *simlib_strtok(char *s, const char *d)
{
    unsafe("strtok");
    point();
    return strtok(s, d);
}
static bool fmt_fault()
{
    if (!cx || !cx->op)
        return false;
    for (auto &f : cx->op->f)
        if (f.kind == F_FMT_ERROR) {
            fired(F_FMT_ERROR);
            return true;
        }
    return false;
}
int simlib_vsnprintf(char *d, size_t n, const char *fmt, va_list ap)
{
    unsafe("vsnprintf");
    cstr(fmt, SIZE_MAX, RA);
    if (fmt_fault()) {
        errno = EOVERFLOW;
        return -1;
    }
    va_list c;
    va_copy(c, ap);
    int r = vsnprintf(nullptr, 0, fmt, c);
    va_end(c);
    if (r < 0)
        return r;
    if (n) {
        wr(d, std::min((size_t) r + 1, n), RA);
        return vsnprintf(d, n, fmt, ap);
    }
    return r;
}
int simlib_snprintf(char *d, size_t n, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = simlib_vsnprintf(d, n, fmt, ap);
    va_end(ap);
    return r;
}
int simlib_vsprintf(char *d, const char *fmt, va_list ap)
{
    unsafe("vsprintf");
    cstr(fmt, SIZE_MAX, RA);
    va_list c;
    va_copy(c, ap);
    int r = vsnprintf(nullptr, 0, fmt, c);
    va_end(c);
    if (r < 0)
        return r;
    wr(d, (size_t) r + 1, RA);
    return vsprintf(d, fmt, ap);
}
int simlib_sprintf(char *d, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = simlib_vsprintf(d, fmt, ap);
    va_end(ap);
    return r;
}
static void bypass(const char *who)
{
    if (hc.mode == 0)
        fail("mem", "allocator-bypass",
             "%s called although the application installed its own allocator",
             who);
}
void *simlib_malloc(size_t n)
{
    unsafe("malloc");
    bypass("malloc");
    point();
    return sim_alloc_core(nullptr, n, "malloc");
}
void *simlib_calloc(size_t k, size_t n)
{
    unsafe("calloc");
    bypass("calloc");
    point();
    size_t t;
    if (__builtin_mul_overflow(k, n, &t)) {
        run_oom++;
        if (cx) {
            cx->op_oom++;
            cx->refused = true;
        }
        return nullptr;
    }
    void *p = sim_alloc_core(nullptr, t, "calloc");
    if (p)
        memset(p, 0, t);
    return p;
}
void *simlib_realloc(void *p, size_t n)
{
    unsafe("realloc");
    bypass("realloc");
    point();
    return sim_alloc_core(p, n, "realloc");
}
void *simlib_reallocarray(void *p, size_t k, size_t n)
{
    unsafe("realloc");
    bypass("realloc");
    point();
    size_t t;
    if (__builtin_mul_overflow(k, n, &t)) {
        run_oom++;
        if (cx) {
            cx->op_oom++;
            cx->refused = true;
        }
        return nullptr;
    }
    return sim_alloc_core(p, t, "realloc");
}
void simlib_free(void *p)
{
    unsafe("free");
    if (!p)
        return;
    bypass("free");
    point();
    sim_alloc_core(p, 0, "free");
}
char *simlib_strdup(const char *s)
{
    unsafe("strdup");
    bypass("strdup");
    size_t n = cstr(s, SIZE_MAX, RA);
    char *p = (char *) sim_alloc_core(nullptr, n + 1, "strdup");
    if (p)
        memcpy(p, s, n + 1);
    return p;
}
char *simlib_strndup(const char *s, size_t max)
{
    unsafe("strndup");
    bypass("strndup");
    size_t n = cstr(s, max, RA);
    char *p = (char *) sim_alloc_core(nullptr, n + 1, "strndup");
    if (p) {
        memcpy(p, s, n);
        p[n] = 0;
    }
    return p;
}
int simlib_vasprintf(char **out, const char *fmt, va_list ap)
{
    unsafe("vasprintf");
    bypass("vasprintf");
    va_list c;
    va_copy(c, ap);
    int r = simlib_vsnprintf(nullptr, 0, fmt, c);
    va_end(c);
    if (r < 0)
        return r;
    *out = (char *) sim_alloc_core(nullptr, r + 1, "vasprintf");
    return *out ? vsnprintf(*out, r + 1, fmt, ap) : -1;
}
int simlib_asprintf(char **out, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = simlib_vasprintf(out, fmt, ap);
    va_end(ap);
    return r;
}
int simlib_posix_memalign(void **out, size_t, size_t n)
{
    unsafe("posix_memalign");
    bypass("posix_memalign");
    *out = sim_alloc_core(nullptr, n, "posix_memalign");
    return *out ? 0 : ENOMEM;
}
void *simlib_aligned_alloc(size_t, size_t n)
{
    unsafe("aligned_alloc");
    bypass("aligned_alloc");
    return sim_alloc_core(nullptr, n, "aligned_alloc");
}
// output of the library (diagnostics at most) goes nowhere
int simlib_vfprintf(FILE *, const char *fmt, va_list ap)
{
    unsafe("fprintf");
    point();
    return vsnprintf(nullptr, 0, fmt, ap);
}
int simlib_fprintf(FILE *f, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = simlib_vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int simlib_printf(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int r = simlib_vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}
int simlib_puts(const char *) { unsafe("puts"); point(); return 1; }
int simlib_fputs(const char *, FILE *) { unsafe("fputs"); point(); return 1; }
int simlib_fputc(int c, FILE *) { unsafe("fputc"); point(); return (u8) c; }
size_t simlib_fwrite(const void *p, size_t n, size_t k, FILE *)
{
    unsafe("fwrite");
    rd(p, n * k, RA);
    return k;
}
size_t simlib_strftime(char *d, size_t n, const char *fmt, const struct tm *m)
{
    unsafe("strftime");
    wr(d, n, RA);
    return strftime(d, n, fmt, m);
}
char *simlib_asctime(const struct tm *m) { unsafe("asctime"); point(); return asctime(m); }
char *simlib_ctime(const time_t *t) { unsafe("ctime"); point(); return ctime(t); }
void simlib_tzset(void) { unsafe("tzset"); point(); }
char *simlib_getenv(const char *) { unsafe("getenv"); point(); return nullptr; }
char *simlib_strerror(int e) { unsafe("strerror"); point(); return strerror(e); }
// the same numbers in every run
int simlib_rand(void)
{
    unsafe("rand");
    point();
    lib_rand_state = lib_rand_state * 1103515245 + 12345;
    return lib_rand_state >> 1;
}
long simlib_random(void) { return simlib_rand(); }
void simlib_qsort(void *b, size_t n, size_t k,
                  int (*cmp)(const void *, const void *))
{
    unsafe("qsort");
    rd(b, n * k, RA);
    wr(b, n * k, RA);
    qsort(b, n, k, cmp);
}
void simlib__exit(int code)
{
    fail("abort", "exit", "the library ends the process with status %d", code);
}
void simlib_abort(void)
{
    if (expect_abort || (cx && cx->refused)) {
        st->failstop++;
        end_run_ok();
    }
    fail("abort", "abort", "the process would abort here");
}
void simlib_assert_fail(const char *expr, const char *file, unsigned line,
                        const char *func)
{
    if (expect_abort || (cx && cx->refused)) {
        st->failstop++;
        end_run_ok();
    }
    fail("abort", "assertion", "assertion failed: %s in %s", expr, func);
}
void simlib_exit(int code)
{
    fail("abort", "exit", "the library ends the process with status %d", code);
}
void simlib_stack_chk_fail(void)
{
    fail("mem", "stack-overflow", "stack buffer overrun detected");
}
struct tm *simlib_gmtime(const time_t *t) { unsafe("gmtime"); point(); return gmtime(t); }
struct tm *simlib_localtime(const time_t *t) { unsafe("localtime"); point(); return localtime(t); }
struct tm *simlib_gmtime_r(const time_t *t, struct tm *m)
{
    unsafe("gmtime_r");
    wr(m, sizeof *m, RA);
    return gmtime_r(t, m);
}
struct tm *simlib_localtime_r(const time_t *t, struct tm *m)
{
    unsafe("localtime_r");
    wr(m, sizeof *m, RA);
    return localtime_r(t, m);
}
time_t simlib_timegm(struct tm *m) { unsafe("timegm"); return timegm(m); }
time_t simlib_mktime(struct tm *m) { unsafe("mktime"); return mktime(m); }

// locks the library might use: simulated, so that waiting is a scheduling
// decision
struct SimMutex { int owner = -1; int depth = 0; };
static std::map<u64, SimMutex> *mutexes;
static SimMutex &mx(void *m)
{
    if (!mutexes)
        mutexes = new std::map<u64, SimMutex>;
    return (*mutexes)[(u64) m];
}
int simlib_mutex_lock(void *m)
{
    unsafe("pthread_mutex_lock");
    if (!cx)
        return 0;
    point();
    for (int i = 0; mx(m).owner >= 0; i++) {
        if (mx(m).owner == cx->task)
            fail("hang", "self-deadlock", "lock already held by this thread");
        if (!sched_preempt || i > 10000)
            fail("hang", "deadlock", "lock never released");
        suspend(0);
    }
    mx(m).owner = cx->task;
    return 0;
}
int simlib_mutex_trylock(void *m)
{
    if (!cx)
        return 0;
    point();
    if (mx(m).owner >= 0)
        return EBUSY;
    mx(m).owner = cx->task;
    return 0;
}
int simlib_mutex_unlock(void *m)
{
    if (!cx)
        return 0;
    mx(m).owner = -1;
    point();
    return 0;
}
int simlib_once(int *once, void (*f)(void))
{
    unsafe("pthread_once");
    for (int i = 0; *once == 1; i++) {
        if (!sched_preempt || i > 10000)
            fail("hang", "deadlock", "initialisation never completes");
        suspend(0);
    }
    if (*once == 2)
        return 0;
    *once = 1;
    f();
    *once = 2;
    return 0;
}
} // extern "C"

// --------------------------------------------------------- run a plan -----
static void begin_op(Ctx *c, const Op *op)
{
    c->op = op;
    c->steps = 0;
    c->next_p = c->next_f = 0;
    c->sigs.clear();
    c->oom.clear();
    c->op_allocs = c->op_oom = 0;
    c->refused = false;
    c->hot_after = false;
    c->sigdepth = 0;
    c->noalloc = false;
    if (op)
        for (auto &f : op->f) {
            if (f.kind == F_SIGNAL)
                c->sigs.push_back(f);
            else if (f.kind == F_OOM)
                c->oom.push_back(OomSpec{f.n, f.param > 0 ? f.param : 1});
        }
    set_next_event(c);
}
static std::function<void()> *job; // non-op work on task 0

static void *task_main(void *v)
{
    Ctx *me = (Ctx *) v;
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_size = 64 * 1024;
    ss.ss_sp = (void *) (stack_base(me->task) + 2 * 1024 * 1024);
    sigaltstack(&ss, nullptr);
    errno = 0;
    for (;;) {
        fwait(&me->baton);
        if (quitting)
            return nullptr;
        cx = me;
        me->state = T_RUN;
        try {
            if (me->op) {
                st->ops++;
                trace(0x0b0b0000ULL + me->op->id);
                world->exec(*me->op);
                trace(me->steps);
            } else if (job)
                (*job)();
            me->state = T_DONE;
        } catch (RunOver &) {
            me->state = T_OVER;
            if (sim_redzones) // frames were left without their epilogues
                memset(rz(stack_base(me->task)), 0, STACK / 8);
        }
        if (me->op) {
            st->preempt_planned += me->op->p.size();
            st->preempt_unreached += me->op->p.size() - me->next_p;
        }
        cx = nullptr;
        fwake(&main_baton);
    }
}
static void switch_to(Ctx *c)
{
    fwake(&c->baton);
    fwait(&main_baton);
    if (c->state == T_DONE)
        completions++;
}
static void start_threads(int n)
{
    for (int t = 0; t < n; t++) {
        Ctx &c = tasks[t];
        c = Ctx();
        c.task = t;
        memset((void *) (stack_base(t) + STACK - 96 * 1024), 0x5a, 96 * 1024);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void *) stack_base(t), STACK);
        if (pthread_create(&c.th, &at, task_main, &c)) {
            perror("pthread_create");
            _exit(70);
        }
        c.started = true;
        pthread_attr_destroy(&at);
    }
}
static void stop_threads(int n)
{
    quitting = true;
    for (int t = 0; t < n; t++) {
        Ctx &c = tasks[t];
        // a suspended task unwinds first (it wakes main), then quits
        if (c.state == T_SUSP) {
            fwake(&c.baton);
            fwait(&main_baton);
        }
        fwake(&c.baton);
        pthread_join(c.th, nullptr);
        c.started = false;
    }
    quitting = false;
}
static void run_job(std::function<void()> f)
{
    job = &f;
    begin_op(&tasks[0], nullptr);
    switch_to(&tasks[0]);
    job = nullptr;
}
// Resume a suspended task; true when its operation has ended.
static bool resume(Ctx *c)
{
    switch_to(c);
    return c->state != T_SUSP;
}
static void schedule(Plan &plan)
{
    auto over = [] { return run_over; };
    int n = MAXTASK;
    for (auto &op : plan.ops) {
        if (over())
            return;
        for (int t = 0; t < n; t++)
            if (tasks[t].state == T_SUSP &&
                tasks[t].resume_at <= (i64) completions) {
                resume(&tasks[t]);
                if (over())
                    return;
            }
        int tk = op.task;
        if (tk < 1 || tk >= MAXTASK || !tasks[tk].started)
            continue;
        int guard = 0;
        for (;;) {
            int lock = world->lock_of(op);
            Ctx *blk = nullptr;
            for (int t = 0; t < n; t++)
                if (tasks[t].state == T_SUSP &&
                    (t == tk || (lock >= 0 && tasks[t].lock == lock)))
                    blk = &tasks[t];
            if (!blk) {
                tasks[tk].lock = lock;
                break;
            }
            u64 before = blk->steps;
            resume(blk);
            if (over())
                return;
            if (blk->state == T_SUSP && blk->steps <= before + 1)
                for (int t = 0; t < n; t++) // it waits for someone: run them
                    if (&tasks[t] != blk && tasks[t].state == T_SUSP) {
                        resume(&tasks[t]);
                        if (over())
                            return;
                    }
            if (++guard > 100000)
                fail("hang", "deadlock", "threads wait for each other");
        }
        begin_op(&tasks[tk], &op);
        switch_to(&tasks[tk]);
    }
    for (int guard = 0;; guard++) {
        bool any = false;
        for (int t = 0; t < n; t++)
            if (tasks[t].state == T_SUSP) {
                any = true;
                resume(&tasks[t]);
                if (over())
                    return;
            }
        if (!any)
            break;
        if (guard > 100000)
            fail("hang", "deadlock", "threads wait for each other");
    }
}
static void heap_from_plan(const Plan &p)
{
    HeapCfg h;
    h.reuse = p.get("reuse");
    h.move = p.get("move");
    h.slack = p.get("slack");
    h.fill = p.get("fill", -1);
    h.zero_null = p.get("zero_null");
    h.mode = p.get("default_alloc");
    heap_reset(h, p.seed);
}
static void run_plan(Plan &plan)
{
    g_prop = plan.prop;
    cur_plan = &plan;
    trace_hash = 0x1234;
    nontrivial = false;
    run_over = 0;
    int ntask = plan.get("tasks", 2) + 1;
    if (ntask > MAXTASK)
        ntask = MAXTASK;
    int phases = world_phases(plan);
    for (int ph = 0; ph < phases && !run_over; ph++) {
        restore_statics();
        heap_from_plan(plan);
        if (mutexes)
            mutexes->clear();
        completions = 0;
        nstatic_writes = 0;
        run_allocs = run_oom = 0;
        oom_forever = false;
        expect_abort = false;
        signal_handler = nullptr;
        signal_depth = 0;
        big_plan = plan.get("huge") || plan.get("long");
        STEP_CAP = (plan.get("huge") ? 3000 : plan.get("long") ? 400 : 30) * 1000 *
            (sim_literal ? 2000ULL : 1000ULL); // unoptimised code accesses more
        hot_mode = plan.get("hot");
        written_statics.clear();
        hot_budget = plan.get("hot_budget", 6);
        hot_hold = plan.get("hot_hold", 2);
        hot_every = plan.get("hot_every", 1);
        hot_seen = 0;
        sched_preempt = false;
        start_threads(ntask);
        world = make_world(plan, ph);
        run_job([] { world->setup(); });
        if (!run_over) {
            if (phases == 2 && ph == 0) {
                // reference: every client alone
                for (int t = 1; t < ntask && !run_over; t++) {
                    run_job([t] { world->before_solo(t); });
                    for (auto &op : plan.ops)
                        if (op.task == t && !run_over) {
                            begin_op(&tasks[t], &op);
                            switch_to(&tasks[t]);
                        }
                }
            } else {
                sched_preempt = true;
                schedule(plan);
                sched_preempt = false;
            }
        }
        if (!run_over)
            run_job([] { world->finish(); });
        stop_threads(ntask);
        delete world;
        world = nullptr;
    }
    st->runs++;
    trace(run_over);
    sh->trace_out = trace_hash;
    sh->state_out = nontrivial;
    cur_plan = nullptr;
}

// ------------------------------------------------------------- plan I/O ---
std::string hex(const std::string &s)
{
    std::string r;
    char t[3];
    for (unsigned char c : s) {
        snprintf(t, sizeof t, "%02x", c);
        r += t;
    }
    return r.empty() ? "-" : r;
}
static std::string unhex(const std::string &s)
{
    std::string r;
    if (s == "-")
        return r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char) strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
std::string printable(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        char t[5];
        if (c >= 32 && c < 127 && c != '\\')
            r += c;
        else {
            snprintf(t, sizeof t, "\\x%02x", c);
            r += t;
        }
        if (r.size() > 160) {
            r += "...";
            break;
        }
    }
    return r;
}
static void write_plan(FILE *f, const Plan &p)
{
    fprintf(f, "fsdyn-sim-plan 1\nprop %s\nscen %s\nseed %llu\n", p.prop.c_str(),
            p.scen.c_str(), (unsigned long long) p.seed);
    for (auto &k : p.cfg)
        fprintf(f, "cfg %s %lld\n", k.first.c_str(), (long long) k.second);
    for (auto &o : p.ops) {
        fprintf(f, "op %d %d %d a %zu", o.id, o.task, o.code, o.a.size());
        for (i64 v : o.a)
            fprintf(f, " %lld", (long long) v);
        fprintf(f, " b %s f %zu", hex(o.blob).c_str(), o.f.size());
        for (auto &x : o.f)
            fprintf(f, " %d %lld %lld", x.kind, (long long) x.n,
                    (long long) x.param);
        fprintf(f, " p %zu", o.p.size());
        for (auto &x : o.p)
            fprintf(f, " %lld %lld", (long long) x.at, (long long) x.hold);
        fprintf(f, "\n");
    }
    fprintf(f, "end\n");
}
static bool read_plan(const char *path, Plan &p)
{
    FILE *f = fopen(path, "r");
    if (!f)
        return false;
    char *line = nullptr;
    size_t cap = 0;
    bool ended = false;
    while (getline(&line, &cap, f) > 0) {
        std::vector<std::string> w;
        for (char *q = strtok(line, " \n"); q; q = strtok(nullptr, " \n"))
            w.push_back(q);
        if (w.empty() || w[0][0] == '#')
            continue;
        if (w[0] == "prop")
            p.prop = w[1];
        else if (w[0] == "scen")
            p.scen = w[1];
        else if (w[0] == "seed")
            p.seed = strtoull(w[1].c_str(), nullptr, 10);
        else if (w[0] == "cfg")
            p.cfg[w[1]] = atoll(w[2].c_str());
        else if (w[0] == "end")
            ended = true;
        else if (w[0] == "op") {
            Op o;
            size_t i = 1;
            o.id = atoi(w[i++].c_str());
            o.task = atoi(w[i++].c_str());
            o.code = atoi(w[i++].c_str());
            i++;
            size_t n = atoi(w[i++].c_str());
            while (n--)
                o.a.push_back(atoll(w[i++].c_str()));
            i++;
            o.blob = unhex(w[i++]);
            i++;
            n = atoi(w[i++].c_str());
            while (n--) {
                Fault x;
                x.kind = atoi(w[i++].c_str());
                x.n = atoll(w[i++].c_str());
                x.param = atoll(w[i++].c_str());
                o.f.push_back(x);
            }
            i++;
            n = atoi(w[i++].c_str());
            while (n--) {
                Preempt x;
                x.at = atoll(w[i++].c_str());
                x.hold = atoll(w[i++].c_str());
                o.p.push_back(x);
            }
            p.ops.push_back(o);
        }
    }
    free(line);
    fclose(f);
    return ended;
}

// ------------------------------------------------------------------ CLI ---
static u64 run_seed(u64 base, const std::string &prop, u64 idx)
{
    Rng r(base ^ hash_bytes(prop.data(), prop.size()));
    u64 a = r.next();
    Rng q(a + idx * 0x9e3779b97f4a7c15ULL);
    return q.next() >> 1;
}
static void make_plan(Plan &p, const std::string &prop, u64 base, u64 idx)
{
    p.prop = prop;
    p.seed = run_seed(base, prop, idx);
    Rng rng(p.seed);
    gen_plan(p, rng);
    if (sim_redzones)
        p.cfg["redzones"] = 1;
    if (sim_literal)
        p.cfg["literal"] = 1;
}
static std::string jstr(const char *s)
{
    std::string r = "\"";
    for (; *s; s++) {
        unsigned char c = *s;
        char t[8];
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 32 || c > 126) {
            snprintf(t, sizeof t, "\\u%04x", c);
            r += t;
        } else
            r += c;
    }
    return r + "\"";
}
static void *fixed(u64 a, size_t n)
{
    void *p = mmap((void *) a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE |
                   MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *) a) {
        perror("mmap");
        _exit(70);
    }
    return p;
}
extern "C" char __executable_start, etext, _end;
static void map_redzones()
{
    if (image_hi)
        return;
    u64 page = 4095;
    image_lo = (u64) &__executable_start & ~(8 * page + 7);
    image_hi = ((u64) &_end + 8 * page) & ~(8 * page + 7);
    auto range = [&](u64 a, u64 b) {
        u64 lo = (u64) rz(a) & ~page, hi = ((u64) rz(b) + page) & ~page;
        fixed(lo, hi - lo);
    };
    range(image_lo, image_hi);
    range(STACKS, STACKS + ((u64) MAXTASK << 22));
    u64 sp = here(); // construction and destruction of worlds
    range(sp - (9 << 20), sp + (1 << 20));
}
static void init_process(int cpu)
{
    if (cpu >= 0) {
        cpu_set_t s;
        CPU_ZERO(&s);
        CPU_SET(cpu, &s);
        sched_setaffinity(0, sizeof s, &s);
    }
    sh = (Shared *) mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    st = &sh->stats;
    text_lo = (u8 *) &__executable_start;
    text_hi = (u8 *) &etext;
    cov = (u8 *) mmap(nullptr, text_hi - text_lo, PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fixed(ARENA, ARENA_SIZE);
    fixed(SHADOW, ARENA_SIZE + 4096);
    bindex = (u32 *) fixed(0x618000000000ULL, ARENA_SIZE / 4 + 8192);
    for (int t = 0; t < MAXTASK; t++) {
        fixed(stack_base(t), STACK);
        fixed(stack_base(t) + 2 * 1024 * 1024, 64 * 1024);
    }
    heap_hi = ARENA;
    if (sim_redzones)
        map_redzones();
    take_snapshot();
}
static void child_signals()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
        sigaction(s, &sa, nullptr);
}
static double now_s()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
// Wait for a child, killing it when a single run makes no progress for long.
static int wait_child(pid_t pid, double limit)
{
    u64 last = ~0ULL;
    double t0 = now_s();
    for (useconds_t nap = 50;;) {
        int status;
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid)
            return status;
        u64 p = sh->done;
        if (p != last) {
            last = p;
            t0 = now_s();
        } else if (now_s() - t0 > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            return -1;
        }
        usleep(nap);
        if (nap < 2000)
            nap *= 2;
    }
}
struct Failure { u64 idx; std::string kind, site, msg; int op; };

static void print_stats(FILE *f)
{
    fprintf(f, "\"runs\":%llu,\"ops\":%llu,\"steps\":%llu,\"switches\":%llu,"
            "\"allocs\":%llu,\"frees\":%llu,\"reallocs\":%llu,\"callbacks\":%llu,"
            "\"preempt_planned\":%llu,\"preempt_unreached\":%llu,"
            "\"failstop\":%llu,\"maxsize\":%llu,",
            (unsigned long long) st->runs, (unsigned long long) st->ops,
            (unsigned long long) st->steps, (unsigned long long) st->switches,
            (unsigned long long) st->allocs, (unsigned long long) st->frees,
            (unsigned long long) st->reallocs,
            (unsigned long long) st->callbacks,
            (unsigned long long) st->preempt_planned,
            (unsigned long long) st->preempt_unreached,
            (unsigned long long) st->failstop,
            (unsigned long long) st->maxsize);
    fprintf(f, "\"faults\":{");
    bool first = true;
    for (int i = 1; i < F_KINDS; i++)
        if (st->fault[i]) {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_names[i],
                    (unsigned long long) st->fault[i]);
            first = false;
        }
    fprintf(f, "},\"probes\":{");
    for (int i = 0; i < sh->nprobes; i++)
        fprintf(f, "%s%s:%llu", i ? "," : "", jstr(sh->probe_names[i]).c_str(),
                (unsigned long long) st->probe[i]);
    fprintf(f, "}");
}

int main(int argc, char **argv)
{
    std::string cmd = argc > 1 ? argv[1] : "", prop, hashes, covfile, out;
    u64 base = 1, from = 0, count = 1;
    int cpu = -1, maxfail = 5;
    double wall = 1e9;
    const char *file = nullptr;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = val();
        else if (a == "--base") base = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
        else if (a == "--count") count = strtoull(val().c_str(), 0, 10);
        else if (a == "--hashes") hashes = val();
        else if (a == "--cov") covfile = val();
        else if (a == "--cpu") cpu = atoi(val().c_str());
        else if (a == "--maxfail") maxfail = atoi(val().c_str());
        else if (a == "--wall") wall = atof(val().c_str());
        else file = argv[i];
    }
    setenv("TZ", "UTC", 1);
    init_process(cpu);
    if (cmd == "gen") {
        Plan p;
        make_plan(p, prop, base, from);
        write_plan(stdout, p);
        return 0;
    }
    if (cmd == "exec") {
        Plan p;
        if (!file || !read_plan(file, p)) {
            fprintf(stderr, "cannot read plan\n");
            return 2;
        }
        pid_t pid = fork();
        if (!pid) {
            child_signals();
            run_plan(p);
            _exit(0);
        }
        int status = wait_child(pid, 60);
        int code = status >= 0 && WIFEXITED(status) ? WEXITSTATUS(status) : -1;
        if (code == 77 || code == 78)
            printf("{\"outcome\":\"%s\",\"kind\":%s,\"site\":%s,\"msg\":%s,"
                   "\"op\":%d,\"steps\":%llu}\n",
                   code == 77 ? "violation" : "other",
                   jstr(sh->fail.kind).c_str(), jstr(sh->fail.site).c_str(),
                   jstr(sh->fail.msg).c_str(), sh->fail.op,
                   (unsigned long long) sh->fail.steps);
        else if (code == 0)
            printf("{\"outcome\":\"ok\",\"trace\":\"%016llx\"}\n",
                   (unsigned long long) sh->trace_out);
        else if (status == -1)
            printf("{\"outcome\":\"violation\",\"kind\":\"hang\",\"site\":"
                   "\"wall\",\"msg\":\"no progress\",\"op\":-1,\"steps\":0}\n");
        else if (code == 70)
            printf("{\"outcome\":\"error\"}\n");
        else
            printf("{\"outcome\":\"violation\",\"kind\":\"crash\",\"site\":"
                   "\"died\",\"msg\":\"process died\",\"op\":-1,\"steps\":0}\n");
        return 0;
    }
    if (cmd == "batch") {
        std::vector<Failure> fails;
        u64 *hs = (u64 *) mmap(nullptr, count * 16 + 4096, PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        double t0 = now_s();
        u64 next = from, others = 0, errors = 0;
        while (next < from + count && (int) fails.size() < maxfail &&
               now_s() - t0 < wall) {
            sh->fail.set = 0;
            pid_t pid = fork();
            if (!pid) {
                child_signals();
                for (u64 i = next; i < from + count; i++) {
                    if (now_s() - t0 > wall)
                        _exit(0);
                    sh->progress = i;
                    Plan p;
                    make_plan(p, prop, base, i);
                    run_plan(p);
                    hs[2 * (i - from)] = sh->trace_out | 1;
                    hs[2 * (i - from) + 1] = sh->state_out;
                    sh->done = sh->done + 1;
                }
                sh->progress = from + count;
                _exit(0);
            }
            int status = wait_child(pid, 60);
            u64 i = sh->progress;
            int code =
                status >= 0 && WIFEXITED(status) ? WEXITSTATUS(status) : -1;
            if (code == 0)
                break;
            if (code == 77)
                fails.push_back(Failure{i, sh->fail.kind, sh->fail.site,
                                        sh->fail.msg, sh->fail.op});
            else if (code == 78)
                others++;
            else if (code == 70)
                errors++;
            else
                fails.push_back(Failure{i, status == -1 ? "hang" : "crash",
                                        status == -1 ? "wall" : "died",
                                        "child ended abnormally", -1});
            next = i + 1;
        }
        printf("{");
        print_stats(stdout);
        size_t covn = 0;
        for (u8 *q = cov; q < cov + (text_hi - text_lo); q++)
            covn += *q;
        printf(",\"blocks_covered\":%zu,\"others\":%llu,\"errors\":%llu,"
               "\"wall\":%.3f,\"failures\":[", covn,
               (unsigned long long) others, (unsigned long long) errors,
               now_s() - t0);
        for (size_t k = 0; k < fails.size(); k++)
            printf("%s{\"idx\":%llu,\"kind\":%s,\"site\":%s,\"msg\":%s,"
                   "\"op\":%d}", k ? "," : "",
                   (unsigned long long) fails[k].idx,
                   jstr(fails[k].kind.c_str()).c_str(),
                   jstr(fails[k].site.c_str()).c_str(),
                   jstr(fails[k].msg.c_str()).c_str(), fails[k].op);
        printf("]}\n");
        if (!hashes.empty()) {
            FILE *f = fopen(hashes.c_str(), "wb");
            fwrite(hs, 16, count, f);
            fclose(f);
        }
        if (!covfile.empty()) {
            FILE *f = fopen(covfile.c_str(), "wb");
            fwrite(cov, 1, text_hi - text_lo, f);
            fclose(f);
        }
        return 0;
    }
    fprintf(stderr, "usage: sim batch|gen|exec ...\n");
    return 2;
}
