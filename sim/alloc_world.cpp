// C09: every kind of library call over one simulated heap.
// C10: memory running out, and the allocation facade.
#include <cerrno>
#include "charstr.h"
#include "containers.h"
#include "text.h"

enum {
    X_ALLOC = 900, X_CALLOC, X_CALLOC_HUGE, X_REALLOC, X_FREE, X_FREE_NULL, X_SWITCH,
    X_COUNTER, X_URLENC, X_URLENC_CUSTOM, X_URLDEC, X_PRINTF, X_FMT, X_CHECK, X_MAX,
    X_IMPOSSIBLE
};

namespace {
void check_zero(void *p, size_t k, size_t n)
{
    if (!p) {
        MODEL(cur_op_oom() || k * n == 0, "fscalloc", "NULL although granted");
        return;
    }
    MODEL(!cur_op_oom(), "fscalloc", "returned memory although refused");
    chk_read(p, k * n, "fscalloc");
    for (size_t i = 0; i < k * n; i++)
        MODEL(!((u8 *) p)[i], "fscalloc",
              "byte %zu of %zu times %zu bytes is not zero", i, k, n);
}
// mostly small, at times around the sizes where allocators change their ways
size_t pick_size(Rng &r)
{
    if (r.chance(7, 8))
        return 1 + r.below(1200);
    if (r.chance(1, 2))
        return r.pick<size_t>({4096, 8192, 32768, 65536, 131072, 262144}) + r.below(65) - 32;
    return 1 + r.below(300000);
}
void pick_calloc(Rng &r, Op &o)
{
    size_t n = pick_size(r), k = r.chance(1, 2) ? 1 : 1 + r.below(60);
    o.a = {0, (i64) k, (i64) ((n + k - 1) / k)};
    if (r.chance(1, 12))
        o.a[1 + r.below(2)] = 0;
    if (r.chance(1, 3))
        std::swap(o.a[1], o.a[2]);
}
ssize_t never_read(void *, void *, size_t n)
{
    fail("model", "impossible-request", "the stream is read for %zu bytes", n);
}
struct MemWorld : ContWorld { // C09, and C10 with the default allocator
    using ContWorld::ContWorld;
    int lock_of(const Op &op) override
    {
        return op.code / 100 == FAM_STR ? -1 : ContWorld::lock_of(op);
    }
    void exec(const Op &op) override
    {
        if (op.code / 100 == FAM_STR)
            text_call(op.code - 700, op);
        else if (op.code == X_CALLOC) {
            size_t k = (u64) op.arg(1), n = (u64) op.arg(2);
            void *p = fscalloc(k, n);
            check_zero(p, k, n);
            if (p && k * n)
                memset(p, 0xa5, k * n);
            fsfree(p);
        } else if (op.code == X_CALLOC_HUGE) {
            // with the default allocator this must stop the process
            u64 k = (u64) op.arg(1), n = (u64) op.arg(2);
            void *p = fscalloc(k, n);
            if (p)
                MODEL((unsigned __int128) k * n <= heap_block_size(p),
                      "fscalloc-overflow", "%llu elements of %llu bytes got a block "
                      "of %zu", (unsigned long long) k, (unsigned long long) n,
                      heap_block_size(p));
            fsfree(p);
        } else if (op.code == X_IMPOSSIBLE) {
            // more than there can be: this, too, must stop the process
            size_t n = (size_t) op.arg(2);
            const char *what = "";
            switch (op.arg(1)) {
                case 0:
                    what = "make_intset";
                    make_intset(n);
                    break;
                case 1:
                    what = "byte_array_resize";
                    byte_array_resize(make_byte_array(SIZE_MAX), n, 'x');
                    break;
                case 2:
                    what = "byte_array_append_stream";
                    byte_array_append_stream(make_byte_array(SIZE_MAX), never_read,
                                             nullptr, n);
                    break;
                case 3:
                    what = "fsalloc";
                    fsalloc(n);
                    break;
                default:
                    what = "fsrealloc";
                    fsrealloc(fsalloc(10), n);
            }
            fail("model", "impossible-request", "%s of %zu came back", what, n);
        } else
            ContWorld::exec(op);
        if (plan.get("default_alloc") && cur_op_oom())
            fail("model", "survives-exhaustion", "an allocation was refused and the "
                 "call returned");
    }
};

int other_total;
extern "C" void other_counter(int n) { other_total += n; }

struct RawBlock { u8 *p; size_t n; std::string d; bool busy; };

struct FacadeWorld : World { // C10 with an allocator that reports failure
    Plan &plan;
    std::vector<RawBlock> raw;
    int cur = 0, ctr = 0, inflight = 0;
    i64 want_skew = 0;
    int want_other = 0;
    charstr_url_encoder_t *encoder = nullptr;

    explicit FacadeWorld(Plan &p) : plan(p) {}
    void setup() override
    {
        other_total = 0;
        fs_set_reallocator(sim_realloc);
        fs_set_reallocator_counter(sim_counter);
        Input a("/-", true), b(" :", true);
        encoder = charstr_create_url_encoder(a.p, b.p);
    }
    int lock_of(const Op &op) override
    {
        // the raw blocks and the installed allocator are shared state of the
        // application, used by one client at a time
        return op.code <= X_COUNTER || op.code == X_CHECK ? 1 : -1;
    }
    void check_raw(const RawBlock &b, const char *site)
    {
        chk_read(b.p, b.n, site);
        MODEL(!memcmp(b.p, b.d.data(), b.n), site, "contents of a block changed");
    }
    void put_raw(void *p, size_t n, u64 seed)
    {
        RawBlock b{(u8 *) p, n, pattern_bytes(seed, n, false), false};
        chk_read(p, n, "allocated block");
        if (n)
            memcpy(p, b.d.data(), n);
        raw.push_back(b);
    }
    // run f, which is to give NULL exactly when an allocation was refused
    template <class F> void refusing(const char *name, F f)
    {
        u64 live = heap_live_lib(), oom0 = cur_op_oom();
        std::unique_ptr<std::string> got = f();
        bool refused = cur_op_oom() > oom0;
        if (refused) {
            note_nontrivial();
            PROBEV((std::string("refused: ") + name).c_str());
            MODEL(!got, "refusal-ignored",
                  "%s returned a result although an allocation was refused", name);
            if (live_exact())
                MODEL(heap_live_lib() == live, "leak-on-refusal",
                      "%s keeps %lld blocks after a refused allocation", name,
                      (long long) heap_live_lib() - (long long) live);
            // memory is back: it works again
            for (int i = 0; i < 8 && !got; i++)
                got = f();
            MODEL(got, "no-recovery", "%s still fails now that memory is back", name);
        } else
            MODEL(got, "spurious-failure", "%s failed without any refused allocation",
                  name);
    }
    // other clients' blocks do not come and go while this client runs
    bool live_exact() { return plan.get("tasks") == 1 || !cur_op()->p.size(); }
    void run_op(const Op &op);
    void exec(const Op &op) override
    {
        // the reallocator and the counter belong to all clients, who change
        // them while no call is under way
        bool global = op.code == X_SWITCH || op.code == X_COUNTER;
        if (global && inflight)
            return;
        bool pre = sched_preempt;
        if (global)
            sched_preempt = false;
        inflight++;
        run_op(op);
        inflight--;
        sched_preempt = global ? pre : sched_preempt;
    }
    void finish() override
    {
        audit();
        for (auto &b : raw)
            fsfree(b.p);
        charstr_destroy_url_encoder(encoder);
        MODEL(skew_total == want_skew && other_total == want_other, "counter",
              "the counters received %lld and %d, expected %lld and %d",
              (long long) skew_total, other_total, (long long) want_skew, want_other);
        if (heap_live_lib())
            fail("leak", "leak", "%llu blocks remain allocated at the end:%s",
                 (unsigned long long) heap_live_lib(), heap_describe_live().c_str());
    }
    void audit()
    {
        for (auto &b : raw)
            check_raw(b, "raw-block");
        MODEL(fs_get_reallocator() == (cur ? sim_realloc_b : sim_realloc),
              "reallocator-reported", "another reallocator than the one installed");
        MODEL(fs_get_reallocator_counter() == (ctr ? other_counter : sim_counter),
              "counter-reported", "another counter than the one installed");
    }
};
char *call_vprintf(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char *p = charstr_vprintf(fmt, ap);
    va_end(ap);
    return p;
}
void FacadeWorld::run_op(const Op &op)
{
    i64 x = op.arg(1), y = op.arg(2);
    u64 before[2] = {alloc_calls()[0], alloc_calls()[1]};
    auto only_current = [&](const char *what) {
        MODEL(alloc_calls()[!cur] == before[!cur] && alloc_calls()[cur] > before[cur],
              "wrong-reallocator", "%s did not use the installed reallocator", what);
    };
    std::string text = op.blob;
    for (auto &c : text)
        if (!c)
            c = '+';
    switch (op.code) {
        case X_ALLOC: {
            size_t n = (u64) x;
            void *p = fsalloc(n);
            only_current("fsalloc");
            MODEL((p == nullptr) == (cur_op_oom() > 0), "fsalloc", "returned %s",
                  p ? "memory although refused" : "NULL although granted");
            if (p)
                put_raw(p, n, y);
            break;
        }
        case X_CALLOC: {
            size_t k = (u64) x, n = (u64) y;
            void *p = fscalloc(k, n);
            if (k && n)
                only_current("fscalloc");
            check_zero(p, k, n);
            if (p)
                put_raw(p, k * n, y);
            break;
        }
        case X_CALLOC_HUGE: {
            void *p = fscalloc((u64) x, (u64) y);
            if (p)
                MODEL((unsigned __int128) (u64) x * (u64) y <= heap_block_size(p),
                      "fscalloc-overflow", "%llu elements of %llu bytes got a block "
                      "of %zu bytes", (unsigned long long) x, (unsigned long long) y,
                      heap_block_size(p));
            else
                PROBE("fscalloc overflow refused");
            fsfree(p);
            break;
        }
        case X_REALLOC: {
            if (raw.empty())
                break;
            // out of the other tasks' reach while the call is under way; the
            // address may be somebody else's by the time it has returned
            size_t i = (u64) x % raw.size();
            RawBlock b = raw[i];
            raw.erase(raw.begin() + i);
            size_t n = (u64) y;
            u64 was = heap_serial(b.p);
            void *p = fsrealloc(b.p, n);
            bool same = heap_serial(b.p) == was;
            only_current("fsrealloc");
            if (n == 0) {
                MODEL(!same || p == b.p, "fsrealloc",
                      "size zero did not deallocate");
                if (same)
                    raw.push_back(b);
            } else if (cur_op_oom()) {
                MODEL(!p, "fsrealloc", "returned memory although refused");
                MODEL(same, "fsrealloc", "a refused resize released the block");
                check_raw(b, "fsrealloc");
                raw.push_back(b);
            } else {
                MODEL(p, "fsrealloc", "NULL although granted");
                size_t k = std::min(n, b.n);
                chk_read(p, n, "fsrealloc");
                MODEL(!memcmp(p, b.d.data(), k), "fsrealloc", "lost the contents");
                put_raw(p, n, y);
            }
            break;
        }
        case X_FREE:
            if (!raw.empty()) {
                size_t i = (u64) x % raw.size();
                RawBlock b = raw[i];
                check_raw(b, "raw-block");
                raw.erase(raw.begin() + i);
                u64 was = heap_serial(b.p);
                fsfree(b.p);
                only_current("fsfree");
                MODEL(heap_serial(b.p) != was, "fsfree", "did not release");
            }
            break;
        case X_FREE_NULL:
            fsfree(nullptr);
            MODEL(alloc_calls()[0] == before[0] && alloc_calls()[1] == before[1],
                  "fsfree-null", "fsfree(NULL) reached the allocator");
            break;
        case X_SWITCH: {
            cur = x & 1;
            fired(F_SWITCH_ALLOC);
            note_nontrivial();
            fs_set_reallocator(cur ? sim_realloc_b : sim_realloc);
            MODEL(fs_get_reallocator() == (cur ? sim_realloc_b : sim_realloc),
                  "reallocator-reported", "another reallocator than just installed");
            break;
        }
        case X_COUNTER: {
            if (y & 1) {
                ctr = x & 1;
                fs_set_reallocator_counter(ctr ? other_counter : sim_counter);
            }
            int n = (int) (y % 7) - 3;
            fs_reallocator_skew(n);
            if (ctr)
                want_other += n;
            else
                want_skew += n;
            MODEL(skew_total == want_skew && other_total == want_other, "counter",
                  "skew %d did not reach the installed counter", n);
            break;
        }
        case X_URLENC:
        case X_URLENC_CUSTOM: {
            Input in(text, true);
            charstr_url_encoder_t *e = op.code == X_URLENC ? nullptr : encoder;
            refusing("URL encoding", [&] {
                char *s = e ? charstr_url_custom_encode(e, in.p)
                            : charstr_url_encode(in.p);
                in.unchanged("URL encoding");
                std::unique_ptr<std::string> r;
                if (s) {
                    chk_cstr(s, "URL encoding");
                    r.reset(new std::string(s));
                    fsfree(s);
                }
                return r;
            });
            break;
        }
        case X_URLDEC: {
            std::string t, ignored;
            for (char c : text)
                if (c != '%')
                    t += c;
                else
                    t += "%41";
            if (x & 4)
                t += "%00z";
            Input in(t, true);
            refusing("URL decoding", [&] {
                size_t n = 0;
                char *s = charstr_url_decode(in.p, x & 1, &n);
                in.unchanged("URL decoding");
                std::unique_ptr<std::string> r;
                if (s) {
                    chk_read(s, n + 1, "URL decoding");
                    r.reset(new std::string(s, n));
                    ref_url_decode(t, x & 1, &ignored);
                    MODEL(*r == ignored, "url-decode", "wrong bytes");
                    fsfree(s);
                }
                return r;
            });
            break;
        }
        case X_PRINTF: {
            bool bare = !((u64) y % 5); // maybe of nothing
            Input in(text, true), fmt(bare ? "%s" : "<%s|%d|%5.2f>", true);
            char want[4096];
            snprintf(want, sizeof want, fmt.p, in.p, (int) y, (double) x);
            refusing("string formatting", [&] {
                char *s = x & 1
                    ? charstr_printf(fmt.p, in.p, (int) y, (double) x)
                    : call_vprintf(fmt.p, in.p, (int) y, (double) x);
                in.unchanged("string formatting");
                fmt.unchanged("string formatting");
                std::unique_ptr<std::string> r;
                if (s) {
                    chk_cstr(s, "formatted string");
                    r.reset(new std::string(s));
                    MODEL(*r == want, "printf", "\"%s\" instead of \"%s\"",
                          printable(*r).c_str(), printable(want).c_str());
                    fsfree(s);
                }
                return r;
            });
            break;
        }
        case X_FMT: { // the C library cannot format this
            Input in(text, true), fmt("[%s]", true);
            u64 live = heap_live_lib();
            errno = 0;
            char *s = charstr_printf(fmt.p, in.p);
            int e = errno;
            bool faulted = false;
            for (auto &f : op.f)
                faulted = faulted || f.kind == F_FMT_ERROR;
            if (faulted) {
                MODEL(!s, "printf-error", "formatting failed but gave a string");
                MODEL(e == EILSEQ, "printf-error", "errno is %d, not EILSEQ", e);
                if (live_exact())
                    MODEL(heap_live_lib() == live, "leak-on-refusal",
                          "failed formatting keeps a block");
            } else
                MODEL(s || cur_op_oom(), "printf-error", "no string");
            fsfree(s);
            break;
        }
        case X_CHECK:
            audit();
            break;
    }
}
} // namespace

World *make_alloc_world(Plan &p)
{
    if (p.prop == "C09" || p.get("default_alloc"))
        return new MemWorld(p);
    return new FacadeWorld(p);
}
void gen_alloc(Plan &p, Rng &r)
{
    bool c10 = p.prop == "C10";
    bool facade = c10 && r.chance(1, 2);
    if (!facade) {
        gen_containers(p, r);
        int tasks = p.get("tasks");
        // splice text calls in between
        std::vector<Op> out;
        int id = 1;
        int share = r.pick<int>({1, 2, 4});
        for (auto &o : p.ops) {
            while (r.chance(share, share + 3)) {
                Op t = gen_text_call(r);
                t.task = r.range(1, tasks);
                out.push_back(t);
            }
            if (share < 4 || r.chance(1, 2) || o.code % 100 == 0)
                out.push_back(o);
        }
        for (auto &o : out)
            o.id = id++;
        p.ops = out;
        if (!c10)
            return;
        // the default allocator, and memory running out somewhere
        p.cfg["default_alloc"] = 1;
        p.scen += "+exhaustion";
        if (p.ops.empty())
            return;
        if (r.chance(1, 10)) {
            Op o;
            o.code = X_CALLOC_HUGE;
            u64 k = r.pick<u64>({(u64) 1 << 32, (u64) 1 << 33, SIZE_MAX / 2 + 1,
                                 SIZE_MAX / 3 + 1, 3});
            o.a = {0, (i64) k, (i64) (SIZE_MAX / k + 1 + r.below(3))};
            o.task = 1;
            o.id = id++;
            p.ops.insert(p.ops.begin() + r.below(p.ops.size()), o);
        }
        if (r.chance(1, 12)) {
            Op o;
            o.code = X_IMPOSSIBLE;
            i64 kind = r.below(5);
            size_t n = r.pick<size_t>({SIZE_MAX, SIZE_MAX / 2 + 1, SIZE_MAX / 2,
                                       SIZE_MAX / 4, (size_t) 1 << 40,
                                       (size_t) 1 << 34});
            n -= n == SIZE_MAX ? r.below(130) : r.below(3);
            if (kind == 0)
                n |= (size_t) 1 << 39;
            if (kind == 1 && n == SIZE_MAX)
                n--; // all but the NUL
            o.a = {0, kind, (i64) n};
            o.task = r.range(1, tasks);
            o.id = id++;
            p.ops.insert(p.ops.begin() + r.below(p.ops.size()), o);
        }
        for (int n = r.chance(1, 2) ? r.range(1, 4) : 0; n; n--) {
            Op o;
            o.code = X_CALLOC;
            pick_calloc(r, o);
            o.task = r.range(1, tasks);
            o.id = id++;
            p.ops.insert(p.ops.begin() + r.below(p.ops.size()), o);
        }
        int n = r.chance(1, 8) ? 0 : r.range(1, 3);
        while (n--) {
            // refuse an allocation of some operation, or everything from it on
            Op &o = p.ops[r.below(p.ops.size())];
            o.f.push_back(Fault{F_OOM, r.chance(2, 3) ? (i64) 1 : (i64) r.range(1, 30),
                                r.chance(1, 3) ? 1000000 : 1});
        }
        return;
    }
    gen_heap(p, r);
    p.cfg["tasks"] = r.range(1, 3);
    p.scen = "facade";
    int nops = r.range(4, 50);
    for (int i = 0; i < nops; i++) {
        Op o;
        o.id = i + 1;
        o.task = r.range(1, p.get("tasks"));
        o.code = X_ALLOC + r.below(X_MAX - X_ALLOC);
        o.a = {0, (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
        if (o.code == X_CALLOC_HUGE) {
            u64 k = r.pick<u64>({2, 3, 8, (u64) 1 << 32, (u64) 1 << 33, SIZE_MAX / 2 + 1,
                                 SIZE_MAX / 3 + 1, SIZE_MAX});
            u64 n = SIZE_MAX / k + 1 + r.below(r.chance(1, 2) ? 3 : 64);
            if (r.chance(1, 2))
                std::swap(k, n);
            o.a = {0, (i64) k, (i64) n};
        }
        if (o.code == X_ALLOC)
            o.a[1] = pick_size(r);
        if (o.code == X_REALLOC)
            o.a[2] = r.chance(1, 5) ? 0 : pick_size(r);
        if (o.code == X_CALLOC)
            pick_calloc(r, o);
        if (o.code >= X_URLENC && o.code <= X_FMT)
            o.blob = rand_text(r, r.pick<int>({0, 1, 2}),
                               r.below(r.chance(1, 10) ? 2500 : 60));
        if (o.code == X_FMT && r.chance(3, 4))
            o.f.push_back(Fault{F_FMT_ERROR, 0, 0});
        else if (r.chance(1, 2))
            o.f.push_back(Fault{F_OOM, r.chance(3, 4) ? (i64) 1 : (i64) r.range(1, 3),
                                (i64) r.range(1, 3)});
        p.ops.push_back(o);
    }
    if (p.get("tasks") > 1)
        gen_preempts(p, r, r.below(5), 10, 300);
}
