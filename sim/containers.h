// Clients working on fsdyn's containers, with a reference model of each.
#pragma once
#include <deque>
#include "core.h"
#include "avltree.h"
#include "bytearray.h"
#include "fsalloc.h"
#include "hashtable.h"
#include "integer.h"
#include "intset.h"
#include "list.h"
#include "priority_queue.h"

enum Family { FAM_AVL = 1, FAM_HASH, FAM_LIST, FAM_PQ, FAM_BA, FAM_INT, FAM_STR };
enum {
    // AVL
    A_NEW = 100, A_PUT, A_GET, A_BEFORE, A_ONBEFORE, A_AFTER, A_ONAFTER, A_ENDS,
    A_WALK, A_REMOVE, A_DETACH, A_POP, A_POPFIRST, A_POPLAST, A_SIZE, A_COPY,
    A_DESTROY, A_ORPHAN_DESTROY, A_ORPHAN_CHECK, A_CURSOR, A_BULKPUT, A_BULKDEL,
    A_REPUT, A_AUDIT, A_MAX,
    // hash table
    H_NEW = 200, H_PUT, H_GET, H_REMOVE, H_DETACH, H_POP, H_POPANY, H_TRAVERSE,
    H_STEP, H_SIZE, H_DESTROY, H_ORPHAN_DESTROY, H_ORPHAN_CHECK, H_BULKPUT,
    H_BULKDEL, H_REPUT, H_MAX,
    // list
    L_NEW = 300, L_APPEND, L_PREPEND, L_INSERT, L_REMOVE, L_POPFIRST, L_POPLAST,
    L_GET, L_INDEX, L_NEXT, L_PREV, L_ENDS, L_FOREACH, L_SIZE, L_COPY, L_DESTROY,
    L_WALK, L_VALUE, L_BULK, L_MAX,
    // priority queue
    Q_NEW = 400, Q_ENQ, Q_DEQ, Q_PEEK, Q_POP, Q_REMOVE, Q_SIZE, Q_DESTROY,
    Q_BULKENQ, Q_DRAIN, Q_MAX,
    // byte array
    B_NEW = 500, B_APPEND, B_APPENDSTR, B_COPY, B_COPYSTR, B_SELFCOPY, B_RESIZE,
    B_CLEAR, B_STREAM, B_HUGE, B_READ, B_SHARE, B_DROP, B_BADPOS, B_MAX,
    // integer set
    I_NEW = 600, I_ADD, I_REMOVE, I_FILL, I_HAS, I_HIT, I_MISS, I_SCAN, I_DESTROY,
    I_EMPTY, I_BULK, I_MAX
};

std::string pattern_bytes(u64 seed, size_t n, bool nonzero);

// A contiguous registry of opaque caller objects.
struct Registry {
    struct Obj { int rank, var; u64 pad; };
    Obj *base = nullptr;
    int n = 0;
    void make(int count)
    {
        n = count;
        base = (Obj *) caller_alloc(sizeof(Obj) * (count ? count : 1), SH_OPAQUE);
        for (int i = 0; i < count; i++)
            base[i] = Obj{i, 0, 0x1122334455667788ULL + i};
    }
    void *at(int i) const { return base + i; }
    int index(const void *p) const // -1 when not one of ours
    {
        u64 d = (u64) p - (u64) base;
        if (d % sizeof(Obj) || d / sizeof(Obj) >= (u64) n)
            return -1;
        return d / sizeof(Obj);
    }
};

struct Entry { const void *key, *val; };

struct AvlObj {
    avl_tree_t *t = nullptr;
    int mode = 0, ctx = -1, idx = 0;
    bool dead = false;
    std::map<i64, Entry> m; // by position in comparator order
    u64 version = 0;
};
struct AvlOrphan { avl_elem_t *e; const void *key, *val; int from; };
struct HashObj {
    hash_table_t *t = nullptr;
    int mode = 0, idx = 0;
    bool dead = false;
    std::map<int, Entry> m; // by rank
    u64 version = 0;
};
struct HashOrphan { hash_elem_t *e; const void *key, *val; };
struct HashCursor { // a traversal in progress
    HashObj *h = nullptr;
    hash_elem_t *e = nullptr;
    u64 version = 0;
    std::set<const void *> seen;
};
struct LNode { list_elem_t *e; const void *val; };
struct ListObj {
    list_t *l = nullptr;
    int idx = 0;
    bool dead = false;
    std::deque<LNode> m;
};
struct PqObj {
    priorq_t *q = nullptr;
    int mode = 0, ctx = -1, idx = 0;
    bool reloc = false, unique = false, dead = false;
    std::map<int, int> m;         // element -> times queued
    std::map<int, int> prios;     // priority -> elements queued
    size_t n = 0, ops = 0;
    std::map<int, void *> loc;    // last reported locators
    int leaving = -1, entering = -1;
};
struct BaObj {
    byte_array_t *a = nullptr;
    size_t max = 0;
    int idx = 0;
    bool dead = false;
    std::string d;
    std::vector<int> owners;
    u64 stream_seed = 0, stream_pos = 0;
    // communication with the read callback
    const Op *op = nullptr;
    int calls = 0;
    size_t want = 0, room = 0;
    ssize_t ret = 0;
    int err = 0;
    std::string given;
};
struct IntObj {
    intset_t *s = nullptr;
    size_t size = 0;
    int idx = 0;
    bool dead = false;
    std::vector<u8> m;
};

struct ContWorld : World {
    Plan &plan;
    std::string prop;
    Registry keys, vals, elems, ctxs;
    int nk, nvar = 3, nv, ne;
    std::vector<std::unique_ptr<AvlObj>> avl;
    std::vector<AvlOrphan> aorph;
    std::vector<std::unique_ptr<HashObj>> hash;
    std::vector<HashOrphan> horph;
    HashCursor cursors[8];
    std::vector<std::unique_ptr<ListObj>> list;
    std::vector<std::unique_ptr<PqObj>> pq;
    std::vector<std::unique_ptr<BaObj>> ba;
    std::vector<std::unique_ptr<IntObj>> ints;
    AvlObj *act_avl[8] = {};
    HashObj *act_hash[8] = {};
    PqObj *act_pq[8] = {};
    // comparator observation
    bool tracing[8] = {};
    int next_idx[8] = {};
    std::vector<const void *> cmp_trace[8];
    std::vector<char> strs; // text of string keys
    bool leak_check = true;
    int busy[8] = {-1, -1, -1, -1, -1, -1, -1, -1}; // object each task is inside of
    bool in_use(int id) const
    {
        for (int t = 0; t < 8; t++)
            if (t != cur_task() && busy[t] == id)
                return true;
        return false;
    }

    ContWorld(Plan &p) : plan(p), prop(p.prop) {}
    void setup() override;
    int lock_of(const Op &op) override;
    void exec(const Op &op) override;
    void finish() override;

    // key of a given rank under a container's key representation
    const void *key(int mode, int rank, int var);
    i64 order(int mode, int rank);
    int rank_of(int mode, const void *key);
    const void *val(i64 i) { i %= nv + 1; if (i < 0) i = -i; return i ? vals.at(i - 1) : nullptr; }

    AvlObj *pick_avl(i64 sel);
    HashObj *pick_hash(i64 sel);
    ListObj *pick_list(i64 sel);
    PqObj *pick_pq(i64 sel);
    BaObj *pick_ba(i64 sel);
    IntObj *pick_int(i64 sel);
    void do_avl(const Op &op);
    void do_hash(const Op &op);
    void do_list(const Op &op);
    void do_pq(const Op &op);
    void do_ba(const Op &op);
    void do_int(const Op &op);
    void avl_put(AvlObj *t, int rank, int var, const void *v);
    void avl_del(AvlObj *t, int rank);
    void avl_audit(AvlObj *t);
    void avl_balance(AvlObj *t);
    void avl_check(avl_elem_t *e, const Entry *want, const char *site);
    void avl_new(i64 mode, bool ctx);
    void hash_put(HashObj *h, int rank, int var, const void *v);
    void hash_audit(HashObj *h);
    void hash_check(hash_elem_t *e, const Entry *want, const char *site);
    void list_audit(ListObj *l);
    void pq_new(i64 mode, bool reloc, bool unique, bool ctx);
    void pq_check_locs(PqObj *q, const char *site);
    int pq_min_ok(PqObj *q, int e);
    void pq_enq(PqObj *q, int e);
    void pq_leave(PqObj *q, int e);
    int pq_some(PqObj *q, u64 k);
    void still_there(BaObj *b, const char *held);
    void ba_check(BaObj *b, const char *site);
    void int_scan(IntObj *s);
    void teardown();
    virtual void extra_audit(const Op &) {}
};
extern ContWorld *W;
void gen_heap(Plan &p, Rng &r);
void gen_preempts(Plan &p, Rng &r, int num, int den, i64 maxat);
void gen_containers(Plan &p, Rng &r);
