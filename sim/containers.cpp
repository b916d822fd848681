#include "containers.h"
#include <cerrno>
#include <climits>
#include <algorithm>

ContWorld *W;

std::string pattern_bytes(u64 seed, size_t n, bool nonzero)
{
    std::string s(n, 0);
    u64 x = seed * 0x9e3779b97f4a7c15ULL + 77;
    for (size_t i = 0; i < n; i++) {
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        u8 c = (x * 2685821657736338717ULL) >> 56;
        if (nonzero && !c)
            c = 1;
        s[i] = c;
    }
    return s;
}

// ------------------------------------------------------------ callbacks ---
enum { STR_STRIDE = 16 };
static char *str_base;
static int str_n;

static int key_rank(const void *k, const char *site)
{
    int i = W->keys.index(k);
    if (i < 0)
        fail("model", site, "comparator or hash called with %p, which is no key "
             "of the caller", k);
    return W->keys.base[i].rank;
}
static int cmp_value(int mode, int a, int b)
{
    switch (mode) {
        case 1:
            return (a - b) * 7919;
        case 2:
            return a < b ? INT_MIN : a > b ? INT_MAX : 0;
        case 3:
            return (b > a) - (b < a);
        default:
            return (a > b) - (a < b);
    }
}
static void note_cmp(const void *a, const void *b)
{
    callback_point();
    if (W->tracing[cur_task()]) {
        W->cmp_trace[cur_task()].push_back(a);
        W->cmp_trace[cur_task()].push_back(b);
    }
}
template <int MODE> static int avl_cmp(const void *a, const void *b)
{
    int r = cmp_value(MODE, key_rank(a, "avl-comparator-argument"),
                      key_rank(b, "avl-comparator-argument"));
    note_cmp(a, b);
    return r;
}
static int avl_cmp_ctx(const void *a, const void *b, void *obj)
{
    int c = W->ctxs.index(obj);
    AvlObj *act = W->act_avl[cur_task()];
    if (c < 0 || (act && act->ctx != c))
        fail("model", "avl-comparator-context",
             "comparator called with context %p of another tree", obj);
    int r = cmp_value(W->ctxs.base[c].var,
                      key_rank(a, "avl-comparator-argument"),
                      key_rank(b, "avl-comparator-argument"));
    note_cmp(a, b);
    return r;
}
static u64 hash_value(int mode, int r)
{
    switch (mode) {
        case 0: return r;
        case 1: return 0;
        case 2: return r % 3;
        case 3: return (u64) r << 40 | (r & 1);
        case 4: return (u64) r * 53;
        case 5: return ~0ULL - r;
        default: {
            u64 z = r * 0x9e3779b97f4a7c15ULL;
            return z ^ z >> 31;
        }
    }
}
template <int MODE> static u64 key_hash(const void *k)
{
    callback_point();
    return hash_value(MODE, key_rank(k, "hash-argument"));
}
static int hash_cmp_plain(const void *a, const void *b)
{
    callback_point();
    int x = key_rank(a, "hash-comparator-argument");
    int y = key_rank(b, "hash-comparator-argument");
    return x == y ? 0 : (x ^ y) & 1 ? 1 : (x & 2) ? INT_MIN : -1;
}
static int hash_cmp_str(const void *a, const void *b)
{
    callback_point();
    u64 x = (u64) a - (u64) str_base, y = (u64) b - (u64) str_base;
    if (x % STR_STRIDE || y % STR_STRIDE || x / STR_STRIDE >= (u64) str_n ||
        y / STR_STRIDE >= (u64) str_n)
        fail("model", "hash-comparator-argument", "comparator called with "
             "something that is no key of the caller");
    return strcmp((const char *) a, (const char *) b);
}

static int pq_prio(int mode, int e)
{
    int p = W->elems.base[e].var;
    return mode & 4 ? -p : p;
}
static int elem_index(const void *e, const char *site)
{
    int i = W->elems.index(e);
    if (i < 0)
        fail("model", site, "called with %p, which is no element of the caller",
             e);
    return i;
}
static int pq_cmp_core(int mode, const void *a, const void *b)
{
    callback_point();
    int x = pq_prio(mode, elem_index(a, "priorq-comparator-argument"));
    int y = pq_prio(mode, elem_index(b, "priorq-comparator-argument"));
    switch (mode & 3) {
        case 1: return x - y;
        case 2: return x < y ? INT_MIN : x > y ? INT_MAX : 0;
        default: return (x > y) - (x < y);
    }
}
template <int MODE> static int pq_cmp(const void *a, const void *b)
{
    return pq_cmp_core(MODE, a, b);
}
static int pq_cmp_ctx(const void *a, const void *b, void *obj)
{
    int c = W->ctxs.index(obj);
    PqObj *act = W->act_pq[cur_task()];
    if (c < 0 || !act || act->ctx != c)
        fail("model", "priorq-comparator-context",
             "comparator called with the context of another queue");
    return pq_cmp_core(W->ctxs.base[c].var, a, b);
}
static void pq_reloc_core(PqObj *q, const void *e, void *loc)
{
    callback_point();
    int i = elem_index(e, "priorq-relocation-argument");
    if (!q)
        fail("model", "priorq-relocation-context", "no queue in operation");
    bool known = q->m.count(i) || q->leaving == i || q->entering == i;
    MODEL(known, "priorq-relocates-foreign-element",
          "relocation reported for element %d, which is not in the queue", i);
    q->loc[i] = loc;
}
static void pq_reloc(const void *e, void *loc)
{
    pq_reloc_core(W->act_pq[cur_task()], e, loc);
}
static void pq_reloc_ctx(const void *e, void *loc, void *obj)
{
    int c = W->ctxs.index(obj);
    PqObj *act = W->act_pq[cur_task()];
    if (c < 0 || !act || act->ctx != c)
        fail("model", "priorq-relocation-context",
             "relocation reported with the context of another queue");
    pq_reloc_core(act, e, loc);
}

// ---------------------------------------------------------------- setup ---
void ContWorld::setup()
{
    W = this;
    if (plan.get("default_alloc") == 0) {
        fs_set_reallocator(sim_realloc);
        fs_set_reallocator_counter(sim_counter);
    }
    nk = plan.get("nk", 8);
    nv = plan.get("nv", 5);
    ne = plan.get("ne", 8);
    keys.make(nk * nvar);
    for (int r = 0; r < nk; r++)
        for (int v = 0; v < nvar; v++) {
            keys.base[r * nvar + v].rank = r;
            keys.base[r * nvar + v].var = v;
        }
    vals.make(nv);
    elems.make(ne);
    i64 pr = plan.get("prios", 4);
    Rng r(plan.seed ^ 0xe1e);
    for (int i = 0; i < ne; i++)
        elems.base[i].var = (int) r.below(pr ? pr : 1) - (int) pr / 2;
    ctxs.make(48);
    str_n = nk * nvar;
    str_base = (char *) caller_alloc(str_n * STR_STRIDE, SH_RO);
    for (int i = 0; i < str_n; i++)
        snprintf(str_base + i * STR_STRIDE, STR_STRIDE, "k%d", i / nvar);
}

// key representations: AVL modes 0..3 objects, 4 integers, 5 unsigned;
// hash modes 0..5,9 objects, 6 strings, 7 integers, 8 unsigned
static i64 boxed(int rank, int nk, bool uns)
{
    if (uns)
        return rank == 0 ? 0 : (i64) (u64) (rank * (~0ULL / nk));
    return (i64) ((u64) (rank - nk / 2) * ((u64) INT64_MAX / (nk + 1)));
}
const void *ContWorld::key(int mode, int rank, int var)
{
    if (mode == 104 || mode == 207)
        return (const void *) boxed(rank, nk, false);
    if (mode == 105 || mode == 208)
        return (const void *) boxed(rank, nk, true);
    if (mode == 206)
        return str_base + (rank * nvar + var) * STR_STRIDE;
    return keys.at(rank * nvar + var);
}
i64 ContWorld::order(int mode, int rank) { return mode == 3 ? -rank : rank; }

template <class T> static T *pick_live(std::vector<std::unique_ptr<T>> &v, i64 sel)
{
    size_t n = 0;
    for (auto &x : v)
        n += !x->dead;
    if (!n)
        return nullptr;
    size_t k = (u64) sel % n;
    for (auto &x : v)
        if (!x->dead && !k--)
            return x.get();
    return nullptr;
}
AvlObj *ContWorld::pick_avl(i64 s) { return pick_live(avl, s); }
HashObj *ContWorld::pick_hash(i64 s) { return pick_live(hash, s); }
ListObj *ContWorld::pick_list(i64 s) { return pick_live(list, s); }
PqObj *ContWorld::pick_pq(i64 s) { return pick_live(pq, s); }
BaObj *ContWorld::pick_ba(i64 s) { return pick_live(ba, s); }
IntObj *ContWorld::pick_int(i64 s) { return pick_live(ints, s); }

int ContWorld::lock_of(const Op &op)
{
    i64 s = op.arg(0);
    int fam = op.code / 100;
    auto id = [&](auto *p) { return p ? fam * 10000 + p->idx : -1; };
    switch (fam) {
        case FAM_AVL:
            return id(pick_avl(s));
        case FAM_HASH:
            return id(pick_hash(s));
        case FAM_LIST:
            return id(pick_list(s));
        case FAM_PQ:
            return id(pick_pq(s));
        case FAM_BA:
            return id(pick_ba(s));
        case FAM_INT:
            return id(pick_int(s));
    }
    return -1;
}
void ContWorld::exec(const Op &op)
{
    busy[cur_task()] = lock_of(op);
    switch (op.code / 100) {
        case FAM_AVL:
            do_avl(op);
            act_avl[cur_task()] = nullptr;
            break;
        case FAM_HASH:
            do_hash(op);
            break;
        case FAM_LIST:
            do_list(op);
            break;
        case FAM_PQ:
            do_pq(op);
            act_pq[cur_task()] = nullptr;
            break;
        case FAM_BA:
            do_ba(op);
            break;
        case FAM_INT:
            do_int(op);
            break;
    }
    extra_audit(op);
    busy[cur_task()] = -1;
}

// ------------------------------------------------------------------ AVL ---
// The comparator order position of a key rank in tree t.
#define ORD(t, rank) order((t)->mode, rank)
static int kmode(AvlObj *t) { return t->mode >= 4 ? 100 + t->mode : t->mode; }

void ContWorld::avl_new(i64 m, bool ctx)
{
    if (avl.size() >= 10)
        return;
    auto o = std::make_unique<AvlObj>();
    o->mode = (u64) m % 6;
    o->idx = next_idx[FAM_AVL]++;
    if (ctx && o->mode < 4) {
        o->ctx = o->idx;
        ctxs.base[o->ctx].var = o->mode;
        o->t = make_avl_tree_2(avl_cmp_ctx, ctxs.at(o->ctx));
    } else {
        switch (o->mode) {
            case 0: o->t = make_avl_tree(avl_cmp<0>); break;
            case 1: o->t = make_avl_tree(avl_cmp<1>); break;
            case 2: o->t = make_avl_tree(avl_cmp<2>); break;
            case 3: o->t = make_avl_tree(avl_cmp<3>); break;
            case 4: o->t = make_avl_tree(integer_cmp); break;
            default: o->t = make_avl_tree(unsigned_cmp); break;
        }
    }
    MODEL(o->t, "avl-make", "make_avl_tree returned NULL");
    avl.push_back(std::move(o));
}
void ContWorld::avl_check(avl_elem_t *e, const Entry *want, const char *site)
{
    if (!want) {
        MODEL(!e, site, "expected no element, got one");
        trace(0);
        return;
    }
    MODEL(e, site, "expected an element, got NULL");
    const void *k = avl_elem_get_key(e), *v = avl_elem_get_value(e);
    MODEL(k == want->key, site, "element has key %p, expected %p", k, want->key);
    MODEL(v == want->val, site, "element has value %p, expected %p", v,
          want->val);
    trace((u64) k + (u64) v);
}
void ContWorld::avl_put(AvlObj *t, int rank, int var, const void *v)
{
    const void *k = key(kmode(t), rank, var);
    i64 o = ORD(t, rank);
    avl_elem_t *old = avl_tree_put(t->t, k, v);
    auto it = t->m.find(o);
    t->version++;
    if (it == t->m.end()) {
        MODEL(!old, "avl-put-new", "inserting a new key returned an element");
        t->m[o] = Entry{k, v};
        return;
    }
    if (it->second.val == v) {
        PROBE("avl.put_same_value");
        MODEL(!old, "avl-put-same-value", "inserting the value already stored at "
              "the key returned an element");
        return;
    }
    PROBE("avl.put_replaces");
    avl_check(old, &it->second, "avl-put-displaced");
    aorph.push_back(AvlOrphan{old, it->second.key, it->second.val, t->idx});
    it->second = Entry{k, v};
}
void ContWorld::avl_del(AvlObj *t, int rank)
{
    i64 o = ORD(t, rank);
    auto it = t->m.find(o);
    avl_elem_t *e = avl_tree_get(t->t, key(kmode(t), rank, 1));
    if (it == t->m.end()) {
        avl_check(e, nullptr, "avl-get");
        return;
    }
    avl_check(e, &it->second, "avl-get");
    avl_tree_remove(t->t, e);
    t->m.erase(it);
    t->version++;
}
void ContWorld::avl_audit(AvlObj *t)
{
    MODEL(avl_tree_size(t->t) == t->m.size(), "avl-size", "size is %zu, expected %zu",
          avl_tree_size(t->t), t->m.size());
    MODEL(!avl_tree_empty(t->t) == !t->m.empty(), "avl-empty", "emptiness wrong");
    avl_elem_t *e = avl_tree_get_first(t->t);
    for (auto &x : t->m) {
        avl_check(e, &x.second, "avl-walk-forward");
        e = avl_tree_next(e);
    }
    avl_check(e, nullptr, "avl-walk-forward");
    e = avl_tree_get_last(t->t);
    for (auto it = t->m.rbegin(); it != t->m.rend(); ++it) {
        avl_check(e, &it->second, "avl-walk-backward");
        e = avl_tree_previous(e);
    }
    avl_check(e, nullptr, "avl-walk-backward");
    for (auto &x : t->m) {
        int rank = t->mode == 3 ? -x.first : x.first;
        avl_check(avl_tree_get(t->t, key(kmode(t), rank, 2)), &x.second,
                  "avl-get");
    }
    if (t->m.size() > st->maxsize)
        st->maxsize = t->m.size();
}
// Reconstruct the shape of the tree from what lookups compare with.
static int max_height(size_t n)
{
    // least number of elements in a height-balanced tree of height h
    size_t a = 0, b = 1;
    int h = 0;
    while (b <= n) {
        size_t c = a + b + 1;
        a = b;
        b = c;
        h++;
    }
    return h;
}
void ContWorld::avl_balance(AvlObj *t)
{
    if (t->mode >= 4)
        return;
    act_avl[cur_task()] = t;
    std::map<const void *, std::vector<const void *>> kids; // parent -> children
    std::map<const void *, const void *> parent;
    const void *root = nullptr;
    int bound = max_height(t->m.size());
    for (auto &x : t->m) {
        int rank = t->mode == 3 ? -x.first : x.first;
        const void *probe = key(t->mode, rank, nvar - 1); // never stored
        cmp_trace[cur_task()].clear();
        tracing[cur_task()] = true;
        avl_elem_t *e = avl_tree_get(t->t, probe);
        tracing[cur_task()] = false;
        MODEL(e && avl_elem_get_key(e) == x.second.key, "avl-get",
              "lookup during shape reconstruction failed");
        std::vector<const void *> path;
        for (auto k : cmp_trace[cur_task()])
            if (k != probe && (path.empty() || path.back() != k))
                path.push_back(k);
        if ((int) path.size() > bound)
            fail("model", "avl-path-too-long", "lookup in a tree of %zu elements "
                 "compares with %zu of them; a height-balanced tree allows %d",
                 t->m.size(), path.size(), bound);
        if (path.empty())
            return; // the lookup did not need comparisons: nothing to learn
        if (!root)
            root = path[0];
        if (path[0] != root || path.back() != x.second.key)
            return; // not a plain descent from one root
        for (size_t i = 1; i < path.size(); i++) {
            auto p = parent.find(path[i]);
            if (p == parent.end()) {
                parent[path[i]] = path[i - 1];
                kids[path[i - 1]].push_back(path[i]);
            } else if (p->second != path[i - 1])
                return;
        }
    }
    if (!root)
        return;
    PROBE("avl.shape_checked");
    std::function<int(const void *, int)> height = [&](const void *k, int d) -> int {
        if (d > 64)
            fail("model", "avl-path-too-long", "tree deeper than 64");
        int h[2] = {0, 0};
        auto it = kids.find(k);
        int rk = key_rank(k, "avl-shape");
        if (it != kids.end())
            for (auto c : it->second) {
                int side = ORD(t, key_rank(c, "avl-shape")) > ORD(t, rk);
                h[side] = std::max(h[side], height(c, d + 1));
            }
        if (h[0] - h[1] > 1 || h[1] - h[0] > 1)
            fail("model", "avl-unbalanced", "branches of heights %d and %d below "
                 "an element of a tree of %zu", h[0], h[1], t->m.size());
        return 1 + std::max(h[0], h[1]);
    };
    int h = height(root, 0);
    trace(h);
    if (t->m.size() > st->maxsize)
        st->maxsize = t->m.size();
    if (h == bound && h > 3)
        PROBE("avl.shape_at_bound");
}
void ContWorld::do_avl(const Op &op)
{
    if (op.code == A_NEW) {
        avl_new(op.arg(1), op.arg(2));
        return;
    }
    if (op.code == A_ORPHAN_DESTROY || op.code == A_ORPHAN_CHECK) {
        if (aorph.empty())
            return;
        size_t i = (u64) op.arg(1) % aorph.size();
        AvlOrphan o = aorph[i];
        aorph.erase(aorph.begin() + i); // this client's alone meanwhile
        Entry w{o.key, o.val};
        avl_check(o.e, &w, "avl-orphan");
        if (op.code == A_ORPHAN_DESTROY)
            destroy_avl_element(o.e);
        else
            aorph.push_back(o);
        return;
    }
    AvlObj *t = pick_avl(op.arg(0));
    if (!t)
        return;
    act_avl[cur_task()] = t;
    int rank = (u64) op.arg(1) % nk;
    int var = (u64) op.arg(2) % (nvar - 1);
    int pvar = (u64) op.arg(2) % nvar;
    i64 o = ORD(t, rank);
    const void *k = key(kmode(t), rank, pvar);
    auto &m = t->m;
    auto at = [](decltype(m.begin()) it, std::map<i64, Entry> &m) -> const Entry * {
        return it == m.end() ? nullptr : &it->second;
    };
    auto prev_of = [&](decltype(m.begin()) it) -> const Entry * {
        return it == m.begin() ? nullptr : &std::prev(it)->second;
    };
    switch (op.code) {
        case A_PUT:
            avl_put(t, rank, var, val(op.arg(3)));
            break;
        case A_REPUT: { // put back the very value stored
            auto it = m.find(o);
            avl_put(t, rank, var, it == m.end() ? val(1) : it->second.val);
            break;
        }
        case A_GET:
            avl_check(avl_tree_get(t->t, k), at(m.find(o), m), "avl-get");
            break;
        case A_BEFORE:
            avl_check(avl_tree_get_before(t->t, k), prev_of(m.lower_bound(o)),
                      "avl-get-before");
            break;
        case A_ONBEFORE:
            avl_check(avl_tree_get_on_or_before(t->t, k),
                      prev_of(m.upper_bound(o)), "avl-get-on-or-before");
            break;
        case A_AFTER:
            avl_check(avl_tree_get_after(t->t, k), at(m.upper_bound(o), m),
                      "avl-get-after");
            break;
        case A_ONAFTER:
            avl_check(avl_tree_get_on_or_after(t->t, k), at(m.lower_bound(o), m),
                      "avl-get-on-or-after");
            break;
        case A_ENDS:
            avl_check(avl_tree_get_first(t->t), at(m.begin(), m), "avl-first");
            avl_check(avl_tree_get_last(t->t), prev_of(m.end()), "avl-last");
            break;
        case A_WALK:
        case A_AUDIT:
            avl_audit(t);
            break;
        case A_REMOVE:
            avl_del(t, rank);
            break;
        case A_DETACH: {
            auto it = m.find(o);
            avl_elem_t *e = avl_tree_get(t->t, k);
            avl_check(e, at(it, m), "avl-get");
            if (!e)
                break;
            avl_tree_detach(t->t, e);
            aorph.push_back(AvlOrphan{e, it->second.key, it->second.val, t->idx});
            m.erase(it);
            t->version++;
            break;
        }
        case A_POP:
        case A_POPFIRST:
        case A_POPLAST: {
            auto it = op.code == A_POP ? m.find(o)
                : op.code == A_POPFIRST ? m.begin()
                : m.empty() ? m.end() : std::prev(m.end());
            avl_elem_t *e = op.code == A_POP ? avl_tree_pop(t->t, k)
                : op.code == A_POPFIRST ? avl_tree_pop_first(t->t)
                : avl_tree_pop_last(t->t);
            avl_check(e, at(it, m), op.code == A_POP ? "avl-pop"
                      : op.code == A_POPFIRST ? "avl-pop-first" : "avl-pop-last");
            if (!e)
                break;
            aorph.push_back(AvlOrphan{e, it->second.key, it->second.val, t->idx});
            m.erase(it);
            t->version++;
            break;
        }
        case A_SIZE:
            MODEL(avl_tree_size(t->t) == m.size(), "avl-size",
                  "size is %zu, expected %zu", avl_tree_size(t->t), m.size());
            MODEL(!avl_tree_empty(t->t) == !m.empty(), "avl-empty",
                  "emptiness wrong");
            break;
        case A_COPY: {
            if (avl.size() >= 10)
                break;
            avl_tree_t *c = avl_tree_copy(t->t);
            MODEL(c && c != t->t, "avl-copy", "copying did not give a new tree");
            auto n = std::make_unique<AvlObj>();
            n->t = c;
            n->mode = t->mode;
            n->ctx = t->ctx;
            n->m = m;
            n->idx = next_idx[FAM_AVL]++;
            PROBE("avl.copied");
            act_avl[cur_task()] = n.get();
            avl_audit(n.get());
            act_avl[cur_task()] = t;
            avl.push_back(std::move(n));
            break;
        }
        case A_DESTROY: {
            size_t live = 0;
            for (auto &x : avl)
                live += !x->dead;
            if (live < 2)
                break;
            t->dead = true;
            destroy_avl_tree(t->t);
            break;
        }
        case A_CURSOR: {
            // step a cursor about while nobody modifies the tree
            auto it = m.lower_bound(o);
            avl_elem_t *e = avl_tree_get_on_or_after(t->t, k);
            avl_check(e, at(it, m), "avl-get-on-or-after");
            Rng r(op.arg(3) + 17);
            for (int i = 0; i < 24 && e; i++) {
                if (r.chance(1, 2)) {
                    e = avl_tree_next(e);
                    ++it;
                    avl_check(e, at(it, m), "avl-next");
                } else {
                    e = avl_tree_previous(e);
                    const Entry *w = prev_of(it);
                    if (w)
                        --it;
                    avl_check(e, w, "avl-previous");
                }
            }
            break;
        }
        case A_BULKPUT:
        case A_BULKDEL: {
            int n = (u64) op.arg(3) % (nk + 1);
            Rng r(op.arg(4) + 1);
            for (int i = 0; i < n; i++) {
                int rk;
                switch ((u64) op.arg(4) % 4) {
                    case 0: rk = (rank + i) % nk; break;
                    case 1: rk = ((rank - i) % nk + nk) % nk; break;
                    case 2: rk = (i & 1 ? rank + i / 2 : nk + rank - i / 2 - 1) % nk; break;
                    default: rk = r.below(nk);
                }
                if (op.code == A_BULKPUT) {
                    avl_put(t, rk, var, val(i + op.arg(4)));
                    if (aorph.size() > 40) {
                        avl_elem_t *e = aorph.back().e;
                        aorph.pop_back();
                        destroy_avl_element(e);
                    }
                } else if (r.chance(1, 5)) {
                    // remove a neighbour through a cursor
                    avl_elem_t *e = avl_tree_get_on_or_after(
                        t->t, key(kmode(t), rk, 0));
                    auto it = m.lower_bound(ORD(t, rk));
                    avl_check(e, at(it, m), "avl-get-on-or-after");
                    if (e) {
                        avl_tree_remove(t->t, e);
                        m.erase(it);
                        t->version++;
                    }
                } else
                    avl_del(t, rk);
            }
            break;
        }
    }
    if (prop == "C02" && !t->dead)
        avl_balance(t);
    i64 every = plan.get("audit", 4);
    if (every && op.id % every == 0 && !t->dead && prop != "C02")
        avl_audit(t);
}

// ------------------------------------------------------------ hash table --
static int hmode(HashObj *h) { return 200 + h->mode; }
void ContWorld::hash_check(hash_elem_t *e, const Entry *want, const char *site)
{
    if (!want) {
        MODEL(!e, site, "expected no association, got one");
        trace(0);
        return;
    }
    MODEL(e, site, "expected an association, got NULL");
    const void *k = hash_elem_get_key(e), *v = hash_elem_get_value(e);
    MODEL(k == want->key, site, "association has key %p, expected %p", k,
          want->key);
    MODEL(v == want->val, site, "association has value %p, expected %p", v,
          want->val);
    trace((u64) k + (u64) v);
}
void ContWorld::hash_put(HashObj *h, int rank, int var, const void *v)
{
    const void *k = key(hmode(h), rank, var);
    hash_elem_t *old = hash_table_put(h->t, k, v);
    auto it = h->m.find(rank);
    if (it == h->m.end()) {
        h->version++;
        MODEL(!old, "hash-put-new", "inserting a new key returned an association");
        h->m[rank] = Entry{k, v};
        return;
    }
    if (it->second.val == v) {
        PROBE("hash.put_same_value");
        MODEL(!old, "hash-put-same-value", "inserting the value already stored "
              "at the key returned an association");
        h->version++;
        return;
    }
    h->version++;
    PROBE("hash.put_replaces");
    hash_check(old, &it->second, "hash-put-displaced");
    horph.push_back(HashOrphan{old, it->second.key, it->second.val});
    it->second = Entry{k, v};
}
void ContWorld::hash_audit(HashObj *h)
{
    MODEL(hash_table_size(h->t) == h->m.size(), "hash-size",
          "size is %zu, expected %zu", hash_table_size(h->t), h->m.size());
    MODEL(!hash_table_empty(h->t) == !h->m.empty(), "hash-empty",
          "emptiness wrong");
    for (int r = 0; r < nk; r++) {
        auto it = h->m.find(r);
        hash_check(hash_table_get(h->t, key(hmode(h), r, 2)),
                   it == h->m.end() ? nullptr : &it->second, "hash-get");
    }
    std::map<const void *, const void *> want;
    for (auto &x : h->m)
        want[x.second.key] = x.second.val;
    size_t n = 0;
    for (hash_elem_t *e = hash_table_get_any(h->t); e; e = hash_table_get_other(e)) {
        const void *k = hash_elem_get_key(e);
        auto it = want.find(k);
        MODEL(it != want.end(), "hash-traverse", "traversal yields an association "
              "twice, or one that is not in the table");
        MODEL(hash_elem_get_value(e) == it->second, "hash-traverse",
              "traversal yields a wrong value");
        want.erase(it);
        MODEL(++n <= h->m.size(), "hash-traverse", "traversal does not end");
    }
    MODEL(want.empty(), "hash-traverse", "traversal misses %zu of %zu associations",
          want.size(), h->m.size());
    if (h->m.size() > st->maxsize)
        st->maxsize = h->m.size();
}
void ContWorld::do_hash(const Op &op)
{
    if (op.code == H_NEW) {
        if (hash.size() >= 6)
            return;
        auto o = std::make_unique<HashObj>();
        o->mode = (u64) op.arg(1) % 10;
        o->idx = next_idx[FAM_HASH]++;
        size_t cap = op.arg(2);
        typedef u64 (*hf)(const void *);
        typedef int (*cf)(const void *, const void *);
        static const hf fs[] = {key_hash<0>, key_hash<1>, key_hash<2>,
                                key_hash<3>, key_hash<4>, key_hash<5>,
                                (hf) (void *) hash_string,
                                (hf) (void *) hash_integer,
                                (hf) (void *) hash_unsigned, key_hash<9>};
        cf c = o->mode == 6 ? hash_cmp_str
            : o->mode == 7 ? integer_cmp : o->mode == 8 ? unsigned_cmp
            : hash_cmp_plain;
        o->t = make_hash_table(cap, fs[o->mode], c);
        MODEL(o->t, "hash-make", "make_hash_table returned NULL");
        hash.push_back(std::move(o));
        return;
    }
    if (op.code == H_ORPHAN_CHECK || op.code == H_ORPHAN_DESTROY) {
        if (horph.empty())
            return;
        size_t i = (u64) op.arg(1) % horph.size();
        HashOrphan o = horph[i];
        horph.erase(horph.begin() + i);
        Entry w{o.key, o.val};
        hash_check(o.e, &w, "hash-orphan");
        if (op.code == H_ORPHAN_DESTROY)
            destroy_hash_element(o.e);
        else
            horph.push_back(o);
        return;
    }
    HashObj *h = pick_hash(op.arg(0));
    if (!h)
        return;
    int rank = (u64) op.arg(1) % nk;
    int var = (u64) op.arg(2) % nvar;
    const void *k = key(hmode(h), rank, var);
    auto it = h->m.find(rank);
    const Entry *want = it == h->m.end() ? nullptr : &it->second;
    switch (op.code) {
        case H_PUT:
            hash_put(h, rank, var, val(op.arg(3)));
            break;
        case H_REPUT:
            hash_put(h, rank, var, want ? want->val : val(1));
            break;
        case H_GET:
            hash_check(hash_table_get(h->t, k), want, "hash-get");
            break;
        case H_REMOVE:
        case H_DETACH: {
            hash_elem_t *e = hash_table_get(h->t, k);
            hash_check(e, want, "hash-get");
            if (!e)
                break;
            Entry w = *want;
            h->m.erase(it);
            h->version++;
            if (op.code == H_REMOVE)
                hash_table_remove(h->t, e);
            else {
                hash_table_detach(h->t, e);
                horph.push_back(HashOrphan{e, w.key, w.val});
            }
            break;
        }
        case H_POP: {
            hash_elem_t *e = hash_table_pop(h->t, k);
            hash_check(e, want, "hash-pop");
            if (!e)
                break;
            horph.push_back(HashOrphan{e, want->key, want->val});
            h->m.erase(it);
            h->version++;
            break;
        }
        case H_POPANY: {
            hash_elem_t *e = hash_table_pop_any(h->t);
            if (h->m.empty()) {
                MODEL(!e, "hash-pop-any", "popping from an empty table");
                break;
            }
            MODEL(e, "hash-pop-any", "popping from a non-empty table gave NULL");
            auto f = std::find_if(h->m.begin(), h->m.end(), [&](auto &x) {
                return x.second.key == hash_elem_get_key(e);
            });
            MODEL(f != h->m.end(), "hash-pop-any", "popped an association that is "
                  "not in the table");
            hash_check(e, &f->second, "hash-pop-any");
            horph.push_back(HashOrphan{e, f->second.key, f->second.val});
            h->m.erase(f);
            h->version++;
            break;
        }
        case H_TRAVERSE:
            hash_audit(h);
            break;
        case H_STEP: {
            // a traversal that goes on across operations of other clients
            HashCursor &c = cursors[cur_task()];
            if (c.h != h || c.version != h->version || !c.e) {
                c.h = h;
                c.version = h->version;
                c.seen.clear();
                c.e = hash_table_get_any(h->t);
                MODEL(!c.e == h->m.empty(), "hash-traverse",
                      "start of the traversal disagrees with emptiness");
            } else {
                PROBE("hash.traversal_resumed");
                c.e = hash_table_get_other(c.e);
                MODEL(c.e || c.seen.size() == h->m.size(), "hash-traverse",
                      "interleaved traversal ends after %zu of %zu",
                      c.seen.size(), h->m.size());
            }
            if (c.e) {
                const void *kk = hash_elem_get_key(c.e);
                MODEL(c.seen.insert(kk).second, "hash-traverse",
                      "interleaved traversal yields an association twice");
                bool in = false;
                for (auto &x : h->m)
                    in |= x.second.key == kk;
                MODEL(in, "hash-traverse", "traversal yields an association that "
                      "is not in the table");
            }
            break;
        }
        case H_SIZE:
            MODEL(hash_table_size(h->t) == h->m.size(), "hash-size",
                  "size is %zu, expected %zu", hash_table_size(h->t),
                  h->m.size());
            MODEL(!hash_table_empty(h->t) == !h->m.empty(), "hash-empty",
                  "emptiness wrong");
            break;
        case H_DESTROY: {
            size_t live = 0;
            for (auto &x : hash)
                live += !x->dead;
            if (live < 2)
                break;
            h->dead = true;
            destroy_hash_table(h->t);
            break;
        }
        case H_BULKPUT:
        case H_BULKDEL: {
            int n = (u64) op.arg(3) % (nk + 1);
            Rng r(op.arg(4) + 1);
            for (int i = 0; i < n; i++) {
                int rk = op.arg(4) & 1 ? (rank + i) % nk : (int) r.below(nk);
                if (op.code == H_BULKPUT) {
                    hash_put(h, rk, var, val(i + op.arg(4)));
                    if (horph.size() > 40) {
                        hash_elem_t *e = horph.back().e;
                        horph.pop_back();
                        destroy_hash_element(e);
                    }
                } else {
                    hash_elem_t *e = hash_table_get(h->t, key(hmode(h), rk, 0));
                    auto f = h->m.find(rk);
                    hash_check(e, f == h->m.end() ? nullptr : &f->second,
                               "hash-get");
                    if (e) {
                        hash_table_remove(h->t, e);
                        h->m.erase(f);
                        h->version++;
                    }
                }
            }
            break;
        }
    }
    i64 every = plan.get("audit", 4);
    if (every && op.id % every == 0 && !h->dead)
        hash_audit(h);
}

// ----------------------------------------------------------------- list ---
struct Foreach { ListObj *l; size_t i; void *arg; };
static void foreach_cb(const void *v, void *arg)
{
    callback_point();
    if (W->vals.index(v) < 0 && v)
        fail("model", "list-foreach", "callback got a value that is not in the "
             "list");
    Foreach *f = (Foreach *) arg;
    MODEL(f->i < f->l->m.size(), "list-foreach", "callback called too often");
    MODEL(f->l->m[f->i].val == v, "list-foreach", "callback got the wrong value "
          "at position %zu", f->i);
    f->i++;
}
void ContWorld::list_audit(ListObj *l)
{
    auto &m = l->m;
    MODEL(list_size(l->l) == m.size(), "list-size", "size is %zu, expected %zu",
          list_size(l->l), m.size());
    MODEL(!list_empty(l->l) == !m.empty(), "list-empty", "emptiness wrong");
    list_elem_t *e = list_get_first(l->l);
    for (size_t i = 0; i < m.size(); i++) {
        MODEL(e, "list-walk-forward", "walk ends at %zu of %zu", i, m.size());
        MODEL(e == m[i].e, "list-walk-forward",
              "walk meets the wrong element at position %zu", i);
        MODEL(list_elem_get_value(e) == m[i].val, "list-value",
              "element at position %zu has the wrong value", i);
        e = list_next(e);
    }
    MODEL(!e, "list-walk-forward", "walk goes on past the end");
    e = list_get_last(l->l);
    for (size_t i = m.size(); i-- > 0;) {
        MODEL(e == m[i].e, "list-walk-backward",
              "walk meets the wrong element at position %zu", i);
        e = list_previous(e);
    }
    MODEL(!e, "list-walk-backward", "walk goes on past the beginning");
    trace(m.size());
    if (m.size() > st->maxsize)
        st->maxsize = m.size();
}
void ContWorld::do_list(const Op &op)
{
    auto adopt = [&](list_t *x, std::deque<LNode> m) {
        auto o = std::make_unique<ListObj>();
        o->l = x;
        o->m = m;
        o->idx = next_idx[FAM_LIST]++;
        list_audit(o.get());
        list.push_back(std::move(o));
    };
    if (op.code == L_NEW) {
        if (list.size() < 10) {
            list_t *x = make_list();
            MODEL(x, "list-make", "make_list returned NULL");
            adopt(x, {});
        }
        return;
    }
    ListObj *l = pick_list(op.arg(0));
    if (!l)
        return;
    auto &m = l->m;
    const void *v = val(op.arg(2));
    size_t pos = m.empty() ? 0 : (u64) op.arg(1) % m.size();
    auto fresh = [&](list_elem_t *e) {
        MODEL(e, "list-insert", "insertion returned NULL");
        for (auto &x : m)
            MODEL(x.e != e, "list-insert", "insertion returned an element that "
                  "is already in the list");
        return LNode{e, v};
    };
    switch (op.code) {
        case L_APPEND:
            m.push_back(fresh(list_append(l->l, v)));
            break;
        case L_PREPEND:
            m.insert(m.begin(), fresh(list_prepend(l->l, v)));
            break;
        case L_INSERT:
            if (!m.empty()) {
                LNode n = fresh(list_insert_before(l->l, v, m[pos].e));
                m.insert(m.begin() + pos, n);
            }
            break;
        case L_REMOVE:
            if (!m.empty()) {
                list_remove(l->l, m[pos].e);
                m.erase(m.begin() + pos);
            }
            break;
        case L_POPFIRST: {
            const void *r = list_pop_first(l->l);
            const void *w = m.empty() ? nullptr : m.front().val;
            MODEL(r == w, "list-pop-first", "popped %p, expected %p", r, w);
            if (!m.empty())
                m.erase(m.begin());
            break;
        }
        case L_POPLAST: {
            const void *r = list_pop_last(l->l);
            const void *w = m.empty() ? nullptr : m.back().val;
            MODEL(r == w, "list-pop-last", "popped %p, expected %p", r, w);
            if (!m.empty())
                m.pop_back();
            break;
        }
        case L_GET: {
            list_elem_t *w = nullptr;
            for (auto &x : m)
                if (x.val == v) {
                    w = x.e;
                    break;
                }
            MODEL(list_get(l->l, v) == w, "list-get",
                  "search by value gave the wrong element");
            break;
        }
        case L_INDEX: {
            int i = (int) op.arg(1);
            if (op.arg(2) & 1 && i >= 0 && i < 1 << 20) // anywhere in the list
                i = (u64) op.arg(2) * 7919 % (m.size() + 2);
            list_elem_t *w = i >= 0 && (size_t) i < m.size() ? m[i].e : nullptr;
            MODEL(list_get_by_index(l->l, i) == w, "list-index",
                  "element at index %d of %zu is wrong", i, m.size());
            break;
        }
        case L_NEXT:
            if (!m.empty())
                MODEL(list_next(m[pos].e) ==
                      (pos + 1 < m.size() ? m[pos + 1].e : nullptr),
                      "list-next", "successor of position %zu is wrong", pos);
            break;
        case L_PREV:
            if (!m.empty())
                MODEL(list_previous(m[pos].e) == (pos ? m[pos - 1].e : nullptr),
                      "list-previous", "predecessor of position %zu is wrong",
                      pos);
            break;
        case L_VALUE:
            if (!m.empty())
                MODEL(list_elem_get_value(m[pos].e) == m[pos].val, "list-value",
                      "handle at position %zu changed its value", pos);
            break;
        case L_ENDS:
            MODEL(list_get_first(l->l) == (m.empty() ? nullptr : m.front().e),
                  "list-first", "first element is wrong");
            MODEL(list_get_last(l->l) == (m.empty() ? nullptr : m.back().e),
                  "list-last", "last element is wrong");
            break;
        case L_FOREACH: {
            Foreach f{l, 0, nullptr};
            list_foreach(l->l, foreach_cb, &f);
            MODEL(f.i == m.size(), "list-foreach", "callback called %zu times for "
                  "%zu elements", f.i, m.size());
            break;
        }
        case L_SIZE:
            MODEL(list_size(l->l) == m.size(), "list-size",
                  "size is %zu, expected %zu", list_size(l->l), m.size());
            MODEL(!list_empty(l->l) == !m.empty(), "list-empty",
                  "emptiness wrong");
            break;
        case L_COPY: {
            if (list.size() >= 10)
                break;
            list_t *c = list_copy(l->l);
            MODEL(c && c != l->l, "list-copy", "copying did not give a new list");
            PROBE("list.copied");
            std::deque<LNode> cm;
            std::set<list_elem_t *> own;
            for (auto &x : m)
                own.insert(x.e);
            list_elem_t *e = list_get_first(c);
            for (size_t i = 0; i < m.size(); i++) {
                MODEL(e, "list-copy", "copy has %zu of %zu elements", i, m.size());
                MODEL(!own.count(e), "list-copy", "copy shares an element");
                MODEL(list_elem_get_value(e) == m[i].val, "list-copy",
                      "copy has the wrong value at position %zu", i);
                cm.push_back(LNode{e, m[i].val});
                e = list_next(e);
            }
            MODEL(!e, "list-copy", "copy has too many elements");
            adopt(c, cm);
            break;
        }
        case L_DESTROY: {
            size_t live = 0;
            for (auto &x : list)
                live += !x->dead;
            if (live < 2)
                break;
            l->dead = true;
            destroy_list(l->l);
            break;
        }
        case L_WALK:
            list_audit(l);
            break;
        case L_BULK: {
            Rng r(op.arg(2) + 3);
            int n = (u64) op.arg(1) % (plan.get("huge") ? 1 << 20 : 200);
            if (plan.get("huge") && m.size() + n > 100000)
                break;
            for (int i = 0; i < n; i++) {
                v = val(r.below(nv + 1));
                if (r.chance(1, 2))
                    m.push_back(LNode{list_append(l->l, v), v});
                else
                    m.insert(m.begin(), LNode{list_prepend(l->l, v), v});
            }
            break;
        }
    }
    i64 every = plan.get("audit", 4);
    if (every && op.id % every == 0 && !l->dead)
        list_audit(l);
}

// -------------------------------------------------------- priority queue --
void ContWorld::pq_new(i64 mode, bool reloc, bool unique, bool ctx)
{
    if (pq.size() >= 8)
        return;
    auto o = std::make_unique<PqObj>();
    o->mode = (u64) mode % 8;
    o->idx = next_idx[FAM_PQ]++;
    o->reloc = reloc;
    o->unique = unique || (prop == "C06");
    if (ctx) {
        o->ctx = 24 + o->idx;
        ctxs.base[o->ctx].var = o->mode;
        o->q = make_priority_queue_2(pq_cmp_ctx, reloc ? pq_reloc_ctx : nullptr,
                                     ctxs.at(o->ctx));
    } else {
        typedef int (*cf)(const void *, const void *);
        static const cf cs[] = {pq_cmp<0>, pq_cmp<1>, pq_cmp<2>, pq_cmp<3>,
                                pq_cmp<4>, pq_cmp<5>, pq_cmp<6>, pq_cmp<7>};
        o->q = make_priority_queue(cs[o->mode], reloc ? pq_reloc : nullptr);
    }
    MODEL(o->q, "priorq-make", "make_priority_queue returned NULL");
    pq.push_back(std::move(o));
}
int ContWorld::pq_min_ok(PqObj *q, int e)
{
    return q->prios.begin()->first >= pq_prio(q->mode, e);
}
void ContWorld::pq_leave(PqObj *q, int e)
{
    if (!--q->m[e])
        q->m.erase(e);
    int p = pq_prio(q->mode, e);
    if (!--q->prios[p])
        q->prios.erase(p);
    q->n--;
}
int ContWorld::pq_some(PqObj *q, u64 k) // some queued element
{
    auto it = q->m.lower_bound(k % ne);
    return it == q->m.end() ? q->m.begin()->first : it->first;
}
void ContWorld::pq_check_locs(PqObj *q, const char *site)
{
    if (!q->reloc || !q->unique || (prop != "C06" && prop != "C09"))
        return;
    if (q->m.size() > 1000 && ++q->ops % (q->m.size() / 16))
        return;
    std::map<void *, int> seen;
    for (auto &x : q->m) {
        auto l = q->loc.find(x.first);
        MODEL(l != q->loc.end(), "priorq-no-locator",
              "no locator was ever reported for queued element %d", x.first);
        auto r = seen.insert({l->second, x.first});
        MODEL(r.second, "priorq-locator-clash", "elements %d and %d have the same "
              "last reported locator (%s)", r.first->second, x.first, site);
    }
}
void ContWorld::pq_enq(PqObj *q, int e)
{
    if (q->unique && q->m.count(e))
        return;
    q->entering = e;
    q->loc.erase(e);
    priorq_enqueue(q->q, elems.at(e));
    q->entering = -1;
    q->m[e]++;
    q->prios[pq_prio(q->mode, e)]++;
    q->n++;
    if (q->n > st->maxsize)
        st->maxsize = q->n;
    pq_check_locs(q, "enqueue");
}
void ContWorld::do_pq(const Op &op)
{
    if (op.code == Q_NEW) {
        pq_new(op.arg(1), op.arg(2) & 1, op.arg(2) & 2, op.arg(2) & 4);
        return;
    }
    PqObj *q = pick_pq(op.arg(0));
    if (!q)
        return;
    act_pq[cur_task()] = q;
    int e = (u64) op.arg(1) % ne;
    auto leave = [&](int i) { pq_leave(q, i); };
    auto dequeue = [&] {
        const void *p = priorq_dequeue(q->q);
        if (!q->n) {
            MODEL(!p, "priorq-dequeue", "dequeued from an empty queue");
            return;
        }
        MODEL(p, "priorq-dequeue", "dequeue from a queue of %zu gave NULL", q->n);
        int i = elem_index(p, "priorq-dequeue");
        trace(i);
        MODEL(q->m.count(i), "priorq-dequeue",
              "dequeued element %d, which is not queued", i);
        MODEL(pq_min_ok(q, i), "priorq-order",
              "dequeued element %d although another precedes it", i);
        leave(i);
        pq_check_locs(q, "dequeue");
    };
    auto remove = [&](size_t k) {
        if (!q->n || !q->reloc || !q->unique)
            return;
        int i = pq_some(q, k);
        auto l = q->loc.find(i);
        MODEL(l != q->loc.end(), "priorq-no-locator",
              "no locator was ever reported for queued element %d", i);
        PROBE("priorq.removed_by_locator");
        const void *p = priorq_remove(q->q, l->second);
        MODEL(p == elems.at(i), "priorq-remove", "removing with the last reported "
              "locator of element %d gave %s", i,
              p ? "another element" : "NULL");
        leave(i);
        q->loc.erase(i);
        pq_check_locs(q, "remove");
    };
    switch (op.code) {
        case Q_ENQ:
            pq_enq(q, e);
            break;
        case Q_DEQ:
            dequeue();
            break;
        case Q_PEEK: {
            const void *p = priorq_peek(q->q);
            MODEL(!p == !q->n, "priorq-peek", "peek disagrees with emptiness");
            if (p) {
                int i = elem_index(p, "priorq-peek");
                MODEL(q->m.count(i), "priorq-peek",
                      "peeked at element %d, which is not queued", i);
                MODEL(pq_min_ok(q, i), "priorq-order",
                      "peeked at element %d although another precedes it", i);
            }
            break;
        }
        case Q_POP: {
            const void *p = priorq_pop(q->q);
            MODEL(!p == !q->n, "priorq-pop", "pop disagrees with emptiness");
            if (p) {
                int i = elem_index(p, "priorq-pop");
                MODEL(q->m.count(i), "priorq-pop",
                      "popped element %d, which is not queued", i);
                leave(i);
                pq_check_locs(q, "pop");
            }
            break;
        }
        case Q_REMOVE:
            remove(op.arg(1));
            break;
        case Q_SIZE:
            break;
        case Q_BULKENQ: {
            Rng r(op.arg(2) + 5);
            int n = (u64) op.arg(1) % (ne + 1);
            if (plan.get("huge")) { // each element once, so that all fit in
                u64 at = r.below(ne), step = r.below(2) ? 1 : 7919;
                for (int i = 0; i < n; i++, at += step)
                    pq_enq(q, at % ne);
                break;
            }
            for (int i = 0; i < n; i++)
                pq_enq(q, r.below(ne));
            break;
        }
        case Q_DRAIN: {
            Rng r(op.arg(2) + 5);
            size_t n = (u64) op.arg(1) % (ne + 1);
            for (size_t i = 0; i < n && q->n; i++)
                if (r.chance(2, 3) && q->reloc && q->unique)
                    remove(r.below(1 << 20));
                else
                    dequeue();
            break;
        }
        case Q_DESTROY: {
            size_t live = 0;
            for (auto &x : pq)
                live += !x->dead;
            if (live < 2)
                break;
            q->dead = true;
            destroy_priority_queue(q->q);
            return;
        }
    }
    MODEL(priorq_size(q->q) == q->n, "priorq-size", "size is %zu, expected %zu",
          priorq_size(q->q), q->n);
    MODEL(priorq_empty(q->q) == !q->n, "priorq-empty", "emptiness wrong");
    trace(q->n);
}

// ------------------------------------------------------------ byte array --
static ssize_t stream_read(void *obj, void *buf, size_t count)
{
    callback_point();
    BaObj *b = nullptr;
    for (auto &x : W->ba)
        if ((void *) x.get() == obj)
            b = x.get();
    if (!b)
        fail("model", "stream-context", "read callback got a foreign context");
    const Op *op = b->op;
    MODEL(++b->calls == 1, "stream-called-twice",
          "the stream was read more than once in one call");
    size_t lim = b->want < b->room ? b->want : b->room;
    MODEL(count <= lim, "stream-count", "the stream was asked for %zu bytes; at "
          "most %zu may be accepted", count, lim);
    MODEL(count > 0 || lim == 0, "stream-count",
          "the stream was asked for nothing although %zu bytes are wanted", lim);
    // the buffer has to be the library's own, writable memory
    chk_read(buf, count, "stream buffer");
    size_t give = count;
    int mode = 0;
    bool scribble = false;
    for (auto &f : op->f) {
        if (f.kind == F_SHORT_READ && count > 1) {
            give = 1 + (u64) f.n % (count - 1);
            fired(F_SHORT_READ);
        } else if (f.kind == F_EOF || f.kind == F_EAGAIN || f.kind == F_EINTR ||
                   f.kind == F_EIO) {
            mode = f.kind;
            fired(f.kind);
        } else if (f.kind == F_SCRIBBLE) {
            scribble = true;
            fired(F_SCRIBBLE);
        }
    }
    if (scribble) // uses all of its buffer whatever it then reports
        for (size_t i = 0; i < count; i++)
            ((u8 *) buf)[i] = 0x41 + i % 26;
    if (op->arg(3))
        yield_now(op->arg(3));
    b->err = 0;
    if (mode) {
        note_nontrivial();
        b->ret = mode == F_EOF ? 0 : -1;
        b->err = mode == F_EAGAIN ? EAGAIN : mode == F_EINTR ? EINTR : EIO;
        if (b->ret < 0)
            errno = b->err;
        return b->ret;
    }
    std::string all = pattern_bytes(b->stream_seed + b->stream_pos, give, false);
    if (give)
        memcpy(buf, all.data(), give);
    b->given = all;
    b->stream_pos += give;
    b->ret = give;
    return give;
}
void ContWorld::ba_check(BaObj *b, const char *site)
{
    size_t n = byte_array_size(b->a);
    MODEL(n == b->d.size(), site, "size is %zu, expected %zu", n, b->d.size());
    const char *p = (const char *) byte_array_data(b->a);
    MODEL(p, site, "no data");
    chk_read(p, n + 1, "byte array contents");
    for (size_t i = 0; i < n; i++)
        if (p[i] != b->d[i])
            fail("model", site, "byte %zu of %zu is 0x%02x, expected 0x%02x", i, n,
                 (u8) p[i], (u8) b->d[i]);
    MODEL(p[n] == 0, "bytearray-nul", "no NUL after the %zu bytes (0x%02x) in %s",
          n, (u8) p[n], site);
    MODEL(n + 1 <= b->max, "bytearray-limit", "holds %zu bytes and a NUL, limit %zu",
          n, b->max);
    trace(n);
}
// the contents an owner was looking at while others came and went
void ContWorld::still_there(BaObj *b, const char *held)
{
    size_t n = b->d.size();
    chk_read(held, n + 1, "the contents another owner had got hold of");
    MODEL(!memcmp(held, b->d.data(), n) && !held[n], "bytearray-shared",
          "the contents another owner had got hold of changed");
}
void ContWorld::do_ba(const Op &op)
{
    if (op.code == B_NEW) {
        if (ba.size() >= 8)
            return;
        auto o = std::make_unique<BaObj>();
        o->max = (size_t) op.arg(1);
        if (o->max < 1)
            o->max = 1;
        o->idx = next_idx[FAM_BA]++;
        o->a = make_byte_array(o->max);
        MODEL(o->a, "bytearray-make", "make_byte_array returned NULL");
        o->owners.push_back(cur_task());
        o->stream_seed = op.arg(2) * 1000003;
        ba_check(o.get(), "bytearray-new");
        ba.push_back(std::move(o));
        return;
    }
    BaObj *b = pick_ba(op.arg(0));
    if (!b)
        return;
    std::string &d = b->d;
    size_t room = b->max - 1 - d.size();
    size_t len = (size_t) op.arg(1);
    auto result = [&](bool got, bool want, const char *site) {
        MODEL(got == want, site, "returned %s for %zu more bytes with room for %zu",
              got ? "success" : "refusal", len, room);
        if (!want) {
            PROBE("bytearray.refused");
            fired(F_FULL);
            MODEL(errno == ENOSPC, "bytearray-errno", "%s refused with errno %d",
                  site, errno);
        }
    };
    auto input = [&](const std::string &s, bool str) {
        char *p = (char *) caller_alloc(s.size() + str, SH_RO);
        if (s.size())
            memcpy(p, s.data(), s.size());
        if (str)
            p[s.size()] = 0;
        return p;
    };
    errno = 0;
    switch (op.code) {
        case B_APPEND:
        case B_APPENDSTR: {
            if (len > (1u << 20))
                break;
            bool str = op.code == B_APPENDSTR;
            std::string s = pattern_bytes(op.arg(2), len, str);
            char *p = input(s, str);
            bool want = len <= room;
            errno = 0;
            bool got = str ? byte_array_append_string(b->a, p)
                           : byte_array_append(b->a, p, len);
            result(got, want, "bytearray-append");
            if (want)
                d += s;
            caller_free(p);
            break;
        }
        case B_COPY:
        case B_COPYSTR: {
            if (len > (1u << 20))
                break;
            bool str = op.code == B_COPYSTR;
            std::string s = pattern_bytes(op.arg(2), len, str);
            char *p = input(s, str);
            size_t pos = (u64) op.arg(3) % (d.size() + 1);
            bool want = pos + len <= d.size() || pos + len + 1 <= b->max;
            errno = 0;
            bool got = str ? byte_array_copy_string(b->a, pos, p)
                           : byte_array_copy(b->a, pos, p, len);
            result(got, want, "bytearray-copy");
            if (want) {
                if (pos + len > d.size())
                    d.resize(pos + len);
                memcpy(&d[pos], s.data(), len);
            }
            caller_free(p);
            break;
        }
        case B_SELFCOPY: {
            if (d.empty())
                break;
            size_t from = (u64) op.arg(2) % d.size();
            size_t pos = (u64) op.arg(3) % d.size();
            size_t n = len % (d.size() - std::max(from, pos) + 1);
            const char *p = (const char *) byte_array_data(b->a);
            PROBE("bytearray.self_copy");
            bool got = byte_array_copy(b->a, pos, p + from, n);
            MODEL(got, "bytearray-self-copy", "copy inside the array refused");
            memmove(&d[pos], &d[from], n);
            break;
        }
        case B_RESIZE: {
            if (len > (1u << 20))
                break;
            bool want = len <= d.size() || len + 1 <= b->max;
            u8 c = op.arg(2);
            bool got = byte_array_resize(b->a, len, c);
            result(got, want, "bytearray-resize");
            if (want)
                d.resize(len, (char) c);
            break;
        }
        case B_CLEAR:
            byte_array_clear(b->a);
            d.clear();
            break;
        case B_STREAM: {
            if (b->max > (1u << 22) && len > (1u << 20))
                len %= 4096; // unlimited array: ask for what memory can hold
            b->op = &op;
            b->calls = 0;
            b->want = len;
            b->room = room;
            b->given.clear();
            b->ret = 0;
            // the callback may be suspended inside; nobody else touches b
            errno = 0;
            ssize_t got = byte_array_append_stream(b->a, stream_read, b, len);
            int err = errno;
            b->op = nullptr;
            if (room == 0 && len > 0) {
                PROBE("bytearray.stream_full");
                fired(F_FULL);
                MODEL(b->calls == 0, "stream-read-when-full",
                      "the stream was read although the array is full");
                MODEL(got == -1 && err == ENOSPC, "stream-full",
                      "full array: returned %zd, errno %d", got, err);
            } else if (b->calls == 0) {
                MODEL(len == 0 && got == 0, "stream-not-read",
                      "the stream was not read; returned %zd", got);
            } else {
                MODEL(got == b->ret, "stream-result",
                      "the stream gave %zd but the caller got %zd", b->ret, got);
                if (got < 0)
                    MODEL(err == b->err, "stream-errno", "the stream's errno %d "
                          "reached the caller as %d", b->err, err);
                d += b->given;
            }
            break;
        }
        case B_HUGE: {
            if (b->max > (1u << 22))
                break;
            // lengths near the largest size_t have to be refused untouched
            static const size_t lens[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2,
                                          SIZE_MAX / 2 + 1, (size_t) 1 << 32,
                                          SIZE_MAX - 127, SIZE_MAX - 4096};
            len = lens[(u64) op.arg(1) % 7] - (u64) op.arg(4) % 4;
            if ((u64) op.arg(1) % 14 >= 7)
                len = SIZE_MAX - d.size() + (u64) op.arg(4) % 5 - 2;
            char *p = input("x", false);
            bool got;
            if (len < 1u << 22)
                break;
            size_t pos = (u64) op.arg(3) % (d.size() + 1);
            errno = 0;
            PROBE("bytearray.huge_length");
            switch ((u64) op.arg(2) % 3) {
                case 0:
                    got = byte_array_append(b->a, p, len);
                    break;
                case 1:
                    got = byte_array_copy(b->a, pos, p, len);
                    break;
                default:
                    got = byte_array_resize(b->a, len, 7);
            }
            result(got, false, "bytearray-huge");
            caller_free(p);
            break;
        }
        case B_BADPOS: {
            char *p = input("abc", false);
            size_t pos = d.size() + 1 + (u64) op.arg(3) % 200;
            if (op.arg(1) & 1)
                pos = SIZE_MAX - (u64) op.arg(3) % 5;
            bool got = byte_array_copy(b->a, pos, p, (u64) op.arg(2) % 4);
            MODEL(!got, "bytearray-bad-position",
                  "copy to position %zu of an array of %zu succeeded", pos,
                  d.size());
            caller_free(p);
            break;
        }
        case B_READ:
            break;
        case B_SHARE: {
            if (b->owners.size() >= 400)
                break;
            int n = 1 + (op.arg(1) > 0 ? op.arg(1) % 100000 : 0);
            const char *held = (const char *) byte_array_data(b->a);
            for (int i = 0; i < n; i++) {
                byte_array_t *s = share_byte_array(b->a);
                MODEL(s == b->a, "bytearray-share", "sharing gave another array");
                b->owners.push_back(cur_task());
            }
            still_there(b, held);
            PROBE("bytearray.shared");
            break;
        }
        case B_DROP: {
            size_t live = 0;
            for (auto &x : ba)
                live += !x->dead;
            if (b->owners.size() == 1 && live < 2)
                break;
            int n = 1 + (op.arg(1) > 0 ? op.arg(1) % 100000 : 0);
            const char *held = (const char *) byte_array_data(b->a);
            while (n-- && !b->dead) {
                if (b->owners.size() == 1 && live < 2)
                    break;
                b->owners.pop_back();
                if (b->owners.empty())
                    b->dead = true;
                if (op.arg(2) & 1) {
                    // called outside the pointer's own noexcept functions,
                    // which a suspended task could not be unwound through
                    auto ptr = fsecure::fsdyn::make_byte_array_ptr(b->a);
                    auto del = ptr.get_deleter();
                    del(ptr.release());
                } else
                    destroy_byte_array(b->a);
            }
            if (b->dead) {
                PROBE("bytearray.last_owner_left");
                return;
            }
            still_there(b, held);
            break;
        }
    }
    ba_check(b, op.code == B_STREAM ? "bytearray-after-stream"
             : op.code == B_SHARE || op.code == B_DROP ? "bytearray-shared"
             : "bytearray-contents");
}

// ----------------------------------------------------------- integer set --
void ContWorld::int_scan(IntObj *s)
{
    for (size_t i = 0; i < s->size + 70; i++)
        MODEL(intset_has(s->s, i) == (i < s->size && s->m[i]), "intset-has",
              "membership of %zu in a set of size %zu is wrong", i, s->size);
    std::vector<int> got, want;
    for (int e = intset_find_next_hit(s->s, 0); e >= 0;
         e = intset_find_next_hit(s->s, e + 1)) {
        got.push_back(e);
        MODEL(got.size() <= s->size + 1, "intset-hit", "search does not end");
    }
    for (size_t i = 0; i < s->size; i++)
        if (s->m[i])
            want.push_back(i);
    MODEL(got == want, "intset-hit", "search for members finds %zu of %zu",
          got.size(), want.size());
    got.clear();
    want.clear();
    for (int e = intset_find_next_miss(s->s, 0); e >= 0;
         e = intset_find_next_miss(s->s, e + 1)) {
        got.push_back(e);
        MODEL(got.size() <= s->size + 1, "intset-miss", "search does not end");
    }
    for (size_t i = 0; i < s->size; i++)
        if (!s->m[i])
            want.push_back(i);
    MODEL(got == want, "intset-miss", "search for non-members finds %zu of %zu",
          got.size(), want.size());
    MODEL(intset_empty(s->s) ==
          (std::find(s->m.begin(), s->m.end(), 1) == s->m.end()),
          "intset-empty", "emptiness wrong");
}
void ContWorld::do_int(const Op &op)
{
    if (op.code == I_NEW) {
        if (ints.size() >= 12)
            return;
        auto o = std::make_unique<IntObj>();
        o->size = (u64) op.arg(1);
        o->idx = next_idx[FAM_INT]++;
        o->s = make_intset(o->size);
        MODEL(o->s, "intset-make", "make_intset returned NULL");
        o->m.assign(o->size, 0);
        int_scan(o.get());
        ints.push_back(std::move(o));
        return;
    }
    IntObj *s = pick_int(op.arg(0));
    if (!s)
        return;
    unsigned e = (u64) op.arg(1) % (s->size + 130);
    if (op.arg(2) == 1)
        e = UINT_MAX - e % 70;
    else if (op.arg(2) == 2 && s->size)
        e = (s->size - 1 + e % 3) & UINT_MAX; // around the end
    else if (op.arg(2) == 3)
        e = (e / 64) * 64 + e % 2 - (e >= 64 ? 1 : 0); // around word borders
    bool in = e < s->size;
    switch (op.code) {
        case I_ADD:
            intset_add(s->s, e);
            if (in)
                s->m[e] = 1;
            break;
        case I_REMOVE:
            intset_remove(s->s, e);
            if (in)
                s->m[e] = 0;
            break;
        case I_FILL:
            intset_fill(s->s);
            s->m.assign(s->size, 1);
            break;
        case I_HAS:
            MODEL(intset_has(s->s, e) == (in && s->m[e]), "intset-has",
                  "membership of %u in a set of size %zu is wrong", e, s->size);
            break;
        case I_HIT:
        case I_MISS: {
            int w = -1;
            for (size_t i = e; i < s->size; i++)
                if (s->m[i] == (op.code == I_HIT)) {
                    w = i;
                    break;
                }
            int g = op.code == I_HIT ? intset_find_next_hit(s->s, e)
                                     : intset_find_next_miss(s->s, e);
            MODEL(g == w, op.code == I_HIT ? "intset-hit" : "intset-miss",
                  "search from %u in a set of size %zu gave %d, expected %d", e,
                  s->size, g, w);
            break;
        }
        case I_SCAN:
            int_scan(s);
            break;
        case I_EMPTY:
            MODEL(intset_empty(s->s) ==
                  (std::find(s->m.begin(), s->m.end(), 1) == s->m.end()),
                  "intset-empty", "emptiness wrong");
            break;
        case I_BULK: {
            Rng r(op.arg(1) + 11);
            for (int i = 0; i < 40 && s->size; i++) {
                unsigned x = r.below(s->size);
                bool add = r.chance(1, 2);
                if (add)
                    intset_add(s->s, x);
                else
                    intset_remove(s->s, x);
                s->m[x] = add;
            }
            break;
        }
        case I_DESTROY: {
            size_t live = 0;
            for (auto &x : ints)
                live += !x->dead;
            if (live < 2)
                return;
            s->dead = true;
            destroy_intset(s->s);
            return;
        }
    }
    i64 every = plan.get("audit", 4);
    if (every && op.id % every == 0)
        int_scan(s);
}

// --------------------------------------------------------------- finish ---
void ContWorld::teardown()
{
    for (auto &t : avl)
        if (!t->dead) {
            act_avl[0] = t.get();
            if (prop == "C02")
                avl_balance(t.get());
            avl_audit(t.get());
            for (auto &o : aorph) {
                Entry w{o.key, o.val};
                avl_check(o.e, &w, "avl-orphan");
            }
        }
    bool late = plan.seed & 1; // orphans may outlive their tree
    auto orphans = [&] {
        for (auto &o : aorph) {
            Entry w{o.key, o.val};
            avl_check(o.e, &w, "avl-orphan");
            destroy_avl_element(o.e);
        }
        aorph.clear();
        for (auto &o : horph) {
            Entry w{o.key, o.val};
            hash_check(o.e, &w, "hash-orphan");
            destroy_hash_element(o.e);
        }
        horph.clear();
    };
    if (!late)
        orphans();
    for (auto &t : avl)
        if (!t->dead) {
            t->dead = true;
            destroy_avl_tree(t->t);
            if (prop == "C18")
                for (auto &u : avl)
                    if (!u->dead) {
                        act_avl[0] = u.get();
                        avl_audit(u.get());
                    }
        }
    for (auto &h : hash)
        if (!h->dead) {
            hash_audit(h.get());
            h->dead = true;
            destroy_hash_table(h->t);
        }
    if (late)
        orphans();
    for (auto &l : list)
        if (!l->dead) {
            list_audit(l.get());
            l->dead = true;
            destroy_list(l->l);
            if (prop == "C18")
                for (auto &u : list)
                    if (!u->dead)
                        list_audit(u.get());
        }
    for (auto &q : pq)
        if (!q->dead) {
            act_pq[0] = q.get();
            // drain: every element has to come out, in order
            Op drain;
            drain.a = {0, 0, 0};
            while (q->n) {
                size_t before = q->n;
                if (prop == "C06" && q->reloc) {
                    int i = pq_some(q.get(), plan.seed + q->n * 7);
                    MODEL(q->loc.count(i), "priorq-no-locator",
                          "no locator was ever reported for element %d", i);
                    const void *p = priorq_remove(q->q, q->loc[i]);
                    MODEL(p == elems.at(i), "priorq-remove", "removing with the "
                          "last reported locator of element %d gave %s", i,
                          p ? "another element" : "NULL");
                    pq_leave(q.get(), i);
                } else {
                    const void *p = priorq_dequeue(q->q);
                    MODEL(p, "priorq-dequeue", "queue of %zu gave NULL", q->n);
                    int i = elem_index(p, "priorq-dequeue");
                    MODEL(q->m.count(i), "priorq-dequeue",
                          "dequeued element %d, which is not queued", i);
                    MODEL(pq_min_ok(q.get(), i), "priorq-order",
                          "dequeued element %d although another precedes it", i);
                    pq_leave(q.get(), i);
                }
                MODEL(priorq_size(q->q) == before - 1, "priorq-size",
                      "size is %zu, expected %zu", priorq_size(q->q), before - 1);
                if (prop == "C09" && before % 3 == 0)
                    break;
            }
            if (!q->n)
                MODEL(!priorq_dequeue(q->q) && !priorq_peek(q->q) &&
                      !priorq_pop(q->q), "priorq-dequeue",
                      "an empty queue gave an element");
            q->dead = true;
            destroy_priority_queue(q->q);
        }
    for (auto &b : ba)
        if (!b->dead) {
            while (!b->owners.empty()) {
                size_t left = b->owners.size();
                if (left < 4 || left % 65536 < 2 || left % 256 == 0)
                    ba_check(b.get(), "bytearray-shared");
                b->owners.pop_back();
                if (b->owners.size() % 2)
                    fsecure::fsdyn::make_byte_array_ptr(b->a).reset();
                else
                    destroy_byte_array(b->a);
            }
            b->dead = true;
        }
    for (auto &s : ints)
        if (!s->dead) {
            int_scan(s.get());
            s->dead = true;
            destroy_intset(s->s);
        }
}
void ContWorld::finish()
{
    teardown();
    if (leak_check && (i64) heap_live_lib() + skew_total != 0)
        fail("leak", "leak", "%llu blocks remain allocated at the end, %lld of "
             "them declared permanent:%s",
             (unsigned long long) heap_live_lib(), (long long) -skew_total,
             heap_describe_live().c_str());
    // nobody may have written to the caller's objects
    for (int i = 0; i < vals.n; i++)
        if (vals.base[i].pad != 0x1122334455667788ULL + i)
            fail("mem", "caller-object-changed", "value object %d changed", i);
    trace(heap_live_lib());
}

// ------------------------------------------------------------ generators --
void gen_heap(Plan &p, Rng &r)
{
    p.cfg["reuse"] = r.below(3);
    p.cfg["move"] = r.below(3);
    p.cfg["slack"] = r.pick<int>({0, 0, 3, 40});
    p.cfg["fill"] = r.pick<int>({-1, -1, 0xaa, 0xff, 0, 1, 0x7f});
    p.cfg["zero_null"] = r.below(2);
}
void gen_preempts(Plan &p, Rng &r, int num, int den, i64 maxat)
{
    for (auto &o : p.ops)
        if (r.chance(num, den)) {
            int n = r.chance(1, 4) ? 2 : 1;
            i64 at = 0;
            while (n--) {
                i64 lim = r.chance(3, 4) ? 30 : r.chance(2, 3) ? 200 : maxat;
                at += 1 + r.below(lim);
                o.p.push_back(Preempt{at, r.range(1, 4)});
            }
        }
}
static int weighted(Rng &r, std::initializer_list<std::pair<int, int>> l)
{
    int tot = 0;
    for (auto &x : l)
        tot += x.second;
    int k = r.below(tot);
    for (auto &x : l)
        if ((k -= x.second) < 0)
            return x.first;
    return l.begin()->first;
}
static i64 pick_len(Rng &r)
{
    switch (r.below(8)) {
        case 0: return 0;
        case 1: return r.below(4);
        case 2: return r.pick<i64>({126, 127, 128, 129, 255, 256, 63, 64, 65});
        case 3: return r.below(600);
        default: return r.below(40);
    }
}
static Op gen_op(Rng &r, int fam, int bulk, const Plan &p)
{
    Op o;
    i64 sel = r.below(64);
    bool shrink = r.chance(1, 2);
    (void) shrink;
    switch (fam) {
        case FAM_AVL: {
            int w = p.get("mix");
            o.code = weighted(r, {{A_PUT, w == 1 ? 30 : 22},
                                  {A_REMOVE, w == 2 ? 20 : 9},
                                  {A_DETACH, 5}, {A_POP, 6}, {A_POPFIRST, 3},
                                  {A_POPLAST, 3}, {A_GET, 6}, {A_BEFORE, 4},
                                  {A_ONBEFORE, 4}, {A_AFTER, 4}, {A_ONAFTER, 4},
                                  {A_ENDS, 2}, {A_WALK, 3}, {A_CURSOR, 4},
                                  {A_SIZE, 2}, {A_COPY, p.prop == "C18" ? 9 : 2},
                                  {A_DESTROY, p.prop == "C18" ? 3 : 1},
                                  {A_ORPHAN_DESTROY, 4}, {A_ORPHAN_CHECK, 2},
                                  {A_REPUT, 4}, {A_NEW, 1},
                                  {A_BULKPUT, bulk ? 8 : 1},
                                  {A_BULKDEL, bulk ? 8 : 1}});
            o.a = {sel, (i64) r.below(1 << 20), (i64) r.below(3),
                   (i64) r.below(1 << 16), (i64) r.below(1 << 16)};
            if (o.code == A_PUT)
                o.a[3] = r.below(p.get("nv") + 1);
            if (o.code == A_NEW)
                o.a = {sel, (i64) r.below(6), (i64) r.below(2)};
            break;
        }
        case FAM_HASH:
            o.code = weighted(r, {{H_PUT, 24}, {H_GET, 10}, {H_REMOVE, 9},
                                  {H_DETACH, 5}, {H_POP, 7}, {H_POPANY, 5},
                                  {H_TRAVERSE, 4}, {H_STEP, 14}, {H_SIZE, 3},
                                  {H_DESTROY, 1}, {H_ORPHAN_DESTROY, 4},
                                  {H_ORPHAN_CHECK, 2}, {H_REPUT, 5}, {H_NEW, 2},
                                  {H_BULKPUT, bulk ? 6 : 1},
                                  {H_BULKDEL, bulk ? 6 : 1}});
            o.a = {sel, (i64) r.below(1 << 20), (i64) r.below(3),
                   (i64) r.below(1 << 16), (i64) r.below(1 << 16)};
            if (o.code == H_PUT)
                o.a[3] = r.below(p.get("nv") + 1);
            if (o.code == H_NEW)
                o.a = {sel, (i64) r.below(10),
                       r.pick<i64>({0, 1, 10, 53, 54, 97, 98, 200, 1000, 3000})};
            break;
        case FAM_LIST:
            o.code = weighted(r, {{L_APPEND, 14}, {L_PREPEND, 10}, {L_INSERT, 14},
                                  {L_REMOVE, 16}, {L_POPFIRST, 5}, {L_POPLAST, 5},
                                  {L_GET, 5}, {L_INDEX, 6}, {L_NEXT, 4},
                                  {L_PREV, 4}, {L_ENDS, 3}, {L_FOREACH, 3},
                                  {L_SIZE, 3}, {L_COPY, p.prop == "C18" ? 9 : 3},
                                  {L_DESTROY, p.prop == "C18" ? 3 : 1},
                                  {L_WALK, 4}, {L_VALUE, 3},
                                  {L_BULK, bulk ? 2 : 0}, {L_NEW, 2}});
            o.a = {sel, (i64) r.below(1 << 20), (i64) r.below(1 << 10)};
            if (o.code == L_INDEX)
                o.a[1] = r.chance(1, 6) ? r.pick<i64>({-1, -2, INT_MIN, INT_MAX})
                                        : (i64) r.below(14);
            if (o.code == L_GET)
                o.a[2] = r.below(p.get("nv") + 1);
            break;
        case FAM_PQ:
            o.code = weighted(r, {{Q_ENQ, 30}, {Q_DEQ, 14}, {Q_PEEK, 6},
                                  {Q_POP, 8}, {Q_REMOVE, 24}, {Q_SIZE, 2},
                                  {Q_DESTROY, 1}, {Q_NEW, 2},
                                  {Q_BULKENQ, bulk ? 8 : 1},
                                  {Q_DRAIN, bulk ? 6 : 1}});
            o.a = {sel, (i64) r.below(1 << 20), (i64) r.below(1 << 16)};
            if (o.code == Q_NEW)
                o.a = {sel, (i64) r.below(8), (i64) r.below(8)};
            break;
        case FAM_BA: {
            bool sharing = p.prop == "C08";
            o.code = weighted(r, {{B_APPEND, 16}, {B_APPENDSTR, 8}, {B_COPY, 14},
                                  {B_COPYSTR, 6}, {B_SELFCOPY, 6}, {B_RESIZE, 10},
                                  {B_CLEAR, 2}, {B_STREAM, 26}, {B_HUGE, 3},
                                  {B_READ, 3}, {B_BADPOS, 3},
                                  {B_SHARE, sharing ? 22 : 2},
                                  {B_DROP, sharing ? 26 : 2},
                                  {B_NEW, sharing ? 6 : 2}});
            i64 len = pick_len(r);
            if (bulk && r.chance(1, 6))
                len = r.below(70000);
            o.a = {sel, len, (i64) r.below(1 << 16), (i64) r.below(1 << 16),
                   (i64) r.below(16)};
            if (o.code == B_STREAM) {
                o.a[3] = r.chance(1, 6) ? (i64) r.range(1, 3) : 0;
                if (r.chance(1, 6))
                    o.a[1] = r.pick<i64>({(i64) (SIZE_MAX / 2), (i64) 1 << 40, -1, -2});
                if (p.get("stream_faults")) {
                    if (r.chance(1, 3))
                        o.f.push_back(Fault{F_SHORT_READ, (i64) r.below(1 << 16), 0});
                    if (r.chance(1, 3))
                        o.f.push_back(Fault{r.pick<int>({F_EOF, F_EAGAIN, F_EINTR, F_EIO}), 0, 0});
                    if (r.chance(1, 3))
                        o.f.push_back(Fault{F_SCRIBBLE, 0, 0});
                }
            }
            if (o.code == B_NEW)
                o.a = {sel, r.pick<i64>({1, 2, 3, 8, 100, 127, 128, 129, 130, 200,
                                         256, 257, 1000, 2000, 300000, -1,
                                         (i64) r.below(400) + 1}),
                       (i64) r.below(1 << 16)};
            if (o.code == B_SHARE || o.code == B_DROP)
                o.a[1] = r.chance(1, 12) ? (i64) r.below(290) : 0;
            // an array with more owners than 16 bits can count
            if (sharing && o.code == B_SHARE && r.chance(1, 3000))
                o.a[1] = r.pick<i64>({32767, 65534, 65535, 65536, 66000});
            if (sharing && o.code == B_DROP && r.chance(1, 600))
                o.a[1] = r.pick<i64>({32766, 65530, 65535, 70000});
            break;
        }
        case FAM_INT:
            o.code = weighted(r, {{I_ADD, 22}, {I_REMOVE, 14}, {I_FILL, 2},
                                  {I_HAS, 10}, {I_HIT, 10}, {I_MISS, 10},
                                  {I_SCAN, 5}, {I_DESTROY, 4}, {I_NEW, 7},
                                  {I_EMPTY, 3}, {I_BULK, 4}});
            o.a = {sel, (i64) r.below(1 << 20), (i64) r.below(5)};
            if (o.code == I_NEW)
                o.a = {sel, r.pick<i64>({0, 1, 2, 63, 64, 65, 127, 128, 129, 191,
                                         192, 193, (i64) r.below(300),
                                         (i64) r.below(1500)})};
            break;
    }
    return o;
}
void gen_containers(Plan &p, Rng &r)
{
    gen_heap(p, r);
    bool huge = r.chance(1, 3000); // structures beyond what 16 bits can count
    std::vector<int> fams;
    if (p.prop == "C01" || p.prop == "C02")
        fams = {FAM_AVL};
    else if (p.prop == "C03")
        fams = {FAM_HASH};
    else if (p.prop == "C04")
        fams = {FAM_LIST};
    else if (p.prop == "C05" || p.prop == "C06")
        fams = {FAM_PQ};
    else if (p.prop == "C07" || p.prop == "C08")
        fams = {FAM_BA};
    else if (p.prop == "C17")
        fams = {FAM_INT};
    else if (p.prop == "C18")
        fams = {FAM_AVL, FAM_LIST};
    else
        fams = {FAM_AVL, FAM_HASH, FAM_LIST, FAM_PQ, FAM_BA, FAM_INT};
    int size = r.below(10); // swarm: mostly short runs, some large ones
    bool large = size == 9, medium = size >= 6 && size < 9;
    p.scen = large ? "large" : medium ? "medium" : "small";
    int tasks = r.range(1, 4);
    p.cfg["tasks"] = tasks;
    p.cfg["nk"] = large ? r.range(200, 1500) : medium ? r.range(15, 80)
                                                      : r.range(1, 12);
    p.cfg["nv"] = r.range(1, 6);
    p.cfg["ne"] = large ? r.range(100, 600) : medium ? r.range(20, 80)
                                                     : r.range(1, 14);
    p.cfg["prios"] = r.pick<int>({1, 2, 3, 6, 20, 1000});
    p.cfg["audit"] = large ? 12 : r.pick<int>({1, 3, 7, 0});
    p.cfg["mix"] = r.below(3);
    p.cfg["stream_faults"] = r.chance(3, 4);
    int nops = large ? r.range(10, 30) : medium ? r.range(40, 160)
                                                : r.range(5, 60);
    if (huge) {
        p.scen = "huge";
        int n = p.prop == "C02" ? r.range(2000, 12000)
            : r.chance(1, 2) ? r.range(65000, 72000) : r.range(2000, 30000);
        p.cfg["huge"] = p.cfg["nk"] = p.cfg["ne"] = n;
        p.cfg["audit"] = 0;
        p.cfg["prios"] = r.pick<int>({3, 1000, 1 << 20});
        tasks = p.cfg["tasks"] = r.range(1, 2);
        nops = r.range(2, 8);
        large = medium = false;
        fams = {fams[r.below(fams.size())]};
    }
    // few associations in very many buckets: any of them may be the last one
    bool roomy = !huge && !large &&
        r.chance(1, p.prop == "C03" ? 60 : 600) &&
        std::count(fams.begin(), fams.end(), (int) FAM_HASH);
    if (roomy) {
        p.scen = "roomy";
        p.cfg["long"] = 1;
        p.cfg["audit"] = 0;
        nops = nops > 40 ? 40 : nops;
    }
    int id = 1;
    // initial containers
    for (int f : fams) {
        int n = huge ? 1 : r.range(1, 3);
        for (int i = 0; i < n; i++) {
            Op o = gen_op(r, f, 0, p);
            o.f.clear();
            o.code = f * 100;
            switch (f) {
                case FAM_AVL:
                    o.a = {0, (i64) r.below(p.prop == "C02" ? 4 : 6), (i64) r.below(2)};
                    break;
                case FAM_HASH:
                    o.a = {0, (i64) r.below(10), r.pick<i64>({0, 1, 53, 54, 97, 194, 1000})};
                    break;
                case FAM_PQ:
                    o.a = {0, (i64) r.below(8), p.prop == "C06" ? (i64) (r.below(2) * 4 + 3)
                                                         : (i64) r.below(8)};
                    break;
                case FAM_BA:
                    o.a = {0, r.pick<i64>({1, 2, 8, 64, 128, 129, 300, 1000, 5000, 300000, -1}),
                           (i64) r.below(1 << 16)};
                    break;
                case FAM_INT:
                    o.a = {0, r.pick<i64>({0, 1, 64, 65, 128, 130, 200})};
                    break;
                default:
                    o.a = {0};
            }
            if (huge && f == FAM_HASH) { // no long chains
                o.a[1] = r.pick<i64>({0, 5, 6, 7, 8, 9});
                o.a[2] = r.pick<i64>({9000, 60000, 70000, 100000, 200000});
            }
            if (roomy && f == FAM_HASH && i == 0)
                o.a = {0, r.pick<i64>({0, 3, 4, 5, 6, 7, 8, 9, 9, 9}),
                       r.pick<i64>({6151, 6152, 10000, 24593, 24594, 49157, 49158,
                                    65536, 98317, 98318, 196613, 200000,
                                    r.chance(1, 4) ? 786434 : 300000})};
            if (huge && f == FAM_INT)
                o.a[1] = r.pick<i64>({65535, 65536, 65537, 131072, 300000,
                                      (1 << 22) + (i64) r.below(1 << 10),
                                      (1 << 22) + (i64) r.below(1 << 18),
                                      (i64) r.below(1 << 20)});
            if (huge && f == FAM_BA)
                o.a[1] = r.pick<i64>({-1, 65536, 65537, 1 << 20, 3 << 20});
            o.id = id++;
            o.task = r.range(1, tasks);
            p.ops.push_back(o);
        }
    }
    if (huge)
        for (int n = r.range(1, 4), first = 1; n; n--, first = 0) {
            int f = fams[0];
            i64 all = p.get("huge");
            i64 k = first ? all - r.below(1 + all / 50) : r.below(all + 1);
            bool grow = first || r.chance(1, 2);
            Op o = gen_op(r, f, 1, p);
            o.f.clear();
            o.a.resize(5);
            o.a[0] = 0;
            switch (f) {
                case FAM_AVL:
                case FAM_HASH:
                    o.code = f == FAM_AVL ? grow ? A_BULKPUT : A_BULKDEL
                                          : grow ? H_BULKPUT : H_BULKDEL;
                    o.a[1] = r.below(1 << 20);
                    o.a[3] = k;
                    o.a[4] = r.chance(1, 2) ? (i64) r.below(1 << 16)
                                            : (i64) r.below(3);
                    break;
                case FAM_LIST:
                    o.code = L_BULK;
                    o.a[1] = k;
                    o.a[2] = r.below(1 << 10);
                    break;
                case FAM_PQ:
                    o.code = grow ? Q_BULKENQ : Q_DRAIN;
                    o.a[1] = k;
                    o.a[2] = r.below(1 << 16);
                    break;
                case FAM_BA:
                    o.code = B_APPEND;
                    o.a[1] = first ? (i64) r.below(3 << 20) : (i64) r.below(70000);
                    break;
                case FAM_INT:
                    o.code = first && r.chance(1, 2) ? I_FILL : I_BULK;
                    o.a[1] = r.below(1 << 20);
                    break;
            }
            o.id = id++;
            o.task = r.range(1, tasks);
            p.ops.push_back(o);
            // look around in it, the far end included
            for (int i = r.below(6); i && (f == FAM_LIST || f == FAM_INT); i--) {
                Op q = o;
                if (f == FAM_LIST) {
                    q.code = L_INDEX;
                    q.a = {0, (i64) r.below(all), (i64) r.below(1 << 10) & ~1};
                } else {
                    q.code = r.pick<int>({I_HAS, I_HAS, I_ADD, I_REMOVE, I_HIT, I_MISS});
                    q.a = {0, r.chance(1, 2) ? (i64) r.below(1 << 23)
                                             : (i64) r.below(1 << 10),
                           r.pick<i64>({0, 0, 2, 3})};
                }
                q.id = id++;
                p.ops.push_back(q);
            }
        }
    for (int i = 0; i < nops; i++) {
        Op o = gen_op(r, fams[r.below(fams.size())], large || (medium && r.chance(1, 3)), p);
        if (huge && (o.code == H_NEW || o.code == L_BULK))
            continue;
        if (p.prop == "C06" && o.code == Q_NEW)
            o.a[2] |= 3;
        if (p.prop == "C02" && o.code == A_NEW)
            o.a[1] %= 4;
        o.id = id++;
        o.task = r.range(1, tasks);
        p.ops.push_back(o);
    }
    gen_preempts(p, r, tasks > 1 ? (int) r.below(4) : 0, 10, 3000);
    bool multi = tasks > 1;
    (void) multi;
}
