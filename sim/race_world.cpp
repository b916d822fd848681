// C11: threads working on objects of their own, or reading shared ones. Every
// client is first run alone; then all run interleaved, suspended at arbitrary
// memory accesses and whenever they write to state others can see, and every
// call has to give what it gave alone.
#include <algorithm>
#include <cerrno>
#include "charstr.h"
#include "containers.h"
#include "text.h"

enum { R_SESSION = 1000, R_SHARED = 1020, R_KINDS = 6, R_SHARED_KINDS = 7 };

namespace {
struct Tape {
    std::string s;
    void num(i64 v)
    {
        char t[32];
        snprintf(t, sizeof t, "%lld;", (long long) v);
        s += t;
    }
    void ptr(const void *p) { num((i64) (intptr_t) p); }
};
struct CtxObj { int sign; };
int cmp_plain(const void *a, const void *b)
{
    callback_point();
    intptr_t x = (intptr_t) a, y = (intptr_t) b;
    return x < y ? -1 : x > y;
}
int cmp_ctx(const void *a, const void *b, void *o)
{
    return ((CtxObj *) o)->sign * cmp_plain(a, b);
}
u64 hash_poor(const void *k)
{
    callback_point();
    return (u64) (intptr_t) k % 3;
}
u64 hash_fair(const void *k) { return (u64) (intptr_t) k * 0x9e3779b97f4a7c15ULL; }
struct PqCtx {
    int sign;
    std::map<const void *, void *> loc;
};
int pq_cmp(const void *a, const void *b, void *o)
{
    return ((PqCtx *) o)->sign * cmp_plain(a, b);
}
void pq_reloc(const void *e, void *loc, void *o)
{
    ((PqCtx *) o)->loc[e] = loc;
}
struct Feed { Rng r; };
ssize_t feed_read(void *o, void *buf, size_t n)
{
    Feed *f = (Feed *) o;
    if (f->r.chance(1, 5)) {
        errno = EAGAIN;
        return -1;
    }
    size_t k = std::min<size_t>(n, f->r.below(40));
    for (size_t i = 0; i < k; i++)
        ((char *) buf)[i] = (char) f->r.next();
    return k;
}
void collect(const void *v, void *o) { ((Tape *) o)->ptr(v); }

void avl_elem(Tape &t, avl_elem_t *e)
{
    t.ptr(e ? avl_elem_get_key(e) : nullptr);
    t.ptr(e ? avl_elem_get_value(e) : nullptr);
}
void walk(Tape &t, avl_tree_t *a)
{
    for (avl_elem_t *e = avl_tree_get_first(a); e; e = avl_tree_next(e))
        avl_elem(t, e);
}
void contents(Tape &t, hash_table_t *h)
{
    std::vector<std::pair<intptr_t, intptr_t>> v;
    for (hash_elem_t *e = hash_table_get_any(h); e; e = hash_table_get_other(e))
        v.push_back({(intptr_t) hash_elem_get_key(e),
                     (intptr_t) hash_elem_get_value(e)});
    std::sort(v.begin(), v.end());
    for (auto &x : v) {
        t.num(x.first);
        t.num(x.second);
    }
}
const void *num(i64 v) { return (const void *) (intptr_t) v; }

std::string session(int kind, const Op &op)
{
    Tape t;
    Rng r(op.arg(2));
    int n = 4 + (u64) op.arg(3) % 40, keys = 2 + (u64) op.arg(4) % 30;
    switch (kind) {
        case 0: {
            CtxObj c{r.chance(1, 2) ? 1 : -1};
            avl_tree_t *a = r.chance(1, 3) ? make_avl_tree(cmp_plain)
                : r.chance(1, 2) ? make_avl_tree(integer_cmp)
                                 : make_avl_tree_2(cmp_ctx, &c);
            while (n--) {
                const void *k = num(r.below(keys) + 1);
                switch (r.below(16)) {
                    case 0: case 1: case 2: case 9: case 10: {
                        avl_elem_t *o = avl_tree_put(a, k, num(r.below(1000)));
                        avl_elem(t, o);
                        if (o)
                            destroy_avl_element(o);
                        break;
                    }
                    case 3: {
                        avl_elem_t *o = avl_tree_pop(a, k);
                        avl_elem(t, o);
                        if (o)
                            destroy_avl_element(o);
                        break;
                    }
                    case 4: avl_elem(t, avl_tree_get_before(a, k)); break;
                    case 5: avl_elem(t, avl_tree_get_on_or_after(a, k)); break;
                    case 6: avl_elem(t, avl_tree_get(a, k)); break;
                    case 7: {
                        avl_tree_t *b = avl_tree_copy(a);
                        walk(t, b);
                        destroy_avl_tree(b);
                        break;
                    }
                    case 8: avl_elem(t, avl_tree_get_on_or_before(a, k)); break;
                    case 11: avl_elem(t, avl_tree_get_after(a, k)); break;
                    case 12: {
                        avl_elem_t *o = r.chance(1, 2) ? avl_tree_pop_first(a)
                                                      : avl_tree_pop_last(a);
                        avl_elem(t, o);
                        if (o)
                            destroy_avl_element(o);
                        break;
                    }
                    case 13:
                        if (avl_elem_t *o = avl_tree_get(a, k)) {
                            if (r.chance(1, 2)) {
                                avl_tree_detach(a, o);
                                avl_elem(t, o);
                                destroy_avl_element(o);
                            } else
                                avl_tree_remove(a, o);
                        }
                        break;
                    case 14:
                        for (avl_elem_t *e = avl_tree_get_last(a); e;
                             e = avl_tree_previous(e))
                            avl_elem(t, e);
                        break;
                    default: t.num(avl_tree_size(a)); avl_elem(t, avl_tree_get_last(a));
                        t.num(avl_tree_empty(a)); avl_elem(t, avl_tree_get_first(a));
                }
            }
            walk(t, a);
            destroy_avl_tree(a);
            break;
        }
        case 1: {
            hash_table_t *h = make_hash_table(r.below(120), r.chance(1, 2) ? hash_poor
                                                                         : hash_fair,
                                              cmp_plain);
            while (n--) {
                const void *k = num(r.below(keys) + 1);
                switch (r.below(9)) {
                    case 0: case 1: case 2: case 5: {
                        hash_elem_t *o = hash_table_put(h, k, num(r.below(1000)));
                        t.ptr(o ? hash_elem_get_value(o) : nullptr);
                        if (o)
                            destroy_hash_element(o);
                        break;
                    }
                    case 3: {
                        hash_elem_t *o = hash_table_pop(h, k);
                        t.ptr(o ? hash_elem_get_value(o) : nullptr);
                        if (o)
                            destroy_hash_element(o);
                        break;
                    }
                    case 4: {
                        hash_elem_t *o = hash_table_get(h, k);
                        t.ptr(o ? hash_elem_get_value(o) : nullptr);
                        break;
                    }
                    case 6: {
                        // whichever it is, it is one of them; what is left is
                        // walked through below
                        hash_elem_t *o = hash_table_pop_any(h);
                        t.num(!o);
                        t.num(hash_table_size(h));
                        if (o) {
                            hash_elem_t *again = hash_table_get(h, hash_elem_get_key(o));
                            t.ptr(again);
                            destroy_hash_element(o);
                        }
                        break;
                    }
                    case 7:
                        if (hash_elem_t *o = hash_table_get(h, k)) {
                            if (r.chance(1, 2)) {
                                hash_table_detach(h, o);
                                t.ptr(hash_elem_get_value(o));
                                destroy_hash_element(o);
                            } else
                                hash_table_remove(h, o);
                        }
                        break;
                    default: t.num(hash_table_size(h)); contents(t, h);
                        t.num(hash_table_empty(h));
                }
            }
            contents(t, h);
            destroy_hash_table(h);
            break;
        }
        case 2: {
            list_t *l = make_list();
            while (n--)
                switch (r.below(11)) {
                    case 0: case 1: list_append(l, num(r.below(50))); break;
                    case 2: list_prepend(l, num(r.below(50))); break;
                    case 3:
                        if (list_elem_t *e = list_get_by_index(l, r.below(8)))
                            list_insert_before(l, num(r.below(50)), e);
                        break;
                    case 4:
                        if (list_elem_t *e = list_get(l, num(r.below(50))))
                            list_remove(l, e);
                        break;
                    case 5: t.ptr(list_pop_first(l)); break;
                    case 6: t.ptr(list_pop_last(l)); break;
                    case 7: {
                        list_t *c = list_copy(l);
                        list_foreach(c, collect, &t);
                        destroy_list(c);
                        break;
                    }
                    case 8:
                        for (list_elem_t *e = list_get_last(l); e;
                             e = list_previous(e))
                            t.ptr(list_elem_get_value(e));
                        break;
                    case 9:
                        if (list_elem_t *e = list_get_first(l)) {
                            t.ptr(list_elem_get_value(e));
                            if ((e = list_next(e)))
                                t.ptr(list_elem_get_value(e));
                        }
                        break;
                    default: t.num(list_size(l)); t.num(list_empty(l));
                }
            list_foreach(l, collect, &t);
            destroy_list(l);
            break;
        }
        case 3: {
            PqCtx c;
            c.sign = r.chance(1, 2) ? 1 : -1;
            priorq_t *q = make_priority_queue_2(pq_cmp, pq_reloc, &c);
            std::set<const void *> in;
            while (n--)
                switch (r.below(7)) {
                    case 0: case 1: case 2: {
                        const void *v = num(r.below(keys) + 1);
                        if (in.insert(v).second)
                            priorq_enqueue(q, v);
                        break;
                    }
                    case 3: {
                        const void *v = priorq_dequeue(q);
                        t.ptr(v);
                        in.erase(v);
                        break;
                    }
                    case 4: {
                        if (in.empty())
                            break;
                        const void *v = *std::next(in.begin(), r.below(in.size()));
                        const void *g = priorq_remove(q, c.loc[v]);
                        t.ptr(g);
                        in.erase(g);
                        break;
                    }
                    case 5: {
                        const void *v = priorq_pop(q);
                        t.ptr(v);
                        in.erase(v);
                        break;
                    }
                    default: t.num(priorq_size(q)); t.ptr(priorq_peek(q));
                        t.num(priorq_empty(q));
                }
            while (const void *v = priorq_dequeue(q))
                t.ptr(v);
            destroy_priority_queue(q);
            break;
        }
        case 4: {
            byte_array_t *b = make_byte_array(r.pick<size_t>({40, 300, 5000, 100000}));
            Feed f{Rng(r.next())};
            while (n--) {
                Input in(pattern_bytes(r.next(), r.below(60), true), true);
                size_t sz = byte_array_size(b);
                switch (r.below(9)) {
                    case 6: byte_array_clear(b); break;
                    case 7: t.num(byte_array_copy_string(b, r.below(sz + 1), in.p));
                        break;
                    case 0: t.num(byte_array_append(b, in.p, in.n)); break;
                    case 1: t.num(byte_array_append_string(b, in.p)); break;
                    case 2: t.num(byte_array_copy(b, r.below(sz + 1), in.p, in.n)); break;
                    case 3: t.num(byte_array_resize(b, r.below(1 << r.below(12)), 'x')); break;
                    case 4: t.num(byte_array_append_stream(b, feed_read, &f, r.below(80)));
                        break;
                    case 5: {
                        byte_array_t *c = share_byte_array(b);
                        destroy_byte_array(b);
                        b = c;
                        break;
                    }
                    default: t.num(sz);
                }
                t.num(hash_bytes(byte_array_data(b), byte_array_size(b) + 1));
            }
            destroy_byte_array(b);
            break;
        }
        default: {
            size_t size = r.below(200);
            intset_t *s = make_intset(size);
            while (n--)
                switch (r.below(6)) {
                    case 0: case 1: intset_add(s, r.below(size + 5)); break;
                    case 2: intset_remove(s, r.below(size + 5)); break;
                    case 3: t.num(intset_find_next_hit(s, r.below(size + 5))); break;
                    case 4: t.num(intset_find_next_miss(s, r.below(size + 5))); break;
                    default: t.num(intset_has(s, r.below(size + 5)));
                        if (r.chance(1, 8))
                            intset_fill(s);
                }
            destroy_intset(s);
        }
    }
    return t.s;
}

std::map<int, std::string> alone; // transcripts of the solo phase

struct RaceWorld : World {
    Plan &plan;
    int phase;
    avl_tree_t *tree = nullptr;
    hash_table_t *table = nullptr;
    list_t *list = nullptr;
    priorq_t *queue = nullptr;
    byte_array_t *bytes = nullptr;
    intset_t *set = nullptr;
    charstr_url_encoder_t *encoder = nullptr;
    CtxObj ctx{1};
    PqCtx pctx{1, {}};

    RaceWorld(Plan &p, int ph) : plan(p), phase(ph)
    {
        if (!ph)
            alone.clear();
    }
    void setup() override
    {
        fs_set_reallocator(sim_realloc);
        fs_set_reallocator_counter(sim_counter);
        Rng r(plan.seed ^ 0x77);
        int n = plan.get("shared", 20);
        tree = make_avl_tree_2(cmp_ctx, &ctx);
        table = make_hash_table(r.below(100), r.chance(1, 2) ? hash_poor : hash_fair,
                                cmp_plain);
        list = make_list();
        queue = make_priority_queue_2(pq_cmp, pq_reloc, &pctx);
        bytes = make_byte_array(100000);
        set = make_intset(4 * n + 1);
        Input a("/~", true), b(":@ ", true);
        encoder = charstr_create_url_encoder(a.p, b.p);
        for (int i = 0; i < n; i++) {
            i64 k = 1 + r.below(3 * n);
            if (avl_elem_t *o = avl_tree_put(tree, num(k), num(i)))
                destroy_avl_element(o);
            if (hash_elem_t *o = hash_table_put(table, num(k), num(i)))
                destroy_hash_element(o);
            list_append(list, num(k));
            priorq_enqueue(queue, num(k * 100 + i));
            std::string s = pattern_bytes(k, 1 + r.below(20), false);
            byte_array_append(bytes, s.data(), s.size());
            intset_add(set, k);
        }
        heap_share_all_lib();
        save_statics();
    }
    void before_solo(int) override { reload_statics(); }
    std::string shared(int kind, const Op &op);
    void exec(const Op &op) override
    {
        std::string got;
        if (op.code / 100 == FAM_STR)
            got = text_call(op.code - 700, op);
        else if (op.code >= R_SHARED)
            got = shared((op.code - R_SHARED) % R_SHARED_KINDS, op);
        else
            got = session((op.code - R_SESSION) % R_KINDS, op);
        if (!phase) {
            alone[op.id] = got;
            return;
        }
        trace(hash_bytes(got.data(), got.size()));
        auto it = alone.find(op.id);
        if (it == alone.end() || it->second == got)
            return;
        size_t d = 0;
        const std::string &w = it->second;
        while (d < got.size() && d < w.size() && got[d] == w[d])
            d++;
        d = d > 20 ? d - 20 : 0;
        fail("model", "interference", "with other threads at work, call %d gave "
             "\"...%s\"; alone it gives \"...%s\"", op.code,
             printable(got.substr(d, 120)).c_str(),
             printable(w.substr(d, 120)).c_str());
    }
};
std::string RaceWorld::shared(int kind, const Op &op)
{
    Tape t;
    Rng r(op.arg(2));
    int n = 1 + (u64) op.arg(3) % 8, keys = 3 * plan.get("shared", 20) + 2;
    while (n--) {
        const void *k = num(r.below(keys));
        switch (kind) {
            case 0:
                switch (r.below(7)) {
                    case 0: avl_elem(t, avl_tree_get(tree, k)); break;
                    case 1: avl_elem(t, avl_tree_get_before(tree, k)); break;
                    case 2: avl_elem(t, avl_tree_get_on_or_before(tree, k)); break;
                    case 3: avl_elem(t, avl_tree_get_after(tree, k)); break;
                    case 4: avl_elem(t, avl_tree_get_on_or_after(tree, k)); break;
                    case 5: {
                        avl_elem_t *e = avl_tree_get_last(tree);
                        for (int i = r.below(20); e && i; i--)
                            e = avl_tree_previous(e);
                        avl_elem(t, e);
                        t.num(avl_tree_size(tree));
                        t.num(avl_tree_empty(tree));
                        break;
                    }
                    default: {
                        if (r.chance(1, 3)) {
                            avl_tree_t *c = avl_tree_copy(tree);
                            walk(t, c);
                            destroy_avl_tree(c);
                        } else
                            walk(t, tree);
                    }
                }
                break;
            case 1: {
                if (r.chance(1, 4)) {
                    contents(t, table);
                    t.num(hash_table_size(table));
                    t.num(hash_table_empty(table));
                }
                hash_elem_t *e = hash_table_get(table, k);
                t.ptr(e ? hash_elem_get_value(e) : nullptr);
                break;
            }
            case 2:
                switch (r.below(5)) {
                    case 0: {
                        list_elem_t *e = list_get_by_index(list, r.below(30));
                        t.ptr(e ? list_elem_get_value(e) : nullptr);
                        break;
                    }
                    case 1: {
                        list_elem_t *e = list_get(list, k);
                        t.ptr(e ? list_elem_get_value(e) : nullptr);
                        break;
                    }
                    case 2: list_foreach(list, collect, &t); break;
                    case 3: {
                        for (list_elem_t *e = list_get_last(list); e;
                             e = list_previous(e))
                            t.ptr(list_elem_get_value(e));
                        t.num(list_size(list));
                        break;
                    }
                    default: {
                        list_t *c = list_copy(list);
                        t.num(list_size(c));
                        for (list_elem_t *e = list_get_first(c); e; e = list_next(e))
                            t.ptr(list_elem_get_value(e));
                        destroy_list(c);
                    }
                }
                break;
            case 3:
                t.ptr(priorq_peek(queue));
                t.num(priorq_size(queue));
                t.num(priorq_empty(queue));
                break;
            case 4: {
                size_t z = byte_array_size(bytes);
                t.num(z);
                t.num(hash_bytes(byte_array_data(bytes), z + 1));
                break;
            }
            case 5:
                t.num(intset_has(set, r.below(4 * keys)));
                t.num(intset_find_next_hit(set, r.below(4 * keys)));
                t.num(intset_find_next_miss(set, r.below(4 * keys)));
                break;
            default: {
                std::string b = op.blob;
                for (auto &c : b)
                    if (!c)
                        c = ' ';
                Input in(b, true);
                char *s = charstr_url_custom_encode(encoder, in.p);
                chk_cstr(s, "URL encoding");
                t.s += s;
                fsfree(s);
                const char *q = charstr_url_custom_encode_byte(encoder, r.below(256));
                chk_cstr(q, "encoding of a byte");
                t.s += q;
            }
        }
    }
    return t.s;
}
} // namespace

World *make_race_world(Plan &p, int phase) { return new RaceWorld(p, phase); }

void gen_race(Plan &p, Rng &r)
{
    gen_heap(p, r);
    int tasks = r.range(2, 4);
    p.cfg["tasks"] = tasks;
    p.cfg["hot"] = r.below(8);
    p.cfg["hot_budget"] = r.pick<int>({1, 2, 4, 10, 40});
    p.cfg["hot_hold"] = r.range(1, 3);
    p.cfg["hot_every"] = r.pick<int>({1, 1, 1, 2, 3, 7, 19});
    p.cfg["shared"] = r.pick<int>({0, 1, 3, 8, 20, 60});
    p.scen = "race";
    // few kinds of work at a time, so that the clients meet in the same code
    std::vector<int> kinds;
    int nk = r.chance(1, 2) ? 1 : r.range(2, 5);
    for (int i = 0; i < nk; i++)
        kinds.push_back(r.below(STR_KINDS + R_KINDS + R_SHARED_KINDS));
    int nops = r.range(2, 4) * tasks;
    for (int i = 0; i < nops; i++) {
        int k = kinds[r.below(kinds.size())];
        Op o;
        if (k < STR_KINDS) {
            do
                o = gen_text_call(r);
            while (o.code != 700 + k);
        } else {
            k -= STR_KINDS;
            o.code = k < R_KINDS ? R_SESSION + k : R_SHARED + k - R_KINDS;
            o.a = {0, 0, (i64) r.below(1u << 30), (i64) r.below(1 << 16),
                   (i64) r.below(1 << 16)};
            o.blob = rand_text(r, 2, r.below(30));
        }
        o.id = i + 1;
        o.task = r.range(1, tasks);
        p.ops.push_back(o);
    }
    gen_preempts(p, r, r.range(3, 9), 10, 2000);
}
