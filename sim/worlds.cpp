// Which simulated world, and which workload, decides which property.
#include "containers.h"
#include "text.h"

struct CopyWorld : ContWorld { // C18: every copy is checked after every step
    using ContWorld::ContWorld;
    void extra_audit(const Op &) override
    {
        bool pre = sched_preempt;
        sched_preempt = false; // observed at one instant
        for (auto &t : avl)
            if (!t->dead && !in_use(FAM_AVL * 10000 + t->idx)) {
                act_avl[cur_task()] = t.get();
                avl_audit(t.get());
            }
        act_avl[cur_task()] = nullptr;
        for (auto &l : list)
            if (!l->dead && !in_use(FAM_LIST * 10000 + l->idx))
                list_audit(l.get());
        sched_preempt = pre;
    }
};

static bool is_codec(const std::string &p)
{
    return p == "C12" || p == "C13" || p == "C14" || p == "C15" || p == "C16";
}
int world_phases(const Plan &p) { return p.prop == "C11" ? 2 : 1; }
World *make_world(Plan &p, int phase)
{
    if (p.prop == "C18")
        return new CopyWorld(p);
    if (is_codec(p.prop))
        return make_codec_world(p);
    if (p.prop == "C09" || p.prop == "C10")
        return make_alloc_world(p);
    if (p.prop == "C11")
        return make_race_world(p, phase);
    return new ContWorld(p);
}
void gen_plan(Plan &p, Rng &r)
{
    if (is_codec(p.prop))
        gen_codec(p, r);
    else if (p.prop == "C11")
        gen_race(p, r);
    else if (p.prop == "C09" || p.prop == "C10")
        gen_alloc(p, r);
    else
        gen_containers(p, r);
}
