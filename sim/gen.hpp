// Plan generation shared by several properties.
#pragma once
#include "scen.hpp"

namespace h
{
// an allocation to fail: one of the first, or any of those the call makes
u32 a_fail(Rng &r);
// let allocations fail in some operations of some plans
void add_fails(Plan &p, Rng &r);
// let threads repeat operations of their own, exactly as they were, or with one
// argument a little off
void echo(Plan &p, Rng &r, bool nudged = false);
// Now and then a plan of great age: an operation made very often, or the whole of it
// again and again.  At most about 2^most operations.
void ages(Plan &p, Rng &r, unsigned most);
// another number, close to d
double close_to(Rng &r, double d);
// the operations of a plan about failing allocations that the first thread makes:
// `one` adds one; sometimes the last is followed by the same call on other values,
// which is then also made right after each time the first ran out of memory
template <typename F>
void oom_ops(Plan &p, Rng &r, F one)
{
    for (u64 i = 0, n = 1 + r.below(2); i < n; ++i) {
        one(0);
    }
    if (r.chance(0.4)) {
        for (int tries = 0; tries < 40; ++tries) {
            one(0);
            Op &o = p.ops.back();
            const Op &q = p.ops[p.ops.size() - 2];
            if (o.kind == q.kind && o.kind != K_QUERY) {
                if (!o.I.empty() && o.I.size() == q.I.size()
                    && (o.kind == K_LAMBERT || o.kind == K_LEG || o.kind == K_LEGHF || o.kind == K_PLANET)) {
                    o.I.back() = q.I.back(); // the query
                }
                break;
            }
            p.ops.pop_back();
        }
    }
    if (r.chance(0.6)) {
        p.set("witness", 1 + static_cast<long>(r.below(3)));
    }
}
Op query(long obj, long which, int thr);
long chunk(Rng &r);
// storage scenario over the objects `defs` adds; size: about the size of an archive
void gen_storage(Plan &p, Rng &r, void (*defs)(Plan &, Rng &, u64), bool load_faults, u64 size);
} // namespace h
