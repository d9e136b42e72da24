#include "scen.hpp"
#include "simdisk.hpp"
#include <algorithm>
#include <istream>
#include <map>
#include <new>
#include <ostream>
#include <set>
#include <typeinfo>

namespace h
{
static std::map<int, OpExec> &execs()
{
    static std::map<int, OpExec> m;
    return m;
}
void add_exec(int k, OpExec f)
{
    execs()[k] = f;
}
OpExec find_exec(int k)
{
    auto it = execs().find(k);
    return it == execs().end() ? nullptr : it->second;
}
using MkObj = std::unique_ptr<Obj> (*)(const Op &);
static std::map<int, MkObj> &objks()
{
    static std::map<int, MkObj> m;
    return m;
}
void add_obj_kind(int k, MkObj f)
{
    objks()[k] = f;
}
bool is_def(const Op &o)
{
    return objks().count(o.kind) != 0;
}
std::unique_ptr<Obj> make_obj(const Op &op)
{
    auto it = objks().find(op.kind);
    if (it == objks().end()) {
        sim::violate("sim-error", "no object kind %s", kind_name(op.kind));
    }
    try {
        return it->second(op);
    } catch (const std::exception &) {
        return nullptr;
    }
}

void rec_exc(Blob &b, const std::exception &e)
{
    b.b.clear();
    b.txt.clear();
    b.is_exc = true;
    b.tag("EXC");
    b.s(typeid(e).name());
    b.s(e.what());
    b.is_bad_alloc = dynamic_cast<const std::bad_alloc *>(&e) != nullptr;
}

void mismatch(const char *cls, const char *what, const Plan &p, std::size_t i, const Blob &want, const Blob &got)
{
    std::size_t k = 0;
    while (k < want.b.size() && k < got.b.size() && want.b[k] == got.b[k]) {
        ++k;
    }
    sim::violate(cls,
                 "%s: op %zu (%s, thread %d) gave a different result.\n expected: %.900s\n observed: %.900s\n (sizes "
                 "%zu / %zu, first difference at byte %zu)",
                 what, i, kind_name(p.ops[i].kind), p.ops[i].thr, want.txt.c_str(), got.txt.c_str(), want.b.size(),
                 got.b.size(), k);
}

// ---- workers -------------------------------------------------------------------
struct WCtx {
    const Plan *p;
    std::size_t from, to;
    int thr;
    void (*f)(void *, std::size_t);
    void *ctx;
};
// the operations of one thread, in order; old hidden state needs many of them
void each(const Plan &p, int thr, void (*f)(void *, std::size_t), void *ctx, std::size_t from, std::size_t to)
{
    const long cycles = thr == 0 ? p.param("cycles", 1) : thr < 100 ? p.param("worker_cycles", 1) : 1;
    const u64 enough = 12000000; // steps
    for (long c = 0; c < cycles && (!c || sim::steps_now() < enough); ++c) {
        for (std::size_t i = from; i < std::min(to, p.ops.size()); ++i) {
            if (p.ops[i].thr == thr) {
                for (u32 k = 0; k < p.ops[i].rep && (!k || sim::steps_now() < enough); ++k) {
                    count(UC_REPEATED, c || k);
                    f(ctx, i);
                }
            }
        }
    }
}
static void worker(void *a)
{
    auto *w = static_cast<WCtx *>(a);
    sim::paint_stack(w->p->garbage + static_cast<u64>(w->thr));
    each(*w->p, w->thr, w->f, w->ctx, w->from, w->to);
}
void run_workers(const Plan &p, std::size_t from, std::size_t to, void (*f)(void *, std::size_t), void *ctx)
{
    std::set<int> thr;
    for (std::size_t i = from; i < to; ++i) {
        if (p.ops[i].thr > 0 && p.ops[i].thr < 100) {
            thr.insert(p.ops[i].thr);
        }
    }
    // workers 1-8 run together, then 9-16 (new threads, after the first ones ended), and so on
    for (int lo = 1; lo < 100; lo += 8) {
        std::vector<WCtx> w;
        w.reserve(thr.size());
        std::vector<int> ids;
        for (int t : thr) {
            if (t >= lo && t < lo + 8) {
                w.push_back(WCtx{&p, from, to, t, f, ctx});
            }
        }
        for (auto &x : w) {
            ids.push_back(sim::spawn(worker, &x));
        }
        for (int id : ids) {
            sim::join(id);
        }
    }
}

// ---- concurrent scenario ----------------------------------------------------------
static int g_inflight = 0;
struct InFlight {
    InFlight()
    {
        if (g_inflight++ > 0) {
            count(UC_OVERLAP);
        }
    }
    ~InFlight()
    {
        g_inflight--;
    }
};

static std::map<std::size_t, std::unique_ptr<Obj>> build_defs(const Plan &p)
{
    std::map<std::size_t, std::unique_ptr<Obj>> m;
    std::size_t n = 0;
    for (auto &o : p.ops) {
        if (o.thr < 0) {
            m[n] = make_obj(o);
            ++n;
        }
    }
    return m;
}
using Defs = std::map<std::size_t, std::unique_ptr<Obj>>;

// a query may refuse: that is its answer
static void answer(const Obj &o, Blob &b, long w)
{
    try {
        o.obs(b, w);
    } catch (const std::exception &e) {
        rec_exc(b, e);
    }
}

static void one_op(const Op &op, const Defs &defs, Blob &b)
{
    if (op.kind == K_QUERY) {
        const auto it = defs.find(static_cast<std::size_t>(op.I[0]));
        if (it == defs.end() || !it->second) {
            b.tag("null");
            return;
        }
        b.tag("query");
        answer(*it->second, b, op.I[1]);
        sim::call_returned();
        return;
    }
    OpExec f = find_exec(op.kind);
    if (!f) {
        sim::violate("sim-error", "no executor for %s", kind_name(op.kind));
    }
    f(op, b);
    sim::call_returned();
}
static bool fail_ok(const Op &op, const Defs &defs)
{
    if (op.kind == K_QUERY) {
        const auto it = defs.find(static_cast<std::size_t>(op.I[0]));
        return it != defs.end() && it->second && it->second->q_may_fail_alloc(op.I[1]);
    }
    if (op.kind == K_BURST || (op.kind == K_LAMBERT && op.I[1] % 3 == 0)) {
        return false; // prints: std::ostream swallows bad_alloc by design
    }
    return true;
}

u32 fail_at(const Op &op, const Blob &ref)
{
    if (op.fail < FAIL_REL) {
        return op.fail;
    }
    const u32 k = op.fail - FAIL_REL;
    return ref.nalloc ? ref.nalloc - k % ref.nalloc : 1 + k % 64;
}
bool conc_needs_ref(const Plan &p, std::size_t i)
{
    return p.ops[i].thr >= 0 && (p.ops[i].kind != K_BURST || p.ops[i].I[1] == 0);
}
void conc_ref(const Plan &p, std::size_t i, Blob &b)
{
    Defs d;
    const Op &op = p.ops[i];
    if (op.kind == K_BURST) {
        Op o = op;
        o.I[0] = 1;
        one_op(o, d, b);
        return;
    }
    if (op.kind == K_QUERY) { // only the object it looks at
        std::size_t n = 0;
        for (auto &o : p.ops) {
            if (o.thr < 0) {
                if (n == static_cast<std::size_t>(op.I[0])) {
                    d[n] = make_obj(o);
                }
                ++n;
            }
        }
    }
    sim::arm_alloc(1ull << 60);
    one_op(op, d, b);
    b.nalloc = static_cast<u32>(sim::alloc_count());
    sim::arm_alloc(0);
}

struct ConcCtx {
    const Plan *p;
    const std::vector<Blob> *refs;
    Defs *defs;
};
static void conc_op(void *a, std::size_t i)
{
    auto *c = static_cast<ConcCtx *>(a);
    const Op &op = c->p->ops[i];
    const Blob &want = (*c->refs)[i];
    Blob got;
    const bool fail = op.fail && fail_ok(op, *c->defs);
    count(UC_OPS);
    {
        InFlight fl;
        if (fail) {
            sim::arm_alloc(fail_at(op, want));
        }
        one_op(op, *c->defs, got);
    }
    bool fired = false;
    if (fail) {
        fired = sim::alloc_fired();
        sim::arm_alloc(0);
    }
    if (got.is_exc && !got.is_bad_alloc) {
        count(UC_REJECTED);
    }
    if (op.kind == K_BURST && op.I[1] != 0) {
        return; // history only
    }
    count(UC_COMPARED);
    sim::hash_bytes(got.b.data(), got.b.size());
    if (fired && got.is_bad_alloc) {
        count(UC_BADALLOC);
        return;
    }
    if (got != want) {
        mismatch("result-mismatch", "compared with the same call made alone in a fresh process", *c->p, i, want, got);
    }
}
bool pure_needs_ref(const Plan &p, std::size_t i)
{
    return p.ops[i].thr >= 0 && find_exec(p.ops[i].kind);
}
void pure_op(const Plan &p, const std::vector<Blob> &refs, std::size_t i)
{
    Defs none;
    ConcCtx c{&p, &refs, &none};
    conc_op(&c, i);
}
void conc_exec(const Plan &p, const std::vector<Blob> &refs, int)
{
    sim::paint_stack(p.garbage);
    Defs defs = build_defs(p);
    ConcCtx c{&p, &refs, &defs};
    each(p, 0, conc_op, &c);
    run_workers(p, 0, p.ops.size(), conc_op, &c);
    each(p, 100, conc_op, &c);
}

// ---- storage scenario -----------------------------------------------------------
// SAVE  I = {def, file, write buffer, fault, at, fsync?, seed}
// LOAD  I = {file, target def, read chunk, fault, at, retry chunk, mutate seed}   fail = failing allocation
// CRASH I = {seed}
int stor_incarnations(const Plan &p)
{
    int n = 1;
    for (auto &o : p.ops) {
        n += o.kind == K_CRASH;
    }
    return n;
}

struct StorCtx {
    const Plan *p;
    Defs *defs;
};
static const Op *def_op(const Plan &p, std::size_t k)
{
    std::size_t n = 0;
    for (auto &o : p.ops) {
        if (o.thr < 0 && n++ == k) {
            return &o;
        }
    }
    return nullptr;
}

static void do_save(StorCtx *c, std::size_t i)
{
    const Op &op = c->p->ops[i];
    const auto it = c->defs->find(static_cast<std::size_t>(op.I[0]));
    if (it == c->defs->end() || !it->second) {
        return;
    }
    // possibly a second object (or the same one again) behind it in the same archive
    const Obj *second = nullptr;
    u32 twin = 0;
    if (op.I.size() > 7 && op.I[7] > 0) {
        const auto k = static_cast<std::size_t>(op.I[7] - 1);
        const auto it2 = c->defs->find(k);
        const Op *d1 = def_op(*c->p, static_cast<std::size_t>(op.I[0])), *d2 = def_op(*c->p, k);
        if (it2 != c->defs->end() && it2->second && d1 && d2 && d1->kind == d2->kind) {
            second = it2->second.get();
            twin = static_cast<u32>(op.I[7]);
            count(UC_TWIN);
        }
    }
    count(UC_SAVE);
    const u32 file = static_cast<u32>(op.I[1]) % NFILES;
    WriteBuf wb(file, static_cast<u32>(i), static_cast<u32>(op.I[0]), static_cast<u32>(op.I[2]), static_cast<int>(op.I[3]),
                static_cast<u32>(op.I[4]), static_cast<u64>(op.I[6]), twin);
    bool ok = true, bad_alloc = false;
    if (op.fail) {
        sim::arm_alloc(fail_at(op, Blob{}));
    }
    std::string err;
    try {
        std::ostream os(&wb);
        it->second->save(os, second);
        if (wb.refused) { // a writer that looks at nothing but exceptions
            sim::violate("lost-write-error", "save (op %zu) returned normally although bytes were refused at %u", i,
                         static_cast<u32>(op.I[4]));
        }
        os.flush();
        ok = os.good();
    } catch (const std::bad_alloc &e) {
        ok = false;
        bad_alloc = true;
        err = e.what();
    } catch (const std::exception &e) {
        ok = false;
        err = e.what();
    }
    const bool fired = op.fail && sim::alloc_fired();
    sim::arm_alloc(0);
    if (bad_alloc) {
        count(UC_BADALLOC);
    }
    SimFile *f = disk_file(file);
    sim::hash_bytes(disk_data(file), f->len);
    if (ok && wb.fired) {
        // the stream reported a failure, yet the writer was told all is well
        sim::violate("lost-write-error", "save (op %zu) reported success although the write at byte %u failed", i,
                     static_cast<u32>(op.I[4]));
    }
    if (!ok && !wb.fired && !(bad_alloc && fired)) {
        sim::violate("save-failed", "save (op %zu) of a valid object failed without any fault: %.300s", i, err.c_str());
    }
    if (ok) {
        f->complete = 1;
        if (op.I[5]) {
            f->acked = wb.fsync() ? 1 : 0;
        }
    } else {
        count(UC_THROW);
    }
    // saving is a const operation
    Blob a, b;
    answer(*it->second, a, 0);
    const Op *d = def_op(*c->p, static_cast<std::size_t>(op.I[0]));
    auto fresh = make_obj(*d);
    answer(*fresh, b, 0);
    if (a != b) {
        mismatch("state-mismatch", "the object that was saved", *c->p, i, b, a);
    }
}

static void expect(StorCtx *c, std::size_t i, Obj &got, Obj &want, const char *cls, const char *what)
{
    Blob a, b;
    want.obs_all(a);
    got.obs_all(b);
    count(UC_COMPARED);
    sim::hash_bytes(b.b.data(), b.b.size());
    if (a != b) {
        mismatch(cls, what, *c->p, i, a, b);
    }
}

static void do_load(StorCtx *c, std::size_t i)
{
    const Op &op = c->p->ops[i];
    const u32 file = static_cast<u32>(op.I[0]) % NFILES;
    const SimFile *f = disk_file(file);
    if (!f->used || f->def == ~0u) {
        return;
    }
    const Op *src = def_op(*c->p, f->def);
    const Op *tgt = def_op(*c->p, static_cast<std::size_t>(op.I[1]));
    if (!src) {
        return;
    }
    if (!tgt || tgt->kind != src->kind) {
        tgt = src;
    }
    auto want = make_obj(*src), old = make_obj(*tgt), obj = make_obj(*tgt);
    if (!want || !old || !obj) {
        return;
    }
    std::unique_ptr<Obj> want2, obj2;
    if (f->twin) {
        const Op *src2 = def_op(*c->p, f->twin - 1);
        if (!src2 || !(want2 = make_obj(*src2)) || !(obj2 = make_obj(*tgt))) {
            return;
        }
    }
    if (f->acked && f->torn) {
        sim::violate("sim-error", "acknowledged file torn");
    }
    const bool full = f->complete && !f->torn;
    ReadBuf rb(file, static_cast<u32>(op.I[2]), static_cast<int>(op.I[3]), static_cast<u32>(op.I[4]));
    if (op.fail) {
        sim::arm_alloc(fail_at(op, Blob{}));
    }
    bool ok = true, bad_alloc = false;
    std::string err;
    try {
        std::istream is(&rb);
        obj->load(is, obj2.get());
    } catch (const std::bad_alloc &e) {
        ok = false;
        bad_alloc = true;
        err = e.what();
    } catch (const std::exception &e) {
        ok = false;
        err = e.what();
    }
    const bool fired = op.fail && sim::alloc_fired();
    sim::arm_alloc(0);
    if (bad_alloc) {
        count(UC_BADALLOC);
    }
    if (ok) {
        count(UC_LOAD_OK);
        // a file that was never completed may still be whole (the crash came
        // between the last byte and the return of save): asking for bytes that
        // are not there and reporting success is what must not happen
        if (rb.hit_end) {
            sim::violate("partial-load", "load (op %zu) of an incomplete archive reported success (%u bytes present, fault %ld at %ld)",
                         i, f->len, op.I[3], op.I[4]);
        }
        expect(c, i, *obj, *want, "roundtrip-mismatch", "the object restored from storage, compared with the one saved");
        if (obj2) {
            expect(c, i, *obj2, *want2, "roundtrip-mismatch", "the second object of the archive, compared with the one saved");
        }
    } else {
        count(UC_LOAD_FAIL);
        if (full && !rb.fired && !fired) {
            sim::violate("load-failed", "load (op %zu) of a complete archive failed without any fault: %.300s", i,
                         err.c_str());
        }
        // the target holds its old value or the new one, whole
        Blob o, n, g;
        old->obs_all(o);
        want->obs_all(n);
        obj->obs_all(g);
        count(UC_COMPARED);
        sim::hash_bytes(g.b.data(), g.b.size());
        bool fell = false;
        std::unique_ptr<Obj> fb;
        if (g != o && g != n && (fb = obj->fallback())) {
            Blob fbb;
            fb->obs_all(fbb);
            fell = g == fbb;
        }
        if (g != o && g != n && !fell) {
            mismatch("torn-object", "after a failed load the object is neither its old value nor the stored one", *c->p,
                     i, o, g);
        }
        if (obj2) {
            Blob n2, g2;
            want2->obs_all(n2);
            obj2->obs_all(g2);
            if (g2 != o && g2 != n2) {
                std::unique_ptr<Obj> fb2 = obj2->fallback();
                Blob fbb;
                if (fb2) {
                    fb2->obs_all(fbb);
                }
                if (!fb2 || fbb != g2) {
                    mismatch("torn-object", "after a failed load the second object is neither its old value nor the stored one", *c->p,
                             i, o, g2);
                }
            }
        }
        if (full) { // faults have stopped: the same object must now load
            ReadBuf r2(file, static_cast<u32>(op.I[5]), RF_NONE, 0);
            std::istream is(&r2);
            try {
                obj->load(is, obj2.get());
            } catch (const std::exception &e) {
                sim::violate("load-failed", "retry of load (op %zu) without faults failed: %.300s", i, e.what());
            }
            count(UC_LOAD_OK);
            expect(c, i, *obj, *want, "roundtrip-mismatch", "the object restored on retry, compared with the one saved");
            if (obj2) {
                expect(c, i, *obj2, *want2, "roundtrip-mismatch", "the second object restored on retry, compared with the one saved");
            }
        } else {
            want = fell ? std::move(fb) : std::move(old);
            if (g == n && g != o && !fell) {
                want = make_obj(*src);
            }
        }
    }
    // it stays usable
    obj->mutate(op.I[6]);
    want->mutate(op.I[6]);
    expect(c, i, *obj, *want, "post-load-mismatch", "after a further change, compared with a never-stored object");
    if (obj2 && (ok || full)) {
        expect(c, i, *obj2, *want2, "post-load-mismatch", "the second object after a change to the first");
    }
}

static void stor_op(void *a, std::size_t i)
{
    auto *c = static_cast<StorCtx *>(a);
    const Op &op = c->p->ops[i];
    count(UC_OPS);
    if (op.kind == K_SAVE) {
        do_save(c, i);
    } else if (op.kind == K_LOAD) {
        do_load(c, i);
    } else if (op.kind == K_QUERY) {
        const auto it = c->defs->find(static_cast<std::size_t>(op.I[0]));
        if (it != c->defs->end() && it->second) {
            Blob b;
            answer(*it->second, b, op.I[1]);
            sim::hash_bytes(b.b.data(), b.b.size());
        }
    }
}

void stor_exec(const Plan &p, const std::vector<Blob> &, int inc)
{
    sim::paint_stack(p.garbage);
    std::size_t from = 0, to = p.ops.size();
    int k = 0;
    for (std::size_t i = 0; i < p.ops.size(); ++i) {
        if (p.ops[i].kind == K_CRASH) {
            ++k;
            if (k == inc) {
                from = i + 1;
            }
            if (k == inc + 1) {
                to = i;
                break;
            }
        }
    }
    Defs defs = build_defs(p);
    StorCtx c{&p, &defs};
    each(p, 0, stor_op, &c, from, to);
    run_workers(p, from, to, stor_op, &c);
    each(p, 100, stor_op, &c, from, to);
    if (to < p.ops.size()) {
        crash_now(static_cast<u64>(p.ops[to].I[0]));
    }
}

// ---- allocation failure scenario ---------------------------------------------------
// Every op is repeated: undisturbed, with its fail-th, fail+1-th ... allocation
// failing, then undisturbed again; the last repetitions must not grow the heap.
struct AllocCtx {
    const Plan *p;
    const std::vector<Blob> *refs;
    Defs *defs;
    bool alone;
};
// Another call of the plan, undisturbed, right after a call that ran out of memory.
static void alloc_witness(AllocCtx *c, std::size_t after, u64 pick)
{
    std::vector<std::size_t> v;
    for (std::size_t j = 0; j < c->p->ops.size(); ++j) {
        const Op &o = c->p->ops[j];
        if (j != after && o.thr >= 0 && fail_ok(o, *c->defs) && (c->alone || o.kind != K_QUERY)) {
            v.push_back(j);
        }
    }
    if (v.empty()) {
        return;
    }
    const std::size_t j = v[pick % v.size()];
    Blob got;
    count(UC_OPS);
    {
        InFlight fl;
        one_op(c->p->ops[j], *c->defs, got);
    }
    count(UC_COMPARED);
    sim::hash_bytes(got.b.data(), got.b.size());
    if (got != (*c->refs)[j]) {
        mismatch("result-mismatch", "right after another call ran out of memory", *c->p, j, (*c->refs)[j], got);
    }
}
static void alloc_op(void *a, std::size_t i)
{
    auto *c = static_cast<AllocCtx *>(a);
    const Op &op = c->p->ops[i];
    const Blob &want = (*c->refs)[i];
    const long witness = c->p->param("witness", 0);
    if (!fail_ok(op, *c->defs)) {
        return;
    }
    const long rounds = c->p->param("rounds", 6);
    u64 live = 0;
    u32 at = op.fail ? fail_at(op, want) : 1;
    for (long r = 0; r < rounds + 3; ++r) {
        const bool last = r >= rounds; // undisturbed again
        const u64 before = sim::live_blocks(), bbytes = sim::live_bytes();
        bool fired = false;
        u64 n = 0;
        {
            Blob got;
            count(UC_OPS);
            if (!last) {
                sim::arm_alloc(at);
                sim::set_alloc_sticky((op.fail & 1) && (r & 1));
            }
            {
                InFlight fl;
                one_op(op, *c->defs, got);
            }
            if (!last) {
                fired = sim::alloc_fired();
                n = sim::alloc_count();
                sim::arm_alloc(0);
                sim::set_alloc_sticky(false);
            }
            count(UC_COMPARED);
            sim::hash_bytes(got.b.data(), got.b.size());
            if (fired && got.is_bad_alloc) {
                count(UC_BADALLOC);
            } else if (got != want) {
                mismatch("result-mismatch",
                         fired ? "an allocation failed inside the call, and it returned something else than the right answer or std::bad_alloc"
                               : "after earlier calls ran out of memory",
                         *c->p, i, want, got);
            }
        }
        const u64 after = sim::live_blocks();
        if (c->alone && last && r > rounds) {
            count(UC_LEAKCMP);
            if (after > before) {
                sim::violate("leak", "op %zu (%s) leaves %llu more blocks (%lld bytes) allocated every time it is called", i,
                             kind_name(op.kind), static_cast<unsigned long long>(after - before),
                             static_cast<long long>(sim::live_bytes()) - static_cast<long long>(bbytes));
            }
        }
        if (c->alone && !last && r > 0) {
            count(UC_LEAKCMP);
            if (after > before) {
                ++live;
            }
            if (live >= 3 && live == static_cast<u64>(r)) {
                sim::violate("leak",
                             "op %zu (%s) left more blocks allocated each of the %llu times that an allocation inside it failed",
                             i, kind_name(op.kind), static_cast<unsigned long long>(live));
            }
        }
        if (witness && fired && r % witness == 0) {
            alloc_witness(c, i, static_cast<u64>(r / witness) + i);
        }
        if (n && at >= n && !fired) {
            at = 1; // past the last allocation: start over
        } else if (!last) {
            ++at;
        }
    }
}
void alloc_exec(const Plan &p, const std::vector<Blob> &refs, int)
{
    sim::paint_stack(p.garbage);
    Defs defs = build_defs(p);
    AllocCtx c{&p, &refs, &defs, true};
    for (std::size_t i = 0; i < p.ops.size(); ++i) {
        if (p.ops[i].thr == 0) {
            alloc_op(&c, i);
        }
    }
    c.alone = false;
    run_workers(p, 0, p.ops.size(), alloc_op, &c);
    c.alone = true;
    for (std::size_t i = 0; i < p.ops.size(); ++i) {
        if (p.ops[i].thr == 100) {
            alloc_op(&c, i);
        }
    }
}
} // namespace h
