// Harness vocabulary: operations, plans, result blobs, properties.
#pragma once
#include "rt.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <ostream>
#include <streambuf>
#include <memory>
#include <string>
#include <vector>

namespace h
{
using sim::Rng;
using sim::u32;
using sim::u64;
using sim::u8;

// One step of a scenario.  thr: 0 = the main simulated thread before the
// others start, 1.. = worker threads, -1 = definition of a shared object.
struct Op {
    int thr = 0;
    int kind = 0;
    u32 fail = 0; // inject failure of the fail-th allocation inside this op
    u32 rep = 1;  // made that many times, one after the other
    std::vector<long> I;
    std::vector<double> D;
};

struct Plan {
    std::string prop;
    u64 seed = 0;
    std::vector<Op> ops;
    std::vector<std::pair<std::string, std::string>> params; // scenario knobs
    std::vector<sim::SchedEntry> sched;
    bool has_sched = false;
    u32 thr[sim::K_N] = {};
    u32 stall_thr = 0;
    u64 stall_max = 4000;
    u64 garbage = 1;
    long param(const char *n, long dflt) const;
    void set(const char *n, long v);
};

// Result of an operation as bytes: doubles bit for bit (NaNs canonical).
struct Blob {
    std::vector<u8> b;
    std::string txt; // short human readable form
    void raw(const void *p, std::size_t n);
    void tag(const char *s);
    void d(double v);
    void u(u64 v);
    void s(const std::string &v);
    template <typename C>
    void ds(const C &c)
    {
        u(static_cast<u64>(c.size()));
        for (const auto &v : c) {
            d(v);
        }
    }
    bool operator==(const Blob &o) const
    {
        return b == o.b;
    }
    bool operator!=(const Blob &o) const
    {
        return b != o.b;
    }
    bool is_exc = false;
    bool is_bad_alloc = false;
    u32 nalloc = 0; // allocations made by the call (references)
    void clear()
    {
        b.clear();
        txt.clear();
        is_exc = is_bad_alloc = false;
    }
};

// RAII: code under test runs between construction and destruction.
struct InLib {
    InLib()
    {
        sim::op_begin();
    }
    ~InLib()
    {
        if (!left) {
            sim::op_end();
        }
    }
    void leave()
    {
        left = true;
        sim::op_end();
    }
    void again()
    {
        left = false;
        sim::op_begin();
    }
    bool left = false;
};

// a stream whose device takes `room` bytes and no more
struct FullBuf : std::streambuf {
    explicit FullBuf(std::size_t n) : room(n) {}
    std::string got;
    std::size_t room;

protected:
    int_type overflow(int_type c) override
    {
        if (got.size() >= room || traits_type::eq_int_type(c, traits_type::eof())) {
            return traits_type::eof();
        }
        got.push_back(static_cast<char>(c));
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        const auto m = std::min<std::size_t>(static_cast<std::size_t>(n), room - got.size());
        got.append(s, m);
        return static_cast<std::streamsize>(m);
    }
};
// prints to such a stream, which throws or not
template <typename T>
void print_full(const T &t, Blob &b, std::size_t room, bool throws)
{
    bool threw = false, good = true;
    InLib l;
    FullBuf f(room);
    {
        std::ostream o(&f);
        o.imbue(std::locale::classic());
        if (throws) {
            o.exceptions(std::ios::badbit | std::ios::failbit);
        }
        try {
            o << t;
        } catch (const std::ios_base::failure &) {
            threw = true;
        }
        good = o.good();
    }
    const std::string s(f.got);
    l.leave();
    b.s(s);
    b.u(static_cast<u64>(threw) + 2 * static_cast<u64>(good));
}

// two objects of one value, observed in one run
inline void must_equal(const Blob &want, const Blob &got, const char *what)
{
    if (want != got) {
        sim::violate("result-mismatch", "%s differs from its source.\n expected: %.900s\n observed: %.900s", what, want.txt.c_str(), got.txt.c_str());
    }
}

const char *kind_name(int k);
int kind_of(const std::string &);

// A property's scenario.
struct Prop {
    const char *id;
    void (*gen)(Plan &, Rng &);
    // which ops need a reference result computed in a pristine process
    bool (*needs_ref)(const Plan &, std::size_t i);
    // compute that result (runs single threaded in a pristine process)
    void (*ref)(const Plan &, std::size_t i, Blob &);
    // run the plan (called as simulated thread 0 of process incarnation `inc`)
    void (*exec)(const Plan &, const std::vector<Blob> &refs, int inc);
    // number of process incarnations (crash / restart), nullptr: one
    int (*incarnations)(const Plan &);
};
void add_prop(const Prop &);
const Prop *find_prop(const std::string &);

// An object of the library under test, as the scenarios see it.  Every virtual
// function enters the library through InLib and may throw what it throws.
struct Obj {
    virtual ~Obj() = default;
    virtual long nq() const = 0;                                    // number of const query kinds
    virtual bool q_may_fail_alloc(long which) const = 0;            // queries whose answer survives a failed allocation
    virtual void obs(Blob &, long which) const = 0;                 // one const query
    virtual void obs_all(Blob &) const = 0;                         // whole observable state
    // kep3's serialisation, binary archive; with a second object of the same kind behind it
    virtual void save(std::ostream &, const Obj *second = nullptr) const = 0;
    virtual void load(std::istream &, Obj *second = nullptr) = 0;
    virtual void mutate(long seed) = 0;                             // some valid change through the public API
    virtual std::unique_ptr<Obj> fallback() const                   // what a failed load may leave behind, by documented design
    {
        return nullptr;
    }
};
std::unique_ptr<Obj> make_obj(const Op &op); // nullptr if the constructor rejects the arguments
void add_obj_kind(int kind, std::unique_ptr<Obj> (*f)(const Op &));

// memory shared by all incarnations of one run (simulated disk, history, ...)
extern u8 *g_shared;
constexpr std::size_t SHARED_SZ = 8u << 20;

// user counters in sim::Report
enum UserCounter {
    UC_OPS = 0,
    UC_COMPARED,
    UC_REJECTED,
    UC_BADALLOC,
    UC_OVERLAP,
    UC_THROW,
    UC_SAVE,
    UC_LOAD_OK,
    UC_LOAD_FAIL,
    UC_TORN,
    UC_CRASH,
    UC_EIO,
    UC_ENOSPC,
    UC_SHORT,
    UC_SYNC,
    UC_QUERY,
    UC_SETTER,
    UC_MODELCMP,
    UC_LEAKCMP,
    UC_REF,
    UC_CLOCKREAD,
    UC_CLOCKBACK,
    UC_UDPTHROW,
    UC_CACHE_MISS,
    UC_CACHE_HIT,
    UC_TWIN,
    UC_BURST,
    UC_REPEATED,
    UC_N
};
extern const char *uc_names[];
void count(int c, u64 n = 1);
// what a user's class threw last in this thread, until somebody hands it over
struct Tossed {
    int n = 0, kind = 0;
    const char *msg = "";
};
Tossed set_tossed(const Tossed &n); // returns what was there

std::string hexd(double);
} // namespace h
