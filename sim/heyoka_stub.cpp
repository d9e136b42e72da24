// Implementation of the heyoka stand-in.  Compiled without instrumentation: what
// happens in here is atomic for the scheduler (except at allocations and at
// scheduling_point) and invisible to the race detector.
#include "rt.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>
#include <unordered_map>
#include <utility>

#include <heyoka/expression.hpp>
#include <heyoka/llvm_state.hpp>
#include <heyoka/model/vsop2013.hpp>
#include <heyoka/taylor.hpp>

namespace heyoka
{
namespace stub
{
struct node {
    long refs = 1;
    int op = o_num;
    double num = 0;
    std::uint32_t par = 0;
    std::string var;
    std::vector<expression> args;
};
} // namespace stub
using stub::node;

// ---- expression ------------------------------------------------------------------
namespace
{
void drop(node *p) noexcept
{
    if (p && --p->refs == 0) {
        delete p;
    }
}
node *keep(node *p) noexcept
{
    if (p) {
        ++p->refs;
    }
    return p;
}
} // namespace
expression::expression() noexcept : m_p(nullptr) {}
expression::expression(double x) : m_p(new node)
{
    m_p->num = x;
}
expression::expression(std::string s) : m_p(new node)
{
    m_p->op = stub::o_var;
    m_p->var = std::move(s);
}
expression::expression(const expression &o) noexcept : m_p(keep(o.m_p)) {}
expression::expression(expression &&o) noexcept : m_p(o.m_p)
{
    o.m_p = nullptr;
}
expression &expression::operator=(const expression &o) noexcept
{
    node *q = keep(o.m_p);
    drop(m_p);
    m_p = q;
    return *this;
}
expression &expression::operator=(expression &&o) noexcept
{
    std::swap(m_p, o.m_p);
    return *this;
}
expression::~expression()
{
    drop(m_p);
}
expression expression::make(int op, std::initializer_list<expression> a)
{
    expression e;
    e.m_p = new node;
    e.m_p->op = op;
    e.m_p->args.assign(a.begin(), a.end());
    return e;
}
expression expression::make_par(std::uint32_t i)
{
    expression e;
    e.m_p = new node;
    e.m_p->op = stub::o_par;
    e.m_p->par = i;
    return e;
}
namespace
{
bool same(const node *a, const node *b) noexcept
{
    if (a == b) {
        return true;
    }
    if (!a || !b || a->op != b->op || a->num != b->num || a->par != b->par || a->var != b->var || a->args.size() != b->args.size()) {
        return false;
    }
    for (std::size_t i = 0; i < a->args.size(); ++i) {
        if (!same(a->args[i].get(), b->args[i].get())) {
            return false;
        }
    }
    return true;
}
} // namespace
bool operator==(const expression &a, const expression &b) noexcept
{
    return same(a.m_p, b.m_p);
}
expression operator+(expression a, expression b)
{
    return expression::make(stub::o_add, {std::move(a), std::move(b)});
}
expression operator-(expression a, expression b)
{
    return expression::make(stub::o_sub, {std::move(a), std::move(b)});
}
expression operator*(expression a, expression b)
{
    return expression::make(stub::o_mul, {std::move(a), std::move(b)});
}
expression operator/(expression a, expression b)
{
    return expression::make(stub::o_div, {std::move(a), std::move(b)});
}
expression operator-(expression a)
{
    return expression::make(stub::o_neg, {std::move(a)});
}
expression operator+(expression a)
{
    return a;
}
expression pow(expression a, expression b)
{
    return expression::make(stub::o_pow, {std::move(a), std::move(b)});
}
expression sum(std::vector<expression> v)
{
    if (v.empty()) {
        return expression(0.);
    }
    expression r = v[0];
    for (std::size_t i = 1; i < v.size(); ++i) {
        r = std::move(r) + v[i];
    }
    return r;
}
expression prod(std::vector<expression> v)
{
    if (v.empty()) {
        return expression(1.);
    }
    expression r = v[0];
    for (std::size_t i = 1; i < v.size(); ++i) {
        r = std::move(r) * v[i];
    }
    return r;
}

// ---- compiled systems --------------------------------------------------------------
namespace stub
{
constexpr unsigned MAXD = 12; // directions of differentiation
struct instr {
    int op;
    std::uint32_t a = 0, b = 0, c = 0; // operands (var: index, par: index)
    double num = 0;
};
struct system {
    long refs = 1;
    std::uint32_t nvar = 0, npar = 0, nout = 0;
    std::vector<instr> tape;
    std::vector<std::uint32_t> out;
    // variational: direction j is variable dir[j] (>= 0) or parameter -1 - dir[j]
    std::vector<int> dir;
    mutable std::vector<double> val; // scratch, (1 + directions) per instruction
};

namespace
{
struct Builder {
    system &s;
    const std::vector<std::string> &vars;
    std::unordered_map<const node *, std::uint32_t> seen;
    std::uint32_t add(const node *n)
    {
        if (!n) {
            throw std::invalid_argument("stub: empty expression");
        }
        if (auto it = seen.find(n); it != seen.end()) {
            return it->second;
        }
        instr i{n->op};
        i.num = n->num;
        if (n->op == o_var) {
            const auto it = std::find(vars.begin(), vars.end(), n->var);
            if (it == vars.end()) {
                throw std::invalid_argument("stub: unknown variable " + n->var);
            }
            i.a = static_cast<std::uint32_t>(it - vars.begin());
        } else if (n->op == o_par) {
            i.a = n->par;
            s.npar = std::max(s.npar, n->par + 1);
        } else if (n->op != o_num) {
            std::uint32_t k[3] = {};
            for (std::size_t j = 0; j < n->args.size() && j < 3; ++j) {
                k[j] = add(n->args[j].get());
            }
            i.a = k[0];
            i.b = k[1];
            i.c = k[2];
        }
        s.tape.push_back(i);
        const auto id = static_cast<std::uint32_t>(s.tape.size() - 1);
        seen.emplace(n, id);
        return id;
    }
};

// evaluates the tape; nd directions, derivatives of variable i in dvar[i * nd + j]
void eval(const system &s, const double *var, const double *par, unsigned nd, const double *dvar) noexcept
{
    const unsigned w = 1 + nd;
    double *v = s.val.data();
    for (std::size_t k = 0; k < s.tape.size(); ++k) {
        const instr &i = s.tape[k];
        double *o = v + k * w;
        const double *a = v + i.a * w, *b = v + i.b * w, *c = v + i.c * w;
        auto un = [&](double f, double df) {
            o[0] = f;
            for (unsigned j = 1; j < w; ++j) {
                o[j] = df * a[j];
            }
        };
        auto bin = [&](double f, double da, double db) {
            o[0] = f;
            for (unsigned j = 1; j < w; ++j) {
                o[j] = da * a[j] + db * b[j];
            }
        };
        auto flat = [&](double f) {
            o[0] = f;
            for (unsigned j = 1; j < w; ++j) {
                o[j] = 0;
            }
        };
        switch (i.op) {
            case o_num:
                flat(i.num);
                break;
            case o_var:
                o[0] = var[i.a];
                for (unsigned j = 0; j < nd; ++j) {
                    o[1 + j] = dvar[i.a * nd + j];
                }
                break;
            case o_par:
                flat(par[i.a]);
                for (unsigned j = 0; j < nd; ++j) {
                    if (s.dir[j] == -1 - static_cast<int>(i.a)) {
                        o[1 + j] = 1;
                    }
                }
                break;
            case o_add:
                bin(a[0] + b[0], 1, 1);
                break;
            case o_sub:
                bin(a[0] - b[0], 1, -1);
                break;
            case o_mul:
                bin(a[0] * b[0], b[0], a[0]);
                break;
            case o_div:
                bin(a[0] / b[0], 1 / b[0], -a[0] / (b[0] * b[0]));
                break;
            case o_neg:
                un(-a[0], -1);
                break;
            case o_pow:
                if (s.tape[i.b].op == o_num || s.tape[i.b].op == o_neg || s.tape[i.b].op == o_div) {
                    un(b[0] == 2 ? a[0] * a[0] : std::pow(a[0], b[0]), b[0] * std::pow(a[0], b[0] - 1));
                } else {
                    const double f = std::pow(a[0], b[0]);
                    bin(f, b[0] * std::pow(a[0], b[0] - 1), f * std::log(a[0]));
                }
                break;
            case o_sqrt:
                un(std::sqrt(a[0]), .5 / std::sqrt(a[0]));
                break;
            case o_sin:
                un(std::sin(a[0]), std::cos(a[0]));
                break;
            case o_cos:
                un(std::cos(a[0]), -std::sin(a[0]));
                break;
            case o_tan:
                un(std::tan(a[0]), 1 / (std::cos(a[0]) * std::cos(a[0])));
                break;
            case o_exp:
                un(std::exp(a[0]), std::exp(a[0]));
                break;
            case o_log:
                un(std::log(a[0]), 1 / a[0]);
                break;
            case o_asin:
                un(std::asin(a[0]), 1 / std::sqrt(1 - a[0] * a[0]));
                break;
            case o_acos:
                un(std::acos(a[0]), -1 / std::sqrt(1 - a[0] * a[0]));
                break;
            case o_atan:
                un(std::atan(a[0]), 1 / (1 + a[0] * a[0]));
                break;
            case o_atan2:
                bin(std::atan2(a[0], b[0]), b[0] / (a[0] * a[0] + b[0] * b[0]), -a[0] / (a[0] * a[0] + b[0] * b[0]));
                break;
            case o_sinh:
                un(std::sinh(a[0]), std::cosh(a[0]));
                break;
            case o_cosh:
                un(std::cosh(a[0]), std::sinh(a[0]));
                break;
            case o_tanh:
                un(std::tanh(a[0]), 1 - std::tanh(a[0]) * std::tanh(a[0]));
                break;
            case o_abs:
                un(std::abs(a[0]), a[0] < 0 ? -1 : 1);
                break;
            case o_eq:
                flat(a[0] == b[0]);
                break;
            case o_neq:
                flat(a[0] != b[0]);
                break;
            case o_lt:
                flat(a[0] < b[0]);
                break;
            case o_gt:
                flat(a[0] > b[0]);
                break;
            case o_lte:
                flat(a[0] <= b[0]);
                break;
            case o_gte:
                flat(a[0] >= b[0]);
                break;
            case o_select: {
                const double *x = a[0] != 0 ? b : c;
                for (unsigned j = 0; j < w; ++j) {
                    o[j] = x[j];
                }
                break;
            }
            default:
                sim::violate("sim-error", "stub: operation %d", i.op);
        }
    }
}
system *build(const std::vector<expression> &rhs, const std::vector<std::string> &vars)
{
    auto s = std::make_unique<system>();
    s->nvar = static_cast<std::uint32_t>(vars.size());
    s->nout = static_cast<std::uint32_t>(rhs.size());
    Builder b{*s, vars, {}};
    for (auto &e : rhs) {
        s->out.push_back(b.add(e.get()));
    }
    s->val.resize(s->tape.size());
    return s.release();
}
} // namespace

sys_ref::sys_ref(const sys_ref &o) noexcept : m_p(o.m_p)
{
    if (m_p) {
        ++m_p->refs;
    }
}
sys_ref::sys_ref(sys_ref &&o) noexcept : m_p(o.m_p)
{
    o.m_p = nullptr;
}
sys_ref &sys_ref::operator=(const sys_ref &o) noexcept
{
    sys_ref t(o);
    std::swap(m_p, t.m_p);
    return *this;
}
sys_ref &sys_ref::operator=(sys_ref &&o) noexcept
{
    std::swap(m_p, o.m_p);
    return *this;
}
sys_ref::~sys_ref()
{
    if (m_p && --m_p->refs == 0) {
        delete m_p;
    }
}

sys_ref compile(const std::vector<std::pair<expression, expression>> &sys, const std::vector<expression> &args, std::uint32_t order)
{
    std::vector<std::string> vars;
    std::vector<expression> rhs;
    for (auto &p : sys) {
        if (!p.first.get() || p.first.get()->op != o_var) {
            throw std::invalid_argument("stub: a left-hand side is not a variable");
        }
        vars.push_back(p.first.get()->var);
        rhs.push_back(p.second);
    }
    sys_ref r(build(rhs, vars));
    if (order > 1) {
        throw std::invalid_argument("stub: only first order variational equations");
    }
    if (order) {
        if (args.size() > MAXD) {
            throw std::invalid_argument("stub: too many variational arguments");
        }
        for (auto &e : args) {
            const node *n = e.get();
            if (n && n->op == o_var) {
                const auto it = std::find(vars.begin(), vars.end(), n->var);
                if (it == vars.end()) {
                    throw std::invalid_argument("stub: variational argument is not in the system");
                }
                r.m_p->dir.push_back(static_cast<int>(it - vars.begin()));
            } else if (n && n->op == o_par) {
                r.m_p->dir.push_back(-1 - static_cast<int>(n->par));
                r.m_p->npar = std::max(r.m_p->npar, n->par + 1);
            } else {
                throw std::invalid_argument("stub: bad variational argument");
            }
        }
    }
    r.m_p->val.resize(r.m_p->tape.size() * (1 + r.m_p->dir.size()));
    return r;
}
unsigned n_eq(const sys_ref &s) noexcept
{
    return s.m_p ? s.m_p->nvar * (1 + static_cast<unsigned>(s.m_p->dir.size())) : 0;
}
unsigned n_orig(const sys_ref &s) noexcept
{
    return s.m_p ? s.m_p->nvar : 0;
}
unsigned n_par(const sys_ref &s) noexcept
{
    return s.m_p ? s.m_p->npar : 0;
}
void initial_var(const sys_ref &s, std::vector<double> &state)
{
    for (unsigned i = 0; i < s.m_p->nvar; ++i) {
        for (int d : s.m_p->dir) {
            state.push_back(d == static_cast<int>(i) ? 1. : 0.);
        }
    }
}
bool step(const sys_ref &r, double *st, const double *pars, double, double h) noexcept
{
    const system &s = *r.m_p;
    const unsigned n = s.nvar, nd = static_cast<unsigned>(s.dir.size()), w = 1 + nd, tot = n * w;
    constexpr unsigned MAX = 16 * (1 + MAXD);
    if (tot > MAX) {
        sim::violate("sim-error", "stub: system too large");
    }
    double k[4][MAX], x[MAX];
    sim::op_skip_begin(); // the scratch memory is the stub's, not the library's
    const double cs[4] = {0, .5, .5, 1};
    for (int q = 0; q < 4; ++q) {
        for (unsigned i = 0; i < tot; ++i) {
            x[i] = st[i] + (q ? cs[q] * h * k[q - 1][i] : 0.);
        }
        eval(s, x, pars, nd, x + n);
        for (unsigned i = 0; i < n; ++i) {
            const double *o = s.val.data() + s.out[i] * w;
            k[q][i] = o[0];
            for (unsigned j = 0; j < nd; ++j) {
                k[q][n + i * nd + j] = o[1 + j];
            }
        }
    }
    sim::op_skip_end();
    bool fin = true;
    for (unsigned i = 0; i < tot; ++i) {
        st[i] += h / 6. * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
        fin = fin && std::isfinite(st[i]);
    }
    return fin;
}
unsigned n_steps(double dt, double tol) noexcept
{
    const double a = std::min(std::abs(dt), 2.);
    return 2 + static_cast<unsigned>(a) + static_cast<unsigned>(std::max(0., -std::log10(std::max(tol, 1e-20))) / 4.);
}
thread_local long g_failed = 0;
void note_failure()
{
    g_failed++;
}
long failures()
{
    return g_failed;
}
void forget_failures(long n)
{
    g_failed = n;
}
void scheduling_point()
{
    sim::sync_point();
}
namespace
{
void put(std::string &s, const char *f, auto... a)
{
    char b[64];
    std::snprintf(b, sizeof b, f, a...);
    s += b;
}
struct Reader {
    const char *p;
    [[noreturn]] static void bad()
    {
        throw std::runtime_error("stub: malformed system");
    }
    long num(long lo, long hi)
    {
        char *e;
        const long x = std::strtol(p, &e, 10);
        if (e == p || *e != ' ' || x < lo || x > hi) {
            bad();
        }
        p = e + 1;
        return x;
    }
    double dbl()
    {
        char *e;
        const double x = std::strtod(p, &e);
        if (e == p || *e != ' ') {
            bad();
        }
        p = e + 1;
        return x;
    }
};
} // namespace
std::string to_text(const sys_ref &r)
{
    std::string t = "SYS ";
    if (!r.m_p) {
        return t + "0 ";
    }
    const system &s = *r.m_p;
    put(t, "1 %u %u %u %zu %zu ", s.nvar, s.npar, s.nout, s.dir.size(), s.tape.size());
    for (int d : s.dir) {
        put(t, "%d ", d);
    }
    for (auto &i : s.tape) {
        put(t, "%d %u %u %u %a ", i.op, i.a, i.b, i.c, i.num);
    }
    for (auto o : s.out) {
        put(t, "%u ", o);
    }
    return t;
}
sys_ref from_text(const std::string &t)
{
    if (t.compare(0, 4, "SYS ") != 0) {
        Reader::bad();
    }
    Reader in{t.c_str() + 4};
    if (in.num(0, 1) == 0) {
        return {};
    }
    sys_ref r(new system);
    system &s = *r.m_p;
    s.nvar = static_cast<std::uint32_t>(in.num(0, 16));
    s.npar = static_cast<std::uint32_t>(in.num(0, 64));
    s.nout = static_cast<std::uint32_t>(in.num(0, 64));
    const auto nd = in.num(0, MAXD), nt = in.num(0, 100000);
    for (long i = 0; i < nd; ++i) {
        s.dir.push_back(static_cast<int>(in.num(-100, 100)));
    }
    for (long i = 0; i < nt; ++i) {
        instr k{static_cast<int>(in.num(0, o_abs))};
        k.a = static_cast<std::uint32_t>(in.num(0, 100000));
        k.b = static_cast<std::uint32_t>(in.num(0, 100000));
        k.c = static_cast<std::uint32_t>(in.num(0, 100000));
        k.num = in.dbl();
        s.tape.push_back(k);
    }
    for (std::uint32_t i = 0; i < s.nout; ++i) {
        s.out.push_back(static_cast<std::uint32_t>(in.num(0, nt - 1)));
    }
    if (*in.p) {
        Reader::bad();
    }
    s.val.resize(s.tape.size() * (1 + s.dir.size()));
    return r;
}
} // namespace stub

// ---- llvm_state ----------------------------------------------------------------------
namespace
{
constexpr std::size_t NSLOT = 1024;
struct Slot {
    stub::system *sys = nullptr;
};
Slot g_slot[NSLOT];
std::size_t g_next = 0;
using fptr_t = void (*)(double *, const double *, const double *, const double *) noexcept;
void call_slot(std::size_t k, double *out, const double *in, const double *pars) noexcept
{
    const stub::system *s = g_slot[k].sys;
    if (!s) {
        sim::violate("use-after-free", "a compiled function was called after the llvm_state that owns it was destroyed");
    }
    sim::op_skip_begin();
    stub::eval(*s, in, pars, 0, nullptr);
    sim::op_skip_end();
    for (std::uint32_t i = 0; i < s->nout; ++i) {
        out[i] = s->val[s->out[i]];
    }
}
template <std::size_t K>
void slot_fn(double *out, const double *in, const double *pars, const double *) noexcept
{
    call_slot(K, out, in, pars);
}
template <std::size_t... K>
constexpr std::array<fptr_t, sizeof...(K)> table(std::index_sequence<K...>)
{
    return {&slot_fn<K>...};
}
constexpr auto g_table = table(std::make_index_sequence<NSLOT>{});
} // namespace
llvm_state::llvm_state() = default;
void llvm_state::swap(llvm_state &o) noexcept
{
    std::swap(m_name, o.m_name);
    std::swap(m_text, o.m_text);
    std::swap(m_slot, o.m_slot);
}
llvm_state::llvm_state(const llvm_state &o) : m_name(o.m_name), m_text(o.m_text)
{
    if (o.m_slot >= 0) {
        compile();
    }
}
llvm_state::llvm_state(llvm_state &&o) noexcept
{
    swap(o);
}
llvm_state &llvm_state::operator=(const llvm_state &o)
{
    if (this != &o) {
        llvm_state t(o);
        swap(t);
    }
    return *this;
}
llvm_state &llvm_state::operator=(llvm_state &&o) noexcept
{
    if (this != &o) {
        llvm_state t(std::move(o));
        swap(t);
    }
    return *this;
}
llvm_state::~llvm_state()
{
    if (m_slot >= 0) {
        stub::system *s = std::exchange(g_slot[m_slot].sys, nullptr);
        delete s;
    }
}
void llvm_state::stub_add(const std::string &name, const std::vector<expression> &fn, const std::vector<expression> &vars)
{
    std::vector<std::string> v;
    for (auto &e : vars) {
        v.push_back(e.get()->var);
    }
    stub::sys_ref r(stub::build(fn, v));
    m_text = stub::to_text(r);
    m_name = name;
}
void llvm_state::compile()
{
    if (m_slot >= 0) {
        throw std::invalid_argument("This LLVM state was already compiled");
    }
    if (m_name.empty()) {
        return;
    }
    auto r = stub::from_text(m_text);
    sim::sync_point(); // compilation takes its time
    for (std::size_t i = 0; i < NSLOT; ++i) {
        const std::size_t k = (g_next + i) % NSLOT;
        if (!g_slot[k].sys) {
            g_slot[k].sys = std::exchange(r.m_p, nullptr);
            g_next = k + 1;
            m_slot = static_cast<int>(k);
            return;
        }
    }
    sim::violate("sim-error", "stub: out of code slots");
}
std::uintptr_t llvm_state::jit_lookup(const std::string &name) const
{
    if (m_slot < 0) {
        throw std::invalid_argument("The function can be invoked only after the llvm_state has been compiled");
    }
    if (name != m_name) {
        throw std::invalid_argument("Could not find the symbol '" + name + "'");
    }
    return reinterpret_cast<std::uintptr_t>(g_table[static_cast<std::size_t>(m_slot)]);
}

// ---- vsop2013 ----------------------------------------------------------------------------
namespace model
{
std::array<double, 10> get_vsop2013_mus()
{
    return {2.9591220836841438269e-04, 4.9125474514508118699e-11, 7.2434524861627027000e-10, 8.9970116036316091182e-10,
            9.5495351057792580598e-11, 2.8253458420837780000e-07, 8.4597151856806587398e-08, 1.2920249167819693900e-08,
            1.5243589007842762800e-08, 2.1886997654259696800e-12};
}
std::vector<expression> stub_vsop2013(std::uint32_t i, expression t, double thresh)
{
    if (i < 1 || i > 9) {
        throw std::invalid_argument("Invalid planet index passed to vsop2013");
    }
    std::vector<expression> r;
    const double n = 1. + static_cast<double>(i);
    const int terms = 2 + static_cast<int>(std::max(0., -std::log10(thresh + 1e-12)) / 3.);
    for (int k = 0; k < 6; ++k) {
        expression e(0.1 * n);
        for (int j = 1; j <= terms; ++j) {
            e = std::move(e) + (n / (j * j)) * cos((j * n * 50. + k) * t + 0.3 * k);
        }
        r.push_back(std::move(e) * (1. + thresh));
    }
    return r;
}
} // namespace model
} // namespace heyoka
