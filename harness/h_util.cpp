// Monitors for two self-contained utilities: the quadrature tables (P37) and the command line parser (P38).
#include <quadmath.h>

#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

#include "vf.hpp"

#ifndef NOQUAD
#include "Util/Gauss_Legendre_Nodes_and_Weights.hpp" // takes its time to compile
#endif
#include "Util/cmdparser.hpp"

using vf::Rng;
typedef __float128 q128;

#ifndef NOQUAD
// ------------------------------------------------------------------ P37
// the rule of n points in 128 bits: zeros of the Legendre polynomial by Newton's method
static const std::vector<std::pair<q128, q128>> &rule(int n) {
    static std::vector<std::vector<std::pair<q128, q128>>> all(200);
    auto &o = all[n];
    if (o.empty())
        for (int k = n; k >= 1; k--) {
            q128 x = cosq(M_PIq * (k - 0.25Q) / (n + 0.5Q)), d = 0;
            for (int it = 0; it < 12; it++) {
                q128 p0 = 1, p1 = x;
                for (int j = 2; j <= n; j++) {
                    const q128 p = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j;
                    p0 = p1;
                    p1 = p;
                }
                if (n == 1)
                    p0 = 1;
                d = n * (p0 - x * p1) / (1 - x * x);
                x -= p1 / d;
            }
            if (fabsq(x) < 1e-25Q)
                x = 0;
            o.push_back({x, 2 / ((1 - x * x) * d * d)});
        }
    return o;
}

template <class Real>
static void quadCase(int n, Rng &r, const char *type) {
    std::vector<Real> x(r.i(200), Real(3)), w(r.i(200), Real(5)); // whatever was in there is replaced
    Gauss_Legendre_Nodes_and_Weights(n, x, w);
    if (!((int)x.size() == n && (int)w.size() == n)) {
        VF_CHECK(false, "rule-size", "rule of %d points (%s) has %zu nodes and %zu weights", n, type, x.size(), w.size());
        return;
    }
    const auto &want = rule(n);
    std::vector<int> id(n);
    for (int i = 0; i < n; i++)
        id[i] = i;
    std::sort(id.begin(), id.end(), [&](int a, int b) { return x[a] < x[b]; }); // the order of the points is free
    const double eps = sizeof(Real) == 4 ? 6e-8 : 1.2e-16;                     // the table is written for double
    for (int i = 0; i < n; i++) {
        const double ex = (double)fabsq((q128)x[id[i]] - want[i].first), ew = (double)(fabsq((q128)w[id[i]] - want[i].second) / want[i].second);
        vf::maxi(std::string("node_error_") + type, ex);
        vf::maxi(std::string("relative_weight_error_") + type, ew);
        if (!(ex <= 2 * eps * (double)(fabsq(want[i].first) + 1e-3Q)))
            VF_CHECK(false, "rule-node", "rule of %d points (%s): node %.20g instead of %.20g", n, type, (double)x[id[i]], (double)want[i].first);
        else if (!(ew <= 2 * eps))
            VF_CHECK(false, "rule-weight", "rule of %d points (%s): weight %.20g at %.20g instead of %.20g", n, type, (double)w[id[i]], (double)x[id[i]], (double)want[i].second);
    }
    // what the rule is for: polynomials up to degree 2n-1 are integrated exactly
    for (int t = 0; t < 4; t++) {
        const int deg = r.i(2 * n);
        q128 s = 0, a = 0;
        for (int i = 0; i < n; i++) {
            q128 p = 1;
            for (int k = 0; k < deg; k++)
                p *= (q128)x[i];
            s += (q128)w[i] * p;
            a += fabsq((q128)w[i] * p);
        }
        const q128 e = deg % 2 ? 0 : 2.0Q / (deg + 1);
        VF_CHECK(fabsq(s - e) <= eps * (4 + deg) * 4, "rule-integral", "rule of %d points (%s) integrates x^%d to %.17g instead of %.17g", n, type, deg, (double)s, (double)e);
        vf::count("monomials_integrated");
    }
    vf::evals();
    vf::distinct(n * 4 + sizeof(Real) % 7);
    vf::count("nodes_compared", n);
}

static void quad() {
    vf::forCases("quad", [](uint64_t c, Rng &r) {
        std::vector<int> order;
        for (int n = 1; n <= 128; n++)
            order.push_back(n);
        for (int i = 127; i > 0; i--)
            std::swap(order[i], order[r.i(i + 1)]);
        for (int n : order) {
            quadCase<double>(n, r, "double");
            quadCase<float>(n, r, "float");
            quadCase<long double>(n, r, "long_double");
        }
        if (vf::wantSample())
            vf::sample("rules of 1..128 points in three types compared with 128-bit zeros of the Legendre polynomials");
    });
}
#endif

// ------------------------------------------------------------------ P38
typedef std::vector<std::string> Words;
struct Opt {
    virtual ~Opt() {}
    std::string name, alt;
    bool required = false, dominant = false, variadic = false, given = false;
    Words in;                                                 // the words given to it
    virtual void declare(cli::Parser &p) = 0;
    virtual void makeWords(Rng &r) = 0;                       // a well-formed use: fills `add` and changes the value wanted
    virtual bool check(const cli::Parser &p, std::string &why) = 0;
    virtual Words bad(Rng &r) = 0;                            // words that no value of the type can be read from
    Words add;
};
static std::string show(const std::string &s) { return "'" + s + "'"; }
template <class T>
static std::string show(const T &v) {
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}
template <class T>
static std::string show(const std::vector<T> &v) {
    std::string s = "[";
    for (const T &x : v)
        s += show(x) + " ";
    return s + "]";
}
static std::string num(Rng &r, long double lo, long double hi, long double &v) {
    const bool isSigned = lo < 0;
    const int k = r.i(5);
    v = k == 0 ? 0 : k == 1 ? lo : k == 2 ? hi : std::floor(lo + (hi - lo) * (long double)r.u(0, 1));
    v = std::min(std::max(v, lo), hi);
    char b[64];
    snprintf(b, sizeof b, "%.0Lf", v);
    std::string s = b;
    if (s == "-0")
        s = "0";
    if (isSigned && v > 0 && r.p(0.1))
        s = "+" + s;
    return s;
}
template <class T>
struct Gen;
#define INTGEN(T, lo, hi)                                       \
    template <>                                                \
    struct Gen<T> {                                            \
        static T get(Rng &r, std::string &s) {                 \
            long double v;                                     \
            s = num(r, lo, hi, v);                             \
            return (T)v;                                       \
        }                                                      \
        static std::string bad(Rng &r) {                       \
            if (sizeof(T) == 4 && r.p(0.5)) /* the first number too large, in every spelling of one */ \
                return r.pick((hi) < 3e9L ? Words{"2147483648", "4294967296", "-2147483649"} : Words{"4294967296", "-1", "8589934599"}); \
            return r.pick(Words{"abc", "", "x1", "--", "-", "99999999999999999999999999"}); \
        }                                                      \
    };
INTGEN(int, -2147483648.0L, 2147483647.0L)
INTGEN(unsigned int, 0.0L, 4294967295.0L)
INTGEN(long, -9223372036854775808.0L, 9223372036854775807.0L)
INTGEN(unsigned long, 0.0L, 18446744073709551615.0L)
INTGEN(unsigned long long, 0.0L, 18446744073709551615.0L)
template <class T>
static T real(Rng &r, std::string &s, T (*read)(const char *, char **)) {
    const double v = r.p(0.2) ? 0 : r.p(0.3) ? (double)r.i(-1000, 1000) : r.u(-1, 1) * std::pow(10.0, r.i(-20, 20));
    char b[64];
    snprintf(b, sizeof b, r.p(0.5) ? "%.17g" : "%.17e", v);
    s = b;
    return read(b, nullptr);
}
#define REALGEN(T, f)                                                                                  \
    template <>                                                                                        \
    struct Gen<T> {                                                                                    \
        static T get(Rng &r, std::string &s) { return real<T>(r, s, f); }                              \
        static std::string bad(Rng &r) { return r.pick(Words{"abc", "", "e5", "-", ".", "--"}); }      \
    };
REALGEN(float, strtof)
REALGEN(double, strtod)
REALGEN(long double, strtold)
template <>
struct Gen<std::string> {
    static std::string get(Rng &r, std::string &s) {
        return s = r.pick(Words{"a", "", "file.txt", "a b", "-7", "-", "--", "-unknown", "=", "-q=3", "1e5", "\t", "h", "--helpme"});
    }
    static std::string bad(Rng &) { return std::string("\1"); } // every word is a string
};

template <class T>
struct Single : Opt {
    T want = T();
    bool known = false; // a required parameter that was not given has no value
    void declare(cli::Parser &p) override {
        if (name.empty())
            p.set_default<T>(required, "the default");
        else if (required)
            p.set_required<T>(name, alt, "text", dominant);
        else
            p.set_optional<T>(name, alt, want, "text", dominant);
    }
    void makeWords(Rng &r) override {
        add.assign(1, "");
        want = Gen<T>::get(r, add[0]);
        known = true;
    }
    Words bad(Rng &r) override {
        if (r.p(0.3) || std::is_same<T, std::string>::value)
            return Words(); // no value at all
        return Words{Gen<T>::bad(r)};
    }
    bool check(const cli::Parser &p, std::string &why) override {
        if (!known)
            return true;
        const T got = p.get<T>(name);
        why = show(got) + " instead of " + show(want);
        return got == want;
    }
};
template <class T>
struct Many : Opt {
    std::vector<T> want;
    Many() { variadic = true; }
    void declare(cli::Parser &p) override {
        if (name.empty())
            p.set_default<std::vector<T>>(required, "the default");
        else if (required)
            p.set_required<std::vector<T>>(name, alt, "text", dominant);
        else
            p.set_optional<std::vector<T>>(name, alt, want, "text", dominant);
    }
    void makeWords(Rng &r) override {
        if (!given)
            want.clear(); // what is given replaces the default, and later uses add to it
        add.clear();
        for (int n = r.i(4); n >= 0; n--) {
            std::string s;
            want.push_back(Gen<T>::get(r, s));
            add.push_back(s);
        }
    }
    Words bad(Rng &r) override {
        Words w;
        std::string s;
        for (int n = r.i(3); n > 0; n--) {
            Gen<T>::get(r, s);
            w.push_back(s);
        }
        w.push_back(Gen<T>::bad(r));
        return w;
    }
    bool check(const cli::Parser &p, std::string &why) override {
        const auto got = p.get<std::vector<T>>(name);
        why = show(got) + " instead of " + show(want);
        return got == want;
    }
};
struct Flag : Opt {
    bool def = false;
    void declare(cli::Parser &p) override { p.set_optional<bool>(name, alt, def, "text", dominant); }
    void makeWords(Rng &) override { add.clear(); }
    Words bad(Rng &) override { return Words{"yes"}; }
    bool check(const cli::Parser &p, std::string &why) override {
        const bool got = p.get<bool>(name), want = given ? !def : def;
        why = show(got) + " instead of " + show(want);
        return got == want;
    }
};
struct Call : Opt {
    int calls = 0, want = 0;
    bool refuse = false;
    Words seen, expect;
    void declare(cli::Parser &p) override {
        p.set_callback<int>(name, alt, std::function<int(cli::CallbackArgs &)>([this](cli::CallbackArgs &a) {
                                calls++;
                                seen = a.arguments;
                                if (refuse)
                                    throw std::runtime_error("refused");
                                return 1;
                            }),
                            "text", dominant);
    }
    void makeWords(Rng &r) override {
        add.clear();
        want = 1;
        if (r.p(0.5))
            add.push_back("word");
        expect = add;
    }
    Words bad(Rng &) override {
        refuse = true;
        return Words();
    }
    bool check(const cli::Parser &, std::string &why) override {
        why = vf::fmt("%d calls with %s instead of %d with %s", calls, show(seen).c_str(), want, show(expect).c_str());
        return calls == want && seen == expect;
    }
};

static std::unique_ptr<Opt> makeOpt(Rng &r, bool dflt) {
    std::unique_ptr<Opt> o;
    switch (r.i(dflt ? 12 : 15)) {
    case 0:
        o.reset(new Single<int>);
        break;
    case 1:
        o.reset(new Single<unsigned int>);
        break;
    case 2:
        o.reset(new Single<long>);
        break;
    case 3:
        o.reset(new Single<unsigned long>);
        break;
    case 4:
        o.reset(new Single<unsigned long long>);
        break;
    case 5:
        o.reset(new Single<float>);
        break;
    case 6:
        o.reset(new Single<double>);
        break;
    case 7:
        o.reset(new Single<long double>);
        break;
    case 8:
        o.reset(new Single<std::string>);
        break;
    case 9:
        o.reset(new Many<int>);
        break;
    case 10:
        o.reset(new Many<double>);
        break;
    case 11:
        o.reset(new Many<std::string>);
        break;
    case 12:
        o.reset(new Call);
        break;
    default: {
        Flag *f = new Flag;
        f->def = r.p(0.3);
        o.reset(f);
    }
    }
    return o;
}
// defaults are values like any other
template <class T>
static void setDefault(Opt *o, Rng &r) {
    if (auto *s = dynamic_cast<Single<T> *>(o)) {
        std::string t;
        s->want = Gen<T>::get(r, t);
        s->known = true;
    }
    if (auto *m = dynamic_cast<Many<T> *>(o)) {
        std::string t;
        for (int n = r.i(3); n > 0; n--)
            m->want.push_back(Gen<T>::get(r, t));
    }
}

static void cmdCase(uint64_t c, Rng &r) {
    std::vector<std::unique_ptr<Opt>> opts;
    const bool withDefault = r.p(0.5);
    if (withDefault)
        opts.push_back(makeOpt(r, true));
    for (int n = r.i(7); n > 0; n--)
        opts.push_back(makeOpt(r, false));
    for (int i = opts.size() - 1; i > 0; i--) // the default may be declared anywhere
        std::swap(opts[i], opts[r.i(i + 1)]);
    Opt *dflt = nullptr;
    {
        int k = -1;
        if (withDefault)
            for (size_t i = 0; i < opts.size(); i++)
                if (!dynamic_cast<Flag *>(opts[i].get()) && !dynamic_cast<Call *>(opts[i].get()))
                    k = i;
        for (size_t i = 0; i < opts.size(); i++) {
            Opt &o = *opts[i];
            if ((int)i == k) {
                dflt = &o;
                o.required = r.p(0.3);
                continue;
            }
            o.name = std::string(1, "abcdefgijk"[i]) + (r.p(0.3) ? "x" : "");
            o.alt = r.p(0.8) ? o.name + "-" + std::string(1 + r.i(3), 'z') : "";
            o.dominant = r.p(0.1);
            if (!dynamic_cast<Flag *>(&o) && !dynamic_cast<Call *>(&o))
                o.required = r.p(0.2);
            if (!o.required) {
                setDefault<int>(&o, r);
                setDefault<unsigned int>(&o, r);
                setDefault<long>(&o, r);
                setDefault<unsigned long>(&o, r);
                setDefault<unsigned long long>(&o, r);
                setDefault<float>(&o, r);
                setDefault<double>(&o, r);
                setDefault<long double>(&o, r);
                setDefault<std::string>(&o, r);
            }
        }
    }
    Words args{"program"};
    std::vector<const char *> argv;
    // what is wrong with this command line, if anything
    enum { NONE, MISSING, BADVALUE, SURPLUS, STRAY } wrong = NONE;
    std::vector<Opt *> uses;
    for (auto &o : opts)
        if (o.get() != dflt && (o->required || r.p(0.5))) {
            uses.push_back(o.get());
            if (o->variadic && r.p(0.2))
                uses.push_back(o.get());
        }
    for (int i = (int)uses.size() - 1; i > 0; i--)
        std::swap(uses[i], uses[r.i(i + 1)]);
    const int fault = r.p(0.3) ? r.i(1, 4) : 0;
    Opt *victim = nullptr;
    if (fault == MISSING)
        for (auto *u : uses)
            if (u->required)
                victim = u;
    if ((fault == BADVALUE || fault == SURPLUS) && uses.size())
        victim = uses[r.i(uses.size())];
    if (fault == BADVALUE && dynamic_cast<Many<std::string> *>(victim))
        victim = nullptr; // any words are strings
    if (dflt && (dflt->required || r.p(0.6)))
        uses.insert(uses.begin(), dflt); // before the first name, so that the words are the default's
    bool lastTakesAll = false;
    for (auto *u : uses) {
        if (u == victim && fault == MISSING) {
            wrong = MISSING;
            u->given = false;
            continue;
        }
        if (u != dflt)
            args.push_back(u->alt.size() && r.p(0.5) ? "--" + u->alt : "-" + u->name);
        u->makeWords(r);
        u->given = true;
        Words w = u->add;
        if (u == victim && fault == BADVALUE) {
            w = u->bad(r);
            wrong = BADVALUE;
        }
        if (u == victim && fault == SURPLUS && !u->variadic && !dynamic_cast<Call *>(u) && !dflt) {
            w.push_back("5");
            wrong = SURPLUS;
        }
        args.insert(args.end(), w.begin(), w.end());
        lastTakesAll = u->variadic || dynamic_cast<Flag *>(u) || (dynamic_cast<Call *>(u) && w.empty());
    }
    if (fault == STRAY && !dflt && !lastTakesAll) {
        args.push_back(r.p(0.5) ? "stray" : "-notdeclared");
        wrong = STRAY;
    }
    for (auto &a : args)
        argv.push_back(a.c_str());
    std::string line;
    for (size_t i = 1; i < args.size(); i++)
        line += (i > 1 ? " " : "") + show(args[i]);
    const std::string inf = vf::fmt("declared %zu%s, arguments %s", opts.size(), dflt ? " with a default" : "", line.c_str());
    vf::beginCase(c, "cmd " + inf);
    cli::Parser p((int)argv.size(), argv.data());
    if (r.p(0.2))
        p.disable_help();
    const int had = p.commands();
    int req = 0;
    for (auto &o : opts) {
        o->declare(p);
        req += o->required;
    }
    VF_CHECK(p.commands() == had + (int)opts.size() && p.requirements() == req && p.app_name() == "program", "cmd-declared", "%s: %d parameters (%d required), name %s", inf.c_str(), p.commands(),
             p.requirements(), p.app_name().c_str());
    std::ostringstream out, err;
    const bool ok = p.run(out, err);
    VF_CHECK(ok == (wrong == NONE), wrong == NONE ? "cmd-refused" : "cmd-accepted", "%s (%s): returned %d, said %s", inf.c_str(),
             wrong == NONE ? "well formed" : wrong == MISSING ? "a required parameter is missing" : wrong == BADVALUE ? "a malformed value" : wrong == SURPLUS ? "one value too many" : "a value without parameter",
             ok, err.str().c_str());
    if (wrong == NONE) {
        VF_CHECK(err.str().empty(), "cmd-complains", "%s: %s", inf.c_str(), err.str().c_str());
        for (auto &o : opts) {
            std::string why;
            if (!o->check(p, why))
                VF_CHECK(false, o->given ? "cmd-value" : "cmd-default", "%s: parameter %s is %s", inf.c_str(), show(o->name).c_str(), why.c_str());
        }
    } else
        VF_CHECK(!err.str().empty(), "cmd-silent", "%s: refused without a message", inf.c_str());
    // asking for what was not declared, or as another type, is refused
    int thrown = 0;
    try {
        p.get<int>("nosuchname");
    } catch (const std::runtime_error &) {
        thrown++;
    }
    for (auto &o : opts)
        if (dynamic_cast<Single<double> *>(o.get())) {
            try {
                p.get<int>(o->name);
            } catch (const std::runtime_error &) {
                thrown += 2;
            }
            VF_CHECK(thrown >= 2, "cmd-type", "%s: parameter %s read as another type", inf.c_str(), show(o->name).c_str());
            break;
        }
    VF_CHECK(thrown & 1, "cmd-unknown", "%s: a parameter that was not declared has a value", inf.c_str());
    vf::evals();
    vf::distinct(c);
    static const char *W[] = {"well_formed", "missing", "bad_value", "surplus", "stray"};
    vf::count(W[wrong]);
    vf::count("words", (long)args.size() - 1);
    if (vf::wantSample())
        vf::sample(inf + (ok ? " -> accepted" : " -> refused: " + err.str().substr(0, 60)));
}

int main(int argc, char **argv) {
    vf::init(argc, argv, 0, 1);
    const std::string m = vf::st().mode;
    if (m == "cmd")
        vf::forCases("cmd", cmdCase);
#ifndef NOQUAD
    else if (m == "quad")
        quad();
#endif
    else
        return 3;
    return vf::finish();
}
