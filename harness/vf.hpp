// Shared monitor plumbing for the SimToolbox harnesses: case generation, counters, violation records.
//
// A harness generates cases from 64-bit case seeds; every case can be replayed alone with --case.  Each rank writes one
// JSON-lines file <out>.<rank> (violations, then one summary) and keeps <out>.<rank>.progress naming the case it is in,
// so that a crash or hang is attributed to a case.
#ifndef VF_HPP_
#define VF_HPP_

#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <unistd.h>

extern "C" __attribute__((weak)) void vf_omp_stats(long *); // only in the thread sanitizer builds
namespace vf {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b + 0x632be59bd9b4e019ull)); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t u64() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    double u() { return (u64() >> 11) * (1.0 / 9007199254740992.0); } // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int n) { return static_cast<int>(u64() % static_cast<uint64_t>(n)); } // [0,n)
    int i(int a, int b) { return a + i(b - a + 1); }                            // [a,b]
    bool p(double pr) { return u() < pr; }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    double n() {
        double a = u();
        if (a < 1e-300)
            a = 1e-300;
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * u());
    }
    template <class T>
    const T &pick(const std::vector<T> &v) { return v[i((int)v.size())]; }
    template <class T>
    void shuffle(std::vector<T> &v) {
        for (int k = (int)v.size() - 1; k > 0; k--)
            std::swap(v[k], v[i(k + 1)]);
    }
    void dir(double d[3]) {
        double l;
        do {
            for (int k = 0; k < 3; k++)
                d[k] = n();
            l = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
        } while (l < 1e-3);
        for (int k = 0; k < 3; k++)
            d[k] /= l;
    }
};

struct State {
    int rank = 0, size = 1;
    std::string out = "/dev/null", mode, prop;
    uint64_t seed = 1;
    long cases = 100;
    bool haveCase = false;
    uint64_t onlyCase = 0;
    std::map<std::string, std::string> opt;
    // results
    long evaluations = 0, nviol = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, long> counters;
    std::map<std::string, double> maxima;
    std::vector<std::string> samples;
    std::map<std::string, int> perKey;
    uint64_t curCase = 0;
    std::string curWhat;
    FILE *fp = nullptr;
    int progressFd = -1;
    std::recursive_mutex mtx;
};
inline State &st() {
    static State s;
    return s;
}
using Lock = std::lock_guard<std::recursive_mutex>;

inline std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if (c < 0x20 || c > 0x7e) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            r += b;
        } else
            r += (char)c;
    }
    return r;
}
inline std::string fmtv(const char *f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = fmtv(f, ap);
    va_end(ap);
    return s;
}

inline void init(int argc, char **argv, int rank, int size) {
    State &s = st();
    s.rank = rank;
    s.size = size;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--out")
            s.out = v;
        else if (k == "--mode")
            s.mode = v;
        else if (k == "--prop")
            s.prop = v;
        else if (k == "--seed")
            s.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--cases")
            s.cases = atol(v.c_str());
        else if (k == "--case") {
            s.haveCase = true;
            s.onlyCase = strtoull(v.c_str(), nullptr, 10);
        } else if (k.substr(0, 2) == "--")
            s.opt[k.substr(2)] = v;
    }
    std::string base = s.out + "." + std::to_string(rank);
    s.fp = fopen(base.c_str(), "w");
    s.progressFd = open((base + ".progress").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
}
inline std::string option(const std::string &k, const std::string &dflt) {
    auto it = st().opt.find(k);
    return it == st().opt.end() ? dflt : it->second;
}
inline long optionl(const std::string &k, long dflt) {
    auto it = st().opt.find(k);
    return it == st().opt.end() ? dflt : atol(it->second.c_str());
}

// note what runs now (for crash attribution)
inline void beginCase(uint64_t c, const std::string &what) {
    State &s = st();
    Lock l(s.mtx);
    s.curCase = c;
    s.curWhat = what;
    if (s.progressFd >= 0) {
        char buf[512];
        int n = snprintf(buf, sizeof buf, "%" PRIu64 " %s", c, what.c_str());
        if (n > 500)
            n = 500;
        memset(buf + n, ' ', 511 - n);
        buf[511] = '\n';
        if (pwrite(s.progressFd, buf, 512, 0) < 0) {
        }
    }
}
// run fn(caseSeed, rng) for all cases of this run
template <class F>
void forCases(const std::string &what, F fn) {
    State &s = st();
    if (s.haveCase) {
        if (s.opt.count("what") && s.opt["what"] != what)
            return;
        beginCase(s.onlyCase, what);
        Rng r(s.onlyCase);
        fn(s.onlyCase, r);
        return;
    }
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : what)
        h = (h ^ c) * 1099511628211ull;
    for (long k = 0; k < s.cases; k++) {
        uint64_t c = mix(mix(s.seed, h), k);
        beginCase(c, what);
        Rng r(c);
        fn(c, r);
    }
}
// a case run by all ranks together is one evaluation
inline void evals(long n = 1) {
    if (st().rank != 0)
        return;
    Lock l(st().mtx);
    st().evaluations += n;
}
inline void distinct(uint64_t h) {
    Lock l(st().mtx);
    if (st().distinct.size() < 400000)
        st().distinct.insert(mix(h, st().size));
}
inline void count(const std::string &k, long n = 1) {
    if (st().rank != 0)
        return;
    Lock l(st().mtx);
    st().counters[k] += n;
}
inline void maxi(const std::string &k, double v) {
    Lock l(st().mtx);
    auto it = st().maxima.find(k);
    if (it == st().maxima.end())
        st().maxima[k] = v;
    else if (v > it->second || v != v)
        it->second = v;
}
inline void sample(const std::string &s) {
    Lock l(st().mtx);
    if (st().samples.size() < 6)
        st().samples.push_back(s);
}
inline bool wantSample() { return st().samples.size() < 6; }

inline void violation(const std::string &key, const char *f, ...) __attribute__((format(printf, 2, 3)));
inline void violation(const std::string &key, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string d = fmtv(f, ap);
    va_end(ap);
    State &s = st();
    Lock l(s.mtx);
    s.nviol++;
    if (s.perKey[key]++ < 5 && s.fp) {
        fprintf(s.fp, "{\"t\":\"violation\",\"key\":\"%s\",\"what\":\"%s\",\"case\":\"%" PRIu64 "\",\"rank\":%d,\"detail\":\"%s\"}\n",
                esc(key).c_str(), esc(s.curWhat).c_str(), s.curCase, s.rank, esc(d).c_str());
        fflush(s.fp);
    }
}
#define VF_CHECK(cond, key, ...)                                                                                       \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            vf::violation(key, __VA_ARGS__);                                                                           \
    } while (0)

inline std::string num(double v) {
    if (!(v == v) || std::isinf(v))
        return "\"" + fmt("%g", v) + "\"";
    return fmt("%.17g", v);
}
inline int finish() {
    State &s = st();
    Lock l(s.mtx);
    if (s.fp) {
        if (vf_omp_stats) {
            long r[5];
            vf_omp_stats(r);
            const char *n[5] = {"parallel regions run by several threads", "barrier arrivals", "loop chunks handed out", "critical sections entered", "distinct orders of region events"};
            for (int k = 0; k < 5; k++)
                s.counters[n[k]] += r[k];
        }
        fprintf(s.fp, "{\"t\":\"summary\",\"rank\":%d,\"evaluations\":%ld,\"nviol\":%ld,\"counters\":{", s.rank,
                s.evaluations, s.nviol);
        bool first = true;
        for (auto &c : s.counters) {
            fprintf(s.fp, "%s\"%s\":%ld", first ? "" : ",", esc(c.first).c_str(), c.second);
            first = false;
        }
        fprintf(s.fp, "},\"maxima\":{");
        first = true;
        for (auto &c : s.maxima) {
            fprintf(s.fp, "%s\"%s\":%s", first ? "" : ",", esc(c.first).c_str(), num(c.second).c_str());
            first = false;
        }
        fprintf(s.fp, "},\"samples\":[");
        first = true;
        for (auto &c : s.samples) {
            fprintf(s.fp, "%s\"%s\"", first ? "" : ",", esc(c).c_str());
            first = false;
        }
        fprintf(s.fp, "],\"distinct\":[");
        first = true;
        for (auto c : s.distinct) {
            fprintf(s.fp, "%s\"%" PRIx64 "\"", first ? "" : ",", c);
            first = false;
        }
        fprintf(s.fp, "]}\n");
        fclose(s.fp);
        s.fp = nullptr;
    }
    return 0;
}

inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t k = 0; k < n; k++)
        h = (h ^ c[k]) * 1099511628211ull;
    return h;
}
} // namespace vf
#endif
