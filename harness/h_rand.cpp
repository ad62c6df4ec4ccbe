// Random streams (P26) and point distributions (P29).
#include "vf.hpp"

#include "Util/PointDistribution.hpp"
#include "Util/TRngPool.hpp"

#include <algorithm>
#include <array>
#include <fstream>
#include <memory>
#include <mpi.h>
#include <omp.h>
#include <sstream>
#include <sys/stat.h>
#include <unordered_map>

using vf::Rng;
static int rk, np;

template <class T>
static std::vector<T> gatherAll(const std::vector<T> &v, std::vector<int> *cnt = nullptr) {
    int n = (int)(v.size() * sizeof(T));
    std::vector<int> c(np), d(np + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < np; i++)
        d[i + 1] = d[i] + c[i];
    std::vector<T> all(d[np] / sizeof(T));
    MPI_Allgatherv(v.data(), n, MPI_BYTE, all.data(), c.data(), d.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (cnt) {
        cnt->clear();
        for (int x : c)
            cnt->push_back(x / (int)sizeof(T));
    }
    return all;
}
static void z(const char *key, double sum, double n, double var, const std::string &what) {
    const double v = sum / std::sqrt(n * var);
    vf::maxi("largest deviation of a moment, in standard errors", std::fabs(v));
    VF_CHECK(std::fabs(v) < 6.5, key, "%s over %g draws is off by %.1f standard errors", what.c_str(), n, v);
}

// ------------------------------------------------------------------ P26
static void streams() {
    const std::string prev = vf::option("prev", "");
    double n = 0, u[4] = {0}, g[5] = {0}, l[3] = {0}, bin[16] = {0}, xc = 0, nx = 0, ac = 0;
    vf::forCases("streams", [&](uint64_t c, Rng &r) {
        const int T = r.p(0.3) ? 1 : r.i(2, 5);
        const int seed = r.p(0.2) ? r.i(0, 3) : (int)(r.u64() >> 33);
        const double mu = r.u(-3, 3), sg = r.u(0.05, 1.5);
        const bool setLN = r.p(0.7);
        omp_set_num_threads(T);
        const int N = 600;
        vf::beginCase(c, vf::fmt("streams of %d rank(s) x %d threads, seed %d", np, T, seed));
        std::unique_ptr<TRngPool> a(new TRngPool(seed)), b(new TRngPool(seed)), other(new TRngPool(seed == 2147483647 ? seed - 1 : seed + 1));
        // one stream after the other, and all at once from their threads
        std::vector<double> A(T * N), B(T * N), O(T * N);
        for (int t = 0; t < T; t++)
            for (int k = 0; k < N; k++) {
                A[t * N + k] = a->getU01(t);
                O[t * N + k] = other->getU01(t);
            }
        int team = 0;
#pragma omp parallel num_threads(T)
        {
            const int t = omp_get_thread_num();
#pragma omp single
            team = omp_get_num_threads();
            if (t < T)
                for (int k = 0; k < N; k++)
                    B[t * N + k] = b->getU01();
        }
        if (team == T) {
            int bad = -1;
            for (int k = 0; k < T * N && bad < 0; k++)
                if (A[k] != B[k])
                    bad = k;
            VF_CHECK(bad < 0, "not-reproducible", "%d ranks %d threads seed %d: number %d of stream %d of rank %d is %.17g in one pool, %.17g in another", np, T, seed, bad % N, bad / N, rk,
                     bad < 0 ? 0 : A[bad], bad < 0 ? 0 : B[bad]);
        }
        // the same in a run before
        const std::string f = vf::fmt("stream_%llu_%d.bin", (unsigned long long)c, rk);
        if (prev.empty()) {
            FILE *o = fopen(f.c_str(), "wb");
            fwrite(A.data(), 8, A.size(), o);
            fclose(o);
        } else if (FILE *o = fopen((prev + "/" + f).c_str(), "rb")) {
            std::vector<double> P(A.size());
            const size_t m = fread(P.data(), 8, P.size(), o);
            fclose(o);
            VF_CHECK(m == A.size() && P == A, "run-to-run", "%d ranks %d threads seed %d: rank %d draws other numbers than in an earlier run", np, T, seed, rk);
            vf::count("streams_compared_with_an_earlier_run", T);
        } else
            vf::violation("run-to-run", "%d ranks %d threads seed %d: rank %d has no record of the earlier run", np, T, seed, rk);
        // no window of one stream in another, for this seed and the next
        auto all = gatherAll(A), allO = gatherAll(O);
        if (rk == 0) {
            struct H {
                size_t operator()(const std::array<double, 3> &q) const { return vf::hash(q.data(), 24); }
            };
            std::unordered_map<std::array<double, 3>, std::pair<int, int>, H> seen;
            int shown = 0;
            for (int s = 0; s < 2 && shown < 1; s++) {
                auto &V = s ? allO : all;
                const int ns = (int)V.size() / N;
                for (int q = 0; q < ns && shown < 1; q++)
                    for (int k = 0; k + 2 < N; k++) {
                        auto ins = seen.insert({{{V[q * N + k], V[q * N + k + 1], V[q * N + k + 2]}}, {s * ns + q, k}});
                        if (!ins.second) {
                            const auto o = ins.first->second;
                            vf::violation(s && o.first < ns ? "shared-between-seeds" : "shared-streams", "%d ranks %d threads seed %d: numbers %d.. of stream %d (rank %d thread %d%s) repeat numbers %d.. of stream %d",
                                          np, T, seed, k, q, q / T, q % T, s ? ", next seed" : "", o.second, o.first);
                            shown++;
                            break;
                        }
                    }
            }
            vf::count("stream_windows_compared", (long)seen.size());
            // neighbouring streams are uncorrelated
            const int ns = (int)all.size() / N;
            for (int q = 0; q + 1 < ns; q++)
                for (int k = 0; k < N; k++) {
                    xc += (all[q * N + k] - 0.5) * (all[(q + 1) * N + k] - 0.5);
                    nx++;
                }
        }
        for (int t = 0; t < T; t++)
            for (int k = 0; k < N; k++) {
                const double x = A[t * N + k];
                if (!(x >= 0 && x < 1)) {
                    vf::violation("u01-range", "U(0,1) number %.17g", x);
                    break;
                }
                if (seed < 4)
                    continue; // drawn in several cases
                n++;
                u[0] += x - 0.5;
                u[1] += (x - 0.5) * (x - 0.5) - 1 / 12.0;
                bin[(int)(16 * x)]++;
                if (k)
                    ac += (x - 0.5) * (A[t * N + k - 1] - 0.5);
            }
        // normal and log-normal
        double M = 1, S = 1;
        if (setLN) {
            a->setLogNormalParameters(mu, sg);
            M = mu;
            S = sg;
        }
        const bool inside = r.p(0.5);
        for (int t = 0; t < T; t++)
            for (int k = 0; k < N; k++) {
                const double x = a->getN01(t), y = inside && t == 0 ? a->getLN() : a->getLN(t); // outside a parallel region this is thread 0
                if (!std::isfinite(x) || !(y > 0) || std::fabs(x) > 9 || std::fabs(std::log(y) - M) > 9 * S) {
                    vf::violation("range", "normal %.17g, log-normal %.17g (mu %g sigma %g)", x, y, M, S);
                    continue;
                }
                const double q = (std::log(y) - M) / S;
                if (seed < 4)
                    continue;
                g[0] += x;
                g[1] += x * x - 1;
                g[2] += x * x * x;
                g[3] += x * x * x * x - 3;
                l[0] += q;
                l[1] += q * q - 1;
                l[2] += q * q * q * q - 3;
                g[4] += x * q;
            }
        vf::evals();
        vf::distinct(c);
        vf::count("streams_observed", T);
        if (vf::wantSample())
            vf::sample(vf::fmt("seed %d: %d ranks x %d threads x %d numbers", seed, np, T, N));
    });
    if (n < 5000)
        return;
    vf::beginCase(0, "stream statistics");
    z("u01-moments", u[0], n, 1 / 12.0, "mean of U(0,1)");
    z("u01-moments", u[1], n, 1 / 180.0, "variance of U(0,1)");
    for (int k = 0; k < 16; k++)
        z("u01-moments", bin[k] - n / 16, n, 15 / 256.0, vf::fmt("share of U(0,1) in sixteenth %d", k));
    z("u01-correlation", ac, n, 1 / 144.0, "correlation of consecutive numbers");
    if (nx > 5000)
        z("u01-correlation", xc, nx, 1 / 144.0, "correlation of neighbouring streams");
    z("n01-moments", g[0], n, 1, "mean of N(0,1)");
    z("n01-moments", g[1], n, 2, "variance of N(0,1)");
    z("n01-moments", g[2], n, 15, "third moment of N(0,1)");
    z("n01-moments", g[3], n, 96, "fourth moment of N(0,1)");
    z("ln-moments", l[0], n, 1, "mean of the whitened logarithm of log-normal numbers");
    z("ln-moments", l[1], n, 2, "variance of the whitened logarithm of log-normal numbers");
    z("ln-moments", l[2], n, 96, "fourth moment of the whitened logarithm of log-normal numbers");
    z("n01-moments", g[4], n, 1, "correlation of alternating draws");
}

// ------------------------------------------------------------------ P29
struct Capture { // what a call prints
    int keep;
    std::string file;
    explicit Capture(const std::string &f) : file(f) {
        fflush(stdout);
        keep = dup(1);
        const int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 1);
        close(fd);
    }
    std::string done() {
        fflush(stdout);
        dup2(keep, 1);
        close(keep);
        std::ifstream i(file);
        std::stringstream b;
        b << i.rdbuf();
        return b.str();
    }
};
static void points() {
    double nu = 0, su[2] = {0}, nl = 0, sl[3] = {0};
    vf::forCases("points", [&](uint64_t c, Rng &r) {
        Rng mine(vf::mix(c, rk));
        vf::beginCase(c, "points");
        // generators
        const double box = r.logu(1e-3, 1e3), shift = r.p(0.2) ? 0 : r.n() * 100;
        for (int n : {1, 2, 4, 3, 0, 7}) {
            std::vector<double> p;
            if (r.p(0.5) && n != 1 && n != 2 && n != 4)
                p.assign(9, 5.0);
            fixedPoints(n, box, shift, p);
            const bool known = n == 1 || n == 2 || n == 4;
            VF_CHECK(p.size() == (known ? 3u * n : 0u), "fixed-points", "fixedPoints(%d) gives %zu coordinates", n, p.size());
            for (double v : p)
                VF_CHECK(v > shift && v < shift + box, "fixed-points", "fixedPoints(%d) gives %g outside [%g,%g]", n, v, shift, shift + box);
            for (size_t i = 0; i + 2 < p.size(); i += 3)
                for (size_t j = 0; j < i; j += 3)
                    VF_CHECK(p[i] != p[j] || p[i + 1] != p[j + 1] || p[i + 2] != p[j + 2], "fixed-points", "fixedPoints(%d) repeats a point", n);
        }
        {
            const int n = r.i(0, 9);
            std::vector<double> p(r.i(50), -1e9), q;
            randomPoints(n, box, shift, p);
            randomPoints(n, box, shift, q);
            VF_CHECK(p.size() == 3u * (n + 1) * (n + 1) * (n + 1), "random-points", "randomPoints(%d) gives %zu coordinates", n, p.size());
            VF_CHECK(p == q, "random-points", "randomPoints(%d) is not reproducible", n);
            const double e = 1e-15 * (std::fabs(shift) + box);
            double lo = 1e300, hi = -1e300;
            for (double v : p) {
                VF_CHECK(v >= shift - e && v <= shift + box + e, "random-points", "randomPoints(%d) gives %.17g outside [%g,%g)", n, v, shift, shift + box);
                lo = std::min(lo, v);
                hi = std::max(hi, v);
            }
            VF_CHECK(p.size() < 1000 || (lo < shift + 0.1 * box && hi > shift + 0.9 * box), "random-points", "randomPoints(%d) leaves part of [%g,%g) empty: [%g,%g]", n, shift, shift + box, lo, hi);
            for (size_t i = 3; i + 2 < p.size(); i += 3)
                VF_CHECK(p[i] != p[i - 3] || p[i + 1] != p[i - 2], "random-points", "randomPoints(%d) repeats a point", n);
        }
        {
            const size_t n = r.p(0.1) ? 0 : r.i(1, 400);
            const double low = r.n() * 10, high = low + r.logu(1e-3, 1e3);
            const int seed = r.i(1 << 30);
            std::vector<double> a(n, -7e77), b(n), d(n);
            randomUniformFill(a, low, high, seed);
            randomUniformFill(b, low, high, seed);
            randomUniformFill(d, low, high, seed + 1);
            VF_CHECK(a.size() == n && a == b && (n < 2 || a != d), "uniform-fill", "%zu values, seed %d: same seed %s, other seed %s", n, seed, a == b ? "same" : "different", a == d ? "same" : "different");
            for (double v : a) {
                VF_CHECK(v >= low && v <= high, "uniform-fill", "%.17g outside [%g,%g)", v, low, high);
                const double x = (v - low) / (high - low) - 0.5;
                nu++;
                su[0] += x;
                su[1] += x * x - 1 / 12.0;
            }
            const double la = r.logu(0.1, 10), lb = r.u(0.05, 1.5);
            randomLogNormalFill(a, la, lb, seed);
            randomLogNormalFill(b, la, lb, seed);
            VF_CHECK(a.size() == n && a == b, "lognormal-fill", "%zu values, seed %d: not reproducible", n, seed);
            for (double v : a) {
                VF_CHECK(v > 0 && std::isfinite(v), "lognormal-fill", "value %g", v);
                const double x = (std::log(v) - std::log(la)) / lb;
                nl++;
                sl[0] += x;
                sl[1] += x * x - 1;
                sl[2] += x * x * x * x - 3;
            }
        }
        {
            std::vector<double> p(3 * r.i(0, 200)), q;
            for (auto &v : p)
                v = r.n();
            q = p;
            double sh[3] = {r.n() * 10, r.n() * 10, r.n() * 10};
            const double sc = r.p(0.1) ? 1 : r.n() * r.logu(0.1, 10);
            shiftAndScalePoints(q, sh, sc);
            VF_CHECK(q.size() == p.size(), "shift-scale", "%zu coordinates become %zu", p.size(), q.size());
            for (size_t k = 0; k < p.size() && q.size() == p.size(); k++) {
                const long double w = (long double)p[k] * sc + sh[k % 3];
                VF_CHECK(fabsl(q[k] - w) <= 4e-16L * (fabsl((long double)p[k] * sc) + fabsl(w)), "shift-scale", "coordinate %zu: %g * %g + %g = %.17g", k, p[k], sc, sh[k % 3], q[k]);
            }
        }
        // distribution
        const int dim = r.pick(std::vector<int>{1, 2, 3, 3, 4, 7});
        const int nPts = r.p(0.1) ? r.i(0, 2) : r.i(0, 500);
        std::vector<double> src(nPts * dim);
        for (size_t k = 0; k < src.size(); k++)
            src[k] = k + 0.25;
        std::vector<double> have = rk == 0 ? src : std::vector<double>(mine.i(20), -3.0); // what other ranks held does not count
        distributePts(have, dim);
        std::vector<int> cnt;
        auto all = gatherAll(have, &cnt);
        VF_CHECK(all == src, "distribute", "%d points of dimension %d over %d ranks: %zu values in order of rank, %zu given, %s", nPts, dim, np, all.size(), src.size(),
                 all.size() == src.size() ? "not the same" : "lost or doubled");
        for (int q : cnt)
            VF_CHECK(q % dim == 0 && std::abs(q / dim - nPts / (double)np) < 1, "distribute-shares", "%d points of dimension %d over %d ranks: a rank has %d values", nPts, dim, np, q);
        // collection of uneven shares
        std::vector<double> part(mine.p(0.25) ? 0 : mine.i(300));
        for (auto &v : part)
            v = mine.n();
        auto want = gatherAll(part);
        auto one = part, every = part;
        collectPts(one);
        collectPtsAll(every);
        VF_CHECK(rk == 0 ? one == want : (np == 1 || one.empty()), "collect", "%zu values over %d ranks: rank %d holds %zu afterwards", want.size(), np, rk, one.size());
        VF_CHECK(every == want, "collect-all", "%zu values over %d ranks: rank %d holds %zu afterwards%s", want.size(), np, rk, every.size(), every.size() == want.size() ? ", not the same" : "");
        // there and back
        auto back = have;
        collectPtsAll(back);
        VF_CHECK(back == src, "round-trip", "distributing and collecting %d points over %d ranks changes them", nPts, np);
        // dump: points and values of all ranks, in order
        {
            const int vd = r.i(0, 4), nl = mine.p(0.2) ? 0 : mine.i(40);
            std::vector<double> x(3 * nl), v(vd * nl);
            for (auto &q : x)
                q = mine.n() * 10;
            for (auto &q : v)
                q = mine.n() * 1000;
            const auto X = gatherAll(x), V = gatherAll(v);
            const auto x0 = x, v0 = v;
            dumpPoints("dump.dat", x, v, vd);
            MPI_Barrier(MPI_COMM_WORLD);
            VF_CHECK(x == x0 && v == v0, "dump-changed", "dumping changed the points");
            if (rk == 0) {
                std::ifstream f("dump.dat");
                std::string line;
                size_t k = 0;
                bool ok = true;
                while (std::getline(f, line)) {
                    for (auto &ch : line)
                        if (ch == ';')
                            ch = ' ';
                    std::istringstream is(line);
                    double q;
                    for (int j = 0; j < 3 + vd && ok; j++) {
                        ok = bool(is >> q) && k < X.size() / 3;
                        ok = ok && std::fabs(q - (j < 3 ? X[3 * k + j] : V[vd * k + j - 3])) <= 6e-7;
                    }
                    ok = ok && !(is >> q);
                    k++;
                }
                VF_CHECK(ok && k == X.size() / 3, "dump", "%zu points with %d values each on %d ranks: file has %zu lines%s", X.size() / 3, vd, np, k, ok ? "" : ", a line is wrong");
            }
            MPI_Barrier(MPI_COMM_WORLD);
        }
        // error report
        {
            const int n = mine.i(0, 60);
            std::vector<double> t(n), v(n);
            const double rel = r.logu(1e-12, 1);
            for (int k = 0; k < n; k++) {
                t[k] = mine.n() + (mine.p(0.5) ? 3 : -3) * 2;
                v[k] = t[k] * (1 + rel * mine.n() * (mine.p(0.1) ? 5 : 1));
            }
            auto tt = gatherAll(t), vv = gatherAll(v);
            const double bar = r.p(0.3) ? 0 : rel * r.logu(1e-2, 1e4);
            std::string out;
            {
                Capture cap(vf::fmt("cap.%d", rk));
                checkError(v, t, bar);
                out = cap.done();
            }
            if (rk == 0 && !tt.empty()) {
                long double mx = 0, mr = 0, s = 0, s2 = 0, l2 = 0;
                for (size_t k = 0; k < tt.size(); k++) {
                    const long double e = fabsl((long double)tt[k] - vv[k]);
                    mx = std::max(mx, e);
                    mr = std::max(mr, e / fabsl(tt[k]));
                    s += e;
                    s2 += e * e;
                    l2 += (long double)tt[k] * tt[k];
                }
                const long double w[] = {mx, mr, s / tt.size(), sqrtl(s2 / tt.size()), sqrtl(s2 / l2)};
                static const char *nm[] = {"Max Abs Error L2:", "Max Rel Error L2:", "Ave Abs Error L2:", "RMS Error L2:", "Relative Error L2:"};
                for (int k = 0; k < 5; k++) {
                    const size_t p = out.find(nm[k]);
                    const double g = p == std::string::npos ? -1 : atof(out.c_str() + p + strlen(nm[k]));
                    VF_CHECK(fabsl(g - w[k]) <= 1e-9L * w[k] + 1e-15L, "error-report", "%zu values on %d ranks: %s %.12g, is %.12Lg", tt.size(), np, nm[k], g, w[k]);
                }
                if (bar > 0) {
                    const long double big = std::max(std::max(w[0], w[1]), std::max(s, std::max(w[3], w[4]))); // the sum, not the mean, is what is compared
                    const long double small = std::max(std::max(w[0], w[1]), std::max(w[3], w[4]));
                    const bool pass = out.find("Test Pass") != std::string::npos, fail = out.find("Error larger than given bar") != std::string::npos;
                    VF_CHECK(pass != fail, "error-verdict", "no verdict for bar %g", bar);
                    VF_CHECK(!(pass && small > bar * (1 + 1e-9L)) && !(fail && big < bar * (1 - 1e-9L)), "error-verdict", "bar %g, largest error %.12Lg: %s", bar, small, pass ? "pass" : "fail");
                }
            }
        }
        vf::evals();
        vf::distinct(c);
        vf::count("points_distributed", nPts);
        vf::count("values_collected", (long)want.size());
        if (vf::wantSample())
            vf::sample(vf::fmt("%d points of dimension %d over %d ranks, %zu values collected", nPts, dim, np, want.size()));
    });
    if (nu < 5000)
        return;
    vf::beginCase(0, "point statistics");
    z("uniform-moments", su[0], nu, 1 / 12.0, "mean of uniform fills");
    z("uniform-moments", su[1], nu, 1 / 180.0, "variance of uniform fills");
    z("lognormal-moments", sl[0], nl, 1, "mean of the whitened logarithm of log-normal fills");
    z("lognormal-moments", sl[1], nl, 2, "variance of the whitened logarithm of log-normal fills");
    z("lognormal-moments", sl[2], nl, 96, "fourth moment of the whitened logarithm of log-normal fills");
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    vf::init(argc, argv, rk, np);
    const std::string m = vf::st().mode;
    int rc = 0;
    if (m == "streams")
        streams();
    else if (m == "points")
        points();
    else
        rc = 3;
    if (!rc)
        rc = vf::finish();
    MPI_Finalize();
    return rc;
}
