// Monitors for the constraint solver stack: LCP and BCQP solvers, constraint operator, collector, solver, Tpetra helpers.
#include "tp.hpp"

#include "Collision/CPSolver.hpp"
#include "Constraint/BCQPSolver.hpp"
#include "Constraint/ConstraintCollector.hpp"
#include "Constraint/ConstraintOperator.hpp"
#include "Constraint/ConstraintSolver.hpp"

#include <Eigen/Dense>
#include <fstream>
#include <omp.h>

using namespace tp;

static Teuchos::RCP<const TCOMM> comm;

// ------------------------------------------------------------------ P02
static double lcpResidual(const Vec &x, const Vec &y) {
    Vec h(x.size());
    for (size_t i = 0; i < x.size(); i++)
        h[i] = std::min(x[i], y[i]);
    return norm2(h);
}

static Vec randomRhs(Rng &r, int n, double s, int &kind) {
    kind = r.i(5);
    Vec b(n);
    for (int i = 0; i < n; i++) {
        switch (kind) {
        case 0:
            b[i] = r.u(0.1, 1);
            break; // x = 0 solves
        case 1:
            b[i] = -r.u(0.1, 1);
            break;
        case 2:
            b[i] = r.p(0.5) ? 0.0 : r.u(-1, 1);
            break; // degenerate: y = 0 and x = 0
        default:
            b[i] = r.u(-1, 1);
        }
        b[i] *= s;
    }
    return b;
}

static void lcp() {
    long newtonRuns = 0, newtonThere = 0;
    vf::forCases("lcp", [&](uint64_t c, Rng &r) {
        const int n = r.p(0.15) ? r.i(1, 3) : r.i(2, 40);
        const bool singular = r.p(0.15);
        const double cond = singular ? 0 : r.logu(1.5, 100);
        const double scale = r.p(0.6) ? 1 : r.logu(1e-2, 1e2);
        Mat A;
        if (singular) { // contact-like: A = D^T D with more contacts than freedoms
            const int m = std::max(1, n / 2);
            Mat D(m, n);
            for (double &v : D.a)
                v = r.u(-1, 1);
            A = Mat(n, n);
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    for (int k = 0; k < m; k++)
                        A(i, j) += scale * D(k, i) * D(k, j);
        } else
            A = randomSPD(r, n, scale / cond, scale, r.u());
        int rhs;
        Vec b = randomRhs(r, n, r.p(0.7) ? 1 : r.logu(1e-3, 1e2), rhs);
        if (singular && r.p(0.7)) { // solvable: b in range(A) + nonnegative
            Vec z(n);
            for (double &v : z)
                v = r.u(0, 1);
            b = A.mul(z);
            for (double &v : b)
                v = -v + (r.p(0.3) ? r.u(0, 1) : 0);
        }
        // no solution: a row of zeros with negative b (two immovable bodies overlapping).  It has to end all the same.
        const bool unsolvable = r.p(0.04);
        if (unsolvable) {
            const int z = r.i(n);
            for (int i = 0; i < n; i++)
                A(i, z) = A(z, i) = 0;
            b[z] = -r.u(0.1, 1);
        }
        const int guess = r.i(5);
        Vec x0(n, 0.0);
        if (guess == 1)
            x0 = Vec(n, 1.0);
        if (guess == 2)
            for (double &v : x0)
                v = r.u(0, 2);
        if (guess == 3)
            for (double &v : x0)
                v = r.u(-2, 2); // infeasible
        const auto cnt = randomPartition(r, n);
        auto map = mapOf(cnt, comm);
        Teuchos::RCP<TCMAT> Ar = crs(A, map, map);
        Teuchos::RCP<TV> br = Teuchos::rcp(new TV(map, true)), xr = Teuchos::rcp(new TV(map, true));
        fill(*br, b);
        fill(*xr, x0);
        const double bn = norm2(b), An = A.maxAbs() * n;
        const double tol = r.logu(1e-9, 1e-3) * std::max(bn, 1e-3);
        int method = r.i(20) < 9 ? 0 : r.i(20) < 10 ? 2 : 1; // BBPGD, APGD, mmNewton
        if (method == 2 && (singular || unsolvable))
            method = r.i(2); // its Newton step needs A non-singular
        const int iteMax = r.p(0.15) ? r.i(1, 8) : 20000;
        const char *mn[] = {"BBPGD", "APGD", "mmNewton"};
        vf::beginCase(c, vf::fmt("lcp %s n=%d rhs=%d guess=%d singular=%d iteMax=%d", mn[method], n, rhs, guess, singular, iteMax));
        Teuchos::RCP<CountingOp> op = Teuchos::rcp(new CountingOp(Ar));
        CPSolver s(op, br.getConst());
        IteHistory h;
        Teuchos::RCP<TV> sol = xr;
        int ret = 0;
        if (method == 0)
            ret = s.LCP_BBPGD(sol, tol, iteMax, h);
        else if (method == 1)
            ret = s.LCP_APGD(sol, tol, iteMax, h);
        else
            ret = s.LCP_mmNewton(sol, tol, std::min(iteMax, 200), h);
        if (unsolvable) {
            vf::evals();
            vf::count("unsolvable_ended");
            VF_CHECK((long)h.size() <= iteMax + 2l, std::string(mn[method]) + "-iterations", "n=%d: %zu iterations recorded, limit %d", n, h.size(), iteMax);
            return;
        }
        const Vec x = gather(*sol, n), xin = gather(*xr, n), bin = gather(*br, n);
        Vec y = A.mul(x);
        for (int i = 0; i < n; i++)
            y[i] += b[i];
        const double res = lcpResidual(x, y);
        const double claimed = h.empty() ? 1e300 : h.back()[4];
        const bool conv = !h.empty() && claimed < tol;
        const double round = 1e-12 * (An * maxabs(x) + bn);
        const std::string inp = vf::fmt("%s n=%d ranks=%d cond=%.3g rhs=%d guess=%d tol=%.3g iteMax=%d b=%s x0=%s", mn[method], n,
                                        size(), cond, rhs, guess, tol, iteMax, show(b).c_str(), show(x0).c_str());
        const std::string out = vf::fmt("x=%s iterations=%zu claimed residual %.6g, recomputed %.6g", show(x).c_str(), h.size(),
                                        claimed, res);
        vf::evals();
        vf::distinct(c);
        vf::count(std::string(mn[method]) + (conv ? ".converged" : ".stopped"));
        if (singular)
            vf::count("singular");
        int active = 0;
        for (int i = 0; i < n; i++)
            active += x[i] > 0;
        vf::count(active == 0 ? "all_inactive" : active == n ? "all_active" : "mixed_active");
        if (vf::wantSample())
            vf::sample(inp + " -> " + out);
        const std::string k = std::string("lcp-") + mn[method];
        VF_CHECK(maxdiff(bin, b) == 0, k + "-input-modified", "%s: b changed to %s", inp.c_str(), show(bin).c_str());
        VF_CHECK(!h.empty(), k + "-history-empty", "%s", inp.c_str());
        VF_CHECK(ret == 0 || method == 2, k + "-return", "%s returned %d", inp.c_str(), ret);
        bool neg = false, nan = false;
        for (double v : x) {
            neg |= v < 0;
            nan |= !(v == v) || std::isinf(v);
        }
        VF_CHECK(!nan, k + "-nan", "%s: %s", inp.c_str(), out.c_str());
        if (method < 2) {
            // the solution of a projected method is feasible whether or not it converged; a feasible guess may come back as
            // it is, and so may a guess that is accepted within the tolerance
            double lo = 0;
            for (double v : x)
                lo = std::min(lo, v);
            VF_CHECK(lo >= -(h.size() == 1 && conv ? tol : 0), k + "-infeasible", "%s: %s", inp.c_str(), out.c_str());
            // what the history claims is what was returned
            double want = claimed;
            if (method == 1) {
                want = 1e300;
                for (size_t i = 1; i < h.size(); i++)
                    want = std::min(want, h[i][4]);
            }
            VF_CHECK(std::fabs(want - res) <= 1e-6 * res + round, k + "-residual", "%s: %s", inp.c_str(), out.c_str());
        }
        if (conv)
            VF_CHECK(res <= tol * (1 + 1e-6) + round, k + "-converged", "%s: %s", inp.c_str(), out.c_str());
        // bounded progress, for tolerances above what the absolute guards and the energy comparison of the methods resolve
        if (method < 2 && !singular && iteMax == 20000 && tol >= 1e-6 * std::max(1.0, std::max(bn, An * maxabs(x))))
            VF_CHECK(conv, k + "-noconvergence", "%s: %s", inp.c_str(), out.c_str());
        if (method < 2 && iteMax == 20000 && conv)
            vf::maxi(k + " iterations", (double)h.size());
        // minimum-map Newton has no such guarantee (its line search may stall), but most runs get there
        if (method == 2 && iteMax == 20000) {
            newtonRuns++;
            newtonThere += res <= 10 * std::max(tol, 1e-6 * std::max(1.0, bn));
        }
        // the recorded iteration and product counts
        for (size_t i = 1; i < h.size(); i++)
            VF_CHECK(h[i][0] == h[i - 1][0] + 1 && h[i][5] >= h[i - 1][5], k + "-history", "%s: record %zu is (%g,%g) after (%g,%g)",
                     inp.c_str(), i, h[i][0], h[i][5], h[i - 1][0], h[i - 1][5]);
    });
    vf::count("mmNewton.runs", newtonRuns);
    vf::count("mmNewton.there", newtonThere);
    VF_CHECK(newtonRuns < 20 || newtonThere >= 0.8 * newtonRuns, "lcp-mmNewton-progress", "only %ld of %ld runs of mmNewton on well-conditioned problems got to a solution", newtonThere, newtonRuns);
}

// ------------------------------------------------------------------ P03
static double bcqpResidual(const Vec &x, const Vec &y, const Vec &lb, const Vec &ub) {
    Vec q(x.size());
    for (size_t i = 0; i < x.size(); i++) {
        const double tl = 4e-14 * std::max(1.0, std::fabs(lb[i]) < 1e200 ? std::fabs(lb[i]) : 1.0);
        const double tu = 4e-14 * std::max(1.0, std::fabs(ub[i]) < 1e200 ? std::fabs(ub[i]) : 1.0);
        const bool atl = x[i] <= lb[i] + tl, atu = x[i] >= ub[i] - tu;
        if (atl && atu)
            q[i] = 0;
        else if (atl)
            q[i] = std::min(y[i], 0.0);
        else if (atu)
            q[i] = std::max(y[i], 0.0);
        else
            q[i] = y[i];
    }
    return norm2(q);
}

static void bcqp() {
    vf::forCases("bcqp", [](uint64_t c, Rng &r) {
        const int n = r.p(0.15) ? r.i(1, 3) : r.i(2, 40);
        const double cond = r.logu(1.5, 100), scale = r.p(0.6) ? 1 : r.logu(1e-1, 1e1);
        Mat A = randomSPD(r, n, scale / cond, scale, r.u());
        int rhs;
        Vec b = randomRhs(r, n, 1, rhs);
        const int bkind = r.i(8);
        Vec lb(n), ub(n), x0(n, 0.0);
        const double huge = std::numeric_limits<double>::max() / 10;
        bool setLb = true, setUb = true;
        for (int i = 0; i < n; i++) {
            lb[i] = -huge;
            ub[i] = huge;
            const double a = r.u(-1, 1), w = r.u(0, 1);
            switch (bkind) {
            case 0:
                setLb = setUb = false;
                break;
            case 1: // unilateral / bilateral mix as the constraint solver sets it
                lb[i] = r.p(0.5) ? 0 : -1e8;
                setUb = false;
                break;
            case 2:
                ub[i] = a;
                setLb = false;
                break;
            case 3:
                lb[i] = a;
                ub[i] = a + w;
                break;
            case 4: // bounds far from the origin, where the solution sits
                lb[i] = 1000 * a;
                ub[i] = lb[i] + 50 * w;
                break;
            case 5: // some components fixed
                lb[i] = a;
                ub[i] = r.p(0.5) ? a : a + w;
                break;
            case 6:
                lb[i] = r.p(0.3) ? -huge : a;
                ub[i] = r.p(0.3) ? huge : a + w;
                break;
            default: // one sided, at zero
                lb[i] = 0;
                ub[i] = r.p(0.5) ? huge : w;
            }
        }
        const int guess = r.i(5);
        for (int i = 0; i < n; i++) {
            if (guess == 1)
                x0[i] = 1;
            if (guess == 2)
                x0[i] = lb[i] > -huge ? lb[i] : 0;
            if (guess == 3)
                x0[i] = r.u(-5, 5);
            if (guess == 4)
                x0[i] = ub[i] < huge ? ub[i] : lb[i] > -huge ? lb[i] + 1 : 0;
        }
        const bool unsolvable = r.p(0.04); // unbounded below; it has to end all the same
        if (unsolvable) {
            const int z = r.i(n);
            for (int i = 0; i < n; i++)
                A(i, z) = A(z, i) = 0;
            b[z] = -r.u(0.1, 1);
            setUb = false;
        }
        const auto cnt = randomPartition(r, n);
        auto map = mapOf(cnt, comm);
        Teuchos::RCP<TCMAT> Ar = crs(A, map, map);
        auto nv = [&]() { return Teuchos::rcp(new TV(map, true)); };
        Teuchos::RCP<TV> br = nv(), xr = nv(), lr = nv(), ur = nv();
        fill(*br, b);
        fill(*xr, x0);
        fill(*lr, lb);
        fill(*ur, ub);
        const bool big = bkind == 4;
        const double size0 = big ? 1e3 : 1;
        const double tol = r.logu(1e-8, 1e-3) * size0;
        const int method = r.i(2);
        const int iteMax = r.p(0.2) ? r.i(1, 8) : 20000;
        const char *mn[] = {"BBPGD", "APGD"};
        vf::beginCase(c, vf::fmt("bcqp %s n=%d bounds=%d guess=%d iteMax=%d", mn[method], n, bkind, guess, iteMax));
        Teuchos::RCP<CountingOp> op = Teuchos::rcp(new CountingOp(Ar));
        BCQPSolver s(op, br.getConst());
        if (setLb)
            s.setLowerBound(lr);
        if (setUb)
            s.setUpperBound(ur);
        if (r.p(0.5))
            s.prepareSolver();
        IteHistory h;
        Teuchos::RCP<TV> sol = xr;
        const int ret = method == 0 ? s.solveBBPGD(sol, tol, iteMax, h) : s.solveAPGD(sol, tol, iteMax, h);
        if (unsolvable) {
            vf::evals();
            vf::count("unsolvable_ended");
            VF_CHECK((long)h.size() <= iteMax + 2l, std::string(mn[method]) + "-iterations", "n=%d: %zu iterations recorded, limit %d", n, h.size(), iteMax);
            return;
        }
        const Vec x = gather(*sol, n), bin = gather(*br, n), lin = gather(*lr, n), uin = gather(*ur, n);
        Vec y = A.mul(x);
        for (int i = 0; i < n; i++)
            y[i] += b[i];
        const double res = bcqpResidual(x, y, lb, ub);
        const double claimed = h.empty() ? 1e300 : h.back()[4];
        const bool conv = !h.empty() && claimed < tol;
        const double round = 1e-11 * (A.maxAbs() * n * maxabs(x) + norm2(b));
        const std::string inp = vf::fmt("%s n=%d ranks=%d cond=%.3g rhs=%d bounds=%d guess=%d tol=%.3g iteMax=%d b=%s x0=%s lb=%s ub=%s",
                                        mn[method], n, size(), cond, rhs, bkind, guess, tol, iteMax, show(b, 5).c_str(),
                                        show(x0, 5).c_str(), show(lb, 5).c_str(), show(ub, 5).c_str());
        const std::string out = vf::fmt("returned %d x=%s iterations=%zu claimed residual %.6g, recomputed %.6g", ret, show(x, 5).c_str(),
                                        h.size(), claimed, res);
        vf::evals();
        vf::distinct(c);
        vf::count(std::string(mn[method]) + (conv ? ".converged" : ".stopped"));
        vf::count("bounds" + std::to_string(bkind));
        int atl = 0, atu = 0, fr = 0;
        double viol = 0;
        bool nan = false;
        for (int i = 0; i < n; i++) {
            atl += x[i] == lb[i];
            atu += x[i] == ub[i];
            fr += x[i] > lb[i] && x[i] < ub[i];
            viol = std::max(viol, std::max(lb[i] - x[i], x[i] - ub[i]));
            nan |= !(x[i] == x[i]) || std::isinf(x[i]);
        }
        vf::count("components_at_lower", atl);
        vf::count("components_at_upper", atu);
        vf::count("components_free", fr);
        if (vf::wantSample())
            vf::sample(inp + " -> " + out);
        const std::string k = std::string("bcqp-") + mn[method];
        VF_CHECK(maxdiff(bin, b) == 0 && maxdiff(lin, lb) == 0 && maxdiff(uin, ub) == 0, k + "-input-modified", "%s", inp.c_str());
        VF_CHECK(!h.empty(), k + "-history-empty", "%s", inp.c_str());
        VF_CHECK(!nan, k + "-nan", "%s: %s", inp.c_str(), out.c_str());
        VF_CHECK(viol <= 0, k + "-infeasible", "%s: %s", inp.c_str(), out.c_str());
        double want = claimed;
        if (method == 1) {
            want = 1e300;
            for (size_t i = 1; i < h.size(); i++)
                want = std::min(want, h[i][4]);
        }
        VF_CHECK(std::fabs(want - res) <= 1e-6 * res + round || (want < tol && res < tol), k + "-residual", "%s: %s", inp.c_str(), out.c_str());
        if (conv)
            VF_CHECK(res <= tol * (1 + 1e-6) + round, k + "-converged", "%s: %s", inp.c_str(), out.c_str());
        if (iteMax == 20000 && tol >= 1e-6 * std::max(1.0, std::max(norm2(b), A.maxAbs() * n * maxabs(x)))) {
            VF_CHECK(conv, k + "-noconvergence", "%s: %s", inp.c_str(), out.c_str());
            vf::maxi(k + " iterations", (double)h.size());
        }
        if (conv)
            VF_CHECK(ret == 0, k + "-return", "%s: %s", inp.c_str(), out.c_str());
        for (size_t i = 1; i < h.size(); i++)
            VF_CHECK(h[i][0] == h[i - 1][0] + 1 && h[i][5] >= h[i - 1][5], k + "-history", "%s: record %zu is (%g,%g) after (%g,%g)",
                     inp.c_str(), i, h[i][0], h[i][5], h[i - 1][0], h[i - 1][5]);
    });
}

// ------------------------------------------------------------------ constraint networks
struct Net {
    int nObj = 0, nCon = 0;
    std::vector<int> objCnt, conCnt;            // per rank
    std::vector<std::vector<ConstraintBlock>> blocks; // per rank, global order = rank order, queue order
    std::vector<ConstraintBlock> all;           // by global gamma index (before distribution over queues)
    Mat DT;                                     // nCon x 6 nObj
    Mat M;                                      // 6 nObj x 6 nObj
    Vec invK, bi, delta0, guess;
};

// geometry = true makes blocks that look like contacts of spheres and springs; otherwise arbitrary numbers
static Net makeNet(Rng &r, bool physical, bool allowEmptyObj) {
    Net t;
    const int p = size();
    t.nObj = r.i(physical ? 2 : 1, 14);
    if (!allowEmptyObj)
        t.nObj = std::max(t.nObj, p);
    t.nCon = r.p(0.05) ? 0 : r.i(1, physical ? 14 : 24);
    t.objCnt = randomPartition(r, t.nObj, allowEmptyObj);
    t.conCnt = randomPartition(r, t.nCon);
    std::vector<int> cum(p + 1, 0);
    for (int k = 0; k < p; k++)
        cum[k + 1] = cum[k] + t.conCnt[k];
    t.DT = Mat(t.nCon, 6 * t.nObj);
    for (int c = 0; c < t.nCon; c++) {
        ConstraintBlock b;
        b.gidI = 1000 + r.i(1000);
        b.gidJ = 3000 + r.i(1000);
        b.globalIndexI = r.i(t.nObj);
        b.oneSide = t.nObj == 1 || r.p(0.3);
        b.globalIndexJ = b.oneSide && r.p(0.5) ? GEO_INVALID_INDEX : r.i(t.nObj);
        if (!b.oneSide)
            while (b.globalIndexJ == b.globalIndexI)
                b.globalIndexJ = r.i(t.nObj);
        b.bilateral = r.p(0.35);
        b.kappa = b.bilateral ? (r.p(0.3) ? r.logu(1e-6, 1e6) : r.p(0.7) ? r.logu(1, 100) : 0) : (r.p(0.2) ? 5 : 0);
        if (physical && b.bilateral)
            b.kappa = r.logu(1, 100);
        b.delta0 = r.u(-0.5, 0.5);
        b.gamma = r.p(0.5) ? 0 : r.u(0, 1);
        double d[3];
        r.dir(d);
        for (int k = 0; k < 3; k++) {
            b.normI[k] = d[k];
            b.normJ[k] = physical ? -d[k] : r.u(-1, 1);
            b.posI[k] = r.u(-1, 1);
            b.posJ[k] = r.u(-1, 1);
            b.labI[k] = r.u(-1, 1);
            b.labJ[k] = r.u(-1, 1);
        }
        for (int k = 0; k < 9; k++)
            b.stress[k] = r.u(-1, 1);
        t.all.push_back(b);
        auto put = [&](int obj, const double n[3], const double x[3]) {
            const double tq[3] = {x[1] * n[2] - x[2] * n[1], x[2] * n[0] - x[0] * n[2], x[0] * n[1] - x[1] * n[0]};
            for (int k = 0; k < 3; k++) {
                t.DT(c, 6 * obj + k) += n[k];
                t.DT(c, 6 * obj + 3 + k) += tq[k];
            }
        };
        put(b.globalIndexI, b.normI, b.posI);
        if (!b.oneSide)
            put(b.globalIndexJ, b.normJ, b.posJ);
        t.invK.push_back(b.bilateral && b.kappa > 0 ? 1 / b.kappa : 0);
        t.bi.push_back(b.bilateral ? 1 : 0);
        t.delta0.push_back(b.delta0);
        t.guess.push_back(b.gamma);
    }
    t.M = Mat(6 * t.nObj, 6 * t.nObj);
    for (int o = 0; o < t.nObj; o++) {
        Mat blk = randomSPD(r, 6, 0.2, 2, 0.3);
        if (r.p(0.08))
            for (double &v : blk.a)
                v = 0; // an immovable body
        for (int i = 0; i < 6; i++)
            for (int j = 0; j < 6; j++)
                t.M(6 * o + i, 6 * o + j) = blk(i, j);
    }
    return t;
}
static std::vector<int> times6(std::vector<int> v) {
    for (int &x : v)
        x *= 6;
    return v;
}
// spread this rank's blocks over the collector's queues (all but order within a queue is decided by the queue sizes)
static void loadCollector(Rng &r, const Net &t, ConstraintCollector &col) {
    auto &pool = *col.constraintPoolPtr;
    const int nq = pool.size();
    int start = 0;
    for (int k = 0; k < rank(); k++)
        start += t.conCnt[k];
    const int n = t.conCnt[rank()];
    const int kind = r.i(3);
    std::vector<int> cut;
    for (int k = 0; k < nq - 1; k++)
        cut.push_back(kind == 0 ? 0 : kind == 1 ? n * (k + 1) / nq : r.i(n + 1));
    cut.push_back(n);
    std::sort(cut.begin(), cut.end());
    int j = 0;
    for (int k = 0; k < nq; k++)
        for (; j < cut[k]; j++)
            pool[k].push_back(t.all[start + j]);
}
static std::string netInfo(const Net &t, const ConstraintCollector &col) {
    std::string s = vf::fmt("objects=%d constraints=%d ranks=%d objPerRank=", t.nObj, t.nCon, size());
    for (int v : t.objCnt)
        s += std::to_string(v) + "/";
    s += " conPerRank=";
    for (int v : t.conCnt)
        s += std::to_string(v) + "/";
    s += " queues=";
    for (auto &q : *col.constraintPoolPtr)
        s += std::to_string(q.size()) + "/";
    return s;
}

// ------------------------------------------------------------------ P05
static void collector() {
    vf::forCases("collector", [](uint64_t c, Rng &r) {
        const Net t = makeNet(r, false, true);
        Rng rr(vf::mix(c, 77 + rank()));
        ConstraintCollector col;
        const bool shrink = rr.p(0.2);
        if (rr.p(0.3)) { // used before
            for (auto &q : *col.constraintPoolPtr)
                q.push_back(ConstraintBlock());
            col.clear();
            VF_CHECK(col.getLocalNumberOfConstraints() == 0 && (int)col.constraintPoolPtr->size() == omp_get_max_threads(),
                     "collector-clear", "clear() left %d blocks, %zu queues", col.getLocalNumberOfConstraints(), col.constraintPoolPtr->size());
        }
        (void)shrink;
        loadCollector(rr, t, col);
        auto mobMap = mapOf(times6(t.objCnt), comm);
        const std::string inf = netInfo(t, col);
        vf::beginCase(c, "collector " + inf);
        vf::evals();
        vf::distinct(c);
        vf::count("blocks", t.conCnt[rank()]);
        if (vf::wantSample())
            vf::sample(inf);
        VF_CHECK(col.getLocalNumberOfConstraints() == t.conCnt[rank()], "collector-count", "%s: count %d", inf.c_str(), col.getLocalNumberOfConstraints());
        int start = 0;
        for (int k = 0; k < rank(); k++)
            start += t.conCnt[k];
        // stress sums
        for (int one = 0; one < 2; one++) {
            Emat3 u = Emat3::Constant(7), b = Emat3::Constant(7), ur = Emat3::Zero(), br = Emat3::Zero();
            col.sumLocalConstraintStress(u, b, one == 1);
            for (int j = 0; j < t.conCnt[rank()]; j++) {
                const auto &blk = t.all[start + j];
                if (blk.oneSide && one == 0)
                    continue;
                for (int i = 0; i < 3; i++)
                    for (int k = 0; k < 3; k++)
                        (blk.bilateral ? br : ur)(i, k) += blk.stress[3 * i + k];
            }
            VF_CHECK((u - ur).cwiseAbs().maxCoeff() <= 1e-12 && (b - br).cwiseAbs().maxCoeff() <= 1e-12,
                     one ? "collector-stress-oneside" : "collector-stress", "%s: uni(0,0) %.15g expected %.15g, bi(0,0) %.15g expected %.15g",
                     inf.c_str(), u(0, 0), ur(0, 0), b(0, 0), br(0, 0));
        }
        Teuchos::RCP<TCMAT> DT;
        Teuchos::RCP<TV> d0, ik, bf, gg;
        col.buildConstraintMatrixVector(mobMap, DT, d0, ik, bf, gg);
        VF_CHECK((int)DT->getRangeMap()->getGlobalNumElements() == t.nCon && DT->getDomainMap()->isSameAs(*mobMap) &&
                     (int)DT->getRangeMap()->getNodeNumElements() == t.conCnt[rank()],
                 "collector-maps", "%s: %d x %d matrix, %d local rows", inf.c_str(), (int)DT->getRangeMap()->getGlobalNumElements(),
                 (int)DT->getDomainMap()->getGlobalNumElements(), (int)DT->getRangeMap()->getNodeNumElements());
        const Mat D = dense(*DT);
        VF_CHECK(D.a.size() == t.DT.a.size() && maxdiff(D.a, t.DT.a) <= 1e-14, "collector-matrix", "%s: D^T differs by %.3g", inf.c_str(),
                 D.a.size() == t.DT.a.size() ? maxdiff(D.a, t.DT.a) : -1);
        VF_CHECK(maxdiff(gather(*d0, t.nCon), t.delta0) == 0, "collector-delta0", "%s", inf.c_str());
        VF_CHECK(maxdiff(gather(*ik, t.nCon), t.invK) == 0, "collector-invkappa", "%s: %s expected %s", inf.c_str(),
                 show(gather(*ik, t.nCon)).c_str(), show(t.invK).c_str());
        VF_CHECK(maxdiff(gather(*bf, t.nCon), t.bi) == 0, "collector-biflag", "%s", inf.c_str());
        VF_CHECK(maxdiff(gather(*gg, t.nCon), t.guess) == 0, "collector-gamma-guess", "%s", inf.c_str());
        // write back
        Vec g(t.nCon);
        Rng gr(vf::mix(c, 5));
        for (double &v : g)
            v = gr.u(-2, 2);
        Teuchos::RCP<TV> gv = Teuchos::rcp(new TV(d0->getMap(), true));
        fill(*gv, g);
        col.writeBackGamma(gv.getConst());
        int j = 0;
        for (auto &q : *col.constraintPoolPtr)
            for (auto &b : q) {
                const auto &o = t.all[start + j];
                bool ok = b.gamma == g[start + j] && b.globalIndexI == o.globalIndexI && b.delta0 == o.delta0 && b.gidI == o.gidI &&
                          b.gidJ == o.gidJ && b.bilateral == o.bilateral && b.oneSide == o.oneSide;
                for (int k = 0; k < 9; k++)
                    ok &= std::fabs(b.stress[k] - o.stress[k] * g[start + j]) <= 1e-15;
                for (int k = 0; k < 3; k++)
                    ok &= b.posI[k] == o.posI[k] && b.normJ[k] == o.normJ[k] && b.labI[k] == o.labI[k];
                VF_CHECK(ok, "collector-writeback", "%s: block %d has gamma %.17g (expected %.17g), stress0 %.17g", inf.c_str(), start + j, b.gamma,
                         g[start + j], b.stress[0]);
                j++;
            }
        VF_CHECK(j == t.conCnt[rank()], "collector-writeback-count", "%s: %d blocks after write back", inf.c_str(), j);
        // I and J exchanged twice is the identity, once swaps every pair
        if (t.nCon) {
            ConstraintBlock b = t.all[0], a = b;
            a.reverseIJ();
            bool ok = a.gidI == b.gidJ && a.gidJ == b.gidI && a.globalIndexI == b.globalIndexJ && a.globalIndexJ == b.globalIndexI;
            for (int k = 0; k < 3; k++)
                ok &= a.normI[k] == b.normJ[k] && a.posI[k] == b.posJ[k] && a.labI[k] == b.labJ[k] && a.normJ[k] == b.normI[k] &&
                      a.posJ[k] == b.posI[k] && a.labJ[k] == b.labI[k];
            VF_CHECK(ok, "block-reverse", "reverseIJ");
            Emat3 s;
            a.getStress(s);
            a.setStress(Emat3(s.transpose()));
            bool ok2 = true;
            for (int i = 0; i < 3; i++)
                for (int k = 0; k < 3; k++)
                    ok2 &= a.stress[3 * i + k] == b.stress[3 * k + i];
            VF_CHECK(ok2, "block-stress", "setStress/getStress layout");
        }
    });
}

// ------------------------------------------------------------------ P04
static void conop() {
    vf::forCases("conop", [](uint64_t c, Rng &r) {
        const Net t = makeNet(r, false, true);
        Rng rr(vf::mix(c, 77 + rank()));
        ConstraintCollector col;
        loadCollector(rr, t, col);
        auto mobMap = mapOf(times6(t.objCnt), comm);
        const std::string inf = netInfo(t, col);
        vf::beginCase(c, "conop " + inf);
        Teuchos::RCP<TCMAT> DT;
        Teuchos::RCP<TV> d0, ik, bf, gg;
        col.buildConstraintMatrixVector(mobMap, DT, d0, ik, bf, gg);
        Teuchos::RCP<TCMAT> Mm = crs(t.M, mobMap, mobMap);
        Teuchos::RCP<TOP> Mo = Mm;
        Vec ikv(t.nCon);
        for (double &v : ikv)
            v = r.p(0.3) ? 0 : r.u(0, 2);
        fill(*ik, ikv);
        ConstraintOperator op(Mo, DT, ik);
        VF_CHECK(op.getDomainMap()->isSameAs(*d0->getMap()) && op.getRangeMap()->isSameAs(*d0->getMap()), "conop-maps", "%s", inf.c_str());
        if (r.p(0.3))
            op.disableTimer();
        const Mat Dd = dense(*op.getDMat());
        bool tr = Dd.r == 6 * t.nObj && Dd.c == t.nCon;
        for (int i = 0; tr && i < t.nCon; i++)
            for (int j = 0; j < 6 * t.nObj; j++)
                tr &= std::fabs(Dd(j, i) - t.DT(i, j)) <= 1e-14;
        VF_CHECK(tr, "conop-transpose", "%s: D is not the transpose of D^T", inf.c_str());
        auto ref = [&](const Vec &x, Vec &f, Vec &v) {
            f = t.DT.mulT(x);
            v = t.M.mul(f);
            Vec y = t.DT.mul(v);
            for (int i = 0; i < t.nCon; i++)
                y[i] += ikv[i] * x[i];
            return y;
        };
        const int nv = r.i(1, 3);
        const double alphas[] = {1, 1, -1, 0.37, 2.5, 0}, betas[] = {0, 0, 1, -0.6, 0.25};
        Vec px, py;
        for (int rep = 0; rep < 3; rep++) {
            const double alpha = rep ? alphas[r.i(6)] : 1, beta = rep ? betas[r.i(5)] : 0;
            TMV X(d0->getMap(), nv), Y(d0->getMap(), nv);
            std::vector<Vec> xs(nv), ys(nv);
            for (int k = 0; k < nv; k++) {
                for (int i = 0; i < t.nCon; i++) {
                    xs[k].push_back(r.u(-1, 1));
                    ys[k].push_back(beta == 0 ? 3.0 : r.u(-1, 1));
                }
                fill(X, xs[k], k);
                fill(Y, ys[k], k);
            }
            op.apply(X, Y, Teuchos::NO_TRANS, alpha, beta);
            vf::evals(nv);
            vf::count(alpha == 1 && beta == 0 ? "plain_apply" : "scaled_apply", nv);
            for (int k = 0; k < nv; k++) {
                Vec f, v, y = ref(xs[k], f, v);
                const Vec got = gather(Y, t.nCon, k), xin = gather(X, t.nCon, k);
                Vec want(t.nCon);
                for (int i = 0; i < t.nCon; i++)
                    want[i] = alpha * y[i] + beta * ys[k][i];
                const double sc = 1 + maxabs(want);
                VF_CHECK(maxdiff(got, want) <= 1e-11 * sc, "conop-apply", "%s alpha=%g beta=%g column %d: got %s expected %s", inf.c_str(), alpha,
                         beta, k, show(got).c_str(), show(want).c_str());
                VF_CHECK(maxdiff(xin, xs[k]) == 0, "conop-input-modified", "%s", inf.c_str());
                if (k == nv - 1) {
                    const Vec gf = gather(*op.getForce(), 6 * t.nObj), gv = gather(*op.getVel(), 6 * t.nObj);
                    VF_CHECK(maxdiff(gf, f) <= 1e-11 * (1 + maxabs(f)), "conop-force", "%s: getForce() is not D x", inf.c_str());
                    VF_CHECK(maxdiff(gv, v) <= 1e-11 * (1 + maxabs(v)), "conop-velocity", "%s: getVel() is not M D x", inf.c_str());
                }
                if (alpha == 1 && beta == 0) { // symmetric, positive semidefinite
                    long double q = 0, s1 = 0, s2 = 0;
                    for (int i = 0; i < t.nCon; i++)
                        q += (long double)xs[k][i] * got[i];
                    VF_CHECK(q >= -1e-10 * sc * t.nCon, "conop-psd", "%s: x.Ax = %.3Lg", inf.c_str(), q);
                    if (!px.empty()) {
                        for (int i = 0; i < t.nCon; i++) {
                            s1 += (long double)px[i] * got[i];
                            s2 += (long double)py[i] * xs[k][i];
                        }
                        VF_CHECK(fabsl(s1 - s2) <= 1e-10 * sc * t.nCon, "conop-symmetric", "%s: %.12Lg %.12Lg", inf.c_str(), s1, s2);
                    }
                    px = xs[k];
                    py = got;
                }
            }
        }
        vf::distinct(c);
        if (vf::wantSample())
            vf::sample(inf);
        // the LCP operator of the collision solver
        if (t.nCon && t.nObj) {
            CPMatOp cp(Mo, DT);
            TMV X(d0->getMap(), 1), Y(d0->getMap(), 1);
            Vec x(t.nCon), f, v;
            for (double &q : x)
                q = r.u(-1, 1);
            fill(X, x);
            cp.apply(X, Y);
            Vec y = t.DT.mul(t.M.mul(t.DT.mulT(x)));
            const Vec got = gather(Y, t.nCon);
            VF_CHECK(maxdiff(got, y) <= 1e-11 * (1 + maxabs(y)), "cpmatop-apply", "%s: got %s expected %s", inf.c_str(), show(got).c_str(),
                     show(y).c_str());
            VF_CHECK(cp.getDomainMap()->isSameAs(*d0->getMap()) && cp.getRangeMap()->isSameAs(*d0->getMap()), "cpmatop-maps", "%s", inf.c_str());
            vf::evals();
        }
    });
}

// ------------------------------------------------------------------ P06
static void consolver() {
    ConstraintSolver reused;
    vf::forCases("consolver", [&](uint64_t c, Rng &r) {
        Net t = makeNet(r, r.p(0.8), true);
        // units in which forces are large numbers
        Rng ur(vf::mix(c, 991));
        const double unit = ur.p(0.2) ? ur.pick(std::vector<double>{1e6, 1e10}) : 1.0;
        for (double &v : t.M.a)
            v /= unit;
        for (double &v : t.invK)
            v /= unit;
        for (auto &b : t.all)
            b.kappa *= unit, b.gamma *= unit;
        for (double &v : t.guess)
            v *= unit;
        if (r.p(0.1)) { // everything already apart: no force at all
            for (auto &b : t.all)
                b.delta0 = std::fabs(b.delta0) + 20;
            for (auto &b : t.all)
                if (b.bilateral)
                    b.delta0 = 0;
            for (int i = 0; i < t.nCon; i++)
                t.delta0[i] = t.all[i].delta0;
        }
        Rng rr(vf::mix(c, 77 + rank()));
        ConstraintCollector col;
        loadCollector(rr, t, col);
        auto mobMap = mapOf(times6(t.objCnt), comm);
        const std::string inf0 = netInfo(t, col);
        const double dt = r.p(0.5) ? r.logu(1e-3, 1) : 0.1;
        const int choice = r.i(3);
        const double tol = r.p(0.15) ? r.logu(1e-8, 1e-3) : r.logu(1e-5, 1e-2) * std::max(1.0, norm2(t.delta0) / dt);
        const bool cut = r.p(0.12); // stops before convergence
        const std::string inf = inf0 + vf::fmt(" dt=%.4g solver=%d tol=%.3g force unit %g%s", dt, choice, tol, unit, cut ? " cut" : "");
        vf::beginCase(c, "consolver " + inf);
        Vec vnc(6 * t.nObj);
        for (double &v : vnc)
            v = r.u(-1, 1);
        Teuchos::RCP<TCMAT> Mm = crs(t.M, mobMap, mobMap);
        Teuchos::RCP<TOP> Mo = Mm;
        Teuchos::RCP<TV> vr = Teuchos::rcp(new TV(mobMap, true));
        fill(*vr, vnc);
        ConstraintSolver &s = reused;
        s.setup(col, Mo, vr, dt);
        s.setControlParams(tol, cut ? r.i(1, 5) : 20000, choice);
        s.solveConstraints();
        s.writebackGamma();
        // gamma as written back
        Vec g(t.nCon, 0.0), gl(t.nCon, 0.0);
        int start = 0;
        for (int k = 0; k < rank(); k++)
            start += t.conCnt[k];
        int j = 0;
        for (auto &q : *col.constraintPoolPtr)
            for (auto &b : q)
                gl[start + j++] = b.gamma;
        MPI_Allreduce(gl.data(), g.data(), t.nCon, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        const int n6 = 6 * t.nObj;
        const Vec fu = gather(*s.getForceUni(), n6), fb = gather(*s.getForceBi(), n6), vu = gather(*s.getVelocityUni(), n6),
                  vb = gather(*s.getVelocityBi(), n6);
        Vec gu(t.nCon), gb(t.nCon);
        double lo = 0;
        for (int i = 0; i < t.nCon; i++) {
            gb[i] = t.bi[i] ? g[i] : 0;
            gu[i] = t.bi[i] ? 0 : g[i];
            lo = std::min(lo, gu[i]);
        }
        const Vec Fu = t.DT.mulT(gu), Fb = t.DT.mulT(gb), Vu = t.M.mul(Fu), Vb = t.M.mul(Fb);
        const double fs = 1 + maxabs(g) * 4;
        vf::evals();
        vf::distinct(c);
        vf::count(cut ? "cut_short" : "solved");
        for (int i = 0; i < t.nCon; i++)
            if (t.bi[i] && std::fabs(g[i]) > 1e8)
                vf::count("link_forces_above_1e8");
        for (int i = 0; i < t.nCon; i++)
            vf::count(t.bi[i] ? "bilateral" : g[i] > 0 ? "unilateral_active" : "unilateral_inactive");
        if (vf::wantSample())
            vf::sample(inf + " gamma=" + show(g));
        VF_CHECK(lo >= 0, "consolver-negative-gamma", "%s: unilateral gamma %.6g", inf.c_str(), lo);
        VF_CHECK(maxdiff(fb, Fb) <= 1e-9 * fs, "consolver-force-bi", "%s: off by %.3g", inf.c_str(), maxdiff(fb, Fb));
        VF_CHECK(maxdiff(vb, Vb) <= 1e-9 * fs / unit, "consolver-velocity-bi", "%s: off by %.3g", inf.c_str(), maxdiff(vb, Vb));
        VF_CHECK(maxdiff(fu, Fu) <= 1e-9 * fs, "consolver-force-uni", "%s: off by %.3g (D gamma %s, returned %s)", inf.c_str(), maxdiff(fu, Fu),
                 show(Fu, 6).c_str(), show(fu, 6).c_str());
        VF_CHECK(maxdiff(vu, Vu) <= 1e-9 * fs / unit, "consolver-velocity-uni", "%s: off by %.3g", inf.c_str(), maxdiff(vu, Vu));
        // complementarity of the step: gap rate = (delta0 + K^-1 gamma)/dt + D^T (v_nc + v)
        Vec vt(n6);
        for (int i = 0; i < n6; i++)
            vt[i] = vnc[i] + Vu[i] + Vb[i];
        const Vec dv = t.DT.mul(vt);
        Vec q(t.nCon);
        for (int i = 0; i < t.nCon; i++) {
            const double y = (t.delta0[i] + t.invK[i] * g[i]) / dt + dv[i];
            q[i] = t.bi[i] ? y : (g[i] <= 1e-13 ? std::min(y, 0.0) : y);
        }
        const double res = norm2(q);
        const double round = 1e-11 * (maxabs(t.delta0) / dt + 20 * maxabs(g) / unit * (1 + maxabs(t.invK) * unit / dt));
        // the solver owes the complementarity conditions where the problem is well conditioned and the tolerance resolvable
        double cond = 1;
        if (t.nCon > 0) {
            Eigen::MatrixXd A(t.nCon, t.nCon);
            for (int i = 0; i < t.nCon; i++) {
                Vec row(n6);
                for (int k = 0; k < n6; k++)
                    row[k] = t.DT(i, k);
                const Vec col = t.DT.mul(t.M.mul(row));
                for (int k = 0; k < t.nCon; k++)
                    A(k, i) = col[k] + (k == i ? t.invK[i] / dt : 0);
            }
            A = ((A + A.transpose()) * 0.5).eval();
            const Eigen::VectorXd ev = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(A, Eigen::EigenvaluesOnly).eigenvalues();
            cond = ev(0) > 0 ? ev(t.nCon - 1) / ev(0) : 1e300;
        }
        const double resolv = 1e-6 * std::max(1.0, norm2(t.delta0) / dt + 20 * maxabs(g) / unit * (1 + maxabs(t.invK) * unit / dt));
        vf::count(cut ? "conditioning_unused_cut" : cond < 1e4 ? "well_conditioned" : "ill_conditioned");
        if (!cut && cond < 1e4 && maxabs(g) < 1e6 * unit && tol >= resolv) {
            vf::maxi("residual / tolerance", res / tol);
            vf::count("complementarity_checked");
            VF_CHECK(res <= tol * (1 + 1e-6) + round, "consolver-complementarity", "%s: residual %.6g cond %.3g gamma=%s", inf.c_str(), res,
                     cond, show(g).c_str());
        }
        // net force and torque-free pairs: two sided constraints exert no net force when the normals are opposite
        if (t.nCon) {
            bool opposite = true;
            for (auto &b : t.all)
                for (int k = 0; k < 3; k++)
                    opposite &= b.oneSide ? false : b.normI[k] == -b.normJ[k];
            if (opposite)
                for (int k = 0; k < 3; k++) {
                    double sum = 0;
                    for (int o = 0; o < t.nObj; o++)
                        sum += fu[6 * o + k] + fb[6 * o + k];
                    VF_CHECK(std::fabs(sum) <= 1e-9 * fs, "consolver-net-force", "%s: net force %.3g", inf.c_str(), sum);
                }
        }
        const Vec vin = gather(*vr, n6);
        VF_CHECK(maxdiff(vin, vnc) == 0, "consolver-input-modified", "%s", inf.c_str());
    });
}

// ------------------------------------------------------------------ P11
static bool readMM(const std::string &fn, bool array, int &R, int &C, std::vector<std::array<double, 3>> &ent) {
    std::ifstream f(fn);
    if (!f)
        return false;
    std::string line;
    while (std::getline(f, line))
        if (!line.empty() && line[0] != '%')
            break;
    std::istringstream is(line);
    int nnz = 0;
    if (array)
        is >> R >> C;
    else
        is >> R >> C >> nnz;
    double a, b, v;
    ent.clear();
    if (array) {
        while (f >> v)
            ent.push_back({{0, 0, v}});
        return (int)ent.size() == R * C;
    }
    while (f >> a >> b >> v)
        ent.push_back({{a, b, v}});
    return (int)ent.size() == nnz;
}
static void tutil() {
    vf::forCases("tutil", [](uint64_t c, Rng &r) {
        const int p = size(), me = rank();
        const int n1 = r.i(0, 30), n2 = r.i(0, 30);
        auto c1 = randomPartition(r, n1), c2 = randomPartition(r, n2);
        int o1 = 0, o2 = 0;
        for (int k = 0; k < me; k++) {
            o1 += c1[k];
            o2 += c2[k];
        }
        std::string inf = vf::fmt("n1=%d n2=%d ranks=%d local=%d,%d", n1, n2, p, c1[me], c2[me]);
        vf::beginCase(c, "tutil " + inf);
        vf::evals();
        vf::distinct(c);
        if (vf::wantSample())
            vf::sample(inf);
        auto cm = getMPIWORLDTCOMM();
        VF_CHECK(cm->getSize() == p && cm->getRank() == me, "tutil-comm", "%d/%d", cm->getRank(), cm->getSize());
        Teuchos::RCP<const TMAP> m1 = getTMAPFromLocalSize(c1[me], cm), m2 = getTMAPFromLocalSize(c2[me], cm);
        // contiguous, in rank order
        bool ok = (int)m1->getGlobalNumElements() == n1 && (int)m1->getNodeNumElements() == c1[me];
        for (int i = 0; ok && i < c1[me]; i++)
            ok &= m1->getGlobalElement(i) == o1 + i && m1->getLocalElement(o1 + i) == i;
        VF_CHECK(ok, "tutil-localsize", "%s", inf.c_str());
        // arbitrary ids
        std::vector<int> perm(n1);
        std::iota(perm.begin(), perm.end(), 0);
        r.shuffle(perm);
        std::vector<int> mine(perm.begin() + o1, perm.begin() + o1 + c1[me]);
        auto mg = getTMAPFromGlobalIndexOnLocal(mine, n1, cm);
        ok = (int)mg->getGlobalNumElements() == n1 && (int)mg->getNodeNumElements() == c1[me];
        for (int i = 0; ok && i < c1[me]; i++)
            ok &= mg->getGlobalElement(i) == mine[i] && mg->getLocalElement(mine[i]) == i;
        VF_CHECK(ok, "tutil-globalindex", "%s", inf.c_str());
        // two blocks
        auto mb = getTMAPFromTwoBlockTMAP(m1, m2);
        ok = (int)mb->getGlobalNumElements() == n1 + n2 && (int)mb->getNodeNumElements() == c1[me] + c2[me];
        for (int i = 0; ok && i < c1[me]; i++)
            ok &= mb->getGlobalElement(i) == o1 + i;
        for (int i = 0; ok && i < c2[me]; i++)
            ok &= mb->getGlobalElement(c1[me] + i) == n1 + o2 + i;
        VF_CHECK(ok, "tutil-twoblock-map", "%s", inf.c_str());
        Vec v1(n1), v2(n2);
        for (double &v : v1)
            v = r.u(-1, 1);
        for (double &v : v2)
            v = r.u(-1, 1);
        auto t1 = getTVFromVector(Vec(v1.begin() + o1, v1.begin() + o1 + c1[me]), cm);
        auto t2 = getTVFromVector(Vec(v2.begin() + o2, v2.begin() + o2 + c2[me]), cm);
        VF_CHECK((int)t1->getGlobalLength() == n1 && maxdiff(gather(*t1, n1), v1) == 0, "tutil-fromvector", "%s: %s expected %s", inf.c_str(),
                 show(gather(*t1, n1)).c_str(), show(v1).c_str());
        auto tb = getTVFromTwoBlockTV(t1.getConst(), t2.getConst());
        Vec vb = v1;
        vb.insert(vb.end(), v2.begin(), v2.end());
        VF_CHECK(maxdiff(gather(*tb, n1 + n2), vb) == 0, "tutil-twoblock-vector", "%s: %s expected %s", inf.c_str(), show(gather(*tb, n1 + n2)).c_str(),
                 show(vb).c_str());
        VF_CHECK(maxdiff(gather(*t1, n1), v1) == 0 && maxdiff(gather(*t2, n2), v2) == 0, "tutil-input-modified", "%s", inf.c_str());
        // files: what was written is what was there, whatever the distribution
        const bool files = n1 > 0 && r.p(0.25);
        if (files) {
            TV sh(mg, true);
            fill(sh, v1);
            Teuchos::RCP<TV> shp = Teuchos::rcp(new TV(sh, Teuchos::Copy));
            Mat A(n1, n1);
            for (int i = 0; i < n1; i++)
                for (int j = 0; j < n1; j++)
                    if (r.p(0.2))
                        A(i, j) = r.u(-1, 1);
            Teuchos::RCP<TCMAT> Am = crs(A, m1, m1);
            dumpTV(shp.getConst(), "vfv");
            dumpTCMAT(Am.getConst(), "vfm");
            MPI_Barrier(MPI_COMM_WORLD);
            if (me == 0) {
                int R = 0, C = 0;
                std::vector<std::array<double, 3>> e;
                ok = readMM("vfv_TV.mtx", true, R, C, e) && R == n1 && C == 1;
                double worst = 0;
                for (int i = 0; ok && i < n1; i++)
                    worst = std::max(worst, std::fabs(e[i][2] - v1[i]));
                VF_CHECK(ok && worst <= 1e-12, "tutil-dumpTV", "%s: file %s, off by %.3g", inf.c_str(), ok ? "parsed" : "malformed", worst);
                ok = readMM("vfm_TCMAT.mtx", false, R, C, e) && R == n1 && C == n1;
                Mat B(n1, n1);
                for (auto &x : e) {
                    const int i = (int)x[0] - 1, j = (int)x[1] - 1;
                    if (i < 0 || j < 0 || i >= n1 || j >= n1) {
                        ok = false;
                        break;
                    }
                    B(i, j) += x[2];
                }
                VF_CHECK(ok && maxdiff(A.a, B.a) <= 1e-12, "tutil-dumpTCMAT", "%s: file %s, off by %.3g", inf.c_str(), ok ? "parsed" : "malformed",
                         maxdiff(A.a, B.a));
                vf::count("files_read_back", 2);
            }
            MPI_Barrier(MPI_COMM_WORLD);
        }
    });
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    {
        vf::init(argc, argv, tp::rank(), tp::size());
        tp::quiet();
        comm = getMPIWORLDTCOMM();
        const std::string m = vf::st().mode;
        if (m == "lcp")
            lcp();
        else if (m == "bcqp")
            bcqp();
        else if (m == "collector")
            collector();
        else if (m == "conop")
            conop();
        else if (m == "consolver")
            consolver();
        else if (m == "tutil")
            tutil();
        comm = Teuchos::null;
        vf::finish();
    }
    MPI_Finalize();
    return 0;
}
