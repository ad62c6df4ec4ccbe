// Monitors for the particle engine under everything: domain decomposition and particle exchange (P34), tree searches (P36).
#include "vf.hpp"

#include "FDPS/particle_simulator.hpp"

#include <algorithm>
#include <map>
#include <memory>
#include <mpi.h>
#include <omp.h>
#include <set>
#include <tuple>

using vf::Rng;
#define EXPECT(cond, key, ...) ((cond) ? true : (vf::violation(key, __VA_ARGS__), false))
static int rk, np;

template <class T>
static std::vector<T> gatherAll(const std::vector<T> &v, std::vector<int> *cnt = nullptr) {
    int n = (int)(v.size() * sizeof(T));
    std::vector<int> c(np), d(np + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < np; i++)
        d[i + 1] = d[i] + c[i];
    std::vector<T> all(d[np] / sizeof(T));
    MPI_Allgatherv(v.data(), n, MPI_BYTE, all.data(), c.data(), d.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (cnt) {
        cnt->clear();
        for (int x : c)
            cnt->push_back(x / (int)sizeof(T));
    }
    return all;
}

struct Box {
    PS::BOUNDARY_CONDITION bc;
    bool pbc[3];
    double lo[3], hi[3];
    double L(int k) const { return hi[k] - lo[k]; }
    std::string str() const {
        return vf::fmt("pbc=%d%d%d box (%.9g,%.9g,%.9g)-(%.9g,%.9g,%.9g)", pbc[0], pbc[1], pbc[2], lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
    }
};
static Box makeBox(Rng &r) {
    Box b;
    const int pk = r.i(8);
    const PS::BOUNDARY_CONDITION bc[8] = {PS::BOUNDARY_CONDITION_OPEN,       PS::BOUNDARY_CONDITION_PERIODIC_X,  PS::BOUNDARY_CONDITION_PERIODIC_Y,
                                          PS::BOUNDARY_CONDITION_PERIODIC_XY, PS::BOUNDARY_CONDITION_PERIODIC_Z,  PS::BOUNDARY_CONDITION_PERIODIC_XZ,
                                          PS::BOUNDARY_CONDITION_PERIODIC_YZ, PS::BOUNDARY_CONDITION_PERIODIC_XYZ};
    b.bc = bc[pk];
    const double scale = r.p(0.3) ? r.logu(1e-3, 1e3) : 1;
    for (int k = 0; k < 3; k++) {
        b.pbc[k] = (pk >> k) & 1;
        b.lo[k] = r.p(0.2) ? 0 : scale * r.u(-10, 10);
        b.hi[k] = b.lo[k] + scale * r.u(3, 20);
    }
    return b;
}
static PS::F64vec v3(const double *x) { return PS::F64vec(x[0], x[1], x[2]); }

// points of a case: uniform, clustered, on a lattice, on faces, all in one place, along a line
static void cloud(Rng &r, const Box &b, int n, int kind, std::vector<std::array<double, 3>> &out) {
    double c[3], g[3];
    for (int k = 0; k < 3; k++) {
        c[k] = r.u(b.lo[k], b.hi[k]);
        g[k] = r.u(-1, 1);
    }
    out.clear();
    for (int i = 0; i < n; i++) {
        std::array<double, 3> p;
        const double t = r.u(-0.5, 0.5);
        for (int k = 0; k < 3; k++) {
            switch (kind) {
            case 0:
                p[k] = r.u(b.lo[k], b.hi[k]);
                break;
            case 1:
                p[k] = c[k] + 0.05 * b.L(k) * r.n();
                break;
            case 2:
                p[k] = b.lo[k] + b.L(k) * r.i(5) / 4.0; // 1: the upper face, which is the lower one
                break;
            case 3:
                p[k] = r.p(0.4) ? (r.p(0.5) ? b.lo[k] : std::nextafter(b.hi[k], -1e300)) : r.u(b.lo[k], b.hi[k]);
                break;
            case 4:
                p[k] = c[k];
                break;
            default:
                p[k] = c[k] + t * g[k] * b.L(k);
            }
            if (b.pbc[k]) {
                while (p[k] < b.lo[k])
                    p[k] += b.L(k);
                while (p[k] >= b.hi[k])
                    p[k] -= b.L(k);
                if (p[k] < b.lo[k])
                    p[k] = b.lo[k];
            }
        }
        out.push_back(p);
    }
}

// ------------------------------------------------------------------ P34
struct Fp {
    int gid = -1;
    PS::F64vec pos;
    uint64_t pay[5] = {0, 0, 0, 0, 0};
    PS::F64vec getPos() const { return pos; }
    void setPos(const PS::F64vec &p) { pos = p; }
    void set(int g) {
        gid = g;
        for (int k = 0; k < 5; k++)
            pay[k] = vf::mix(g, k);
    }
    bool ok() const {
        for (int k = 0; k < 5; k++)
            if (pay[k] != vf::mix(gid, k))
                return false;
        return true;
    }
};
struct Rec {
    int gid, ok;
    double p[3];
};
static std::vector<Rec> recs(PS::ParticleSystem<Fp> &s, std::vector<int> *cnt) {
    std::vector<Rec> v;
    for (int i = 0; i < s.getNumberOfParticleLocal(); i++)
        v.push_back(Rec{s[i].gid, s[i].ok(), {s[i].pos.x, s[i].pos.y, s[i].pos.z}});
    return gatherAll(v, cnt);
}

static void domain() {
    vf::forCases("domain", [](uint64_t c, Rng &r) {
        const Box b = makeBox(r);
        PS::DomainInfo dinfo;
        dinfo.initialize();
        dinfo.setBoundaryCondition(b.bc);
        dinfo.setPosRootDomain(v3(b.lo), v3(b.hi));
        int grid[3] = {0, 0, 0};
        if (r.p(0.4)) { // any factorisation of the rank count
            std::vector<std::array<int, 3>> all;
            for (int x = 1; x <= np; x++)
                for (int y = 1; x * y <= np; y++)
                    if (np % (x * y) == 0)
                        all.push_back({x, y, np / (x * y)});
            const auto g = r.pick(all);
            for (int k = 0; k < 3; k++)
                grid[k] = g[k];
            dinfo.setNumberOfDomainMultiDimension(g[0], g[1], g[2]);
        }
        PS::ParticleSystem<Fp> sys;
        sys.initialize();
        if (r.p(0.5))
            sys.setAverageTargetNumberOfSampleParticlePerProcess(r.i(6, 60)); // too few and no rank samples anything
        const int n = r.p(0.1) ? r.i(0, 4) : r.p(0.1) ? r.i(500, 1500) : r.i(1, 200);
        const int kind = r.i(6), where = r.i(3), rounds = r.i(1, 4);
        std::vector<std::array<double, 3>> pts;
        cloud(r, b, n, kind, pts);
        std::map<int, std::array<double, 3>> want; // what the model says, gid -> position
        std::vector<int> mine;
        for (int i = 0; i < n; i++) {
            want[i] = pts[i];
            const int o = where == 0 ? 0 : where == 1 ? (int)(vf::mix(c, i) % np) : np - 1;
            if (o == rk)
                mine.push_back(i);
        }
        sys.setNumberOfParticleLocal(mine.size());
        for (size_t k = 0; k < mine.size(); k++) {
            sys[k].set(mine[k]);
            sys[k].pos = v3(pts[mine[k]].data());
        }
        const std::string inf0 = vf::fmt("%s n=%d kind=%d start=%d ranks=%d grid=%dx%dx%d", b.str().c_str(), n, kind, where, np, grid[0], grid[1], grid[2]);
        int next = n;
        bool stale = false;
        for (int round = 0; round < rounds; round++) {
            const std::string inf = inf0 + vf::fmt(" round=%d", round);
            vf::beginCase(c, "domain " + inf);
            int shown = 0;
            auto same = [&](const std::vector<Rec> &all, const char *stage) {
                std::map<int, int> seen;
                for (auto &x : all)
                    seen[x.gid]++;
                for (auto &w : want)
                    if (seen[w.first] != 1 && shown++ < 3)
                        VF_CHECK(false, seen[w.first] ? "particle-duplicated" : "particle-lost", "%s %s: particle %d is there %d times", inf.c_str(), stage, w.first, seen[w.first]);
                VF_CHECK(all.size() == want.size() || shown, "particle-count", "%s %s: %zu particles instead of %zu", inf.c_str(), stage, all.size(), want.size());
                for (auto &x : all)
                    if (!x.ok && shown++ < 3)
                        VF_CHECK(false, "particle-content", "%s %s: particle %d has been altered", inf.c_str(), stage, x.gid);
            };
            // moves (by any number of boxes), insertions and removals
            if (round) {
                const int ik = r.i(4);
                const uint64_t key = vf::mix(c, 1000 + round);
                for (auto &w : want) {
                    Rng q(vf::mix(key, w.first));
                    if (q.p(0.3))
                        continue;
                    for (int k = 0; k < 3; k++) {
                        const double amp = ik == 0 ? 0.01 : ik == 1 ? 0.3 : b.pbc[k] ? 3 : 1;
                        w.second[k] += amp * b.L(k) * q.u(-1, 1);
                        if (ik == 3 && q.p(0.3) && b.pbc[k]) // at and around the faces
                            w.second[k] = q.pick(std::vector<double>{b.lo[k], b.hi[k], std::nextafter(b.lo[k], -1e300), std::nextafter(b.hi[k], -1e300),
                                                                     std::nextafter(b.hi[k], 1e300), b.lo[k] - b.L(k), b.hi[k] + b.L(k)});
                    }
                }
                for (int i = 0; i < sys.getNumberOfParticleLocal(); i++)
                    sys[i].pos = v3(want[sys[i].gid].data());
                if (r.p(0.3)) {
                    const int m = r.i(1, 20);
                    std::vector<std::array<double, 3>> more;
                    cloud(r, b, m, r.i(6), more);
                    for (int i = 0; i < m; i++) {
                        want[next] = more[i];
                        if ((int)(vf::mix(c, next) % np) == rk) {
                            Fp f;
                            f.set(next);
                            f.pos = v3(more[i].data());
                            sys.addOneParticle(f);
                        }
                        next++;
                    }
                }
            }
            sys.adjustPositionIntoRootDomain(dinfo);
            std::vector<int> own0;
            auto A = recs(sys, &own0);
            same(A, "after wrapping");
            const PS::F64ort root = dinfo.getPosRootDomain();
            long wrapped = 0;
            for (auto &x : A) {
                auto it = want.find(x.gid);
                if (it == want.end())
                    continue;
                for (int k = 0; k < 3 && shown < 3; k++) {
                    const double d = x.p[k] - it->second[k], m = b.pbc[k] ? std::round(d / b.L(k)) : 0;
                    const double tol = 1e-14 * (std::fabs(m) + 2) * (std::fabs(b.lo[k]) + std::fabs(b.hi[k]) + std::fabs(it->second[k]));
                    wrapped += m != 0;
                    if (!b.pbc[k])
                        shown += !EXPECT(d == 0, "open-axis-moved", "%s: particle %d moved from %.17g to %.17g along the open axis %d", inf.c_str(), x.gid, it->second[k], x.p[k], k);
                    else {
                        shown += !EXPECT(x.p[k] >= b.lo[k] && x.p[k] < b.hi[k], "outside-root", "%s: particle %d at %.17g along axis %d after wrapping %.17g", inf.c_str(), x.gid, x.p[k],
                                           k, it->second[k]);
                        shown += !EXPECT(std::fabs(d - m * b.L(k)) <= tol, "not-an-image", "%s: particle %d wrapped from %.17g to %.17g along axis %d", inf.c_str(), x.gid,
                                           it->second[k], x.p[k], k);
                        if (it->second[k] >= b.lo[k] && it->second[k] < b.hi[k])
                            shown += !EXPECT(d == 0, "inside-moved", "%s: particle %d was inside at %.17g and moved to %.17g (axis %d)", inf.c_str(), x.gid, it->second[k], x.p[k], k);
                    }
                }
                for (int k = 0; k < 3; k++)
                    it->second[k] = x.p[k];
            }
            // decompose (not in every round: exchange must also work with the domains of a former one)
            const int how = round == 0 || stale ? r.i(1, 3) : r.i(4);
            stale = want.empty(); // domains made for no particle at all serve nobody
            if (how == 1)
                dinfo.decomposeDomainAll(sys);
            else if (how == 2)
                dinfo.decomposeDomainAll(sys, (float)(rk + 1));
            else if (how == 3) {
                dinfo.collectSampleParticle(sys, true);
                dinfo.decomposeDomain();
            }
            // one table of domains, tiling the root domain
            std::vector<std::array<double, 6>> dom(np);
            for (int k = 0; k < np; k++) {
                const PS::F64ort o = dinfo.getPosDomain(k);
                for (int d = 0; d < 3; d++) {
                    dom[k][d] = o.low_[d];
                    dom[k][3 + d] = o.high_[d];
                }
            }
            const auto everyone = gatherAll(dom);
            for (int q = 0; q < np && shown < 3; q++)
                for (int k = 0; k < np && shown < 3; k++)
                    shown += !EXPECT(everyone[q * np + k] == dom[k], "domain-table", "%s: ranks %d and %d disagree about the domain of rank %d", inf.c_str(), q, rk, k);
            auto count = [&](const double *p) {
                int in = 0;
                for (auto &d : dom)
                    in += p[0] >= d[0] && p[0] < d[3] && p[1] >= d[1] && p[1] < d[4] && p[2] >= d[2] && p[2] < d[5];
                return in;
            };
            Rng q(vf::mix(c, 500 + round));
            for (int t = 0; t < 300 && shown < 3 && want.size(); t++) {
                double p[3];
                for (int k = 0; k < 3; k++) {
                    const auto &d = dom[q.i(np)];
                    const int z = q.i(6);
                    p[k] = z == 0 ? d[k] : z == 1 ? d[3 + k] : z == 2 ? std::nextafter(d[k], -1e300) : b.pbc[k] ? q.u(b.lo[k], b.hi[k]) : b.lo[k] + b.L(k) * q.u(-3, 4);
                    if (!(p[k] >= root.low_[k] && p[k] < root.high_[k]))
                        p[k] = 0.5 * (b.lo[k] + b.hi[k]);
                }
                const int in = count(p);
                shown += !EXPECT(in == 1, in ? "domains-overlap" : "domains-gap", "%s: (%.17g,%.17g,%.17g) lies in %d domains", inf.c_str(), p[0], p[1], p[2], in);
            }
            for (int k = 0; k < 3; k++)
                for (auto &d : dom)
                    if (shown < 3)
                        shown += !EXPECT(d[k] >= root.low_[k] && d[3 + k] <= root.high_[k] && d[k] <= d[3 + k], "domain-range", "%s: a domain spans [%.17g,%.17g] along axis %d",
                                           inf.c_str(), d[k], d[3 + k], k);
            for (int k = 0; k < 3; k++)
                if (b.pbc[k] && shown < 3)
                    shown += !EXPECT(root.low_[k] == b.lo[k] && root.high_[k] == b.hi[k], "root-domain", "%s: root domain [%.17g,%.17g] along axis %d", inf.c_str(), root.low_[k],
                                       root.high_[k], k);
            sys.exchangeParticle(dinfo);
            std::vector<int> cnt;
            auto B = recs(sys, &cnt);
            same(B, "after the exchange");
            long moved = 0;
            int at = 0, o0 = 0;
            std::map<int, int> before;
            for (int o = 0; o < np; o++)
                for (int i = 0; i < own0[o]; i++)
                    before[A[o0++].gid] = o;
            for (int o = 0; o < np; o++)
                for (int i = 0; i < cnt[o]; i++) {
                    const auto &x = B[at++];
                    const auto &d = dom[o];
                    moved += before[x.gid] != o;
                    bool in = true, still = true;
                    const auto it = want.find(x.gid);
                    for (int k = 0; k < 3; k++) {
                        in = in && x.p[k] >= d[k] && x.p[k] < d[3 + k];
                        still = still && it != want.end() && x.p[k] == it->second[k];
                    }
                    if (shown < 3) {
                        shown += !EXPECT(in, "owner-domain", "%s: particle %d (%.17g,%.17g,%.17g) is on rank %d, whose domain is (%g,%g,%g)-(%g,%g,%g)", inf.c_str(), x.gid, x.p[0],
                                           x.p[1], x.p[2], o, d[0], d[1], d[2], d[3], d[4], d[5]);
                        shown += !EXPECT(still, "position-changed", "%s: particle %d changed its position in the exchange", inf.c_str(), x.gid);
                    }
                }
            VF_CHECK((long)sys.getNumberOfParticleGlobal() == (long)want.size(), "global-count", "%s: %ld particles globally instead of %zu", inf.c_str(),
                     (long)sys.getNumberOfParticleGlobal(), want.size());
            vf::evals();
            vf::distinct(vf::mix(c, round));
            vf::count("particles", (long)want.size());
            vf::count("coordinates_wrapped", wrapped);
            vf::count("particles_that_changed_rank", moved);
            vf::count(vf::fmt("decomposition_%d", how));
            if (vf::wantSample())
                vf::sample(inf + vf::fmt(" -> %zu particles, %ld wrapped coordinates, %ld changed rank", want.size(), wrapped, moved));
        }
    });
}

// ------------------------------------------------------------------ P36
struct Sp {
    int gid = -1;
    PS::F64vec pos;
    double R = 0, m = 0;
    uint64_t tag = 0; // changes every round: what a neighbour shows must be the present value
    int gotN = -1, gotGid = -1;
    double gotM = 0;
    PS::F64vec getPos() const { return pos; }
    void setPos(const PS::F64vec &p) { pos = p; }
    double getRSearch() const { return R; }
    double getCharge() const { return m; }
    double getChargeParticleMesh() const { return m; }
    void copyFromFP(const Sp &o) { *this = o; }
    template <class F>
    void copyFromForce(const F &f) {
        gotN = f.n;
        gotGid = f.gid;
        gotM = f.m;
    }
};
struct SFor {
    int n = 0, gid = -1;
    double m = 0, mx[3] = {0, 0, 0}, far = 0;
    long ep = 0, sp = 0;
    void clear() { *this = SFor(); }
};
struct SHit {
    int t, s;
    double img[3];
    uint64_t tag;
};
struct SLog {
    std::vector<std::vector<SHit>> *q;
    int mode; // 0 gather, 1 scatter, 2 symmetry
    void operator()(const Sp *ti, const PS::S32 nt, const Sp *sj, const PS::S32 ns, SFor *f) const {
        for (int t = 0; t < nt; t++) {
            f[t].gid = ti[t].gid;
            for (int s = 0; s < ns; s++) {
                const PS::F64vec d = sj[s].pos - ti[t].pos;
                const double R = mode == 0 ? ti[t].R : mode == 1 ? sj[s].R : std::max(ti[t].R, sj[s].R);
                if (std::sqrt(d * d) < R) {
                    f[t].n++;
                    f[t].m += sj[s].m;
                    (*q)[omp_get_thread_num()].push_back(SHit{ti[t].gid, sj[s].gid, {sj[s].pos.x, sj[s].pos.y, sj[s].pos.z}, sj[s].tag});
                }
            }
        }
    }
};

static const char *MODE[] = {"gather", "scatter", "symmetry"};

template <class Tree>
static void shortCase(uint64_t c, Rng &r, int mode) {
    const Box b = makeBox(r);
    PS::DomainInfo dinfo;
    dinfo.initialize();
    dinfo.setBoundaryCondition(b.bc);
    dinfo.setPosRootDomain(v3(b.lo), v3(b.hi));
    PS::ParticleSystem<Sp> sys;
    sys.initialize();
    const int n = r.p(0.1) ? r.i(1, 4) : r.i(1, r.p(0.1) ? 600 : 150);
    double Lmin = 1e300;
    for (int k = 0; k < 3; k++)
        Lmin = std::min(Lmin, b.L(k));
    const double R0 = Lmin * r.logu(0.01, 0.35);
    const int kind = r.i(6), rk2 = r.i(4);
    std::vector<std::array<double, 3>> pts;
    cloud(r, b, n, kind, pts);
    std::vector<Sp> P(n);
    for (int i = 0; i < n; i++) {
        P[i].gid = i;
        P[i].pos = v3(pts[i].data());
        P[i].R = rk2 == 0 ? R0 : rk2 == 1 ? R0 * r.logu(0.01, 1) : rk2 == 2 ? (r.p(0.1) ? R0 : 0.05 * R0) : R0 * r.u(0.3, 1);
        P[i].m = r.i(1, 1000);
    }
    std::vector<int> mine;
    for (int i = 0; i < n; i++)
        if ((int)(vf::mix(c, i) % np) == rk)
            mine.push_back(i);
    sys.setNumberOfParticleLocal(mine.size());
    for (size_t k = 0; k < mine.size(); k++)
        sys[k] = P[mine[k]];
    Tree tree;
    const int leaf = r.pick(std::vector<int>{1, 2, 8, 8, 30}), group = r.pick(std::vector<int>{1, 4, 64, 64, 300});
    tree.initialize(n + 10, 0.7, leaf, std::max(leaf, group));
    const std::string inf0 = vf::fmt("%s %s n=%d kind=%d radii=%d R0=%.4g leaf=%d group=%d ranks=%d threads=%d", MODE[mode], b.str().c_str(), n, kind, rk2, R0, leaf, group, np,
                                     omp_get_max_threads());
    const int rounds = r.i(1, 4);
    bool reusable = false;
    for (int round = 0; round < rounds; round++) {
        // 0 make, 1 make for reuse, 2 reuse (same places, new contents)
        const int lm = reusable && r.p(0.6) ? 2 : r.p(0.5) ? 1 : 0;
        const std::string inf = inf0 + vf::fmt(" round=%d list=%d", round, lm);
        vf::beginCase(c, "search " + inf);
        const uint64_t key = vf::mix(c, 100 + round);
        if (lm != 2) {
            if (round) {
                cloud(r, b, n, r.i(6), pts);
                for (int i = 0; i < n; i++)
                    P[i].pos = v3(pts[i].data());
                for (int k = 0; k < sys.getNumberOfParticleLocal(); k++)
                    sys[k].pos = P[sys[k].gid].pos;
            }
            dinfo.decomposeDomainAll(sys);
            sys.exchangeParticle(dinfo);
        }
        for (int k = 0; k < sys.getNumberOfParticleLocal(); k++) {
            sys[k].tag = vf::mix(key, sys[k].gid);
            sys[k].m = (double)(1 + vf::mix(key, 7 + sys[k].gid) % 1000);
            sys[k].gotN = sys[k].gotGid = -1;
        }
        std::vector<std::vector<SHit>> q(omp_get_max_threads());
        SLog f{&q, mode};
        tree.calcForceAllAndWriteBack(f, sys, dinfo, true, lm == 0 ? PS::MAKE_LIST : lm == 1 ? PS::MAKE_LIST_FOR_REUSE : PS::REUSE_LIST);
        reusable = lm != 0;
        std::vector<SHit> hits;
        for (auto &x : q)
            hits.insert(hits.end(), x.begin(), x.end());
        std::map<int, int> per;
        std::map<int, double> perM;
        for (auto &h : hits) {
            per[h.t]++;
            perM[h.t] += (double)(1 + vf::mix(key, 7 + h.s) % 1000);
        }
        int shown = 0;
        for (int k = 0; k < sys.getNumberOfParticleLocal() && shown < 3; k++)
            shown += !EXPECT(sys[k].gotGid == sys[k].gid && sys[k].gotN == per[sys[k].gid] && sys[k].gotM == perM[sys[k].gid], "write-back",
                               "%s: particle %d got the result of %d with %d neighbours and sum %.17g; it has %d and %.17g", inf.c_str(), sys[k].gid, sys[k].gotGid, sys[k].gotN,
                               sys[k].gotM, per[sys[k].gid], perM[sys[k].gid]);
        const auto all = gatherAll(hits);
        std::map<std::pair<int, int>, std::vector<const SHit *>> got;
        for (auto &h : all)
            got[std::make_pair(h.t, h.s)].push_back(&h);
        long want = 0, across = 0;
        for (int i = 0; i < n && shown < 3; i++)
            for (int j = 0; j < n && shown < 3; j++) {
                const double R = mode == 0 ? P[i].R : mode == 1 ? P[j].R : std::max(P[i].R, P[j].R);
                int lim[3], im[3], nin = 0, nmax = 0;
                for (int k = 0; k < 3; k++)
                    lim[k] = b.pbc[k] ? 1 : 0;
                for (im[0] = -lim[0]; im[0] <= lim[0]; im[0]++)
                    for (im[1] = -lim[1]; im[1] <= lim[1]; im[1]++)
                        for (im[2] = -lim[2]; im[2] <= lim[2]; im[2]++) {
                            double d2 = 0;
                            for (int k = 0; k < 3; k++) {
                                const double d = P[j].pos[k] + im[k] * b.L(k) - P[i].pos[k];
                                d2 += d * d;
                            }
                            const double d = std::sqrt(d2);
                            const bool in = d < R * (1 - 1e-9);
                            nin += in;
                            across += in && (im[0] || im[1] || im[2]);
                            nmax += d < R * (1 + 1e-9) + 1e-12 * Lmin;
                        }
                const auto it = got.find(std::make_pair(i, j));
                const int g = it == got.end() ? 0 : (int)it->second.size();
                want += nin;
                if (g < nin || g > nmax)
                    shown += !EXPECT(false, g < nin ? "neighbour-missed" : "neighbour-repeated",
                                       "%s: particle %d (%.17g,%.17g,%.17g) R %.9g and %d (%.17g,%.17g,%.17g) R %.9g: seen %d times, %d..%d expected", inf.c_str(), i, P[i].pos.x,
                                       P[i].pos.y, P[i].pos.z, P[i].R, j, P[j].pos.x, P[j].pos.y, P[j].pos.z, P[j].R, g, nin, nmax);
                if (it != got.end())
                    for (auto *h : it->second) {
                        bool image = true;
                        for (int k = 0; k < 3; k++) {
                            const double d = h->img[k] - P[j].pos[k], m = b.pbc[k] ? std::round(d / b.L(k)) : 0;
                            image = image && std::fabs(d - m * b.L(k)) <= 1e-13 * (b.L(k) + std::fabs(b.lo[k]));
                        }
                        if (shown < 3) {
                            shown += !EXPECT(image, "neighbour-place", "%s: %d sees %d at (%.17g,%.17g,%.17g)", inf.c_str(), i, j, h->img[0], h->img[1], h->img[2]);
                            shown += !EXPECT(h->tag == vf::mix(key, j), "neighbour-stale", "%s: %d sees old contents of %d", inf.c_str(), i, j);
                        }
                    }
            }
        vf::evals();
        vf::distinct(vf::mix(c, round));
        vf::count(vf::fmt("pairs_%s", MODE[mode]), want);
        vf::count("pairs_across_the_box", across);
        vf::count(vf::fmt("list_mode_%d", lm));
        if (vf::wantSample())
            vf::sample(inf + vf::fmt(" -> %ld neighbour relations, %ld across the box", want, across));
    }
}

struct EpEp {
    void operator()(const Sp *ti, const PS::S32 nt, const Sp *sj, const PS::S32 ns, SFor *f) const {
        for (int t = 0; t < nt; t++) {
            f[t].gid = ti[t].gid;
            for (int s = 0; s < ns; s++) {
                f[t].m += sj[s].m;
                f[t].ep++;
                f[t].n += sj[s].gid == ti[t].gid; // sees itself once
                for (int k = 0; k < 3; k++)
                    f[t].mx[k] += sj[s].m * sj[s].pos[k];
            }
        }
    }
};
struct EpSp {
    template <class S>
    void operator()(const Sp *ti, const PS::S32 nt, const S *sj, const PS::S32 ns, SFor *f) const {
        for (int t = 0; t < nt; t++) {
            f[t].gid = ti[t].gid;
            for (int s = 0; s < ns; s++) {
                f[t].m += sj[s].mass;
                f[t].sp++;
                const PS::F64vec d = sj[s].pos - ti[t].pos;
                (void)d;
                for (int k = 0; k < 3; k++)
                    f[t].mx[k] += sj[s].mass * sj[s].pos[k];
            }
        }
    }
};
// long range: whatever is opened, every particle is accounted for exactly once, directly or in one cell
static void longCase(uint64_t c, Rng &r) {
    Box b = makeBox(r);
    for (int k = 0; k < 3; k++)
        b.pbc[k] = false;
    b.bc = PS::BOUNDARY_CONDITION_OPEN;
    PS::DomainInfo dinfo;
    dinfo.initialize();
    dinfo.setBoundaryCondition(b.bc);
    PS::ParticleSystem<Sp> sys;
    sys.initialize();
    const int n = r.p(0.1) ? r.i(2, 4) : r.i(2, r.p(0.2) ? 3000 : 300), kind = r.i(6);
    std::vector<std::array<double, 3>> pts;
    cloud(r, b, n, kind, pts);
    if (std::count(pts.begin(), pts.end(), pts[0]) == n) // a tree of no extent is not possible
        pts[0][r.i(3)] += 1;
    std::vector<int> mine;
    double M = 0, X[3] = {0, 0, 0}, S[3] = {0, 0, 0};
    for (int i = 0; i < n; i++) {
        const double m = (double)(1 + vf::mix(c, 7 + i) % 1000);
        M += m;
        for (int k = 0; k < 3; k++) {
            X[k] += m * pts[i][k];
            S[k] += m * std::fabs(pts[i][k]);
        }
        if ((int)(vf::mix(c, i) % np) == rk)
            mine.push_back(i);
    }
    sys.setNumberOfParticleLocal(mine.size());
    for (size_t k = 0; k < mine.size(); k++) {
        Sp p;
        p.gid = mine[k];
        p.pos = v3(pts[mine[k]].data());
        p.m = (double)(1 + vf::mix(c, 7 + p.gid) % 1000);
        sys[k] = p;
    }
    const double theta = r.p(0.2) ? 0 : r.u(0.05, 1.2);
    const int leaf = r.pick(std::vector<int>{1, 2, 8, 8, 30}), group = r.pick(std::vector<int>{1, 4, 64, 64, 300});
    typename PS::TreeForForceLong<SFor, Sp, Sp>::Monopole tree;
    tree.initialize(n + 10, theta, leaf, std::max(leaf, group));
    const std::string inf = vf::fmt("long n=%d kind=%d theta=%.3g leaf=%d group=%d ranks=%d threads=%d", n, kind, theta, leaf, group, np, omp_get_max_threads());
    vf::beginCase(c, "search " + inf);
    dinfo.decomposeDomainAll(sys);
    sys.exchangeParticle(dinfo);
    tree.calcForceAll(EpEp(), EpSp(), sys, dinfo);
    int shown = 0;
    long ep = 0, sp = 0;
    for (int i = 0; i < sys.getNumberOfParticleLocal() && shown < 3; i++) {
        const SFor f = tree.getForce(i);
        ep += f.ep;
        sp += f.sp;
        shown += !EXPECT(f.gid == sys[i].gid, "long-order", "%s: the result at %d is that of particle %d, not of %d", inf.c_str(), i, f.gid, sys[i].gid);
        shown += !EXPECT(f.m == M, "long-sum", "%s: particle %d sees a total mass of %.17g instead of %.17g", inf.c_str(), sys[i].gid, f.m, M);
        shown += !EXPECT(f.n <= 1 && (f.n || kind == 2 || kind == 3 || kind == 4 || theta > 0.57), "long-self", "%s: particle %d meets itself %d times", inf.c_str(), sys[i].gid, f.n);
        for (int k = 0; k < 3; k++)
            shown += !EXPECT(std::fabs(f.mx[k] - X[k]) <= 1e-11 * S[k] + 1e-300, "long-centre", "%s: particle %d sees first moment %.17g instead of %.17g (axis %d)", inf.c_str(),
                               sys[i].gid, f.mx[k], X[k], k);
        if (theta == 0 && kind != 4 && kind != 2 && kind != 3)
            shown += !EXPECT(f.sp == 0 && f.ep == n, "long-direct", "%s: %ld particles and %ld cells with theta=0", inf.c_str(), f.ep, f.sp);
    }
    vf::evals();
    vf::distinct(c);
    vf::count("long_direct", ep);
    vf::count("long_cells", sp);
    if (vf::wantSample())
        vf::sample(inf + vf::fmt(" -> %ld direct, %ld cell contributions", ep, sp));
}

static void search() {
    vf::forCases("search", [](uint64_t c, Rng &r) {
        const int mode = r.i(7);
        if (mode == 6)
            longCase(c, r);
        else if (mode <= 1)
            shortCase<PS::TreeForForceShort<SFor, Sp, Sp>::Gather>(c, r, 0);
        else if (mode <= 3)
            shortCase<PS::TreeForForceShort<SFor, Sp, Sp>::Scatter>(c, r, 1);
        else
            shortCase<PS::TreeForForceShort<SFor, Sp, Sp>::Symmetry>(c, r, 2);
    });
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    vf::init(argc, argv, rk, np);
    PS::Initialize(argc, argv);
    if (vf::st().mode == std::string("domain"))
        domain();
    else
        search();
    vf::finish();
    MPI_Finalize();
    return 0;
}
