// Scaffolding of the harnesses that run whole SylinderSystem objects: worlds (configuration + particles + links +
// boundaries), their position files, gathering of distributed state, and independent geometry.
#ifndef VF_SYS_HPP_
#define VF_SYS_HPP_
#include <algorithm>
#include <array>
#include <cassert>
#include <fstream>
#include <iostream>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <unordered_map>

#include "vf.hpp"

#include "Sylinder/SylinderSystem.hpp"
#include "Util/Logger.hpp"
#include <mpi.h>
#include <omp.h>

namespace sysv {
using vf::Rng;
typedef long double ld;

// ---------------------------------------------------------------- long double geometry
struct V {
    ld x[3];
    V() { x[0] = x[1] = x[2] = 0; }
    V(ld a, ld b, ld c) { x[0] = a, x[1] = b, x[2] = c; }
    explicit V(const double *p) { x[0] = p[0], x[1] = p[1], x[2] = p[2]; }
    ld &operator[](int k) { return x[k]; }
    ld operator[](int k) const { return x[k]; }
};
inline V operator+(const V &a, const V &b) { return V(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline V operator-(const V &a, const V &b) { return V(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline V operator*(ld s, const V &a) { return V(s * a[0], s * a[1], s * a[2]); }
inline ld vdot(const V &a, const V &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline ld nrm(const V &a) { return sqrtl(vdot(a, a)); }
inline V cross(const V &a, const V &b) {
    return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
inline ld pointSeg(const V &p, const V &a, const V &b) {
    const V d = b - a, w = p - a;
    const ld dd = vdot(d, d);
    ld t = dd > 0 ? vdot(w, d) / dd : 0;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    return nrm(p - (a + t * d));
}
inline ld segSeg(const V &p0, const V &p1, const V &q0, const V &q1) {
    ld best = std::min(std::min(pointSeg(p0, q0, q1), pointSeg(p1, q0, q1)),
                       std::min(pointSeg(q0, p0, p1), pointSeg(q1, p0, p1)));
    const V u = p1 - p0, v = q1 - q0, w = p0 - q0;
    const ld a = vdot(u, u), b = vdot(u, v), c = vdot(v, v), d = vdot(u, w), e = vdot(v, w);
    const ld det = a * c - b * b;
    if (det > 0) {
        const ld s = (b * e - c * d) / det, t = (a * e - b * d) / det;
        if (s > 0 && s < 1 && t > 0 && t < 1)
            best = std::min(best, nrm((p0 + s * u) - (q0 + t * v)));
    }
    return best;
}
// axis of a particle: the body z axis rotated by the quaternion (x,y,z,w)
inline V axis(const double q[4]) {
    ld x = q[0], y = q[1], z = q[2], w = q[3];
    const ld n = sqrtl(x * x + y * y + z * z + w * w);
    x /= n, y /= n, z /= n, w /= n;
    return V(2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y));
}

// ---------------------------------------------------------------- worlds
struct PartIn {
    int gid = 0, group = -1;
    double r = 0, m[3] = {0, 0, 0}, p[3] = {0, 0, 0};
    bool imm = false;
};
struct Bnd { // the oracle's own idea of a boundary
    int kind = 0; // 0 sphere shell, 1 wall, 2 tube
    double c[3] = {0, 0, 0}, n[3] = {0, 0, 1}, R = 1;
    bool inside = true;
    std::shared_ptr<Boundary> make() const {
        double cc[3] = {c[0], c[1], c[2]}, nn[3] = {n[0], n[1], n[2]};
        if (kind == 0)
            return std::make_shared<SphereShell>(cc, R, inside);
        if (kind == 1)
            return std::make_shared<Wall>(cc, nn);
        return std::make_shared<Tube>(cc, nn, R, inside);
    }
    // signed distance (positive on the allowed side) and its gradient (zero where undefined)
    ld sd(const V &q, V &g) const {
        const V w = q - V(c);
        V nn(n);
        nn = (1 / nrm(nn)) * nn;
        if (kind == 1) {
            g = nn;
            return vdot(w, nn);
        }
        const V e = kind == 0 ? w : w - vdot(w, nn) * nn;
        const ld d = nrm(e);
        const ld s = inside ? 1 : -1;
        g = d > 0 ? (-s / d) * e : V();
        return s * ((ld)R - d);
    }
    std::string str() const {
        return vf::fmt("%s c=(%g,%g,%g) n=(%g,%g,%g) R=%g %s", kind == 0 ? "sphere" : kind == 1 ? "wall" : "tube", c[0], c[1],
                       c[2], n[0], n[1], n[2], R, inside ? "inside" : "outside");
    }
};
struct World {
    SylinderConfig cfg;
    std::vector<PartIn> parts;
    std::vector<std::pair<int, int>> links;
    std::vector<Bnd> bnds;
    std::string str() const {
        return vf::fmt("%zu particles %zu links box (%g,%g,%g)-(%g,%g,%g) pbc %d%d%d colBuf %g colRatio D %g L %g",
                       parts.size(), links.size(), cfg.simBoxLow[0], cfg.simBoxLow[1], cfg.simBoxLow[2], cfg.simBoxHigh[0],
                       cfg.simBoxHigh[1], cfg.simBoxHigh[2], cfg.simBoxPBC[0], cfg.simBoxPBC[1], cfg.simBoxPBC[2],
                       cfg.sylinderColBuf, cfg.sylinderDiameterColRatio, cfg.sylinderLengthColRatio);
    }
};
inline int rank() {
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    return r;
}
inline int size() {
    int r;
    MPI_Comm_size(MPI_COMM_WORLD, &r);
    return r;
}

inline SylinderConfig baseConfig() {
    SylinderConfig c;
    c.rngSeed = 1;
    c.logLevel = 6;
    c.timerLevel = 6;
    for (int k = 0; k < 3; k++) {
        c.simBoxLow[k] = c.initBoxLow[k] = 0;
        c.simBoxHigh[k] = c.initBoxHigh[k] = 10;
        c.simBoxPBC[k] = false;
        c.initOrient[k] = 2;
    }
    c.monolayer = false;
    c.initCircularX = false;
    c.initPreSteps = 0;
    c.viscosity = 1;
    c.KBT = 0;
    c.linkKappa = 100;
    c.linkGap = 0;
    c.sylinderFixed = false;
    c.sylinderNumber = 0;
    c.sylinderLength = 1;
    c.sylinderLengthSigma = 0;
    c.sylinderDiameter = 0.5;
    c.sylinderDiameterColRatio = 1;
    c.sylinderLengthColRatio = 1;
    c.sylinderColBuf = 0.3;
    c.dt = 0.01;
    c.timeTotal = 1;
    c.timeSnap = 1e5; // no snapshot but the one of step 0
    c.conResTol = 1e-6;
    c.conMaxIte = 2000;
    c.conSolverChoice = 0;
    return c;
}

// the documented position file format; rank 0 writes, all wait.  junk adds lines the format says are ignored.
inline void writePos(const World &w, const std::string &name, Rng *junk = nullptr) {
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank() == 0) {
        FILE *f = fopen(name.c_str(), "w");
        fprintf(f, "%zu\n0.0\n", w.parts.size());
        size_t nl = 0;
        for (auto &p : w.parts) {
            fprintf(f, "%c %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g", p.imm ? 'S' : 'C', p.gid, p.r, p.m[0], p.m[1], p.m[2],
                    p.p[0], p.p[1], p.p[2]);
            if (p.group != -1)
                fprintf(f, " %d", p.group);
            fprintf(f, "\n");
            if (junk && junk->p(0.2))
                fprintf(f, "# comment\n");
            if (junk && nl < w.links.size() && junk->p(0.5)) { // links between particles
                fprintf(f, "L %d %d\n", w.links[nl].first, w.links[nl].second);
                nl++;
            }
        }
        for (; nl < w.links.size(); nl++)
            fprintf(f, "L %d %d\n", w.links[nl].first, w.links[nl].second);
        fclose(f);
    }
    MPI_Barrier(MPI_COMM_WORLD);
}

// a particle from centre, axis, length
inline PartIn part(int gid, double r, double len, const double c[3], const double d[3], bool imm = false, int group = -1) {
    PartIn p;
    p.gid = gid;
    p.r = r;
    p.imm = imm;
    p.group = group;
    for (int k = 0; k < 3; k++) {
        p.m[k] = c[k] - 0.5 * len * d[k];
        p.p[k] = c[k] + 0.5 * len * d[k];
    }
    return p;
}

struct GenOpt {
    int nmin = 1, nmax = 60;
    double immovable = 0.1;
    bool allowSmallBox = true; // periodic boxes smaller than the interaction range
    double density = 1;        // about this many neighbours per particle
    bool spread = true;        // polydisperse
    bool ratios = true;
    bool outside = true; // particles outside the box
};

// random world, the same on every rank
inline World makeWorld(Rng &r, const GenOpt &o) {
    World w;
    w.cfg = baseConfig();
    SylinderConfig &c = w.cfg;
    const int n = r.i(o.nmin, o.nmax);
    const double unit = r.p(0.7) ? 1.0 : r.logu(1e-2, 1e2); // length scale
    const int shape = r.i(5);                               // rods, spheres, short, mixed, mixed
    const double spread = !o.spread ? 1.0 : r.p(0.5) ? 1.0 : r.p(0.8) ? 3.0 : 20.0;
    const double aspect = r.pick(std::vector<double>{1.2, 3, 10, 30});
    std::vector<double> R(n), L(n);
    double ext = 0, mean = 0;
    for (int i = 0; i < n; i++) {
        R[i] = 0.25 * unit * (spread > 1 ? r.logu(1 / spread, 1) : 1.0);
        const int s = shape < 3 ? shape : r.i(3);
        L[i] = s == 0 ? 2 * R[i] * r.u(1.01, aspect + 0.02) : s == 1 ? 0.0 : 2 * R[i] * r.u(0, 0.99);
        if (o.spread && s == 0 && spread == 1.0 && r.p(0.5))
            L[i] = 2 * R[i] * aspect;
        ext = std::max(ext, L[i] + 2 * R[i]);
        mean += (L[i] + 2 * R[i]) / n;
    }
    if (o.ratios) {
        c.sylinderDiameterColRatio = r.pick(std::vector<double>{1, 1, 0.5, 1.1, 1.5, 2.5});
        c.sylinderLengthColRatio = r.pick(std::vector<double>{1, 1, 0.8, 1.2});
    }
    c.sylinderColBuf = r.pick(std::vector<double>{0.3, 0.3, 0.0, 0.05, 1.0});
    const double range = ext * std::max(1.0, std::max(c.sylinderDiameterColRatio, c.sylinderLengthColRatio)) * (1 + c.sylinderColBuf);
    // box edge for the wanted density
    const double edge = mean * (1 + c.sylinderColBuf) * std::cbrt(n / o.density);
    for (int k = 0; k < 3; k++) {
        c.simBoxPBC[k] = r.p(0.5);
        double E = edge * r.u(0.6, 1.6);
        if (c.simBoxPBC[k]) {
            if (!o.allowSmallBox || r.p(0.8))
                E = std::max(E, 2.05 * range);
            else
                E = std::max(E, 0.8 * range);
        }
        c.simBoxLow[k] = r.pick(std::vector<double>{0.0, -E / 2, -E, 7.3 * E});
        if (r.p(0.3))
            c.simBoxLow[k] += unit * r.u(-1, 1);
        c.simBoxHigh[k] = c.simBoxLow[k] + E;
        c.initBoxLow[k] = c.simBoxLow[k];
        c.initBoxHigh[k] = c.simBoxHigh[k];
    }
    // ids: dense, sparse, negative is not valid
    std::vector<int> gid(n);
    const int gk = r.i(3);
    int g = gk == 2 ? r.i(1000) : 0;
    for (int i = 0; i < n; i++) {
        gid[i] = g;
        g += gk == 0 ? 1 : 1 + r.i(gk == 1 ? 5 : 100000);
    }
    if (r.p(0.7))
        r.shuffle(gid);
    const int place = r.i(5); // uniform, uniform, clustered, lattice, nematic
    double nem[3];
    r.dir(nem);
    double ctr[3][3];
    for (auto &x : ctr)
        for (int k = 0; k < 3; k++)
            x[k] = r.u(c.simBoxLow[k], c.simBoxHigh[k]);
    for (int i = 0; i < n; i++) {
        double x[3], d[3];
        r.dir(d);
        const int cl = r.i(3);
        for (int k = 0; k < 3; k++) {
            const double E = c.simBoxHigh[k] - c.simBoxLow[k];
            if (place == 2)
                x[k] = ctr[cl][k] + 0.1 * E * r.n();
            else if (place == 3)
                x[k] = c.simBoxLow[k] + E * 0.25 * r.i(4) + 0.01 * E * r.u(-1, 1);
            else
                x[k] = r.u(c.simBoxLow[k], c.simBoxHigh[k]);
            if (o.outside && r.p(0.03))
                x[k] += E * r.i(-2, 2);
            if (!o.outside && !c.simBoxPBC[k])
                x[k] = std::min(std::max(x[k], c.simBoxLow[k]), c.simBoxHigh[k]);
        }
        if (place == 4 || r.p(0.1)) { // (nearly) parallel
            const double e = r.pick(std::vector<double>{0.0, 1e-12, 1e-6, 0.1});
            double l = 0;
            for (int k = 0; k < 3; k++) {
                d[k] = nem[k] + e * d[k];
                l += d[k] * d[k];
            }
            for (int k = 0; k < 3; k++)
                d[k] /= std::sqrt(l);
        } else if (r.p(0.1)) { // along an axis
            const int ax = r.i(3);
            for (int k = 0; k < 3; k++)
                d[k] = k == ax ? (r.p(0.5) ? 1 : -1) : 0;
        }
        w.parts.push_back(part(gid[i], R[i], L[i], x, d, r.p(o.immovable), r.p(0.3) ? r.i(5) : -1));
    }
    return w;
}

// ---------------------------------------------------------------- distributed state
template <class T>
std::vector<T> gather(const std::vector<T> &loc, std::vector<int> *from = nullptr) {
    int bytes = (int)(loc.size() * sizeof(T));
    std::vector<int> cnt(size()), dis(size() + 1, 0);
    MPI_Allgather(&bytes, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int k = 0; k < size(); k++)
        dis[k + 1] = dis[k] + cnt[k];
    std::vector<T> all(dis.back() / sizeof(T));
    MPI_Allgatherv(loc.data(), bytes, MPI_BYTE, all.data(), cnt.data(), dis.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (from) {
        from->clear();
        for (int k = 0; k < size(); k++)
            from->insert(from->end(), cnt[k] / sizeof(T), k);
    }
    return all;
}
// all particles of all ranks, in rank and local order; from: owning rank
inline std::vector<Sylinder> particles(SylinderSystem &s, std::vector<int> *from = nullptr) {
    auto &c = s.getContainer();
    const int n = c.getNumberOfParticleLocal();
    std::vector<Sylinder> loc(n);
    for (int i = 0; i < n; i++)
        loc[i] = c[i];
    return gather(loc, from);
}
inline std::vector<ConstraintBlock> blocks(SylinderSystem &s, std::vector<int> *from = nullptr) {
    std::vector<ConstraintBlock> loc;
    for (auto &q : s.getConstraintPoolNonConst())
        for (auto &b : q)
            loc.push_back(b);
    return gather(loc, from);
}
inline std::unique_ptr<SylinderSystem> start(const World &w, const std::string &pos, int argc = 0, char **argv = nullptr) {
    std::unique_ptr<SylinderSystem> s(new SylinderSystem());
    SylinderConfig c = w.cfg;
    c.boundaryPtr.clear();
    for (auto &b : w.bnds)
        c.boundaryPtr.push_back(b.make());
    s->initialize(c, pos, argc, argv);
    return s;
}

inline void setup(int *argc, char ***argv) {
    MPI_Init(argc, argv);
    vf::init(*argc, *argv, rank(), size());
    Logger::setup_mpi_spdlog();
    Logger::set_level(spdlog::level::off);
    PS::Initialize(*argc, *argv);
    if (!freopen("/dev/null", "w", stdout)) {
    }
}
inline int done() {
    vf::finish();
    MPI_Finalize();
    return 0;
}

// collision radius and core segment of a particle as the collision system sees it
struct Core {
    V a, b, c, d; // ends, centre, axis
    ld r, len;    // radius of the capsule, core length (0: sphere)
    bool sph;
};
inline Core core(const Sylinder &s) {
    Core k;
    k.c = V(s.pos);
    k.d = axis(s.orientation);
    k.sph = s.lengthCollision < 2 * s.radiusCollision;
    k.len = k.sph ? 0 : (ld)s.lengthCollision;
    k.r = k.sph ? (ld)s.lengthCollision / 2 + s.radiusCollision : (ld)s.radiusCollision;
    k.a = k.c - (k.len / 2) * k.d;
    k.b = k.c + (k.len / 2) * k.d;
    return k;
}
inline std::string show(const Sylinder &s) {
    return vf::fmt("gid %d R %.9g Rcol %.9g L %.9g Lcol %.9g pos (%.12g,%.12g,%.12g) quat (%.9g,%.9g,%.9g,%.9g)", s.gid, s.radius,
                   s.radiusCollision, s.length, s.lengthCollision, s.pos[0], s.pos[1], s.pos[2], s.orientation[0],
                   s.orientation[1], s.orientation[2], s.orientation[3]);
}
} // namespace sysv
#endif
