// Monitors for what the particle engine is built from: particle files (P39) and its own containers, arithmetic, keys,
// sorting and reductions (P40).
#include "vf.hpp"

#include "FDPS/particle_simulator.hpp"

#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <mpi.h>
#include <omp.h>
#include <unistd.h>

using vf::Rng;
#define EXPECT(cond, key, ...) ((cond) ? true : (vf::violation(key, __VA_ARGS__), false))
static int rk, np;

template <class T>
static std::vector<T> gatherAll(const std::vector<T> &v) {
    int n = (int)(v.size() * sizeof(T));
    std::vector<int> c(np), d(np + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < np; i++)
        d[i + 1] = d[i] + c[i];
    std::vector<T> all(d[np] / sizeof(T));
    MPI_Allgatherv(v.data(), n, MPI_BYTE, all.data(), c.data(), d.data(), MPI_BYTE, MPI_COMM_WORLD);
    return all;
}

// ------------------------------------------------------------------ P39
struct Fp {
    int id = -7;
    PS::F64vec pos;
    double mass = -1;
    PS::F64vec getPos() const { return pos; }
    void setPos(const PS::F64vec &p) { pos = p; }
    bool operator==(const Fp &o) const { return id == o.id && pos == o.pos && mass == o.mass; }
    void writeAscii(FILE *f) const { fprintf(f, "%d %.17g %.17g %.17g %.17g\n", id, pos.x, pos.y, pos.z, mass); }
    void readAscii(FILE *f) {
        if (fscanf(f, "%d %lf %lf %lf %lf\n", &id, &pos.x, &pos.y, &pos.z, &mass) != 5)
            id = -999;
    }
    void writeBinary(FILE *f) const { put(f, id), put(f, pos.x), put(f, pos.y), put(f, pos.z), put(f, mass); }
    void readBinary(FILE *f) {
        if (!(get(f, id) && get(f, pos.x) && get(f, pos.y) && get(f, pos.z) && get(f, mass)))
            id = -999;
    }
    // a second format, chosen by the caller
    void writeShort(FILE *f) const { fprintf(f, "%.17g,%d\n", mass, id); }
    void readShort(FILE *f) {
        if (fscanf(f, "%lf,%d\n", &mass, &id) != 2)
            id = -999;
        pos = PS::F64vec(0.0);
    }
    void writeShortBin(FILE *f) const { put(f, id), put(f, mass); }
    void readShortBin(FILE *f) {
        if (!(get(f, id) && get(f, mass)))
            id = -999;
        pos = PS::F64vec(0.0);
    }
    template <class T>
    static void put(FILE *f, const T &v) { fwrite(&v, sizeof v, 1, f); }
    template <class T>
    static bool get(FILE *f, T &v) { return fread(&v, sizeof v, 1, f) == 1; }
};
struct Head {
    double time = -1;
    int n = -1;
    bool tells = true; // whether reading it gives the number of particles
    void writeAscii(FILE *f) const { fprintf(f, "%.17g %d\n", time, n); }
    int readAscii(FILE *f) { return fscanf(f, "%lf %d", &time, &n) == 2 && tells ? n : -1; }
    void writeBinary(FILE *f) const { Fp::put(f, n), Fp::put(f, time); }
    int readBinary(FILE *f) { return Fp::get(f, n) && Fp::get(f, time) && tells ? n : -1; }
};
typedef PS::ParticleSystem<Fp> Sys;

static void files() {
    vf::forCases("files", [](uint64_t c, Rng &r) {
        const int shareKind = r.i(5), header = r.i(3); // no header, one that does not count, one that does
        const bool multi = r.p(0.4), binary = r.p(0.5), shortFmt = r.p(0.3), reused = r.p(0.3);
        const int total = r.p(0.1) ? 0 : r.p(0.3) ? r.i(1, 5) : r.i(1, 200);
        const int idKind = r.i(3), off = r.i(40);
        // every rank knows all of it
        std::vector<std::vector<Fp>> all(np);
        for (int i = 0; i < total; i++) {
            Fp p;
            p.id = idKind == 0 ? i + off : idKind == 1 ? 10 + 256 * i : 0x0a0a0a0a + (i << 4); // newlines among the bytes
            p.pos = PS::F64vec(r.u(-9, 9), r.p(0.2) ? 0 : r.logu(1e-12, 1e12), -r.u());
            p.mass = r.p(0.3) ? r.i(100) : r.logu(1e-8, 1e8);
            if (shortFmt)
                p.pos = PS::F64vec(0.0);
            const int to = shareKind == 0 ? r.i(np) : shareKind == 1 ? 0 : shareKind == 2 ? np - 1 : shareKind == 3 ? i % np : i * np / total;
            all[to].push_back(p);
        }
        const std::string inf = vf::fmt("%d particles (share kind %d) on %d ranks, %s file(s), %s, header %d, format %d", total, shareKind, np, multi ? "one per rank" : "one", binary ? "binary" : "text", header, shortFmt);
        vf::beginCase(c, inf);
        Sys a, b;
        a.initialize(r.p(0.5) ? 1 : 300);
        b.initialize(r.i(1, 300));
        if (reused) {
            b.setNumberOfParticleLocal(r.i(300));
            for (int i = 0; i < b.getNumberOfParticleLocal(); i++)
                b[i].id = -3;
        }
        const std::vector<Fp> &mine = all[rk];
        if (r.p(0.5)) {
            a.setNumberOfParticleLocal((int)mine.size());
            for (size_t i = 0; i < mine.size(); i++)
                a[i] = mine[i];
        } else {
            a.setNumberOfParticleLocal(0);
            for (const Fp &p : mine)
                a.addOneParticle(p);
        }
        const std::string base = vf::fmt("pf%ld", (long)(c % 7));
        const char *fmt = multi ? "%s_%03d_%04d.dat" : nullptr;
        Head h, g;
        h.time = r.u(-5, 5);
        h.n = multi ? (int)mine.size() : total;
        g.tells = header == 2;
        const char *f = base.c_str();
        auto wf = binary ? &Fp::writeShortBin : &Fp::writeShort;
        auto rf = binary ? &Fp::readShortBin : &Fp::readShort;
#define IO(sys, verb, X, hd, fn)                                                                            \
    do {                                                                                                    \
        if (header && shortFmt)                                                                             \
            multi ? sys.verb##X(f, fmt, hd, fn) : sys.verb##X(f, hd, fn);                                   \
        else if (header)                                                                                    \
            multi ? sys.verb##X(f, fmt, hd) : sys.verb##X(f, hd);                                           \
        else if (shortFmt)                                                                                  \
            multi ? sys.verb##X(f, fmt, fn) : sys.verb##X(f, fn);                                           \
        else                                                                                                \
            multi ? sys.verb##X(f, fmt) : sys.verb##X(f);                                                   \
    } while (0)
        if (binary)
            IO(a, writeParticle, Binary, h, wf);
        else
            IO(a, writeParticle, Ascii, h, wf);
        MPI_Barrier(MPI_COMM_WORLD);
        bool same = a.getNumberOfParticleLocal() == (int)mine.size();
        for (size_t i = 0; same && i < mine.size(); i++)
            same = a[i] == mine[i];
        EXPECT(same, "write-changes", "%s: writing changed the particles of rank %d", inf.c_str(), rk);
        const bool readable = true;
        if (readable) {
            if (binary)
                IO(b, readParticle, Binary, g, rf);
            else
                IO(b, readParticle, Ascii, g, rf);
        }
        std::vector<Fp> got;
        for (int i = 0; i < b.getNumberOfParticleLocal(); i++)
            got.push_back(b[i]);
        EXPECT(b.getNumberOfParticleGlobal() == total, "read-count", "%s: %lld particles read", inf.c_str(), (long long)b.getNumberOfParticleGlobal());
        if (header && (multi || rk == 0))
            EXPECT(g.time == h.time && g.n == h.n, "read-header", "%s: header (%.17g,%d) came back as (%.17g,%d) on rank %d", inf.c_str(), h.time, h.n, g.time, g.n, rk);
        auto compare = [&](const std::vector<Fp> &x, const std::vector<Fp> &want, const char *key) {
            if (!EXPECT(x.size() == want.size(), key, "%s: %zu particles instead of %zu on rank %d", inf.c_str(), x.size(), want.size(), rk))
                return;
            for (size_t i = 0; i < x.size(); i++)
                if (!(x[i] == want[i])) {
                    vf::violation(key, "%s: particle %zu of rank %d is %d (%.17g,%.17g,%.17g) %.17g instead of %d (%.17g,%.17g,%.17g) %.17g", inf.c_str(), i, rk, x[i].id, x[i].pos.x, x[i].pos.y,
                                  x[i].pos.z, x[i].mass, want[i].id, want[i].pos.x, want[i].pos.y, want[i].pos.z, want[i].mass);
                    break;
                }
        };
        if (multi)
            compare(got, mine, "read-own");
        else {
            std::vector<Fp> want;
            for (auto &v : all)
                want.insert(want.end(), v.begin(), v.end());
            compare(gatherAll(got), want, "read-all"); // in the order of the file, whatever share each rank got
            // nobody is left with more than the others but for the remainder
            const int mineN = (int)got.size();
            int mx = 0, mn = 0;
            MPI_Allreduce(&mineN, &mx, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
            MPI_Allreduce(&mineN, &mn, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
            EXPECT(mx - mn < std::max(np, 1) + 1, "read-share", "%s: shares from %d to %d", inf.c_str(), mn, mx);
        }
        // taking some out leaves exactly the others
        if (!got.empty() && r.p(1.0)) {
            Rng q(c * 31 + rk);
            std::vector<int> idx;
            const int k = q.i((int)got.size() + 1);
            for (int i = 0; i < k; i++)
                idx.push_back(q.i((int)got.size()));
            std::vector<char> gone(got.size(), 0);
            for (int i : idx)
                gone[i] = 1;
            b.removeParticle(idx.data(), (int)idx.size());
            std::vector<std::array<double, 5>> x, y;
            auto key = [](const Fp &p) { return std::array<double, 5>{{(double)p.id, p.pos.x, p.pos.y, p.pos.z, p.mass}}; };
            for (int i = 0; i < b.getNumberOfParticleLocal(); i++)
                x.push_back(key(b[i]));
            for (size_t i = 0; i < got.size(); i++)
                if (!gone[i])
                    y.push_back(key(got[i]));
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            EXPECT(x == y, "remove", "%s: %zu of %zu particles left on rank %d after taking out %d, %zu expected", inf.c_str(), x.size(), got.size(), rk, k, y.size());
        }
        MPI_Barrier(MPI_COMM_WORLD);
        if (multi)
            unlink(vf::fmt(fmt, f, np, rk).c_str());
        else if (rk == 0)
            unlink(f);
        MPI_Barrier(MPI_COMM_WORLD);
        if (rk == 0) {
            vf::evals();
            vf::distinct(vf::mix(c, np));
            vf::count("particles_through_files", total);
            vf::count(binary ? "binary" : "text");
            if (vf::wantSample())
                vf::sample(inf);
        }
    });
}

// ------------------------------------------------------------------ P40
template <class T>
static void vectors(Rng &r) {
    auto e = [&]() { return (T)r.i(-12, 12); }; // small integers: everything below is exact
    typedef PS::Vector3<T> V;
    typedef PS::Vector2<T> W;
    T a[3], b[3];
    for (int k = 0; k < 3; k++) {
        a[k] = e();
        b[k] = e();
    }
    const T s = e(), q = (T)(1 << r.i(4));
    const V A(a[0], a[1], a[2]), B(b[0], b[1], b[2]);
    const W A2(a[0], a[1]), B2(b[0], b[1]);
    bool ok = true;
    V c = A;
    c += B;
    ok &= c == A + B;
    c = A;
    c -= B;
    ok &= c == A - B;
    c = A;
    c *= s;
    ok &= c == A * s && c == s * A;
    c = A;
    c /= q;
    ok &= c == A / q;
    for (int k = 0; k < 3; k++) {
        const int i = (k + 1) % 3, j = (k + 2) % 3;
        ok &= (A + B)[k] == a[k] + b[k] && (A - B)[k] == a[k] - b[k] && (-A)[k] == -a[k] && (+A)[k] == a[k] && (A * s)[k] == a[k] * s && (A / q)[k] == a[k] / q && (A ^ B)[k] == a[i] * b[j] - a[j] * b[i] && V(s)[k] == s;
    }
    T d2 = 0, dot = 0;
    for (int k = 0; k < 3; k++) {
        d2 += (a[k] - b[k]) * (a[k] - b[k]);
        dot += a[k] * b[k];
    }
    ok &= A * B == dot && A.getDistanceSQ(B) == d2 && A.getMax() == *std::max_element(a, a + 3) && A.getMin() == *std::min_element(a, a + 3);
    ok &= (A == B) == (d2 == 0) && (A != B) == (d2 != 0);
    EXPECT(ok, "vector3", "Vector3 of (%g,%g,%g) and (%g,%g,%g), scalar %g, divisor %g", (double)a[0], (double)a[1], (double)a[2], (double)b[0], (double)b[1], (double)b[2], (double)s, (double)q);
    W c2 = A2;
    c2 += B2;
    ok = c2.x == a[0] + b[0] && c2.y == a[1] + b[1];
    c2 -= B2;
    ok &= c2.x == a[0] && c2.y == a[1];
    c2 *= s;
    ok &= c2.x == a[0] * s && c2.y == a[1] * s;
    ok &= A2 * B2 == a[0] * b[0] + a[1] * b[1] && (A2 ^ B2) == a[0] * b[1] - a[1] * b[0] && (A2 / q).y == a[1] / q && (-A2).x == -a[0] && A2[0] == a[0] && A2[1] == a[1];
    ok &= A2.getMax() == std::max(a[0], a[1]) && A2.getMin() == std::min(a[0], a[1]);
    EXPECT(ok, "vector2", "Vector2 of (%g,%g) and (%g,%g), scalar %g, divisor %g", (double)a[0], (double)a[1], (double)b[0], (double)b[1], (double)s, (double)q);
    // matrices
    T m[6], n[6];
    for (int k = 0; k < 6; k++) {
        m[k] = e();
        n[k] = e();
    }
    typedef PS::MatrixSym3<T> S3;
    typedef PS::MatrixSym2<T> S2;
    typedef PS::Matrix2<T> M2;
    const S3 M(m[0], m[1], m[2], m[3], m[4], m[5]), N(n[0], n[1], n[2], n[3], n[4], n[5]);
    auto arr = [](const S3 &x) { return std::array<T, 6>{{x.xx, x.yy, x.zz, x.xy, x.xz, x.yz}}; };
    std::array<T, 6> sum, dif, mm;
    for (int k = 0; k < 6; k++) {
        sum[k] = m[k] + n[k];
        dif[k] = m[k] - n[k];
        mm[k] = m[k];
    }
    S3 x = M, y = M, z, z0;
    x += N;
    y -= N;
    z = s;
    ok = arr(M + N) == sum && arr(M - N) == dif && arr(x) == sum && arr(y) == dif && arr(M) == mm && M.getTrace() == m[0] + m[1] + m[2] && z.yz == s && z.xx == s && z0.xy == 0 && z0.zz == 0;
    EXPECT(ok, "matrix-sym3", "MatrixSym3 of (%g,%g,%g,%g,%g,%g) and (%g,%g,%g,%g,%g,%g)", (double)m[0], (double)m[1], (double)m[2], (double)m[3], (double)m[4], (double)m[5], (double)n[0], (double)n[1], (double)n[2],
           (double)n[3], (double)n[4], (double)n[5]);
    const S2 P(m[0], m[1], m[2]), Q(n[0], n[1], n[2]), O(A2, A2);
    S2 u = P, v = P;
    u += Q;
    v -= Q;
    ok = u.xx == m[0] + n[0] && u.yy == m[1] + n[1] && u.xy == m[2] + n[2] && v.xx == m[0] - n[0] && v.yy == m[1] - n[1] && v.xy == m[2] - n[2] && P.getTrace() == m[0] + m[1] && (P * s).xy == m[2] * s && (s * P).yy == m[1] * s;
    ok &= O.xx == a[0] * a[0] && O.yy == a[1] * a[1] && O.xy == a[0] * a[1];
    EXPECT(ok, "matrix-sym2", "MatrixSym2 of (%g,%g,%g) and (%g,%g,%g)", (double)m[0], (double)m[1], (double)m[2], (double)n[0], (double)n[1], (double)n[2]);
    const M2 F(m[0], m[1], m[2], m[3]), G(n[0], n[1], n[2], n[3]), OP(A2, B2); // xx yy xy yx
    const M2 H = F * G;
    const W FV = F * A2;
    ok = H.xx == m[0] * n[0] + m[2] * n[3] && H.xy == m[0] * n[2] + m[2] * n[1] && H.yx == m[3] * n[0] + m[1] * n[3] && H.yy == m[3] * n[2] + m[1] * n[1];
    ok &= FV.x == m[0] * a[0] + m[2] * a[1] && FV.y == m[3] * a[0] + m[1] * a[1];
    ok &= F.getTrace() == m[0] + m[1] && F.getDeterminant() == m[0] * m[1] - m[2] * m[3];
    ok &= (F + G).yx == m[3] + n[3] && (F - G).xy == m[2] - n[2] && (F * s).yy == m[1] * s && (s * F).xx == m[0] * s && (-F).yx == -m[3] && (F / q).xy == m[2] / q;
    ok &= OP.xx == a[0] * b[0] && OP.yy == a[1] * b[1] && OP.xy == a[0] * b[1] && OP.yx == a[1] * b[0];
    EXPECT(ok, "matrix2", "Matrix2 xx,yy,xy,yx (%g,%g,%g,%g) and (%g,%g,%g,%g): product (%g,%g,%g,%g)", (double)m[0], (double)m[1], (double)m[2], (double)m[3], (double)n[0], (double)n[1], (double)n[2], (double)n[3],
           (double)H.xx, (double)H.yy, (double)H.xy, (double)H.yx);
    // boxes on a coarse lattice: touching faces, inclusion and separation all occur
    double lo[2][3], hi[2][3], p[3];
    for (int k = 0; k < 3; k++) {
        for (int i = 0; i < 2; i++) {
            lo[i][k] = r.i(-4, 4) * 0.5;
            hi[i][k] = lo[i][k] + r.i(1, 5) * 0.5;
        }
        p[k] = r.i(-9, 9) * 0.5;
    }
    const T size = (T)(r.i(4) * 0.5);
    typedef PS::Orthotope3<T> X;
    typedef PS::Orthotope2<T> Y;
    auto vec = [](const double *t) { return V((T)t[0], (T)t[1], (T)t[2]); };
    auto vec2 = [](const double *t) { return W((T)t[0], (T)t[1]); };
    const X bx[2] = {X(vec(lo[0]), vec(hi[0])), X(vec(lo[1]), vec(hi[1]))};
    const Y by[2] = {Y(vec2(lo[0]), vec2(hi[0])), Y(vec2(lo[1]), vec2(hi[1]))};
    const std::string inf = vf::fmt("box (%g,%g,%g)-(%g,%g,%g), box (%g,%g,%g)-(%g,%g,%g), point (%g,%g,%g), size %g", lo[0][0], lo[0][1], lo[0][2], hi[0][0], hi[0][1], hi[0][2], lo[1][0], lo[1][1], lo[1][2], hi[1][0], hi[1][1],
                                    hi[1][2], p[0], p[1], p[2], (double)size);
    for (int D = 2; D <= 3; D++) {
        double dp = 0, db = 0;
        bool in = true, over = true, overB = true;
        double ml[3], mh[3], pl[3], ph[3], sl[3], sh[3];
        for (int k = 0; k < D; k++) {
            const double t = std::max({lo[0][k] - p[k], p[k] - hi[0][k], 0.0}), w = std::max({lo[0][k] - hi[1][k], lo[1][k] - hi[0][k], 0.0});
            dp += t * t;
            db += w * w;
            in &= lo[0][k] <= p[k] && p[k] < hi[0][k];
            over &= t == 0;
            overB &= w == 0;
            ml[k] = std::min(lo[0][k], lo[1][k]);
            mh[k] = std::max(hi[0][k], hi[1][k]);
            pl[k] = std::min(lo[0][k], p[k]);
            ph[k] = std::max(hi[0][k], p[k]);
            sl[k] = std::min(lo[0][k], p[k] - size);
            sh[k] = std::max(hi[0][k], p[k] + size);
        }
        bool k1, k2, k3, k4, k5, k6;
        if (D == 3) {
            const X &b0 = bx[0];
            k1 = b0.getDistanceMinSQ(vec(p)) == dp && b0.getDistanceMinSq(vec(p)) == dp && b0.getDistanceMinSQ(bx[1]) == db && bx[1].getDistanceMinSq(b0) == db;
            k2 = (b0.contained(vec(p)) != 0) == in && (b0.notContained(vec(p)) != 0) == !in;
            k3 = (b0.overlapped(vec(p)) != 0) == over && (b0.notOverlapped(vec(p)) != 0) == !over && (b0.overlapped(bx[1]) != 0) == overB && (bx[1].notOverlapped(b0) != 0) == !overB;
            X u = b0, v = b0, w = b0, e;
            u.merge(bx[1]);
            v.merge(vec(p));
            w.merge(vec(p), size);
            e.init();
            e.merge(b0);
            k4 = u.low_ == vec(ml) && u.high_ == vec(mh) && v.low_ == vec(pl) && v.high_ == vec(ph) && w.low_ == vec(sl) && w.high_ == vec(sh) && e.low_ == b0.low_ && e.high_ == b0.high_;
            const X t = b0.shift(vec(p));
            k5 = t.low_ == b0.low_ + vec(p) && t.high_ == b0.high_ + vec(p);
            k6 = b0.getCenter() * (T)2 == b0.low_ + b0.high_ && b0.getHalfLength() * (T)2 == b0.high_ - b0.low_ && b0.getFullLength() == b0.high_ - b0.low_;
        } else {
            auto eq = [](const W &g, const W &h) { return g.x == h.x && g.y == h.y; };
            const Y &b0 = by[0];
            k1 = b0.getDistanceMinSQ(vec2(p)) == dp && b0.getDistanceMinSQ(by[1]) == db && by[1].getDistanceMinSQ(b0) == db;
            k2 = (b0.contained(vec2(p)) != 0) == in && (b0.notContained(vec2(p)) != 0) == !in;
            k3 = (b0.overlapped(vec2(p)) != 0) == over && (b0.notOverlapped(vec2(p)) != 0) == !over && (b0.overlapped(by[1]) != 0) == overB && (by[1].notOverlapped(b0) != 0) == !overB;
            Y u = b0, v = b0, w = b0;
            u.merge(by[1]);
            v.merge(vec2(p));
            w.merge(vec2(p), size);
            k4 = eq(u.low_, vec2(ml)) && eq(u.high_, vec2(mh)) && eq(v.low_, vec2(pl)) && eq(v.high_, vec2(ph)) && eq(w.low_, vec2(sl)) && eq(w.high_, vec2(sh));
            const Y t = b0.shift(vec2(p));
            k5 = eq(t.low_, b0.low_ + vec2(p)) && eq(t.high_, b0.high_ + vec2(p));
            k6 = eq(b0.getCenter() * (T)2, b0.low_ + b0.high_) && eq(b0.getHalfLength() * (T)2, b0.high_ - b0.low_) && eq(b0.getFullLength(), b0.high_ - b0.low_);
        }
        EXPECT(k1, "box-distance", "%d dimensions, %s", D, inf.c_str());
        EXPECT(k2, "box-contains", "%d dimensions, %s", D, inf.c_str());
        EXPECT(k3, "box-overlap", "%d dimensions, %s", D, inf.c_str());
        EXPECT(k4, "box-merge", "%d dimensions, %s", D, inf.c_str());
        EXPECT(k5, "box-shift", "%d dimensions, %s", D, inf.c_str());
        EXPECT(k6, "box-sizes", "%d dimensions, %s", D, inf.c_str());
    }
}

static void morton(Rng &r) {
    const double hl = std::ldexp(1.0, r.i(-6, 6)), cell = 2 * hl / (1 << 21);
    double cen[3];
    for (int k = 0; k < 3; k++)
        cen[k] = hl * r.i(-4, 4);
    PS::MortonKey::initialize(hl, PS::F64vec(cen[0], cen[1], cen[2]));
    for (int t = 0; t < 20; t++) {
        long n[3];
        double p[3];
        for (int k = 0; k < 3; k++) {
            n[k] = r.p(0.1) ? 0 : r.p(0.1) ? (1 << 21) - 1 : r.p(0.2) ? 1l << r.i(21) : r.i(1 << 21);
            p[k] = cen[k] - hl + n[k] * cell + (r.p(0.5) ? 0 : 0.5 * cell); // on a face of its smallest cell, or inside
        }
        const PS::U64 key = PS::MortonKey::getKey(PS::F64vec(p[0], p[1], p[2]));
        for (int lev = 1; lev <= 21; lev++) {
            const int want = (int)(((n[0] >> (21 - lev)) & 1) << 2 | ((n[1] >> (21 - lev)) & 1) << 1 | ((n[2] >> (21 - lev)) & 1));
            const int got = PS::MortonKey::getCellID(lev, key);
            if (!EXPECT(got == want, "morton", "point (%.17g,%.17g,%.17g) in the cube of half side %g around (%g,%g,%g): octant %d at level %d instead of %d", p[0], p[1], p[2], hl, cen[0], cen[1], cen[2], got, lev, want))
                return;
        }
        EXPECT(key >> 63 == 0, "morton-top", "key %llx", (unsigned long long)key);
    }
}

template <class K>
struct Item {
    K key = 0;
    int at = -1;
    K getKey() const { return key; }
};
template <class K, int BITS>
static void sorting(Rng &r) {
    const int n = r.p(0.1) ? r.i(3) : r.i(1, 3000), kind = r.i(4), sz = n;
    std::vector<Item<K>> v(sz + 1), w(sz + 1), o;
    for (int i = 0; i < n; i++) {
        v[i].at = i;
        v[i].key = kind == 0 ? (K)vf::mix(r.i(1 << 30), i) : kind == 1 ? (K)r.i(5) : kind == 2 ? (K)(~(K)0 - (K)r.i(300)) : (K)((K)1 << r.i((int)sizeof(K) * 8));
    }
    o.assign(v.begin(), v.begin() + n);
    v[n].at = w[n].at = -77; // behind the end
    PS::RadixSort<K, BITS> sorter;
    sorter.lsdSort(v.data(), w.data(), 0, n - 1);
    std::stable_sort(o.begin(), o.end(), [](const Item<K> &a, const Item<K> &b) { return a.key < b.key; });
    bool ok = v[n].at == -77 && w[n].at == -77;
    for (int i = 0; i < n; i++)
        ok &= v[i].key == o[i].key && v[i].at == o[i].at;
    EXPECT(ok, "radix-sort", "%d keys of %zu bytes (kind %d), %d bits at a time, %d threads", n, sizeof(K), kind, BITS, omp_get_max_threads());
}

// arrays of the two kinds against std::vector
static void arrays(Rng &r) {
    typedef PS::ReallocatableArray<long> A;
    const int count = r.i(1, 6);
    std::vector<std::unique_ptr<A>> a;
    std::vector<std::vector<long>> m(count);
    std::vector<char> alive(count, 0);
    std::string hist;
    for (int i = 0; i < count; i++) {
        a.emplace_back(new A());
        const int mode = r.i(2);
        a.back()->setAllocMode(mode);
        hist += vf::fmt("mode %d; ", mode);
    }
    long next = 1;
    for (int op = 0, ops = r.i(1, 60); op < ops; op++) {
        const int i = r.i(count);
        A &x = *a[i];
        std::vector<long> &y = m[i];
        const int k = r.i(7);
        if (k == 0 || !alive[i]) {
            const int n = r.p(0.2) ? r.i(2000) : r.i(120), old = (int)y.size();
            x.resizeNoInitialize(n);
            y.resize(n);
            for (int j = old; j < n; j++)
                x[j] = y[j] = next++;
            alive[i] = 1;
            hist += vf::fmt("%d.resize %d; ", i, n);
        } else if (k == 1) {
            for (int j = r.i(1, 200); j > 0; j--) {
                x.push_back(next);
                y.push_back(next++);
            }
            hist += vf::fmt("%d.push to %zu; ", i, y.size());
        } else if (k == 2) {
            const int n = r.i(400);
            x.reserveEmptyAreaAtLeast(n);
            for (int j = 0; j < n; j++) {
                x.pushBackNoCheck(next);
                y.push_back(next++);
            }
            hist += vf::fmt("%d.reserve and push %d; ", i, n);
        } else if (k == 3) {
            const int n = r.i((int)y.size() + 1);
            x.decreaseSize(n);
            y.resize(y.size() - n);
            hist += vf::fmt("%d.decrease %d; ", i, n);
        } else if (k == 4) {
            const int n = r.i(150);
            const int old = (int)y.size();
            x.increaseSize(n);
            y.resize(old + n);
            for (int j = old; j < old + n; j++)
                x[j] = y[j] = next++;
            hist += vf::fmt("%d.increase %d; ", i, n);
        } else if (k == 5) {
            x.clearSize();
            y.clear();
            hist += vf::fmt("%d.clear; ", i);
        } else {
            x.freeMem();
            y.clear();
            alive[i] = 0;
            hist += vf::fmt("%d.free; ", i);
        }
        for (int t = 0; t < count; t++) { // nobody else is touched
            bool ok = !alive[t] || a[t]->size() == (int)m[t].size();
            for (size_t j = 0; ok && alive[t] && j < m[t].size(); j++)
                ok = (*a[t])[(int)j] == m[t][j] && a[t]->getPointer((int)j) == a[t]->getPointer() + j;
            if (!EXPECT(ok && a[t]->size() <= a[t]->capacity() + (alive[t] ? 0 : 1), "array", "array %d is not what was stored after: %s", t, hist.c_str()))
                return;
        }
    }
    for (auto &x : a)
        x->freeMem();
}

static void reductions(Rng &r) { // the same stream on all ranks
    std::vector<double> f(np);
    std::vector<int> idx(np), iv(np);
    std::vector<long long> lv(np);
    std::vector<char> flag(np);
    for (int i = 0; i < np; i++) {
        f[i] = r.p(0.3) ? r.i(3) : r.u(-1e3, 1e3);
        idx[i] = r.i(1000);
        iv[i] = r.i(-1000, 1000);
        lv[i] = (long long)r.i(-1000, 1000) * 1000000000000ll;
        flag[i] = r.p(0.7);
    }
    int lo = 0, hi = 0;
    for (int i = 1; i < np; i++) {
        if (f[i] < f[lo] || (f[i] == f[lo] && idx[i] < idx[lo]))
            lo = i;
        if (f[i] > f[hi] || (f[i] == f[hi] && idx[i] < idx[hi]))
            hi = i;
    }
    double fo = 0;
    int io = 0;
    PS::Comm::getMinValue(f[rk], idx[rk], fo, io);
    EXPECT(fo == f[lo] && io == idx[lo], "reduce-minloc", "smallest of %d values: %.17g at %d instead of %.17g at %d", np, fo, io, f[lo], idx[lo]);
    PS::Comm::getMaxValue(f[rk], idx[rk], fo, io);
    EXPECT(fo == f[hi] && io == idx[hi], "reduce-maxloc", "largest of %d values: %.17g at %d instead of %.17g at %d", np, fo, io, f[hi], idx[hi]);
    EXPECT(PS::Comm::getMinValue(f[rk]) == f[lo] && PS::Comm::getMaxValue(f[rk]) == f[hi] && PS::Comm::getMinValue((float)f[rk]) == (float)f[lo], "reduce-extreme", "%d ranks", np);
    long long ls = 0;
    int is = 0;
    bool all = true, any = false;
    for (int i = 0; i < np; i++) {
        ls += lv[i];
        is += iv[i];
        all &= flag[i];
        any |= flag[i];
    }
    EXPECT(PS::Comm::getSum(lv[rk]) == ls && PS::Comm::getSum(iv[rk]) == is && PS::Comm::getMinValue(iv[rk]) == *std::min_element(iv.begin(), iv.end()) && PS::Comm::getMaxValue(lv[rk]) == *std::max_element(lv.begin(), lv.end()),
           "reduce-integers", "%d ranks", np);
    EXPECT(PS::Comm::synchronizeConditionalBranchAND(flag[rk]) == all && PS::Comm::synchronizeConditionalBranchOR(flag[rk]) == any, "reduce-branch", "%d ranks, all %d any %d", np, all, any);
    const int src = r.i(np), n = r.i(1, 20);
    struct Thing {
        double a;
        char c[11];
        bool operator==(const Thing &o) const { return a == o.a && std::equal(c, c + 11, o.c); }
    };
    auto thing = [&](int rank, int j) {
        Thing t;
        t.a = rank * 1000 + j;
        for (int k = 0; k < 11; k++)
            t.c[k] = (char)(rank * 7 + j * 3 + k);
        return t;
    };
    std::vector<Thing> b(n), g(n * np), aa(n * np);
    for (int j = 0; j < n; j++)
        b[j] = thing(rk, j);
    PS::Comm::allGather(b.data(), n, g.data());
    std::vector<Thing> to(n * np);
    for (int i = 0; i < np; i++)
        for (int j = 0; j < n; j++)
            to[i * n + j] = thing(rk * 50 + i, j);
    PS::Comm::allToAll(to.data(), n, aa.data());
    bool ok = true, ok2 = true, ok3 = true;
    for (int i = 0; i < np; i++)
        for (int j = 0; j < n; j++) {
            ok &= g[i * n + j] == thing(i, j);
            ok2 &= aa[i * n + j] == thing(i * 50 + rk, j);
        }
    PS::Comm::broadcast(b.data(), n, src);
    for (int j = 0; j < n; j++)
        ok3 &= b[j] == thing(src, j);
    EXPECT(ok, "allgather", "%d things on %d ranks", n, np);
    EXPECT(ok2, "alltoall", "%d things on %d ranks", n, np);
    EXPECT(ok3, "broadcast", "%d things from %d of %d ranks", n, src, np);
    // different amounts
    std::vector<int> cnt(np), dis(np + 1, 0);
    for (int i = 0; i < np; i++) {
        cnt[i] = r.i(9);
        dis[i + 1] = dis[i] + cnt[i];
    }
    std::vector<Thing> s(cnt[rk] + 1), gv(dis[np] + 1), gr(dis[np] + 1);
    for (int j = 0; j < cnt[rk]; j++)
        s[j] = thing(rk, j);
    PS::Comm::allGatherV(s.data(), cnt[rk], gv.data(), cnt.data(), dis.data());
    PS::Comm::gatherV(s.data(), cnt[rk], gr.data(), cnt.data(), dis.data());
    ok = ok2 = true;
    for (int i = 0; i < np; i++)
        for (int j = 0; j < cnt[i]; j++) {
            ok &= gv[dis[i] + j] == thing(i, j);
            ok2 &= rk != 0 || gr[dis[i] + j] == thing(i, j);
        }
    EXPECT(ok, "allgatherv", "%d ranks", np);
    EXPECT(ok2, "gatherv", "%d ranks", np);
    // everybody to everybody, in different amounts
    auto amount = [&](int from, int at) { return (from * 5 + at * 3 + n) % 6; };
    std::vector<int> ns(np), ds(np + 1, 0), nr(np), dr(np + 1, 0);
    for (int i = 0; i < np; i++) {
        ns[i] = amount(rk, i);
        nr[i] = amount(i, rk);
        ds[i + 1] = ds[i] + ns[i];
        dr[i + 1] = dr[i] + nr[i];
    }
    std::vector<Thing> sv(ds[np] + 1), rv(dr[np] + 1);
    for (int i = 0; i < np; i++)
        for (int j = 0; j < ns[i]; j++)
            sv[ds[i] + j] = thing(rk * 50 + i, j);
    PS::Comm::allToAllV(sv.data(), ns.data(), ds.data(), rv.data(), nr.data(), dr.data());
    ok = true;
    for (int i = 0; i < np; i++)
        for (int j = 0; j < nr[i]; j++)
            ok &= rv[dr[i] + j] == thing(i * 50 + rk, j);
    EXPECT(ok, "alltoallv", "%d ranks", np);
}

static void blocks() {
    vf::forCases("blocks", [](uint64_t c, Rng &r) {
        vf::beginCase(c, "blocks");
        vectors<double>(r);
        vectors<float>(r);
        morton(r);
        sorting<uint64_t, 8>(r);
        sorting<uint32_t, 8>(r);
        sorting<uint64_t, 11>(r);
        sorting<uint32_t, 16>(r);
        arrays(r);
        reductions(r);
        if (rk == 0) {
            vf::evals();
            vf::distinct(vf::mix(c, np));
            vf::count("operations_compared", 9);
            if (vf::wantSample())
                vf::sample(vf::fmt("vectors, matrices, boxes, keys, sorting, arrays and reductions on %d ranks", np));
        }
    });
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    vf::init(argc, argv, rk, np);
    PS::Initialize(argc, argv);
    if (vf::st().mode == std::string("files"))
        files();
    else
        blocks();
    vf::finish();
    MPI_Finalize();
    return 0;
}
