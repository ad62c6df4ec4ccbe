// Monitors for the pure geometry / utility layer: segment distances, boundaries, quaternions, drag, PBC, sorting.
#include <algorithm>
#include <cassert>
#include <cmath>
#include <iostream>
#include <limits>
#include <type_traits>

#include "vf.hpp"

#include "Boundary/Boundary.hpp"
#include "Collision/DCPQuery.hpp"
#include "Sylinder/Sylinder.hpp"
#include "Util/EigenDef.hpp"
#include "Util/EquatnHelper.hpp"
#include "Util/GeoUtil.hpp"
#include "Util/SortUtil.hpp"

#include <omp.h>

using vf::Rng;
typedef long double ld;

static double dist3(const Evec3 &a, const Evec3 &b) { return (a - b).norm(); }

// ------------------------------------------------------------------ P01
struct L3 {
    ld v[3];
    L3(const Evec3 &e) { for (int k = 0; k < 3; k++) v[k] = e[k]; }
    L3() {}
};
static L3 sub(const L3 &a, const L3 &b) { L3 r; for (int k = 0; k < 3; k++) r.v[k] = a.v[k] - b.v[k]; return r; }
static ld ddot(const L3 &a, const L3 &b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
static L3 axpy(const L3 &a, ld t, const L3 &d) { L3 r; for (int k = 0; k < 3; k++) r.v[k] = a.v[k] + t * d.v[k]; return r; }
static ld nrm(const L3 &a) { return sqrtl(ddot(a, a)); }
static ld refPointSeg(const L3 &p, const L3 &a, const L3 &b) {
    L3 d = sub(b, a), w = sub(p, a);
    ld dd = ddot(d, d), t = dd > 0 ? ddot(w, d) / dd : 0;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    return nrm(sub(p, axpy(a, t, d)));
}
static ld refSegSeg(const L3 &p0, const L3 &p1, const L3 &q0, const L3 &q1) {
    // the squared distance is a convex quadratic on the unit square: its minimum is on an edge or at the interior
    // stationary point
    ld best = std::min(std::min(refPointSeg(p0, q0, q1), refPointSeg(p1, q0, q1)),
                       std::min(refPointSeg(q0, p0, p1), refPointSeg(q1, p0, p1)));
    L3 u = sub(p1, p0), v = sub(q1, q0), w = sub(p0, q0);
    ld a = ddot(u, u), b = ddot(u, v), c = ddot(v, v), d = ddot(u, w), e = ddot(v, w);
    ld det = a * c - b * b;
    if (det > 0) {
        ld s = (b * e - c * d) / det, t = (a * e - b * d) / det;
        if (s > 0 && s < 1 && t > 0 && t < 1)
            best = std::min(best, nrm(sub(axpy(p0, s, u), axpy(q0, t, v))));
    }
    return best;
}

static Evec3 rvec(Rng &r, double s) { return Evec3(r.u(-s, s), r.u(-s, s), r.u(-s, s)); }
static Evec3 rdir(Rng &r) {
    double d[3];
    r.dir(d);
    return Evec3(d[0], d[1], d[2]);
}

static void segdist() {
    vf::forCases("segdist", [](uint64_t c, Rng &r) {
        for (int rep = 0; rep < 200; rep++) {
            const double scale = r.p(0.5) ? 1.0 : r.logu(1e-2, 1e3);
            Evec3 P0, P1, Q0, Q1;
            const int kind = r.i(14);
            const double lp = r.p(0.7) ? r.u(0.1, 2) : r.logu(1e-2, 50), lq = r.p(0.7) ? r.u(0.1, 2) : r.logu(1e-2, 50);
            const Evec3 cp = rvec(r, 1.5), dp = rdir(r);
            Evec3 cq = rvec(r, 1.5), dq = rdir(r);
            Evec3 perp = dp.cross(dq);
            if (perp.norm() < 1e-6)
                perp = dp.unitOrthogonal();
            perp.normalize();
            switch (kind) {
            case 0: // anything
            case 1:
                break;
            case 2: // parallel or antiparallel
                dq = r.p(0.5) ? dp : Evec3(-dp);
                break;
            case 3: // nearly parallel
                dq = dp + perp * (r.p(0.5) ? 1 : -1) * r.logu(1e-9, 1e-1);
                dq.normalize();
                if (r.p(0.5))
                    dq = -dq;
                break;
            case 4: // collinear
                dq = r.p(0.5) ? dp : Evec3(-dp);
                cq = cp + dp * r.u(-2, 2) * (lp + lq);
                break;
            case 5: // crossing at a point
                cq = cp + dp * r.u(-0.5, 0.5) * lp - dq * r.u(-0.5, 0.5) * lq;
                break;
            case 6: // crossing with a gap along the common normal
                cq = cp + dp * r.u(-0.5, 0.5) * lp - dq * r.u(-0.5, 0.5) * lq + perp * r.logu(1e-6, 1);
                break;
            case 7: // perpendicular
                dq = perp;
                break;
            case 8: // interval shifted along parallel axes, with overlap
                dq = dp;
                cq = cp + dp * r.u(-0.6, 0.6) * (lp + lq) + dp.unitOrthogonal() * r.u(0, 1);
                break;
            default:
                break;
            }
            P0 = cp - 0.5 * lp * dp;
            P1 = cp + 0.5 * lp * dp;
            Q0 = cq - 0.5 * lq * dq;
            Q1 = cq + 0.5 * lq * dq;
            if (kind == 9)
                P1 = P0; // point and segment
            if (kind == 10)
                Q1 = Q0;
            if (kind == 11) {
                P1 = P0;
                Q1 = Q0;
            }
            if (kind == 12) { // lattice: exact ties, shared corners, integer coordinates
                for (Evec3 *v : {&P0, &P1, &Q0, &Q1})
                    *v = Evec3(r.i(-2, 2), r.i(-2, 2), r.i(-2, 2));
            }
            if (kind == 13) { // shared end point
                const Evec3 d = P1 - (r.p(0.5) ? Q0 : Q1);
                Q0 += d;
                Q1 += d;
            }
            P0 *= scale;
            P1 *= scale;
            Q0 *= scale;
            Q1 *= scale;
            if (r.p(0.2)) { // far from the origin
                const Evec3 sh = rvec(r, 200) * scale;
                P0 += sh;
                P1 += sh;
                Q0 += sh;
                Q1 += sh;
            }
            double size = std::max(std::max(P0.norm(), P1.norm()), std::max(Q0.norm(), Q1.norm()));
            size = std::max(size, 1e-3);
            // distances come from squared quantities, and nearly parallel segments lose accuracy in the parameters
            const double tol = 1e-7 * size;
            DCPQuery<3, double, Evec3> q;
            Evec3 Pl(7, 7, 7), Ql(9, 9, 9);
            double s = -7, t = -7;
            const double d = q(P0, P1, Q0, Q1, Pl, Ql, s, t);
            const double ref = (double)refSegSeg(P0, P1, Q0, Q1);
            vf::evals();
            vf::distinct(vf::mix(c, rep * 16 + kind));
            vf::count("kind" + std::to_string(kind));
            if (ref > 1e-9 * size && s > 0 && s < 1 && t > 0 && t < 1)
                vf::count("interior_minima");
            vf::maxi("distance error / size", std::fabs(d - ref) / size);
            const std::string inp = vf::fmt("kind %d P0=(%.17g,%.17g,%.17g) P1=(%.17g,%.17g,%.17g) Q0=(%.17g,%.17g,%.17g) "
                                            "Q1=(%.17g,%.17g,%.17g)", kind, P0[0], P0[1], P0[2], P1[0], P1[1], P1[2],
                                            Q0[0], Q0[1], Q0[2], Q1[0], Q1[1], Q1[2]);
            if (rep == 0 && vf::wantSample())
                vf::sample(inp + vf::fmt(" -> d=%.12g ref=%.12g s=%g t=%g", d, ref, s, t));
            VF_CHECK(std::fabs(d - ref) <= tol, "segseg-distance", "%s: distance %.17g, true minimum %.17g", inp.c_str(), d, ref);
            VF_CHECK(s >= 0 && s <= 1 && t >= 0 && t <= 1, "segseg-parameter", "%s: s=%.17g t=%.17g", inp.c_str(), s, t);
            VF_CHECK(dist3(Pl, P0 + s * (P1 - P0)) <= 1e-12 * size && dist3(Ql, Q0 + t * (Q1 - Q0)) <= 1e-12 * size,
                     "segseg-points", "%s: points do not match parameters s=%g t=%g", inp.c_str(), s, t);
            VF_CHECK(std::fabs(dist3(Pl, Ql) - d) <= 1e-12 * size, "segseg-realised", "%s: |Ploc-Qloc|=%.17g, returned %.17g",
                     inp.c_str(), dist3(Pl, Ql), d);
            // the overload without parameters, the swapped call and reversed end points agree
            Evec3 a, b;
            const double d2 = q(P0, P1, Q0, Q1, a, b);
            VF_CHECK(d2 == d && a == Pl && b == Ql, "segseg-overload", "%s: overload returns %.17g, not %.17g", inp.c_str(), d2, d);
            const double d3 = q(Q0, Q1, P0, P1, a, b), d4 = q(P1, P0, Q0, Q1, a, b), d5 = q(P0, P1, Q1, Q0, a, b);
            VF_CHECK(std::fabs(d3 - d) <= tol && std::fabs(d4 - d) <= tol && std::fabs(d5 - d) <= tol, "segseg-symmetry",
                     "%s: %.17g swapped %.17g reversed %.17g %.17g", inp.c_str(), d, d3, d4, d5);
            // point - segment
            Evec3 pp(5, 5, 5);
            const double e = DistPointSeg<Evec3>(P0, Q0, Q1, pp);
            const double er = (double)refPointSeg(P0, Q0, Q1);
            const double eseg = (double)refPointSeg(pp, Q0, Q1);
            vf::maxi("point distance error / size", std::fabs(e - er) / size);
            VF_CHECK(std::fabs(e - er) <= 1e-10 * size, "pointseg-distance", "%s: point P0 to Q %.17g, true %.17g", inp.c_str(), e, er);
            VF_CHECK(eseg <= 1e-10 * size && std::fabs(dist3(pp, P0) - e) <= 1e-12 * size, "pointseg-point",
                     "%s: returned point is %.3g off the segment; |point - it| = %.17g, returned %.17g", inp.c_str(), eseg,
                     dist3(pp, P0), e);
        }
    });
}

// ------------------------------------------------------------------ P12
static std::string yamlVec(const double v[3]) { return vf::fmt("[%.17g, %.17g, %.17g]", v[0], v[1], v[2]); }

static void boundary() {
    vf::forCases("boundary", [](uint64_t c, Rng &r) {
        const int type = r.i(3);
        const bool viaYaml = r.p(0.5);
        double center[3], axis[3], radius = r.p(0.6) ? r.u(0.3, 5) : r.logu(1e-2, 1e3);
        const bool inside = r.p(0.5);
        for (int k = 0; k < 3; k++)
            center[k] = r.p(0.15) ? 0.0 : r.u(-10, 10);
        r.dir(axis);
        if (r.p(0.3)) { // axis aligned
            const int k = r.i(3);
            axis[0] = axis[1] = axis[2] = 0;
            axis[k] = r.p(0.5) ? 1 : -1;
        }
        const double alen = r.p(0.3) ? 1.0 : r.logu(1e-2, 1e2); // need not be given normalised
        double axisIn[3] = {axis[0] * alen, axis[1] * alen, axis[2] * alen};
        std::unique_ptr<Boundary> b;
        const char *names[] = {"sphere", "wall", "tube"};
        if (viaYaml) {
            std::string y = "center: " + yamlVec(center) + "\n";
            if (type == 1)
                y += "norm: " + yamlVec(axisIn) + "\n";
            if (type == 2)
                y += "axis: " + yamlVec(axisIn) + "\n";
            if (type != 1)
                y += vf::fmt("radius: %.17g\ninside: %s\n", radius, inside ? "true" : "false");
            YAML::Node n = YAML::Load(y);
            if (type == 0)
                b.reset(new SphereShell(n));
            else if (type == 1)
                b.reset(new Wall(n));
            else
                b.reset(new Tube(n));
        } else {
            if (type == 0)
                b.reset(new SphereShell(center, radius, inside));
            else if (type == 1)
                b.reset(new Wall(center, axisIn));
            else
                b.reset(new Tube(center, axisIn, radius, inside));
        }
        const Evec3 C = ECmap3(center), A = ECmap3(axis).normalized();
        for (int rep = 0; rep < 60; rep++) {
            Evec3 Q;
            const int kind = r.i(7);
            Evec3 rd = rdir(r);
            if (type == 2) { // radial direction
                rd = rd - A * A.dot(rd);
                if (rd.norm() < 1e-3)
                    rd = A.unitOrthogonal();
                rd.normalize();
            }
            double along = r.p(0.5) ? r.u(-3, 3) : r.u(-1, 1) * r.logu(1, 100);
            double rho; // signed distance-like coordinate of the query
            if (type == 1)
                rho = r.p(0.5) ? r.u(-3, 3) : (r.p(0.5) ? 1 : -1) * r.logu(1e-6, 1e3);
            else {
                switch (kind) {
                case 0:
                    rho = radius * (1 + r.u(-1, 1) * 0.2);
                    break;
                case 1:
                    rho = radius * (1 - r.logu(1e-9, 1e-2));
                    break;
                case 2:
                    rho = radius * (1 + r.logu(1e-9, 1e-2));
                    break;
                case 3:
                    rho = radius * r.logu(1e-6, 1); // near the center or axis
                    break;
                case 4:
                    rho = radius * r.logu(1, 1e2);
                    break;
                case 5:
                    rho = 0; // the center or the axis itself
                    break;
                default:
                    rho = radius * r.u(0, 3);
                }
            }
            if (type == 0)
                Q = C + rho * rd;
            else if (type == 1)
                Q = C + rho * A + (rd - A * A.dot(rd)) * along;
            else
                Q = C + rho * rd + along * A;
            // ground truth from the query actually passed
            const Evec3 w = Q - C;
            double dsurf; // > 0 on the allowed side
            Evec3 nrm;    // unit normal into the allowed side at the projection
            double trueR = 0;
            if (type == 1) {
                dsurf = w.dot(A);
                nrm = A;
            } else {
                Evec3 rad = type == 0 ? w : Evec3(w - A * A.dot(w));
                trueR = rad.norm();
                nrm = trueR > 0 ? Evec3(rad / trueR) : Evec3(0, 0, 0);
                dsurf = inside ? radius - trueR : trueR - radius;
                if (inside)
                    nrm = -nrm;
            }
            double P[3] = {1e9, 1e9, 1e9}, D[3] = {1e9, 1e9, 1e9};
            const Evec3 Qc = Q;
            b->project(Q.data(), P, D);
            vf::evals();
            vf::distinct(vf::mix(c, rep));
            vf::count(std::string(names[type]) + (type == 1 ? "" : inside ? ".inside" : ".outside") +
                      (dsurf >= 0 ? ".allowed" : ".forbidden") + (rho == 0 ? ".center" : ""));
            const double size = std::max(1.0, std::max(Q.norm(), C.norm()) + radius);
            const double tol = 1e-11 * size;
            const std::string inp = vf::fmt("%s%s center=%s axis=%s r=%.17g inside=%d query=(%.17g,%.17g,%.17g)", names[type],
                                            viaYaml ? " (yaml)" : "", yamlVec(center).c_str(), yamlVec(axisIn).c_str(), radius,
                                            inside, Q[0], Q[1], Q[2]);
            const Evec3 Pv = ECmap3(P), Dv = ECmap3(D);
            const std::string res = vf::fmt("proj=(%.17g,%.17g,%.17g) delta=(%.17g,%.17g,%.17g)", P[0], P[1], P[2], D[0], D[1], D[2]);
            if (rep == 0 && vf::wantSample())
                vf::sample(inp + " -> " + res);
            VF_CHECK(Q == Qc, "boundary-query-modified", "%s", inp.c_str());
            const char *nm = names[type];
            const std::string at = (type != 1 && trueR <= 1e-9 * size) ? "-center" : "";
            // on the surface
            double off;
            if (type == 0)
                off = std::fabs((Pv - C).norm() - radius);
            else if (type == 1)
                off = std::fabs((Pv - C).dot(A));
            else
                off = std::fabs(((Pv - C) - A * A.dot(Pv - C)).norm() - radius);
            VF_CHECK(off <= tol, std::string(nm) + "-onsurface" + at, "%s: %s is %.3g off the surface", inp.c_str(), res.c_str(), off);
            // the closest surface point
            const double dq = (Pv - Qc).norm();
            VF_CHECK(std::fabs(dq - std::fabs(dsurf)) <= tol, std::string(nm) + "-closest" + at,
                     "%s: %s at distance %.17g, surface at %.17g", inp.c_str(), res.c_str(), dq, std::fabs(dsurf));
            VF_CHECK(std::fabs(Dv.norm() - dq) <= tol, std::string(nm) + "-deltanorm" + at, "%s: %s |delta| %.17g, distance %.17g",
                     inp.c_str(), res.c_str(), Dv.norm(), dq);
            // delta points into the allowed side
            if (at.empty()) {
                const Evec3 want = nrm * std::fabs(dsurf);
                // the direction of a tiny radial vector is only known to about size/trueR
                const double dt = type == 1 ? tol : tol * (1 + std::fabs(dsurf) / std::max(trueR, 1e-300));
                VF_CHECK((Dv - want).norm() <= 10 * dt, std::string(nm) + "-direction", "%s: %s, expected delta (%.17g,%.17g,%.17g)",
                         inp.c_str(), res.c_str(), want[0], want[1], want[2]);
            } else if (Dv.allFinite() && Pv.allFinite()) {
                // at the center every direction is closest; delta still has to point away from the surface to the
                // allowed side
                const double sgn = (Qc - Pv).dot(Dv) * (dsurf >= 0 ? 1 : -1);
                VF_CHECK(sgn > 0, std::string(nm) + "-direction" + at, "%s: %s", inp.c_str(), res.c_str());
            } else {
                vf::violation(std::string(nm) + "-nonfinite" + at, "%s: %s", inp.c_str(), res.c_str());
            }
        }
    });
}

// ------------------------------------------------------------------ P13
static Emat3 rodrigues(const Evec3 &w, double dt) {
    const double a = w.norm();
    if (a == 0)
        return Emat3::Identity();
    const Evec3 k = w / a;
    const double th = a * dt;
    Emat3 K;
    K << 0, -k[2], k[1], k[2], 0, -k[0], -k[1], k[0], 0;
    return Emat3::Identity() + std::sin(th) * K + (1 - std::cos(th)) * K * K;
}
static Sylinder mkSy(Rng &r) {
    const double rad = r.logu(0.01, 2), len = r.p(0.2) ? 0.0 : r.logu(0.01, 20);
    double pos[3] = {r.u(-10, 10), r.u(-10, 10), r.u(-10, 10)};
    Equatn q;
    EquatnHelper::setUnitRandomEquatn(q, r.u(), r.u(), r.u());
    double o[4] = {q.x(), q.y(), q.z(), q.w()};
    Sylinder s(r.i(1000000), rad, rad * r.u(0.5, 1.5), len, len * r.u(0.5, 1.5), pos, o);
    return s;
}
static void kinematics() {
    vf::forCases("kinematics", [](uint64_t c, Rng &r) {
        { // quaternion construction
            for (int k = 0; k < 20; k++) {
                Equatn q;
                double u[3] = {r.u(), r.u(), r.u()};
                if (r.p(0.1))
                    u[r.i(3)] = 0;
                EquatnHelper::setUnitRandomEquatn(q, u[0], u[1], u[2]);
                vf::evals();
                VF_CHECK(std::fabs(q.norm() - 1) < 1e-12, "random-quaternion-unit", "u=(%.17g,%.17g,%.17g) norm %.17g", u[0], u[1], u[2], q.norm());
            }
            Evec3 a = rvec(r, 3), b = rvec(r, 3);
            Emat3 M;
            EquatnHelper::getCrossProductMatrix(a, M);
            VF_CHECK((M * b - a.cross(b)).norm() < 1e-12, "cross-matrix", "a x b differs");
            // Psi(q) omega is the time derivative of q
            Equatn q;
            EquatnHelper::setUnitRandomEquatn(q, r.u(), r.u(), r.u());
            EmatPsi psi;
            EquatnHelper::getPsiMatFromEquatn(q, psi);
            const Evec3 w = rvec(r, 2);
            Equatn om(0, w[0], w[1], w[2]);
            const Equatn dq = om * q; // body frame is rotated by q, w in the lab frame
            const Evec4 got = psi * w;
            const double e = std::fabs(got[0] - 0.5 * dq.w()) + std::fabs(got[1] - 0.5 * dq.x()) + std::fabs(got[2] - 0.5 * dq.y()) +
                             std::fabs(got[3] - 0.5 * dq.z());
            VF_CHECK(e < 1e-12, "psi-matrix", "q=(%g;%g,%g,%g) w=(%g,%g,%g) off by %.3g", q.w(), q.x(), q.y(), q.z(), w[0], w[1], w[2], e);
        }
        // rotate and step
        Sylinder s = mkSy(r);
        const int steps = 1 + r.i(r.p(0.05) ? 3000 : 20);
        const double dt = r.p(0.2) ? r.logu(1, 1e8) : r.logu(1e-6, 1);
        double drift = 0;
        for (int n = 0; n < steps; n++) {
            Evec3 w = r.p(0.1) ? Evec3(0, 0, 0) : r.p(0.3) ? Evec3(rdir(r) * r.logu(1e-3, 1e3)) : rvec(r, 2);
            if (r.p(0.1)) { // along an axis of the body, or of the lab
                w = r.p(0.5) ? Evec3(ECmapq(s.orientation) * Evec3(0, 0, 1)) : Evec3(0, 0, 1);
                w *= r.u(-5, 5);
            }
            if (r.p(0.05))
                w = rdir(r) * (3.141592653589793 / dt) * r.i(1, 3); // half turns
            if (r.p(0.1)) // slow in the unit of time, not over the step
                w = rdir(r) * (r.logu(1e-3, 1) / dt);
            if (r.p(0.05))
                w = rdir(r) * r.logu(1e-14, 1e-6);
            for (int k = 0; k < 3; k++) {
                s.vel[k] = r.p(0.1) ? 0 : r.u(-1, 1) * r.logu(1e-3, 1e3);
                s.omega[k] = w[k];
                s.velCol[k] = s.velBi[k] = s.velNonB[k] = s.velBrown[k] = r.u(-1, 1); // must not be read
                s.omegaCol[k] = s.omegaBi[k] = s.omegaNonB[k] = s.omegaBrown[k] = r.u(-1, 1);
            }
            const Sylinder b = s;
            s.stepEuler(dt);
            vf::evals();
            for (int k = 0; k < 3; k++) {
                const double want = b.pos[k] + dt * b.vel[k];
                VF_CHECK(std::fabs(s.pos[k] - want) <= 1e-12 * (std::fabs(want) + std::fabs(b.pos[k])), "euler-position",
                         "axis %d: %.17g + %.17g*%.17g -> %.17g", k, b.pos[k], dt, b.vel[k], s.pos[k]);
            }
            const Emat3 R = rodrigues(w, dt) * Equatn(ECmapq(b.orientation)).toRotationMatrix();
            const Emat3 G = Equatn(ECmapq(s.orientation)).toRotationMatrix();
            const double err = (R - G).norm();
            const double qn = Equatn(ECmapq(s.orientation)).norm();
            drift = std::max(drift, std::fabs(qn - 1));
            const double tol = 1e-10 + 1e-14 * w.norm() * dt;
            vf::maxi("rotation error", err);
            vf::maxi("quaternion norm error", std::fabs(qn - 1));
            VF_CHECK(err <= tol, "euler-rotation", "omega=(%.17g,%.17g,%.17g) dt=%.17g: orientation off by %.3g", w[0], w[1], w[2], dt, err);
            VF_CHECK(std::fabs(qn - 1) <= 1e-12, "euler-unit-quaternion", "after step %d norm %.17g", n, qn);
            VF_CHECK(s.gid == b.gid && s.length == b.length && s.radius == b.radius && s.lengthCollision == b.lengthCollision &&
                         s.radiusCollision == b.radiusCollision && s.group == b.group && s.isImmovable == b.isImmovable,
                     "euler-identity", "stepEuler changed another field");
        }
        vf::distinct(vf::mix(c, steps));
        if (vf::wantSample())
            vf::sample(vf::fmt("%d Euler steps of dt=%g, final pos (%g,%g,%g), |q|-1 <= %.2g", steps, dt, s.pos[0], s.pos[1], s.pos[2], drift));
    });
}

// ------------------------------------------------------------------ P14 (drag part)
static void drag() {
    vf::forCases("drag", [](uint64_t c, Rng &r) {
        for (int rep = 0; rep < 40; rep++) {
            const double rad = r.logu(1e-3, 1e2);
            double ratio; // length / diameter
            const int kind = r.i(5);
            ratio = kind == 0 ? 0 : kind == 1 ? r.u(0, 1) : kind == 2 ? 1.0 : kind == 3 ? r.u(1, 3) : r.logu(1, 1e4);
            const double len = ratio * 2 * rad, mu = r.logu(1e-4, 1e2);
            // the collision size must not matter for the drag
            Sylinder s(1, rad, rad * r.logu(0.1, 10), len, len * r.logu(0.1, 10));
            double a = -1, b = -1, d = -1;
            s.calcDragCoeff(mu, a, b, d);
            vf::evals();
            vf::distinct(vf::mix(c, rep));
            const double pi = 3.14159265358979323846;
            const bool sphere = len < 2 * rad;
            double wa, wb, wd;
            if (sphere) {
                const double R = 0.5 * len + rad;
                wa = wb = 6 * pi * mu * R;
                wd = 8 * pi * mu * R * R * R;
            } else {
                const double bb = 2 * std::log(len / rad) - 1;
                wa = 4 * pi * mu * len / bb;
                wb = 8 * pi * mu * len / (bb + 2);
                wd = 2 * pi * mu * len * len * len / (3 * (bb + 2));
            }
            vf::count(sphere ? "sphere" : "rod");
            const std::string inp = vf::fmt("radius=%.17g length=%.17g viscosity=%.17g", rad, len, mu);
            if (rep == 0 && vf::wantSample())
                vf::sample(inp + vf::fmt(" -> %g %g %g", a, b, d));
            const double tol = 1e-9;
            VF_CHECK(a > 0 && b > 0 && d > 0 && std::isfinite(a + b + d), "drag-positive", "%s: %.17g %.17g %.17g", inp.c_str(), a, b, d);
            VF_CHECK(std::fabs(a / wa - 1) < tol && std::fabs(b / wb - 1) < tol && std::fabs(d / wd - 1) < tol, "drag-value",
                     "%s: %.17g %.17g %.17g, expected %.17g %.17g %.17g", inp.c_str(), a, b, d, wa, wb, wd);
            VF_CHECK(s.isSphere() == sphere, "drag-issphere", "%s", inp.c_str());
            VF_CHECK(s.isSphere(true) == (s.lengthCollision < 2 * s.radiusCollision), "drag-issphere-collision", "lengthCollision=%.17g radiusCollision=%.17g", s.lengthCollision, s.radiusCollision);
        }
    });
}

// ------------------------------------------------------------------ P30
static void pbc() {
    vf::forCases("pbc", [](uint64_t c, Rng &r) {
        for (int rep = 0; rep < 60; rep++) {
            const double L = r.p(0.5) ? r.u(0.5, 20) : r.logu(1e-2, 1e3);
            const double lb = r.p(0.3) ? 0.0 : r.u(-3, 3) * L;
            const double ub = lb + L;
            const int kind = r.i(6);
            double x = kind == 0 ? lb : kind == 1 ? ub : kind == 2 ? lb - L * r.i(1, 4) : lb + L * r.u(-5, 6);
            if (kind == 3)
                x = ub - L * r.logu(1e-12, 1e-3);
            const double x0 = x, scale = std::fabs(lb) + 6 * L, tol = 1e-12 * scale;
            findPBCImage(lb, ub, x);
            vf::evals();
            vf::distinct(vf::mix(c, rep));
            const double Lr = ub - lb;
            double k = std::round((x - x0) / Lr);
            VF_CHECK(x >= lb && x < ub, "pbc-range", "lb=%.17g ub=%.17g x=%.17g -> %.17g", lb, ub, x0, x);
            VF_CHECK(std::fabs((x - x0) - k * Lr) <= tol, "pbc-image", "lb=%.17g ub=%.17g x=%.17g -> %.17g is no image", lb, ub, x0, x);
            // closest image
            double y = lb + L * r.u(-4, 5), t = lb + L * r.u(-4, 5);
            if (r.p(0.1))
                t = y;
            if (r.p(0.1))
                t = y + L * r.i(-2, 2);
            if (r.p(0.1))
                t = y + 0.5 * L * r.i(-2, 2);
            const double y0 = y, t0 = t;
            findPBCImage(lb, ub, y, t);
            vf::evals();
            const std::string inp = vf::fmt("lb=%.17g ub=%.17g x=%.17g trg=%.17g -> x=%.17g trg=%.17g", lb, ub, y0, t0, y, t);
            if (rep == 0 && vf::wantSample())
                vf::sample(inp);
            VF_CHECK(t >= lb && t < ub, "pbc-target-range", "%s", inp.c_str());
            k = std::round((t - t0) / Lr);
            VF_CHECK(std::fabs((t - t0) - k * Lr) <= tol, "pbc-target-image", "%s", inp.c_str());
            k = std::round((y - y0) / Lr);
            VF_CHECK(std::fabs((y - y0) - k * Lr) <= 2 * tol, "pbc-source-image", "%s", inp.c_str());
            VF_CHECK(std::fabs(y - t) <= 0.5 * Lr + 2 * tol, "pbc-closest", "%s: separation %.17g of %.17g", inp.c_str(), std::fabs(y - t), Lr);
        }
        // random points from uniform numbers
        for (int rep = 0; rep < 40; rep++) {
            const double R = r.logu(1e-3, 1e3), a = r.p(0.1) ? 0 : r.u(), b = r.p(0.1) ? 0 : r.u();
            double x = 0, y = 0;
            getRandPointInCircle(R, a, b, x, y);
            vf::evals();
            const double rr = std::hypot(x, y);
            VF_CHECK(rr <= R * (1 + 1e-12) && std::fabs(rr - R * std::sqrt(b)) <= 1e-12 * R, "circle-radius", "R=%g u=(%.17g,%.17g): radius %.17g, area-uniform %.17g", R, a, b, rr, R * std::sqrt(b));
            if (b > 1e-6)
                VF_CHECK(std::fabs(x / rr - std::cos(2 * Pi * a)) < 1e-9 && std::fabs(y / rr - std::sin(2 * Pi * a)) < 1e-9, "circle-angle", "u=(%.17g,%.17g)", a, b);
            double p[3];
            getRandPointOnSphere(R, a, b, p);
            const double pr = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
            VF_CHECK(std::fabs(pr - R) <= 1e-12 * R && std::fabs(p[2] - R * (2 * b - 1)) <= 1e-12 * R, "sphere-point", "R=%g u=(%.17g,%.17g): |p|=%.17g z=%.17g", R, a, b, pr, p[2]);
            double th, ph;
            getRandPointAngleOnSphere(a, b, th, ph);
            VF_CHECK(std::fabs(std::cos(ph) - (2 * b - 1)) < 1e-12 && th >= 0 && th < 2 * Pi + 1e-9 && ph >= 0 && ph <= Pi + 1e-12,
                     "sphere-angle", "u=(%.17g,%.17g): theta %.17g phi %.17g", a, b, th, ph);
            if (std::sin(ph) > 1e-6)
                VF_CHECK(std::fabs(p[0] - R * std::sin(ph) * std::cos(th)) <= 1e-9 * R && std::fabs(p[1] - R * std::sin(ph) * std::sin(th)) <= 1e-9 * R,
                         "sphere-point-angle", "u=(%.17g,%.17g)", a, b);
        }
    });
}

// ------------------------------------------------------------------ P08
struct Payload {
    int id;
    double w[3];
    bool operator==(const Payload &o) const { return id == o.id; }
};
template <class Tag>
static void sortCase(Rng &r, uint64_t c, Tag (*gen)(Rng &, int), const char *nm) {
    const int pick = r.i(10);
    int n = pick == 0 ? 0 : pick == 1 ? 1 : pick == 2 ? 2 : pick < 8 ? r.i(200) : r.i(20000);
    std::vector<Tag> tags(n);
    std::vector<Payload> data(n);
    const int range = r.p(0.3) ? 3 : r.p(0.5) ? n / 2 + 1 : 1 << 30;
    for (int k = 0; k < n; k++) {
        tags[k] = gen(r, range);
        data[k].id = k;
        data[k].w[0] = k;
    }
    if (r.p(0.15))
        std::sort(tags.begin(), tags.end());
    if (r.p(0.15)) {
        std::sort(tags.begin(), tags.end());
        std::reverse(tags.begin(), tags.end());
    }
    const std::vector<Tag> t0 = tags;
    const int th = r.i(1, 4);
    omp_set_num_threads(th);
    sortDataWithTag<Tag, Payload>(tags, data);
    vf::evals();
    vf::distinct(c);
    vf::count(std::string("tag.") + nm);
    if (vf::wantSample())
        vf::sample(vf::fmt("%s tags, n=%d, %d threads", nm, n, th));
    const std::string inp = vf::fmt("%s tags n=%d range=%d threads=%d", nm, n, range, th);
    if ((int)tags.size() != n || (int)data.size() != n) {
        vf::violation("sort-size", "%s: sizes %zu %zu", inp.c_str(), tags.size(), data.size());
        return;
    }
    std::vector<char> seen(n, 0);
    for (int k = 0; k < n; k++) {
        const int id = data[k].id;
        if (id < 0 || id >= n || seen[id]) {
            vf::violation("sort-permutation", "%s: element %d lost or duplicated at %d", inp.c_str(), id, k);
            return;
        }
        seen[id] = 1;
        if (data[k].w[0] != id) {
            vf::violation("sort-payload", "%s: payload of %d torn", inp.c_str(), id);
            return;
        }
        if (!(tags[k] == t0[id])) {
            vf::violation("sort-pairing", "%s: position %d has the data of %d but another tag", inp.c_str(), k, id);
            return;
        }
        if (k && tags[k] < tags[k - 1]) {
            vf::violation("sort-order", "%s: out of order at %d", inp.c_str(), k);
            return;
        }
        if (k && !(tags[k - 1] < tags[k]) && data[k - 1].id > id) {
            vf::violation("sort-stable", "%s: equal tags reordered at %d", inp.c_str(), k);
            return;
        }
    }
}
struct PairTag {
    int a = 0, b = 0;
    bool operator<(const PairTag &o) const { return a < o.a || (a == o.a && b < o.b); }
    bool operator==(const PairTag &o) const { return a == o.a && b == o.b; }
};
static void sorting() {
    vf::forCases("sort", [](uint64_t c, Rng &r) {
        switch (r.i(5)) {
        case 0:
            sortCase<int>(r, c, [](Rng &q, int m) { return (int)(q.i(m)) - m / 2; }, "int");
            break;
        case 1:
            sortCase<double>(r, c, [](Rng &q, int m) { return m <= 3 ? (double)q.i(m) : q.u(-1, 1) * m; }, "double");
            break;
        case 2:
            sortCase<long long>(r, c, [](Rng &q, int m) { return m <= 3 ? (long long)q.i(m) : (long long)q.u64(); }, "int64");
            break;
        case 3:
            sortCase<std::string>(r, c, [](Rng &q, int m) { return std::to_string(q.i(m)); }, "string");
            break;
        default:
            sortCase<PairTag>(r, c, [](Rng &q, int m) { PairTag t; t.a = q.i(4); t.b = q.i(m); return t; }, "struct");
        }
    });
}

int main(int argc, char **argv) {
    vf::init(argc, argv, 0, 1);
    const std::string m = vf::st().mode;
    spdlog::set_level(spdlog::level::off);
    if (m == "segdist")
        segdist();
    else if (m == "boundary")
        boundary();
    else if (m == "kinematics")
        kinematics();
    else if (m == "drag")
        drag();
    else if (m == "pbc")
        pbc();
    else if (m == "sort")
        sorting();
    else
        return 3;
    return vf::finish();
}
