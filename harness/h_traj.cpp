// Whole-system trajectories.
//   overlap P20 (no new overlap, no escape, links at their springs' length after a converged step)
//   traj    P22 (states of fixed cases, compared between runs with other rank and thread counts)
#include "sys.hpp"
#include <spdlog/sinks/base_sink.h>
using namespace sysv;

struct Cap : public spdlog::sinks::base_sink<std::mutex> {
    std::vector<std::string> lines;

  protected:
    void sink_it_(const spdlog::details::log_msg &m) override { lines.emplace_back(m.payload.data(), m.payload.size()); }
    void flush_() override {}
};
static std::shared_ptr<Cap> cap;
// the residual the solver reports for the last solve; < 0: none reported
static double reportedResidual() {
    const std::string head = "RECORD: BCQP residue ";
    for (auto it = cap->lines.rbegin(); it != cap->lines.rend(); ++it)
        if (it->compare(0, head.size(), head) == 0) {
            double v[6];
            if (sscanf(it->c_str() + head.size(), "%lf, %lf, %lf, %lf, %lf, %lf", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6)
                return std::fabs(v[4]);
        }
    return -1;
}
static void prescribed(uint64_t c, int gid, int step, double out[12]) { // unit force, torque, velocity, angular velocity
    Rng q(vf::mix(vf::mix(c, 77 + step), gid));
    for (int k = 0; k < 12; k++)
        out[k] = q.p(0.05) ? 0 : q.n();
}

// parameters in [-1/2,1/2] of the closest points of two cores, lengths included
static void closest(const Core &I, const Core &J, const V &cj, ld &s, ld &t, ld &D) {
    D = -1;
    auto tryST = [&](ld a, ld b) {
        a = std::min(std::max(a, -I.len / 2), I.len / 2);
        b = std::min(std::max(b, -J.len / 2), J.len / 2);
        const ld d = nrm(I.c + a * I.d - cj - b * J.d);
        if (D < 0 || d < D)
            D = d, s = a, t = b;
    };
    const V w = I.c - cj;
    const ld c = vdot(I.d, J.d), p = vdot(I.d, w), q = vdot(J.d, w);
    for (int e = -1; e <= 1; e += 2) {
        const ld a = e * I.len / 2, b = e * J.len / 2;
        tryST(a, q + c * a);
        tryST(c * b - p, b);
        for (int f = -1; f <= 1; f += 2)
            tryST(a, f * J.len / 2);
    }
    if (1 - c * c > 1e-16L)
        tryST((c * q - p) / (1 - c * c), (q - c * p) / (1 - c * c));
}

struct Drive {
    double disp, U, F;
    bool force, vel, inward;
};
// prescribed motion of the local particles
static void drive(SylinderSystem &s, const World &w, uint64_t c, int step, const Drive &d, double mean) {
    const int nl = s.getContainer().getNumberOfParticleLocal();
    std::vector<double> ff(6 * nl), vv(6 * nl);
    for (int i = 0; i < nl; i++) {
        const Sylinder &p = s.getContainer()[i];
        double x[12];
        prescribed(c, p.gid, step, x);
        if (d.inward) // towards the middle of the box: jams
            for (int k = 0; k < 3; k++) {
                const double E = w.cfg.simBoxHigh[k] - w.cfg.simBoxLow[k], e = 2 * (0.5 * (w.cfg.simBoxHigh[k] + w.cfg.simBoxLow[k]) - p.pos[k]) / E;
                x[k] = e + 0.1 * x[k];
                x[6 + k] = e + 0.1 * x[6 + k];
            }
        for (int k = 0; k < 6; k++) {
            ff[6 * i + k] = x[k] * (k < 3 ? d.F : d.F * mean / 4);
            vv[6 * i + k] = x[6 + k] * (k < 3 ? d.U : d.U / mean * 2);
        }
    }
    if (d.force)
        s.setForceNonBrown(ff);
    if (d.vel)
        s.setVelocityNonBrown(vv);
}
static World world(Rng &r, bool traj, double &mean, Drive &d) {
    GenOpt o;
    o.nmin = r.p(0.3) ? 2 : 5;
    o.nmax = r.p(0.2) ? 6 : 40;
    o.immovable = 0;
    o.density = r.pick(std::vector<double>{0.3, 0.7, 1.5});
    o.allowSmallBox = false;
    o.outside = !traj || r.p(0.3);
    World w = makeWorld(r, o);
    SylinderConfig &cf = w.cfg;
    mean = 0;
    for (auto &p : w.parts)
        mean += (2 * p.r + (double)nrm(V(p.p) - V(p.m))) / w.parts.size();
    cf.logLevel = spdlog::level::info;
    cf.viscosity = r.pick(std::vector<double>{1, 1, 0.01, 30});
    cf.dt = r.pick(std::vector<double>{0.01, 1e-4, 1});
    cf.timeSnap = 1e5 * cf.dt;
    cf.conMaxIte = 4000;
    cf.conSolverChoice = r.i(2);
    cf.conResTol = (traj ? 1e-9 : r.pick(std::vector<double>{1e-4, 1e-6})) * mean / cf.dt;
    cf.linkKappa = r.pick(std::vector<double>{100, 1, 1e3}) * cf.viscosity * mean / (cf.dt * 100);
    cf.linkGap = r.pick(std::vector<double>{0, 0.1 * mean});
    cf.rngSeed = r.i(1, 1000000);
    d.disp = mean * r.logu(1e-3, 0.2);
    d.U = d.disp / cf.dt;
    d.F = 6 * 3.14 * cf.viscosity * mean / 2 * d.U;
    d.inward = r.p(0.5);
    const int k = r.i(4);
    d.force = k & 1;
    d.vel = k & 2;
    if (r.p(0.35)) {
        const int kind = r.i(4);
        V lo = V(w.parts[0].m), hi = lo;
        for (auto &p : w.parts)
            for (int a = 0; a < 3; a++) {
                lo[a] = std::min(lo[a], (ld)std::min(p.m[a], p.p[a]));
                hi[a] = std::max(hi[a], (ld)std::max(p.m[a], p.p[a]));
            }
        const V mid = 0.5L * (lo + hi);
        const double ext = (double)nrm(hi - lo);
        for (int b = 0; b < (kind == 1 ? 2 : 1); b++) {
            Bnd x;
            x.kind = kind < 3 ? kind : r.i(3);
            x.inside = kind < 3;
            r.dir(x.n);
            for (int a = 0; a < 3; a++)
                x.c[a] = (double)mid[a];
            x.R = 0.5 * ext * r.u(0.6, 1.1); // some begin outside
            if (x.kind == 1)
                for (int a = 0; a < 3; a++) { // a channel: two facing walls
                    const double nn = (b ? -1 : 1) * (w.bnds.empty() ? x.n[a] : w.bnds[0].n[a]);
                    x.n[a] = nn;
                    x.c[a] -= nn * ext * (kind < 3 ? 0.4 : 0.2);
                }
            if (kind == 3 && x.kind != 1)
                x.R *= 0.3;
            w.bnds.push_back(x);
        }
    } else if (r.p(0.3))
        w.parts[r.i((int)w.parts.size())].imm = true;
    const int n0 = (int)w.parts.size();
    if (r.p(0.35))
        for (int q = r.i(1, n0); q > 0; q--) {
            const int a = r.i(n0), b = r.i(n0);
            const std::pair<int, int> l(w.parts[a].gid, w.parts[b].gid);
            if (a != b && std::find(w.links.begin(), w.links.end(), l) == w.links.end())
                w.links.push_back(l);
        }
    return w;
}

// ------------------------------------------------------------------ overlap
static void overlap() {
    vf::forCases("overlap", [&](uint64_t c, Rng &r) {
        double mean;
        Drive d;
        const World w = world(r, false, mean, d);
        const SylinderConfig &cf = w.cfg;
        const int steps = r.i(2, 8);
        writePos(w, "pos.dat");
        auto sys = start(w, "pos.dat");
        const std::string inf0 = w.str() + vf::fmt(" ranks=%d threads=%d solver=%d tol=%g dt=%g disp=%g bnd=%zu links=%zu", size(), omp_get_max_threads(), cf.conSolverChoice, cf.conResTol, cf.dt,
                                                   d.disp, w.bnds.size(), w.links.size());
        for (int step = 0; step < steps; step++) {
            const std::string inf = inf0 + vf::fmt(" step=%d", step);
            vf::beginCase(c, "overlap " + inf);
            sys->prepareStep();
            const auto A = particles(*sys);
            drive(*sys, w, c, step, d, mean);
            cap->lines.clear();
            sys->runStep();
            const auto Z = particles(*sys);
            const auto B = blocks(*sys);
            double res = reportedResidual();
            MPI_Bcast(&res, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
            bool ok = A.size() == Z.size();
            for (size_t i = 0; ok && i < Z.size(); i++)
                ok = A[i].gid == Z[i].gid && std::isfinite(Z[i].pos[0]) && std::isfinite(Z[i].orientation[0]);
            if (!ok) {
                vf::violation("identity", "%s: particles changed in the step, or are not finite", inf.c_str());
                break;
            }
            vf::count("steps");
            if (!(res >= 0 && res < cf.conResTol)) {
                vf::count("steps_not_converged");
                continue;
            }
            const int n = A.size();
            std::vector<Core> K(n), H(n);
            std::vector<ld> mv(n), th(n);
            ld ext = 0, far = 0;
            std::map<int, int> at;
            for (int i = 0; i < n; i++) {
                Sylinder a = A[i], z = Z[i];
                a.radiusCollision = z.radiusCollision = a.radius * cf.sylinderDiameterColRatio;
                a.lengthCollision = z.lengthCollision = a.length * cf.sylinderLengthColRatio;
                K[i] = core(a), H[i] = core(z);
                th[i] = cf.dt * nrm(V(z.omega));
                mv[i] = nrm(H[i].c - K[i].c) + th[i] * K[i].len / 2;
                ext = std::max(ext, K[i].len + 2 * K[i].r);
                far = std::max(far, nrm(K[i].c));
                at[A[i].gid] = i;
            }
            const ld tol = cf.conResTol * cf.dt * 1.01L + 1e-7L * ext + 1e-13L * far;
            const ld cb = cf.sylinderColBuf;
            int shown = 0;
            long inContact = 0, resolved = 0;
            // ---- pairs
            int lim[3];
            for (int k = 0; k < 3; k++)
                lim[k] = cf.simBoxPBC[k] ? 3 : 0;
            for (int i = 0; i < n && shown < 3; i++)
                for (int j = i + 1; j < n && shown < 3; j++) {
                    if (A[i].isImmovable && A[j].isImmovable)
                        continue;
                    const ld R = K[i].r + K[j].r, reach = (K[i].len + K[j].len) / 2 + R * (1 + cb) + mv[i] + mv[j] + tol;
                    for (int a = -lim[0]; a <= lim[0]; a++)
                        for (int b = -lim[1]; b <= lim[1]; b++)
                            for (int e = -lim[2]; e <= lim[2]; e++) {
                                const V sh(a * ((ld)cf.simBoxHigh[0] - cf.simBoxLow[0]), b * ((ld)cf.simBoxHigh[1] - cf.simBoxLow[1]), e * ((ld)cf.simBoxHigh[2] - cf.simBoxLow[2]));
                                if (nrm(K[j].c + sh - K[i].c) > reach)
                                    continue;
                                ld s, t, D0, s1, t1, D1;
                                closest(K[i], K[j], K[j].c + sh, s, t, D0);
                                if (D0 - R >= R * cb - tol) // no contact was promised
                                    continue;
                                closest(H[i], H[j], H[j].c + sh, s1, t1, D1);
                                inContact++;
                                if (D0 < R - tol)
                                    resolved++;
                                if (D1 >= R - tol) {
                                    vf::count("pairs_apart_after_step");
                                    continue;
                                }
                                if (D0 < 1e-3L * R) { // cores cross: no direction to separate them in
                                    vf::count("pairs_crossed_not_judged");
                                    continue;
                                }
                                // curvature of the step
                                const V P0 = K[i].c + s * K[i].d, Q0 = K[j].c + sh + t * K[j].d, P1 = H[i].c + s * H[i].d, Q1 = H[j].c + sh + t * H[j].d;
                                const ld so = fabsl(s) * th[i] * th[i] / 2 + fabsl(t) * th[j] * th[j] / 2;
                                const ld G = nrm(P1 - Q1), lowG = std::max(0.0L, R - tol - so);
                                const bool rods = !K[i].sph && !K[j].sph;
                                const ld m = rods ? 1 - fabsl(vdot(H[i].d, H[j].d)) : 1, m0 = rods ? 1 - fabsl(vdot(K[i].d, K[j].d)) : 1;
                                if (m0 < 1e-2L || m < 1e-2L) { // nearly parallel: one contact does not hold the pair
                                    vf::count("pairs_parallel_not_judged");
                                    continue;
                                }
                                const long b0 = vf::st().nviol;
                                VF_CHECK(G >= lowG, "contact-overlap", "%s: %s / %s image (%d,%d,%d): contact points %.9g apart before, %.9g after a converged step (residual %g), contact distance %.9g, allowance %.3g",
                                         inf.c_str(), show(A[i]).c_str(), show(A[j]).c_str(), a, b, e, (double)D0, (double)G, res, (double)R, (double)(R - lowG));
                                ld g2 = 0;
                                if (!K[i].sph)
                                    g2 += powl(vdot(H[i].d, P1 - Q1) - vdot(K[i].d, P0 - Q0), 2);
                                if (!K[j].sph)
                                    g2 += powl(vdot(H[j].d, P1 - Q1) - vdot(K[j].d, P0 - Q0), 2);
                                const ld low2 = lowG * lowG - g2 / m, low = low2 > 0 ? sqrtl(low2) : 0;
                                VF_CHECK(D1 >= low - 1e-9L * ext, "overlap", "%s: %s / %s image (%d,%d,%d): cores %.9g apart before, %.9g after a converged step (residual %g), contact distance %.9g, allowed %.9g", inf.c_str(),
                                         show(A[i]).c_str(), show(A[j]).c_str(), a, b, e, (double)D0, (double)D1, res, (double)R, (double)low);
                                vf::count("pairs_judged_with_curvature");
                                vf::maxi("largest_overlap_by_curvature", (double)((R - D1) / R));
                                shown += vf::st().nviol != b0;
                            }
                }
            // ---- boundaries
            for (auto &bd : w.bnds)
                for (int i = 0; i < n && shown < 3; i++)
                    for (int e = -1; e <= 1; e += 2) {
                        if (K[i].sph && e > 0)
                            continue;
                        const V x0 = K[i].sph ? K[i].c : e < 0 ? K[i].a : K[i].b, x1 = K[i].sph ? H[i].c : e < 0 ? H[i].a : H[i].b;
                        V g, g1;
                        const ld s0 = bd.sd(x0, g), s1 = bd.sd(x1, g1), rad = K[i].r;
                        if (A[i].isImmovable || s0 >= rad * (1 + 2 * cb) - tol)
                            continue;
                        inContact++;
                        if (s0 < rad - tol)
                            resolved++;
                        const ld u = nrm(x1 - x0), w0 = (ld)bd.R - (bd.inside ? s0 : -s0); // distance from centre or axis
                        ld cur = bd.kind == 1 || !bd.inside ? 0 : w0 > 0 ? u * u / (2 * w0) : 1e30L;
                        cur += K[i].len / 2 * th[i] * th[i] / 2;
                        if (bd.kind != 1 && w0 < 1e-6L * bd.R)
                            continue;
                        vf::count("boundary_ends_judged");
                        const long b0 = vf::st().nviol;
                        VF_CHECK(s1 >= rad - tol - cur, "escape", "%s: %s: end at signed distance %.9g from boundary %s before, %.9g after a converged step (residual %g), radius %.9g, curvature allowance %.3g", inf.c_str(),
                                 show(A[i]).c_str(), (double)s0, bd.str().c_str(), (double)s1, res, (double)rad, (double)cur);
                        shown += vf::st().nviol != b0;
                    }
            // ---- links
            std::map<std::pair<int, int>, double> gam;
            for (auto &b : B)
                if (b.bilateral)
                    gam[{b.gidI, b.gidJ}] = b.gamma;
            for (auto &l : w.links) {
                const int i = at[l.first], j = at[l.second];
                if (shown > 2 || (A[i].isImmovable && A[j].isImmovable))
                    continue;
                // real lengths, not collision lengths
                const V di = K[i].d, dj = K[j].d;
                const V P0 = K[i].c + (ld)A[i].length / 2 * di;
                V cj = K[j].c;
                bool tie = false;
                for (int k = 0; k < 3; k++)
                    if (cf.simBoxPBC[k]) {
                        const ld E = (ld)cf.simBoxHigh[k] - cf.simBoxLow[k], z = roundl((cj[k] - K[i].c[k]) / E);
                        cj[k] -= z * E;
                        tie = tie || fabsl(fabsl(cj[k] - K[i].c[k]) - E / 2) < 1e-9L * E;
                    }
                if (tie)
                    continue;
                const V Q0 = cj - (ld)A[j].length / 2 * dj, mvJ = H[j].c - K[j].c;
                const V P1 = H[i].c + (ld)A[i].length / 2 * H[i].d, Q1 = cj + mvJ - (ld)A[j].length / 2 * H[j].d;
                const ld D0 = nrm(P0 - Q0), u = nrm(P1 - P0) + nrm(Q1 - Q0);
                if (D0 < 4 * u || D0 < 1e-3L * ext)
                    continue;
                const ld cur = u * u / (2 * (D0 - u)) + (ld)A[i].length / 4 * th[i] * th[i] + (ld)A[j].length / 4 * th[j] * th[j];
                auto it = gam.find(l);
                const ld sep = nrm(P1 - Q1) - A[i].radius - A[j].radius - cf.linkGap;
                const long b0 = vf::st().nviol;
                if (it == gam.end()) {
                    vf::violation("link-missing", "%s: no force recorded for link %d->%d", inf.c_str(), l.first, l.second);
                    break;
                }
                VF_CHECK(fabsl(sep + it->second / cf.linkKappa) <= tol + cur + 1e-9L * fabsl(sep), "link-spring",
                         "%s: link %d->%d: separation %.9g after a converged step (residual %g), its spring of stiffness %g carries %.9g, that is %.9g", inf.c_str(), l.first, l.second, (double)sep, res,
                         cf.linkKappa, it->second, (double)(-it->second / cf.linkKappa));
                vf::count("links_judged");
                shown += vf::st().nviol != b0;
            }
            vf::count("contacts_promised_to_hold", inContact);
            vf::count("overlaps_to_separate", resolved);
            vf::count("steps_converged");
            if (inContact) {
                vf::count("converged_steps_with_contacts");
                vf::evals();
                vf::distinct(vf::mix(c, step));
            }
            if (vf::wantSample() && step == 1)
                vf::sample(inf + vf::fmt(" -> residual %g, %ld contacts", res, inContact));
            if (shown > 2)
                break;
            double E = 0;
            bool gone = false;
            for (int k = 0; k < 3; k++)
                E = std::max(E, cf.simBoxHigh[k] - cf.simBoxLow[k]);
            for (auto &s : Z)
                for (int k = 0; k < 3; k++)
                    gone = gone || std::fabs(s.pos[k] - cf.simBoxLow[k]) > 1e3 * E;
            if (gone)
                break;
        }
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
}

// ------------------------------------------------------------------ traj
struct Fin {
    int gid;
    double x[7], f[3], v[3];
};
static void traj() {
    const std::string prev = vf::option("prev", "");
    std::map<std::pair<uint64_t, int>, std::vector<Fin>> ref; // by case and step
    std::map<std::pair<uint64_t, int>, std::array<double, 6>> refHead;
    if (!prev.empty())
        if (FILE *f = fopen((prev + "/traj.bin").c_str(), "rb")) {
            uint64_t c;
            int st, n;
            while (fread(&c, 8, 1, f) == 1 && fread(&st, 4, 1, f) == 1 && fread(&n, 4, 1, f) == 1) {
                auto &h = refHead[{c, st}];
                auto &v = ref[{c, st}];
                v.resize(n);
                if (fread(h.data(), 8, 6, f) != 6 || fread(v.data(), sizeof(Fin), n, f) != (size_t)n)
                    break;
            }
            fclose(f);
        }
    FILE *out = rank() == 0 && prev.empty() ? fopen("traj.bin", "wb") : nullptr;
    vf::forCases("traj", [&](uint64_t c, Rng &r) {
        double mean;
        Drive d;
        const World w = world(r, true, mean, d);
        const SylinderConfig &cf = w.cfg;
        const int steps = r.i(2, 6);
        writePos(w, "pos.dat");
        auto sys = start(w, "pos.dat");
        const std::string inf0 = w.str() + vf::fmt(" ranks=%d threads=%d solver=%d dt=%g disp=%g bnd=%zu links=%zu", size(), omp_get_max_threads(), cf.conSolverChoice, cf.dt, d.disp, w.bnds.size(),
                                                   w.links.size());
        ld moved = 0; // the largest distance anything moved by constraints so far
        for (int step = 0; step < steps; step++) {
            const std::string inf = inf0 + vf::fmt(" step=%d", step);
            vf::beginCase(c, "traj " + inf);
            sys->prepareStep();
            const auto A = particles(*sys);
            drive(*sys, w, c, step, d, mean);
            cap->lines.clear();
            sys->runStep();
            const auto Z = particles(*sys);
            const auto B = blocks(*sys);
            double res = reportedResidual();
            MPI_Bcast(&res, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
            // what makes the step depend on rounding: no unique contact points, no contact normal, no converged solution
            std::map<int, int> at;
            for (size_t i = 0; i < A.size(); i++)
                at[A[i].gid] = i;
            bool unique = res >= 0 && res < cf.conResTol;
            std::array<double, 6> head = {{0, 0, 0, 0, 0, 0}}; // blocks of each kind, blocks near the threshold, sums
            long edge = 0;
            ld ext = mean;
            for (auto &b : B) {
                head[b.bilateral ? 2 : b.oneSide ? 1 : 0]++;
                const auto &I = A[at[b.gidI]], &J = A[at[b.gidJ]];
                ext = std::max(ext, (ld)std::max(I.lengthCollision, J.lengthCollision));
                const double D = (double)nrm(V(b.labI) - V(b.labJ));
                if (D < 1e-3 * mean && !b.oneSide)
                    unique = false;
                if (!b.oneSide && !b.bilateral) {
                    const Core x = core(I), y = core(J);
                    const ld sep = b.delta0, thr = (x.r + y.r) * cf.sylinderColBuf;
                    edge += fabsl(sep - thr) < 1e-5L * mean;
                    if (!x.sph && !y.sph && 1 - fabsl(vdot(x.d, y.d)) < 1e-2L)
                        unique = false;
                }
                if (b.oneSide) {
                    const Core x = core(I);
                    edge += std::fabs(b.delta0 - 2 * cf.sylinderColBuf * (double)x.r) < 1e-5 * mean;
                }
                if (b.bilateral) { // which image is the nearest one?
                    for (int k = 0; k < 3; k++)
                        if (cf.simBoxPBC[k]) {
                            const ld E = (ld)cf.simBoxHigh[k] - cf.simBoxLow[k], z = (I.pos[k] - (ld)J.pos[k]) / E;
                            if (fabsl(fabsl(z - roundl(z)) - 0.5L) < 1e-3L)
                                unique = false;
                        }
                }
            }
            head[3] = edge;
            ld dm = 0, free = 0;
            for (auto &s : Z) {
                dm = std::max(dm, (ld)cf.dt * (nrm(V(s.velCol)) + nrm(V(s.velBi)) + (nrm(V(s.omegaCol)) + nrm(V(s.omegaBi))) * s.length));
                free = std::max(free, (ld)cf.dt * (nrm(V(s.vel)) + nrm(V(s.omega)) * s.length));
            }
            head[4] = unique;
            vf::count("steps");
            moved += dm;
            std::vector<Fin> fin;
            for (auto &s : Z) {
                Fin f;
                f.gid = s.gid;
                for (int k = 0; k < 3; k++)
                    f.x[k] = s.pos[k], f.f[k] = s.force[k], f.v[k] = s.vel[k];
                for (int k = 0; k < 4; k++)
                    f.x[3 + k] = s.orientation[k];
                fin.push_back(f);
            }
            std::sort(fin.begin(), fin.end(), [](const Fin &a, const Fin &b) { return a.gid < b.gid; });
            if (prev.empty()) {
                if (out) {
                    const int n = fin.size();
                    fwrite(&c, 8, 1, out);
                    fwrite(&step, 4, 1, out);
                    fwrite(&n, 4, 1, out);
                    fwrite(head.data(), 8, 6, out);
                    fwrite(fin.data(), sizeof(Fin), n, out);
                    fflush(out);
                }
            } else if (!ref.count({c, step}) || !refHead[{c, step}][4]) {
                vf::count("steps_without_reference");
                break;
            } else {
                const auto &R = ref[{c, step}];
                const auto &h = refHead[{c, step}];
                bool same = R.size() == fin.size();
                for (size_t i = 0; same && i < R.size(); i++)
                    same = R[i].gid == fin[i].gid;
                VF_CHECK(same, "identity", "%s: other particles than the reference run", inf.c_str());
                if (!same)
                    break;
                if (h[3] == 0 && edge == 0)
                    for (int k = 0; k < 3; k++)
                        VF_CHECK(h[k] == head[k], "constraints-found", "%s: %g %s constraints, the run on one rank and thread found %g", inf.c_str(), head[k],
                                 k == 0 ? "collision" : k == 1 ? "boundary" : "link", h[k]);
                VF_CHECK(unique || res >= cf.conResTol, "contact-geometry", "%s: contacts without a unique geometry, not so in the run on one rank and thread", inf.c_str());
                // contacts amplify the residual; without any, only rounding is allowed
                ld far = 0;
                for (auto &f : fin)
                    for (int k = 0; k < 3; k++)
                        far = std::max(far, fabsl((ld)f.x[k]));
                const ld tol = (step + 1) * 1e-12L * (far + ext + free) + (moved > 0 ? 1e-4L * moved + 1e-8L * mean : 0);
                int shown = 0;
                for (size_t i = 0; i < R.size() && shown < 3; i++) {
                    const Fin &a = R[i], &b = fin[i];
                    ld e = 0, q = 0, sg = 0;
                    for (int k = 0; k < 3; k++) {
                        ld x = (ld)b.x[k] - a.x[k];
                        if (cf.simBoxPBC[k]) {
                            const ld E = (ld)cf.simBoxHigh[k] - cf.simBoxLow[k];
                            x -= E * roundl(x / E);
                        }
                        e = std::max(e, fabsl(x));
                    }
                    for (int k = 0; k < 4; k++)
                        sg += (ld)a.x[3 + k] * b.x[3 + k];
                    for (int k = 0; k < 4; k++)
                        q = std::max(q, fabsl(b.x[3 + k] - (sg < 0 ? -1 : 1) * (ld)a.x[3 + k]));
                    const long b0 = vf::st().nviol;
                    VF_CHECK(e <= tol, "position", "%s: gid %d at (%.12g,%.12g,%.12g), on one rank and thread at (%.12g,%.12g,%.12g); differs by %.3g, allowed %.3g, moved by constraints %.3g", inf.c_str(), a.gid,
                             b.x[0], b.x[1], b.x[2], a.x[0], a.x[1], a.x[2], (double)e, (double)tol, (double)moved);
                    const ld tq = (step + 1) * 1e-12L * (1 + free / mean) + (moved > 0 ? 10 * tol / mean : 0);
                    VF_CHECK(q <= tq, "orientation", "%s: gid %d orientation differs by %.3g from the run on one rank and thread, allowed %.3g", inf.c_str(), a.gid, (double)q, (double)tq);
                    vf::maxi(moved > 0 ? "largest_difference_over_allowance_with_contacts" : "largest_difference_over_allowance_without_contacts", (double)std::max(e / tol, q / tq));
                    shown += vf::st().nviol != b0;
                }
                vf::count("states_compared", (long)fin.size());
                vf::count("steps_compared");
                if (moved > 0)
                    vf::count("steps_compared_after_contact");
                if (head[0] > 0)
                    vf::count("steps_compared_with_collision_blocks");
                vf::evals();
                vf::distinct(vf::mix(c, step));
                if (vf::wantSample())
                    vf::sample(inf + vf::fmt(" -> %zu particles compared, %g collision %g boundary %g link blocks", fin.size(), head[0], head[1], head[2]));
                if (shown)
                    break;
            }
            if (!unique) {
                vf::count("cases_left_at_contacts_without_unique_solution");
                break;
            }
        }
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
    if (out)
        fclose(out);
    if (prev.empty()) // the reference run compares nothing itself
        vf::count("reference_runs");
}

int main(int argc, char **argv) {
    setup(&argc, &argv);
    cap = std::make_shared<Cap>();
    spdlog::set_default_logger(std::make_shared<spdlog::logger>("vf", cap));
    Logger::set_level(spdlog::level::off);
    const std::string m = vf::st().mode;
    if (m == "overlap")
        overlap();
    if (m == "traj")
        traj();
    return done();
}
