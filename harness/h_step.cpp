// Whole-system histories: particles and links are added, moved by prescribed forces and velocities, wrapped, exchanged.
//   hist    P19 (identity and images), P21 (velocity and force bookkeeping), P33 (diagnostics)
//   overlap P20 (no new overlap after a converged step)
//   traj    P22 (final states of fixed cases, compared between runs with other rank and thread counts)
#include "sys.hpp"
#include <spdlog/sinks/base_sink.h>
using namespace sysv;

// ------------------------------------------------------------------ log capture
struct Cap : public spdlog::sinks::base_sink<std::mutex> {
    std::vector<std::string> lines;

  protected:
    void sink_it_(const spdlog::details::log_msg &m) override { lines.emplace_back(m.payload.data(), m.payload.size()); }
    void flush_() override {}
};
static std::shared_ptr<Cap> cap;
static void captureLog() {
    cap = std::make_shared<Cap>();
    spdlog::set_default_logger(std::make_shared<spdlog::logger>("vf", cap));
    Logger::set_level(spdlog::level::off);
}
// numbers of the last captured line starting with head
static bool logged(const std::string &head, std::vector<double> &v) {
    for (auto it = cap->lines.rbegin(); it != cap->lines.rend(); ++it)
        if (it->compare(0, head.size(), head) == 0) {
            v.clear();
            std::string s = it->substr(head.size());
            for (auto &ch : s)
                if (ch == ',' || ch == 'Q')
                    ch = ' ';
            std::istringstream is(s);
            std::string x;
            while (is >> x)
                v.push_back(atof(x.c_str()));
            return true;
        }
    return false;
}

// ------------------------------------------------------------------ mobility by its definition
struct Mob {
    ld para, perp, rot;
};
static Mob mobility(const Sylinder &s, ld mu) {
    const ld pi = 3.14159265358979323846264338L, L = s.length, r = s.radius;
    if (s.isImmovable)
        return {0, 0, 0};
    if (L < 2 * r) {
        const ld R = L / 2 + r;
        return {1 / (6 * pi * mu * R), 1 / (6 * pi * mu * R), 1 / (8 * pi * mu * R * R * R)};
    }
    const ld b = -(1 + 2 * logl(r / L));
    return {1 / (8 * pi * L * mu / (2 * b)), 1 / (8 * pi * L * mu / (b + 2)), 1 / (2 * pi * mu * L * L * L / (3 * (b + 2)))};
}
static V mulT(const Mob &m, const V &d, const V &f) { return m.perp * f + ((m.para - m.perp) * vdot(d, f)) * d; }
static V mulR(const Mob &m, const V &t) { return m.rot * t; }

// ------------------------------------------------------------------ hist
struct Rec { // what the model knows of a particle
    double r, L;
    int group;
    bool imm;
    double pos[3], q[4];
};
static void prescribed(uint64_t c, int gid, int step, double out[12]) { // unit force, torque, velocity, angular velocity
    Rng q(vf::mix(vf::mix(c, 77 + step), gid));
    for (int k = 0; k < 12; k++)
        out[k] = q.p(0.05) ? 0 : q.n();
}

static void diagnostics(SylinderSystem &s, const World &w, const std::vector<Sylinder> &A, const std::vector<int> &own, const std::string &inf) {
    double ll[3], lh[3], gl[3], gh[3];
    s.calcBoundingBox(ll, lh, gl, gh);
    V lo[2], hi[2];
    int n[2] = {0, 0}, mg[2] = {0, 0};
    ld vol = 0, P[3] = {0, 0, 0}, Q[9] = {0};
    const ld pi = 3.14159265358979323846264338L;
    for (size_t i = 0; i < A.size(); i++) {
        const V d = axis(A[i].orientation), c(A[i].pos);
        for (int g = 0; g < 2; g++) {
            if (g == 0 && own[i] != rank())
                continue;
            for (int e = -1; e <= 1; e += 2) {
                const V p = c + (e * (ld)A[i].length / 2) * d;
                for (int k = 0; k < 3; k++) {
                    lo[g][k] = n[g] ? std::min(lo[g][k], p[k]) : p[k];
                    hi[g][k] = n[g] ? std::max(hi[g][k], p[k]) : p[k];
                }
                n[g]++;
            }
            mg[g] = std::max(mg[g], A[i].gid);
        }
        const ld r = A[i].radius;
        vol += pi * r * r * A[i].length + 4 * pi * r * r * r / 3;
        for (int a = 0; a < 3; a++) {
            P[a] += d[a];
            for (int b = 0; b < 3; b++)
                Q[3 * a + b] += d[a] * d[b] - (a == b ? 1 / 3.0L : 0);
        }
    }
    ld sc = 1;
    for (int k = 0; k < 3; k++)
        sc = std::max(sc, std::max(fabsl(lo[1][k]), fabsl(hi[1][k])));
    for (int k = 0; k < 3; k++) {
        if (n[0])
            VF_CHECK(fabsl(ll[k] - lo[0][k]) <= 1e-12L * sc && fabsl(lh[k] - hi[0][k]) <= 1e-12L * sc, "bbox-local",
                     "%s: dimension %d: local box [%.15g,%.15g], ends of the local particles span [%.15g,%.15g]", inf.c_str(), k, ll[k], lh[k], (double)lo[0][k], (double)hi[0][k]);
        if (n[1])
            VF_CHECK(fabsl(gl[k] - lo[1][k]) <= 1e-12L * sc && fabsl(gh[k] - hi[1][k]) <= 1e-12L * sc, "bbox-global",
                     "%s: dimension %d: global box [%.15g,%.15g], ends of all particles span [%.15g,%.15g]", inf.c_str(), k, gl[k], gh[k], (double)lo[1][k], (double)hi[1][k]);
    }
    for (int k = 0; k < 3; k++)
        if (hi[1][k] < 0)
            vf::count("boxes_wholly_negative_in_a_dimension");
    if (!n[0])
        vf::count("rank0_empty");
    const auto m = s.getMaxGid();
    VF_CHECK(m.first == mg[0] && m.second == mg[1], "maxgid", "%s: getMaxGid gives (%d,%d), largest ids are local %d global %d", inf.c_str(), m.first, m.second, mg[0], mg[1]);
    cap->lines.clear();
    s.calcVolFrac();
    s.calcOrderParameter();
    if (rank() == 0) {
        std::vector<double> v;
        ld box = 1;
        for (int k = 0; k < 3; k++)
            box *= (ld)w.cfg.simBoxHigh[k] - w.cfg.simBoxLow[k];
        VF_CHECK(logged("Volume Sylinder = ", v) && v.size() == 1 && fabsl(v[0] - vol) <= 2e-5L * vol, "volume", "%s: total volume logged %g, is %g", inf.c_str(), v.empty() ? -1.0 : v[0],
                 (double)vol);
        VF_CHECK(logged("Volume fraction = ", v) && v.size() == 1 && fabsl(v[0] - vol / box) <= 2e-5L * vol / box, "volume-fraction", "%s: volume fraction logged %g, is %g", inf.c_str(),
                 v.empty() ? -1.0 : v[0], (double)(vol / box));
        const ld N = A.size();
        bool ok = logged("RECORD: Order P,", v) && v.size() == 12;
        std::string got;
        for (auto x : v)
            got += vf::fmt("%g ", x);
        for (int k = 0; ok && k < 3; k++)
            ok = fabsl(v[k] - P[k] / N) <= 2e-5L * fabsl(P[k] / N) + 1e-10L;
        for (int k = 0; ok && k < 9; k++)
            ok = fabsl(v[3 + k] - Q[k] / N) <= 2e-5L * fabsl(Q[k] / N) + 1e-10L;
        VF_CHECK(ok, "order-parameter", "%s: logged [%s], P is (%g,%g,%g), Q is (%g,%g,%g;%g,%g,%g;%g,%g,%g)", inf.c_str(), got.c_str(), (double)(P[0] / N), (double)(P[1] / N),
                 (double)(P[2] / N), (double)(Q[0] / N), (double)(Q[1] / N), (double)(Q[2] / N), (double)(Q[3] / N), (double)(Q[4] / N), (double)(Q[5] / N), (double)(Q[6] / N),
                 (double)(Q[7] / N), (double)(Q[8] / N));
        vf::count("diagnostics_compared");
    }
}
static void stressDiag(SylinderSystem &s, const World &w, const std::vector<ConstraintBlock> &B, size_t N, const std::string &inf) {
    ld S[2][9] = {{0}, {0}}, mx[2] = {0, 0};
    for (auto &b : B)
        for (int k = 0; k < 9; k++) {
            S[b.bilateral][k] += b.stress[k];
            mx[b.bilateral] = std::max(mx[b.bilateral], fabsl((ld)b.stress[k]));
        }
    cap->lines.clear();
    s.calcConStress();
    if (rank())
        return;
    std::vector<double> v;
    const ld f = 1 / ((ld)N * w.cfg.KBT);
    for (int bi = 0; bi < 2; bi++) {
        bool ok = logged(bi ? "RECORD: BiXF," : "RECORD: ColXF,", v) && v.size() == 9;
        std::string got, want;
        for (auto x : v)
            got += vf::fmt("%g ", x);
        for (int k = 0; k < 9; k++) {
            want += vf::fmt("%g ", (double)(S[bi][k] * f));
            ok = ok && fabsl(v[k] - S[bi][k] * f) <= 2e-5L * fabsl(S[bi][k] * f) + 1e-10L * mx[bi] * f;
        }
        VF_CHECK(ok, "constraint-stress", "%s: %s stress logged [%s], sum over %zu blocks [%s]", inf.c_str(), bi ? "bilateral" : "collision", got.c_str(), B.size(), want.c_str());
    }
    vf::count("stress_sums_compared");
    if (mx[0] > 0)
        vf::count("nonzero_collision_stress_sums");
    if (mx[1] > 0)
        vf::count("nonzero_link_stress_sums");
}

static void hist() {
    const std::string prop = vf::st().prop;
    const bool p19 = prop == "P19", p21 = prop == "P21", p33 = prop == "P33", all = prop == "P31" || prop == "P32";
    captureLog();
    vf::forCases("hist", [&](uint64_t c, Rng &r) {
        GenOpt o;
        o.nmin = r.p(0.15) ? 1 : 3;
        o.nmax = r.p(0.15) ? 5 : 45;
        o.immovable = 0;
        o.density = r.pick(std::vector<double>{0.3, 1, 2});
        World w = makeWorld(r, o);
        SylinderConfig &cf = w.cfg;
        cf.logLevel = p33 || all ? spdlog::level::info : spdlog::level::off;
        double mean = 0, Rmean = 0;
        for (auto &p : w.parts) {
            mean += (2 * p.r + (double)nrm(V(p.p) - V(p.m))) / w.parts.size();
            Rmean += p.r / w.parts.size();
        }
        cf.viscosity = r.pick(std::vector<double>{1, 1, 0.01, 30});
        cf.dt = r.pick(std::vector<double>{0.01, 1e-4, 1});
        cf.timeSnap = 1e5 * cf.dt;
        cf.conMaxIte = 100;
        cf.conSolverChoice = r.i(2);
        cf.linkKappa = r.pick(std::vector<double>{100, 1, 1e4}) * cf.viscosity * mean / (cf.dt * 100);
        cf.linkGap = r.pick(std::vector<double>{0, 0.1 * mean});
        cf.sylinderFixed = r.p(0.07);
        cf.monolayer = r.p(0.2);
        cf.rngSeed = r.i(1, 1000000);
        // monolayer: rods only (the in-plane direction of a rod on end, or of a sphere without one, is not defined)
        if (cf.monolayer)
            for (auto &p : w.parts) {
                const double len = std::max((double)nrm(V(p.p) - V(p.m)), 3 * p.r), a = r.u(0, 6.28), z = r.u(-0.5, 0.5);
                const double d[3] = {std::cos(a) * std::sqrt(1 - z * z), std::sin(a) * std::sqrt(1 - z * z), z};
                for (int k = 0; k < 3; k++) {
                    const double m = 0.5 * (p.m[k] + p.p[k]);
                    p.m[k] = m - 0.5 * len * d[k];
                    p.p[k] = m + 0.5 * len * d[k];
                }
            }
        const double disp = mean * r.logu(1e-3, r.p(0.2) ? 20 : 1); // displacement per step by prescribed motion
        const double U = disp / cf.dt, F = 6 * 3.14 * cf.viscosity * mean / 2 * U;
        if (p33 || r.p(0.3)) {
            const double MM = 1 / (6 * 3.14 * cf.viscosity * Rmean);
            cf.KBT = std::pow(0.05 * mean, 2) / (2 * MM * cf.dt) * r.pick(std::vector<double>{1e-2, 1});
        }
        const bool bnd = r.p(0.25);
        if (bnd)
            for (int b = r.i(1, 2); b > 0; b--) {
                Bnd x;
                x.kind = cf.monolayer ? 1 : r.i(3);
                double E = 0;
                for (int k = 0; k < 3; k++) {
                    E = std::max(E, cf.simBoxHigh[k] - cf.simBoxLow[k]);
                    x.c[k] = r.u(cf.simBoxLow[k], cf.simBoxHigh[k]);
                }
                r.dir(x.n);
                if (cf.monolayer) {
                    x.n[2] = 0;
                    x.n[0] += 1e-3;
                }
                x.R = E * r.u(0.3, 1);
                x.inside = r.p(0.7);
                w.bnds.push_back(x);
            }
        else if (r.p(0.5) && w.parts.size() > 1)
            w.parts[r.i((int)w.parts.size())].imm = true; // one only: two of them overlapping have no solution
        // links
        const int n0 = (int)w.parts.size();
        if (n0 > 1 && r.p(0.6))
            for (int k = r.i(1, n0); k > 0; k--) {
                const int a = r.i(n0), b = r.i(n0);
                if (a != b && std::find(w.links.begin(), w.links.end(), std::make_pair(w.parts[a].gid, w.parts[b].gid)) == w.links.end())
                    w.links.push_back({w.parts[a].gid, w.parts[b].gid});
            }
        writePos(w, "pos.dat", rank() == 0 ? &r : nullptr);
        r = Rng(vf::mix(c, 1)); // the ranks agree from here on
        auto sys = start(w, "pos.dat");
        const std::string inf0 = w.str() + vf::fmt(" ranks=%d threads=%d mono=%d fixed=%d kT=%g bnd=%zu links=%zu", size(), omp_get_max_threads(), (int)cf.monolayer, (int)cf.sylinderFixed,
                                                   cf.KBT, w.bnds.size(), w.links.size());
        // the model
        std::map<int, Rec> model;
        std::multimap<int, int> lmodel;
        for (auto &l : w.links)
            lmodel.insert(l);
        {
            std::map<int, PartIn> in;
            for (auto &p : w.parts)
                in[p.gid] = p;
            const auto A = particles(*sys);
            for (auto &s : A) { // P35 checks the reading itself
                Rec e{s.radius, s.length, s.group, s.isImmovable, {s.pos[0], s.pos[1], s.pos[2]}, {s.orientation[0], s.orientation[1], s.orientation[2], s.orientation[3]}};
                model[s.gid] = e;
                if ((p19 || all) && !in.count(s.gid))
                    vf::violation("identity", "%s: particle %d is not one of the input", inf0.c_str(), s.gid);
            }
            VF_CHECK(model.size() == in.size() && A.size() == in.size(), "identity", "%s: %zu particles after initialisation, %zu in the file", inf0.c_str(), A.size(), in.size());
        }
        int tag = 100000;
        const int steps = r.p(0.04) && n0 < 10 ? 53 : r.i(2, 8);
        bool dead = false;
        for (int step = 0; step < steps && !dead; step++) {
            const std::string inf = inf0 + vf::fmt(" step=%d", step);
            vf::beginCase(c, "hist " + inf);
            const long before = vf::st().nviol;
            // ---- add particles and links
            if (r.p(0.3) && (p19 || p33 || all || r.p(0.5))) {
                std::vector<int> cnt(size());
                for (auto &x : cnt)
                    x = r.p(0.3) ? 0 : p19 && r.p(0.05) ? r.i(30, 120) : r.i(0, 4);
                std::vector<Sylinder> mine, everyone;
                for (int k = 0; k < size(); k++)
                    for (int j = 0; j < cnt[k]; j++) {
                        double p[3], d[3], q[4];
                        for (int a = 0; a < 3; a++)
                            p[a] = r.u(cf.simBoxLow[a], cf.simBoxHigh[a]) + (r.p(0.1) ? 1.3 * (cf.simBoxHigh[a] - cf.simBoxLow[a]) : 0);
                        r.dir(d);
                        if (cf.monolayer)
                            d[2] *= 0.3;
                        Equatn e = Equatn::FromTwoVectors(Evec3(0, 0, 1), Evec3(d[0], d[1], d[2]));
                        for (int a = 0; a < 4; a++)
                            q[a] = e.coeffs()[a];
                        const double R = Rmean * r.u(0.5, 1), L = cf.monolayer || r.p(0.7) ? R * r.u(3, 6) : R * r.u(0, 2);
                        Sylinder s(r.p(0.5) ? -1 : r.i(1000), R, R, L, L, p, q);
                        s.group = tag++;
                        s.clear();
                        everyone.push_back(s);
                        if (k == rank())
                            mine.push_back(s);
                    }
                int old = -1;
                for (auto &m : model)
                    old = std::max(old, m.first);
                const auto ids = sys->addNewSylinder(mine);
                VF_CHECK(ids.size() == mine.size(), "add-count", "%s: %zu ids for %zu new particles", inf.c_str(), ids.size(), mine.size());
                std::vector<int> pr;
                for (size_t j = 0; j < ids.size() && j < mine.size(); j++) {
                    pr.push_back(ids[j]);
                    pr.push_back(mine[j].group);
                }
                pr = gather(pr);
                std::map<int, int> idOf;
                for (size_t j = 0; j + 1 < pr.size(); j += 2) {
                    if (p19 || all)
                        VF_CHECK(!model.count(pr[j]), "add-id-used", "%s: new particle got id %d, which is in use", inf.c_str(), pr[j]);
                    idOf[pr[j + 1]] = pr[j];
                }
                for (auto &s : everyone) {
                    Rec e{s.radius, s.length, s.group, s.isImmovable, {s.pos[0], s.pos[1], s.pos[2]}, {s.orientation[0], s.orientation[1], s.orientation[2], s.orientation[3]}};
                    if (!idOf.count(s.group)) {
                        vf::violation("add-lost", "%s: no id returned for a new particle", inf.c_str());
                        continue;
                    }
                    model[idOf[s.group]] = e;
                }
                vf::count("particles_added", (long)everyone.size());
            }
            if (model.size() > 1 && r.p(0.3)) {
                std::vector<int> gids;
                for (auto &m : model)
                    gids.push_back(m.first);
                std::vector<Link> mine;
                std::set<std::pair<int, int>> fresh;
                for (int k = 0; k < size(); k++)
                    for (int j = r.i(0, 3); j > 0; j--) {
                        Link l;
                        l.prev = r.pick(gids);
                        l.next = r.pick(gids);
                        const bool twice = r.p(0.3); // the same link from several ranks, or twice from one: it counts once
                        if (l.prev == l.next)
                            continue;
                        bool known = false;
                        auto rg = lmodel.equal_range(l.prev);
                        for (auto it = rg.first; it != rg.second; ++it)
                            known = known || it->second == l.next;
                        if (known)
                            continue;
                        fresh.insert({l.prev, l.next});
                        if (k == rank() || (twice && rank() == (k + 1) % size()))
                            mine.push_back(l);
                        if (twice && size() == 1)
                            mine.push_back(l);
                    }
                sys->addNewLink(mine);
                for (auto &l : fresh)
                    lmodel.insert(l);
                vf::count("links_added", (long)fresh.size());
            }
            if (r.p(0.15)) {
                sys->decomposeDomain();
                sys->exchangeSylinder();
                vf::count("extra_decompositions");
            }
            sys->prepareStep();
            // ---- P19: who is where
            std::vector<int> own;
            const auto A = particles(*sys, &own);
            std::map<int, int> at;
            for (size_t i = 0; i < A.size(); i++)
                at[A[i].gid]++;
            bool same = A.size() == model.size() && at.size() == A.size();
            for (auto &m : model)
                same = same && at.count(m.first);
            if (!same) {
                std::string d;
                for (auto &m : model)
                    if (!at.count(m.first))
                        d += vf::fmt(" lost %d;", m.first);
                for (auto &x : at) {
                    if (!model.count(x.first))
                        d += vf::fmt(" made up %d;", x.first);
                    if (x.second > 1)
                        d += vf::fmt(" %d is there %d times;", x.first, x.second);
                }
                vf::violation("identity", "%s: %zu particles, %zu expected:%s", inf.c_str(), A.size(), model.size(), d.substr(0, 300).c_str());
                dead = true;
                break;
            }
            const ld mid = ((ld)cf.simBoxHigh[2] + cf.simBoxLow[2]) / 2;
            long wrapped = 0;
            int shown = 0;
            for (size_t i = 0; i < A.size() && shown < 3; i++) {
                const Sylinder &s = A[i];
                Rec &m = model[s.gid];
                const long b0 = vf::st().nviol;
                if (p19 || all) {
                    VF_CHECK(s.radius == m.r && s.length == m.L && s.group == m.group && s.isImmovable == m.imm, "identity-fields",
                             "%s: gid %d has R %.17g L %.17g group %d immovable %d, was R %.17g L %.17g group %d immovable %d", inf.c_str(), s.gid, s.radius, s.length, s.group, s.isImmovable, m.r,
                             m.L, m.group, m.imm);
                    VF_CHECK(s.globalIndex == (int)i, "global-index", "%s: gid %d is number %zu in rank order, globalIndex %d", inf.c_str(), s.gid, i, s.globalIndex);
                    VF_CHECK(s.rank == own[i], "rank-field", "%s: gid %d on rank %d says rank %d", inf.c_str(), s.gid, own[i], s.rank);
                    VF_CHECK(s.radiusCollision == s.radius * cf.sylinderDiameterColRatio && s.lengthCollision == s.length * cf.sylinderLengthColRatio && s.colBuf == cf.sylinderColBuf,
                             "collision-size", "%s: gid %d collision R %.17g L %.17g buffer %g from R %.17g L %.17g", inf.c_str(), s.gid, s.radiusCollision, s.lengthCollision, s.colBuf, s.radius,
                             s.length);
                }
                for (int k = 0; k < 3; k++) {
                    const double E = cf.simBoxHigh[k] - cf.simBoxLow[k];
                    if (cf.monolayer && k == 2) {
                        if (p19 || p21 || all)
                            VF_CHECK(fabsl(s.pos[2] - mid) <= 1e-14L * (fabsl(mid) + E), "monolayer-plane", "%s: gid %d at z=%.15g, mid-plane %.15g", inf.c_str(), s.gid, s.pos[2], (double)mid);
                        continue;
                    }
                    if (!(p19 || all))
                        continue;
                    if (cf.simBoxPBC[k]) {
                        const ld n = ((ld)s.pos[k] - m.pos[k]) / E;
                        const ld tol = 1e-13L * (fabsl(m.pos[k]) + fabsl(s.pos[k]) + E) * (1 + fabsl(n));
                        VF_CHECK(s.pos[k] >= cf.simBoxLow[k] && s.pos[k] < cf.simBoxHigh[k], "outside-box", "%s: gid %d dimension %d at %.17g, box [%.17g,%.17g)", inf.c_str(), s.gid, k, s.pos[k],
                                 cf.simBoxLow[k], cf.simBoxHigh[k]);
                        VF_CHECK(fabsl(n - roundl(n)) * E <= tol, "not-an-image", "%s: gid %d dimension %d moved from %.15g to %.15g, %.12g boxes of %.15g", inf.c_str(), s.gid, k, m.pos[k], s.pos[k],
                                 (double)n, E);
                        wrapped += fabsl(n) > 0.5L;
                    } else
                        VF_CHECK(s.pos[k] == m.pos[k], "moved", "%s: gid %d dimension %d (not periodic) moved from %.17g to %.17g", inf.c_str(), s.gid, k, m.pos[k], s.pos[k]);
                }
                if (p19 || p21 || all) {
                    const V d = axis(s.orientation), d0 = axis(m.q);
                    if (cf.monolayer) {
                        V e = d0;
                        e[2] = 0;
                        e = (1 / nrm(e)) * e;
                        VF_CHECK(fabsl(d[2]) <= 1e-13L && nrm(d - e) <= 1e-10L, "monolayer-axis", "%s: gid %d axis (%g,%g,%g), wanted (%g,%g,0)", inf.c_str(), s.gid, (double)d[0], (double)d[1],
                                 (double)d[2], (double)e[0], (double)e[1]);
                    } else
                        VF_CHECK(s.orientation[0] == m.q[0] && s.orientation[1] == m.q[1] && s.orientation[2] == m.q[2] && s.orientation[3] == m.q[3], "orientation-changed",
                                 "%s: gid %d (%g,%g,%g,%g) -> (%g,%g,%g,%g)", inf.c_str(), s.gid, m.q[0], m.q[1], m.q[2], m.q[3], s.orientation[0], s.orientation[1], s.orientation[2],
                                 s.orientation[3]);
                }
                shown += vf::st().nviol != b0;
            }
            if (p19 || all) {
                // links: the same on every rank, both directions
                std::multimap<int, int> f(sys->getLinkMap().begin(), sys->getLinkMap().end()), b;
                for (auto &x : sys->getLinkReverseMap())
                    b.insert({x.second, x.first});
                auto norm = [](const std::multimap<int, int> &m) {
                    std::vector<std::pair<int, int>> v(m.begin(), m.end());
                    std::sort(v.begin(), v.end());
                    return v;
                };
                VF_CHECK(norm(f) == norm(lmodel), "link-map", "%s: link map has %zu entries, %zu expected", inf.c_str(), f.size(), lmodel.size());
                VF_CHECK(norm(b) == norm(lmodel), "link-reverse-map", "%s: reverse link map has %zu entries, %zu expected", inf.c_str(), b.size(), lmodel.size());
                // the directory answers with the owner's data
                auto &dir = *sys->getSylinderNearDataDirectory();
                dir.gidToFind.clear();
                Rng q(vf::mix(vf::mix(c, step), rank()));
                std::vector<size_t> ask;
                for (int k = q.i(0, 6); k > 0 && !A.empty(); k--) {
                    ask.push_back(q.i((int)A.size()));
                    dir.gidToFind.push_back(A[ask.back()].gid);
                }
                dir.find();
                for (size_t k = 0; k < ask.size(); k++) {
                    const Sylinder &s = A[ask[k]];
                    const auto &e = dir.dataToFind[k];
                    VF_CHECK(e.gid == s.gid && e.globalIndex == s.globalIndex && e.rank == own[ask[k]] && e.pos[0] == s.pos[0] && e.pos[1] == s.pos[1] && e.pos[2] == s.pos[2] && e.length == s.length &&
                                 e.radius == s.radius,
                             "directory", "%s: asked for gid %d, got gid %d index %d rank %d", inf.c_str(), s.gid, e.gid, e.globalIndex, e.rank);
                }
                // ownership: the domain of the rank
                const PS::F64ort dom = sys->getDomainInfo().getPosDomain(rank());
                for (size_t i = 0; i < A.size(); i++)
                    VF_CHECK(own[i] != rank() || A[i].rank == own[i], "owner-label", "%s: gid %d on rank %d is labelled with rank %d", inf.c_str(), A[i].gid, own[i], A[i].rank);
                for (size_t i = 0; i < A.size(); i++)
                    if (own[i] == rank())
                        for (int k = 0; k < 3; k++)
                            if (cf.simBoxPBC[k] && !(cf.monolayer && k == 2))
                                VF_CHECK(A[i].pos[k] >= dom.low_[k] && A[i].pos[k] <= dom.high_[k], "owner-domain", "%s: gid %d dimension %d at %.15g, domain of its rank [%.15g,%.15g]", inf.c_str(),
                                         A[i].gid, k, A[i].pos[k], dom.low_[k], dom.high_[k]);
                vf::count("identities_compared", (long)A.size());
                vf::count("wrapped_coordinates", wrapped);
                int ranksUsed = 0;
                for (size_t i = 0; i < own.size(); i++)
                    ranksUsed += i == 0 || own[i] != own[i - 1];
                vf::count("steps_with_particles_on_several_ranks", ranksUsed > 1);
            }
            if (p33 || all)
                diagnostics(*sys, w, A, own, inf);
            // ---- drive
            const int drive = r.i(4);
            const bool doF = drive & 1, doV = drive & 2;
            const int nl = sys->getContainer().getNumberOfParticleLocal();
            std::vector<double> ff(6 * nl), vv(6 * nl);
            for (int i = 0; i < nl; i++) {
                double x[12];
                prescribed(c, sys->getContainer()[i].gid, step, x);
                for (int k = 0; k < 6; k++) {
                    ff[6 * i + k] = x[k] * (k < 3 ? F : F * mean / 4);
                    vv[6 * i + k] = x[6 + k] * (k < 3 ? U : U / mean * 2);
                }
            }
            if (doF)
                sys->setForceNonBrown(ff);
            if (doV)
                sys->setVelocityNonBrown(vv);
            sys->runStep();
            // ---- P21
            const auto Z = particles(*sys);
            const auto B = blocks(*sys);
            if (Z.size() != A.size()) {
                vf::violation("identity", "%s: %zu particles after the step, %zu before", inf.c_str(), Z.size(), A.size());
                dead = true;
                break;
            }
            bool finite = true;
            for (auto &s : Z)
                for (int k = 0; k < 3; k++)
                    finite = finite && std::isfinite(s.pos[k]) && std::isfinite(s.vel[k]) && std::isfinite(s.force[k]) && std::isfinite(s.omega[k]);
            if (!finite) {
                vf::violation("not-finite", "%s: a position, velocity or force is not finite after the step", inf.c_str());
                dead = true;
                break;
            }
            ld fmax = 0, tmax = 0, far = 0;
            for (auto &s : A)
                far = std::max(far, nrm(V(s.pos)));
            for (auto &s : Z) {
                fmax = std::max(fmax, nrm(V(s.forceCol)) + nrm(V(s.forceBi)));
                tmax = std::max(tmax, nrm(V(s.torqueCol)) + nrm(V(s.torqueBi)));
            }
            ld gmax = 0;
            for (auto &b : B)
                gmax = std::max(gmax, fabsl((ld)b.gamma));
            if (p21 || all) {
                std::map<int, std::array<V, 4>> fc; // by global index: col force, col torque, bi force, bi torque
                for (auto &b : B) {
                    auto &x = fc[b.globalIndexI];
                    const int o2 = b.bilateral ? 2 : 0;
                    x[o2] = x[o2] + (ld)b.gamma * V(b.normI);
                    x[o2 + 1] = x[o2 + 1] + (ld)b.gamma * cross(V(b.posI), V(b.normI));
                    if (!b.oneSide) {
                        auto &y = fc[b.globalIndexJ];
                        y[o2] = y[o2] + (ld)b.gamma * V(b.normJ);
                        y[o2 + 1] = y[o2 + 1] + (ld)b.gamma * cross(V(b.posJ), V(b.normJ));
                    }
                }
                // crossed cores have no contact normal in the plane (or anywhere); images through a thin periodic layer are out of the plane
                bool crossed = false;
                for (auto &b : B)
                    crossed = crossed || nrm(V(b.labI) - V(b.labJ)) < 1e-3L * mean || (!b.oneSide && std::fabs(b.labI[2] - b.labJ[2]) > 1e-9 * mean);
                if (cf.monolayer && !crossed)
                    vf::count("monolayer_steps_without_crossed_cores");
                V sumF, sumT;
                const bool open = !cf.simBoxPBC[0] && !cf.simBoxPBC[1] && !cf.simBoxPBC[2];
                int bad = 0;
                for (size_t i = 0; i < Z.size() && bad < 3; i++) {
                    const Sylinder &s = Z[i];
                    const long b0 = vf::st().nviol;
                    VF_CHECK(s.gid == A[i].gid, "order-changed", "%s: gid %d became gid %d in the step", inf.c_str(), A[i].gid, s.gid);
                    Sylinder geo = A[i];
                    const Mob m = mobility(geo, cf.viscosity);
                    const V d = axis(geo.orientation);
                    const ld e = 1e-9L;
                    auto near = [](const V &a, const V &b, ld tol) { return nrm(a - b) <= tol; };
                    const V vB(s.velBrown), oB(s.omegaBrown), vN(s.velNonB), oN(s.omegaNonB), vC(s.velCol), oC(s.omegaCol), vI(s.velBi), oI(s.omegaBi);
                    const V fN(s.forceNonB), tN(s.torqueNonB), fC(s.forceCol), tC(s.torqueCol), fI(s.forceBi), tI(s.torqueBi);
                    const ld sv = nrm(vB) + nrm(vN) + nrm(vC) + nrm(vI), so = nrm(oB) + nrm(oN) + nrm(oC) + nrm(oI);
                    VF_CHECK(near(V(s.vel), vB + vN + vC + vI, 1e-14L * sv * 4) && near(V(s.omega), oB + oN + oC + oI, 1e-14L * so * 4), "velocity-sum",
                             "%s: gid %d vel (%g,%g,%g) parts Brown (%g,%g,%g) NonB (%g,%g,%g) Col (%g,%g,%g) Bi (%g,%g,%g) omega (%g,%g,%g)", inf.c_str(), s.gid, s.vel[0], s.vel[1], s.vel[2],
                             s.velBrown[0], s.velBrown[1], s.velBrown[2], s.velNonB[0], s.velNonB[1], s.velNonB[2], s.velCol[0], s.velCol[1], s.velCol[2], s.velBi[0], s.velBi[1], s.velBi[2],
                             s.omega[0], s.omega[1], s.omega[2]);
                    VF_CHECK(near(V(s.force), fN + fC + fI, 1e-14L * 4 * (nrm(fN) + nrm(fC) + nrm(fI))) && near(V(s.torque), tN + tC + tI, 1e-14L * 4 * (nrm(tN) + nrm(tC) + nrm(tI))), "force-sum",
                             "%s: gid %d force (%g,%g,%g) parts NonB (%g,%g,%g) Col (%g,%g,%g) Bi (%g,%g,%g)", inf.c_str(), s.gid, s.force[0], s.force[1], s.force[2], s.forceNonB[0], s.forceNonB[1],
                             s.forceNonB[2], s.forceCol[0], s.forceCol[1], s.forceCol[2], s.forceBi[0], s.forceBi[1], s.forceBi[2]);
                    // the prescribed part
                    double x[12];
                    prescribed(c, s.gid, step, x);
                    V pf, pt, pv, po;
                    for (int k = 0; k < 3; k++) {
                        pf[k] = doF ? x[k] * F : 0;
                        pt[k] = doF ? x[3 + k] * (F * mean / 4) : 0;
                        pv[k] = doV ? x[6 + k] * U : 0;
                        po[k] = doV ? x[9 + k] * (U / mean * 2) : 0;
                    }
                    VF_CHECK(near(fN, pf, e * F * 1e-3L) && near(tN, pt, e * F * mean * 1e-3L), "prescribed-force", "%s: gid %d was given force (%g,%g,%g), records (%g,%g,%g)", inf.c_str(), s.gid,
                             (double)pf[0], (double)pf[1], (double)pf[2], s.forceNonB[0], s.forceNonB[1], s.forceNonB[2]);
                    V wv = mulT(m, d, pf) + pv, wo = mulR(m, pt) + po;
                    if (cf.monolayer)
                        wv[2] = wo[0] = wo[1] = 0;
                    const ld sv2 = m.perp * nrm(pf) + m.para * nrm(pf) + nrm(pv), so2 = m.rot * nrm(pt) + nrm(po);
                    VF_CHECK(near(vN, wv, e * sv2 + 1e-300L) && near(oN, wo, e * so2 + 1e-300L), "nonbrownian-velocity",
                             "%s: gid %d %s velNonB (%.12g,%.12g,%.12g), mobility times force plus velocity is (%.12g,%.12g,%.12g); omega (%.9g,%.9g,%.9g) wanted (%.9g,%.9g,%.9g)", inf.c_str(), s.gid,
                             geo.length < 2 * geo.radius ? "sphere" : "rod", s.velNonB[0], s.velNonB[1], s.velNonB[2], (double)wv[0], (double)wv[1], (double)wv[2], s.omegaNonB[0], s.omegaNonB[1],
                             s.omegaNonB[2], (double)wo[0], (double)wo[1], (double)wo[2]);
                    // constraint part
                    const ld mt = std::max(m.perp, m.para);
                    VF_CHECK(near(vC, mulT(m, d, fC), e * mt * fmax) && near(oC, mulR(m, tC), e * m.rot * tmax) && near(vI, mulT(m, d, fI), e * mt * fmax) && near(oI, mulR(m, tI), e * m.rot * tmax),
                             "constraint-mobility", "%s: gid %d immovable %d velCol (%g,%g,%g) is not mobility times (%g,%g,%g), or velBi (%g,%g,%g) of (%g,%g,%g), or the angular ones", inf.c_str(),
                             s.gid, s.isImmovable, s.velCol[0], s.velCol[1], s.velCol[2], s.forceCol[0], s.forceCol[1], s.forceCol[2], s.velBi[0], s.velBi[1], s.velBi[2], s.forceBi[0], s.forceBi[1],
                             s.forceBi[2]);
                    const auto &fs = fc[s.globalIndex];
                    const ld tf = e * gmax * (1 + B.size() * 1e-3L), tt = tf * (s.length + s.radius + mean);
                    VF_CHECK(near(fC, fs[0], tf) && near(tC, fs[1], tt) && near(fI, fs[2], tf) && near(tI, fs[3], tt), "constraint-force",
                             "%s: gid %d forceCol (%g,%g,%g), its blocks give (%g,%g,%g); forceBi (%g,%g,%g), its blocks give (%g,%g,%g); torqueCol (%g,%g,%g) blocks (%g,%g,%g)", inf.c_str(), s.gid,
                             s.forceCol[0], s.forceCol[1], s.forceCol[2], (double)fs[0][0], (double)fs[0][1], (double)fs[0][2], s.forceBi[0], s.forceBi[1], s.forceBi[2], (double)fs[2][0],
                             (double)fs[2][1], (double)fs[2][2], s.torqueCol[0], s.torqueCol[1], s.torqueCol[2], (double)fs[1][0], (double)fs[1][1], (double)fs[1][2]);
                    sumF = sumF + fC + fI;
                    sumT = sumT + tC + tI + cross(V(geo.pos), fC + fI);
                    if (s.isImmovable)
                        VF_CHECK(nrm(vC) + nrm(vI) + nrm(oC) + nrm(oI) + nrm(vB) + nrm(oB) == 0 && near(vN, cf.monolayer ? wv : pv, e * nrm(pv)), "immovable", "%s: immovable gid %d velCol (%g,%g,%g) velNonB (%g,%g,%g) velBrown (%g,%g,%g)",
                                 inf.c_str(), s.gid, s.velCol[0], s.velCol[1], s.velCol[2], s.velNonB[0], s.velNonB[1], s.velNonB[2], s.velBrown[0], s.velBrown[1], s.velBrown[2]);
                    if (cf.KBT == 0)
                        VF_CHECK(nrm(vB) + nrm(oB) == 0, "brownian-at-zero", "%s: gid %d velBrown (%g,%g,%g) without temperature", inf.c_str(), s.gid, s.velBrown[0], s.velBrown[1], s.velBrown[2]);
                    else if (!s.isImmovable)
                        VF_CHECK(nrm(vB) > 0 && nrm(oB) > 0, "no-brownian", "%s: gid %d has no Brownian velocity", inf.c_str(), s.gid);
                    if (cf.monolayer && !crossed)
                        VF_CHECK(fabsl(s.vel[2]) <= 1e-7L * sv && fabsl(s.omega[0]) + fabsl(s.omega[1]) <= 1e-7L * so + 1e-7L * m.rot * tmax && s.velBrown[2] == 0, "monolayer-velocity",
                                 "%s: gid %d vel z %g (of %g), omega (%g,%g), velBrown z %g", inf.c_str(), s.gid, s.vel[2], (double)sv, s.omega[0], s.omega[1], s.velBrown[2]);
                    // the move
                    const V x0(A[i].pos), x1(s.pos), vd = (cf.sylinderFixed ? 0 : (ld)cf.dt) * V(s.vel);
                    VF_CHECK(near(x1, x0 + vd, 4e-16L * (nrm(x0) + nrm(vd))), "position-update", "%s: gid %d moved by (%.12g,%.12g,%.12g), velocity times dt is (%.12g,%.12g,%.12g)", inf.c_str(), s.gid,
                             (double)(x1 - x0)[0], (double)(x1 - x0)[1], (double)(x1 - x0)[2], (double)vd[0], (double)vd[1], (double)vd[2]);
                    const V w1 = (cf.sylinderFixed ? 0 : (ld)cf.dt) * V(s.omega);
                    const ld th = nrm(w1);
                    V dd = d;
                    if (th > 0) {
                        const V u = (1 / th) * w1;
                        dd = cosl(th) * d + sinl(th) * cross(u, d) + ((1 - cosl(th)) * vdot(u, d)) * u;
                    }
                    VF_CHECK(near(axis(s.orientation), dd, 1e-12L * (1 + th)), "rotation-update", "%s: gid %d axis (%.12g,%.12g,%.12g) wanted (%.12g,%.12g,%.12g), turned by %g", inf.c_str(), s.gid,
                             (double)axis(s.orientation)[0], (double)axis(s.orientation)[1], (double)axis(s.orientation)[2], (double)dd[0], (double)dd[1], (double)dd[2], (double)th);
                    bad += vf::st().nviol != b0;
                }
                const ld N = B.size() + 1;
                if (w.bnds.empty() && bad < 3) {
                    VF_CHECK(nrm(sumF) <= 1e-11L * gmax * N, "force-balance", "%s: constraint forces add up to (%g,%g,%g), largest block %g", inf.c_str(), (double)sumF[0], (double)sumF[1], (double)sumF[2],
                             (double)gmax);
                    if (open)
                        VF_CHECK(nrm(sumT) <= 1e-10L * gmax * N * (far + mean), "torque-balance", "%s: constraint torques add up to (%g,%g,%g), largest block %g", inf.c_str(), (double)sumT[0],
                                 (double)sumT[1], (double)sumT[2], (double)gmax);
                }
                VF_CHECK(sys->getStepCount() == step + 1, "step-count", "%s: step count %d", inf.c_str(), sys->getStepCount());
                vf::count("particle_steps_compared", (long)Z.size());
                vf::count("collision_blocks", (long)std::count_if(B.begin(), B.end(), [](const ConstraintBlock &b) { return !b.bilateral && !b.oneSide; }));
                vf::count("boundary_blocks", (long)std::count_if(B.begin(), B.end(), [](const ConstraintBlock &b) { return b.oneSide; }));
                vf::count("link_blocks", (long)std::count_if(B.begin(), B.end(), [](const ConstraintBlock &b) { return b.bilateral; }));
                vf::count("steps_with_constraint_force", gmax > 0);
                vf::count("immovable_particle_steps", (long)std::count_if(Z.begin(), Z.end(), [](const Sylinder &s) { return s.isImmovable; }));
                if (cf.monolayer)
                    vf::count("monolayer_steps");
            }
            if ((p33 || all) && cf.KBT > 0)
                stressDiag(*sys, w, B, Z.size(), inf);
            for (auto &s : Z) {
                Rec &m = model[s.gid];
                std::copy(s.pos, s.pos + 3, m.pos);
                std::copy(s.orientation, s.orientation + 4, m.q);
            }
            // a run that blew up tells nothing more
            double E = 0;
            for (int k = 0; k < 3; k++)
                E = std::max(E, cf.simBoxHigh[k] - cf.simBoxLow[k]);
            for (auto &s : Z)
                for (int k = 0; k < 3; k++)
                    dead = dead || std::fabs(s.pos[k] - cf.simBoxLow[k]) > 1e4 * E;
            vf::evals();
            vf::distinct(vf::mix(c, step));
            if (vf::wantSample() && step == 1)
                vf::sample(inf + vf::fmt(" -> %zu particles, %zu blocks, %ld wrapped coordinates", Z.size(), B.size(), wrapped));
            if (vf::st().nviol - before > 6)
                break;
        }
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
}

int main(int argc, char **argv) {
    setup(&argc, &argv);
    const std::string m = vf::st().mode;
    if (m == "hist")
        hist();
    return done();
}
