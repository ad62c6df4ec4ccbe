// Monitors for constraint collection in a SylinderSystem: pair collisions (P15, P16), links (P17), boundaries (P18).
#include "sys.hpp"

using namespace sysv;
typedef std::pair<int, int> PII;

static void moveSome(SylinderSystem &s, const World &w, uint64_t seed, double amount) {
    auto &c = s.getContainerNonConst();
    const int n = c.getNumberOfParticleLocal();
    for (int i = 0; i < n; i++) { // by id, so that the ranks agree
        Rng q(vf::mix(seed, c[i].gid));
        double d[3];
        q.dir(d);
        const double a = amount * q.u();
        for (int k = 0; k < 3; k++)
            c[i].pos[k] += a * d[k];
        double e[3];
        q.dir(e);
        if (q.p(0.5))
            Emapq(c[i].orientation) = Equatn::FromTwoVectors(Evec3(0, 0, 1), Evec3(e[0], e[1], e[2]));
        if (q.p(0.3)) { // arbitrary roll
            const double h = q.u(-3, 3);
            Equatn o = Emapq(c[i].orientation);
            o = o * Equatn(std::cos(h), 0, 0, std::sin(h));
            o.normalize();
            Emapq(c[i].orientation) = o;
        }
    }
}

// capsule moments by their definition: second moment N of a uniform capsule, inertia G = tr(N) 1 - N
static void capsule(ld r, ld h, ld &na, ld &nb) {
    const ld pi = 3.14159265358979323846264338L, b = h / 2;
    const ld vc = pi * r * r * h, vs = 4 * pi * r * r * r / 3;
    na = vc * r * r / 4 + vs * r * r / 5;
    nb = vc * h * h / 12 + vs * (r * r / 5 + b * b + 2 * b * (3 * r / 8));
}
static void stressRef(const V &dI, const V &dJ, const V &cI, const V &cJ, ld hI, ld hJ, ld rI, ld rJ, const V &P, const V &Q, ld S[9]) {
    V F = Q - P;
    F = (1 / nrm(F)) * F; // on J; -F on I
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            S[3 * i + j] = (cJ[i] - cI[i]) * F[j];
    for (int b = 0; b < 2; b++) {
        ld na, nb;
        capsule(b ? rJ : rI, b ? hJ : hI, na, nb);
        const V &d = b ? dJ : dI;
        const V f = b ? F : (ld)-1 * F;
        const V tq = cross(b ? Q - cJ : P - cI, f);
        // angular acceleration
        const ld ga = na + nb, gb = 2 * na;
        const V al = (1 / ga) * tq + ((1 / gb - 1 / ga) * vdot(d, tq)) * d;
        // sum over mass of  x_i (al x x)_j = N_il eps_jkl al_k
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                for (int k = 0; k < 3; k++)
                    for (int l = 0; l < 3; l++) {
                        const int e = (j - k) * (k - l) * (l - j);
                        if (!e)
                            continue;
                        const ld eps = e > 0 ? 1 : -1;
                        const ld N = (i == l ? na : 0) + (nb - na) * d[i] * d[l];
                        S[3 * i + j] += N * eps * al[k];
                    }
    }
}

struct Shift {
    int n[3];
    bool operator<(const Shift &o) const { return std::lexicographical_compare(n, n + 3, o.n, o.n + 3); }
};
// whole number of box lengths?
static bool wholeShift(const World &w, const V &d, Shift &s, double tol) {
    bool ok = true;
    for (int k = 0; k < 3; k++) {
        const ld E = (ld)w.cfg.simBoxHigh[k] - w.cfg.simBoxLow[k];
        s.n[k] = w.cfg.simBoxPBC[k] ? (int)lroundl(d[k] / E) : 0;
        if (!(fabsl(d[k] - s.n[k] * E) <= tol))
            ok = false;
    }
    return ok;
}

// compare the pool with the pairs of the configuration
static void checkPairs(SylinderSystem &sys, const World &w, uint64_t c, int round, const std::string &inf) {
    const bool p15 = vf::st().prop != "P16", p16 = vf::st().prop != "P15";
    std::vector<int> own;
    const auto A = particles(sys, &own);
    const auto B = blocks(sys);
    const int n = A.size();
    const double cb = w.cfg.sylinderColBuf;
    std::vector<Core> K(n);
    std::unordered_map<int, int> at;
    double ext = 0, far = 0;
    for (int i = 0; i < n; i++) {
        Sylinder s = A[i];
        if (p15)
            VF_CHECK(std::fabs(s.radiusCollision - s.radius * w.cfg.sylinderDiameterColRatio) <= 1e-12 * s.radius &&
                         std::fabs(s.lengthCollision - s.length * w.cfg.sylinderLengthColRatio) <= 1e-12 * s.length,
                     "collision-size", "%s: %s", inf.c_str(), show(s).c_str());
        s.radiusCollision = s.radius * w.cfg.sylinderDiameterColRatio;
        s.lengthCollision = s.length * w.cfg.sylinderLengthColRatio;
        K[i] = core(s);
        at[s.gid] = i;
        ext = std::max(ext, (double)(K[i].len + 2 * K[i].r));
        for (int k = 0; k < 3; k++)
            far = std::max(far, std::fabs(s.pos[k]));
    }
    const double tol = 1e-7 * ext + 1e-13 * far;
    // wanted
    struct Ex {
        int must = 0, may = 0;
        ld sep = 0;
    };
    typedef std::pair<PII, Shift> Key; // indices i<j by gid, image of the second relative to the first
    std::map<Key, Ex> want;
    long nmust = 0, nover = 0, nimg = 0, far2 = 0;
    int lim[3];
    for (int k = 0; k < 3; k++)
        lim[k] = w.cfg.simBoxPBC[k] ? 3 : 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            if (A[i].gid >= A[j].gid)
                continue;
            const ld reach = (K[i].len + K[j].len) / 2 + (K[i].r + K[j].r) * (1 + (ld)cb) + tol;
            Shift s;
            for (s.n[0] = -lim[0]; s.n[0] <= lim[0]; s.n[0]++)
                for (s.n[1] = -lim[1]; s.n[1] <= lim[1]; s.n[1]++)
                    for (s.n[2] = -lim[2]; s.n[2] <= lim[2]; s.n[2]++) {
                        V sh;
                        for (int k = 0; k < 3; k++)
                            sh[k] = s.n[k] * ((ld)w.cfg.simBoxHigh[k] - w.cfg.simBoxLow[k]);
                        if (nrm(K[j].c + sh - K[i].c) > reach)
                            continue;
                        const ld sep = segSeg(K[i].a, K[i].b, K[j].a + sh, K[j].b + sh) - K[i].r - K[j].r;
                        const ld thr = (K[i].r + K[j].r) * cb;
                        if (sep < thr + tol) {
                            Ex &e = want[Key(PII(i, j), s)];
                            e.may = 1;
                            e.sep = sep;
                            e.must = sep < thr - tol;
                            nmust += e.must;
                            nover += sep < 0;
                            nimg += s.n[0] || s.n[1] || s.n[2];
                            far2 += own[i] != own[j];
                        } else if (nrm(K[j].c + sh - K[i].c) > ext * 1.01)
                            ;
                    }
        }
    std::map<Key, int> got;
    int shown = 0;
    for (auto &b : B) {
        if (!at.count(b.gidI) || !at.count(b.gidJ) || b.gidI == b.gidJ) {
            if (p15)
                VF_CHECK(false, "pair-ids", "%s: block between ids %d and %d", inf.c_str(), b.gidI, b.gidJ);
            continue;
        }
        const int i = at[b.gidI], j = at[b.gidJ];
        const Core &I = K[i], &J = K[j];
        const V P(b.labI), Q(b.labJ), pI(b.posI), pJ(b.posJ), nI(b.normI), nJ(b.normJ);
        Shift sI, sJ, s;
        const bool okI = wholeShift(w, P - pI - I.c, sI, tol), okJ = wholeShift(w, Q - pJ - J.c, sJ, tol);
        for (int k = 0; k < 3; k++)
            s.n[k] = (okI && okJ) ? sJ.n[k] - sI.n[k] : 0;
        if (!(okI && okJ)) { // which image it is, is not told: judge as content
            if (p16)
                VF_CHECK(false, "block-lab", "%s: block %d-%d: laI-posI or labJ-posJ is not at the centre (or an image of it): labI (%g,%g,%g) posI (%g,%g,%g) centre (%g,%g,%g) labJ (%g,%g,%g) posJ (%g,%g,%g) centre (%g,%g,%g)",
                         inf.c_str(), b.gidI, b.gidJ, b.labI[0], b.labI[1], b.labI[2], b.posI[0], b.posI[1], b.posI[2], (double)I.c[0],
                         (double)I.c[1], (double)I.c[2], b.labJ[0], b.labJ[1], b.labJ[2], b.posJ[0], b.posJ[1], b.posJ[2],
                         (double)J.c[0], (double)J.c[1], (double)J.c[2]);
            // recover the image from the separation
            for (auto &x : want)
                if (x.first.first == (A[i].gid < A[j].gid ? PII(i, j) : PII(j, i)) && fabsl(x.second.sep - b.delta0) <= 10 * tol)
                    s = x.first.second;
            if (A[i].gid > A[j].gid)
                for (int k = 0; k < 3; k++)
                    s.n[k] = -s.n[k];
        }
        Key key(PII(i, j), s);
        if (A[i].gid > A[j].gid) {
            key.first = PII(j, i);
            for (int k = 0; k < 3; k++)
                key.second.n[k] = -key.second.n[k];
        }
        got[key]++;
        if (!p16 || !want.count(key))
            continue;
        const Ex &e = want[key];
        vf::count("blocks_inspected");
        const std::string bi = vf::fmt("%s: block %d-%d image (%d,%d,%d)", inf.c_str(), b.gidI, b.gidJ, s.n[0], s.n[1], s.n[2]);
        VF_CHECK(fabsl(b.delta0 - e.sep) <= tol, "block-separation", "%s: delta0 %.15g, separation %.15g (%s | %s)", bi.c_str(), b.delta0,
                 (double)e.sep, show(A[i]).c_str(), show(A[j]).c_str());
        vf::maxi("separation error / size", (double)(fabsl(b.delta0 - e.sep) / ext));
        VF_CHECK(std::fabs(b.gamma - std::max(0.0, -b.delta0)) <= 1e-14 * ext, "block-gamma", "%s: gamma %.15g for separation %.15g",
                 bi.c_str(), b.gamma, b.delta0);
        VF_CHECK(!b.oneSide && !b.bilateral && b.kappa == 0, "block-kind", "%s: oneSide %d bilateral %d kappa %g", bi.c_str(), b.oneSide, b.bilateral, b.kappa);
        VF_CHECK(b.globalIndexI == A[i].globalIndex && b.globalIndexJ == A[j].globalIndex, "block-index",
                 "%s: global indices %d,%d but the particles have %d,%d", bi.c_str(), b.globalIndexI, b.globalIndexJ, A[i].globalIndex, A[j].globalIndex);
        // closest points: on their own cores, realising the distance
        V sh;
        for (int k = 0; k < 3; k++)
            sh[k] = s.n[k] * ((ld)w.cfg.simBoxHigh[k] - w.cfg.simBoxLow[k]);
        const V x = I.c + pI, y = J.c + pJ; // in each particle's own frame
        const ld offI = pointSeg(x, I.a, I.b), offJ = pointSeg(y, J.a, J.b);
        VF_CHECK(offI <= tol && offJ <= tol, "block-points", "%s: lever arms leave the cores by %.3g and %.3g", bi.c_str(), (double)offI, (double)offJ);
        const V d = x - (y + sh);
        const ld dist = nrm(d);
        VF_CHECK(fabsl(dist - (e.sep + I.r + J.r)) <= tol, "block-distance", "%s: points at distance %.15g, cores %.15g", bi.c_str(), (double)dist,
                 (double)(e.sep + I.r + J.r));
        if (dist > 1e-6 * ext) {
            const V u = (1 / dist) * d;
            const ld ang = tol / dist * 4 + 1e-9;
            VF_CHECK(nrm(nI - u) <= ang && nrm(nJ + u) <= ang, "block-normal", "%s: normI (%g,%g,%g) normJ (%g,%g,%g), the direction from J to I is (%g,%g,%g)",
                     bi.c_str(), b.normI[0], b.normI[1], b.normI[2], b.normJ[0], b.normJ[1], b.normJ[2], (double)u[0], (double)u[1], (double)u[2]);
            ld S[9], mx = 0, er = 0;
            stressRef(I.d, J.d, I.c, J.c + sh, I.len, J.len, I.r, J.r, x, y + sh, S);
            for (int k = 0; k < 9; k++) {
                mx = std::max(mx, fabsl(S[k]));
                er = std::max(er, fabsl(S[k] - b.stress[k]));
                if (!(b.stress[k] == b.stress[k]))
                    er = 1e300L;
            }
            // nearly touching cores: the direction of the force is only known to ang
            VF_CHECK(er <= (1e-7 + 10 * ang) * (mx + ext), "block-stress", "%s: stress differs by %.3g of %.3g: got [%g %g %g; %g %g %g; %g %g %g] want [%g %g %g; %g %g %g; %g %g %g]", bi.c_str(), (double)er,
                     (double)mx, b.stress[0], b.stress[1], b.stress[2], b.stress[3], b.stress[4], b.stress[5], b.stress[6], b.stress[7],
                     b.stress[8], (double)S[0], (double)S[1], (double)S[2], (double)S[3], (double)S[4], (double)S[5], (double)S[6], (double)S[7], (double)S[8]);
        } else
            vf::count("coincident_cores");
    }
    vf::evals();
    vf::distinct(vf::mix(c, round));
    vf::count("pairs_in_range", nmust);
    vf::count("pairs_overlapping", nover);
    vf::count("pairs_through_periodic_image", nimg);
    vf::count("pairs_across_ranks", far2);
    vf::count("blocks", (long)B.size());
    if (vf::wantSample())
        vf::sample(inf + vf::fmt(" round %d -> %zu blocks, %ld pairs in range, %ld overlap, %ld across the box, %ld across ranks", round, B.size(),
                                 nmust, nover, nimg, far2));
    if (!p15)
        return;
    for (auto &x : want) {
        const int g = got.count(x.first) ? got[x.first] : 0;
        if ((g < x.second.must || g > x.second.may) && shown++ < 3) {
            const int i = x.first.first.first, j = x.first.first.second;
            VF_CHECK(false, g < x.second.must ? "pair-missed" : "pair-repeated",
                     "%s round %d: pair image (%d,%d,%d), separation %.12g (threshold %.12g), recorded %d times: [%s, rank %d] [%s, rank %d]", inf.c_str(), round,
                     x.first.second.n[0], x.first.second.n[1], x.first.second.n[2], (double)x.second.sep, (double)((K[i].r + K[j].r) * cb), g, show(A[i]).c_str(),
                     own[i], show(A[j]).c_str(), own[j]);
        }
    }
    for (auto &g : got)
        if (!want.count(g.first) && shown++ < 3) {
            const int i = g.first.first.first, j = g.first.first.second;
            VF_CHECK(false, "pair-spurious", "%s round %d: pair recorded %d times, but it is not in range: [%s] [%s]", inf.c_str(), round, g.second,
                     show(A[i]).c_str(), show(A[j]).c_str());
        }
}

static void pairs() {
    vf::forCases("pairs", [](uint64_t c, Rng &r) {
        GenOpt o;
        o.density = r.pick(std::vector<double>{0.3, 1, 3});
        if (r.p(0.05))
            o.nmax = 300;
        World w = makeWorld(r, o);
        w.cfg.sylinderFixed = r.p(0.3);
        w.cfg.monolayer = r.p(0.05);
        writePos(w, "pos.dat", rank() == 0 ? &r : nullptr);
        Rng q(vf::mix(c, 777)); // r has only advanced on rank 0 while writing

        auto sys = start(w, "pos.dat");
        const int R = q.i(1, 3);
        for (int k = 0; k < R; k++) {
            const std::string inf = w.str() + vf::fmt(" ranks=%d threads=%d", size(), omp_get_max_threads());
            vf::beginCase(c, "pairs " + inf);
            if (k > 0) {
                moveSome(*sys, w, vf::mix(c, k), q.pick(std::vector<double>{0.05, 0.5, 3}) * (w.cfg.simBoxHigh[0] - w.cfg.simBoxLow[0]));
                if (q.p(0.5)) {
                    sys->decomposeDomain();
                    sys->exchangeSylinder();
                }
            }
            sys->prepareStep();
            sys->collectPairCollision();
            checkPairs(*sys, w, c, k, inf);
        }
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
}

// ------------------------------------------------------------------ P17
static void linksMode() {
    vf::forCases("links", [](uint64_t c, Rng &r) {
        GenOpt o;
        o.nmax = r.p(0.1) ? 200 : 40;
        World w = makeWorld(r, o);
        const int n = w.parts.size();
        w.cfg.linkKappa = r.pick(std::vector<double>{0.1, 100, 1e6});
        w.cfg.linkGap = r.p(0.5) ? 0 : r.u(0, 0.5);
        const int kind = r.i(5); // chains, random graph, star, none, dense with repeats
        auto randomLink = [&](std::vector<PII> &L) {
            const int a = r.i(n), b = r.i(n);
            if (a != b)
                L.push_back(PII(w.parts[a].gid, w.parts[b].gid));
        };
        if (kind == 0)
            for (int i = 0; i + 1 < n; i++)
                if (r.p(0.9))
                    w.links.push_back(PII(w.parts[i].gid, w.parts[i + 1].gid));
        if (kind == 1 || kind == 4)
            for (int i = 0; i < (kind == 4 ? 4 : 1) * n; i++)
                randomLink(w.links);
        if (kind == 2)
            for (int i = 1; i < n; i++)
                w.links.push_back(r.p(0.8) ? PII(w.parts[0].gid, w.parts[i].gid) : PII(w.parts[i].gid, w.parts[0].gid));
        // half a box apart: the nearest image is ambiguous, but one of them must be used
        const bool ties = r.p(0.2);
        if (ties)
            for (auto &p : w.parts) {
                const bool onLat = r.p(0.8);
                for (int k = 0; k < 3; k++) {
                    const double E = w.cfg.simBoxHigh[k] - w.cfg.simBoxLow[k], x = 0.5 * (p.m[k] + p.p[k]);
                    const double y = onLat ? w.cfg.simBoxLow[k] + E * 0.25 * r.i(4) : x;
                    p.m[k] += y - x;
                    p.p[k] += y - x;
                }
            }
        std::vector<std::vector<PII>> more(3);
        for (auto &m : more)
            for (int i = r.i(4); i > 0; i--)
                randomLink(m);
        std::vector<int> giver(3);
        for (auto &g : giver)
            g = r.i(1000);
        const int R = r.i(1, 3);
        std::vector<double> amt(3);
        for (auto &a : amt)
            a = r.pick(std::vector<double>{0.05, 0.5, 3});
        writePos(w, "pos.dat", rank() == 0 ? &r : nullptr);
        auto sys = start(w, "pos.dat");
        std::vector<PII> table = w.links;
        for (int round = 0; round < R; round++) {
            const std::string inf = w.str() + vf::fmt(" kind=%d ties=%d ranks=%d threads=%d round=%d", kind, ties, size(), omp_get_max_threads(), round);
            vf::beginCase(c, "links " + inf);
            if (round > 0) {
                if (!ties)
                    moveSome(*sys, w, vf::mix(c, round), amt[round] * (w.cfg.simBoxHigh[0] - w.cfg.simBoxLow[0]));
                // spread the new links over the ranks
                std::vector<Link> mine;
                for (size_t k = 0; k < more[round].size(); k++)
                    if ((int)((giver[round] + k) % size()) == rank()) {
                        Link l;
                        l.prev = more[round][k].first;
                        l.next = more[round][k].second;
                        mine.push_back(l);
                    }
                sys->addNewLink(mine);
                {
                    std::set<PII> once(more[round].begin(), more[round].end()); // duplicates in one call count once
                    table.insert(table.end(), once.begin(), once.end());
                }
            }
            sys->prepareStep();
            sys->collectLinkBilateral();
            std::vector<int> own, bown;
            const auto A = particles(*sys, &own);
            const auto B = blocks(*sys, &bown);
            std::unordered_map<int, int> at;
            double ext = 0, far = 0;
            for (size_t i = 0; i < A.size(); i++) {
                at[A[i].gid] = i;
                ext = std::max(ext, A[i].length + 2 * A[i].radius);
                for (int k = 0; k < 3; k++)
                    far = std::max(far, std::fabs(A[i].pos[k]));
            }
            const double tol = 1e-11 * (ext + far);
            std::map<PII, int> want, got;
            for (auto &l : table)
                want[l]++;
            int shown = 0;
            for (size_t bi = 0; bi < B.size(); bi++) {
                auto &b = B[bi];
                got[PII(b.gidI, b.gidJ)]++;
                if (!at.count(b.gidI) || !at.count(b.gidJ))
                    continue;
                const Sylinder &I = A[at[b.gidI]], &J = A[at[b.gidJ]];
                const std::string bs = vf::fmt("%s: link %d->%d", inf.c_str(), b.gidI, b.gidJ);
                if (shown > 3)
                    break;
                const long before = vf::st().nviol;
                VF_CHECK(bown[bi] == own[at[b.gidI]], "link-rank", "%s recorded on rank %d, the first particle lives on %d", bs.c_str(), bown[bi], own[at[b.gidI]]);
                VF_CHECK(b.bilateral && !b.oneSide && b.kappa == w.cfg.linkKappa, "link-kind", "%s bilateral %d oneSide %d kappa %.17g", bs.c_str(), b.bilateral, b.oneSide, b.kappa);
                VF_CHECK(b.globalIndexI == I.globalIndex && b.globalIndexJ == J.globalIndex, "link-index", "%s global indices %d %d, particles have %d %d", bs.c_str(),
                         b.globalIndexI, b.globalIndexJ, I.globalIndex, J.globalIndex);
                const V cI(I.pos), cJ(J.pos), dI = axis(I.orientation), dJ = axis(J.orientation);
                const V pI = ((ld)I.length / 2) * dI, pJ = ((ld)-J.length / 2) * dJ;
                VF_CHECK(nrm(V(b.posI) - pI) <= tol && nrm(V(b.posJ) - pJ) <= tol, "link-ends",
                         "%s lever arms (%g,%g,%g) (%g,%g,%g), wanted plus end of the first (%g,%g,%g) and minus end of the second (%g,%g,%g)", bs.c_str(), b.posI[0],
                         b.posI[1], b.posI[2], b.posJ[0], b.posJ[1], b.posJ[2], (double)pI[0], (double)pI[1], (double)pI[2], (double)pJ[0], (double)pJ[1], (double)pJ[2]);
                // image of J nearest to I (ties: either)
                V sh;
                const V got2 = (V(b.labJ) - V(b.posJ)) - (V(b.labI) - V(b.posI)); // centre to centre as used
                bool tie = false;
                for (int k = 0; k < 3; k++) {
                    ld d = cJ[k] - cI[k];
                    if (w.cfg.simBoxPBC[k]) {
                        const ld E = (ld)w.cfg.simBoxHigh[k] - w.cfg.simBoxLow[k];
                        ld m = d - E * roundl(d / E);
                        if (fabsl(fabsl(m) - E / 2) < 1e-9L * E) {
                            tie = true;
                            m = got2[k] > 0 ? fabsl(m) : -fabsl(m);
                        }
                        d = m;
                    }
                    sh[k] = d;
                }
                if (tie)
                    vf::count("links_with_image_tie");
                VF_CHECK(nrm(got2 - sh) <= tol, "link-image", "%s centre to centre (%.12g,%.12g,%.12g), nearest image is at (%.12g,%.12g,%.12g)", bs.c_str(), (double)got2[0],
                         (double)got2[1], (double)got2[2], (double)sh[0], (double)sh[1], (double)sh[2]);
                const V P = cI + pI, Q = cI + sh + pJ;
                Shift sx;
                VF_CHECK(wholeShift(w, V(b.labI) - P, sx, tol), "link-lab", "%s labI (%g,%g,%g), end at (%g,%g,%g)", bs.c_str(), b.labI[0], b.labI[1], b.labI[2],
                         (double)P[0], (double)P[1], (double)P[2]);
                const ld dist = nrm(Q - P), sep = dist - I.radius - J.radius - w.cfg.linkGap;
                VF_CHECK(fabsl(b.delta0 - sep) <= tol, "link-separation", "%s separation %.15g, recorded %.15g", bs.c_str(), (double)sep, b.delta0);
                VF_CHECK(std::fabs(b.gamma - std::max(0.0, -b.delta0)) <= 1e-14 * (ext + 1), "link-gamma", "%s gamma %g for separation %g", bs.c_str(), b.gamma, b.delta0);
                if (dist > 1e-5 * ext) {
                    const V u = (1 / dist) * (P - Q);
                    const ld ang = 4 * tol / dist + 1e-12L;
                    VF_CHECK(nrm(V(b.normI) - u) <= ang && nrm(V(b.normJ) + u) <= ang, "link-normal", "%s normI (%g,%g,%g) normJ (%g,%g,%g), from J to I (%g,%g,%g)",
                             bs.c_str(), b.normI[0], b.normI[1], b.normI[2], b.normJ[0], b.normJ[1], b.normJ[2], (double)u[0], (double)u[1], (double)u[2]);
                    ld S[9], mx = 0, er = 0;
                    stressRef(dI, dJ, cI, cI + sh, I.length, J.length, I.radius, J.radius, P, Q, S);
                    for (int k = 0; k < 9; k++) {
                        mx = std::max(mx, fabsl(S[k]));
                        er = std::max(er, fabsl(S[k] - b.stress[k]));
                    }
                    VF_CHECK(er <= (1e-8 + 10 * ang) * (mx + ext), "link-stress", "%s stress differs by %.3g of %.3g", bs.c_str(), (double)er, (double)mx);
                }
                vf::count("links_inspected");
                if (own[at[b.gidI]] != own[at[b.gidJ]])
                    vf::count("links_across_ranks");
                if (nrm(sh - (cJ - cI)) > 1e-9 * ext)
                    vf::count("links_through_periodic_image");
                shown += vf::st().nviol != before;
            }
            vf::evals();
            vf::distinct(vf::mix(c, round));
            vf::count("links", (long)table.size());
            if (vf::wantSample())
                vf::sample(inf + vf::fmt(" -> %zu blocks for %zu links", B.size(), table.size()));
            if (want != got) {
                std::string d;
                for (auto &x : want)
                    if (got[x.first] != x.second)
                        d += vf::fmt(" %d->%d wanted %d got %d;", x.first.first, x.first.second, x.second, got[x.first]);
                for (auto &x : got)
                    if (!want.count(x.first) && x.second)
                        d += vf::fmt(" %d->%d wanted 0 got %d;", x.first.first, x.first.second, x.second);
                VF_CHECK(false, "link-count", "%s:%s", inf.c_str(), d.substr(0, 400).c_str());
            }
        }
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
}

// ------------------------------------------------------------------ P18
static void bounds() {
    vf::forCases("bounds", [](uint64_t c, Rng &r) {
        GenOpt o;
        o.nmax = 60;
        World w = makeWorld(r, o);
        double E = 0, ctr[3];
        for (int k = 0; k < 3; k++) {
            E = std::max(E, w.cfg.simBoxHigh[k] - w.cfg.simBoxLow[k]);
            ctr[k] = 0.5 * (w.cfg.simBoxHigh[k] + w.cfg.simBoxLow[k]);
        }
        const int nb = r.i(0, 3);
        for (int b = 0; b < nb; b++) {
            Bnd x;
            x.kind = r.i(3);
            for (int k = 0; k < 3; k++)
                x.c[k] = ctr[k] + 0.4 * E * r.u(-1, 1);
            r.dir(x.n);
            if (r.p(0.4)) {
                const int ax = r.i(3);
                for (int k = 0; k < 3; k++)
                    x.n[k] = k == ax ? (r.p(0.5) ? 1 : -1) : 0;
            }
            if (r.p(0.3))
                for (int k = 0; k < 3; k++)
                    x.n[k] *= 3.5;
            x.R = E * r.u(0.1, 0.8);
            x.inside = r.p(0.6);
            w.bnds.push_back(x);
        }
        // put some particles where it matters: a point of theirs at a chosen distance from a boundary
        const double cb = w.cfg.sylinderColBuf;
        for (auto &p : w.parts) {
            if (!nb || r.p(0.3))
                continue;
            const Bnd &b = r.pick(w.bnds);
            const int which = r.i(3); // minus end, plus end, centre (of the collision shape)
            V m(p.m), e(p.p), x = (ld)0.5 * (m + e), dd = e - m;
            const ld lc = w.cfg.sylinderLengthColRatio;
            V q = which == 0 ? x - (lc / 2) * dd : which == 1 ? x + (lc / 2) * dd : x;
            V g;
            const ld d = b.sd(q, g);
            const double rad = p.r * w.cfg.sylinderDiameterColRatio;
            const double L = (double)nrm(dd) * lc, eff = L < 2 * rad ? rad + L / 2 : rad;
            const double target = r.pick(std::vector<double>{0.0, 0.0, 0.5 * eff, -0.5 * eff, eff, (1 + cb) * eff * 0.999, (1 + 0.5 * cb) * eff, (1 + 2 * cb) * eff * 1.001,
                                                             (1 + 2 * cb) * eff * 0.999, -3 * eff, 1e-9 * eff, 1e-15 * eff});
            const V mv = ((ld)target - d) * g;
            for (int k = 0; k < 3; k++) {
                p.m[k] += (double)mv[k];
                p.p[k] += (double)mv[k];
            }
        }
        const bool tidy = r.p(0.2); // exactly representable positions on an axis aligned wall
        if (tidy && nb) {
            Bnd b;
            b.kind = 1;
            const int ax = r.i(3);
            for (int k = 0; k < 3; k++) {
                b.c[k] = std::ldexp(std::round(std::ldexp(ctr[k], 4)), -4);
                b.n[k] = k == ax ? (r.p(0.5) ? 1 : -1) : 0;
            }
            w.bnds[0] = b;
            for (auto &p : w.parts)
                if (r.p(0.5)) {
                    const double len = p.p[0] == p.m[0] && p.p[1] == p.m[1] && p.p[2] == p.m[2] ? 0 : 4 * p.r;
                    for (int k = 0; k < 3; k++) {
                        const double y = k == ax ? b.c[k] : p.m[k];
                        p.m[k] = y;
                        p.p[k] = y + (k == ax ? len : 0);
                    }
                }
        }
        writePos(w, "pos.dat", rank() == 0 ? &r : nullptr);
        auto sys = start(w, "pos.dat");
        const std::string inf0 = w.str() + vf::fmt(" boundaries=%d ranks=%d threads=%d", nb, size(), omp_get_max_threads());
        for (int round = 0; round < 2; round++) {
            const std::string inf = inf0 + vf::fmt(" round=%d", round);
            vf::beginCase(c, "bounds " + inf);
            if (round)
                moveSome(*sys, w, c, 0.3 * E);
            sys->prepareStep();
            sys->collectBoundaryCollision();
            std::vector<int> own, bown;
            const auto A = particles(*sys, &own);
            auto B = blocks(*sys, &bown);
            std::vector<char> used(B.size(), 0);
            std::multimap<int, size_t> byGid;
            for (size_t k = 0; k < B.size(); k++)
                byGid.insert(std::make_pair(B[k].gidI, k));
            long must = 0, out = 0, on = 0;
            int shown = 0;
            for (size_t i = 0; i < A.size() && shown < 4; i++) {
                Sylinder s = A[i];
                s.radiusCollision = s.radius * w.cfg.sylinderDiameterColRatio;
                s.lengthCollision = s.length * w.cfg.sylinderLengthColRatio;
                const Core K = core(s);
                std::vector<V> pts;
                if (K.sph)
                    pts.push_back(K.c);
                else {
                    pts.push_back(K.a);
                    pts.push_back(K.b);
                }
                ld far = 0;
                for (int k = 0; k < 3; k++)
                    far = std::max(far, fabsl(K.c[k]));
                for (size_t bi = 0; bi < w.bnds.size(); bi++)
                    for (auto &q : pts) {
                        const Bnd &b = w.bnds[bi];
                        V g;
                        const ld d = b.sd(q, g);
                        const ld tol = 1e-11L * (K.r + K.len + E + far + b.R);
                        // blocks of this particle that describe this point and this boundary
                        int found = 0, near = 0;
                        std::string bad;
                        auto rg = byGid.equal_range(s.gid);
                        for (auto it = rg.first; it != rg.second; ++it) {
                            auto &x = B[it->second];
                            if (used[it->second] || !(nrm(V(x.labI) - q) <= tol))
                                continue;
                            near++;
                            V gp;
                            const V proj(x.labJ);
                            const ld onb = b.sd(proj, gp); // projection lies on this boundary, at the distance of the point
                            if (!(fabsl(onb) <= 10 * tol && fabsl(nrm(proj - q) - fabsl(d)) <= 10 * tol))
                                continue;
                            const bool sepOk = fabsl(x.delta0 - (d - K.r)) <= 10 * tol;
                            V nn(x.normI);
                            bool nOk = fabsl(nrm(nn) - 1) < 1e-9L;
                            if (nrm(g) > 0.5L) {
                                // curved boundaries: the direction is only known when the point is away from the centre
                                const ld rho = b.kind == 1 ? 1e300L : fabsl((ld)b.R - (b.inside ? d : -d));
                                const ld lim = 1e-6L + (fabsl(d) > 0 ? std::min<ld>(1, 10 * tol / std::max(fabsl(d), 1e-8L * K.r)) : 0) + 10 * tol / rho;
                                nOk = nOk && (fabsl(d) < 1e-6L * K.r ? vdot(nn, g) > 0.9L : nrm(nn - g) <= lim * 4);
                            }
                            if (sepOk && nOk) {
                                found++;
                                used[it->second] = 1;
                                VF_CHECK(x.oneSide && !x.bilateral && x.gidJ == s.gid && x.globalIndexI == s.globalIndex, "boundary-kind",
                                         "%s: block of gid %d: oneSide %d bilateral %d gidJ %d index %d (particle %d)", inf.c_str(), s.gid, x.oneSide, x.bilateral, x.gidJ,
                                         x.globalIndexI, s.globalIndex);
                                VF_CHECK(nrm(V(x.posI) - (q - K.c)) <= tol, "boundary-arm", "%s: block of gid %d: lever arm (%g,%g,%g), the point is at (%g,%g,%g) from the centre",
                                         inf.c_str(), s.gid, x.posI[0], x.posI[1], x.posI[2], (double)(q - K.c)[0], (double)(q - K.c)[1], (double)(q - K.c)[2]);
                                VF_CHECK(bown[it->second] == own[i], "boundary-rank", "%s: block of gid %d on rank %d, particle on %d", inf.c_str(), s.gid, bown[it->second], own[i]);
                                break;
                            } else
                                bad = vf::fmt("delta0 %.15g (wanted %.15g) norm (%g,%g,%g) (wanted (%g,%g,%g))", x.delta0, (double)(d - K.r), x.normI[0], x.normI[1], x.normI[2],
                                              (double)g[0], (double)g[1], (double)g[2]);
                        }
                        const bool mustRec = d < (1 + 2 * (ld)cb) * K.r - tol, mayRec = d < (1 + 2 * (ld)cb) * K.r + tol;
                        must += mustRec;
                        out += d < 0;
                        on += fabsl(d) < 1e-9L * K.r;
                        vf::count(vf::fmt("points_vs_%s", b.kind == 0 ? "sphere" : b.kind == 1 ? "wall" : "tube"));
                        if (mustRec && !found) {
                            shown++;
                            VF_CHECK(false, bad.empty() ? "boundary-missed" : "boundary-content",
                                     "%s: gid %d %s: point (%.15g,%.15g,%.15g) at signed distance %.15g, cap radius %.9g, from [%s] %s %s", inf.c_str(), s.gid,
                                     K.sph ? "sphere" : "end", (double)q[0], (double)q[1], (double)q[2], (double)d, (double)K.r, b.str().c_str(),
                                     near ? "has no right block:" : "has no block", bad.c_str());
                        }
                        if (!mayRec && found) {
                            shown++;
                            VF_CHECK(false, "boundary-spurious", "%s: gid %d recorded at distance %.15g (cap radius %.9g) from [%s]", inf.c_str(), s.gid, (double)d, (double)K.r,
                                     b.str().c_str());
                        }
                    }
            }
            for (size_t k = 0; k < B.size() && shown < 4; k++)
                if (!used[k]) {
                    shown++;
                    VF_CHECK(false, "boundary-extra", "%s: extra block gid %d delta0 %g labI (%.12g,%.12g,%.12g) labJ (%.12g,%.12g,%.12g) norm (%g,%g,%g)", inf.c_str(), B[k].gidI,
                             B[k].delta0, B[k].labI[0], B[k].labI[1], B[k].labI[2], B[k].labJ[0], B[k].labJ[1], B[k].labJ[2], B[k].normI[0], B[k].normI[1], B[k].normI[2]);
                }
            vf::evals();
            vf::distinct(vf::mix(c, round));
            vf::count("points_near_or_past_a_boundary", must);
            vf::count("points_past_a_boundary", out);
            vf::count("points_on_a_boundary", on);
            vf::count("blocks", (long)B.size());
            if (vf::wantSample())
                vf::sample(inf + vf::fmt(" -> %zu blocks; %ld points must be recorded, %ld of them outside, %ld on the surface", B.size(), must, out, on));
        }
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
}

int main(int argc, char **argv) {
    setup(&argc, &argv);
    const std::string m = vf::st().mode;
    if (m == "pairs")
        pairs();
    else if (m == "links")
        linksMode();
    else if (m == "bounds")
        bounds();
    return done();
}
