// What a run leaves on disk and reads back.
//   snap     P23: every snapshot file parsed by an independent reader and compared with memory
//   write    first stage of P24: runs histories and keeps, per case, a copy of the files of one snapshot and reference states
//   restart  P24: restarts from those copies (any rank count) and compares with the uninterrupted run
//   init     P35: systems set up from position files and from the configuration
//   brown    P27: Brownian velocities
#include "sys.hpp"
#include "vtk.hpp"
#include <dirent.h>
#include <sys/stat.h>
using namespace sysv;

static void prescribed(uint64_t c, int gid, int step, double out[12]) {
    Rng q(vf::mix(vf::mix(c, 77 + step), gid));
    for (int k = 0; k < 12; k++)
        out[k] = q.p(0.05) ? 0 : q.n();
}
static void shell(const std::string &cmd) { // in the run's own scratch directory
    if (rank() == 0 && system(cmd.c_str()) != 0)
        fprintf(stderr, "failed: %s\n", cmd.c_str());
    MPI_Barrier(MPI_COMM_WORLD);
}
static bool exists(const std::string &f) {
    struct stat s;
    return stat(f.c_str(), &s) == 0;
}

// ------------------------------------------------------------------ worlds (the same for any rank count)
struct IoWorld {
    World w;
    double mean, U, F;
    int drive;
    int every; // steps between snapshots
    std::string inf;
};
static IoWorld ioWorld(Rng &r, bool forRestart) {
    IoWorld x;
    GenOpt o;
    o.nmin = r.p(0.1) ? 1 : 2;
    o.nmax = r.p(0.3) ? 4 : 25;
    o.immovable = 0;
    o.density = r.pick(std::vector<double>{0.1, 0.3, 1});
    x.w = makeWorld(r, o);
    World &w = x.w;
    SylinderConfig &cf = w.cfg;
    double mean = 0, Rm = 0;
    for (auto &p : w.parts) {
        mean += (2 * p.r + (double)nrm(V(p.p) - V(p.m))) / w.parts.size();
        Rm += p.r / w.parts.size();
    }
    x.mean = mean;
    cf.viscosity = r.pick(std::vector<double>{1, 0.01, 30});
    cf.dt = r.pick(std::vector<double>{0.01, 1e-4, 1, 0.1, 0.02, 3e-3});
    x.every = r.pick(std::vector<int>{1, 2, 3, 7});
    cf.timeSnap = x.every * cf.dt;
    if (r.p(0.3)) { // as a person would write it
        const double t[][3] = {{0.1, 0.3, 3}, {0.01, 0.07, 7}, {0.02, 0.06, 3}, {1e-4, 3e-4, 3}, {0.1, 0.7, 7}, {0.3, 0.9, 3}, {0.001, 0.003, 3}, {0.1, 0.1, 1}, {0.1, 0.05, 1}, {1, 0.2, 1}};
        const int k = r.i(10);
        cf.dt = t[k][0];
        cf.timeSnap = t[k][1];
        x.every = (int)t[k][2];
    }
    cf.conMaxIte = 2000;
    cf.conResTol = 1e-9;
    cf.conSolverChoice = r.i(2);
    cf.linkKappa = r.pick(std::vector<double>{100, 1}) * cf.viscosity * mean / (cf.dt * 100);
    cf.linkGap = r.pick(std::vector<double>{0, 0.1 * mean});
    cf.sylinderFixed = r.p(0.07);
    cf.rngSeed = r.i(1, 1000000);
    const double disp = mean * r.logu(1e-3, 0.5);
    x.U = disp / cf.dt;
    x.F = 6 * 3.14 * cf.viscosity * mean / 2 * x.U;
    x.drive = r.i(4);
    if (r.p(forRestart ? 0.2 : 0.4)) {
        const double MM = 1 / (6 * 3.14 * cf.viscosity * Rm);
        cf.KBT = std::pow(0.05 * mean, 2) / (2 * MM * cf.dt) * r.pick(std::vector<double>{1e-2, 1});
    }
    if (r.p(0.2)) {
        Bnd b;
        b.kind = r.i(3);
        double E = 0;
        for (int k = 0; k < 3; k++) {
            E = std::max(E, cf.simBoxHigh[k] - cf.simBoxLow[k]);
            b.c[k] = r.u(cf.simBoxLow[k], cf.simBoxHigh[k]);
        }
        r.dir(b.n);
        b.R = E * r.u(0.3, 1);
        b.inside = r.p(0.7);
        w.bnds.push_back(b);
    } else if (r.p(0.6) && w.parts.size() > 1)
        w.parts[r.i((int)w.parts.size())].imm = true;
    const int n0 = (int)w.parts.size();
    if (n0 > 1 && r.p(0.7))
        for (int k = r.i(1, n0); k > 0; k--) {
            const int a = r.i(n0), b = r.i(n0);
            if (a != b && std::find(w.links.begin(), w.links.end(), std::make_pair(w.parts[a].gid, w.parts[b].gid)) == w.links.end())
                w.links.push_back({w.parts[a].gid, w.parts[b].gid});
        }
    x.inf = w.str() + vf::fmt(" ranks=%d threads=%d dt=%g timeSnap=%g kT=%g fixed=%d bnd=%zu links=%zu", size(), omp_get_max_threads(), cf.dt, cf.timeSnap, cf.KBT, (int)cf.sylinderFixed,
                              w.bnds.size(), w.links.size());
    return x;
}
static void push(SylinderSystem &s, const IoWorld &x, uint64_t c, int step) {
    const int nl = s.getContainer().getNumberOfParticleLocal();
    std::vector<double> ff(6 * nl), vv(6 * nl);
    for (int i = 0; i < nl; i++) {
        double q[12];
        prescribed(c, s.getContainer()[i].gid, step, q);
        for (int k = 0; k < 6; k++) {
            ff[6 * i + k] = q[k] * (k < 3 ? x.F : x.F * x.mean / 4);
            vv[6 * i + k] = q[6 + k] * (k < 3 ? x.U : x.U / x.mean * 2);
        }
    }
    if (x.drive & 1)
        s.setForceNonBrown(ff);
    if (x.drive & 2)
        s.setVelocityNonBrown(vv);
}

// ------------------------------------------------------------------ P23
typedef std::multimap<int, int> LM;
static std::vector<std::pair<int, int>> sorted(const LM &m) {
    std::vector<std::pair<int, int>> v(m.begin(), m.end());
    std::sort(v.begin(), v.end());
    return v;
}
static bool near8(double a, double b, double sc) { return std::fabs(a - b) <= 1e-7 * sc; }

static bool lastSnap = true; // whether the snapshot looked at is the latest
// A: what memory held when it was written
static void inspect(const std::string &dir, int id, std::vector<Sylinder> A, const std::vector<ConstraintBlock> &B, const LM &links, const IoWorld &x, int step, unsigned seed, const std::string &inf) {
    if (rank())
        return;
    std::map<int, const Sylinder *> at;
    for (auto &s : A)
        at[s.gid] = &s;
    std::string err;
    std::map<int, int> seen;
    vtkf::Par h;
    const std::string tag = std::to_string(id);
    VF_CHECK(vtkf::readPar(dir + "Sylinder_" + tag + ".pvtp", h, err), "pvtp", "%s: %s", inf.c_str(), err.c_str());
    std::vector<std::string> want, wantC;
    for (int k = 0; k < size(); k++) {
        want.push_back("Sylinder_r" + std::to_string(k) + "_" + tag + ".vtp");
        wantC.push_back("ConBlock_r" + std::to_string(k) + "_" + tag + ".vtp");
    }
    auto names = [](std::vector<std::string> v) {
        std::sort(v.begin(), v.end());
        std::string s;
        for (auto &q : v)
            s += q + " ";
        return s;
    };
    VF_CHECK(names(h.pieces) == names(want), "pvtp-pieces", "%s: header lists %s", inf.c_str(), names(h.pieces).c_str());
    double far = 0;
    for (auto &s : A)
        for (int k = 0; k < 3; k++)
            far = std::max(far, std::fabs(s.pos[k]) + s.length);
    int shown = 0;
    for (auto &pn : want) {
        vtkf::Piece p;
        if (!vtkf::readPiece(dir + pn, p, err)) {
            vf::violation("vtp", "%s: %s", inf.c_str(), err.c_str());
            continue;
        }
        VF_CHECK(vtkf::agree(h, p, err), "pvtp-arrays", "%s: %s: %s", inf.c_str(), pn.c_str(), err.c_str());
        if (p.npoints != 2 * p.nlines) {
            vf::violation("vtp", "%s: %s has %ld points for %ld particles", inf.c_str(), pn.c_str(), p.npoints, p.nlines);
            continue;
        }
        auto need = [&](std::map<std::string, vtkf::Arr> &m, const char *n, const char *t, int nc) -> const vtkf::Arr * {
            auto it = m.find(n);
            if (it == m.end() || it->second.type != t || it->second.ncomp != nc) {
                vf::violation("vtp-array-missing", "%s: %s: no %s array %s of %d components", inf.c_str(), pn.c_str(), t, n, nc);
                return nullptr;
            }
            return &it->second;
        };
        const auto *pos = &p.points.begin()->second, *con = need(p.lines, "connectivity", "Int32", 1), *off = need(p.lines, "offsets", "Int32", 1), *lab = need(p.pdata, "endLabel", "UInt8", 1),
                   *gid = need(p.cdata, "gid", "Int32", 1), *grp = need(p.cdata, "group", "Int32", 1), *imm = need(p.cdata, "isImmovable", "UInt8", 1),
                   *xn = need(p.cdata, "xnorm", "Float32", 3), *zn = need(p.cdata, "znorm", "Float32", 3);
        struct {
            const char *n;
            int nc;
            size_t off;
        } fl[] = {{"radius", 1, offsetof(Sylinder, radius)}, {"radiusCollision", 1, offsetof(Sylinder, radiusCollision)}, {"length", 1, offsetof(Sylinder, length)},
                  {"lengthCollision", 1, offsetof(Sylinder, lengthCollision)}, {"vel", 3, offsetof(Sylinder, vel)}, {"omega", 3, offsetof(Sylinder, omega)},
                  {"velCollision", 3, offsetof(Sylinder, velCol)}, {"omegaCollision", 3, offsetof(Sylinder, omegaCol)}, {"velBilateral", 3, offsetof(Sylinder, velBi)},
                  {"omegaBilateral", 3, offsetof(Sylinder, omegaBi)}, {"velNonBrown", 3, offsetof(Sylinder, velNonB)}, {"omegaNonBrown", 3, offsetof(Sylinder, omegaNonB)},
                  {"force", 3, offsetof(Sylinder, force)}, {"torque", 3, offsetof(Sylinder, torque)}, {"forceCollision", 3, offsetof(Sylinder, forceCol)},
                  {"torqueCollision", 3, offsetof(Sylinder, torqueCol)}, {"forceBilateral", 3, offsetof(Sylinder, forceBi)}, {"torqueBilateral", 3, offsetof(Sylinder, torqueBi)},
                  {"forceNonBrown", 3, offsetof(Sylinder, forceNonB)}, {"torqueNonBrown", 3, offsetof(Sylinder, torqueNonB)}, {"velBrown", 3, offsetof(Sylinder, velBrown)},
                  {"omegaBrown", 3, offsetof(Sylinder, omegaBrown)}};
        std::vector<const vtkf::Arr *> fa;
        bool ok = con && off && lab && gid && grp && imm && xn && zn && pos->type == "Float64";
        for (auto &f : fl) {
            fa.push_back(need(p.cdata, f.n, "Float32", f.nc));
            ok = ok && fa.back();
        }
        if (!ok)
            continue;
        for (long i = 0; i < p.nlines && shown < 3; i++) {
            const int g = gid->at<int32_t>(i);
            seen[g]++;
            if (!at.count(g)) {
                vf::violation("snapshot-particle", "%s: %s holds particle %d, which does not exist", inf.c_str(), pn.c_str(), g);
                continue;
            }
            const Sylinder &s = *at[g];
            const long b0 = vf::st().nviol;
            VF_CHECK(grp->at<int32_t>(i) == s.group && (imm->at<uint8_t>(i) != 0) == s.isImmovable, "snapshot-flags", "%s: gid %d written with group %d immovable %d, is group %d immovable %d",
                     inf.c_str(), g, grp->at<int32_t>(i), imm->at<uint8_t>(i), s.group, s.isImmovable);
            const V d = axis(s.orientation);
            for (int e = 0; e < 2; e++) {
                const V q = V(s.pos) + ((e ? 0.5L : -0.5L) * (ld)s.length) * d;
                for (int k = 0; k < 3; k++)
                    VF_CHECK(fabsl(pos->at<double>(6 * i + 3 * e + k) - q[k]) <= 1e-14L * far, "snapshot-position", "%s: gid %d end %d coordinate %d written %.15g, is %.15g", inf.c_str(), g, e, k,
                             pos->at<double>(6 * i + 3 * e + k), (double)q[k]);
                VF_CHECK(lab->at<uint8_t>(2 * i + e) == e && con->at<int32_t>(2 * i + e) == 2 * i + e, "snapshot-lines", "%s: gid %d end %d has label %d, line %ld has point %d", inf.c_str(), g, e,
                         lab->at<uint8_t>(2 * i + e), i, con->at<int32_t>(2 * i + e));
            }
            VF_CHECK(off->at<int32_t>(i) == 2 * i + 2, "snapshot-lines", "%s: line %ld ends at %d", inf.c_str(), i, off->at<int32_t>(i));
            for (size_t f = 0; f < fa.size(); f++)
                for (int k = 0; k < fl[f].nc; k++) {
                    const double v = *reinterpret_cast<const double *>(reinterpret_cast<const char *>(&s) + fl[f].off + 8 * k);
                    const float got = fa[f]->at<float>(i * fl[f].nc + k), exact = (float)v;
                    VF_CHECK(got == exact || (got != got && exact != exact) || std::fabs(got - exact) <= 1.3e-7 * std::fabs(exact), "snapshot-field", "%s: gid %d %s[%d] written %.9g, is %.9g",
                             inf.c_str(), g, fl[f].n, k, got, v);
                }
            // body axes
            V z(zn->at<float>(3 * i), zn->at<float>(3 * i + 1), zn->at<float>(3 * i + 2)), xx(xn->at<float>(3 * i), xn->at<float>(3 * i + 1), xn->at<float>(3 * i + 2));
            double qr[4] = {s.orientation[0], s.orientation[1], s.orientation[2], s.orientation[3]};
            const ld X = qr[0], Y = qr[1], Z = qr[2], W = qr[3];
            const V bx(1 - 2 * (Y * Y + Z * Z), 2 * (X * Y + W * Z), 2 * (X * Z - W * Y));
            VF_CHECK(nrm(z - d) < 1e-6L && nrm(xx - bx) < 1e-6L, "snapshot-axes", "%s: gid %d znorm (%g,%g,%g) is (%g,%g,%g); xnorm (%g,%g,%g) is (%g,%g,%g)", inf.c_str(), g, (double)z[0],
                     (double)z[1], (double)z[2], (double)d[0], (double)d[1], (double)d[2], (double)xx[0], (double)xx[1], (double)xx[2], (double)bx[0], (double)bx[1], (double)bx[2]);
            shown += vf::st().nviol != b0;
        }
    }
    if (shown < 3) {
        bool once = seen.size() == A.size();
        for (auto &q : seen)
            once = once && q.second == 1;
        VF_CHECK(once, "snapshot-count", "%s: pieces hold %zu different particles, %zu exist", inf.c_str(), seen.size(), A.size());
    }
    // constraint blocks: the multiset of all values
    vtkf::Par hc;
    VF_CHECK(vtkf::readPar(dir + "ConBlock_" + tag + ".pvtp", hc, err), "con-pvtp", "%s: %s", inf.c_str(), err.c_str());
    VF_CHECK(names(hc.pieces) == names(wantC), "con-pieces", "%s: header lists %s", inf.c_str(), names(hc.pieces).c_str());
    typedef std::vector<double> Rec;
    std::vector<Rec> mem, got;
    for (auto &b : B) {
        Rec q;
        for (int k = 0; k < 3; k++)
            q.push_back(b.labI[k]);
        for (int k = 0; k < 3; k++)
            q.push_back(b.labJ[k]);
        for (int v : {b.gidI, b.gidJ, b.globalIndexI, b.globalIndexJ})
            q.push_back(v);
        for (auto *pp : {b.posI, b.posJ, b.normI, b.normJ})
            for (int k = 0; k < 3; k++)
                q.push_back((float)pp[k]);
        q.push_back(b.oneSide ? 1 : 0);
        q.push_back(b.bilateral ? 1 : 0);
        q.push_back((float)b.delta0);
        q.push_back((float)b.gamma);
        q.push_back((float)b.kappa);
        for (int k = 0; k < 9; k++)
            q.push_back((float)b.stress[k]);
        for (auto &v : q)
            v += 0.0; // one zero
        mem.push_back(q);
    }
    for (auto &pn : wantC) {
        vtkf::Piece p;
        if (!vtkf::readPiece(dir + pn, p, err)) {
            vf::violation("con-vtp", "%s: %s", inf.c_str(), err.c_str());
            continue;
        }
        VF_CHECK(vtkf::agree(hc, p, err), "con-arrays", "%s: %s: %s", inf.c_str(), pn.c_str(), err.c_str());
        static const char *pd[] = {"gid", "globalIndex", "posIJ", "normIJ"}, *cd[] = {"oneSide", "bilateral", "delta0", "gamma", "kappa", "Stress"};
        bool ok = p.npoints == 2 * p.nlines && p.points.begin()->second.type == "Float64";
        for (int k = 0; k < 4; k++)
            ok = ok && p.pdata.count(pd[k]) && p.pdata[pd[k]].type == (k < 2 ? "Int32" : "Float32") && p.pdata[pd[k]].ncomp == (k < 2 ? 1 : 3);
        for (int k = 0; k < 6; k++)
            ok = ok && p.cdata.count(cd[k]) && p.cdata[cd[k]].type == (k < 2 ? "Int32" : "Float32") && p.cdata[cd[k]].ncomp == (k == 5 ? 9 : 1);
        if (!ok) {
            vf::violation("con-array-missing", "%s: %s lacks an array", inf.c_str(), pn.c_str());
            continue;
        }
        for (long i = 0; i < p.nlines; i++) {
            Rec q;
            for (int k = 0; k < 6; k++)
                q.push_back(p.points.begin()->second.at<double>(6 * i + k));
            for (int k = 0; k < 2; k++)
                for (int e = 0; e < 2; e++)
                    q.push_back(p.pdata[pd[k]].at<int32_t>(2 * i + e));
            for (int k = 2; k < 4; k++)
                for (int e = 0; e < 6; e++)
                    q.push_back(p.pdata[pd[k]].at<float>(6 * i + e));
            for (int k = 0; k < 2; k++)
                q.push_back(p.cdata[cd[k]].at<int32_t>(i));
            for (int k = 2; k < 5; k++)
                q.push_back(p.cdata[cd[k]].at<float>(i));
            for (int k = 0; k < 9; k++)
                q.push_back(p.cdata["Stress"].at<float>(9 * i + k));
            for (auto &v : q)
                v += 0.0;
            got.push_back(q);
            VF_CHECK(p.lines["offsets"].at<int32_t>(i) == 2 * i + 2 && p.lines["connectivity"].at<int32_t>(2 * i) == 2 * i && p.lines["connectivity"].at<int32_t>(2 * i + 1) == 2 * i + 1, "con-lines",
                     "%s: %s: line %ld", inf.c_str(), pn.c_str(), i);
        }
    }
    std::sort(mem.begin(), mem.end());
    std::sort(got.begin(), got.end());
    if (mem != got) {
        std::string d;
        for (size_t i = 0; i < std::min(mem.size(), got.size()) && d.empty(); i++)
            for (size_t k = 0; k < mem[i].size() && k < got[i].size(); k++)
                if (mem[i][k] != got[i][k]) {
                    d = vf::fmt("sorted block %zu value %zu is %.9g in memory, %.9g in the file", i, k, mem[i][k], got[i][k]);
                    break;
                }
        vf::violation("con-blocks", "%s: %zu constraint blocks in the files, %zu in memory; %s", inf.c_str(), got.size(), mem.size(), d.c_str());
    }
    vf::count("constraint_blocks_compared", (long)mem.size());
    // ascii
    std::ifstream f(dir + "SylinderAscii_" + tag + ".dat");
    std::string line;
    int n = -1;
    double t = -1;
    std::getline(f, line);
    n = atoi(line.c_str());
    std::getline(f, line);
    t = atof(line.c_str());
    VF_CHECK(n == (int)A.size() && std::fabs(t - step * x.w.cfg.dt) <= 1e-6 + 1e-6 * std::fabs(t), "ascii-header", "%s: header says %d particles at time %g, is %zu at %g", inf.c_str(), n, t, A.size(),
             step * x.w.cfg.dt);
    std::map<int, int> as;
    LM al;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        char ch;
        is >> ch;
        if (ch == 'L') {
            int a, b;
            is >> a >> b;
            al.insert({a, b});
            continue;
        }
        int g, grp = -99;
        double R, m[6];
        is >> g >> R;
        for (auto &v : m)
            is >> v;
        is >> grp;
        as[g]++;
        if (!is || !at.count(g) || (ch != 'C' && ch != 'S')) {
            vf::violation("ascii-line", "%s: line '%s'", inf.c_str(), line.c_str());
            continue;
        }
        const Sylinder &s = *at[g];
        const V d = axis(s.orientation);
        bool ok = (ch == 'S') == s.isImmovable && grp == s.group && near8(R, s.radius, s.radius);
        for (int e = 0; e < 2; e++)
            for (int k = 0; k < 3; k++) {
                const double v = s.pos[k] + (e ? 0.5 : -0.5) * s.length * (double)d[k];
                ok = ok && near8(m[3 * e + k], v, std::fabs(v) + 1e-8 * far);
            }
        VF_CHECK(ok, "ascii-particle", "%s: line '%s' for %s group %d immovable %d", inf.c_str(), line.c_str(), show(s).c_str(), s.group, s.isImmovable);
    }
    bool once = as.size() == A.size();
    for (auto &q : as)
        once = once && q.second == 1;
    VF_CHECK(once, "ascii-count", "%s: ascii file holds %zu particles, %zu exist", inf.c_str(), as.size(), A.size());
    VF_CHECK(sorted(al) == sorted(links), "ascii-links", "%s: ascii file holds %zu links, %zu exist", inf.c_str(), al.size(), links.size());
    // restart pointer
    std::ifstream ti("TimeStepInfo.txt");
    unsigned sd = 0;
    int st = -1, sn = -1;
    std::string pv;
    ti >> sd >> st >> sn >> pv;
    VF_CHECK(!lastSnap || sd == seed && st == step && sn == id && pv == "Sylinder_" + tag + ".pvtp", "restart-pointer", "%s: TimeStepInfo says seed %u step %d snapshot %d file %s", inf.c_str(), sd, st, sn, pv.c_str());
    vf::count("snapshots_parsed");
    vf::count("particles_compared", (long)A.size());
    vf::count("links_compared", (long)links.size());
}
static void boxFile(const SylinderConfig &c, const std::string &inf) {
    if (rank())
        return;
    std::ifstream f("result/simBox.vtk");
    std::string w;
    int ax = -1, bad = 0, got = 0;
    while (f >> w)
        for (int k = 0; k < 3; k++)
            if (w == std::string(1, "XYZ"[k]) + "_COORDINATES") {
                int n;
                std::string t;
                double a, b;
                f >> n >> t >> a >> b;
                ax = k;
                got++;
                const double tol = 2e-5 * std::max(std::fabs(c.simBoxLow[k]), std::fabs(c.simBoxHigh[k]));
                bad += n != 2 || std::fabs(a - c.simBoxLow[k]) > tol || std::fabs(b - c.simBoxHigh[k]) > tol;
            }
    VF_CHECK(!bad && got == 3, "box-file", "%s: simBox.vtk does not hold the box (axis %d)", inf.c_str(), ax);
}
static int countFiles(const std::string &d) {
    int n = 0;
    if (DIR *p = opendir(d.c_str())) {
        while (dirent *e = readdir(p))
            n += e->d_name[0] != '.';
        closedir(p);
    }
    return n;
}

static void snap() {
    vf::forCases("snap", [&](uint64_t c, Rng &r0) {
        Rng r = r0;
        IoWorld x = ioWorld(r, false);
        World &w = x.w;
        shell("rm -rf result TimeStepInfo.txt");
        writePos(w, "pos.dat", nullptr);
        vf::beginCase(c, "snap " + x.inf);
        auto sys = start(w, "pos.dat");
        boxFile(w.cfg, x.inf);
        LM links(w.links.begin(), w.links.end());
        const int steps = r.p(0.1) && w.parts.size() < 10 ? 30 : r.i(1, 9);
        int id = 0;
        const long v0 = vf::st().nviol;
        const bool many = r.p(0.06) && w.parts.size() < 6 && size() > 1; // enough snapshots for a second folder
        int tag = 1;
        for (int step = 0; step < steps && vf::st().nviol - v0 < 6; step++) {
            const std::string inf = x.inf + vf::fmt(" step=%d", step);
            vf::beginCase(c, "snap " + inf);
            if (r.p(0.15)) { // new particles and links show up in the next snapshot
                std::vector<Sylinder> mine;
                double p[3], q[4] = {0, 0, 0, 1};
                for (int k = 0; k < 3; k++)
                    p[k] = r.u(w.cfg.simBoxLow[k], w.cfg.simBoxHigh[k]);
                Sylinder s(-1, w.parts[0].r, w.parts[0].r, x.mean, x.mean, p, q);
                s.group = 100 + tag++;
                s.clear();
                const int who = r.i(1000);
                if (who % size() == rank())
                    mine.push_back(s);
                auto ids = gather(sys->addNewSylinder(mine));
                if (ids.size() == 1 && !w.parts.empty()) {
                    Link l;
                    l.prev = ids[0];
                    l.next = w.parts[0].gid;
                    sys->addNewLink(rank() == 0 ? std::vector<Link>{l} : std::vector<Link>{});
                    links.insert({l.prev, l.next});
                }
            }
            sys->prepareStep();
            const auto A = particles(*sys);
            push(*sys, x, c, step);
            const bool due = step % x.every == 0, says = sys->getIfWriteResultCurrentStep();
            VF_CHECK(due == says, "interval", "%s: dt %g, snapshot time %g: the system %s a snapshot at step %d", inf.c_str(), w.cfg.dt, w.cfg.timeSnap, says ? "announces" : "skips", step);
            VF_CHECK(sys->getSnapID() == id, "snapshot-number", "%s: snapshot number %d, %d were written", inf.c_str(), sys->getSnapID(), id);
            const std::string dir = sys->getResultFolderWithID(id);
            VF_CHECK(dir == sys->getCurrentResultFolder(), "folder", "%s: current folder %s, folder of snapshot %d %s", inf.c_str(), sys->getCurrentResultFolder().c_str(), id, dir.c_str());
            int files = 0;
            if (rank() == 0)
                files = countFiles(dir);
            MPI_Barrier(MPI_COMM_WORLD);
            sys->runStep();
            MPI_Barrier(MPI_COMM_WORLD);
            const auto Z = particles(*sys);
            const auto B = blocks(*sys);
            if (due != says)
                break;
            if (due) {
                std::vector<Sylinder> M = Z;
                if (M.size() == A.size())
                    for (size_t i = 0; i < M.size(); i++) { // written before the move
                        std::copy(A[i].pos, A[i].pos + 3, M[i].pos);
                        std::copy(A[i].orientation, A[i].orientation + 4, M[i].orientation);
                    }
                inspect(dir, id, M, B, links, x, step, w.cfg.rngSeed, inf);
                id++;
            } else if (rank() == 0)
                VF_CHECK(countFiles(dir) == files, "unannounced-files", "%s: a step without a snapshot wrote %d files", inf.c_str(), countFiles(dir) - files);
            if (r.p(0.15)) { // on request
                sys->writeResult();
                MPI_Barrier(MPI_COMM_WORLD);
                inspect(sys->getResultFolderWithID(id), id, Z, B, links, x, step + 1, w.cfg.rngSeed, inf + " on request");
                id++;
            }
            vf::evals();
            vf::distinct(vf::mix(c, step));
            if (many && step == 0) {
                const int per = std::max(400 / size(), 1);
                for (; id < per + 2; id++)
                    sys->writeResult();
                MPI_Barrier(MPI_COMM_WORLD);
                for (int k : {per - 1, per, per + 1})
                    lastSnap = k == per + 1, inspect(sys->getResultFolderWithID(k), k, Z, B, links, x, step + 1, w.cfg.rngSeed, inf + vf::fmt(" snapshot %d", k));
                vf::count("second_result_folder_reached");
            }
            if (vf::wantSample() && due)
                vf::sample(inf + vf::fmt(" -> snapshot %d in %s", id - 1, dir.c_str()));
        }
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
}

// ------------------------------------------------------------------ P24
struct RefHead {
    int stepSnap, snap, steps, regular, np;
};
static void putState(const std::string &f, const RefHead &h, const std::vector<std::vector<Sylinder>> &st) {
    FILE *o = fopen(f.c_str(), "wb");
    fwrite(&h, sizeof h, 1, o);
    for (auto &v : st) {
        const long n = (long)v.size();
        fwrite(&n, sizeof n, 1, o);
        if (n)
            fwrite(v.data(), sizeof(Sylinder), v.size(), o);
    }
    fclose(o);
}
static bool getState(const std::string &f, RefHead &h, std::vector<std::vector<Sylinder>> &st) {
    FILE *o = fopen(f.c_str(), "rb");
    if (!o)
        return false;
    bool ok = fread(&h, sizeof h, 1, o) == 1;
    st.assign(h.steps + 3, {});
    for (auto &v : st) {
        long n = 0;
        ok = ok && fread(&n, sizeof n, 1, o) == 1;
        v.resize(ok ? n : 0);
        ok = ok && (long)fread(v.data(), sizeof(Sylinder), v.size(), o) == (long)v.size();
    }
    fclose(o);
    return ok;
}
// the plan of a case, the same in both stages
static void plan(Rng &r, const IoWorld &x, int &stop, int &after) {
    stop = x.every * r.i(0, x.every > 3 ? 1 : 3); // the snapshot that is restarted from
    after = r.i(1, 5);                            // steps after it
}
static void write() {
    vf::forCases("restart", [&](uint64_t c, Rng &r0) {
        Rng r = r0;
        IoWorld x = ioWorld(r, true);
        World &w = x.w;
        int stop, after;
        plan(r, x, stop, after);
        const std::string D = "case_" + std::to_string(c);
        vf::beginCase(c, "write " + x.inf);
        shell("rm -rf result TimeStepInfo.txt " + D + "; mkdir " + D);
        writePos(w, "pos.dat", nullptr);
        auto sys = start(w, "pos.dat");
        std::vector<std::vector<Sylinder>> st; // 0: as written; 1..: after prepareStep of stop+1, stop+2, ..; last: after the last step
        RefHead h{stop, 0, after, 1, size()};
        for (int step = 0; step <= stop + after; step++) {
            sys->prepareStep();
            if (step > stop)
                st.push_back(particles(*sys));
            push(*sys, x, c, step);
            if (step == stop)
                h.snap = sys->getSnapID();
            sys->runStep();
            if (step == stop) {
                st.push_back(particles(*sys));
                shell("cp -r result TimeStepInfo.txt " + D + "/");
            }
            // contacts of crossed cores have no direction: what follows cannot be compared
            int reg = 1;
            for (auto &q : sys->getConstraintPoolNonConst())
                for (auto &b : q)
                    if (!b.oneSide && !b.bilateral && nrm(V(b.labI) - V(b.labJ)) < 1e-2L * x.mean)
                        reg = 0;
            for (int i = 0; i < sys->getContainer().getNumberOfParticleLocal(); i++)
                for (int k = 0; k < 3; k++)
                    if (!(std::fabs(sys->getContainer()[i].vel[k]) * w.cfg.dt < 3 * x.mean))
                        reg = 0;
            int all = 0;
            MPI_Allreduce(&reg, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
            if (step > stop)
                h.regular = h.regular && all;
        }
        st.push_back(particles(*sys));
        st.push_back({});
        if (rank() == 0)
            putState(D + "/ref.bin", h, st);
        vf::evals();
        vf::distinct(vf::mix(c, 1));
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
}
static void restart() {
    const std::string prev = vf::option("prev", ".");
    vf::forCases("restart", [&](uint64_t c, Rng &r0) {
        Rng r = r0;
        IoWorld x = ioWorld(r, true);
        World &w = x.w;
        int stop, after;
        plan(r, x, stop, after);
        const std::string D = prev + "/case_" + std::to_string(c);
        RefHead h;
        std::vector<std::vector<Sylinder>> st;
        if (!getState(D + "/ref.bin", h, st)) {
            fprintf(stderr, "no reference for case %llu in %s\n", (unsigned long long)c, D.c_str());
            MPI_Abort(MPI_COMM_WORLD, 3);
        }
        shell("rm -rf result TimeStepInfo.txt; cp -r " + D + "/result " + D + "/TimeStepInfo.txt .");
        const std::string inf = x.inf + vf::fmt(" written by %d rank(s), restarted after step %d", h.np, stop);
        vf::beginCase(c, "restart " + inf);
        auto fresh = [&](SylinderSystem &s, bool euler = true) {
            SylinderConfig cf = w.cfg;
            for (auto &b : w.bnds)
                cf.boundaryPtr.push_back(b.make());
            s.reinitialize(cf, "TimeStepInfo.txt", 0, nullptr, euler);
        };
        std::unique_ptr<SylinderSystem> sys(new SylinderSystem());
        fresh(*sys);
        const SylinderConfig &cf = w.cfg;
        VF_CHECK(sys->getStepCount() == stop + 1 && sys->getSnapID() == h.snap + 1, "restart-counters", "%s: continues at step %d snapshot %d, wanted %d and %d", inf.c_str(), sys->getStepCount(),
                 sys->getSnapID(), stop + 1, h.snap + 1);
        LM links(w.links.begin(), w.links.end());
        LM f(sys->getLinkMap().begin(), sys->getLinkMap().end()), b;
        for (auto &q : sys->getLinkReverseMap())
            b.insert({q.second, q.first});
        VF_CHECK(sorted(f) == sorted(links) && sorted(b) == sorted(links), "restart-links", "%s: %zu links (%zu reversed), %zu were written", inf.c_str(), f.size(), b.size(), links.size());
        auto compare = [&](const std::vector<Sylinder> &ref, const std::vector<Sylinder> &got, double tol, double atol, const char *key, const char *when, bool vel) {
            std::map<int, const Sylinder *> at;
            std::map<int, int> n;
            for (auto &s : ref)
                at[s.gid] = &s;
            for (auto &s : got)
                n[s.gid]++;
            bool once = n.size() == ref.size() && got.size() == ref.size();
            for (auto &q : n)
                once = once && at.count(q.first);
            if (!once) {
                vf::violation("restart-particles", "%s %s: %zu particles (%zu different), %zu in the reference", inf.c_str(), when, got.size(), n.size(), ref.size());
                return;
            }
            int shown = 0;
            for (auto &s : got) {
                if (shown >= 3)
                    break;
                const Sylinder &a = *at[s.gid];
                const long b0 = vf::st().nviol;
                VF_CHECK(s.group == a.group && s.isImmovable == a.isImmovable && std::fabs(s.radius - a.radius) <= 1.3e-7 * a.radius && std::fabs(s.length - a.length) <= 1.3e-7 * a.length,
                         "restart-identity", "%s %s: gid %d has group %d immovable %d R %.9g L %.9g, was group %d immovable %d R %.9g L %.9g", inf.c_str(), when, s.gid, s.group, s.isImmovable,
                         s.radius, s.length, a.group, a.isImmovable, a.radius, a.length);
                for (int k = 0; k < 3; k++) {
                    ld d = (ld)s.pos[k] - a.pos[k];
                    if (cf.simBoxPBC[k]) {
                        const ld E = (ld)cf.simBoxHigh[k] - cf.simBoxLow[k];
                        d -= E * roundl(d / E);
                    }
                    vf::maxi(std::string(key) + " deviation over tolerance", (double)(fabsl(d) / tol));
                    VF_CHECK(fabsl(d) <= tol, key, "%s %s: gid %d coordinate %d is %.12g, uninterrupted %.12g (tolerance %g)", inf.c_str(), when, s.gid, k, s.pos[k], a.pos[k], tol);
                }
                VF_CHECK(nrm(axis(s.orientation) - axis(a.orientation)) <= atol, key, "%s %s: gid %d axis (%g,%g,%g), uninterrupted (%g,%g,%g) (tolerance %g)", inf.c_str(), when, s.gid,
                         (double)axis(s.orientation)[0], (double)axis(s.orientation)[1], (double)axis(s.orientation)[2], (double)axis(a.orientation)[0], (double)axis(a.orientation)[1],
                         (double)axis(a.orientation)[2], atol);
                if (vel) {
                    const ld sv = nrm(V(a.vel)), so = nrm(V(a.omega));
                    VF_CHECK(nrm(V(s.vel) - V(a.vel)) <= 2e-7L * sv + 1e-37L && nrm(V(s.omega) - V(a.omega)) <= 2e-7L * so + 1e-37L, "restart-velocity",
                             "%s %s: gid %d vel (%g,%g,%g) omega (%g,%g,%g), was (%g,%g,%g) (%g,%g,%g)", inf.c_str(), when, s.gid, s.vel[0], s.vel[1], s.vel[2], s.omega[0], s.omega[1], s.omega[2],
                             a.vel[0], a.vel[1], a.vel[2], a.omega[0], a.omega[1], a.omega[2]);
                }
                shown += vf::st().nviol != b0;
            }
        };
        double far = 0, vmax = 0, omax = 0;
        for (auto &s : st[0]) {
            for (int k = 0; k < 3; k++)
                far = std::max(far, std::fabs(s.pos[k]));
            vmax = std::max(vmax, (double)nrm(V(s.vel)));
            omax = std::max(omax, (double)nrm(V(s.omega)));
        }
        const double tol = 1e-12 * (far + x.mean) + 3e-7 * vmax * cf.dt, atol = 1e-6 + 3e-7 * omax * cf.dt;
        compare(st[0], particles(*sys), tol, atol, "restart-position", "after restarting", true);
        if (r.p(0.3)) { // without the Euler step: the particles as they were written, before they moved
            std::unique_ptr<SylinderSystem> still(new SylinderSystem());
            fresh(*still, false);
            auto P = particles(*still);
            for (auto &s : P)
                for (int k = 0; k < 3 && !cf.sylinderFixed; k++)
                    s.pos[k] += s.vel[k] * cf.dt;
            compare(st[0], P, tol + 1e-14 * far, 4 + atol, "restart-position", "restarted without the Euler step, one step further", true);
            vf::count("restarts_without_the_euler_step");
        }
        // go on, alongside the reference
        std::set<std::vector<double>> noise;
        auto brown = [&](SylinderSystem &s, const char *when) {
            if (cf.KBT == 0)
                return;
            for (auto &q : particles(s))
                if (!q.isImmovable) {
                    vf::count("brownian_velocities_compared");
                    VF_CHECK(noise.insert({q.velBrown[0], q.velBrown[1], q.velBrown[2]}).second, "restart-noise", "%s %s: Brownian velocity (%.12g,%.12g,%.12g) of gid %d was used before", inf.c_str(),
                             when, q.velBrown[0], q.velBrown[1], q.velBrown[2], q.gid);
                }
        };
        if (cf.KBT > 0)
            for (size_t k = 0; k < st.size(); k++)
                if (k == 0 || (int)k == h.steps + 1) // velocities of the step before
                    for (auto &q : st[k])
                        if (!q.isImmovable)
                            noise.insert({q.velBrown[0], q.velBrown[1], q.velBrown[2]});
        for (int k = 0; k < after; k++) {
            sys->prepareStep();
            if (k == 0)
                compare(st[1], particles(*sys), tol, atol, "restart-position", "at the next step", false);
            push(*sys, x, c, stop + 1 + k);
            sys->runStep();
            brown(*sys, "restarted");
        }
        if (cf.KBT == 0 && h.regular && !st[h.steps + 1].empty()) {
            // rounding of the snapshot to float, amplified by contacts
            const double T = 1e-4 * x.mean + 1e-6 * (vmax * cf.dt);
            compare(st[h.steps + 1], particles(*sys), T, 1e-3, "continuation", "at the end", false);
            vf::count("continuations_compared");
            if (vmax * cf.dt > 10 * T)
                vf::count("continuations_that_moved_much_more_than_the_tolerance");
        }
        vf::count("restarts");
        if (h.np != size())
            vf::count("restarts_on_another_rank_count");
        // and a restart of the restart
        if (after >= x.every && r.p(0.5)) {
            const int s2 = (stop + after) / x.every * x.every; // its last snapshot
            MPI_Barrier(MPI_COMM_WORLD); // all of it is on disk
            std::unique_ptr<SylinderSystem> again(new SylinderSystem());
            fresh(*again);
            VF_CHECK(again->getStepCount() == s2 + 1 && again->getSnapID() == h.snap + 1 + (s2 - stop) / x.every, "restart-counters", "%s: second restart continues at step %d snapshot %d, wanted %d and %d",
                     inf.c_str(), again->getStepCount(), again->getSnapID(), s2 + 1, h.snap + 1 + (s2 - stop) / x.every);
            again->prepareStep();
            again->runStep();
            brown(*again, "restarted twice");
            vf::count("second_restarts");
        }
        vf::evals();
        vf::distinct(vf::mix(c, stop));
        if (vf::wantSample())
            vf::sample(inf + vf::fmt(" -> %zu particles, %d steps compared", st[0].size(), after));
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
}

// ------------------------------------------------------------------ P35
static struct {
    double n = 0, u[3] = {0, 0, 0}, uu[6] = {0, 0, 0, 0, 0, 0}; // orientations asked to be random
    double m = 0, p[3] = {0, 0, 0}, pp[3] = {0, 0, 0};          // positions, in units of the box
    double k = 0, rr = 0, cs = 0;                               // circular cross-section
} ist;
static void initFile(uint64_t c, Rng &r) {
    World w;
    w.cfg = baseConfig();
    SylinderConfig &cf = w.cfg;
    const double unit = r.logu(1e-2, 1e2);
    for (int k = 0; k < 3; k++) {
        cf.simBoxPBC[k] = r.p(0.5);
        cf.simBoxLow[k] = cf.initBoxLow[k] = unit * r.u(-5, 0);
        cf.simBoxHigh[k] = cf.initBoxHigh[k] = cf.simBoxLow[k] + unit * r.u(5, 12);
    }
    cf.sylinderNumber = r.i(0, 7); // must not matter
    cf.sylinderDiameterColRatio = r.u(0.5, 2);
    cf.monolayer = false;
    const int n = r.p(0.2) ? r.i(1, 3) : r.i(1, 80);
    int g = r.p(0.5) ? 0 : r.i(5000);
    std::vector<std::string> lines;
    std::map<int, PartIn> in;
    std::map<int, int> hasGroup;
    std::vector<std::pair<int, int>> links;
    auto numf = [&](double v) { return r.p(0.5) ? vf::fmt("%.17g", v) : vf::fmt("%.8g", v); };
    for (int i = 0; i < n; i++) {
        PartIn p;
        p.gid = g;
        g += 1 + (r.p(0.3) ? r.i(1000) : 0);
        p.imm = r.p(0.3);
        double x[3], d[3];
        r.dir(d);
        if (r.p(0.2)) {
            const int ax = r.i(3);
            for (int k = 0; k < 3; k++)
                d[k] = k == ax ? (r.p(0.5) ? 1 : -1) : 0;
        }
        const double L = r.p(0.2) ? 0 : r.p(0.1) ? unit * r.logu(1e-9, 1e-3) : unit * r.logu(0.05, 5);
        for (int k = 0; k < 3; k++) {
            const double E = cf.simBoxHigh[k] - cf.simBoxLow[k];
            x[k] = r.u(cf.simBoxLow[k], cf.simBoxHigh[k]) + (r.p(0.05) ? r.i(-2, 2) * E : 0);
        }
        p = part(p.gid, unit * r.logu(1e-3, 1), L, x, d, p.imm, r.p(0.5) ? r.i(100) : -1);
        char ty = p.imm ? 'S' : 'C';
        std::string s = vf::fmt("%c %d ", ty, p.gid), t;
        t = numf(p.r);
        p.r = atof(t.c_str());
        s += t;
        for (int e = 0; e < 2; e++)
            for (int k = 0; k < 3; k++) {
                double &v = e ? p.p[k] : p.m[k];
                t = numf(v);
                v = atof(t.c_str());
                s += (r.p(0.1) ? "   " : " ") + t;
            }
        if (p.group != -1 || r.p(0.2))
            s += vf::fmt(" %d", p.group);
        if (r.p(0.1))
            s += " ";
        lines.push_back(s);
        in[p.gid] = p;
    }
    std::vector<int> ids;
    for (auto &q : in)
        ids.push_back(q.first);
    if (ids.size() > 1)
        for (int k = r.i(0, (int)ids.size()); k > 0; k--) {
            const int a = r.pick(ids), b = r.pick(ids);
            if (a == b)
                continue;
            links.push_back({a, b});
            lines.push_back(vf::fmt("L %d %d", a, b));
        }
    for (int k = r.i(0, 4); k > 0; k--)
        lines.push_back(r.pick(std::vector<std::string>{"# comment C 5 1 0 0 0 1 1 1", "", " C 5 1 0 0 0 1 1 1", "X 1 2 3", "c 1 1 1 1 1 1 1 1", "// L 1 2"}));
    r.shuffle(lines);
    shell("rm -rf result pos.dat");
    if (rank() == 0) {
        FILE *f = fopen("pos.dat", "w");
        fprintf(f, "%d\n%s\n", r.p(0.5) ? n : 0, r.p(0.5) ? "0.0" : "C 1 2 3 a header line");
        for (size_t i = 0; i < lines.size(); i++)
            fprintf(f, "%s%s", lines[i].c_str(), i + 1 < lines.size() || r.p(0.8) ? "\n" : "");
        fclose(f);
    }
    const std::string inf = vf::fmt("position file of %d particles %zu links, ranks=%d threads=%d", n, links.size(), size(), omp_get_max_threads());
    vf::beginCase(c, "init " + inf);
    auto sys = start(w, "pos.dat");
    std::vector<int> own;
    const auto A = particles(*sys, &own);
    std::map<int, int> cnt;
    int shown = 0;
    for (auto &s : A) {
        cnt[s.gid]++;
        if (!in.count(s.gid)) {
            if (shown++ < 3)
                vf::violation("init-extra", "%s: particle %d is not in the file", inf.c_str(), s.gid);
            continue;
        }
        if (shown >= 3)
            break;
        const long b0 = vf::st().nviol;
        const PartIn &p = in[s.gid];
        const V m(p.m), q(p.p);
        const ld L = nrm(q - m);
        VF_CHECK(s.radius == p.r && s.group == p.group && s.isImmovable == p.imm && fabsl(s.length - L) <= 1e-13L * (L + nrm(m)), "init-fields",
                 "%s: gid %d R %.17g L %.17g group %d immovable %d, the file says R %.17g L %.17Lg group %d immovable %d", inf.c_str(), s.gid, s.radius, s.length, s.group, s.isImmovable, p.r, L,
                 p.group, p.imm);
        { // the sizes used for collisions start from those of the particle, scaled or not yet
            auto from = [](double got, double size, double ratio) { return std::fabs(got - size) <= 1e-13 * size || std::fabs(got - size * ratio) <= 1e-13 * size; };
            VF_CHECK(from(s.radiusCollision, s.radius, cf.sylinderDiameterColRatio) && from(s.lengthCollision, s.length, cf.sylinderLengthColRatio), "init-collision-size",
                     "%s: gid %d R %.17g L %.17g, for collisions R %.17g L %.17g", inf.c_str(), s.gid, s.radius, s.length, s.radiusCollision, s.lengthCollision);
        }
        for (int k = 0; k < 3; k++) {
            ld d = s.pos[k] - (m[k] + q[k]) / 2;
            if (cf.simBoxPBC[k]) {
                const ld E = (ld)cf.simBoxHigh[k] - cf.simBoxLow[k];
                d -= E * roundl(d / E);
            }
            VF_CHECK(fabsl(d) <= 1e-13L * (fabsl(m[k]) + fabsl(q[k]) + cf.simBoxHigh[k] - cf.simBoxLow[k]), "init-position", "%s: gid %d coordinate %d is %.15g, the file says %.15g", inf.c_str(), s.gid, k,
                     s.pos[k], (double)((m[k] + q[k]) / 2));
        }
        const ld qn = sqrtl((ld)s.orientation[0] * s.orientation[0] + (ld)s.orientation[1] * s.orientation[1] + (ld)s.orientation[2] * s.orientation[2] + (ld)s.orientation[3] * s.orientation[3]);
        // Eigen's setFromTwoVectors loses digits for nearly opposite vectors
        const bool anti = L > 0 && (q - m)[2] / L < -1 + 5e-7L;
        VF_CHECK(fabsl(qn - 1) < (anti ? 2e-4L : 1e-8L), "init-quaternion", "%s: gid %d quaternion norm %.15g", inf.c_str(), s.gid, (double)qn);
        if (L > 1e-6L) { // shorter ones may count as spheres without direction
            const V d = axis(s.orientation), want = (1 / L) * (q - m);
            // ends are known to rounding only
            VF_CHECK(nrm(d - want) <= (anti ? 2e-4L : 1e-7L) + 4e-16L * (nrm(m) + nrm(q)) / L, "init-axis", "%s: gid %d axis (%g,%g,%g), the file says (%g,%g,%g)", inf.c_str(), s.gid, (double)d[0], (double)d[1],
                     (double)d[2], (double)want[0], (double)want[1], (double)want[2]);
        }
        shown += vf::st().nviol != b0;
    }
    bool once = cnt.size() == in.size();
    for (auto &q : cnt)
        once = once && q.second == 1;
    VF_CHECK(once || shown, "init-count", "%s: %zu particles (%zu different), %zu in the file", inf.c_str(), A.size(), cnt.size(), in.size());
    LM lk(links.begin(), links.end()), f(sys->getLinkMap().begin(), sys->getLinkMap().end()), b;
    for (auto &q : sys->getLinkReverseMap())
        b.insert({q.second, q.first});
    VF_CHECK(sorted(f) == sorted(lk) && sorted(b) == sorted(lk), "init-links", "%s: %zu links (%zu reversed), %zu in the file", inf.c_str(), f.size(), b.size(), lk.size());
    vf::evals();
    vf::distinct(c);
    vf::count("particles_read", (long)A.size());
    vf::count("links_read", (long)lk.size());
    if (vf::wantSample())
        vf::sample(inf);
}
static void initConfig(uint64_t c, Rng &r) {
    World w;
    w.cfg = baseConfig();
    SylinderConfig &cf = w.cfg;
    const double unit = r.logu(1e-2, 1e2);
    double minE = 1e300;
    for (int k = 0; k < 3; k++) {
        cf.simBoxPBC[k] = false;
        cf.initBoxLow[k] = unit * r.u(-5, 5);
        const double E = unit * r.u(2, 12);
        cf.initBoxHigh[k] = cf.initBoxLow[k] + E;
        minE = std::min(minE, E);
        cf.simBoxLow[k] = cf.initBoxLow[k] - (r.p(0.5) ? 0 : r.u(0, 1) * E);
        cf.simBoxHigh[k] = cf.initBoxHigh[k] + (r.p(0.5) ? 0 : r.u(0, 1) * E);
    }
    const int kind = r.i(4);
    for (int k = 0; k < 3; k++)
        cf.initOrient[k] = kind == 0 ? r.pick(std::vector<double>{2, -2, 1.5}) : kind == 1 ? r.u(-1, 1) : r.p(0.5) ? 2 : r.pick(std::vector<double>{0, 1, -1, 0.5, -0.3});
    if (kind != 0 && cf.initOrient[0] == 0 && cf.initOrient[1] == 0 && cf.initOrient[2] == 0)
        cf.initOrient[r.i(3)] = r.p(0.5) ? 1 : -1;
    cf.sylinderNumber = r.p(0.1) ? r.i(1, 3) : r.i(1, 300);
    cf.sylinderDiameter = unit * r.logu(0.01, 1);
    const bool ln = r.p(0.4);
    cf.sylinderLengthSigma = ln ? r.u(0.1, 1) : r.pick(std::vector<double>{-1, 0});
    // the length parameter of the log-normal distribution is read as its mu by the code and as its mean by the documentation; either way most lengths fit
    cf.sylinderLength = ln ? std::min(0.3 * minE, std::log(0.3 * minE)) : unit * r.logu(0.01, 3);
    if (ln && cf.sylinderLength <= 0)
        cf.sylinderLength = -r.u(0, 1) + std::min(0.0, std::log(0.3 * minE));
    cf.initCircularX = r.p(0.3);
    cf.rngSeed = r.i(1, 1000000);
    shell("rm -rf result pos.dat");
    const std::string inf = vf::fmt("configuration: %d particles L %g sigma %g D %g orient (%g,%g,%g) circular %d ranks=%d threads=%d seed %u", cf.sylinderNumber, cf.sylinderLength,
                                    cf.sylinderLengthSigma, cf.sylinderDiameter, cf.initOrient[0], cf.initOrient[1], cf.initOrient[2], (int)cf.initCircularX, size(), omp_get_max_threads(), cf.rngSeed);
    vf::beginCase(c, "init " + inf);
    auto sys = start(w, "pos.dat");
    const auto A = particles(*sys);
    std::set<int> ids;
    std::set<std::vector<double>> seen;
    int shown = 0;
    double lmin = 1e300, lmax = 0;
    for (auto &s : A) {
        if (shown >= 3)
            break;
        const long b0 = vf::st().nviol;
        VF_CHECK(ids.insert(s.gid).second && s.gid >= 0 && s.gid < cf.sylinderNumber, "config-ids", "%s: id %d (of %d)", inf.c_str(), s.gid, cf.sylinderNumber);
        VF_CHECK(std::fabs(s.radius - cf.sylinderDiameter / 2) <= 1e-15 * s.radius && !s.isImmovable, "config-size", "%s: gid %d radius %g immovable %d", inf.c_str(), s.gid, s.radius, s.isImmovable);
        if (ln)
            VF_CHECK(s.length > 0 && s.length < minE / 2, "config-length", "%s: gid %d length %g, half the smallest box edge is %g", inf.c_str(), s.gid, s.length, minE / 2);
        else
            VF_CHECK(s.length == cf.sylinderLength, "config-length", "%s: gid %d length %g", inf.c_str(), s.gid, s.length);
        lmin = std::min(lmin, s.length);
        lmax = std::max(lmax, s.length);
        VF_CHECK(seen.insert({s.pos[0], s.pos[1], s.pos[2]}).second, "config-repeated", "%s: gid %d is where another particle is", inf.c_str(), s.gid);
        for (int k = 0; k < 3; k++) {
            const double E = cf.initBoxHigh[k] - cf.initBoxLow[k];
            VF_CHECK(s.pos[k] >= cf.initBoxLow[k] - 1e-12 * E && s.pos[k] <= cf.initBoxHigh[k] + 1e-12 * E, "config-box", "%s: gid %d coordinate %d at %g, initial box [%g,%g]", inf.c_str(), s.gid, k,
                     s.pos[k], cf.initBoxLow[k], cf.initBoxHigh[k]);
            const double x = (s.pos[k] - cf.initBoxLow[k]) / E - 0.5;
            if (!cf.initCircularX || k == 0) {
                ist.p[k] += x;
                ist.pp[k] += x * x - 1 / 12.0;
                ist.m += k == 0;
            }
        }
        if (cf.initCircularX) {
            const double y = s.pos[1] - 0.5 * (cf.initBoxLow[1] + cf.initBoxHigh[1]), z = s.pos[2] - 0.5 * (cf.initBoxLow[2] + cf.initBoxHigh[2]);
            const double R = 0.5 * std::min(cf.initBoxHigh[1] - cf.initBoxLow[1], cf.initBoxHigh[2] - cf.initBoxLow[2]);
            VF_CHECK(y * y + z * z <= R * R * (1 + 1e-12), "config-circle", "%s: gid %d at (y,z)=(%g,%g) from the axis, radius %g", inf.c_str(), s.gid, y, z, R);
            ist.k++;
            ist.rr += (y * y + z * z) / (R * R) - 0.5;
            ist.cs += (y * y - z * z) / (R * R);
        }
        const V d = axis(s.orientation);
        const double q2 = std::pow(s.orientation[0], 2) + std::pow(s.orientation[1], 2) + std::pow(s.orientation[2], 2) + std::pow(s.orientation[3], 2);
        VF_CHECK(std::fabs(q2 - 1) < 1e-8, "config-quaternion", "%s: gid %d quaternion norm^2 %.15g", inf.c_str(), s.gid, q2);
        bool fix[3];
        int nf = 0;
        for (int k = 0; k < 3; k++) {
            fix[k] = cf.initOrient[k] >= -1 && cf.initOrient[k] <= 1;
            nf += fix[k];
        }
        if (nf == 0) {
            ist.n++;
            int e = 0;
            for (int a = 0; a < 3; a++) {
                ist.u[a] += d[a];
                for (int b = a; b < 3; b++)
                    ist.uu[e++] += d[a] * d[b] - (a == b ? 1 / 3.0 : 0);
            }
        } else {
            // d is parallel to a vector with the given components, the others within [-1,1]
            int big = -1;
            for (int k = 0; k < 3; k++)
                if (fix[k] && cf.initOrient[k] != 0 && (big < 0 || std::fabs(cf.initOrient[k]) > std::fabs(cf.initOrient[big])))
                    big = k;
            bool ok = true;
            if (big >= 0) {
                const ld lam = cf.initOrient[big] / d[big]; // d * lam is that vector
                ok = lam > 0;
                for (int k = 0; k < 3; k++)
                    ok = ok && (fix[k] ? fabsl(lam * d[k] - cf.initOrient[k]) <= 1e-6L * (1 + fabsl(lam)) : fabsl(lam * d[k]) <= 1 + 1e-6L * (1 + fabsl(lam)));
            } else
                for (int k = 0; k < 3; k++)
                    ok = ok && (!fix[k] || fabsl(d[k]) <= 1e-6L);
            VF_CHECK(ok, "config-orientation", "%s: gid %d axis (%g,%g,%g)", inf.c_str(), s.gid, (double)d[0], (double)d[1], (double)d[2]);
        }
        shown += vf::st().nviol != b0;
    }
    VF_CHECK((int)A.size() == cf.sylinderNumber, "config-count", "%s: %zu particles", inf.c_str(), A.size());
    if (ln && A.size() > 20 && shown == 0)
        VF_CHECK(lmax > lmin, "config-length", "%s: all lengths are %g", inf.c_str(), lmax);
    VF_CHECK(sys->getLinkMap().empty(), "config-links", "%s: %zu links from nowhere", inf.c_str(), sys->getLinkMap().size());
    vf::evals();
    vf::distinct(c);
    vf::count("particles_generated", (long)A.size());
    if (vf::wantSample())
        vf::sample(inf);
}
static void init() {
    vf::forCases("init", [&](uint64_t c, Rng &r) {
        const long b0 = vf::st().nviol;
        (void)b0;
        if (r.i(2))
            initFile(c, r);
        else
            initConfig(c, r);
        MPI_Barrier(MPI_COMM_WORLD);
    });
    if (rank() || vf::st().haveCase)
        return;
    vf::beginCase(0, "init statistics");
    auto z = [&](double s, double n, double var, const char *what) {
        const double v = s / std::sqrt(n * var);
        vf::maxi("largest deviation of a mean, in standard errors", std::fabs(v));
        VF_CHECK(std::fabs(v) < 6.5, "config-distribution", "%s over %g draws is off by %.1f standard errors", what, n, v);
    };
    if (ist.n > 500) {
        for (int k = 0; k < 3; k++)
            z(ist.u[k], ist.n, 1 / 3.0, "mean of a random orientation component");
        for (int e = 0; e < 6; e++)
            z(ist.uu[e], ist.n, e == 0 || e == 3 || e == 5 ? 4 / 45.0 : 1 / 15.0, "second moment of random orientations");
    }
    if (ist.m > 500)
        for (int k = 0; k < 1; k++) {
            z(ist.p[k], ist.m, 1 / 12.0, "mean position in the initial box");
            z(ist.pp[k], ist.m, 1 / 180.0, "spread of positions in the initial box");
        }
    if (ist.k > 500) {
        z(ist.rr, ist.k, 1 / 12.0, "mean squared radius in the cross-section");
        z(ist.cs, ist.k, 1 / 6.0, "anisotropy of the cross-section");
    }
    vf::count("orientations_in_statistics", (long)ist.n);
    vf::count("cross_sections_in_statistics", (long)ist.k);
}

// ------------------------------------------------------------------ P27
static struct {
    double n = 0, s1[6] = {0}, s2[6] = {0}, s4[6] = {0}, xc[15] = {0}, lab[6] = {0};
    double nn = 0, nb = 0; // neighbours in the container, steps
    double np = 0, xp[6] = {0};
} bs;
static void brown() {
    std::set<std::vector<double>> seen;
    vf::forCases("brown", [&](uint64_t c, Rng &r) {
        World w;
        w.cfg = baseConfig();
        SylinderConfig &cf = w.cfg;
        const double unit = r.logu(1e-2, 1e2);
        for (int k = 0; k < 3; k++) {
            cf.simBoxPBC[k] = r.p(0.5);
            cf.simBoxLow[k] = 0;
            cf.simBoxHigh[k] = unit * 60;
        }
        cf.rngSeed = r.i(1, 2000000000);
        cf.viscosity = r.logu(1e-3, 1e2);
        cf.monolayer = r.p(0.15);
        cf.sylinderColBuf = 0;
        const int n = r.p(0.5) ? r.i(1, 120) : r.i(200, 600);
        double Rmin = 1e300;
        for (int i = 0; i < n; i++) {
            double x[3], d[3];
            r.dir(d);
            if (cf.monolayer)
                d[2] *= 0.2;
            for (int k = 0; k < 3; k++)
                x[k] = r.u(0, cf.simBoxHigh[k]);
            const double R = unit * r.logu(0.05, 0.5);
            const double L = cf.monolayer || r.p(0.7) ? 2 * R * r.logu(1.05, 30) : r.p(0.5) ? 0 : 2 * R * r.u(0, 0.99);
            const double l = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
            for (auto &v : d)
                v /= l;
            Rmin = std::min(Rmin, R);
            w.parts.push_back(part(i, R, L, x, d, r.p(0.1)));
        }
        // displacement per step well below the particle size: the drift correction is then negligible
        cf.dt = r.logu(1e-5, 1);
        const double M = 1 / (6 * 3.14 * cf.viscosity * Rmin);
        cf.KBT = r.p(0.1) ? 0 : std::pow(1e-3 * Rmin, 2) / (2 * M * cf.dt) * r.logu(1e-2, 1);
        cf.timeSnap = 1e6 * cf.dt;
        shell("rm -rf result");
        writePos(w, "pos.dat");
        auto sys = start(w, "pos.dat");
        const std::string inf = vf::fmt("%d particles unit %g mu %g kT %g dt %g mono %d ranks=%d threads=%d seed %u", n, unit, cf.viscosity, cf.KBT, cf.dt, (int)cf.monolayer, size(),
                                        omp_get_max_threads(), cf.rngSeed);
        vf::beginCase(c, "brown " + inf);
        std::map<int, std::array<double, 6>> last;
        for (int step = 0; step < 8; step++) {
            sys->prepareStep();
            auto A = particles(*sys);
            sys->runStep();
            // the recorded values are what the solver is given
            if (cf.KBT > 0) {
                auto vb = sys->getVelocityBrown();
                auto v = vb->getLocalView<Kokkos::HostSpace>();
                int bad = 0;
                for (int i = 0; i < sys->getContainer().getNumberOfParticleLocal() && bad < 2; i++) {
                    const auto &s = sys->getContainer()[i];
                    for (int k = 0; k < 3; k++)
                        if (v(6 * i + k, 0) != s.velBrown[k] || v(6 * i + 3 + k, 0) != s.omegaBrown[k])
                            bad++;
                }
                VF_CHECK(!bad, "brownian-record", "%s: getVelocityBrown differs from the particles' velBrown", inf.c_str());
            }
            const auto Z = particles(*sys);
            if (A.size() != Z.size()) {
                vf::violation("brownian-particles", "%s: %zu particles before the step, %zu after", inf.c_str(), A.size(), Z.size());
                break;
            }
            for (size_t i = 0; i < A.size(); i++) // drawn for the orientation before the move
                for (int k = 0; k < 3; k++) {
                    A[i].velBrown[k] = Z[i].velBrown[k];
                    A[i].omegaBrown[k] = Z[i].omegaBrown[k];
                }
            double prev[6] = {0};
            bool havePrev = false;
            int shown = 0;
            for (auto &s : A) {
                const V vb(s.velBrown), ob(s.omegaBrown), d = axis(s.orientation);
                if (cf.KBT == 0 || s.isImmovable) {
                    VF_CHECK(nrm(vb) + nrm(ob) == 0, "brownian-not-zero", "%s: gid %d (immovable %d) velBrown (%g,%g,%g)", inf.c_str(), s.gid, s.isImmovable, s.velBrown[0], s.velBrown[1], s.velBrown[2]);
                    continue;
                }
                VF_CHECK(std::isfinite((double)(nrm(vb) + nrm(ob))), "brownian-not-finite", "%s: gid %d", inf.c_str(), s.gid);
                if (cf.monolayer)
                    VF_CHECK(vb[2] == 0 && ob[0] == 0 && ob[1] == 0, "brownian-out-of-plane", "%s: gid %d velBrown z %g omega (%g,%g)", inf.c_str(), s.gid, s.velBrown[2], s.omegaBrown[0], s.omegaBrown[1]);
                // mobility
                ld mp, mt, mr;
                const ld pi = 3.14159265358979323846264338L, L = s.length, R = s.radius, mu = cf.viscosity;
                if (s.length < 2 * s.radius) {
                    const ld a = L / 2 + R;
                    mp = mt = 1 / (6 * pi * mu * a);
                    mr = 1 / (8 * pi * mu * a * a * a);
                } else {
                    const ld b = -(1 + 2 * logl(R / L));
                    mp = 2 * b / (8 * pi * L * mu);
                    mt = (b + 2) / (8 * pi * L * mu);
                    mr = 3 * (b + 2) / (2 * pi * mu * L * L * L);
                }
                if (!(mp > 0 && mt > 0 && mr > 0))
                    continue;
                // a frame with d as third axis; for the monolayer only in-plane parts are random
                V e1 = cf.monolayer ? V(d[1], -d[0], 0) : cross(d, fabsl(d[0]) < 0.7L ? V(1, 0, 0) : V(0, 1, 0));
                e1 = (1 / nrm(e1)) * e1;
                const V e2 = cross(d, e1);
                const ld f = sqrtl(2 * (ld)cf.KBT / cf.dt);
                double x[6] = {(double)(vdot(vb, e1) / (f * sqrtl(mt))), (double)(vdot(vb, e2) / (f * sqrtl(mt))), (double)(vdot(vb, d) / (f * sqrtl(mp))), (double)(vdot(ob, V(1, 0, 0)) / (f * sqrtl(mr))),
                               (double)(vdot(ob, V(0, 1, 0)) / (f * sqrtl(mr))), (double)(vdot(ob, V(0, 0, 1)) / (f * sqrtl(mr)))};
                const bool fresh = seen.insert({s.omegaBrown[0] / (double)sqrtl(mr) / (double)f, s.omegaBrown[1] / (double)sqrtl(mr) / (double)f, s.omegaBrown[2] / (double)sqrtl(mr) / (double)f}).second;
                (void)fresh;
                for (int k = 0; k < 6; k++)
                    if (shown < 3 && !(std::fabs(x[k]) < 9)) { // once in 10^18
                        vf::violation("brownian-size", "%s: gid %d %s component %d is %g standard deviations", inf.c_str(), s.gid, show(s).c_str(), k, x[k]);
                        shown++;
                    }
                static int one = 0;
                if (!cf.monolayer) {
                    bs.n++;
                    int e = 0;
                    for (int a = 0; a < 6; a++) {
                        bs.s1[a] += x[a];
                        bs.s2[a] += x[a] * x[a] - 1;
                        bs.s4[a] += x[a] * x[a] * x[a] * x[a] - 3;
                        for (int b = a + 1; b < 6; b++)
                            bs.xc[e++] += x[a] * x[b];
                    }
                    // the same in the axes of the box: no axis is special, nor is there a correlation by octant
                    double u[3];
                    for (int k = 0; k < 3; k++)
                        u[k] = (double)(x[0] * e1[k] + x[1] * e2[k] + x[2] * d[k]);
                    for (int k = 0; k < 3; k++) {
                        const int q = (k + 1) % 3;
                        bs.lab[k] += u[k] * u[k] - u[q] * u[q];
                        bs.lab[3 + k] += u[k] * u[q] * (d[k] * d[q] < 0 ? -1 : 1);
                    }
                    if (havePrev)
                        for (int a = 0; a < 6; a++) {
                            bs.nn += a == 0;
                            bs.xp[a] += x[a] * prev[a];
                        }
                    auto it = last.find(s.gid);
                    if (it != last.end()) {
                        bs.nb++;
                        for (int a = 0; a < 6; a++)
                            VF_CHECK(x[a] != it->second[a] || one++ > 2, "brownian-repeats", "%s: gid %d component %d the same in two steps", inf.c_str(), s.gid, a);
                    }
                    std::copy(x, x + 6, prev);
                    havePrev = true;
                    std::copy(x, x + 6, last[s.gid].begin());
                }
                vf::count("brownian_velocities_observed");
            }
            // no two particles share their noise: the rotational part is the same function of it for all
            std::map<std::array<long long, 3>, int> key;
            for (auto &s : A) {
                if (s.isImmovable || cf.KBT == 0 || cf.monolayer)
                    continue;
                const ld R = s.radius, L = s.length, pi = 3.14159265358979323846264338L;
                const ld mr = s.length < 2 * s.radius ? 1 / (8 * pi * cf.viscosity * powl(L / 2 + R, 3)) : 3 * (-(1 + 2 * logl(R / L)) + 2) / (2 * pi * cf.viscosity * L * L * L);
                const ld f = sqrtl(2 * (ld)cf.KBT / cf.dt * mr);
                std::array<long long, 3> q;
                for (int k = 0; k < 3; k++)
                    q[k] = llrintl(s.omegaBrown[k] / f * 1e7L);
                auto ins = key.insert({q, s.gid});
                VF_CHECK(ins.second, "brownian-shared", "%s: gids %d and %d got the same noise", inf.c_str(), s.gid, ins.first->second);
            }
            vf::evals();
            vf::distinct(vf::mix(c, step));
        }
        if (vf::wantSample())
            vf::sample(inf);
        sys.reset();
        MPI_Barrier(MPI_COMM_WORLD);
    });
    if (rank() || vf::st().haveCase || bs.n < 5000)
        return;
    vf::beginCase(0, "brown statistics");
    static const char *nm[] = {"perpendicular 1", "perpendicular 2", "parallel", "rotation x", "rotation y", "rotation z"};
    auto z = [&](double s, double n, double var, const std::string &what) {
        const double v = s / std::sqrt(n * var);
        vf::maxi("largest deviation, in standard errors", std::fabs(v));
        VF_CHECK(std::fabs(v) < 6.5, "brownian-distribution", "%s of whitened Brownian velocities over %g draws: %.4g, off by %.1f standard errors", what.c_str(), n, s / n, v);
    };
    for (int k = 0; k < 3; k++) {
        z(bs.lab[k], bs.n, 4, vf::fmt("difference of the variances along axes %d and %d", k, (k + 1) % 3));
        z(bs.lab[3 + k], bs.n, 1, vf::fmt("correlation by octant of axes %d and %d", k, (k + 1) % 3));
    }
    int e = 0;
    for (int a = 0; a < 6; a++) {
        z(bs.s1[a], bs.n, 1, std::string("mean, ") + nm[a]);
        z(bs.s2[a], bs.n, 2, std::string("variance minus one, ") + nm[a]);
        z(bs.s4[a], bs.n, 96, std::string("fourth moment minus three, ") + nm[a]);
        for (int b = a + 1; b < 6; b++)
            z(bs.xc[e++], bs.n, 1, std::string("correlation of ") + nm[a] + " and " + nm[b]);
        z(bs.xp[a], bs.nn, 1, std::string("correlation between particles, ") + nm[a]);
    }
}

int main(int argc, char **argv) {
    setup(&argc, &argv);
    const std::string m = vf::st().mode;
    if (m == "snap")
        snap();
    else if (m == "write")
        write();
    else if (m == "restart")
        restart();
    else if (m == "init")
        init();
    else if (m == "brown")
        brown();
    return done();
}
