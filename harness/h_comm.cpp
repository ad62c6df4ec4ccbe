// Monitors for the distributed building blocks: all-to-all exchange (P07), data directory (P09), mixed pair search (P10).
#include "vf.hpp"

#include "MPI/CommMPI.hpp"
#include "MPI/MixPairInteraction.hpp"
#include "Trilinos/ZDD.hpp"

#include <algorithm>
#include <map>
#include <memory>
#include <mpi.h>
#include <omp.h>
#include <tuple>

using vf::Rng;
static int rk, np;

template <class T>
static std::vector<T> gatherAll(const std::vector<T> &v, std::vector<int> *cnt = nullptr) {
    int n = (int)(v.size() * sizeof(T));
    std::vector<int> c(np), d(np + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < np; i++)
        d[i + 1] = d[i] + c[i];
    std::vector<T> all(d[np] / sizeof(T));
    MPI_Allgatherv(v.data(), n, MPI_BYTE, all.data(), c.data(), d.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (cnt) {
        cnt->clear();
        for (int x : c)
            cnt->push_back(x / (int)sizeof(T));
    }
    return all;
}

// ------------------------------------------------------------------ P07
template <int PAD>
struct Item { // unique id + payload that depends on all of it
    uint64_t id = 0;
    int src = -1, dest = -1, seq = -1;
    unsigned char pad[PAD] = {0};
    void set(uint64_t i, int s, int d, int q) {
        id = i;
        seq = q;
        src = s;
        dest = d;
        for (int k = 0; k < PAD; k++)
            pad[k] = (unsigned char)vf::mix(i, k);
    }
    bool ok() const {
        for (int k = 0; k < PAD; k++)
            if (pad[k] != (unsigned char)vf::mix(id, k))
                return false;
        return true;
    }
};

struct Small { // 4 bytes: id only
    unsigned id = 0;
};

template <class T>
static void oneExchange(CommMPI &comm, uint64_t c, Rng &r, const std::string &name) {
    // all ranks draw the same plan
    const int kind = r.i(7);
    std::vector<int> cnt(np);
    for (int k = 0; k < np; k++)
        cnt[k] = kind == 0 ? 0 : kind == 1 ? (k == (int)(c % np) ? r.i(1, 300) : 0) : r.p(0.15) ? 0 : r.i(1, r.p(0.1) ? 6000 : 200);
    std::vector<int> dest, src;
    std::vector<T> data;
    std::vector<std::vector<int>> allDest(np);
    for (int k = 0; k < np; k++) {
        const int fixed = r.i(np), fixed2 = r.i(np);
        for (int i = 0; i < cnt[k]; i++) {
            int d;
            switch (kind) {
            case 2:
                d = fixed; // each rank sends to one
                break;
            case 3:
                d = (int)(c % np); // everything to one rank
                break;
            case 4:
                d = k; // nothing leaves
                break;
            case 5:
                d = r.p(0.5) ? fixed : fixed2;
                break;
            default:
                d = r.i(np);
            }
            allDest[k].push_back(d);
        }
    }
    const std::string inf = vf::fmt("%s ranks=%d kind=%d items=%d..%d", name.c_str(), np, kind, *std::min_element(cnt.begin(), cnt.end()),
                                    *std::max_element(cnt.begin(), cnt.end()));
    vf::beginCase(c, "exchange " + inf);
    for (int i = 0; i < cnt[rk]; i++) {
        T t;
        t.set(vf::mix(c, (uint64_t)rk * 1000003 + i), rk, allDest[rk][i], i);
        data.push_back(t);
        dest.push_back(allDest[rk][i]);
    }
    // leftovers of an earlier call must not survive
    std::vector<T> recv((size_t)r.i(5) * 3);
    std::vector<int> recvSrc(recv.size(), 77);
    comm.exchangeAllToAllV(dest, data, recvSrc, recv);
    std::multimap<uint64_t, int> want;
    for (int k = 0; k < np; k++)
        for (int i = 0; i < cnt[k]; i++)
            if (allDest[k][i] == rk)
                want.emplace(vf::mix(c, (uint64_t)k * 1000003 + i), k);
    vf::evals();
    vf::distinct(c);
    vf::count("items", cnt[rk]);
    vf::count(vf::fmt("kind%d", kind));
    if (vf::wantSample())
        vf::sample(inf + vf::fmt(" rank %d sent %d received %zu", rk, cnt[rk], recv.size()));
    VF_CHECK(recv.size() == want.size() && recvSrc.size() == want.size(), "exchange-count", "%s: rank %d received %zu items (%zu source labels), %zu were addressed to it",
             inf.c_str(), rk, recv.size(), recvSrc.size(), want.size());
    size_t n = std::min(recv.size(), recvSrc.size());
    for (size_t i = 0; i < n; i++) {
        auto it = want.find(recv[i].id);
        if (it == want.end()) {
            VF_CHECK(false, "exchange-unexpected", "%s: rank %d item %zu id %llx was not addressed to it or came twice", inf.c_str(), rk, i,
                     (unsigned long long)recv[i].id);
            break;
        }
        VF_CHECK(recvSrc[i] == it->second && recv[i].src == it->second, "exchange-source", "%s: rank %d item %zu from rank %d is labelled %d", inf.c_str(), rk, i,
                 it->second, recvSrc[i]);
        VF_CHECK(recv[i].ok() && recv[i].dest == rk, "exchange-payload", "%s: rank %d item %zu damaged", inf.c_str(), rk, i);
        if (i > 0 && recvSrc[i] == recvSrc[i - 1])
            VF_CHECK(recv[i].seq > recv[i - 1].seq, "exchange-order", "%s: rank %d items %zu,%zu from rank %d were given in the other order", inf.c_str(), rk,
                     i - 1, i, recvSrc[i]);
        if (i > 0)
            VF_CHECK(recvSrc[i] >= recvSrc[i - 1], "exchange-grouping", "%s: rank %d item %zu from rank %d after rank %d", inf.c_str(), rk, i, recvSrc[i], recvSrc[i - 1]);
        want.erase(it);
    }
    VF_CHECK(want.empty() || recv.size() != want.size(), "exchange-lost", "%s: rank %d lost %zu items", inf.c_str(), rk, want.size());
    // what the caller holds still pairs items with destinations
    VF_CHECK(data.size() == (size_t)cnt[rk] && dest.size() == data.size(), "exchange-sendbuffer", "%s: send buffers resized", inf.c_str());
    for (size_t i = 0; i < std::min(dest.size(), data.size()); i++)
        if (data[i].dest != dest[i]) {
            VF_CHECK(false, "exchange-sendbuffer", "%s: rank %d send item %zu for rank %d sits at destination %d", inf.c_str(), rk, i, data[i].dest, dest[i]);
            break;
        }
}

static void exchange() {
    CommMPI comm;
    VF_CHECK(comm.getRank() == rk && comm.getSize() == np, "exchange-rank", "rank %d size %d", comm.getRank(), comm.getSize());
    vf::forCases("exchange", [&](uint64_t c, Rng &r) {
        switch (r.i(5)) {
        case 0:
            oneExchange<Item<1>>(comm, c, r, "24 bytes");
            break;
        case 1:
            oneExchange<Item<100>>(comm, c, r, "120 bytes");
            break;
        case 2:
            oneExchange<Item<8>>(comm, c, r, "8 byte pad");
            break;
        case 3: {
            CommMPI fresh;
            oneExchange<Item<31>>(fresh, c, r, "fresh communicator object");
            break;
        }
        default:
            oneExchange<Item<700>>(comm, c, r, "720 bytes");
        }
    });
}

// ------------------------------------------------------------------ P09
struct DirData {
    int gid;
    int owner;
    int version;
    double v[9];
    void set(int g, int o, int ver) {
        memset(this, 0, sizeof *this);
        gid = g;
        owner = o;
        version = ver;
        for (int k = 0; k < 9; k++)
            v[k] = vf::mix(vf::mix(g, ver), k) * 1e-19;
    }
    bool operator==(const DirData &o) const { return memcmp(this, &o, sizeof *this) == 0; }
};
struct TinyData {
    int gid, owner, version;
    void set(int g, int o, int ver) {
        gid = g;
        owner = o;
        version = ver;
    }
    bool operator==(const TinyData &o) const { return gid == o.gid && owner == o.owner && version == o.version; }
};

template <class D>
static void oneDirectory(uint64_t c, Rng &r) {
    const int n = r.p(0.1) ? r.i(0, 3) : r.i(1, 300);
    // global ids, sparse and out of order
    std::vector<int> gids;
    const int stride = r.pick(std::vector<int>{1, 1, 7, 1000});
    for (int i = 0; i < n; i++)
        gids.push_back(i * stride + (stride > 1 ? r.i(stride) : 0));
    r.shuffle(gids);
    std::vector<int> owner(n);
    const int kind = r.i(4);
    for (int i = 0; i < n; i++)
        owner[i] = kind == 0 ? (int)(c % np) : kind == 1 ? i * np / std::max(n, 1) : r.i(np);
    ZDD<D> dir(r.i(1, 400));
    const int rounds = r.i(1, 5);
    int version = 1;
    for (int t = 0; t < rounds; t++) {
        // data change and ids migrate between rounds; new ids appear
        if (t > 0) {
            for (int i = 0; i < (int)gids.size(); i++)
                if (r.p(0.4))
                    owner[i] = r.i(np);
            version++;
            if (r.p(0.4)) {
                gids.push_back(1000000 + t);
                owner.push_back(r.i(np));
            }
        }
        std::vector<int> mine;
        for (int i = 0; i < (int)gids.size(); i++)
            if (owner[i] == rk)
                mine.push_back(i);
        Rng lr(vf::mix(c, 1000 * t + rk)); // ranks differ from here
        lr.shuffle(mine);
        dir.gidOnLocal.resize(mine.size());
        dir.dataOnLocal.resize(mine.size());
        for (size_t k = 0; k < mine.size(); k++) {
            dir.gidOnLocal[k] = gids[mine[k]];
            dir.dataOnLocal[k].set(gids[mine[k]], rk, version);
        }
        const std::string inf = vf::fmt("ids=%zu stride=%d ranks=%d round=%d/%d local=%zu", gids.size(), stride, np, t, rounds, mine.size());
        vf::beginCase(c, "directory " + inf);
        int ret = dir.buildIndex();
        VF_CHECK(ret == 0, "directory-build", "%s: returned %d", inf.c_str(), ret);
        const int lookups = lr.i(1, 2);
        // a different number of find() calls per rank would not be legal: draw it together
        const int finds = r.i(1, 3);
        (void)lookups;
        for (int f = 0; f < finds; f++) {
            std::vector<int> want;
            const int nf = gids.empty() || lr.p(0.15) ? 0 : lr.p(0.1) ? lr.i(1, 2000) : lr.i(1, 200);
            for (int k = 0; k < nf; k++)
                want.push_back(lr.i((int)gids.size())); // repeats happen
            dir.gidToFind.resize(nf);
            if (lr.p(0.5))
                dir.dataToFind.clear(); // else keeps the size of an earlier find
            for (int k = 0; k < nf; k++)
                dir.gidToFind[k] = gids[want[k]];
            const int st = dir.find();
            vf::evals();
            vf::count("lookups", nf);
            VF_CHECK(st == 0, "directory-find-status", "%s: returned %d", inf.c_str(), st);
            VF_CHECK(dir.dataToFind.size() >= (size_t)nf, "directory-find-size", "%s: %zu answers for %d ids", inf.c_str(), dir.dataToFind.size(), nf);
            for (int k = 0; k < nf && k < (int)dir.dataToFind.size(); k++) {
                D e;
                e.set(gids[want[k]], owner[want[k]], version);
                if (!(dir.dataToFind[k] == e)) {
                    VF_CHECK(false, "directory-find", "%s: id %d gave gid %d owner %d version %d, registered by owner %d version %d", inf.c_str(),
                             gids[want[k]], dir.dataToFind[k].gid, dir.dataToFind[k].owner, dir.dataToFind[k].version, owner[want[k]], version);
                    break;
                }
                vf::count(owner[want[k]] == rk ? "found_local" : "found_remote");
            }
        }
        vf::distinct(vf::mix(c, t));
        if (vf::wantSample())
            vf::sample(inf);
    }
}
static void directory() {
    vf::forCases("directory", [](uint64_t c, Rng &r) {
        if (r.p(0.5))
            oneDirectory<DirData>(c, r);
        else
            oneDirectory<TinyData>(c, r);
    });
}

// ------------------------------------------------------------------ P10
struct Pt {
    int gid;
    double RSearch;
    double pos[3];
    char tag;
    double getRSearch() const { return RSearch; }
    PS::F64vec3 getPos() const { return PS::F64vec3(pos[0], pos[1], pos[2]); }
    void setPos(const PS::F64vec3 &p) {
        pos[0] = p.x;
        pos[1] = p.y;
        pos[2] = p.z;
    }
    void copyFromFP(const Pt &o) { *this = o; }
};
struct Qy : public Pt {
    double weight;
    void copyFromFP(const Qy &o) { *this = o; }
};
struct Hit {
    int t, s;
    double img[3]; // src position used
    double r;
};
struct Cnt {
    int n = 0, gid = -1;
    void clear() {
        n = 0;
        gid = -1;
    }
};
struct Finder {
    std::vector<std::vector<Hit>> *q;
    void operator()(const MixEPI<Qy> *const tp, const PS::S32 nt, const MixEPJ<Pt> *const sp, const PS::S32 ns, Cnt *const f) {
        for (int t = 0; t < nt; t++) {
            f[t].clear();
            if (!tp[t].trgFlag)
                continue;
            f[t].gid = tp[t].epTrg.gid;
            const auto tpos = tp[t].getPos();
            for (int s = 0; s < ns; s++) {
                if (!sp[s].srcFlag)
                    continue;
                const auto spos = sp[s].getPos();
                const double r = std::sqrt(tpos.getDistanceSQ(spos));
                if (r < std::max(tp[t].getRSearch(), sp[s].getRSearch())) {
                    f[t].n++;
                    (*q)[omp_get_thread_num()].push_back(Hit{tp[t].epTrg.gid, sp[s].epSrc.gid, {spos.x, spos.y, spos.z}, r});
                }
            }
        }
    }
};

template <class P>
static void makePts(Rng &r, std::vector<P> &v, int n, const double lo[3], const double hi[3], const bool pbc[3], double rmin, double rmax, int kind) {
    double c[3];
    for (int k = 0; k < 3; k++)
        c[k] = r.u(lo[k], hi[k]);
    for (int i = 0; i < n; i++) {
        P p;
        memset((void *)&p, 0, sizeof p);
        p.gid = i;
        p.RSearch = r.u(rmin, rmax);
        for (int k = 0; k < 3; k++) {
            const double L = hi[k] - lo[k];
            double x = r.u(lo[k], hi[k]);
            if (kind == 1 && r.p(0.8))
                x = c[k] + 0.02 * L * r.n(); // cluster
            if (kind == 2)
                x = lo[k] + L * 0.25 * r.i(4); // lattice: ties, coincident points and box faces
            if (kind == 3 && r.p(0.5))
                x = r.p(0.5) ? lo[k] + 1e-9 * L : hi[k] - 1e-9 * L;
            if (!pbc[k] && r.p(0.2))
                x += L * r.u(-1, 1); // open directions have no box
            if (pbc[k])
                x = std::min(std::max(x, lo[k]), std::nextafter(hi[k], lo[k]));
            p.pos[k] = x;
        }
        v.push_back(p);
    }
}

static void mixpair() {
    vf::forCases("mixpair", [](uint64_t c, Rng &r) {
        PS::ParticleSystem<Qy> trg;
        PS::ParticleSystem<Pt> src;
        trg.initialize();
        src.initialize();
        PS::DomainInfo dinfo;
        dinfo.initialize();
        bool pbc[3];
        const int pk = r.i(8);
        for (int k = 0; k < 3; k++)
            pbc[k] = (pk >> k) & 1;
        const PS::BOUNDARY_CONDITION bc[8] = {PS::BOUNDARY_CONDITION_OPEN,       PS::BOUNDARY_CONDITION_PERIODIC_X,
                                              PS::BOUNDARY_CONDITION_PERIODIC_Y, PS::BOUNDARY_CONDITION_PERIODIC_XY,
                                              PS::BOUNDARY_CONDITION_PERIODIC_Z, PS::BOUNDARY_CONDITION_PERIODIC_XZ,
                                              PS::BOUNDARY_CONDITION_PERIODIC_YZ, PS::BOUNDARY_CONDITION_PERIODIC_XYZ};
        dinfo.setBoundaryCondition(bc[pk]);
        double lo[3], hi[3], Lmin = 1e300;
        for (int k = 0; k < 3; k++) {
            lo[k] = r.u(-10, 10);
            hi[k] = lo[k] + r.u(3, 20);
            Lmin = std::min(Lmin, hi[k] - lo[k]);
        }
        dinfo.setPosRootDomain(PS::F64vec3(lo[0], lo[1], lo[2]), PS::F64vec3(hi[0], hi[1], hi[2]));
        MixPairInteraction<Qy, Pt, Qy, Pt, Cnt> mix;
        mix.initialize();
        const int rounds = r.i(1, 3); // the same object, other particles: the tree is reused or rebuilt
        for (int round = 0; round < rounds; round++) {
            const int kind = r.i(4);
            const int nt = r.p(0.1) ? r.i(0, 2) : r.i(1, 150), ns = r.p(0.1) ? r.i(0, 2) : r.i(1, 150);
            const double rbase = Lmin * r.logu(0.01, 0.3);
            const bool zeroTrg = r.p(0.3);
            std::vector<Qy> T;
            std::vector<Pt> S;
            makePts(r, T, nt, lo, hi, pbc, zeroTrg ? 1e-6 : rbase * 0.1, zeroTrg ? 1e-6 : rbase, kind);
            makePts(r, S, ns, lo, hi, pbc, rbase * (r.p(0.5) ? 0.1 : 1), rbase, kind);
            for (auto &q : T)
                q.weight = vf::mix(q.gid);
            const std::string inf = vf::fmt("pbc=%d%d%d trg=%d src=%d ranks=%d threads=%d kind=%d round=%d rsearch<%.3g of box %.3g", pbc[0], pbc[1], pbc[2], nt,
                                            ns, np, omp_get_max_threads(), kind, round, rbase, Lmin);
            vf::beginCase(c, "mixpair " + inf);
            // all on rank 0, or already scattered
            const bool scatter = r.p(0.5);
            auto give = [&](auto &sys, const auto &v) {
                std::vector<int> idx;
                for (int i = 0; i < (int)v.size(); i++)
                    if ((scatter ? (int)(vf::mix(c, i) % np) : 0) == rk)
                        idx.push_back(i);
                sys.setNumberOfParticleLocal(idx.size());
                for (size_t k = 0; k < idx.size(); k++)
                    sys[k] = v[idx[k]];
            };
            give(trg, T);
            give(src, S);
            if (nt + ns < 1)
                continue;
            if (ns >= nt)
                dinfo.decomposeDomainAll(src);
            else
                dinfo.decomposeDomainAll(trg);
            const bool trgExchange = r.p(0.9), srcExchange = r.p(0.9);
            trg.exchangeParticle(dinfo);
            src.exchangeParticle(dinfo);
            (void)trgExchange;
            (void)srcExchange;
            mix.updateSystem(trg, src, dinfo);
            mix.updateTree();
            std::vector<std::vector<Hit>> q(omp_get_max_threads());
            Finder f;
            f.q = &q;
            mix.computeForce(f, dinfo);
            std::vector<Hit> hits;
            for (auto &x : q)
                hits.insert(hits.end(), x.begin(), x.end());
            const auto all = gatherAll(hits);
            // results in the order of the local targets
            const auto &res = mix.getForceResult();
            const int nl = trg.getNumberOfParticleLocal();
            VF_CHECK((int)res.size() == nl, "mixpair-result-size", "%s: %zu results for %d local targets", inf.c_str(), res.size(), nl);
            std::map<int, int> perT;
            for (auto &h : hits)
                perT[h.t]++;
            for (int i = 0; i < nl && i < (int)res.size(); i++)
                VF_CHECK(res[i].gid == trg[i].gid && res[i].n == perT[trg[i].gid], "mixpair-result", "%s: local target %d is gid %d with %d neighbours, result says gid %d with %d",
                         inf.c_str(), i, trg[i].gid, perT[trg[i].gid], res[i].gid, res[i].n);
            // brute force over images
            struct Ex {
                int n = 0, nmax = 0;
            };
            std::map<std::tuple<int, int>, Ex> want;
            long expected = 0;
            for (auto &t : T)
                for (auto &s : S) {
                    int im[3];
                    int lim[3];
                    for (int k = 0; k < 3; k++)
                        lim[k] = pbc[k] ? 2 : 0;
                    int nin = 0, nmax = 0;
                    const double R = std::max(t.RSearch, s.RSearch);
                    for (im[0] = -lim[0]; im[0] <= lim[0]; im[0]++)
                        for (im[1] = -lim[1]; im[1] <= lim[1]; im[1]++)
                            for (im[2] = -lim[2]; im[2] <= lim[2]; im[2]++) {
                                double d2 = 0;
                                for (int k = 0; k < 3; k++) {
                                    const double d = s.pos[k] + im[k] * (hi[k] - lo[k]) - t.pos[k];
                                    d2 += d * d;
                                }
                                const double d = std::sqrt(d2);
                                nin += d < R * (1 - 1e-9) - 1e-12;
                                nmax += d < R * (1 + 1e-9) + 1e-12;
                            }
                    if (nmax) {
                        want[std::make_tuple(t.gid, s.gid)] = Ex{nin, nmax};
                        expected += nin;
                    }
                }
            std::map<std::tuple<int, int>, int> got;
            for (auto &h : all)
                got[std::make_tuple(h.t, h.s)]++;
            vf::evals();
            vf::distinct(vf::mix(c, round));
            vf::count("pairs_expected", expected);
            vf::count("pairs_reported", (long)all.size());
            vf::count(vf::fmt("pbc%d", pk));
            if (vf::wantSample())
                vf::sample(inf + vf::fmt(" -> %zu pairs", all.size()));
            int shown = 0;
            for (auto &w : want) {
                const int g = got.count(w.first) ? got[w.first] : 0;
                if ((g < w.second.n || g > w.second.nmax) && shown++ < 3) {
                    const auto &t = T[std::get<0>(w.first)];
                    const auto &s = S[std::get<1>(w.first)];
                    VF_CHECK(false, g < w.second.n ? "mixpair-missed" : "mixpair-repeated",
                             "%s: target %d (%.17g,%.17g,%.17g) R %.9g and source %d (%.17g,%.17g,%.17g) R %.9g: %d reported, %d..%d expected box (%g,%g,%g)-(%g,%g,%g)",
                             inf.c_str(), t.gid, t.pos[0], t.pos[1], t.pos[2], t.RSearch, s.gid, s.pos[0], s.pos[1], s.pos[2], s.RSearch, g,
                             w.second.n, w.second.nmax, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
                }
            }
            for (auto &g : got)
                VF_CHECK(want.count(g.first), "mixpair-spurious", "%s: target %d source %d are not in range", inf.c_str(), std::get<0>(g.first), std::get<1>(g.first));
        }
    });
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    vf::init(argc, argv, rk, np);
    Logger::setup_mpi_spdlog();
    Logger::set_level(spdlog::level::critical);
    const std::string m = vf::st().mode;
    if (m == "exchange")
        exchange();
    else if (m == "directory")
        directory();
    else if (m == "mixpair") {
        PS::Initialize(argc, argv);
        mixpair();
    }
    vf::finish();
    MPI_Finalize();
    return 0;
}
