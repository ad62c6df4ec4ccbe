// Helpers shared by the Tpetra based harnesses: dense references of distributed objects.
#ifndef VF_TP_HPP_
#define VF_TP_HPP_
#include <algorithm>
#include <cassert>
#include <iostream>
#include <numeric>
#include <sstream>

#include "vf.hpp"

#include "Trilinos/TpetraUtil.hpp"
#include "Util/Logger.hpp"
#include <mpi.h>

namespace tp {
using vf::Rng;
typedef std::vector<double> Vec;
struct Mat { // dense, row major
    int r = 0, c = 0;
    Vec a;
    Mat() {}
    Mat(int r_, int c_) : r(r_), c(c_), a((size_t)r_ * c_, 0.0) {}
    double &operator()(int i, int j) { return a[(size_t)i * c + j]; }
    double operator()(int i, int j) const { return a[(size_t)i * c + j]; }
    Vec mul(const Vec &x) const {
        Vec y(r, 0.0);
        for (int i = 0; i < r; i++) {
            long double s = 0;
            for (int j = 0; j < c; j++)
                s += (long double)(*this)(i, j) * x[j];
            y[i] = (double)s;
        }
        return y;
    }
    Vec mulT(const Vec &x) const {
        std::vector<long double> y(c, 0.0L);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                y[j] += (long double)(*this)(i, j) * x[i];
        return Vec(y.begin(), y.end());
    }
    double maxAbs() const {
        double m = 0;
        for (double v : a)
            m = std::max(m, std::fabs(v));
        return m;
    }
};
inline int rank() {
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    return r;
}
inline int size() {
    int r;
    MPI_Comm_size(MPI_COMM_WORLD, &r);
    return r;
}
// the whole vector on every rank, ordered by global index 0..n-1
inline Vec gather(const TMV &v, int n, int col = 0) {
    Vec loc(n, 0.0), out(n, 0.0);
    auto view = v.getLocalView<Kokkos::HostSpace>();
    auto map = v.getMap();
    const int nl = map->getNodeNumElements();
    for (int i = 0; i < nl; i++)
        loc[map->getGlobalElement(i)] += view(i, col);
    MPI_Allreduce(loc.data(), out.data(), n, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    // a NaN of any rank survives the sum
    return out;
}
inline void fill(TMV &v, const Vec &g, int col = 0) {
    auto view = v.getLocalView<Kokkos::HostSpace>();
    v.modify<Kokkos::HostSpace>();
    auto map = v.getMap();
    const int nl = map->getNodeNumElements();
    for (int i = 0; i < nl; i++)
        view(i, col) = g[map->getGlobalElement(i)];
}
// split n elements over the ranks at random; same on every rank
inline std::vector<int> randomPartition(Rng &r, int n, bool allowEmpty = true) {
    const int p = size();
    std::vector<int> cnt(p, 0);
    const int kind = r.i(4);
    if (kind == 0) {
        for (int i = 0; i < n; i++)
            cnt[i % p]++;
    } else if (kind == 1 && allowEmpty) {
        cnt[r.i(p)] = n;
    } else {
        for (int i = 0; i < n; i++)
            cnt[r.i(p)]++;
    }
    if (!allowEmpty)
        for (int k = 0; k < p; k++)
            if (cnt[k] == 0) {
                int m = std::max_element(cnt.begin(), cnt.end()) - cnt.begin();
                if (cnt[m] > 1) {
                    cnt[m]--;
                    cnt[k]++;
                }
            }
    return cnt;
}
inline Teuchos::RCP<const TMAP> mapOf(const std::vector<int> &cnt, Teuchos::RCP<const TCOMM> comm) {
    return Teuchos::rcp(
        new TMAP(Teuchos::OrdinalTraits<Tpetra::global_size_t>::invalid(), cnt[rank()], 0, comm));
}
inline Teuchos::RCP<TCMAT> crs(const Mat &A, Teuchos::RCP<const TMAP> rowMap, Teuchos::RCP<const TMAP> domMap,
                               double drop = 0) {
    Teuchos::RCP<TCMAT> m = Teuchos::rcp(new TCMAT(rowMap, std::max(1, A.c)));
    const int nl = rowMap->getNodeNumElements();
    for (int i = 0; i < nl; i++) {
        const int g = rowMap->getGlobalElement(i);
        std::vector<int> idx;
        std::vector<double> val;
        for (int j = 0; j < A.c; j++)
            if (std::fabs(A(g, j)) > drop) {
                idx.push_back(j);
                val.push_back(A(g, j));
            }
        m->insertGlobalValues(g, (int)idx.size(), val.data(), idx.data());
    }
    m->fillComplete(domMap, rowMap);
    return m;
}
// dense copy, on every rank, of a distributed matrix
inline Mat dense(const TCMAT &A) {
    const int R = A.getRangeMap()->getGlobalNumElements(), C = A.getDomainMap()->getGlobalNumElements();
    Mat loc(R, C), out(R, C);
    auto rm = A.getRowMap();
    for (int i = 0; i < (int)rm->getNodeNumElements(); i++) {
        const int g = rm->getGlobalElement(i);
        size_t n = A.getNumEntriesInLocalRow(i);
        typename TCMAT::nonconst_global_inds_host_view_type ind("i", n);
        typename TCMAT::nonconst_values_host_view_type val("v", n);
        A.getGlobalRowCopy(g, ind, val, n);
        for (size_t k = 0; k < n; k++)
            loc(g, ind(k)) += val(k);
    }
    MPI_Allreduce(loc.a.data(), out.a.data(), (int)loc.a.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    return out;
}
inline double norm2(const Vec &v) {
    long double s = 0;
    for (double x : v)
        s += (long double)x * x;
    return (double)sqrtl(s);
}
inline double maxdiff(const Vec &a, const Vec &b) {
    double m = 0;
    for (size_t i = 0; i < a.size(); i++) {
        const double d = std::fabs(a[i] - b[i]);
        if (!(d <= m))
            m = d; // keeps NaN
    }
    return m;
}
inline double maxabs(const Vec &a) {
    double m = 0;
    for (double x : a)
        if (!(std::fabs(x) <= m))
            m = std::fabs(x);
    return m;
}
inline std::string show(const Vec &v, size_t n = 10) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < n; i++)
        s += vf::fmt("%s%.10g", i ? "," : "", v[i]);
    return s + (v.size() > n ? ",..]" : "]");
}
// operator wrapper counting applications
class CountingOp : public TOP {
  public:
    Teuchos::RCP<TOP> op;
    mutable long n = 0;
    explicit CountingOp(Teuchos::RCP<TOP> o) : op(o) {}
    Teuchos::RCP<const TMAP> getDomainMap() const { return op->getDomainMap(); }
    Teuchos::RCP<const TMAP> getRangeMap() const { return op->getRangeMap(); }
    bool hasTransposeApply() const { return false; }
    void apply(const TMV &X, TMV &Y, Teuchos::ETransp mode = Teuchos::NO_TRANS, double alpha = 1, double beta = 0) const {
        n++;
        op->apply(X, Y, mode, alpha, beta);
    }
};
// random symmetric positive definite matrix with the given spectrum range
inline Mat randomSPD(Rng &r, int n, double lmin, double lmax, double sparsity) {
    // A = lmin I + scaled B^T B, B sparse
    Mat B(n, n), A(n, n);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            if (i == j || !r.p(sparsity))
                B(i, j) = r.u(-1, 1);
    double fro = 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            double s = 0;
            for (int k = 0; k < n; k++)
                s += B(k, i) * B(k, j);
            A(i, j) = s;
            fro += s * s;
        }
    const double sc = fro > 0 ? (lmax - lmin) / std::sqrt(fro) : 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            A(i, j) = A(i, j) * sc + (i == j ? lmin : 0.0);
    return A;
}
struct NullBuf : public std::streambuf {
    int overflow(int c) { return c; }
};
inline void quiet() {
    static NullBuf nb;
    std::cout.rdbuf(&nb);
    spdlog::set_level(spdlog::level::off);
}
} // namespace tp
#endif
