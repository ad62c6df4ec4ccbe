// Stand-in for the part of the TRNG library's interface that SimToolbox uses.  libtrng4 is not installed here, so the
// code that needs it (TRngPool, SylinderSystem, ...) could not run at all without this.  The engine is TRNG's mrg5
// (modulus 2^31-1, LEcuyer1 parameters) and split(s, n) is leapfrogging, as TRNG documents it: the engine then yields
// the elements n, n+s, n+2s, ... of the sequence it would have produced.
#ifndef VF_TRNG_HPP_
#define VF_TRNG_HPP_

#include <cmath>
#include <cstdint>
#include <stdexcept>

namespace trng {

class mrg5 {
    static constexpr int64_t modulus = 2147483647;
    int64_t r_[5] = {0, 1, 1, 1, 1};
    uint64_t stride_ = 1;
    bool primed_ = false;
    uint64_t skip_ = 0; // elements of the base sequence to drop before the next output

    int64_t base() {
        const int64_t t = (107374182 * r_[0] + 104480 * r_[4]) % modulus;
        for (int i = 4; i > 0; i--)
            r_[i] = r_[i - 1];
        r_[0] = t;
        return t;
    }

  public:
    using result_type = int32_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 2147483646; }

    mrg5() = default;
    explicit mrg5(unsigned long s) { seed(s); }

    void seed() { *this = mrg5(); }
    void seed(unsigned long s) {
        *this = mrg5();
        r_[0] = static_cast<int64_t>(s % static_cast<unsigned long>(modulus));
        for (int i = 1; i < 5; i++)
            r_[i] = 1;
    }

    void split(unsigned int s, unsigned int n) {
        if (s < 1 || n >= s)
            throw std::invalid_argument("invalid argument for trng::mrg5::split");
        skip_ += static_cast<uint64_t>(n) * stride_;
        stride_ *= s;
    }
    void discard(unsigned long long n) {
        for (unsigned long long i = 0; i < n; i++)
            (*this)();
    }

    result_type operator()() {
        for (uint64_t i = 0; i < skip_; i++)
            base();
        const result_type v = static_cast<result_type>(base());
        skip_ = stride_ - 1;
        return v;
    }
};

using lcg64_shift = mrg5;

namespace vf_detail {
template <class E>
inline double u_oo(E &e) { // (0,1)
    return (double(e()) + 0.5) / 2147483647.0;
}
template <class E>
inline double u_co(E &e) { // [0,1)
    return double(e()) / 2147483647.0;
}
// inverse of the standard normal distribution function (Acklam, one Halley step)
inline double inv_phi(double p) {
    static const double a[] = {-3.969683028665376e+01, 2.209460984245205e+02,  -2.759285104469687e+02,
                               1.383577518672690e+02,  -3.066479806614716e+01, 2.506628277459239e+00};
    static const double b[] = {-5.447609879822406e+01, 1.615858368580409e+02, -1.556989798598866e+02,
                               6.680131188771972e+01, -1.328068155288572e+01};
    static const double c[] = {-7.784894002430293e-03, -3.223964580411365e-01, -2.400758277161838e+00,
                               -2.549732539343734e+00, 4.374664141464968e+00,  2.938163982698783e+00};
    static const double d[] = {7.784695709041462e-03, 3.224671290700398e-01, 2.445134137142996e+00,
                               3.754408661907416e+00};
    double x;
    if (p < 0.02425) {
        const double q = std::sqrt(-2 * std::log(p));
        x = (((((c[0] * q + c[1]) * q + c[2]) * q + c[3]) * q + c[4]) * q + c[5]) /
            ((((d[0] * q + d[1]) * q + d[2]) * q + d[3]) * q + 1);
    } else if (p <= 1 - 0.02425) {
        const double q = p - 0.5, r = q * q;
        x = (((((a[0] * r + a[1]) * r + a[2]) * r + a[3]) * r + a[4]) * r + a[5]) * q /
            (((((b[0] * r + b[1]) * r + b[2]) * r + b[3]) * r + b[4]) * r + 1);
    } else {
        const double q = std::sqrt(-2 * std::log(1 - p));
        x = -(((((c[0] * q + c[1]) * q + c[2]) * q + c[3]) * q + c[4]) * q + c[5]) /
            ((((d[0] * q + d[1]) * q + d[2]) * q + d[3]) * q + 1);
    }
    const double e = 0.5 * std::erfc(-x / std::sqrt(2.0)) - p;
    const double u = e * 2.50662827463100050242 * std::exp(x * x / 2);
    return x - u / (1 + x * u / 2);
}
} // namespace vf_detail

template <class T = double>
class uniform01_dist {
  public:
    using result_type = T;
    template <class E>
    T operator()(E &e) { return static_cast<T>(vf_detail::u_co(e)); }
    void reset() {}
};

template <class T = double>
class normal_dist {
    T mu_, sigma_;

  public:
    using result_type = T;
    normal_dist(T mu, T sigma) : mu_(mu), sigma_(sigma) {}
    template <class E>
    T operator()(E &e) { return static_cast<T>(mu_ + sigma_ * vf_detail::inv_phi(vf_detail::u_oo(e))); }
    void reset() {}
};

template <class T = double>
class lognormal_dist {
    T mu_, sigma_;

  public:
    using result_type = T;
    lognormal_dist(T mu, T sigma) : mu_(mu), sigma_(sigma) {}
    template <class E>
    T operator()(E &e) { return static_cast<T>(std::exp(mu_ + sigma_ * vf_detail::inv_phi(vf_detail::u_oo(e)))); }
    void reset() {}
};

} // namespace trng
#endif
