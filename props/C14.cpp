#include "dsp.hpp"
#include "desktop_blocks/noise/awgn.hpp"
using namespace dsp;
using cd = std::complex<double>;
template <class T> struct Dim { enum { n = 1 }; static double at(T v, int) { return v; } static T mk(double a, double) { return (T)a; } using S = T; };
template <class F> struct Dim<std::complex<F>> { enum { n = 2 }; static double at(std::complex<F> v, int k) { return k ? v.imag() : v.real(); } static std::complex<F> mk(double a, double b) { return {(F)a, (F)b}; } using S = F; };
template <class T> static bool bits_equal(T a, T b) { for (int k = 0; k < Dim<T>::n; ++k) if (Dim<T>::at(a, k) != Dim<T>::at(b, k)) return false; return true; }

// order and completeness: sample i carries the value i, far apart compared with the noise (or without noise: exact)
template <class T> static void order(pbt::Src& s) {
    size_t n = s.size(1, 9000), buf = s.chance(1, 2) ? 0 : s.size(1, 3000); double sd = s.chance(1, 2) ? 0 : s.real(1e-3, 0.04); Out<T> out(s.size(1, 5000));
    s.note("%s level %g, %zu samples, buffer %zu, out capacity %zu; ", Dim<T>::n == 2 ? "complex" : "real", sd, n, buf, out.cap);
    NoiseAWGNBlock<T> b("n", (typename Dim<T>::S)sd, buf); std::vector<T> x(n); pbt::Bulk r0(s.subseed());
    for (size_t i = 0; i < n; ++i) x[i] = sd > 0 ? Dim<T>::mk((double)i, -(double)i) : Dim<T>::mk(r0.real(-1e3, 1e3), r0.real(-1, 1));
    In<T> in(&b.in, x); Rig r(s); r.ins = {&in}; r.outs = {&out}; r.call = [&] { return b.procedure(&out); }; r.one_to_one();
    r.run(20, [&] { return r.all_in(); });
    CHECK(out.got.size() == n, "%zu samples in, %zu out", n, out.got.size());
    for (size_t i = 0; i < n; ++i) {
        if (sd == 0) CHECK(bits_equal(out.got[i], x[i]), "level 0: sample %zu came out changed or out of order", i);
        else for (int k = 0; k < Dim<T>::n; ++k) CHECK(std::abs(Dim<T>::at(out.got[i], k) - Dim<T>::at(x[i], k)) < 0.5, "sample %zu (value %zu) came out as %g at level %g", i, i, Dim<T>::at(out.got[i], k), sd);
    }
    s.nontrivial(r.split_calls >= 2); s.label(sd == 0, "level 0"); s.label(r.full_calls > 0, "output full at a call");
}
PROPERTY(noise_order, 6000, 100000, "a stream of distinct values (float, double, either complex) through the block at level 0 or a level far below their spacing, generated feeding, draining and calling: unchanged at level 0, else each once and in order; non-trivial: at least 2 moving calls") {
    switch (s.below(4)) { case 0: order<float>(s); break; case 1: order<cf>(s); break; case 2: order<double>(s); break; default: order<cd>(s); }
}

static void within(double v, double sd, const char* what, double arg) { CHECK(std::abs(v) <= 7.5 * sd, "%s (%g): %g is %.1f standard errors off", what, arg, v, std::abs(v) / sd); }
template <class T> static void stats(pbt::Src& s) {
    using D = Dim<T>; double sd = s.pick<double>({1, 0.1, 10, 1e-3}) * (s.flip() ? 1 : s.real(0.3, 3)); size_t piece = s.pick<size_t>({512, 256, 100, 1, 37, 511, 300}), N = 60000; int sig = (int)s.below(4); double amp = sd * s.real(0, 20);
    if (piece < 30) N = 20000;
    s.note("%s level %g, signal kind %d of amplitude %g, calls of %zu samples, %zu samples", D::n == 2 ? "complex" : "real", sd, sig, amp, piece, N);
    size_t bs = s.pick<size_t>({1024, 600, 4096}); NoiseAWGNBlock<T> b("n", (typename D::S)sd, bs), b2("m", (typename D::S)sd, bs); cler::Channel<T> out(4096); pbt::Bulk r(s.subseed());
    std::vector<double> z[2], sg[2]; std::vector<T> x(piece), y(piece); double other = 0; size_t no = 0;
    for (size_t i = 0; i < N;) {
        for (size_t j = 0; j < piece; ++j) { double t = (double)(i + j); x[j] = sig == 0 ? T{} : sig == 1 ? D::mk(amp, -amp) : sig == 2 ? D::mk(amp * std::cos(t * 0.1), amp * std::sin(t * 0.1)) : D::mk(amp * r.real(-1, 1), amp * r.real(-1, 1)); }
        CHECK(b.in.writeN(x.data(), piece) == piece, "no room"); size_t got = 0; while (got < piece) { b.procedure(&out); size_t g = out.readN(y.data() + got, piece - got); CHECK(g, "no progress"); got += g; }
        for (size_t j = 0; j < piece; ++j) for (int k = 0; k < D::n; ++k) { z[k].push_back((D::at(y[j], k) - D::at(x[j], k)) / sd); sg[k].push_back(D::at(x[j], k)); }
        i += piece;
        if (i <= 4096) { b2.in.writeN(x.data(), piece); b2.procedure(&out); got = out.readN(y.data(), piece); for (size_t j = 0; j < got; ++j) { other += (D::at(y[j], 0) - D::at(x[j], 0)) / sd * z[0][z[0].size() - piece + j]; ++no; } }
    }
    size_t n = z[0].size(); double rn = 1 / std::sqrt((double)n);
    for (int k = 0; k < D::n; ++k) {
        auto& v = z[k]; double m = 0, q = 0, c = 0, e = 0; for (double a : v) m += a, q += a * a; m /= n; q /= n;
        within(m, rn, "mean of the noise over its level, component", k);
        within(q - 1, std::sqrt(2.0) * rn, "variance of the noise over its level's square, less 1, component", k);
        for (size_t lag : {(size_t)1, (size_t)2, (size_t)3, (size_t)4, (size_t)5, (size_t)6, (size_t)7, (size_t)8, piece, 2 * piece, piece - 1, piece + 1, (size_t)512, (size_t)1024, (size_t)256}) if (lag && lag < n / 2) {
            c = 0; for (size_t i = lag; i < n; ++i) c += v[i] * v[i - lag]; within(c / (n - lag), 1 / std::sqrt((double)(n - lag)), "correlation of the noise with itself at lag", (double)lag);
        }
        if (sig >= 2 && amp > 0) for (int h = 0; h < D::n; ++h) { c = e = 0; for (size_t i = 0; i < n; ++i) c += v[i] * sg[h][i], e += sg[h][i] * sg[h][i]; if (e > 0) within(c, std::sqrt(e), "correlation of the noise with the signal, component", k); }
    }
    if (D::n == 2) for (int lag : {0, 1}) { double c = 0; for (size_t i = lag; i < n; ++i) c += z[0][i] * z[1][i - lag]; within(c / n, rn, "correlation of the two components at lag", lag); }
    if (no) within(other / no, 1 / std::sqrt((double)no), "correlation of two blocks' noise over samples", (double)no);
    s.nontrivial(); s.label(D::n == 2, "complex"); s.label(amp > 0 && sig, "with a signal");
}
PROPERTY(noise_statistics, 400, 8000, "a level, a signal (none, constant, tone, random) and a call size; over 20 to 60 thousand samples the added noise's mean, variance, correlations (between samples at lags 1 to 8 and around the call size, between components, with the signal, with another block's noise) all within 7.5 standard errors of what independent noise of the stated level has; non-trivial: every case") {
    switch (s.below(4)) { case 0: stats<float>(s); break; case 1: stats<cf>(s); break; case 2: stats<double>(s); break; default: stats<cd>(s); }
}
