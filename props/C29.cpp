// C29: spectral windows against their definitions in long double.
#include "pbt.hpp"
#include "cler.hpp"
#include "desktop_blocks/plots/spectral_windows.hpp"
#include <cmath>
#include <vector>
typedef long double ld;
static ld i0(ld x) { ld s = 1, t = 1, y = x * x / 4; for (int k = 1; k < 400; ++k) { t *= y / ((ld)k * k); s += t; if (t < s * 1e-22L) break; } return s; }
static const SpectralWindow ALL[] = {SpectralWindow::BlackmanHarris, SpectralWindow::Hamming, SpectralWindow::Hann, SpectralWindow::Rectangular, SpectralWindow::Kaiser, SpectralWindow::FlatTop};
static const char* NAME[] = {"Blackman-Harris", "Hamming", "Hann", "rectangular", "Kaiser", "flat top"};
static ld cosines(ld x, std::initializer_list<ld> a) { ld s = 0; int k = 0; for (ld c : a) { s += (k % 2 ? -c : c) * cosl(2 * 3.14159265358979323846264338327950288L * k * x); ++k; } return s; }
static ld textbook(int t, ld x, ld beta) {
    switch (t) {
    case 0: return cosines(x, {0.35875L, 0.48829L, 0.14128L, 0.01168L});
    case 1: return cosines(x, {0.54L, 0.46L});
    case 2: return cosines(x, {0.5L, 0.5L});
    case 3: return 1;
    case 4: { ld u = 2 * x - 1, r = 1 - u * u; return i0(beta * sqrtl(r < 0 ? 0 : r)) / i0(beta); }
    default: return cosines(x, {1.0L, 1.93L, 1.29L, 0.388L, 0.0322L});
    }
}
static ld lowest(int t) { static const ld v[] = {6e-5L, 0.08L, 0, 1, 0, -0.34L}; return v[t]; }
static ld peak(int t) { return t == 5 ? 4.6402L : 1; }
static double tol(int t) { return t == 5 ? 4e-6 : 1.5e-6; }

PROPERTY(coefficients, 3000, 200000, "every coefficient of a window of generated type and length (2 to about 9000, as the plots compute them), Kaiser with generated beta; non-trivial: at least 3 coefficients") {
    int t = (int)s.below(6); size_t n = 2 + s.size(0, s.chance(1, 10) ? 9000 : 300); float beta = s.chance(1, 2) ? 8.6f : (float)s.pick({0.0, 1e-3, 0.5, 3.0, 5.0, 8.6, 14.0, 20.0, 30.0}) + (s.flip() ? (float)s.real(0, 3) : 0.0f); bool dflt = beta == 8.6f && s.flip();
    s.note("%s, %zu coefficients", NAME[t], n); if (t == 4) s.note(", beta %g%s", beta, dflt ? " by default" : "");
    std::vector<float> w(n);
    for (size_t i = 0; i < n; ++i) {
        float x = i / static_cast<float>(n - 1); w[i] = dflt ? spectral_window_function(ALL[t], x) : spectral_window_function(ALL[t], x, beta);
        CHECK(std::isfinite(w[i]), "coefficient %zu is not finite", i);
        ld e = textbook(t, x, beta); double lim = t == 4 ? 3e-6 * (1 + beta * 0.2) : tol(t);
        CHECK(std::fabs((double)(w[i] - e)) <= lim, "coefficient %zu is %.9g, by definition %.9Lg", i, w[i], e);
        CHECK(w[i] >= lowest(t) - 1e-5L && w[i] <= peak(t) + 1e-5L, "coefficient %zu, %.9g, is out of bounds", i, w[i]);
    }
    for (size_t i = 0; i < n / 2; ++i) CHECK(std::fabs(w[i] - w[n - 1 - i]) <= (t == 4 ? 1e-4 : 4e-6), "coefficients %zu and %zu differ: %.9g %.9g", i, n - 1 - i, w[i], w[n - 1 - i]);
    if (n % 2) CHECK(std::fabs((double)(w[n / 2] - peak(t))) <= 4e-6, "the middle is %.9g", w[n / 2]);
    s.nontrivial(n >= 3); s.label(t == 4, "Kaiser"); s.label(n == 2, "smallest"); s.label(n > 1000, "long");
}
PROPERTY(points, 20000, 1000000, "one point of each window anywhere in [0,1], against the definition and against the other types; non-trivial: neither an end nor the middle") {
    float x = s.chance(1, 10) ? s.pick({0.0f, 1.0f, 0.5f, 0.25f, 1e-7f, 0.99999994f, 5.9604645e-8f}) : (float)s.unit(); if (x > 1) x = 1;
    for (int t = 0; t < 6; ++t) { float w = spectral_window_function(ALL[t], x); CHECK(std::isfinite(w), "%s at %.9g is not finite", NAME[t], x); ld e = textbook(t, x, 8.6L + (ld)(8.6f - 8.6)); CHECK(std::fabs((double)(w - e)) <= (t == 4 ? 1e-5 : tol(t)), "%s at %.9g is %.9g, by definition %.9Lg", NAME[t], x, w, e); }
    s.note("x=%.9g", x); s.nontrivial(x > 0 && x < 1 && x != 0.5f);
}
// spectra: the defining property of each window, its side lobes
PROPERTY(sidelobes, 60, 2000, "highest side lobe of a window of generated type and length (64..400) against the type's defined level; non-trivial: not rectangular") {
    int t = (int)s.below(6); size_t n = 64 + s.size(0, 340); static const double level[] = {-90, -40, -30.5, -13, -60, -66}, half[] = {4, 2, 2, 1, 3.6, 5};
    std::vector<double> w(n); double sum = 0; for (size_t i = 0; i < n; ++i) sum += w[i] = spectral_window_function(ALL[t], i / static_cast<float>(n - 1));
    double worst = -999; for (double f = (half[t] + 0.6) / n; f < 0.5; f += 0.27 / n) { double re = 0, im = 0; for (size_t i = 0; i < n; ++i) { re += w[i] * std::cos(2 * M_PI * f * i); im += w[i] * std::sin(2 * M_PI * f * i); } worst = std::max(worst, 10 * std::log10((re * re + im * im) / (sum * sum) + 1e-30)); }
    s.note("%s, %zu: %.1f dB", NAME[t], n, worst); CHECK(worst < level[t] + 1, "%s of %zu: side lobe of %.1f dB", NAME[t], n, worst); s.nontrivial(t != 3);
}
