// C30: what the plots draw, recorded by stand-ins for the drawing libraries.
#include "pbt.hpp"
#include <complex>
#include <deque>
#include <cstring>
#include "implot.h"
#include "desktop_blocks/plots/plot_timeseries.hpp"
#include "desktop_blocks/plots/plot_cspectrum.hpp"
#include "desktop_blocks/plots/plot_cspectrogram.hpp"
using cf = std::complex<float>; using std::string;
#ifdef NOMAP                        // a system that gives no mirrored memory
extern "C" int __wrap_ftruncate(int, long) { errno = EPERM; return -1; }
#endif
template <class T> T sample(pbt::Bulk& r, unsigned how, size_t n, double f, double a);
template <> float sample<float>(pbt::Bulk& r, unsigned how, size_t n, double f, double a) { return how == 0 ? (float)n : how == 1 ? (float)(a * r.gauss()) : how == 2 ? (float)(a * std::sin(f * (double)n)) : (float)r.below(3); }
template <> cf sample<cf>(pbt::Bulk& r, unsigned how, size_t n, double f, double a) { return how == 0 ? cf((float)(a * r.gauss()), (float)(a * r.gauss())) : how == 1 ? (cf)std::polar(a, f * (double)n) : how == 2 ? cf((float)(a * std::cos(f * (double)n)), 0) + cf((float)(1e-3 * a * r.gauss()), 0) : n % 97 == 0 ? cf((float)a, 0) : cf(0); }
// inputs fed by the case, taken by the block
template <class T> struct Feed {
    struct One { cler::Channel<T>* ch; std::vector<T> all; unsigned how; double f, a; };
    std::vector<One> in; pbt::Bulk r; size_t taken = 0;
    Feed(pbt::Src& s, cler::Channel<T>* c, size_t n) : r(s.subseed()) { for (size_t i = 0; i < n; ++i) in.push_back({c + i, {}, (unsigned)s.below(4), s.real(-3.1, 3.1), std::exp(s.real(-6, 6))}); }
    void feed(pbt::Src& s, size_t big) {
        bool even = s.chance(2, 3); size_t n = s.chance(1, 12) ? SIZE_MAX : s.size(0, big);
        for (auto& o : in) { size_t m = even ? n : s.size(0, big); m = std::min(m, o.ch->space()); for (size_t k = 0; k < m; ++k) { o.all.push_back(sample<T>(r, o.how, o.all.size(), o.f, o.a)); o.ch->push(o.all.back()); } }
    }
    size_t ready() { size_t m = SIZE_MAX; for (auto& o : in) m = std::min(m, o.ch->size()); return m; }
    void took() { size_t c = in[0].all.size() - in[0].ch->size(); for (auto& o : in) CHECK(o.all.size() - o.ch->size() == c, "the inputs are taken from unevenly: %zu and %zu samples", c, o.all.size() - o.ch->size()); CHECK(c >= taken, "samples were given back"); taken = c; }
};
static void call(cler::Result<cler::Empty, cler::Error> r, bool expect, const char* what) { CHECK(r.is_ok() == expect, "%s reports %s", what, r.is_ok() ? "success" : "an error"); if (!r.is_ok()) CHECK(!cler::is_fatal(r.unwrap_err()), "%s reports a fatal error", what); }
static std::vector<string> labels(pbt::Src& s) { std::vector<string> l; size_t n = 1 + s.size(0, 3); for (size_t i = 0; i < n; ++i) l.push_back("input " + std::to_string(i)); return l; }
struct User { bool paused = false; };

PROPERTY(series, 1500, 25000, "one to four inputs fed unevenly in generated pieces, drawn at generated moments, with pauses; non-trivial: more samples than the time shown, drawn at least twice") {
    auto lab = labels(s); size_t sps = 1 + s.size(0, s.chance(1, 4) ? 100000 : 1000); double dur = s.pick({1.0, 0.5, 3.3, 0.01}); if (sps * dur > 20000) dur = 20000.0 / sps; s.note("%zu inputs, %zu samples/s, %.3g s; ", lab.size(), sps, dur);
    PlotTimeSeriesBlock b("plot", lab, sps, (float)dur); Feed<float> f(s, b.in, lab.size()); size_t show = (size_t)(sps * (float)dur); bool paused = false; size_t draws = 0, steps = 2 + s.size(0, 40);
    for (size_t i = 0; i < steps; ++i) {
        f.feed(s, s.pick<size_t>({20, 300, 1500, 5000}));
        for (size_t k = s.below(3); k--;) { size_t ready = f.ready(), before = f.taken; call(b.procedure(), paused || ready > 0, "procedure"); f.took(); CHECK(paused ? f.taken == before : ready ? f.taken > before : f.taken == before, "%s, %zu samples ready, %zu taken", paused ? "paused" : "running", ready, f.taken - before); }
        if (!s.chance(2, 3)) continue;
        ImPlot::clear(); bool press = s.chance(1, 8); ImGui::press = press; b.render(); ImGui::press = false;
        if (f.taken == 0) { CHECK(ImPlot::lines.empty(), "something is drawn before any sample"); continue; }
        CHECK(ImGui::button == (paused ? "Resume" : "Pause"), "the button says %s", ImGui::button.c_str()); if (press) paused = !paused;
        CHECK(ImPlot::lines.size() == lab.size() && ImPlot::depth == 0, "%zu lines for %zu inputs", ImPlot::lines.size(), lab.size()); ++draws;
        for (size_t k = 0; k < lab.size(); ++k) {
            auto& l = ImPlot::lines[k]; size_t n = l.y.size(); CHECK(l.label == lab[k], "line %zu is called %s", k, l.label.c_str()); CHECK(n == ImPlot::lines[0].y.size(), "lines of %zu and %zu samples", n, ImPlot::lines[0].y.size());
            CHECK(n <= f.taken && n >= std::min(f.taken, show), "%zu samples drawn, of %zu, to be shown are %zu", n, f.taken, show);
            for (size_t j = 0; j < n; ++j) { size_t at = f.taken - n + j; double t = (double)at / (double)sps; CHECK(std::abs(l.x[j] - t) <= 1e-6 * t, "input %zu, place %zu of %zu: time %.9g, not %.9g", k, j, n, l.x[j], t); CHECK(!memcmp(&l.y[j], &f.in[k].all[at], 4), "input %zu, place %zu of %zu (sample %zu): %g drawn, %g received", k, j, n, at, l.y[j], f.in[k].all[at]); }
        }
    }
    s.nontrivial(f.taken > show && draws >= 2); s.label(paused, "ended paused"); s.label(f.taken > std::max<size_t>(show, 2048), "buffer overrun");
}
// levels of a windowed transform, with the bounds of single-precision arithmetic
struct Level { double lo, hi; };
static std::vector<Level> levels(const cf* x, size_t n, SpectralWindow w) {
    std::vector<std::complex<double>> z(n); double gain = 0, e = 0; for (size_t i = 0; i < n; ++i) { double c = spectral_window_function(w, (float)i / (float)(n - 1)); gain += c; z[i] = std::complex<double>(x[i]) * c; e += std::norm(z[i]); }
    double err = 4e-6 * std::sqrt(e * (double)n) / gain; std::vector<Level> r(n); std::vector<std::complex<double>> tw(n); for (size_t i = 0; i < n; ++i) tw[i] = std::polar(1.0, -2 * M_PI * (double)i / (double)n);
    for (size_t k = 0; k < n; ++k) { std::complex<double> a = 0; size_t f = (k + n - n / 2) % n; for (size_t i = 0; i < n; ++i) a += z[i] * tw[f * i % n]; double m = std::abs(a) / gain; double lo = std::max(0.0, m - err), hi = m + err; r[k] = {10 * std::log10(lo * lo + 1e-20) - 1e-3, 10 * std::log10(hi * hi + 1e-20) + 1e-3}; }
    return r;
}
static size_t fft_size(pbt::Src& s) { return 2 * (2 + (s.chance(1, 12) ? s.below(700) : s.size(0, 60))); }
static SpectralWindow window(pbt::Src& s) { return (SpectralWindow)s.below(6); }
PROPERTY(spectrum, 700, 12000, "one to four inputs, generated transform length, window and averaging, drawn at generated moments; non-trivial: drawn at least twice with new samples") {
    auto lab = labels(s); size_t n = fft_size(s), sps = 1 + s.size(0, 2000000); SpectralWindow w = window(s); s.note("%zu inputs, %zu samples/s, %zu bins, window %d; ", lab.size(), sps, n, (int)w);
    PlotCSpectrumBlock b("plot", lab, sps, n, w); Feed<cf> f(s, b.in, lab.size()); bool paused = false, first = true; double alpha = 0.7; std::vector<std::vector<Level>> avg(lab.size()); size_t draws = 0, last = 0, steps = 2 + s.size(0, 12);
    for (size_t i = 0; i < steps; ++i) {
        f.feed(s, s.pick<size_t>({50, 700, 3000}));
        for (size_t k = s.below(3); k--;) { size_t ready = f.ready(), before = f.taken; call(b.procedure(), paused || ready > 0, "procedure"); f.took(); CHECK(paused ? f.taken == before : ready ? f.taken > before : f.taken == before, "%s, %zu samples ready, %zu taken", paused ? "paused" : "running", ready, f.taken - before); }
        if (!s.chance(2, 3)) continue;
        ImPlot::clear(); bool press = s.chance(1, 8); ImGui::press = press; ImPlot::shown = !s.chance(1, 10); ImGui::slide = s.chance(1, 3) ? (float)s.pick({1.0, 0.0, 0.3, 0.9}) : -1; b.render(); ImGui::press = false; bool shown = ImPlot::shown; ImPlot::shown = true;
        if (f.taken < n) { CHECK(ImPlot::lines.empty() && ImGui::info.find("Not enough samples") == 0, "with %zu of %zu samples it says '%s'", f.taken, n, ImGui::info.c_str()); continue; }
        CHECK(ImGui::info.empty(), "with %zu of %zu samples it says '%s'", f.taken, n, ImGui::info.c_str());
        if (press) paused = !paused;
        if (ImGui::slide >= 0) alpha = ImGui::slide;
        CHECK(ImPlot::lines.size() == (shown ? lab.size() : 0) && ImPlot::depth == 0, "%zu lines for %zu inputs", ImPlot::lines.size(), lab.size()); if (!shown) continue;
        if (f.taken > last) { ++draws; last = f.taken; }
        for (size_t k = 0; k < lab.size(); ++k) {
            auto now = levels(&f.in[k].all[f.taken - n], n, w); auto& a = avg[k]; if (first) a = now; else for (size_t j = 0; j < n; ++j) a[j] = {alpha * now[j].lo + (1 - alpha) * a[j].lo, alpha * now[j].hi + (1 - alpha) * a[j].hi};
            auto& l = ImPlot::lines[k]; CHECK(l.label == lab[k] && l.y.size() == n, "line %zu is %s with %zu bins", k, l.label.c_str(), l.y.size());
            for (size_t j = 0; j < n; ++j) { double fr = (double)sps * ((double)j / (double)n - 0.5); CHECK(std::abs(l.x[j] - fr) <= 1e-6 * (double)sps, "bin %zu of %zu at %.9g Hz, not %.9g", j, n, l.x[j], fr); CHECK(l.y[j] >= a[j].lo && l.y[j] <= a[j].hi, "input %zu, bin %zu of %zu after %zu samples: %.6g dB drawn, %.6g to %.6g is right", k, j, n, f.taken, l.y[j], a[j].lo, a[j].hi); }
        }
        first = false;
    }
    s.nontrivial(draws >= 2); s.label(paused, "ended paused"); s.label(n > 512, "long transform");
}
PROPERTY(spectrogram, 700, 12000, "one to four inputs, generated transform length, height and window, drawn at generated moments; non-trivial: more rows than the picture has") {
    auto lab = labels(s); size_t n = fft_size(s), sps = 2 * (1 + s.size(0, 1000000)), tall = 1 + s.size(0, 12); SpectralWindow w = window(s); s.note("%zu inputs, %zu samples/s, %zu bins, %zu rows, window %d; ", lab.size(), sps, n, tall, (int)w);
    PlotCSpectrogramBlock b("plot", lab, sps, n, tall, w); Feed<cf> f(s, b.in, lab.size()); bool paused = false; std::vector<std::deque<std::vector<Level>>> rows(lab.size()); size_t done = 0, draws = 0, steps = 2 + s.size(0, 14);
    for (size_t i = 0; i < steps; ++i) {
        f.feed(s, s.pick<size_t>({50, 400, 2000}));
        for (size_t k = s.below(12); k--;) {
            size_t ready = f.ready(), before = f.taken; call(b.procedure(), paused || ready >= n, "procedure"); f.took(); size_t got = f.taken - before; CHECK(got % n == 0 && (paused || ready < n ? !got : got > 0), "%s, %zu samples ready, %zu taken for rows of %zu", paused ? "paused" : "running", ready, got, n);
            for (; got; got -= n, ++done) for (size_t j = 0; j < lab.size(); ++j) { rows[j].push_front(levels(&f.in[j].all[f.taken - got], n, w)); if (rows[j].size() > tall) rows[j].pop_back(); }
        }
        if (!s.chance(2, 3)) continue;
        ImPlot::clear(); bool press = s.chance(1, 8); ImGui::press = press; ImPlot::shown = !s.chance(1, 10); b.render(); ImGui::press = false; bool shown = ImPlot::shown; ImPlot::shown = true; if (press) paused = !paused;
        CHECK(ImPlot::heats.size() == (shown ? lab.size() : 0) && ImPlot::depth == 0, "%zu pictures for %zu inputs", ImPlot::heats.size(), lab.size()); if (!shown) continue; ++draws;
        for (size_t k = 0; k < lab.size(); ++k) {
            auto& h = ImPlot::heats[k]; CHECK(h.plot == lab[k] && (size_t)h.rows == tall && (size_t)h.cols == n, "picture %zu is %s with %d times %d", k, h.plot.c_str(), h.rows, h.cols);
            CHECK(h.lo.x == -(double)sps / 2 && h.hi.x == (double)sps / 2 && h.x0 == h.lo.x && h.x1 == h.hi.x && h.lo.y == (double)tall && h.hi.y == 0 && h.y0 == (double)tall && h.y1 == 0, "picture %zu spans %g..%g Hz, %g..%g rows", k, h.lo.x, h.hi.x, h.lo.y, h.hi.y);
            for (size_t r = 0; r < tall; ++r) for (size_t j = 0; j < n; ++j) { float v = h.v[r * n + j]; if (r >= rows[k].size()) CHECK(v < -100, "row %zu, not yet received, shows %g", r, v); else { auto& a = rows[k][r][j]; CHECK(v >= a.lo && v <= a.hi, "input %zu, row %zu (%zu received), bin %zu of %zu: %.6g dB drawn, %.6g to %.6g is right", k, r, done, j, n, v, a.lo, a.hi); } }
        }
    }
    s.nontrivial(done > tall && draws); s.label(paused, "ended paused"); s.label(n > 512, "long transform");
}
PROPERTY(refused, 100, 200, "settings that make no sense; always non-trivial") {
    auto lab = labels(s); int kind = (int)s.below(6); bool thrown = false; size_t odd = 3 + 2 * s.below(50), small = s.below(3);
    try { switch (kind) { case 0: { PlotTimeSeriesBlock b("p", {}, 10, 1); break; } case 1: { PlotTimeSeriesBlock b("p", lab, 10, s.flip() ? 0.f : -1.f); break; } case 2: { PlotCSpectrumBlock b("p", {}, 10, 8); break; } case 3: { PlotCSpectrumBlock b("p", lab, 10, s.flip() ? odd : small); break; } case 4: { PlotCSpectrogramBlock b("p", lab, 10, s.flip() ? odd : small, 3); break; } default: { PlotCSpectrogramBlock b("p", lab, 10, 8, 0); } } } catch (std::invalid_argument&) { thrown = true; }
    CHECK(thrown, "settings of kind %d are accepted", kind); s.nontrivial(true);
}
