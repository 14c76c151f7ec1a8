// C30: drawing in one thread while another feeds and runs the plots.
#include "pbt.hpp"
#include <atomic>
#include <complex>
#include <memory>
#include <thread>
#include <unistd.h>
#include "implot.h"
#include "desktop_blocks/plots/plot_timeseries.hpp"
#include "desktop_blocks/plots/plot_cspectrum.hpp"
#include "desktop_blocks/plots/plot_cspectrogram.hpp"
using cf = std::complex<float>;
PROPERTY_T(drawing, 150, 6000, 3, "each plot, fed in generated pieces and run by one thread, drawn by another; non-trivial: drawn at least three times with different newest samples") {
    int kind = (int)s.below(3); size_t ni = 1 + s.below(3), total = 3000 + s.below(20000), piece = 1 + s.size(0, 3000), n = 64 << s.below(3), tall = 1 + s.below(6), bin = n / 4 + s.below(n / 2); uint64_t seed = s.subseed(); std::vector<std::string> lab; for (size_t i = 0; i < ni; ++i) lab.push_back("i" + std::to_string(i));
    bool slow = s.flip(); s.note("plot %d, %zu inputs, %zu samples in pieces of %zu; ", kind, ni, total, piece);
    std::unique_ptr<PlotTimeSeriesBlock> a; std::unique_ptr<PlotCSpectrumBlock> b; std::unique_ptr<PlotCSpectrogramBlock> c;
    if (kind == 0) a.reset(new PlotTimeSeriesBlock("p", lab, 1, (float)(1 + seed % 3000))); else if (kind == 1) b.reset(new PlotCSpectrumBlock("p", lab, n, n)); else c.reset(new PlotCSpectrogramBlock("p", lab, n, n, tall));
    std::atomic<bool> done{false}; std::atomic<size_t> drawn{0};
    double fr = 2 * M_PI * ((double)bin / (double)n - 0.5);
    std::thread worker([&] {
        pbt::Bulk r(seed); size_t fed = 0; 
        while (fed < total) {
            size_t m = std::min(1 + r.below(piece), total - fed); for (size_t i = 0; i < ni; ++i) m = std::min(m, a ? a->in[i].space() : b ? b->in[i].space() : c->in[i].space());
            for (size_t i = 0; i < ni; ++i) for (size_t k = 0; k < m; ++k) { if (a) a->in[i].push((float)((fed + k) * (i + 1))); else { cf v = (cf)std::polar(1.0 / (double)(1 << i), fr * (double)(fed + k)); if (b) b->in[i].push(v); else c->in[i].push(v); } }
            fed += m; if (a) (void)a->procedure(); else if (b) (void)b->procedure(); else (void)c->procedure();
            if (slow) usleep((unsigned)r.below(200));
        }
        for (int k = 0; k < 1000; ++k) { if (a) (void)a->procedure(); else if (b) (void)b->procedure(); else (void)c->procedure(); }
        done = true;
    });
    struct Join { std::thread& t; ~Join() { if (t.joinable()) t.join(); } } join{worker};
    size_t draws = 0, newest = 0, changes = 0; bool last = false;
    for (;;) {
        bool fin = done.load(); ImPlot::clear(); if (a) a->render(); else if (b) b->render(); else c->render();
        if (a && !ImPlot::lines.empty()) {
            ++draws; auto& x = ImPlot::lines[0].x; size_t first = (size_t)x[0]; CHECK(ImPlot::lines.size() == ni, "%zu lines", ImPlot::lines.size());
            for (size_t i = 0; i < ni; ++i) { auto& l = ImPlot::lines[i]; CHECK(l.y.size() == x.size(), "lines of different lengths"); for (size_t k = 0; k < x.size(); ++k) { CHECK(x[k] == (float)(first + k), "a jump in time: %g after %zu", x[k], first + k - 1); CHECK(l.y[k] == (float)((first + k) * (i + 1)), "input %zu at time %zu: %g drawn, %g received", i, first + k, l.y[k], (float)((first + k) * (i + 1))); } }
            size_t now = first + x.size(); CHECK(now >= newest, "the picture went back in time"); changes += now > newest; newest = now; if (last) CHECK(newest == total, "the last picture ends at sample %zu of %zu", newest, total);
        }
        auto tone = [&](const float* v, size_t i, bool gap) { double want = -6.0206 * (double)i; if (gap && v[bin] < -140) return; for (size_t k = 0; k < n; ++k) { size_t d = std::min((k + n - bin) % n, (bin + n - k) % n); CHECK(d ? d < 4 || v[k] < want - 75 : std::abs(v[k] - want) < 0.05, "input %zu: bin %zu shows %g dB, the tone of %g dB is in bin %zu", i, k, v[k], want, bin); } };
        if (b && !ImPlot::lines.empty()) { ++draws; ++changes; for (size_t i = 0; i < ni; ++i) tone(ImPlot::lines[i].y.data(), i, false); }
        if (c && !ImPlot::heats.empty()) { ++draws; size_t rows = 0; for (size_t i = 0; i < ni; ++i) for (size_t r = 0; r < tall; ++r) { tone(&ImPlot::heats[i].v[r * n], i, true); if (!i) rows += ImPlot::heats[0].v[r * n + bin] > -140; for (size_t q = 0; q < i; ++q) CHECK((ImPlot::heats[i].v[r * n + bin] > -140) == (ImPlot::heats[q].v[r * n + bin] > -140), "inputs with different numbers of rows"); } changes += rows > newest; newest = std::max(newest, rows); }
        if (last) break;
        last = fin;
    }
    s.note("%zu pictures", draws); s.nontrivial(draws >= 3 && changes >= (kind == 2 ? 1 : 3)); s.label(kind == 0, "time series"); s.label(kind == 1, "spectrum"); s.label(kind == 2, "spectrogram");
}
