#include "dsp.hpp"
#include "desktop_blocks/sources/source_cw.hpp"
#include "desktop_blocks/sources/source_chirp.hpp"
using namespace dsp;
using cd = std::complex<double>;

static std::string f9(double v) { return str(v); }
template <class T> static double err(T v, double a, double ph) {
    if constexpr (std::is_same<T, cf>::value) return std::abs(cd(v) - std::polar(1.0, ph) * a);
    else return std::abs((double)v - a * std::cos(ph));
}
// a source driven by a history of calls and drains; every call takes only the space offered (the Out enforces it) and progresses
template <class T> static std::vector<T> emit(pbt::Src& s, const std::function<Res(cler::ChannelBase<T>*)>& call, size_t n, size_t& splits) {
    Out<T> out(s.size(1, 5000)); Rig r(s); s.note("%zu samples wanted, out capacity %zu; ", n, out.cap);
    r.outs = {&out}; r.call = [&] { return call(&out); };
    r.after = [&](const std::vector<size_t>&, const std::vector<size_t>& p) { r.split_calls += p[0] > 0; };
    r.run(15, [&] { return out.count() >= n; });
    splits = r.split_calls; s.label(r.full_calls > 0, "output full at a call"); s.label(r.hook_acts > 0, "consumer active during a call");
    return out.got;
}
template <class T> static void tone(pbt::Src& s) {
    size_t sps = s.pick<size_t>({48000, 1, 1000, 2400000, 20000000, 7}); double rel = s.pick<double>({0.01, 0.1, 0.25, 0.5, 0.0, 1e-4, 0.9}) * (s.flip() ? 1 : s.real(0.3, 1)); if (s.flip()) rel = -rel;
    float a = (float)s.pick<double>({1, 0.5, 0, -2, 1e4, 1e-3}), f = (float)(rel * (double)sps); rel = (double)f / (double)sps; size_t n = s.size(1, 15000), sp = 0;
    s.note("%s tone amplitude %g frequency %g at %zu/s; ", sizeof(T) == 8 ? "complex" : "real", a, f, sps);
    SourceCWBlock<T> b("cw", a, f, sps); auto y = emit<T>(s, [&](cler::ChannelBase<T>* o) { return b.procedure(o); }, n, sp);
    for (size_t i = 0; i < y.size(); ++i) {
        double tol = std::abs(a) * (1e-5 + (double)i * 6e-8 * (4 + 2 * M_PI * std::abs(rel)));
        double e = err(y[i], a, 2 * M_PI * std::remainder(rel * (double)i, 1.0));
        CHECK(e <= tol, "sample %zu is %s, off by %g from amplitude %g at frequency %g x rate", i, str(y[i]).c_str(), e, a, rel);
    }
    s.nontrivial(sp >= 2 && a != 0 && rel != 0);
}
PROPERTY(tone, 7000, 140000, "amplitude, frequency (0 to beyond the rate, both signs) and rate of a real or complex tone, generated calls and drains of an output of generated capacity; every sample against A cos / A exp of 2 pi f n / rate; non-trivial: a real tone over at least 2 moving calls") { if (s.flip()) tone<cf>(s); else tone<float>(s); }

template <class T> static void chirp(pbt::Src& s, size_t maxlen) {
    size_t sps = s.pick<size_t>({48000, 1000, 2400000, 20000000}), M = 2 + s.size(0, maxlen), cycles = M > 3000 ? 1 : 1 + s.below(4), n = M * cycles + s.below(M), sp = 0;
    float dur = (float)(((double)M + 0.25) / (double)sps), a = (float)s.pick<double>({1, 0.5, -2, 1e4, 1e-3});
    float f0 = (float)(s.real(-0.5, 0.5) * sps), f1 = s.chance(1, 8) ? f0 : (float)(s.real(-0.5, 0.5) * sps);
    s.note("%s chirp amplitude %g from %g to %g Hz at %zu/s, %zu samples long; ", sizeof(T) == 8 ? "complex" : "real", a, f0, f1, sps, M);
    SourceChirpBlock<T> b("ch", a, f0, f1, sps, dur); auto y = emit<T>(s, [&](cler::ChannelBase<T>* o) { return b.procedure(o); }, n, sp);
    double w0 = 2 * M_PI * f0 / (double)sps, dw = 2 * M_PI * ((double)f1 - f0) / dur / (double)sps / (double)sps;
    // the sweep advanced per sample (sum of increments) or sampled from the continuous phase
    size_t bad = 0; double bade = 0; bool ok = false; T badv{};
    for (int model = 0; model < 2 && !ok; ++model) {
        size_t L = M, i; ok = true;
        for (i = 0; i < y.size() && ok; ++i) {
            double m = (double)(i % L), sq = model ? m * m / 2 : m * (m - 1) / 2, ph = std::remainder(w0 * m + dw * sq, 2 * M_PI);
            double e = err(y[i], a, ph); ok = e <= std::abs(a) * (2e-5 + 5e-7 * std::abs(dw) * m * m + 3e-7 * std::abs(w0) * m);
            if (!ok && i >= bad) { bad = i; bade = e; badv = y[i]; }
        }
    }
    CHECK(ok, "sample %zu is %s, off by %g from the sweep %g..%g of %zu samples", bad, str(badv).c_str(), bade, f0, f1, M);
    s.nontrivial(sp >= 2 && dw != 0 && n > M); s.label(n > M, "started over");
}
PROPERTY(chirp, 7000, 140000, "amplitude, start and end frequency (either order and sign), rate and length of a real or complex sweep, generated calls and drains over one or more cycles; every sample against the accumulated linear-frequency phase, restarting at phase 0; non-trivial: started over at least once, in at least 2 moving calls") { if (s.flip()) chirp<cf>(s, 9000); else chirp<float>(s, 9000); }

PROPERTY(chirp_long, 24, 300, "a sweep of 0.2 to 4 million samples: at every sample the frequency stays on the line from start to end within 1e-4 of the sweep's span; non-trivial: every case") {
    size_t sps = s.pick<size_t>({1000000, 20000000}), M = 200000 + s.below(3800000); float dur = (float)((double)M / (double)sps); double r0 = s.real(-0.45, 0.45), r1 = s.real(-0.45, 0.45); if (std::abs(r1 - r0) < 0.02) r1 = r0 + 0.05;
    float f0 = (float)(r0 * sps), f1 = (float)(r1 * sps); SourceChirpBlock<cf> b("ch", 1.0f, f0, f1, sps, dur); cler::Channel<cf> out(1 << 15); std::vector<cf> w(1 << 16); s.note("%zu samples from %g to %g of the rate", M, r0, r1);
    cd prev = 0; size_t n = 0, end = M - M / 10000 - 2; double w0 = 2 * M_PI * r0, span = 2 * M_PI * (r1 - r0);
    while (n < end) {
        b.procedure(&out); size_t g = out.readN(w.data(), w.size()); CHECK(g > 0, "no progress");
        for (size_t j = 0; j < g && n < end; ++j, ++n) {
            cd y = w[j]; if (n) { double d = w0 + span * ((double)n - 0.5) / (double)M, e = std::abs(std::remainder(std::arg(y * std::conj(prev)) - d, 2 * M_PI)); CHECK(e < 1e-4 * std::abs(span) + 2e-6, "sample %zu of %zu: the frequency is off the line by %g of the sweep", n, M, e / std::abs(span)); }
            prev = y;
        }
    }
    s.nontrivial();
}
PROPERTY(tone_long, 40, 500, "0.3 to 2 million samples of a tone: the magnitude stays and every step is the configured angle; non-trivial: every case") {
    size_t n = 300000 + s.below(1700000), i = 0; double rel = s.real(-0.5, 0.5); float f = (float)(rel * 1e6); SourceCWBlock<cf> b("cw", 1.0f, f, 1000000); cler::Channel<cf> out(1 << 15); std::vector<cf> w(1 << 16);
    cd prev = 0, step = std::polar(1.0, 2 * M_PI * (double)f / 1e6); s.note("%zu samples at %g of the rate", n, rel);
    while (i < n) {
        b.procedure(&out); size_t g = out.readN(w.data(), w.size()); CHECK(g > 0, "no progress");
        for (size_t j = 0; j < g; ++j, ++i) { cd y = w[j]; CHECK(std::abs(std::abs(y) - 1) < 1e-5, "sample %zu: magnitude %g", i, std::abs(y)); if (i) CHECK(std::abs(y - prev * step) < 5e-6, "sample %zu: wrong step, off by %g", i, std::abs(y - prev * step)); prev = y; }
    }
    s.nontrivial();
}
PROPERTY(impossible_parameters, 400, 4000, "sources built with a zero rate, or chirps with a zero or negative duration, must throw; possible ones must not; non-trivial: an impossible one") {
    unsigned k = (unsigned)s.below(6); float a = (float)s.real(-2, 2), f = (float)s.real(-1e5, 1e5), g = (float)s.real(-1e5, 1e5), d = (float)s.real(0.01, 2); size_t r = 1 + s.below(1000000); bool threw = false;
    try { switch (k) { case 0: SourceCWBlock<cf>("x", a, f, r); break; case 1: SourceChirpBlock<float>("x", a, f, g, r, d); break; case 2: SourceCWBlock<float>("x", a, f, 0); break; case 3: SourceChirpBlock<cf>("x", a, f, g, 0, d); break; case 4: SourceChirpBlock<float>("x", a, f, g, r, 0); break; default: SourceChirpBlock<cf>("x", a, f, g, r, -d); } } catch (const std::exception&) { threw = true; }
    s.note("kind %u", k); CHECK(threw == (k >= 2), "parameters of kind %u were %s", k, threw ? "rejected" : "accepted"); s.nontrivial(k >= 2);
}
