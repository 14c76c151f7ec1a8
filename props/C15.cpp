#include "dsp.hpp"
#include "desktop_blocks/fm/fm_demod.hpp"
#include "desktop_blocks/filters/kaiser_lpf.hpp"
using namespace dsp;
using cd = std::complex<double>;
static size_t page(size_t sz) { return cler::DOUBLY_MAPPED_MIN_SIZE / sz; }

PROPERTY(fm_demod, 6000, 100000, "a rate, a deviation and either a frequency-modulated signal of generated message (constant, tone, noise, silence, up to the whole band) and amplitude, or any complex samples; generated feeding, draining and calling; every output against the phase step over 2 pi deviation/rate, and against the message; non-trivial: at least 2 moving calls") {
    double rate = s.pick<double>({240e3, 2e6, 48e3, 1.0}) * (s.flip() ? 1 : s.real(0.5, 2)), kf = s.pick<double>({0.1, 0.3125, 0.01, 0.45, 2.0}) * (s.flip() ? 1 : s.real(0.5, 1)), dev = kf * rate;
    size_t n = s.size(1, 9000), buf = s.chance(1, 2) ? 0 : page(8) + s.size(0, 2000); bool modulated = s.chance(3, 4); int msg = (int)s.below(4); double amp = s.pick<double>({1, 0.01, 300}), depth = std::min(1.0, 0.49 / kf) * s.real(0.1, 1);
    s.note("rate %g deviation %g, %s, %zu samples; ", rate, dev, modulated ? "modulated signal" : "any samples", n);
    std::vector<cf> x(n); std::vector<double> m(n); pbt::Bulk r0(s.subseed()); double ph = r0.real(-3, 3), om = r0.real(0.001, 0.5);
    for (size_t i = 0; i < n; ++i) {
        m[i] = msg == 0 ? depth : msg == 1 ? depth * std::cos(om * i) : msg == 2 ? depth * r0.real(-1, 1) : 0;
        ph = std::remainder(ph + 2 * M_PI * kf * m[i], 2 * M_PI); x[i] = modulated ? cf(std::polar(amp, ph)) : rnd<cf>(r0, 1);
    }
    if (!modulated && n > 3 && s.flip()) x[r0.below(n)] = 0;
    FMDemodBlock b("fm", rate, dev, buf); Out<float> out(s.size(1, 5000)); In<cf> in(&b.in, x); Rig r(s);
    r.ins = {&in}; r.outs = {&out}; r.call = [&] { return b.procedure(&out); }; r.one_to_one(); r.run(20, [&] { return r.all_in(); });
    CHECK(out.got.size() == n, "%zu samples in, %zu out", n, out.got.size());
    for (size_t i = 0; i < n; ++i) {
        cd p = i ? cd(x[i]) * std::conj(cd(x[i - 1])) : cd(0); if (i == 0) { CHECK(out.got[0] == 0 || std::isfinite(out.got[0]), "first output %g", out.got[0]); continue; }
        double g = out.got[i], e = std::arg(p) / (2 * M_PI * kf);
        CHECK(std::isfinite(g), "output %zu is %g", i, g);
        if (std::abs(p) > 1e-12) CHECK(std::abs(std::remainder(g - e, 1 / kf)) <= 4e-6 / kf, "output %zu is %g, the phase step gives %g", i, g, e);
        if (modulated) CHECK(std::abs(g - m[i]) <= 1e-5 / kf, "output %zu is %g, the message there is %g", i, g, m[i]);
    }
    s.nontrivial(r.split_calls >= 2); s.label(modulated, "modulated"); s.label(r.full_calls > 0, "output full at a call");
}

template <class T> struct Acc { using t = double; };
template <> struct Acc<cf> { using t = cd; };
struct Design { double rate, fc, tb, att; std::vector<double> h; };
static Design design(pbt::Src& s, double maxtaps) {
    Design d; d.rate = s.pick<double>({1.0, 48e3, 2e6}) * (s.flip() ? 1 : s.real(0.5, 2)); double fc = s.pick<double>({0.1, 0.25, 0.02, 0.45}) * (s.flip() ? 1 : s.real(0.5, 1)); d.att = s.pick<double>({60, 40, 80, 30}) + (s.flip() ? 0 : s.real(-5, 5));
    double tb = std::max(d.att / 22 / maxtaps, 0.01 + 0.2 * s.unit()); if (std::ceil(d.att / (22 * tb)) < 5) tb = d.att / 22 / 6;
    d.fc = fc * d.rate; d.tb = tb * d.rate;
    unsigned n = (unsigned)std::ceil(d.att / (22.0f * (float)(d.tb / d.rate))); n |= 1;
    std::vector<float> h(n); liquid_firdes_kaiser(n, (float)(d.fc / d.rate), (float)d.att, 0.0f, h.data()); d.h.assign(h.begin(), h.end());
    s.note("low-pass rate %g cutoff %g transition %g attenuation %g (%u taps); ", d.rate, d.fc, d.tb, d.att, n);
    return d;
}
template <class T> static void lpf(pbt::Src& s) {
    Design d = design(s, 150); size_t n = s.size(1, 5000), buf = s.chance(1, 2) ? 0 : page(sizeof(T)) + s.size(0, 2000); int kind = (int)s.below(3); bool impulse = s.chance(1, 6);
    s.note("%zu samples; ", n); KaiserLPFBlock<T> b("lpf", d.rate, d.fc, d.tb, d.att, buf); auto x = signal<T>(s, n, kind); if (impulse) { std::fill(x.begin() + 1, x.end(), T{}); x[0] = T(1); }
    Out<T> out(s.size(1, 5000)); In<T> in(&b.in, x); Rig r(s); r.ins = {&in}; r.outs = {&out}; r.call = [&] { return b.procedure(&out); }; r.one_to_one(); r.run(20, [&] { return r.all_in(); });
    CHECK(out.got.size() == n, "%zu samples in, %zu out", n, out.got.size());
    for (size_t i = 0; i < n; ++i) {
        typename Acc<T>::t e = 0; double sc = 0; for (size_t k = 0; k < d.h.size() && k <= i; ++k) { typename Acc<T>::t v(x[i - k]); e += v * d.h[k]; sc += std::abs(v) * std::abs(d.h[k]); }
        CHECK(std::abs(typename Acc<T>::t(out.got[i]) - e) <= 1e-5 * sc + 1e-30, "output %zu is %s, the convolution gives %s", i, str(out.got[i]).c_str(), str((T)e).c_str());
    }
    s.nontrivial(r.split_calls >= 2 && n > d.h.size()); s.label(impulse, "impulse"); s.label(r.full_calls > 0, "output full at a call");
}
PROPERTY(low_pass, 3000, 50000, "filter parameters and a real or complex stream, generated feeding, draining and calling; every output against the convolution, in double, of the input with the Kaiser design of the stated order; non-trivial: at least 2 moving calls and a stream longer than the filter") { if (s.flip()) lpf<cf>(s); else lpf<float>(s); }

PROPERTY(low_pass_response, 1500, 20000, "filter parameters; the impulse response is finite, odd in length and symmetric, passes DC with no ripple beyond the design around it, has half the DC amplitude at the cutoff and keeps everything a transition band above the cutoff below the stated attenuation (3 dB slack); non-trivial: a stop band exists") {
    Design d = design(s, 300); KaiserLPFBlock<float> b("lpf", d.rate, d.fc, d.tb, d.att); cler::Channel<float> out(2048); std::vector<float> h; std::vector<float> z(256); z[0] = 1;
    for (int i = 0; i < 6; ++i) { b.in.writeN(z.data(), z.size()); b.procedure(&out); size_t o = h.size(); h.resize(o + 256); CHECK(out.readN(&h[o], 256) == 256, "fewer samples out than in"); z[0] = 0; }
    size_t L = 0; for (size_t i = 0; i < h.size(); ++i) if (h[i] != 0) L = i + 1;
    CHECK(L <= d.h.size() && L + 2 >= d.h.size() - 2, "the impulse response has %zu samples, the design %zu", L, d.h.size());
    size_t N = d.h.size(); for (size_t i = 0; i < N; ++i) CHECK(std::abs(h[i] - h[N - 1 - i]) <= 1e-6, "the impulse response is not symmetric at %zu", i);
    auto H = [&](double f) { cd a = 0; for (size_t i = 0; i < N; ++i) a += (double)h[i] * std::polar(1.0, -2 * M_PI * f * (double)i); return std::abs(a); };
    double dc = H(0), fc = d.fc / d.rate, tb = d.tb / d.rate; bool wide = fc > tb && fc + tb < 0.5;   // the transition band fits on both sides
    CHECK(dc > 0, "no gain at 0");
    double ripple = std::pow(10, -(d.att - 3) / 20) * 1.5;
    if (wide) {
        CHECK(std::abs(H(fc) / dc - 0.5) < 0.05, "gain at the cutoff is %g of the gain at 0", H(fc) / dc);
        for (double f = 0; f < fc - tb; f += 1.0 / (4.0 * N)) CHECK(std::abs(H(f) / dc - 1) < 2 * ripple + 0.002, "pass band: gain at %g is %g of the gain at 0", f, H(f) / dc);
        for (double f = fc + tb; f < 0.5; f += 1.0 / (4.0 * N)) CHECK(H(f) / dc < ripple, "stop band: gain at %g is %g dB, %g stated", f, 20 * std::log10(H(f) / dc), -d.att);
    }
    s.nontrivial(wide);
}
