#include "dsp.hpp"
#include "desktop_blocks/math/add.hpp"
#include "desktop_blocks/math/gain.hpp"
#include "desktop_blocks/math/complex_demux.hpp"
#include "desktop_blocks/math/frequency_shift.hpp"
using namespace dsp;

template <class T> static double mag(T v) { return std::abs((double)v); }
static double mag(cf v) { return std::abs(std::complex<double>(v)); }
template <class T> struct Wide { using t = long double; };
template <> struct Wide<cf> { using t = std::complex<double>; };
template <> struct Wide<uint32_t> { using t = uint32_t; };
template <> struct Wide<uint16_t> { using t = uint16_t; };
template <class T> static bool close(T a, typename Wide<T>::t b, double scale, double rel) {
    if constexpr (std::is_integral<T>::value) return a == b;
    else return (double)std::abs(typename Wide<T>::t(a) - b) <= rel * scale + 1e-40;
}
static size_t items(pbt::Src& s) { return s.size(1, 9000); }
template <class T> static double eps() { return std::is_same<T, double>::value ? 1e-14 : 1e-6; }

template <class T> static void gain(pbt::Src& s) {
    size_t buf = s.chance(1, 2) ? 0 : s.size(1, 3000), n = items(s); int kind = (int)s.below(3);
    pbt::Bulk gr(s.subseed()); T g = rnd<T>(gr, kind); if (s.chance(1, 8)) g = T(1);
    Out<T> out(s.size(1, 5000)); s.note("gain %s buffer %zu, %zu items, out capacity %zu; ", str(g).c_str(), buf, n, out.cap);
    GainBlock<T> b("g", g, buf); auto x = signal<T>(s, n, kind);
    In<T> in(&b.in, x); Rig r(s); r.ins = {&in}; r.outs = {&out}; r.call = [&] { return b.procedure(&out); }; r.one_to_one();
    r.run(20, [&] { return r.all_in(); });
    CHECK(out.got.size() == n, "%zu samples in, %zu out", n, out.got.size());
    for (size_t i = 0; i < n; ++i) { typename Wide<T>::t e = (typename Wide<T>::t)x[i] * (typename Wide<T>::t)g; CHECK(close<T>(out.got[i], e, mag(x[i]) * mag(g), eps<T>()), "sample %zu: %s x gain %s gave %s", i, str(x[i]).c_str(), str(g).c_str(), str(out.got[i]).c_str()); }
    s.nontrivial(r.split_calls >= 2); s.label(r.full_calls > 0, "output full at a call"); s.label(r.hook_acts > 0, "neighbours active during a call");
}
PROPERTY(gain_stream, 6000, 120000, "a sample type (float, double, complex, 32-bit integer), a gain and a stream, fed and drained by a generated history of pieces, calls on full and empty channels and neighbours acting during calls; every output sample compared with the product; non-trivial: the stream took at least 2 moving calls") {
    switch (s.below(4)) { case 0: gain<float>(s); break; case 1: gain<cf>(s); break; case 2: gain<double>(s); break; default: gain<uint32_t>(s); }
}

template <class T> static void add(pbt::Src& s) {
    size_t nin = 2 + s.below(5), page = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T), buf = s.chance(1, 2) ? 0 : page + s.size(0, 2000), n = items(s); int kind = (int)s.below(2);
    Out<T> out(s.size(1, 5000)); s.note("add %zu inputs, buffer %zu, %zu items, out capacity %zu; ", nin, buf, n, out.cap);
    AddBlock<T> b("a", nin, buf); std::vector<std::unique_ptr<In<T>>> in; Rig r(s);
    std::vector<std::vector<T>> x;
    size_t longer = s.below(nin + 1), more = s.size(1, 500);   // one stream may run longer than the others: its rest must wait
    for (size_t k = 0; k < nin; ++k) { x.push_back(signal<T>(s, n + (k == longer ? more : 0), kind)); in.emplace_back(new In<T>(&b.in[k], x[k])); r.ins.push_back(in[k].get()); }
    r.outs = {&out}; r.call = [&] { return b.procedure(&out); }; r.one_to_one();
    r.run(30, [&] { for (size_t k = 0; k < nin; ++k) if (in[k]->consumed() < n) return false; return true; });
    for (size_t k = 0; k < nin; ++k) CHECK(in[k]->consumed() == n, "input %zu: %zu samples consumed, the shortest stream has %zu", k, in[k]->consumed(), n);
    CHECK(out.got.size() == n, "%zu samples into every input, %zu out", n, out.got.size());
    for (size_t i = 0; i < n; ++i) {
        typename Wide<T>::t e{}; double sc = 0; for (auto& v : x) { e += (typename Wide<T>::t)v[i]; sc += mag(v[i]); }
        CHECK(close<T>(out.got[i], e, sc, eps<T>()), "sample %zu: the sum of %zu inputs came out as %s", i, nin, str(out.got[i]).c_str());
    }
    s.nontrivial(r.split_calls >= 2); s.label(r.full_calls > 0, "output full at a call"); s.label(nin > 2, "more than two inputs");
}
PROPERTY(add_streams, 5000, 80000, "2 to 6 equally long streams of a sample type, each input fed on its own by a generated history; every output sample compared with the sum over all inputs; non-trivial: at least 2 moving calls") {
    switch (s.below(4)) { case 0: add<float>(s); break; case 1: add<cf>(s); break; case 2: add<double>(s); break; default: add<uint16_t>(s); }
}

PROPERTY(complex_split, 5000, 80000, "a complex stream (axes, zeros and all quadrants included) split into real/imaginary or magnitude/phase with independent room on the two outputs; non-trivial: at least 2 moving calls") {
    bool mp = s.flip(); size_t page = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(cf), buf = s.chance(1, 2) ? 0 : page + s.size(0, 2000), n = items(s);
    Out<float> a(s.size(1, 5000)), c(s.size(1, 5000)); s.note("%s buffer %zu, %zu items, out capacities %zu %zu; ", mp ? "mag/phase" : "real/imag", buf, n, a.cap, c.cap);
    ComplexToMagPhaseBlock b("c", mp ? ComplexToMagPhaseBlock::MagPhase : ComplexToMagPhaseBlock::RealImag, buf);
    auto x = signal<cf>(s, n, (int)s.below(3)); pbt::Bulk z(s.subseed());
    for (auto& v : x) switch (z.below(12)) { case 0: v = 0; break; case 1: v = {v.real(), 0}; break; case 2: v = {0, v.imag()}; break; case 3: v = {v.real(), -0.0f}; break; default:; }
    In<cf> in(&b.in, x); Rig r(s); r.ins = {&in}; r.outs = {&a, &c}; r.call = [&] { return b.procedure(&a, &c); }; r.one_to_one();
    r.run(25, [&] { return r.all_in(); });
    CHECK(a.got.size() == n && c.got.size() == n, "%zu samples in, %zu and %zu out", n, a.got.size(), c.got.size());
    for (size_t i = 0; i < n; ++i) {
        double re = x[i].real(), im = x[i].imag();
        if (!mp) { CHECK(a.got[i] == x[i].real() && c.got[i] == x[i].imag(), "sample %zu %s split into %g, %g", i, str(x[i]).c_str(), a.got[i], c.got[i]); continue; }
        double m = std::hypot(re, im), ph = std::atan2(im, re);
        CHECK(std::abs(a.got[i] - m) <= 2e-6 * m + 1e-38, "sample %zu %s: magnitude %g", i, str(x[i]).c_str(), a.got[i]);
        CHECK(c.got[i] >= -3.1415929f && c.got[i] <= 3.1415929f && std::abs(std::remainder(c.got[i] - ph, 2 * M_PI)) <= 2e-6, "sample %zu %s: phase %g, expected %g", i, str(x[i]).c_str(), c.got[i], ph);
    }
    s.nontrivial(r.split_calls >= 2); s.label(r.full_calls > 0, "an output full at a call"); s.label(mp, "magnitude/phase");
}

PROPERTY(frequency_shift, 4000, 80000, "a shift (positive, negative, zero, beyond the sample rate), a rate and a complex stream, fed and drained by a generated history; every sample compared in double with the input rotated by 2 pi f n / rate; non-trivial: at least 2 moving calls and a rotation of more than a degree per sample") {
    double rate = s.pick<double>({1.0, 48e3, 2.4e6, 1e3}) * (s.flip() ? 1 : s.real(0.5, 2)), rel = s.pick<double>({0.1, 0.25, 0.0, 0.5, 0.01, 1.3}) * (s.flip() ? 1 : s.real(0.2, 1)); if (s.flip()) rel = -rel;
    double f = rel * rate; size_t buf = s.chance(1, 2) ? 0 : s.size(1, 3000), n = s.size(1, 12000);
    Out<cf> out(s.size(1, 5000)); s.note("shift %g of rate %g, buffer %zu, %zu items, out capacity %zu; ", f, rate, buf, n, out.cap);
    FrequencyShiftBlock b("f", f, rate, buf); auto x = signal<cf>(s, n, 1);
    In<cf> in(&b.in, x); Rig r(s); r.ins = {&in}; r.outs = {&out}; r.call = [&] { return b.procedure(&out); }; r.one_to_one();
    r.run(20, [&] { return r.all_in(); });
    CHECK(out.got.size() == n, "%zu samples in, %zu out", n, out.got.size());
    for (size_t i = 0; i < n; ++i) {
        double th = 2 * M_PI * std::remainder(rel * (double)i, 1.0); std::complex<double> e = std::complex<double>(x[i]) * std::polar(1.0, th);
        // single-precision step angle and recursion: an error that may grow by a few ulp per sample
        double tol = std::abs(x[i]) * (1e-5 + (double)i * 6e-8 * (4 + 2 * M_PI * std::abs(rel))) + 1e-9;
        CHECK(std::abs(std::complex<double>(out.got[i]) - e) <= tol, "sample %zu: %s shifted by %g x rate is %s, expected (%g,%g)", i, str(x[i]).c_str(), rel, str(out.got[i]).c_str(), e.real(), e.imag());
    }
    s.nontrivial(r.split_calls >= 2 && std::abs(std::remainder(rel, 1.0)) > 1.0 / 360); s.label(r.full_calls > 0, "output full at a call"); s.label(rel < 0, "downwards");
}

PROPERTY(frequency_shift_long, 60, 600, "a constant through the shifter for 0.3 to 2 million samples in blocks: the output must keep the input's magnitude and step by the configured angle all the way; non-trivial: every case") {
    size_t n = 300000 + s.below(1700000); double rel = s.real(-0.5, 0.5); FrequencyShiftBlock b("f", rel * 1e6, 1e6, s.chance(1, 2) ? 0 : 4096);
    cler::Channel<cf> out(8192); std::vector<cf> v(4096), w(8192); pbt::Bulk r(s.subseed()); cf x = std::polar(1.0f, (float)r.real(-3, 3)); s.note("%zu samples, shift %g of the rate", n, rel);
    std::complex<double> prev = 0, step = std::polar(1.0, 2 * M_PI * rel); size_t i = 0;
    while (i < n) {
        size_t k = 1 + r.below(std::min<size_t>(b.in.space(), 4096)); std::fill_n(v.begin(), k, x); b.in.writeN(v.data(), k); b.procedure(&out); size_t g = out.readN(w.data(), w.size());
        CHECK(g > 0, "no progress at sample %zu", i);
        for (size_t j = 0; j < g; ++j, ++i) {
            std::complex<double> y = w[j];
            CHECK(std::abs(std::abs(y) - 1) < 1e-5, "sample %zu: magnitude %g, the input's is 1", i, std::abs(y));
            if (i) CHECK(std::abs(y - prev * step) < 5e-6, "sample %zu: the rotation from the sample before is not the configured one (off by %g)", i, std::abs(y - prev * step));
            prev = y;
        }
    }
    s.nontrivial();
}
