#include "dsp.hpp"
#include "desktop_blocks/resamplers/multistage_resampler.hpp"
using namespace dsp;
using cd = std::complex<double>;

static std::vector<float> whole(const std::vector<float>& x, float r, float a) { auto q = msresamp_rrrf_create(r, a); std::vector<float> y((size_t)((x.size() + 8.0) * r) + 4096); unsigned n = 0; msresamp_rrrf_execute(q, (float*)x.data(), x.size(), y.data(), &n); msresamp_rrrf_destroy(q); y.resize(n); return y; }
static std::vector<cf> whole(const std::vector<cf>& x, float r, float a) { auto q = msresamp_crcf_create(r, a); std::vector<cf> y((size_t)((x.size() + 8.0) * r) + 4096); unsigned n = 0; msresamp_crcf_execute(q, (liquid_float_complex*)x.data(), x.size(), (liquid_float_complex*)y.data(), &n); msresamp_crcf_destroy(q); y.resize(n); return y; }

static float ratio(pbt::Src& s) {
    switch (s.weighted({3, 5, 2, 2, 1, 1})) {
    case 0: return s.pick<float>({0.5f, 1.0f, 2.0f, 0.25f, 4.0f, 0.1f, 3.0f, 10.0f});
    case 1: return (float)s.real(0.5, 2); case 2: return (float)s.real(2, 12); case 3: return (float)s.real(0.08, 0.5); case 4: return (float)s.real(0.004, 0.08);
    default: return (float)s.real(12, 220);
    }
}
template <class T> static void stream(pbt::Src& s) {
    float r = ratio(s), as = s.pick<float>({60, 40, 80}); size_t page = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T), buf = s.chance(1, 2) ? 0 : page + s.size(0, 2000);
    size_t n = s.size(1, (size_t)std::min(9000.0, 60000.0 / r)); bool tone = s.chance(1, 4); if (tone) n = std::min<size_t>(9000, std::max<size_t>(n, (size_t)(300 / std::min(1.0f, r))));
    double small = s.chance(1, 3) ? 1 : 0; Out<T> out(small ? 1 + s.below((size_t)(2 * r) + 3) : s.size(1, 5000));
    s.note("%s ratio %g attenuation %g, buffer %zu, %zu samples, out capacity %zu; ", sizeof(T) == 8 ? "complex" : "real", r, as, buf, n, out.cap);
    MultiStageResamplerBlock<T> b("r", r, as, buf); auto x = signal<T>(s, n, 1); double f = 0.2 * std::min(1.0f, r) * s.unit();
    if (tone) for (size_t i = 0; i < n; ++i) { double ph = 2 * M_PI * f * i; if constexpr (sizeof(T) == 8) x[i] = std::polar(1.0, ph); else x[i] = (float)std::cos(ph); }
    auto want = whole(x, r, as);
    In<T> in(&b.in, x); Rig rg(s); rg.ins = {&in}; rg.outs = {&out}; rg.call = [&] { return b.procedure(&out); };
    // progress is due when what is there cannot have been swallowed without an output: enough space and an input, or undelivered output
    rg.must_progress = [&] { return b.in.size() > 0 && (double)out.room() >= 2 * std::max(1.0f, r) + 2; };
    double slack = 4 * std::max(1.0f, r) + 4; size_t full = 0;
    rg.after = [&](const std::vector<size_t>& c, const std::vector<size_t>& p) {
        rg.split_calls += c[0] > 0 || p[0] > 0; full += p[0] > 0 && out.level() == out.cap;
        // never more out than the inputs consumed can have given; nothing can be judged lost before the end
        CHECK((double)out.count() <= (double)in.consumed() * r * (1 + 1e-6) + slack, "%zu samples out for %zu in at ratio %g", out.count(), in.consumed(), r);
    };
    unsigned end = 0; rg.run(30, [&] { return rg.all_in() && (out.count() >= want.size() || end++ > 3 + want.size()); });
    for (int k = 0; k < 3; ++k) { b.procedure(&out); out.drain(SIZE_MAX); }
    CHECK(out.got.size() == want.size(), "%zu samples out, resampling the whole input of %zu at once gives %zu", out.got.size(), n, want.size());
    CHECK(std::abs((double)want.size() - (double)n * r) <= slack + 1e-6 * n * r, "harness: the reference gives %zu samples for %zu at ratio %g", want.size(), n, r);
    for (size_t i = 0; i < want.size(); ++i) CHECK(std::abs(cd(out.got[i]) - cd(want[i])) <= 1e-5, "output %zu is %s, resampling the whole input at once gives %s", i, str(out.got[i]).c_str(), str(want[i]).c_str());
    s.nontrivial(rg.split_calls >= 2 && want.size() >= 2); s.label(full > 0, "output filled up by a call"); s.label(r > 1, "interpolation"); s.label(r < 1, "decimation"); s.label(rg.hook_acts > 0, "neighbours active during a call"); s.label(small && r > 2, "room below one input's expansion");
}
PROPERTY(resampler_stream, 2000, 30000, "a ratio from 0.004 to 220 (integer, fractional, multi-stage), a real or complex stream (random or a tone), generated feeding, draining and calling, outputs with room for less than one input's expansion included; the delivered stream must be what resampling the whole input at once gives; non-trivial: at least 2 moving calls and 2 samples out") { if (s.flip()) stream<cf>(s); else stream<float>(s); }

PROPERTY(resampler_rate, 160, 3000, "a tone through a ratio from 0.02 to 50 in generated pieces: the output is a tone at the input's frequency over the ratio, of the same amplitude, and as many samples as the rate asks for; non-trivial: at least 200 samples out after the start") {
    float r = s.chance(1, 2) ? (float)s.real(0.5, 2) : s.flip() ? (float)s.real(2, 50) : (float)s.real(0.02, 0.5); size_t n = (size_t)std::min<double>(40000.0, 400 / std::min(1.0f, r) + 3000 / std::max(1.0f, r) + 400), piece = s.size(1, 500); double f = 0.2 * std::min(1.0f, r) * s.real(0.05, 1);
    s.note("ratio %g, tone at %g, %zu samples in pieces of %zu", r, f, n, piece); MultiStageResamplerBlock<cf> b("r", r, 60); cler::Channel<cf> out(60000); std::vector<cf> y, x(n); for (size_t i = 0; i < n; ++i) x[i] = std::polar(1.0, 2 * M_PI * std::remainder(f * i, 1.0));
    size_t i = 0, idle = 0; while (i < n || b.in.size()) { i += b.in.writeN(&x[i], std::min(piece, n - i)); size_t l = b.in.size(); b.procedure(&out); CHECK(b.in.size() < l, "no progress"); size_t o = y.size(); y.resize(o + out.size()); out.readN(y.data() + o, y.size() - o); }
    CHECK(std::abs((double)y.size() - (double)n * r) <= 4 * std::max(1.0f, r) + 4 + 1e-5 * n * r, "%zu samples out for %zu at ratio %g", y.size(), n, r);
    size_t skip = (size_t)(60 * std::max(1.0, (double)r)) + 20, cnt = 0; cd step = std::polar(1.0, 2 * M_PI * f / r);
    for (size_t k = skip; k + 1 < y.size(); ++k, ++cnt) { CHECK(std::abs(std::abs(y[k]) - 1) < 0.03, "sample %zu: amplitude %g, the input's is 1", k, std::abs(y[k])); CHECK(std::abs(cd(y[k + 1]) - cd(y[k]) * step) < 0.03, "sample %zu: the step is not that of the tone at the new rate", k); }
    s.nontrivial(cnt >= 200);
}
