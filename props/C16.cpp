#include "dsp.hpp"
#include "desktop_blocks/channelizers/polyphase_channelizer.hpp"
using namespace dsp;
using cd = std::complex<double>;
using Outs = std::vector<std::unique_ptr<Out<cf>>>;

template <size_t... I> static Res callI(PolyphaseChannelizerBlock& b, Outs& o, std::index_sequence<I...>) { return b.procedure(static_cast<cler::ChannelBase<cf>*>(o[I].get())...); }
static Res call(PolyphaseChannelizerBlock& b, Outs& o) {
    switch (o.size()) {
    case 2: return callI(b, o, std::make_index_sequence<2>()); case 3: return callI(b, o, std::make_index_sequence<3>()); case 4: return callI(b, o, std::make_index_sequence<4>());
    case 5: return callI(b, o, std::make_index_sequence<5>()); case 7: return callI(b, o, std::make_index_sequence<7>()); default: return callI(b, o, std::make_index_sequence<8>());
    }
}
static void stream(pbt::Src& s, bool tone) {
    size_t M = s.pick<size_t>({2, 4, 3, 5, 8, 7}), m = 1 + s.below(12), tail = s.below(M), frames = tone ? 300 : s.size(1, 1500), page = cler::DOUBLY_MAPPED_MIN_SIZE / 8, buf = s.chance(1, 2) ? 0 : ((page + M - 1) / M + s.size(0, 600)) * M;
    float as = s.pick<float>({60, 80, 40, 100}); if (tone) m = 4 + s.below(9), as = 60;
    s.note("%zu channels, attenuation %g, semilength %zu, input buffer %zu, %zu frames and %zu samples; ", M, as, m, buf, frames, tail);
    PolyphaseChannelizerBlock b("pc", M, as, m, buf); Outs o; Rig r(s);
    for (size_t i = 0; i < M; ++i) { o.emplace_back(new Out<cf>(s.size(1, 2500))); r.outs.push_back(o[i].get()); }
    size_t N = frames * M + tail, want = s.below(M); double off = s.real(-0.2, 0.2) / M; auto x = signal<cf>(s, N, (int)s.below(2));
    if (tone) for (size_t i = 0; i < N; ++i) x[i] = std::polar(1.0f, (float)(2 * M_PI * std::remainder(((double)want / M + off) * i, 1.0)));
    In<cf> in(&b.in, x); r.ins = {&in}; r.call = [&] { return call(b, o); };
    r.must_progress = [&] { bool k = b.in.size() >= M; for (auto& c : o) k &= c->room() > 0; return k; };
    r.after = [&](const std::vector<size_t>& c, const std::vector<size_t>& p) {
        for (size_t k = 0; k < M; ++k) CHECK(p[k] == p[0], "one call gave %zu samples to channel 0 and %zu to channel %zu", p[0], p[k], k);
        CHECK(c[0] == p[0] * M, "one call consumed %zu samples of %zu channels and produced %zu frames", c[0], M, p[0]); r.split_calls += p[0] > 0;
    };
    r.run(30, [&] { return in.left() == 0 && in.consumed() >= frames * M; });
    CHECK(in.consumed() == frames * M && b.in.size() == tail, "%zu of %zu whole-frame samples consumed, %zu waiting, the partial frame has %zu", in.consumed(), frames * M, b.in.size(), tail);
    firpfbch_crcf q = firpfbch_crcf_create_kaiser(LIQUID_ANALYZER, M, m, as); std::vector<cf> y(M), fr(M); std::vector<double> pw(M); double peak = 1e-30;
    for (auto v : x) peak = std::max(peak, (double)std::abs(v));
    for (auto& c : o) CHECK(c->got.size() == frames, "a channel received %zu samples for %zu frames", c->got.size(), frames);
    for (size_t f = 0; f < frames; ++f) {
        std::copy(x.begin() + f * M, x.begin() + (f + 1) * M, fr.begin()); firpfbch_crcf_analyzer_execute(q, (liquid_float_complex*)fr.data(), (liquid_float_complex*)y.data());
        for (size_t k = 0; k < M; ++k) { CHECK(std::abs(cd(o[k]->got[f]) - cd(y[k])) <= 1e-5 * peak * M, "frame %zu channel %zu is %s, the filter bank gives %s", f, k, str(o[k]->got[f]).c_str(), str(y[k]).c_str()); if (f > 2 * m + 2) pw[k] += std::norm(cd(o[k]->got[f])); }
    }
    firpfbch_crcf_destroy(q);
    if (tone) for (size_t k = 0; k < M; ++k) CHECK(k == want || pw[k] < 0.05 * pw[want], "a tone in the middle of sub-band %zu of %zu shows in channel %zu with %g of the power of its own", want, M, k, pw[k] / pw[want]);
    s.nontrivial(r.split_calls >= 2 && frames >= 2); s.label(r.full_calls > 0, "an output full at a call"); s.label(tail > 0, "partial frame at the end"); s.label(r.hook_acts > 0, "neighbours active during a call");
}
PROPERTY(channelizer_stream, 8000, 120000, "2 to 8 channels, generated filter, input buffer and stream (ending in a partial frame), generated feeding, independent draining and room of every output; frames consumed against samples per channel at each call, all outputs against the filter bank run frame by frame over the whole stream; non-trivial: at least 2 moving calls") { stream(s, false); }
PROPERTY(channelizer_bands, 2000, 20000, "as above with a tone near the middle of a generated sub-band: it must dominate that channel; non-trivial: at least 2 moving calls") { stream(s, true); }
