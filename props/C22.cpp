// C22: Mode S messages modulated into magnitude samples by an independent transmitter model, and found again.
#include "adsb.hpp"
#include "dsp.hpp"
#include "desktop_blocks/adsb/adsb_decoder.hpp"
using namespace ms;
struct Tx { double at; Msg m; int df; };     // `at` in samples
static std::vector<char> halves(const Msg& m) {
    std::vector<char> h(16, 0); for (int i : {0, 2, 7, 9}) h[i] = 1;
    int n = length(m[0] >> 3); for (int b = 1; b <= n; ++b) { int v = get(m.data(), b, b); h.push_back(v); h.push_back(!v); }
    return h;
}
// adds the message to the samples: every sample is the mean of the envelope over its own period
static void transmit(std::vector<double>& x, const Tx& t, double amp, bool rate24) {
    std::vector<char> h = halves(t.m); double per = rate24 ? 1.2 : 1.0;      // samples per half microsecond
    for (size_t k = 0; k < h.size(); ++k) if (h[k]) {
        double a = t.at + k * per, b = a + per;
        for (size_t i = (size_t)a; i < b && i < x.size(); ++i) x[i] += amp * (std::min(b, i + 1.0) - std::max(a, (double)i));
    }
}
static void noise(std::vector<double>& x, pbt::Bulk& r, double level, bool gauss) {
    for (auto& v : x) v = gauss ? std::hypot(v + level * 0.3 * r.gauss(), level * 0.3 * r.gauss()) : v + level * r.unit();
}
static std::vector<uint16_t> quant(const std::vector<double>& x) { std::vector<uint16_t> q; for (double v : x) q.push_back((uint16_t)std::min(65535.0, std::max(0.0, v))); return q; }
static void got_one(mode_s_t*, mode_s_msg* mm, void* c) { ((std::vector<mode_s_msg>*)c)->push_back(*mm); }
static std::vector<mode_s_msg> detect(mode_s_t& st, const std::vector<uint16_t>& q, bool rate24) {
    std::unique_ptr<uint16_t[]> b(new uint16_t[q.size()]); std::copy(q.begin(), q.end(), b.get());   // exact size: reads past it are seen
    std::vector<mode_s_msg> r; (rate24 ? (void)mode_s_detect_2400(&st, b.get(), (uint32_t)q.size(), got_one, &r) : (void)mode_s_detect(&st, b.get(), (uint32_t)q.size(), got_one, &r));
    CHECK(std::equal(q.begin(), q.end(), b.get()), "the samples handed in were modified"); return r;
}
static std::vector<Msg> contents(pbt::Src& s, pbt::Bulk& r, size_t n) {
    std::vector<uint32_t> planes; std::vector<Msg> v;
    while (v.size() < n) {
        Msg m; for (auto& x : m) x = (uint8_t)r.u64(); int df = planes.empty() ? 17 : s.weighted({4, 2, 4}) ; bool fresh = planes.empty() || s.chance(1, 3);
        if (s.chance(1, 8)) for (int i = 4; i < 11; ++i) m[i] = s.pick({0x00, 0xFF, 0xAA, 0x55});
        df = df == 17 ? 17 : df == 0 ? 17 : df == 1 ? 11 : s.pick({0, 4, 5, 16, 20, 21}); uint32_t a = fresh ? 1 + r.below(0xFFFFFF) : planes.back();
        if (has_ap(df)) a = planes.back(); put(m.data(), 1, 5, df); put(m.data(), 9, 32, has_ap(df) ? r.below(1 << 24) : a);
        seal(m, has_ap(df) ? a : 0); if (!has_ap(df)) planes.push_back(a);
        if (length(df) == 56) for (int i = 7; i < 14; ++i) m[i] = 0;
        v.push_back(m);
    }
    return v;
}
static const double FL = 0.45;   // the constant level below all samples, as a part of the amplitude
struct Scene { std::vector<Tx> tx; size_t n; double amp, noise, floor; bool gauss; };
static Scene scene(pbt::Src& s, bool rate24, size_t nmsg, bool tail) {
    Scene c; pbt::Bulk r(s.subseed()); double per = rate24 ? 2.4 : 2, at = s.size(1, 400);
    for (auto& m : contents(s, r, nmsg)) {
        double frac = rate24 ? s.real(0,1) : s.pick({0.0, 0.0, 0.05, 0.1, 0.15}); if (frac < 0) frac = 0;
        Tx t{std::floor(at) + frac, m, m[0] >> 3}; c.tx.push_back(t); at = t.at + (8 + length(t.df)) * per + (rate24 ? 4 : 3) + s.size(0, s.chance(1, 4) ? 1000 : 40);
    }
    size_t need = 1 + (size_t)std::ceil(c.tx.empty() ? at : c.tx.back().at) + (rate24 ? 300 : 240); c.n = need + (tail ? s.size(0, 300) : 400);
    c.amp = s.pick({20000., 8000., 4000., 40000., 60000.}); c.noise = s.chance(1, 4) ? 0 : c.amp * s.real(0, 0.06); c.gauss = s.flip(); c.floor = s.chance(1, 3) ? c.amp * s.real(0, FL) : 0; c.amp -= c.floor > 0 && c.amp > 50000 ? c.amp * 0.3 : 0;
    return c;
}
static std::vector<uint16_t> render(const Scene& c, bool rate24, uint64_t seed) { std::vector<double> x(c.n, c.floor); for (auto& t : c.tx) transmit(x, t, c.amp, rate24); pbt::Bulk r(seed); noise(x, r, c.noise, c.gauss); return quant(x); }
static std::string show(const Scene& c) { std::string r; char b[80]; for (auto& t : c.tx) { snprintf(b, sizeof b, " %s@%.2f", hex(t.m.data(), length(t.df) / 8).c_str(), t.at); r += b; } snprintf(b, sizeof b, " amplitude %g above %.0f noise %.0f%s, %zu samples", c.amp, c.floor, c.noise, c.gauss ? " (in phase and quadrature)" : "", c.n); return r + b; }
static void compare(const std::vector<mode_s_msg>& got, const std::vector<Tx>& want) {
    static mode_s_t st; mode_s_init(&st);
    for (size_t i = 0; i < want.size(); ++i) {
        const Msg& m = want[i].m; CHECK(i < got.size(), "message %zu of %zu is missing", i + 1, want.size()); size_t len = length(want[i].df) / 8;
        if (memcmp(got[i].msg, m.data(), len)) {
            bool before = i && !memcmp(got[i].msg, want[i - 1].m.data(), length(want[i - 1].df) / 8), later = false; for (size_t k = i + 1; k < want.size(); ++k) later |= !memcmp(got[i].msg, want[k].m.data(), length(want[k].df) / 8);
            FAIL_CASE("message %zu is %s%s", i + 1, hex(got[i].msg, len).c_str(), before ? ": the one before is reported again" : later ? ": one was left out" : "");
        }
        CHECK(got[i].crcok && got[i].errorbit == -1, "message %zu is reported as %s", i + 1, got[i].crcok ? "repaired" : "damaged");
        Msg full = m; if (len == 14) { mode_s_msg ref; memset(&ref, 0, sizeof ref); mode_s_decode(&st, &ref, full.data()); CHECK(got[i].msgtype == ref.msgtype && got[i].altitude == ref.altitude && got[i].raw_latitude == ref.raw_latitude && got[i].velocity == ref.velocity && !strncmp(got[i].flight, ref.flight, 9), "message %zu is reported with other fields than its content has", i + 1); }
        else { uint32_t a = 0; (void)a; CHECK(got[i].msgtype == want[i].df && got[i].msgbits == 56, "message %zu is reported as type %d", i + 1, got[i].msgtype); }
    }
    CHECK(got.size() == want.size(), "%zu messages were sent, %zu reported: %s", want.size(), got.size(), got.size() > want.size() ? hex(got[want.size()].msg, got[want.size()].msgbits / 8).c_str() : "");
}
static void found(pbt::Src& s, bool rate24) {
    static mode_s_t st; mode_s_init(&st); Scene c = scene(s, rate24, 1 + s.size(0, 5), true); uint64_t seed = s.subseed(); s.note("%s", show(c).c_str());
    std::vector<uint16_t> q = render(c, rate24, seed); auto got = detect(st, q, rate24); compare(got, c.tx);
    // the bytes a short message does not have are no remains of others
    if (rate24) for (size_t i = 0; i < got.size(); ++i) if (got[i].msgbits == 56) for (int k = 7; k < 14; ++k) CHECK(got[i].msg[k] == 0, "byte %d of a 7-byte message is %02x", k, got[i].msg[k]);
    bool ap = false; for (auto& t : c.tx) ap |= has_ap(t.df); if (c.tx.size() > 1) s.nontrivial(); s.label(ap, "overlaid message"); s.label("messages: " + std::to_string(std::min<size_t>(c.tx.size(), 4)));
}
PROPERTY(found_2000, 20000, 300000, "at least two messages in the samples") { found(s, false); }
PROPERTY(found_2400, 20000, 300000, "at least two messages in the samples") { found(s, true); }

// nothing sent: nothing found
PROPERTY(nothing, 3000, 60000, "the samples are not all equal") {
    static mode_s_t st; mode_s_init(&st); bool rate24 = s.flip(); size_t n = s.chance(1, 4) ? s.size(0, 330) : s.range(300, 20000); pbt::Bulk r(s.subseed()); int kind = (int)s.weighted({2, 3, 3, 2, 2, 2, 2}); std::vector<double> x(n, 0.0);
    double a = s.pick({65535., 300., 5000., 30000.}); size_t period = s.range(2, 30), from = s.below(n + 1), to = s.below(n + 1);
    for (size_t i = 0; i < n; ++i) x[i] = kind == 0 ? a : kind == 1 ? a * r.unit() : kind == 2 ? std::fabs(r.gauss()) * a / 3 : kind == 3 ? (i % period < period / 2 ? a : 0) : kind == 4 ? (r.below(2) ? a : 0) : kind == 5 ? (i >= from && i < to ? a : 0) : (i % period == 0 ? a * r.unit() : a / 10 * r.unit());
    if (kind == 4 && n > 20) for (size_t k = 0, m = n / 300 + 1; k < m; ++k) { size_t p = r.below(n - 16); if (rate24) for (int i = 0; i < 20 && p + i < n; ++i) x[p + i] = (i == 1 || i == 3 || i == 9 || i == 12) ? a : 0; else for (int i = 0; i < 16; ++i) x[p + i] = (i == 0 || i == 2 || i == 7 || i == 9) ? a : 0; }
    st.aggressive = s.chance(1, 6); bool all = s.chance(1, 6); st.check_crc = !all;
    s.note("%s MHz, %zu samples, kind %d, amplitude %g, period %zu%s", rate24 ? "2.4" : "2", n, kind, a, period, st.aggressive ? ", aggressive" : "");
    auto got = detect(st, quant(x), rate24); size_t good = 0; for (auto& m : got) good += !!m.crcok;
    if (kind == 0 || kind == 5) CHECK(!good, "a message is accepted in samples without any");
    else CHECK(good < 3 || st.aggressive, "%zu messages are accepted in samples without any, the first %s", good, hex(got[0].msg).c_str());
    if (!all) CHECK(good == got.size(), "a damaged message is reported");
    if (n > 240 && kind) s.nontrivial(); s.label(n <= 300, "short buffer");
}

// stronger is never worse: out-of-phase and noisy messages found at one amplitude are found at three times it
PROPERTY(stronger, 6000, 100000, "the message was found at the lower amplitude with phase correction") {
    static mode_s_t st; pbt::Bulk r(s.subseed()); Msg m = contents(s, r, 1)[0]; bool spikes = s.flip(); double f = spikes ? s.real(0, 0.2) : s.real(0.2, 0.45), level = spikes ? s.real(0, 0.05) : s.real(0, 0.35); size_t p = 1 + s.below(50); std::vector<double> x(p + 242 + s.below(20), 0.0);
    transmit(x, Tx{p + f, m, 17}, 16000, false); noise(x, r, 16000 * level, false);
    std::string sp; if (spikes) {   // interference: one disturbed quiet sample of the preamble, a few bits that read wrong unless corrected
        size_t q = s.pick({p + 6, p - 1, p + 3, p + 10}); x[q] = std::max(x[q], 16000 * s.real(0.34, 0.5)); sp = " spikes at " + std::to_string(q);
        for (size_t k = s.range(1, 3), g = 0; k && g < 200; ++g) { size_t b = 2 + s.below(111); if (get(m.data(), b - 1, b - 1) && get(m.data(), b, b)) { size_t i = p + 16 + 2 * (b - 1); x[i + 1] = x[i] * s.real(1.03, 1.2); --k; sp += " " + std::to_string(i + 1); } }
    }
    // room at the top: a correction that stops at the limit must not meet a neighbour at the limit
    double top = *std::max_element(x.begin(), x.end()); double k = 20800 / std::max(top, spikes ? 1.0 : 20800.0); for (auto& v : x) v *= k;
    std::vector<uint16_t> lo = quant(x), hi = lo; for (auto& v : hi) v *= 3;
    s.note("%s at %zu, %.2f sample late, noise %.2f%s", hex(m.data()).c_str(), p, f, level, sp.c_str());
    mode_s_init(&st); st.fix_errors = 0; auto a = detect(st, lo, false); mode_s_init(&st); st.fix_errors = 0; auto b = detect(st, hi, false);
    bool fa = false, fb = false, pc = false; for (auto& z : a) if (!memcmp(z.msg, m.data(), 14)) fa = true, pc |= !!z.phase_corrected; for (auto& z : b) fb |= !memcmp(z.msg, m.data(), 14);
    bool weak = false; for (size_t i = 16; i + 1 < 240; i += 2) weak |= std::abs(lo[p + i] - lo[p + i + 1]) < 300 ;
    if (fa && !weak) CHECK(fb, "the message is found at one amplitude and lost at three times it");
    if (pc) s.nontrivial(); s.label(fa, "found"); s.label(pc, "phase corrected"); s.label(weak, "weak bit");
}

// the block: chunks, filter, output space
static void block(pbt::Src& s, bool rate24) {
    uint32_t filter = s.chance(1, 3) ? 0xFFFFFFFFu : s.chance(1, 2) ? 1u << s.pick({17, 11, 4, 20, 0}) : (uint32_t)(s.bits(32) | 1u << 17), filter2 = s.flip() ? filter : 1u << s.pick({17, 11, 5, 21, 16});
    ADSBDecoderBlock b("d", rate24 ? ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2MHZ, filter);
    using M = mode_s_msg; dsp::Out<M> out(s.chance(1, 2) ? s.size(1, 4) : s.size(1, 40)); std::vector<Tx> want; size_t total = 0; bool refused = false;
    Scene c1 = scene(s, rate24, s.size(0, 12), false), c2 = scene(s, rate24, 1 + s.size(0, 5), false); uint64_t seed = s.subseed();
    s.note("%s MHz, filter %08x then %08x, output capacity %zu;%s;%s;", rate24 ? "2.4" : "2", filter, filter2, out.cap, show(c1).c_str(), show(c2).c_str());
    std::vector<uint16_t> q = render(c1, rate24, seed); dsp::In<uint16_t> in(&b.in, q); dsp::Rig r(s); r.ins = {&in}; r.outs = {&out};
    size_t L = rate24 ? 300 : 240; r.call = [&] { return b.procedure(&out); }; r.must_progress = [&] { return in.level() > L && out.room() > 0; };
    r.after = [&](const std::vector<size_t>& c, const std::vector<size_t>& p) { if (c[0]) ++r.split_calls; (void)p; };
    for (auto& t : c1.tx) { ++total; if (filter >> t.df & 1) want.push_back(t); else refused = true; }
    r.run(16, [&] { return !in.left() && in.level() <= L; });
    if (s.chance(2, 3)) {
        b.set_df_filter(filter2); auto q2 = render(c2, rate24, seed + 1); in.data.insert(in.data.end(), q2.begin(), q2.end());
        for (auto& t : c2.tx) { ++total; if (filter2 >> t.df & 1) want.push_back(t); else refused = true; }
        r.run(16, [&] { return !in.left() && in.level() <= L; });
    }
    compare(out.got, want); if (want.size() > 1 && r.split_calls > 1) s.nontrivial(); s.label(refused, "filtered out"); s.label(out.cap < 4, "small output");
}
PROPERTY(block_2000, 3000, 40000, "at least two messages forwarded, over at least two calls") { block(s, false); }
PROPERTY(block_2400, 3000, 40000, "at least two messages forwarded, over at least two calls") { block(s, true); }
