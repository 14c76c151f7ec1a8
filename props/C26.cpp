// C26: GMSK frames through the modem.
#include "dsp.hpp"
#include "desktop_blocks/blob.hpp"
#include "liquid.h"
#include "desktop_blocks/ezgmsk/ezgmsk_mod.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"
#include <cmath>
#include <cstring>
using dsp::cf; using namespace ezgmsk; using Bytes = std::vector<uint8_t>;

struct Modem { unsigned k, m; float bt; unsigned pre, det; std::vector<unsigned char> sync; unsigned hl, max; };
// settings for which this kind of receiver (discriminator, 32-arm filter bank) works at all
static Modem setting(pbt::Src& s, bool wide) {
    Modem q; q.k = s.pick({2u, 3u, 4u}); q.m = q.k == 2 ? s.pick({3u, 4u}) : 3; q.bt = s.pick({0.3f, 0.5f, 0.4f, 0.7f}); q.pre = 20 + 2 * (unsigned)s.below(q.k == 2 ? 7 : q.k == 3 ? 4 : 3); q.det = q.pre / 2;
    unsigned n = 8 * (3 + (unsigned)s.below(2));
    if (s.chance(1, 2)) { n = 24; Bytes w = {0x55, 0x90, 0x4E}; for (unsigned i = 0; i < n; ++i) q.sync.push_back(w[i / 8] >> (7 - i % 8) & 1); }
    else {
        // a sync word that none of its own shifts, after a preamble, comes near
        pbt::Bulk r(s.subseed());
        for (;;) {
            q.sync.clear(); for (unsigned i = 0; i < n; ++i) q.sync.push_back(r.below(2));
            std::vector<unsigned char> line; for (unsigned i = 0; i < 80; ++i) line.push_back(i % 2); line.insert(line.end(), q.sync.begin(), q.sync.end()); bool ok = true;
            for (unsigned o = 0; o < 80; ++o) { unsigned d = 0; for (unsigned i = 0; i < n; ++i) d += line[o + i] != q.sync[i]; ok &= d >= 4; }
            for (unsigned i = 1, run = 1; i < n; ++i) { run = q.sync[i] == q.sync[i - 1] ? run + 1 : 1; ok &= run <= 5; }
            if (ok) break;
        }
    }
    while (q.det + 4 > q.sync.size()) { q.pre -= 2; q.det = q.pre / 2; }      // the search for the sync word is as long as that
    q.hl = 1 + (unsigned)s.below(4); q.max = s.chance(1, 3) ? 1 + (unsigned)s.below(60) : 255; (void)wide;
    s.note("k=%u m=%u BT=%.1f preamble %u sync %zu bits header %u bytes, payload <= %u; ", q.k, q.m, q.bt, q.pre, q.sync.size(), q.hl, q.max);
    return q;
}
struct Frame { Bytes head, pay; };
static Bytes content(pbt::Src& s, pbt::Bulk& r, size_t n) {
    Bytes b(n); unsigned how = (unsigned)s.weighted({4, 1, 1, 1, 2}); uint8_t c = (uint8_t)r.below(256);
    for (auto& x : b) x = how == 0 ? (uint8_t)r.below(256) : how == 1 ? 0 : how == 2 ? 0xFF : how == 3 ? c : (uint8_t)(r.below(3) ? c : r.below(256));
    return b;
}
static Frame frame(pbt::Src& s, pbt::Bulk& r, const Modem& q) { Frame f; f.head = content(s, r, q.hl); f.pay = content(s, r, 1 + s.size(0, std::min(q.max, 254u) - (q.max > 1 ? 1 : 0))); if (f.pay.size() > q.max) f.pay.resize(q.max); f.head[0] = (uint8_t)f.pay.size(); return f; }
static Bytes on_air(const Modem& q, const Frame& f) {
    Bytes b((q.sync.size()) / 8); for (size_t i = 0; i < q.sync.size(); ++i) b[i / 8] |= q.sync[i] << (7 - i % 8);
    b.insert(b.end(), f.head.begin(), f.head.end()); b.insert(b.end(), f.pay.begin(), f.pay.end()); return b;
}
static std::vector<cf> modulate(const Modem& q, const Bytes& b, unsigned over = 1) {
    ezgmsk_mod mod = ezgmsk_mod_create_set(q.k * over, q.m, q.bt, q.pre); ezgmsk_mod_assemble(mod, b.data(), (unsigned)b.size());
    std::vector<cf> x(ezgmsk_mod_get_frame_len(mod)); int done = ezgmsk_mod_execute(mod, x.data(), (unsigned)x.size());
    CHECK(done == 1, "the frame is not complete after all of its %zu samples", x.size());
    CHECK(x.size() == (q.pre + 8 * b.size() + 2 * q.m) * q.k * over, "a frame of %zu bytes has %zu samples", b.size(), x.size());
    ezgmsk_mod_destroy(mod); return x;
}
struct Ev { int state; unsigned at; Bytes head, pay; float rssi, snr; bool operator==(const Ev& o) const { return state == o.state && at == o.at && head == o.head && pay == o.pay && !memcmp(&rssi, &o.rssi, 4) && !memcmp(&snr, &o.snr, 4); } };
struct Log { std::vector<Ev> ev; unsigned hl; unsigned max; int want = 0; int answer = -1; size_t frames = 0, heads = 0; };
static int on_event(unsigned at, ezgmsk_demod_state_en st, unsigned char* h, unsigned char* p, unsigned n, float rssi, float snr, void* c) {
    Log& l = *(Log*)c; Ev e{(int)st, at, {}, {}, rssi, snr};
    // the order of stages; a sync search given up starts again with a detection
    bool ok = st == EZGMSK_DEMOD_STATE_DETECTFRAME ? l.want == 0 || l.want == 1 : (int)st == l.want;
    CHECK(ok, "stage %d reported where stage %d is due", (int)st, l.want);
    CHECK(l.ev.empty() || at >= l.ev.back().at, "sample counter runs backwards");
    if (st == EZGMSK_DEMOD_STATE_RXHEADER) { CHECK(h && !p && n == 0, "header stage without header"); e.head.assign(h, h + l.hl); ++l.heads; int a = l.answer >= 0 ? l.answer : h[0]; l.ev.push_back(e); l.want = a > 0 && (unsigned)a <= l.max ? 3 : 0; return l.ev.back().pay.clear(), a; }
    if (st == EZGMSK_DEMOD_STATE_RXPAYLOAD) { CHECK(h && p, "payload stage without payload"); e.head.assign(h, h + l.hl); e.pay.assign(p, p + n); ++l.frames; l.want = 0; l.ev.push_back(e); return 0; }
    CHECK(!h && !p && !n, "stage %d with content", (int)st);
    l.want = (int)st + 1; l.ev.push_back(e); return 0;
}
// feeds in pieces
static void run_demod(const Modem& q, Log& l, const std::vector<cf>& x, pbt::Bulk* r) {
    ezgmsk_demod d = ezgmsk_demod_create_set(q.k, q.m, q.bt, q.det, q.sync.data(), (unsigned)q.sync.size(), q.hl, q.max, 0.9f, 0.1f, on_event, &l); l.hl = q.hl; l.max = q.max; l.want = 0;
    CHECK(!ezgmsk_demod_is_frame_open(d), "a frame is open before anything was received");
    for (size_t i = 0; i < x.size();) { size_t n = r ? 1 + r->below(r->below(3) ? 20 : 3000) : x.size(); n = std::min(n, x.size() - i); std::vector<cf> piece(x.begin() + i, x.begin() + i + n); ezgmsk_demod_execute(d, piece.data(), (unsigned)n); i += n; }
    ezgmsk_demod_destroy(d);
}
static bool all_there(const Log& l, const std::vector<Frame>& want) {
    size_t i = 0; for (auto& e : l.ev) if (e.state == EZGMSK_DEMOD_STATE_RXPAYLOAD) { if (i >= want.size() || e.head != want[i].head || e.pay != want[i].pay) return false; ++i; }
    return i == want.size() && l.heads == i;
}
static void expect_frames(const Log& l, const std::vector<Frame>& want, const char* how) {
    std::vector<const Ev*> got; for (auto& e : l.ev) if (e.state == EZGMSK_DEMOD_STATE_RXPAYLOAD) got.push_back(&e);
    for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) {
        size_t d = 0; for (size_t j = 0; j < std::min(want[i].pay.size(), got[i]->pay.size()); ++j) d += (size_t)__builtin_popcount(want[i].pay[j] ^ got[i]->pay[j]);
        CHECK(got[i]->head == want[i].head && got[i]->pay == want[i].pay, "%s: frame %zu of %zu came back changed (%zu payload bytes of %zu, %zu bits differ, header %s)", how, i, want.size(), got[i]->pay.size(), want[i].pay.size(), d, got[i]->head == want[i].head ? "right" : "wrong");
    }
    CHECK(got.size() == want.size(), "%s: %zu frames sent, %zu reported (%zu headers, %zu reports in all)", how, want.size(), got.size(), l.heads, l.ev.size());
    CHECK(l.heads == want.size(), "%s: %zu frames sent, %zu headers reported", how, want.size(), l.heads);
}
struct Path { unsigned over, off; std::vector<size_t> gaps; double amp = 1, ph = 0, df = 0, noise = 0; };
static std::vector<cf> send_over(const Path& p, const Modem& q, const std::vector<Frame>& fs, pbt::Bulk& r) {
    std::vector<cf> x(p.gaps[0]);
    for (size_t k = 0; k < fs.size(); ++k) { auto w = modulate(q, on_air(q, fs[k]), p.over); for (size_t i = p.off; i < w.size(); i += p.over) x.push_back(w[i]); x.resize(x.size() + p.gaps[k + 1]); }
    x.resize(x.size() + 40 * q.k);
    for (size_t i = 0; i < x.size(); ++i) x[i] = x[i] * (cf)std::polar(p.amp, p.ph + p.df * (double)i) + (p.noise > 0 ? cf((float)(p.amp * p.noise * r.gauss()), (float)(p.amp * p.noise * r.gauss())) : cf(0));
    return x;
}
static Path channel(pbt::Src& s, const std::vector<Frame>& fs) {
    Path p; p.over = s.chance(1, 3) ? 4 : 1; p.off = p.over > 1 ? (unsigned)s.below(p.over) : 0; p.gaps.push_back(s.size(0, 600));
    for (auto& f : fs) { (void)f; p.gaps.push_back(s.chance(1, 3) ? s.below(4) : s.size(0, 900)); }
    if (s.chance(2, 3)) { p.amp = std::exp(s.real(-5, 5)); p.ph = s.real(-3.14, 3.14); if (s.chance(1, 2)) p.df = s.real(-0.015, 0.015); if (s.chance(1, 2)) p.noise = s.real(0, 0.01); }
    for (size_t i = 0; i <= fs.size(); ++i) { s.note("gap %zu; ", p.gaps[i]); if (i < fs.size()) s.note("frame of %zu; ", fs[i].pay.size()); }
    s.note("gain %.3g phase %.2f offset %.3f noise %.3f phase of sampling %u/%u; ", p.amp, p.ph, p.df, p.noise, p.off, p.over);
    s.label(p.over > 1, "sampled between the sender's samples"); s.label(p.noise > 0, "noise"); s.label(p.df != 0, "frequency offset");
    return p;
}
// A radio may lose a frame by bad luck (one in tens of thousands here). What is lost over most of a set of other
// paths, too, is lost by the receiver.
static bool bad_luck(Path p, const Modem& q, const std::vector<Frame>& fs) {
    pbt::Bulk r(1234); unsigned lost = 0;
    for (unsigned i = 0; i < 5; ++i) { p.gaps[0] += 7 + i; p.ph += 1; p.amp = 1 + i * 0.7; for (size_t j = 1; j < p.gaps.size(); ++j) p.gaps[j] += i * 3; auto x = send_over(p, q, fs, r); Log l; run_demod(q, l, x, nullptr); lost += !all_there(l, fs); }
    return lost < 3;
}
PROPERTY(frames, 1500, 40000, "a sequence of generated frames with generated gaps through a channel of delay, gain, phase, frequency offset and light noise, received in generated pieces; non-trivial: at least two frames or an impaired channel") {
    Modem q = setting(s, false); pbt::Bulk r(s.subseed()); size_t n = 1 + s.size(0, 5); std::vector<Frame> fs; for (size_t i = 0; i < n; ++i) fs.push_back(frame(s, r, q));
    Path p = channel(s, fs); auto x = send_over(p, q, fs, r); bool imp = p.amp != 1;
    Log a, b; run_demod(q, a, x, nullptr); if (!all_there(a, fs) && !bad_luck(p, q, fs)) expect_frames(a, fs, "received at once"); s.label(!all_there(a, fs), "lost by bad luck");
    run_demod(q, b, x, &r); CHECK(b.ev == a.ev, "received in pieces the reports differ: %zu instead of %zu", b.ev.size(), a.ev.size());
    for (auto& f : fs) s.label(f.pay.size() > 100, "long payload");
    s.nontrivial(n > 1 || imp);
}
// frames whose header is refused, and the ones after them
PROPERTY(refused, 400, 8000, "frames of which some headers are answered with a length of zero, below zero or above the limit; non-trivial: a refused and an accepted frame") {
    Modem q = setting(s, false); q.max = 40; pbt::Bulk r(s.subseed()); size_t n = 2 + s.below(4), refused = 0; std::vector<Frame> fs, want; std::vector<cf> x(50);
    for (size_t i = 0; i < n; ++i) {
        Frame f = frame(s, r, q); bool no = s.chance(1, 2);
        if (no) { f.head[0] = s.flip() ? 0 : (uint8_t)(41 + r.below(200)); f.pay = {0x12, 0x6B, 0x3C, 0x91, 0xE4, 0x0B}; ++refused; } else want.push_back(f);
        auto w = modulate(q, on_air(q, f)); x.insert(x.end(), w.begin(), w.end()); x.resize(x.size() + (no ? 120 * q.k : 10 + r.below(100)));
    }
    x.resize(x.size() + 40 * q.k);
    auto right = [&](const Log& l) { size_t i = 0; for (auto& e : l.ev) if (e.state == 3) { if (i >= want.size() || e.pay != want[i].pay || e.head != want[i].head) return false; ++i; } return i == want.size() && l.heads == n; };
    Log l; run_demod(q, l, x, s.flip() ? &r : nullptr);
    if (!right(l)) {
        unsigned bad = 0; for (unsigned i = 1; i <= 5; ++i) { std::vector<cf> y(7 * i + i); for (auto& v : x) y.push_back(v * (cf)std::polar(0.5 * i, 1.0 * i)); Log k; run_demod(q, k, y, nullptr); bad += !right(k); }
        CHECK(bad < 3, "%zu frames sent, %zu headers and %zu payloads reported where %zu were accepted, or their content is wrong", n, l.heads, l.frames, want.size());
        s.label(true, "lost by bad luck");
    }
    s.nontrivial(refused && refused < n);
}
// nothing there
PROPERTY(no_frame, 300, 6000, "noise, tones, silence, steps and carriers without any frame, of generated strength; non-trivial: at least 2000 samples") {
    Modem q = setting(s, false); while (q.sync.size() < 24) q.sync.push_back((unsigned char)(q.sync.size() / 2 % 2)); pbt::Bulk r(s.subseed()); size_t n = 200 + s.size(0, 12000); std::vector<cf> x(n); unsigned how = (unsigned)s.below(5); double amp = std::exp(s.real(-8, 8)), f = s.real(-3, 3);
    for (size_t i = 0; i < n; ++i) switch (how) { case 0: break; case 1: x[i] = cf((float)(amp * r.gauss()), (float)(amp * r.gauss())); break; case 2: x[i] = (cf)std::polar(amp, f * (double)i); break; case 3: x[i] = (cf)std::polar(amp * (i / 100 % 2), 1.0); break; default: x[i] = (cf)std::polar(amp, f * (double)i * (double)i / 3000); }
    s.note("kind %u strength %g", how, amp);
    Log l; run_demod(q, l, x, &r); CHECK(l.heads == 0 && l.frames == 0, "%zu headers and %zu frames found where there are none", l.heads, l.frames);
    s.nontrivial(n >= 2000);
}
// whatever arrives
PROPERTY(anything, 500, 12000, "damaged frames: pieces cut out, repeated, overlaid, overdriven, and random samples, with generated answers to headers; non-trivial: at least one detection") {
    Modem q = setting(s, true); if (s.chance(1, 3)) q.sync.resize(1 + s.below(8)); if (s.chance(1, 4)) q.max = 1 + (unsigned)s.below(3); pbt::Bulk r(s.subseed()); std::vector<Frame> fs; size_t n = 1 + s.below(4); for (size_t i = 0; i < n; ++i) fs.push_back(frame(s, r, q));
    Modem send = q; while (send.sync.size() % 8) send.sync.push_back(0); auto x = send_over(channel(s, fs), send, fs, r);
    size_t cuts = s.below(6);
    for (size_t i = 0; i < cuts && x.size() > 10; ++i) { size_t a = r.below(x.size()), len = std::min<size_t>(1 + r.below(400), x.size() - a); switch (s.below(5)) { case 0: x.erase(x.begin() + a, x.begin() + a + len); break; case 1: { std::vector<cf> c(x.begin() + a, x.begin() + a + len); x.insert(x.begin() + r.below(x.size()), c.begin(), c.end()); break; } case 2: for (size_t j = a; j < a + len; ++j) x[j] = 0; break; case 3: for (size_t j = a; j < a + len; ++j) x[j] *= 1e4f; break; default: for (size_t j = a; j < a + len; ++j) x[j] += cf((float)r.gauss(), (float)r.gauss()); } }
    Log l, b; l.answer = b.answer = s.chance(1, 2) ? (int)s.below(300) : -1; run_demod(q, l, x, nullptr); run_demod(q, b, x, &r); CHECK(b.ev == l.ev, "received in pieces the reports differ");
    for (auto& e : l.ev) if (e.state == 3) CHECK(e.pay.size() >= 1 && e.pay.size() <= q.max, "a payload of %zu bytes is reported, allowed are %u", e.pay.size(), q.max);
    s.nontrivial(!l.ev.empty()); s.label(l.frames > 0, "a frame got through");
}
// the sender's waveform
PROPERTY(waveform, 400, 8000, "one frame's samples against liquid's own modulator fed with preamble, data and any tail; executed in generated pieces; non-trivial: at least one data byte") {
    unsigned k = 2 + (unsigned)s.below(6), m = 1 + (unsigned)s.below(5), pre = m + (unsigned)s.size(0, 60); float bt = (float)s.real(0.15, 0.9); pbt::Bulk r(s.subseed()); if (!pre) pre = 1; size_t n = s.size(0, 120); Bytes d = content(s, r, n);
    s.note("k=%u m=%u BT=%.2f preamble %u, %zu bytes", k, m, bt, pre, n);
    ezgmsk_mod mod = ezgmsk_mod_create_set(k, m, bt, pre);
    CHECK(!ezgmsk_mod_is_assembled(mod) && ezgmsk_mod_get_frame_len(mod) == 0, "assembled before assembling");
    size_t frames = 1 + s.below(3); bool part = s.flip();
    for (size_t f = 0; f < frames; ++f) {
        if (f) d = content(s, r, n = s.size(0, 120));
        ezgmsk_mod_assemble(mod, d.data(), (unsigned)n); CHECK(ezgmsk_mod_is_assembled(mod), "not assembled");
        size_t len = ezgmsk_mod_get_frame_len(mod); CHECK(len == (pre + 8 * n + 2 * m) * k, "a frame of %zu bytes has %zu samples", n, len);
        std::vector<cf> x(len); bool cut = f + 1 < frames && s.chance(1, 4);
        for (size_t i = 0; i < len;) { size_t c = part ? std::min<size_t>(1 + r.below(3 * k), len - i) : len; int done = ezgmsk_mod_execute(mod, x.data() + i, (unsigned)c); i += c; CHECK(i + k <= len ? !done : true, "complete after %zu of %zu samples", i, len); CHECK(i < len || done, "not complete after all %zu samples", len); if (cut && i > len / 2) goto next; }
        {
            gmskmod ref = gmskmod_create(k, m, bt); std::vector<cf> y;
            for (size_t i = 0; i < pre + 8 * n + m; ++i) { unsigned bit = i < pre ? i % 2 : i < pre + 8 * n ? d[(i - pre) / 8] >> (7 - (i - pre) % 8) & 1 : 0; std::vector<cf> t(k); gmskmod_modulate(ref, bit, t.data()); y.insert(y.end(), t.begin(), t.end()); }
            gmskmod_destroy(ref);
            // the tail is arbitrary bits, whose influence begins with the tail; the envelope rises over the first and falls over the last m symbols
            for (size_t i = 0; i < (pre + 8 * n) * k; ++i) { float e = std::abs(x[i]); if (i >= m * k) CHECK(std::abs(x[i] - y[i]) < 1e-3f, "sample %zu of %zu is (%g,%g), not (%g,%g)", i, len, x[i].real(), x[i].imag(), y[i].real(), y[i].imag()); else CHECK(e <= 1.001f && (e < 1e-3f || std::abs(x[i] / e - y[i] / std::abs(y[i])) < 1e-2f), "sample %zu of the rise has the wrong phase", i); }
            for (size_t i = (pre + 8 * n) * k; i < len; ++i) CHECK(std::abs(x[i]) < 1.001f && (i >= len - m * k || std::abs(x[i]) > 0.999f), "sample %zu of %zu in the tail has strength %g", i, len, std::abs(x[i]));
            std::vector<cf> z(3 * k, cf(1, 1)); ezgmsk_mod_execute(mod, z.data(), (unsigned)z.size()); for (auto& v : z) CHECK(v == cf(0), "something is sent after the frame");
        }
    next:;
        if (s.flip()) { ezgmsk_mod_reset(mod); CHECK(!ezgmsk_mod_is_assembled(mod), "assembled after reset"); }
    }
    ezgmsk_mod_destroy(mod); s.nontrivial(n > 0); s.label(n == 0, "no data"); s.label(pre < 8, "short preamble");
}
// the blocks: blobs in, samples through, frames out
PROPERTY(blocks, 700, 15000, "blobs through the modulator block with generated feeding, draining and output space, its samples into the demodulator block; non-trivial: at least two blobs and three calls") {
    Modem q = setting(s, false); pbt::Bulk r(s.subseed()); size_t n = 1 + s.size(0, 7); std::vector<Frame> fs; std::vector<Bytes> air;
    if (s.chance(1, 2)) q.max = 20;
    Slab slab(n, 400); std::vector<Blob> blobs; size_t longest = 0, total = 0;
    for (size_t i = 0; i < n; ++i) { fs.push_back(frame(s, r, q)); air.push_back(on_air(q, fs[i])); Blob b = slab.take_slot().unwrap(); memcpy(b.data, air[i].data(), air[i].size()); b.len = air[i].size(); blobs.push_back(b); size_t l = (q.pre + 8 * b.len + 2 * q.m) * q.k; longest = std::max(longest, l); total += l; }
    EZGmskModBlock mod("mod", q.k, q.m, q.bt, q.pre, 1 + s.below(10));
    dsp::In<Blob> in(&mod.in, blobs); size_t space = s.pick<size_t>({0, 1, 2, 5}); space = space == 0 ? longest : space == 1 ? longest + s.below(100) : space == 2 ? longest * (2 + s.below(8)) : total;
    bool small = s.chance(1, 4); if (small) space = 1 + s.below(longest);      // not even room for a frame at once
    dsp::Out<cf> out(space); dsp::Rig rig(s); rig.ins = {&in}; rig.outs = {&out}; rig.call = [&] { return mod.procedure(&out); };
    rig.must_progress = [&] { return in.level() > 0 && out.room() >= (small ? space : longest); };
    rig.run(20, [&] { return in.left() == 0 && in.level() == 0 && out.count() == total; });
    out.drain(SIZE_MAX); CHECK(out.got.size() == total, "%zu samples for frames of %zu", out.got.size(), total);
    CHECK(slab.available_slots() == n, "%zu of %zu blobs were given back", slab.available_slots(), n);
    size_t o = 0;
    for (size_t i = 0; i < n; ++i) { auto w = modulate(q, air[i]); for (size_t j = 0; j < w.size() - 2 * q.m * q.k; ++j) CHECK(std::abs(w[j] - out.got[o + j]) < 1e-4f, "sample %zu of frame %zu differs from the modulator's when used alone", j, i); o += w.size(); }
    out.got.resize(total + 40 * q.k);
    Log l; l.hl = q.hl; l.max = q.max; EZGmskDemodBlock dem("demod", q.k, q.m, q.bt, q.det, q.sync.data(), (unsigned)q.sync.size(), q.hl, q.max, on_event, &l);
    dsp::In<cf> din(&dem.in, out.got); dsp::Rig drig(s); drig.ins = {&din}; drig.call = [&] { return dem.procedure(); };
    drig.run(10, [&] { return din.left() == 0 && din.level() == 0; });
    Log direct; run_demod(q, direct, out.got, nullptr); CHECK(l.ev == direct.ev, "the block reports %zu stages, the demodulator on its own %zu", l.ev.size(), direct.ev.size());
    if (!all_there(l, fs)) { Path p; p.over = 1; p.off = 0; p.gaps.assign(n + 1, 0); if (!bad_luck(p, q, fs)) expect_frames(l, fs, "through the blocks"); s.label(true, "lost by bad luck"); }
    s.nontrivial(n >= 2 && rig.calls >= 3); s.label(small, "less space than a frame"); s.label(rig.split_calls > 0, "split calls");
}
