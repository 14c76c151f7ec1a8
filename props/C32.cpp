// Radio sources over stand-in devices
#include "radio.hpp"
#include "desktop_blocks/sources/source_soapysdr.hpp"
#include "desktop_blocks/sinks/sink_soapysdr.hpp"   // a transceiver needs both in one program
#include "desktop_blocks/sources/source_hackrf.hpp"
#include "desktop_blocks/sources/source_uhd.hpp"
#include "desktop_blocks/sources/source_cariboulite.hpp"
#include <array>
#include <tuple>
using namespace radio;

// the history of one source: call until `goal` samples came out or the device failed
template <class T, size_t N> static size_t drive(pbt::Src& s, std::array<std::unique_ptr<Out<T>>, N>& outs, size_t n, Script& sc, std::function<Res()> call, bool fatal = true) {
    Rig r(s); for (size_t i = 0; i < n; ++i) r.outs.push_back(outs[i].get()); bool ended = false; unsigned idle = 0; size_t goal = 1 + s.size(0, 6000);
    r.call = [&]() -> Res {
        if (ended) return cler::Empty{}; size_t before = outs[0]->count(), tried = sc.n; auto x = call(); bool moved = outs[0]->count() > before, room = true; for (size_t i = 0; i < n; ++i) room &= outs[i]->room() > 0 || moved;
        if (sc.dead) { CHECK(x.is_err() && (!fatal || cler::is_fatal(x.unwrap_err())), "the device failed and the source reports no error"); ended = true; return cler::Empty{}; }
        idle = moved || !room ? 0 : idle + 1; CHECK(idle <= 4, "the device has samples, there is space, and none come out (transfers tried: %zu)", sc.n - tried); return x;
    };
    r.must_progress = [] { return false; }; r.after = [&](const std::vector<size_t>&, const std::vector<size_t>& q) { r.split_calls += q[0] > 0; };
    r.run(15, [&] { if (ended) return true; outs[0]->drain(SIZE_MAX); for (size_t i = 1; i < n; ++i) outs[i]->drain(SIZE_MAX); return outs[0]->count() >= goal; });
    return r.split_calls;
}
template <class T> static void as_sent(Out<T>& o, size_t sent, size_t ch) {
    o.drain(SIZE_MAX); CHECK(o.got.size() == sent, "channel %zu: %zu samples came out, the device handed over %zu", ch, o.got.size(), sent);
    for (size_t i = 0; i < sent; ++i) CHECK(same(o.got[i], value<T>(i, ch)), "channel %zu: sample %zu is not the one the device handed over as number %zu", ch, i, i);
}

template <class T> static void soapy_stream(pbt::Src& s, const char* fmt) {
    Quiet q; soapy = Soapy{}; soapy.channels = {s.below(3)}; soapy.mtu = s.size(1, 3000); Script sc(s); size_t sent = 0; std::array<std::unique_ptr<Out<T>>, 1> o{std::make_unique<Out<T>>(s.size(1, 5000))};
    s.note("SoapySDR %s, MTU %zu, out capacity %zu; ", fmt, soapy.mtu, o[0]->cap);
    soapy.read = [&](void* const* b, size_t n, long t) -> int {
        CHECK(n > 0 && n <= o[0]->window && n <= soapy.mtu, "asked the device for %zu samples, window %zu, MTU %zu", n, o[0]->window, soapy.mtu); CHECK(t > 0 && t <= 1000000, "a wait of %ld us for samples", t);
        size_t k = 0; switch (sc.next()) { case ALL: k = n; break; case PART: k = sc.part(n); break; case TIMEOUT: return SOAPY_SDR_TIMEOUT; case ZERO: return 0; case OVERFLOW_: return SOAPY_SDR_OVERFLOW; case DIE: return sc.r.below(2) ? SOAPY_SDR_STREAM_ERROR : SOAPY_SDR_CORRUPTION; }
        for (size_t i = 0; i < k; ++i) ((T*)b[0])[i] = value<T>(sent + i, soapy.channels[0]); sent += k; return (int)k;
    };
    size_t calls; { SourceSoapySDRBlock<T> b("src", "driver=fake", 450e6, 1.5e6, 20, soapy.channels[0]); CHECK(soapy.format == fmt, "format %s asked of the device, the block's samples are %s", soapy.format.c_str(), fmt); CHECK(soapy.active, "the stream was not started"); calls = drive<T, 1>(s, o, 1, sc, [&] { return b.procedure(o[0].get()); }); }
    as_sent(*o[0], sent, soapy.channels[0]); soapy_closed("after the block is gone"); s.nontrivial(calls > 1); s.label(sc.dead, "device failed");
}
PROPERTY(soapysdr, 900, 20000, "samples came out over at least two transfers, with timeouts, overflows, pieces and failures at generated transfers") {
    switch (s.below(3)) { case 0: soapy_stream<cf>(s, SOAPY_SDR_CF32); break; case 1: soapy_stream<cs>(s, SOAPY_SDR_CS16); break; default: soapy_stream<uint8_t>(s, SOAPY_SDR_U8); }
}
PROPERTY(soapysdr_control, 900, 15000, "a history of more than three settings, some refused by the device") {
    Quiet q; soapy = Soapy{}; soapy.dir = SOAPY_SDR_RX; soapy.channels = {s.below(3)}; soapy.gain_mode = s.flip(); soapy.corrections = s.flip(); if (s.flip()) soapy.bands.clear();
    { SourceSoapySDRBlock<cf> b("src", "driver=fake", 450e6, 1.5e6, 20, soapy.channels[0]); soapy_control<false>(s, b); } soapy_closed("after the block is gone");
    auto l = enumerate_devices(); bool found = false; for (auto& x : l) if (x.driver == "fake") { found = true; CHECK(x.label == "fake" && x.serial == "1", "the device is listed as '%s', serial '%s'", x.label.c_str(), x.serial.c_str()); auto k = SoapySDR::KwargsFromString(x.get_args_string()); CHECK(k == x.args && k["driver"] == "fake", "arguments '%s'", x.get_args_string().c_str()); }
    CHECK(found, "the device is not listed");
}
PROPERTY(soapysdr_setup, 900, 15000, "the block was refused: a value out of the device's ranges or a step that fails") {
    Quiet q; soapy = Soapy{}; soapy.channels = {s.below(3)}; soapy.gain_mode = s.flip(); if (s.flip()) soapy.bands.clear();
    double rate = s.pick({0, 1, 2}) ? s.pick({1e6, 2e6, 5e6, 8e6, 6.5e6, 1.2e6}) : s.pick({0.99e6, 2.01e6, 4.9e6, 8.1e6, 0.0, -1e6}), freq = s.pick({0, 1, 2}) ? s.pick({100e6, 200e6, 400e6, 6e9, 868e6}) : s.pick({99e6, 201e6, 399e6, 6.1e9, 0.0}), gain = s.pick({0, 1, 2}) ? s.pick({0.0, 60.0, 13.5}) : s.pick({-0.5, 60.5, 1000.0});
    static const char* steps[] = {"make", "getSampleRateRange", "setSampleRate", "getFrequencyRange", "setFrequency", "getGainRange", "hasGainMode", "setGainMode", "setGain", "getBandwidthRange", "setBandwidth", "setupStream", "getStreamMTU", "activateStream", "listAntennas"};
    const char* bad = s.chance(2, 5) ? steps[s.below(15)] : ""; if (*bad) soapy.fail[bad] = 1 + (int)s.below(2); bool refuse = *bad && !(soapy.fail[bad] == 2 && strcmp(bad, "setupStream") && strcmp(bad, "activateStream") && strcmp(bad, "make") && strcmp(bad, "getStreamMTU")), reached = true;
    if (!strcmp(bad, "setGainMode") && !soapy.gain_mode) reached = false; if (!strcmp(bad, "setBandwidth") && soapy.bands.empty()) reached = false;
    auto in = [](const SoapySDR::RangeList& l, double v) { for (auto& r : l) if (v >= r.minimum() && v <= r.maximum()) return true; return false; };
    bool ok = in(soapy.rates, rate) && in(soapy.freqs, freq) && gain >= 0 && gain <= 60 && !(refuse && reached), made = false; s.note("rate %g, frequency %g, gain %g%s%s", rate, freq, gain, *bad ? ", failing: " : "", bad); soapy.read = [](void* const*, size_t, long) { return 0; };
    try {
        SourceSoapySDRBlock<cf> b("src", "driver=fake", freq, rate, gain, soapy.channels[0]); made = true; auto& v = soapy.set;
        CHECK(v["rate"] == rate && v["freq"] == freq && v["gain"] == gain && soapy.active, "the device was set to rate %g, frequency %g, gain %g%s", v["rate"], v["freq"], v["gain"], soapy.active ? "" : ", not started"); CHECK(!soapy.gain_mode || (v.count("agc") && !v["agc"]), "automatic gain stays on although a gain was asked for"); CHECK(soapy.bands.empty() || v["bw"] == rate, "bandwidth %g at rate %g", v["bw"], rate);
        soapy.fail.clear(); if (s.flip()) { b.set_frequency(123e6); b.set_gain(7); b.set_sample_rate(1.1e6); b.set_antenna("RX2"); CHECK(v["freq"] == 123e6 && b.get_frequency() == 123e6 && v["gain"] == 7 && b.get_gain() == 7 && v["rate"] == 1.1e6 && b.get_sample_rate() == 1.1e6 && v["antenna"] == 2 && (soapy.bands.empty() || v["bw"] == 1.1e6), "a setting did not reach the device or is not read back"); bool thrown = false; try { b.set_antenna("TX9"); } catch (const std::runtime_error&) { thrown = true; } CHECK(thrown && v["antenna"] == 2, "an antenna the device does not have was accepted"); b.set_agc_mode(true); CHECK(!soapy.gain_mode || v["agc"] == 1, "automatic gain was not set"); }
    } catch (const std::exception&) {}
    CHECK(made == ok, "the block was %s", made ? "made" : "refused"); soapy_closed(made ? "after the block is gone" : "after the constructor threw"); s.nontrivial(!made);
}

// ---------- HackRF
static struct HackRF : Log { int inits = 0, open = 0; bool rx = false; std::map<std::string, int> fail; std::map<std::string, double> set; hackrf_sample_block_cb_fn cb = nullptr; void* ctx = nullptr; } hrf;
extern "C" {
static int h(const char* n) { return hrf.fail[n] ? HACKRF_ERROR_LIBUSB : HACKRF_SUCCESS; }
static int hset(const char* n, hackrf_device* d, double v) { if (d != (hackrf_device*)&hrf || !hrf.open) hrf.misuse(std::string(n) + " without a device"); if (h(n)) return HACKRF_ERROR_LIBUSB; hrf.set[n] = v; return HACKRF_SUCCESS; }
int hackrf_init(void) { if (h("init")) return HACKRF_ERROR_LIBUSB; ++hrf.inits; return HACKRF_SUCCESS; }
int hackrf_exit(void) { if (hrf.inits <= 0) hrf.misuse("hackrf_exit without hackrf_init"); if (hrf.open) hrf.misuse("hackrf_exit with a device open"); --hrf.inits; return HACKRF_SUCCESS; }
int hackrf_open(hackrf_device** d) { if (!hrf.inits) hrf.misuse("hackrf_open before hackrf_init"); if (h("open")) return HACKRF_ERROR_NOT_FOUND; ++hrf.open; *d = (hackrf_device*)&hrf; return HACKRF_SUCCESS; }
int hackrf_close(hackrf_device* d) { if (d != (hackrf_device*)&hrf || !hrf.open) { hrf.misuse("hackrf_close without a device"); return HACKRF_ERROR_OTHER; } hrf.rx = false; --hrf.open; return HACKRF_SUCCESS; }
int hackrf_set_freq(hackrf_device* d, const uint64_t v) { return hset("freq", d, (double)v); } int hackrf_set_sample_rate(hackrf_device* d, const double v) { return hset("rate", d, v); }
int hackrf_set_lna_gain(hackrf_device* d, uint32_t v) { return hset("lna", d, v); } int hackrf_set_vga_gain(hackrf_device* d, uint32_t v) { return hset("vga", d, v); } int hackrf_set_amp_enable(hackrf_device* d, const uint8_t v) { return hset("amp", d, v); }
int hackrf_start_rx(hackrf_device* d, hackrf_sample_block_cb_fn f, void* c) { if (d != (hackrf_device*)&hrf || !hrf.open) hrf.misuse("hackrf_start_rx without a device"); if (h("start")) return HACKRF_ERROR_LIBUSB; hrf.cb = f; hrf.ctx = c; hrf.rx = true; return HACKRF_SUCCESS; }
int hackrf_stop_rx(hackrf_device*) { if (!hrf.rx) hrf.misuse("hackrf_stop_rx while not receiving"); hrf.rx = false; return HACKRF_SUCCESS; }
}
static void hrf_closed(const char* when) { CHECK(hrf.bad.empty(), "libhackrf misused: %s", hrf.bad.c_str()); CHECK(!hrf.open && !hrf.inits, "%s, %d device(s) and %d initialization(s) stay open", when, hrf.open, hrf.inits); }
// samples arrive through the callback of the library
struct Air : InB {
    SourceHackRFBlock* b; Out<cf>* out; std::vector<uint8_t> data; std::vector<cf> want; size_t cap, lost = 0, at = 0; bool busy = false;
    size_t left() override { return (data.size() - at) / 2; } size_t level() override { return fed - out->count(); } size_t room() override { return left(); }
    size_t feed(size_t n, unsigned) override {
        n = std::min<size_t>({n, left(), 20000}); if (!n) return 0; size_t lv = level(), o0 = b->get_overflow_count(); std::vector<uint8_t> buf(data.begin() + (long)at, data.begin() + (long)(at + 2 * n)); buf.resize(2 * n + (at / 2 % 3 ? at % 34 : 0), 0x55);  // the buffer may be longer than what was received
        hackrf_transfer t{(hackrf_device*)&hrf, buf.data(), (int)buf.size(), (int)(2 * n), hrf.ctx, nullptr}; CHECK(hrf.cb(&t) == 0, "the callback stopped the reception"); size_t drop = b->get_overflow_count() - o0; CHECK(drop <= n, "%zu of %zu samples counted as lost", drop, n);
        if (!busy) CHECK(drop == n - std::min(n, cap - lv), "%zu of %zu samples lost with space for %zu", drop, n, cap - lv);
        for (size_t i = 0; i < n - drop; ++i) want.push_back({(int8_t)data[at + 2 * i] / 128.0f, (int8_t)data[at + 2 * i + 1] / 128.0f});
        at += 2 * n; fed += n - drop; lost += drop; return n;
    }
};
PROPERTY(hackrf, 900, 20000, "samples came out over at least two calls") {
    Quiet q; hrf = HackRF{}; size_t buf = s.flip() ? 0 : 512 + s.size(0, 4000); Out<cf> out(s.size(1, 5000)); Air a; a.out = &out; { cler::Channel<cf> c(buf ? buf : 512); a.cap = c.space(); } a.data.resize(2 * s.size(1, 20000)); pbt::Bulk r(s.subseed()); for (auto& x : a.data) x = (uint8_t)r.u32(); size_t calls;
    s.note("%zu samples, buffer %zu, out capacity %zu; ", a.data.size() / 2, buf, out.cap);
    { SourceHackRFBlock b("src", 100000000, 8000000, 24, 30, s.flip(), buf); a.b = &b; CHECK(hrf.rx, "reception was not started"); Rig g(s); g.ins = {&a}; g.outs = {&out}; g.call = [&] { a.busy = true; auto x = b.procedure(&out); a.busy = false; return x; };
      g.after = [&](const std::vector<size_t>&, const std::vector<size_t>& p) { g.split_calls += p[0] > 0; }; g.run(15, [&] { return !a.left() && !a.level(); }); calls = g.split_calls; CHECK(b.get_overflow_count() == a.lost, "%zu lost samples counted, %zu were lost", b.get_overflow_count(), a.lost); }
    CHECK(out.got.size() == a.want.size(), "%zu samples came out of %zu received and not counted as lost", out.got.size(), a.want.size());
    for (size_t i = 0; i < a.want.size(); ++i) CHECK(out.got[i] == a.want[i], "sample %zu is %s, received was %s", i, str(out.got[i]).c_str(), str(a.want[i]).c_str());
    hrf_closed("after the block is gone"); s.nontrivial(calls > 1); s.label(a.lost > 0, "overflow");
}
PROPERTY(hackrf_full_transfers, 60, 800, "at least two transfers of the size libhackrf uses were received") {
    Quiet q; hrf = HackRF{}; size_t buf = 512 + s.size(0, 300000), n = 131072, k = s.range(1, 3), lost = 0; pbt::Bulk r(s.subseed()); Out<cf> out(buf + 1000); std::vector<cf> want; s.note("%zu transfers of %zu samples, buffer %zu; ", k, n, buf);
    { SourceHackRFBlock b("src", 100000000, 8000000, 24, 30, false, buf); size_t cap; { cler::Channel<cf> c(buf); cap = c.space(); }
      for (size_t t = 0; t < k; ++t) {
          std::vector<uint8_t> d(2 * n); for (size_t i = 0; i + 8 <= d.size(); i += 8) { uint64_t v = r.u64(); memcpy(&d[i], &v, 8); } hackrf_transfer x{(hackrf_device*)&hrf, d.data(), (int)d.size(), (int)d.size(), hrf.ctx, nullptr}; CHECK(hrf.cb(&x) == 0, "the callback stopped the reception");
          size_t fit = std::min(n, cap); lost += n - fit; CHECK(b.get_overflow_count() == lost, "%zu lost samples counted, space for %zu of each %zu", b.get_overflow_count(), cap, n); for (size_t i = 0; i < fit; ++i) want.push_back({(int8_t)d[2 * i] / 128.0f, (int8_t)d[2 * i + 1] / 128.0f});
          for (int c = 0; c < 1000 && out.got.size() < want.size(); ++c) { (void)b.procedure(&out); out.drain(SIZE_MAX); }
      } }
    CHECK(out.got.size() == want.size(), "%zu samples came out of %zu received and not counted as lost", out.got.size(), want.size()); for (size_t i = 0; i < want.size(); ++i) CHECK(out.got[i] == want[i], "sample %zu is %s, received was %s", i, str(out.got[i]).c_str(), str(want[i]).c_str());
    hrf_closed("after the block is gone"); s.nontrivial(k > 1); s.label(lost > 0, "overflow");
}
PROPERTY(hackrf_control, 600, 10000, "a history of more than three settings, some refused by the device") {
    Quiet q; hrf = HackRF{}; unsigned n = 1 + (unsigned)s.below(12), no = 0; std::map<std::string, double> want{{"freq", 1e8}, {"rate", 8e6}, {"lna", 24}, {"vga", 30}, {"amp", 0}};
    { SourceHackRFBlock b("src", 100000000, 8000000, 24, 30, false, 0);
      for (unsigned i = 0; i < n; ++i) {
          bool fail = s.chance(1, 4); unsigned k = (unsigned)s.below(4); static const char* nm[] = {"freq", "lna", "vga", "amp"}; uint64_t v = k == 0 ? s.range(1000000, 6000000000) : k == 3 ? s.below(2) : k == 1 ? 8 * s.below(6) : 2 * s.below(32); s.note("%s%s=%llu ", fail ? "!" : "", nm[k], (unsigned long long)v);
          hrf.fail.clear(); if (fail) hrf.fail[nm[k]] = 1; switch (k) { case 0: b.set_frequency(v); break; case 1: b.set_lna_gain((int)v); break; case 2: b.set_vga_gain((int)v); break; default: b.set_amp_enable(v); } if (!fail) want[nm[k]] = (double)v; no += fail;
          for (auto& kv : want) CHECK(hrf.set[kv.first] == kv.second, "after setting %s the device has %s %g, asked for last was %g", nm[k], kv.first.c_str(), hrf.set[kv.first], kv.second);
          CHECK((double)b.get_frequency() == want["freq"] && b.get_sample_rate() == want["rate"] && b.get_lna_gain() == want["lna"] && b.get_vga_gain() == want["vga"] && b.get_amp_enable() == (want["amp"] != 0), "after setting %s the block reports other settings than the device has", nm[k]);
      } }
    hrf_closed("after the block is gone"); s.nontrivial(n > 3); s.label(no > 0, "refused");
}
PROPERTY(hackrf_setup, 400, 6000, "the block was refused: a step that fails or a buffer too small") {
    Quiet q; hrf = HackRF{}; static const char* steps[] = {"init", "open", "freq", "rate", "lna", "vga", "amp", "start"}; const char* bad = s.flip() ? steps[s.below(8)] : ""; if (*bad) hrf.fail[bad] = 1; size_t buf = s.pick({0, 0, 1, 511, 512, 900}); bool amp = s.flip(), made = false; uint64_t f = s.range(1000000, 6000000000), rate = s.range(2000000, 20000000); int lna = 8 * (int)s.below(6), vga = 2 * (int)s.below(32);
    s.note("failing: %s, buffer %zu", bad, buf);
    try { SourceHackRFBlock b("src", f, (uint32_t)rate, lna, vga, amp, buf); made = true; auto& v = hrf.set; CHECK(v["freq"] == (double)f && v["rate"] == (double)rate && v["lna"] == lna && v["vga"] == vga && v["amp"] == amp && hrf.rx, "the device is not set as asked");
        if (s.flip()) { hrf.fail["freq"] = s.flip(); b.set_frequency(433000000); CHECK(b.get_frequency() == (uint64_t)v["freq"], "the block says %llu Hz, the device is at %.0f", (unsigned long long)b.get_frequency(), v["freq"]); b.set_lna_gain(16); b.set_vga_gain(20); b.set_amp_enable(!amp); CHECK(v["lna"] == 16 && v["vga"] == 20 && v["amp"] == !amp && b.get_lna_gain() == 16 && b.get_vga_gain() == 20 && b.get_amp_enable() == !amp, "a setting did not reach the device or is not read back"); } } catch (const std::exception&) {}
    CHECK(made == (!*bad && (!buf || buf >= 512)), "the block was %s", made ? "made" : "refused"); hrf_closed(made ? "after the block is gone" : "after the constructor threw"); s.nontrivial(!made);
}

// ---------- UHD
static struct Uhd : Log { size_t chans = 4; int devs = 0, streams = 0; bool running = false; bool no_dev = false, no_stream = false; std::map<std::string, double> set; std::string cpu, otw; std::vector<size_t> ch; double rate_step = 0; std::function<size_t(const uhd::rx_streamer::buffs_type&, size_t, uhd::rx_metadata_t&, double)> recv; bool throws = false; } usrp;
struct RxS : uhd::rx_streamer {
    RxS() { ++usrp.streams; } ~RxS() override { --usrp.streams; }
    size_t get_num_channels() const override { return usrp.ch.size(); } size_t get_max_num_samps() const override { return 364; }
    size_t recv(const buffs_type& b, const size_t n, uhd::rx_metadata_t& md, const double t, const bool) override { md.reset(); return usrp.recv(b, n, md, t); }
    void issue_stream_cmd(const uhd::stream_cmd_t& c) override { usrp.running = c.stream_mode == uhd::stream_cmd_t::STREAM_MODE_START_CONTINUOUS; }
};
struct Usrp : uhd::usrp::multi_usrp {
    Usrp() { ++usrp.devs; } ~Usrp() override { if (usrp.running) usrp.misuse("the device was closed while streaming"); --usrp.devs; }
    size_t get_rx_num_channels() override { return usrp.chans; } size_t get_tx_num_channels() override { return usrp.chans; } std::string get_mboard_name(size_t) override { return "fake"; } std::string get_pp_string() override { return "fake"; }
    void put(const char* n, double v, size_t c) { if (c >= usrp.chans) usrp.misuse(std::string(n) + " on channel " + std::to_string(c)); if (usrp.throws) throw std::runtime_error("stand-in"); usrp.set[std::string(n) + std::to_string(c)] = v; }
    void set_rx_rate(double v, size_t c) override { put("rate", v + usrp.rate_step, c); } double get_rx_rate(size_t c) override { return usrp.set["rate" + std::to_string(c)]; } uhd::tune_result_t set_rx_freq(const uhd::tune_request_t& f, size_t c) override { put("freq", f.target_freq, c); return {}; } uhd::freq_range_t get_rx_freq_range(size_t) override { return {70e6, 6e9}; }
    void set_rx_gain(double v, size_t c) override { put("gain", v, c); } uhd::gain_range_t get_rx_gain_range(size_t) override { return {0, 76}; } void set_rx_bandwidth(double v, size_t c) override { put("bw", v, c); }
    void no() { usrp.misuse("a receiver set the transmitter"); } void set_tx_rate(double, size_t) override { no(); } double get_tx_rate(size_t) override { no(); return 0; } uhd::tune_result_t set_tx_freq(const uhd::tune_request_t&, size_t) override { no(); return {}; } uhd::freq_range_t get_tx_freq_range(size_t) override { no(); return {0, 0}; } void set_tx_gain(double, size_t) override { no(); } uhd::gain_range_t get_tx_gain_range(size_t) override { no(); return {0, 0}; } void set_tx_bandwidth(double, size_t) override { no(); }
    uhd::rx_streamer::sptr get_rx_stream(const uhd::stream_args_t& a) override { usrp.cpu = a.cpu_format; usrp.otw = a.otw_format; usrp.ch = a.channels; return usrp.no_stream ? nullptr : std::make_shared<RxS>(); } uhd::tx_streamer::sptr get_tx_stream(const uhd::stream_args_t&) override { no(); return nullptr; }
    uhd::time_spec_t get_time_last_pps(size_t) override { return {}; } void set_time_next_pps(const uhd::time_spec_t&, size_t) override {}
};
uhd::usrp::multi_usrp::sptr uhd::usrp::multi_usrp::make(const std::string&) { if (::usrp.no_dev) return nullptr; return std::make_shared<Usrp>(); }
static void uhd_closed(const char* when) { CHECK(usrp.bad.empty(), "UHD misused: %s", usrp.bad.c_str()); CHECK(!usrp.devs && !usrp.streams, "%s, %d stream(s) and %d device(s) stay open", when, usrp.streams, usrp.devs); }
template <class T> static void uhd_stream(pbt::Src& s, const char* fmt) {
    Quiet q; ::usrp = Uhd{}; size_t n = s.weighted({3, 2, 1}) + 1, sent = 0, over = 0; Script sc(s); std::array<std::unique_ptr<Out<T>>, 3> o; for (size_t i = 0; i < n; ++i) o[i] = std::make_unique<Out<T>>(s.size(1, 5000)); bool cfg = s.chance(1, 3);
    s.note("UHD %s, %zu channels, out capacities %zu %zu %zu; ", fmt, n, o[0]->cap, n > 1 ? o[1]->cap : 0, n > 2 ? o[2]->cap : 0);
    ::usrp.recv = [&](const uhd::rx_streamer::buffs_type& b, size_t k, uhd::rx_metadata_t& md, double t) -> size_t {
        CHECK(b.size() == n, "a stream of %zu channels was read into %zu buffers", n, b.size()); for (size_t i = 0; i < n; ++i) CHECK(k > 0 && k <= o[i]->window, "asked the device for %zu samples, window of channel %zu is %zu", k, i, o[i]->window); CHECK(t > 0 && t <= 1, "a wait of %g s for samples", t);
        size_t m = 0; switch (sc.next()) { case ALL: m = k; break; case PART: m = sc.part(k); break; case TIMEOUT: case ZERO: md.error_code = uhd::rx_metadata_t::ERROR_CODE_TIMEOUT; return 0; case OVERFLOW_: ++over; md.error_code = uhd::rx_metadata_t::ERROR_CODE_OVERFLOW; if (sc.r.below(2)) return 0; m = sc.part(k); break; case DIE: md.error_code = sc.r.below(2) ? uhd::rx_metadata_t::ERROR_CODE_BAD_PACKET : uhd::rx_metadata_t::ERROR_CODE_LATE_COMMAND; return 0; }
        for (size_t c = 0; c < n; ++c) for (size_t i = 0; i < m; ++i) ((T*)b[c])[i] = value<T>(sent + i, c); sent += m; return m;
    };
    size_t calls; { SourceUHDBlock<T> b("src", 900e6, 1e6, "addr", 20, n); CHECK(::usrp.cpu == fmt && ::usrp.otw == "sc16" && ::usrp.running, "stream of %s over %s%s", ::usrp.cpu.c_str(), ::usrp.otw.c_str(), ::usrp.running ? "" : ", not started"); CHECK(::usrp.ch.size() == n, "a stream of %zu channels for %zu", ::usrp.ch.size(), n); for (size_t i = 0; i < n; ++i) CHECK(::usrp.ch[i] == i, "output %zu is channel %zu", i, ::usrp.ch[i]);
      calls = drive<T, 3>(s, o, n, sc, [&]() -> Res { if (cfg && !s.below(4)) { UHDConfig c; c.center_freq_Hz = 915e6; c.gain = 11; size_t k = s.below(n); CHECK(b.configure(c, k) && ::usrp.set["gain" + std::to_string(k)] == 11, "a configuration did not reach the device"); } return n == 1 ? b.procedure(o[0].get()) : n == 2 ? b.procedure(o[0].get(), o[1].get()) : b.procedure(o[0].get(), o[1].get(), o[2].get()); });
      CHECK(b.get_overflow_count() == over, "%zu overflows counted, there were %zu", b.get_overflow_count(), over); }
    for (size_t i = 0; i < n; ++i) as_sent(*o[i], sent, i); uhd_closed("after the block is gone"); s.nontrivial(calls > 1); s.label(sc.dead, "device failed"); s.label(n > 1, "several channels"); s.label(over > 0, "overflow");
}
PROPERTY(uhd_source, 900, 20000, "samples came out over at least two transfers on one to three channels, with timeouts, overflows, pieces and failures at generated transfers") { s.flip() ? uhd_stream<cf>(s, "fc32") : uhd_stream<cs>(s, "sc16"); }
PROPERTY(uhd_setup, 300, 4000, "the block was refused or a configuration failed") {
    Quiet q; ::usrp = Uhd{}; ::usrp.no_dev = s.chance(1, 5); ::usrp.no_stream = s.chance(1, 5); ::usrp.throws = s.chance(1, 5); ::usrp.chans = s.range(1, 4); size_t n = s.range(1, 5); double f = s.real(70e6, 6e9), r = s.real(1e5, 5e7), g = s.real(0, 76); bool made = false, failed = false, ok = !::usrp.no_dev && !::usrp.no_stream && !::usrp.throws && n <= ::usrp.chans;
    s.note("%zu of %zu channels%s%s%s", n, ::usrp.chans, ::usrp.no_dev ? ", no device" : "", ::usrp.no_stream ? ", no stream" : "", ::usrp.throws ? ", settings throw" : "");
    try { SourceUHDBlock<cf> b("src", f, r, "", g, n); made = true; for (size_t c = 0; c < n; ++c) { auto k = std::to_string(c); CHECK(::usrp.set["freq" + k] == f && ::usrp.set["rate" + k] == r && ::usrp.set["gain" + k] == g, "channel %zu is not set as asked", c); }
        UHDConfig c; c.center_freq_Hz = 2e9; c.sample_rate_Hz = 3e6; c.gain = 5; c.bandwidth_Hz = s.flip() ? 4e6 : 0; size_t ch = s.below(n); ::usrp.throws = s.flip(); failed = ::usrp.throws; CHECK(b.configure(c, ch) == !failed, "configure() reports the wrong outcome"); auto k = std::to_string(ch); if (!failed && c.bandwidth_Hz == 0) CHECK(!::usrp.set.count("bw" + k), "the bandwidth is set though none is given"); if (!failed) CHECK(::usrp.set["freq" + k] == 2e9 && ::usrp.set["rate" + k] == 3e6 && ::usrp.set["gain" + k] == 5 && ::usrp.set["bw" + k] == c.bandwidth_Hz, "a configuration did not reach the device");
        Out<cf> o(100); bool got = false; ::usrp.throws = false; ::usrp.recv = [&](const uhd::rx_streamer::buffs_type&, size_t, uhd::rx_metadata_t&, double) -> size_t { got = true; return 0; }; if (n == 1) { (void)b.procedure(&o); CHECK(got, "no samples are taken after a configuration"); } } catch (const std::runtime_error&) {}
    CHECK(made == ok, "the block was %s", made ? "made" : "refused"); uhd_closed(made ? "after the block is gone" : "after the constructor threw"); s.nontrivial(!made || failed);
}

// ---------- CaribouLite
static struct Cari : Log { bool board = true, radio = true, rx = false; size_t mtu = 1000; std::map<std::string, double> set; std::function<int(void*, size_t, bool)> read; } cari;
struct CariRadio : CaribouLiteRadio {
    std::vector<CaribouLiteFreqRange> GetFrequencyRange() override { return {{389.5e6, 510e6}, {779e6, 1020e6}}; } float GetRxSampleRateMin() override { return 4e5f; } float GetRxSampleRateMax() override { return 4e6f; } size_t GetNativeMtuSample() override { return cari.mtu; }
    void SetFrequency(float f) override { cari.set["freq"] = f; } void SetRxSampleRate(float f) override { cari.set["rate"] = f; } void SetAgc(bool a) override { cari.set["agc"] = a; } void SetRxGain(float g) override { if (cari.set["agc"]) cari.misuse("a gain set under automatic gain"); cari.set["gain"] = g; }
    void StartReceiving() override { if (cari.rx) cari.misuse("reception started twice"); cari.rx = true; } void StopReceiving() override { cari.rx = false; }
    int ReadSamples(std::complex<float>* p, size_t n) override { return cari.read(p, n, true); } int ReadSamples(std::complex<short>* p, size_t n) override { return cari.read(p, n, false); }
};
static CaribouLite cari_inst; static CariRadio cari_radio; CaribouLite& CaribouLite::GetInstance(bool) { return cari_inst; } bool CaribouLite::DetectBoard(SysVersion* v, std::string&, std::string&) { *v = eFull; return cari.board; } CaribouLiteRadio* CaribouLite::GetRadioChannel(CaribouLiteRadio::RadioType) { return cari.radio ? &cari_radio : nullptr; }
template <class T> static void cari_stream(pbt::Src& s, bool flt) {
    Quiet q; cari = Cari{}; cari.mtu = s.size(1, 3000); Script sc(s); size_t sent = 0; std::array<std::unique_ptr<Out<T>>, 1> o{std::make_unique<Out<T>>(s.size(1, 5000))}; s.note("CaribouLite %s, MTU %zu, out capacity %zu; ", flt ? "float" : "short", cari.mtu, o[0]->cap);
    cari.read = [&](void* p, size_t n, bool f) -> int { CHECK(f == flt && cari.rx, "read as the wrong type or while not receiving"); CHECK(n > 0 && n <= o[0]->window && n <= cari.mtu, "asked the device for %zu samples, window %zu, MTU %zu", n, o[0]->window, cari.mtu); size_t k = 0; switch (sc.next()) { case ALL: k = n; break; case PART: k = sc.part(n); break; case DIE: return -1; default: return 0; } for (size_t i = 0; i < k; ++i) ((T*)p)[i] = value<T>(sent + i, 0); sent += k; return (int)k; };
    size_t calls; { SourceCaribouliteBlock<T> b("src", CaribouLiteRadio::RadioType::S1G, 900e6f, 4e6f, false, 20); CHECK(cari.rx, "reception was not started"); calls = drive<T, 1>(s, o, 1, sc, [&] { return b.procedure(o[0].get()); }, false); }
    CHECK(!cari.rx && cari.bad.empty(), "reception goes on after the block is gone%s", cari.bad.c_str()); as_sent(*o[0], sent, 0); s.nontrivial(calls > 1); s.label(sc.dead, "device failed");
}
PROPERTY(cariboulite, 600, 12000, "samples came out over at least two transfers") { s.flip() ? cari_stream<cf>(s, true) : cari_stream<cs>(s, false); }
PROPERTY(cariboulite_setup, 300, 3000, "the block was refused") {
    Quiet q; cari = Cari{}; cari.board = !s.chance(1, 6); cari.radio = !s.chance(1, 6); bool agc = s.flip(), made = false; float f = (float)s.pick({400e6, 500e6, 800e6, 1000e6, 389e6, 600e6, 1021e6, 0.0}), r = (float)s.pick({4e6, 4e5, 1e6, 3.9e5, 4.1e6, 0.0}), g = (float)s.real(0, 60);
    bool ok = cari.board && cari.radio && ((f > 389.5e6f && f < 510e6f) || (f > 779e6f && f < 1020e6f)) && r >= 4e5f && r <= 4e6f; s.note("frequency %g, rate %g%s%s", f, r, cari.board ? "" : ", no board", cari.radio ? "" : ", no radio");
    try { SourceCaribouliteBlock<cf> b("src", CaribouLiteRadio::RadioType::HiF, f, r, agc, g); made = true; auto& v = cari.set; CHECK(v["freq"] == f && v["rate"] == r && v["agc"] == agc && (agc || v["gain"] == g) && cari.rx, "the radio is not set as asked"); } catch (const std::exception&) {}
    CHECK(made == ok, "the block was %s", made ? "made" : "refused"); CHECK(!cari.rx && cari.bad.empty(), "reception goes on%s", cari.bad.c_str()); s.nontrivial(!made);
}

PROPERTY(attempts_leave_nothing, 300, 4000, "the constructor threw, or the block was made and destroyed, three times without memory or mappings left") {
    Quiet q; size_t buf = s.pick({0, 0, 512, 511, 3000}); bool thrown = false;
    switch (s.below(3)) {
    case 0: { ::usrp = Uhd{}; size_t n = s.below(5); ::usrp.no_dev = s.chance(1, 5); ::usrp.no_stream = s.chance(1, 5); ::usrp.chans = s.range(1, 4); ::usrp.throws = s.flip(); s.note("UHD, %zu of %zu channels", n, ::usrp.chans); leaves_nothing([&] { thrown = true; SourceUHDBlock<cf> b("src", 900e6, 1e6, "addr", 20, n); thrown = false; }); break; }
    case 1: { hrf = HackRF{}; static const char* steps[] = {"init", "open", "freq", "rate", "lna", "vga", "amp", "start"}; const char* bad = s.flip() ? steps[s.below(8)] : ""; if (*bad) hrf.fail[bad] = 1; s.note("HackRF, failing: %s, buffer %zu", bad, buf); leaves_nothing([&] { thrown = true; SourceHackRFBlock b("src", 100000000, 8000000, 24, 30, true, buf); thrown = false; }); break; }
    default: { soapy = Soapy{}; soapy.dir = SOAPY_SDR_RX; soapy.channels = {0}; static const char* steps[] = {"setSampleRate", "setFrequency", "setGain", "setupStream", "activateStream", "getStreamMTU"}; const char* bad = s.flip() ? steps[s.below(6)] : ""; if (*bad) soapy.fail[bad] = 1; s.note("SoapySDR, failing: %s", bad); leaves_nothing([&] { thrown = true; SourceSoapySDRBlock<cf> b("src", "driver=fake", 450e6, 1.5e6, 20, 0); thrown = false; }); }
    }
    s.nontrivial(true); s.label(thrown, "refused");
}
