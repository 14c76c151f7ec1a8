// Radio sinks over stand-in devices
#include "radio.hpp"
#include "desktop_blocks/sinks/sink_soapysdr.hpp"
#include "desktop_blocks/sinks/sink_hackrf.hpp"
#include "desktop_blocks/sinks/sink_uhd.hpp"
using namespace radio;

// feed and call until everything went out (but for `rest` samples a sink may wait with) or the device failed
static size_t drive(pbt::Src& s, std::vector<InB*> ins, Script& sc, size_t rest, std::function<Res()> call) {
    size_t moves = 0; bool ended = false; unsigned idle = 0;
    auto one = [&] {
        if (ended) return; size_t c0 = ins[0]->consumed(), tried = sc.n; bool ready = true; for (auto i : ins) ready &= i->level() > rest; auto x = call(); bool moved = ins[0]->consumed() > c0; moves += moved;
        for (auto i : ins) CHECK(i->consumed() == ins[0]->consumed(), "%zu samples taken from one channel, %zu from another", ins[0]->consumed(), i->consumed());
        if (sc.dead) { CHECK(x.is_err() && cler::is_fatal(x.unwrap_err()), "the device failed and the sink reports no error"); ended = true; return; }
        if (x.is_err()) CHECK(!cler::is_fatal(x.unwrap_err()), "the sink stopped with '%s' although the device did not fail", cler::to_str(x.unwrap_err()));
        idle = moved || !ready ? 0 : idle + 1; CHECK(idle <= 4, "samples wait, the device takes samples, and none go out (transfers tried: %zu)", sc.n - tried);
    };
    while (s.more(15)) { if (s.flip()) { size_t k = s.below(ins.size()), n = s.size(1, 5000); ins[k]->feed(n, (unsigned)s.below(2)); s.note(" feed%zu+%zu", k, n); } else { s.note(" call"); one(); } }
    size_t piece = s.flip() ? s.size(1, 3000) : SIZE_MAX; size_t spin = 0;
    for (size_t i = 0; !ended; ++i) { bool more = false; for (auto k : ins) { k->feed(i < 60 ? piece : SIZE_MAX, 0); more |= k->left() || k->level() > rest; } if (!more) break; one(); CHECK(++spin < 200000, "the samples never go out"); }
    return moves;
}
template <class T> static std::vector<T> numbers(size_t n, size_t ch) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = value<T>(i, ch); return v; }
template <class T> static void as_fed(const std::vector<T>& got, size_t taken, size_t ch) {
    CHECK(got.size() == taken, "channel %zu: %zu samples were taken, the device accepted %zu", ch, taken, got.size());
    for (size_t i = 0; i < got.size(); ++i) CHECK(same(got[i], value<T>(i, ch)), "channel %zu: the device got another sample than number %zu at %zu", ch, i, i);
}

template <class T> static void soapy_stream(pbt::Src& s, const char* fmt) {
    Quiet q; soapy = Soapy{}; soapy.dir = SOAPY_SDR_TX; soapy.channels = {s.below(3)}; soapy.mtu = s.size(1, 3000); Script sc(s); std::vector<T> got; size_t c = soapy.channels[0], buf = s.flip() ? 0 : 4096 / sizeof(T) + s.size(0, 5000), before = 0;
    s.note("SoapySDR %s, MTU %zu, buffer %zu; ", fmt, soapy.mtu, buf); size_t taken, moves;
    soapy.write = [&](const void* const* b, size_t n, long t) -> int {
        CHECK(n > 0 && n <= soapy.mtu, "gave the device %zu samples, MTU %zu", n, soapy.mtu); CHECK(t >= 0 && t <= 1000000, "a wait of %ld us for the device", t); CHECK(++before < 20000, "one call goes on for ever");
        size_t k = 0; switch (sc.next()) { case ALL: k = n; break; case PART: k = sc.part(n); break; case TIMEOUT: return SOAPY_SDR_TIMEOUT; case ZERO: return 0; case OVERFLOW_: return SOAPY_SDR_UNDERFLOW; case DIE: return SOAPY_SDR_STREAM_ERROR; }
        got.insert(got.end(), (const T*)b[0], (const T*)b[0] + k); return (int)k;
    };
    { SinkSoapySDRBlock<T> b("sink", "driver=fake", 450e6, 1.5e6, 20, c, buf); CHECK(soapy.format == fmt, "format %s asked of the device, the block's samples are %s", soapy.format.c_str(), fmt); CHECK(soapy.active, "the stream was not started"); In<T> in(&b.in, numbers<T>(s.size(1, 9000), c)); moves = drive(s, {&in}, sc, 0, [&] { before = 0; return b.procedure(); }); taken = in.consumed(); }
    as_fed(got, taken, c); soapy_closed("after the block is gone"); s.nontrivial(moves > 1); s.label(sc.dead, "device failed");
}
PROPERTY(soapysdr, 900, 20000, "samples went out over at least two calls, with timeouts, underflows, pieces and failures at generated transfers") {
    switch (s.below(3)) { case 0: soapy_stream<cf>(s, SOAPY_SDR_CF32); break; case 1: soapy_stream<cs>(s, SOAPY_SDR_CS16); break; default: soapy_stream<uint8_t>(s, SOAPY_SDR_U8); }
}
PROPERTY(soapysdr_control, 900, 15000, "a history of more than three settings, some refused by the device") {
    Quiet q; soapy = Soapy{}; soapy.dir = SOAPY_SDR_TX; soapy.channels = {s.below(3)}; soapy.gain_mode = s.flip(); soapy.corrections = s.flip(); if (s.flip()) soapy.bands.clear();
    { SinkSoapySDRBlock<cf> b("sink", "driver=fake", 450e6, 1.5e6, 20, soapy.channels[0], 0); soapy_control<true>(s, b); } soapy_closed("after the block is gone");
}
PROPERTY(soapysdr_setup, 900, 15000, "the block was refused: a value out of the device's ranges or a step that fails") {
    Quiet q; soapy = Soapy{}; soapy.dir = SOAPY_SDR_TX; soapy.channels = {s.below(3)}; soapy.gain_mode = s.flip(); if (s.flip()) soapy.bands.clear(); size_t buf = s.pick({0, 0, 0, 511, 1, 512, 3000});
    double rate = s.pick({0, 1, 2}) ? s.pick({1e6, 2e6, 5e6, 8e6, 6.5e6, 1.2e6}) : s.pick({0.99e6, 2.01e6, 4.9e6, 8.1e6, 0.0, -1e6}), freq = s.pick({0, 1, 2}) ? s.pick({100e6, 200e6, 400e6, 6e9, 868e6}) : s.pick({99e6, 201e6, 399e6, 6.1e9, 0.0}), gain = s.pick({0, 1, 2}) ? s.pick({0.0, 60.0, 13.5}) : s.pick({-0.5, 60.5, 1000.0});
    static const char* steps[] = {"make", "getSampleRateRange", "setSampleRate", "getFrequencyRange", "setFrequency", "getGainRange", "hasGainMode", "setGainMode", "setGain", "getBandwidthRange", "setBandwidth", "setupStream", "getStreamMTU", "activateStream", "listAntennas"};
    const char* bad = s.chance(2, 5) ? steps[s.below(15)] : ""; if (*bad) soapy.fail[bad] = 1 + (int)s.below(2); bool refuse = *bad && !(soapy.fail[bad] == 2 && strcmp(bad, "setupStream") && strcmp(bad, "activateStream") && strcmp(bad, "make") && strcmp(bad, "getStreamMTU")), reached = true;
    if (!strcmp(bad, "setGainMode") && !soapy.gain_mode) reached = false; if (!strcmp(bad, "setBandwidth") && soapy.bands.empty()) reached = false;
    auto in = [](const SoapySDR::RangeList& l, double v) { for (auto& r : l) if (v >= r.minimum() && v <= r.maximum()) return true; return false; };
    bool ok = in(soapy.rates, rate) && in(soapy.freqs, freq) && gain >= 0 && gain <= 60 && (!buf || buf >= 512) && !(refuse && reached), made = false; s.note("rate %g, frequency %g, gain %g, buffer %zu%s%s", rate, freq, gain, buf, *bad ? ", failing: " : "", bad); soapy.write = [](const void* const*, size_t, long) { return 0; };
    try {
        SinkSoapySDRBlock<cf> b("sink", "driver=fake", freq, rate, gain, soapy.channels[0], buf); made = true; auto& v = soapy.set;
        CHECK(v["rate"] == rate && v["freq"] == freq && v["gain"] == gain && soapy.active, "the device was set to rate %g, frequency %g, gain %g%s", v["rate"], v["freq"], v["gain"], soapy.active ? "" : ", not started"); CHECK(!soapy.gain_mode || (v.count("agc") && !v["agc"]), "automatic gain stays on although a gain was asked for"); CHECK(soapy.bands.empty() || v["bw"] == rate, "bandwidth %g at rate %g", v["bw"], rate);
        soapy.fail.clear(); if (s.flip()) { b.set_frequency(123e6); b.set_gain(7); b.set_sample_rate(1.1e6); b.set_antenna("RX2"); CHECK(v["freq"] == 123e6 && b.get_frequency() == 123e6 && v["gain"] == 7 && b.get_gain() == 7 && v["rate"] == 1.1e6 && b.get_sample_rate() == 1.1e6 && v["antenna"] == 2 && (soapy.bands.empty() || v["bw"] == 1.1e6), "a setting did not reach the device or is not read back"); }
    } catch (const std::exception&) {}
    CHECK(made == ok, "the block was %s", made ? "made" : "refused"); soapy_closed(made ? "after the block is gone" : "after the constructor threw"); s.nontrivial(!made);
}

// ---------- HackRF
static struct HackRF : Log { int inits = 0, open = 0; bool tx = false; std::map<std::string, int> fail; std::map<std::string, double> set; hackrf_sample_block_cb_fn cb = nullptr; void* ctx = nullptr; } hrf;
extern "C" {
static int h(const char* n) { return hrf.fail[n] ? HACKRF_ERROR_LIBUSB : HACKRF_SUCCESS; }
static int hset(const char* n, hackrf_device* d, double v) { if (d != (hackrf_device*)&hrf || !hrf.open) hrf.misuse(std::string(n) + " without a device"); if (h(n)) return HACKRF_ERROR_LIBUSB; hrf.set[n] = v; return HACKRF_SUCCESS; }
int hackrf_init(void) { if (h("init")) return HACKRF_ERROR_LIBUSB; ++hrf.inits; return HACKRF_SUCCESS; }
int hackrf_exit(void) { if (hrf.inits <= 0) hrf.misuse("hackrf_exit without hackrf_init"); if (hrf.open) hrf.misuse("hackrf_exit with a device open"); --hrf.inits; return HACKRF_SUCCESS; }
int hackrf_open(hackrf_device** d) { if (!hrf.inits) hrf.misuse("hackrf_open before hackrf_init"); if (h("open")) return HACKRF_ERROR_NOT_FOUND; ++hrf.open; *d = (hackrf_device*)&hrf; return HACKRF_SUCCESS; }
int hackrf_close(hackrf_device* d) { if (d != (hackrf_device*)&hrf || !hrf.open) { hrf.misuse("hackrf_close without a device"); return HACKRF_ERROR_OTHER; } hrf.tx = false; --hrf.open; return HACKRF_SUCCESS; }
int hackrf_set_freq(hackrf_device* d, const uint64_t v) { return hset("freq", d, (double)v); } int hackrf_set_sample_rate(hackrf_device* d, const double v) { return hset("rate", d, v); }
int hackrf_set_txvga_gain(hackrf_device* d, uint32_t v) { return hset("txvga", d, v); } int hackrf_set_amp_enable(hackrf_device* d, const uint8_t v) { return hset("amp", d, v); }
int hackrf_start_tx(hackrf_device* d, hackrf_sample_block_cb_fn f, void* c) { if (d != (hackrf_device*)&hrf || !hrf.open) hrf.misuse("hackrf_start_tx without a device"); if (h("start")) return HACKRF_ERROR_LIBUSB; hrf.cb = f; hrf.ctx = c; hrf.tx = true; return HACKRF_SUCCESS; }
int hackrf_stop_tx(hackrf_device*) { if (!hrf.tx) hrf.misuse("hackrf_stop_tx while not transmitting"); hrf.tx = false; return HACKRF_SUCCESS; }
}
static void hrf_closed(const char* when) { CHECK(hrf.bad.empty(), "libhackrf misused: %s", hrf.bad.c_str()); CHECK(!hrf.open && !hrf.inits, "%s, %d device(s) and %d initialization(s) stay open", when, hrf.open, hrf.inits); }
PROPERTY(hackrf, 1200, 25000, "samples went out in at least two transfers") {
    Quiet q; hrf = HackRF{}; size_t buf = s.flip() ? 0 : 512 + s.size(0, 4000), moves = 0, starved = 0, at = 0; pbt::Bulk r(s.subseed()); std::vector<cf> x(s.size(1, 9000)); auto f = [&] { switch (r.below(8)) { case 0: return 1.0f; case 1: return -1.0f; case 2: return (float)r.real(-4, 4); case 3: return r.below(2) ? INFINITY : -INFINITY; case 4: return (float)((long)r.below(255) - 127) / 127; default: return (float)r.real(-1, 1); } }; for (auto& v : x) { float a = f(), b = f(); v = {a, b}; }
    s.note("%zu samples, buffer %zu; ", x.size(), buf);
    { SinkHackRFBlock b("sink", 100000000, 8000000, 24, s.flip(), buf); CHECK(hrf.tx, "transmission was not started"); In<cf> in(&b.in, x);
      auto transfer = [&](size_t n) {
          size_t lv = b.in.size(), u0 = b.get_underrun_count(), want = std::min(n, lv); std::vector<uint8_t> m(2 * n, 0x55); hackrf_transfer t{(hackrf_device*)&hrf, m.data(), (int)m.size(), (int)m.size(), nullptr, hrf.ctx}; CHECK(hrf.cb(&t) == 0, "the callback stopped the transmission"); CHECK(t.valid_length >= (int)(2 * want), "only %d bytes of the transfer are marked valid", t.valid_length);
          CHECK(lv - b.in.size() == want, "%zu samples taken for a transfer of %zu with %zu waiting", lv - b.in.size(), n, lv); moves += want > 0; starved += want < n; CHECK(b.get_underrun_count() - u0 == (want < n), "%zu underruns counted in a transfer of %zu with %zu waiting", b.get_underrun_count() - u0, n, lv);
          for (size_t i = 0; i < n; ++i) for (int c = 0; c < 2; ++c) { int8_t g = (int8_t)m[2 * i + c]; if (i >= want) { CHECK(g == 0, "starved, the transfer holds %d at %zu", g, i); continue; } double v = c ? x[at + i].imag() : x[at + i].real(); v = std::max(-1.0, std::min(1.0, v)); CHECK(std::abs(g - v * 127.5) <= 1.51 && !(v >= 0.02 && g <= 0) && !(v <= -0.02 && g >= 0), "component %d of sample %zu is %.6g, transmitted as %d", c, at + i, v, g); }
          at += want;
      };
      while (s.more(15)) switch (s.below(3)) { case 0: { size_t n = in.feed(s.size(1, 5000), (unsigned)s.below(2)); s.note(" feed%zu", n); break; } case 1: { size_t n = s.size(1, 4000); s.note(" transfer%zu", n); transfer(n); break; } default: { size_t l = b.in.size(); auto z = b.procedure(); CHECK(!z.is_err() || !cler::is_fatal(z.unwrap_err()), "the sink stopped"); CHECK(b.in.size() == l, "samples taken outside of a transfer"); s.note(" call"); } }
      size_t n = 1 + s.size(0, 3000); for (size_t i = 0; in.left() || b.in.size(); ++i) { in.feed(i < 60 ? n : SIZE_MAX, 0); transfer(i < 60 ? n : 4000); }
      CHECK(b.get_underrun_count() == starved, "%zu underruns counted of %zu", b.get_underrun_count(), starved); if (starved && s.flip()) { b.reset_underrun_count(); CHECK(!b.get_underrun_count(), "underruns not reset"); } }
    CHECK(at == x.size(), "harness"); hrf_closed("after the block is gone"); s.nontrivial(moves > 1); s.label(starved > 0, "starved");
}
PROPERTY(hackrf_full_transfers, 60, 800, "at least two transfers of the size libhackrf uses were filled") {
    Quiet q; hrf = HackRF{}; size_t buf = 512 + s.size(0, 300000), n = 131072, k = s.range(1, 3), at = 0; pbt::Bulk r(s.subseed()); s.note("%zu transfers of %zu samples, buffer %zu; ", k, n, buf);
    { SinkHackRFBlock b("sink", 100000000, 8000000, 24, false, buf); std::vector<uint8_t> m(2 * n); size_t starved = 0;
      for (size_t t = 0; t < k; ++t) {
          std::vector<cf> x(std::min<size_t>(b.in.space(), s.size(0, 300000))); for (size_t i = 0; i < x.size(); ++i) { uint64_t v = at + i; x[i] = {(float)((int)(v % 251) - 125) / 125, (float)((int)(v / 251 % 241) - 120) / 120}; } if (!x.empty()) CHECK(b.in.writeN(x.data(), x.size()) == x.size(), "harness"); at += x.size(); static size_t first; if (!t) first = 0; size_t want = std::min(n, b.in.size());
          memset(m.data(), 0x55, m.size()); hackrf_transfer h{(hackrf_device*)&hrf, m.data(), (int)m.size(), (int)m.size(), nullptr, hrf.ctx}; size_t lv = b.in.size(); CHECK(hrf.cb(&h) == 0, "the callback stopped the transmission"); CHECK(lv - b.in.size() == want, "%zu samples taken for a transfer of %zu with %zu waiting", lv - b.in.size(), n, lv); starved += want < n;
          for (size_t i = 0; i < n; ++i) for (int c = 0; c < 2; ++c) { int g = (int8_t)m[2 * i + (size_t)c]; if (i >= want) { CHECK(g == 0, "starved, the transfer holds %d at %zu", g, i); continue; } uint64_t v = first + i; double w = c ? (double)((int)(v / 251 % 241) - 120) / 120 : (double)((int)(v % 251) - 125) / 125; CHECK(std::abs(g - w * 127.5) <= 1.51, "component %d of sample %llu is %.6g, transmitted as %d", c, (unsigned long long)v, w, g); } first += want;
      }
      CHECK(b.get_underrun_count() == starved, "%zu underruns counted of %zu", b.get_underrun_count(), starved); }
    hrf_closed("after the block is gone"); s.nontrivial(k > 1);
}
PROPERTY(hackrf_setup, 400, 6000, "the block was refused: a step that fails or a buffer too small") {
    Quiet q; hrf = HackRF{}; static const char* steps[] = {"init", "open", "freq", "rate", "txvga", "amp", "start"}; const char* bad = s.flip() ? steps[s.below(7)] : ""; if (*bad) hrf.fail[bad] = 1; size_t buf = s.pick({0, 0, 1, 511, 512, 900}); bool amp = s.flip(), made = false; uint64_t f = s.range(1000000, 6000000000), rate = s.range(2000000, 20000000); int g = (int)s.below(48);
    s.note("failing: %s, buffer %zu", bad, buf);
    try { SinkHackRFBlock b("sink", f, (uint32_t)rate, g, amp, buf); made = true; auto& v = hrf.set; CHECK(v["freq"] == (double)f && v["rate"] == (double)rate && v["txvga"] == g && v["amp"] == amp && hrf.tx, "the device is not set as asked"); } catch (const std::exception&) {}
    CHECK(made == (!*bad && (!buf || buf >= 512)), "the block was %s", made ? "made" : "refused"); hrf_closed(made ? "after the block is gone" : "after the constructor threw"); s.nontrivial(!made);
}

// ---------- UHD
static struct Uhd : Log { size_t chans = 4; int devs = 0, streams = 0; bool no_dev = false, no_stream = false, throws = false; size_t throw_ch = SIZE_MAX; std::map<std::string, double> set; std::string cpu, otw; std::vector<size_t> ch; std::function<size_t(const uhd::tx_streamer::buffs_type&, size_t, const uhd::tx_metadata_t&, double)> send; std::vector<uhd::async_metadata_t> async; } usrp;
struct TxS : uhd::tx_streamer {
    TxS() { ++usrp.streams; } ~TxS() override { --usrp.streams; }
    size_t get_num_channels() const override { return usrp.ch.size(); } size_t get_max_num_samps() const override { return 364; }
    size_t send(const buffs_type& b, const size_t n, const uhd::tx_metadata_t& md, const double t) override { return usrp.send(b, n, md, t); }
    bool recv_async_msg(uhd::async_metadata_t& md, double t) override { if (t > 1) usrp.misuse("a long wait for messages"); if (usrp.async.empty()) return false; md = usrp.async.front(); usrp.async.erase(usrp.async.begin()); return true; }
};
struct Usrp : uhd::usrp::multi_usrp {
    Usrp() { ++usrp.devs; } ~Usrp() override { --usrp.devs; }
    size_t get_rx_num_channels() override { return usrp.chans; } size_t get_tx_num_channels() override { return usrp.chans; } std::string get_mboard_name(size_t) override { return "fake"; } std::string get_pp_string() override { return "fake"; }
    void put(const char* n, double v, size_t c) { if (c >= usrp.ch.size()) usrp.misuse(std::string(n) + " on channel " + std::to_string(c)); if (usrp.throws || c == usrp.throw_ch) throw std::runtime_error("stand-in"); usrp.set[std::string(n) + std::to_string(c)] = v; }
    void set_tx_rate(double v, size_t c) override { put("rate", v, c); } double get_tx_rate(size_t c) override { return usrp.set["rate" + std::to_string(c)]; } uhd::tune_result_t set_tx_freq(const uhd::tune_request_t& f, size_t c) override { put("freq", f.target_freq, c); return {}; } uhd::freq_range_t get_tx_freq_range(size_t) override { return {70e6, 6e9}; }
    void set_tx_gain(double v, size_t c) override { put("gain", v, c); } uhd::gain_range_t get_tx_gain_range(size_t) override { return {0, 90}; } void set_tx_bandwidth(double v, size_t c) override { put("bw", v, c); }
    void no() { usrp.misuse("a transmitter set the receiver"); } void set_rx_rate(double, size_t) override { no(); } double get_rx_rate(size_t) override { no(); return 0; } uhd::tune_result_t set_rx_freq(const uhd::tune_request_t&, size_t) override { no(); return {}; } uhd::freq_range_t get_rx_freq_range(size_t) override { no(); return {0, 0}; } void set_rx_gain(double, size_t) override { no(); } uhd::gain_range_t get_rx_gain_range(size_t) override { no(); return {0, 0}; } void set_rx_bandwidth(double, size_t) override { no(); }
    uhd::tx_streamer::sptr get_tx_stream(const uhd::stream_args_t& a) override { usrp.cpu = a.cpu_format; usrp.otw = a.otw_format; usrp.ch = a.channels; if (a.channels.size() > usrp.chans) throw std::runtime_error("stand-in: no such channel"); return usrp.no_stream ? nullptr : std::make_shared<TxS>(); } uhd::rx_streamer::sptr get_rx_stream(const uhd::stream_args_t&) override { no(); return nullptr; }
    uhd::time_spec_t get_time_last_pps(size_t) override { return {}; } void set_time_next_pps(const uhd::time_spec_t&, size_t) override {}
};
uhd::usrp::multi_usrp::sptr uhd::usrp::multi_usrp::make(const std::string&) { if (::usrp.no_dev) return nullptr; return std::make_shared<Usrp>(); }
static void uhd_closed(const char* when) { CHECK(usrp.bad.empty(), "UHD misused: %s", usrp.bad.c_str()); CHECK(!usrp.devs && !usrp.streams, "%s, %d stream(s) and %d device(s) stay open", when, usrp.streams, usrp.devs); }
template <class T> static void uhd_stream(pbt::Src& s, const char* fmt) {
    Quiet q; ::usrp = Uhd{}; size_t n = s.weighted({3, 2, 1}) + 1, under = 0, before = 0, buf = s.flip() ? 0 : 4096 / sizeof(T) + s.size(0, 5000), rest = 4096 / sizeof(T) / 4, moves, taken; Script sc(s); sc.die_at = SIZE_MAX; std::vector<std::vector<T>> got(n); size_t total = s.size(1, 9000); pbt::Bulk ar(s.subseed()); bool cfg = s.chance(1, 3); UHDConfig c0; c0.gain = 12;
    s.note("UHD %s, %zu channels of %zu samples, buffer %zu; ", fmt, n, total, buf);
    ::usrp.send = [&](const uhd::tx_streamer::buffs_type& b, size_t k, const uhd::tx_metadata_t& md, double t) -> size_t {
        CHECK(b.size() == n, "a stream of %zu channels was given %zu buffers", n, b.size()); CHECK(!md.has_time_spec && !md.end_of_burst, "samples sent with a time or as the end of a burst"); CHECK(t >= 0 && t <= 1, "a wait of %g s for the device", t); CHECK(++before < 20000, "one call goes on for ever");
        size_t m = 0; switch (sc.next()) { case ALL: m = k; break; case PART: m = sc.part(k); break; default: return 0; }
        for (size_t c = 0; c < n; ++c) got[c].insert(got[c].end(), (const T*)b[c], (const T*)b[c] + m);
        for (size_t e = ar.below(4); e--;) { uhd::async_metadata_t a; static const uhd::async_metadata_t::event_code_t ev[] = {uhd::async_metadata_t::EVENT_CODE_UNDERFLOW, uhd::async_metadata_t::EVENT_CODE_UNDERFLOW_IN_PACKET, uhd::async_metadata_t::EVENT_CODE_BURST_ACK, uhd::async_metadata_t::EVENT_CODE_SEQ_ERROR, uhd::async_metadata_t::EVENT_CODE_TIME_ERROR}; size_t w = ar.below(5); a.event_code = ev[w]; under += w < 2; ::usrp.async.push_back(a); }
        return m;
    };
    { SinkUHDBlock<T> b("sink", "addr", n, buf, "sc16", cfg ? &c0 : nullptr); CHECK(::usrp.cpu == fmt && ::usrp.otw == "sc16", "stream of %s over %s", ::usrp.cpu.c_str(), ::usrp.otw.c_str()); CHECK(::usrp.ch.size() == n, "a stream of %zu channels for %zu", ::usrp.ch.size(), n); for (size_t i = 0; i < n; ++i) CHECK(::usrp.ch[i] == i, "input %zu is channel %zu", i, ::usrp.ch[i]);
      std::vector<std::unique_ptr<In<T>>> in; std::vector<InB*> ins; for (size_t i = 0; i < n; ++i) { in.push_back(std::make_unique<In<T>>(&b.in[i], numbers<T>(total, i))); ins.push_back(in.back().get()); }
      moves = drive(s, ins, sc, rest, [&]() -> Res { before = 0; if (cfg && !s.below(4)) { UHDConfig c; c.gain = 11; size_t k = s.below(n); CHECK(b.configure(c, k) && ::usrp.set["gain" + std::to_string(k)] == 11, "a configuration did not reach the device"); } return b.procedure(); });
      taken = ins[0]->consumed(); for (int i = 0; i < 3 && !::usrp.async.empty(); ++i) { AsyncTxEvent e; size_t u = 0; while (b.poll_async_event(e)) u += e.event_code == uhd::async_metadata_t::EVENT_CODE_UNDERFLOW || e.event_code == uhd::async_metadata_t::EVENT_CODE_UNDERFLOW_IN_PACKET; under -= u; }
      CHECK(b.get_underflow_count() == under, "%zu underflows counted, the device told of %zu", b.get_underflow_count(), under); }
    for (size_t i = 0; i < n; ++i) as_fed(got[i], taken, i); uhd_closed("after the block is gone"); s.nontrivial(moves > 1); s.label(n > 1, "several channels"); s.label(under > 0, "underflow");
}
PROPERTY(uhd_sink, 900, 20000, "samples went out over at least two transfers on one to three channels, with timeouts, pieces and underflow messages at generated transfers") { s.flip() ? uhd_stream<cf>(s, "fc32") : uhd_stream<cs>(s, "sc16"); }
PROPERTY(uhd_setup, 400, 5000, "the block was refused or a configuration failed") {
    Quiet q; ::usrp = Uhd{}; ::usrp.no_dev = s.chance(1, 5); ::usrp.no_stream = s.chance(1, 5); ::usrp.throws = s.chance(1, 5); ::usrp.chans = s.range(1, 4); size_t n = s.below(6), buf = s.pick({0, 0, 512, 511, 3000}); if (n > 1 && s.chance(1, 4)) ::usrp.throw_ch = s.below(n); bool given = s.flip(), made = false, failed = false; UHDConfig c0; c0.center_freq_Hz = s.real(70e6, 6e9); c0.sample_rate_Hz = s.real(1e5, 5e7); c0.gain = s.real(0, 90); c0.bandwidth_Hz = s.flip() ? 3e6 : 0;
    bool ok = n > 0 && (!buf || buf >= 512) && !::usrp.no_dev && !::usrp.no_stream && !::usrp.throws && ::usrp.throw_ch == SIZE_MAX && n <= ::usrp.chans; s.note("%zu of %zu channels, buffer %zu%s%s%s%s", n, ::usrp.chans, buf, given ? ", configured" : "", ::usrp.no_dev ? ", no device" : "", ::usrp.no_stream ? ", no stream" : "", ::usrp.throws || ::usrp.throw_ch != SIZE_MAX ? ", settings throw" : "");
    try { SinkUHDBlock<cf> b("sink", "", n, buf, "sc16", given ? &c0 : nullptr); made = true; if (!given) c0 = UHDConfig{}; for (size_t c = 0; c < n; ++c) { auto k = std::to_string(c); CHECK(::usrp.set["freq" + k] == c0.center_freq_Hz && ::usrp.set["rate" + k] == c0.sample_rate_Hz && ::usrp.set["gain" + k] == c0.gain && ::usrp.set["bw" + k] == c0.bandwidth_Hz, "channel %zu is not set as asked", c); }
        UHDConfig c; c.center_freq_Hz = 2e9; c.gain = 5; size_t ch = s.below(n); ::usrp.throws = failed = s.flip(); CHECK(b.configure(c, ch) == !failed, "configure() reports the wrong outcome"); ::usrp.throws = false; bool sent = false; ::usrp.send = [&](const uhd::tx_streamer::buffs_type&, size_t k, const uhd::tx_metadata_t&, double) -> size_t { sent = true; return k; }; std::vector<cf> z(400); for (size_t i = 0; i < n; ++i) b.in[i].writeN(z.data(), z.size()); (void)b.procedure(); CHECK(sent, "no samples are sent after a configuration"); } catch (const std::exception&) {}
    CHECK(made == ok, "the block was %s", made ? "made" : "refused"); uhd_closed(made ? "after the block is gone" : "after the constructor threw"); s.nontrivial(!made || failed);
}

PROPERTY(attempts_leave_nothing, 300, 4000, "the constructor threw, or the block was made and destroyed, three times without memory or mappings left") {
    Quiet q; size_t buf = s.pick({0, 0, 512, 511, 3000}); bool thrown = false;
    switch (s.below(3)) {
    case 0: { ::usrp = Uhd{}; size_t n = s.below(5); ::usrp.no_dev = s.chance(1, 5); ::usrp.no_stream = s.chance(1, 5); ::usrp.chans = s.range(1, 4); if (s.flip()) ::usrp.throw_ch = s.below(4); s.note("UHD, %zu of %zu channels, buffer %zu", n, ::usrp.chans, buf); leaves_nothing([&] { thrown = true; SinkUHDBlock<cf> b("sink", "", n, buf); thrown = false; }); break; }
    case 1: { hrf = HackRF{}; static const char* steps[] = {"init", "open", "freq", "rate", "txvga", "amp", "start"}; const char* bad = s.flip() ? steps[s.below(7)] : ""; if (*bad) hrf.fail[bad] = 1; s.note("HackRF, failing: %s, buffer %zu", bad, buf); leaves_nothing([&] { thrown = true; SinkHackRFBlock b("sink", 100000000, 8000000, 24, true, buf); thrown = false; }); break; }
    default: { soapy = Soapy{}; soapy.dir = SOAPY_SDR_TX; soapy.channels = {0}; static const char* steps[] = {"setSampleRate", "setFrequency", "setGain", "setupStream", "activateStream", "getStreamMTU"}; const char* bad = s.flip() ? steps[s.below(6)] : ""; if (*bad) soapy.fail[bad] = 1; s.note("SoapySDR, failing: %s, buffer %zu", bad, buf); leaves_nothing([&] { thrown = true; SinkSoapySDRBlock<cf> b("sink", "driver=fake", 450e6, 1.5e6, 20, 0, buf); thrown = false; }); }
    }
    s.nontrivial(true); s.label(thrown, "refused");
}
