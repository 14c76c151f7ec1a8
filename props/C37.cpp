// Everything taken is given back: heap, descriptors, double mappings, threads, socket files.
#include "pbt.hpp"
#include <array>
#include <complex>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <functional>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include "implot.h"
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include "cler_desktop_utils.hpp"
#include "desktop_blocks/blob.hpp"
#include "desktop_blocks/channelizers/polyphase_channelizer.hpp"
#include "desktop_blocks/filters/kaiser_lpf.hpp"
#include "desktop_blocks/fm/fm_demod.hpp"
#include "desktop_blocks/math/add.hpp"
#include "desktop_blocks/math/complex_demux.hpp"
#include "desktop_blocks/math/frequency_shift.hpp"
#include "desktop_blocks/math/gain.hpp"
#include "desktop_blocks/noise/awgn.hpp"
#include "desktop_blocks/plots/plot_timeseries.hpp"
#include "desktop_blocks/plots/plot_cspectrum.hpp"
#include "desktop_blocks/plots/plot_cspectrogram.hpp"
#include "desktop_blocks/resamplers/multistage_resampler.hpp"
#include "desktop_blocks/sinks/sink_file.hpp"
#include "desktop_blocks/sinks/sink_null.hpp"
#include "desktop_blocks/sources/source_chirp.hpp"
#include "desktop_blocks/sources/source_cw.hpp"
#include "desktop_blocks/sources/source_file.hpp"
#include "desktop_blocks/udp/sink_udp.hpp"
#include "desktop_blocks/udp/source_udp.hpp"
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/utils/throttle.hpp"
#include "desktop_blocks/utils/throughput.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_mod.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"
#include "desktop_blocks/adsb/adsb_decoder.hpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#ifdef NOMAP                        // a system that gives no mirrored memory
extern "C" int __wrap_ftruncate(int, long) { errno = EPERM; return -1; }
#endif
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using cf = std::complex<float>; using Ok = cler::Result<cler::Empty, cler::Error>;

struct Held { size_t heap = 0, fds = 0, maps = 0, threads = 0, files = 0; };
static size_t entries(const char* d) { size_t n = 0; DIR* p = opendir(d); if (!p) return 0; while (readdir(p)) ++n; closedir(p); return n; }
static size_t sockets() { size_t n = 0; DIR* p = opendir("."); if (!p) return 0; while (dirent* e = readdir(p)) { struct stat st; n += !lstat(e->d_name, &st) && S_ISSOCK(st.st_mode); } closedir(p); return n; }
static Held held() {
    Held h;
    for (int i = 0; i < 200 && (h.threads = entries("/proc/self/task")) > 3; ++i) usleep(500);     // a joined thread leaves the list a little later
    { std::ifstream f("/proc/self/maps"); std::string l; while (std::getline(f, l)) h.maps += l.find("doubly") != std::string::npos || l.find("memfd") != std::string::npos || l.find("/dev/shm") != std::string::npos || l.find("cler") != std::string::npos; }
    h.fds = entries("/proc/self/fd"); h.files = sockets(); h.heap = __sanitizer_get_current_allocated_bytes(); return h;
}
// the same life three times: the first may warm up caches
static void lives(const std::function<bool()>& once, const char* what, size_t library = 0) {
    Held h[3]; bool threw = false;     // library: what liquid itself leaks per life
    for (int i = 0; i < 3; ++i) { try { threw = once(); } catch (const std::exception&) { threw = true; } h[i] = held(); }
    const char* how = threw ? "constructor that throws" : "life";
    CHECK(h[2].heap <= h[1].heap + library, "%s: each %s leaves %zu bytes", what, how, h[2].heap - h[1].heap - library);
    CHECK(h[2].fds <= h[1].fds, "%s: each %s leaves %zu descriptors open", what, how, h[2].fds - h[1].fds);
    CHECK(h[2].maps <= h[1].maps, "%s: each %s leaves %zu mappings", what, how, h[2].maps - h[1].maps);
    CHECK(h[2].threads <= h[1].threads, "%s: each %s leaves %zu threads", what, how, h[2].threads - h[1].threads);
    CHECK(h[2].files == 0, "%s: a %s leaves its socket file behind", what, how);
}
// liquid 1.6 forgets 72 bytes for every half-band stage of a resampler
template <class C, class D> static size_t bare(C make, D destroy, float ra, float at) {
    if (ra <= 0 || at <= 0) return 0; size_t h[3]; for (size_t& x : h) { destroy(make(ra, at)); x = __sanitizer_get_current_allocated_bytes(); } return h[2] - h[1];
}
// what happens to a block between construction and destruction, the same in every life
struct Plan {
    uint64_t seed; size_t steps, most; bool drain;
    Plan(pbt::Src& s) : seed(s.subseed()), steps(s.size(0, 8)), most(s.size(0, 3000)), drain(s.flip()) { s.note("%zu steps of up to %zu; ", steps, most); }
    template <class T> static T item(pbt::Bulk& r) { if constexpr (std::is_same<T, cf>::value) return cf((float)r.real(-1, 1), (float)r.real(-1, 1)); else if constexpr (std::is_same<T, float>::value) return (float)r.real(-1, 1); else return (T)r.u64(); }
    template <class T> void feed(pbt::Bulk& r, cler::Channel<T>& c) const { size_t n = std::min(c.space(), (size_t)r.below(most + 1)); while (n--) c.push(item<T>(r)); }
    template <class O> void empty(cler::Channel<O>& c) const { if (drain) { O v; while (c.try_pop(v)) {} } }
    template <class T, class F, class... O> void run(cler::Channel<T>* in, size_t n, F call, cler::Channel<O>&... outs) const { pbt::Bulk r(seed); for (size_t i = 0; i < steps; ++i) { for (size_t k = 0; k < n; ++k) feed(r, in[k]); (void)call(); (void)sizeof...(outs); (empty(outs), ...); } }
};
static size_t buf(pbt::Src& s, size_t item) { return s.pick<size_t>({0, 0, 4096 / item, 4096 / item - 1, 1, 3 * 4096 / item, 5000}); }
#define LIFE(what, ...) lives([&]() -> bool { __VA_ARGS__ return false; }, what)

PROPERTY(math, 400, 8000, "a filter or arithmetic block of generated, possibly refused arguments is made, fed, called and destroyed with samples left, three times; non-trivial: it was called or refused") {
    Plan p(s); size_t k = s.below(11); cler::Channel<cf> oc(2000); cler::Channel<float> of(2000), of2(2000); bool refused = false; size_t library = 0;
    auto drop = [&] { cf a; while (oc.try_pop(a)) {} float b; while (of.try_pop(b)) {} while (of2.try_pop(b)) {} };
    auto go = [&](const char* what, std::function<void()> f) { lives([&] { refused = true; f(); refused = false; drop(); return false; }, what, library); drop(); };
    switch (k) {
    case 0: { size_t b = buf(s, 4), n = s.below(5); go("add", [&] { AddBlock<float> x("x", n, b); p.run(x.in, n, [&] { return x.procedure(&of); }, of); }); break; }
    case 1: { size_t b = buf(s, 8); int m = (int)s.below(3); go("complex demux", [&] { ComplexToMagPhaseBlock x("x", (ComplexToMagPhaseBlock::Mode)m, b); p.run(&x.in, 1, [&] { return x.procedure(&of, &of2); }, of, of2); }); break; }
    case 2: { size_t b = buf(s, 8); go("frequency shift", [&] { FrequencyShiftBlock x("x", 10, 1000, b); p.run(&x.in, 1, [&] { return x.procedure(&oc); }, oc); }); break; }
    case 3: { size_t b = buf(s, 8); go("gain", [&] { GainBlock<cf> x("x", cf(2, 1), b); p.run(&x.in, 1, [&] { return x.procedure(&oc); }, oc); }); break; }
    case 4: { size_t b = buf(s, 4); go("noise", [&] { NoiseAWGNBlock<float> x("x", 0.5f, b); p.run(&x.in, 1, [&] { return x.procedure(&of); }, of); }); break; }
    case 5: { size_t b = buf(s, 8); double rate = s.pick({1e6, 1e6, 0.0, -1.0}), dev = s.pick({75e3, 75e3, 0.0, 1e5}); go("FM demodulator", [&] { FMDemodBlock x("x", rate, dev, b); p.run(&x.in, 1, [&] { return x.procedure(&of); }, of); }); break; }
    case 6: { size_t b = buf(s, 8); double cut = s.pick({1e5, 2e5, 0.0, 6e5, -1.0}), tr = s.pick({5e4, 1e5, 0.0, -1.0}), at = s.pick({60.0, 30.0, 0.0, -5.0}); go("low pass", [&] { KaiserLPFBlock<cf> x("x", 1e6, cut, tr, at, b); p.run(&x.in, 1, [&] { return x.procedure(&oc); }, oc); }); break; }
    case 7: { size_t b = buf(s, 4); double cut = s.pick({1e5, 2e5, 0.0, 6e5}), tr = s.pick({5e4, 1e5, 0.0}); go("low pass", [&] { KaiserLPFBlock<float> x("x", 1e6, cut, tr, 60, b); p.run(&x.in, 1, [&] { return x.procedure(&of); }, of); }); break; }
    case 8: { size_t b = buf(s, 8); float ra = s.pick({0.5f, 2.3f, 0.01f, 7.0f, 0.0f, -1.0f}), at = s.pick({60.0f, 40.0f, -1.0f}); library = bare(msresamp_crcf_create, msresamp_crcf_destroy, ra, at); go("resampler", [&] { MultiStageResamplerBlock<cf> x("x", ra, at, b); p.run(&x.in, 1, [&] { return x.procedure(&oc); }, oc); }); break; }
    case 9: { size_t b = buf(s, 4); float ra = s.pick({0.5f, 2.3f, 0.3f, 4.0f, 0.0f}); library = bare(msresamp_rrrf_create, msresamp_rrrf_destroy, ra, 60); go("resampler", [&] { MultiStageResamplerBlock<float> x("x", ra, 60, b); p.run(&x.in, 1, [&] { return x.procedure(&of); }, of); }); break; }
    default: { size_t b = s.pick<size_t>({0, 0, 512, 513, 1024, 300}), m = 1 + s.below(5); float at = (float)(20 + s.below(60)); cler::Channel<cf> o2(2000); go("channelizer", [&] { PolyphaseChannelizerBlock x("x", 2, at, m, b); p.run(&x.in, 1, [&] { return x.procedure(&oc, &o2); }, oc, o2); cf a; while (o2.try_pop(a)) {} }); }
    }
    s.nontrivial(refused || p.steps); s.label(refused, "refused");
}
struct Take { static size_t all(cler::Channel<float>* c, void*) { float v; size_t n = 0; while (n < 100 && c->try_pop(v)) ++n; return n; } };
PROPERTY(ends, 400, 8000, "a source, sink, file or socket block of generated, possibly refused arguments is made, used and destroyed, three times; non-trivial: it was called or refused") {
    Plan p(s); bool refused = false; cler::Channel<float> of(2000); cler::Channel<cf> oc(2000); cler::Channel<Blob> ob(500);
    auto go = [&](const char* what, std::function<void()> f) { lives([&] { refused = true; f(); refused = false; float v; while (of.try_pop(v)) {} cf a; while (oc.try_pop(a)) {} Blob b; while (ob.try_pop(b)) {} return false; }, what); };
    auto calls = [&](auto f) { for (size_t i = 0; i < p.steps; ++i) { (void)f(); p.empty(of); p.empty(oc); } };
    { std::ofstream f("data.bin", std::ios::binary); f << std::string(s.size(0, 9000), 'x'); }
    switch (s.below(12)) {
    case 0: { size_t r = s.pick<size_t>({1000, 48000, 0}); go("tone", [&] { SourceCWBlock<float> x("x", 1, 10, r); calls([&] { return x.procedure(&of); }); }); break; }
    case 1: { size_t r = s.pick<size_t>({1000, 48000, 0}); float d = s.pick({1.0f, 0.1f, 0.0f, -1.0f}); go("chirp", [&] { SourceChirpBlock<cf> x("x", 1, 10, 20, r, d); calls([&] { return x.procedure(&oc); }); }); break; }
    case 2: { const char* n = s.pick({"data.bin", "data.bin", "none.bin", "", "."}); bool rep = s.flip(); go("file source", [&] { SourceFileBlock<float> x("x", n, rep); calls([&] { return x.procedure(&of); }); }); break; }
    case 3: { const char* n = s.pick({"out.bin", "out.bin", "nodir/x", "", "."}); size_t b = buf(s, 4); go("file sink", [&] { SinkFileBlock<float> x("x", n, b); p.run(&x.in, 1, [&] { return x.procedure(); }); }); break; }
    case 4: { size_t b = buf(s, 4); bool cb = s.flip(); go("null sink", [&] { SinkNullBlock<float> x("x", cb ? &Take::all : nullptr, nullptr, b); p.run(&x.in, 1, [&] { return x.procedure(); }); }); break; }
    case 5: { size_t r = s.pick<size_t>({1000000, 0, 10}); go("throttle", [&] { ThrottleBlock<float> x("x", r); p.run(&x.in, 1, [&] { return x.procedure(&of); }, of); }); break; }
    case 6: { size_t b = buf(s, 4); go("fan out", [&] { cler::Channel<float> o2(2000); FanoutBlock<float> x("x", 2, b); p.run(&x.in, 1, [&] { return x.procedure(&of, &o2); }, of, o2); }); break; }
    case 7: case 8: {
        using UDPBlock::SocketType; SocketType t = s.pick({SocketType::UNIX_DGRAM, SocketType::INET_UDP, SocketType::INET6_UDP}); std::string a = t == SocketType::UNIX_DGRAM ? s.pick({"a.sock", "nodir/a.sock", ""}) : t == SocketType::INET_UDP ? s.pick({"127.0.0.1:0", "127.0.0.1", "300.1.1.1:5", "127.0.0.1:99999", "8.8.8.8:0"}) : s.pick({"::1:0", "[::1]:0", "::1", "[::1]:x", "[x]:0", "[::1]:99999", "[1::2::3]:0"});
        size_t slots = 1 + s.below(20), sz = 1 + s.below(300), n = s.below(12); s.note("%s; ", a.c_str());
        go("datagram source", [&] {
            SourceUDPSocketBlock<Blob> x("x", t, a, nullptr, nullptr, nullptr, sz, slots); std::unique_ptr<SinkUDPSocketBlock<uint32_t>> k; if (t == SocketType::UNIX_DGRAM) { k = std::make_unique<SinkUDPSocketBlock<uint32_t>>("k", t, a); for (size_t i = 0; i < n; ++i) k->in.push((uint32_t)i); for (size_t i = 0; i < n && n < 8; ++i) (void)k->procedure(); }
            if (n && k) { (void)x.procedure(&ob); Blob b; if (p.drain) while (ob.try_pop(b)) b.release(); }
            Blob b; while (ob.try_pop(b)) {}
        }); break; }
    case 9: case 10: {
        using UDPBlock::SocketType; SocketType t = s.pick({SocketType::UNIX_DGRAM, SocketType::INET_UDP, SocketType::INET6_UDP});
        std::string a = t == SocketType::UNIX_DGRAM ? s.pick({std::string("gone.sock"), std::string(), std::string(107, 'l'), std::string(108, 'l'), std::string(300, 'l')}) : t == SocketType::INET_UDP ? s.pick<std::string>({"127.0.0.1:9", "127.0.0.1", "x:9", "300.1.1.1:9", "localhost:9", ":9", "127.0.0.1:0", "127.0.0.1:99999", "127.0.0.1:"}) : s.pick<std::string>({"::1:9", "1::2::3:9", ":::9", "[::1]:9", "::1", "[::1]", "[::1:9", "[x]:9", "[not:an:address]:9", "[]:9", "[127.0.0.1]:9", "[::1]:99999", "[::1]:x", "[1::2::3]:9"});
        size_t n = s.below(9); s.note("to \"%s\"; ", a.c_str()); go("datagram sink", [&] { SinkUDPSocketBlock<uint32_t> x("x", t, a); for (size_t i = 0; i < n; ++i) x.in.push(1); (void)x.procedure(); }); break; }
    default: { size_t slots = 1 + s.below(50), sz = s.below(300), n = s.below(60); go("pool", [&] { Slab sl(slots, sz); pbt::Bulk r(p.seed); for (size_t i = 0; i < n; ++i) { auto x = sl.take_slot(); if (x.is_ok() && r.below(2)) x.unwrap().release(); } }); }
    }
    remove("out.bin"); remove("data.bin"); s.nontrivial(refused || p.steps); s.label(refused, "refused");
}
static int event(unsigned, ezgmsk::ezgmsk_demod_state_en, unsigned char*, unsigned char*, unsigned, float, float, void*) { return 0; }
PROPERTY(modems, 120, 2500, "a modem, receiver, aircraft table or plot of generated arguments is made, used and destroyed in the middle of its work, three times; non-trivial: it was called or refused") {
    Plan p(s); bool refused = false; cler::Channel<cf> oc(2000); auto go = [&](const char* what, std::function<void()> f) { lives([&] { refused = true; f(); refused = false; cf a; while (oc.try_pop(a)) {} return false; }, what); };
    std::vector<std::string> lab(s.below(4), "signal"); size_t n = s.pick<size_t>({64, 256, 10, 3, 0, 7, 1024}), tall = s.below(20), sps = 1 + s.below(3000);
    switch (s.below(7)) {
    case 0: { unsigned k = 2 + (unsigned)s.below(3), m = 3 + (unsigned)s.below(2), len = 1 + (unsigned)s.below(60); go("GMSK modulator", [&] { EZGmskModBlock x("x", k, m, 0.5f, 24); Slab sl(4, 100); for (int i = 0; i < 3; ++i) { auto b = sl.take_slot().unwrap(); memset(b.data, i, 100); b.len = len; x.in.push(b); } for (size_t i = 0; i < p.steps; ++i) { (void)x.procedure(&oc); p.empty(oc); } }); break; }
    case 1: { unsigned k = 2 + (unsigned)s.below(3), m = 3 + (unsigned)s.below(2), hl = 1 + (unsigned)s.below(4), mx = 1 + (unsigned)s.below(60); unsigned char sync[24]; for (int i = 0; i < 24; ++i) sync[i] = (unsigned char)(i * 7 % 3 % 2); go("GMSK demodulator", [&] { EZGmskDemodBlock x("x", k, m, 0.5f, 16, sync, 24, hl, mx, event, nullptr); p.run(&x.in, 1, [&] { return x.procedure(); }); }); break; }
    case 2: { bool hi = s.flip(); cler::Channel<mode_s_msg> om(400); go("ADS-B receiver", [&] { ADSBDecoderBlock x("x", hi ? ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2MHZ); p.run(&x.in, 1, [&] { return x.procedure(&om); }); mode_s_msg v; while (om.try_pop(v)) {} }); break; }
    case 3: { bool map = s.flip(); if (map) { std::ofstream f("c.shp", std::ios::binary); f << std::string(s.size(0, 400), '\1'); } go("aircraft table", [&] { ADSBAggregateBlock x("x", 32, 34, nullptr, nullptr, map ? "c.shp" : "none.shp"); pbt::Bulk r(p.seed); for (size_t i = 0; i < p.steps; ++i) { for (int k = 0; k < 20; ++k) { mode_s_msg m; memset(&m, 0, sizeof m); m.crcok = 1; m.msgtype = 17; m.aa1 = (int)r.below(3); m.aa2 = (int)r.below(8); m.metype = 1 + (int)r.below(20); x.in.push(m); } (void)x.procedure(); if (p.drain) x.render(); } ImGui::list = ImDrawList(); ImGui::colors = {}; }); remove("c.shp"); break; }
    case 4: go("time plot", [&] { PlotTimeSeriesBlock x("x", lab, sps, 0.5f); p.run(x.in, lab.size(), [&] { auto r = x.procedure(); ImPlot::clear(); x.render(); return r; }); }); break;
    case 5: { auto w = (SpectralWindow)s.below(6); go("spectrum plot", [&] { PlotCSpectrumBlock x("x", lab, sps, n, w); p.run(x.in, lab.size(), [&] { auto r = x.procedure(); ImPlot::clear(); x.render(); return r; }); }); break; }
    default: { auto w = (SpectralWindow)s.below(6); go("spectrogram", [&] { PlotCSpectrogramBlock x("x", lab, sps, n, tall, w); p.run(x.in, lab.size(), [&] { auto r = x.procedure(); ImPlot::clear(); x.render(); return r; }); }); }
    }
    ImPlot::clear(); s.nontrivial(refused || p.steps); s.label(refused, "refused");
}
PROPERTY_T(flowgraphs, 150, 3000, 3, "a flowgraph on real threads is built, run and stopped a generated number of times and destroyed, stopped or running, three times; non-trivial: it ran") {
    size_t runs = s.below(4); bool pool = s.flip(), leave = s.chance(1, 3), fin = s.chance(1, 4), stats = s.flip(), ad = s.flip(); size_t us = s.below(1500), w = 2 + s.below(4), wrk = w; s.note("%zu runs%s%s", runs, pool ? " on a pool" : "", leave ? ", destroyed running" : ""); { std::ofstream f("data.bin", std::ios::binary); f << std::string(4000, 'x'); }
    lives([&] {
        SourceCWBlock<float> cw("cw", 1, 10, 1000); SourceFileBlock<float> file("file", "data.bin", false); AddBlock<float> add("add", 2); GainBlock<float> gain("gain", 2); SinkNullBlock<float> sink("sink"); ThroughputBlock<float> thr("thr");
        auto fg = cler::make_desktop_flowgraph(cler::BlockRunner(&cw, &add.in[0]), cler::BlockRunner(&file, &add.in[1]), cler::BlockRunner(&add, &gain.in), cler::BlockRunner(&gain, &thr.in), cler::BlockRunner(&thr, &sink.in), cler::BlockRunner(&sink));
        cler::FlowGraphConfig c; c.scheduler = pool ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock; c.num_workers = wrk; c.collect_detailed_stats = stats; c.adaptive_sleep = ad;
        for (size_t i = 0; i < runs; ++i) { if (fin) fg.run_for(std::chrono::milliseconds(1), c); else { fg.run(c); usleep((useconds_t)us); if (i + 1 < runs || !leave) fg.stop(); } }
        return false;
    }, "flowgraph");
    remove("data.bin"); s.nontrivial(runs > 0); s.label(leave, "destroyed running");
}
