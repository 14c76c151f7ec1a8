// Stand-in radios: SoapySDR (a device registered with the real library), HackRF, UHD, CaribouLite
#pragma once
#include "dsp.hpp"
#include <SoapySDR/Device.hpp>
#include <SoapySDR/Errors.hpp>
#include <SoapySDR/Formats.hpp>
#include <SoapySDR/Registry.hpp>
#include <SoapySDR/Logger.hpp>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <vector>

namespace radio {
using namespace dsp;
using cs = std::complex<int16_t>;
struct Quiet { std::streambuf *a, *b; std::ostringstream s; Quiet() { a = std::cout.rdbuf(s.rdbuf()); b = std::cerr.rdbuf(s.rdbuf()); SoapySDR::setLogLevel(SOAPY_SDR_FATAL); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
// the i-th sample on channel c
template <class T> T value(size_t i, size_t c);
template <> inline float value(size_t i, size_t c) { return (float)i + 0.25f * (float)c; }
template <> inline cf value(size_t i, size_t c) { return {(float)i, (float)c + 0.5f}; }
template <> inline cs value(size_t i, size_t c) { return {(int16_t)i, (int16_t)(c * 1000 + (i >> 16))}; }
template <> inline uint8_t value(size_t i, size_t c) { return (uint8_t)(i * 7 + i / 256 + c); }
template <class T> bool same(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }

// everything that went wrong in the use of a device
struct Log { std::string bad; void misuse(const std::string& m) { if (bad.empty()) bad = m; } };

// ---------- SoapySDR
struct Soapy : Log {
    int live = 0, streams = 0; bool active = false; std::string format; std::vector<size_t> channels; size_t mtu = 1000; int dir = SOAPY_SDR_RX;
    std::map<std::string, double> set; std::map<std::string, int> fail;   // fail: 1 throws, 2 reports
    std::vector<SoapySDR::Range> rates{{1e6, 2e6}, {5e6, 8e6}}, freqs{{100e6, 200e6}, {400e6, 6e9}}, bands{{1e5, 1e7}}; SoapySDR::Range gains{0, 60}; bool gain_mode = true, corrections = true;
    std::function<int(void* const*, size_t, long)> read; std::function<int(const void* const*, size_t, long)> write;
};
static Soapy soapy;
struct SoapyDev : SoapySDR::Device {
    SoapyDev() { ++soapy.live; }
    ~SoapyDev() override { if (soapy.streams) soapy.misuse("the device was closed with a stream open"); --soapy.live; }
    void step(const char* n, int d, size_t c) const { if (d != soapy.dir) soapy.misuse(std::string(n) + " for the wrong direction"); if (c != soapy.channels.at(0)) soapy.misuse(std::string(n) + " for channel " + std::to_string(c)); if (soapy.fail[n] == 1) throw std::runtime_error(std::string("stand-in: ") + n); }
    std::string getDriverKey() const override { return "fake"; } std::string getHardwareKey() const override { return "fake"; } size_t getNumChannels(int) const override { return 4; }
    SoapySDR::RangeList getSampleRateRange(int d, size_t c) const override { step("getSampleRateRange", d, c); return soapy.rates; }
    SoapySDR::RangeList getFrequencyRange(int d, size_t c) const override { step("getFrequencyRange", d, c); return soapy.freqs; }
    SoapySDR::Range getGainRange(int d, size_t c) const override { step("getGainRange", d, c); return soapy.gains; }
    SoapySDR::RangeList getBandwidthRange(int d, size_t c) const override { step("getBandwidthRange", d, c); return soapy.bands; }
    bool hasGainMode(int d, size_t c) const override { step("hasGainMode", d, c); return soapy.gain_mode; }
    void setGainMode(int d, size_t c, bool a) override { step("setGainMode", d, c); if (!soapy.gain_mode) soapy.misuse("gain mode set on a device without"); soapy.set["agc"] = a; }
    void setSampleRate(int d, size_t c, double v) override { step("setSampleRate", d, c); soapy.set["rate"] = v; }
    void setFrequency(int d, size_t c, double v, const SoapySDR::Kwargs&) override { step("setFrequency", d, c); soapy.set["freq"] = v; }
    void setGain(int d, size_t c, double v) override { step("setGain", d, c); soapy.set["gain"] = v; }
    void setBandwidth(int d, size_t c, double v) override { step("setBandwidth", d, c); if (soapy.bands.empty()) soapy.misuse("bandwidth set on a device without"); soapy.set["bw"] = v; }
    double getBandwidth(int d, size_t c) const override { step("getBandwidth", d, c); return soapy.set["bw"]; }
    std::vector<std::string> listAntennas(int d, size_t c) const override { step("listAntennas", d, c); return {"RX1", "RX2"}; }
    void setAntenna(int d, size_t c, const std::string& n) override { step("setAntenna", d, c); soapy.set["antenna"] = n == "RX1" ? 1 : n == "RX2" ? 2 : -1; }
    std::string getAntenna(int d, size_t c) const override { step("getAntenna", d, c); return soapy.set["antenna"] == 2 ? "RX2" : "RX1"; }
    std::vector<std::string> listGains(int d, size_t c) const override { step("listGains", d, c); return {"LNA", "VGA"}; }
    SoapySDR::Range getGainRange(int d, size_t c, const std::string& n) const override { step("getGainRange", d, c); return n == "LNA" ? SoapySDR::Range(1, 11) : n == "VGA" ? SoapySDR::Range(2, 22) : SoapySDR::Range(0, 0); }
    bool hasDCOffsetMode(int d, size_t c) const override { step("hasDCOffsetMode", d, c); return soapy.corrections; }
    void setDCOffsetMode(int d, size_t c, bool a) override { step("setDCOffsetMode", d, c); if (!soapy.corrections) soapy.misuse("DC offset mode set on a device without"); soapy.set["dcmode"] = a; }
    bool hasDCOffset(int d, size_t c) const override { step("hasDCOffset", d, c); return soapy.corrections; }
    void setDCOffset(int d, size_t c, const std::complex<double>& v) override { step("setDCOffset", d, c); if (!soapy.corrections) soapy.misuse("DC offset set on a device without"); soapy.set["dcr"] = v.real(); soapy.set["dci"] = v.imag(); }
    bool hasIQBalance(int d, size_t c) const override { step("hasIQBalance", d, c); return soapy.corrections; }
    void setIQBalance(int d, size_t c, const std::complex<double>& v) override { step("setIQBalance", d, c); if (!soapy.corrections) soapy.misuse("IQ balance set on a device without"); soapy.set["iqr"] = v.real(); soapy.set["iqi"] = v.imag(); }
    SoapySDR::Stream* setupStream(int d, const std::string& f, const std::vector<size_t>& c, const SoapySDR::Kwargs&) override {
        step("setupStream", d, c.empty() ? 99 : c[0]); if (c.size() != 1) soapy.misuse("a stream of " + std::to_string(c.size()) + " channels"); if (soapy.fail["setupStream"] == 2) return nullptr; soapy.format = f; ++soapy.streams; return (SoapySDR::Stream*)&soapy;
    }
    void own(SoapySDR::Stream* s, const char* n) const { if (s != (SoapySDR::Stream*)&soapy || !soapy.streams) soapy.misuse(std::string(n) + " without a stream"); }
    void closeStream(SoapySDR::Stream* s) override { own(s, "closeStream"); if (soapy.active) soapy.misuse("a running stream was closed"); --soapy.streams; }
    size_t getStreamMTU(SoapySDR::Stream* s) const override { own(s, "getStreamMTU"); if (soapy.fail["getStreamMTU"]) throw std::runtime_error("stand-in: getStreamMTU"); return soapy.mtu; }
    int activateStream(SoapySDR::Stream* s, int, long long, size_t) override { own(s, "activateStream"); if (soapy.fail["activateStream"] == 1) throw std::runtime_error("stand-in: activateStream"); if (soapy.fail["activateStream"]) return SOAPY_SDR_STREAM_ERROR; soapy.active = true; return 0; }
    int deactivateStream(SoapySDR::Stream* s, int, long long) override { own(s, "deactivateStream"); soapy.active = false; return 0; }
    int readStream(SoapySDR::Stream* s, void* const* b, size_t n, int&, long long&, long t) override { own(s, "readStream"); if (!soapy.active) soapy.misuse("read from a stream not running"); return soapy.read(b, n, t); }
    int writeStream(SoapySDR::Stream* s, const void* const* b, size_t n, int& fl, long long, long t) override { own(s, "writeStream"); if (!soapy.active) soapy.misuse("written to a stream not running"); if (fl) soapy.misuse("stray stream flags"); return soapy.write(b, n, t); }
};
static SoapySDR::KwargsList soapy_find(const SoapySDR::Kwargs& a) { if (a.count("driver") && a.at("driver") != "fake") return {}; SoapySDR::Kwargs k; k["label"] = "fake"; k["serial"] = "1"; return {k}; }
static SoapySDR::Device* soapy_make(const SoapySDR::Kwargs&) { if (soapy.fail["make"]) throw std::runtime_error("stand-in: make"); return new SoapyDev; }
static SoapySDR::Registry soapy_reg("fake", &soapy_find, &soapy_make, SOAPY_SDR_ABI_VERSION);
static void soapy_closed(const char* when) { CHECK(soapy.bad.empty(), "SoapySDR misused: %s", soapy.bad.c_str()); CHECK(!soapy.active && !soapy.streams && !soapy.live, "%s, %d stream(s) and %d device(s) stay open%s", when, soapy.streams, soapy.live, soapy.active ? ", running" : ""); }

// a history of settings: what the device has is what was asked for last, and what the block reports; a refused one changes nothing
template <bool TX, class B> static void soapy_control(pbt::Src& s, B& b) {
    auto want = soapy.set; unsigned n = 1 + (unsigned)s.below(12), thrown = 0; want["antenna"] = soapy.set["antenna"] = 1; b.set_antenna("RX1");
    for (unsigned i = 0; i < n; ++i) {
        double v = (double)s.below(1000) + 0.5, w = s.real(-1, 1); bool fail = s.chance(1, 5); const char* st = ""; bool refused = false; auto next = want; s.note("%s", fail ? "!" : "."); std::function<void()> f;
        switch (s.below(8)) {
        case 0: st = "setFrequency"; next["freq"] = v; f = [&] { b.set_frequency(v); }; break;
        case 1: st = "setGain"; next["gain"] = v; f = [&] { b.set_gain(v); }; break;
        case 2: st = "setSampleRate"; next["rate"] = v; if (!soapy.bands.empty()) next["bw"] = v; f = [&] { b.set_sample_rate(v); }; break;
        case 3: if (soapy.bands.empty()) continue; st = "setBandwidth"; next["bw"] = v; f = [&] { b.set_bandwidth(v); }; break;
        case 4: st = "setAntenna"; next["antenna"] = 1 + (double)((int)v % 2); f = [&] { b.set_antenna((int)v % 2 ? "RX2" : "RX1"); }; break;
        case 5: if constexpr (TX) { st = "setDCOffset"; if (soapy.corrections) next["dcr"] = v, next["dci"] = w; f = [&] { b.set_dc_offset({v, w}); }; } else { st = "setDCOffsetMode"; if (soapy.corrections) next["dcmode"] = (int)v % 2; f = [&] { b.set_dc_offset_mode((int)v % 2); }; } break;
        case 6: if constexpr (TX) { st = "setIQBalance"; if (soapy.corrections) next["iqr"] = v, next["iqi"] = w; f = [&] { b.set_iq_balance({v, w}); }; } else { st = "setGainMode"; if (soapy.gain_mode) next["agc"] = (int)v % 2; f = [&] { b.set_agc_mode((int)v % 2); }; } break;
        default: if constexpr (TX) continue; else { st = "setAntenna"; fail = refused = true; f = [&] { b.set_antenna(s.pick({"TX9", "", "RX", "RX22"})); }; } break;
        }
        bool reaches = next != want || refused; soapy.fail.clear(); if (fail && !refused) soapy.fail[st] = 1; bool t = false; try { f(); } catch (const std::runtime_error&) { t = true; } soapy.fail.clear();
        if (reaches) CHECK(t == fail, "%s %s", st, t ? "threw although the device accepts it" : "was refused by the device without a word"); if (!t) want = next; thrown += t;
        for (auto& kv : want) CHECK(soapy.set[kv.first] == kv.second, "after %s the device has %s %g, asked for last was %g", st, kv.first.c_str(), soapy.set[kv.first], kv.second);
        for (auto& kv : soapy.set) CHECK(want[kv.first] == kv.second, "%s also set %s to %g", st, kv.first.c_str(), kv.second);
        CHECK(b.get_frequency() == want["freq"] && b.get_gain() == want["gain"] && b.get_sample_rate() == want["rate"], "after %s the block reports %g Hz, gain %g, rate %g; the device has %g, %g, %g", st, b.get_frequency(), b.get_gain(), b.get_sample_rate(), want["freq"], want["gain"], want["rate"]);
        CHECK(b.get_antenna() == (want["antenna"] == 2 ? "RX2" : "RX1") && b.get_bandwidth() == want["bw"], "antenna %s, bandwidth %g reported", b.get_antenna().c_str(), b.get_bandwidth());
    }
    auto eq = [](const SoapySDR::RangeList& a, const SoapySDR::RangeList& b) { bool e = a.size() == b.size(); for (size_t i = 0; e && i < a.size(); ++i) e = a[i].minimum() == b[i].minimum() && a[i].maximum() == b[i].maximum(); return e; };
    CHECK(eq(b.get_frequency_range(), soapy.freqs) && eq(b.get_sample_rate_range(), soapy.rates) && eq({b.get_gain_range()}, {soapy.gains}) && eq({b.get_gain_range("VGA")}, {SoapySDR::Range(2, 22)}) && eq({b.get_gain_range("LNA")}, {SoapySDR::Range(1, 11)}), "other ranges than the device has");
    CHECK((b.list_antennas() == std::vector<std::string>{"RX1", "RX2"}) && (b.list_gains() == std::vector<std::string>{"LNA", "VGA"}), "other antennas or gains than the device has");
    s.nontrivial(n > 3); s.label(thrown > 0, "refused");
}

// what a generated stream device does at its next transfer
enum Act { ALL, PART, TIMEOUT, ZERO, OVERFLOW_, DIE };
struct Script {
    pbt::Bulk r{0}; bool rough; size_t die_at; size_t n = 0; size_t over = 0; bool dead = false; unsigned streak = 0;
    Script(pbt::Src& s) : r(s.subseed()), rough(s.chance(3, 4)), die_at(s.chance(1, 4) ? s.size(0, 12) : SIZE_MAX) { s.note("%s device%s; ", rough ? "rough" : "smooth", die_at == SIZE_MAX ? "" : (", fails at transfer " + std::to_string(die_at)).c_str()); }
    // at most two transfers in a row come to nothing
    Act next() { if (n++ >= die_at) { dead = true; return DIE; } if (!rough) return ALL; unsigned k = (unsigned)r.below(10); Act a = k < 4 ? ALL : k < 7 ? PART : k == 7 ? TIMEOUT : k == 8 ? OVERFLOW_ : ZERO; if (a >= TIMEOUT && ++streak > 2) a = PART; if (a < TIMEOUT) streak = 0; return a; }
    size_t part(size_t n) { return n < 2 ? n : 1 + r.below(n - 1); }
};
}  // namespace radio
// what a failing constructor leaves: heap bytes and mappings, the same after each further attempt
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <fstream>
namespace radio {
template <class F> static void leaves_nothing(F make) {
    size_t heap[3], maps[3];
    for (int i = 0; i < 3; ++i) { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); try { make(); } catch (const std::exception&) {} std::cout.clear(); std::cerr.clear();
        { std::ifstream f("/proc/self/maps"); std::string l; maps[i] = 0; while (std::getline(f, l)) maps[i] += l.find("doubly") != std::string::npos || l.find("memfd") != std::string::npos || l.find("/dev/shm") != std::string::npos || l.find("/dev/zero") != std::string::npos; } heap[i] = __sanitizer_get_current_allocated_bytes(); }
    CHECK(heap[2] <= heap[1], "each attempt to make the block leaves %zu bytes", heap[2] - heap[1]); CHECK(maps[2] <= maps[1], "each attempt to make the block leaves %zu mappings", maps[2] - maps[1]);
}
}
