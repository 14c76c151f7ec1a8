// C24, second part: the table is asked and drawn by another thread while messages come in (thread sanitizer).
#include "adsb.hpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#include <atomic>
#include <thread>
using namespace ms;
struct Ctx { ADSBAggregateBlock* b; size_t calls; std::string bad; };
static std::string name_of(uint32_t icao, int k) { char c[12]; snprintf(c, sizeof c, "%05u%03d", icao % 100000, k % 1000); return c; }
static bool torn(const ADSBState& a, std::string* why) {
    // every message sets the callsign to the aircraft's number and the counter of the message
    if (a.message_count < 1) { *why = "an aircraft without any message"; return true; }
    std::string c = a.callsign; if (c.size() == 8 && c == name_of(a.icao, a.message_count)) return false;
    *why = "callsign " + c + " with message count " + std::to_string(a.message_count) + " of " + std::to_string(a.icao); return true;
}
static void on_update(const ADSBState& s, void* c) { auto* x = (Ctx*)c; ++x->calls; std::string w; if (torn(s, &w)) x->bad = w; ADSBState t[2]; x->b->get_aircrafts(t, 2); x->b->aircraft_count(); }
PROPERTY_T(concurrent_readers, 60, 1500, 3, "readers saw the table in at least 3 different sizes") {
    Ctx ctx{nullptr, 0, ""}; ADSBAggregateBlock b("a", 32, 34, on_update, &ctx, "no-such-file.shp"); ctx.b = &b; std::atomic<bool> stop{false}; std::atomic<size_t> sizes{0}; std::string bad[2]; size_t n = s.range(50, 600), planes = s.range(2, 40); int kind = (int)s.below(3);
    s.note("%zu messages of %zu aircraft, reader kind %d", n, planes, kind); mode_s_t dec; mode_s_init(&dec);
    std::vector<mode_s_msg> ms; std::map<uint32_t, int> cnt; pbt::Bulk r(s.subseed());
    for (size_t i = 0; i < n; ++i) { uint32_t a = 1000 + 77 * (uint32_t)r.below(planes); Msg m = ident(a, 4, 0, name_of(a, ++cnt[a]).c_str()); mode_s_msg o; mode_s_decode(&dec, &o, m.data()); ms.push_back(o); }
    auto reader = [&](int id) { std::vector<ADSBState> t(64); std::set<size_t> seen; while (!stop) { if (kind == 2 || (kind == 1 && id)) b.render(); size_t k = b.get_aircrafts(t.data(), 64); for (size_t i = 0; i < k; ++i) { std::string w; if (torn(t[i], &w)) bad[id] = w; } seen.insert(b.aircraft_count()); std::this_thread::yield(); } sizes = std::max(sizes.load(), seen.size()); };
    std::thread t1(reader, 0), t2(reader, 1);
    for (size_t i = 0; i < n;) { size_t k = std::min<size_t>(n - i, 1 + r.below(20)); for (size_t j = 0; j < k; ++j) b.in.push(ms[i + j]); i += k; b.procedure(); if (r.below(4) == 0) std::this_thread::yield(); }
    stop = true; t1.join(); t2.join();
    for (auto& w : bad) CHECK(w.empty(), "a reader saw a state that never was: %s", w.c_str()); CHECK(ctx.bad.empty(), "a callback got a state that never was: %s", ctx.bad.c_str()); CHECK(ctx.calls == n, "%zu callbacks for %zu updates", ctx.calls, n);
    if (sizes >= 3) s.nontrivial();
}
