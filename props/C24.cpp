// C24: the aircraft table against a model fed with what was encoded into the messages.
#include "adsb.hpp"
#include "cprenc.hpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#include <ctime>
#include <map>
using namespace ms;
static long fake_now = 1000000;
extern "C" time_t __wrap_time(time_t* p) { if (p) *p = fake_now; return fake_now; }
struct Frame { bool have = false; cprenc::ld lat = 0, lon = 0; int nl = 0; long when = 0; };
struct Plane {   // what its own messages conveyed
    uint32_t icao = 0; std::string call; int alt = 0; double speed = 0, track = 0; int vr = 0; bool pos = false, fuzzy = false; double lat = 0, lon = 0; long ptime = 0, utime = 0; int count = 0; Frame f[2];
    // where it really is
    cprenc::ld rlat = 0, rlon = 0; long rtime = 0; double vlat = 0, vlon = 0; double tol_lat = 0, tol_lon = 0;
};
struct Event { Plane p; };
static std::string text(const Plane& p) { char b[300]; snprintf(b, sizeof b, "%06x '%s' %d ft %g kn %g deg %d ft/min, position %s %.5f %.5f at %ld, heard %d times, last at %ld", p.icao, p.call.c_str(), p.alt, p.speed, p.track, p.vr, p.pos ? "known" : "unknown", p.lat, p.lon, p.ptime, p.count, p.utime); return b; }
static void same(const ADSBState& a, const Plane& p, const char* where) {
#define EQ(x, y, what) CHECK((x) == (y), "%s: " what " of the aircraft is wrong: expected %s; is %06x '%.9s' %d ft %g kn %g deg %d ft/min, position %s %.5f %.5f at %u, heard %d times, last at %u", where, text(p).c_str(), a.icao, a.callsign, a.altitude, a.groundspeed, a.track, a.vertical_rate, a.position_valid ? "known" : "unknown", a.lat, a.lon, a.position_update_time, a.message_count, a.last_update_time)
    CHECK(memchr(a.callsign, 0, 9), "the callsign is not terminated");
    EQ(a.icao, p.icao, "address"); EQ(std::string(a.callsign), p.call, "callsign"); EQ(a.altitude, p.alt, "altitude"); EQ(std::fabs(a.groundspeed - p.speed) <= 1, true, "speed"); EQ(std::fabs(std::remainder(a.track - p.track, 360.0)) <= 3.9 && a.track >= 0 && a.track <= 360, true, "track"); EQ(a.vertical_rate, p.vr, "vertical rate");
    EQ(a.message_count, p.count, "message count"); EQ((long)a.last_update_time, p.utime, "time of last message"); EQ(a.position_valid, p.pos, "position");
    if (p.pos) { EQ((long)a.position_update_time, p.ptime, "time of position"); EQ(std::fabs(a.lat - p.lat) <= p.tol_lat && cprenc::away(a.lon, p.lon) <= p.tol_lon, true, "position"); }
}
struct Heard : std::vector<ADSBState> { const ADSBAggregateBlock* asked = nullptr; };
static void on_update(const ADSBState& s, void* c) {
    auto& h = *(Heard*)c; h.push_back(s); if (!h.asked) return;      // a callback may ask for aircraft
    std::vector<ADSBState> t(h.asked->aircraft_count()); t.resize(h.asked->get_aircrafts(t.data(), t.size())); bool there = false; for (auto& x : t) there |= x.icao == s.icao;
    CHECK(there, "aircraft %06x is reported before it is in the table", s.icao);
}

struct Sky {
    pbt::Src& s; pbt::Bulk r; std::vector<Plane> planes; mode_s_t dec; std::map<uint32_t, Plane> model; std::vector<Plane> events; bool pairs = false, stale = false, zone = false;
    explicit Sky(pbt::Src& s_, size_t n) : s(s_), r(s_.subseed()) {
        mode_s_init(&dec);
        for (size_t i = 0; i < n; ++i) {
            Plane p; p.icao = i && s.chance(1, 4) ? planes[0].icao ^ 1 << s.below(24) : 1 + r.below(0xFFFFFF); if (!p.icao) p.icao = 7; for (auto& q : planes) if (q.icao == p.icao) p.icao = 0x111111 * (uint32_t)(i + 1);
            p.rlat = s.chance(1, 6) ? s.pick({0.0, 10.4704713, 59.95459277, -45.54626723, 86.9}) + s.real(-0.02, 0.02) : s.real(-88, 88); p.rlon = s.chance(1, 6) ? 180 - s.real(0, 0.01) : s.real(-180, 180);
            p.vlat = s.real(-0.003, 0.003); p.vlon = s.real(-0.003, 0.003) ; p.rtime = fake_now; planes.push_back(p);
        }
    }
    void send(const Msg& m, mode_s_msg& out, int df) { Msg q = m; mode_s_decode(&dec, &out, q.data()); CHECK(out.crcok, "an undamaged DF%d message is decoded as damaged", df); }
    // one message; returns it decoded, the model updated
    mode_s_msg next(bool quiet_model = false) {
        (void)quiet_model; size_t k = s.below(planes.size()); Plane& real = planes[k]; uint32_t a = real.icao; Plane& p = model[a]; p.icao = a; bool changed = false; Msg m; mode_s_msg out; char note[120];
        auto set = [&](auto& f, auto v) { if (f != v) { f = v; changed = true; } };
        // fly on
        long dt = fake_now - real.rtime; if (dt > 10) { real.rlat = s.real(-88, 88); real.rlon = s.real(-180, 180); } else { real.rlat += real.vlat * dt; real.rlon = cprenc::mod(real.rlon + real.vlon * dt + 180, 360) - 180; if (std::fabs((double)real.rlat) > 89) real.vlat = -real.vlat; } real.rtime = fake_now;
        switch (s.weighted({3, 6, 4, 2, 1, 1})) {
        case 0: {
            char c[9]; for (int i = 0; i < 8; ++i) c[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 "[r.below(37)]; c[8] = 0; if (!p.call.empty() && s.flip()) strcpy(c, p.call.c_str()); int tc = (int)s.range(1, 4);
            m = ident(a, tc, (int)s.below(8), c); send(m, out, 17); set(p.call, std::string(c)); snprintf(note, sizeof note, "'%s'", c); break; }
        case 1: {
            int odd = (int)s.below(2), feet = s.chance(1, 3) ? s.pick({-1000, -500, -25, 25, 50, 50150}) : 25 * (int)s.range(1, 2000); auto e = cprenc::encode(real.rlat, real.rlon, odd, false);
            m = position(a, (int)s.range(9, 18), feet, odd, e.yz, e.xz, s.flip()); send(m, out, 17); set(p.alt, feet);
            p.f[odd] = {true, real.rlat, real.rlon, e.nl, fake_now}; if (p.f[!odd].have && fake_now - p.f[!odd].when > 10) { p.f[!odd].have = false; stale = true; }
            if (p.f[0].have && p.f[1].have) {
                auto o = cprenc::encode(p.f[!odd].lat, p.f[!odd].lon, !odd, false); if (e.close || o.close) p.fuzzy = true;
                if (o.nl == e.nl) { p.pos = true; p.lat = (double)real.rlat; p.lon = (double)real.rlon; p.ptime = fake_now; p.tol_lat = (double)e.dlat / 262144 * 1.001 + 1e-9; p.tol_lon = (double)e.dlon / 262144 * 1.001 + 1e-9; changed = true; pairs = true; }
                else { p.f[0].have = p.f[1].have = false; zone = true; }
            }
            snprintf(note, sizeof note, "%s frame of %.5Lf %.5Lf %d ft", odd ? "odd" : "even", real.rlat, real.rlon, feet); break; }
        case 2: {
            Vel v; v.st = (int)s.range(1, 4); v.ewdir = (int)s.below(2); v.nsdir = (int)s.below(2); v.ew = s.chance(1, 4) ? s.pick({0, 1, 2, 1023}) : (int)s.range(2, 900); v.ns = s.chance(1, 4) ? s.pick({0, 1, 2, 1023}) : (int)s.range(2, 900); v.vrsrc = (int)s.below(2); v.vrsign = (int)s.below(2); v.vr = s.chance(1, 3) ? s.pick({0, 1, 2, 511}) : (int)s.below(512);
            if (s.chance(1, 8)) v.st = s.pick({0, 5, 6, 7}); m = velocity(a, v); send(m, out, 17);
            if (v.st == 1 || v.st == 2) {
                double f = v.st == 2 ? 4 : 1, ew = (v.ew - 1) * f * (v.ewdir ? -1 : 1), ns = (v.ns - 1) * f * (v.nsdir ? -1 : 1), sp = std::sqrt(ew * ew + ns * ns);
                // the table keeps whole knots and degrees: it changes when those do
                if (v.ew && v.ns) { if ((int)p.speed != out.velocity) changed = true; CHECK(std::fabs(out.velocity - sp) <= 1, "speed decoded as %d instead of %.1f", out.velocity, sp); p.speed = out.velocity; if (out.velocity) { double h = std::atan2(ew, ns) * 180 / M_PI; if (h < 0) h += 360; CHECK(std::fabs(std::remainder(out.heading - h, 360.0)) <= 1.01, "heading decoded as %d instead of %.1f", out.heading, h); if ((int)p.track != out.heading) changed = true; p.track = out.heading; } }
                if (v.vr) set(p.vr, (v.vr - 1) * 64 * (v.vrsign ? -1 : 1));
            } else if (v.st == 3 || v.st == 4) { if (v.ewdir) { double h = v.ew * 360.0 / 1024; CHECK(std::fabs(std::remainder(out.heading - h, 360.0)) < 3.9, "heading decoded as %d instead of %.1f", out.heading, h); if ((int)p.track != out.heading) changed = true; p.track = out.heading; } }
            snprintf(note, sizeof note, "velocity type %d: %d/%d %d/%d climb %d/%d", v.st, v.ewdir, v.ew, v.nsdir, v.ns, v.vrsign, v.vr); break; }
        case 3: {   // replies to radars: the aircraft must have been heard of by the decoder
            Msg intro = squitter(a); put(intro.data(), 1, 5, 11); seal(intro, 0); mode_s_msg t; send(intro, t, 11);
            int df = s.pick({0, 4, 16, 20, 5, 21}); for (auto& x : m) x = (uint8_t)r.u64(); put(m.data(), 1, 5, df); int feet = s.chance(1, 3) ? s.pick({-1000, -25, 25}) : 25 * (int)s.range(1, 2000); bool coded = df != 5 && df != 21 && s.chance(4, 5);
            if (df != 5 && df != 21) put(m.data(), 20, 32, coded ? ac13(feet) : 0); seal(m, a); send(m, out, df); if (coded) set(p.alt, feet); snprintf(note, sizeof note, "DF%d %d ft%s", df, feet, coded ? "" : " (not given)"); break; }
        case 4: { for (auto& x : m) x = (uint8_t)r.u64(); put(m.data(), 1, 5, 11); put(m.data(), 9, 32, a); seal(m, 0); send(m, out, 11); snprintf(note, sizeof note, "DF11"); break; }
        default: { for (auto& x : m) x = (uint8_t)r.u64(); put(m.data(), 1, 5, 17); put(m.data(), 9, 32, a); int tc = s.pick({0, 5, 6, 7, 8, 20, 21, 22, 23, 24, 28, 29, 31}); put(m.data(), 33, 37, tc); seal(m, 0); send(m, out, 17); snprintf(note, sizeof note, "squitter type %d", tc); }
        }
        s.note(" [%ld] %06x %s;", fake_now, a, note); p.utime = fake_now; ++p.count; if (changed) events.push_back(p); return out;
    }
    bool fuzzy() { for (auto& x : model) if (x.second.fuzzy) return true; return false; }
};
static void drawn(ADSBAggregateBlock& b, const std::map<uint32_t, Plane>& model) {
    ImGui::list = ImDrawList(); b.render(); size_t pos = 0; std::multiset<std::string> labels; for (auto& x : model) if (x.second.pos) { ++pos; if (!x.second.call.empty()) labels.insert(x.second.call); }
    CHECK(ImGui::list.triangles.size() == pos, "%zu aircraft are drawn, %zu have a position", ImGui::list.triangles.size(), pos);
    CHECK(std::multiset<std::string>(ImGui::list.texts.begin(), ImGui::list.texts.end()) == labels, "the labels drawn are not the callsigns of the aircraft with a position");
    CHECK(ImGui::info.find("Aircraft: " + std::to_string(model.size()) + " ") == 0, "the map says '%s' with %zu aircraft", ImGui::info.c_str(), model.size());
}
PROPERTY(table, 8000, 150000, "at least 2 aircraft, a position decoded, and 8 messages") {
    fake_now = 1000000 + (long)s.below(1000); Sky sky(s, s.range(1, 5)); Heard calls; bool cb = s.chance(5, 6);
    ADSBAggregateBlock b("a", 32, 34, cb ? on_update : nullptr, &calls, "no-such-file.shp"); size_t msgs = 0; if (s.chance(1, 3)) calls.asked = &b; if (!cb) s.note("no callback;"); static const long steps[] = {0, 1, 3, 5, 9, 10, 11, 12, 60};
    while (s.more(8)) {
        if (s.chance(2, 3)) fake_now += steps[s.below(9)];
        size_t n = s.size(1, 12); size_t before = sky.events.size(); calls.clear();
        for (size_t i = 0; i < n; ++i) { auto m = sky.next(); CHECK(b.in.try_push(m), "no room for a message"); ++msgs; }
        auto r = b.procedure(); CHECK(r.is_ok(), "messages waiting but '%s'", cler::to_str(r.unwrap_err())); if (sky.fuzzy()) return;   // a latitude on the border itself
        CHECK(b.in.size() == 0, "%zu of %zu messages not taken", b.in.size(), n);
        if (cb) {
            for (size_t i = 0; i < std::min(calls.size(), sky.events.size() - before); ++i) same(calls[i], sky.events[before + i], ("callback " + std::to_string(i + 1)).c_str());
            CHECK(calls.size() == sky.events.size() - before, "%zu callbacks for %zu messages that conveyed something new", calls.size(), sky.events.size() - before);
        }
        CHECK(b.aircraft_count() == sky.model.size(), "%zu aircraft in the table, %zu were heard", b.aircraft_count(), sky.model.size());
        std::vector<ADSBState> t(sky.model.size() + 3); size_t got = b.get_aircrafts(t.data(), t.size()); CHECK(got == sky.model.size(), "%zu aircraft returned of %zu", got, sky.model.size());
        std::set<uint32_t> seen; for (size_t i = 0; i < got; ++i) { auto f = sky.model.find(t[i].icao); CHECK(f != sky.model.end(), "aircraft %06x in the table was never heard", t[i].icao); CHECK(seen.insert(t[i].icao).second, "aircraft %06x is returned twice", t[i].icao); same(t[i], f->second, "table"); }
        size_t lim = s.below(got + 1); std::vector<ADSBState> part(lim); CHECK(b.get_aircrafts(part.data(), lim) == lim, "asked for %zu of %zu aircraft", lim, got);   // exact size: writes past it are seen
        if (s.chance(1, 4)) drawn(b, sky.model);
    }
    auto e = b.procedure(); CHECK(e.is_err() && e.unwrap_err() == cler::Error::NotEnoughSamples, "no messages, but no 'not enough samples'");
    if (sky.model.size() > 1 && sky.pairs && msgs >= 8) s.nontrivial(); s.label(sky.pairs, "position decoded"); s.label(sky.stale, "pair too old"); s.label(sky.zone, "pair from two zones");
}
