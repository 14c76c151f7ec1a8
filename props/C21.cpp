// C21: Mode S messages against an independent encoder and a bit-level reference decoder.
#include <memory>
#include <cstdarg>
#include "adsb.hpp"
#include "desktop_blocks/adsb/modes.h"
using namespace ms;
static long fake_now = 1000000; static bool fake = false;
extern "C" { time_t __real_time(time_t*); time_t __wrap_time(time_t* p) { if (!fake) return __real_time(p); if (p) *p = fake_now; return fake_now; } }
static std::string* PR;
extern "C" {
int __real_printf(const char*, ...); int __real_puts(const char*); int __real_putchar(int);
int __wrap_printf(const char* f, ...) { va_list a; va_start(a, f); int r; if (PR) { char b[2000]; r = vsnprintf(b, sizeof b, f, a); *PR += b; } else r = vprintf(f, a); va_end(a); return r; }
int __wrap___printf_chk(int, const char* f, ...) { va_list a; va_start(a, f); int r; if (PR) { char b[2000]; r = vsnprintf(b, sizeof b, f, a); *PR += b; } else r = vprintf(f, a); va_end(a); return r; }
int __wrap_puts(const char* s) { if (!PR) return __real_puts(s); *PR += s; *PR += '\n'; return 1; }
int __wrap_putchar(int c) { if (!PR) return __real_putchar(c); *PR += (char)c; return c; }
}
static mode_s_msg decode(mode_s_t& st, const Msg& m, int fill) {
    std::unique_ptr<unsigned char[]> raw(new unsigned char[14]); memcpy(raw.get(), m.data(), 14);
    mode_s_msg mm; memset(&mm, fill, sizeof mm); mode_s_decode(&st, &mm, raw.get());
    CHECK(memcmp(raw.get(), m.data(), 14) == 0, "decoding changed the caller's message");
    return mm;
}
#define EQ(a, b, what) CHECK((long)(a) == (long)(b), "%s is %ld, encoded was %ld in %s", what, (long)(a), (long)(b), hex(q).c_str())
// what the fields of a message mean, by bit positions of the standard
static void check_fields(const mode_s_msg& mm) {
    const uint8_t* q = mm.msg; int df = get(q, 1, 5);
    EQ(mm.msgtype, df, "type"); EQ(mm.msgbits, length(df), "length");
    EQ(mm.ca, get(q, 6, 8), "capability"); EQ(mm.fs, get(q, 6, 8), "flight status"); EQ(mm.dr, get(q, 9, 13), "DR"); EQ(mm.um, get(q, 14, 19), "UM");
    EQ(mm.metype, get(q, 33, 37), "squitter type"); EQ(mm.mesub, get(q, 38, 40), "squitter subtype");
    auto b = [&](int n) { return (int)get(q, n, n); };
    EQ(mm.identity, (b(25) * 4 + b(23) * 2 + b(21)) * 1000 + (b(31) * 4 + b(29) * 2 + b(27)) * 100 + (b(24) * 4 + b(22) * 2 + b(20)) * 10 + b(32) * 4 + b(30) * 2 + b(28), "squawk");
    EQ(mm.phase_corrected, 0, "phase flag");
    int alt = 0, unit = 0;
    if (df == 0 || df == 4 || df == 16 || df == 20) { unit = b(26) ? MODE_S_UNIT_METERS : MODE_S_UNIT_FEET; if (!b(26) && b(28)) alt = ((int)(get(q, 20, 25) << 5 | b(27) << 4 | get(q, 29, 32))) * 25 - 1000; }
    int tc = get(q, 33, 37), st = get(q, 38, 40); std::string fl; bool pos = false, vel = false; int type = 0;
    if (df == 17) {
        if (tc >= 1 && tc <= 4) { type = tc - 1; for (int i = 0; i < 8; ++i) fl += unais(get(q, 41 + 6 * i, 46 + 6 * i)); }
        pos = tc >= 9 && tc <= 18; vel = tc == 19 && st >= 1 && st <= 4;
        if (pos && b(48)) alt = (int)(get(q, 41, 47) << 4 | get(q, 49, 52)) * 25 - 1000;
    }
    EQ(mm.altitude, alt, "altitude"); EQ(mm.unit, unit, "altitude unit"); EQ(mm.aircraft_type, type, "aircraft type");
    CHECK(strnlen(mm.flight, 9) < 9 && fl == mm.flight, "callsign is '%.9s', encoded was '%s'", mm.flight, fl.c_str());
    EQ(!!mm.fflag, pos && b(54), "odd flag"); EQ(!!mm.tflag, pos && b(53), "time flag"); EQ(mm.raw_latitude, pos ? get(q, 55, 71) : 0, "latitude"); EQ(mm.raw_longitude, pos ? get(q, 72, 88) : 0, "longitude");
    bool gv = vel && st <= 2, av = vel && st >= 3;
    EQ(mm.ew_dir, gv ? b(46) : 0, "E/W direction"); EQ(mm.ew_velocity, gv ? get(q, 47, 56) : 0, "E/W velocity code"); EQ(mm.ns_dir, gv ? b(57) : 0, "N/S direction"); EQ(mm.ns_velocity, gv ? get(q, 58, 67) : 0, "N/S velocity code");
    EQ(mm.vert_rate_source, gv ? b(68) : 0, "vertical rate source"); EQ(mm.vert_rate_sign, gv ? b(69) : 0, "vertical rate sign"); EQ(mm.vert_rate, gv ? get(q, 70, 78) : 0, "vertical rate code");
    EQ(!!mm.heading_is_valid, av && b(46), "heading status");
    if (gv) {
        double k = st == 2 ? 4 : 1, e = (double)get(q, 47, 56), n = (double)get(q, 58, 67); bool known = e && n;
        e = e ? (e - 1) * k : 0; n = n ? (n - 1) * k : 0;
        if (b(46)) e = -e; if (b(57)) n = -n;
        double v = std::sqrt(e * e + n * n);
        if (known) {
            CHECK(std::fabs(mm.velocity - v) <= 1.0, "speed is %d knots, encoded was %.2f in %s", mm.velocity, v, hex(q).c_str());
            if (v >= 1) { double h = std::atan2(e, n) * 180 / M_PI; double d = std::fabs(std::remainder(mm.heading - h, 360.0)); CHECK(d <= 1.001, "heading is %d, encoded was %.2f in %s", mm.heading, h < 0 ? h + 360 : h, hex(q).c_str()); }
            else CHECK(mm.heading == 0, "heading %d without any speed", mm.heading);
        }
        CHECK(mm.heading >= 0 && mm.heading <= 360, "heading %d", mm.heading);
    } else {
        EQ(mm.velocity, 0, "speed");
        if (av) { double h = get(q, 47, 56) * 360.0 / 1024; CHECK(h - mm.heading >= -0.001 && h - mm.heading < 3.82, "heading is %d, encoded was %.2f in %s", mm.heading, h, hex(q).c_str()); }
        else EQ(mm.heading, 0, "heading");
    }
}
static void same(const mode_s_msg& a, const mode_s_msg& b) {
#define F(x) CHECK(!memcmp(&a.x, &b.x, sizeof a.x), "field '" #x "' depends on what the result structure held before")
    F(msg); F(msgbits); F(msgtype); F(crcok); F(crc); F(errorbit); F(aa1); F(aa2); F(aa3); F(phase_corrected); F(ca); F(metype); F(mesub); F(heading_is_valid); F(heading); F(aircraft_type); F(fflag); F(tflag);
    F(raw_latitude); F(raw_longitude); F(flight); F(ew_dir); F(ew_velocity); F(ns_dir); F(ns_velocity); F(vert_rate_source); F(vert_rate_sign); F(vert_rate); F(velocity); F(fs); F(dr); F(um); F(identity); F(altitude); F(unit);
}
static Msg random_msg(pbt::Src& s, pbt::Bulk& r, uint32_t addr, int& df) {
    Msg m; for (auto& x : m) x = (uint8_t)r.u64();
    df = s.weighted({5, 2, 1, 1, 1, 1, 1, 1, 1}); df = df == 8 ? (int)s.below(32) : (int[]){17, 11, 4, 20, 5, 21, 0, 16}[df];
    put(m.data(), 1, 5, df); put(m.data(), 9, 32, addr);
    if (df == 17) {
        int tc = (int)s.weighted({3, 3, 3, 1}); tc = tc == 0 ? (int)s.range(1, 4) : tc == 1 ? (int)s.range(9, 18) : tc == 2 ? 19 : (int)s.below(32);
        put(m.data(), 33, 37, tc); if (tc == 19) put(m.data(), 38, 40, s.chance(7, 8) ? s.range(1, 4) : s.below(8));
        if (tc == 19 && s.chance(1, 4)) put(m.data(), 47, 56, s.pick({0, 1, 2, 1023, 512})); if (tc == 19 && s.chance(1, 4)) put(m.data(), 58, 67, s.pick({0, 1, 2, 1023, 512}));
        if (tc <= 4) for (int i = 0; i < 8; ++i) if (s.chance(3, 4)) put(m.data(), 41 + 6 * i, 46 + 6 * i, ais("ABCXYZ019 K"[s.below(11)]));
    }
    seal(m, df == 11 || df == 17 ? 0 : addr);
    if (length(df) == 56 && s.flip()) for (int i = 7; i < 14; ++i) m[i] = 0;
    return m;
}

PROPERTY(fields, 40000, 400000, "a valid message of a type with fields of its own (17, 0, 4, 5, 16, 20, 21)") {
    static mode_s_t st; mode_s_init(&st); pbt::Bulk r(s.subseed()); int df; uint32_t addr = 1 + r.below(0xFFFFFF);
    Msg m = random_msg(s, r, addr, df); s.note("%s", hex(m.data()).c_str());
    Msg intro = squitter(addr); seal(intro, 0); if (has_ap(df)) decode(st, intro, 0);
    mode_s_msg a = decode(st, m, 0), b = decode(st, m, 0xA5); same(a, b);
    CHECK(!memcmp(a.msg, m.data(), 14), "another message content than the one handed in");
    bool known = df == 11 || df == 17 || has_ap(df);
    CHECK(!!a.crcok == known, known ? "a valid message is reported as damaged" : "a message of a type without known checksum is reported as good");
    CHECK(a.errorbit == -1, "bit %d 'corrected' in an undamaged message", a.errorbit);
    if (known) CHECK(((uint32_t)a.aa1 << 16 | a.aa2 << 8 | a.aa3) == addr, "address %02x%02x%02x, encoded was %06x", a.aa1, a.aa2, a.aa3, addr);
    CHECK(a.crc == get(m.data(), length(df) - 23, length(df)), "checksum field %06x", a.crc);
    check_fields(a);
    std::string text; PR = &text; mode_s_display_message(&a); PR = nullptr;
    std::string raw = "*" + hex(m.data(), length(df) / 8) + ";\n";
    CHECK(text.compare(0, raw.size(), raw) == 0, "displayed as %s", text.substr(0, 40).c_str());
    if (df == 17 || (known && df != 11)) s.nontrivial(); char l[8]; snprintf(l, 8, "DF%d", df); s.label(l);
}

PROPERTY(arbitrary, 20000, 400000, "the bytes are not a valid message") {
    static mode_s_t st; mode_s_init(&st); pbt::Bulk r(s.subseed()); Msg m; for (auto& x : m) x = (uint8_t)r.u64();
    if (s.flip()) put(m.data(), 1, 5, s.pick({17, 11, 0, 4, 5, 16, 20, 21, 24, 18, 31}));
    st.fix_errors = s.flip(); st.aggressive = s.chance(1, 10); st.check_crc = s.flip();
    s.note("%s", hex(m.data()).c_str()); mode_s_msg a = decode(st, m, 0x5A), b = decode(st, m, 0); same(a, b); check_fields(a);
    std::string text; PR = &text; mode_s_display_message(&a); PR = nullptr;
    int df = m[0] >> 3; if (syndrome(m.data(), length(df))) s.nontrivial();
    if (df != 11 && df != 17) CHECK(!a.crcok, "a message of an aircraft never heard of is reported as good");
}

// damage of valid self-checking messages, in every setting
PROPERTY(damage, 12000, 200000, "at least one bit is damaged") {
    static mode_s_t st; mode_s_init(&st); pbt::Bulk r(s.subseed()); Msg m; for (auto& x : m) x = (uint8_t)r.u64();
    int df = s.flip() ? 17 : 11, n = length(df); put(m.data(), 1, 5, df); seal(m, 0); Msg orig = m;
    st.fix_errors = !s.chance(1, 5); st.aggressive = s.chance(1, 4);
    unsigned k = (unsigned)s.weighted({1, 6, 5, 3, 2, 1, 1}); std::set<int> bits; bool nearby = s.chance(1, 3); int base = (int)s.below(n - 12);
    while (bits.size() < k) bits.insert(nearby ? base + (int)s.below(12) : (int)s.below(n));
    for (int b : bits) flip(m.data(), b);
    std::string bl; for (int b : bits) bl += " " + std::to_string(b);
    s.note("%s damaged at%s fix=%d aggressive=%d", hex(orig.data(), n / 8).c_str(), bl.c_str(), st.fix_errors, st.aggressive);
    mode_s_msg a = decode(st, m, 0); int seen = m[0] >> 3; bool self = seen == 11 || seen == 17; int sn = length(seen);
    unsigned fixable = !self || !st.fix_errors ? 0 : st.aggressive && seen == 17 ? 2 : 1;
    if (k == 0) { CHECK(a.crcok && a.errorbit == -1, "an undamaged message is reported as damaged or corrected"); return; }
    bool type_hit = *bits.begin() < 5;
    if (k <= fixable && !type_hit) {
        CHECK(a.crcok, "a damage of %u bits is not repaired", k); CHECK(a.errorbit != -1, "a repair is not reported");
        CHECK(!memcmp(a.msg, orig.data(), n / 8), "repaired to %s", hex(a.msg, n / 8).c_str());
        if (k == 1) CHECK(a.errorbit == *bits.begin(), "bit %d reported as corrected", a.errorbit);
        check_fields(a);
    } else if (a.crcok) {
        // good means: consistent, of the type received, and within the permitted distance of what was received
        CHECK(self, "a message of an aircraft never heard of is reported as good");
        CHECK(syndrome(a.msg, sn) == 0, "reported as good with a wrong checksum");
        CHECK((a.msg[0] >> 3) == seen && a.msgtype == seen, "the repair changed the message's type from %d to %d (reported as %d)", seen, a.msg[0] >> 3, a.msgtype);
        unsigned d = 0; for (int i = 0; i < sn; ++i) d += get(a.msg, i + 1, i + 1) != get(m.data(), i + 1, i + 1);
        CHECK(d <= fixable, "reported as good after a change of %u bits", d);
        if (!type_hit && k + fixable < 6) CHECK(!memcmp(a.msg, orig.data(), n / 8), "%u damaged bits are reported as another good message", k);
    }
    if (!a.crcok) CHECK(a.errorbit == -1 && !memcmp(a.msg, m.data(), 14), "a message that is not good was changed");
    if (a.crcok && a.errorbit != -1) { Msg probe = squitter(0x123456); (void)probe; }
    s.nontrivial(); s.label("damaged bits: " + std::to_string(k));
}

// which addresses count as recently seen
PROPERTY(recently_seen, 3000, 40000, "an overlaid message was accepted, and one was refused because its aircraft was not or too long ago heard") {
    static mode_s_t st; mode_s_init(&st); fake = true; fake_now = 1000000 + (long)s.below(1000000); pbt::Bulk r(s.subseed());
    std::vector<uint32_t> who; for (size_t i = 0, n = s.range(1, 5); i < n; ++i) who.push_back(1 + r.below(0xFFFFFF));
    if (s.chance(1, 3)) who.push_back(who[0] ^ 1); if (s.chance(1, 4)) who.push_back(0);
    std::map<uint32_t, long> heard; uint32_t last = 0; bool yes = false, no = false; std::set<uint32_t> missed;
    while (s.more(30)) {
        uint32_t a = who[s.below(who.size())]; Msg m; for (auto& x : m) x = (uint8_t)r.u64();
        switch (s.weighted({4, 8, 3, 1, 1})) {
        case 0: { put(m.data(), 1, 5, s.flip() ? 17 : 11); put(m.data(), 9, 32, a); seal(m, 0); s.note(" hear %06x", a); auto x = decode(st, m, 0); CHECK(x.crcok, "a valid message is reported as damaged"); heard[a] = fake_now; last = a; break; }
        case 1: {
            int df = s.pick({0, 4, 5, 16, 20, 21}); put(m.data(), 1, 5, df); seal(m, a); s.note(" DF%d of %06x", df, a);
            auto x = decode(st, m, 0); bool recent = a && heard.count(a) && fake_now - heard[a] <= 60;
            if (x.crcok) { CHECK(recent, "a message of %06x is good, last heard %s", a, heard.count(a) ? "too long ago" : "never"); CHECK(((uint32_t)x.aa1 << 16 | x.aa2 << 8 | x.aa3) == a, "address %02x%02x%02x instead of %06x", x.aa1, x.aa2, x.aa3, a); check_fields(x); yes = true; }
            else { if (recent) { CHECK(a != last, "the aircraft heard last is not recognised"); missed.insert(a); } else no = true; }
            break; }
        case 2: { long d = s.pick({1, 30, 59, 60, 61, 62, 200}); s.note(" +%lds", d); fake_now += d; break; }
        case 3: { // a damaged or repaired introduction does not count as hearing
            uint32_t z = 1 + r.below(0xFFFFFF); put(m.data(), 1, 5, 17); put(m.data(), 9, 32, z); seal(m, 0); flip(m.data(), 40 + (int)r.below(40)); decode(st, m, 0); if (!heard.count(z)) { Msg q; for (auto& x : q) x = (uint8_t)r.u64(); put(q.data(), 1, 5, 4); seal(q, z); CHECK(!decode(st, q, 0).crcok, "an aircraft known only from a damaged message counts as heard"); } s.note(" damaged %06x", z); break; }
        default: { int df = s.pick({1, 2, 3, 18, 19, 22, 25, 31}); put(m.data(), 1, 5, df); seal(m, a); CHECK(!decode(st, m, 0).crcok, "a message of unsupported type %d is reported as good", df); }
        }
    }
    CHECK(missed.size() < 4, "%zu aircraft heard within the last minute are not recognised", missed.size());
    fake = false; if (yes && no) s.nontrivial();
}
