// C25: map files written by an independent writer, whole, cut, damaged and hostile.
#include "pbt.hpp"
#include "desktop_blocks/adsb/adsb_coastline_loader.hpp"
#include <fstream>
#include <new>
#include <unistd.h>
static size_t live = 0, peak = 0; static bool counting = false;
void* operator new(size_t n) { if (counting) { live += n; peak = std::max(peak, live); if (n > (size_t)1 << 33) throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t n) noexcept { if (counting) live -= std::min(live, n); free(p); }
using Line = std::vector<std::pair<float, float>>; using Map = std::vector<Line>;
using Bytes = std::string;
static void be(Bytes& b, uint32_t v) { for (int i = 3; i >= 0; --i) b += (char)(v >> 8 * i); }
static void le(Bytes& b, uint32_t v) { for (int i = 0; i < 4; ++i) b += (char)(v >> 8 * i); }
static void dbl(Bytes& b, double d) { uint64_t u; memcpy(&u, &d, 8); for (int i = 0; i < 8; ++i) b += (char)(u >> 8 * i); }
struct Rec { size_t at, end; Map lines; uint32_t parts, points; bool poly; };
struct File { Bytes b; std::vector<Rec> recs; Map all() const { Map m; for (auto& r : recs) for (auto& l : r.lines) m.push_back(l); return m; } };
static File make(pbt::Src& s, size_t nrec, bool& odd) {
    File f; pbt::Bulk r(s.subseed()); be(f.b, 9994); for (int i = 0; i < 5; ++i) be(f.b, 0); be(f.b, 0); le(f.b, 1000); le(f.b, 3); for (int i = 0; i < 8; ++i) dbl(f.b, 0);
    for (size_t i = 0; i < nrec; ++i) {
        Rec c; c.at = f.b.size(); c.poly = s.chance(7, 8); Bytes body; c.parts = c.points = 0;
        if (c.poly) {
            size_t np = s.size(1, 6); std::vector<uint32_t> start; std::vector<std::pair<double, double>> pts; bool empty = s.chance(1, 20);
            for (size_t k = 0; k < np; ++k) { start.push_back((uint32_t)pts.size()); size_t n = empty && k ? s.below(3) : s.size(2, s.chance(1, 20) ? 300 : 12); Line l; for (size_t j = 0; j < n; ++j) { double lon = s.chance(1, 10) ? 180 : r.real(-180, 180), lat = r.real(-90, 90); pts.push_back({lon, lat}); l.push_back({(float)lat, (float)lon}); } if (n) c.lines.push_back(l); }
            le(body, 3); for (int k = 0; k < 4; ++k) dbl(body, r.real(-90, 90)); le(body, c.parts = (uint32_t)np); le(body, c.points = (uint32_t)pts.size()); for (auto x : start) le(body, x); for (auto& p : pts) { dbl(body, p.first); dbl(body, p.second); }
            if (pts.empty()) c.lines.clear();
        } else { int kind = (int)s.below(4); odd = true; if (kind == 0) le(body, 0); else if (kind == 1) { le(body, 1); dbl(body, 1); dbl(body, 2); } else if (kind == 2) { le(body, 5); if (s.flip()) { size_t n = s.size(3, 9); for (int k = 0; k < 4; ++k) dbl(body, 0); le(body, 1); le(body, (uint32_t)n); le(body, 0); while (n--) { dbl(body, r.real(-180, 180)); dbl(body, r.real(-90, 90)); } } else for (size_t k = s.below(30); k--;) le(body, (uint32_t)r.u64()); } else { le(body, 3); for (int k = 0; k < 4; ++k) dbl(body, 0); le(body, 0); le(body, 0); } }
        be(f.b, (uint32_t)i + 1); be(f.b, (uint32_t)body.size() / 2); f.b += body; c.end = f.b.size(); f.recs.push_back(c);
    }
    Bytes len; be(len, (uint32_t)f.b.size() / 2); f.b.replace(24, 4, len); return f;
}
static void write(const char* name, const Bytes& b) { std::ofstream o(name, std::ios::binary | std::ios::trunc); o.write(b.data(), (std::streamsize)b.size()); }
static bool load(CoastlineData& d, const char* name, size_t size) {
    live = peak = 0; counting = true; bool ok; try { ok = d.load_from_shapefile(name); } catch (std::exception& e) { counting = false; FAIL_CASE("loading threw %s", e.what()); } counting = false;
    CHECK(peak <= 40 * size + 100000, "loading took %zu bytes of memory for a file of %zu", peak, size); return ok;
}
static std::string show(const Map& m) { std::string r = std::to_string(m.size()) + " lines:"; for (size_t i = 0; i < m.size() && i < 4; ++i) r += " " + std::to_string(m[i].size()) + " points"; return r; }
static bool same(const Line& a, const Line& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof a[0])); }
static bool starts(const Map& got, const Map& want) { if (got.size() < want.size()) return false; for (size_t i = 0; i < want.size(); ++i) if (!same(got[i], want[i])) return false; return true; }

PROPERTY(whole, 6000, 80000, "at least 2 records with at least 3 lines") {
    bool odd = false; File f = make(s, s.size(0, 8), odd); Map want = f.all(); write("m.shp", f.b); CoastlineData d; bool ok = load(d, "m.shp", f.b.size()); s.note("%zu records, %zu bytes, %s", f.recs.size(), f.b.size(), show(want).c_str());
    CHECK(d.polylines.size() == want.size(), "%zu lines loaded, %zu in the file", d.polylines.size(), want.size()); CHECK(starts(d.polylines, want), "the points loaded are not those of the file"); CHECK(ok == !want.empty(), "loading reported as %s with %zu lines", ok ? "done" : "failed", want.size());
    // another file into the same map: only its content counts
    if (s.chance(1, 3)) {
        int kind = (int)s.below(3); s.note("then %s", kind == 0 ? "a missing file" : kind == 1 ? "a short file" : "another file"); bool o2; File g = make(s, s.size(0, 3), o2); if (kind == 1) g.b.resize(s.below(101)); write("n.shp", g.b);
        bool ok2 = load(d, kind == 0 ? "missing.shp" : "n.shp", g.b.size()); Map w2 = kind == 2 ? g.all() : Map(); CHECK(ok2 == !w2.empty(), "the second load is reported as %s, %zu lines are in its file", ok2 ? "done" : "failed", w2.size()); if (ok2) CHECK(d.polylines.size() == w2.size() && starts(d.polylines, w2), "the second load left other content than its file has"); s.label("two loads");
    }
    if (f.recs.size() >= 2 && want.size() >= 3) s.nontrivial(); s.label(odd, "other record types");
}
PROPERTY(broken, 12000, 300000, "at least one whole record before the damage") {
    bool odd = false; File f = make(s, s.size(1, 6), odd); Bytes b = f.b; size_t first = b.size(); const char* what; const Rec& c = f.recs[s.below(f.recs.size())]; pbt::Bulk r(s.subseed()); bool keep_after = false;
    auto le_at = [&](size_t at, uint32_t v) { for (int i = 0; i < 4; ++i) b[at + i] = (char)(v >> 8 * i); first = std::min(first, at); };
    auto huge = [&](uint32_t n) { return (uint32_t)s.pick<uint64_t>({0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0x40000000u, 0x10000000u, 0x3FFFFFFFu, (uint64_t)n + 1, n ? n - 1 : 1, 0, 1000000, (uint64_t)r.u32()}); };
    size_t room = SIZE_MAX;
    switch (s.weighted({3, 3, 4, 4, 3, 2, 3})) {
    case 0: { size_t n = s.below(b.size()); b.resize(n); first = n; what = "cut"; break; }
    case 1: { what = "record length"; size_t at = c.at + 4; uint32_t v = huge((uint32_t)(c.end - c.at - 8) / 2); for (int i = 0; i < 4; ++i) b[at + i] = (char)(v >> 8 * (3 - i)); first = at; break; }
    case 2: what = "number of parts"; if (c.poly) le_at(c.at + 44, huge(c.parts)), keep_after = true; break;
    case 3: what = "number of points"; if (c.poly) le_at(c.at + 48, huge(c.points)), keep_after = true; break;
    case 4: what = "part index"; if (c.poly) { size_t k = s.below(c.parts); le_at(c.at + 52 + 4 * k, huge(c.points)); keep_after = true; } break;
    case 6: {   // whole records, of which one has no room for its points
        what = "record without its end"; size_t from = c.at + 52 + 4 * (size_t)c.parts; if (!c.poly || from >= c.end) break; size_t k = 2 * (size_t)s.range(1, (c.end - from) / 2); if (s.flip()) k = std::min<size_t>(k, 2 * s.range(1, 16));
        uint32_t v = (uint32_t)(c.end - c.at - 8 - k) / 2; for (int i = 0; i < 4; ++i) b[c.at + 4 + i] = (char)(v >> 8 * (3 - i)); b.erase(c.end - k, k); first = c.at; keep_after = true; room = (c.end - from - k) / 16; break; }
    default: { what = "bytes"; for (size_t k = s.range(1, 20); k--;) { size_t at = s.chance(1, 2) ? 100 + s.below(b.size() - 100) : s.below(b.size()); b[at] = (char)r.u64(); first = std::min(first, at); } if (s.chance(1, 4)) { size_t n = s.below(60); for (size_t i = 0; i < n; ++i) b += (char)r.u64(); } }
    }
    s.note("%zu records, %zu bytes, damaged: %s from byte %zu", f.recs.size(), f.b.size(), what, first); write("m.shp", b); CoastlineData d; bool ok = load(d, "m.shp", b.size());
    CHECK(ok == !d.polylines.empty(), "loading is reported as %s with %zu lines", ok ? "done" : "failed", d.polylines.size());
    // what lies before the damage is there or everything is refused; nothing is there that is not in the file
    size_t touched = 0; Map before; size_t whole = 0; for (auto& x : f.recs) { if (x.end > first) break; ++whole; for (auto& l : x.lines) before.push_back(l); }
    if (ok && first >= 100) CHECK(starts(d.polylines, before), "the records before the damage are not loaded as they are (%s loaded, %s before the damage)", show(d.polylines).c_str(), show(before).c_str());
    if (!strcmp(what, "cut")) CHECK(d.polylines.size() == before.size() || !ok, "%zu lines loaded from a cut file with %zu", d.polylines.size(), before.size());
    size_t points = 0; std::set<std::pair<uint32_t, uint32_t>> have; for (size_t i = 100; i + 16 <= b.size(); ++i) { double x, y; memcpy(&x, &b[i], 8); memcpy(&y, &b[i + 8], 8); float fx = (float)x, fy = (float)y; uint32_t ux, uy; memcpy(&ux, &fx, 4); memcpy(&uy, &fy, 4); have.insert({uy, ux}); }
    for (auto& l : d.polylines) for (auto& p : l) { ++points; uint32_t ua, uo; memcpy(&ua, &p.first, 4); memcpy(&uo, &p.second, 4); CHECK(have.count({ua, uo}), "a point %g %g is loaded that is not in the file", p.first, p.second); }
    CHECK(points * 16 <= b.size(), "%zu points loaded from %zu bytes", points, b.size());
    // the lengths of the records are intact: those after the damaged one are still found
    if (keep_after && ok) { Map after; for (auto& x : f.recs) if (x.at > first) for (auto& l : x.lines) after.push_back(l); CHECK(d.polylines.size() >= after.size(), "records after the damaged one are lost"); for (size_t i = 0; i < after.size(); ++i) CHECK(same(d.polylines[d.polylines.size() - after.size() + i], after[i]), "a record after the damaged one is loaded with other points"); }
    if (room != SIZE_MAX && ok) { size_t rest = 0; for (auto& x : f.recs) if (&x != &c) for (auto& l : x.lines) rest += l.size(); CHECK(points <= rest + room, "%zu points loaded, the damaged record holds %zu and the others %zu", points, room, rest); }
    (void)touched; if (whole) s.nontrivial(); s.label(what); s.label(!ok, "refused");
}
static std::string root() { const char* r = getenv("CLER_REPO"); return r ? r : "/repo"; }
// the map that comes with the repository, and damaged copies of it
PROPERTY(shipped, 40, 1500, "the shipped map with damage") {
    static Bytes orig; if (orig.empty()) { for (const char* n : {"/desktop_blocks/adsb/coastlines_map/ne_110m_coastline.shp", "/desktop_blocks/adsb/coastlines_map/ne_50m_coastline.shp"}) { std::ifstream i(root() + n, std::ios::binary); std::string t((std::istreambuf_iterator<char>(i)), {}); if (t.size() > orig.size() && orig.empty()) orig = t; } }
    if (orig.size() < 200) { s.label("no map in the repository"); return; }
    // reference reading
    Map want; auto u32 = [&](size_t o, bool big) { uint32_t v = 0; for (int i = 0; i < 4; ++i) v |= (uint32_t)(uint8_t)orig[o + i] << 8 * (big ? 3 - i : i); return v; };
    size_t recs = 0; for (size_t o = 100; o + 8 <= orig.size();) { size_t len = (size_t)u32(o + 4, true) * 2; if (u32(o + 8, false) == 3) { ++recs; uint32_t np = u32(o + 44, false), n = u32(o + 48, false); for (uint32_t k = 0; k < np; ++k) { uint32_t a = u32(o + 52 + 4 * k, false), e = k + 1 < np ? u32(o + 56 + 4 * k, false) : n; Line l; for (; a < e; ++a) { double x, y; size_t q = o + 52 + 4 * np + 16 * a; memcpy(&x, &orig[q], 8); memcpy(&y, &orig[q + 8], 8); l.push_back({(float)y, (float)x}); } want.push_back(l); } } o += 8 + len; }
    CoastlineData d; write("m.shp", orig); CHECK(load(d, "m.shp", orig.size()), "the shipped map is refused"); CHECK(d.polylines.size() == want.size() && starts(d.polylines, want), "the shipped map is not loaded as it is: %s, in the file %s", show(d.polylines).c_str(), show(want).c_str());
    Bytes b = orig; pbt::Bulk r(s.subseed()); size_t n = s.range(1, 40); for (size_t i = 0; i < n; ++i) b[100 + s.below(b.size() - 100)] = (char)(s.flip() ? 0xFF : r.u64()); if (s.flip()) b.resize(s.below(b.size())); write("m.shp", b); CoastlineData e; bool ok = load(e, "m.shp", b.size()); size_t pts = 0; for (auto& l : e.polylines) pts += l.size(); CHECK(pts * 16 <= b.size(), "%zu points loaded from %zu bytes", pts, b.size()); CHECK(ok == !e.polylines.empty(), "wrongly reported"); s.note("%zu records, %zu bytes changed", recs, n); s.nontrivial();
}
