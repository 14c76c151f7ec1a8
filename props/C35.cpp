// The map: aircraft and coastlines are where they are, and the view follows wheel and pointer.
#include "pbt.hpp"
#include "cprenc.hpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#include <algorithm>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
using Seg = ImDrawList::Seg; struct P { double x, y; };
static void be(std::string& b, uint32_t v) { for (int i = 3; i >= 0; --i) b += (char)(v >> 8 * i); }
static void le(std::string& b, uint32_t v) { for (int i = 0; i < 4; ++i) b += (char)(v >> 8 * i); }
static void dbl(std::string& b, double d) { uint64_t u; memcpy(&u, &d, 8); for (int i = 0; i < 8; ++i) b += (char)(u >> 8 * i); }
using Line = std::vector<std::pair<float, float>>;
static void write_map(const char* name, const std::vector<Line>& m) {
    std::string f; be(f, 9994); for (int i = 0; i < 6; ++i) be(f, 0); le(f, 1000); le(f, 3); for (int i = 0; i < 8; ++i) dbl(f, 0); uint32_t k = 0;
    for (auto& l : m) { std::string b; le(b, 3); for (int i = 0; i < 4; ++i) dbl(b, 0); le(b, 1); le(b, (uint32_t)l.size()); le(b, 0); for (auto& p : l) { dbl(b, p.second); dbl(b, p.first); } be(f, ++k); be(f, (uint32_t)b.size() / 2); f += b; }
    std::string n; be(n, (uint32_t)f.size() / 2); f.replace(24, 4, n); std::ofstream o(name, std::ios::binary | std::ios::trunc); o << f;
}
struct View { double lat, lon, zoom; ImVec2 at, size; int ops = 0; double span() const { return 2 / zoom; } double px() const { return size.y / span(); }
    P where(double la, double lo) const { return {at.x + size.x / 2 + (lo - lon) * px(), at.y + size.y / 2 - (la - lat) * px()}; }
    double tol() const { return 0.05 + (std::fabs(lat) + std::fabs(lon) + span() * (1 + size.x / size.y)) * 1.2e-7 * (6 + 2 * ops) * px(); } };
static double away(P q, const Seg& s) { double dx = s.b.x - s.a.x, dy = s.b.y - s.a.y, l = dx * dx + dy * dy, t = l > 0 ? std::min(1.0, std::max(0.0, ((q.x - s.a.x) * dx + (q.y - s.a.y) * dy) / l)) : 0; return std::hypot(q.x - s.a.x - t * dx, q.y - s.a.y - t * dy); }
// the part of a line inside the canvas less a margin
static bool clip(P a, P b, const View& v, double m, P& p, P& q) {
    double t0 = 0, t1 = 1, dx = b.x - a.x, dy = b.y - a.y, lo[2] = {v.at.x + m, v.at.y + m}, hi[2] = {v.at.x + v.size.x - m, v.at.y + v.size.y - m}, o[2] = {a.x, a.y}, d[2] = {dx, dy};
    for (int i = 0; i < 2; ++i) { if (d[i] == 0) { if (o[i] < lo[i] || o[i] > hi[i]) return false; continue; } double u = (lo[i] - o[i]) / d[i], w = (hi[i] - o[i]) / d[i]; if (u > w) std::swap(u, w); t0 = std::max(t0, u); t1 = std::min(t1, w); if (t0 >= t1) return false; }
    p = {a.x + t0 * dx, a.y + t0 * dy}; q = {a.x + t1 * dx, a.y + t1 * dy}; return true;
}
static bool less(const Seg& a, const Seg& b) { return memcmp(&a, &b, sizeof a) < 0; }
static ImDrawList frame(ADSBAggregateBlock& b) { ImGui::list = ImDrawList(); ImGui::colors.clear(); b.render(); return ImGui::list; }

struct Map {
    pbt::Src& s; View v; std::unique_ptr<ADSBAggregateBlock> shown, plain; std::vector<Line> coast; std::vector<ADSBState> planes; size_t inside = 0, visible = 0; bool moved = false;
    Map(pbt::Src& s_, bool lines) : s(s_) {
        ImGui::io = ImGuiIO(); for (int i = 0; i < 3; ++i) { ImGui::held[i] = false; ImGui::drag[i] = {}; }
        v.lat = s.flip() ? (double)s.below(7) * 10 : (double)(float)s.real(-75, 75); v.lon = s.flip() ? (double)s.below(17) * 10 : (double)(float)s.real(-160, 160); v.zoom = (double)0.1f;
        v.at = s.flip() ? ImVec2() : ImVec2((float)s.size(0, 400), (float)s.size(0, 300)); v.size = s.flip() ? ImVec2(1000, 500) : ImVec2((float)s.range(50, 1600), (float)s.range(50, 1000)); ImGui::corner = v.at; ImGui::canvas = v.size; v.size.x = std::max(v.size.x, 200.f); v.size.y = std::max(v.size.y, 200.f);
        if (lines) { pbt::Bulk r(s.subseed()); size_t n = s.size(1, 4); for (size_t i = 0; i < n; ++i) { Line l; double la = v.lat + s.real(-8, 8), lo = v.lon + s.real(-15, 15), step = s.pick({1.0, 10.0, 0.2, 0.02, 40.0}); size_t k = s.size(2, 30); for (size_t j = 0; j < k; ++j) { l.push_back({(float)la, (float)lo}); la += r.real(-step, step); lo += r.real(-step, step); la = std::max(-90.0, std::min(90.0, la)); } coast.push_back(l); } }
        write_map("coast.shp", coast); if (!lines) remove("coast.shp"); make(); s.note("centre %.4f %.4f, canvas %g,%g %gx%g, %zu coastlines;", v.lat, v.lon, v.at.x, v.at.y, v.size.x, v.size.y, coast.size());
    }
    void make() { shown = std::make_unique<ADSBAggregateBlock>("map", (float)v.lat, (float)v.lon, nullptr, nullptr, "coast.shp"); plain = std::make_unique<ADSBAggregateBlock>("map", (float)v.lat, (float)v.lon, nullptr, nullptr, "no such file"); }
    void aircraft(size_t n) {
        for (size_t i = 0; i < n; ++i) {
            double where = s.pick({0.3, 0.5, 1.5, 8.0}), la = std::max(-85.0, std::min(85.0, v.lat + s.real(-1, 1) * where * v.span())), lo = v.lon + s.real(-1, 1) * where * v.span() * v.size.x / v.size.y; lo = std::remainder(lo, 360.0); uint32_t a = 0x100000 + (uint32_t)i * 77;
            mode_s_msg m{}; m.crcok = 1; m.msgtype = 17; m.aa1 = (int)(a >> 16); m.aa2 = (int)(a >> 8 & 255); m.aa3 = (int)(a & 255); m.altitude = s.chance(1, 4) ? -(int)s.below(1000) : 1 + (int)s.below(50000);
            if (s.chance(4, 5)) { m.metype = 4; snprintf(m.flight, sizeof m.flight, "AB%zu", i); shown->in.push(m); memset(m.flight, 0, sizeof m.flight); }
            if (s.chance(4, 5)) { m.metype = 19; m.mesub = 1; m.ew_velocity = m.ns_velocity = 2; m.velocity = 100; m.heading = (int)s.below(360); shown->in.push(m); }
            if (s.chance(5, 6)) for (int odd = 0; odd < 2; ++odd) { auto e = cprenc::encode(la, lo, odd, false); m.metype = 11; m.fflag = odd; m.raw_latitude = e.yz; m.raw_longitude = e.xz; shown->in.push(m); }
        }
        while (shown->in.size()) (void)shown->procedure(); planes.resize(1000); planes.resize(shown->get_aircrafts(planes.data(), 1000)); s.note("%zu aircraft;", planes.size());
    }
    void look() {
        ImDrawList l = frame(*shown); std::vector<ImVec4> col = ImGui::colors; std::string info = ImGui::info; ImDrawList none = frame(*plain); double t = v.tol(); CHECK(l.clips == 0, "clip rectangles pushed and not popped");
        // aircraft
        size_t known = 0; for (auto& p : planes) known += p.position_valid; CHECK(l.tris.size() == known, "%zu aircraft are drawn, %zu have a position", l.tris.size(), known); std::vector<bool> said(l.labels.size()); std::vector<std::pair<int, float>> red; size_t named = 0; std::vector<std::vector<size_t>> fits; std::vector<const ADSBState*> who;
        for (auto& p : planes) if (p.position_valid) {
            P w = v.where(p.lat, p.lon), c = {std::max((double)v.at.x, std::min((double)v.at.x + v.size.x, w.x)), std::max((double)v.at.y, std::min((double)v.at.y + v.size.y, w.y))}; if (c.x == w.x && c.y == w.y) ++inside; double dir = p.track * M_PI / 180, best = 1e9; fits.emplace_back(); who.push_back(&p);
            for (size_t i = 0; i < l.tris.size(); ++i) { auto& q = l.tris[i]; double d = std::hypot((q.a.x + q.b.x + q.c.x) / 3.0 - c.x, (q.a.y + q.b.y + q.c.y) / 3.0 - c.y); double mx = (q.b.x + q.c.x) / 2.0, my = (q.b.y + q.c.y) / 2.0, off = std::fabs(std::remainder(std::atan2(q.a.x - mx, -(q.a.y - my)) - dir, 2 * M_PI)); best = std::min(best, d + 20 * off); if (d + 20 * off < 2 + t) fits.back().push_back(i); }
            CHECK(best < 2 + t, "the aircraft at %.5f %.5f heading %.0f should be drawn at %.2f %.2f (map %g,%g %gx%g, zoom %.3f); no arrow is there pointing that way, the nearest is %.2f off", p.lat, p.lon, p.track, c.x, c.y, v.at.x, v.at.y, v.size.x, v.size.y, v.zoom, best);
            if (p.callsign[0]) { ++named; bool found = false; for (size_t i = 0; i < l.labels.size() && !found; ++i) if (!said[i] && l.labels[i].text == p.callsign && std::hypot(l.labels[i].at.x - c.x, l.labels[i].at.y - c.y) < 25 + t) said[i] = found = true; CHECK(found, "the callsign '%s' is not beside its aircraft", p.callsign); }
        }
        // every arrow is some aircraft's: a matching exists
        std::vector<int> owner(l.tris.size(), -1); std::function<bool(size_t, std::vector<bool>&)> take = [&](size_t k, std::vector<bool>& seen) { for (size_t i : fits[k]) if (!seen[i]) { seen[i] = true; if (owner[i] < 0 || take((size_t)owner[i], seen)) { owner[i] = (int)k; return true; } } return false; };
        for (size_t k = 0; k < fits.size(); ++k) { std::vector<bool> seen(l.tris.size()); CHECK(take(k, seen), "fewer arrows than aircraft where aircraft are close together"); }
        for (auto& q : l.tris) { CHECK(std::hypot(q.a.x - (q.b.x + q.c.x) / 2, q.a.y - (q.b.y + q.c.y) / 2) > std::hypot(q.b.x - q.c.x, q.b.y - q.c.y), "an arrow is no longer than wide"); CHECK(q.color >= 1 && q.color <= col.size(), "the arrow's colour is not one asked for"); CHECK(col[q.color - 1].w == 1, "the arrow is not opaque"); }
        for (size_t i = 0; i < l.tris.size(); ++i) { size_t k = (size_t)owner[i], others = 0; for (auto& f : fits) others += std::count(f.begin(), f.end(), i); if (others == 1 && fits[k].size() == 1) red.push_back({who[k]->altitude, col[l.tris[i].color - 1].x}); }
        CHECK(l.labels.size() == named, "%zu labels for %zu callsigns", l.labels.size(), named);
        for (auto& a : red) for (auto& b : red) if (a.first >= 0 && a.first < b.first - 500 && a.first < 39000) CHECK(a.second < b.second, "an aircraft at %d ft is drawn as red (%g) as one at %d ft (%g)", a.first, a.second, b.first, b.second);
        // coastlines: what is drawn beyond the frame of a map without any
        std::vector<Seg> A = l.segs, B = none.segs, C; std::sort(A.begin(), A.end(), less); std::sort(B.begin(), B.end(), less); std::set_difference(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(C), less); std::vector<Seg> real; double m = 1 + t;
        for (auto& c : coast) for (size_t i = 0; i + 1 < c.size(); ++i) { P a = v.where(c[i].first, c[i].second), b = v.where(c[i + 1].first, c[i + 1].second), p, q; real.push_back({ImVec2((float)a.x, (float)a.y), ImVec2((float)b.x, (float)b.y)});
            if (clip(a, b, v, m, p, q) && std::hypot(p.x - q.x, p.y - q.y) > 2) { ++visible; for (int k = 0; k <= 4; ++k) { P w = {p.x + (q.x - p.x) * k / 4, p.y + (q.y - p.y) * k / 4}; double best = 1e9; for (auto& x : C) best = std::min(best, away(w, x)); CHECK(best < 1 + t, "the coastline from %.3f %.3f to %.3f %.3f crosses the map at %.1f %.1f (map %g,%g %gx%g, zoom %.3f), where nothing is drawn: the nearest line is %.1f away", c[i].first, c[i].second, c[i + 1].first, c[i + 1].second, w.x, w.y, v.at.x, v.at.y, v.size.x, v.size.y, v.zoom, best); } } }
        for (auto& x : C) { P p, q; if (clip({x.a.x, x.a.y}, {x.b.x, x.b.y}, v, m, p, q)) for (int k = 0; k <= 4; ++k) { P w = {p.x + (q.x - p.x) * k / 4, p.y + (q.y - p.y) * k / 4}; double best = 1e9; for (auto& r : real) best = std::min(best, away(w, r)); CHECK(best < 1 + t, "a line is drawn through %.1f %.1f (map %g,%g %gx%g, zoom %.3f), where no coast is: the nearest is %.1f away", w.x, w.y, v.at.x, v.at.y, v.size.x, v.size.y, v.zoom, best); } }
        // grid: lines straight across, at round coordinates
        // text
        size_t n = 0; CHECK(sscanf(info.c_str(), "Aircraft: %zu", &n) == 1 && n == planes.size(), "the map says '%s' with %zu aircraft", info.c_str(), planes.size());
    }
    void act() {
        ImVec2 c(v.at.x + v.size.x * (float)s.unit() * .99f, v.at.y + v.size.y * (float)s.unit() * .99f); bool over = s.chance(4, 5); if (!over) { if (s.flip()) c.x = v.at.x + (s.flip() ? -1 - (float)s.size(0, 50) : v.size.x + 1); else c.y = v.at.y + (s.flip() ? -1 - (float)s.size(0, 50) : v.size.y + 1); } ImGui::io.MousePos = c;
        auto both = [&] { auto d0 = ImGui::drag[0], d1 = ImGui::drag[1]; frame(*shown); ImGui::drag[0] = d0; ImGui::drag[1] = d1; frame(*plain); };
        if (s.flip()) { float w = s.pick({1.f, -1.f, 3.f, -3.f, 0.5f, -12.f, 20.f, 25.f, -25.f}); size_t n = s.size(1, 10); s.note(" wheel %g%s x%zu;", w, over ? "" : " off the map", n); for (size_t i = 0; i < n; ++i) { ImGui::io.MouseWheel = w; both(); ImGui::io.MouseWheel = 0; if (over) { v.zoom = std::max(0.01, std::min(50.0, v.zoom * (1 + w * 0.1))); if (v.zoom == 0.01 || v.zoom == 50) v.ops = std::max(1, v.ops); else ++v.ops; moved = true; } } return; }
        int b = (int)s.below(2); ImGui::held[b] = true; ImGui::drag[b] = {}; ImVec2 pend; size_t n = s.size(1, 5); s.note(" drag %s from %g %g:", b ? "right" : "left", c.x, c.y);
        for (size_t i = 0; i < n; ++i) {
            ImVec2 d((float)s.range(0, 120) - 60, (float)s.range(0, 80) - 40); c.x += d.x; c.y += d.y; ImGui::io.MousePos = c; ImGui::drag[b].x += d.x; ImGui::drag[b].y += d.y; pend.x += d.x; pend.y += d.y; bool in = c.x >= v.at.x && c.x < v.at.x + v.size.x && c.y >= v.at.y && c.y < v.at.y + v.size.y; both(); s.note(" %g,%g%s", d.x, d.y, in ? "" : " (off)");
            if (in) { v.lon -= pend.x / v.px(); v.lat += pend.y / v.px(); pend = {}; ++v.ops; moved = true; }
        }
        ImGui::held[b] = false; ImGui::drag[b] = {}; s.note(";");
    }
    void rest() { ImGui::io.MousePos = ImVec2(-1000, -1000); }
};
PROPERTY(aircraft, 4000, 80000, "at least two aircraft inside the map, pointer used") {
    Map m(s, false); if (s.flip()) m.aircraft(s.size(1, 8)); while (s.more(4)) m.act(); m.rest(); if (m.planes.empty()) m.aircraft(s.size(1, 8)); m.look(); while (s.more(3)) { m.act(); m.rest(); m.look(); } s.nontrivial(m.inside >= 2 && m.moved); s.label(m.v.zoom > 2, "zoomed in"); s.label(m.v.zoom < .05, "zoomed out");
}
PROPERTY(coastlines, 4000, 80000, "at least three visible segments of coast, pointer used") {
    Map m(s, true); m.look(); while (s.more(5)) { m.act(); m.rest(); m.look(); } s.nontrivial(m.visible >= 3 && m.moved);
}
PROPERTY(grid, 1500, 20000, "grid lines on the map") {
    Map m(s, false); while (s.more(5)) m.act(); m.rest(); ImDrawList l = frame(*m.plain); const View& v = m.v; double t = v.tol() + 1, step = v.span() > 1 ? 0.5 : 0.1; if (std::fabs(v.span() - 1) < 1e-3) return; size_t n = 0; bool okay = true; (void)okay;
    for (int axis = 0; axis < 2; ++axis) { double c = axis ? v.lon : v.lat, half = (axis ? v.size.x : v.size.y) / v.px() / 2; for (double k = std::ceil((c - half) / step); k * step <= c + half; ++k) { P w = axis ? v.where(v.lat, k * step) : v.where(k * step, v.lon); double pos = axis ? w.x : w.y, lo = axis ? v.at.x : v.at.y, hi = axis ? v.at.x + v.size.x : v.at.y + v.size.y; if (pos < lo + t + 1 || pos > hi - t - 1) continue; bool found = false; for (auto& g : l.segs) found |= axis ? std::fabs(g.a.x - pos) < t && std::fabs(g.b.x - pos) < t && std::fabs(g.a.y - g.b.y) > v.size.y - 2 : std::fabs(g.a.y - pos) < t && std::fabs(g.b.y - pos) < t && std::fabs(g.a.x - g.b.x) > v.size.x - 2; CHECK(found, "no grid line at %s %.1f (map %g,%g %gx%g, zoom %.3f)", axis ? "longitude" : "latitude", k * step, v.at.x, v.at.y, v.size.x, v.size.y, v.zoom); ++n; } }
    s.nontrivial(n > 2);
}
