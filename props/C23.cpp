// C23: compact position reports against an encoder written from the standard's formulas.
#include "pbt.hpp"
#include "cprenc.hpp"
#include "desktop_blocks/adsb/cpr.h"
#include <cmath>
using namespace cprenc;
static const double trans[] = {10.47047130, 14.82817437, 59.95459277, 86.53536998, 87.0, 85.75541621, 83.07199445, 45.54626723, 36.85025108, 74.43893416};
static ld gen_lat(pbt::Src& s) {
    ld v; switch (s.weighted({5, 3, 2, 3, 2})) {
    case 0: v = s.real(-90, 90); break;
    case 1: v = trans[s.below(10)] + s.pick({0.0, 1e-3, -1e-3, 1e-5, -1e-5, 0.04, -0.04}) * s.unit(); if (s.flip()) v = -v; break;
    case 2: v = s.pick({0.0, 90.0, -90.0, 87.0, -87.0, 45.0, -45.0, 6.0, -6.0, 60.0}); break;
    case 3: { int odd = (int)s.below(2); ld d = (s.flip() ? 360.0L : 90.0L) / (60 - odd); v = d * ((int)s.below(31) - 15) + s.pick({0.0, 1e-5, -1e-5, 0.5, -0.5}) * (double)(s.flip() ? d : 1.0L); break; }
    default: v = (s.flip() ? 1 : -1) * (90 - s.real(0, 0.01)); }
    return v > 90 ? 90 : v < -90 ? -90 : v;
}
static ld gen_lon(pbt::Src& s) {
    ld v = s.weighted({5, 2, 2}) == 0 ? s.real(-180, 180) : s.flip() ? s.pick({0.0, 180.0, -180.0, 90.0, -90.0, 45.0, -135.0}) + s.pick({0.0, 1e-6, -1e-6, 1e-4, -0.2}) : 360.0L / s.range(1, 59) * ((int)s.below(60) - 30);
    v = mod(v + 180, 360) - 180; return v;
}
static void valid(double la, double lo) { CHECK(std::isfinite(la) && std::isfinite(lo) && std::fabs(la) <= 90 + 1e-9 && std::fabs(lo) <= 180 + 1e-9, "the result %.9f %.9f is no position on earth", la, lo); }
static void right(const Enc& e, ld lat, ld lon, double la, double lo) {
    valid(la, lo); CHECK(fabsl(la - lat) <= e.dlat / 262144 * 1.0001L + 1e-9L, "latitude %.9f, encoded was %.9Lf", la, lat);
    if (fabsl(lat) < 89.999999L) CHECK(away(lo, lon) <= e.dlon / 262144 * 1.0001L + 1e-9L, "longitude %.9f, encoded was %.9Lf (%d zones)", lo, lon, e.nl);
}
// the frames of a pair are sent from two places a few seconds' flight apart
static bool two(pbt::Src& s, bool surface, ld& lat, ld& lon, Enc e[2], ld la[2], ld lo[2]) {
    lat = gen_lat(s); lon = gen_lon(s); int later = (int)s.below(2); bool moved = s.flip(); ld k = surface ? 0.25L : 1; e[later] = encode(lat, lon, later, surface); la[later] = lat; lo[later] = lon;
    la[!later] = lat; lo[!later] = lon;
    if (moved) { la[!later] = lat + k * s.real(-0.045, 0.045); if (fabsl(la[!later]) > 90) la[!later] = lat; int n = std::max(NL(la[!later]), e[later].nl); ld lim = n > 1 ? k * 160.0L / (n * (n - 1)) : 1; lo[!later] = mod(lon + std::min(lim, (ld)2) * s.real(-1, 1) + 180, 360) - 180; }
    e[!later] = encode(la[!later], lo[!later], !later, surface); return moved;
}
PROPERTY(airborne_pair, 300000, 5000000, "the two frames come from different places, or from zone borders") {
    ld lat, lon, la[2], lo[2]; Enc e[2]; bool moved = two(s, false, lat, lon, e, la, lo); s.note("even from %.9Lf %.9Lf = %d,%d; odd from %.9Lf %.9Lf = %d,%d", la[0], lo[0], e[0].yz, e[0].xz, la[1], lo[1], e[1].yz, e[1].xz);
    if (e[0].close || e[1].close) return; bool same = e[0].nl == e[1].nl;
    for (int f = 0; f < 2; ++f) {
        double a = 999, b = 999; int r = decodeCPRairborne(e[0].yz, e[0].xz, e[1].yz, e[1].xz, f, &a, &b);
        if (!same) CHECK(r != 0, "a pair from latitudes with %d and %d longitude zones is decoded, as %.6f %.6f", e[0].nl, e[1].nl, a, b);
        else { CHECK(r == 0, "a consistent pair is refused (%d), %s last", r, f ? "odd" : "even"); right(e[f], la[f], lo[f], a, b); }
    }
    if (moved || fabsl(lat) > 86) s.nontrivial(); s.label(!same, "different zones"); s.label(fabsl(lat) > 87, "polar");
}
PROPERTY(surface_pair, 300000, 5000000, "the two frames come from different places, or from zone borders") {
    ld lat, lon, la[2], lo[2]; Enc e[2]; bool moved = two(s, true, lat, lon, e, la, lo);
    // a receiver anywhere within 45 degrees either way
    ld rla = lat + s.pick({0.0, 1.0, 44.9, -44.9}) * s.unit(), rlo = lon + s.pick({0.0, 1.0, 44.9, -44.9}) * s.unit(); if (rla > 90) rla = 90; if (rla < -90) rla = -90;
    if (fabsl(rla - la[0]) > 44.95L || fabsl(rla - la[1]) > 44.95L) rla = lat; rlo = mod(rlo + 180, 360) - 180;
    s.note("even from %.9Lf %.9Lf = %d,%d; odd from %.9Lf %.9Lf = %d,%d; receiver at %.6Lf %.6Lf", la[0], lo[0], e[0].yz, e[0].xz, la[1], lo[1], e[1].yz, e[1].xz, rla, rlo);
    if (e[0].close || e[1].close) return; bool same = e[0].nl == e[1].nl;
    for (int f = 0; f < 2; ++f) {
        if (away(rlo, lo[f]) > 44.95L) continue; double a = 999, b = 999; int r = decodeCPRsurface((double)rla, (double)rlo, e[0].yz, e[0].xz, e[1].yz, e[1].xz, f, &a, &b);
        if (!same) CHECK(r != 0, "a pair from latitudes with %d and %d longitude zones is decoded, as %.6f %.6f", e[0].nl, e[1].nl, a, b);
        else { CHECK(r == 0, "a consistent pair is refused (%d), %s last", r, f ? "odd" : "even"); right(e[f], la[f], lo[f], a, b); }
    }
    if (moved || fabsl(lat) > 86) s.nontrivial(); s.label(!same, "different zones"); s.label(away(rlo, lon) < fabsl(rlo - lon), "across the date line");
}
PROPERTY(relative, 400000, 6000000, "the reference is more than a tenth of a zone away") {
    ld lat = gen_lat(s), lon = gen_lon(s); int odd = (int)s.below(2); bool surface = s.flip(); Enc e = encode(lat, lon, odd, surface); if (e.close) return;
    double u = s.real(-0.49, 0.49), v = s.real(-0.49, 0.49); ld rla = lat + u * e.dlat, rlo = lon + v * e.dlon; if (fabsl(rla) > 90) rla = rla > 0 ? 90 : -90; rlo = mod(rlo + 180, 360) - 180;
    if (s.chance(1, 6)) { double d = (surface ? 90.0 : 360.0) / (60 - odd), z = d * std::round((double)(rla / d)); if (std::fabs(z) <= 90 && fabsl(z - lat) <= 0.49L * e.dlat) rla = z; }   // right on a border
    if (s.chance(1, 6)) { double d = (double)e.dlon, z = d * std::round((double)(rlo / d)); if (std::fabs(z) <= 180 && away(z, lon) <= 0.49L * e.dlon) rlo = z; }
    s.note("%s %s %.9Lf %.9Lf = %d,%d, reference %.9Lf %.9Lf", surface ? "surface" : "airborne", odd ? "odd" : "even", lat, lon, e.yz, e.xz, rla, rlo);
    double a = 999, b = 999; int r = decodeCPRrelative((double)rla, (double)rlo, e.yz, e.xz, odd, surface, &a, &b);
    CHECK(r == 0, "a position %.2f and %.2f zones from the reference is refused", u, v); right(e, lat, lon, a, b);
    if (std::fabs(u) > 0.1 || std::fabs(v) > 0.1) s.nontrivial(); s.label(away(rlo, lon) < fabsl(rlo - lon), "across the date line");
}
// whatever comes in: a place on earth that encodes to what was received (and is near the reference), or a refusal that leaves the result alone
PROPERTY(arbitrary, 400000, 6000000, "something was decoded") {
    int y0 = (int)s.below(131072), x0 = (int)s.below(131072), y1 = (int)s.below(131072), x1 = (int)s.below(131072); for (int* p : {&y0, &x0, &y1, &x1}) if (s.chance(1, 6)) *p = s.pick({0, 131071, 65536, 98304, 32768});
    ld rla = gen_lat(s), rlo = gen_lon(s); int f = (int)s.below(2), kind = (int)s.below(4); bool surface = kind == 1 || kind == 3; double a = 999, b = 999;
    s.note("kind %d: %d,%d %d,%d last %d reference %.9Lf %.9Lf", kind, y0, x0, y1, x1, f, rla, rlo);
    int r = kind == 0 ? decodeCPRairborne(y0, x0, y1, x1, f, &a, &b) : kind == 1 ? decodeCPRsurface((double)rla, (double)rlo, y0, x0, y1, x1, f, &a, &b) : decodeCPRrelative((double)rla, (double)rlo, f ? y1 : y0, f ? x1 : x0, f, surface, &a, &b);
    if (r) { CHECK(a == 999 && b == 999, "a refused decoding changed the result"); return; }
    valid(a, b); Enc e = encode(a, b, f, surface); if (e.close) return;
    auto near = [](int p, int q) { int d = std::abs(p - q); return std::min(d, 131072 - d) <= 1; };
    CHECK(near(e.yz, f ? y1 : y0), "decoded to %.9f %.9f, whose latitude encodes to %d", a, b, e.yz); CHECK(near(e.xz, f ? x1 : x0), "decoded to %.9f %.9f, whose longitude encodes to %d", a, b, e.xz);
    if (kind >= 2) { CHECK(fabsl(a - rla) <= e.dlat / 2 + 1e-6L && away(b, rlo) <= e.dlon / 2 + 1e-6L, "decoded to %.9f %.9f, more than half a zone from the reference", a, b); }
    else if (kind == 1) CHECK(fabsl(a - rla) <= 90 + 1e-6L && away(b, rlo) <= 45 + 1e-6L, "decoded to %.9f %.9f, not the solution nearest to the reference", a, b);
    s.nontrivial(); s.label(kind == 0 ? "airborne" : kind == 1 ? "surface" : "relative");
}
