// Compact position encoder written from the standard's formulas.
#pragma once
#include <cmath>
namespace cprenc {
using ld = long double; static const ld PI = acosl(-1.0L);
inline ld mod(ld a, ld b) { return a - b * floorl(a / b); }
// number of longitude zones, from its defining formula; `close`: within the precision of published tables of a transition
inline int NL(ld lat, bool* close = nullptr) {
    auto f = [](ld a) { a = fabsl(a); if (a < 1e-12L) return 59; if (a == 87) return 2; if (a > 87) return 1; ld c = cosl(PI / 180 * a); return (int)floorl(2 * PI / acosl(1 - (1 - cosl(PI / 30)) / (c * c))); };
    if (close) *close = f(lat - 2e-8L) != f(lat + 2e-8L) && fabsl(lat) != 87;
    return f(lat);
}
struct Enc { int yz, xz; ld dlat, dlon, rlat; int nl; bool close; };
inline Enc encode(ld lat, ld lon, int odd, bool surface) {
    Enc e; ld full = surface ? 90 : 360; e.dlat = full / (60 - odd); ld yz = floorl(131072 * mod(lat, e.dlat) / e.dlat + 0.5L); e.rlat = e.dlat * (yz / 131072 + floorl(lat / e.dlat));
    e.nl = NL(e.rlat, &e.close); int n = e.nl - odd; e.dlon = full / (n > 1 ? n : 1); ld xz = floorl(131072 * mod(lon, e.dlon) / e.dlon + 0.5L); e.yz = (int)yz & 0x1FFFF; e.xz = (int)xz & 0x1FFFF; return e;
}
inline ld away(ld a, ld b) { return fabsl(remainderl(a - b, 360)); }
}
