// Independent Mode S encoder, checksum and bit access for the ADS-B checks.
#pragma once
#include "pbt.hpp"
#include <array>
namespace ms {
using Msg = std::array<uint8_t, 14>;
inline uint32_t get(const uint8_t* m, int first, int last) { uint32_t v = 0; for (int b = first; b <= last; ++b) v = v << 1 | (m[(b - 1) / 8] >> (7 - (b - 1) % 8) & 1); return v; }   // bits 1..112
inline void put(uint8_t* m, int first, int last, uint32_t v) { for (int b = last; b >= first; --b, v >>= 1) { uint8_t k = 1 << (7 - (b - 1) % 8); if (v & 1) m[(b - 1) / 8] |= k; else m[(b - 1) / 8] &= ~k; } }
inline void flip(uint8_t* m, int b) { m[b / 8] ^= 1 << (7 - b % 8); }    // bits 0..111
// remainder of the first nbits-24 bits by the Mode S generator polynomial, bit by bit
inline uint32_t parity(const uint8_t* m, int nbits) {
    uint32_t r = 0;
    for (int i = 0; i < nbits - 24; ++i) { uint32_t b = (m[i / 8] >> (7 - i % 8) & 1) ^ (r >> 23 & 1); r = (r << 1) & 0xFFFFFF; if (b) r ^= 0xFFF409; }
    return r;
}
inline uint32_t syndrome(const uint8_t* m, int nbits) { return parity(m, nbits) ^ get(m, nbits - 23, nbits); }
inline int length(int df) { return df == 16 || df == 17 || df == 19 || df == 20 || df == 21 ? 112 : 56; }   // the formats the decoder knows
inline void seal(Msg& m, uint32_t overlay) { int n = length(m[0] >> 3); put(m.data(), n - 23, n, parity(m.data(), n) ^ overlay); }
inline bool has_ap(int df) { return df == 0 || df == 4 || df == 5 || df == 16 || df == 20 || df == 21 || df == 24; }
inline std::string hex(const uint8_t* m, int n = 14) { std::string r; char t[4]; for (int i = 0; i < n; ++i) { snprintf(t, 4, "%02x", m[i]); r += t; } return r; }
// the character set of callsigns
inline int ais(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 1 : c >= '0' && c <= '9' ? c : c == ' ' ? 32 : -1; }
inline char unais(int v) { return v >= 1 && v <= 26 ? 'A' + v - 1 : v == 32 ? ' ' : v >= 48 && v <= 57 ? '0' + v - 48 : '?'; }
// 25-foot altitude codes
inline uint32_t ac12(int feet) { uint32_t n = (feet + 1000) / 25; return (n >> 4) << 5 | 1 << 4 | (n & 15); }
inline uint32_t ac13(int feet) { uint32_t n = (feet + 1000) / 25; return (n >> 5) << 7 | (n >> 4 & 1) << 5 | 1 << 4 | (n & 15); }
// squawk digits A B C D -> bits 20..32
inline uint32_t id13(int a, int b, int c, int d) {
    auto t = [](int v, int k) { return (uint32_t)(v >> k & 1); };   // k=0: weight 1
    uint32_t r = 0; for (uint32_t x : {t(c, 0), t(a, 0), t(c, 1), t(a, 1), t(c, 2), t(a, 2), 0u, t(b, 0), t(d, 0), t(b, 1), t(d, 1), t(b, 2), t(d, 2)}) r = r << 1 | x;
    return r;
}
inline Msg squitter(uint32_t icao, int ca = 5) { Msg m{}; put(m.data(), 1, 5, 17); put(m.data(), 6, 8, ca); put(m.data(), 9, 32, icao); return m; }
inline Msg ident(uint32_t icao, int tc, int cat, const char* cs) { Msg m = squitter(icao); put(m.data(), 33, 37, tc); put(m.data(), 38, 40, cat); for (int i = 0; i < 8; ++i) put(m.data(), 41 + 6 * i, 46 + 6 * i, ais(cs[i])); seal(m, 0); return m; }
inline Msg position(uint32_t icao, int tc, int feet, bool odd, int lat, int lon, bool utc = false) { Msg m = squitter(icao); put(m.data(), 33, 37, tc); put(m.data(), 41, 52, ac12(feet)); put(m.data(), 53, 53, utc); put(m.data(), 54, 54, odd); put(m.data(), 55, 71, lat); put(m.data(), 72, 88, lon); seal(m, 0); return m; }
struct Vel { int st, ewdir, ew, nsdir, ns, vrsrc, vrsign, vr; };
inline Msg velocity(uint32_t icao, const Vel& v) {
    Msg m = squitter(icao); put(m.data(), 33, 37, 19); put(m.data(), 38, 40, v.st); put(m.data(), 46, 46, v.ewdir); put(m.data(), 47, 56, v.ew); put(m.data(), 57, 57, v.nsdir); put(m.data(), 58, 67, v.ns);
    put(m.data(), 68, 68, v.vrsrc); put(m.data(), 69, 69, v.vrsign); put(m.data(), 70, 78, v.vr); seal(m, 0); return m;
}
}
