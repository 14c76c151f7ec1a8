#include "pbt.hpp"
#include <memory>
#include <string>
#include <vector>
#include "cler.hpp"
#ifdef FALLBACK                     // what other compilers get
#include <string.h>
#include <cstdint>
#pragma push_macro("__GNUC__")
#undef __GNUC__
#undef __clang__
#include "cler_utils.hpp"
#pragma pop_macro("__GNUC__")
#else
#include "cler_utils.hpp"
#endif
using namespace cler;

static uint64_t gen_int(pbt::Src& s) {
    switch (s.below(6)) {
    case 0: return s.below(40);
    case 1: { uint64_t p = 1ull << s.below(64); return p + (uint64_t)s.below(5) - 2; }
    case 2: { uint64_t p = 1ull << s.below(64), q = 1ull << s.below(64); return p | q; }
    case 3: return s.bits(64);
    case 4: { unsigned n = 1 + (unsigned)s.below(63); return s.bits(64) >> (64 - n); }
    default: return UINT64_MAX - s.below(40);
    }
}
PROPERTY(powers_of_two, 200000, 3000000, "one integer of the whole 64-bit range (around powers of two, sparse, dense, at the ends) compared with a search over all powers; non-trivial: at least 3") {
    uint64_t x = gen_int(s); s.note("%llu", (unsigned long long)x);
    unsigned __int128 fl = 0, ce = 0; bool is = false;
    for (unsigned __int128 p = 1; p <= (unsigned __int128)1 << 64; p <<= 1) { if (p <= x) fl = p; if (!ce && p >= x) ce = p; if (p == x) is = true; }
    if (x) CHECK(floor2p2(x) == (uint64_t)fl, "floor2p2(%llu) = %llu, the largest power of two not above is %llu", (unsigned long long)x, (unsigned long long)floor2p2(x), (unsigned long long)fl);
    else CHECK(floor2p2(0) == 0, "floor2p2(0) = %llu", (unsigned long long)floor2p2(0));
    if (ce <= (unsigned __int128)1 << 63) CHECK(ceil2p2(x) == (uint64_t)ce, "ceil2p2(%llu) = %llu, the smallest power of two not below is %llu", (unsigned long long)x, (unsigned long long)ceil2p2(x), (unsigned long long)ce);
    CHECK(is_power_of_2(x) == is, "is_power_of_2(%llu) = %d", (unsigned long long)x, (int)is_power_of_2(x));
    CHECK(is_power_of_2(x) == (x && floor2p2(x) == x), "is_power_of_2 and floor2p2 disagree on %llu", (unsigned long long)x);
    s.nontrivial(x >= 3);
}

template <size_t N> static void eq(const EmbeddableString<N>& e, const std::string& m, const char* how) {
    CHECK(e.length() == m.size(), "%s: length %zu, expected %zu", how, e.length(), m.size());
    CHECK(!memcmp(e.c_str(), m.data(), m.size()), "%s: '%s', expected '%s'", how, e.c_str(), m.c_str());
    CHECK(e.c_str()[m.size()] == 0, "%s: not terminated", how);
    CHECK((const char*)e == e.c_str() && e.empty() == m.empty(), "%s: conversion or empty()", how);
}
static std::string text(pbt::Src& s, size_t n) {
    size_t len = s.chance(1, 3) ? (n > 3 ? n - 3 + s.below(6) : s.below(6)) : s.chance(1, 6) ? s.below(4 * n + 2) : s.below(n + 1);
    std::string t; pbt::Bulk r(s.subseed()); for (size_t i = 0; i < len; ++i) t += (char)(1 + r.below(255));
    return t;
}
template <size_t N> static void strings(pbt::Src& s) {
    using E = EmbeddableString<N>; auto fit = [](const std::string& t) { return t.substr(0, N - 1); };
    struct Heap { unsigned char before[16]; E e; unsigned char after[16]; };
    std::vector<std::unique_ptr<E>> v; std::vector<std::string> m; bool cut = false;
    v.emplace_back(new E()); m.push_back(""); eq(*v[0], m[0], "default");
    unsigned n = 1 + (unsigned)s.below(12); s.note("N=%zu: ", N);
    for (unsigned i = 0; i < n; ++i) {
        std::string t = text(s, N); size_t a = s.below(v.size()), b = s.below(v.size()); cut |= t.size() > N - 1;
        unsigned op = (unsigned)s.below(8); s.note("%u(%zu) ", op, t.size());
        std::string r;
        switch (op) {
        case 0: v.emplace_back(new E(t.c_str())); m.push_back(fit(t)); break;
        case 1: v.emplace_back(new E(t)); m.push_back(fit(t)); break;
        case 2: v.emplace_back(new E(*v[a])); r = m[a]; m.push_back(r); break;
        case 3: *v[a] = *v[b]; r = m[b]; m[a] = r; break;
        case 4: v.emplace_back(new E(*v[a] + t.c_str())); r = fit(m[a] + t); m.push_back(r); break;
        case 5: v.emplace_back(new E(*v[a] + *v[b])); r = fit(m[a] + m[b]); cut |= m[a].size() + m[b].size() >= N; m.push_back(r); break;
        case 6: *v[a] = E(t.c_str()); m[a] = fit(t); break;
        default: v.emplace_back(new E((const char*)nullptr)); m.push_back(""); break;
        }
        for (size_t k = 0; k < v.size(); ++k) eq(*v[k], m[k], "after an operation");
    }
    s.nontrivial(cut); s.label(cut, "truncated"); s.label(N == 1, "no room at all");
}
PROPERTY(embeddable_string, 40000, 600000, "a history of constructions, copies, assignments and concatenations of fixed-size strings (any bytes but zero) against std::string cut to size; non-trivial: something did not fit") {
    switch (s.below(6)) { case 0: strings<64>(s); break; case 1: strings<8>(s); break; case 2: strings<1>(s); break; case 3: strings<2>(s); break; case 4: strings<33>(s); break; default: strings<256>(s); }
}

struct Big { std::string a; std::vector<int> b; };
PROPERTY(result, 20000, 200000, "a result holding a generated value or error is copied, assigned and unwrapped; non-trivial: always") {
    s.nontrivial();
    bool ok = s.flip(); uint32_t x = (uint32_t)s.bits(32); Error e = (Error)s.below((size_t)Error::TERM_EOFReached + 1);
    s.note("%s %u", ok ? "value" : "error", ok ? x : (unsigned)e);
    auto test = [&](auto r) {
        CHECK(r.is_ok() == ok && r.is_err() == !ok, "is_ok %d is_err %d", (int)r.is_ok(), (int)r.is_err());
        bool t1 = false, t2 = false;
        try { if (!(r.unwrap() == x)) FAIL_CASE("another value than the one stored"); } catch (const std::exception&) { t1 = true; }
        try { if (r.unwrap_err() != e) FAIL_CASE("another error than the one stored"); } catch (const std::exception&) { t2 = true; }
        CHECK(t1 == !ok && t2 == ok, "unwrap of a %s %s, unwrap_err %s", ok ? "value" : "error", t1 ? "refused" : "went through", t2 ? "refused" : "went through");
        if (ok) { r.unwrap() = x + 1; CHECK(r.unwrap() == x + 1, "written value lost"); r.unwrap() = x; }
    };
    Result<uint32_t, Error> r = ok ? Result<uint32_t, Error>(x) : Result<uint32_t, Error>(e);
    test(r); auto c = r; test(c);
    Result<uint32_t, Error> o = s.flip() ? Result<uint32_t, Error>(7u) : Result<uint32_t, Error>(Error::BadData); o = r; test(o); auto mv = std::move(o); test(mv);
    std::string t(s.below(100), 'x'); t += std::to_string(x);
    Result<std::string, Error> q = ok ? Result<std::string, Error>(t) : Result<std::string, Error>(e); auto q2 = q;
    if (ok) CHECK(q2.unwrap() == t && q.unwrap() == t, "text lost"); else CHECK(q2.unwrap_err() == e, "error lost");
    Result<Empty, Error> z = ok ? Result<Empty, Error>(Empty{}) : Result<Empty, Error>(e); CHECK(z.is_ok() == ok, "empty result");
    if (!ok) CHECK(z.unwrap_err() == e, "error lost");
    auto p = ok ? Result<std::shared_ptr<int>, Error>(std::make_shared<int>(3)) : Result<std::shared_ptr<int>, Error>(e);
    if (ok) { auto k = p.unwrap(); CHECK(k.use_count() == 2, "reference count %ld", k.use_count()); }
}
PROPERTY(errors, 400, 2000, "one pair of errors: fatality by name, distinct readable text; non-trivial: always") {
    s.nontrivial();
    struct E { Error e; bool fatal; const char* nm; };
    static const E all[] = {{Error::OK, false, "OK"}, {Error::Unknown, false, "Unknown"}, {Error::NotEnoughSamples, false, "NotEnoughSamples"}, {Error::NotEnoughSpace, false, "NotEnoughSpace"}, {Error::NotEnoughSpaceOrSamples, false, "NotEnoughSpaceOrSamples"}, {Error::ProcedureError, false, "ProcedureError"}, {Error::BadData, false, "BadData"},
        {Error::TERMINATE_FLOWGRAPH, true, "TERMINATE_FLOWGRAPH"}, {Error::TERM_InvalidChannelIndex, true, "TERM_InvalidChannelIndex"}, {Error::TERM_ProcedureError, true, "TERM_ProcedureError"}, {Error::TERM_IOError, true, "TERM_IOError"}, {Error::TERM_EOFReached, true, "TERM_EOFReached"}};
    for (auto& a : all) {
        CHECK(is_fatal(a.e) == a.fatal, "is_fatal(%s) = %d", a.nm, (int)is_fatal(a.e));
        const char* t = to_str(a.e); CHECK(t && strlen(t) >= 2, "%s has no text", a.nm); for (const char* c = t; *c; ++c) CHECK(*c >= 32 && *c < 127, "%s: unreadable text", a.nm);
        CHECK(!strcmp(error_to_cstring(a.e), t), "%s: error_to_cstring says '%s'", a.nm, error_to_cstring(a.e));
        for (auto& b : all) if (&a != &b) { CHECK(a.e != b.e, "%s and %s are the same", a.nm, b.nm); CHECK(strcmp(t, to_str(b.e)), "%s and %s both read '%s'", a.nm, b.nm, t); }
    }
    s.note("all %zu errors", sizeof all / sizeof *all);
    // text says the kind
    CHECK(strstr(to_str(Error::TERM_EOFReached), "EOF") && strstr(to_str(Error::NotEnoughSamples), "sample") && strstr(to_str(Error::NotEnoughSpace), "space"), "texts do not describe their errors");
    size_t k = s.below(12); s.label(all[k].nm); s.below(1000000);
}
