// C20: UDP source and sink blocks against a scripted socket, address text, and real UNIX/loopback sockets.
#include "dsp.hpp"
#include "desktop_blocks/udp/shared.hpp"
#include "desktop_blocks/udp/sink_udp.hpp"
#include "desktop_blocks/udp/source_udp.hpp"
#include <array>
#include <sys/uio.h>
using UDPBlock::SocketType;
using Bytes = std::vector<uint8_t>;
static std::string hex(const Bytes& b) { std::string r; char t[4]; for (size_t i = 0; i < b.size() && i < 24; ++i) { snprintf(t, 4, "%02x", b[i]); r += t; } if (b.size() > 24) r += "..."; return r + "[" + std::to_string(b.size()) + "]"; }

// ---- the scripted socket (linked with --wrap) ---------------------------------------------
struct Ev { int kind; Bytes data; };            // 0: a datagram, 1: nothing has arrived for now, 2: a datagram that is waited for, else: errno kind-1000
struct Net {
    std::vector<Ev> script; size_t pos = 0;
    bool timeout = false;                        // SO_RCVTIMEO set on the socket
    std::function<void()> on_wait;               // called when a receive has to wait
    size_t waits = 0, reads = 0, call_waits = 0; bool fatal_seen = false, stop_seen = false;
    std::vector<int> send_plan; size_t sends = 0; bool send_failed = false;
    std::vector<Bytes> sent; std::vector<bool> sent_ok; std::vector<Bytes> dest;
    Bytes bound; bool have_bound = false; int family = 0;
    ssize_t recv(const std::vector<iovec>& v, int flags, int* out_flags) {
        ++reads;
        if (pos < script.size() && script[pos].kind >= 1000) {
            errno = script[pos++].kind - 1000; stop_seen = true;
            if (errno != EAGAIN && errno != EINTR) fatal_seen = true;
            return -1;
        }
        if (pos >= script.size() || script[pos].kind == 1) {
            if (!(flags & MSG_DONTWAIT)) {
                ++waits; if (on_wait) on_wait();
                CHECK(timeout, "the block waits for a datagram without a time limit: the flowgraph cannot stop meanwhile");
            }
            if (pos < script.size()) ++pos;
            errno = EAGAIN; stop_seen = true; return -1;
        }
        if (script[pos].kind == 2) {
            script[pos].kind = 0;       // arrives now
            if (flags & MSG_DONTWAIT) { errno = EAGAIN; stop_seen = true; return -1; }
            ++waits; ++call_waits; if (on_wait) on_wait(); CHECK(timeout, "the block waits for a datagram without a time limit: the flowgraph cannot stop meanwhile");
            CHECK(call_waits <= 2, "one call waits for datagrams %zu times: while they trickle in the flowgraph cannot stop", call_waits);
        }
        const Bytes& d = script[pos++].data; size_t o = 0;
        for (auto& i : v) { size_t n = std::min(i.iov_len, d.size() - o); if (n) memcpy(i.iov_base, d.data() + o, n); o += n; }
        if (out_flags) *out_flags = o < d.size() ? MSG_TRUNC : 0;
        return (flags & MSG_TRUNC) ? d.size() : o;
    }
    ssize_t send(const std::vector<iovec>& v, const void* a, size_t al) {
        Bytes d; for (auto& i : v) d.insert(d.end(), (const uint8_t*)i.iov_base, (const uint8_t*)i.iov_base + i.iov_len);
        int e = sends < send_plan.size() ? send_plan[sends] : 0; ++sends;
        sent.push_back(d); sent_ok.push_back(!e); dest.push_back(a ? Bytes((const uint8_t*)a, (const uint8_t*)a + al) : Bytes());
        if (e) { errno = e; send_failed = true; return -1; }
        return d.size();
    }
};
static Net* N;
extern "C" {
int __real_bind(int, const sockaddr*, socklen_t); int __real_setsockopt(int, int, int, const void*, socklen_t);
ssize_t __real_recvmsg(int, msghdr*, int); ssize_t __real_recv(int, void*, size_t, int); ssize_t __real_recvfrom(int, void*, size_t, int, sockaddr*, socklen_t*);
ssize_t __real_sendmsg(int, const msghdr*, int); ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_sendto(int, const void*, size_t, int, const sockaddr*, socklen_t);
int __wrap_bind(int fd, const sockaddr* a, socklen_t n) { if (!N) return __real_bind(fd, a, n); N->bound.assign((const uint8_t*)a, (const uint8_t*)a + n); N->have_bound = true; return 0; }
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (N && l == SOL_SOCKET && o == SO_RCVTIMEO) { auto t = (const timeval*)v; N->timeout = t->tv_sec || t->tv_usec; return 0; } return __real_setsockopt(fd, l, o, v, n); }
ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) { if (!N) return __real_recvmsg(fd, m, f); m->msg_namelen = 0; return N->recv(std::vector<iovec>(m->msg_iov, m->msg_iov + m->msg_iovlen), f, &m->msg_flags); }
ssize_t __wrap_recv(int fd, void* p, size_t n, int f) { if (!N) return __real_recv(fd, p, n, f); return N->recv({{p, n}}, f, nullptr); }
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int f, sockaddr* a, socklen_t* l) { if (!N) return __real_recvfrom(fd, p, n, f, a, l); if (l) *l = 0; return N->recv({{p, n}}, f, nullptr); }
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int f) { if (!N) return __real_sendmsg(fd, m, f); return N->send(std::vector<iovec>(m->msg_iov, m->msg_iov + m->msg_iovlen), m->msg_name, m->msg_namelen); }
ssize_t __wrap_send(int fd, const void* p, size_t n, int f) { if (!N) return __real_send(fd, p, n, f); return N->send({{const_cast<void*>(p), n}}, nullptr, 0); }
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int f, const sockaddr* a, socklen_t l) { if (!N) return __real_sendto(fd, p, n, f, a, l); return N->send({{const_cast<void*>(p), n}}, a, l); }
}
struct Use { Net n; Use() { N = &n; } ~Use() { N = nullptr; } };

// ---- the source ---------------------------------------------------------------------------
struct Seen { std::vector<Bytes> validated, called; int mode = 0; int token = 0; };
static Seen* SN;
static bool verdict(int mode, const Bytes& b) {
    unsigned h = 0; for (auto x : b) h = h * 31 + x; h ^= h >> 7;
    return mode == 0 ? true : mode == 1 ? h % 2 : mode == 2 ? h % 5 != 0 : false;
}
template <class T> Bytes bytes_of(const T& v) { if constexpr (std::is_same<T, Blob>::value) return Bytes(v.data, v.data + v.len); else { Bytes b(sizeof(T)); memcpy(b.data(), &v, sizeof(T)); return b; } }
template <class T> bool validate_cb(const T& v, void* ctx) { CHECK(ctx == &SN->token, "the validator gets another context"); Bytes b = bytes_of(v); SN->validated.push_back(b); return verdict(SN->mode, b); }
template <class T> void receive_cb(const T& v, void* ctx) { CHECK(ctx == &SN->token, "the callback gets another context"); SN->called.push_back(bytes_of(v)); }

template <class T> void source_case(pbt::Src& s) {
    constexpr bool BLOB = std::is_same<T, Blob>::value;
    Use u; Seen seen; SN = &seen; seen.mode = s.weighted({3, 2, 2, 1});
    bool use_val = seen.mode || s.flip(), use_cb = s.chance(3, 4);
    size_t maxb = BLOB ? s.size(1, 600) : sizeof(T), slots = BLOB ? s.size(1, 40) : 100;
    size_t cap = s.weighted({2, 2, 1}); cap = cap == 0 ? s.range(1, 8) : cap == 1 ? s.range(9, 100) : s.range(1000, 200000 / sizeof(T));
    pbt::Bulk r(s.subseed());
    // the script
    std::vector<Bytes> expect; std::vector<Bytes> passed; bool odd = false, rejected = false, faults = false; uint32_t serial = 0;
    s.note("T=%s max=%zu slots=%zu space=%zu validator=%d:", BLOB ? "Blob" : "fixed", maxb, slots, cap, use_val ? seen.mode : -1);
    auto datagram = [&](size_t n) {
        Bytes d(n); for (auto& x : d) x = (uint8_t)r.u64(); ++serial; for (size_t i = 0; i < 4 && i < n; ++i) d[i] = (uint8_t)(serial >> (8 * i));
        u.n.script.push_back({0, d});
        if (n == 0 || n > maxb) { odd = true; return; }
        Bytes e = d; if (!BLOB) { odd |= n != maxb; e.resize(maxb, 0); }
        passed.push_back(e);
        if (!use_val || verdict(seen.mode, e)) expect.push_back(e); else rejected = true;
    };
    while (s.more(25)) switch (s.weighted({8, 3, 2, 2, 1, 1, 1})) {
        case 0: s.note(" d"); datagram(BLOB ? s.size(1, (uint64_t)maxb) : maxb); break;
        case 1: s.note(" ."); u.n.script.push_back({1, {}}); break;
        case 2: { size_t k = s.size(2, 60); bool slow = s.chance(1, 3); s.note(slow ? " slow d*%zu" : " d*%zu", k); while (k--) { datagram(BLOB ? 1 + r.below(maxb) : maxb); if (slow) u.n.script.back().kind = 2; } break; }
        case 3: { size_t n = BLOB ? maxb + s.range(0, 3) : s.range(1, maxb + 3); s.note(" d(%zu)", n); datagram(n); break; }
        case 4: s.note(" d(0)"); datagram(0); break;
        case 5: s.note(" intr"); u.n.script.push_back({1000 + EINTR, {}}); faults = true; break;
        default: { int e = s.pick({EIO, ENOMEM, ECONNREFUSED, EBADF, ENOBUFS, ENETDOWN}); s.note(" err%d", e); u.n.script.push_back({1000 + e, {}}); faults = true; }
    }
    SourceUDPSocketBlock<T> b("udp", SocketType::INET_UDP, "127.0.0.1:9", use_val ? &validate_cb<T> : nullptr, use_cb ? &receive_cb<T> : nullptr, &seen.token, maxb, slots);
    dsp::Out<T> out(cap); size_t freed = 0;
    // waiting for more while something received has not been delivered holds it back for ever if nothing more comes
    u.n.on_wait = [&] {
        size_t got = 0, sofar = 0; for (size_t i = 0, k = 0; i < u.n.pos; ++i) { auto& e = u.n.script[i]; if (e.kind == 0 && !e.data.empty() && e.data.size() <= maxb) { Bytes p = passed[k++]; got += !use_val || verdict(seen.mode, p); } }
        sofar = out.count();
        CHECK(sofar == got, "the block waits for another datagram while holding back %zu received ones", got - sofar);
    };
    auto check_out = [&](size_t from) {
        for (size_t i = from; i < out.got.size(); ++i) {
            CHECK(i < expect.size(), "an item too many after %zu: %s", expect.size(), hex(bytes_of(out.got[i])).c_str());
            Bytes g = bytes_of(out.got[i]);
            CHECK(g == expect[i], "item %zu is %s, received was %s", i, hex(g).c_str(), hex(expect[i]).c_str());
        }
    };
    auto drain = [&](size_t n) { size_t o = out.got.size(); out.drain(n); check_out(o); };
    auto give = [&](size_t n) { if constexpr (BLOB) for (; n && freed < out.got.size(); --n) out.got[freed++].release(); };
    auto call = [&] {
        u.n.fatal_seen = u.n.stop_seen = false; u.n.call_waits = 0; size_t p0 = u.n.pos, space = out.room();
        auto res = b.procedure(&out);
        bool fatal = res.is_err() && cler::is_fatal(res.unwrap_err());
        CHECK(fatal == u.n.fatal_seen, fatal ? "the block stopped without a socket error" : "a socket error went unreported");
        size_t held = BLOB ? out.count() - freed : 0;
        if (u.n.pos == p0 && !u.n.stop_seen) CHECK(space == 0 || (BLOB && held >= slots), "no progress with space %zu and %zu of %zu slots in use", space, held, slots);
    };
    unsigned turns = 0; bool full = false, starved = false;
    while (u.n.pos < u.n.script.size() || out.level()) {
        CHECK(++turns < 20000, "the block does not come to an end of %zu events", u.n.script.size());
        switch (turns > 5000 ? 5 : s.weighted({4, 2, 2, 1, 1, 1})) {
        case 0: call(); break;
        case 1: drain(s.size(1, 50)); break;
        case 2: give(s.size(1, 50)); break;
        case 3: drain(SIZE_MAX); give(SIZE_MAX); break;
        case 4: call(); call(); break;
        default: call(); drain(SIZE_MAX); give(SIZE_MAX); call(); break;
        }
        full |= !out.room(); starved |= BLOB && out.count() - freed >= slots;
    }
    call(); drain(SIZE_MAX);
    CHECK(out.got.size() == expect.size(), "%zu items delivered, %zu received", out.got.size(), expect.size());
    if (use_cb) { CHECK(seen.called.size() == expect.size(), "callback ran %zu times for %zu items", seen.called.size(), expect.size()); for (size_t i = 0; i < expect.size(); ++i) CHECK(seen.called[i] == expect[i], "callback %zu got %s instead of %s", i, hex(seen.called[i]).c_str(), hex(expect[i]).c_str()); }
    if (use_val) { CHECK(seen.validated.size() == passed.size(), "validator ran %zu times for %zu datagrams", seen.validated.size(), passed.size()); for (size_t i = 0; i < passed.size(); ++i) CHECK(seen.validated[i] == passed[i], "validator saw %s instead of %s", hex(seen.validated[i]).c_str(), hex(passed[i]).c_str()); }
    if constexpr (BLOB) {   // every slot is free again: as many datagrams as slots fit without any release
        give(SIZE_MAX); use_val = false; size_t before = out.got.size(); int keep = seen.mode; seen.mode = 0; passed.clear();
        // only pass the validator if there is none or it accepts everything
        size_t want = 0; for (size_t i = 0; i < slots; ++i) { Bytes d{(uint8_t)i, 7}; d.resize(std::min<size_t>(2, maxb)); u.n.script.push_back({0, d}); ++want; }
        u.n.on_wait = nullptr; seen.mode = 0;
        for (size_t k = 0; k < 4 * slots + 10 && out.got.size() - before < want; ++k) { auto q = b.procedure(&out); (void)q; out.drain(SIZE_MAX); }
        CHECK(out.got.size() - before == want, "only %zu of %zu pool slots came back", out.got.size() - before, slots);
        seen.mode = keep;
    }
    if (expect.size() > 2 && (rejected || odd || faults || full || starved)) s.nontrivial();
    if (rejected) s.label("some rejected"); if (faults) s.label("socket errors"); if (starved) s.label("pool exhausted"); if (full) s.label("output full");
    SN = nullptr;
}
PROPERTY(source_blob, 4000, 60000, "at least 3 items delivered, with rejected or odd-sized datagrams, socket errors, a full output or an exhausted pool") { source_case<Blob>(s); }
PROPERTY(source_fixed, 3000, 40000, "at least 3 items delivered, with rejected or odd-sized datagrams, socket errors or a full output") { source_case<std::array<uint8_t, 16>>(s); }
PROPERTY(source_word, 1000, 20000, "at least 3 items delivered, with rejected or odd-sized datagrams, socket errors or a full output") { source_case<uint32_t>(s); }

// ---- the sink -------------------------------------------------------------------------------
static Bytes dest_inet(const char* ip, uint16_t port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, ip, &a.sin_addr); return Bytes((uint8_t*)&a, (uint8_t*)(&a + 1)); }
template <class T> void sink_case(pbt::Src& s) {
    constexpr bool BLOB = std::is_same<T, Blob>::value;
    Use u; Seen seen; SN = &seen; pbt::Bulk r(s.subseed());
    size_t cap = s.weighted({3, 1}) ? s.range(1000, 300000 / (BLOB ? 32 : sizeof(T))) : s.range(1, 200), slots = s.size(1, 60), maxb = s.size(1, 300);
    bool use_cb = s.chance(3, 4); size_t burst = s.chance(1, 4) ? cap : 0;
    Slab pool(slots, maxb); std::vector<Bytes> expect; bool failed = false;
    s.note("T=%s queue=%zu slots=%zu:", BLOB ? "Blob" : "fixed", cap, slots);
    SinkUDPSocketBlock<T> b("udp", SocketType::INET_UDP, "10.1.2.3:4567", use_cb ? &receive_cb<T> : nullptr, &seen.token, cap);
    auto put = [&](size_t n) {
        for (; n--;) {
            T v;
            if constexpr (BLOB) { if (!b.in.space()) return; auto t = pool.take_slot(); if (t.is_err()) return; v = t.unwrap(); v.len = r.below(8) ? 1 + r.below(maxb) : r.below(maxb + 1); for (size_t i = 0; i < v.len; ++i) v.data[i] = (uint8_t)r.u64(); }
            else { auto p = (uint8_t*)&v; for (size_t i = 0; i < sizeof v; ++i) p[i] = (uint8_t)r.u64(); }
            if (!b.in.try_push(v)) { if constexpr (BLOB) v.release(); return; }
            expect.push_back(bytes_of(v));
        }
    };
    auto call = [&] {
        size_t lv = b.in.size(), s0 = u.n.sends; u.n.send_failed = false;
        auto res = b.procedure();
        bool fatal = res.is_err() && cler::is_fatal(res.unwrap_err());
        CHECK(fatal == u.n.send_failed, fatal ? "the sink stopped although every send worked" : "a failed send went unreported");
        if (!fatal) CHECK(b.in.size() == 0 || u.n.sends > s0, "the sink did nothing with %zu items waiting", lv);
        failed |= fatal;
        if constexpr (BLOB) CHECK(pool.available_slots() + b.in.size() == slots, "%zu slots are free with %zu of %zu still queued", pool.available_slots(), b.in.size(), slots);
    };
    if (burst) { s.note(" fill"); put(burst); }
    while (s.more(20)) switch (s.weighted({4, 3, 1})) {
        case 0: { size_t k = s.size(1, 40); s.note(" put%zu", k); put(k); break; }
        case 1: s.note(" call"); call(); break;
        default: { size_t at = s.size(0, 20); int e = s.pick({ECONNREFUSED, EAGAIN, EINTR, ENOBUFS, EPERM, EMSGSIZE}); s.note(" fail#%zu:%d", at, e); u.n.send_plan.resize(u.n.sends + at + 1); u.n.send_plan.back() = e; }
    }
    for (size_t k = 0; b.in.size(); ++k) { CHECK(k < 100000, "the sink does not empty its queue"); call(); }
    CHECK(u.n.sent.size() == expect.size(), "%zu datagrams sent for %zu items", u.n.sent.size(), expect.size());
    Bytes to = dest_inet("10.1.2.3", 4567); size_t c = 0;
    for (size_t i = 0; i < expect.size(); ++i) {
        CHECK(u.n.sent[i] == expect[i], "datagram %zu is %s, the item was %s", i, hex(u.n.sent[i]).c_str(), hex(expect[i]).c_str());
        CHECK(u.n.dest[i].size() >= 8 && memcmp(u.n.dest[i].data(), to.data(), 8) == 0, "datagram %zu went to another address", i);
        if (use_cb && c < seen.called.size() && seen.called[c] == expect[i]) ++c;
        else if (use_cb) CHECK(!u.n.sent_ok[i], "no callback for datagram %zu", i);
    }
    CHECK(c == seen.called.size(), "callbacks for items that were not sent or sent once");
    if (expect.size() > 2 && (failed || u.n.sends > 20)) s.nontrivial(); if (failed) s.label("send failures");
    SN = nullptr;
}
PROPERTY(sink_blob, 3000, 40000, "at least 3 items, and a failed send or more than 20 datagrams") { sink_case<Blob>(s); }
PROPERTY(sink_fixed, 2000, 30000, "at least 3 items, and a failed send or more than 20 datagrams") { sink_case<std::array<uint8_t, 32>>(s); }

// ---- addresses --------------------------------------------------------------------------------
static std::string gen_host(pbt::Src& s, bool six) {
    switch (s.weighted({4, 3, 2, 1, 1})) {
    case 0: return six ? "::1" : "127.0.0.1";
    case 1: { std::string r; if (!six) { for (int i = 0; i < 4; ++i) r += (i ? "." : "") + std::to_string(s.below(256)); } else { char b[8]; for (int i = 0; i < 8; ++i) { snprintf(b, 8, "%s%x", i ? ":" : "", (unsigned)s.below(65536)); r += b; } } return r; }
    case 2: { static const char* L[] = {"0.0.0.0", "255.255.255.255", "::", "fe80::1", "::ffff:1.2.3.4", "1.2.3", "1.2.3.4.5", "256.1.1.1", "01.2.3.4", "localhost", "1.2.3.4 ", " 1.2.3.4", "[::1]", "1::2::3", "12345::", "a", "1.2.3.4:5"}; return L[s.below(17)]; }
    case 3: return "";
    default: { std::string r; size_t n = s.range(1, 12); static const char C[] = "0123456789.:abcf xg[]%"; while (n--) r += C[s.below(sizeof C - 1)]; return r; }
    }
}
static std::string gen_port(pbt::Src& s) {
    switch (s.weighted({4, 3, 2, 1})) {
    case 0: return std::to_string(s.range(1, 65535));
    case 1: { static const char* L[] = {"1", "0", "65535", "65536", "65537", "70000", "99999", "131071", "4294967297", "4294967376", "18446744073709551617", "00080", "-1", "+80", " 80", "80 ", "80a", "8 0", "0x50", "80.0", "1e3", "", "-0", "\t80", "80\n", "999999999999999999999999"}; return L[s.below(26)]; }
    case 2: { std::string p = std::to_string(s.below(70000)); size_t i = s.below(p.size() + 1); static const char C[] = " +-.axe,;/0\t"; p.insert(i, 1, C[s.below(12)]); return p; }
    default: { std::string r; size_t n = s.below(7); static const char C[] = "0123456789 +-x"; while (n--) r += C[s.below(14)]; return r; }
    }
}
static bool port_ok(const std::string& p, uint16_t& v) { if (p.empty()) return false; unsigned long x = 0; for (char c : p) { if (c < '0' || c > '9') return false; x = x * 10 + (c - '0'); if (x > 65535) return false; } v = (uint16_t)x; return true; }
struct Probe : UDPBlock::GenericDatagramSocket {};
PROPERTY(addresses, 8000, 150000, "the text is refused, or accepted with an address other than the simplest") {
    int fam = (int)s.weighted({4, 3, 2}); bool recv = s.flip(); std::string text; uint16_t port = 0; bool ok; std::string host; Bytes want(16, 0);
    Use u;
    if (fam == 2) {
        size_t n = s.pick({0, 1, 5, 20, 106, 107, 108, 109, 200}); for (size_t i = 0; i < n; ++i) text += (char)(i == 0 && s.chance(1, 4) ? '/' : "abz:0 ._"[s.below(8)]);
        if (!text.empty() && text[0] == '/') text[0] = 'q';
        ok = n >= 1 && n <= 107; host = text;
    } else {
        host = gen_host(s, fam == 1); if (host.empty() && s.flip() && !recv) host = "x";
        std::string p = gen_port(s); bool colon = !s.chance(1, 15); text = colon ? host + ":" + p : host + p;
        size_t c = text.rfind(':'); ok = c != std::string::npos && port_ok(text.substr(c + 1), port);
        if (ok) { host = text.substr(0, c); uint8_t a[16] = {0}; bool any = recv && host.empty(); ok = any || inet_pton(fam ? AF_INET6 : AF_INET, host.c_str(), a) == 1; if (ok && !any) memcpy(want.data(), a, 16); }
    }
    SocketType t = fam == 0 ? SocketType::INET_UDP : fam == 1 ? SocketType::INET6_UDP : SocketType::UNIX_DGRAM;
    s.note("%s %s '%s' expected %s", recv ? "bind" : "send to", fam == 0 ? "IPv4" : fam == 1 ? "IPv6" : "unix", text.c_str(), ok ? "accepted" : "refused");
    bool accepted = true; std::string what; Bytes got;
    try {
        auto k = recv ? UDPBlock::GenericDatagramSocket::make_receiver(t, text) : UDPBlock::GenericDatagramSocket::make_sender(t, text);
        CHECK(k.is_valid(), "accepted, but the socket is not valid");
        if (recv) { CHECK(u.n.have_bound, "accepted, but the socket is not bound"); got = u.n.bound; }
        else { uint8_t d[3] = {1, 2, 3}; CHECK(k.send(d, 3) == 3, "send reported another length"); got = u.n.dest.at(0); CHECK((u.n.sent.at(0) == Bytes{1, 2, 3}), "other bytes sent"); }
    } catch (const std::runtime_error& e) { accepted = false; what = e.what(); CHECK(!what.empty(), "refused without a reason"); }
    CHECK(accepted == ok, accepted ? "'%s' was accepted" : "'%s' was refused", text.c_str());
    if (ok) {
        if (fam == 0) { CHECK(got.size() >= sizeof(sockaddr_in), "short address"); auto a = (sockaddr_in*)got.data(); CHECK(a->sin_family == AF_INET && ntohs(a->sin_port) == port, "family %d port %d", a->sin_family, ntohs(a->sin_port)); CHECK(memcmp(&a->sin_addr, want.data(), 4) == 0, "another host address"); }
        else if (fam == 1) { CHECK(got.size() >= sizeof(sockaddr_in6), "short address"); auto a = (sockaddr_in6*)got.data(); CHECK(a->sin6_family == AF_INET6 && ntohs(a->sin6_port) == port, "family %d port %d", a->sin6_family, ntohs(a->sin6_port)); CHECK(memcmp(&a->sin6_addr, want.data(), 16) == 0, "another host address"); }
        else { auto a = (sockaddr_un*)got.data(); CHECK(a->sun_family == AF_UNIX && std::string(a->sun_path) == text, "another path"); }
    }
    if (!ok || (host != "127.0.0.1" && host != "::1")) s.nontrivial();
    s.label(ok ? "accepted" : "refused");
}

// ---- real sockets: what the sink sends is what the source yields ------------------------------
PROPERTY_T(end_to_end, 150, 2000, 3, "at least 10 datagrams of at least 3 sizes crossed a real socket") {
    bool unix_ = s.flip(); size_t slots = s.size(2, 40), maxb = s.size(1, 3000), count = s.size(1, 300); pbt::Bulk r(s.subseed());
    std::string addr; SocketType t = SocketType::UNIX_DGRAM;
    if (unix_) addr = "s" + std::to_string(getpid()) + ".sock";
    else { unsigned p = getpid(); char b[64]; snprintf(b, sizeof b, "127.%u.%u.%u:%u", 1 + (p >> 16) % 200, (p >> 8) & 255, 1 + (p & 255) % 254, 20000 + (unsigned)r.below(20000)); addr = b; t = SocketType::INET_UDP; }
    s.note("%s slots=%zu max=%zu count=%zu", unix_ ? "unix" : "inet", slots, maxb, count);
    SourceUDPSocketBlock<Blob> src("src", t, addr, nullptr, nullptr, nullptr, maxb, slots);
    SinkUDPSocketBlock<Blob> snk("snk", t, addr, nullptr, nullptr, 64); cler::Channel<Blob> out(128);
    Slab pool(30, maxb); std::vector<Bytes> sent; size_t got = 0; std::set<size_t> sizes;
    // never more on the way than the smallest receive queue keeps (10 datagrams for UNIX sockets)
    while (got < count) {
        size_t k = 1 + r.below(5);
        while (k-- && sent.size() < count && sent.size() - got < 5) {
            Blob b = pool.take_slot().unwrap(); b.len = 1 + r.below(maxb); sizes.insert(b.len); for (size_t i = 0; i < b.len; ++i) b.data[i] = (uint8_t)r.u64();
            sent.push_back(bytes_of(b)); snk.in.push(b);
        }
        auto x = snk.procedure(); CHECK(x.is_ok(), "the sink failed on a real socket");
        for (unsigned tries = 0; got < sent.size(); ++tries) {
            CHECK(tries < 80, "%zu of %zu datagrams arrived", got, sent.size());
            auto y = src.procedure(&out); CHECK(y.is_ok() || !cler::is_fatal(y.unwrap_err()), "the source failed on a real socket");
            Blob b; while (out.try_pop(b)) { CHECK(got < sent.size(), "more datagrams came than were sent"); Bytes g = bytes_of(b); CHECK(g == sent[got], "datagram %zu arrived as %s, sent was %s", got, hex(g).c_str(), hex(sent[got]).c_str()); ++got; b.release(); }
        }
    }
    CHECK(pool.available_slots() == 30, "%zu of 30 slots of the sender came back", pool.available_slots());
    if (got >= 10 && sizes.size() >= 3) s.nontrivial(); s.label(unix_ ? "unix" : "inet");
}
PROPERTY_T(sockets, 200, 3000, 3, "at least 3 datagrams, one of them empty, too large for the buffer or awaited in vain") {
    using UDPBlock::GenericDatagramSocket; int fam = (int)s.below(3); std::string addr; SocketType t = fam == 0 ? SocketType::UNIX_DGRAM : fam == 1 ? SocketType::INET_UDP : SocketType::INET6_UDP; pbt::Bulk r(s.subseed());
    unsigned p = getpid(); char b[64]; if (fam == 0) snprintf(b, sizeof b, "p%u.sock", p); else if (fam == 1) snprintf(b, sizeof b, "127.%u.%u.%u:%u", 1 + (p >> 16) % 200, (p >> 8) & 255, 1 + (p & 255) % 254, 20000 + (unsigned)r.below(20000)); else snprintf(b, sizeof b, "::1:%u", 20000 + p * 37 % 40000); addr = b;
    std::unique_ptr<GenericDatagramSocket> rx, tx;
    try { rx.reset(new GenericDatagramSocket(GenericDatagramSocket::make_receiver(t, addr))); } catch (const std::runtime_error& e) { CHECK(fam == 2, "%s is refused: %s", addr.c_str(), e.what()); s.label(true, "port taken or no IPv6"); return; }
    tx.reset(new GenericDatagramSocket(GenericDatagramSocket::make_sender(t, addr))); rx->set_receive_timeout(std::chrono::milliseconds(2000));
    size_t n = s.size(1, 12); bool odd = false; s.note("%s, %zu datagrams", addr.c_str(), n);
    for (size_t i = 0; i < n; ++i) {
        if (s.chance(1, 12)) { int ms = (int)s.range(1, 20); rx->set_receive_timeout(std::chrono::milliseconds(ms)); uint8_t c; auto t0 = std::chrono::steady_clock::now(); ssize_t k = rx->recv(&c, 1); auto took = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count(); CHECK(k == -EAGAIN || k == -EWOULDBLOCK || k == -EINTR, "waiting in vain gives %zd", k); CHECK(took >= ms - 5, "waited %.1f of %d ms", took, ms); rx->set_receive_timeout(std::chrono::milliseconds(2000)); odd = true; }
        size_t len = s.chance(1, 6) ? 0 : s.size(1, 3000), room = s.chance(1, 4) ? s.size(0, len + 1) : len + s.below(10); Bytes d(len), g(room + 1, 0xEE); for (auto& x : d) x = (uint8_t)r.u64();
        CHECK(tx->send(d.data(), len) == (ssize_t)len, "datagram of %zu bytes is not sent", len); ssize_t k = rx->recv(g.data(), room); s.note(" %zu into %zu;", len, room);
        CHECK(g[room] == 0xEE, "written beyond the buffer");
        if (len > room) { CHECK(k == -EMSGSIZE, "a datagram of %zu bytes in a buffer of %zu gives %zd", len, room, k); odd = true; }
        else { CHECK(k == (ssize_t)len, "a datagram of %zu bytes in a buffer of %zu gives %zd", len, room, k); CHECK(std::equal(d.begin(), d.end(), g.begin()), "another content arrived"); if (!len) odd = true; }
    }
    if (n >= 3 && odd) s.nontrivial(); s.label(fam == 0 ? "unix" : fam == 1 ? "inet" : "inet6");
    tx.reset(); if (fam == 0) CHECK(access(addr.c_str(), F_OK) == 0, "the sender took the receiver's socket file away"); rx.reset(); if (fam == 0) CHECK(access(addr.c_str(), F_OK) != 0, "the receiver leaves its socket file");
}
