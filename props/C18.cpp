#include "dsp.hpp"
#include <sys/stat.h>
#include <cstring>
#include "desktop_blocks/sinks/sink_file.hpp"
#include "desktop_blocks/sources/source_file.hpp"
using namespace dsp;
struct Odd { unsigned char b[12]; };
struct Big { unsigned char b[136]; };

static std::string path(const char* n) { const char* d = getenv("PBT_SCRATCH"); char b[300]; snprintf(b, sizeof b, "%s/%s_%d", d ? d : ".", n, (int)getpid()); return b; }
static std::string bytes(pbt::Src& s, size_t n) { pbt::Bulk r(s.subseed()); std::string t(n, 0); int kind = (int)s.below(3); for (auto& c : t) c = kind == 0 ? (char)r.u32() : kind == 1 ? "\n\r\x1a\0\xff "[r.below(6)] : 0; return t; }
static void put(const std::string& p, const std::string& c) { FILE* f = fopen(p.c_str(), "wb"); if (!c.empty()) fwrite(c.data(), 1, c.size(), f); fclose(f); }
static std::string get(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); CHECK(f, "the sink's file does not exist"); std::string r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) r.append(b, n); fclose(f); return r; }
template <class T> static std::vector<T> items(const std::string& c) { std::vector<T> v(c.size() / sizeof(T)); if (!v.empty()) memcpy(v.data(), c.data(), v.size() * sizeof(T)); return v; }
template <class T> static size_t page() { return cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) + 1; }

template <class T> static void sink(pbt::Src& s, std::string p, const std::string& content, size_t& calls) {
    auto x = items<T>(content); std::string name = p; size_t moves = 0;
    { SinkFileBlock<T> b("sink", name.c_str(), s.chance(1, 2) ? 0 : page<T>() + s.size(0, 4000)); std::fill(name.begin(), name.end(), 'x');
      In<T> in(&b.in, x); s.note("%zu items of %zu bytes:", x.size(), sizeof(T));
      auto call = [&] { size_t l = b.in.size(); auto r = b.procedure(); CHECK(!r.is_err() || !cler::is_fatal(r.unwrap_err()), "the sink stopped with an error on an ordinary file"); moves += b.in.size() < l; if (l) CHECK(b.in.size() < l, "the sink took nothing of %zu waiting items", l); };
      while (s.more(15)) { if (s.flip()) { size_t n = in.feed(s.size(1, 5000), (unsigned)s.below(2)); s.note(" feed%zu", n); } else { s.note(" call"); call(); } }
      size_t piece = s.chance(1, 2) ? s.size(1, 3000) : SIZE_MAX;
      for (size_t i = 0; in.left() || b.in.size(); ++i) { in.feed(i < 60 ? piece : SIZE_MAX, 0); call(); }
    }
    std::string got = get(p), want = content.substr(0, x.size() * sizeof(T)); calls = moves;
    size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
    CHECK(got == want, "the file holds %zu bytes, %zu were sunk; they differ from byte %zu", got.size(), want.size(), d);
}
static int eofs; static std::string eof_name; static std::function<void()> at_eof;
static void on_eof(const char* n) { ++eofs; eof_name = n ? n : ""; if (at_eof) at_eof(); }
template <class T> static void source(pbt::Src& s, const std::string& p, const std::string& content, size_t& calls) {
    auto want = items<T>(content); bool repeat = s.chance(1, 2), cb = s.chance(3, 4); size_t goal = repeat ? (want.empty() ? 0 : 1 + s.below(want.size() < 2000 ? want.size() * 4 + 2000 : want.size() * 2)) : want.size();
    Out<T> out(s.size(1, 6000)); eofs = 0; size_t at = 0; at_eof = [&] { at = out.count(); };
    s.note("source of %zu bytes, %s%s, items of %zu bytes, out capacity %zu; ", content.size(), repeat ? "repeating" : "once", cb ? "" : ", no callback", sizeof(T), out.cap);
    SourceFileBlock<T> b("src", p.c_str(), repeat, cb ? &on_eof : nullptr); Rig r(s); r.outs = {&out}; size_t idle = 0; bool ended = false;
    r.call = [&]() -> Res {
        size_t n0 = out.count(), room = out.room(); auto x = b.procedure(&out); bool moved = out.count() > n0;
        if (repeat || !ended) idle = moved || !room ? 0 : idle + 1; if (!repeat && out.count() == want.size() && room) ended = true;
        CHECK(idle <= 2 || want.empty() || out.count() >= want.size() * (repeat ? SIZE_MAX / (want.size() + 1) : 1), "the source gives nothing although the file has more and there is space");
        // what a source says after the end of its file is not laid down here, only that it delivers nothing more
        return x.is_err() && cler::is_fatal(x.unwrap_err()) && !repeat && n0 == want.size() ? Res(cler::Empty{}) : x;
    };
    r.must_progress = [] { return false; }; r.after = [&](const std::vector<size_t>&, const std::vector<size_t>& q) { r.split_calls += q[0] > 0; };
    r.run(15, [&] { return out.count() >= goal; });
    if (!repeat) { for (int k = 0; k < 4; ++k) { (void)b.procedure(&out); out.drain(SIZE_MAX); } }
    CHECK(repeat ? eofs == 0 : eofs == (cb ? 1 : 0), "the end was reported %d times by a source that %s", eofs, repeat ? "repeats" : "plays once");
    if (eofs) { CHECK(at == want.size(), "the end was reported after %zu of %zu items", at, want.size()); CHECK(eof_name == p, "the end was reported for '%s', the file is '%s'", eof_name.c_str(), p.c_str()); }
    CHECK(repeat || out.got.size() == want.size(), "%zu items delivered, the file has %zu", out.got.size(), want.size());
    CHECK(!want.empty() || out.got.empty(), "%zu items delivered from a file without a whole item", out.got.size());
    for (size_t i = 0; i < out.got.size(); ++i) CHECK(!memcmp(&out.got[i], &want[i % want.size()], sizeof(T)), "item %zu delivered is not item %zu of the file's %zu", i, i % want.size(), want.size());
    calls = r.split_calls; s.label(repeat, "repeating"); s.label(repeat && out.got.size() > want.size() && !want.empty(), "wrapped around"); s.label(content.size() % sizeof(T) != 0, "partial item at the end"); at_eof = nullptr;
}
struct Gone { std::string p; ~Gone() { unlink(p.c_str()); } };
template <class T> static size_t length(pbt::Src& s, bool whole) { size_t n = s.chance(1, 4) ? s.below(60000) : s.chance(1, 8) ? 4096 * s.below(20) + (s.below(3)) : s.size(0, 30000); return whole ? n / sizeof(T) * sizeof(T) : n; }
template <class T> static void one_sink(pbt::Src& s) { Gone g{path("sink")}; if (s.chance(1, 3)) put(g.p, bytes(s, s.size(0, 50000))); auto c = bytes(s, length<T>(s, true)); size_t k = 0; sink<T>(s, g.p, c, k); s.nontrivial(k >= 2); }
template <class T> static void one_source(pbt::Src& s) { Gone g{path("source")}; auto c = bytes(s, length<T>(s, false)); put(g.p, c); size_t k = 0; source<T>(s, g.p, c, k); s.nontrivial(k >= 2); }
PROPERTY(sink_writes, 4000, 60000, "a stream of items of 1, 8, 12 or 136 bytes (any bytes, line ends and zeros included) into a new or an existing file, generated feeding and calling; after the sink is gone the file holds exactly the stream; non-trivial: at least 2 calls wrote something") {
    switch (s.below(4)) { case 0: one_sink<uint8_t>(s); break; case 1: one_sink<cf>(s); break; case 2: one_sink<Odd>(s); break; default: one_sink<Big>(s); }
}
PROPERTY(source_reads, 5000, 80000, "a file of generated length (also empty, ending in part of an item, around page multiples) read once or repeating, with or without callback, generated calls and drains: whole items in order, cycling when repeating, the end reported once after the last item otherwise; non-trivial: at least 2 calls delivered something") {
    switch (s.below(4)) { case 0: one_source<uint8_t>(s); break; case 1: one_source<cf>(s); break; case 2: one_source<Odd>(s); break; default: one_source<Big>(s); }
}
template <class T> static void there_and_back(pbt::Src& s) { Gone g{path("rt")}; auto c = bytes(s, length<T>(s, true)); size_t k = 0, l = 0; sink<T>(s, g.p, c, k); s.note("; "); source<T>(s, g.p, c, l); s.nontrivial(k >= 1 && l >= 2); }
PROPERTY(round_trip, 1500, 30000, "a stream sunk and read back by a source; non-trivial: at least one writing and 2 delivering calls") { if (s.flip()) there_and_back<float>(s); else there_and_back<Odd>(s); }

PROPERTY(io_errors, 600, 6000, "names that cannot be opened for reading or writing (missing, empty, a directory, below a file, too long, in a missing directory) must be reported by an exception, a device without space by an I/O error and before more than a buffer's worth of data was taken; non-trivial: every case") {
    Gone g{path("plain")}; put(g.p, "x"); std::string nm; const char* dir = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "."; unsigned k = (unsigned)s.below(6), who = (unsigned)s.below(2); bool thrown = false;
    switch (k) { case 0: nm = g.p + "_missing"; break; case 1: nm = ""; break; case 2: nm = dir; break; case 3: nm = g.p + "/below"; break; case 4: nm = std::string(dir) + "/" + std::string(300, 'n'); break; default: nm = std::string(dir) + "/no_such_dir/f"; }
    s.note("kind %u %s", k, who ? "sink" : "source"); s.nontrivial();
    if (who && k == 0) {   // writable: use the full device instead
        SinkFileBlock<float> b("s", "/dev/full"); std::vector<float> z(512, 1); size_t taken = 0; bool err = false; size_t piece = s.size(1, 512);
        for (int i = 0; i < 4000 && !err; ++i) { b.in.writeN(z.data(), std::min(piece, b.in.space())); size_t l = b.in.size(); auto r = b.procedure(); taken += l - b.in.size(); if (r.is_err()) { CHECK(r.unwrap_err() == cler::Error::TERM_IOError, "a failing write is reported as '%s'", cler::to_str(r.unwrap_err())); err = true; } }
        CHECK(err, "%zu items taken by a sink on a full device without an error", taken); s.label("full device"); return;
    }
    if (!who && k == 2) return;   // a directory opens for reading on this system
    try { if (who) { SinkFileBlock<float> b("s", nm.c_str()); } else { SourceFileBlock<float> b("s", nm.c_str()); } } catch (const std::exception&) { thrown = true; }
    CHECK(thrown, "'%s' opened for %s without complaint", nm.substr(0, 60).c_str(), who ? "writing" : "reading");
}
