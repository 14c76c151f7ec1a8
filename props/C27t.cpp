// C27: threads logging at once.
#include "pbt.hpp"
#define ZF_LOG_LEVEL ZF_LOG_VERBOSE
#include "desktop_logger/desktop_logger.hpp"
#include "desktop_logger/zf_log/zf_log.h"
#include <atomic>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using std::string;
static std::atomic<long> ticks{0};      // every message has a time of its own
extern "C" time_t __wrap_time(time_t* t) { time_t v = 1000000000 + 104729 * (++ticks); if (t) *t = v; return v; }
static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream o; o << i.rdbuf(); return o.str(); }
PROPERTY_T(threads, 300, 6000, 3, "two to six threads log numbered messages of generated lengths into one log with a generated rotation, while another thread reconfigures, verifies and reopens it; non-trivial: at least one rotation") {
    static bool first = true; if (first) { cler::start_logging(nullptr); first = false; }
    for (int i = 0; i <= 100; ++i) unlink(i ? ("t.log." + std::to_string(i)).c_str() : "t.log");
    size_t nt = 2 + s.below(5), each = 5 + s.size(0, 120), limit = s.pick<size_t>({1024, 2500, 10000}); int keep = s.chance(1, 3) ? 100 : 1 + (int)s.below(6); bool rot = s.chance(4, 5), meddle = s.chance(1, 2); uint64_t seed = s.subseed();
    cler::disable_log_rotation(); CHECK(cler::reset_logfile("t.log") == 0, "cannot open the log"); cler::set_log_level(ZF_LOG_DEBUG);
    if (rot) cler::enable_log_rotation(limit, keep);
    fflush(stdout); int old = dup(1), fd = open("out", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 1); close(fd);
    auto text = [&](size_t t, size_t i) { pbt::Bulk r(seed + t * 100003 + i); string m = "<" + std::to_string(t) + ":" + std::to_string(i) + ":"; size_t n = r.below(200); for (size_t k = 0; k < n; ++k) m += (char)('a' + r.below(26)); return m + ">"; };
    std::atomic<size_t> ready{0}, done{0}; std::vector<std::thread> th; std::atomic<int> bad{0};
    for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { ++ready; while (ready < nt) std::this_thread::yield(); for (size_t i = 0; i < each; ++i) { string m = text(t, i); if (i % 7 == 3) ZF_LOGV("below %s", m.c_str()); if (i & 1) ZF_LOGI("%s", m.c_str()); else ZF_LOGW("%s", m.c_str()); } ++done; });
    size_t meddled = 0;
    if (meddle) while (done < nt) { pbt::Bulk r(seed + meddled); switch (r.below(3)) { case 0: if (cler::verify_logfile() != 0) ++bad; break; case 1: if (cler::reset_logfile("t.log") != 0) ++bad; break; default: if (rot) cler::enable_log_rotation(limit, keep); else cler::disable_log_rotation(); } ++meddled; usleep(50); }
    for (auto& t : th) t.join();
    fflush(stdout); dup2(old, 1); close(old); cler::close_log_file(); cler::disable_log_rotation();
    CHECK(!bad, "the open log is reported as broken");
    // everything, oldest first
    string all; size_t files = 0, dropped = 0; std::vector<string> parts;
    for (int i = 100; i >= 0; --i) { string f = i ? "t.log." + std::to_string(i) : "t.log"; struct stat st; if (stat(f.c_str(), &st)) continue; if (i) { ++files; CHECK(rot && i <= keep, "%s exists, %d old files are to be kept", f.c_str(), rot ? keep : 0); } string c = slurp(f); parts.push_back(c); all += c;
        if (i) { CHECK(c.size() >= limit, "%s was rotated with %zu of %zu bytes", f.c_str(), c.size(), limit); size_t last = c.size() < 2 ? 0 : c.rfind('\n', c.size() - 2); last = last == string::npos ? 0 : last + 1; CHECK(last < limit, "%s has %zu bytes, the limit was %zu, its last message %zu", f.c_str(), c.size(), limit, c.size() - last); }
        else if (rot) { size_t last = c.size() < 2 ? 0 : c.rfind('\n', c.size() - 2); last = last == string::npos ? 0 : last + 1; CHECK(last < limit, "the log has %zu bytes, the limit is %zu", c.size(), limit); } }
    std::map<std::pair<unsigned, unsigned>, string> when;
    for (size_t pass = 0; pass < 2; ++pass) {
        string txt = pass ? slurp("out") : all; std::vector<size_t> next(nt, (size_t)-1); std::istringstream in(txt); string line; CHECK(txt.empty() || txt.back() == '\n', "an incomplete last line"); size_t lines = 0;
        while (std::getline(in, line)) {
            if (pass) { size_t e = line.find('['), q = line.rfind("\x1b["); e = line.find('[', e + 1); CHECK(e != string::npos && q != string::npos && q > e, "a mangled line on the terminal: %.100s", line.c_str()); line = line.substr(e, q - e); }
            size_t a = line.find('<'); unsigned t = 0, i = 0; CHECK(a == 26 && line[0] == '[' && sscanf(line.c_str() + a, "<%u:%u:", &t, &i) == 2 && t < nt && i < each, "a mangled line: %.100s", line.c_str());
            CHECK(line.substr(a) == text(t, i), "a mangled line: %.100s", line.c_str()); CHECK(line[23] == (i & 1 ? 'I' : 'W'), "level %c", line[23]);
            string tm = line.substr(1, 19); CHECK(tm[4] == '-' && tm[13] == ':' && tm[16] == ':', "a mangled time: %s", tm.c_str()); auto w = when.insert({{t, i}, tm}); CHECK(w.first->second == tm, "one message has two times: %s and %s", w.first->second.c_str(), tm.c_str());
            if (next[t] == (size_t)-1) { if (i) CHECK(!pass && rot && (int)files == keep, "the first line of thread %u is its number %u, with %zu of %d old files", t, i, files, rot ? keep : 0); dropped += i; } else CHECK(i == next[t], "thread %u: after message %zu comes %u", t, next[t] - 1, i);
            next[t] = i + 1; ++lines;
        }
        for (size_t t = 0; t < nt; ++t) CHECK(next[t] == each || (next[t] == (size_t)-1 && !pass && rot && (int)files == keep), "the last line of thread %zu is its number %zd of %zu", t, (ssize_t)next[t] - 1, each);
    }
    std::set<string> times; for (auto& w : when) CHECK(times.insert(w.second).second, "two messages have the time %s", w.second.c_str());
    s.note("%zu threads of %zu messages, limit %zu, %d old files: %zu files, %zu messages dropped%s", nt, each, rot ? limit : 0, rot ? keep : 0, files, dropped, meddle ? ", reconfigured" : "");
    s.nontrivial(files > 0); s.label(dropped > 0, "oldest dropped"); s.label(meddled > 0, "reconfigured meanwhile");
}
