// C27: the file logger: whole lives of processes that log, rotate, switch files and die, against a model of the files.
#include "pbt.hpp"
#define ZF_LOG_LEVEL ZF_LOG_VERBOSE
#include "desktop_logger/desktop_logger.hpp"
#include "desktop_logger/zf_log/zf_log.h"
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using std::string;
static const char LV[] = "?vdIWEF";
static const char* COLOUR[] = {"", cler::COLOR_GREEN, cler::COLOR_BLUE, cler::COLOR_WHITE, cler::COLOR_YELLOW, cler::COLOR_RED, cler::COLOR_DARK_RED};
static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream o; o << i.rdbuf(); return o.str(); }
static bool there(const string& f) { struct stat st; return !lstat(f.c_str(), &st) && S_ISREG(st.st_mode); }
static void log_at(int lvl, const string& m) {
    switch (lvl) { case 1: ZF_LOGV("%s", m.c_str()); break; case 2: ZF_LOGD("%s", m.c_str()); break; case 3: ZF_LOGI("%s", m.c_str()); break; case 4: ZF_LOGW("%s", m.c_str()); break; case 5: ZF_LOGE("%s", m.c_str()); break; default: ZF_LOGF("%s", m.c_str()); }
}
static void clean() { for (const char* b : {"a.log", "b.log", "c.log"}) for (int i = 0; i <= 110; ++i) { string f = b; if (i) f += "." + std::to_string(i); if (i <= 1) rmdir((f + "/x").c_str()), rmdir(f.c_str()); unlink(f.c_str()); } }

struct Op { int kind; int lvl = 0; string text; size_t size = 0; int n = 0; };
enum { START, RESET, CLOSE, LEVEL, LOG, MEM, ROT, NOROT, VERIFY, BLOCK };
// what the logger promises
struct Line { int lvl; string text; size_t len() const { return 27 + text.size(); } };   // "[time] [l] " is 26 characters, the end of line one
struct Model {
    std::map<string, std::vector<Line>> files; std::set<string> exists, solid;    // solid: names that cannot be replaced
    bool started = false, on = false; string path; size_t max = 0; int keep = 0; bool rot = false; int level = 0; size_t rotations = 0;
    size_t size(const string& f) { size_t n = 0; for (auto& l : files[f]) n += l.len(); return n; }
    int open(const string& p) { on = false; if (p.empty() || p.find('/') != string::npos) { path.clear(); return cler::LOGGER_COULD_NOT_OPEN_FILE; } path = p; on = true; exists.insert(p); return 0; }
    void write(const Line& l) {
        if (!on) return;
        if (rot && size(path) >= max) {
            ++rotations; auto nm = [&](int i) { return path + "." + std::to_string(i); };
            if (!solid.count(nm(1))) {
                files.erase(nm(keep)); exists.erase(nm(keep));
                for (int i = keep - 1; i > 0; --i) if (exists.count(nm(i))) { files[nm(i + 1)] = files[nm(i)]; exists.insert(nm(i + 1)); files.erase(nm(i)); exists.erase(nm(i)); }
                files[nm(1)] = files[path]; exists.insert(nm(1)); files[path].clear();
            }
        }
        files[path].push_back(l);
    }
};
static std::vector<Line> dump(const Op& o) {
    std::vector<Line> r;
    for (size_t i = 0; i < o.text.size(); i += 32) { string h, a; for (size_t j = i; j < std::min(i + 32, o.text.size()); ++j) { char b[3]; unsigned char c = (unsigned char)o.text[j]; snprintf(b, 3, "%02x", c); h += b; a += c >= 32 && c < 127 ? (char)c : '?'; } h.resize(66, ' '); r.push_back({o.lvl, h + a}); }
    return r;
}
static bool stamp(const string& t, size_t at) { static const char* f = "[dddd-dd-dd dd:dd:dd] ["; for (size_t i = 0; f[i]; ++i) if (at + i >= t.size() || (f[i] == 'd' ? !isdigit((unsigned char)t[at + i]) : t[at + i] != f[i])) return false; return true; }
static time_t T0, T1;        // the lives of the processes
static const int LEVELS[] = {0, cler::LOG_VERBOSE, cler::LOG_DEBUG, cler::LOG_INFO, cler::LOG_WARN, cler::LOG_ERROR, cler::LOG_FATAL, 7};
static string show(const string& t) { string r; for (char c : t.substr(0, 60)) if (c < 32 || c == 127) r += '~'; else r += c; return "'" + r + (t.size() > 60 ? "...'" : "'"); }
// takes one line off the text; long messages may be cut, but not below 440 characters
static void take(const string& t, size_t& at, Line& l, bool colours, const char* where) {
    if (colours) { string c = COLOUR[l.lvl]; CHECK(t.compare(at, c.size(), c) == 0, "%s: no or wrong colour where %s is due", where, show(l.text).c_str()); at += c.size(); }
    CHECK(stamp(t, at), "%s: at byte %zu of %zu: %s instead of the time of %s", where, at, t.size(), show(t.substr(at)).c_str(), show(l.text).c_str());
    struct tm tm {}; sscanf(t.c_str() + at, "[%d-%d-%d %d:%d:%d]", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec); tm.tm_year -= 1900; tm.tm_mon--; tm.tm_isdst = 0; time_t when = mktime(&tm);
    CHECK(when >= T0 && when <= T1, "%s: %s is dated %lld s before the process ran", where, show(t.substr(at, 22)).c_str(), (long long)(T0 - when)); at += 22;
    CHECK(at + 4 <= t.size() && t[at] == '[' && t[at + 1] == LV[l.lvl] && t[at + 2] == ']' && t[at + 3] == ' ', "%s: level of %s", where, show(l.text).c_str()); at += 4;
    size_t n = 0; while (n < l.text.size() && at + n < t.size() && t[at + n] == l.text[n]) ++n;
    CHECK(n == l.text.size() || n >= 440, "%s: %s became %s", where, show(l.text).c_str(), show(t.substr(at, n + 10)).c_str());
    string end = colours ? string(cler::COLOR_RESET) + "\n" : "\n";
    for (size_t back = 0; back < 4 && n > 440 && n < l.text.size() && t.compare(at + n, end.size(), end); ++back) --n;      // where the cut text goes on like the end of the line
    if (n < l.text.size()) l.text.resize(n);
    at += n; CHECK(t.compare(at, end.size(), end) == 0, "%s: after %s comes %s", where, show(l.text).c_str(), show(t.substr(at)).c_str()); at += end.size();
}
PROPERTY(lives, 2500, 40000, "one to three processes one after another, each logging generated messages at generated levels while files are switched, closed, rotated and refused; every process is killed at its end; non-trivial: at least one rotation or two processes") {
    setenv("TZ", s.pick({"UTC", "AAA5:30", "BBB-12", "CCC11", "DDD-3:45"}), 1); tzset(); T0 = time(nullptr);
    clean(); Model m; size_t lives = 1 + s.weighted({3, 2, 1}), logged = 0; int* ret = (int*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Un { int* p; ~Un() { munmap(p, 1 << 16); } } un{ret};
    const char* names[] = {"a.log", "b.log", "c.log"}; size_t base = s.pick<size_t>({1024, 1500, 0, 4000}); pbt::Bulk r(s.subseed());
    for (size_t life = 0; life < lives; ++life) {
        std::vector<Op> ops; m.started = m.on = false; m.path.clear(); m.rot = false; m.level = 1;
        if (s.chance(1, 12)) ops.push_back({RESET, 0, names[0]});
        if (s.chance(1, 12)) { if (s.flip()) ops.push_back({ROT, 0, "", base, 1 + (int)s.below(5)}); }
        ops.push_back({START, 0, s.chance(1, 8) ? "\1" : s.chance(1, 12) ? "nodir/x.log" : names[s.chance(1, 5)]});
        if (s.chance(3, 4)) ops.push_back({ROT, 0, "", base, s.chance(1, 8) ? 0 : 1 + (int)s.below(5)});
        size_t n = s.size(0, 40);
        for (size_t i = 0; i < n; ++i) switch (s.weighted({24, 2, 1, 1, 2, 1, 1, 1, 1})) {
        case 0: { size_t burst = s.chance(1, 3) ? 1 + s.below(30) : 1; for (size_t k = 0; k < burst; ++k) { Op o{LOG, 1 + (int)r.below(6)}; size_t len = r.below(4) ? r.below(120) : r.below(4) ? r.below(430) : r.below(1200); for (size_t j = 0; j < len; ++j) o.text += (char)(r.below(40) ? 32 + r.below(95) : r.below(3) ? '%' : r.below(3) ? 1 + r.below(255) : '\n'); ops.push_back(o); } break; }
        case 1: { Op o{MEM, 1 + (int)r.below(6)}; o.text.resize(s.size(0, 150)); for (auto& c : o.text) c = (char)r.below(256); ops.push_back(o); break; }
        case 2: ops.push_back({CLOSE}); break;
        case 3: ops.push_back({LEVEL, (int)s.below(8)}); break;
        case 4: ops.push_back({RESET, 0, s.chance(1, 10) ? "\1" : s.chance(1, 10) ? (s.flip() ? "" : "nodir/y") : names[s.below(3)]}); break;
        case 5: ops.push_back({ROT, 0, "", s.pick<size_t>({1024, 2000, 100, 0, 5000, 1u << 30, 7}), s.chance(1, 6) ? (s.flip() ? -3 : 1000) : 1 + (int)s.below(6)}); break;
        case 6: ops.push_back({NOROT}); break;
        case 7: ops.push_back({VERIFY}); break;
        default: ops.push_back({START, 0, names[s.below(3)]});
        }
        if (s.chance(1, 25)) {       // many old logs are kept
            int keep = s.pick({11, 12, 20, 60, 100, 101}); ops.push_back({ROT, 0, "", 1024, keep}); size_t k = 40 + s.below(s.chance(1, 3) ? 360 : 80);
            for (size_t i = 0; i < k; ++i) { Op o{LOG, cler::LOG_FATAL}; o.text = std::to_string(i) + string(330 + r.below(90), (char)('a' + i % 26)); ops.push_back(o); }
        }
        if (life == 0 && s.chance(1, 15)) { for (auto& o : ops) if (o.kind == ROT) o.n = 1; mkdir("a.log.1", 0700); mkdir("a.log.1/x", 0700); m.solid.insert("a.log.1"); m.exists.insert("a.log.1"); s.label(true, "old log cannot be replaced"); }
        if (!m.solid.empty()) for (auto& o : ops) if (o.kind == ROT) o.n = 1;
        fflush(stdout); unlink("out"); pid_t pid = fork();
        if (pid == 0) {
            int fd = open("out", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 1); int* p = ret;
            for (auto& o : ops) {
                const char* arg = o.text == "\1" ? nullptr : o.text.c_str(); *p = 0;
                switch (o.kind) { case START: *p = cler::start_logging(arg); break; case RESET: *p = cler::reset_logfile(arg); break; case CLOSE: cler::close_log_file(); break; case LEVEL: cler::set_log_level(LEVELS[o.lvl]); break; case LOG: log_at(o.lvl, o.text); break;
                case MEM: switch (o.lvl) { case 1: ZF_LOGV_MEM(o.text.data(), (unsigned)o.text.size(), "m"); break; case 2: ZF_LOGD_MEM(o.text.data(), (unsigned)o.text.size(), "m"); break; case 3: ZF_LOGI_MEM(o.text.data(), (unsigned)o.text.size(), "m"); break; case 4: ZF_LOGW_MEM(o.text.data(), (unsigned)o.text.size(), "m"); break; case 5: ZF_LOGE_MEM(o.text.data(), (unsigned)o.text.size(), "m"); break; default: ZF_LOGF_MEM(o.text.data(), (unsigned)o.text.size(), "m"); } break;
                case ROT: if (o.size == 7) cler::enable_log_rotation(); else if (o.n == 5) cler::enable_log_rotation(o.size); else cler::enable_log_rotation(o.size, o.n); break; case NOROT: cler::disable_log_rotation(); break; case VERIFY: *p = cler::verify_logfile(); break; }
                ++p;
            }
            int open_logs = 0; for (int i = 0; i < 200; ++i) { char l[64], w[600]; snprintf(l, sizeof l, "/proc/self/fd/%d", i); ssize_t len = readlink(l, w, sizeof w - 1); if (len < 0) continue; w[len] = 0; open_logs += strstr(w, ".log") && !strstr(w, "/out"); }
            ret[(1 << 14) - 1] = open_logs; _exit(7);
        }
        int st; waitpid(pid, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7, "the logging process died (%x)", st);
        T1 = time(nullptr); string out = slurp("out"); size_t at = 0; int* p = ret;
        for (auto& o : ops) {
            int got = *p++; bool none = o.text == "\1";
            switch (o.kind) {
            case START: { int want = m.started ? (int)cler::LOGGER_ALREADY_STARTED : none ? 0 : (m.started = true, m.open(o.text)); m.started = true; CHECK(got == want, "start_logging gives %d, not %d", got, want); break; }
            case RESET: { int want = none ? (int)cler::LOGGER_FILEPATH_EMPTY : !m.started ? (int)cler::LOGGER_NOT_STARTED : m.open(o.text); CHECK(got == want, "reset_logfile gives %d, not %d", got, want); break; }
            case CLOSE: m.on = false; break;
            case LEVEL: m.level = o.lvl; break;
            case LOG: case MEM: {
                if (!m.started || o.lvl < m.level) break;
                std::vector<Line> ls; if (o.kind == LOG) ls = {{o.lvl, o.text}}; else { ls = dump(o); ls.insert(ls.begin(), {o.lvl, "m"}); }
                for (auto& l : ls) { take(out, at, l, true, "terminal"); m.write(l); ++logged; }
                break;
            }
            case ROT: m.rot = true; m.max = o.size == 7 ? 10 << 20 : std::max<size_t>(o.size, 1024); m.keep = o.size == 7 ? 5 : std::min(std::max(o.n, 1), 100); break;
            case NOROT: m.rot = false; break;
            case VERIFY: CHECK((got == 0) == m.on, "verify_logfile gives %d, the log is %s", got, m.on ? "open" : "closed"); break;
            }
        }
        CHECK(ret[(1 << 14) - 1] <= 1, "%d log files are open in the process", ret[(1 << 14) - 1]);
        CHECK(at == out.size(), "terminal: %zu bytes more than logged: %s", out.size() - at, show(out.substr(at)).c_str());
        for (const char* b : names) for (int i = 0; i <= 101; ++i) {
            string f = b; if (i) f += "." + std::to_string(i);
            if (m.solid.count(f)) continue;
            bool is = there(f); CHECK(is == (m.exists.count(f) > 0), "%s %s (%zu rotations)", f.c_str(), is ? "exists" : "is missing", m.rotations);
            if (!is) continue;
            string t = slurp(f); size_t a = 0; for (auto& l : m.files[f]) { Line c = l; take(t, a, c, false, f.c_str()); CHECK(c.text == l.text, "%s: %s is cut", f.c_str(), show(l.text).c_str()); }
            CHECK(a == t.size(), "%s: %zu bytes too many: %s", f.c_str(), t.size() - a, show(t.substr(a)).c_str());
        }
    }
    s.note("%zu processes, %zu lines, %zu rotations", lives, logged, m.rotations);
    s.nontrivial(logged > 3 && (lives > 1 || m.rotations)); s.label(m.rotations > 3, "more than three rotations"); s.label(m.exists.size() > 12, "more than ten old logs"); s.label(lives > 1, "restart"); clean();
}
// the place of a message
PROPERTY(location, 3000, 40000, "a path of names, slashes and backslashes is cut to its file name as the source location of a message; non-trivial: the path has several parts") {
    string f, last, lastb; size_t n = 1 + s.below(5), sl = 0; pbt::Bulk r(s.subseed());
    for (size_t i = 0; i < n; ++i) { if (i || s.flip()) { f += r.below(3) ? '/' : '\\'; ++sl; } size_t l = r.below(9); for (size_t k = 0; k < l; ++k) f += "abcXYZ.-_ 09"[r.below(12)]; }
    size_t p = f.rfind('/'); if (p == string::npos) p = f.rfind('\\'); string want = p == string::npos ? f : f.substr(p + 1);
    CHECK(want == cler::filename(f.c_str()), "the file of %s is %s", f.c_str(), cler::filename(f.c_str())); s.nontrivial(sl > 1); s.note("%s", f.c_str());
    char b[600]; int line = __LINE__; auto fmt = [&](const char* form, auto... a) { snprintf(b, sizeof b, form, a...); }; fmt(ZF_ADD_LOCATION("x%sy", f.c_str()));
    CHECK(string(b) == "C27.cpp @ line: " + std::to_string(line) + ": x" + f + "y", "the location is shown as %s", b);
}
// every error has its own name
PROPERTY(names, 200, 400, "every return value and values that are none; always non-trivial") {
    int v = (int)s.below(12) - 1; char b[300]; memset(b, 'x', sizeof b); cler::logger_enum_to_cstr((cler::logger_retval_enum)v, b); static const char* w[] = {"LOGGER_SUCCESS", "LOGGER_FILEPATH_EMPTY", "LOGGER_ALREADY_STARTED", "LOGGER_NOT_STARTED", "LOGGER_COULD_NOT_OPEN_FILE", "LOGGER_FILE_PTR_IS_NULL", "LOGGER_FILE_FAILED_FLUSH", "LOGGER_FILE_INVALID_FD", "LOGGER_FILE_NOT_SYNCED"};
    CHECK(memchr(b, 0, cler::LOGGER_MAX_ENUM_STR_LEN) && string(b) == (v >= 0 && v < 9 ? w[v] : "UNKNOWN"), "%d is called %s", v, b); for (size_t i = cler::LOGGER_MAX_ENUM_STR_LEN; i < sizeof b; ++i) CHECK(b[i] == 'x', "written behind the end");
    s.nontrivial(true);
}
