// Small property-based testing engine: choice-sequence generation, forked execution,
// integrated shrinking, classification.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <initializer_list>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <limits.h>

namespace pbt {

constexpr size_t MAX_CHOICES = 1u << 20;
constexpr size_t MAX_MSG = 1u << 14;
constexpr size_t MAX_NOTE = 1u << 16;
constexpr int FAIL_EXIT = 77;

struct Shared {
    volatile uint64_t case_no;        // cases started in this child
    volatile uint64_t cur_index;      // index of the running case
    volatile uint64_t nchoices;
    volatile uint64_t failed;
    volatile uint64_t note_len;
    volatile uint64_t done;
    char msg[MAX_MSG];
    char note[MAX_NOTE];
    uint64_t choices[MAX_CHOICES];
};
inline Shared* shared() {
    static Shared* s = [] {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
        return static_cast<Shared*>(p);
    }();
    return s;
}

// ---- failing: works from any thread, fiber, callback or destructor -----------------------
[[noreturn]] inline void vfail(const char* file, int line, const char* fmt, va_list ap) {
    Shared* s = shared();
    char buf[MAX_MSG];
    int n = snprintf(buf, sizeof buf, "%s:%d: ", strrchr(file, '/') ? strrchr(file, '/') + 1 : file, line);
    vsnprintf(buf + n, sizeof(buf) - n, fmt, ap);
    if (!s->failed) { memcpy(s->msg, buf, sizeof buf); s->failed = 1; }
    _exit(FAIL_EXIT);
}
[[noreturn]] inline void fail_at(const char* file, int line, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vfail(file, line, fmt, ap);
}
#define FAIL_CASE(...) ::pbt::fail_at(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail_at(__FILE__, __LINE__, __VA_ARGS__); } while (0)

// ---- random source ---------------------------------------------------------------------
inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Stats {
    uint64_t evals = 0, nontrivial = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
};

class Src {
    bool replay_;
    uint64_t rng_;
    const uint64_t* seq_ = nullptr;
    size_t seqn_ = 0, pos_ = 0;
    bool nontrivial_ = false;
    std::set<std::string> labels_;
    uint64_t hash_ = 1469598103934665603ull;
public:
    bool verbose = false;
    explicit Src(uint64_t seed) : replay_(false), rng_(seed) { splitmix(rng_); reset_shared(); }
    Src(const uint64_t* seq, size_t n) : replay_(true), rng_(0), seq_(seq), seqn_(n) { reset_shared(); }
    static void reset_shared() { auto* s = shared(); s->nchoices = 0; s->note_len = 0; s->note[0] = 0; }

    // uniform in [0, n); 0 is the simplest choice
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (replay_) { v = pos_ < seqn_ ? seq_[pos_] : 0; ++pos_; if (v >= n) v = v % n; }
        else { v = splitmix(rng_); v = (n & (n - 1)) == 0 ? (v & (n - 1)) : v % n; }
        auto* s = shared();
        uint64_t k = s->nchoices;
        if (k < MAX_CHOICES) { s->choices[k] = v; s->nchoices = k + 1; }
        hash_ = (hash_ ^ (v + 0x9E37)) * 1099511628211ull;
        hash_ ^= hash_ >> 29;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }   // 0 -> false
    bool flip() { return below(2) != 0; }
    // continue a sequence with about `avg` elements; 0 -> stop
    bool more(unsigned avg) { return below(avg + 1) != 0; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0; for (auto x : w) tot += x;
        uint64_t r = below(tot); size_t i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    // sizes in [lo, hi], mostly small, sometimes anything, sometimes the ends
    size_t size(size_t lo, size_t hi) {
        if (hi <= lo) return lo;
        size_t span = hi - lo;
        switch (weighted({5, 3, 2, 1})) {
            case 0: return lo + below(std::min<size_t>(span, 8) + 1);
            case 1: return lo + below(std::min<size_t>(span, 64) + 1);
            case 2: return lo + below(span + 1);
            default: return hi - below(std::min<size_t>(span, 3) + 1);
        }
    }
    double unit() { return (double)below(1u << 24) / (double)(1u << 24); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    uint64_t bits(unsigned n) { return n >= 64 ? (below(1ull << 32) << 32) | below(1ull << 32) : below(1ull << n); }
    // an independent generator for bulk data (one choice only, so data does not dominate the sequence)
    uint64_t subseed() { return below(1u << 30); }

    void nontrivial(bool c = true) { if (c) nontrivial_ = true; }
    void label(const std::string& l) { labels_.insert(l); }
    void label(bool c, const char* l) { if (c) labels_.insert(l); }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        auto* s = shared();
        uint64_t n = s->note_len;
        if (n + 2 >= MAX_NOTE) return;
        va_list ap; va_start(ap, fmt);
        int k = vsnprintf(s->note + n, MAX_NOTE - n - 1, fmt, ap);
        va_end(ap);
        if (k > 0) s->note_len = std::min<uint64_t>(n + k, MAX_NOTE - 2);
        if (verbose) { fputs(s->note + n, stdout); fflush(stdout); }
    }
    void finish(Stats& st) {
        st.evals++;
        for (auto& l : labels_) st.labels[l]++;
        if (nontrivial_) {
            st.nontrivial++;
            if (st.hashes.insert(hash_).second && (st.samples.size() < 4 || (st.hashes.size() & (st.hashes.size() - 1)) == 0)) {
                auto* s = shared();
                std::string t(s->note, std::min<size_t>((size_t)s->note_len, 700));
                if (s->note_len > 700) t += " ...";
                if (st.samples.size() < 8) st.samples.push_back(t); else st.samples[4 + st.hashes.size() % 4] = t;
            }
        }
    }
};

// bulk data generator derived from one choice
struct Bulk {
    uint64_t x;
    explicit Bulk(uint64_t seed) : x(seed * 0x2545F4914F6CDD1Dull + 0x1234567) {}
    uint64_t u64() { return splitmix(x); }
    uint32_t u32() { return (uint32_t)u64(); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double gauss() { double a = unit(), b = unit(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
};

// ---- registry ----------------------------------------------------------------------------
using PropFn = void (*)(Src&);
struct Prop {
    const char* name;
    PropFn fn;
    uint64_t quick, thorough;   // number of cases
    const char* rule;           // what a case is and when it is non-trivial
    bool known = false;         // a known finding: expected to fail, run once
    unsigned repeats = 1;       // replays to try when confirming (schedule dependent checks)
    unsigned hang_s = 40;       // wall seconds after which a case counts as stuck
};
inline std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
struct Reg { Reg(Prop p) { registry().push_back(p); } };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(NAME, QUICK, THOROUGH, RULE) \
    static void NAME(pbt::Src&); static pbt::Reg PBT_CAT(reg_, NAME){pbt::Prop{#NAME, NAME, QUICK, THOROUGH, RULE}}; static void NAME(pbt::Src& s)
#define PROPERTY_T(NAME, QUICK, THOROUGH, REPEATS, RULE) \
    static void NAME(pbt::Src&); static pbt::Reg PBT_CAT(reg_, NAME){pbt::Prop{#NAME, NAME, QUICK, THOROUGH, RULE, false, REPEATS}}; static void NAME(pbt::Src& s)
#define KNOWN_FINDING(NAME, RULE) \
    static void NAME(pbt::Src&); static pbt::Reg PBT_CAT(reg_, NAME){pbt::Prop{#NAME, NAME, 1, 1, RULE, true}}; static void NAME(pbt::Src& s)

inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

enum class Out { Pass, Fail, Hang };
struct Outcome { Out o; std::string msg; };

inline std::string status_text(int st) {
    auto* s = shared();
    if (s->failed) return std::string(s->msg);
    char b[128];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(b, sizeof b, "exit status %d (sanitizer report or abnormal exit)", WEXITSTATUS(st));
    return b;
}
inline void quiet_child(const char* errfile) {
    int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int n = open("/dev/null", O_WRONLY);
    if (n >= 0) { dup2(n, 1); close(n); }
}
inline std::string errfile_path() { char b[64]; snprintf(b, sizeof b, "/tmp/pbt_err_%d", (int)getpid()); return b; }
inline std::string read_err(const std::string& p, size_t max = 3000) {
    FILE* f = fopen(p.c_str(), "r"); if (!f) return "";
    std::string r(max, 0); size_t n = fread(&r[0], 1, max, f); fclose(f); r.resize(n);
    return r;
}

// run one replay in a forked child
inline Outcome attempt(const Prop& p, const std::vector<uint64_t>& seq, double timeout, unsigned repeats,
                       std::vector<uint64_t>* used, std::string* note, std::string* err) {
    Outcome out{Out::Pass, ""};
    std::string ef = errfile_path();
    for (unsigned r = 0; r < repeats && out.o == Out::Pass; ++r) {
        auto* s = shared();
        s->failed = 0; s->done = 0; s->nchoices = 0; s->note_len = 0; s->note[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            quiet_child(ef.c_str());
            Src src(seq.data(), seq.size());
            p.fn(src);
            shared()->done = 1;
            _exit(0);
        }
        double t0 = now_s(); int st = 0; bool hang = false;
        useconds_t nap = 50;
        while (waitpid(pid, &st, WNOHANG) == 0) {
            if (now_s() - t0 > timeout) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
            usleep(nap); if (nap < 4000) nap += nap / 2;
        }
        kill(-pid, SIGKILL);
        if (hang) { out = {Out::Hang, "case does not finish (stuck)"}; }
        else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done)) out = {Out::Fail, status_text(st)};
        if (out.o != Out::Pass) {
            if (used) used->assign(s->choices, s->choices + s->nchoices);
            if (note) note->assign(s->note, s->note_len);
            if (err) *err = read_err(ef);
        }
    }
    unlink(ef.c_str());
    return out;
}

inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, double budget, bool hang, double& spent) {
    double t0 = now_s();
    double to = hang ? 8 : p.hang_s;
    unsigned reps = p.repeats > 1 ? std::min(p.repeats, 10u) : 1;
    auto left = [&] { return now_s() - t0 < budget; };
    auto fails = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>* used) {
        Outcome o = attempt(p, c, to, reps, used, nullptr, nullptr);
        return o.o != Out::Pass;
    };
    std::vector<uint64_t> used;
    auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto take = [&](const std::vector<uint64_t>& c) {
        if (!fails(c, &used)) return false;
        const auto& n = (used.size() <= c.size() && !used.empty()) ? used : c;
        if (better(n, best)) { best = n; return true; }
        if (better(c, best)) { best = c; return true; }
        return false;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && left(); k /= 2) {
            for (size_t i = best.size(); i-- > 0 && left();) {
                if (i + k > best.size()) continue;
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (take(c)) { progress = true; i = std::min(i + 1, best.size()); }
                else if (k > 8) i = i >= k / 2 ? i - k / 2 : 0;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && left(); ++i) {
            if (best[i] == 0) continue;
            std::vector<uint64_t> c = best; c[i] = 0;
            if (take(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            while (hi - lo > 1 && left() && i < best.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c = best; c[i] = mid;
                if (take(c)) { progress = true; hi = i < best.size() ? best[i] : mid; if (hi > mid) hi = mid; }
                else lo = mid;
            }
        }
    }
    spent = now_s() - t0;
    return best;
}

inline void write_replay(const char* path, const Prop& p, const std::vector<uint64_t>& c, const std::string& msg,
                         const std::string& note, const std::string& err) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); return; }
    fprintf(f, "{\"prop\": %s,\n \"choices\": [", jstr(p.name).c_str());
    for (size_t i = 0; i < c.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)c[i]);
    fprintf(f, "],\n \"message\": %s,\n \"trace\": %s,\n \"stderr\": %s}\n", jstr(msg).c_str(), jstr(note.substr(0, 8000)).c_str(), jstr(err).c_str());
    fclose(f);
}

inline void write_stats(const char* path, const Prop& p, const Stats& st, const char* result, const std::string& msg) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); return; }
    fprintf(f, "{\"prop\": %s, \"rule\": %s, \"result\": %s, \"message\": %s, \"evals\": %llu, \"nontrivial\": %llu, \"labels\": {",
            jstr(p.name).c_str(), jstr(p.rule).c_str(), jstr(result).c_str(), jstr(msg).c_str(),
            (unsigned long long)st.evals, (unsigned long long)st.nontrivial);
    bool first = true;
    for (auto& [k, v] : st.labels) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(k).c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "}, \"samples\": [");
    for (size_t i = 0; i < st.samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", jstr(st.samples[i]).c_str());
    fprintf(f, "], \"hashes\": [");
    first = true;
    for (auto h : st.hashes) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
}

inline uint64_t case_seed(const char* name, uint64_t seed, uint64_t i) {
    uint64_t h = 1469598103934665603ull ^ (seed * 0x9E3779B97F4A7C15ull);
    for (const char* c = name; *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211ull;
    h ^= i * 0xD6E8FEB86659FD93ull; splitmix(h); return splitmix(h);
}

inline const Prop* find(const char* name) { for (auto& p : registry()) if (!strcmp(p.name, name)) return &p; return nullptr; }

// reruns cases start..upto in one process; true if one of them fails
inline bool batch_fails(const Prop& p, uint64_t seed, uint64_t start, uint64_t step, uint64_t upto, std::string& msg) {
    auto* s = shared();
    s->failed = 0; s->done = 0; s->case_no = 0;
    std::string ef = errfile_path();
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0); quiet_child(ef.c_str());
        Stats st;
        for (uint64_t i = start; i <= upto; i += step) { s->case_no = s->case_no + 1; Src src(case_seed(p.name, seed, i)); p.fn(src); src.finish(st); }
        s->done = 1; _exit(0);
    }
    int st = 0; double t0 = now_s(); bool hang = false;
    while (waitpid(pid, &st, WNOHANG) == 0) { if (now_s() - t0 > 200) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; } usleep(1000); }
    kill(-pid, SIGKILL);
    unlink(ef.c_str());
    if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done) return false;
    msg = hang ? "batch does not finish" : status_text(st);
    return !hang;
}
inline void write_batch_replay(const char* path, const Prop& p, uint64_t seed, uint64_t start, uint64_t step, uint64_t upto,
                               const std::string& msg, const std::string& note, const std::string& err) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); return; }
    fprintf(f, "{\"prop\": %s,\n \"batch\": [%llu,%llu,%llu,%llu],\n \"message\": %s,\n \"trace\": %s,\n \"stderr\": %s}\n", jstr(p.name).c_str(),
            (unsigned long long)seed, (unsigned long long)start, (unsigned long long)step, (unsigned long long)upto,
            jstr(msg).c_str(), jstr(note.substr(0, 8000)).c_str(), jstr(err).c_str());
    fclose(f);
}

// run cases start, start+step, ... < count
inline int run(const Prop& p, uint64_t seed, uint64_t start, uint64_t step, uint64_t count, double deadline,
               const char* stats_path, const char* replay_path) {
    auto* s = shared();
    double t0 = now_s();
    // batches in one child; the child writes its own partial stats on completion
    std::string part = std::string(stats_path) + ".part";
    std::string ef = errfile_path();
    s->failed = 0; s->case_no = 0; s->done = 0;
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        quiet_child(ef.c_str());
        Stats st;
        bool out_of_time = false;
        for (uint64_t i = start; i < count; i += step) {
            if (deadline > 0 && now_s() - t0 > deadline) { out_of_time = true; break; }
            s->cur_index = i; s->case_no = s->case_no + 1;
            Src src(case_seed(p.name, seed, i));
            p.fn(src);
            src.finish(st);
        }
        write_stats(part.c_str(), p, st, out_of_time ? "time" : "pass", "");
        s->done = 1;
        _exit(0);
    }
    int stt = 0; uint64_t last = 0; double last_t = now_s(); bool hang = false;
    useconds_t nap = 200;
    while (waitpid(pid, &stt, WNOHANG) == 0) {
        if (s->case_no != last) { last = s->case_no; last_t = now_s(); }
        else if (now_s() - last_t > p.hang_s) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &stt, 0); break; }
        usleep(nap); if (nap < 10000) nap += nap / 2;
    }
    kill(-pid, SIGKILL);
    if (!hang && WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && s->done) {
        rename(part.c_str(), stats_path); unlink(ef.c_str());
        return 0;
    }
    std::vector<uint64_t> c(s->choices, s->choices + s->nchoices);
    std::string msg = hang ? "case does not finish (stuck)" : status_text(stt);
    std::string note(s->note, s->note_len), err = read_err(ef);
    unlink(ef.c_str()); unlink(part.c_str());
    Stats st; st.evals = s->case_no;
    // confirm
    double to = p.hang_s * (hang ? 1.3 : 1.0);
    std::string n2, e2; std::vector<uint64_t> used;
    Outcome o = attempt(p, c, to, std::max(1u, p.repeats), &used, &n2, &e2);
    if (o.o == Out::Pass) {
        // perhaps dependent on earlier cases of this process: rerun the whole batch three times
        uint64_t idx = s->cur_index; unsigned again = 0; std::string m2;
        for (unsigned k = 0; k < 3 && !hang; ++k) again += batch_fails(p, seed, start, step, idx, m2);
        if (again == 3) {
            write_batch_replay(replay_path, p, seed, start, step, idx, m2, note, err);
            write_stats(stats_path, p, st, "fail", m2);
            return 1;
        }
        write_replay(replay_path, p, c, msg, note, err);
        write_stats(stats_path, p, st, "unconfirmed", msg);
        return 4;
    }
    double spent = 0;
    std::vector<uint64_t> b = shrink(p, c, hang ? 60 : 45, o.o == Out::Hang, spent);
    // the shrunk case has to fail three times
    unsigned ok = 0; std::string m3, n3, e3;
    for (unsigned k = 0; k < 3; ++k) { Outcome x = attempt(p, b, o.o == Out::Hang ? 15 : to, std::max(1u, p.repeats), &used, &n3, &e3); if (x.o != Out::Pass) { ok++; m3 = x.msg; } }
    if (ok < 3) {
        b = c; ok = 0;
        for (unsigned k = 0; k < 3; ++k) { Outcome x = attempt(p, b, to, std::max(1u, p.repeats * 3), &used, &n3, &e3); if (x.o != Out::Pass) { ok++; m3 = x.msg; } }
    }
    if (ok < 3 && !(p.repeats > 1 && ok >= 1)) {
        write_replay(replay_path, p, c, msg, note, err);
        write_stats(stats_path, p, st, "unconfirmed", msg);
        return 4;
    }
    write_replay(replay_path, p, b, m3.empty() ? msg : m3, n3, e3);
    write_stats(stats_path, p, st, "fail", m3.empty() ? msg : m3);
    return 1;
}

inline int replay(const char* file, unsigned times) {
    FILE* f = fopen(file, "r"); if (!f) { perror(file); return 2; }
    std::string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    size_t a = t.find("\"prop\": \""); if (a == std::string::npos) return 2; a += 9;
    std::string name = t.substr(a, t.find('"', a) - a);
    if (size_t bq = t.find("\"batch\": ["); bq != std::string::npos) {
        unsigned long long v[4] = {0}; sscanf(t.c_str() + bq + 10, "%llu,%llu,%llu,%llu", v, v + 1, v + 2, v + 3);
        const Prop* p = find(name.c_str()); if (!p) return 2;
        std::string m; unsigned bad = 0;
        for (unsigned i = 0; i < times; ++i) bad += batch_fails(*p, v[0], v[1], v[2], v[3], m);
        printf("%s: %u of %u batch replays fail\n%s\n", name.c_str(), bad, times, m.c_str());
        return bad ? 1 : 0;
    }
    size_t c = t.find("\"choices\": ["); if (c == std::string::npos) return 2; c += 12;
    std::vector<uint64_t> seq; const char* q = t.c_str() + c;
    while (*q && *q != ']') { char* e; unsigned long long v = strtoull(q, &e, 10); if (e == q) { ++q; continue; } seq.push_back(v); q = e; if (*q == ',') ++q; }
    const Prop* p = find(name.c_str()); if (!p) { fprintf(stderr, "no such property here: %s\n", name.c_str()); return 2; }
    unsigned bad = 0; std::string note, err, msg;
    for (unsigned i = 0; i < times; ++i) { Outcome o = attempt(*p, seq, p->hang_s, std::max(1u, p->repeats), nullptr, &note, &err); if (o.o != Out::Pass) { bad++; msg = o.msg; } }
    printf("%s: %u of %u replays fail\n", name.c_str(), bad, times);
    if (bad) printf("%s\n--- trace\n%s\n--- stderr\n%s\n", msg.c_str(), note.c_str(), err.c_str());
    return bad ? 1 : 0;
}

inline int main_impl(int argc, char** argv) {
    shared();
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") {
        for (auto& p : registry()) printf("%s\t%llu\t%llu\t%d\t%s\n", p.name, (unsigned long long)p.quick, (unsigned long long)p.thorough, p.known ? 1 : 0, p.rule);
        return 0;
    }
    if (cmd == "run" && argc >= 10) {
        const Prop* p = find(argv[2]); if (!p) return 2;
        return run(*p, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), strtoull(argv[6], 0, 10), atof(argv[7]), argv[8], argv[9]);
    }
    if (cmd == "replay" && argc >= 3) return replay(argv[2], argc > 3 ? atoi(argv[3]) : 3);
    if (cmd == "one" && argc >= 5) {   // one <prop> <seed> <index>: in this process, verbose, under a debugger if wanted
        const Prop* p = find(argv[2]); if (!p) return 2;
        Src src(case_seed(p->name, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10))); src.verbose = true;
        p->fn(src); puts("\npass"); return 0;
    }
    fprintf(stderr, "usage: list | run prop seed start step count deadline stats replay | replay file [n] | one prop seed index\n");
    return 2;
}
} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
