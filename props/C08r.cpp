// the printed report on real threads
#include "pbt.hpp"
#include <array>
#include <atomic>
#include <cmath>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include "cler_desktop_utils.hpp"
using cler::Error; using cler::Empty; using cler::Result;

struct Blk : cler::BlockBase {
    std::vector<int> script; size_t at = 0; uint64_t ok = 0, err = 0;
    Blk(const char* n) : BlockBase(n) {}
    Result<Empty, Error> procedure() {
        int r = at < script.size() ? script[at++] : 1;
        if (r == 0) { ok++; return Empty{}; }
        err++; return r == 1 ? Error::NotEnoughSamples : r == 2 ? Error::NotEnoughSpace : Error::ProcedureError;
    }
};
static std::string printed(const std::function<void()>& f) {
    fflush(stdout); int keep = dup(1), fd = open("report.txt", O_RDWR | O_CREAT | O_TRUNC, 0644); CHECK(keep >= 0 && fd >= 0, "no file");
    dup2(fd, 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string t; char b[4096]; lseek(fd, 0, SEEK_SET); for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) t.append(b, (size_t)n); close(fd); return t;
}
static std::string trim(std::string t) { size_t a = t.find_first_not_of(' '), b = t.find_last_not_of(' '); return a == std::string::npos ? "" : t.substr(a, b - a + 1); }
static std::string after(const std::string& t, const char* key, bool need = true) {
    size_t p = t.find(key); if (p == std::string::npos) { CHECK(!need, "the report has no '%s'", key); return ""; }
    p += strlen(key); return trim(t.substr(p, t.find('\n', p) - p));
}
static bool shows(const std::string& t, double v, int digits) { char* e; double x = strtod(t.c_str(), &e); return e != t.c_str() && !*e && std::fabs(x - v) <= 0.5001 * std::pow(10, -digits) + 1e-6 * std::fabs(v); }

template <size_t... I> static void go(pbt::Src& s, std::index_sequence<I...>) {
    constexpr size_t N = sizeof...(I); std::vector<std::unique_ptr<Blk>> b; std::vector<std::string> names;
    for (size_t i = 0; i < N; ++i) {
        std::string n; pbt::Bulk r(s.subseed()); size_t len = s.chance(1, 5) ? 63 - s.below(3) : s.chance(1, 4) ? 28 + s.below(6) : 1 + s.below(20);
        for (size_t k = 0; k < len; ++k) n += "abcdefghijklmnopqrstuvwxyzABCDEF0123456789_%-. "[r.below(k == 0 || k + 1 == len ? 42 : 47)];
        names.push_back(n); b.push_back(std::make_unique<Blk>(n.c_str()));
        size_t c = s.below(400); unsigned pct = s.pick({100u, 0u, 50u, 99u, 10u}); for (size_t k = 0; k < c; ++k) b[i]->script.push_back(r.below(100) < pct ? 0 : 1 + (int)r.below(3));
    }
    cler::FlowGraphConfig c; c.collect_detailed_stats = !s.chance(1, 3); c.adaptive_sleep = s.flip();
    c.scheduler = s.flip() ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock; c.num_workers = 2 + s.below(5);
    c.adaptive_sleep_multiplier = 1.0 + (double)s.below(300) / 100; c.adaptive_sleep_max_us = 1 + (double)s.below(20000) / 10; c.adaptive_sleep_fail_threshold = s.below(50);
    auto fg = cler::make_desktop_flowgraph(cler::BlockRunner(b[I].get())...);
    fg.run(c);
    bool live = s.chance(1, 60);
    if (live) { std::string t = printed([&] { print_flowgraph_execution_report(fg); }); CHECK(t.find("still running") != std::string::npos && t.find("===") == std::string::npos, "the report of a running flowgraph: %s", t.c_str()); }
    else usleep((useconds_t)(200 + s.below(4000)));
    fg.stop();
    std::string t = printed([&] { print_flowgraph_execution_report(fg); });
    s.note("%zu blocks, %s, %s", N, c.collect_detailed_stats ? "statistics" : "none", c.adaptive_sleep ? "adaptive" : "not adaptive");
    CHECK(after(t, "Scheduler:") == (c.scheduler == cler::SchedulerType::FixedThreadPool ? "FixedThreadPool" : "ThreadPerBlock"), "scheduler '%s'", after(t, "Scheduler:").c_str());
    if (c.scheduler == cler::SchedulerType::FixedThreadPool) CHECK(shows(after(t, "Workers:"), (double)fg.config().num_workers, 0), "workers '%s'", after(t, "Workers:").c_str());
    CHECK(after(t, "Adaptive Sleep:") == (c.adaptive_sleep ? "ENABLED" : "DISABLED"), "adaptive sleep '%s'", after(t, "Adaptive Sleep:").c_str());
    CHECK(after(t, "Detailed Stats:") == (c.collect_detailed_stats ? "ENABLED" : "DISABLED"), "detailed statistics '%s'", after(t, "Detailed Stats:").c_str());
    if (c.adaptive_sleep) CHECK(shows(after(t, "Multiplier:"), c.adaptive_sleep_multiplier, 2) && shows(after(t, "Max Sleep (us):"), c.adaptive_sleep_max_us, 1) && shows(after(t, "Fail Threshold:"), (double)c.adaptive_sleep_fail_threshold, 0), "the sleep settings are shown as %s", t.c_str());
    // tables: one row per block, in order
    std::vector<std::vector<std::string>> rows; std::istringstream is(t);
    for (std::string l; std::getline(is, l);) if (l.find('|') != std::string::npos) { rows.emplace_back(); std::istringstream ls(l); for (std::string f; std::getline(ls, f, '|');) rows.back().push_back(trim(f)); }
    bool table = c.collect_detailed_stats || c.adaptive_sleep;
    CHECK(rows.size() == (table ? N + 1 : 0), "%zu rows for %zu blocks:\n%s", rows.size(), N, t.c_str());
    auto col = [&](const char* h) { for (size_t i = 0; i < rows[0].size(); ++i) if (rows[0][i] == h) return i; FAIL_CASE("no column '%s'", h); return (size_t)0; };
    for (size_t i = 0; table && i < N; ++i) {
        auto& st = fg.stats()[i]; auto& r = rows[i + 1]; CHECK(r.size() == rows[0].size(), "row %zu has %zu fields", i, r.size());
        if (c.collect_detailed_stats) {
            CHECK(r[col("Block")] == names[i], "row %zu is of '%s', not '%s'", i, r[col("Block")].c_str(), names[i].c_str());
            uint64_t n = b[i]->ok + b[i]->err; double rate = n ? 100.0 * (double)b[i]->ok / (double)n : 0;
            CHECK(shows(r[col("Success%")], rate, 1), "block %zu: %llu of %llu calls succeeded, the report says %s %%", i, (unsigned long long)b[i]->ok, (unsigned long long)n, r[col("Success%")].c_str());
            double cpu = st.total_runtime_s > 0 ? 100 * (st.total_runtime_s - st.total_dead_time_s) / st.total_runtime_s : 0;
            CHECK(shows(r[col("CPU %")], cpu, 1), "block %zu: %g of %g s idle, the report says %s %% busy", i, st.total_dead_time_s, st.total_runtime_s, r[col("CPU %")].c_str());
            CHECK(shows(r[col("AvgTime(us)")], b[i]->ok ? st.total_runtime_s * 1e6 / (double)b[i]->ok : 0, 1), "block %zu: %g s for %llu calls, the report says %s us each", i, st.total_runtime_s, (unsigned long long)b[i]->ok, r[col("AvgTime(us)")].c_str());
        } else CHECK(shows(r[col("Sleep(us)")], st.current_adaptive_sleep_us.load(), 1), "block %zu: the sleep time is %g us, the report says %s", i, st.current_adaptive_sleep_us.load(), r[col("Sleep(us)")].c_str());
    }
    if (!table) CHECK(shows(after(t, "Block count:"), (double)N, 0), "block count '%s'", after(t, "Block count:").c_str());
    std::ostringstream os; for (size_t e = 0; e <= (size_t)Error::TERM_EOFReached; ++e) { os.str(""); os << (Error)e; CHECK(os.str() == cler::to_str((Error)e), "error %zu is printed as '%s'", e, os.str().c_str()); }
    bool some = false; for (auto& x : b) some |= x->ok && x->err > 0; s.nontrivial(some); s.label(live, "while running"); s.label(!table, "no table");
}
PROPERTY_T(report, 800, 15000, 3, "a flowgraph of one to four blocks with scripted results on real threads; its printed report is parsed and compared with the configuration, the calls made and the statistics; non-trivial: a block with both results") {
    switch (s.below(4)) { case 0: go(s, std::make_index_sequence<1>()); break; case 1: go(s, std::make_index_sequence<2>()); break; case 2: go(s, std::make_index_sequence<3>()); break; default: go(s, std::make_index_sequence<4>()); }
}
