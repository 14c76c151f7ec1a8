#define FG_WIDE 17
#include "fg_common.hpp"
using namespace fg;

struct Obs {     // what the task layer sees of one block
    uint64_t idle = 0, strict = 0, oks = 0; bool slept = false, ok_since_sleep = false, had_soft = false;
    double last_sleep = 0; uint64_t first_ns = 0, last_ns = 0, sleeps = 0; double streak_sleep = -1;
};
static bool idle_err(Error e) { return e == Error::NotEnoughSamples || e == Error::NotEnoughSpace || e == Error::NotEnoughSpaceOrSamples; }

static void run_case(pbt::Src& s, bool adaptive_focus) {
    Setup u; build(s, u, adaptive_focus ? 60 : 150); Graph& g = *u.g;
    std::vector<Obs> ob(g.nodes.size()); cler::FlowGraphConfig c;
    if (adaptive_focus) {     // long idle phases
        for (auto& n : g.nodes) {
            n->soft_pct = s.chance(1, 4) ? (unsigned)s.below(20) : 0; n->lazy_pct = 0; if (s.chance(2, 3)) n->idle_len = 1 + s.below(60); }
    }
    in_world(s, [&](vs::World& w, vs::Policy::Hooks& h) {
        size_t runs = 1 + s.below(adaptive_focus ? 2 : 4); uint64_t total_sleeps = 0, caps = 0, shrinks = 0; bool was_fatal = false, off_after_on = false, prev_stats = false;
        auto stat = [&](Node& n) -> const cler::BlockExecutionStats& { return g.stats(runner_index(u.k, n.id)); };
        u.w.on_enter = [&](Node& n) {
            Obs& o = ob[n.id]; if (!o.first_ns) o.first_ns = w.now_ns;
            if (c.adaptive_sleep && c.adaptive_sleep_max_us >= 1)
                CHECK(o.strict <= c.adaptive_sleep_fail_threshold || o.slept, "block %zu was idle %llu times in a row (threshold %zu) and is called again without a sleep", n.id, (unsigned long long)o.strict, c.adaptive_sleep_fail_threshold);
            double cur = stat(n).current_adaptive_sleep_us.load();
            if (c.adaptive_sleep && o.last_sleep > 0 && o.ok_since_sleep && (!n.last_ok || o.oks >= c.max_calls_per_tick)) { CHECK(cur < o.last_sleep, "block %zu made progress but its sleep stays %g us (was %g)", n.id, cur, o.last_sleep); shrinks++; }
            if (!c.adaptive_sleep) CHECK(cur == 0, "a sleep time of %g us although adaptive sleep is off", cur);
            o.slept = false;
        };
        u.w.on_leave = [&](Node& n, const Result<Empty, Error>& r) {
            Obs& o = ob[n.id]; o.last_ns = w.now_ns;
            if (r.is_ok()) { o.idle = o.strict = 0; o.oks++; o.ok_since_sleep = true; o.streak_sleep = -1; }
            else { o.oks = 0; if (idle_err(n.last_err)) { o.idle++; o.strict++; } else { o.strict = 0; } }
        };
        h.sleep = [&](size_t us) {
            auto it = u.w.last.find(w.cur); if (it == u.w.last.end()) return;
            Node& n = *it->second; Obs& o = ob[n.id];
            CHECK(!n.busy, "slept inside a procedure");
            CHECK(c.adaptive_sleep, "block %zu is put to sleep although adaptive sleep is off", n.id);
            CHECK(!n.last_ok && idle_err(n.last_err), "block %zu is put to sleep after a call that was not idle", n.id);
            CHECK(o.idle > c.adaptive_sleep_fail_threshold, "block %zu is put to sleep after %llu consecutive idle calls, the threshold is %zu", n.id, (unsigned long long)o.idle, c.adaptive_sleep_fail_threshold);
            CHECK((double)us <= c.adaptive_sleep_max_us, "a sleep of %zu us, the maximum is %g", us, c.adaptive_sleep_max_us);
            double cur = stat(n).current_adaptive_sleep_us.load();
            CHECK(cur <= c.adaptive_sleep_max_us, "a sleep time of %g us, the maximum is %g", cur, c.adaptive_sleep_max_us);
            CHECK((double)us <= cur + 1e-6 && (double)us >= cur - 1.0001, "asked to sleep %zu us, the sleep time is %g", us, cur);
            if (o.streak_sleep > 0) {      // idle again since the last sleep
                double lo = std::min(c.adaptive_sleep_max_us, o.streak_sleep * c.adaptive_sleep_multiplier * 0.93), hi = o.streak_sleep * c.adaptive_sleep_multiplier * 1.07;
                CHECK(cur >= lo - 1e-9 && cur <= hi + 1e-9, "block %zu: sleep went from %g to %g us, the multiplier is %g and the maximum %g", n.id, o.streak_sleep, cur, c.adaptive_sleep_multiplier, c.adaptive_sleep_max_us);
                caps += cur == c.adaptive_sleep_max_us;
            } else if (o.last_sleep <= 0) CHECK(cur <= 2, "the first sleep is %g us", cur);
            o.streak_sleep = o.last_sleep = cur; o.slept = true; o.ok_since_sleep = false; o.sleeps++; total_sleeps++;
        };
        for (size_t run = 0; run < runs; ++run) {
            c = config(s, g.nodes.size());
            if (adaptive_focus) { c.adaptive_sleep = !s.chance(1, 6); c.adaptive_sleep_fail_threshold = s.pick<size_t>({3, 0, 1, 10, 25}); if (s.chance(1, 8)) c.adaptive_sleep_max_us = 0.5; }
            for (auto& n : g.nodes) n->run_ok = n->run_err = 0;
            for (auto& o : ob) o = Obs();
            bool fatal = s.chance(1, adaptive_focus ? 12 : 4); if (fatal) { Node& n = *g.nodes[s.below(g.nodes.size())]; n.fatal_at = (long)(n.calls + s.below(80)); }
            u.w.may_call = true; uint64_t t0 = w.now_ns;
            uint64_t len = s.below(adaptive_focus ? 12000 : 4000), p0 = w.points;
            bool timed = s.chance(1, 5);
            if (timed) { h.relax_ns = 2000; g.run_for(20 + s.below(800), 0, c); h.relax_ns = 300; }
            else {
                g.run(c, false);
                while (w.points - p0 < len && !(fatal && g.stopped())) w.sleep(2000);
                g.stop();
            }
            u.w.may_call = false; double elapsed = (double)(w.now_ns - t0) * 1e-9;
            was_fatal |= fatal;
            for (auto& n : g.nodes) {
                auto& st = stat(*n); Obs& o = ob[n->id];
                n->fatal_at = -1;
                if (c.collect_detailed_stats) {
                    std::string nm(n->name());
                    CHECK(std::string(st.name.c_str()) == nm && nm.size() <= 63, "block %zu is named '%s', its statistics say '%s'", n->id, nm.c_str(), st.name.c_str());
                    CHECK(st.successful_procedures == n->run_ok, "block %zu: %zu successful calls counted, %llu were made%s", n->id, st.successful_procedures, (unsigned long long)n->run_ok, fatal ? " (run ended by a fatal result)" : "");
                    CHECK(st.failed_procedures == n->run_err, "block %zu: %zu failed calls counted, %llu were made%s", n->id, st.failed_procedures, (unsigned long long)n->run_err, fatal ? " (run ended by a fatal result)" : "");
                    CHECK(st.total_dead_time_s >= 0 && st.total_dead_time_s <= st.total_runtime_s * (1 + 1e-9) + 1e-12, "block %zu: idle for %g s of %g s", n->id, st.total_dead_time_s, st.total_runtime_s);
                    CHECK(st.total_runtime_s <= elapsed + 1e-9, "block %zu: run time %g s, the run took %g s", n->id, st.total_runtime_s, elapsed);
                    if (o.first_ns) CHECK(st.total_runtime_s >= (double)(o.last_ns - o.first_ns) * 1e-9 - 1e-9, "block %zu: run time %g s, its calls span %g s", n->id, st.total_runtime_s, (double)(o.last_ns - o.first_ns) * 1e-9);
                    double cpu = st.get_cpu_utilization_percent(); CHECK(cpu >= -1e-6 && cpu <= 100 + 1e-6, "block %zu: %g %% utilization", n->id, cpu);
                    double ax = st.get_avg_execution_time_us(), ad = st.get_avg_dead_time_per_fail();
                    CHECK(n->run_ok ? std::fabs(ax * n->run_ok - st.total_runtime_s * 1e6) < 1e-6 * (1 + st.total_runtime_s * 1e6) : ax == 0, "average execution time %g us", ax);
                    CHECK(n->run_err ? std::fabs(ad * n->run_err - st.total_dead_time_s) < 1e-9 * (1 + st.total_dead_time_s) : ad == 0, "average idle time %g s", ad);
                    CHECK(st.final_adaptive_sleep_us >= 0 && (c.adaptive_sleep ? st.final_adaptive_sleep_us <= c.adaptive_sleep_max_us : st.final_adaptive_sleep_us == 0), "final sleep time %g us", st.final_adaptive_sleep_us);
                } else {
                    CHECK(st.successful_procedures == 0 && st.failed_procedures == 0, "block %zu: statistics are off and show %zu/%zu calls", n->id, st.successful_procedures, st.failed_procedures);
                    CHECK(st.total_dead_time_s == 0 && st.total_runtime_s == 0, "block %zu: statistics are off and show times", n->id);
                    off_after_on |= prev_stats;
                }
            }
            prev_stats = c.collect_detailed_stats;
            s.note("run of %.1f us%s; ", elapsed * 1e6, fatal ? " with fatal" : "");
        }
        // the results are those of the sequential run
        auto ref = g.reference();
        for (size_t n = 0; n < g.nodes.size(); ++n) { Node& nd = *g.nodes[n]; if (nd.nout || !nd.nin) continue; CHECK(nd.sunk.size() <= ref[n].size(), "too many items"); for (size_t i = 0; i < nd.sunk.size(); ++i) CHECK(nd.sunk[i] == ref[n][i], "item %zu at sink %zu differs", i, n); }
        uint64_t calls = 0; for (auto& n : g.nodes) calls += n->calls;
        s.nontrivial(adaptive_focus ? total_sleeps > 3 : calls > 10);
        s.label(total_sleeps > 0, "slept"); s.label(total_sleeps > 50, "more than 50 sleeps"); s.label(caps > 0, "reached the maximum"); s.label(shrinks > 0, "shrank"); s.label(runs > 1, "several runs"); s.label(was_fatal, "fatal"); s.label(off_after_on, "statistics off after on");
        g.destroy();
    });
}
PROPERTY(statistics, 2500, 60000, "one to four runs of a generated graph under generated configurations, counters compared with the calls really made; non-trivial: more than 10 calls") { run_case(s, false); }
PROPERTY(sleeping, 2500, 60000, "runs of a generated graph with idle phases and adaptive sleep, every sleep request judged by the calls before it; non-trivial: more than 3 sleeps") { run_case(s, true); }
