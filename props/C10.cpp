// RTOS: 1 FreeRTOS, 2 ThreadX, 3 Zephyr
#include "vsched.hpp"
#if RTOS == 1
#include "task_policies/cler_freertos_tpolicy.hpp"
using Pol = cler::FreeRTOSTaskPolicy;
static const char* RN = "FreeRTOS";
#elif RTOS == 2
#include "task_policies/cler_threadx_tpolicy.hpp"
using Pol = cler::ThreadXTaskPolicy;
static const char* RN = "ThreadX";
#else
#include "task_policies/cler_zephyr_tpolicy.hpp"
using Pol = cler::ZephyrTaskPolicy;
static const char* RN = "Zephyr";
#endif
#define FG_POLICY Pol
#include "fg_common.hpp"
#include <new>

static std::map<void*, size_t>* ledger() { static std::map<void*, size_t>* m = new std::map<void*, size_t>; return m; }
static void note_alloc(void* p, size_t n) { if (rk::track > 0) { int o = rk::track; rk::track = 0; (*ledger())[p] = n; rk::track = o; } }
static void note_free(void* p) { auto* l = ledger(); if (!l->empty()) { int o = rk::track; rk::track = 0; l->erase(p); rk::track = o; } }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); note_alloc(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); if (!p) throw std::bad_alloc(); note_alloc(p, n); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { if (p) { note_free(p); free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
struct Track { int o; Track() : o(rk::track) { rk::track = 1; } ~Track() { rk::track = o; } };

static void in_kernel(pbt::Src& s, const std::function<void(vs::World&, rk::Kernel&)>& f) {
    ledger()->clear(); rk::Kernel K; rk::Kernel::self() = &K;
    { vs::World w(s); vs::Policy::Hooks h; vs::Policy::hooks() = &h;
      w.spawn([&] { f(w, K); }); w.run(); vs::Policy::hooks() = nullptr; }
    rk::Kernel::self() = nullptr;
}
static void all_back(rk::Kernel& K) {
    for (auto& kv : K.threads) CHECK(kv.second->done || kv.second->deleted, "%s: a task is still alive", RN);
    if (RTOS != 3) CHECK(K.sems.empty(), "%s: %zu semaphores were never deleted", RN, K.sems.size());
    if (RTOS == 2) CHECK(K.threads.empty(), "%s: %zu threads were never deleted", RN, K.threads.size());
    size_t b = 0; for (auto& kv : *ledger()) b += kv.second;
    CHECK(ledger()->empty(), "%s: %zu allocations (%zu bytes) of the task layer were not released", RN, ledger()->size(), b);
}
struct Rec { unsigned runs = 0, finished = 0; uint64_t sum = 0; bool hold = false; unsigned entered_wrong = 0; };
PROPERTY(tasks, 5000, 120000, "a history of creating, moving, joining and joining again tasks with captured state, kernel calls failing by injection, on a kernel that keeps a ledger of its objects; non-trivial: at least two tasks, one joined while it was still running") {
    bool inject = RTOS != 3 && s.chance(1, 4); size_t joined_running = 0, made = 0, failed = 0;
    in_kernel(s, [&](vs::World& w, rk::Kernel& K) {
        bool failing = false; if (inject) { K.fail_sem = [&] { return failing = s.chance(1, 3); }; K.fail_thread = [&] { return failing = s.chance(1, 3); }; }
        size_t slots = 1 + s.below(4), rounds = 1 + s.below(3);
        for (size_t round = 0; round < rounds; ++round) {
            std::array<typename Pol::task_type, 4> tasks{}; std::vector<std::shared_ptr<Rec>> rec(slots); std::vector<std::shared_ptr<std::vector<uint64_t>>> state(slots); std::vector<bool> ok(slots); std::vector<uint64_t> want(slots);
            auto body = [&](size_t i) {
                auto r = rec[i] = std::make_shared<Rec>(); auto st = state[i] = std::make_shared<std::vector<uint64_t>>(); for (size_t q = 1 + s.below(5); q; --q) st->push_back(s.subseed());
                want[i] = 0; for (auto v : *st) want[i] = want[i] * 31 + v;
                unsigned naps = (unsigned)s.below(6); unsigned kind = (unsigned)s.below(3);
                std::array<uint64_t, 6> copy{}; for (size_t q = 0; q < st->size(); ++q) copy[q] = (*st)[q];
                return [r, st, naps, kind, copy, &w] {
                    r->runs++;
                    for (unsigned q = 0; q < naps; ++q) { vs::point(); if (kind == 0) Pol::yield(); else if (kind == 1) Pol::sleep_us(1 + q * 700); else Pol::relax(); }
                    for (size_t q = 0; q < st->size(); ++q) { r->sum = r->sum * 31 + copy[q]; if ((*st)[q] != copy[q]) r->entered_wrong++; }
                    Pol::pin_to_core(0); r->finished++;
                };
            };
            for (size_t i = 0; i < slots; ++i) {
                failing = false; auto b = body(i); size_t t0 = K.threads_made;
                { Track t; if (s.flip()) tasks[i] = Pol::create_task(b); else tasks[i] = Pol::create_task(std::move(b)); }
                ok[i] = K.threads_made > t0; made += ok[i]; failed += !ok[i];
                CHECK(ok[i] || failing, "%s: no task was created although no kernel call failed", RN);
                if (s.chance(1, 4)) w.sleep(s.below(3000000));
            }
            std::vector<size_t> order; for (size_t i = 0; i < slots; ++i) order.push_back(i);
            for (size_t i = slots; i > 1; --i) std::swap(order[i - 1], order[s.below(i)]);
            for (size_t i : order) {
                if (s.chance(1, 3)) w.sleep(s.below(8000000));
                bool done = rec[i]->finished; joined_running += ok[i] && !done;
                { Track t; Pol::join_task(tasks[i]); }
                CHECK(rec[i]->runs == (ok[i] ? 1u : 0u), "%s: the task function ran %u times", RN, rec[i]->runs);
                CHECK(!ok[i] || rec[i]->finished == 1, "%s: join returned before the task function had finished", RN);
                CHECK(!ok[i] || (rec[i]->sum == want[i] && !rec[i]->entered_wrong), "%s: the task saw another captured state", RN);
                CHECK(rec[i].use_count() == 1 && state[i].use_count() == 1, "%s: %ld copies of the captured state outlive the join", RN, state[i].use_count() - 1);
                for (unsigned q = (unsigned)s.below(3); q; --q) { Track t; Pol::join_task(tasks[i]); }
            }
            w.sleep(1000000);
            for (size_t i = 0; i < slots; ++i) { CHECK(rec[i]->runs == (ok[i] ? 1u : 0u), "%s: the task function ran %u times", RN, rec[i]->runs); Track t; Pol::join_task(tasks[i]); }
            all_back(K);
        }
        s.note("%s: %zu tasks in %zu rounds, %zu joined while running, %zu not created", RN, made, rounds, joined_running, failed);
        s.nontrivial(made >= 2 && joined_running); s.label(failed > 0, "kernel refused"); s.label(rounds > 1, "several rounds");
    });
}
PROPERTY(sleeps, 1500, 20000, "a task sleeps for generated lengths (zero, below a tick, around whole ticks, long) on a kernel of a generated tick rate while another waits for the processor; non-trivial: some sleep is shorter than a tick") {
    bool sub = false;
    in_kernel(s, [&](vs::World& w, rk::Kernel& K) {
        if (RTOS == 1) K.tick_hz = s.pick({1000u, 100u, 250u, 50u});
        uint64_t tick = RTOS == 3 ? 1000 : 1000000000ull / K.tick_hz; unsigned n = 1 + (unsigned)s.below(6);
        std::vector<size_t> us(n); for (auto& x : us) { x = s.weighted({2, 3, 2, 1}) ? s.flip() ? s.below(3000) : 1000 * s.below(60) + s.below(3) : s.below(200000); sub |= x * 1000 < tick; s.note("%zu ", x); }
        auto t = Pol::create_task([&] { for (size_t x : us) {
            uint64_t b = K.slept_ns; size_t calls = K.sleeps; Pol::sleep_us(x);
            CHECK(K.sleeps > calls, "%s: sleep_us(%zu) made %zu kernel calls", RN, x, K.sleeps - calls);
            uint64_t d = K.slept_ns - b;
            CHECK(RTOS == 3 || d >= tick, "%s: sleep_us(%zu) slept for %llu ns, less than a tick: it does not give the processor away", RN, x, (unsigned long long)d);
            CHECK(d + (RTOS == 1 ? 1000000 + tick : 1) > (uint64_t)x * 1000 || d == (uint64_t)x * 1000, "%s: sleep_us(%zu) slept for only %llu ns", RN, x, (unsigned long long)d);
            CHECK(d <= (uint64_t)x * 1000 + (RTOS == 3 ? 0 : 1000000 + tick), "%s: sleep_us(%zu) slept for %llu ns", RN, x, (unsigned long long)d);
        } });
        Pol::join_task(t); w.sleep(1000000);
    });
    s.nontrivial(sub);
}
PROPERTY(never_created, 50, 500, "joining a task handle that never held a task; non-trivial: always") {
    in_kernel(s, [&](vs::World&, rk::Kernel& K) { typename Pol::task_type t{}; std::array<typename Pol::task_type, 3> a{}; size_t n = 1 + s.below(3); for (size_t i = 0; i < n; ++i) { Pol::join_task(t); Pol::join_task(a[i]); } all_back(K); s.nontrivial(); s.note("%zu joins", 2 * n); s.below(1u << 30); });
}
using namespace fg;
static void bump(void* p) { ++*(int*)p; }
PROPERTY(flowgraphs, 1500, 40000, "a generated flowgraph on the RTOS task layer: streams against the sequential run, stop, fatal results and running again; non-trivial: items crossed a channel") {
    Setup u; build(s, u, 60); Graph& g = *u.g; auto ref = g.reference(); int cb = 0;
    in_kernel(s, [&](vs::World& w, rk::Kernel& K) {
        g.callback(bump, &cb);
        size_t legs = 1 + s.below(3); size_t fatal_leg = s.chance(1, 3) ? s.below(legs) : 99;
        for (size_t leg = 0; leg < legs; ++leg) {
            auto c = config(s, g.nodes.size()); bool last = leg + 1 == legs; uint64_t f0 = 0; for (auto& n : g.nodes) f0 += n->fatals; cb = 0;
            auto fatals = [&] { uint64_t f = 0; for (auto& n : g.nodes) f += n->fatals; return f - f0; };
            if (leg == fatal_leg) { Node& n = *g.nodes[s.below(g.nodes.size())]; n.fatal_at = (long)(n.calls + s.below(30)); }
            u.w.may_call = true; size_t t0 = K.threads_made;
            { Track t; g.run(c, false); }
            uint64_t p0 = w.points, t1 = w.now_ns, partway = s.below(2000), seen = 0, seen_at = w.points, seen_ns = w.now_ns;
            auto done = [&] { if (leg == fatal_leg) return fatals() > 0; if (!last) return w.points - p0 > partway; for (size_t n = 0; n < g.nodes.size(); ++n) if (g.nodes[n]->nin && !g.nodes[n]->nout && g.nodes[n]->sunk.size() < ref[n].size()) return false; return true; };
            while (!done()) {
                w.sleep(20000); uint64_t d = 0; for (auto& n : g.nodes) d += n->done;
                if (d != seen) { seen = d; seen_at = w.points; seen_ns = w.now_ns; }
                if (w.points - seen_at > 3000) w.now_ns += 3000000;
                CHECK(w.points - seen_at < 30000 || w.now_ns - seen_ns < 20000000000ull, "%s: the flowgraph makes no progress", RN);
            }
            (void)t1;
            CHECK(leg == fatal_leg || !g.stopped(), "%s: stopped by itself", RN);
            { Track t; g.stop(); if (s.chance(1, 3)) g.stop(); }
            u.w.may_call = false; CHECK(g.stopped(), "not stopped"); CHECK(fatals() ? cb >= 1 : cb == 0, "termination callback called %d times after %llu fatal results", cb, (unsigned long long)fatals());
            CHECK(K.threads_made > t0, "no tasks");
            for (auto& n : g.nodes) { CHECK(!n->busy, "%s: block %zu is still running after stop", RN, n->id); n->fatal_at = -1; }
            if (RTOS == 1) w.sleep(1000000);       // join does not wait for the task's own deletion
            all_back(K);
            if (s.flip()) w.sleep(30000000);
        }
        uint64_t items = 0;
        for (size_t n = 0; n < g.nodes.size(); ++n) { Node& nd = *g.nodes[n]; if (nd.nout || !nd.nin) continue; items += nd.sunk.size(); CHECK(nd.sunk.size() <= ref[n].size(), "too many items"); for (size_t i = 0; i < nd.sunk.size(); ++i) CHECK(nd.sunk[i] == ref[n][i], "%s: item %zu differs from the sequential run", RN, i); }
        g.destroy(); all_back(K);
        s.nontrivial(items > 0); s.label(fatal_leg != 99, "fatal result"); s.label(legs > 1, "run again");
    });
}
