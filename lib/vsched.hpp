// The harness's own world for flowgraphs: cooperative tasks, a virtual clock, and scheduling
// points at every atomic operation.  Include before any cler header, then define
// `atomic`, `high_resolution_clock`, ... through vsched_begin.hpp / vsched_end.hpp.
#pragma once
#include "pbt.hpp"
#include "fiber.hpp"
#include <array>
#include <atomic>
#include <algorithm>
#include <cassert>
#include <chrono>
#include <complex>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <system_error>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace vs {
struct Task { fiber::Fiber* f = nullptr; uint64_t wake = 0; std::function<bool()> blocked; bool done = false; int tag = -1; };
inline int track = 0;        // a per-task marker (who allocates)
struct World {
    pbt::Src& s; fiber::World fw;
    std::vector<std::unique_ptr<Task>> tasks;      // task 0 is the user's code
    Task* cur = nullptr;
    uint64_t now_ns = 1000000000;
    uint64_t points = 0, switches = 0, budget = 3000000;
    unsigned burst = 0; uint64_t alone = 0; Task* lonely = nullptr;
    unsigned style;
    size_t rr = 0;
    explicit World(pbt::Src& src) : s(src) { self() = this; style = (unsigned)s.below(4); }
    ~World() { self() = nullptr; }
    static World*& self() { static World* w = nullptr; return w; }
    Task* spawn(std::function<void()> fn) {
        auto t = std::make_unique<Task>(); Task* p = t.get();
        p->f = fw.spawn([p, fn = std::move(fn)] { fn(); p->done = true; });
        tasks.push_back(std::move(t));
        return p;
    }
    bool runnable(Task* t) { return !t->done && t->wake <= now_ns && (!t->blocked || t->blocked()); }
    // run until task 0 is done
    void run() {
        while (!tasks[0]->done) {
            std::vector<Task*> r;
            for (auto& t : tasks) if (runnable(t.get())) r.push_back(t.get());
            if (r.empty()) {
                uint64_t w = UINT64_MAX; for (auto& t : tasks) if (!t->done && t->wake > now_ns && (!t->blocked || t->blocked())) w = std::min(w, t->wake);
                if (w == UINT64_MAX) {
                    for (auto& t : tasks) if (!t->done && t->wake > now_ns) w = std::min(w, t->wake);
                    CHECK(w != UINT64_MAX, "deadlock: every task is blocked");
                }
                now_ns = w; continue;
            }
            // choice 0: next in turn, so an exhausted choice sequence is a round robin
            std::sort(r.begin(), r.end(), [](Task* a, Task* b) { return a->f->id < b->f->id; });
            size_t nx = 0; while (nx < r.size() && (size_t)r[nx]->f->id <= rr) ++nx; if (nx == r.size()) nx = 0;
            size_t pick = nx;
            if (r.size() > 1 && style != 3 && !(alone > 300)) pick = (nx + s.below(r.size())) % r.size();
            Task* t = r[pick]; rr = (size_t)t->f->id;
            if (t == lonely) ++alone; else { alone = 0; lonely = t; ++switches; }
            burst = style == 0 ? 1 : style == 1 ? 1 + (unsigned)s.below(6) : style == 2 ? 1 + (unsigned)s.below(60) : 8;
            cur = t;
            track = 0;
            fw.resume(t->f);
            track = 0;
            cur = nullptr;
            now_ns += 50 + (points & 63);
            CHECK(++points < budget, "no end in sight after %llu scheduling decisions", (unsigned long long)points);
        }
    }
    void point() { if (!cur) return; now_ns += 17; if (burst > 1) { --burst; return; } int o = track; fw.yield(); track = o; }
    void give_way() { if (!cur) return; burst = 0; int o = track; fw.yield(); track = o; }
    void sleep(uint64_t ns) { if (!cur) { now_ns += ns; return; } cur->wake = now_ns + ns; give_way(); }
    void block_until(std::function<bool()> f) { CHECK(cur, "blocking outside of a task"); if (f()) { point(); return; } cur->blocked = std::move(f); give_way(); cur->blocked = nullptr; }
};
inline void point() { if (World::self()) World::self()->point(); }
} // namespace vs

namespace std {
template <class T> class vs_atomic {
    T v_;
public:
    vs_atomic() noexcept : v_() {}
    constexpr vs_atomic(T v) noexcept : v_(v) {}
    vs_atomic(const vs_atomic&) = delete; vs_atomic& operator=(const vs_atomic&) = delete;
    T load(memory_order = memory_order_seq_cst) const { vs::point(); return v_; }
    void store(T v, memory_order = memory_order_seq_cst) { vs::point(); v_ = v; vs::point(); }
    operator T() const { return load(); }
    T operator=(T v) { store(v); return v; }
    T exchange(T v, memory_order = memory_order_seq_cst) { vs::point(); T o = v_; v_ = v; return o; }
    T fetch_add(T d, memory_order = memory_order_seq_cst) { vs::point(); T o = v_; v_ = v_ + d; return o; }
    T fetch_sub(T d, memory_order = memory_order_seq_cst) { vs::point(); T o = v_; v_ = v_ - d; return o; }
    T operator++() { return fetch_add(1) + 1; } T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; } T operator--(int) { return fetch_sub(1); }
    T operator+=(T d) { return fetch_add(d) + d; } T operator-=(T d) { return fetch_sub(d) - d; }
    bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { vs::point(); if (v_ != e) { e = v_; return false; } v_ = d; return true; }
    bool compare_exchange_weak(T& e, T d, memory_order m = memory_order_seq_cst, memory_order f = memory_order_seq_cst) { return compare_exchange_strong(e, d, m, f); }
    bool is_lock_free() const { return true; }
};
inline void vs_atomic_thread_fence(memory_order) { vs::point(); }
namespace chrono {
struct vs_clock {
    using duration = nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = chrono::time_point<vs_clock>;
    static constexpr bool is_steady = true;
    static time_point now() { vs::World* w = vs::World::self(); if (w) w->now_ns += 11; return time_point(duration(w ? w->now_ns : 1)); }
};
}
}

// the task policy under which the flowgraph runs
namespace vs {
struct Policy {
    struct task_type {
        Task* t = nullptr; bool joinable = false;
        task_type() = default;
        task_type(task_type&& o) noexcept : t(o.t), joinable(o.joinable) { o.t = nullptr; o.joinable = false; }
        task_type& operator=(task_type&& o) noexcept { CHECK(!joinable, "a task handle is overwritten while its task was not joined (std::terminate with std::thread)"); t = o.t; joinable = o.joinable; o.t = nullptr; o.joinable = false; return *this; }
        ~task_type() { CHECK(!joinable, "a task handle dies while its task was not joined (std::terminate with std::thread)"); }
    };
    struct Hooks {
        std::function<void(size_t)> sleep; std::function<void(size_t)> pin; std::function<void()> relax;
        size_t live = 0, created = 0, refuse = SIZE_MAX; uint64_t relax_ns = 300;      // refuse: creations granted before one fails
    };
    static Hooks*& hooks() { static Hooks* h = nullptr; return h; }
    template <class F> static task_type create_task(F&& f) {
        auto* w = World::self();
        if (hooks()->refuse != SIZE_MAX && hooks()->refuse-- == 0) { hooks()->refuse = SIZE_MAX; throw std::system_error(EAGAIN, std::generic_category()); }
        auto fn = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
        hooks()->live++; hooks()->created++;
        task_type t; t.t = w->spawn([fn] { (*fn)(); hooks()->live--; }); t.joinable = true;
        w->point();
        return t;
    }
    static void join_task(task_type& t) {
        if (!t.joinable) return;
        Task* p = t.t;
        World::self()->block_until([p] { return p->done; });
        t.joinable = false;
    }
    static void yield() { World::self()->give_way(); }
    static void sleep_us(size_t us) { if (hooks()->sleep) hooks()->sleep(us); World::self()->sleep(us * 1000ull); }
    static void relax() { if (hooks()->relax) hooks()->relax(); World::self()->sleep(hooks()->relax_ns); }
    static void pin_to_core(size_t id) { if (hooks()->pin) hooks()->pin(id); World::self()->point(); }
};
} // namespace vs

#include "cler_platform.hpp"
#if __has_include("virtual_memory/cler_vmem_posix.hpp")
#include "virtual_memory/cler_vmem_posix.hpp"
#endif
#define atomic vs_atomic
#define atomic_thread_fence vs_atomic_thread_fence
#define high_resolution_clock vs_clock
#define steady_clock vs_clock
#define system_clock vs_clock
#include "cler.hpp"
#include "cler_utils.hpp"
#undef atomic
#undef atomic_thread_fence
#undef high_resolution_clock
#undef steady_clock
#undef system_clock
