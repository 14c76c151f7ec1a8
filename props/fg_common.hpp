// Generated flowgraphs on the harness's scheduler: nodes, shapes, sequential reference.
#pragma once
#include "vsched.hpp"

#ifndef FG_POLICY
#define FG_POLICY vs::Policy
#endif
namespace fg {
using cler::Error; using cler::Empty; using cler::Result;
using Ch = cler::Channel<uint32_t>; using Cb = cler::ChannelBase<uint32_t>;

inline uint32_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; return (uint32_t)x; }
// what a block computes: a running function of its inputs, so order, loss and repetition all show
inline uint32_t step(uint64_t& st, const uint32_t* in, size_t n, uint64_t index, uint64_t salt) {
    uint64_t h = st * 6364136223846793005ull + index + salt;
    for (size_t i = 0; i < n; ++i) h = (h ^ in[i]) * 0x100000001B3ull + i;
    st = h; return mix(h);
}
inline uint32_t port(uint32_t v, size_t j) { return v * 2654435761u + (uint32_t)j * 0x1F123BB5u; }

struct Node;
struct Watch {     // what the user can see from outside
    bool may_call = false;         // calls allowed (between run and the return of stop)
    std::function<void(Node&)> on_enter;
    std::function<void(Node&, const Result<Empty, Error>&)> on_leave;
    Node* by_task[64] = {};
    std::map<vs::Task*, Node*> last;   // the block a task called last
};

struct Node : cler::BlockBase {
    Watch* w = nullptr; size_t id = 0, nout = 0, nin = 0; uint64_t salt = 0;
    std::vector<std::unique_ptr<Ch>> in;
    uint64_t limit = 0;                       // source: how much to emit
    pbt::Bulk r{0};
    unsigned soft_pct = 0, lazy_pct = 0; long fatal_at = -1; Error fatal_code = Error::TERM_EOFReached;
    unsigned max_burst = 8; uint64_t slow_ns = 0, idle_len = 0, idle_left = 0; Error always_err = Error::OK;
    // state
    uint64_t st = 0, done = 0; bool busy = false;
    std::vector<uint32_t> sunk;               // sinks keep what they get
    // ledger
    uint64_t calls = 0, ok = 0, err = 0, fatals = 0; uint64_t run_ok = 0, run_err = 0;
    bool last_ok = false; Error last_err = Error::OK;
    uint64_t t_enter = 0, t_inside = 0;

    explicit Node(const char* nm) : BlockBase(nm) {}
    template <class... O> Result<Empty, Error> procedure(O*... outs) {
        static_assert(std::conjunction_v<std::is_same<O, Cb>...>);
        Cb* o[sizeof...(O) + 1] = {outs..., nullptr};
        CHECK(!busy, "block %zu is entered by a second task while it is running", id);
        CHECK(w->may_call, "block %zu is called %s", id, calls ? "after the flowgraph was stopped" : "before the flowgraph was run");
        busy = true; ++calls; w->last[vs::World::self()->cur] = this;
        t_enter = vs::World::self()->now_ns;
        if (w->on_enter) w->on_enter(*this);
        vs::point();
        auto res = body(o, sizeof...(O));
        vs::point();
        CHECK(busy, "lost"); busy = false;
        if (res.is_ok()) { ok++; run_ok++; last_ok = true; } else { err++; run_err++; last_ok = false; last_err = res.unwrap_err(); }
        if (w->on_leave) w->on_leave(*this, res);
        return res;
    }
    Result<Empty, Error> body(Cb** o, size_t n) {
        CHECK(n == nout, "block %zu was given %zu outputs, it is wired to %zu", id, n, nout);
        if (slow_ns) vs::World::self()->sleep(slow_ns);
        if (always_err != Error::OK) return always_err;
        if (idle_len) { if (idle_left == 0 && r.below(8) == 0) idle_left = 1 + r.below(idle_len); if (idle_left && --idle_left) return r.below(2) ? Error::NotEnoughSamples : Error::NotEnoughSpaceOrSamples; }
        if (fatal_at >= 0 && calls > (uint64_t)fatal_at) { fatals++; return fatal_code; }
        if (soft_pct && r.below(100) < soft_pct) return std::array<Error, 3>{Error::Unknown, Error::ProcedureError, Error::BadData}[r.below(3)];
        if (lazy_pct && r.below(100) < lazy_pct) { vs::World::self()->sleep(r.below(3000)); return Empty{}; }
        size_t avail = nin ? SIZE_MAX : (size_t)(limit - done), space = SIZE_MAX;
        for (auto& c : in) avail = std::min(avail, c->size());
        for (size_t j = 0; j < n; ++j) space = std::min(space, o[j]->space());
        if (nin == 0 && n == 0) { done++; return r.below(3) ? Result<Empty, Error>(Empty{}) : Result<Empty, Error>(Error::NotEnoughSamples); }
        if (avail == 0 && space == 0) return Error::NotEnoughSpaceOrSamples;
        if (avail == 0) return r.below(2) ? Error::NotEnoughSamples : Error::NotEnoughSpaceOrSamples;
        if (space == 0) return r.below(2) ? Error::NotEnoughSpace : Error::NotEnoughSpaceOrSamples;
        size_t k = std::min({avail, space, (size_t)1 + r.below(max_burst)});
        std::vector<std::vector<uint32_t>> x(nin);
        for (size_t i = 0; i < nin; ++i) take(*in[i], x[i], k);
        std::vector<uint32_t> y(k);
        for (size_t e = 0; e < k; ++e) {
            uint32_t v[4]; for (size_t i = 0; i < nin; ++i) v[i] = x[i][e];
            y[e] = step(st, v, nin, done++, salt);
            if (n == 0) sunk.push_back(y[e]);
        }
        for (size_t j = 0; j < n; ++j) give(*o[j], y, j);
        return Empty{};
    }
    void take(Ch& c, std::vector<uint32_t>& v, size_t k) {
        switch (r.below(4)) {
        case 0: for (size_t i = 0; i < k; ++i) { uint32_t x = 0; c.pop(x); v.push_back(x); } break;
        case 1: { v.resize(k); size_t got = c.readN(v.data(), k); CHECK(got == k, "readN delivered %zu of %zu items seen", got, k); break; }
        case 2: { const uint32_t *a, *b; size_t p, q; size_t t = c.peek_read(a, p, b, q); CHECK(t >= k, "window shrank"); for (size_t i = 0; i < k; ++i) { v.push_back(i < p ? a[i] : b[i - p]); vs::point(); } c.commit_read(k); break; }
        default: if (c._queue.is_doubly_mapped()) { auto [a, t] = c.read_dbf(); CHECK(t >= k, "window shrank"); for (size_t i = 0; i < k; ++i) v.push_back(a[i]); c.commit_read(k); }
                 else for (size_t i = 0; i < k; ++i) { uint32_t x = 0; CHECK(c.try_pop(x), "try_pop failed with items there"); v.push_back(x); } }
    }
    void give(Cb& c, const std::vector<uint32_t>& y, size_t j) {
        switch (r.below(3)) {
        case 0: for (auto v : y) c.push(port(v, j)); break;
        case 1: { std::vector<uint32_t> t; for (auto v : y) t.push_back(port(v, j)); size_t got = c.writeN(t.data(), t.size()); CHECK(got == t.size(), "writeN took %zu of %zu items there was space for", got, t.size()); break; }
        default: { uint32_t *a, *b; size_t p, q; size_t t = c.peek_write(a, p, b, q); CHECK(t >= y.size(), "window shrank"); for (size_t i = 0; i < y.size(); ++i) { (i < p ? a[i] : b[i - p]) = port(y[i], j); if (i % 3 == 0) vs::point(); } c.commit_write(y.size()); } }
    }
};

struct Edge { size_t from, out, to, in; };
struct Graph {
    std::vector<std::unique_ptr<Node>> nodes; std::vector<Edge> edges; std::vector<size_t> topo;
    virtual ~Graph() = default;
    virtual void make() = 0; virtual void destroy() = 0; virtual bool exists() = 0;
    virtual void run(const cler::FlowGraphConfig& c, bool dflt) = 0; virtual void run_for(uint64_t us, int unit, const cler::FlowGraphConfig& c) = 0;
    virtual void stop() = 0; virtual bool stopped() = 0;
    virtual const cler::BlockExecutionStats& stats(size_t i) = 0; virtual size_t nstats() = 0;
    virtual const cler::FlowGraphConfig& config() = 0;
    virtual void callback(void (*cb)(void*), void* ctx) = 0;
    Ch* inch(size_t n, size_t i) { return nodes[n]->in[i].get(); }
    // expected streams: what every node does, run one after the other
    std::vector<std::vector<uint32_t>> reference() {
        std::vector<std::vector<std::vector<uint32_t>>> ins(nodes.size()); std::vector<std::vector<uint32_t>> res(nodes.size());
        for (size_t n = 0; n < nodes.size(); ++n) ins[n].resize(nodes[n]->nin);
        for (size_t n : topo) {
            Node& nd = *nodes[n]; size_t len = nd.nin ? SIZE_MAX : (size_t)nd.limit; if (nd.nin == 0 && nd.nout == 0) continue;
            for (auto& v : ins[n]) len = std::min(len, v.size());
            uint64_t st = 0;
            for (size_t e = 0; e < len; ++e) { uint32_t v[4]; for (size_t i = 0; i < nd.nin; ++i) v[i] = ins[n][i][e]; res[n].push_back(step(st, v, nd.nin, e, nd.salt)); }
            for (auto& ed : edges) if (ed.from == n) for (auto y : res[n]) ins[ed.to][ed.in].push_back(port(y, ed.out));
        }
        return res;
    }
};
template <class... R> struct FgOf { using type = cler::FlowGraph<FG_POLICY, R...>; };
template <class Maker> struct GraphT : Graph {
    Maker mk; using FG = typename std::remove_pointer_t<decltype(std::declval<Maker>()(std::declval<Graph&>()))>;
    std::unique_ptr<FG> fg;
    explicit GraphT(Maker m) : mk(m) {}
    FG* raw = nullptr;     // also valid while the flowgraph is being destroyed
    void make() override { fg.reset(mk(*this)); raw = fg.get(); }
    void destroy() override { fg.reset(); }
    bool exists() override { return (bool)fg; }
    void run(const cler::FlowGraphConfig& c, bool d) override { if (d) fg->run(); else fg->run(c); }
    void run_for(uint64_t us, int unit, const cler::FlowGraphConfig& c) override {
        if (unit == 0) fg->run_for(std::chrono::microseconds(us), c); else if (unit == 1) fg->run_for(std::chrono::milliseconds(us / 1000), c); else fg->run_for(std::chrono::duration<double>(us * 1e-6), c); }
    void stop() override { fg->stop(); }
    bool stopped() override { return raw->is_stopped(); }
    const cler::BlockExecutionStats& stats(size_t i) override { return fg->stats()[i]; }
    size_t nstats() override { return fg->stats().size(); }
    const cler::FlowGraphConfig& config() override { return fg->config(); }
    void callback(void (*cb)(void*), void* ctx) override { fg->set_on_err_terminate_cb(cb, ctx); }
};
template <class M> std::unique_ptr<Graph> wrap(M m) { return std::make_unique<GraphT<M>>(m); }
#define ND(i) g.nodes[i].get()
#define IN(n, i) g.inch(n, i)
template <class... R> auto* newfg(R... r) { return new cler::FlowGraph<FG_POLICY, R...>(r...); }
using cler::BlockRunner;

#ifdef FG_WIDE
template <size_t... I> auto* wide(Graph& g, std::index_sequence<I...>) { return std::apply([](auto... r) { return newfg(r...); }, std::tuple_cat(std::make_tuple(BlockRunner(ND(2 * I), IN(2 * I + 1, 0)), BlockRunner(ND(2 * I + 1)))...)); }
constexpr unsigned WIDE = 1;
#else
constexpr unsigned WIDE = 0;
#endif
constexpr size_t NSHAPES = 7;
inline std::unique_ptr<Graph> shape(size_t k, std::vector<Edge>& e, size_t& n) {
    e.clear();
    switch (k) {
    case 0: n = 2; e = {{0, 0, 1, 0}};
        return wrap([](Graph& g) { return newfg(BlockRunner(ND(0), IN(1, 0)), BlockRunner(ND(1))); });
    case 1: n = 3; e = {{0, 0, 1, 0}, {1, 0, 2, 0}};
        return wrap([](Graph& g) { return newfg(BlockRunner(ND(0), IN(1, 0)), BlockRunner(ND(1), IN(2, 0)), BlockRunner(ND(2))); });
    case 2: n = 5; e = {{0, 0, 2, 0}, {0, 1, 1, 0}, {1, 0, 3, 1}, {2, 0, 3, 0}, {3, 0, 4, 0}};   // fan-out and join, wired crosswise
        return wrap([](Graph& g) { return newfg(BlockRunner(ND(0), IN(2, 0), IN(1, 0)), BlockRunner(ND(1), IN(3, 1)), BlockRunner(ND(2), IN(3, 0)), BlockRunner(ND(3), IN(4, 0)), BlockRunner(ND(4))); });
    case 3: n = 7; for (size_t i = 0; i < 6; ++i) e.push_back({i, 0, i + 1, 0});
        return wrap([](Graph& g) { return newfg(BlockRunner(ND(0), IN(1, 0)), BlockRunner(ND(1), IN(2, 0)), BlockRunner(ND(2), IN(3, 0)), BlockRunner(ND(3), IN(4, 0)), BlockRunner(ND(4), IN(5, 0)), BlockRunner(ND(5), IN(6, 0)), BlockRunner(ND(6))); });
    case 4: n = 6; e = {{0, 0, 1, 0}, {1, 0, 4, 0}, {2, 0, 5, 0}};   // two chains and a block without channels, declared in odd order
        return wrap([](Graph& g) { return newfg(BlockRunner(ND(5)), BlockRunner(ND(0), IN(1, 0)), BlockRunner(ND(4)), BlockRunner(ND(3)), BlockRunner(ND(2), IN(5, 0)), BlockRunner(ND(1), IN(4, 0))); });
    case 5: n = 4; e = {{0, 0, 3, 0}, {0, 1, 1, 0}, {0, 2, 2, 0}};
        return wrap([](Graph& g) { return newfg(BlockRunner(ND(0), IN(3, 0), IN(1, 0), IN(2, 0)), BlockRunner(ND(1)), BlockRunner(ND(2)), BlockRunner(ND(3))); });
#ifdef FG_WIDE
    case 7: n = 2 * FG_WIDE; for (size_t i = 0; i < FG_WIDE; ++i) e.push_back({2 * i, 0, 2 * i + 1, 0});       // many pairs
        return wrap([](Graph& g) { return wide(g, std::make_index_sequence<FG_WIDE>()); });
#endif
    default: n = 1;
        return wrap([](Graph& g) { return newfg(BlockRunner(ND(0))); });
    }
}
// position of node i among the runners (shape 4 is declared in another order)
inline size_t runner_index(size_t k, size_t node) { static const size_t p[] = {1, 5, 4, 3, 2, 0}; return k == 4 ? p[node] : node; }
inline size_t node_index(size_t k, size_t runner) { static const size_t p[] = {5, 0, 4, 3, 2, 1}; return k == 4 ? p[runner] : runner; }

struct Setup { size_t k; std::unique_ptr<Graph> g; Watch w; };
inline void build(pbt::Src& s, Setup& u, size_t maxitems) {
    size_t n; u.k = s.weighted({2, 4, 4, 3, 3, 3, 1, WIDE}); if (u.k == 7) maxitems = maxitems / 4 + 1;
    std::vector<Edge> e; u.g = shape(u.k, e, n); u.g->edges = e;
    Graph& g = *u.g;
    for (size_t i = 0; i < n; ++i) {
        char nm[100];
        if (s.chance(1, 8)) { memset(nm, 'a' + (char)i, 99); nm[60 + s.below(30)] = 0; } else snprintf(nm, sizeof nm, "block %zu", i);
        g.nodes.push_back(std::make_unique<Node>(nm)); Node& nd = *g.nodes.back(); nd.id = i; nd.w = &u.w; nd.salt = 1 + i * 977; nd.r = pbt::Bulk(s.subseed());
        nd.max_burst = 1 + (unsigned)s.below(20);
        nd.soft_pct = s.chance(1, 3) ? (unsigned)s.below(40) : 0; nd.lazy_pct = s.chance(1, 5) ? (unsigned)s.below(30) : 0;
    }
    for (auto& ed : e) { g.nodes[ed.from]->nout++; g.nodes[ed.to]->nin++; }
    for (auto& nd : g.nodes) for (size_t i = 0; i < nd->nin; ++i) nd->in.push_back(std::make_unique<Ch>(s.chance(1, 10) ? 1023 : 1 + s.below(12)));
    for (auto& nd : g.nodes) if (nd->nin == 0) nd->limit = 1 + s.below(maxitems);
    // topological order
    std::vector<size_t> deg(n); for (auto& ed : e) deg[ed.to]++;
    while (g.topo.size() < n) for (size_t i = 0; i < n; ++i) if (deg[i] == 0) { deg[i] = SIZE_MAX; g.topo.push_back(i); for (auto& ed : e) if (ed.from == i) deg[ed.to]--; }
    g.make();
    s.note("shape %zu (%zu blocks) ", u.k, n);
}
inline cler::FlowGraphConfig config(pbt::Src& s, size_t n) {
    cler::FlowGraphConfig c;
    unsigned how = (unsigned)s.below(12);
    if (how == 0) c = cler::flowgraph_config::embedded_optimized();
    else if (how == 1) c = cler::flowgraph_config::desktop_performance();
    else if (how == 2) c = cler::flowgraph_config::thread_per_block_adaptive_sleep();
    else {
        c.scheduler = s.flip() ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock;
        c.num_workers = 2 + s.below(n + 2);
        c.adaptive_sleep = s.chance(1, 3);
        c.adaptive_sleep_multiplier = s.pick({1.5, 2.0, 1.1, 4.0});
        c.adaptive_sleep_max_us = s.pick({5000.0, 20.0, 3.0, 200.0});
        c.adaptive_sleep_fail_threshold = s.pick<size_t>({10, 0, 1, 3, 30});
        c.max_calls_per_tick = s.pick<size_t>({4, 1, 2, 16, 100});
    }
    c.collect_detailed_stats = s.flip();
    c.pin_workers = s.chance(1, 4);
    s.note("{%s workers=%zu%s tick=%zu%s%s} ", c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "tpb", c.num_workers, c.adaptive_sleep ? " adaptive" : "", c.max_calls_per_tick, c.collect_detailed_stats ? " stats" : "", c.pin_workers ? " pin" : "");
    return c;
}
// runs `user` as the user's task
inline void in_world(pbt::Src& s, const std::function<void(vs::World&, vs::Policy::Hooks&)>& user) {
    vs::World w(s); vs::Policy::Hooks h; vs::Policy::hooks() = &h;
    w.spawn([&] { user(w, h); });
    w.run();
    vs::Policy::hooks() = nullptr;
}
} // namespace fg
