#include "queue_ops.hpp"
using namespace qops;

PROPERTY(windows, 20000 / SHARE, 300000 / SHARE, "one history dominated by peek/contiguous windows with partial commits, whole windows scribbled on before committing part; non-trivial: the ring wrapped, was full, or a bulk operation was partial") {
    with_type(s, Weights{1, 1, 5, 5, 1}, false, 90);
}
PROPERTY(contiguous, 11000 / SHARE, 200000 / SHARE, "as above, on storage big enough for contiguous windows, element sizes dividing the page or not, up to above the huge page size") {
    with_type(s, Weights{1, 1, 2, 8, 1}, true, 60);
}
// every wrap position: move both indices to p, then fill and read the window over the wrap
PROPERTY(every_wrap_position, 6000 / SHARE, 60000 / SHARE, "read and write position set to one chosen slot, then a window of chosen length written through one style and read through another; non-trivial: the window crosses the end of the storage") {
    auto go = [&](Ops* qp) {
        std::unique_ptr<Ops> hold(qp); Ops& q = *qp; const size_t sz = q.sz;
        size_t cap = q.space();
        size_t pos = s.chance(1, 2) ? s.below(cap + 1) : cap - s.below(std::min<size_t>(cap, 6) + 1);
        size_t len = s.chance(1, 3) ? cap : 1 + s.below(cap);
        unsigned how_w = s.below(3), how_r = s.below(3);
        bool dbf = q.dbf();
        if (!dbf) { if (how_w == 2) how_w = 1; if (how_r == 2) how_r = 1; }
        s.note("T=%zuB capacity=%zu %s position=%zu length=%zu write=%u read=%u", sz, cap, dbf ? "mirrored" : "heap", pos, len, how_w, how_r);
        size_t left = pos; while (left) { size_t k = std::min(left, cap); char *wa, *wb; const char *ra, *rb; size_t x, y; (void)q.peek_write(wa, x, wb, y); q.commit_write(k); (void)q.peek_read(ra, x, rb, y); q.commit_read(k); left -= k; }
        CHECK(q.size() == 0 && q.space() == cap, "indices moved by equal commits leave %zu items", q.size());
        Buf vb(q.align), rb(q.align); char* v = vb.need(len * sz); char* r = rb.need(len * sz);
        for (size_t i = 0; i < len; ++i) put(v + i * sz, sz, i);
        if (how_w == 0) CHECK(q.writeN(v, len) == len, "writeN short");
        else if (how_w == 1) {
            char *a, *b; size_t x, y; size_t t = q.peek_write(a, x, b, y);
            CHECK(t == cap && x + y == t, "peek_write offers %zu (%zu+%zu) of %zu", t, x, y, cap);
            for (size_t i = 0; i < len; ++i) memcpy(i < x ? a + i * sz : b + (i - x) * sz, v + i * sz, sz);
            q.commit_write(len);
        } else {
            auto [p, n] = q.write_dbf(); CHECK(n == cap, "write_dbf offers %zu of %zu", n, cap);
            memcpy(p, v, len * sz); q.commit_write(len);
        }
        CHECK(q.size() == len, "size %zu after writing %zu", q.size(), len);
        if (how_r == 0) CHECK(q.readN(r, len) == len, "readN short");
        else if (how_r == 1) {
            const char *a, *b; size_t x, y; size_t t = q.peek_read(a, x, b, y);
            CHECK(t == len && x + y == t, "peek_read offers %zu (%zu+%zu) of %zu", t, x, y, len);
            for (size_t i = 0; i < len; ++i) memcpy(r + i * sz, i < x ? a + i * sz : b + (i - x) * sz, sz);
            q.commit_read(len);
        } else {
            auto [p, n] = q.read_dbf(); CHECK(n == len, "read_dbf offers %zu of %zu", n, len);
            memcpy(r, p, len * sz); q.commit_read(len);
        }
        for (size_t i = 0; i < len; ++i) CHECK(is(r + i * sz, sz, i), "item %zu of %zu written at position %zu came back wrong", i, len, pos);
        CHECK(q.size() == 0 && q.space() == cap, "%zu items left", q.size());
        s.nontrivial(pos + len > cap + 1); s.label(dbf, "mirrored"); s.label(pos + len > cap + 1, "crosses the end");
    };
    bool big = s.chance(1, 3);
    size_t c = big ? 0 : 1 + s.below(12);
    size_t extra = s.below(3);
    switch (s.below(8)) {
        case 0: go(via_queue<uint32_t>(0, big ? 1024 + extra : c)); break;
        case 1: go(via_channel<uint8_t>(0, big ? 4096 + extra : c)); break;
        case 2: go(via_queue<Pod<3>>(0, big ? 1500 + extra : c)); break;
        case 3: go(via_channel<Pod<12>>(0, big ? 400 + extra : c)); break;
        case 4: go(via_queue<Pod<24>>(0, big ? 700 + extra : c)); break;
        case 5: go(via_channel<Pod<37>>(0, big ? 200 + extra : c)); break;
        case 6: go(via_channel<Pod<256>>(0, big ? 40 + extra : c)); break;
        default: go(via_queue<Pod<1500>>(0, big ? 5 + extra : c)); break;
    }
}
