#include "queue_ops.hpp"
using namespace qops;

PROPERTY(mixed_history, 24000 / SHARE, 400000 / SHARE, "one history of mixed single/bulk/peek/contiguous operations on a generated element type, storage and capacity, against a deque; non-trivial: the ring wrapped, was hit full, or a bulk operation was partial") {
    with_type(s, Weights{3, 4, 2, 2, 1}, false, 120);
}
PROPERTY(tiny_history, 24000 / SHARE, 400000 / SHARE, "long histories on capacities 1..8, where full, empty and wrap coincide; non-trivial as above") {
    size_t cap = 1 + s.below(8);
    bool chan = s.flip();
    std::unique_ptr<Ops> q(chan ? via_channel<Pod<8>>(0, cap) : via_queue<uint32_t>(0, cap));
    run_history(s, *q, cap, true, Weights{4, 3, 2, 0, 1}, 400);
}
