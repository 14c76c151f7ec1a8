// Cooperative fibers (ucontext) with sanitizer annotations: the harness owns the schedule.
#pragma once
#include <ucontext.h>
#include <functional>
#include <vector>
#include <memory>
#include <cstdlib>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, size_t* size);
#define FIBER_ASAN 1
#endif

namespace fiber {
struct Fiber {
    ucontext_t ctx; void* stack = nullptr; size_t size = 0; void* fake = nullptr;
    const void* bottom = nullptr; size_t bsize = 0;      // bounds (main fiber learns them on first switch)
    std::function<void()> fn; bool done = false; int id = 0;
    ~Fiber() { if (stack) munmap(stack, size); }
};
class World {
    Fiber main_; Fiber* cur_ = &main_; Fiber* from_ = nullptr;
    std::vector<std::unique_ptr<Fiber>> all_;
    static World*& self() { static World* w = nullptr; return w; }
    static void entry() {
        World* w = self();
        w->arrive();
        Fiber* f = w->cur_;
        f->fn();
        f->done = true;
        w->go(&w->main_, true);
        abort();
    }
    void arrive() {
#ifdef FIBER_ASAN
        const void* b; size_t n;
        __sanitizer_finish_switch_fiber(cur_->fake, &b, &n);
        if (from_ == &main_) { main_.bottom = b; main_.bsize = n; }
#endif
    }
    void go(Fiber* to, bool dying = false) {
        Fiber* me = cur_; from_ = me; cur_ = to;
#ifdef FIBER_ASAN
        __sanitizer_start_switch_fiber(dying ? nullptr : &me->fake, to->bottom, to->bsize);
#endif
        swapcontext(&me->ctx, &to->ctx);
        arrive();
    }
public:
    World() { self() = this; }
    ~World() { self() = nullptr; }
    static World* current() { return self(); }
    Fiber* spawn(std::function<void()> fn, size_t stack = 256 * 1024) {
        auto f = std::make_unique<Fiber>();
        f->size = stack; f->stack = mmap(nullptr, stack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f->stack == MAP_FAILED) abort();
        f->bottom = f->stack; f->bsize = stack; f->fn = std::move(fn); f->id = (int)all_.size();
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = stack; f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, (void (*)())&World::entry, 0);
        all_.push_back(std::move(f));
        return all_.back().get();
    }
    // from the main fiber: run f until it calls yield() or ends
    void resume(Fiber* f) { go(f); }
    // from a fiber: back to the main fiber
    void yield() { if (cur_ != &main_) go(&main_); }
    bool in_main() const { return cur_ == &main_; }
    Fiber* cur() { return cur_ == &main_ ? nullptr : cur_; }
    const std::vector<std::unique_ptr<Fiber>>& all() const { return all_; }
};
} // namespace fiber
