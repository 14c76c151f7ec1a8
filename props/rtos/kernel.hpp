// A strict little kernel under the embedded task layers: every object is in a ledger,
// tasks are fibers of the harness's scheduler.
#pragma once
#include "vsched.hpp"
namespace rk {
using vs::track;                        // > 0: allocations are attributed to the task layer
struct Untrack { int o; Untrack() : o(track) { track = 0; } ~Untrack() { track = o; } };
struct Exit {};
struct Thread {
    vs::Task* t = nullptr; bool started = false, done = false, terminated = false, deleted = false; const void* key = nullptr;
    unsigned char* stack = nullptr; size_t stack_size = 0; std::string name;
    void touch() { if (stack && !done && !terminated) { volatile unsigned char* p = stack; p[0] = (unsigned char)(p[0] + 1); p[stack_size / 2] ^= 1; p[stack_size - 1] ^= 1; } }
};
struct Sem { long count = 0, limit = 1; const void* key = nullptr; size_t waiters = 0; };
struct Kernel {
    std::map<const void*, std::unique_ptr<Sem>> sems; std::map<const void*, std::unique_ptr<Thread>> threads; std::vector<std::unique_ptr<Thread>> dead;
    std::map<vs::Task*, Thread*> by_task;
    std::function<bool()> fail_sem, fail_thread;
    size_t threads_made = 0, sems_made = 0, sleeps = 0, yields = 0; uint64_t slept_ns = 0; uint32_t tick_hz = 1000;
    static Kernel*& self() { static Kernel* k = nullptr; return k; }
    Sem* sem(const void* key, const char* op) { auto it = sems.find(key); CHECK(it != sems.end(), "%s on something that is no live semaphore", op); return it->second.get(); }
    Thread* thread(const void* key, const char* op) { auto it = threads.find(key); CHECK(it != threads.end(), "%s on something that is no live thread", op); return it->second.get(); }
    Thread* me() { auto* w = vs::World::self(); if (!w || !w->cur) return nullptr; auto it = by_task.find(w->cur); return it == by_task.end() ? nullptr : it->second; }
    // every kernel entry is a scheduling point; a task that was terminated never comes back
    void point() { vs::point(); if (auto* m = me()) m->touch(); }
    Sem* make_sem(const void* key, long n, long limit, bool reuse_ok) {
        auto it = sems.find(key); CHECK(it == sems.end() || (reuse_ok && it->second->waiters == 0), "a live semaphore is created again");
        auto s = std::make_unique<Sem>(); s->count = n; s->limit = limit; s->key = key; sems_made++; auto* p = s.get(); sems[key] = std::move(s); return p;
    }
    bool take(const void* key, bool forever, uint64_t ns, const char* op) {
        Sem* s = sem(key, op); point();
        s = sem(key, op);
        auto* w = vs::World::self();
        if (s->count == 0) {
            if (!forever && ns == 0) return false;
            s->waiters++; uint64_t until = w->now_ns + ns;
            if (forever) w->block_until([this, key] { auto it = sems.find(key); CHECK(it != sems.end(), "a semaphore is deleted while a task waits for it"); return it->second->count > 0; });
            else while (s->count == 0 && w->now_ns < until) w->sleep(1000);
            s = sem(key, op); s->waiters--;
            if (s->count == 0) return false;
        }
        s->count--; if (auto* m = me()) m->touch(); return true;
    }
    bool give(const void* key, const char* op) {
        Sem* s = sem(key, op); point(); s = sem(key, op);
        bool ok = s->count < s->limit; if (ok) s->count++;
        point();            // the waiter may run before this call returns
        return ok;
    }
    void delete_sem(const void* key, const char* op) { Sem* s = sem(key, op); CHECK(s->waiters == 0, "%s: a task waits for the semaphore", op); sems.erase(key); point(); }
    Thread* make_thread(const void* key, const char* name, void* stack, size_t size, std::function<void()> body, bool must_not_return) {
        auto t = std::make_unique<Thread>(); Thread* p = t.get(); p->key = key; p->stack = (unsigned char*)stack; p->stack_size = size; p->name = name ? name : ""; p->started = true;
        CHECK(!threads.count(key) || threads[key]->done, "a thread control block is used again while its thread lives");
        if (threads.count(key)) { dead.push_back(std::move(threads[key])); }
        threads[key] = std::move(t); threads_made++;
        if (stack) memset(stack, 0x5A, size);
        auto* w = vs::World::self();
        p->t = w->spawn([this, p, body = std::move(body), must_not_return] {
            p->touch();
            try { body(); CHECK(!must_not_return, "a task function returned instead of deleting itself"); } catch (Exit&) {}
            vs::point(); if (p->terminated) return;    // still on its stack until here
            p->touch(); p->done = true;
        });
        by_task[p->t] = p;
        return p;
    }
    static void never() { vs::World::self()->cur->done = true; vs::World::self()->give_way(); abort(); }
};
inline Kernel& k() { auto* p = Kernel::self(); CHECK(p, "kernel call outside of the world"); return *p; }
}
