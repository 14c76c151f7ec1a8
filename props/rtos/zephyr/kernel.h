#pragma once
#include "rtos/kernel.hpp"
struct k_thread { long magic; k_thread* self; long filler[16]; };
struct k_sem { long magic; k_sem* self; long filler[4]; };
typedef k_thread k_thread_t; typedef k_sem k_sem_t; typedef char k_thread_stack_t; typedef k_thread* k_tid_t;
struct k_timeout_t { int64_t ns; };
#define K_NO_WAIT (k_timeout_t{0})
#define K_FOREVER (k_timeout_t{-1})
#define K_MSEC(ms) (k_timeout_t{(int64_t)(ms) * 1000000})
#define K_USEC(us) (k_timeout_t{(int64_t)(us) * 1000})
inline void zk_chk(k_sem* p, const char* op) { CHECK(p && p->magic == 0x53454D && p->self == p, "%s on a semaphore that was not initialised at this address (copied or dead)", op); }
inline void zk_chk(k_thread* p, const char* op) { CHECK(p && p->magic == 0x544852 && p->self == p, "%s on a thread object that was not created at this address (copied or dead)", op); }
inline int64_t k_uptime_get() { return (int64_t)(vs::World::self()->now_ns / 1000000); }
inline void k_yield() { rk::Untrack u; rk::k().yields++; vs::World::self()->give_way(); rk::k().point(); }
inline int32_t k_usleep(int32_t us) { rk::Untrack u; rk::k().sleeps++; rk::k().slept_ns += (uint64_t)(us > 0 ? us : 0) * 1000; vs::World::self()->sleep((uint64_t)(us > 0 ? us : 0) * 1000); rk::k().point(); return 0; }
inline int32_t k_msleep(int32_t ms) { return k_usleep(ms * 1000); }
inline int32_t k_sleep(k_timeout_t t) { return k_usleep((int32_t)(t.ns / 1000)); }
inline int k_sem_init(k_sem* p, unsigned n, unsigned lim) { rk::Untrack u; auto& K = rk::k(); CHECK(p && lim > 0 && n <= lim, "k_sem_init: bad arguments"); K.make_sem(p, n, lim, true); p->magic = 0x53454D; p->self = p; return 0; }
inline void k_sem_give(k_sem* p) { rk::Untrack u; zk_chk(p, "k_sem_give"); rk::k().give(p, "k_sem_give"); }
inline int k_sem_take(k_sem* p, k_timeout_t t) { rk::Untrack u; zk_chk(p, "k_sem_take"); return rk::k().take(p, t.ns < 0, (uint64_t)t.ns, "k_sem_take") ? 0 : -11; }
inline void k_sem_reset(k_sem* p) { rk::Untrack u; zk_chk(p, "k_sem_reset"); rk::k().sem(p, "k_sem_reset")->count = 0; }
inline void k_sem_deinit(k_sem* p) { rk::Untrack u; zk_chk(p, "k_sem_deinit"); rk::k().delete_sem(p, "k_sem_deinit"); p->magic = 0; }
inline unsigned k_sem_count_get(k_sem* p) { zk_chk(p, "k_sem_count_get"); return (unsigned)rk::k().sem(p, "k_sem_count_get")->count; }
inline k_tid_t k_thread_create(k_thread* p, k_thread_stack_t* stack, size_t size, void (*f)(void*, void*, void*), void* a, void* b, void* c, int, uint32_t, k_timeout_t) {
    rk::Untrack u; auto& K = rk::k(); CHECK(p && f && stack && size >= 256, "k_thread_create: bad arguments");
    p->magic = 0x544852; p->self = p; K.make_thread(p, "z", stack, size, [f, a, b, c] { f(a, b, c); }, false); K.point(); return p;
}
inline int k_thread_join(k_thread* p, k_timeout_t t) {
    rk::Untrack u; zk_chk(p, "k_thread_join"); auto& K = rk::k(); auto* th = K.thread(p, "k_thread_join"); CHECK(K.me() != th, "a thread joins itself");
    if (th->done) return 0; if (t.ns == 0) return -16;
    vs::World::self()->block_until([th] { return th->done; }); K.point(); return 0;
}
inline void k_thread_abort(k_tid_t p) { rk::Untrack u; zk_chk(p, "k_thread_abort"); auto& K = rk::k(); auto* t = K.thread(p, "k_thread_abort"); CHECK(K.me() != t, "self abort"); t->terminated = t->done = true; t->t->done = true; K.point(); }
inline void k_thread_join_and_destroy(k_thread* p) { k_thread_join(p, K_FOREVER); }
#define k_thread_name_set(t, n) ((void)0)
