#pragma once
#include "rtos/kernel.hpp"
typedef unsigned long ULONG; typedef unsigned char UCHAR; typedef unsigned int UINT; typedef char CHAR; typedef void VOID;
#define TX_SUCCESS 0u
#define TX_NO_INSTANCE 0x0Du
#define TX_DELETE_ERROR 0x11u
#define TX_NO_MEMORY 0x10u
#define TX_AUTO_START 1u
#define TX_DONT_START 0u
#define TX_NO_TIME_SLICE 0ul
#define TX_WAIT_FOREVER 0xFFFFFFFFul
#define TX_NO_WAIT 0ul
#define TX_TIMER_TICKS_PER_SECOND 1000ul
#define TX_TRUE 1u
#define TX_FALSE 0u
struct TX_THREAD { ULONG tx_thread_id; TX_THREAD* self; ULONG filler[20]; };
struct TX_SEMAPHORE { ULONG tx_semaphore_id; TX_SEMAPHORE* self; ULONG filler[6]; };
inline void tx_chk(TX_SEMAPHORE* p, const char* op) { CHECK(p, "%s: null", op); CHECK(p->tx_semaphore_id == 0x53454D41 && p->self == p, "%s on a control block that was not created at this address (copied or dead)", op); }
inline void tx_chk(TX_THREAD* p, const char* op) { CHECK(p, "%s: null", op); CHECK(p->tx_thread_id == 0x54485244 && p->self == p, "%s on a control block that was not created at this address (copied or dead)", op); }
inline ULONG tx_time_get() { return (ULONG)(vs::World::self()->now_ns / 1000000); }
inline void tx_thread_relinquish() { rk::Untrack u; rk::k().yields++; vs::World::self()->give_way(); rk::k().point(); }
inline UINT tx_thread_sleep(ULONG t) { rk::Untrack u; rk::k().sleeps++; rk::k().slept_ns += (uint64_t)t * 1000000; vs::World::self()->sleep((uint64_t)t * 1000000); rk::k().point(); return TX_SUCCESS; }
inline UINT tx_semaphore_create(TX_SEMAPHORE* p, CHAR*, ULONG n) { rk::Untrack u; auto& K = rk::k(); if (K.fail_sem && K.fail_sem()) return TX_NO_MEMORY; K.make_sem(p, (long)n, LONG_MAX, false); p->tx_semaphore_id = 0x53454D41; p->self = p; K.point(); return TX_SUCCESS; }
inline UINT tx_semaphore_get(TX_SEMAPHORE* p, ULONG w) { rk::Untrack u; tx_chk(p, "tx_semaphore_get"); return rk::k().take(p, w == TX_WAIT_FOREVER, (uint64_t)w * 1000000, "tx_semaphore_get") ? TX_SUCCESS : TX_NO_INSTANCE; }
inline UINT tx_semaphore_put(TX_SEMAPHORE* p) { rk::Untrack u; tx_chk(p, "tx_semaphore_put"); rk::k().give(p, "tx_semaphore_put"); return TX_SUCCESS; }
inline UINT tx_semaphore_delete(TX_SEMAPHORE* p) { rk::Untrack u; tx_chk(p, "tx_semaphore_delete"); rk::k().delete_sem(p, "tx_semaphore_delete"); p->tx_semaphore_id = 0; return TX_SUCCESS; }
inline UINT tx_thread_resume(TX_THREAD*) { FAIL_CASE("tx_thread_resume"); return 0; }
inline UINT tx_thread_create(TX_THREAD* p, CHAR* name, VOID (*f)(ULONG), ULONG arg, VOID* stack, ULONG size, UINT prio, UINT thr, ULONG, UINT start) {
    rk::Untrack u; auto& K = rk::k(); CHECK(p && f && stack && size >= 200 && thr <= prio && start == TX_AUTO_START, "tx_thread_create: bad arguments");
    if (K.fail_thread && K.fail_thread()) return TX_NO_MEMORY;
    p->tx_thread_id = 0x54485244; p->self = p;
    K.make_thread(p, name, stack, size, [f, arg] { f(arg); }, false); K.point(); return TX_SUCCESS;
}
inline UINT tx_thread_terminate(TX_THREAD* p) { rk::Untrack u; tx_chk(p, "tx_thread_terminate"); auto& K = rk::k(); auto* t = K.thread(p, "tx_thread_terminate"); CHECK(K.me() != t, "a thread terminates itself"); t->terminated = true; t->done = true; t->t->done = true; K.point(); return TX_SUCCESS; }
inline UINT tx_thread_delete(TX_THREAD* p) { rk::Untrack u; tx_chk(p, "tx_thread_delete"); auto& K = rk::k(); auto* t = K.thread(p, "tx_thread_delete"); if (!t->done) return TX_DELETE_ERROR; p->tx_thread_id = 0; K.dead.push_back(std::move(K.threads[p])); K.threads.erase(p); K.point(); return TX_SUCCESS; }
