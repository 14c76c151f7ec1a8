#pragma once
#include "rtos/kernel.hpp"
typedef struct tskTaskControlBlock* TaskHandle_t; typedef struct QueueDefinition* SemaphoreHandle_t;
typedef uint32_t TickType_t; typedef long BaseType_t; typedef unsigned long UBaseType_t; typedef void (*TaskFunction_t)(void*);
#define pdPASS ((BaseType_t)1)
#define pdFAIL ((BaseType_t)0)
#define pdTRUE ((BaseType_t)1)
#define pdFALSE ((BaseType_t)0)
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define tskIDLE_PRIORITY ((UBaseType_t)0)
#define portTICK_PERIOD_MS ((TickType_t)(1000 / rk::k().tick_hz))
#define configTICK_RATE_HZ (rk::k().tick_hz)
#define pdMS_TO_TICKS(ms) ((TickType_t)((uint64_t)(ms) * rk::k().tick_hz / 1000))
inline TickType_t xTaskGetTickCount() { return (TickType_t)(vs::World::self()->now_ns / 1000000); }
inline SemaphoreHandle_t rk_sem(long n, long lim) { rk::Untrack u; auto& K = rk::k(); if (K.fail_sem && K.fail_sem()) return nullptr; static uintptr_t next = 0x10000; next += 16; K.make_sem((void*)next, n, lim, false); K.point(); return (SemaphoreHandle_t)next; }
inline SemaphoreHandle_t xSemaphoreCreateBinary() { return rk_sem(0, 1); }
inline SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t m, UBaseType_t i) { return rk_sem((long)i, (long)m); }
inline SemaphoreHandle_t xSemaphoreCreateMutex() { return rk_sem(1, 1); }
inline void vSemaphoreDelete(SemaphoreHandle_t s) { rk::Untrack u; rk::k().delete_sem(s, "vSemaphoreDelete"); }
inline BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t t) { rk::Untrack u; return rk::k().take(s, t == portMAX_DELAY, (uint64_t)t * 1000000, "xSemaphoreTake"); }
inline BaseType_t xSemaphoreGive(SemaphoreHandle_t s) { rk::Untrack u; return rk::k().give(s, "xSemaphoreGive"); }
inline BaseType_t xTaskCreate(TaskFunction_t f, const char* name, uint16_t depth, void* arg, UBaseType_t, TaskHandle_t* out) {
    rk::Untrack u; auto& K = rk::k(); CHECK(f && depth >= 64, "xTaskCreate: bad arguments"); if (K.fail_thread && K.fail_thread()) return pdFAIL;
    static uintptr_t next = 0x20000000; next += 16;
    if (out) *out = (TaskHandle_t)next;
    K.make_thread((void*)next, name, nullptr, 0, [f, arg] { f(arg); }, true); K.point(); return pdPASS;
}
inline void vTaskDelete(TaskHandle_t h) {
    rk::Untrack u; auto& K = rk::k();
    if (!h) { auto* m = K.me(); CHECK(m, "vTaskDelete(NULL) outside of a task"); K.point(); m->deleted = true; throw rk::Exit(); }
    auto* t = K.thread(h, "vTaskDelete"); CHECK(!t->done && !t->deleted, "vTaskDelete of a task that deleted itself"); t->terminated = t->done = true; t->t->done = true; K.point();
}
inline void vTaskDelay(TickType_t t) { rk::Untrack u; rk::k().sleeps++; rk::k().slept_ns += (uint64_t)t * 1000000000 / rk::k().tick_hz; vs::World::self()->sleep((uint64_t)t * 1000000000 / rk::k().tick_hz); rk::k().point(); }
inline void taskYIELD() { rk::Untrack u; rk::k().yields++; vs::World::self()->give_way(); rk::k().point(); }
inline void vTaskStartScheduler() {}
