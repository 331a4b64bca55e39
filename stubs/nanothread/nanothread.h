/* Declarations of the nanothread API used by drjit-core (the ext/nanothread
   submodule is absent from this checkout).  Semantics are documented in
   /verif/DESIGN.md, section "Models of absent code". */
#pragma once
#include <stdint.h>
#include <stddef.h>
#define NANOTHREAD_AUTO ((uint32_t) -1)
#define NANOTHREAD_EXPORT
struct Pool;
struct Task;
extern "C" {
Pool *pool_create(uint32_t size = NANOTHREAD_AUTO, int ftz = 1);
void pool_destroy(Pool *pool = nullptr);
uint32_t pool_size(Pool *pool = nullptr);
void pool_set_size(Pool *pool, uint32_t size);
int pool_profile();
void pool_set_profile(int value);
uint32_t pool_thread_id();
Task *task_submit_dep(Pool *pool, const Task *const *parent, uint32_t parent_count,
                      uint32_t size = 1, void (*func)(uint32_t, void *) = nullptr,
                      void *payload = nullptr, uint32_t payload_size = 0,
                      void (*payload_deleter)(void *) = nullptr, int always_async = 0,
                      int profile = 0);
void task_release(Task *task);
void task_retain(Task *task);
void task_wait(Task *task);
void task_wait_and_release(Task *task);
int task_query(Task *task);
double task_time(Task *task) noexcept;
double task_time_rel(Task *task_1, Task *task_2) noexcept;
uint32_t core_count();
}
static inline Task *task_submit(Pool *pool, uint32_t size = 1,
        void (*func)(uint32_t, void *) = nullptr, void *payload = nullptr,
        uint32_t payload_size = 0, void (*payload_deleter)(void *) = nullptr, int always_async = 0) {
    return task_submit_dep(pool, nullptr, 0, size, func, payload, payload_size, payload_deleter, always_async);
}
#include <type_traits>
#include <cstdlib>
namespace drjit {
template <typename Int> struct blocked_range {
    struct iterator { Int value; Int operator*() const { return value; } iterator &operator++() { ++value; return *this; }
        bool operator==(const iterator &o) const { return value == o.value; } bool operator!=(const iterator &o) const { return value != o.value; } operator Int() const { return value; } };
    blocked_range(Int begin, Int end, Int block_size = 1) : m_begin(begin), m_end(end), m_block_size(block_size) { }
    iterator begin() const { return { m_begin }; } iterator end() const { return { m_end }; }
    uint32_t blocks() const { return (uint32_t) ((m_end - m_begin + m_block_size - 1) / m_block_size); }
    Int block_size() const { return m_block_size; }
    Int m_begin, m_end, m_block_size;
};
// Runs 'func' on pool workers and waits for completion
template <typename Int, typename Func> void parallel_for(const blocked_range<Int> &range, Func &&func, Pool *pool = nullptr) { (void) pool; func(range); }
}
