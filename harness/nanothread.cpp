#include <nanothread/nanothread.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <cstring>
struct Task { std::mutex m; std::condition_variable cv; bool done = false; std::atomic<int> ref{2}; std::vector<Task*> deps; };
static std::atomic<int> live_threads{0};
int stub_delay_ms = 0;                 // demos may delay every task
std::atomic<int> stub_live_tasks{0};   // number of task objects
static void unref(Task *t) { if (t && --t->ref == 0) { delete t; --stub_live_tasks; } }
static void wait_(Task *t) { std::unique_lock<std::mutex> l(t->m); t->cv.wait(l, [&] { return t->done; }); }
extern "C" {
Pool *pool_create(uint32_t, int) { return nullptr; }
void pool_destroy(Pool *) { while (live_threads) std::this_thread::yield(); }
uint32_t pool_size(Pool *) { return 4; }
void pool_set_size(Pool *, uint32_t) { }
int pool_profile() { return 0; }
void pool_set_profile(int) { }
uint32_t pool_thread_id() { return 0; }
uint32_t core_count() { return 4; }
Task *task_submit_dep(Pool *, const Task *const *parent, uint32_t n, uint32_t size, void (*func)(uint32_t, void *),
                      void *payload, uint32_t psize, void (*del)(void *), int, int) {
    Task *t = new Task(); ++stub_live_tasks;
    for (uint32_t i = 0; i < n; ++i) if (parent[i]) { Task *p = (Task *) parent[i]; p->ref++; t->deps.push_back(p); }
    void *pl = payload; bool own = false;
    if (psize && !del) { pl = malloc(psize); memcpy(pl, payload, psize); own = true; }
    ++live_threads;
    std::thread([=] {
        for (Task *p : t->deps) { wait_(p); unref(p); }
        if (stub_delay_ms) std::this_thread::sleep_for(std::chrono::milliseconds(stub_delay_ms));
        if (func) for (uint32_t i = 0; i < size; ++i) func(i, pl);
        if (del) del(pl);
        if (own) free(pl);
        { std::lock_guard<std::mutex> l(t->m); t->done = true; t->cv.notify_all(); }
        unref(t); --live_threads;
    }).detach();
    return t;
}
void task_release(Task *t) { unref(t); }
void task_retain(Task *t) { if (t) t->ref++; }
void task_wait(Task *t) { if (t) wait_(t); }
void task_wait_and_release(Task *t) { if (t) { wait_(t); unref(t); } }
int task_query(Task *t) { std::lock_guard<std::mutex> l(t->m); return t->done; }
double task_time(Task *) noexcept { return 0; }
double task_time_rel(Task *, Task *) noexcept { return 0; }
}
