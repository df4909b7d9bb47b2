/*
    Replacement for the 'nanothread' submodule (ext/nanothread is an empty
    directory in this checkout). API-compatible with the parts drjit-core
    uses. It adds a deterministic scheduler ("vt_*" functions) that lets a
    harness own the execution order of asynchronous tasks.
*/
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <algorithm>
#include <type_traits>
#include <utility>

#if defined(__cplusplus)
#  define NANOTHREAD_DEF(x) = x
#else
#  define NANOTHREAD_DEF(x)
#endif
#define NANOTHREAD_EXPORT __attribute__((visibility("default")))
#define NANOTHREAD_AUTO ((uint32_t) -1)

extern "C" {
typedef struct Pool Pool;
typedef struct Task Task;

extern NANOTHREAD_EXPORT uint32_t core_count();
extern NANOTHREAD_EXPORT Pool *pool_default();
extern NANOTHREAD_EXPORT Pool *pool_create(uint32_t size = NANOTHREAD_AUTO, int ftz = 1);
extern NANOTHREAD_EXPORT void pool_destroy(Pool *pool = nullptr);
extern NANOTHREAD_EXPORT uint32_t pool_size(Pool *pool = nullptr);
extern NANOTHREAD_EXPORT void pool_set_size(Pool *pool, uint32_t size);
extern NANOTHREAD_EXPORT int pool_profile();
extern NANOTHREAD_EXPORT void pool_set_profile(int value);
extern NANOTHREAD_EXPORT uint32_t pool_thread_id();
extern NANOTHREAD_EXPORT int pool_work_until(Pool *pool, bool (*stop)(void *), void *payload);

extern NANOTHREAD_EXPORT
Task *task_submit_dep(Pool *pool, const Task *const *parent,
                      uint32_t parent_count, uint32_t size = 1,
                      void (*func)(uint32_t, void *) = nullptr,
                      void *payload = nullptr, uint32_t payload_size = 0,
                      void (*payload_deleter)(void *) = nullptr,
                      int always_async = 0, int profile = 0);

static inline Task *task_submit(Pool *pool, uint32_t size = 1,
                      void (*func)(uint32_t, void *) = nullptr,
                      void *payload = nullptr, uint32_t payload_size = 0,
                      void (*payload_deleter)(void *) = nullptr,
                      int always_async = 0, int profile = 0) {
    return task_submit_dep(pool, nullptr, 0, size, func, payload, payload_size,
                           payload_deleter, always_async, profile);
}

extern NANOTHREAD_EXPORT void task_release(Task *task);
extern NANOTHREAD_EXPORT void task_retain(Task *task);
extern NANOTHREAD_EXPORT void task_wait(Task *task);
extern NANOTHREAD_EXPORT void task_wait_and_release(Task *task);
extern NANOTHREAD_EXPORT int task_query(Task *task);
extern NANOTHREAD_EXPORT double task_time(Task *task);
extern NANOTHREAD_EXPORT double task_time_rel(Task *task_1, Task *task_2);

// ---------------------------------------------------------------------------
//  Harness control (not part of the real nanothread)
// ---------------------------------------------------------------------------

/// mode 0: worker threads, mode 1: deterministic, single real thread at a time
extern NANOTHREAD_EXPORT void vt_set_mode(int mode, uint64_t seed, uint32_t eagerness);
/// Run up to n pending work items (deterministic mode)
extern NANOTHREAD_EXPORT void vt_progress(uint32_t n);
/// Number of tasks that are still pending, live tasks, total executed items
extern NANOTHREAD_EXPORT uint64_t vt_pending();
extern NANOTHREAD_EXPORT uint64_t vt_live();
extern NANOTHREAD_EXPORT uint64_t vt_items();
/// How often an item of a task was run while an older task was still pending
extern NANOTHREAD_EXPORT uint64_t vt_reordered();
}

namespace drjit {
template <typename Int> struct blocked_range {
    blocked_range(Int begin, Int end, Int block_size = 1)
        : m_begin(begin), m_end(end), m_block_size(block_size) {}
    struct iterator {
        Int value;
        iterator(Int value) : value(value) {}
        Int operator*() const { return value; }
        operator Int() const { return value; }
        void operator++() { value++; }
        bool operator==(const iterator &it) const { return value == it.value; }
        bool operator!=(const iterator &it) const { return value != it.value; }
    };
    uint32_t blocks() const {
        return (uint32_t) ((m_end - m_begin + m_block_size - 1) / m_block_size);
    }
    iterator begin() const { return iterator(m_begin); }
    iterator end() const { return iterator(m_end); }
    Int block_size() const { return m_block_size; }
private:
    Int m_begin, m_end, m_block_size;
};

template <typename Int, typename Func>
void parallel_for(const blocked_range<Int> &range, Func &&func, Pool * = nullptr) {
    struct Payload { typename std::remove_reference<Func>::type *f; Int begin, end, block_size; };
    Payload p{ &func, range.begin(), range.end(), range.block_size() };
    Task *t = task_submit(nullptr, range.blocks(),
        [](uint32_t index, void *ptr) {
            Payload *pl = *(Payload **) ptr;
            Int b = pl->begin + pl->block_size * (Int) index,
                e = std::min(b + pl->block_size, pl->end);
            (*pl->f)(blocked_range<Int>(b, e));
        }, new Payload *(&p), sizeof(void*),
        [](void *ptr) { delete (Payload **) ptr; });
    task_wait_and_release(t);
}
}
