#include <nanothread/nanothread.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

using Clock = std::chrono::steady_clock;

struct Task {
    uint32_t refs = 0;        // external refs + 1 while not finished
    uint32_t pending_parents = 0;
    uint32_t size = 1;
    uint32_t next = 0;        // next index (thread mode)
    uint32_t done = 0;
    bool finished = false;
    bool profile = false;
    uint64_t seq = 0;
    void (*func)(uint32_t, void *) = nullptr;
    void *payload = nullptr;
    void (*deleter)(void *) = nullptr;
    std::vector<uint8_t> storage;   // (only used for alignment slack)
    void *owned = nullptr;
    std::vector<uint32_t> order;    // deterministic mode: permuted indices
    std::vector<Task *> children;
    std::exception_ptr exc;
    Clock::time_point t0, t1;
    bool started = false;
};

struct PoolState {
    std::mutex m;
    std::condition_variable cv_work, cv_done;
    std::list<Task *> ready;        // all parents are done, not all items claimed
    std::vector<std::thread> workers;
    uint32_t size = 0;
    bool stop = false, helper = false;
    int mode = 0;
    uint64_t rng = 1;
    uint32_t eagerness = 0;         // out of 256
    int profile = 0;
    uint64_t seq = 0, live = 0, pending = 0, items = 0, reordered = 0;
};

static PoolState *ps_ptr() { static PoolState *p = new PoolState(); return p; }
#define P (*ps_ptr())

static thread_local uint32_t tl_thread_id = 0;
// Threads that don't belong to the pool share the thread ID 0, hence only one
// of them may help out at a time
static thread_local bool tl_helper = false;

static uint64_t rnd() { // P.m held
    uint64_t z = (P.rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// Everything below expects the lock 'l' to be held -------------------------

static void unref(Task *t) {
    if (--t->refs == 0) {
        free(t->owned);
        P.live--;
        delete t;
    }
}

static void finish(Task *t, std::unique_lock<std::mutex> &l) {
    if (t->deleter) {
        l.unlock();
        t->deleter(t->payload);
        l.lock();
        t->deleter = nullptr;
    }
    t->finished = true;
    t->t1 = Clock::now();
    P.pending--;
    std::vector<Task *> ch;
    ch.swap(t->children);
    for (Task *c : ch) {
        if (t->exc && !c->exc)
            c->exc = t->exc;
        if (--c->pending_parents == 0) {
            P.ready.push_back(c);
            P.cv_work.notify_all();
        }
    }
    P.cv_done.notify_all();
    unref(t);
}

// Claim and run one item. Returns false when there was nothing to do
static bool run_one(std::unique_lock<std::mutex> &l, uint32_t worker_id) {
    if (P.ready.empty())
        return false;
    bool external = P.mode == 0 && tl_thread_id == 0 && !tl_helper;
    if (external) {
        if (P.helper)
            return false;
        P.helper = tl_helper = true;
    }
    auto it = P.ready.begin();
    if (P.mode == 1) {
        uint64_t k = rnd() % P.ready.size();
        if (k) P.reordered++;
        std::advance(it, k);
    }
    Task *t = *it;
    if (!t->started) {
        t->started = true;
        t->t0 = Clock::now();
        if (P.mode == 1 && t->size <= 4096) {
            t->order.resize(t->size);
            for (uint32_t i = 0; i < t->size; ++i) t->order[i] = i;
            for (uint32_t i = t->size; i > 1; --i)
                std::swap(t->order[i - 1], t->order[rnd() % i]);
        }
    }
    uint32_t index = t->next++;
    if (!t->order.empty())
        index = t->order[index];
    if (t->next == t->size)
        P.ready.erase(it);
    P.items++;
    uint32_t tid = worker_id;
    if (P.mode == 1)
        tid = P.size <= 1 ? 0 : (uint32_t) (rnd() % P.size);
    bool skip = (bool) t->exc;
    t->refs++;
    l.unlock();
    std::exception_ptr e;
    if (t->func && !skip) {
        uint32_t saved = tl_thread_id;
        tl_thread_id = tid;
        try { t->func(index, t->payload); } catch (...) { e = std::current_exception(); }
        tl_thread_id = saved;
    }
    l.lock();
    if (e && !t->exc) t->exc = e;
    t->done++;
    if (external) {
        P.helper = tl_helper = false;
        P.cv_done.notify_all();
    }
    if (t->done == t->size)
        finish(t, l);
    unref(t);
    return true;
}

static void worker(uint32_t id) {
    tl_thread_id = id;
    std::unique_lock<std::mutex> l(P.m);
    while (true) {
        if (P.stop) return;
        if (P.mode == 1 || !run_one(l, id))
            P.cv_work.wait(l);
    }
}

static void stop_workers(std::unique_lock<std::mutex> &l) {
    if (P.workers.empty()) return;
    P.stop = true;
    P.cv_work.notify_all();
    std::vector<std::thread> w;
    w.swap(P.workers);
    l.unlock();
    for (auto &t : w) t.join();
    l.lock();
    P.stop = false;
}

static void ensure(std::unique_lock<std::mutex> &) {
    if (P.size == 0) {
        const char *s = getenv("VT_POOL_SIZE");
        P.size = s ? (uint32_t) atoi(s) : 4;
        if (P.size == 0) P.size = 1;
    }
    if (P.mode == 0)
        while (P.workers.size() + 1 < P.size)
            P.workers.emplace_back(worker, (uint32_t) P.workers.size() + 1);
}

extern "C" {

uint32_t core_count() { return 8; }
Pool *pool_default() { return (Pool *) ps_ptr(); }
Pool *pool_create(uint32_t, int) { return pool_default(); }

void pool_destroy(Pool *) {
    std::unique_lock<std::mutex> l(P.m);
    stop_workers(l);
}

uint32_t pool_size(Pool *) {
    std::unique_lock<std::mutex> l(P.m);
    ensure(l);
    return P.size;
}

void pool_set_size(Pool *, uint32_t size) {
    std::unique_lock<std::mutex> l(P.m);
    stop_workers(l);
    P.size = size == NANOTHREAD_AUTO ? core_count() : (size == 0 ? 1 : size);
    ensure(l);
}

int pool_profile() { return P.profile; }
void pool_set_profile(int v) { P.profile = v; }
uint32_t pool_thread_id() { return tl_thread_id; }

Task *task_submit_dep(Pool *, const Task *const *parent, uint32_t parent_count,
                      uint32_t size, void (*func)(uint32_t, void *),
                      void *payload, uint32_t payload_size,
                      void (*deleter)(void *), int always_async, int profile) {
    std::unique_lock<std::mutex> l(P.m);
    ensure(l);
    Task *t = new Task();
    P.live++; P.pending++;
    t->refs = 2; // caller + completion
    t->size = size == 0 ? 1 : size;
    t->func = size == 0 ? nullptr : func;
    t->seq = P.seq++;
    t->profile = profile || P.profile;
    if (payload_size && !deleter) {
        void *p = nullptr;
        if (posix_memalign(&p, 64, payload_size)) abort();
        memcpy(p, payload, payload_size);
        t->owned = p;
        t->payload = p;
    } else {
        t->payload = payload;
        t->deleter = deleter;
    }
    for (uint32_t i = 0; i < parent_count; ++i) {
        Task *p = (Task *) parent[i];
        if (!p) continue;
        if (!p->finished) {
            t->pending_parents++;
            p->children.push_back(t);
        } else if (p->exc && !t->exc) {
            t->exc = p->exc;
        }
    }
    if (t->pending_parents == 0) {
        P.ready.push_back(t);
        if (P.mode == 0) {
            // Like nanothread: small, dependency-free work runs right away.
            // NOTE: the caller may hold Dr.Jit's lock at this point, which is
            // also true with the original library.
            if (t->size == 1 && !always_async) {
                P.ready.pop_back();
                t->started = true; t->t0 = Clock::now(); t->next = 1;
                P.items++;
                t->refs++;
                bool skip = (bool) t->exc;
                l.unlock();
                std::exception_ptr e;
                if (t->func && !skip) {
                    try { t->func(0, t->payload); } catch (...) { e = std::current_exception(); }
                }
                l.lock();
                if (e) t->exc = e;
                t->done = 1;
                finish(t, l);
                unref(t);
            } else if (P.workers.empty()) {
                while (!t->finished && run_one(l, tl_thread_id)) { }
            } else {
                P.cv_work.notify_all();
            }
        }
    }
    if (P.mode == 1) {
        while (P.eagerness && (rnd() & 0xff) < P.eagerness && run_one(l, 0)) { }
    }
    return t;
}

void task_release(Task *t) {
    if (!t) return;
    std::unique_lock<std::mutex> l(P.m);
    unref(t);
}

void task_retain(Task *t) {
    if (!t) return;
    std::unique_lock<std::mutex> l(P.m);
    t->refs++;
}

void task_wait(Task *t) {
    if (!t) return;
    std::unique_lock<std::mutex> l(P.m);
    t->refs++;
    while (!t->finished) {
        if (!run_one(l, tl_thread_id))
            P.cv_done.wait_for(l, std::chrono::milliseconds(5));
    }
    std::exception_ptr e = t->exc;
    unref(t);
    l.unlock();
    if (e) std::rethrow_exception(e);
}

void task_wait_and_release(Task *t) {
    if (!t) return;
    task_wait(t);
    task_release(t);
}

int task_query(Task *t) {
    if (!t) return 1;
    std::unique_lock<std::mutex> l(P.m);
    if (P.mode == 1 && !t->finished)
        run_one(l, 0);
    return t->finished ? 1 : 0;
}

double task_time(Task *t) {
    if (!t) return 0;
    return std::chrono::duration<double, std::milli>(t->t1 - t->t0).count();
}

double task_time_rel(Task *a, Task *b) {
    if (!a || !b) return 0;
    return std::chrono::duration<double, std::milli>(b->t1 - a->t1).count();
}

int pool_work_until(Pool *, bool (*stop)(void *), void *payload) {
    std::unique_lock<std::mutex> l(P.m);
    while (!stop(payload)) {
        if (!run_one(l, tl_thread_id)) return 0;
    }
    return 1;
}

void vt_set_mode(int mode, uint64_t seed, uint32_t eagerness) {
    std::unique_lock<std::mutex> l(P.m);
    if (mode == 1) stop_workers(l);
    P.mode = mode; P.rng = seed; P.eagerness = eagerness;
    ensure(l);
}

void vt_progress(uint32_t n) {
    std::unique_lock<std::mutex> l(P.m);
    while (n-- && run_one(l, 0)) { }
}
uint64_t vt_pending() { std::unique_lock<std::mutex> l(P.m); return P.pending; }
uint64_t vt_live() { std::unique_lock<std::mutex> l(P.m); return P.live; }
uint64_t vt_items() { std::unique_lock<std::mutex> l(P.m); return P.items; }
uint64_t vt_reordered() { std::unique_lock<std::mutex> l(P.m); return P.reordered; }

}
