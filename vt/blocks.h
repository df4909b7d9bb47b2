// History machine over raw memory blocks, asynchronous operations, host
// callbacks and events. The model applies every operation to byte arrays in
// program order (used by P20 and P22 with different weights)
#pragma once
#include "jx.h"
#include <atomic>
#include <mutex>
#include <thread>

namespace blk {
using namespace jx;

struct Blk {
    uint8_t *p = nullptr;
    size_t req = 0, cap = 0;       ///< requested, observed capacity
    JitBackend be = JitBackend::None;
    bool shared = false;
    bool moved = false;            ///< on the host, was part of the LLVM backend
    bool pending = false;          ///< asynchronous work may still access it
    std::vector<uint8_t> d;        ///< contents in program order (a prefix)
    bool host() const { return be == JitBackend::None || shared; }
};

struct Shared {
    std::mutex m;
    std::string error;
    std::atomic<uint64_t> ran{ 0 };
    void report(const std::string &s) { std::lock_guard<std::mutex> g(m); if (error.empty()) error = s; }
};

struct HostFunc {
    Shared *sh;
    uint64_t seq;
    const uint8_t *p;
    std::vector<uint8_t> want;
    int api;
    bool slow = false;
    void *release = nullptr;
    std::atomic<int> count{ 0 };
    static void run(void *ptr) {
        HostFunc *h = (HostFunc *) ptr;
        if (h->count.fetch_add(1) != 0)
            h->sh->report(strf("host function %lu ran more than once", (unsigned long) h->seq));
        uint64_t at = h->sh->ran.load();
        if (at != h->seq)
            h->sh->report(strf("host function %lu ran after %lu others", (unsigned long) h->seq, (unsigned long) at));
        for (size_t i = 0; i < h->want.size(); ++i)
            if (h->p[i] != h->want[i]) {
                h->sh->report(strf("host function %lu: byte %zu of the block at %p is 0x%02x instead of 0x%02x", (unsigned long) h->seq, i, (void *) h->p, h->p[i], h->want[i]));
                break;
            }
        if (h->slow) std::this_thread::sleep_for(std::chrono::microseconds(300));
        if (h->release) jit_free(h->release);
        if (h->api) { void *p = jit_malloc(JitBackend::None, 64 * (size_t) h->api, 0); memset(p, 0xEE, 64); jit_free(p); }
        h->sh->ran.fetch_add(1);
    }
};

struct Event { JitEvent e = nullptr; bool timing = false, recorded = false; uint64_t after = 0; };

enum Kind { KAlloc, KFree, KMemset, KCopy, KSyncCopy, KHostWrite, KHostCheck, KFunc, KMigrate, KFlush, KSync, KKernel, KScatter,
            KRead, KReduce, KPrefix, KCompress, KMap, KMemCopy, KEvent, KProgress, KMisuse, KStats, KOom, KFlushKernels, KCount };

struct Machine {
    Src &s;
    Config cfg;
    std::vector<Blk> blocks;
    std::vector<std::unique_ptr<HostFunc>> funcs;
    std::vector<Event> events;
    std::vector<std::unique_ptr<std::vector<uint8_t>>> sources; // sources of copies that may be pending
    Shared sh;
    std::vector<size_t> sizes;     // few distinct sizes: blocks are reused
    std::map<std::pair<size_t, int>, size_t> caps;
    size_t base[2] = { 0, 0 };     // bytes allocated when the case started (None, LLVM)
    size_t live[2] = { 0, 0 }, peak[2] = { 0, 0 };
    bool exact = true;             // no other allocations took place since the last flush
    uint64_t n_alloc = 0, n_reused = 0, n_async = 0, n_pending_free = 0, n_migr = 0, n_func = 0, n_events = 0, n_kernels = 0, n_flush = 0;
    std::set<uint8_t *> freed;
    size_t limit = 1 << 14;

    Machine(Src &s, const Config &c) : s(s), cfg(c) { }
    static int bi(JitBackend b) { return b == JitBackend::None ? 0 : 1; }

    void check_error() {
        std::lock_guard<std::mutex> g(sh.m);
        if (!sh.error.empty()) fail("%s", sh.error.c_str());
    }
    void settle() { // everything issued so far has finished
        for (auto &b : blocks) b.pending = false;
        if (sh.ran.load() != funcs.size())
            fail("synchronized, but %lu of %zu host functions ran", (unsigned long) sh.ran.load(), funcs.size());
        check_error();
        sources.clear();
    }
    void sync(int how) {
        switch (how) {
            case 0: jit_sync_thread(); break;
            case 1: jit_sync_device(); break;
            default: jit_sync_all_devices();
        }
        settle();
    }
    void verify(const Blk &b, const char *when) {
        for (size_t i = 0; i < b.d.size(); ++i)
            if (b.p[i] != b.d[i])
                fail("%s: byte %zu of the block of %zu bytes at %p (%s%s) is 0x%02x instead of 0x%02x", when, i, b.req, (void *) b.p,
                     b.be == JitBackend::None ? "host" : "LLVM", b.shared ? ", shared" : "", b.p[i], b.d[i]);
    }
    void verify_host(const char *when) { for (auto &b : blocks) if (!b.pending && b.host()) verify(b, when); }
    void verify_all(int how, const char *when) { sync(how); for (auto &b : blocks) verify(b, when); }
    uint8_t byte() { return (uint8_t) (1 + s.below(255)); }
    size_t pick_block() { return s.below(blocks.size()); }
    size_t pick_big(size_t bytes) { // a block with at least this many tracked bytes, or -1
        size_t st = pick_block();
        for (size_t i = 0; i < blocks.size(); ++i) { size_t j = (st + i) % blocks.size(); if (blocks[j].d.size() >= bytes) return j; }
        return (size_t) -1;
    }
    size_t pick_host() {
        size_t st = pick_block();
        for (size_t i = 0; i < blocks.size(); ++i) { size_t j = (st + i) % blocks.size(); if (blocks[j].host() && !blocks[j].pending) return j; }
        return (size_t) -1;
    }

    // ---- Accounting -------------------------------------------------------
    size_t allocated(JitBackend be) { // bytes the allocator holds on to
        jit_malloc_clear_statistics();
        return jit_malloc_watermark(be);
    }
    void start() {
        jit_sync_all_devices();
        jit_flush_malloc_cache();
        base[0] = allocated(JitBackend::None); base[1] = allocated(JitBackend::LLVM);
        // Capacity of the blocks this case uses
        size_t n = 1 + s.below(3);
        for (size_t i = 0; i < n; ++i) {
            size_t sz;
            switch (s.below(8)) {
                case 0: sz = 1 + s.below(64); break;
                case 1: sz = (size_t) 1 << (6 + s.below(8)); break;
                case 2: sz = ((size_t) 1 << (6 + s.below(8))) + 1; break;
                case 3: sz = ((size_t) 1 << (6 + s.below(8))) - 1; break;
                case 4: sz = s.chance(1, 4) ? (size_t) (2 << 20) + s.pick<int>({ 0, -1, 1, -4096, 123456 }) : 4 * (1 + s.below(2000)); break;
                default: sz = 4 * (1 + s.below(300));
            }
            sizes.push_back(sz);
            for (int b = 0; b < 2; ++b) {
                JitBackend be = b ? JitBackend::LLVM : JitBackend::None;
                void *p = jit_malloc(be, sz, 0);
                size_t cap = allocated(be) - base[b];
                if (cap < sz || cap > 4 * std::max<size_t>(sz, 256))
                    fail("jit_malloc(%zu): accounted as %zu bytes", sz, cap);
                caps[{ sz, b }] = cap;
                jit_free(p);
                jit_flush_malloc_cache();
                if (allocated(be) != base[b]) fail("jit_flush_malloc_cache(): a freed block of %zu bytes is still accounted for", sz);
            }
        }
    }
    void account(int b, int64_t diff) {
        live[b] += (size_t) diff;
        peak[b] = std::max(peak[b], live[b]);
    }
    void stats() {
        for (int b = 0; b < 2; ++b) {
            JitBackend be = b ? JitBackend::LLVM : JitBackend::None;
            size_t w = jit_malloc_watermark(be);
            if (w < base[b] + peak[b]) fail("peak memory usage (%s): %zu bytes, but %zu bytes were in use at the same time", b ? "LLVM" : "host", w, base[b] + peak[b]);
        }
    }
    /// All memory that is not part of a live block is returned
    void flush_check() {
        stats();
        // Memory that callbacks release during the flush would be part of the next one
        if (sh.ran.load() != funcs.size()) sync(2);
        jit_flush_malloc_cache();
        n_flush++;
        settle(); // flushing synchronizes
        for (int b = 0; b < 2; ++b) {
            JitBackend be = b ? JitBackend::LLVM : JitBackend::None;
            size_t now = allocated(be);
            if (now != base[b] + live[b])
                fail("after jit_flush_malloc_cache(): %zu bytes are accounted for (%s), expected %zu for the live blocks (+ %zu at the start)", now, b ? "LLVM" : "host", live[b], base[b]);
            peak[b] = live[b];
        }
        for (auto &bl : blocks) verify(bl, "after jit_flush_malloc_cache()");
    }

    // ---- Operations -------------------------------------------------------
    void alloc() {
        Blk b;
        b.req = s.pick(sizes);
        b.be = s.chance(1, 3) ? JitBackend::None : JitBackend::LLVM;
        b.shared = b.be == JitBackend::LLVM && s.chance(1, 2);
        b.cap = caps[{ b.req, bi(b.be) }];
        bool flag = b.shared || (b.be == JitBackend::None && s.chance(1, 4)); // no effect
        b.p = (uint8_t *) jit_malloc(b.be, b.req, flag);
        n_alloc++;
        if (freed.count(b.p)) { n_reused++; freed.erase(b.p); }
        if (!b.p) fail("jit_malloc(%zu) returned a null pointer", b.req);
        if ((uintptr_t) b.p % 64) fail("jit_malloc(%zu): %p is not aligned", b.req, (void *) b.p);
        for (auto &o : blocks)
            if (b.p < o.p + o.req && o.p < b.p + b.req)
                fail("jit_malloc(%zu): %p overlaps with the live block of %zu bytes at %p", b.req, (void *) b.p, o.req, (void *) o.p);
        account(bi(b.be), (int64_t) b.cap);
        s.note("alloc %s%s %zu -> #%zu", b.be == JitBackend::None ? "host" : "LLVM", b.shared ? " shared" : "", b.req, blocks.size());
        size_t len = std::min(b.req, limit);
        b.d.resize(len);
        if (b.host()) {
            for (size_t i = 0; i < len; ++i) b.d[i] = (uint8_t) (i * 7 + n_alloc);
            memcpy(b.p, b.d.data(), len);
            if (b.req > len) memset(b.p + len, 0x5a, b.req - len); // the entire region is usable
        } else {
            uint8_t v = byte();
            std::fill(b.d.begin(), b.d.end(), v);
            jit_memset_async(BE, b.p, (uint32_t) b.req, 1, &v);
            b.pending = true; n_async++;
        }
        blocks.push_back(std::move(b));
    }
    void do_free(size_t i) {
        Blk b = std::move(blocks[i]);
        blocks.erase(blocks.begin() + (ptrdiff_t) i);
        if (b.pending) n_pending_free++;
        s.note("free #%zu%s", i, b.pending ? " (pending)" : "");
        account(bi(b.be), -(int64_t) b.cap);
        freed.insert(b.p);
        jit_free(b.p);
    }
    bool can_free(const Blk &b) { return b.be != JitBackend::None || !b.pending || b.moved; }
    void memset_op() {
        size_t i = pick_block(); Blk &b = blocks[i];
        uint32_t isz = s.pick<uint32_t>({ 1, 2, 4, 8 });
        uint64_t v = s.chance(1, 6) ? 0 : s.bits();
        size_t n = b.d.size() / isz;
        if (!n) return;
        size_t off = s.below(n), cnt = s.below(n - off + 1);
        jit_memset_async(BE, b.p + off * isz, (uint32_t) cnt, isz, &v);
        for (size_t k = 0; k < cnt; ++k) memcpy(&b.d[(off + k) * isz], &v, isz);
        s.note("memset #%zu [%zu,+%zu) x %u", i, off, cnt, isz);
        b.pending = true; n_async++;
    }
    void copy(bool sync_) {
        size_t i = pick_block();
        Blk &dst = blocks[i];
        if (sync_ || s.chance(1, 5)) { // from or to ordinary memory
            size_t n = 1 + s.below(dst.d.size()), off = s.below(dst.d.size() - n + 1);
            if (sync_ && s.flip()) { // read back
                std::vector<uint8_t> got(n);
                jit_memcpy(BE, got.data(), dst.p + off, n);
                s.note("memcpy (synchronous) from #%zu [%zu,+%zu)", i, off, n);
                if (memcmp(got.data(), &dst.d[off], n)) fail("jit_memcpy() of %zu bytes at offset %zu of block #%zu returned wrong contents", n, off, i);
                return;
            }
            sources.push_back(std::make_unique<std::vector<uint8_t>>(n));
            for (auto &x : *sources.back()) x = byte();
            memcpy(&dst.d[off], sources.back()->data(), n);
            if (sync_) {
                jit_memcpy(BE, dst.p + off, sources.back()->data(), n);
                memset(sources.back()->data(), 0, n); // the source may be changed right away
            } else {
                jit_memcpy_async(BE, dst.p + off, sources.back()->data(), n);
                n_async++;
            }
            s.note("memcpy%s to #%zu [%zu,+%zu)", sync_ ? " (synchronous)" : "", i, off, n);
            dst.pending = true;
            return;
        }
        size_t j = pick_block();
        if (i == j) return;
        Blk &src = blocks[j];
        size_t n = 1 + s.below(std::min(dst.d.size(), src.d.size()));
        size_t o1 = s.below(dst.d.size() - n + 1), o2 = s.below(src.d.size() - n + 1);
        jit_memcpy_async(BE, dst.p + o1, src.p + o2, n);
        memcpy(&dst.d[o1], &src.d[o2], n);
        s.note("memcpy #%zu+%zu <- #%zu+%zu, %zu", i, o1, j, o2, n);
        dst.pending = src.pending = true; n_async++;
    }
    void host_write() {
        size_t i = pick_host();
        if (i == (size_t) -1) return;
        Blk &b = blocks[i];
        verify(b, "before a write by the host");
        uint8_t v = byte();
        for (size_t k = 0; k < b.d.size(); ++k) b.d[k] = (uint8_t) (b.d[k] + v + k);
        memcpy(b.p, b.d.data(), b.d.size());
        s.note("host write #%zu", i);
    }
    void func(bool slow = false) {
        auto h = std::make_unique<HostFunc>();
        h->sh = &sh; h->seq = funcs.size(); h->p = nullptr; h->api = cfg.mode == 0 && s.chance(1, 3) ? (int) (1 + s.below(4)) : 0;
        if (slow) { h->slow = true; h->api = 1; }
        if (!blocks.empty()) {
            size_t i = pick_block(); Blk &b = blocks[i];
            size_t n = std::min<size_t>(b.d.size(), 512), off = s.below(b.d.size() - n + 1);
            h->p = b.p + off;
            h->want.assign(b.d.begin() + (ptrdiff_t) off, b.d.begin() + (ptrdiff_t) (off + n));
            b.pending = true;
            s.note("host function %lu checks #%zu", (unsigned long) h->seq, i);
        } else s.note("host function %lu", (unsigned long) h->seq);
        // The callback may also release a block
        if (s.chance(1, 5)) {
            for (size_t i = 0; i < blocks.size(); ++i) {
                if (!blocks[i].shared || blocks[i].p == h->p || (h->p >= blocks[i].p && h->p < blocks[i].p + blocks[i].req)) continue;
                h->release = blocks[i].p;
                account(1, -(int64_t) blocks[i].cap);
                s.note(" and releases #%zu", i);
                blocks.erase(blocks.begin() + (ptrdiff_t) i);
                break;
            }
        }
        HostFunc *p = h.get();
        funcs.push_back(std::move(h));
        n_func++;
        jit_enqueue_host_func(BE, HostFunc::run, p);
    }
    void migrate() {
        size_t i = pick_block(); Blk &b = blocks[i];
        JitBackend to = s.flip() ? JitBackend::None : JitBackend::LLVM;
        bool move = s.flip();
        if (!move && b.be == JitBackend::None && b.pending) return; // the host reads it
        s.note("migrate #%zu to %s%s%s", i, to == JitBackend::None ? "host" : "LLVM", move ? " (move)" : "", b.pending ? " (pending)" : "");
        n_migr++;
        uint8_t *q = (uint8_t *) jit_malloc_migrate(b.p, to, move);
        if (!q) fail("jit_malloc_migrate() returned a null pointer");
        if (move) {
            account(bi(b.be), -(int64_t) b.cap); account(bi(to), (int64_t) b.cap);
            b.moved = to == JitBackend::None && (b.be == JitBackend::LLVM || b.moved);
            if (q != b.p) { freed.insert(b.p); b.p = q; b.pending = true; }
            if (to != b.be) b.shared = false;
            b.be = to;
            if (to == JitBackend::LLVM) b.shared = false;
        } else {
            if (q == b.p) fail("jit_malloc_migrate(move=0) returned the source");
            Blk n;
            n.req = b.req; n.cap = b.cap; n.p = q; n.d = b.d;
            // The result of a copy may be LLVM memory (documented: call jit_sync_thread() before reading it)
            n.pending = true;
            n.be = to;
            bool pend = b.pending = b.pending || b.be == JitBackend::LLVM;
            (void) pend;
            // Which side holds the copy? The copy of an LLVM buffer remains there
            n.be = b.be == JitBackend::LLVM ? JitBackend::LLVM : to;
            n.shared = false;
            n.moved = false;
            for (auto &o : blocks)
                if (n.p < o.p + o.req && o.p < n.p + n.req) fail("jit_malloc_migrate(): %p overlaps with a live block", (void *) n.p);
            freed.erase(n.p);
            account(bi(n.be), (int64_t) n.cap);
            blocks.push_back(std::move(n));
        }
    }
    Var map_block(Blk &b, size_t n) { return steal(jit_var_mem_map(BE, VarType::UInt32, b.p, n, 0)); }
    uint32_t word(const Blk &b, size_t i) { uint32_t v; memcpy(&v, &b.d[i * 4], 4); return v; }
    void put(Blk &b, size_t i, uint32_t v) { memcpy(&b.d[i * 4], &v, 4); }
    size_t count(const Blk &b) { size_t m = std::min<size_t>(b.d.size() / 4, 3000); return m ? 1 + s.below(m) : 0; }

    /// A kernel reads one or two blocks; the result is copied into another one
    void kernel() {
        size_t i = pick_big(4), k = pick_big(4);
        if (i == (size_t) -1) return;
        size_t n = count(blocks[i]);
        uint32_t c = 1 + (uint32_t) s.below(7);
        Var a = map_block(blocks[i], n), r;
        std::vector<uint32_t> want(n);
        bool two = blocks[k].d.size() >= n * 4 && s.flip();
        if (two) {
            Var b = map_block(blocks[k], n);
            r = jit_op(JitOp::Fma, { a, u32(c), b });
            for (size_t x = 0; x < n; ++x) want[x] = word(blocks[i], x) * c + word(blocks[k], x);
            blocks[k].pending = true;
        } else {
            r = jit_op(JitOp::Add, { a, u32(c) });
            for (size_t x = 0; x < n; ++x) want[x] = word(blocks[i], x) + c;
        }
        blocks[i].pending = true;
        a.reset();
        void *p = nullptr;
        Var d = steal(jit_var_data(r.id(), &p));
        r.reset();
        n_kernels++; n_async++; exact = false;
        s.note("kernel over #%zu%s, %zu", i, two ? " and another block" : "", n);
        size_t t = pick_big(n * 4);
        if (s.chance(1, 6)) { // element of the result
            size_t at = s.below(n); uint32_t got = 0;
            jit_var_read(d.id(), at, &got);
            if (got != want[at]) fail("jit_var_read(): element %zu is %u instead of %u", at, got, want[at]);
            s.note(" read back element %zu", at);
        }
        if (t != (size_t) -1) {
            jit_memcpy_async(BE, blocks[t].p, p, n * 4);
            for (size_t x = 0; x < n; ++x) put(blocks[t], x, want[x]);
            blocks[t].pending = true;
            s.note(" -> #%zu", t);
        }
        // 'd' is released here, while the copy may be pending
    }
    void scatter() {
        size_t i = pick_big(4);
        if (i == (size_t) -1) return;
        Blk &b = blocks[i];
        size_t n = count(b), m = 1 + s.below(std::min<size_t>(n, 200));
        size_t off = s.below(n - m + 1);
        uint32_t c = (uint32_t) s.bits();
        bool add = s.flip();
        {
            Var tgt = map_block(b, n);
            Var idx = jit_op(JitOp::Add, { ctr(m), u32((uint32_t) off) });
            Var val = jit_op(JitOp::Xor, { ctr(m), u32(c) });
            Var r = steal(jit_var_scatter(tgt.id(), val.id(), idx.id(), boolean(true).id(), add ? ReduceOp::Add : ReduceOp::Identity, ReduceMode::Auto));
            tgt.reset();
            void *p = nullptr;
            Var d = steal(jit_var_data(r.id(), &p));
            if (p != b.p) jit_memcpy_async(BE, b.p, p, n * 4); // small targets are expanded
        }
        for (size_t x = 0; x < m; ++x) { uint32_t v = (uint32_t) x ^ c; put(b, off + x, add ? word(b, off + x) + v : v); }
        b.pending = true; n_kernels++; n_async++; exact = false;
        s.note("scatter%s into #%zu [%zu,+%zu)", add ? "-add" : "", i, off, m);
    }
    void read() {
        size_t i = pick_big(4);
        if (i == (size_t) -1) return;
        Blk &b = blocks[i];
        size_t n = count(b), at = s.below(n);
        Var v = map_block(b, n);
        uint32_t got = 0;
        jit_var_read(v.id(), at, &got);
        s.note("read #%zu[%zu]", i, at);
        if (got != word(b, at)) fail("jit_var_read() of block #%zu: element %zu is %u instead of %u", i, at, got, word(b, at));
    }
    void reduce() {
        size_t i = pick_big(4), t = pick_big(4);
        if (i == (size_t) -1 || i == t) return;
        Blk &a = blocks[i], &b = blocks[t];
        size_t n = count(a), bs = s.flip() ? n : 1 + s.below(n), outs = (n + bs - 1) / bs;
        if (b.d.size() < outs * 4) return;
        ReduceOp op = s.pick({ ReduceOp::Add, ReduceOp::Max, ReduceOp::Or });
        if (bs == n && s.flip()) jit_reduce(BE, VarType::UInt32, op, a.p, (uint32_t) n, b.p);
        else jit_block_reduce(BE, VarType::UInt32, op, (uint32_t) n, (uint32_t) bs, a.p, b.p);
        for (size_t o = 0; o < outs; ++o) {
            uint64_t r = ref_identity(op, VarType::UInt32);
            for (size_t x = o * bs; x < std::min(n, (o + 1) * bs); ++x) r = ref_reduce(op, VarType::UInt32, r, word(a, x));
            put(b, o, (uint32_t) r);
        }
        a.pending = b.pending = true; n_async++; exact = false;
        s.note("reduce #%zu (%zu, blocks of %zu) -> #%zu", i, n, bs, t);
    }
    void prefix() {
        size_t i = pick_big(4), t = pick_big(4);
        if (i == (size_t) -1) return;
        Blk &a = blocks[i], &b = blocks[t];
        size_t n = std::min(count(a), b.d.size() / 4);
        if (!n) return;
        size_t bs = s.flip() ? n : 1 + s.below(n);
        bool ex = s.flip(), rev = s.flip();
        jit_block_prefix_reduce(BE, VarType::UInt32, ReduceOp::Add, (uint32_t) bs, (uint32_t) n, ex, rev, a.p, b.p); // in place if i == t
        std::vector<uint32_t> r(n);
        for (size_t o = 0; o < n; o += bs) {
            size_t e = std::min(n, o + bs); uint32_t acc = 0;
            for (size_t k = 0; k < e - o; ++k) {
                size_t x = rev ? e - 1 - k : o + k;
                uint32_t v = word(a, x);
                r[x] = ex ? acc : acc + v;
                acc += v;
            }
        }
        for (size_t x = 0; x < n; ++x) put(b, x, r[x]);
        a.pending = b.pending = true; n_async++; exact = false;
        s.note("prefix sum #%zu (%zu, blocks of %zu%s%s) -> #%zu", i, n, bs, ex ? ", exclusive" : "", rev ? ", reverse" : "", t);
    }
    void compress() {
        size_t i = pick_big(64), t = pick_big(64);
        if (i == (size_t) -1 || i == t) return;
        Blk &a = blocks[i], &b = blocks[t];
        size_t n = std::min(a.d.size(), b.d.size() / 4);
        n = 1 + s.below(std::min<size_t>(n, 700));
        std::vector<uint8_t> mask(n);
        for (auto &x : mask) x = s.flip();
        // The LLVM implementation does not require padding
        sources.push_back(std::make_unique<std::vector<uint8_t>>(mask));
        jit_memcpy_async(BE, a.p, sources.back()->data(), n);
        memcpy(a.d.data(), mask.data(), n);
        uint32_t cnt = jit_compress(BE, a.p, (uint32_t) n, (uint32_t *) b.p), want = 0;
        for (size_t x = 0; x < n; ++x) if (mask[x]) put(b, want++, (uint32_t) x);
        if (cnt != want) fail("jit_compress(): %u instead of %u", cnt, want);
        a.pending = b.pending = true; n_async++; exact = false;
        s.note("compress #%zu (%zu) -> #%zu", i, n, t);
    }
    /// The block becomes part of a variable, which releases it
    void map_owned() {
        size_t i = pick_big(4);
        if (i == (size_t) -1 || blocks[i].be == JitBackend::None) return; // releases of host memory are immediate
        Blk b = std::move(blocks[i]);
        blocks.erase(blocks.begin() + (ptrdiff_t) i);
        size_t n = count(b), t = (size_t) -1;
        {
            Var v = steal(jit_var_mem_map(BE, VarType::UInt32, b.p, n, 1));
            if (s.flip()) {
                Var r = jit_op(JitOp::Xor, { v, u32(0x55) });
                if (s.flip()) v.reset(); // released by the kernel's own bookkeeping
                void *p = nullptr;
                Var d = steal(jit_var_data(r.id(), &p));
                r.reset(); v.reset();
                if (!blocks.empty() && (t = pick_big(n * 4)) != (size_t) -1) {
                    jit_memcpy_async(BE, blocks[t].p, p, n * 4);
                    for (size_t x = 0; x < n; ++x) put(blocks[t], x, word(b, x) ^ 0x55);
                    blocks[t].pending = true;
                }
                n_kernels++; exact = false;
            }
        }
        n_pending_free++;
        s.note("#%zu becomes a variable (%zu) and is released, -> #%zd", i, n, (ssize_t) t);
        account(bi(b.be), -(int64_t) b.cap);
        freed.insert(b.p);
    }
    void mem_copy() {
        size_t i = pick_big(4);
        if (i == (size_t) -1) return;
        Blk &b = blocks[i];
        size_t n = count(b);
        bool host = b.host() && !b.pending && s.flip();
        Var v = steal(jit_var_mem_copy(BE, VarType::UInt32, b.p, n, host));
        if (!host) b.pending = true;
        std::vector<uint8_t> snap = b.d;
        s.note("variable with a copy of #%zu (%zu)%s", i, n, host ? " (host)" : "");
        if (host && s.flip()) { for (auto &x : b.d) x ^= 0xff; memcpy(b.p, b.d.data(), b.d.size()); s.note(" source changed"); }
        else if (s.flip()) { uint8_t z = byte(); jit_memset_async(BE, b.p, (uint32_t) b.d.size(), 1, &z); std::fill(b.d.begin(), b.d.end(), z); b.pending = true; s.note(" source overwritten"); }
        exact = false;
        size_t t = pick_big(n * 4);
        void *p = nullptr;
        Var d = steal(jit_var_data(v.id(), &p));
        v.reset();
        if (t != (size_t) -1) {
            jit_memcpy_async(BE, blocks[t].p, p, n * 4);
            memcpy(blocks[t].d.data(), snap.data(), n * 4);
            blocks[t].pending = true;
            s.note(" -> #%zu", t);
        }
        n_async++;
    }
    void event() {
        size_t k = s.below(4);
        if (k == 0 || events.empty()) {
            if (events.size() >= 4) { size_t i = s.below(events.size()); jit_event_destroy(events[i].e); events.erase(events.begin() + (ptrdiff_t) i); s.note("destroy event %zu", i); if (s.flip()) jit_event_destroy(nullptr); }
            Event e; e.timing = s.flip();
            e.e = jit_event_create(BE, e.timing);
            s.note("create event %zu%s", events.size(), e.timing ? " (timing)" : "");
            events.push_back(e);
            k = 1 + s.below(2);
        }
        size_t i = s.below(events.size()); Event &e = events[i];
        n_events++;
        if (k == 1 || !e.recorded) {
            jit_event_record(e.e);
            e.recorded = true; e.after = funcs.size();
            s.note("record event %zu (after %lu host functions)", i, (unsigned long) e.after);
        } else if (k == 2) {
            int q = jit_event_query(e.e);
            s.note("query event %zu: %i", i, q);
            if (q && sh.ran.load() < e.after)
                fail("event %zu completed, but only %lu of the %lu host functions issued before it ran", i, (unsigned long) sh.ran.load(), (unsigned long) e.after);
        } else if (s.flip() || !e.timing) {
            jit_event_wait(e.e);
            s.note("wait for event %zu", i);
            if (sh.ran.load() < e.after)
                fail("waited for event %zu, but only %lu of the %lu host functions issued before it ran", i, (unsigned long) sh.ran.load(), (unsigned long) e.after);
            if (!jit_event_query(e.e)) fail("event %zu is not complete after waiting for it", i);
        } else {
            size_t j = s.below(events.size()); Event &f = events[j];
            if (cfg.mode == 0 && s.flip()) { // work that needs the lock is pending
                func(true);
                jit_event_record(e.e); e.after = funcs.size();
            }
            s.note("elapsed time between events %zu and %zu", i, j);
            std::string msg;
            float dt = 0;
            bool raised = raises([&] { dt = jit_event_elapsed_time(e.e, f.e); }, &msg);
            if (raised != (!f.timing || !f.recorded)) fail("jit_event_elapsed_time(): %s", raised ? msg.c_str() : "no exception");
            if (!raised) {
                if (sh.ran.load() < std::max(e.after, f.after)) fail("jit_event_elapsed_time() returned before the events completed");
                if (!(dt == dt)) fail("jit_event_elapsed_time(): %f", dt);
                if (i == j && dt != 0) fail("jit_event_elapsed_time(): %f between an event and itself", dt);
            }
        }
    }
    void misuse() {
        std::string msg;
        uint8_t tmp[64];
        switch (s.below(5)) {
            case 0: if (jit_malloc(BE, 0, 0) || jit_malloc(JitBackend::None, 0, 1)) fail("jit_malloc(0) does not return a null pointer");
                jit_free(nullptr);
                if (jit_malloc_migrate(nullptr, JitBackend::None, 1)) fail("jit_malloc_migrate(nullptr)");
                s.note("null pointers"); break;
            case 1: if (!raises([&] { jit_free(tmp); })) fail("jit_free() accepted an unknown address"); s.note("free unknown"); break;
            case 2: if (!raises([&] { jit_malloc_migrate(tmp, BE, 1); })) fail("jit_malloc_migrate() accepted an unknown address"); s.note("migrate unknown"); break;
            case 3: if (freed.empty()) return; { uint8_t *p = *freed.begin(); if (!raises([&] { jit_free(p); })) fail("jit_free() accepted a block that was already freed"); s.note("double free"); break; }
            default:
                if (blocks.empty()) return;
                { Blk &b = blocks[pick_block()];
                  if (jit_malloc_device(b.p) != -1) fail("jit_malloc_device()");
                  if (!raises([&] { jit_malloc_device(b.p + 1); })) fail("jit_malloc_device() accepted an unknown address"); }
                s.note("device query"); break;
        }
    }
    void oom() {
        if (sh.ran.load() != funcs.size()) sync(2);
        size_t n = s.pick<size_t>({ (size_t) 1 << 47, (size_t) 1 << 50, ((size_t) 1 << 51) + 1, (size_t) 1 << 52, (size_t) 1 << 60, (size_t) 1 << 63, SIZE_MAX, SIZE_MAX - 63, ((size_t) 1 << 63) + 1 });
        JitBackend be = s.flip() ? JitBackend::None : BE;
        bool shd = s.flip();
        s.note("allocate 2^%.1f bytes", log2((double) n));
        void *p = nullptr;
        if (!raises([&] { p = jit_malloc(be, n, shd); })) fail("jit_malloc(%zu) returned %p instead of raising an exception", n, p);
        // Caches were flushed to make room, which synchronizes; the accounting must not be affected
        flush_check();
    }
    void step(Kind k) {
        if (blocks.empty() && k != KSync && k != KFunc && k != KEvent && k != KMisuse && k != KFlush) k = KAlloc;
        switch (k) {
            case KAlloc: if (blocks.size() < 12) alloc(); break;
            case KFree: { size_t i = pick_block(); if (can_free(blocks[i])) do_free(i); break; }
            case KMemset: memset_op(); break;
            case KCopy: copy(false); break;
            case KSyncCopy: copy(true); break;
            case KHostWrite: host_write(); break;
            case KHostCheck: verify_host("at a host access"); break;
            case KFunc: func(); break;
            case KMigrate: if (blocks.size() < 12) migrate(); break;
            case KFlush: s.note("flush"); flush_check(); break;
            case KSync: { int how = (int) s.below(3); s.note("sync %i", how); verify_all(how, "after synchronization"); break; }
            case KKernel: kernel(); break;
            case KScatter: scatter(); break;
            case KRead: read(); break;
            case KReduce: reduce(); break;
            case KPrefix: prefix(); break;
            case KCompress: compress(); break;
            case KMap: map_owned(); break;
            case KMemCopy: mem_copy(); break;
            case KEvent: event(); break;
            case KProgress: if (cfg.mode == 1) vt_progress((uint32_t) (1 + s.below(6))); else std::this_thread::yield(); break;
            case KMisuse: misuse(); break;
            case KStats: stats(); break;
            case KOom: oom(); break;
            case KFlushKernels: jit_flush_kernel_cache(); s.note("flush the kernel cache"); break;
            default: break;
        }
        check_error();
    }
    void finish() {
        verify_all((int) s.below(3), "at the end");
        for (auto &h : funcs) if (h->count.load() != 1) fail("host function %lu ran %i times", (unsigned long) h->seq, h->count.load());
        flush_check();
        while (!blocks.empty()) do_free(blocks.size() - 1);
        flush_check();
        for (auto &e : events) jit_event_destroy(e.e);
        sync(0);
        s.tag("allocations", n_alloc); s.tag("reused blocks", n_reused); s.tag("asynchronous operations", n_async); s.tag("freed with pending work", n_pending_free);
        s.tag("migrations", n_migr); s.tag("host functions", n_func); s.tag("event operations", n_events); s.tag("kernels", n_kernels); s.tag("cache flushes", n_flush);
    }
};

inline void run_history(Src &s, const std::vector<uint32_t> &w, uint32_t steps, bool order) {
    Config c = gen_config(s);
    if (s.chance(1, 5)) c.mode = 0;
    apply_config(c);
    Machine m(s, c);
    s.note("%s", c.str().c_str());
    m.start();
    uint64_t sum = 0;
    for (uint32_t x : w) sum += x;
    for (uint32_t i = 0; i < steps; ++i) {
        uint64_t r = s.below(sum); uint32_t k = 0;
        while (r >= w[k]) r -= w[k++];
        m.step((Kind) k);
    }
    m.finish();
    if (order ? (m.n_func && m.n_kernels && m.n_async >= 5) : (m.n_reused && m.n_async && m.n_pending_free)) s.nontrivial();
    end_case();
}
} // namespace blk
