// P14: compaction and key sorting return exact stable permutations
#include "mem.h"
using namespace jx;

namespace {
constexpr uint8_t Guard = 0xA5;
struct Buf {
    std::unique_ptr<uint8_t[]> mem; uint8_t *p; size_t bytes;
    Buf(size_t n) : mem(new uint8_t[n + 256]), bytes(n) { memset(mem.get(), Guard, n + 256); p = (uint8_t *) (((uintptr_t) mem.get() + 127) & ~(uintptr_t) 63); }
    bool intact() const { for (size_t i = 0; i < 64; ++i) if (p[bytes + i] != Guard || p[-1 - (long) i] != Guard) return false; return true; }
};
size_t gen_n(Src &s) { return s.chance(1, 8) ? 1 : s.chance(1, 6) ? 500 + s.below(thorough() ? 40000 : 4000) : (size_t) s.small(2, 300); }

struct Instance { int x; };
Instance g_inst[40];

struct Run {
    Src &s; Foreign mem;
    uint32_t work = 0;
    std::map<uint32_t, uint32_t> ids; // registry id -> instance
    bool registered = false;
    struct Keys { Var v; Arr a; uint32_t bound; };
    std::vector<Keys> keys;
    Run(Src &s) : s(s) {}
    ~Run() { keys.clear(); if (registered) for (auto &p : ids) jit_registry_remove(&g_inst[p.second]); }

    // ---- Compaction ----
    void compress() {
        size_t n = gen_n(s);
        Arr m = gen_mask(s, n);
        if (s.chance(1, 4)) { Src q(s.bits()); uint64_t p = s.pick({ 200, 20, 3 }); for (auto &x : m.v) x = q.below(p) == 0; }
        if (s.chance(1, 10)) for (auto &x : m.v) x = 1;
        if (s.chance(1, 10)) for (auto &x : m.v) x = 0;
        Arr want(VarType::UInt32, 0);
        for (size_t i = 0; i < n; ++i) if (m.v[i]) want.v.push_back(i);
        s.note("compress %s", m.str(40).c_str());
        if (want.size() && want.size() < n) work++;
        if (s.chance(1, 3)) {
            Buf in(n), out(n * 4);
            for (size_t i = 0; i < n; ++i) in.p[i] = m.v[i] != 0;
            uint32_t c = jit_compress(BE, in.p, (uint32_t) n, (uint32_t *) out.p);
            if (c != want.size()) fail("jit_compress(): %u instead of %zu entries", c, want.size());
            for (size_t i = 0; i < c; ++i) if (((uint32_t *) out.p)[i] != want.v[i]) fail("jit_compress(): entry %zu is %u instead of %lu", i, ((uint32_t *) out.p)[i], (unsigned long) want.v[i]);
            if (!out.intact() || !in.intact()) fail("jit_compress() accessed memory out of bounds");
            for (size_t i = 0; i < n; ++i) if (in.p[i] != (m.v[i] != 0)) fail("jit_compress() modified its input");
            s.tag("jit_compress");
            return;
        }
        Var v;
        switch (s.below(6)) {
            case 0: case 1: v = upload(m); break;
            case 2: if (m.uniform()) v = literal(m, n); else v = upload(m); break;
            case 3: v = make(s, m, Lazy); break;
            case 4: v = mem.map(s, m, s.flip()); break;
            default: { // pending writes
                Arr init = gen_mask(s, n);
                v = upload(init);
                Var ix = ctr(n), pv = upload(m), t = boolean(true);
                if (n == 1) ix = u32(0);
                v = steal(jit_var_scatter(v.id(), pv.id(), ix.id(), t.id()));
            }
        }
        Var r = steal(jit_var_compress(v.id()));
        if (want.size() == 0) { if (r) { Arr g = fetch(r); fail("compress() of an empty mask returned %s", g.str().c_str()); } }
        else { if (!r) fail("compress() returned an empty array instead of %zu entries", want.size()); expect(r, want, "compress"); }
        expect(v, m, "mask after compress");
        s.tag("jit_var_compress");
    }

    // ---- Sorting ----
    Arr gen_keys(size_t n, uint32_t buckets) {
        Arr a(VarType::UInt32, n);
        Src q(s.bits());
        uint64_t k = s.below(5), c = s.below(buckets);
        for (size_t i = 0; i < n; ++i)
            a.v[i] = k == 0 ? q.below(buckets) : k == 1 ? (q.chance(1, 8) ? q.below(buckets) : c) : k == 2 ? (i * 7 / 3) % buckets : k == 3 ? buckets - 1 - (i % buckets) : (q.flip() ? c : buckets - 1);
        return a;
    }
    void mkperm() {
        size_t n = gen_n(s);
        uint32_t buckets = s.chance(1, 6) ? 1 : s.chance(1, 6) ? 1000 + (uint32_t) s.below(5000) : (uint32_t) s.small(2, 40);
        size_t bs = s.flip() ? n : s.chance(1, 4) ? 1 + s.below(4) : 1 + s.below(n + 2);
        bool off = s.flip() && bs >= n;
        if (bs > n && off) bs = n;
        Arr a = gen_keys(n, buckets);
        s.note("mkperm n=%zu block=%zu buckets=%u offsets=%d keys=%s", n, bs, buckets, off, a.str(32).c_str());
        std::vector<uint32_t> want;
        for (size_t b = 0; b < n; b += bs) {
            std::vector<uint32_t> w;
            for (size_t i = b; i < std::min(n, b + bs); ++i) w.push_back((uint32_t) i);
            std::stable_sort(w.begin(), w.end(), [&](uint32_t x, uint32_t y) { return a.v[x] < a.v[y]; });
            want.insert(want.end(), w.begin(), w.end());
        }
        Buf in(n * 4), perm(n * 4), offs((buckets * 4 + 1) * 4);
        auto b = a.bytes(); memcpy(in.p, b.data(), n * 4);
        uint32_t u = jit_block_mkperm(BE, (uint32_t *) in.p, (uint32_t) n, (uint32_t) bs, buckets, (uint32_t *) perm.p, off ? (uint32_t *) offs.p : nullptr);
        jit_sync_thread();
        for (size_t i = 0; i < n; ++i) if (((uint32_t *) perm.p)[i] != want[i]) fail("jit_block_mkperm(): entry %zu is %u instead of %u", i, ((uint32_t *) perm.p)[i], want[i]);
        if (!perm.intact() || !in.intact() || !offs.intact()) fail("jit_block_mkperm() accessed memory out of bounds");
        if (memcmp(in.p, b.data(), n * 4)) fail("jit_block_mkperm() modified its input");
        if (off) {
            std::vector<std::array<uint32_t, 3>> w;
            for (size_t i = 0; i < n; ) { size_t j = i; while (j < n && a.v[want[j]] == a.v[want[i]]) ++j; w.push_back({ (uint32_t) a.v[want[i]], (uint32_t) i, (uint32_t) (j - i) }); i = j; }
            if (u != w.size()) fail("jit_block_mkperm(): %u instead of %zu unique keys", u, w.size());
            for (size_t i = 0; i < u; ++i) for (int k = 0; k < 3; ++k)
                if (((uint32_t *) offs.p)[i * 4 + k] != w[i][k]) fail("jit_block_mkperm(): offset entry %zu.%d is %u instead of %u", i, k, ((uint32_t *) offs.p)[i * 4 + k], w[i][k]);
        } else if (u != 0) fail("jit_block_mkperm(): returned %u without offsets", u);
        if (n > 1 && buckets > 1) work++;
        s.tag("mkperm"); if (bs < n) s.tag("mkperm blocks");
    }

    // ---- Buckets of calls ----
    void call_reduce() {
        bool reg = s.flip();
        if (reg && !registered) {
            registered = true;
            uint32_t k = 1 + (uint32_t) s.below(20);
            for (uint32_t i = 0; i < k; ++i) ids[jit_registry_put("llvm", "P14", &g_inst[i])] = i;
            s.note("registered %u instances", k);
        }
        if (reg && s.chance(1, 4)) { // an ID is assigned to another instance
            auto it = ids.begin(); std::advance(it, s.below(ids.size()));
            uint32_t id = it->first, old = it->second, nw = 20 + (uint32_t) s.below(20);
            bool used = false; for (auto &p : ids) used |= p.second == nw;
            if (!used) {
                jit_registry_remove(&g_inst[old]);
                uint32_t id2 = jit_registry_put("llvm", "P14", &g_inst[nw]);
                if (id2 != id) fail("registry: freed ID %u was not reused (%u)", id, id2);
                ids[id] = nw;
                s.note("ID %u now refers to another instance", id);
                s.tag("reassigned ID");
            }
        }
        Keys k;
        bool again = !keys.empty() && s.chance(1, 3);
        if (again) k = keys[s.below(keys.size())];
        else {
            size_t n = gen_n(s);
            if (reg) {
                uint32_t mx = 0; for (auto &p : ids) mx = std::max(mx, p.first);
                k.a = gen_keys(n, mx + 1);
                k.bound = 0;
            } else { k.bound = (uint32_t) s.small(1, 60); k.a = gen_keys(n, k.bound + 1); }
            Form f = s.pick({ Memory, Memory, Lazy, LiteralN });
            k.v = make(s, k.a, f);
            keys.push_back(k);
        }
        uint32_t bound = k.bound;
        if (again && k.a.size() > 1 && s.flip()) { // modify the keys in between
            size_t i = s.below(k.a.size());
            uint64_t x = k.a.v[s.below(k.a.size())];
            for (auto &o : keys) if (o.v.id() == k.v.id()) o.a.v[i] = x;
            k.a.v[i] = x;
            Var target = steal(k.v.id() ? k.v.release() : 0);
            // the only handle modifies the array in place
            for (auto it = keys.begin(); it != keys.end(); ++it) if (it->v.id() == target.id()) { keys.erase(it); break; }
            Var val = u32((uint32_t) x), ix = u32((uint32_t) i), t = boolean(true);
            if (s.flip()) { Var r = steal(jit_var_scatter(target.id(), val.id(), ix.id(), t.id())); target = std::move(r); }
            else { uint32_t xv = (uint32_t) x; Var r = steal(jit_var_write(target.id(), i, &xv)); target = std::move(r); }
            k.v = target;
            keys.push_back(k);
            s.note("modified entry %zu to %lu", i, (unsigned long) x);
            s.tag("modified keys");
        }
        s.note("call_reduce %s bound %u%s", k.a.str(32).c_str(), bound, again ? " (again)" : "");
        bool domain = bound == 0;
        uint32_t cnt = bound;
        CallBucket *b = jit_var_call_reduce(BE, domain ? "llvm" : nullptr, domain ? "P14" : nullptr, k.v.id(), &cnt);
        std::map<uint64_t, std::vector<uint64_t>> want;
        for (size_t i = 0; i < k.a.size(); ++i) want[k.a.v[i]].push_back(i);
        if (cnt != want.size()) fail("call_reduce(): %u instead of %zu buckets", cnt, want.size());
        std::set<uint32_t> seen;
        for (uint32_t i = 0; i < cnt; ++i) {
            if (!want.count(b[i].id) || !seen.insert(b[i].id).second) fail("call_reduce(): bucket %u has an invalid or repeated ID %u", i, b[i].id);
            auto &w = want[b[i].id];
            if (domain) {
                void *p = b[i].id ? (void *) &g_inst[ids.at(b[i].id)] : nullptr;
                if (b[i].ptr != p) fail("call_reduce(): bucket %u (ID %u) refers to the wrong instance", i, b[i].id);
            } else if (b[i].ptr) fail("call_reduce(): pointer without a domain");
            Arr wa(VarType::UInt32, w.size()); wa.v = w;
            expect(borrow(b[i].index), wa, strf("bucket of ID %u", b[i].id).c_str());
        }
        expect(k.v, k.a, "keys after call_reduce");
        if (want.size() > 1) work++;
        s.tag("call_reduce");
    }
};

void run(Src &s) {
    Config cfg = gen_config(s);
    if (s.chance(1, 2)) cfg.block = cfg.width * s.pick({ 1u, 1u, 2u, 4u });
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    Run r(s);
    size_t k = 1 + s.below(4);
    for (size_t i = 0; i < k; ++i)
        switch (s.below(3)) {
            case 0: r.compress(); break;
            case 1: r.mkperm(); break;
            default: r.call_reduce();
        }
    if (r.work) s.nontrivial();
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P14";
    p.rule = "A case runs 1-4 operations: mask compaction (of variables in every form, and of guarded memory), key sorting of guarded memory with arbitrary block size, bucket count and offsets, and the bucketing of "
             "indices or registered instances for calls (repeated on the same variable, also after modifying it). Compared entry by entry against a stable sort. Small scheduler blocks reach the code for several work units. "
             "Non-trivial: a partially set mask, several keys or several buckets.";
    p.setup = init_process;
    p.run = run;
    return p;
}
