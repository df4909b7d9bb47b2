// P19: the instance registry is a bijection between pointers and small IDs
#include "jx.h"
#include <thread>
#include <atomic>
using namespace jx;

namespace {
// Equal strings at different addresses; names that are prefixes or swaps of each other
char variants[4][2][16] = { { "LLVM", "LLVM" }, { "CUDA", "CUDA" }, { "A", "A" }, { "", "" } };
char domains[6][2][16] = { { "Base", "Base" }, { "BaseX", "BaseX" }, { "A", "A" }, { "", "" }, { "LLVM", "LLVM" }, { "x_7", "x_7" } };
constexpr size_t NP = 4096;
alignas(4096) uint8_t pool[NP * 64];

struct Dom { std::map<uint32_t, void *> live; };
struct Model {
    std::map<std::pair<int, int>, Dom> d;
    std::map<void *, std::pair<std::pair<int, int>, uint32_t>> rev; // id 0: cleared
    uint32_t bound(std::pair<int, int> k) { auto &l = d[k].live; return l.empty() ? 0 : l.rbegin()->first; }
    uint32_t lowest(std::pair<int, int> k) { uint32_t i = 1; for (auto &e : d[k].live) { if (e.first != i) break; i++; } return i; }
};
struct Reg {
    Src &s; Model m; uint32_t ops = 0, reused = 0, removed = 0, misuse = 0;
    std::vector<std::pair<int, int>> keys;
    Reg(Src &s) : s(s) {}
    const char *V(int i) { return variants[i][s.below(2)]; }
    const char *D(int i) { return domains[i][s.below(2)]; }
    std::pair<int, int> key() { return s.pick(keys); }
    void put(std::pair<int, int> k, void *p) {
        uint32_t want = m.lowest(k), b = m.bound(k);
        uint32_t id = jit_registry_put(V(k.first), D(k.second), p);
        s.note("put(%d, %d, p%zu) = %u", k.first, k.second, ((uint8_t *) p - pool) / 16, id);
        if (id != want) fail("registered under ID %u, but %u is the lowest free one", id, want);
        if (want < b) reused++;
        m.d[k].live[id] = p; m.rev[p] = { k, id };
        check_ptr(p);
        check_dom(k);
    }
    void remove(void *p) {
        s.note("remove(p%zu)", ((uint8_t *) p - pool) / 16);
        jit_registry_remove(p);
        auto e = m.rev[p];
        m.rev.erase(p);
        if (e.second) { m.d[e.first].live.erase(e.second); removed++; check_id(e.first, e.second); check_dom(e.first); }
        std::string msg;
        if (!raises([&] { jit_registry_id(p); }, &msg)) fail("a removed pointer still has an ID");
    }
    void check_ptr(void *p) {
        auto &e = m.rev[p];
        uint32_t id = jit_registry_id(p);
        if (id != e.second) fail("jit_registry_id() is %u instead of %u", id, e.second);
        if (id) check_id(e.first, id);
        // Variable that refers to the instance
        if (s.chance(1, 8)) {
            Var v = steal(jit_var_class(BE, p));
            expect(v, Arr(VarType::UInt32, 1, e.second), "jit_var_class");
        }
    }
    void check_id(std::pair<int, int> k, uint32_t id) {
        auto &l = m.d[k].live;
        void *want = l.count(id) ? l[id] : nullptr, *got = nullptr;
        // IDs beyond those ever used may be rejected
        if (raises([&] { got = jit_registry_ptr(V(k.first), D(k.second), id); })) got = nullptr;
        if (got != want) fail("jit_registry_ptr(%u) is %p instead of %p", id, got, want);
    }
    void check_dom(std::pair<int, int> k) {
        auto &l = m.d[k].live;
        uint32_t b = jit_registry_id_bound(V(k.first), D(k.second)), want = m.bound(k);
        if (b != want) fail("the ID bound of (%d, %d) is %u instead of %u", k.first, k.second, b, want);
        void *peek = jit_registry_peek(V(k.first), D(k.second));
        bool ok = l.empty() && !peek;
        if (!l.empty()) { auto it = m.rev.find(peek); ok = it != m.rev.end() && it->second.second && it->second.first == k; }
        if (!ok) fail("jit_registry_peek(%d, %d) returned %p", k.first, k.second, peek);
        if (l.size() < 40 || s.chance(1, 10)) {
            std::vector<void *> dst(b + 8, nullptr);
            jit_registry_get_pointers(V(k.first), D(k.second), dst.data());
            for (uint32_t i = 0; i < b + 8; ++i) {
                void *w = l.count(i + 1) ? l[i + 1] : nullptr;
                if (dst[i] != w) fail("jit_registry_get_pointers(%d, %d): entry %u is %p instead of %p", k.first, k.second, i, dst[i], w);
            }
        }
    }
    void check_all() {
        for (int v = 0; v < 4; ++v) for (int d = 0; d < 6; ++d) {
            check_dom({ v, d });
            for (uint32_t i = 1; i <= m.bound({ v, d }) + 2; ++i) check_id({ v, d }, i);
        }
        for (auto &e : m.rev) if (jit_registry_id(e.first) != e.second.second) fail("wrong ID of a live pointer");
    }
    void *fresh(size_t range) {
        for (int i = 0; i < 20; ++i) { void *p = pool + 16 * s.below(range); if (!m.rev.count(p)) return p; }
        for (size_t i = 0; i < NP * 4; ++i) if (!m.rev.count(pool + 16 * i)) return pool + 16 * i;
        return nullptr;
    }
    void *live() { if (m.rev.empty()) return nullptr; auto it = m.rev.begin(); std::advance(it, s.below(m.rev.size())); return it->first; }
    void misuse_step() {
        misuse++;
        std::string msg;
        void *p = live();
        auto k = key();
        switch (s.below(4)) {
            case 0: if (!p) return; s.note("put again"); if (!raises([&] { jit_registry_put(V(k.first), D(k.second), p); })) fail("a pointer could be registered twice"); check_ptr(p); break;
            case 1: s.note("put null"); if (!raises([&] { jit_registry_put(V(k.first), D(k.second), nullptr); })) fail("a null pointer could be registered"); break;
            case 2: { s.note("remove unregistered"); void *q = fresh(NP * 4); if (!raises([&] { jit_registry_remove(q); })) fail("an unregistered pointer could be removed");
                      if (!raises([&] { jit_registry_id(q); })) fail("an unregistered pointer has an ID"); break; }
            default: if (jit_registry_id(nullptr)) fail("the null pointer has an ID"); if (jit_registry_ptr(V(k.first), D(k.second), 0)) fail("ID zero has a pointer"); check_id(k, m.bound(k) + 1 + (uint32_t) s.below(100)); break;
        }
        check_dom(k);
    }
    /// Threads register and remove their own pointers
    void concurrent() {
        size_t nt = 2 + s.below(3), per = 4 + s.below(12), rounds = 3 + s.below(20);
        s.note("%zu threads x %zu pointers x %zu rounds", nt, per, rounds);
        std::vector<std::vector<void *>> own(nt);
        std::set<void *> taken;
        for (auto &o : own) while (o.size() < per) { void *p = pool + 16 * s.below(NP * 4); if (!m.rev.count(p) && taken.insert(p).second) o.push_back(p); }
        std::vector<uint64_t> seeds; for (size_t i = 0; i < nt; ++i) seeds.push_back(s.bits());
        std::vector<std::map<void *, std::pair<std::pair<int, int>, uint32_t>>> held(nt);
        std::vector<std::string> err(nt);
        std::map<std::pair<int, int>, uint32_t> before;
        for (auto &k : keys) before[k] = (uint32_t) m.d[k].live.size();
        std::vector<std::thread> th;
        for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
            Src q(seeds[t]);
            try {
                for (size_t r = 0; r < rounds; ++r) {
                    void *p = own[t][q.below(per)];
                    if (held[t].count(p)) {
                        auto e = held[t][p];
                        if (jit_registry_id(p) != e.second) fail("thread %zu: ID changed", t);
                        if (jit_registry_ptr(variants[e.first.first][0], domains[e.first.second][0], e.second) != p) fail("thread %zu: ID %u maps to another pointer", t, e.second);
                        if (jit_registry_id_bound(variants[e.first.first][0], domains[e.first.second][0]) < e.second) fail("thread %zu: ID bound too small", t);
                        jit_registry_remove(p); held[t].erase(p);
                    } else {
                        auto k = keys[q.below(keys.size())];
                        uint32_t id = jit_registry_put(variants[k.first][1], domains[k.second][1], p);
                        if (id < 1 || id > before[k] + nt * per) fail("thread %zu: ID %u is larger than the number of instances", t, id);
                        held[t][p] = { k, id };
                    }
                }
            } catch (vt::Fail &f) { err[t] = f.msg; } catch (std::exception &e) { err[t] = e.what(); }
        });
        for (auto &t : th) t.join();
        for (auto &e : err) if (!e.empty()) fail("%s", e.c_str());
        for (auto &h : held) for (auto &e : h) {
            auto &l = m.d[e.second.first].live;
            if (!l.emplace(e.second.second, e.first).second) fail("ID %u was handed out twice", e.second.second);
            m.rev[e.first] = e.second;
        }
        check_all();
    }
};
void run(Src &s) {
    jit_set_flags((uint32_t) JitFlag::Default);
    Reg r(s);
    size_t nk = 1 + s.below(4);
    for (size_t i = 0; i < nk; ++i) r.keys.push_back({ (int) s.below(4), (int) s.below(6) });
    size_t range = s.pick<size_t>({ 16, 64, 300, NP * 4 });
    if (s.chance(1, 4)) { // many instances
        size_t k = s.below(thorough() ? 600 : 200); auto key = r.key();
        for (size_t i = 0; i < k; ++i) { void *p = r.fresh(NP * 4); r.put(key, p); }
    }
    size_t steps = 10 + s.below(thorough() ? 150 : 60);
    uint32_t wr = (uint32_t) s.pick<uint32_t>({ 3, 6 });
    for (size_t i = 0; i < steps; ++i) {
        r.ops++;
        switch (s.weighted({ 6, wr, 1, 1, 0 })) {
            case 0: { void *p = r.fresh(range); if (p) r.put(r.key(), p); break; }
            case 1: { void *p = r.live(); if (p) r.remove(p); break; }
            case 2: r.misuse_step(); break;
            default: { void *p = r.live(); if (p) r.check_ptr(p); r.check_dom({ (int) s.below(4), (int) s.below(6) }); }
        }
        if (s.chance(1, 60)) {
            s.note("clear");
            jit_registry_clear();
            for (auto &e : r.m.rev) e.second.second = 0;
            for (auto &d : r.m.d) d.second.live.clear();
            r.check_all();
        }
        if (s.chance(1, 40)) r.concurrent();
    }
    r.check_all();
    while (!r.m.rev.empty()) r.remove(s.flip() ? r.m.rev.begin()->first : r.m.rev.rbegin()->first);
    r.check_all();
    s.tag("operations", r.ops); s.tag("reused IDs", r.reused); s.tag("removals", r.removed); s.tag("misuse", r.misuse);
    if (r.reused && r.removed) s.nontrivial();
    end_case();
}
void setup() {
    init_process();
    // Pointers that are still registered during shutdown can be removed afterwards
    jit_registry_put("LLVM", "Base", pool);
    jit_set_log_level_callback(LogLevel::Disable, nullptr);
    jit_shutdown(0);
    jit_registry_remove(pool);
    init_process();
}
}
vt::Property vt::make_property() {
    Property p;
    p.id = "P19";
    p.rule = "Histories of registrations (1-4 of 24 variant/domain pairs, names at different addresses), removals, registry clears, misuse (duplicate, null, unregistered pointers, unknown IDs), lookups, concurrent phases "
             "(2-4 threads registering, looking up and removing their own pointers) over a pool of up to 16384 pointers, compared after every step with a map model: lowest free ID, "
             "pointer<->ID in both directions, ID bound, pointer list, peek. Non-trivial: an ID was removed and a hole was filled again.";
    p.setup = setup;
    p.run = run;
    return p;
}
