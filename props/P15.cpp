// P15: structural array operations and bulk memory operations move exactly the documented elements
#include "mem.h"
using namespace jx;

namespace {
constexpr uint8_t Guard = 0xA5;
struct H { Var v; Arr a; std::string name; };

struct Run {
    Src &s; Foreign mem;
    std::vector<H> hs;
    std::vector<uint8_t *> alive_mem;
    uint32_t ops = 0, ctr_name = 0;
    Run(Src &s) : s(s) {}
    ~Run() { hs.clear(); }
    size_t gen_n() { return s.chance(1, 6) ? 1 : s.chance(1, 10) ? 200 + s.below(thorough() ? 20000 : 3000) : (size_t) s.small(2, 100); }
    void add(Var v, Arr a, std::string name) {
        s.note("h%u = %s %s", ctr_name, name.c_str(), a.str(10).c_str());
        hs.push_back({ std::move(v), std::move(a), strf("h%u (%s)", ctr_name++, name.c_str()) });
        ops++;
    }
    void create() {
        VarType t = s.pick(all_types());
        size_t n = gen_n();
        Arr a = gen_arr(s, t, n);
        if (is_bool(t)) for (auto &x : a.v) x = x != 0;
        switch (s.below(10)) {
            case 0: { auto b = a.bytes(); Var v = steal(jit_var_mem_copy(BE, t, b.data(), n, 1)); memset(b.data(), Guard, b.size()); add(v, a, "mem_copy"); break; }
            case 1: a = Arr(t, n, a.v[0]); add(literal(t, a.v[0], n, s.flip()), a, "literal"); break;
            case 2: { for (size_t i = 0; i < n; ++i) a.v[i] = i; a.t = VarType::UInt32; add(ctr(n), a, "counter"); break; }
            case 3: add(mem.map(s, a, s.flip()), a, "mapped"); break;
            case 4: { // memory owned by the library
                uint8_t *p = (uint8_t *) jit_malloc(BE, n * tsize(t));
                auto b = a.bytes();
                if (s.flip()) { jit_sync_thread(); memcpy(p, b.data(), n * tsize(t)); } else jit_memcpy(BE, p, b.data(), n * tsize(t));
                add(steal(jit_var_mem_map(BE, t, p, n, 1)), a, "owned memory"); break;
            }
            case 5: { Var v = make(s, a, Lazy); add(v, a, "expression"); break; }
            case 6: { // pending writes
                Arr init = gen_arr(s, t, n); if (is_bool(t)) for (auto &x : init.v) x = x != 0;
                Var v = upload(init), ix = ctr(n), pv = upload(a), m = boolean(true);
                if (n == 1) ix = u32(0);
                add(steal(jit_var_scatter(v.id(), pv.id(), ix.id(), m.id())), a, "dirty"); break;
            }
            case 7: { a = Arr(t, 1, a.v[0]); Form f = s.pick({ Memory, Lazy, Scalar }); Var v = make(s, a, f); add(v, a, "scalar"); break; }
            case 8: { // part of an array
                size_t m = n + s.below(20), k = s.below(m - n + 1);
                Arr big = gen_arr(s, t, m); if (is_bool(t)) for (auto &x : big.v) x = x != 0;
                for (size_t i = 0; i < n; ++i) a.v[i] = big.v[i + k];
                Var src = upload(big), c = ctr(n), o = u32((uint32_t) k), tr = boolean(true);
                Var ix = n == 1 ? o : steal(jit_var_add(c.id(), o.id()));
                add(steal(jit_var_gather(src.id(), ix.id(), tr.id())), a, "gathered"); break;
            }
            default: add(upload(a), a, "uploaded");
        }
    }
    H &any() { return hs[s.below(hs.size())]; }
    void op() {
        if (hs.empty() || (hs.size() < 10 && s.chance(1, 4))) return create();
        if (hs.size() > 12) { hs.erase(hs.begin() + (long) s.below(hs.size())); }
        size_t hi = s.below(hs.size());
        H h = hs[hi];
        size_t n = h.a.size();
        VarType t = h.a.t;
        Arr r(t, 0);
        std::string msg;
        switch (s.below(13)) {
            case 0: { size_t k = s.chance(1, 5) ? n : 1 + s.below(n); r.v.assign(h.a.v.begin(), h.a.v.begin() + (long) k); add(steal(jit_var_shrink(h.v.id(), k)), r, "shrink of " + h.name); s.tag("shrink"); break; }
            case 1: { r.v.assign(h.a.v.rbegin(), h.a.v.rend()); add(steal(jit_var_reverse(h.v.id())), r, "reverse of " + h.name); s.tag("reverse"); break; }
            case 2: { uint32_t k = 1 + (uint32_t) s.below(5); if (n * k > 60000) return; for (uint32_t j = 0; j < k; ++j) r.v.insert(r.v.end(), h.a.v.begin(), h.a.v.end()); add(steal(jit_var_tile(h.v.id(), k)), r, strf("tile x%u of ", k) + h.name); s.tag("tile"); break; }
            case 3: {
                uint32_t k = 1 + (uint32_t) s.below(5); if (n * k > 60000) return;
                size_t mx = s.flip() ? 0 : 1 + s.below(n * k + 3);
                for (uint64_t x : h.a.v) r.v.insert(r.v.end(), k, x);
                if (mx && r.size() > mx) r.v.resize(mx);
                add(steal(jit_var_repeat(h.v.id(), k, mx)), r, strf("repeat x%u (max %zu) of ", k, mx) + h.name); s.tag("repeat"); break;
            }
            case 4: add(steal(jit_var_copy(h.v.id())), h.a, "copy of " + h.name); s.tag("copy"); break;
            case 5: add(steal(jit_var_copy_opaque(h.v.id())), h.a, "opaque copy of " + h.name); s.tag("copy_opaque"); break;
            case 6: { // resize; our additional reference to the variable keeps it unchanged
                size_t k = s.chance(1, 4) ? n : 1 + s.below(200);
                bool lit = jit_var_state(h.v.id()) == VarState::Literal;
                uint32_t o = 0;
                bool up = raises([&] { o = jit_var_resize(h.v.id(), k); }, &msg);
                bool ok = n == 1 || k == n || lit;
                if (up == ok) fail("resize(%s, %zu) %s", h.name.c_str(), k, up ? ("raised: " + msg).c_str() : "was accepted");
                if (up) { s.tag("invalid resize"); return; }
                r = k == n ? h.a : Arr(t, k, h.a.v[0]);
                add(steal(o), r, strf("resize to %zu of ", k) + h.name); s.tag("resize"); break;
            }
            case 7: { // element read
                size_t i = s.chance(1, 10) ? n + s.below(3) : s.below(n);
                uint64_t x[2] = { ~0ull, ~0ull };
                bool up = raises([&] { jit_var_read(h.v.id(), i, x); }, &msg);
                if (i >= n && n > 1) { if (!up) fail("read of element %zu of %s was accepted", i, h.name.c_str()); s.tag("invalid read"); return; }
                if (up) fail("read of element %zu of %s raised: %s", i, h.name.c_str(), msg.c_str());
                uint64_t y = 0; memcpy(&y, x, tsize(t));
                s.note("read %s[%zu]", h.name.c_str(), i);
                if (!same(t, y, h.a.at(n == 1 ? 0 : i))) fail("element %zu of %s reads as %s instead of %s", i, h.name.c_str(), vstr(t, y).c_str(), vstr(t, h.a.at(i)).c_str());
                uint8_t *tail = (uint8_t *) x;
                for (uint32_t k = tsize(t); k < 16; ++k) if (tail[k] != 0xff) fail("read of %s wrote more than one element", h.name.c_str());
                s.tag("read"); break;
            }
            case 8: { // element write
                size_t i = s.chance(1, 10) ? n + s.below(3) : s.below(n);
                uint64_t x = gen_value(s, t); if (is_bool(t)) x = x != 0;
                uint32_t o = 0;
                if (s.flip()) { hs.erase(hs.begin() + (long) hi); s.tag("last handle"); } // may be written in place
                bool up = raises([&] { o = jit_var_write(h.v.id(), i, &x); }, &msg);
                if (i >= n) { if (!up) { steal(o); fail("write of element %zu of %s was accepted", i, h.name.c_str()); } s.tag("invalid write"); return; }
                if (up) fail("write of %s raised: %s", h.name.c_str(), msg.c_str());
                r = h.a; r.v[i] = x;
                add(steal(o), r, strf("write [%zu] = %s to ", i, vstr(t, x).c_str()) + h.name); s.tag("write"); break;
            }
            case 9: { JitBackend b = s.pick({ BE, JitBackend::None }); Var m = steal(jit_var_migrate(h.v.id(), b)); jit_sync_thread(); add(m, h.a, std::string("migrate to ") + (b == BE ? "llvm: " : "host: ") + h.name); s.tag("migrate"); break; }
            case 10: { // whole array through raw memory
                auto b = h.a.bytes(); size_t len = n * tsize(t);
                void *p = nullptr; Var d = steal(jit_var_data(h.v.id(), &p));
                std::vector<uint8_t> out(len + 32, Guard);
                if (s.flip()) jit_memcpy(BE, out.data() + 16, p, len); else { jit_memcpy_async(BE, out.data() + 16, p, len); jit_sync_thread(); }
                s.note("memcpy of %s", h.name.c_str());
                for (size_t i = 0; i < n; ++i) { uint64_t y = 0; memcpy(&y, &out[16 + i * tsize(t)], tsize(t)); if (!same(t, y, h.a.v[i])) fail("memcpy of %s: element %zu is %s", h.name.c_str(), i, vstr(t, y).c_str()); }
                for (size_t i = 0; i < 16; ++i) if (out[i] != Guard || out[16 + len + i] != Guard) fail("memcpy wrote out of bounds");
                s.tag("memcpy"); break;
            }
            case 11: if (s.flip()) { jit_var_schedule(h.v.id()); s.note("schedule %s", h.name.c_str()); } else { jit_eval(); s.note("eval"); } break;
            default: { // copy into a buffer that is released right after
                auto b = h.a.bytes();
                uint8_t *p = (uint8_t *) jit_malloc(BE, n * tsize(t));
                jit_sync_thread(); // (the memory may be in use by earlier work)
                memcpy(p, b.data(), n * tsize(t));
                Var v = steal(jit_var_mem_copy(BE, t, p, n, 0));
                jit_free(p);
                // The allocation is recycled
                uint8_t *q = (uint8_t *) jit_malloc(BE, n * tsize(t));
                jit_memset_async(BE, q, (uint32_t) (n * tsize(t)), 1, &Guard);
                jit_free(q);
                add(v, h.a, "device copy"); s.tag("device copy");
            }
        }
    }
    // ---- Bulk operations on guarded memory ----
    void raw() {
        ops++;
        size_t total = 64 + s.below(4000);
        uint8_t *buf = (uint8_t *) jit_malloc(BE, total + 128);
        std::vector<uint8_t> model(total + 128);
        for (size_t i = 0; i < model.size(); ++i) model[i] = (uint8_t) (i * 37 + 11);
        jit_sync_thread();
        memcpy(buf, model.data(), model.size());
        size_t k = 1 + s.below(8);
        std::vector<std::vector<uint8_t>> keep; keep.reserve(64);
        std::vector<void *> aggs;
        std::vector<std::unique_ptr<uint64_t[]>> srcs;
        for (size_t j = 0; j < k; ++j) switch (s.below(4)) {
            case 0: {
                uint32_t is = s.pick({ 1u, 2u, 4u, 8u });
                size_t n = s.below(total / is + 1), o = s.below((total - n * is) / is + 1) * is;
                uint64_t x = s.chance(1, 3) ? 0 : s.bits();
                s.note("memset(+%zu, %zu x %u, %lx)", o, n, is, (unsigned long) x);
                jit_memset_async(BE, buf + 64 + o, (uint32_t) n, is, &x);
                for (size_t i = 0; i < n; ++i) memcpy(&model[64 + o + i * is], &x, is);
                s.tag("memset"); break;
            }
            case 1: { // copy between disjoint regions
                size_t n = s.below(total / 2 + 1), a = s.below(total / 2 - n + 1), b = total / 2 + s.below(total / 2 - n + 1);
                if (s.flip()) std::swap(a, b);
                s.note("memcpy(+%zu <- +%zu, %zu)", a, b, n);
                if (s.flip()) jit_memcpy_async(BE, buf + 64 + a, buf + 64 + b, n); else jit_memcpy(BE, buf + 64 + a, buf + 64 + b, n);
                memcpy(&model[64 + a], &model[64 + b], n);
                s.tag("memcpy"); break;
            }
            case 2: { // aggregate records
                size_t n = 1 + s.below(s.chance(1, 4) ? 200 : 10);
                AggregationEntry *agg = (AggregationEntry *) jit_malloc(BE, n * sizeof(AggregationEntry), 1);
                jit_sync_thread();
                srcs.emplace_back(new uint64_t[n]);
                size_t pos = 0, used = 0;
                for (size_t i = 0; i < n; ++i) {
                    uint32_t is = s.pick({ 1u, 2u, 4u, 8u });
                    pos = (pos + is - 1) / is * is + is * s.below(3);
                    if (pos + is > total) break;
                    uint64_t x = s.bits();
                    srcs.back()[i] = x;
                    bool lit = s.flip();
                    agg[i].size = (int16_t) (lit ? (int) is : -(int) is);
                    agg[i].resource_kind = 0;
                    agg[i].offset = (uint32_t) pos;
                    agg[i].src = lit ? (const void *) (uintptr_t) x : &srcs.back()[i];
                    memcpy(&model[64 + pos], &x, is);
                    pos += is; used++;
                }
                s.note("aggregate %zu records", used);
                if (used) jit_aggregate(BE, buf + 64, agg, (uint32_t) used);
                jit_free(agg);
                s.tag("aggregate"); break;
            }
            default: { // migration to the host and back preserves the contents
                int mv = (int) s.below(2);
                uint8_t *p = (uint8_t *) jit_malloc_migrate(buf, JitBackend::None, mv);
                jit_sync_thread();
                s.note("migrate(%d)", mv);
                if (memcmp(p, model.data(), model.size())) fail("jit_malloc_migrate() to the host changed the contents");
                uint8_t *q = (uint8_t *) jit_malloc_migrate(p, BE, 1);
                if (!mv) jit_free(buf);
                buf = q;
                s.tag("malloc_migrate");
            }
        }
        jit_sync_thread();
        for (size_t i = 0; i < model.size(); ++i) if (buf[i] != model[i]) { uint8_t g = buf[i]; jit_free(buf); fail("byte %ld of the buffer (size %zu) is %02x instead of %02x", (long) i - 64, total, g, model[i]); }
        jit_free(buf);
    }
};

void run(Src &s) {
    Config cfg = gen_config(s);
    apply_config(cfg);
    s.note("%s", cfg.str().c_str());
    Run r(s);
    size_t k = 2 + s.below(10);
    for (size_t i = 0; i < k; ++i) { if (s.chance(1, 6)) r.raw(); else r.op(); }
    bool all = s.flip();
    if (all) { for (auto &h : r.hs) jit_var_schedule(h.v.id()); jit_eval(); }
    for (auto &h : r.hs) {
        if (jit_var_size(h.v.id()) != h.a.size()) fail("size of %s is %zu instead of %zu", h.name.c_str(), jit_var_size(h.v.id()), h.a.size());
        expect(h.v, h.a, h.name.c_str());
    }
    if (r.ops > 2) s.nontrivial();
    r.hs.clear();
    end_case();
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P15";
    p.rule = "A case creates arrays of every type from host memory, device memory, literals, counters, mapped (aligned or unaligned) memory, expressions, pending writes and gathers and applies 2-11 operations to them and to "
             "their results: shrink, reverse, tile, repeat, copy, opaque copy, resize, element reads and writes, migration, bulk copies; or issues a chain of memset/memcpy/aggregate/migrate operations on a guarded buffer. All "
             "arrays are compared at the end. Non-trivial: more than two arrays or chains.";
    p.setup = init_process;
    p.run = run;
    return p;
}
