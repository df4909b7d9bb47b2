// P26: containers of nanostl.h compared with the standard library
#include "vt.h"
#include <cmath>
#include <drjit-core/nanostl.h>
#include <set>
#include <memory>
#include <tuple>
#include <climits>
using vt::Src; using vt::fail; using vt::strf;

namespace {
// ---- Instrumented element ----------------------------------------------------
std::set<const void *> g_live; int64_t g_countdown = -1; // raise an exception at some construction
struct Boom { };
void tick() { if (g_countdown >= 0 && g_countdown-- == 0) throw Boom(); }
template <size_t Align> struct alignas(Align) Tok {
    uint32_t value = 0; bool moved = false;
    void born() { if ((uintptr_t) this % Align) fail("element is not aligned"); if (!g_live.insert(this).second) fail("element constructed over a living one"); }
    static const Tok &chk(const Tok &o) { if (!g_live.count(&o)) fail("access to an element that does not exist"); return o; }
    Tok() { tick(); born(); }
    Tok(uint32_t v) : value(v) { tick(); born(); }
    Tok(uint32_t a, uint32_t b) : value(a + b) { tick(); born(); }
    Tok(const Tok &o) : value(chk(o).value), moved(o.moved) { tick(); born(); }
    Tok(Tok &&o) noexcept : value(chk(o).value), moved(o.moved) { born(); o.moved = true; o.value = 0xdead; }
    ~Tok() { if (!g_live.erase(this)) fail("element destroyed twice"); }
    Tok &operator=(const Tok &o) { chk(*this); value = chk(o).value; moved = o.moved; return *this; }
    Tok &operator=(Tok &&o) noexcept { chk(*this); uint32_t v = chk(o).value; bool m = o.moved; o.moved = true; o.value = 0xdead; value = v; moved = m; return *this; }
    bool operator==(const Tok &o) const { return chk(*this).value == chk(o).value; }
    bool operator!=(const Tok &o) const { return !(*this == o); }
};

// ---- Vector --------------------------------------------------------------------
template <typename T> struct VecRun {
    Src &s; drjit::vector<T> v[3]; std::vector<uint32_t> m[3]; uint32_t next = 1, grown = 0;
    VecRun(Src &s) : s(s) {}
    void check(size_t i, const char *what) {
        auto &a = v[i]; auto &b = m[i];
        if (a.size() != b.size() || a.empty() != b.empty() || a.capacity() < a.size() || (size_t) (a.end() - a.begin()) != b.size())
            fail("%s: size %zu instead of %zu (capacity %zu)", what, a.size(), b.size(), a.capacity());
        const auto &ca = a;
        for (size_t k = 0; k < b.size(); ++k)
            if (T::chk(a[k]).value != b[k] || a.data()[k].moved || ca[k].value != b[k] || a.begin()[k].value != b[k])
                fail("%s: element %zu is %u instead of %u", what, k, a[k].value, b[k]);
        if (!b.empty() && (a.back().value != b.back() || ca.back().value != b.back())) fail("%s: last element", what);
    }
    void run() {
        size_t steps = 4 + s.below(60);
        for (size_t st = 0; st < steps; ++st) {
            size_t i = s.below(3), j = s.below(3); uint32_t x = next++; const char *what = "";
            auto &a = v[i]; auto &b = m[i]; size_t cap = a.capacity();
            switch (s.below(20)) {
                case 0: { what = "push_back"; T t(x); a.push_back(t); b.push_back(x); if (t.moved) fail("push_back() of a constant changed it"); break; }
                case 1: { what = "push_back(move)"; T t(x); a.push_back(std::move(t)); b.push_back(x); break; }
                case 2: { what = "emplace_back"; T &r = a.emplace_back(x, 3u); b.push_back(x + 3); if (&r != &a.back()) fail("emplace_back() returned the wrong element"); break; }
                case 3: if (b.empty()) break; { what = "push_back of an own element"; size_t k = s.below(b.size()); a.push_back(a[k]); b.push_back(uint32_t(b[k])); s.tag("own element"); break; }
                case 4: if (b.empty()) break; { what = "emplace_back of an own element"; size_t k = s.below(b.size()); a.emplace_back(a[k]); b.push_back(uint32_t(b[k])); break; }
                case 5: if (b.empty()) break; what = "pop_back"; a.pop_back(); b.pop_back(); break;
                case 6: { what = "resize"; size_t n = s.small(0, 40); a.resize(n); b.resize(n); break; }
                case 7: { what = "resize with a value"; size_t n = s.small(0, 40);
                          if (!b.empty() && s.flip()) { uint32_t y = b[0]; a.resize(n, a[0]); b.resize(n, y); } else { a.resize(n, T(x)); b.resize(n, x); } break; }
                case 8: { what = "reserve"; size_t n = s.small(0, 60); a.reserve(n); if (a.capacity() < n) fail("reserve(%zu): capacity %zu", n, a.capacity()); break; }
                case 9: what = "clear"; if (s.flip()) { a.clear(); b.clear(); } break;
                case 10: what = "assignment"; a = v[j]; if (i != j) b = m[j]; check(j, "source of an assignment"); break;
                case 11: what = "move assignment"; if (i == j) break; a = std::move(v[j]); b = m[j]; m[j].clear(); v[j].clear(); check(j, "moved-from vector"); break;
                case 12: what = "swap"; a.swap(v[j]); b.swap(m[j]); check(j, what); break;
                case 13: { what = "copy"; drjit::vector<T> c(a); if (!(c == a) || c != a) fail("a copy differs"); if (c.size() && c.data() == a.data()) fail("a copy shares memory");
                           c.push_back(T(x)); if (c == a || !(c != a)) fail("different vectors compare as equal"); a = c; b.push_back(x); break; }
                case 14: { what = "move construction"; drjit::vector<T> c(std::move(a)); if (a.size() || a.begin() != a.end()) fail("moved-from vector is not empty"); a = std::move(c); break; }
                case 15: { what = "construction with a size"; size_t n = s.small(0, 20); drjit::vector<T> c(n); a = std::move(c); b.assign(n, 0); break; }
                case 16: { what = "construction with a value"; size_t n = s.small(0, 20); drjit::vector<T> c(n, T(x)); a.swap(c); b.assign(n, x); break; }
                case 17: { what = "construction from a range"; size_t lo = s.below(m[j].size() + 1), hi = lo + s.below(m[j].size() - lo + 1);
                           const auto &src = v[j]; drjit::vector<T> c(src.begin() + lo, src.begin() + hi); std::vector<uint32_t> d(m[j].begin() + lo, m[j].begin() + hi); a = std::move(c); b = d; break; }
                case 18: { what = "equality"; bool e = m[i] == m[j]; if ((v[i] == v[j]) != e || (v[i] != v[j]) == e) fail("equality of two vectors"); break; }
                case 19: { what = "element assignment"; if (b.empty()) break; size_t k = s.below(b.size()); a[k] = T(x); b[k] = x; break; }
            }
            if (a.capacity() != cap) grown++;
            check(i, what); check(j, what);
            size_t n = 0; for (auto &q : m) n += q.size();
            if (g_live.size() != n) fail("%s: %zu elements exist, but the vectors contain %zu", what, g_live.size(), n);
        }
        s.tag("vector steps", steps);
    }
};
/// Exceptions raised by constructors of elements
template <typename T> void vec_throw(Src &s) {
    size_t n = 1 + s.below(12), k = s.below(n + 1);
    {
        drjit::vector<T> a; std::vector<uint32_t> m;
        for (size_t i = 0; i < n; ++i) { a.push_back(T((uint32_t) i + 1)); m.push_back((uint32_t) i + 1); }
        T extra(77u); size_t alive = g_live.size();
        auto attempt = [&](auto &&f) {
            g_countdown = (int64_t) k; bool raised = false;
            try { f(); } catch (const Boom &) { raised = true; }
            g_countdown = -1;
            return raised;
        };
        bool r;
        switch (s.below(5)) {
            case 0: r = attempt([&] { drjit::vector<T> c(a); }); break;
            case 1: r = attempt([&] { drjit::vector<T> c(n, extra); }); break;
            case 2: r = attempt([&] { drjit::vector<T> c(n); }); break;
            case 3: r = attempt([&] { drjit::vector<T> c((const T *) a.begin(), (const T *) a.end()); }); break;
            default: g_countdown = 0; r = false; try { a.push_back(extra); } catch (const Boom &) { r = true; } g_countdown = -1; if (!r) fail("harness: no exception");
        }
        if (r) s.tag("exceptions");
        if (g_live.size() != alive) fail("%zd elements leaked by an exception", (ssize_t) (g_live.size() - alive));
        for (size_t i = 0; i < n; ++i) if (a.size() != n || a[i].value != m[i]) fail("contents changed by an exception");
    }
    if (!g_live.empty()) fail("%zu elements leaked", g_live.size());
}
struct Tree { uint32_t id; drjit::vector<Tree> c; Tok<8> tok; Tree(uint32_t i = 0) : id(i), tok(i) {} };
struct MTree { uint32_t id; std::vector<MTree> c; };
size_t count(const MTree &t) { size_t n = 1; for (auto &c : t.c) n += count(c); return n; }
bool equal(const Tree &a, const MTree &b) {
    if (a.id != b.id || a.tok.value != b.id || a.c.size() != b.c.size()) return false;
    for (size_t i = 0; i < b.c.size(); ++i) if (!equal(a.c[i], b.c[i])) return false;
    return true;
}
void case_tree(Src &s) {
    {
        Tree t(1); MTree m{ 1, {} }; uint32_t next = 2; size_t steps = 5 + s.below(30);
        for (size_t st = 0; st < steps; ++st) {
            Tree *a = &t; MTree *b = &m;
            while (!b->c.empty() && s.flip()) { size_t k = s.below(b->c.size()); a = &a->c[k]; b = &b->c[k]; }
            switch (s.below(6)) {
                default: a->c.push_back(Tree(next)); b->c.push_back({ next, {} }); next++; break;
                case 3: if (!b->c.empty()) { size_t k = s.below(b->c.size()); a->c = std::move(a->c[k].c); auto q = std::move(b->c[k].c); b->c = std::move(q); s.tag("vector replaced by one of its element's"); } break;
                case 4: if (!b->c.empty()) { size_t k = s.below(b->c.size()); a->c = a->c[k].c; auto q = b->c[k].c; b->c = q; } break;
                case 5: if (!b->c.empty()) { size_t k = s.below(b->c.size()); a->c.emplace_back(a->c[k]); MTree q = b->c[k]; if (count(m) < 3000) b->c.push_back(q); else { a->c.pop_back(); } } break;
            }
            if (!equal(t, m)) fail("nested vectors differ from the model");
            if (g_live.size() != count(m)) fail("%zu elements exist instead of %zu", g_live.size(), count(m));
        }
    }
    if (!g_live.empty()) fail("%zu elements leaked", g_live.size());
    s.nontrivial();
}

// ---- Owning pointers -------------------------------------------------------------
struct BaseT { Tok<8> t; BaseT(uint32_t v) : t(v) {} virtual ~BaseT() { } };
struct Derived : BaseT { Tok<8> u; Derived(uint32_t v) : BaseT(v), u(v + 1) {} };
struct Link { Tok<8> t; drjit::unique_ptr<Link> next; Link(uint32_t v) : t(v) {} };
void case_pointers(Src &s) {
    {
        drjit::unique_ptr<BaseT> p[3]; int m[3] = { -1, -1, -1 }; bool d[3] = { };
        drjit::unique_ptr<Tok<8>[]> arr; std::vector<uint32_t> ma;
        drjit::unique_ptr<Link> head; std::vector<uint32_t> ml; uint32_t next = 1;
        size_t steps = 5 + s.below(40);
        for (size_t st = 0; st < steps; ++st) {
            size_t i = s.below(3), j = s.below(3); uint32_t x = next++;
            switch (s.below(15)) {
                case 0: p[i] = drjit::make_unique<BaseT>(x); m[i] = (int) x; d[i] = false; break;
                case 1: p[i] = drjit::make_unique<Derived>(x); m[i] = (int) x; d[i] = true; s.tag("derived class"); break;
                case 2: if (i == j) break; p[i] = std::move(p[j]); m[i] = m[j]; d[i] = d[j]; m[j] = -1; d[j] = false; break;
                case 3: p[i].reset(); m[i] = -1; d[i] = false; break;
                case 4: { BaseT *r = p[i].release(); if (p[i].get()) fail("release() kept the pointer"); if ((r != nullptr) != (m[i] >= 0)) fail("release() returned the wrong pointer"); 
                          if (s.flip()) p[j] = drjit::unique_ptr<BaseT>(r); else p[j].reset(r); int q = m[i]; bool e = d[i]; m[i] = -1; d[i] = false; m[j] = q; d[j] = e; break; }
                case 5: { drjit::unique_ptr<BaseT> t(std::move(p[i])); if (p[i]) fail("moved-from pointer is set"); p[i] = std::move(t); break; }
                case 6: { drjit::unique_ptr<Derived> q(new Derived(x)); drjit::unique_ptr<BaseT> t(std::move(q)); if (q) fail("moved-from pointer is set"); p[i] = std::move(t); m[i] = (int) x; d[i] = true; break; }
                case 7: { size_t n = 1 + s.below(9); arr = drjit::unique_ptr<Tok<8>[]>(new Tok<8>[n]); ma.assign(n, 0); break; }
                case 8: if (ma.empty()) break; { size_t k = s.below(ma.size()); arr[k].value = x; ma[k] = x; break; }
                case 9: arr.reset(); ma.clear(); break;
                case 10: case 11: { auto l = drjit::make_unique<Link>(x); l->next = std::move(head); head = std::move(l); ml.insert(ml.begin(), x); break; }
                case 12: if (ml.empty()) break; head = std::move(head->next); ml.erase(ml.begin()); s.tag("list head removed"); break;
                case 13: if (ml.size() < 2) break; head->next = std::move(head->next->next); ml.erase(ml.begin() + 1); break;
                case 14: if (p[i]) { auto &r = p[i]; p[i] = std::move(r); } break; // onto itself: unchanged
            }
            size_t n = ma.size() + ml.size();
            for (int k = 0; k < 3; ++k) {
                n += m[k] < 0 ? 0 : d[k] ? 2 : 1;
                if ((bool) p[k] != (m[k] >= 0) || !p[k] != (m[k] < 0)) fail("pointer %d is %s", k, p[k] ? "set" : "not set");
                if (m[k] >= 0 && (Tok<8>::chk(p[k]->t).value != (uint32_t) m[k] || p[k].get()->t.value != (uint32_t) m[k])) fail("pointer %d: wrong object", k);
            }
            for (size_t k = 0; k < ma.size(); ++k) if (arr[k].value != ma[k]) fail("array element %zu", k);
            const Link *l = head.get();
            for (uint32_t v : ml) { if (!l || Tok<8>::chk(l->t).value != v) fail("list differs from the model"); l = l->next.get(); }
            if (l) fail("list is too long");
            if (g_live.size() != n) fail("%zu objects exist instead of %zu", g_live.size(), n);
        }
    }
    if (!g_live.empty()) fail("%zu objects leaked", g_live.size());
    s.nontrivial();
}

// ---- Tuples ------------------------------------------------------------------------
struct Str { std::string s; Str(std::string s = "") : s(std::move(s)) {} Str(const Str &) = default; Str(Str &&o) noexcept : s(std::move(o.s)) { o.s.clear(); }
    Str &operator=(const Str &) = default; Str &operator=(Str &&o) noexcept { std::string t = std::move(o.s); o.s.clear(); s = t; return *this; } };
void case_tuples(Src &s) {
    auto str = [&] { std::string r; for (size_t k = s.below(6); k; --k) r += (char) ('a' + s.below(26)); return r; };
    Str a(str()), b(str()), c(str()), d(str()); std::string ma = a.s, mb = b.s, mc = c.s, md = d.s; int x = (int) s.below(100), mx = x;
    drjit::tuple<int, Str, Str> t(0, Str(), Str()); std::tuple<int, std::string, std::string> mt{ 0, "", "" };
    size_t steps = 3 + s.below(20);
    for (size_t st = 0; st < steps; ++st) {
        const char *what = "";
        switch (s.below(12)) {
            case 0: what = "make_tuple"; x = (int) s.bits(); mx = x; t = drjit::make_tuple(x, a, b); mt = std::make_tuple(mx, ma, mb); break;
            case 1: what = "assignment of tie()"; t = drjit::tie(x, c, d); mt = std::tie(mx, mc, md); s.tag("assignment of tie()"); break;
            case 2: what = "tie() = tuple"; drjit::tie(x, a, b) = t; std::tie(mx, ma, mb) = mt; break;
            case 3: what = "tie() = moved tuple"; { auto q = t; auto mq = mt; drjit::tie(x, c, d) = std::move(q); std::tie(mx, mc, md) = std::move(mq); } break;
            case 4: what = "swap by tie()"; { auto q = drjit::make_tuple(b, a); auto mq = std::make_tuple(mb, ma); drjit::tie(a, b) = q; std::tie(ma, mb) = mq; } break;
            case 5: what = "tie() = tie()"; { drjit::tie(a, b) = drjit::tie(c, d); ma = mc; mb = md; } break;
            case 6: what = "tie() = temporary tie()"; { drjit::tie(a, b) = drjit::tie(b, c); std::tie(ma, mb) = std::tie(mb, mc); } break;
            case 7: { what = "structured binding"; auto &[p, q, r] = t; p = 5; q.s += "x"; std::get<0>(mt) = 5; std::get<1>(mt) += "x"; if (&r != &drjit::get<2>(t)) fail("structured binding"); break; }
            case 8: { what = "get()"; drjit::get<1>(t) = Str(str()); std::get<1>(mt) = drjit::get<1>(t).s; const auto &ct = t; if (&drjit::get<1>(ct) != &drjit::get<1>(t)) fail("get() of a constant"); break; }
            case 9: { what = "get() of a moved tuple"; auto q = t; Str z(drjit::get<2>(std::move(q))); if (z.s != std::get<2>(mt)) fail("get() of a moved tuple"); if (!drjit::get<2>(q).s.empty()) fail("get() of a moved tuple made a copy"); break; }
            case 10: { what = "conversion"; drjit::tuple<short, Str, Str> q(drjit::make_tuple((short) 7, b, a)); t = q; if (drjit::get<1>(q).s != mb) fail("conversion changed its source"); mt = std::make_tuple(7, mb, ma); break; }
            case 11: { what = "converting construction"; drjit::tuple<long, Str, Str> q(t); if (drjit::get<0>(q) != std::get<0>(mt) || drjit::get<1>(q).s != std::get<1>(mt) || drjit::get<2>(q).s != std::get<2>(mt)) fail("converting construction");
                       drjit::tuple<Str &> r(a); drjit::tuple<Str> w(std::move(r)); if (drjit::get<0>(w).s != ma) fail("construction from a tuple of references"); break; }
        }
        if (x != mx || a.s != ma || b.s != mb || c.s != mc || d.s != md) fail("%s: variables are %d '%s' '%s' '%s' '%s' instead of %d '%s' '%s' '%s' '%s'", what, x, a.s.c_str(), b.s.c_str(), c.s.c_str(), d.s.c_str(), mx, ma.c_str(), mb.c_str(), mc.c_str(), md.c_str());
        if (drjit::get<0>(t) != std::get<0>(mt) || drjit::get<1>(t).s != std::get<1>(mt) || drjit::get<2>(t).s != std::get<2>(mt)) fail("%s: the tuple (%d, %s, %s) differs from std::tuple (%d, %s, %s)", what, drjit::get<0>(t), drjit::get<1>(t).s.c_str(), drjit::get<2>(t).s.c_str(), std::get<0>(mt), std::get<1>(mt).c_str(), std::get<2>(mt).c_str());
    }
    static_assert(std::tuple_size<drjit::tuple<int, Str>>::value == 2 && std::is_same_v<std::tuple_element<1, drjit::tuple<int, float>>::type, float>);
    s.nontrivial();
}

// ---- Strings -------------------------------------------------------------------------
void case_strings(Src &s) {
    drjit::string v[3]; std::string m[3]; size_t steps = 4 + s.below(50);
    auto word = [&]() { std::string w; for (size_t k = s.small(0, 40); k; --k) w += (char) ('a' + s.below(26)); return w; };
    auto check = [&](size_t i, const char *what) {
        auto &a = v[i]; auto &b = m[i]; const auto &ca = a;
        if (a.size() != b.size() || a.length() != b.size() || a.capacity() < a.size()) fail("%s: size %zu instead of %zu", what, a.size(), b.size());
        if (b.size() && memcmp(a.data(), b.data(), b.size())) fail("%s: '%.*s' instead of '%s'", what, (int) a.size(), a.data(), b.c_str());
        if (memcmp(a.c_str(), b.c_str(), b.size() + 1)) fail("%s: terminator is missing", what);
        if ((size_t) (ca.end() - ca.begin()) != b.size() || (bool) a.emtpy() != b.empty()) fail("%s: iterators", what);
    };
    for (size_t st = 0; st < steps; ++st) {
        size_t i = s.below(3), j = s.below(3); auto &a = v[i]; auto &b = m[i]; const char *what = ""; std::string w = word();
        switch (s.below(23)) {
            case 0: what = "assign"; a = w.c_str(); b = w; break;
            case 1: what = "construct"; a = drjit::string(w.data(), w.size()); b = w; break;
            case 2: what = "put"; a.put(w.c_str()); b += w; break;
            case 3: what = "+="; a += v[j]; b += m[j]; break;
            case 4: what = "put several"; a.put(v[j], "--", a, ':', w.c_str()); { std::string t = b + m[j] + "--" + b + ":" + w; b = t; } s.tag("several arguments"); break;
            case 5: what = "assignment"; a = v[j]; b = std::string(m[j]); s.tag(i == j ? "onto itself" : "assignment"); break;
            case 6: what = "move assignment"; if (i == j) break; a = std::move(v[j]); b = m[j]; m[j].clear(); break;
            case 7: what = "swap"; a.swap(v[j]); b.swap(m[j]); break;
            case 8: what = "clear"; if (s.flip()) { a.clear(); b.clear(); } break;
            case 9: { what = "resize"; size_t n = s.small(0, 60); char c = (char) ('a' + s.below(26)); a.resize(n, c); b.resize(n, c); break; }
            case 10: { what = "reserve"; size_t n = s.small(0, 90); a.reserve(n); if (a.capacity() < n) fail("reserve()"); break; }
            case 11: { what = "integers"; uint64_t x = s.bits() >> s.below(64); if (s.chance(1, 4)) x = s.pick({ (uint64_t) 0, (uint64_t) INT_MIN, (uint64_t) INT64_MIN, ~(uint64_t) 0, (uint64_t) 128, (uint64_t) 32768 });
                       a.put((int8_t) x, ' ', (uint8_t) x, ' ', (int16_t) x, ' ', (uint16_t) x, ' ', (int) x, ' ', (unsigned) x, ' ', (long) x, ' ', (size_t) x);
                       b += strf("%d %u %d %u %d %u %ld %zu", (int8_t) x, (uint8_t) x, (int16_t) x, (uint16_t) x, (int) x, (unsigned) x, (long) x, (size_t) x); break; }
            case 12: { what = "floats"; double x = std::ldexp((double) s.range(-99999, 99999), (int) s.range(-80, 80)); a.put(x, ' ', (float) x); b += strf("%g %g", x, (double) (float) x); break; }
            case 13: { what = "pointers"; uintptr_t x = s.bits() >> s.below(64); a.put((void *) x); b += strf("0x%lx", (unsigned long) x); break; }
            case 14: { what = "booleans and characters"; bool x = s.flip(); char c = (char) ('A' + s.below(26)); a.put(x, c); b += (x ? '1' : '0'); b += c; break; }
            case 15: { what = "indent"; size_t n = s.small(0, 30); a.indent(n); b += std::string(n, ' '); break; }
            case 16: { what = "+ literal"; drjit::string r = v[j] + "lit"; a = std::move(r); b = m[j] + "lit"; break; }
            case 17: { what = "literal +"; drjit::string r = "lit" + v[j]; a = std::move(r); b = "lit" + m[j]; break; }
            case 18: { what = "temporary +"; drjit::string r = (drjit::string(v[j]) + 17) + "x"; a = r; b = m[j] + "17x"; break; }
            case 19: { what = "equality"; bool e = m[i] == m[j]; if ((v[i] == v[j]) != e || (v[i] != v[j]) == e) fail("equality of strings"); break; }
            case 20: { what = "copy"; drjit::string c(a); if (c != a) fail("a copy differs"); c.put("?"); if (c == a) fail("a copy is shared"); check(i, "copied string"); drjit::string e(std::move(c)); if (e.size() != b.size() + 1) fail("move construction"); break; }
            case 21: { what = "own characters"; if (b.empty()) break; size_t k = s.below(b.size()); a.put(a.c_str() + k); { std::string t = b + b.substr(k); b = t; } break; }
            case 22: { what = "character access"; if (b.empty()) break; size_t k = s.below(b.size()); a[k] = '!'; b[k] = '!'; const auto &ca = a; if (ca[k] != '!') fail("character access"); break; }
        }
        for (auto &q : m) if (q.size() > 20000) q.clear(), v[&q - m].clear();
        check(i, what); check(j, what);
    }
    s.tag("string steps", steps); s.nontrivial();
}
} // namespace

void case_containers(Src &s) {
    g_live.clear(); g_countdown = -1;
    switch (s.below(8)) {
        case 0: { VecRun<Tok<8>> r(s); r.run(); if (r.grown) s.nontrivial(); break; }
        case 1: { VecRun<Tok<64>> r(s); r.run(); if (r.grown) s.nontrivial(); break; }
        case 2: vec_throw<Tok<8>>(s); break;
        case 3: case_tree(s); break;
        case 4: case_pointers(s); break;
        case 5: case_tuples(s); break;
        default: case_strings(s); break;
    }
    if (!g_live.empty()) fail("%zu elements leaked", g_live.size());
}
