// P28: printed representations and diagnostics describe the actual contents
#include "mem.h"
using namespace jx;
void case_buffer(vt::Src &s);

namespace {
// ---- Text of a variable ----------------------------------------------------
std::string text_of(VarType t, uint64_t v) {
    if (!is_float(t)) return vstr(t, v);
    return strf("%g", to_d(t, v));
}
/// Parses the text: elements in front of and behind the gap, size of the gap
struct Parsed { std::vector<std::string> head, tail; size_t skipped = 0; bool gap = false; };
Parsed parse(const std::string &str) {
    Parsed p;
    if (str.size() < 2 || str[0] != '[' || str.back() != ']') fail("not a list: %s", str.c_str());
    std::string b = str.substr(1, str.size() - 2);
    size_t i = 0;
    while (i < b.size()) {
        size_t e = b.find(", ", i);
        std::string x = b.substr(i, e == std::string::npos ? e : e - i);
        i = e == std::string::npos ? b.size() : e + 2;
        size_t k; int len = 0;
        if (sscanf(x.c_str(), ".. %zu skipped ..%n", &k, &len) == 1 && (size_t) len == x.size()) {
            if (p.gap) fail("two gaps: %s", str.c_str());
            p.gap = true; p.skipped = k;
        } else (p.gap ? p.tail : p.head).push_back(x);
    }
    return p;
}
bool g_zero_sign; // the sign of zeros is known
bool reads_back(VarType t, const std::string &x, uint64_t v) {
    if (x.empty()) return false;
    char *e = nullptr;
    if (is_float(t)) {
        double d = strtod(x.c_str(), &e), w = to_d(t, v);
        if (*e) return false;
        if (std::isnan(w)) return std::isnan(d);
        if (std::isinf(w)) return d == w;
        return (std::signbit(d) == std::signbit(w) || (!g_zero_sign && d == 0 && w == 0)) && std::fabs(d - w) <= std::max(5.1e-6 * std::fabs(w), 5e-324);
    }
    if (is_signed(t)) { long long d = strtoll(x.c_str(), &e, 10); return !*e && from_i(t, d) == v && vstr(t, v) == x; }
    unsigned long long d = strtoull(x.c_str(), &e, 10);
    return !*e && (uint64_t) d == v;
}
void check_str(const Var &v, const Arr &want, const char *what) {
    std::string str = jit_var_str(v.id());
    Parsed p = parse(str);
    size_t n = want.size();
    if (!p.gap) {
        if (p.head.size() != n) fail("%s: %zu elements printed as %s", what, n, str.c_str());
        if (n > 20) fail("%s: %zu elements were not abbreviated", what, n);
    } else {
        if (n <= 20) fail("%s: %zu elements were abbreviated", what, n);
        if (p.head.size() + p.tail.size() + p.skipped != n || p.head.empty() || p.tail.empty())
            fail("%s: %zu elements printed as %s", what, n, str.c_str());
    }
    for (size_t i = 0; i < p.head.size(); ++i)
        if (!reads_back(want.t, p.head[i], want.v[i])) fail("%s: element %zu is %s, not %s: %s", what, i, text_of(want.t, want.v[i]).c_str(), p.head[i].c_str(), str.c_str());
    for (size_t i = 0; i < p.tail.size(); ++i) {
        size_t k = n - p.tail.size() + i;
        if (!reads_back(want.t, p.tail[i], want.v[k])) fail("%s: element %zu is %s, not %s: %s", what, k, text_of(want.t, want.v[k]).c_str(), p.tail[i].c_str(), str.c_str());
    }
}

// ---- Amounts of memory -----------------------------------------------------
bool mem_matches(const char *txt, double want, std::string *rest = nullptr) {
    char *e; double d = strtod(txt, &e);
    if (e == txt || *e != ' ') return false;
    static const char *u[] = { "B", "KiB", "MiB", "GiB", "TiB" };
    int best = -1; ++e;
    for (int i = 4; i >= 0 && best < 0; --i) if (!strncmp(e, u[i], strlen(u[i]))) best = i;
    if (best < 0) return false;
    if (rest) *rest = e + strlen(u[best]);
    for (int i = 0; i < best; ++i) d *= 1024;
    return std::fabs(d - want) <= 1e-3 * want + 1e-9;
}

// ---- Population of variables, listings -------------------------------------
std::string gen_label(Src &s, bool digits = false) {
    static const char *alpha = "abcxyzABC_019 .:-+*#%$@!?'\"<>{}|\\()[]";
    std::string r;
    for (size_t k = s.small(0, 40); k; --k) r += alpha[s.below(strlen(alpha))];
    if (digits) { r = ""; for (size_t k = 1 + s.below(4); k; --k) r += (char) ('0' + s.below(10)); }
    return r;
}
struct Node { Var v; Arr a; bool has_label = false; std::string label, prefix; bool pinned = false; };
struct Line { uint32_t id; std::string backend, type, status, storage, label; uint32_t refs, size; };

struct World {
    Src &s; Foreign mem;
    std::vector<Node> nodes; std::vector<std::string> prefix;
    World(Src &s) : s(s) {}
    ~World() { while (!prefix.empty()) { jit_prefix_pop(BE); prefix.pop_back(); } }
    std::string pfx() { std::string r; for (auto &p : prefix) r += p + "/"; return r; }
    void add(Var v, Arr a) { // unlabelled nodes carry the prefix with an empty label
        nodes.push_back({ std::move(v), std::move(a) });
    }
    void create() {
        VarType t = s.pick(all_types());
        size_t n = s.chance(1, 8) ? 200 + s.below(4000) : s.small(1, 40);
        if (nodes.size() && s.chance(1, 3)) { // derived
            Node &x = nodes[s.below(nodes.size())], &y = nodes[s.below(nodes.size())];
            JitOp op = s.pick({ JitOp::Add, JitOp::Xor, JitOp::Min, JitOp::Not, JitOp::And, JitOp::Sub });
            if (!op_supports(op, x.a.t)) return;
            bool bin = op_arity(op) == 2;
            if (bin && (x.a.t != y.a.t || (x.a.size() != y.a.size() && x.a.size() != 1 && y.a.size() != 1))) return;
            Arr r(op_result(op, x.a.t), bin ? std::max(x.a.size(), y.a.size()) : x.a.size());
            for (size_t i = 0; i < r.size(); ++i) { uint64_t in[2] = { x.a.at(i), bin ? y.a.at(i) : 0 }; if (!ref_op(op, x.a.t, in, r.v[i])) return; }
            Var v = bin ? jit_op(op, { x.v, y.v }) : jit_op(op, { x.v });
            if (jit_var_size(v.id()) != r.size()) fail("size %zu instead of %zu", jit_var_size(v.id()), r.size());
            add(v, r);
            return;
        }
        if (s.chance(1, 8)) { Arr a = gen_arr(s, t, n); Var v = mem.map(s, a, s.flip()); add(v, a); return; }
        Arr a = gen_arr(s, t, n); Form f = gen_form(s);
        Var v = make(s, a, f);
        add(v, a);
    }
    void label() {
        if (nodes.empty()) return;
        Node &x = nodes[s.below(nodes.size())];
        std::string want; Var r;
        bool bad = s.chance(1, 10);
        switch (s.below(4)) {
            case 0: case 1: { want = gen_label(s); if (bad) want.insert(s.below(want.size() + 1), s.flip() ? "/" : "\n");
                      std::string msg;
                      if (bad) { if (!raises([&] { r = steal(jit_var_set_label(x.v.id(), 1, want.c_str())); }, &msg)) fail("label '%s' was accepted", want.c_str()); return; }
                      r = steal(jit_var_set_label(x.v.id(), 1, want.c_str())); break; }
            case 2: { std::string a = "v" + gen_label(s), b = gen_label(s, s.flip()), c = gen_label(s, s.flip());
                      auto num = [](const std::string &q) { return q[0] >= '0' && q[0] <= '9'; };
                      if (s.flip()) { want = (num(b) ? a + "[" + b + "]" : a + "." + b); r = steal(jit_var_set_label(x.v.id(), 2, a.c_str(), b.c_str())); }
                      else { want = a; for (auto &q : { b, c }) want += num(q) ? "[" + q + "]" : "." + q;
                             r = steal(jit_var_set_label(x.v.id(), 3, a.c_str(), b.c_str(), c.c_str())); }
                      s.tag("label of several parts"); break; }
            case 3: { const char *l = jit_var_label(x.v.id()); if (!l) return; want = l; // relabel in place
                      r = steal(jit_var_set_label(x.v.id(), 1, l)); s.tag("own label"); break; }
        }
        x.v.reset(); // the result replaces the variable
        x.v = r; x.has_label = true; x.label = want; x.prefix = pfx();
        s.note("label %u = '%s%s'", r.id(), x.prefix.c_str(), want.c_str());
        check_label(x);
    }
    void check_label(const Node &x) {
        const char *l = jit_var_label(x.v.id());
        if (!x.has_label) return;
        if (!l || x.label != l) fail("label of r%u is %s instead of '%s'", x.v.id(), l ? l : "(null)", x.label.c_str());
    }
    std::map<uint32_t, uint32_t> handles() { std::map<uint32_t, uint32_t> r; for (auto &x : nodes) r[x.v.id()]++; return r; }

    std::map<uint32_t, Line> whos() {
        std::string txt = jit_var_whos();
        std::map<uint32_t, Line> out;
        size_t i = 0, rules = 0; bool none = false, stats = false;
        double eval_b = 0, lazy_b = 0;
        while (i < txt.size()) {
            size_t e = txt.find('\n', i);
            std::string l = txt.substr(i, e - i);
            i = e + 1;
            if (l.find("=====") != std::string::npos) { rules++; continue; }
            if (l.find("No variables registered") != std::string::npos) none = true;
            if (rules == 1 && !none) {
                Line r; char b[16], t[16]; int pos = 0;
                if (sscanf(l.c_str(), " %u %15s %15s%n", &r.id, b, t, &pos) != 3) fail("cannot read the line '%s'", l.c_str());
                r.backend = b; r.type = t;
                if (l.size() < 24 + 11 + 4) fail("cannot read the line '%s'", l.c_str());
                r.status = l.substr(23, 11); while (!r.status.empty() && r.status.back() == ' ') r.status.pop_back(); while (!r.status.empty() && r.status[0] == ' ') r.status.erase(0, 1);
                int q = 0;
                if (sscanf(l.c_str() + 34, " %u %u%n", &r.refs, &r.size, &q) != 2) fail("cannot read the line '%s'", l.c_str());
                std::string rest = l.substr(34 + q);
                if (rest.size() < 16) fail("cannot read the line '%s'", l.c_str());
                r.storage = rest.substr(0, 13); r.label = rest.substr(16);
                while (!r.storage.empty() && r.storage[0] == ' ') r.storage.erase(0, 1);
                if (out.count(r.id)) fail("r%u is listed twice", r.id);
                out[r.id] = r;
                VarType vt = jit_var_type(r.id); double bytes = (double) r.size * (vt == VarType::Void ? 0 : tsize(vt));
                if (vt == VarType::Pointer) bytes = 8.0 * r.size;
                if (jit_var_state(r.id) == VarState::Evaluated || jit_var_state(r.id) == VarState::Dirty) eval_b += bytes; else lazy_b += bytes;
            }
            size_t p;
            if ((p = l.find("- Storage           : ")) != std::string::npos) {
                stats = true; std::string rest, rest2;
                if (!mem_matches(l.c_str() + p + 22, eval_b, &rest)) fail("%.0f bytes on the device, but: %s", eval_b, l.c_str());
                if (rest.substr(0, 12) != " on device, " || !mem_matches(rest.c_str() + 12, lazy_b, &rest2)) fail("%.0f bytes unevaluated, but: %s", lazy_b, l.c_str());
            }
            if ((p = l.find("- Kernel launches   : ")) != std::string::npos) {
                size_t a, b, c, d, la, so, ha;
                if (sscanf(l.c_str() + p + 22, "%zu (%zu cache hits, %zu soft, %zu hard", &a, &b, &c, &d) != 4) fail("cannot read '%s'", l.c_str());
                jit_launch_stats(&la, &so, &ha);
                if (a != la || c != so || d != ha || a != b + c + d) fail("launch statistics %zu/%zu/%zu, but: %s", la, so, ha, l.c_str());
            }
        }
        if (!stats) fail("no statistics in %s", txt.c_str());
        if (none != out.empty()) fail("contradictory listing %s", txt.c_str());
        return out;
    }
    void check_listing() {
        auto L = whos(); auto H = handles();
        static const char *sh[] = { "void", "bool", "???", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "ptr", "???", "f16", "f32", "f64" };
        for (auto &h : H) if (!L.count(h.first)) fail("r%u is not listed", h.first);
        for (auto &x : nodes) {
            Line &l = L[x.v.id()];
            if (l.size != x.a.size()) fail("r%u: listed with size %u instead of %zu", l.id, l.size, x.a.size());
            if (l.type != sh[(int) x.a.t]) fail("r%u: listed as %s instead of %s", l.id, l.type.c_str(), sh[(int) x.a.t]);
            if (x.has_label && l.label != x.label) fail("r%u: listed with label '%s' instead of '%s'", l.id, l.label.c_str(), x.label.c_str());
        }
        size_t n_var = L.size();
        // Graph: dependencies
        std::string g = jit_var_graphviz();
        std::map<uint32_t, uint32_t> uses; std::set<uint32_t> seen; std::map<uint32_t, std::string> desc;
        int depth = 0; size_t i = 0; std::vector<std::string> cl; std::map<uint32_t, std::string> where;
        while (i < g.size()) {
            size_t e = g.find('\n', i); std::string l = g.substr(i, e - i); i = e + 1;
            unsigned a, b; int pos = 0;
            std::string t = l; while (!t.empty() && t[0] == ' ') t.erase(0, 1);
            if (t.compare(0, 9, "subgraph ") == 0) { cl.push_back(""); depth++; continue; }
            if (t == "digraph {") { depth++; continue; }
            if (t == "}") { if (!cl.empty()) cl.pop_back(); if (--depth < 0) fail("unbalanced graph"); continue; }
            if (t.compare(0, 7, "label=\"") == 0 && !cl.empty()) { cl.back() = t.substr(7, t.size() - 9); continue; }
            if (sscanf(t.c_str(), "%u -> %u%n", &a, &b, &pos) == 2 && pos > 0) { uses[a]++; if (!L.count(a) || !L.count(b)) fail("edge %s between unlisted variables", t.c_str()); continue; }
            if (sscanf(t.c_str(), "%u [label=%n", &a, &pos) == 1 && pos > 0) {
                if (!seen.insert(a).second) fail("r%u has two nodes", a);
                desc[a] = t; std::string w; for (auto &c : cl) w += c + "/"; where[a] = w;
            }
        }
        if (depth) fail("unbalanced graph:\n%s", g.c_str());
        if (seen.size() != n_var) fail("%zu nodes, but %zu variables", seen.size(), n_var);
        for (auto &kv : L) {
            Line &l = kv.second; uint32_t id = kv.first;
            if (!seen.count(id)) fail("r%u has no node", id);
            uint32_t refs = (H.count(id) ? H[id] : 0) + (uses.count(id) ? uses[id] : 0);
            if (l.refs != refs || jit_var_ref(id) != refs) fail("r%u: listed with %u references (jit_var_ref(): %u), but there are %u", id, l.refs, jit_var_ref(id), refs);
            std::string suffix = strf("|{Type: llvm %s|Size: %u}|{r%u|Refs: %u}}}\"", sh[(int) jit_var_type(id)], l.size, id, l.refs), S = strf("|Size: %u}|{r%u|Refs: %u}}", l.size, id, l.refs);
            if (desc[id].find(S) == std::string::npos) fail("r%u: unexpected node %s", id, desc[id].c_str());
            VarState st = jit_var_state(id);
            bool lit = st == VarState::Literal, ev = st == VarState::Evaluated || st == VarState::Dirty;
            if ((l.status == "const.") != lit) fail("r%u: listed as '%s'", id, l.status.c_str());
            if ((desc[id].find("Literal: ") != std::string::npos) < lit) fail("r%u: unexpected node %s", id, desc[id].c_str());
            if (!lit && l.status.empty() == ev) fail("r%u: listed as '%s'", id, l.status.c_str());
            if (l.storage.empty() == ev) fail("r%u: storage '%s'", id, l.storage.c_str());
            if (ev && !mem_matches(l.storage.c_str(), (double) l.size * tsize(jit_var_type(id)))) fail("r%u: storage '%s' for %u x %s", id, l.storage.c_str(), l.size, l.type.c_str());
            if (ev && (desc[id].find("Evaluated (dirty)") != std::string::npos) != (st == VarState::Dirty)) fail("r%u: unexpected node %s", id, desc[id].c_str());
        }
        for (auto &x : nodes) {
            uint32_t id = x.v.id();
            if (x.has_label && where[id] != x.prefix) fail("r%u: in cluster '%s' instead of '%s'", id, where[id].c_str(), x.prefix.c_str());
            if (jit_var_state(id) == VarState::Literal && !is_bool(x.a.t)) {
                std::string w = "Literal: " + text_of(x.a.t, x.a.v[0]) + "|";
                if (desc[id].find(w) == std::string::npos) fail("r%u: node %s does not contain '%s'", id, desc[id].c_str(), w.c_str());
            }
            if (x.has_label && !x.label.empty() && x.label.find_first_of("$\\\"<>{}|") == std::string::npos &&
                desc[id].find("Label: \\\"" + x.label + "\\\"|") == std::string::npos) fail("r%u: node %s lacks the label '%s'", id, desc[id].c_str(), x.label.c_str());
        }
        s.tag("listings compared");
    }
};

void case_listing(Src &s) {
    World w(s);
    size_t steps = 4 + s.below(thorough() ? 60 : 30), prints = 0;
    for (size_t i = 0; i < steps; ++i) {
        switch (s.below(12)) {
            default: w.create(); break;
            case 4: case 5: w.label(); break;
            case 6: if (w.prefix.size() < 4) { std::string p = "s"; for (size_t k = s.below(6); k; --k) p += (char) ('a' + s.below(3)); 
                        jit_prefix_push(BE, p.c_str()); w.prefix.push_back(p); } break;
            case 7: if (w.prefix.size()) { jit_prefix_pop(BE); w.prefix.pop_back(); } break;
            case 8: if (w.nodes.size() > 1) w.nodes.erase(w.nodes.begin() + s.below(w.nodes.size())); break;
            case 9: if (w.nodes.size()) { Node x = s.pick(w.nodes); if (s.flip()) w.nodes.push_back(x); else { jit_var_schedule(x.v.id()); jit_eval(); } } break;
            case 10: if (w.nodes.size()) { Node &x = w.nodes[s.below(w.nodes.size())]; check_str(x.v, x.a, "text"); prints++; w.check_label(x); } break;
            case 11: w.check_listing(); prints++; break;
        }
        const char *p = jit_prefix(BE);
        if ((p ? p : "") != w.pfx()) fail("prefix '%s' instead of '%s'", p ? p : "", w.pfx().c_str());
    }
    w.check_listing();
    for (auto &x : w.nodes) { w.check_label(x); check_str(x.v, x.a, "text"); w.check_label(x); }
    w.check_listing();
    for (auto &x : w.nodes) expect(x.v, x.a, "value after printing");
    if (w.nodes.size() > 2 && prints) s.nontrivial();
}

// Text of one array: every type, size, form, pending scatters
void case_text(Src &s) {
    size_t k = 1 + s.below(6); Foreign mem; std::vector<std::pair<Var, Arr>> keep;
    for (size_t j = 0; j < k; ++j) {
        VarType t = s.pick(all_types());
        size_t n = s.chance(1, 10) ? 1 + s.below(100000) : s.chance(1, 3) ? 18 + s.below(6) : s.small(1, 60);
        Arr a = n > 3000 ? Arr(t, n) : gen_arr(s, t, n);
        if (n > 3000) { Src q(s.bits()); for (auto &x : a.v) x = gen_value(q, t); }
        Var v;
        switch (s.below(4)) {
            case 0: v = mem.map(s, a, s.flip()); break;
            case 1: { // pending scatter
                v = upload(a); size_t i = s.below(n); uint64_t x = gen_value(s, t);
                Var val = literal(t, x), ix = u32((uint32_t) i), m = boolean(true);
                v = steal(jit_var_scatter(v.id(), val.id(), ix.id(), m.id()));
                a.v[i] = x; s.tag("text of a dirty array"); break; }
            default: v = make(s, a, gen_form(s));
        }
        g_zero_sign = true;
        s.note("text of %s", a.str(30).c_str());
        check_str(v, a, "text");
        if (s.flip()) check_str(v, a, "text again");
        keep.push_back({ v, a });
    }
    for (auto &x : keep) expect(x.first, x.second, "value after printing");
    s.tag("texts", k); s.nontrivial();
}

// ---- Kernel history ----------------------------------------------------------
struct Entry { KernelType type; uint32_t size, in, out; uint64_t h0, h1; bool hit, disk, ir; };
struct Expect { KernelType type; uint32_t size; int in, out; std::string key; bool many = false; };

void case_history(Src &s) {
    Config c = gen_config(s, CfgWidth | CfgBlock | CfgSched | CfgThreads);
    c.flags = jit_flags(); apply_config(c);
    std::map<std::string, std::pair<uint64_t, uint64_t>> hashes;
    std::vector<Expect> want; bool on = false;
    std::vector<std::pair<Var, Arr>> keep; std::vector<std::unique_ptr<uint8_t[]>> bufs;
    size_t la0, so0, ha0; jit_launch_stats(&la0, &so0, &ha0);
    size_t launches = 0, checked = 0, entries = 0;
    auto verify = [&]() {
        KernelHistoryEntry *d = jit_kernel_history();
        if (KernelHistoryEntry *d2 = jit_kernel_history()) { if (d2->backend != JitBackend::None) fail("the history was not emptied by the query"); free(d2); }
        std::vector<Entry> got; std::string msg;
        for (KernelHistoryEntry *e = d; e && e->backend != JitBackend::None; ++e) {
            got.push_back({ e->type, e->size, e->input_count, e->output_count, e->hash[0], e->hash[1], (bool) e->cache_hit, (bool) e->cache_disk, e->ir != nullptr });
            if (e->backend != BE && msg.empty()) msg = "entry of another backend";
            if ((e->type == KernelType::JIT) != (e->ir != nullptr) && msg.empty()) msg = "IR of an entry";
            if (e->ir) {
                std::string name = strf("@drjit_%016lx%016lx(", (unsigned long) e->hash[1], (unsigned long) e->hash[0]);
                if (!strstr(e->ir, name.c_str()) && msg.empty()) msg = "the IR does not define the kernel of this entry";
                if (e->operation_count == 0 && msg.empty()) msg = "no operations";
                if ((e->cache_hit && e->backend_time != 0) && msg.empty()) msg = "compilation time of a cached kernel";
            }
            if (!(e->execution_time >= 0) && msg.empty()) msg = "execution time";
            if (e->task && msg.empty()) msg = "task was not cleared";
            if (e->recording_mode != KernelRecordingMode::Inactive && msg.empty()) msg = "recording mode";
            free(e->ir);
        }
        free(d);
        if (!msg.empty()) fail("kernel history: %s", msg.c_str());
        std::string g, w;
        for (auto &e : got) g += strf("%d:%u(%u/%u) ", (int) e.type, e.size, e.in, e.out);
        for (auto &e : want) w += strf("%d:%u(%d/%d)%s ", (int) e.type, e.size, e.in, e.out, e.many ? "+" : "");
        size_t i = 0; entries += got.size();
        for (auto &x : want) {
            size_t n = 0;
            while (i < got.size() && (n || (got[i].type == x.type && got[i].size == x.size))) {
                if (n && (got[i].type == KernelType::JIT || got[i].size > x.size)) break;
                Entry &e = got[i];
                if (x.in >= 0 && (int) e.in != x.in) fail("kernel history: %u inputs instead of %d\n got  %s\n want %s", e.in, x.in, g.c_str(), w.c_str());
                if (x.out >= 0 && (int) e.out != x.out) fail("kernel history: %u outputs instead of %d\n got  %s\n want %s", e.out, x.out, g.c_str(), w.c_str());
                if (!x.key.empty()) {
                    auto it = hashes.find(x.key);
                    if (it == hashes.end()) { hashes[x.key] = { e.h0, e.h1 };
                        for (auto &o : hashes) if (o.first != x.key && o.second == std::make_pair(e.h0, e.h1)) fail("kernel history: the kernels of '%s' and '%s' have the same hash", x.key.c_str(), o.first.c_str());
                    } else {
                        if (it->second != std::make_pair(e.h0, e.h1)) fail("kernel history: hash of '%s' changed", x.key.c_str());
                        if (!e.hit) fail("kernel history: '%s' ran before, but is no cache hit", x.key.c_str());
                        s.tag("repeated kernel");
                    }
                }
                ++i; ++n;
                if (!x.many) break;
            }
            if (!n) fail("kernel history: entry is missing\n got  %s\n want %s", g.c_str(), w.c_str());
        }
        if (i != got.size()) fail("kernel history: unexpected entries\n got  %s\n want %s", g.c_str(), w.c_str());
        want.clear(); checked++;
        size_t la, so, ha; jit_launch_stats(&la, &so, &ha);
        if (la - la0 != launches) fail("%zu kernel launches counted, but there were %zu", la - la0, launches);
    };
    auto log = [&](Expect e) { if (on) want.push_back(e); };
    size_t steps = 4 + s.below(24), last_n = 1 + s.below(60);
    for (size_t st = 0; st < steps; ++st) {
        size_t n = s.chance(1, 3) ? last_n : s.chance(1, 5) ? 500 + s.below(40000) : s.small(2, 60);
        if (n < 2) n = 2;
        last_n = n;
        bool many = false; // several kernels that are not enumerated: query right away
        switch (s.below(13)) {
            case 0: on = !on; jit_set_flag(JitFlag::KernelHistory, on); s.note("history %d", on); break;
            case 1: verify(); break;
            case 2: if (s.chance(1, 3)) { jit_kernel_history_clear(); want.clear(); s.note("clear"); } break;
            case 3: case 4: case 5: case 6: { // evaluation of several groups
                size_t k = 1 + s.below(5); std::vector<std::pair<Var, Arr>> vs;
                std::map<size_t, std::pair<int, int>, std::greater<size_t>> grp; std::map<size_t, std::string> keys;
                std::vector<size_t> sizes; for (size_t q = 1 + s.below(3); q; --q) sizes.push_back(s.flip() ? n : s.small(1, 90));
                std::map<size_t, std::pair<Var, Arr>> inp; std::map<size_t, std::set<int>> used;
                std::set<std::string> dup;
                for (size_t j = 0; j < k; ++j) {
                    size_t m = s.pick(sizes); uint32_t a = 1 + (uint32_t) s.below(3), kind = (uint32_t) s.below(3);
                    if (kind && m == 1) kind = 0;
                    Arr r(VarType::UInt32, m); Var v;
                    std::string key = strf("%u:%u,", kind, a);
                    if (!dup.insert(strf("%zu/%s", m, key.c_str())).second) continue;
                    Var lit = u32(a);
                    if (m == 1 || kind == 2) { // reads memory
                        if (!inp.count(m)) { Arr x = gen_arr(s, VarType::UInt32, m); inp[m] = { upload(x), x }; }
                        used[m].insert(0);
                        v = kind == 2 ? jit_op(JitOp::Mul, { inp[m].first, u32(2 * a + 1) }) : jit_op(JitOp::Xor, { inp[m].first, lit });
                        for (size_t i = 0; i < m; ++i) r.v[i] = kind == 2 ? (uint32_t) (inp[m].second.v[i] * (2 * a + 1)) : inp[m].second.v[i] ^ a;
                        if (kind != 2) key = strf("x%u,", a);
                    } else {
                        Var cnt = ctr(m);
                        v = kind ? jit_op(JitOp::Xor, { cnt, lit }) : jit_op(JitOp::Add, { cnt, lit });
                        for (size_t i = 0; i < m; ++i) r.v[i] = kind ? ((uint32_t) i ^ a) : (uint32_t) (i + a);
                    }
                    grp[m].second++; keys[m] += key;
                    jit_var_schedule(v.id());
                    vs.push_back({ v, r });
                }
                for (auto &u : used) grp[u.first].first = (int) u.second.size();
                jit_eval();
                for (auto &g : grp) { launches++; log({ KernelType::JIT, (uint32_t) g.first, g.second.first, g.second.second, strf("%s w%u %s", g.first == 1 ? "1" : "n", c.width, keys[g.first].c_str()) });
                                      s.note("eval n=%zu in=%d out=%d", g.first, g.second.first, g.second.second); }
                for (auto &v : vs) keep.push_back(v);
                s.tag("evaluations"); break; }
            case 7: { // scatter: one input per pointer, counted with the outputs
                Arr a = gen_arr(s, VarType::UInt32, n); Var t = upload(a); Var ix = ctr(n), m = boolean(true), val = jit_op(JitOp::Add, { ctr(n), u32(5) });
                Var r = steal(jit_var_scatter(t.id(), val.id(), ix.id(), m.id()));
                t.reset();
                val.reset(); ix.reset(); jit_eval();
                for (size_t i = 0; i < n; ++i) a.v[i] = (uint32_t) (i + 5);
                // a copy of the target is taken, as it was still referenced
                if (on) want.push_back({ KernelType::JIT, (uint32_t) n, -1, 1, "" });
                launches++;
                keep.push_back({ r, a });
                s.tag("side effects");
                break; }
            case 8: { Arr a = gen_arr(s, VarType::UInt32, n, Dist::Small); Var v = upload(a);
                Var r = steal(jit_var_reduce(BE, VarType::UInt32, ReduceOp::Add, v.id())); uint64_t q = 0; for (auto x : a.v) q += x;
                log({ KernelType::BlockReduce, (uint32_t) n, -1, -1, "", true }); many = on; keep.push_back({ r, Arr(VarType::UInt32, 1, (uint32_t) q) });
                s.note("reduce %zu", n); break; }
            case 9: { Arr a = gen_arr(s, VarType::UInt32, n, Dist::Small); Var v = upload(a);
                Var r = steal(jit_var_block_prefix_reduce(ReduceOp::Add, v.id(), (uint32_t) n, 0, 0)); uint32_t q = 0; for (auto &x : a.v) x = q += (uint32_t) x;
                log({ KernelType::BlockPrefixReduce, (uint32_t) n, -1, -1, "", true }); many = on; keep.push_back({ r, a });
                s.note("prefix %zu", n); break; }
            case 10: { Arr a = gen_mask(s, n); Var v = upload(a);
                Var r = steal(jit_var_compress(v.id())); Arr w(VarType::UInt32, 0); for (size_t i = 0; i < n; ++i) if (a.v[i]) w.v.push_back(i);
                log({ KernelType::Compress, (uint32_t) n, -1, -1, "", true }); many = on;
                if (r) keep.push_back({ r, w }); s.note("compress %zu", n); break; }
            case 11: { size_t b = n * 4; bufs.emplace_back(new uint8_t[2 * b]); uint8_t *p = bufs.back().get(); memset(p, 7, 2 * b);
                if (s.flip()) { jit_memcpy_async(BE, p, p + b, b); log({ KernelType::Memcpy, (uint32_t) b, -1, -1, "" }); s.note("memcpy %zu", b); }
                else { uint32_t x = 5; jit_memset_async(BE, p, (uint32_t) n, 4, &x); log({ KernelType::Memset, (uint32_t) n, -1, -1, "" }); s.note("memset %zu", n); }
                break; }
            case 12: { Arr a = gen_arr(s, VarType::UInt32, n); Var v = upload(a), r; size_t i = s.below(n); uint32_t x = (uint32_t) s.bits();
                Var second; if (s.flip()) second = v; // then, the array is copied
                r = steal(jit_var_write(v.id(), i, &x));
                Arr b = a; b.v[i] = x;
                if (second) log({ KernelType::Memcpy, (uint32_t) (n * 4), -1, -1, "" });
                log({ KernelType::Poke, 4, -1, -1, "" });
                if (second) keep.push_back({ v, a });
                keep.push_back({ r, b }); s.note("poke"); break; }
        }
        if (many) verify();
    }
    verify();
    jit_set_flag(JitFlag::KernelHistory, 0); on = false;
    for (auto &x : keep) expect(x.first, x.second, "value");
    jit_sync_thread();
    jit_kernel_history_clear();
    s.tag("history entries", entries); s.tag("history queries", checked);
    if (entries) s.nontrivial();
}

void run(Src &s) {
    g_zero_sign = false;
    switch (s.weighted({ 3, 3, 3, 2 })) {
        case 0: case_text(s); break;
        case 1: case_listing(s); break;
        case 2: case_history(s); break;
        case 3: case_buffer(s); break;
    }
    end_case();
}
} // namespace

vt::Property vt::make_property() {
    Property p;
    p.id = "P28";
    p.rule = "Cases print generated arrays (12 types, sizes around and above the print limit, literal/lazy/evaluated/mapped/dirty) and read the text back; "
             "build populations of labelled, prefixed and dependent variables and compare jit_var_whos(), jit_var_graphviz() and jit_var_label() with the model; "
             "issue evaluations, scatters, reductions, scans, compactions, copies, fills and pokes and compare the kernel history and launch statistics with what was issued; "
             "or drive the text buffer against std::string. Non-trivial: something was printed, listed or recorded, and compared.";
    p.setup = init_process;
    p.run = run;
    p.finish = shutdown_process;
    return p;
}
