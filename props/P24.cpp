// P24: kernel caches (memory and disk) against the reference interpreter
#include "prog.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace prog;

static std::string g_dir;

// ---- Files ---------------------------------------------------------------
static std::vector<std::string> list(const char *suffix) {
    std::vector<std::string> r;
    DIR *d = opendir(g_dir.c_str());
    if (!d) return r;
    while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != ".." && n.size() >= strlen(suffix) && n.compare(n.size() - strlen(suffix), std::string::npos, suffix) == 0) r.push_back(g_dir + "/" + n);
    }
    closedir(d);
    std::sort(r.begin(), r.end());
    return r;
}
static void wipe() {
    for (auto &f : list("")) if (unlink(f.c_str())) rmdir(f.c_str());
}
static std::string slurp(const std::string &f) {
    std::string r; char b[4096];
    int fd = open(f.c_str(), O_RDONLY);
    if (fd < 0) return r;
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) r.append(b, (size_t) n);
    close(fd);
    return r;
}
/// A new file (cache entries are not modified in place, somebody might have mapped them)
static void spit(const std::string &f, const std::string &c) {
    unlink(f.c_str());
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    for (size_t i = 0; i < c.size();) { ssize_t n = write(fd, c.data() + i, c.size() - i); if (n <= 0) break; i += (size_t) n; }
    close(fd);
}

// ---- Similar programs ----------------------------------------------------
static void each(Block &b, bool top, const std::function<void(Stmt &, bool)> &f) {
    for (auto &st : b) {
        f(st, top);
        for (auto &q : st.blocks) each(q, false, f);
        for (auto &q : st.funcs) each(q.body, false, f);
    }
}
/// One change that alters what the program computes (or nothing at all)
static const char *mutate(Src &s, Prog &p) {
    std::vector<Stmt *> cs, ops, masks, calls;
    std::set<uint32_t> lens;
    each(p.main, true, [&](Stmt &st, bool top) {
        // Counters of loops are u32, their conditions Booleans
        VarType t = st.dst >= 0 ? p.regs[st.dst].t : VarType::Void;
        if (st.k == K::Const && (t != VarType::UInt32 || top) && (t != VarType::Bool || top)) cs.push_back(&st);
        if (st.k == K::Op && t != VarType::UInt32 && t != VarType::Bool && st.b >= 0 && st.c < 0) ops.push_back(&st);
        if (st.k != K::Call && st.mask >= 0) masks.push_back(&st);
        if (st.k == K::Call && st.funcs.size() > 1) calls.push_back(&st);
        if (st.k == K::ArrInit) lens.insert(p.regs[st.dst].len);
    });
    switch (s.below(9)) {
        case 0: case 1: {
            if (cs.empty()) break;
            Stmt &st = *s.pick(cs);
            VarType t = p.regs[st.dst].t;
            if (is_bool(t)) st.val ^= 1;
            else if (is_float(t)) st.val = from_d(t, (double) s.range(-32, 32) * 0.25);
            else if (t == VarType::UInt32) st.val ^= 1 + s.below(3);
            else st.val ^= 1ull << s.below(8 * tsize(t));
            return "constant";
        }
        case 2: {
            if (ops.empty()) break;
            Stmt &st = *s.pick(ops);
            switch (st.op) {
                case JitOp::Add: st.op = s.pick({ JitOp::Sub, JitOp::Min }); break;
                case JitOp::Sub: if (s.flip()) std::swap(st.a, st.b); else st.op = JitOp::Max; break;
                case JitOp::Min: st.op = JitOp::Max; break;
                case JitOp::Max: st.op = JitOp::Min; break;
                case JitOp::And: st.op = JitOp::Or; break;
                case JitOp::Or: st.op = JitOp::Xor; break;
                case JitOp::Xor: st.op = JitOp::And; break;
                default: return nullptr;
            }
            return "operation";
        }
        case 3: if (masks.empty()) break; s.pick(masks)->mask = -1; return "mask";
        case 4: case 5: {
            if (lens.empty()) break;
            uint32_t l = *std::next(lens.begin(), (long) s.below(lens.size())), k = l + (uint32_t) (s.chance(1, 4) ? s.below(400) : 1 + s.below(5));
            for (auto &r : p.regs) if (r.len == l) r.len = k;
            return "array length";
        }
        case 6: {
            if (calls.empty()) break;
            Stmt &st = *s.pick(calls);
            size_t a = s.below(st.funcs.size()), b = s.below(st.funcs.size());
            std::swap(st.funcs[a], st.funcs[b]);
            return "order of callables";
        }
        case 7: {
            if (p.targets.empty()) break;
            Target &t = p.targets[s.below(p.targets.size())];
            if (t.op == ReduceOp::Identity) break;
            t.op = s.pick({ ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or });
            return "reduction";
        }
        default: { // number of lanes
            size_t n = 1 + s.below(80);
            if (p.n == 1) break;
            for (auto &i : p.inputs) if (i.a.size() > 1) {
                Arr q(i.a.t, n);
                for (size_t j = 0; j < n; ++j) q.v[j] = i.reg == p.inputs[0].reg ? j : i.a.v[j % i.a.size()];
                i.a = q;
            }
            for (auto &t : p.targets) if (t.op == ReduceOp::Identity) {
                size_t per = t.init.size() / p.n;
                Arr q(t.init.t, per * n);
                for (size_t j = 0; j < q.size(); ++j) q.v[j] = t.init.v[j % t.init.size()];
                t.init = q;
            }
            p.n = n;
            return "number of lanes";
        }
    }
    return nullptr;
}
struct Prg { Prog p; Model m; };
static void run_one(Src &s, const Prg &q, const char *what) {
    Session x;
    make_inputs(s, q.p, x);
    ExecOpts o;
    o.cuts = s.chance(1, 3) ? s.bits() : 0;
    execute(q.p, x, o);
    compare(q.p, x, q.m, what);
}

/// Arrays without initial value: only their length differs. No entry is
/// read that was not written before
static void bare_array(Src &s, uint32_t len, size_t n) {
    uint32_t k = 1 + (uint32_t) s.below(4);
    Var a = steal(jit_array_create(BE, VarType::UInt32, 1, len)), lane = ctr(n);
    std::vector<Var> idx;
    Arr want(VarType::UInt32, n);
    for (uint32_t i = 0; i < k; ++i) {
        Arr ix(VarType::UInt32, 1, s.below(len));
        Var v = upload(ix);
        idx.push_back(v);
        Var x = jit_op(JitOp::Mul, { lane, u32(i + 3) });
        // every lane gets a separate entry of the last write
        a = steal(jit_array_write(a.id(), v.id(), x.id(), boolean(true).id()));
        if (i + 1 == k) for (size_t l = 0; l < n; ++l) want.v[l] = (uint32_t) (l * (i + 3));
    }
    Var r = steal(jit_array_read(a.id(), idx.back().id(), boolean(true).id()));
    expect(r, want, strf("array of length %u", len).c_str());
}

/// Two kernels whose sources have the same length; the cache file of one of
/// them is then found under the name of the other
static bool twins(Src &s, bool disk) {
    static const std::vector<JitOp> same{ JitOp::Add, JitOp::Sub, JitOp::Mul, JitOp::And, JitOp::Xor };
    size_t n = 1 + s.below(40), extra = s.below(4);
    VarType t = s.pick({ VarType::UInt32, VarType::Int32, VarType::UInt64 });
    Arr a = gen_arr(s, t, n), b = gen_arr(s, t, n);
    Var va = upload(a), vb = upload(b);
    bool by_const = s.chance(1, 3);
    JitOp o1 = s.pick(same), o2 = s.pick(same);
    if (o1 == o2) by_const = true;
    uint64_t k1 = 11 + s.below(20), k2 = k1 + 1 + s.below(40);
    auto go = [&](bool second) {
        JitOp o = second && !by_const ? o2 : o1;
        Arr w(t, n), k(t, 1, second && by_const ? k2 : k1);
        for (size_t i = 0; i < n; ++i) {
            auto ev = [&](JitOp op, uint64_t x, uint64_t y) { uint64_t q[3] = { x, y, 0 }, r = 0; if (!ref_op(op, t, q, r)) fail("harness: twins"); return r; };
            uint64_t v = ev(o, a.v[i], b.v[i]);
            for (size_t j = 0; j < extra; ++j) v = ev(JitOp::Add, ev(JitOp::Xor, v, b.v[i]), a.v[i]);
            w.v[i] = ev(JitOp::Add, v, k.v[0]);
        }
        Var v = jit_op(o, { va, vb });
        for (size_t j = 0; j < extra; ++j) v = jit_op(JitOp::Add, { jit_op(JitOp::Xor, { v, vb }), va });
        v = jit_op(JitOp::Add, { v, literal(k, 1) });
        expect(v, w, second ? "second twin" : "first twin");
    };
    jit_flush_kernel_cache();
    auto added = [&](std::vector<std::string> &old) {
        std::string r;
        for (auto &f : list(".bin")) if (!std::binary_search(old.begin(), old.end(), f)) r = f;
        return r;
    };
    auto f0 = list(".bin"); go(false); std::string fa = added(f0);
    auto f1 = list(".bin"); go(true); std::string fb = added(f1);
    if (!disk || fa.empty() || fb.empty()) return false;
    std::string ca = slurp(fa), cb = slurp(fb);
    switch (s.below(3)) {
        case 0: spit(fa, cb); break;
        case 1: spit(fb, ca); break;
        default: spit(fa, cb); spit(fb, ca);
    }
    jit_flush_kernel_cache();
    if (s.flip()) { go(false); go(true); } else { go(true); go(false); }
    return true;
}

static void reinit(Src &s) {
    jit_sync_thread();
    jit_shutdown(1);
    switch (s.below(4)) {
        case 0: case 1: unsetenv("DRJIT_CACHE_MAXSIZE"); break;
        case 2: setenv("DRJIT_CACHE_MAXSIZE", s.flip() ? "1k" : "20000", 1); unlink((g_dir + "/sweep.stamp").c_str()); break;
        default: setenv("DRJIT_CACHE_MAXSIZE", s.pick({ "-4", "12Q", "99999999999999999999999", "G" }), 1); break;
    }
    switch (s.below(5)) {
        case 0: case 1: case 2: setenv("DRJIT_CACHE_DIR", g_dir.c_str(), 1); break;
        case 3: setenv("DRJIT_CACHE_DIR", (g_dir + "/sweep.stamp").c_str(), 1); break; // not a directory
        default: setenv("DRJIT_CACHE_DIR", (g_dir + "/sub").c_str(), 1); break;        // does not exist
    }
    jit_init(1u << (uint32_t) BE);
    if (!jit_has_backend(BE)) fail("the backend cannot be initialized again");
}

static void run(Src &s) {
    wipe();
    jit_flush_kernel_cache();
    Config c = gen_config(s);
    s.note("%s", c.str().c_str());
    apply_config(c);
    Gen g;
    g.arrays = (uint32_t) s.below(12); g.loops = (uint32_t) s.below(3); g.ifs = (uint32_t) s.below(3); g.calls = (uint32_t) s.below(3);
    g.side = (uint32_t) s.below(3); g.stmts = 2 + (uint32_t) s.below(6); g.depth = (uint32_t) s.below(3);
    std::vector<Prg> q;
    auto bounded = [](Prg &x) { x.m = interpret(x.p); return x.m.iterations < 200000; };
    q.push_back({ gen_program(s, g), {} });
    bounded(q[0]);
    s.note("%s", q[0].p.str().c_str());
    size_t nv = 1 + s.below(3);
    for (size_t i = 0; i < nv; ++i) {
        Prg v{ q[s.below(q.size())].p, {} };
        const char *d = mutate(s, v.p);
        if (!d || !bounded(v)) continue;
        s.note("variant %zu: another %s", q.size(), d);
        s.tag(d);
        q.push_back(std::move(v));
    }
    bool ro = false, moved = false;
    size_t steps = 3 + s.below(8), runs = 0, faults = 0;
    for (size_t i = 0; i < steps; ++i) {
        switch (s.weighted({ 10, 4, 6, 2, 1, 1, 1, 2, 3, 2 })) {
            case 0: {
                size_t k = s.below(q.size());
                s.note("run %zu", k);
                run_one(s, q[k], strf("program %zu", k).c_str());
                runs++;
                break;
            }
            case 1: jit_flush_kernel_cache(); s.note("flush"); break;
            case 2: { // damage entries of the disk cache
                auto f = list(".bin");
                if (f.empty() || moved) break;
                std::string a = s.pick(f), b = s.pick(f), c = slurp(a);
                uint64_t how = s.below(11);
                s.note("damage %zu/%zu, kind %zu", (size_t) (std::find(f.begin(), f.end(), a) - f.begin()), f.size(), (size_t) how);
                switch (how) {
                    case 0: c.resize(s.below(c.size() + 1)); spit(a, c); break;
                    case 1: if (c.empty()) break; c[s.below(c.size())] ^= (char) (1 << s.below(8)); spit(a, c); break;
                    case 2: if (c.empty()) break; c[s.below(std::min<size_t>(c.size(), 33))] ^= (char) (1 << s.below(8)); spit(a, c); break;
                    case 3: spit(a, slurp(b)); break;
                    case 4: spit(a, ""); break;
                    case 5: c.append(1 + s.below(100), (char) s.below(256)); spit(a, c); break;
                    case 6: unlink(a.c_str()); break;
                    case 7: unlink(a.c_str()); mkdir(a.c_str(), 0755); break;
                    case 8: { Src r(s.bits()); for (char &x : c) x = (char) r.below(256); spit(a, c); break; }
                    case 9: { std::string d = slurp(b); spit(a, d); spit(b, c); break; }
                    default: unlink(a.c_str()); if (symlink(s.flip() ? b.c_str() : "/nonexistent", a.c_str())) { } break;
                }
                faults++;
                if (s.chance(3, 4)) { jit_flush_kernel_cache(); s.note("flush"); }
                break;
            }
            case 3: { // writing fails in the middle of a file
                size_t k = s.below(q.size());
                rlimit old, lim;
                getrlimit(RLIMIT_FSIZE, &old);
                lim = old;
                lim.rlim_cur = s.below(6000);
                s.note("run %zu with a file size limit of %zu", k, (size_t) lim.rlim_cur);
                jit_flush_kernel_cache();
                signal(SIGXFSZ, SIG_IGN);
                setrlimit(RLIMIT_FSIZE, &lim);
                std::string err;
                try { run_one(s, q[k], "program on a full disk"); } catch (const vt::Fail &e) { err = e.msg; }
                setrlimit(RLIMIT_FSIZE, &old);
                if (!err.empty()) fail("%s", err.c_str());
                faults++; runs++;
                break;
            }
            case 4: { // the directory may not be written
                size_t k = s.below(q.size());
                if (moved || seteuid(65534)) break;
                if (seteuid(0)) _exit(78);
                s.note("run %zu in a directory that is not writable", k);
                chmod(g_dir.c_str(), 0555);
                if (s.flip()) jit_flush_kernel_cache();
                if (seteuid(65534)) break;
                std::string err;
                try { run_one(s, q[k], "program without permission to write"); } catch (const vt::Fail &e) { err = e.msg; }
                if (seteuid(0)) _exit(78);
                chmod(g_dir.c_str(), 0755);
                if (!err.empty()) fail("%s", err.c_str());
                ro = true; faults++; runs++;
                break;
            }
            case 5: { // the directory disappears
                s.note("directory removed");
                wipe(); rmdir(g_dir.c_str());
                if (s.flip()) jit_flush_kernel_cache();
                size_t k = s.below(q.size());
                std::string err;
                try { run_one(s, q[k], "program without cache directory"); } catch (const vt::Fail &e) { err = e.msg; }
                mkdir(g_dir.c_str(), 0755);
                if (!err.empty()) fail("%s", err.c_str());
                faults++; runs++;
                break;
            }
            case 6: s.note("initialize again"); reinit(s); apply_config(c); moved = strcmp(getenv("DRJIT_CACHE_DIR"), g_dir.c_str()) != 0; break;
            case 7: { // other settings
                Config d = gen_config(s);
                d.threads = c.threads; d.mode = c.mode;
                s.note("settings %s", d.str().c_str());
                jit_sync_thread();
                apply_config(d);
                c = d;
                break;
            }
            case 9: {
                s.note("twins");
                if (twins(s, !moved)) { s.tag("exchanged twins"); faults++; }
                runs++;
                break;
            }
            default: {
                uint32_t l = 1 + (uint32_t) (s.chance(1, 3) ? s.below(3000) : s.below(6));
                size_t n = 1 + s.below(30);
                s.note("bare array %u", l);
                bare_array(s, l, n);
                runs++;
            }
        }
    }
    (void) ro;
    for (auto &f : list(".tmp")) fail("temporary file %s left behind", f.c_str());
    if (strcmp(getenv("DRJIT_CACHE_DIR"), g_dir.c_str()) || ro) {
        unsetenv("DRJIT_CACHE_MAXSIZE");
        setenv("DRJIT_CACHE_DIR", g_dir.c_str(), 1);
        jit_sync_thread(); jit_shutdown(1); jit_init(1u << (uint32_t) BE);
        rmdir((g_dir + "/sub").c_str());
        apply_config(c);
    }
    end_case();
    s.tag("runs", runs);
    s.tag("faults", faults);
    if (runs > 1) s.nontrivial();
}

static void setup() {
    g_dir = strf("%s/cache.%d", getenv("VT_SCRATCH"), (int) getpid());
    mkdir(g_dir.c_str(), 0755);
    chmod(getenv("VT_SCRATCH"), 0755);
    setenv("DRJIT_CACHE_DIR", g_dir.c_str(), 1);
    init_process();
}

vt::Property vt::make_property() {
    Property p;
    p.id = "P24";
    p.rule = "A random structured program and variants of it that differ in one detail (a constant, an operation, a mask, the length of an array, the order of callables, "
             "a reduction, the number of lanes) run in random order in one process, with changes of flags and vector width in between. Pairs of kernels with sources of equal length exchange their cache files. The kernel cache in memory is flushed and "
             "the entries on disk are truncated, altered, exchanged, emptied, extended, deleted, replaced by directories or links; writing fails midway (file size limit), for lack of permission or because "
             "the directory is gone; the library is shut down and initialized again with other cache settings, partly evicting entries. Every run is compared with the reference "
             "interpreter; no temporary file may remain. Non-trivial: at least two runs.";
    p.setup = setup;
    p.run = run;
    p.batch = 20;
    return p;
}
