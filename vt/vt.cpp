#include "vt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <exception>

namespace vt {

static bool g_thorough = false;
bool thorough() { return g_thorough; }

static std::string vstrf(const char *fmt, va_list ap) {
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    std::string s((size_t) n, '\0');
    vsnprintf(&s[0], (size_t) n + 1, fmt, ap);
    return s;
}
std::string strf(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    std::string s = vstrf(fmt, ap);
    va_end(ap);
    return s;
}
void fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    std::string s = vstrf(fmt, ap);
    va_end(ap);
    throw Fail{ s };
}
void Src::note(const char *fmt, ...) {
    if (desc.size() > 20000) return;
    va_list ap; va_start(ap, fmt);
    size_t n0 = desc.size();
    desc += vstrf(fmt, ap);
    va_end(ap);
    desc += '\n';
    if (m_sink.n) {
        size_t k = std::min<size_t>(desc.size(), m_sink.text_cap - 1);
        if (k > n0) { memcpy(m_sink.text + n0, desc.data() + n0, k - n0); m_sink.text[k] = 0; }
    }
    if (getenv("VT_TRACE")) fputs(desc.c_str() + n0, stderr);
}
void Src::tag(const char *name, uint64_t n) {
    for (auto &t : tags)
        if (t.first == name) { t.second += n; return; }
    tags.emplace_back(name, n);
}

static double now() {
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

constexpr size_t MaxTags = 512, TextSize = 1 << 16, MaxChoices = 1 << 17, MaxHashes = 1 << 21;

struct Slot {
    std::atomic<uint64_t> index;      // case being run, +1
    double start;
    uint32_t done;                    // cases finished in this batch
    int failed;                       // 1: Fail thrown
    char text[TextSize];
    char desc[TextSize];
    uint64_t n_choices;
    uint64_t choices[MaxChoices];
};
struct Shared {
    std::atomic<uint64_t> cases, nontrivial, n_hash;
    uint64_t hash[MaxHashes];
    std::atomic<int> tag_lock;
    uint32_t n_tags;
    struct { char name[56]; uint64_t cases, sum; } tags[MaxTags];
    char sample[4][8192];
    std::atomic<int> n_samples;
    Slot slot[64];
};
static Shared *sh;
static Property prop;
static uint64_t g_seed = 1;

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t case_seed(uint64_t idx) {
    uint64_t h = g_seed;
    for (const char *p = prop.id; *p; ++p) h = mix(h, (uint64_t) *p);
    return mix(h, idx);
}
static void put_text(char *dst, size_t n, const std::string &s) {
    size_t k = std::min(n - 1, s.size());
    memcpy(dst, s.data(), k);
    dst[k] = 0;
}

static void account(Src &s) {
    sh->cases++;
    uint64_t h = 1;
    for (uint64_t c : s.used()) h = mix(h, c);
    if (s.is_nontrivial()) {
        sh->nontrivial++;
        uint64_t i = sh->n_hash++;
        if (i < MaxHashes) sh->hash[i] = h;
        if (sh->n_samples < 4 && s.desc.size() > 10 && s.desc.size() < 8000) {
            int k = sh->n_samples++;
            if (k < 4) put_text(sh->sample[k], 8192, s.desc);
        }
    }
    while (sh->tag_lock.exchange(1)) {}
    for (auto &t : s.tags) {
        uint32_t i = 0;
        for (; i < sh->n_tags; ++i)
            if (t.first == sh->tags[i].name) break;
        if (i == sh->n_tags) {
            if (i == MaxTags) continue;
            put_text(sh->tags[i].name, 56, t.first);
            sh->n_tags++;
        }
        sh->tags[i].cases++;
        sh->tags[i].sum += t.second;
    }
    sh->tag_lock = 0;
}

/// Run one case in this process. Returns true if it failed
static bool run_case(Src &s, Slot &slot) {
    std::string msg;
    bool failed = false;
    s.attach({ &slot.n_choices, MaxChoices, slot.choices, slot.desc, TextSize });
    try {
        prop.run(s);
    } catch (const Fail &f) {
        failed = true; msg = f.msg;
    } catch (const std::exception &e) {
        failed = true; msg = std::string("unexpected exception: ") + e.what();
    }
    if (failed) {
        put_text(slot.text, TextSize, msg);
        slot.failed = 1;
    }
    return failed;
}

static void child_limits() {
    rlimit rl{ 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if (!getenv("VT_VERBOSE")) {
        // keep stderr in a file so that sanitizer reports can be shown
        std::string p = strf("%s/stderr.%d", getenv("VT_SCRATCH"), (int) getpid());
        int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        close(fd);
    }
    setpgid(0, 0);
}
static std::string child_stderr(pid_t pid) {
    std::string p = strf("%s/stderr.%d", getenv("VT_SCRATCH"), (int) pid);
    std::ifstream f(p);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    f.close();
    unlink(p.c_str());
    if (s.size() > 6000) s = s.substr(0, 3000) + "\n[...]\n" + s.substr(s.size() - 3000);
    return s;
}

struct Outcome {
    enum Kind { Pass, Failed, Crash, Hang, Killed } kind = Pass;
    std::string msg, desc;
    std::vector<uint64_t> choices;
    uint64_t index = 0;
    bool bad() const { return kind == Failed || kind == Crash || kind == Hang; }
};

static Outcome interpret(Slot &slot, pid_t pid, int status, bool hung) {
    Outcome o;
    o.index = slot.index ? slot.index - 1 : 0;
    o.desc = slot.desc;
    o.choices.assign(slot.choices, slot.choices + slot.n_choices);
    std::string err = child_stderr(pid);
    if (hung) {
        o.kind = Outcome::Hang;
        o.msg = "case does not terminate";
    } else if (slot.failed) {
        o.kind = Outcome::Failed;
        o.msg = slot.text;
    } else if (WIFSIGNALED(status)) {
        if (WTERMSIG(status) == SIGKILL) { o.kind = Outcome::Killed; o.msg = "killed"; }
        else { o.kind = Outcome::Crash; o.msg = strf("process died from signal %d (%s)\n", WTERMSIG(status), strsignal(WTERMSIG(status))) + err; }
    } else if (WEXITSTATUS(status) != 0) {
        o.kind = Outcome::Crash;
        o.msg = strf("process exited with code %d\n", WEXITSTATUS(status)) + err;
    }
    if (o.bad() && !err.empty() && o.kind == Outcome::Failed && getenv("VT_STDERR"))
        o.msg += "\n" + err;
    return o;
}

static std::vector<uint64_t> batch_indices(uint64_t b) {
    std::vector<uint64_t> v;
    for (uint64_t i = 0; i < prop.batch; ++i) v.push_back(b * prop.batch + i);
    return v;
}

[[noreturn]] static void child_batch(Slot &slot, const std::vector<uint64_t> &idx, bool acc) {
    child_limits();
    try {
        if (prop.setup) prop.setup();
    } catch (const std::exception &e) {
        fprintf(stderr, "setup failed: %s\n", e.what()); _exit(77);
    }
    for (uint64_t i : idx) {
        slot.start = now();
        slot.index = i + 1;
        Src s(case_seed(i));
        if (getenv("VT_TRACE")) { fprintf(stderr, "## case %lu\n", (unsigned long) i); }
        bool f = run_case(s, slot);
        if (acc) account(s);
        slot.done++;
        if (f) _exit(10);
    }
    slot.index = 0;
    try {
        if (prop.finish) prop.finish();
    } catch (const Fail &f) {
        put_text(slot.text, TextSize, "at the end of the batch: " + f.msg);
        put_text(slot.desc, TextSize, "(whole batch)");
        slot.n_choices = 0;
        slot.index = idx.back() + 1;
        slot.failed = 1;
        _exit(10);
    }
    fflush(stdout);
    _exit(0);
}
[[noreturn]] static void child_choices(Slot &slot, const std::vector<uint64_t> &c) {
    child_limits();
    try {
        if (prop.setup) prop.setup();
    } catch (...) { _exit(77); }
    slot.start = now();
    slot.index = 1;
    Src s(c);
    bool f = run_case(s, slot);
    if (!f && prop.finish) {
        try { prop.finish(); } catch (const Fail &e) {
            put_text(slot.text, TextSize, e.msg);
            slot.failed = 1; f = true;
        }
    }
    _exit(f ? 10 : 0);
}

struct Job { pid_t pid = 0; double start = 0; uint64_t tag = 0; };

static pid_t spawn(Slot &slot, const std::function<void(Slot &)> &fn) {
    slot.index = 0; slot.start = now(); slot.done = 0; slot.failed = 0; slot.text[0] = slot.desc[0] = 0; slot.n_choices = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
#if !__has_feature(thread_sanitizer) && !__has_feature(address_sanitizer)
        // Code that runs out of control must not exhaust the machine
        struct rlimit rl { 6ull << 30, 6ull << 30 };
        setrlimit(RLIMIT_DATA, &rl);
#endif
        fn(slot);
        _exit(0);
    }
    if (pid < 0) { perror("fork"); exit(2); }
    setpgid(pid, pid);
    return pid;
}
static void kill_job(pid_t pid) {
    kill(-pid, SIGKILL); kill(pid, SIGKILL);
}

/// Run several children in parallel, one per entry; returns their outcomes
static std::vector<Outcome> run_parallel(const std::vector<std::function<void(Slot &)>> &fns, double hang_s) {
    std::vector<Outcome> out(fns.size());
    std::vector<Job> jobs(fns.size());
    size_t next = 0, alive = 0;
    std::vector<int> free_slots;
    for (int i = 63; i >= 64 - (int) prop.jobs; --i) free_slots.push_back(i);
    std::map<pid_t, std::pair<size_t, int>> live;
    while (next < fns.size() || alive) {
        while (next < fns.size() && !free_slots.empty()) {
            int sl = free_slots.back(); free_slots.pop_back();
            pid_t p = spawn(sh->slot[sl], fns[next]);
            live[p] = { next, sl };
            next++; alive++;
        }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0 && live.count(p)) {
            auto [k, sl] = live[p];
            out[k] = interpret(sh->slot[sl], p, st, false);
            kill(-p, SIGKILL);
            live.erase(p); free_slots.push_back(sl); alive--;
            continue;
        }
        for (auto it = live.begin(); it != live.end();) {
            auto [k, sl] = it->second;
            if (now() - sh->slot[sl].start > hang_s) {
                kill_job(it->first); waitpid(it->first, &st, 0);
                out[k] = interpret(sh->slot[sl], it->first, st, true);
                free_slots.push_back(sl); alive--;
                it = live.erase(it);
            } else ++it;
        }
        usleep(500);
    }
    return out;
}
static Outcome run_choices(const std::vector<uint64_t> &c, double hang_s) {
    return run_parallel({ [c](Slot &s) { child_choices(s, c); } }, hang_s)[0];
}

static Outcome shrink(Outcome best, double budget) {
    double end = now() + budget;
    double hang = best.kind == Outcome::Hang ? 20 : prop.hang_s;
    std::vector<uint64_t> cur = best.choices;
    auto attempt = [&](std::vector<std::vector<uint64_t>> cands) -> int {
        std::vector<std::function<void(Slot &)>> fns;
        for (auto &c : cands) fns.push_back([c](Slot &s) { child_choices(s, c); });
        auto outs = run_parallel(fns, hang);
        for (size_t i = 0; i < outs.size(); ++i)
            if (outs[i].bad()) {
                auto &o = outs[i];
                while (!o.choices.empty() && o.choices.back() == 0) o.choices.pop_back();
                if (o.choices.size() > cur.size()) continue;
                if (o.choices == cur) continue;
                if (o.choices.size() == cur.size() && !std::lexicographical_compare(o.choices.begin(), o.choices.end(), cur.begin(), cur.end())) continue;
                best = o; cur = o.choices;
                return (int) i;
            }
        return -1;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // delete chunks
        for (size_t len : { 256u, 128u, 64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u }) {
            if (len > cur.size()) continue;
            size_t i = cur.size() >= len ? cur.size() - len : 0;
            while (now() < end) {
                std::vector<std::vector<uint64_t>> cands;
                size_t j = i;
                for (uint32_t k = 0; k < prop.jobs; ++k) {
                    if (j + len <= cur.size()) {
                        auto c = cur; c.erase(c.begin() + j, c.begin() + j + len);
                        cands.push_back(c);
                    }
                    if (j == 0) break;
                    j = j >= std::max<size_t>(1, len / 2) ? j - std::max<size_t>(1, len / 2) : 0;
                }
                if (cands.empty()) break;
                if (attempt(cands) >= 0) { progress = true; if (i > cur.size()) i = cur.size() >= len ? cur.size() - len : 0; if (cur.size() < len) break; continue; }
                if (j == 0 && i == 0) break;
                i = j;
                if (i == 0 && cands.size() < prop.jobs) break;
            }
        }
        // zero chunks, then minimise single values
        for (size_t len : { 16u, 4u, 1u }) {
            for (size_t i = 0; i < cur.size() && now() < end;) {
                std::vector<std::vector<uint64_t>> cands;
                size_t j = i;
                for (uint32_t k = 0; k < prop.jobs && j < cur.size(); ++k, j += len) {
                    auto c = cur; bool ch = false;
                    for (size_t q = j; q < std::min(cur.size(), j + len); ++q) { ch |= c[q] != 0; c[q] = 0; }
                    if (ch) cands.push_back(c);
                }
                if (!cands.empty() && attempt(cands) >= 0) progress = true;
                i = j;
            }
        }
        for (size_t i = 0; i < cur.size() && now() < end; ++i) {
            if (cur[i] == 0) continue;
            uint64_t v = cur[i];
            std::vector<std::vector<uint64_t>> cands;
            for (uint64_t w : { (uint64_t) 1, v >> 32, v >> 8, v / 2, v - v / 4, v - 1 })
                if (w < v && w > 0) { auto c = cur; c[i] = w; cands.push_back(c); }
            if (!cands.empty() && attempt(cands) >= 0) { progress = true; }
        }
    }
    return best;
}

static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) o += strf("\\u%04x", c); else o += (char) c;
    }
    return o + "\"";
}

static std::string g_replay_dir = "replays";

static std::string write_replay(const Outcome &o, const std::vector<uint64_t> &batch) {
    mkdir(g_replay_dir.c_str(), 0755);
    uint64_t h = 7;
    for (uint64_t c : o.choices) h = mix(h, c);
    for (uint64_t c : batch) h = mix(h, c);
    std::string path = strf("%s/%s-%016lx.replay", g_replay_dir.c_str(), prop.id, (unsigned long) h);
    std::ofstream f(path);
    f << "property " << prop.id << "\nseed " << g_seed << "\ntier " << (g_thorough ? "thorough" : "quick") << "\n";
    if (!batch.empty()) {
        f << "batch";
        for (uint64_t b : batch) f << ' ' << b;
        f << "\n";
    } else {
        f << "choices";
        for (uint64_t c : o.choices) f << ' ' << c;
        f << "\n";
    }
    f << "# " << (o.kind == Outcome::Hang ? "hang" : o.kind == Outcome::Crash ? "crash" : "mismatch") << "\n";
    std::istringstream is(o.msg + "\n--\n" + o.desc);
    std::string line;
    while (std::getline(is, line)) f << "# " << line << "\n";
    return path;
}

} // namespace vt

using namespace vt;

static int do_replay(const char *path) {
    std::ifstream f(path);
    std::string line;
    std::vector<uint64_t> choices, batch;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k; is >> k;
        uint64_t v;
        if (k == "seed") is >> g_seed;
        else if (k == "tier") { std::string t; is >> t; g_thorough = t == "thorough"; }
        else if (k == "choices") while (is >> v) choices.push_back(v);
        else if (k == "batch") while (is >> v) batch.push_back(v);
    }
    int bad = 0;
    for (int i = 0; i < 5 && !bad; ++i) {
        Outcome o = batch.empty() ? run_choices(choices, prop.hang_s)
                                  : run_parallel({ [&](Slot &s) { child_batch(s, batch, false); } }, prop.hang_s)[0];
        if (o.bad()) {
            bad = 1;
            printf("%s\n--\n%s\n", o.msg.c_str(), o.desc.c_str());
            printf("VIOLATION property=%s replay=%s\n", prop.id, path);
        }
    }
    if (!bad) printf("replay: property held\n");
    return bad;
}

int main(int argc, char **argv) {
    const char *replay = nullptr, *evidence = nullptr;
    double time_s = 0;
    uint64_t max_batches = UINT64_MAX, first_batch = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *) ""; };
        if (a == "--seed") g_seed = strtoull(val(), 0, 10);
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--time") time_s = atof(val());
        else if (a == "--batches") max_batches = strtoull(val(), 0, 10);
        else if (a == "--first") first_batch = strtoull(val(), 0, 10);
        else if (a == "--replay") replay = val();
        else if (a == "--evidence") evidence = val();
        else if (a == "--replay-dir") g_replay_dir = val();
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    char scratch[] = "/tmp/vt.XXXXXX";
    if (!mkdtemp(scratch)) { perror("mkdtemp"); return 2; }
    setenv("VT_SCRATCH", scratch, 1);
    setenv("HOME", scratch, 1);
    std::string cleanup = std::string("rm -rf ") + scratch;

    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    prop = make_property();
    if (time_s == 0) time_s = g_thorough ? prop.thorough_s : prop.quick_s;

    // Load LLVM once, so that the forked processes share it
    if (const char *p = getenv("DRJIT_LIBLLVM_PATH")) dlopen(p, RTLD_LAZY | RTLD_LOCAL);

    if (replay) { int r = do_replay(replay); int rc = system(cleanup.c_str()); (void) rc; return r; }

    double t0 = now();
    int rc = 0;
    uint64_t next = first_batch;
    std::map<pid_t, std::pair<uint64_t, int>> live;
    std::vector<int> free_slots;
    for (int i = (int) prop.jobs - 1; i >= 0; --i) free_slots.push_back(i);
    struct Bad { Outcome o; uint64_t batch; };
    std::vector<Bad> bads;
    uint64_t killed = 0, unreproduced = 0, bad_total = 0;
    std::string violation;
    Outcome final_o;

    auto confirm = [&](Bad &b) -> bool {
        // Alone, from its seed
        uint64_t idx = b.o.index;
        for (int i = 0; i < 3; ++i) {
            std::vector<std::function<void(Slot &)>> f;
            for (uint32_t k = 0; k < 4; ++k)
                f.push_back([idx](Slot &s) { child_batch(s, { idx }, false); });
            for (auto &o : run_parallel(f, prop.hang_s))
                if (o.bad()) { b.o = o; b.o.index = idx; return true; }
        }
        return false;
    };

    while (true) {
        bool more = now() - t0 < time_s && next < first_batch + max_batches && bads.empty();
        while (more && !free_slots.empty() && next < first_batch + max_batches) {
            int sl = free_slots.back(); free_slots.pop_back();
            uint64_t b = next++;
            pid_t p = spawn(sh->slot[sl], [b](Slot &s) { child_batch(s, batch_indices(b), true); });
            live[p] = { b, sl };
        }
        if (live.empty() && !more) break;
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0 && live.count(p)) {
            auto [b, sl] = live[p];
            Outcome o = interpret(sh->slot[sl], p, st, false);
            kill(-p, SIGKILL);
            if (o.kind == Outcome::Killed) killed++;
            if (o.bad()) { bads.push_back({ o, b }); bad_total++; }
            live.erase(p); free_slots.push_back(sl);
        } else {
            for (auto it = live.begin(); it != live.end();) {
                auto [b, sl] = it->second;
                if (now() - sh->slot[sl].start > prop.hang_s && sh->slot[sl].start > 0) {
                    kill_job(it->first); waitpid(it->first, &st, 0);
                    Outcome o = interpret(sh->slot[sl], it->first, st, true);
                    bads.push_back({ o, b }); bad_total++;
                    free_slots.push_back(sl);
                    it = live.erase(it);
                } else ++it;
            }
            usleep(1000);
        }
        if (!bads.empty()) {
            for (auto &l : live) { kill_job(l.first); waitpid(l.first, &st, 0); child_stderr(l.first); free_slots.push_back(l.second.second); }
            live.clear();
            Bad b = bads[0];
            bads.clear();
            fprintf(stderr, "[%s] suspicious: case %lu (batch %lu): %s\n", prop.id, (unsigned long) b.o.index, (unsigned long) b.batch, b.o.msg.substr(0, 400).c_str());
            uint64_t idx = b.o.index;
            bool alone = confirm(b);
            if (alone) {
                Outcome o = run_choices(b.o.choices, prop.hang_s);
                if (!b.o.choices.empty() && o.bad()) {
                    final_o = shrink(b.o, g_thorough ? 120 : 60);
                    violation = write_replay(final_o, {});
                } else {
                    violation = write_replay(b.o, { idx });
                    final_o = b.o;
                }
            } else {
                // Depends on the preceding cases of its batch
                std::vector<uint64_t> batch;
                for (uint64_t i : batch_indices(b.batch)) { batch.push_back(i); if (i == idx) break; }
                bool again = false;
                for (int i = 0; i < 4 && !again; ++i) {
                    std::vector<std::function<void(Slot &)>> f;
                    for (uint32_t k = 0; k < prop.jobs; ++k)
                        f.push_back([batch](Slot &s) { child_batch(s, batch, false); });
                    for (auto &o : run_parallel(f, prop.hang_s))
                        if (o.bad()) { again = true; b.o = o; }
                }
                if (again) {
                    // drop leading cases that are not needed
                    for (size_t len = batch.size() / 2; len >= 1; len /= 2) {
                        for (size_t i = 0; i + len < batch.size();) {
                            auto c = batch; c.erase(c.begin() + i, c.begin() + i + len);
                            auto os = run_parallel({ [&](Slot &s) { child_batch(s, c, false); }, [&](Slot &s) { child_batch(s, c, false); } }, prop.hang_s);
                            if (os[0].bad() || os[1].bad()) { batch = c; b.o = os[0].bad() ? os[0] : os[1]; } else i += len;
                        }
                    }
                    violation = write_replay(b.o, batch);
                    final_o = b.o;
                } else {
                    unreproduced++;
                    fprintf(stderr, "[%s] case %lu did not fail again\n", prop.id, (unsigned long) idx);
                    if (unreproduced >= 3) {
                        // Rare but recurring: report it with the whole batch
                        violation = write_replay(b.o, batch);
                        final_o = b.o;
                    }
                }
            }
            if (!violation.empty()) { rc = 1; break; }
            bads.clear();
        }
    }

    // Known findings
    uint64_t known_n = 0;
    if (rc == 0)
        for (auto &k : prop.known) {
            auto fn = k.second;
            Outcome o = run_parallel({ [fn](Slot &s) {
                child_limits();
                if (prop.setup) prop.setup();
                s.index = 1; s.start = now();
                bool f = fn();
                _exit(f ? 10 : 0);
            } }, prop.hang_s)[0];
            if (o.bad()) { printf("KNOWN-FINDING: property=%s %s\n", prop.id, k.first.c_str()); known_n++; }
            else fprintf(stderr, "[%s] known finding no longer occurs: %s\n", prop.id, k.first.c_str());
        }

    uint64_t nh = std::min<uint64_t>(sh->n_hash, MaxHashes);
    std::sort(sh->hash, sh->hash + nh);
    uint64_t distinct = (uint64_t) (std::unique(sh->hash, sh->hash + nh) - sh->hash);
    double wall = now() - t0;
    if (evidence) {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << json_str(prop.id) << ",\n \"tier\": \"" << (g_thorough ? "thorough" : "quick")
          << "\",\n \"seed\": " << g_seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << sh->cases << ",\n  \"distinct_nontrivial\": " << distinct
          << ",\n  \"rule\": " << json_str(prop.rule) << ",\n  \"samples\": [";
        int ns = std::min<int>(sh->n_samples, 4);
        for (int i = 0; i < ns; ++i) f << (i ? ", " : "") << json_str(sh->sample[i]);
        f << "],\n  \"classes\": {";
        std::vector<std::pair<std::string, std::pair<uint64_t, uint64_t>>> tg;
        for (uint32_t i = 0; i < sh->n_tags; ++i) tg.push_back({ sh->tags[i].name, { sh->tags[i].cases, sh->tags[i].sum } });
        std::sort(tg.begin(), tg.end());
        for (size_t i = 0; i < tg.size(); ++i)
            f << (i ? ", " : "") << json_str(tg[i].first) << ": " << tg[i].second.second;
        f << "},\n  \"batches\": " << (next - first_batch) << ",\n  \"killed_batches\": " << killed << ",\n  \"unreproduced\": " << unreproduced
          << ",\n  \"known_findings_seen\": " << known_n << "\n },\n \"assumptions\": [";
        for (size_t i = 0; i < prop.assumptions.size(); ++i) f << (i ? ", " : "") << json_str(prop.assumptions[i]);
        f << "],\n \"wall_s\": " << strf("%.2f", wall) << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
    }
    printf("[%s] %lu cases, %lu distinct non-trivial, %lu batches, %.1f s\n", prop.id, (unsigned long) sh->cases, (unsigned long) distinct, (unsigned long) (next - first_batch), wall);
    if (rc) {
        printf("%s\n--\n%s\n", final_o.msg.c_str(), final_o.desc.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.id, violation.c_str());
    }
    fflush(stdout);
    int r2 = system(cleanup.c_str()); (void) r2;
    return rc;
}
