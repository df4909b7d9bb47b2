// Property-based testing engine: recorded choice sequences, forked batches,
// crash/hang detection, shrinking, replay files and evidence.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
#include <initializer_list>
#include <algorithm>

namespace vt {

/// Thrown by an oracle when the property does not hold
struct Fail {
    std::string msg;
};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/// Source of all random decisions of a case. Every decision is recorded, so
/// that a case can be replayed and shrunk by editing the decision sequence.
class Src {
public:
    explicit Src(uint64_t seed) : m_state(seed) {}
    explicit Src(std::vector<uint64_t> choices)
        : m_replay(true), m_choices(std::move(choices)) { }
    /// Decisions and text are also written here, so that they survive a crash
    struct Sink { uint64_t *n, cap, *data; char *text; uint32_t text_cap; };
    void attach(Sink k) { m_sink = k; *k.n = 0; k.text[0] = 0; }

    /// Uniform in [0, n). 0 is the simplest value
    uint64_t below(uint64_t n) {
        if (n <= 1)
            return 0;
        uint64_t v;
        if (m_replay)
            v = m_pos < m_choices.size() ? m_choices[m_pos] % n : 0;
        else
            v = (uint64_t) (((__uint128_t) next() * n) >> 64);
        rec(v);
        return v;
    }
    /// Any 64 bit value
    uint64_t bits() {
        uint64_t v = m_replay ? (m_pos < m_choices.size() ? m_choices[m_pos] : 0)
                              : next();
        rec(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
    /// True with probability num/den; false is simpler
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
    bool flip() { return chance(1, 2); }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return v.begin()[below(v.size())]; }
    /// Index drawn with the given weights
    size_t weighted(const std::vector<uint32_t> &w) {
        uint64_t sum = 0;
        for (uint32_t x : w) sum += x;
        uint64_t r = below(sum);
        size_t i = 0;
        for (uint32_t x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    /// Sizes: small values likely, occasionally up to 'hi'
    uint64_t small(uint64_t lo, uint64_t hi) {
        switch (below(4)) {
            case 0: return lo + below(std::min<uint64_t>(4, hi - lo + 1));
            case 1: return lo + below(std::min<uint64_t>(20, hi - lo + 1));
            case 2: return lo + below(std::min<uint64_t>(70, hi - lo + 1));
            default: return lo + below(hi - lo + 1);
        }
    }

    const std::vector<uint64_t> &used() const { return m_used; }
    bool exhausted() const { return m_replay && m_pos > m_choices.size(); }

    // -- Reporting ------------------------------------------------------
    /// Append to the human-readable description of the case
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    /// Count the case into a class (shown in the evidence)
    void tag(const char *name, uint64_t n = 1);
    /// Declare the case non-trivial
    void nontrivial() { m_nontrivial = true; }
    bool is_nontrivial() const { return m_nontrivial; }
    std::string desc;
    std::vector<std::pair<std::string, uint64_t>> tags;

private:
    uint64_t next() { // splitmix64
        uint64_t z = (m_state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    bool m_replay = false;
    std::vector<uint64_t> m_choices, m_used;
    void rec(uint64_t v) {
        m_pos++;
        m_used.push_back(v);
        if (m_sink.n && *m_sink.n < m_sink.cap)
            m_sink.data[(*m_sink.n)++] = v;
    }
    size_t m_pos = 0;
    uint64_t m_state = 0;
    bool m_nontrivial = false;
    Sink m_sink {};
};

struct Property {
    const char *id;
    const char *rule;               ///< how cases are made and what is non-trivial
    std::function<void()> setup;    ///< once per process, before the first case
    std::function<void(Src &)> run; ///< one case; throws Fail
    uint32_t batch = 40;            ///< cases per process
    double hang_s = 60;             ///< a case that takes longer hangs
    uint32_t jobs = 8;              ///< processes
    /// Checks that confirm that each known finding still occurs: returns text
    std::vector<std::pair<std::string, std::function<bool()>>> known;
    std::vector<std::string> assumptions;
    std::function<void()> finish;   ///< once per process after the last case
    uint32_t quick_s = 25, thorough_s = 600;
    const char *flavor_note = "";
};

/// Defined by each property file
Property make_property();

/// Current tier ("quick"/"thorough") of the run
bool thorough();

} // namespace vt
