// P28: the text buffer compared with std::string
#include "vt.h"
#include "src/strbuf.h"
#include <string>
using vt::Src; using vt::fail; using vt::strf;

// ---- Buffer ----------------------------------------------------------------
static uint64_t gen_num(Src &s) {
    switch (s.below(4)) {
        case 0: { uint64_t p = 1; for (uint64_t k = s.below(20); k; --k) p *= 10; return p + s.range(-2, 2); }
        case 1: return s.bits() >> s.below(64);
        case 2: { uint64_t a = s.below(1000); for (uint64_t k = s.below(16); k; --k) a = a * 10 + (s.chance(1, 3) ? 9 : 0); return a; }
        default: return (1ull << s.below(64)) + s.range(-1, 1);
    }
}
void case_buffer(Src &s) {
    StringBuffer b(s.pick({ 0, 1, 2, 16, 100, 1024 })), other(s.pick({ 0, 5 }));
    std::string m, mo; size_t steps = 3 + s.below(60);
    auto check = [&](const char *what) {
        std::string got = b.size() ? std::string(b.get(), b.size()) : "";
        if (got != m) fail("%s: text is '%s' instead of '%s'", what, got.c_str(), m.c_str());
        if (b.get() && strlen(b.get()) != m.size() && m.find('\0') == std::string::npos) fail("%s: terminator is missing", what);
    };
    auto word = [&]() { std::string w; for (size_t k = s.small(0, 90); k; --k) w += (char) ('a' + s.below(26)); return w; };
    for (size_t i = 0; i < steps; ++i) {
        const char *what = "";
        switch (s.below(14)) {
            case 0: { uint32_t v = (uint32_t) gen_num(s); what = "put_u32"; b.put_u32(v); m += strf("%u", v); b.put('.'); m += '.'; break; }
            case 1: { uint64_t v = gen_num(s); what = "put_u64"; b.put_u64(v); m += strf("%lu", (unsigned long) v); b.put(' '); m += ' '; break; }
            case 2: { uint32_t v = (uint32_t) gen_num(s); what = "put_x32"; b.put_x32(v); m += strf("%x", v); b.put('x'); m += 'x'; break; }
            case 3: { uint64_t v = gen_num(s); what = "put_x64"; b.put_x64(v); m += strf("%lx", (unsigned long) v); b.put(','); m += ','; break; }
            case 4: { std::string w = word(); what = "put string"; b.put(w.c_str(), w.size()); m += w; break; }
            case 5: { char c = (char) ('A' + s.below(26)); size_t k = s.small(0, 300); what = "put repeated"; b.put(c, k); m += std::string(k, c); break; }
            case 6: { uint64_t v = gen_num(s); std::string w = word(); int q = (int) s.range(-999, 999); what = "fmt";
                      std::string e = strf("<%s|%lu|%i|%g>", w.c_str(), (unsigned long) v, q, q / 8.0);
                      size_t r = b.fmt("<%s|%lu|%i|%g>", w.c_str(), (unsigned long) v, q, q / 8.0);
                      if (r != e.size()) fail("fmt() returned %zu instead of %zu", r, e.size());
                      m += e; break; }
            case 7: if (m.empty()) break; { size_t p = s.below(m.size() + 1); what = "rewind_to"; b.rewind_to(p); m.resize(p); break; }
            case 8: if (m.empty()) break; { size_t p = s.below(m.size() + 1); what = "rewind"; b.rewind(p); m.resize(m.size() - p); break; }
            case 9: if (m.empty()) break; { size_t from = s.below(m.size() + 1), to = s.below(from + 1); what = "move_suffix";
                      b.move_suffix(from, to); m = m.substr(0, to) + m.substr(from) + m.substr(to, from - to); break; }
            case 10: { what = "delete_trailing_commas"; if (s.flip()) { b.put(", , "); m += ", , "; }
                       b.delete_trailing_commas(); while (!m.empty() && (m.back() == ',' || m.back() == ' ')) m.pop_back();
                       b.put(';'); m += ';'; break; }
            case 11: if (s.chance(1, 3)) { what = "clear"; b.clear(); m.clear(); } break;
            case 12: { what = "swap"; b.swap(other); m.swap(mo); break; }
            case 13: { what = "move"; StringBuffer c(std::move(b)); StringBuffer d; d = std::move(c); b = std::move(d); break; }
        }
        check(what);
    }
    s.tag("buffer steps", steps);
    s.nontrivial();
}

