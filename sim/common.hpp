// Shared pieces of the deterministic simulators: seeded PRNG, scripts (the
// complete decision list of one run), event log, violation sink, allocator seam.
#ifndef SIM_COMMON_HPP
#define SIM_COMMON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u32 u() { return (u32)(next() >> 32); }
    u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((u32)(b - a + 1)); }
    double real() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * real(); }
    bool chance(double p) { return real() < p; }
};

// ---------------------------------------------------------------- script
struct Fault { std::string kind; u32 at, arg; };
struct Op { std::string name; u32 a, b, c; std::vector<Fault> faults; };
struct Script {
    std::map<std::string, long> cfg;
    std::vector<Op> ops;
    long get(const std::string &k, long d = 0) const {
        std::map<std::string, long>::const_iterator it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
    std::string text() const {
        std::ostringstream o;
        for (std::map<std::string, long>::const_iterator it = cfg.begin(); it != cfg.end(); ++it)
            o << "cfg " << it->first << " " << it->second << "\n";
        for (size_t i = 0; i < ops.size(); ++i) {
            o << "op " << ops[i].name << " " << ops[i].a << " " << ops[i].b << " " << ops[i].c;
            for (size_t j = 0; j < ops[i].faults.size(); ++j)
                o << " ! " << ops[i].faults[j].kind << " " << ops[i].faults[j].at << " " << ops[i].faults[j].arg;
            o << "\n";
        }
        return o.str();
    }
    bool parse(std::istream &in) {
        std::string line;
        while (std::getline(in, line)) {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream l(line);
            std::string k;
            l >> k;
            if (k == "cfg") { std::string n; long v; l >> n >> v; cfg[n] = v; }
            else if (k == "op") {
                Op op; l >> op.name >> op.a >> op.b >> op.c;
                std::string t;
                while (l >> t) { if (t != "!") return false; Fault f; l >> f.kind >> f.at >> f.arg; op.faults.push_back(f); }
                ops.push_back(op);
            }
        }
        return true;
    }
};

// ---------------------------------------------------------------- event log
struct EventLog {
    u64 hash; bool verbose; unsigned long count;
    EventLog() : hash(1469598103934665603ull), verbose(false), count(0) {}
    void bytes(const void *p, size_t n) {
        const unsigned char *c = (const unsigned char *)p;
        for (size_t i = 0; i < n; ++i) { hash ^= c[i]; hash *= 1099511628211ull; }
    }
    void line(const std::string &s) {
        ++count;
        bytes(s.data(), s.size());
        if (verbose) { fputs("  | ", stdout); fputs(s.c_str(), stdout); fputc('\n', stdout); }
    }
};
extern EventLog g_log;
inline void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline void logf(const char *fmt, ...) {
    char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    g_log.line(buf);
}
inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *fmt, ...) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    return buf;
}
inline u64 hashStr(const std::string &s, u64 h = 1469598103934665603ull) {
    for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; }
    return h;
}

// ---------------------------------------------------------------- violations
struct ViolationSink {
    std::string prop;          // property under check ("" = all)
    bool hit; std::string cls, detail; long opIndex;
    ViolationSink() : hit(false), opIndex(-1) {}
    void reset() { hit = false; cls.clear(); detail.clear(); opIndex = -1; }
    bool wants(const char *p) const { return prop.empty() || prop == p; }
};
extern ViolationSink g_viol;
extern long g_opIndex;
// report under property p (several calls may name several properties)
inline void violation(const char *p, const std::string &cls, const std::string &detail) {
    if (!g_viol.wants(p) || g_viol.hit) return;
    g_viol.hit = true; g_viol.cls = std::string(p) + ":" + cls; g_viol.detail = detail; g_viol.opIndex = g_opIndex;
}

// ---------------------------------------------------------------- allocator seam
struct AllocSeam { bool armed; long countdown; bool fired; unsigned long total, opTotal, opLimit; };
extern AllocSeam g_alloc;
void simRunaway(const char *what);

// ---------------------------------------------------------------- statistics
struct Stats {
    std::map<std::string, unsigned long> n;
    std::set<u64> sigs, states;
    void inc(const std::string &k, unsigned long d = 1) { n[k] += d; }
    void sig(const std::string &s) { if (sigs.size() < 60000) sigs.insert(hashStr(s)); }
    void state(u64 h) { if (states.size() < 60000) states.insert(h); }
};
extern Stats g_stats;

#define SIM_COMMON_GLOBALS \
    EventLog g_log; ViolationSink g_viol; long g_opIndex = -1; Stats g_stats; \
    AllocSeam g_alloc = { false, 0, false, 0, 0, 0 };
#endif
