// Common monitor runtime: seeded generator, violation log, coverage counters, crash context.
// Does not include <opt/option.hpp> and knows nothing about it.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mon {

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

struct State {
    std::uint64_t seed = 1;
    std::uint64_t scale = 1;       // multiplies the number of cases
    std::uint64_t evaluations = 0; // oracle evaluations
    std::uint64_t violations = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> counters;
    std::map<std::string, unsigned> reported; // per key
    std::vector<std::string> samples;
    std::uint64_t digest = 1469598103934665603ull;
    char context[2048] = {};
    const char* only = nullptr;    // restrict to a sub-suite (replay)
};
#ifdef MON_THREADS
// Every thread has a state of its own; threads merges them.
inline State& root() { static State* s = new State; return *s; }
inline thread_local State* tls = nullptr;
inline State& st() { return tls ? *tls : root(); }
inline void merge(State& into, const State& x) {
    into.evaluations += x.evaluations; into.violations += x.violations;
    into.distinct.insert(x.distinct.begin(), x.distinct.end());
    for (auto& kv : x.counters) into.counters[kv.first] += kv.second;
}
#else
inline State& st() { static State* s = new State; return *s; }
#endif

inline void context(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void context(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    std::vsnprintf(st().context, sizeof st().context, fmt, ap);
    va_end(ap);
}
inline void violation(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void violation(const std::string& key, const char* fmt, ...) {
    State& s = st();
    ++s.violations;
    if (s.reported[key]++ >= 3 || s.reported.size() > 200) { return; }
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    std::printf("@V %s | %s | context: %s\n", key.c_str(), buf, s.context);
    std::fflush(stdout);
}
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
inline std::uint64_t hash_str(const char* p) {
    std::uint64_t h = 1469598103934665603ull;
    for (; *p; ++p) { h ^= static_cast<unsigned char>(*p); h *= 1099511628211ull; }
    return h;
}
inline void seen(std::uint64_t h) { if (st().distinct.size() < 4000000) st().distinct.insert(h); }
inline void seen(const std::string& s) { seen(hash_str(s.c_str())); }
inline void count(const char* name, std::uint64_t n = 1) { st().counters[name] += n; }
inline void digest(std::uint64_t v) { st().digest = mix(st().digest, v); }
inline void sample(const std::string& s) { if (st().samples.size() < 8) st().samples.push_back(s); }

inline std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (static_cast<unsigned char>(c) < 32) { r += ' '; }
        else r += c;
    }
    return r;
}
inline void death() {
    std::fprintf(stderr, "\n@CONTEXT %s\n", st().context);
    std::fflush(stderr);
}
inline void on_signal(int sig) {
    char b[64]; int n = std::snprintf(b, sizeof b, "\n@SIGNAL %d\n@CONTEXT ", sig);
    (void)!write(2, b, static_cast<size_t>(n));
    (void)!write(2, st().context, std::strlen(st().context));
    (void)!write(2, "\n", 1);
    std::signal(sig, SIG_DFL);
    std::raise(sig);
}
inline void init(int argc, char** argv) {
    State& s = st();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") s.seed = std::strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--scale") s.scale = std::strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--only") s.only = argv[i + 1];
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(&death);
#if !defined(__SANITIZE_ADDRESS__)
    for (int sg : {SIGSEGV, SIGBUS, SIGFPE}) std::signal(sg, on_signal);
#endif
    for (int sg : {SIGABRT, SIGILL, SIGTRAP}) std::signal(sg, on_signal);
}
struct verify_state { std::uint64_t evaluated = 0, fired = 0; const char* last = ""; };
#ifdef MON_THREADS
inline verify_state& vs() { static thread_local verify_state v; return v; }
#else
inline verify_state& vs() { static verify_state v; return v; }
#endif
inline int finish() {
    State& s = st();
    if (vs().evaluated) count("debug checks evaluated", vs().evaluated);
    std::printf("@S {\"evaluations\": %llu, \"distinct\": %llu, \"violations\": %llu, \"digest\": \"%016llx\", \"counters\": {",
        (unsigned long long)s.evaluations, (unsigned long long)s.distinct.size(),
        (unsigned long long)s.violations, (unsigned long long)s.digest);
    bool first = true;
    for (auto& kv : s.counters) {
        std::printf("%s\"%s\": %llu", first ? "" : ", ", esc(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    std::printf("}, \"samples\": [");
    first = true;
    for (auto& x : s.samples) { std::printf("%s\"%s\"", first ? "" : ", ", esc(x).c_str()); first = false; }
    std::printf("]}\n");
    std::fflush(stdout);
    return 0;
}
} // namespace mon

// One oracle evaluation.
#define MCHECK(cond, key, ...) \
    do { ++::mon::st().evaluations; if (!(cond)) ::mon::violation((key), __VA_ARGS__); } while (0)

// The library's debug checks, routed to the monitor: a check that fires in a conforming program is itself an event.
#ifdef MON_VERIFY
namespace mon {
inline constexpr bool is_const_eval() noexcept {
#if defined(__has_builtin)
    return __builtin_is_constant_evaluated();
#else
    return false;
#endif
}
inline void verify_event(bool ok, const char* expr, const char* file, int line) noexcept {
    ++vs().evaluated;
    if (!ok) { ++vs().fired; vs().last = expr; violation("false-diagnostic", "a debug check fired in a conforming program: %s (%s:%d)", expr, file, line); }
}
}
#define OPTION_VERIFY(expression, message) \
    (::mon::is_const_eval() ? (void)0 : ::mon::verify_event(static_cast<bool>(expression), #expression " -- " message, __FILE__, __LINE__))
#endif
