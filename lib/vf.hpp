// Common runtime of the monitors: seeded generator, case loop, verdicts,
// coverage accounting.  Every harness links exactly one translation unit that
// calls vf::run().
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

// ---------------------------------------------------------------- generator
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // integer in [lo, hi]
    int in(int lo, int hi) {
        if (hi <= lo) return lo;
        return lo + int(next() % uint64_t(int64_t(hi) - lo + 1));
    }
    bool chance(double p) { return unit() < p; }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double gauss() {
        double u = unit(), v = unit();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <typename T>
    T const& pick(std::vector<T> const& v) {
        return v[next() % v.size()];
    }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a ^ (b * 0x9E3779B97F4A7C15ULL + 0x7F4A7C15ULL + (a << 6) + (a >> 2)));
    return r.next();
}

struct Hash {
    uint64_t h = 1469598103934665603ULL;
    void bytes(const void* p, size_t n) {
        const unsigned char* c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; i++) {
            h ^= c[i];
            h *= 1099511628211ULL;
        }
    }
    Hash& add(std::string const& s) {
        bytes(s.data(), s.size());
        unsigned char z = 255;
        bytes(&z, 1);
        return *this;
    }
    template <typename T>
    Hash& add(T const& v) {
        bytes(&v, sizeof v);
        return *this;
    }
};

// ---------------------------------------------------------------- formatting
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
template <typename C>
std::string show(C const& v) {
    std::ostringstream o;
    o.precision(9);
    o << "[";
    size_t n = 0;
    for (auto const& x : v) {
        if (n) o << ", ";
        if (n++ > 40) {
            o << "...";
            break;
        }
        o << x;
    }
    o << "]";
    return o.str();
}
inline std::string jesc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += char(c);
        } else if (c < 0x20 || c > 0x7e) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += char(c);
    }
    return o;
}

// ---------------------------------------------------------------- verdicts
struct Failure : std::exception {
    std::string key, msg;
    Failure(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
// the case cannot be judged (numerically degenerate); counted, never a verdict
struct Discard : std::exception {
    std::string why;
    explicit Discard(std::string w) : why(std::move(w)) {}
};

struct Case {
    uint64_t index;
    bool thorough;
    Rng rng;
    Hash sig;              // what the case was, for the distinct count
    bool nontrivial = false;
    std::string trace;     // human-readable history of the case
    std::map<std::string, uint64_t>* tallies;
    void count(std::string const& name, uint64_t n = 1) { (*tallies)[name] += n; }
    void log(std::string const& s) {
        if (trace.size() < 6000) {
            trace += s;
            trace += '\n';
        }
        sig.add(s);
        if (getenv("VF_TRACE")) fprintf(stderr, "[trace] %s\n", s.c_str());
    }
    [[noreturn]] void fail(std::string const& key, std::string const& msg) { throw Failure(key, msg); }
    void check(bool ok, std::string const& key, std::string const& msg) {
        ++(*tallies)["oracle comparisons"];
        if (!ok) throw Failure(key, msg);
    }
    template <typename F>
    void checkf(bool ok, const char* key, F&& msg) {
        ++(*tallies)["oracle comparisons"];
        if (!ok) throw Failure(key, msg());
    }
};

struct Property {
    const char* id;
    uint64_t quick, thorough;  // number of cases
    void (*fn)(Case&);
    int leakEvery = 0;         // re-run every n-th case and compare live heap bytes (< 0: the case depends on the schedule)
};

int run(int argc, char** argv, std::vector<Property> const& props);

// close(a,b): |a-b| <= abs + rel*max(|a|,|b|); equal infinities/NaNs are close
inline bool close(double a, double b, double rel, double abs = 0) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

// bytes currently allocated on the heap when the build has that accounting
size_t liveBytes();
bool haveLiveBytes();
}  // namespace vf
