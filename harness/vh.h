// Common runtime-monitoring harness: deterministic case generation, event
// counting, violation recording, and crash-proof "current case" tracking.
#ifndef VH_H
#define VH_H
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <type_traits>
#include <limits>

namespace vh {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hashBytes(s.data(), s.size(), h); }
inline uint64_t comb(uint64_t a, uint64_t b) { return mix(a ^ mix(b)); }

class Rng {
    uint64_t s;
public:
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    long range(long a, long b) { return a + static_cast<long>(below(static_cast<uint64_t>(b - a + 1))); } // inclusive
    bool chance(double p) { return unit() < p; }
    double unit() { return static_cast<double>(u64() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template<class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    std::string str(size_t maxLen, const std::string& alphabet) {
        std::string r; size_t n = below(maxLen + 1);
        for (size_t i = 0; i < n; i++) r += alphabet[below(alphabet.size())];
        return r;
    }
};

struct CaseFail : std::exception { const char* what() const noexcept override { return "case failed"; } };

struct Case {
    Rng rng;
    std::string section;
    long index = 0;
    bool thorough = false;
    std::string scratch; // private scratch directory of the process
    void ev(const std::string& name, uint64_t n = 1);       // count observed events
    void distinct(uint64_t h);                              // signature of a non-trivial case
    void sample(const std::string& s);                      // written to the evidence
    void desc(const std::string& s);                        // description for the replay file
    void fail(const std::string& kind, const std::string& msg); // records and continues
    [[noreturn]] void abortCase(const std::string& kind, const std::string& msg) { fail(kind, msg); throw CaseFail(); }
};

typedef void (*CaseFn)(Case&);
struct Section { std::string name; long quick; long thorough; CaseFn fn; };
std::vector<Section>& sections();
struct Reg { Reg(const char* n, long q, long t, CaseFn f) { sections().push_back(Section{n, q, t, f}); } };

// ---- small printing helper
template<class T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
template<class T> std::string strv(const T& c) {
    std::ostringstream o; o.precision(17); o << "["; bool f = true;
    for (const auto& x : c) { if (!f) o << ","; f = false; o << x; } o << "]"; return o.str();
}

inline bool near(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
inline bool nearAbs(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= tol;
}
} // namespace vh

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_SECTION(name, quick, thorough) \
    static void VH_CAT(vh_sec_, name)(vh::Case&); \
    static vh::Reg VH_CAT(vh_reg_, name)(#name, quick, thorough, VH_CAT(vh_sec_, name)); \
    static void VH_CAT(vh_sec_, name)(vh::Case& c)

#define VH_CHECK(c, cond, kind, msg) do { if (!(cond)) { std::ostringstream vh_o; vh_o.precision(17); vh_o << "[" #cond "] " << msg; (c).abortCase(kind, vh_o.str()); } } while (0)
// expects that the expression throws a std::exception
#define VH_THROWS(c, expr, kind, msg) do { bool vh_t = false; try { expr; } catch (const vh::CaseFail&) { throw; } catch (const std::exception&) { vh_t = true; } \
    if (!vh_t) { std::ostringstream vh_o; vh_o << "[" #expr " did not throw] " << msg; (c).abortCase(kind, vh_o.str()); } } while (0)
#endif
