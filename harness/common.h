// Shared machinery of the runtime-monitoring harnesses: seeded case generation, monitors
// (fail), event counters (count), distinct-case signatures (sig) and samples.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <type_traits>
#include <algorithm>

namespace vt{

bool underValgrind();
struct Rng{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed){}
    uint64_t u64(){
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int range(int lo, int hi){ return lo + (int)(u64() % (uint64_t)((int64_t)hi - lo + 1)); }
    // Mostly lo..hi, now and then further out (sizes at which narrow counters and fixed limits give way)
    int far(int lo, int hi, int vast){
        double u = uni();
        if (u < 0.88 || underValgrind()) return range(lo, hi);
        return range(lo, u < 0.97 ? std::min(vast, lo + 3 * (hi - lo) + 2) : vast);
    }
    double uni(double a = 0, double b = 1){ return a + (b - a) * ((u64() >> 11) * (1.0 / 9007199254740992.0)); }
    bool chance(double p){ return uni() < p; }
    bool vastly(double p){ double u = uni(); return u < p && !underValgrind(); }     // very large configurations, with small probability
    template<class T> const T& pick(const std::vector<T>& v){ return v[u64() % v.size()]; }
};

void fail(const std::string& key, const std::string& msg);
void count(const char* what, uint64_t n = 1);
void sig(const std::string& what);          // distinct, non-trivial case signature
void sample(const std::string& what);       // a case written out for the evidence
const std::string& scratchDir();            // private scratch directory of this process
bool thorough();

struct Scenario{ const char* prop; const char* name; int weight; void (*fn)(Rng&); };
std::vector<Scenario>& scenarios();
struct Reg{ Reg(const char* p, const char* n, int w, void (*f)(Rng&)){ scenarios().push_back({p, n, w, f}); } };
#define SCENARIO(prop, name, weight) SCENARIO_(prop, name, weight)
#define SCENARIO_(prop, name, weight) \
    static void scn_##name(vt::Rng& R); \
    static vt::Reg reg_##name(prop, #name, weight, scn_##name); \
    static void scn_##name([[maybe_unused]] vt::Rng& R)
// Files marked "VT_PARTS n" are compiled n times, with VT_PART = 0 .. n-1
#ifndef VT_PART
#define VT_PART 0
#endif
#define VT_CAT(a, b) VT_CAT_(a, b)
#define VT_CAT_(a, b) a##_##b

#define CHECK(cond, key, msg) do{ vt::count("checks"); if (!(cond)){ std::ostringstream o_; o_ << msg; vt::fail(key, o_.str()); return; } }while(0)
// Member functions that only detail a layer (which another arrangement of the same layer may do without) are
// compared where they are offered: body sees the result of obj.call as got
template<class F, class O, class B> void ifOffered(F f, O& o, B body){ (void)f; (void)body; if constexpr (std::is_invocable_v<F, O&>){ body(f(o)); } else { (void)o; } }
#define OFFERED(obj, call, ...) vt::ifOffered([&](auto& o_) -> decltype(o_.call){ return o_.call; }, obj, [&](const auto& got) __VA_ARGS__)
#define CHECK_OR(cond, key, msg, act) do{ vt::count("checks"); if (!(cond)){ std::ostringstream o_; o_ << msg; vt::fail(key, o_.str()); act; } }while(0)

inline bool near(double a, double b, double rel, double abs_){
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
template<class T> bool nearT(T a, T b){
    if constexpr (std::is_same_v<T, float>) return near(a, b, 2e-5, 1e-5);
    else if constexpr (std::is_floating_point_v<T>) return near(a, b, 1e-10, 1e-12);
    else return a == b;
}
template<class T> struct PV{ T v; };
template<class T> std::ostream& operator<<(std::ostream& o, PV<T> p){ return o << +p.v; }

// 0: no exception, 1: exception of type E, 2: some other exception
template<class E, class F> int outcome(F&& f){
    try{ f(); return 0; } catch(const E&){ return 1; } catch(...){ return 2; }
}
inline const char* outcomeName(int o){ return o == 0 ? "accepted" : o == 1 ? "refused" : "refused with another exception type"; }

} // namespace vt
