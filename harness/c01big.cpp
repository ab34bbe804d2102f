// C01: matrices with more elements than an int can count
#include "mat.h"
#include <fstream>
using namespace vt;

static long memFree(){ std::ifstream f("/proc/meminfo"); std::string k; long v; std::string u; while (f >> k >> v){ std::getline(f, u); if (k == "MemAvailable:") return v >> 20; } return 0; }
static Sh giant(Rng& R){     // just above 2^31 elements
    switch (R.range(0, 2)){ case 0: return {65536 + R.range(0, 9), 32769, 1}; case 1: return {R.range(30, 50), 40000, 2000}; default: return {32768, R.range(1, 3), 65536}; }
}
// Elements beyond what 32 bits can count
SCENARIO("C01", c01_enormous, 1){
    if (memFree() < 12){ count("not enough memory for a giant matrix"); return; } Sh s = R.chance(0.5) ? Sh{65536 + R.range(0, 5), 65537, 1} : Sh{1000 + R.range(0, 5), R.range(4400, 4500), 1000}; const size_t n = (size_t)s.x * s.y * s.z; typedef unsigned char T; std::string ctx = "a matrix of shape " + s.str(); sig(ctx); sample(ctx); if (n <= (1ul << 32)) return;
    try{
        SimpleMatrix<T> m(s.d(), (T)7); CHECK(m.size() == n && m.dim().size() == n && (size_t)(m.end() - m.begin()) == n, "giant-size", ctx << " has " << m.size() << " elements instead of " << n);
        for (int q = 0; q < 400; q++){
            dim3 p(R.range(0, s.x - 1), R.range(0, s.y - 1), R.range(0, s.z - 1)); if (q < 100) p = dim3(s.x - 1 - q, s.y - 1, s.z - 1); size_t f = (size_t)p.z * s.x * s.y + (size_t)p.y * s.x + p.x; T v = (T)R.range(8, 250);
            if (q & 1) m(p) = v; else m[f] = v; CHECK(m(p.x, p.y, p.z) == v && m[f] == v && m.getIndex(p) == f && std::as_const(m)(p) == v, "giant-element", "element (" << p.x << "," << p.y << "," << p.z << ") is not number " << f << " of " << ctx);
            my_cnn::MatrixIterator<SimpleMatrix<T>&> it(m, p); CHECK(*it == v && (size_t)(it - m.begin()) == f, "giant-iterator", "an iterator at (" << p.x << "," << p.y << "," << p.z << ") of " << ctx << " sees another element or is at distance " << (it - m.begin())); count("giant elements visited");
        }
        auto V = m.subMatView(dim3(s.x - 3, s.y - 2, s.z - 1), dim3(3, 2, 1)); V(2, 1, 0) = 251; CHECK(m[n - 1] == 251, "giant-view", "a view of the last elements of " << ctx); m.reshape(s.y, s.x, s.z); CHECK(m.size() == n && m[n - 1] == 251, "giant-reshape", "reshaping " << ctx); count("giant matrices");
    }catch(const std::bad_alloc&){ count("not enough memory for a giant matrix"); }
}
SCENARIO("C01", c01_giant, 1){
    if (memFree() < 12){ count("not enough memory for a giant matrix"); return; }
    Sh s = giant(R); while ((long)s.x * s.y * s.z <= (1l << 31) + 10 || (long)s.x * s.y * s.z > 3500000000l) s = giant(R);
    const size_t n = (size_t)s.x * s.y * s.z; typedef unsigned char T; std::string ctx = "a matrix of shape " + s.str(); sig(ctx); sample(ctx);
    try{
        SimpleMatrix<T> m(s.d(), (T)7); CHECK(m.size() == n && m.dim().size() == n, "giant-size", ctx << " has " << m.size() << " elements instead of " << n);
        CHECK((size_t)(m.end() - m.begin()) == n && m.begin() - m.end() == -(std::ptrdiff_t)n, "giant-distance", "end - begin is " << (m.end() - m.begin()) << " for " << ctx);
        for (int q = 0; q < 200; q++){
            dim3 p(R.range(0, s.x - 1), R.range(0, s.y - 1), R.range(0, s.z - 1)); if (q == 0) p = dim3(s.x - 1, s.y - 1, s.z - 1); size_t f = (size_t)p.z * s.x * s.y + (size_t)p.y * s.x + p.x; T v = (T)R.range(8, 250); 
            if (q & 1) m(p) = v; else m[f] = v; CHECK(m(p.x, p.y, p.z) == v && m[f] == v && m.getIndex(p) == f, "giant-element", "element (" << p.x << "," << p.y << "," << p.z << ") is not number " << f << " of " << ctx);
            my_cnn::MatrixIterator<SimpleMatrix<T>&> it(m, p); CHECK(*it == v, "giant-iterator", "an iterator at (" << p.x << "," << p.y << "," << p.z << ") of " << ctx << " sees another element"); CHECK((size_t)(it - m.begin()) == f, "giant-distance", "distance " << (it - m.begin()) << " instead of " << f << " in " << ctx);
            ++it; if (f + 1 < n) CHECK(&*it == &m[f + 1], "giant-step", "the step after element " << f << " of " << ctx); count("giant elements visited");
        }
        if (R.chance(0.5)){ m[n - 3] = 255; CHECK(m.maxIndex() == n - 3, "giant-max", "largest element at " << m.maxIndex() << " instead of " << n - 3 << " of " << ctx); }
        else { SimpleMatrix<signed char> c(dim3(2, 2, 2)); m[n - 2] = 1; m[5] = 2; c = std::as_const(m); CHECK(c.size() == n && c[n - 2] == 1 && c[5] == 2 && c[6] == (signed char)m[6], "giant-convert", "converting " << ctx); }
        m.reshape(s.z, s.x, s.y); CHECK(m.size() == n && m.dim().y == s.x, "giant-reshape", "reshaping " << ctx); m.resize(3, 2, 1); CHECK(m.size() == 6, "giant-resize", "resizing " << ctx); count("giant matrices");
    }catch(const std::bad_alloc&){ count("not enough memory for a giant matrix"); }
}
