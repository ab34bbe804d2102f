// Reference tensors and generators for matrices
#pragma once
#include "common.h"
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"

namespace vt{
using my_cnn::SimpleMatrix; using my_cnn::SubMatrixView; using my_cnn::dim3; using my_cnn::dim2;

struct Sh{
    int x = 0, y = 0, z = 0;
    int n() const { return x * y * z; }
    dim3 d() const { return dim3(x, y, z); }
    bool operator==(const Sh& o) const { return x == o.x && y == o.y && z == o.z; }
    bool operator!=(const Sh& o) const { return !(*this == o); }
    std::string str() const { return std::to_string(x) + "x" + std::to_string(y) + "x" + std::to_string(z); }
};
inline std::ostream& operator<<(std::ostream& o, const Sh& s){ return o << s.str(); }
inline Sh shOf(const dim3& d){ return {d.x, d.y, d.z}; }

// Plain reference tensor; storage deliberately differs from the library's (channel, row, column)
template<class T> struct Ref{
    Sh s; std::vector<T> v;
    Ref() = default;
    explicit Ref(Sh sh, T init = T{}) : s(sh), v((size_t)sh.n(), init){}
    T& at(int i, int j, int k){ return v.at((size_t)((k * s.x + i) * s.y + j)); }
    const T& at(int i, int j, int k) const { return v.at((size_t)((k * s.x + i) * s.y + j)); }
    // Element at a position of the flat (column-major, channel-last) sequence
    const T& flat(int n) const { return at(n % s.x, (n / s.x) % s.y, n / (s.x * s.y)); }
    T& flat(int n) { return at(n % s.x, (n / s.x) % s.y, n / (s.x * s.y)); }
};
template<class F> void each(const Sh& s, F f){ for (int k = 0; k < s.z; k++) for (int j = 0; j < s.y; j++) for (int i = 0; i < s.x; i++) f(i, j, k); }

template<class T> T rndVal(Rng& R){
    if constexpr (std::is_floating_point_v<T>) return (T)R.uni(-4, 4);
    else if constexpr (std::is_unsigned_v<T>) return (T)R.range(0, 20);
    else return (T)R.range(-20, 20);
}
// More than 65536 elements, extents past 256 and 65536
inline Sh hugeShape(Rng& R){
    int j = R.range(0, 9);
    return R.pick(std::vector<Sh>{{300, 300 + j, 1}, {1, 70000 + j, 1}, {70000 + j, 1, 1}, {257, 3, 90 + j}, {2, 2, 20000 + j}, {5, 5000 + j, 3}, {1, 1, 66000 + j}, {260 + j, 1, 260}});
}
inline Sh rndShape(Rng& R, int lo = 1, int hi = 6, int zhi = 4, bool wide = true){
    if (wide && R.chance(0.06) && !underValgrind()){
        if (R.chance(0.5)) return {R.range(lo, 3 * hi), R.range(lo, 3 * hi), R.range(lo, 2 * zhi)};
        Sh s{R.range(lo, std::max(lo, 3)), R.range(lo, std::max(lo, 3)), R.range(lo, std::max(lo, 2))};
        int len = R.pick(std::vector<int>{17, 33, 40, 65, 130, 257, 300}); if (R.chance(0.5)) len = R.range(std::max(lo, hi), len);
        (R.chance(0.4) ? s.x : R.chance(0.6) ? s.y : s.z) = len;
        return s;
    }
    auto e = [&](int h){ return R.chance(0.25) ? lo : R.range(lo, h); };
    return {e(hi), e(hi), e(zhi)};
}
template<class T> Ref<T> rndRef(Rng& R, Sh s){ Ref<T> r(s); for (auto& e : r.v) e = rndVal<T>(R); return r; }
template<class T> SimpleMatrix<T> toM(const Ref<T>& r){
    SimpleMatrix<T> m(r.s.d());
    each(r.s, [&](int i, int j, int k){ m(i, j, k) = r.at(i, j, k); });
    return m;
}
template<class M> auto toRef(const M& m){
    using T = std::remove_const_t<typename M::type>;
    Ref<T> r(shOf(m.dim()));
    each(r.s, [&](int i, int j, int k){ r.at(i, j, k) = m(dim3(i, j, k)); });
    return r;
}
// Compare a matrix-like object with a reference; returns "" or a description of the first difference
template<class M, class T> std::string diff(const M& m, const Ref<T>& r, bool exact = true){
    std::ostringstream o;
    if (shOf(m.dim()) != r.s){ o << "shape " << shOf(m.dim()) << " instead of " << r.s; return o.str(); }
    if (m.size() != (size_t)r.s.n()){ o << "size() " << m.size() << " for shape " << r.s; return o.str(); }
    std::string res;
    each(r.s, [&](int i, int j, int k){
        if (!res.empty()) return;
        T got = static_cast<T>(m(dim3(i, j, k)));
        bool ok = exact ? (got == r.at(i, j, k) || (got != got && r.at(i, j, k) != r.at(i, j, k))) : nearT<T>(got, r.at(i, j, k));
        if (!ok){
            std::ostringstream q; q.precision(17);
            q << "element (" << i << "," << j << "," << k << ") of " << r.s << " is " << +got << " instead of " << +r.at(i, j, k);
            res = q.str();
        }
    });
    return res;
}
template<class T> const char* tname(){
    if constexpr (std::is_same_v<T, double>) return "double"; else if constexpr (std::is_same_v<T, float>) return "float";
    else if constexpr (std::is_same_v<T, int>) return "int"; else if constexpr (std::is_same_v<T, unsigned>) return "unsigned";
    else if constexpr (std::is_same_v<T, unsigned char>) return "uchar"; else if constexpr (std::is_same_v<T, short>) return "short";
    else if constexpr (std::is_same_v<T, size_t>) return "size_t"; else if constexpr (std::is_same_v<T, long>) return "long"; else return "?";
}
// Call f with the operand in every form a user can have it in. f is generic.
#define VT_FORM_COUNT 7
template<class T, class F> void withForm(int form, const Ref<T>& r, Rng& R, F&& f){
    switch (form){
        case 0: { SimpleMatrix<T> m = toM(r); f(m, "named matrix"); break; }
        case 1: { const SimpleMatrix<T> m = toM(r); f(m, "const matrix"); break; }
        case 2: { f(toM(r), "temporary matrix"); break; }
        case 3: case 4: {   // view into a bigger matrix
            Sh off{R.range(0, 2), R.range(0, 2), R.range(0, 2)};
            Sh big{r.s.x + off.x + R.range(0, 2), r.s.y + off.y + R.range(0, 2), r.s.z + off.z + R.range(0, 2)};
            Ref<T> br = rndRef<T>(R, big);
            each(r.s, [&](int i, int j, int k){ br.at(i + off.x, j + off.y, k + off.z) = r.at(i, j, k); });
            SimpleMatrix<T> m = toM(br);
            if (form == 3){ auto v = m.subMatView(off.d(), r.s.d()); f(v, "named view"); }
            else { const SimpleMatrix<T>& c = m; f(c.subMatView(off.d(), r.s.d()), "temporary const view"); }
            break; }
        case 5: { SimpleMatrix<T> m = toM(r); SimpleMatrix<T> zero(r.s.d()); f(m + zero, "temporary expression"); break; }
        case 6: { SimpleMatrix<T> m = toM(r); auto e = m * T(1); f(e, "named expression"); break; }
    }
}
} // namespace vt
