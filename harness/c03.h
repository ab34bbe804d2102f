// C03: element-wise expressions equal per-element arithmetic
#pragma once
#include "mat.h"
#include <memory>
#include <new>
namespace vt{
inline Sh pickShape(Rng& R){ if (!underValgrind() && R.chance(0.002)) return hugeShape(R); Sh s = rndShape(R, 1, 5, 3); if (R.chance(0.05)) s.y = 0; return s; }

// Any floating-point value, of any magnitude, and the special ones
template<class T> T wildVal(Rng& R){
    using L = std::numeric_limits<T>;
    switch (R.range(0, 9)){
        case 0: return R.pick(std::vector<T>{T(0), -T(0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon()});
        case 1: case 2: return (T)R.uni(-720, 720);
        case 3: return (T)std::ldexp(R.uni(-1, 1), R.range(L::min_exponent - 20, L::max_exponent));
        case 4: return (T)R.range(-1, 1);
        case 5: return (T)R.uni(-1e9, 1e9);
        case 6: return (T)R.range(-100000000, 100000000);
        default: return rndVal<T>(R);
    }
}

// An operand available in every form. Values are mostly small and non-zero
template<class T> struct Leaf{
    Sh s, off; Ref<T> r, bigr; SimpleMatrix<T> m, big, sp; SubMatrixView<T> view; SubMatrixView<const T> cv;
    static Ref<T> gen(Rng& R, Sh s){
        Ref<T> r(s); [[maybe_unused]] const bool wild = R.chance(0.15);
        for (auto& e : r.v){
            if constexpr (std::is_floating_point_v<T>){ if (wild){ e = wildVal<T>(R); continue; } }
            else if constexpr (std::is_same_v<T, unsigned char>){ if (wild){ e = (T)R.range(1, 255); continue; } }
            else if constexpr (std::is_same_v<T, long>){ if (wild){ e = (T)R.range(1, 1 << 30) * (R.chance(0.5) ? 1000L : -1000L) + 1; continue; } }
            do e = rndVal<T>(R); while (e == 0);
        }
        return r;
    }
    static Ref<T> embed(Rng& R, const Ref<T>& r, const Sh& off){ Ref<T> b = rndRef<T>(R, Sh{r.s.x + off.x + 1, r.s.y + off.y + 1, r.s.z + off.z + 1}); each(r.s, [&](int i, int j, int k){ b.at(i + off.x, j + off.y, k + off.z) = r.at(i, j, k); }); return b; }
    Leaf(Rng& R, Sh sh) : s(sh), off{R.range(0, 2), R.range(0, 2), R.range(0, 2)}, r(gen(R, sh)), bigr(embed(R, r, off)), m(toM(r)), big(toM(bigr)), sp(m),
        view(big.subMatView(off.d(), s.d())), cv(std::as_const(big).subMatView(off.d(), s.d())){}
    const SimpleMatrix<T>& c() const { return m; }
    SimpleMatrix<T> tmp() const { return toM(r); }
    SubMatrixView<T> tview(){ return big.subMatView(off.d(), s.d()); }
    SubMatrixView<const T> cview() const { return big.subMatView(off.d(), s.d()); }
    // A matrix that may be moved from: a fresh one for every use
    SimpleMatrix<T>& spare(const Sh&){ extra.push_back(std::make_unique<SimpleMatrix<T>>(toM(r))); return *extra.back(); }
    void respare(){ if (extra.size() > 16) extra.clear(); }
    bool same() const { return diff(m, r).empty() && diff(big, bigr).empty(); }
    std::vector<std::unique_ptr<SimpleMatrix<T>>> extra;
};

template<class A, class B> using CT = std::common_type_t<A, B>;
#define VT_BIN(name, op) template<class A, class B> CT<A, B> bin_##name(A a, B b){ return static_cast<CT<A, B>>(a op b); }
VT_BIN(add, +) VT_BIN(sub, -) VT_BIN(mul, *) VT_BIN(div, /) VT_BIN(lt, <) VT_BIN(le, <=) VT_BIN(gt, >) VT_BIN(ge, >=) VT_BIN(eq, ==) VT_BIN(ne, !=)
#undef VT_BIN
template<class A> A un_abs(A a){ if constexpr (std::is_floating_point_v<A>) return std::fabs(a); else return static_cast<A>(a < 0 ? -a : a); }
template<class A> A un_exp(A a){ return static_cast<A>(std::exp(a)); }
template<class F, class A> A un_apply(F f, A a){ return static_cast<A>(f(a)); }
inline double halve(double v){ return v * 0.5; }
struct Affine{ int k; template<class A> auto operator()(A a) const { return a * k + 1; } };

template<class A, class B> bool sameVal(A a, B b){
    using C = CT<A, B>;
    if constexpr (std::is_floating_point_v<C>){ double x = a, y = b; return x == y || (x != x && y != y) || near(x, y, std::is_same_v<C, float> ? 4e-7 : 1e-14, std::is_same_v<C, float> ? 1e-44 : 0); }
    else return a == b;
}
template<class Make, class RefF, class Same> void runTree(const char* text, const Sh& S, Make make, RefF ref, Same same){
    sig(S.str()); sample(std::string(text) + " on " + S.str());
    auto e = make();
    using V = decltype(ref(0, 0, 0));
    CHECK(shOf(e.dim()) == S && e.size() == (size_t)S.n(), "expression-shape", text << " has shape " << shOf(e.dim()) << " instead of " << S);
    CHECK(same(), "operands-changed", "building " << text << " changed an operand");
    auto bad = [&](const char* how, int x, int y, int z, auto got){ std::ostringstream o; o.precision(17); o << text << " " << how << " at (" << x << "," << y << "," << z << ") of " << S << " is " << +got << " instead of " << +ref(x, y, z); fail(std::string("expression-value:") + how, o.str()); };
    const auto& ce = e;
    for (int round = 0; round < 2; round++){
        for (int z = 0; z < S.z; z++) for (int y = 0; y < S.y; y++) for (int x = 0; x < S.x; x++){
            if (!sameVal(e(dim3(x, y, z)), ref(x, y, z))) return bad("indexed", x, y, z, e(dim3(x, y, z)));
            if (!sameVal(ce(x, y, z), ref(x, y, z))) return bad("indexed (const)", x, y, z, ce(x, y, z));
        }
        int n = 0;
        for (auto it = e.begin(); it != e.end(); ++it, ++n){
            if (n >= S.n()) return fail("expression-iteration", std::string(text) + " iterates over too many elements");
            int x = n % S.x, y = (n / S.x) % S.y, z = n / (S.x * S.y);
            if (!sameVal(*it, ref(x, y, z))) return bad("iterated", x, y, z, *it);
        }
        if (n != S.n()) return fail("expression-iteration", std::string(text) + " iterates over too few elements");
        SimpleMatrix<V> m = e, m2(dim3(1, 2, 1)); m2 = ce; SimpleMatrix<V> m3 = make();
        if (shOf(m.dim()) != S || shOf(m2.dim()) != S || shOf(m3.dim()) != S) return fail("expression-stored-shape", text);
        for (int z = 0; z < S.z; z++) for (int y = 0; y < S.y; y++) for (int x = 0; x < S.x; x++){
            if (!sameVal(m(x, y, z), ref(x, y, z))) return bad("stored", x, y, z, m(x, y, z));
            if (!sameVal(m2(x, y, z), ref(x, y, z))) return bad("assigned", x, y, z, m2(x, y, z));
            if (!sameVal(m3(x, y, z), ref(x, y, z))) return bad("stored from a temporary", x, y, z, m3(x, y, z));
        }
        count("expression elements compared", 5 * S.n());
        auto copy = e;      // a copied expression is the same expression
        for (int n2 = 0; n2 < S.n(); n2++){ int x = n2 % S.x, y = (n2 / S.x) % S.y, z = n2 / (S.x * S.y); if (!sameVal(copy(dim3(x, y, z)), ref(x, y, z))) return bad("copied", x, y, z, copy(dim3(x, y, z))); }
    }
    CHECK(same(), "operands-changed", "reading " << text << " changed an operand");
}
template<class D, class Upd, class RefF, class Same> void runUpdate(Rng& R, const char* text, const Sh& S, Upd upd, RefF ref, const char* op, Same same){
    Ref<D> d0 = rndRef<D>(R, S);
    auto cmp = [&](auto& got, const char* how){
        for (int z = 0; z < S.z; z++) for (int y = 0; y < S.y; y++) for (int x = 0; x < S.x; x++){
            D want = ref(d0.at(x, y, z), x, y, z);
            if (!sameVal(got(dim3(x, y, z)), want)){ std::ostringstream o; o.precision(17); o << "D " << op << " " << text << " on a " << how << " at (" << x << "," << y << "," << z << ") of " << S << " gives " << got(dim3(x, y, z)) << " instead of " << want; fail("compound-update", o.str()); return; }
        }
        count("compound update elements compared", S.n());
    };
    SimpleMatrix<D> m = toM(d0); upd(m); CHECK(shOf(m.dim()) == S, "compound-shape", text); cmp(m, "matrix");
    Ref<D> bigr = rndRef<D>(R, Sh{S.x + 2, S.y + 2, S.z + 1}); each(S, [&](int i, int j, int k){ bigr.at(i + 1, j + 1, k) = d0.at(i, j, k); });
    SimpleMatrix<D> big = toM(bigr); auto v = big.subMatView(dim3(1, 1, 0), S.d()); upd(v); cmp(v, "view");
    each(bigr.s, [&](int i, int j, int k){ bool in = i >= 1 && i < 1 + S.x && j >= 1 && j < 1 + S.y && k < S.z; if (!in && big(i, j, k) != bigr.at(i, j, k)) fail("compound-outside-view", text); });
    CHECK(same(), "operands-changed", "updating by " << text << " changed an operand");
}
} // namespace vt
using namespace vt;
