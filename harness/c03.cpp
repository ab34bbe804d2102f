// VT_PARTS 11
// Fixed part of C03: every operator x operand kind once, and scalar compound updates
#include "c03.h"
#include <memory>
#if VT_PART % 2 == 0
#define OPS(X) X(add, +) X(sub, -) X(mul, *) X(div, /) X(lt, <)
#else
#define OPS(X) X(le, <=) X(gt, >) X(ge, >=) X(eq, ==) X(ne, !=)
#endif
#if VT_PART < 10

template<class A, class B> void pairs(Rng& R){
    Sh S = pickShape(R); Leaf<A> L0(R, S); Leaf<B> L1(R, S);
    auto same = [&]{ return L0.same() && L1.same(); };
    A a = (A)2; B s = (B)3; (void)a;
#define ONE(name, op) \
    runTree("A " #op " B", S, [&]{ return L0.m op L1.m; }, [&](int x, int y, int z){ return bin_##name(L0.r.at(x,y,z), L1.r.at(x,y,z)); }, same); \
    runTree("A " #op " s", S, [&]{ return L0.m op s; }, [&](int x, int y, int z){ return bin_##name(L0.r.at(x,y,z), s); }, same); \
    runTree("s " #op " A", S, [&]{ return s op L0.cview(); }, [&](int x, int y, int z){ return bin_##name(s, L0.r.at(x,y,z)); }, same);
    OPS(ONE)
#undef ONE
}
#if VT_PART < 2
SCENARIO("C03", VT_CAT(c03_pairs_dd, VT_PART), 1){ pairs<double, double>(R); }
#elif VT_PART < 4
SCENARIO("C03", VT_CAT(c03_pairs_if, VT_PART), 1){ pairs<int, float>(R); }
#elif VT_PART < 6
SCENARIO("C03", VT_CAT(c03_pairs_ui, VT_PART), 1){ pairs<unsigned char, int>(R); }
#elif VT_PART < 8
SCENARIO("C03", VT_CAT(c03_pairs_lf, VT_PART), 1){ pairs<long, float>(R); }
#else
SCENARIO("C03", VT_CAT(c03_pairs_su, VT_PART), 1){ pairs<short, unsigned>(R); }
#endif
#else

// Comparison on values that are often equal
SCENARIO("C03", c03_equalities, 1){
    Sh S = pickShape(R); Ref<int> a(S), b(S); for (auto& e : a.v) e = R.range(-1, 1); for (auto& e : b.v) e = R.range(-1, 1);
    SimpleMatrix<int> A = toM(a), B = toM(b); int s = R.range(-1, 1); sig(S.str());
    SimpleMatrix<double> Ad(A);
    each(S, [&](int i, int j, int k){
        dim3 p(i, j, k); int x = a.at(i, j, k), y = b.at(i, j, k);
#define ONE(name, op) CHECK((A op B)(p) == (x op y) && (A op s)(p) == (x op s) && (s op A)(p) == (s op x) && (Ad op B)(p) == ((double)x op y), "comparison-" #name, "comparison " #op " of " << x << ", " << y << ", " << s);
        ONE(lt, <) ONE(le, <=) ONE(gt, >) ONE(ge, >=) ONE(eq, ==) ONE(ne, !=)
#undef ONE
    });
}

template<class T, class U> void scalarUpdates(Rng& R){
    Sh S = pickShape(R); Ref<T> r = Leaf<T>::gen(R, S); U s = (U)R.range(1, 4); if constexpr (std::is_floating_point_v<U>) if (R.chance(0.7)) s = (U)R.uni(0.3, 4); sig(S.str());
    SimpleMatrix<T> m = toM(r); Ref<T> bigr = rndRef<T>(R, Sh{S.x + 1, S.y + 1, S.z + 1}); each(S, [&](int i, int j, int k){ bigr.at(i + 1, j, k + 1) = r.at(i, j, k); });
    SimpleMatrix<T> big = toM(bigr); auto v = big.subMatView(dim3(1, 0, 1), S.d()); const char* how = "";
    auto go = [&](auto f, const char* h){ how = h; f(m); f(v); for (auto& e : r.v) f(e); };
    switch (R.range(0, 3)){
        case 0: go([&](auto& d){ d += s; }, "+="); break;
        case 1: go([&](auto& d){ d -= s; }, "-="); break;
        case 2: go([&](auto& d){ d *= s; }, "*="); break;
        case 3: go([&](auto& d){ d /= s; }, "/="); break;
    }
    std::string d = diff(m, r, false); CHECK(d.empty(), "scalar-update", "matrix of " << tname<T>() << " " << how << " " << tname<U>() << ": " << d);
    d = diff(v, r, false); CHECK(d.empty(), "scalar-update-view", "view of " << tname<T>() << " " << how << " " << tname<U>() << ": " << d);
    each(S, [&](int i, int j, int k){ bigr.at(i + 1, j, k + 1) = r.at(i, j, k); });
    d = diff(big, bigr, false); CHECK(d.empty(), "scalar-update-outside", d);
    // Element-wise division
    Ref<T> q = Leaf<T>::gen(R, S); SimpleMatrix<T> n = toM(r); n /= toM(q); for (size_t i = 0; i < r.v.size(); i++) r.v[i] /= q.v[i];
    d = diff(n, r, false); CHECK(d.empty(), "divide-update", d);
    // abs member
    Ref<T> ab = r; for (auto& e : ab.v) e = un_abs(e); d = diff(n.abs(), ab, false); CHECK(d.empty(), "abs-member", d);
    count("scalar updates");
}
SCENARIO("C03", c03_scalar_updates, 2){ switch (R.range(0, 8)){ case 5: scalarUpdates<int, float>(R); break; case 6: scalarUpdates<long, double>(R); break; case 7: scalarUpdates<short, double>(R); break; case 8: scalarUpdates<unsigned char, int>(R); break; case 0: scalarUpdates<double, double>(R); break; case 1: scalarUpdates<float, int>(R); break; case 2: scalarUpdates<int, int>(R); break; case 3: scalarUpdates<double, float>(R); break; case 4: scalarUpdates<int, double>(R); break; } }

// Functions of integer matrices: computed as for the single element, then stored in the element type
template<class T> void intFunctions(Rng& R, int lo, int hi){
    Sh S = pickShape(R); Ref<T> r(S); for (auto& e : r.v) e = (T)R.range(lo, hi); SimpleMatrix<T> m = toM(r); sig(std::string(tname<T>()) + S.str()); auto e = my_cnn::exp(m); auto a = my_cnn::abs(m); auto h = my_cnn::apply(m, [](T v){ return v * 0.75; }); SimpleMatrix<T> st = my_cnn::exp(toM(r));
    each(S, [&](int i, int j, int k){ dim3 p(i, j, k); T v = r.at(i, j, k), w = static_cast<T>(std::exp(v)); CHECK(static_cast<T>(e(p)) == w && st(p) == w, "exp-integer", "exp of the " << tname<T>() << " " << +v << " is " << +e(p) << ", stored as " << +st(p) << ", instead of " << +w); CHECK(static_cast<T>(a(p)) == un_abs(v) && static_cast<T>(h(p)) == static_cast<T>(v * 0.75), "function-integer", "function of the " << tname<T>() << " " << +v); });
    count("functions of integers", S.n());
}
SCENARIO("C03", c03_int_functions, 1){ switch (R.range(0, 3)){ case 0: intFunctions<int>(R, -20, 21); break; case 1: intFunctions<unsigned char>(R, 0, 5); break; case 2: intFunctions<long>(R, -40, 42); break; default: intFunctions<short>(R, -12, 10); } }

// Scalars taken from temporaries, expressions returned from functions: the expression owns what it needs
template<class A> static auto makeExpr(const A& a){ double local = 2.5; return (SimpleMatrix<double>(a) * local + SimpleMatrix<double>(a.dim(), 1.0)) - SimpleMatrix<double>(a); }
SCENARIO("C03", c03_ownership, 1){
    Sh S = pickShape(R); Leaf<double> L(R, S); auto e = makeExpr(L.m); std::vector<double> churn(1000, 7.0); sig(S.str());
    each(S, [&](int i, int j, int k){ double v = L.r.at(i, j, k); CHECK(sameVal(e(dim3(i, j, k)), (v * 2.5 + 1.0) - v), "expression-ownership", "expression over temporaries changes its value"); });
    SimpleMatrix<double> m = e; CHECK(shOf(m.dim()) == S, "expression-ownership-shape", "shape " << shOf(m.dim()));
    // User functions: stateful copies and function pointers
    int k0 = R.range(1, 5); auto f = my_cnn::apply(L.m, [k0](double v){ return v * k0; }); double (*fp)(double) = &halve; auto g = my_cnn::apply(L.tmp(), fp); auto h = my_cnn::apply(L.view, std::function<double(double)>([k0](double v){ return v - k0; }));
    each(S, [&](int i, int j, int k){ double v = L.r.at(i, j, k); dim3 p(i, j, k); CHECK(sameVal(f(p), v * k0) && sameVal(g(p), v * 0.5) && sameVal(h(p), v - k0), "apply", "user function applied wrongly at " << v); });
    // modify applies to each element exactly once, in place
    SimpleMatrix<double> mm = L.m; int calls = 0; my_cnn::modify(mm, [&](double v){ calls++; return v * 3; });
    CHECK(calls == S.n(), "modify-calls", "modify called its function " << calls << " times for " << S.n() << " elements");
    each(S, [&](int i, int j, int k){ CHECK(sameVal(mm(i, j, k), L.r.at(i, j, k) * 3), "modify", "modify stores a wrong value"); });
}
#endif
