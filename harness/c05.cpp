// VT_PARTS 4
// C05: reductions and comparisons are exact summaries
#include "mat.h"
using namespace vt;

// Values with many ties, or spread out, or extreme
template<class T> Ref<T> gen(Rng& R, Sh s){
    Ref<T> r(s); const int mode = R.range(0, 7); const int ex = R.range(-120, 120); const int fe = R.range(-18, 18);
    for (auto& e : r.v) switch (mode){
        case 0: e = (T)R.range(std::is_unsigned_v<T> ? 0 : -2, 2); break;               // ties
        case 1: e = rndVal<T>(R); break;
        case 2: if constexpr (std::is_unsigned_v<T>) e = (T)R.range(1, 5); else e = (T)-R.range(1, 20); break;   // all negative
        case 3: e = (T)R.range(0, 1); break;
        case 4: e = (T)7; break;                                                        // constant
        case 5: if constexpr (std::is_floating_point_v<T>) e = (T)std::ldexp(R.uni(-1, 1), std::is_same_v<T, float> ? fe : ex);  // any scale
                else e = (T)R.u64(); break;                                              // the whole range of the type
        case 6: if constexpr (std::is_floating_point_v<T>){ e = (T)1; for (int k = R.range(0, 2); k > 0; k--) e = std::nextafter(e, (T)2); }   // differences of one unit in the last place
                else e = R.chance(0.5) ? std::numeric_limits<T>::max() - (T)R.range(0, 1) : std::numeric_limits<T>::min() + (T)R.range(0, 1); break;
        case 7: if constexpr (std::is_floating_point_v<T>) e = (T)(R.uni(-1, 1) * 1e-9); else e = (T)R.range(0, 100); break;
    }
    return r;
}
template<class T> constexpr double tol(){ return std::is_same_v<T, float> ? 1e-6 : 1e-14; }

template<class T, class M> void summary(Rng& R, const Ref<T>& r, M&& m, const std::string& ctx){
    const int N = r.s.n(); long double s = 0, a = 0, q = 0; int lo = 0, hi = 0;
    for (int n = 0; n < N; n++){ long double v = r.flat(n); s += v; a += std::fabs(v); q += v * v; if (r.flat(n) < r.flat(lo)) lo = n; if (r.flat(n) > r.flat(hi)) hi = n; }
    auto pos = [&](int n){ return Sh{n % r.s.x, (n / r.s.x) % r.s.y, n / (r.s.x * r.s.y)}; };
    const double t = tol<T>() * (N + 2);
    constexpr bool fl = std::is_floating_point_v<T>;
    const double lim = fl ? 1e300 : (double)std::numeric_limits<T>::max(); const bool fits = a < lim && q < lim;       // sums are taken in the element type
    if (fits){
        double got = (double)my_cnn::sum(m); CHECK(fl ? std::fabs(got - s) <= t * a : got == s, "sum", "sum is " << got << " instead of " << s << " for " << ctx);
        double mean = (double)my_cnn::mean(m); double want = fl ? (double)(s / N) : (double)((long)s / N);   // integer types divide like integers
        CHECK(fl ? std::fabs(mean - want) <= t * a : mean == want, "mean", "mean is " << mean << " instead of " << want << " for " << ctx);
        double norm = (double)my_cnn::l2Norm(m); CHECK(near(norm, (double)std::sqrt(q), tol<T>() * (N + 4), 0), "l2Norm", "norm is " << norm << " instead of " << std::sqrt(q) << " for " << ctx);
    }
    CHECK((T)my_cnn::min(m) == r.flat(lo), "min", "minimum is " << +(T)my_cnn::min(m) << " instead of " << +r.flat(lo) << " for " << ctx);
    CHECK((T)my_cnn::max(m) == r.flat(hi), "max", "maximum is " << +(T)my_cnn::max(m) << " instead of " << +r.flat(hi) << " for " << ctx);
    CHECK(shOf(my_cnn::minIndex(m)) == pos(lo), "minIndex", "position of the minimum is " << shOf(my_cnn::minIndex(m)) << " instead of " << pos(lo) << " for " << ctx);
    CHECK(shOf(my_cnn::maxIndex(m)) == pos(hi), "maxIndex", "position of the maximum is " << shOf(my_cnn::maxIndex(m)) << " instead of " << pos(hi) << " for " << ctx);
    if constexpr (std::is_same_v<std::remove_cv_t<std::remove_reference_t<M>>, SimpleMatrix<T>>){
        CHECK(m.minIndex() == (size_t)lo, "flat-minIndex", "flat index of the minimum is " << m.minIndex() << " instead of " << lo << " for " << ctx);
        CHECK(m.maxIndex() == (size_t)hi, "flat-maxIndex", "flat index of the maximum is " << m.maxIndex() << " instead of " << hi << " for " << ctx);
    }
    count("summaries"); sig(ctx + std::to_string(lo) + "/" + std::to_string(hi)); sample(ctx);
    (void)R;
}
template<class T> void reductions(Rng& R){
    Sh s = rndShape(R, 1, 6, 4); if (R.chance(0.05)) s = {R.range(30, 50), R.range(5, 20), 2}; if (!underValgrind() && R.chance(0.004)) s = hugeShape(R); Ref<T> r = gen<T>(R, s);
    withForm<T>(R.range(0, VT_FORM_COUNT - 1), r, R, [&](auto&& m, const char* n){ summary<T>(R, r, m, std::string(tname<T>()) + " " + n + " " + s.str()); });
}
template<class T, class U> void equality(Rng& R){
    Sh s = !underValgrind() && R.chance(0.004) ? hugeShape(R) : rndShape(R, 1, 5, 3); Ref<T> r = gen<T>(R, s); Ref<U> q(s); for (size_t i = 0; i < q.v.size(); i++) q.v[i] = (U)r.v[i];
    bool want = true; Ref<U> p = q; std::string what = "equal";
    for (size_t i = 0; i < q.v.size(); i++) if (!((double)q.v[i] == (double)r.v[i])) return;      // not representable in both types
    for (auto& v : r.v) if (std::fabs((double)v) > 1e6 && !std::is_floating_point_v<T>) return;
    double step = 1; for (auto& v : r.v) while (std::fabs((double)v) / step > 1e6) step *= 2;
    switch (R.range(0, 7)){
        case 0: break;
        case 1: { int n = R.range(0, s.n() - 1); p.flat(n) += (U)step; want = false; what = "one element differs"; break; }
        case 2: { Sh t = s; (&t.x)[R.range(0, 2)]++; p = Ref<U>(t); for (size_t i = 0; i < p.v.size(); i++) p.v[i] = q.v.empty() ? U(0) : q.v[i % q.v.size()]; want = false; what = "one extent differs"; break; }
        case 3: { Sh t{s.y, s.x, s.z}; p = Ref<U>(t); for (int n = 0; n < t.n(); n++) p.flat(n) = q.flat(n); want = t == s; what = "same sequence, transposed shape"; break; }
        case 4: { Sh t{s.x * s.y, 1, s.z}; p = Ref<U>(t); for (int n = 0; n < t.n(); n++) p.flat(n) = q.flat(n); want = t == s; what = "same sequence, flattened shape"; break; }
        case 5: { p.flat(s.n() - 1) += (U)step; want = false; what = "last element differs"; break; }
        case 6: {   // shapes without elements: equal exactly when the extents are
            (&s.x)[R.range(0, 2)] = 0; Sh t = s; if (R.chance(0.7)) (&t.x)[R.range(0, 2)] = R.range(0, 3); if (t.n()){ t = s; } r = Ref<T>(s); p = Ref<U>(t); want = t == s; what = "no elements, " + t.str(); step = 1; break; }
        case 7: {   // the smallest possible difference
            if constexpr (!std::is_floating_point_v<U> || !std::is_floating_point_v<T>) break;
            else { int n = R.range(0, s.n() - 1); U old = p.flat(n); p.flat(n) = std::nextafter(old, R.chance(0.5) ? (U)1e30 : (U)-1e30); SimpleMatrix<T> A = toM(r); SimpleMatrix<U> P = toM(p); sig("ulp" + s.str());
                CHECK(!my_cnn::matrixEqual(A, P) && !my_cnn::matrixEqual(P, A), "matrixEqual-smallest", "matrices that differ by one unit in the last place at " << (double)old << " are equal"); count("equality questions", 2); return; } }
    }
    const int f = R.range(0, VT_FORM_COUNT - 1); SimpleMatrix<U> P = toM(p); std::string ctx = std::string(tname<T>()) + "/" + tname<U>() + " " + s.str() + " " + what; sig(ctx + std::to_string(f)); sample(ctx);
    withForm<T>(f, r, R, [&](auto&& m, const char* n){
        CHECK(my_cnn::matrixEqual(m, P) == want, "matrixEqual", "matrixEqual gives " << !want << " for " << n << " " << ctx);
        CHECK(my_cnn::matrixEqual(P, m) == want, "matrixEqual-swapped", "matrixEqual gives " << !want << " for " << n << " " << ctx);
        CHECK(my_cnn::matrixEqual(m, P, 0.25 * step) == want, "matrixEqual-tolerance", "matrixEqual with tolerance gives " << !want << " for " << n << " " << ctx);
        CHECK(my_cnn::matrixEqual(P, m, 0.25f * (float)step) == want, "matrixEqual-tolerance", "matrixEqual with tolerance gives " << !want << " for " << n << " " << ctx);
        if (P.size() == (size_t)s.n() && p.s == s) CHECK(my_cnn::matrixEqual(m, P, 1.25 * step), "matrixEqual-wide", "matrixEqual refuses a difference of at most " << step << " with tolerance " << 1.25 * step << " for " << n << " " << ctx);
    });
    count("equality questions", 5);
}
#if VT_PART == 0
SCENARIO("C05", c05_reductions_d, 2){ reductions<double>(R); }
SCENARIO("C05", c05_equality_dd, 2){ equality<double, double>(R); }
SCENARIO("C05", c05_tolerance, 2){
    // The tolerance is inclusive and absolute, in both directions, at any single element
    Sh s = rndShape(R, 1, 4, 3); Ref<double> r = rndRef<double>(R, s); for (auto& v : r.v) v = std::round(v * 8) / 8; SimpleMatrix<double> A = toM(r), B = A; double eps = R.range(1, 16) / 8.0; int n = R.range(0, s.n() - 1); double sgn = R.chance(0.5) ? 1 : -1;
    B[n] = A[n] + sgn * eps; CHECK(my_cnn::matrixEqual(A, B, eps), "tolerance-inclusive", "difference equal to the tolerance " << eps << " is not accepted");
    CHECK(my_cnn::matrixEqual(A, B, eps / 2) == false, "tolerance-exceeded", "difference " << sgn * eps << " accepted with tolerance " << eps / 2);
    B[n] = A[n] + sgn * (eps + 0.125); CHECK(!my_cnn::matrixEqual(A, B, eps), "tolerance-exceeded", "difference " << sgn * (eps + 0.125) << " accepted with tolerance " << eps);
    CHECK(!my_cnn::matrixEqual(A, B), "exact", "different matrices are equal"); CHECK(my_cnn::matrixEqual(A, A) && my_cnn::matrixEqual(A, A, 0.0), "reflexive", "matrix differs from itself");
    // Tolerances far below single precision, at values of any scale
    { double sc = std::ldexp(1.0, R.range(-40, 40)); SimpleMatrix<double> X(s.d()), Y(s.d()); for (size_t i = 0; i < X.size(); i++) Y[i] = X[i] = sc * R.range(1 << 20, (1 << 21) - 1) * 1073741824.0 / (1l << 51); double u = sc / (1 << 20) / (1 << 20); Y[n] += R.range(3, 9) * u * sgn; CHECK(my_cnn::matrixEqual(X, Y, 10 * u) && !my_cnn::matrixEqual(X, Y, 2 * u) && !my_cnn::matrixEqual(Y, X, u), "tolerance-fine", "elements of about " << X[n] << " that differ by " << std::fabs(X[n] - Y[n]) << " are compared wrongly with tolerances of " << 10 * u << " or " << 2 * u); count("fine tolerances"); }
    // A compensating pair of differences is still a difference
    if (s.n() > 1){ SimpleMatrix<double> C = A; int p = (n + 1) % s.n(); C[n] += 1; C[p] -= 1; CHECK(!my_cnn::matrixEqual(A, C) && !my_cnn::matrixEqual(A, C, 0.5) && my_cnn::matrixEqual(A, C, 1.0), "compensating", "compensating differences are judged wrongly"); }
    sig(s.str() + std::to_string(n)); count("equality questions", 7);
}
#elif VT_PART == 1
SCENARIO("C05", c05_reductions_f, 2){ reductions<float>(R); }
SCENARIO("C05", c05_reductions_u, 1){ reductions<unsigned char>(R); }
#elif VT_PART == 2
SCENARIO("C05", c05_reductions_i, 2){ reductions<int>(R); }
SCENARIO("C05", c05_equality_id, 1){ equality<int, double>(R); }
#else
SCENARIO("C05", c05_equality_fd, 1){ equality<float, double>(R); }
// Unsigned and wide integer types
SCENARIO("C05", c05_reductions_misc, 1){
    Sh s = rndShape(R, 1, 5, 3); 
    switch (R.range(0, 2)){
        case 0: { Ref<unsigned> r = gen<unsigned>(R, s); SimpleMatrix<unsigned> m = toM(r); summary<unsigned>(R, r, m, "unsigned named matrix " + s.str()); break; }
        case 1: { Ref<long> r = gen<long>(R, s); for (auto& v : r.v) v = v % 1000 * 10000000000L; SimpleMatrix<long> m = toM(r); long t = 0; for (auto v : r.v) t += v; CHECK(my_cnn::sum(m) == t && my_cnn::mean(m) == t / (long)s.n(), "long-sum", "sum " << my_cnn::sum(m) << " or mean " << my_cnn::mean(m) << " of long values"); break; }
        case 2: { Ref<short> r = gen<short>(R, s); SimpleMatrix<short> m = toM(r); summary<short>(R, r, m, "short named matrix " + s.str()); break; }
    }
}
// Extremes at every position, including floating infinities of either sign excluded
SCENARIO("C05", c05_extreme_position, 1){
    Sh s = !underValgrind() && R.chance(0.004) ? hugeShape(R) : rndShape(R, 1, 5, 3); Ref<double> r = rndRef<double>(R, s); int n = R.range(0, s.n() - 1); bool hi = R.chance(0.5); double mag = R.chance(0.5) ? 1e300 : 5; r.flat(n) = hi ? mag : -mag; SimpleMatrix<double> m = toM(r);
    Sh p{n % s.x, (n / s.x) % s.y, n / (s.x * s.y)}; sig(s.str() + std::to_string(n) + (hi ? "h" : "l"));
    if (hi) CHECK(m.maxIndex() == (size_t)n && shOf(my_cnn::maxIndex(m)) == p && my_cnn::max(m) == mag, "extreme-max", "maximum at " << n << " of " << s << " not found");
    else CHECK(m.minIndex() == (size_t)n && shOf(my_cnn::minIndex(m)) == p && my_cnn::min(m) == -mag, "extreme-min", "minimum at " << n << " of " << s << " not found");
    count("extreme positions");
}
#endif
