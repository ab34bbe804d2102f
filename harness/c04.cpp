// VT_PARTS 11
// C04: product, dot, convolution, transpose, rotation match their definitions
#include "mat.h"
using namespace vt;
using my_cnn::matrixMultiply; using my_cnn::convolve; using my_cnn::dot; using my_cnn::transpose; using my_cnn::rotate;

template<class A, class B> using CT = std::common_type_t<A, B>;
// Results are kept in variables: they have to outlive the call that made them
// Everything a reader can see of a lazily evaluated result, taken down before it is judged
struct Seen{ Sh s, stored_shape; size_t size; bool too_many = false; std::vector<double> it[2], pos, posd, stored; };
template<class C, class E> Seen look(E&& e){
    Seen o; o.s = shOf(e.dim()); o.size = e.size(); const Sh s = o.s;
    for (auto& v : o.it) for (auto it = e.begin(); it != e.end(); ++it){ if (v.size() > 100000){ o.too_many = true; break; } v.push_back((double)*it); }
    for (int k = 0; k < s.z; k++) for (int j = 0; j < s.y; j++) for (int i = 0; i < s.x; i++){ o.pos.push_back((double)e(i, j, k)); o.posd.push_back((double)e(dim3(i, j, k))); }
    SimpleMatrix<C> m = e; o.stored_shape = shOf(m.dim()); for (size_t i = 0; i < m.size(); i++) o.stored.push_back((double)m[i]);
    return o;
}
// |got - want| within the rounding of a sum of n products of total magnitude mag in the common type
static bool closeSum(int kind, double got, double want, double mag, int n){
    if (kind == 0) return got == want;
    if (std::isnan(want)) return std::isnan(got);
    return std::fabs(got - want) <= (n + 3) * 2 * (kind == 1 ? 6e-8 : 1.2e-16) * mag + 1e-300;
}
template<class C> constexpr int kindOf(){ return std::is_same_v<C, float> ? 1 : std::is_floating_point_v<C> ? 2 : 0; }
static void judge(int kind, const Seen& e, const char* op, const Sh& want_shape, const Ref<double>& want, const Ref<double>& mag, int n, const std::string& ctx){
    const std::string O(op); const size_t N = want_shape.n();
    CHECK(e.s == want_shape && e.size == N, O + "-shape", "shape " << e.s << " instead of " << want_shape << " for " << ctx);
    CHECK(!e.too_many && e.it[0].size() == N && e.it[1].size() == N, O + "-iteration", "iteration over " << e.it[0].size() << " instead of " << N << " elements for " << ctx);
    CHECK(e.stored_shape == want_shape, O + "-stored-shape", "stored shape " << e.stored_shape << " for " << ctx);
    const std::vector<double>* forms[] = {&e.it[0], &e.it[1], &e.pos, &e.posd, &e.stored}; const char* names[] = {"iterated", "iterated again", "indexed", "indexed by dim3", "stored"};
    for (int f = 0; f < 5; f++) for (size_t q = 0; q < N; q++) CHECK(closeSum(kind, (*forms[f])[q], want.flat(q), mag.flat(q), n), O + "-value", "element " << q << " " << names[f] << " is " << (*forms[f])[q] << " instead of " << want.flat(q) << " for " << ctx);
    count("result elements compared", 5 * N);
}
template<class C, class E> void compare(E&& e, const char* op, const Sh& want_shape, const Ref<double>& want, const Ref<double>& mag, int n, const std::string& ctx){ judge(kindOf<C>(), look<C>(e), op, want_shape, want, mag, n, ctx); }
template<class A, class B, class F> void bothForms(Rng& R, const Ref<A>& a, const Ref<B>& b, F f){
    const int fa = R.range(0, VT_FORM_COUNT - 1), fb = R.range(0, VT_FORM_COUNT - 1);
    withForm<A>(fa, a, R, [&](auto&& x, const char* nx){ withForm<B>(fb, b, R, [&](auto&& y, const char* ny){ f(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), std::string(tname<A>()) + " " + nx + " " + a.s.str() + " and " + tname<B>() + " " + ny + " " + b.s.str()); }); });
}
static Sh dimsFor(Rng& R){ Sh s = rndShape(R, 1, 6, 3); return s; }

template<class A, class B> void product(Rng& R){
    Sh s = dimsFor(R); int inner = R.chance(0.2) ? 1 : R.far(1, 9, 300); if (R.vastly(0.003)){ s = {R.range(1, 2), R.range(1, 2), R.range(1, 2)}; inner = R.chance(0.2) ? R.range(65537, 70000) : R.range(1000, 10000); } Ref<A> a = rndRef<A>(R, {s.x, inner, s.z}); Ref<B> b = rndRef<B>(R, {inner, s.y, s.z});
    if (R.chance(0.05)){ inner = 0; a = Ref<A>({s.x, 0, s.z}); b = Ref<B>({0, s.y, s.z}); }
    Ref<double> want(s), mag(s);
    each(s, [&](int i, int j, int k){ double t = 0, g = 0; for (int q = 0; q < inner; q++){ double p = (double)a.at(i, q, k) * (double)b.at(q, j, k); t += p; g += std::fabs(p); } want.at(i, j, k) = t; mag.at(i, j, k) = g; });
    bothForms(R, a, b, [&](auto&& x, auto&& y, std::string ctx){
        sig(ctx); sample("product of " + ctx);
        auto e = matrixMultiply(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); compare<CT<A, B>>(e, "product", s, want, mag, inner, ctx);
    });
}
template<class A, class B> void convolution(Rng& R){
    Sh k{R.far(1, 4, 12), R.far(1, 4, 12), 1}; Sh s{k.x + (R.chance(0.2) ? 0 : R.far(0, 7, 40)), k.y + (R.chance(0.2) ? 0 : R.far(0, 7, 40)), 1};
    if (R.vastly(0.006)){ k = {R.range(256, 300), R.range(1, 2), 1}; if (R.chance(0.5)) std::swap(k.x, k.y); s = {k.x + R.range(0, 5), k.y + R.range(0, 5), 1}; }
    int sx = R.chance(0.4) ? 1 : R.far(1, 4, 12), sy = R.chance(0.4) ? 1 : R.far(1, 4, 12); if (R.chance(0.05)) sx = 50; if (R.vastly(0.006)){ sx = R.range(20, 70); sy = R.range(1, 70); s.x += R.range(0, 160); s.y += R.range(0, 40); }
    Ref<A> a = rndRef<A>(R, s); Ref<B> b = rndRef<B>(R, k);
    Sh o{0, 0, 1}; for (int x = 0; x + k.x <= s.x; x += sx) o.x++; for (int y = 0; y + k.y <= s.y; y += sy) o.y++;
    Ref<double> want(o), mag(o);
    each(o, [&](int i, int j, int){ double t = 0, g = 0; for (int p = 0; p < k.x; p++) for (int q = 0; q < k.y; q++){ double v = (double)a.at(i * sx + p, j * sy + q, 0) * (double)b.at(p, q, 0); t += v; g += std::fabs(v); } want.at(i, j, 0) = t; mag.at(i, j, 0) = g; });
    bothForms(R, a, b, [&](auto&& x, auto&& y, std::string ctx){
        ctx += " stride " + std::to_string(sx) + "," + std::to_string(sy); sig(ctx); sample("convolution of " + ctx);
        auto e = convolve(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), dim2(sx, sy)); compare<CT<A, B>>(e, "convolution", o, want, mag, k.n(), ctx);
    });
}
template<class A, class B> void dotProduct(Rng& R){
    int n = R.far(1, 30, 70000); auto vec = [&]{ return R.chance(0.5) ? Sh{n, 1, 1} : Sh{1, n, 1}; };
    Ref<A> a = rndRef<A>(R, vec()); Ref<B> b = rndRef<B>(R, vec()); double want = 0, mag = 0;
    for (int i = 0; i < n; i++){ double p = (double)a.flat(i) * (double)b.flat(i); want += p; mag += std::fabs(p); }
    bothForms(R, a, b, [&](auto&& x, auto&& y, std::string ctx){
        sig(ctx); sample("dot of " + ctx);
        auto got = dot(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
        CHECK((closeSum(kindOf<CT<A, B>>(), (double)got, want, mag, n)), "dot-value", "dot product is " << (double)got << " instead of " << want << " for " << ctx); count("dot products");
    });
}
template<class A> void turning(Rng& R){
    { Sh s = rndShape(R, 1, 6, 4); if (R.chance(0.05)) s.x = 0; Ref<A> a = rndRef<A>(R, s); Sh o{s.y, s.x, s.z}; Ref<double> want(o), mag(o);
      each(o, [&](int i, int j, int k){ want.at(i, j, k) = a.at(j, i, k); });
      withForm<A>(R.range(0, VT_FORM_COUNT - 1), a, R, [&](auto&& x, const char* nx){ std::string ctx = std::string("transpose of ") + tname<A>() + " " + nx + " " + s.str(); sig(ctx); sample(ctx); auto e = transpose(std::forward<decltype(x)>(x)); compare<A>(e, "transpose", o, want, mag, 0, ctx); });
      // Transposing a transpose, and a product of transposes
      Ref<double> same(s), zero(s); each(s, [&](int i, int j, int k){ same.at(i, j, k) = a.at(i, j, k); });
      withForm<A>(R.range(0, VT_FORM_COUNT - 1), a, R, [&](auto&& x, const char* nx){ auto e = transpose(transpose(std::forward<decltype(x)>(x))); compare<A>(e, "double-transpose", s, same, zero, 0, std::string(nx) + " " + s.str()); }); }
    { Sh s = rndShape(R, 1, 6, 4); Ref<A> a = rndRef<A>(R, s); Ref<double> want(s), mag(s); each(s, [&](int i, int j, int k){ want.at(i, j, k) = a.at(s.x - 1 - i, s.y - 1 - j, k); });
      withForm<A>(R.range(0, VT_FORM_COUNT - 1), a, R, [&](auto&& x, const char* nx){ std::string ctx = std::string("half turn of ") + tname<A>() + " " + nx + " " + s.str(); sig(ctx); sample(ctx); auto e = rotate<2>(std::forward<decltype(x)>(x)); compare<A>(e, "rotate2", s, want, mag, 0, ctx); }); }
    { int n = R.far(1, 6, 40); Sh s{n, n, R.far(1, 3, 9)}; Ref<A> a = rndRef<A>(R, s); Ref<double> w1(s), w3(s), mag(s);
      each(s, [&](int i, int j, int k){ w1.at(i, j, k) = a.at(n - 1 - j, i, k); w3.at(i, j, k) = a.at(j, n - 1 - i, k); });   // clockwise, counter-clockwise
      withForm<A>(R.range(0, VT_FORM_COUNT - 1), a, R, [&](auto&& x, const char* nx){ std::string ctx = std::string("quarter turn of ") + tname<A>() + " " + nx + " " + s.str(); sig(ctx); sample(ctx); auto e = rotate<1>(std::forward<decltype(x)>(x)); compare<A>(e, "rotate1", s, w1, mag, 0, ctx); });
      withForm<A>(R.range(0, VT_FORM_COUNT - 1), a, R, [&](auto&& x, const char* nx){ auto e = rotate<3>(std::forward<decltype(x)>(x)); compare<A>(e, "rotate3", s, w3, mag, 0, std::string(nx) + " " + s.str()); }); }
}
#if VT_PART == 0
SCENARIO("C04", c04_product_dd, 3){ product<double, double>(R); }
#elif VT_PART == 1
SCENARIO("C04", c04_product_fd, 1){ product<float, double>(R); }
#elif VT_PART == 2
SCENARIO("C04", c04_product_ii, 1){ product<int, int>(R); }
#elif VT_PART == 3
SCENARIO("C04", c04_convolution_dd, 3){ convolution<double, double>(R); }
#elif VT_PART == 4
SCENARIO("C04", c04_convolution_df, 1){ convolution<double, float>(R); }
#elif VT_PART == 5
SCENARIO("C04", c04_convolution_if, 1){ convolution<int, float>(R); }
#elif VT_PART == 6
SCENARIO("C04", c04_convolution_ii, 1){ convolution<int, int>(R); }
#elif VT_PART == 7
SCENARIO("C04", c04_dot_dd, 1){ dotProduct<double, double>(R); }
SCENARIO("C04", c04_dot_id, 1){ dotProduct<int, double>(R); }
SCENARIO("C04", c04_dot_fi, 1){ dotProduct<float, int>(R); }
#elif VT_PART == 8
SCENARIO("C04", c04_turning_d, 2){ turning<double>(R); }
#elif VT_PART == 9
SCENARIO("C04", c04_turning_i, 1){ turning<int>(R); }
#elif VT_PART == 10
// Chains of products, transposes and rotations over temporaries
SCENARIO("C04", c04_chains, 2){
    int n = R.range(1, 5), m = R.range(1, 5), p = R.range(1, 5), z = R.range(1, 2);
    Ref<double> a = rndRef<double>(R, {n, m, z}), b = rndRef<double>(R, {m, p, z}), c = rndRef<double>(R, {p, p, z});
    SimpleMatrix<double> A = toM(a), B = toM(b), C = toM(c);
    auto mul = [](const Ref<double>& x, const Ref<double>& y){ Ref<double> o({x.s.x, y.s.y, x.s.z}); each(o.s, [&](int i, int j, int k){ double t = 0; for (int q = 0; q < x.s.y; q++) t += x.at(i, q, k) * y.at(q, j, k); o.at(i, j, k) = t; }); return o; };
    auto tr = [](const Ref<double>& x){ Ref<double> o({x.s.y, x.s.x, x.s.z}); each(o.s, [&](int i, int j, int k){ o.at(i, j, k) = x.at(j, i, k); }); return o; };
    auto rot = [](const Ref<double>& x){ Ref<double> o(x.s); each(o.s, [&](int i, int j, int k){ o.at(i, j, k) = x.at(x.s.x - 1 - i, x.s.y - 1 - j, k); }); return o; };
    auto big = [&](const Ref<double>& w){ Ref<double> g(w.s, 1e5); return g; };
    std::string ctx = std::to_string(n) + "," + std::to_string(m) + "," + std::to_string(p) + "," + std::to_string(z); sig(ctx); sample("A(BC), (AB)'C', 180 of AB with n,m,p,z = " + ctx);
    { Ref<double> w = mul(a, mul(b, c)); compare<double>(matrixMultiply(A, matrixMultiply(B, C)), "chain-abc", w.s, w, big(w), 1, ctx); }
    { Ref<double> w = mul(mul(a, b), c); compare<double>(matrixMultiply(matrixMultiply(A, SimpleMatrix<double>(B)), toM(c)), "chain-tmp", w.s, w, big(w), 1, ctx); }
    { Ref<double> w = tr(mul(a, b)); compare<double>(transpose(matrixMultiply(A, B)), "chain-transposed-product", w.s, w, big(w), 1, ctx); compare<double>(matrixMultiply(transpose(B), transpose(A)), "chain-product-of-transposes", w.s, w, big(w), 1, ctx); }
    { Ref<double> w = mul(tr(b), tr(a)); compare<double>(matrixMultiply(transpose(toM(b)), transpose(toM(a))), "chain-temporary-transposes", w.s, w, big(w), 1, ctx); }
    { Ref<double> w = rot(mul(a, b)); compare<double>(rotate<2>(matrixMultiply(A, B)), "chain-rotate", w.s, w, big(w), 1, ctx); }
    { Ref<double> w = mul(a, b); for (auto& e : w.v) e = e * 2 + 1; compare<double>(matrixMultiply(A, B) * 2.0 + 1.0, "chain-elementwise", w.s, w, big(w), 1, ctx); }
    { Ref<double> w = mul(c, c); compare<double>(matrixMultiply(C, C), "chain-square", w.s, w, big(w), 1, ctx); Ref<double> v = mul(c, tr(c)); compare<double>(matrixMultiply(C, transpose(C)), "chain-gram", v.s, v, big(v), 1, ctx); }
    std::string d = diff(A, a) + diff(B, b) + diff(C, c); CHECK(d.empty(), "operands-changed", d);
}
// Accumulation happens in the common type: values that a narrower accumulator would lose
SCENARIO("C04", c04_precision, 1){
    int n = R.range(4, 20); std::vector<int> ai(n); std::vector<double> bd(n); double want = 0; for (int i = 0; i < n; i++){ ai[i] = R.range(-3, 3); bd[i] = R.uni(-1, 1); want += ai[i] * bd[i]; }
    SimpleMatrix<int> A(dim3(1, n, 1)); SimpleMatrix<double> B(dim3(n, 1, 1)); for (int i = 0; i < n; i++){ A[i] = ai[i]; B[i] = bd[i]; }
    CHECK(near(dot(A, B), want, 1e-12, 1e-12), "dot-precision", "dot of int and double is " << dot(A, B) << " instead of " << want);
    CHECK(near(dot(B, A), want, 1e-12, 1e-12), "dot-precision", "dot of double and int is " << dot(B, A) << " instead of " << want);
    SimpleMatrix<double> M = matrixMultiply(A, B); CHECK(near(M[0], want, 1e-12, 1e-12), "product-precision", "product of int and double is " << M[0] << " instead of " << want);
    SimpleMatrix<double> K = convolve(A, transpose(B), dim2(1, 1)); CHECK(near(K[0], want, 1e-12, 1e-12), "convolution-precision", "convolution of int and double is " << K[0] << " instead of " << want);
    // Large magnitudes with cancellation need double, not float
    SimpleMatrix<double> X(dim3(3, 1, 1)), Y(dim3(1, 3, 1)); X[0] = 1e9; X[1] = 1.0 / 3; X[2] = -1e9; for (auto& y : Y) y = 1; double got = dot(X, Y);
    CHECK(std::fabs(got - 1.0 / 3) < 1e-6, "dot-double", "cancellation leaves " << got << " instead of 1/3");
    SimpleMatrix<double> P = matrixMultiply(Y, X); CHECK(std::fabs(P[0] - 1.0 / 3) < 1e-6, "product-double", "cancellation leaves " << P[0]);
    SimpleMatrix<double> V = convolve(transpose(X), Y, dim2(1, 1)); CHECK(std::fabs(V[0] - 1.0 / 3) < 1e-6, "convolution-double", "cancellation leaves " << V[0]);
    sig(std::to_string(n));
}
#endif
