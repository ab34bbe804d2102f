// VT_PARTS 3
// C06: assignments and in-place updates use the values from before the update
#include "mat.h"
using namespace vt;
using my_cnn::matrixMultiply; using my_cnn::convolve; using my_cnn::transpose; using my_cnn::rotate;

template<class T> Ref<T> rtr(const Ref<T>& x){ Ref<T> o({x.s.y, x.s.x, x.s.z}); each(o.s, [&](int i, int j, int k){ o.at(i, j, k) = x.at(j, i, k); }); return o; }
template<class T> Ref<T> rrot(const Ref<T>& x, int n){ Ref<T> o(x.s); const int X = x.s.x, Y = x.s.y; each(o.s, [&](int i, int j, int k){ o.at(i, j, k) = n == 1 ? x.at(Y - 1 - j, i, k) : n == 2 ? x.at(X - 1 - i, Y - 1 - j, k) : x.at(j, X - 1 - i, k); }); return o; }
template<class T> Ref<T> rmul(const Ref<T>& x, const Ref<T>& y){ Ref<T> o({x.s.x, y.s.y, x.s.z}); each(o.s, [&](int i, int j, int k){ T t{}; for (int q = 0; q < x.s.y; q++) t += x.at(i, q, k) * y.at(q, j, k); o.at(i, j, k) = t; }); return o; }
template<class T> Ref<T> rcut(const Ref<T>& x, Sh off, Sh d){ Ref<T> o(d); each(d, [&](int i, int j, int k){ o.at(i, j, k) = x.at(off.x + i, off.y + j, off.z + k); }); return o; }
template<class T> Ref<T> rzip(const Ref<T>& x, const Ref<T>& y, T (*f)(T, T)){ Ref<T> o(x.s); for (size_t i = 0; i < o.v.size(); i++) o.v[i] = f(x.v[i], y.v[i]); return o; }
template<class T> T add(T a, T b){ return a + b; } template<class T> T sub(T a, T b){ return a - b; } template<class T> T mul(T a, T b){ return a * b; } template<class T> T dvd(T a, T b){ return a / b; }

// Small values so that integer products stay in range; multiples of 1/8 so that sums of products are exact
template<class T> Ref<T> small(Rng& R, Sh s){ Ref<T> r(s); for (auto& e : r.v) e = std::is_floating_point_v<T> ? (T)(R.range(-16, 16) / 8.0) : (T)R.range(-4, 4); return r; }
template<class T> Ref<T> nonzero(Rng& R, Sh s){ Ref<T> r = small<T>(R, s); for (auto& e : r.v) if (std::fabs((double)e) < 0.25) e = (T)2; return r; }

template<class T> void assignSelf(Rng& R){
    const bool vast = R.vastly(0.01); int n = vast ? R.range(30, 75) : R.far(1, 5, 12), z = vast ? R.range(1, 2) : R.far(1, 3, 20); Sh s = vast || R.chance(0.5) ? Sh{n, n, z} : rndShape(R, 1, 5, 3);
    Ref<T> r = small<T>(R, s), w; SimpleMatrix<T> A = toM(r); const char* how = ""; const bool sq = s.x == s.y;
    switch (R.range(0, 15)){
        case 0: how = "A = A'"; w = rtr(r); A = transpose(A); break;
        case 1: how = "A = rot180 A"; w = rrot(r, 2); A = rotate<2>(A); break;
        case 2: if (!sq) return; how = "A = rot90 A"; w = rrot(r, 1); A = rotate<1>(A); break;
        case 3: if (!sq) return; how = "A = rot270 A"; w = rrot(r, 3); A = rotate<3>(A); break;
        case 4: how = "A = A A'"; w = rmul(r, rtr(r)); A = matrixMultiply(A, transpose(A)); break;
        case 5: how = "A = A' A"; w = rmul(rtr(r), r); A = matrixMultiply(transpose(A), A); break;
        case 6: if (!sq) return; how = "A = A A"; w = rmul(r, r); A = matrixMultiply(A, A); break;
        case 7: { how = "A = part of A"; Sh d{R.range(1, s.x), R.range(1, s.y), R.range(1, s.z)}, o{R.range(0, s.x - d.x), R.range(0, s.y - d.y), R.range(0, s.z - d.z)}; w = rcut(r, o, d); if (R.chance(0.5)) A = A.subMatView(o.d(), d.d()); else A = std::as_const(A).subMatView(o.d(), d.d()); break; }
        case 8: { how = "A = slice of A"; int k = R.range(0, s.z - 1); w = rcut(r, Sh{0, 0, k}, Sh{s.x, s.y, 1}); A = A.slice(k); break; }
        case 9: how = "A = A + A"; w = rzip(r, r, add<T>); A = A + A; break;
        case 10: if (!sq) return; how = "A = A' - A"; w = rzip(rtr(r), r, sub<T>); A = transpose(A) - A; break;
        case 11: how = "A = A * 2 - A"; w = r; A = A * T(2) - A; break;
        case 12: { how = "A = part of A * A part"; Sh d{R.range(1, s.x), s.y, s.z}; Sh o{s.x - d.x, 0, 0}; w = rzip(rcut(r, Sh{0, 0, 0}, d), rcut(r, o, d), mul<T>); A = A.subMatView(dim3(0, 0, 0), d.d()) * A.subMatView(o.d(), d.d()); break; }
        case 13: { how = "A = convolve(A, part of A)"; if (s.z != 1) return; Sh d{R.range(1, s.x), R.range(1, s.y), 1}; Ref<T> k = rcut(r, Sh{0, 0, 0}, d); w = Ref<T>(Sh{s.x - d.x + 1, s.y - d.y + 1, 1}); each(w.s, [&](int i, int j, int){ T t{}; for (int p = 0; p < d.x; p++) for (int q = 0; q < d.y; q++) t += r.at(i + p, j + q, 0) * k.at(p, q, 0); w.at(i, j, 0) = t; }); A = convolve(A, A.subMatView(dim3(0, 0, 0), d.d()), dim2(1, 1)); break; }
        case 14: how = "A = A"; w = r; { SimpleMatrix<T>& B = A; A = B; } break;
        case 15: { if (!sq) return; how = "A = rot180(A' ) + A A"; w = rzip(rrot(rtr(r), 2), rmul(r, r), add<T>); A = rotate<2>(transpose(A)) + matrixMultiply(A, A); break; }
    }
    std::string ctx = std::string(tname<T>()) + " " + s.str() + " " + how; sig(ctx); sample(ctx); count("self-referential assignments");
    std::string d = diff(A, w, false); CHECK(d.empty(), std::string("self-assign:") + how, d << " after " << how << " on " << s);
}
template<class T> void scalarFromSelf(Rng& R){
    Sh s = !underValgrind() && R.chance(0.002) ? hugeShape(R) : rndShape(R, 1, 5, 3); Ref<T> r = nonzero<T>(R, s); SimpleMatrix<T> A = toM(r); int n = R.range(0, s.n() - 1); Sh p{n % s.x, (n / s.x) % s.y, n / (s.x * s.y)}; T v = r.flat(n); Ref<T> w = r; const char* how = "";
    bool view = R.chance(0.4); Sh off{R.range(0, 1), R.range(0, 1), R.range(0, 1)};
    auto fin = [&](auto& D, auto& elem){
        switch (R.range(0, 4)){
            case 0: how = "+="; for (auto& e : w.v) e += v; D += elem; break;
            case 1: how = "-="; for (auto& e : w.v) e -= v; D -= elem; break;
            case 2: how = "*="; for (auto& e : w.v) e *= v; D *= elem; break;
            case 3: how = "/="; for (auto& e : w.v) e /= v; D /= elem; break;
            case 4: how = "= D op element"; for (auto& e : w.v) e = e * v + v; D = D * elem + elem; break;
        }
    };
    std::string d;
    if (!view){ fin(A, A(p.x, p.y, p.z)); d = diff(A, w, false); }
    else {
        Ref<T> br = small<T>(R, Sh{s.x + 2, s.y + 2, s.z + 2}); each(s, [&](int i, int j, int k){ br.at(i + off.x, j + off.y, k + off.z) = r.at(i, j, k); });
        SimpleMatrix<T> B = toM(br); auto V = B.subMatView(off.d(), s.d()); if (R.chance(0.5)) fin(V, V(dim3(p.x, p.y, p.z))); else fin(V, B(p.x + off.x, p.y + off.y, p.z + off.z));
        d = diff(V, w, false); each(s, [&](int i, int j, int k){ br.at(i + off.x, j + off.y, k + off.z) = w.at(i, j, k); }); d += diff(B, br, false);
        // Fill a view with one of its own elements
        Ref<T> fr = br; T fv = br.at(off.x + p.x, off.y + p.y, off.z + p.z); each(s, [&](int i, int j, int k){ fr.at(i + off.x, j + off.y, k + off.z) = fv; }); V = V(dim3(p.x, p.y, p.z)); std::string d2 = diff(B, fr, false);
        CHECK(d2.empty(), "view-filled-from-self", d2 << " after filling " << s << " with its element " << p);
    }
    std::string ctx = std::string(tname<T>()) + " " + s.str() + (view ? " view " : " matrix ") + how + " own element " + p.str(); sig(ctx); sample(ctx); count("updates by an own element");
    CHECK(d.empty(), std::string("scalar-from-self:") + how, d << " after " << ctx);
}
template<class T> void updateBySelf(Rng& R){
    const bool vast = R.vastly(0.01); int n = vast ? R.range(30, 120) : R.far(1, 5, 12), z = vast ? R.range(1, 2) : R.far(1, 3, 20); Sh s = vast || R.chance(0.6) ? Sh{n, n, z} : rndShape(R, 1, 5, 3); const bool sq = s.x == s.y;
    Ref<T> r = nonzero<T>(R, s), w; SimpleMatrix<T> A = toM(r); const char* how = ""; T (*f)(T, T) = nullptr;
    auto go = [&](auto& D, auto&& other, const Ref<T>& o){
        switch (R.range(0, 3)){
            case 0: how = "+="; f = add<T>; D += other; break; case 1: how = "-="; f = sub<T>; D -= other; break;
            case 2: how = "*="; f = mul<T>; D *= other; break; case 3: how = "/="; f = dvd<T>; D /= other; break;
        }
        w = rzip(r, o, f);
    };
    const char* what = ""; std::string d;
    switch (R.range(0, 5)){
        case 0: what = "itself"; go(A, A, r); break;
        case 1: if (!sq) return; what = "its transpose"; go(A, transpose(A), rtr(r)); break;
        case 2: what = "its half turn"; go(A, rotate<2>(A), rrot(r, 2)); break;
        case 3: what = "a view of all of itself"; go(A, A.subMatView(dim3(0, 0, 0), s.d()), r); break;
        case 4: if (!sq) return; what = "its quarter turn"; go(A, rotate<1>(A), rrot(r, 1)); break;
        case 5: { what = "twice itself"; Ref<T> t = rzip(r, r, add<T>); go(A, A + A, t); break; }
    }
    std::string ctx = std::string(tname<T>()) + " " + s.str() + " " + how + " " + what; sig(ctx); sample(ctx); count("updates by own values");
    d = diff(A, w, false); CHECK(d.empty(), std::string("update-by-self:") + what, d << " after " << ctx);
}
// Views of one matrix that overlap, shifted along one axis only or anyhow
template<class T> void overlapping(Rng& R){
    for (int rep = 0; rep < 6; rep++){
        Sh s{R.far(1, 5, 12), R.far(1, 5, 12), R.far(1, 5, 20)}; if (R.chance(0.3)) s.x = 1; if (R.chance(0.3)) s.y = 1; if (R.chance(0.3)) s.z = 1; if (R.vastly(0.004)) s = R.chance(0.5) ? hugeShape(R) : Sh{R.range(40, 120), R.range(40, 120), R.range(1, 3)}; Ref<T> r = nonzero<T>(R, s); SimpleMatrix<T> A = toM(r); const char* what = "";
        // Shifted along one axis only, or anyhow
        const int axis = R.range(0, 4); auto ext = [&](int e, int ax){ return axis < 3 && axis != ax ? e : R.range(1, e); };
        Sh d3{ext(s.x, 0), ext(s.y, 1), ext(s.z, 2)}; auto at = [&]{ return Sh{R.range(0, s.x - d3.x), R.range(0, s.y - d3.y), R.range(0, s.z - d3.z)}; }; Sh o1 = at(), o2 = at();
        auto V1 = A.subMatView(o1.d(), d3.d()); auto V2 = A.subMatView(o2.d(), d3.d()); Ref<T> v2 = rcut(r, o2, d3), v1 = rcut(r, o1, d3); Ref<T> full = r; Ref<T> nv;
        auto with = [&](auto op){      // the source view in every form
            switch (R.range(0, 4)){
                case 0: op(V2); break;
                case 1: op(std::as_const(V2)); break;
                case 2: op(A.subMatView(o2.d(), d3.d())); break;
                case 3: op(std::as_const(A).subMatView(o2.d(), d3.d())); break;
                case 4: { auto all = A.subMatView(dim3(0, 0, 0), s.d()); op(SubMatrixView<T>(all, o2.d(), d3.d())); break; }
            }
        };
        switch (std::max(0, R.range(-4, 6))){
            case 0: what = "view = overlapping view"; with([&](auto&& v){ V1 = std::forward<decltype(v)>(v); }); nv = v2; break;
            case 1: what = "view += overlapping view"; with([&](auto&& v){ V1 += std::forward<decltype(v)>(v); }); nv = rzip(v1, v2, add<T>); break;
            case 2: what = "view = expression of overlapping views"; with([&](auto&& v){ V1 = std::forward<decltype(v)>(v) - V1; }); nv = rzip(v2, v1, sub<T>); break;
            case 3: what = "view *= overlapping view"; with([&](auto&& v){ V1 *= std::forward<decltype(v)>(v); }); nv = rzip(v1, v2, mul<T>); break;
            case 4: what = "view = half turn of overlapping view"; with([&](auto&& v){ V1 = rotate<2>(std::forward<decltype(v)>(v)); }); nv = rrot(v2, 2); break;
            case 5: what = "view -= overlapping view"; with([&](auto&& v){ V1 -= std::forward<decltype(v)>(v); }); nv = rzip(v1, v2, sub<T>); break;
            case 6: what = "view /= overlapping view"; with([&](auto&& v){ V1 /= std::forward<decltype(v)>(v); }); nv = rzip(v1, v2, dvd<T>); break;
        }
        each(d3, [&](int i, int j, int k){ full.at(o1.x + i, o1.y + j, o1.z + k) = nv.at(i, j, k); });
        std::string ctx = std::string(tname<T>()) + " " + s.str() + " " + what + ", " + d3.str() + " at " + o1.str() + " from " + o2.str(); sig(ctx); sample(ctx); count("updates by own values");
        std::string d = diff(A, full, false); CHECK(d.empty(), std::string("overlap:") + what, d << " after " << ctx);
    }
}
#if VT_PART == 0
using TT = double;
#elif VT_PART == 1
using TT = int;
#else
using TT = float;
#endif
SCENARIO("C06", VT_CAT(c06_assign, VT_PART), 3){ assignSelf<TT>(R); }
SCENARIO("C06", VT_CAT(c06_scalar, VT_PART), 2){ scalarFromSelf<TT>(R); }
SCENARIO("C06", VT_CAT(c06_update, VT_PART), 3){ updateBySelf<TT>(R); }
SCENARIO("C06", VT_CAT(c06_overlap, VT_PART), 3){ overlapping<TT>(R); }
