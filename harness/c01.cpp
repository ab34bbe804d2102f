// VT_PARTS 7
// C01: storage, indexing, iteration, reshaping agree
#include "mat.h"
using namespace vt;

// A value unique to each position (within the range of T)
template<class T> T uniq(int n){ if constexpr (std::is_same_v<T, unsigned char>) return (T)(n % 251); else return (T)(n * 3 + 1); }

static Sh anyShape(Rng& R){
    if (!underValgrind() && R.chance(0.0015)) return hugeShape(R);
    Sh s = rndShape(R, 1, 7, 5);
    if (R.chance(0.2)){ int w = R.range(1, 7); if (w & 1) s.x = 0; if (w & 2) s.y = 0; if (w & 4) s.z = 0; }
    else if (R.chance(0.05)) s = {R.range(20, 60), R.range(1, 30), R.range(1, 3)};
    return s;
}

// Every way of reading the elements of m against the flat reference sequence
template<class M, class T> std::string readAll(M&& m, const Sh& s, const std::vector<T>& flat){
    std::ostringstream o;
    if (shOf(m.dim()) != s){ o << "shape " << shOf(m.dim()) << " instead of " << s; return o.str(); }
    if (m.size() != flat.size()){ o << "size() " << m.size() << " instead of " << flat.size(); return o.str(); }
    count("shapes examined");
    int n = 0;
    for (int k = 0; k < s.z; k++) for (int j = 0; j < s.y; j++) for (int i = 0; i < s.x; i++, n++){
        if ((T)m(dim3(i, j, k)) != flat[n]){ o << "(dim3 " << i << "," << j << "," << k << ") of " << s << " is not element " << n; return o.str(); }
        if ((T)m(i, j, k) != flat[n]){ o << "(" << i << "," << j << "," << k << ") of " << s << " is not element " << n; return o.str(); }
    }
    // Iteration
    n = 0;
    auto b = m.begin(); auto e = m.end();
    if (e - b != (std::ptrdiff_t)flat.size()){ o << "end - begin is " << (e - b) << " for shape " << s; return o.str(); }
    for (auto it = m.begin(); it != m.end(); ++it, ++n){
        if (n >= (int)flat.size()){ o << "iteration over " << s << " visits more than " << flat.size() << " elements"; return o.str(); }
        Sh at = shOf(it.idx()), want{n % s.x, (n / s.x) % s.y, n / (s.x * s.y)};
        if (at != want){ o << "iteration step " << n << " over " << s << " reports position " << at << " instead of " << want; return o.str(); }
        if ((T)*it != flat[n]){ o << "iteration step " << n << " over " << s << " sees the wrong element"; return o.str(); }
        if (it - b != n || b - it != -n){ o << "distance from begin is " << (it - b) << " at step " << n << " over " << s; return o.str(); }
        if (e - it != (std::ptrdiff_t)flat.size() - n){ o << "distance to end is " << (e - it) << " at step " << n << " over " << s; return o.str(); }
    }
    if (n != (int)flat.size()){ o << "iteration over " << s << " visits " << n << " elements"; return o.str(); }
    count("iteration steps", n);
    // Post-increment and range for
    auto it = m.begin(); n = 0;
    while (!(it == m.end()) && n < (int)flat.size()){ auto old = it++; if ((T)*old != flat[n]){ o << "post-increment at step " << n << " over " << s; return o.str(); } n++; }
    if (n != (int)flat.size() || !(it == m.end())){ o << "post-increment iteration over " << s << " ends after " << n; return o.str(); }
    n = 0; for (auto&& v : m){ if (n >= (int)flat.size() || (T)v != flat[n]){ o << "range-for step " << n << " over " << s; return o.str(); } n++; }
    if (n != (int)flat.size()){ o << "range-for over " << s << " visits " << n; return o.str(); }
    if (std::distance(m.begin(), m.end()) != (std::ptrdiff_t)flat.size()){ o << "std::distance over " << s; return o.str(); }
    return "";
}
template<class T> std::string readMat(SimpleMatrix<T>& m, const Sh& s, const std::vector<T>& flat){
    std::string r = readAll(m, s, flat); if (!r.empty()) return r;
    const SimpleMatrix<T>& c = m;
    r = readAll(c, s, flat); if (!r.empty()) return "const: " + r;
    std::ostringstream o;
    if (shOf(m.dims()) != s || (int)m.dim(0) != s.x || (int)m.dim(1) != s.y || (int)m.dim(2) != s.z){ o << "dims()/dim(i) differ from the shape " << s; return o.str(); }
    for (size_t n = 0; n < flat.size(); n++) if (m[n] != flat[n] || c[n] != flat[n]){ o << "[" << n << "] of " << s << " is the wrong element"; return o.str(); }
    int n = 0;
    for (int k = 0; k < s.z; k++) for (int j = 0; j < s.y; j++) for (int i = 0; i < s.x; i++, n++)
        if (m.getIndex(i, j, k) != (size_t)n || m.getIndex(dim3(i, j, k)) != (size_t)n || &m(i, j, k) != &m[n] || &c(i, j, k) != &m[n] || &m(dim3(i, j, k)) != &m[n]){
            o << "position (" << i << "," << j << "," << k << ") of " << s << " and flat index " << n << " are different elements"; return o.str(); }
    if (s.z == 1) for (int j = 0; j < s.y; j++) for (int i = 0; i < s.x; i++) if (&m(i, j) != &m(i, j, 0)) return "two-index access differs from channel 0";
    if (m.isSquare() != (s.x == s.y) || m.isFlat() != (s.z == 1) || m.isRow() != (s.z == 1 && s.x == 1) || m.isColumn() != (s.z == 1 && s.y == 1)){ o << "shape predicates are wrong for " << s; return o.str(); }
    // The storage is exactly the shape: a list of that length is what fits
    { SimpleMatrix<T> f(m); f = std::vector<T>(flat); f.setEntries(std::vector<T>(flat)); if (f.size() != flat.size()) return "size after assigning a list of the matrix's own length"; }
    return "";
}
// Whatever a moved-from matrix is, its shape and its elements still agree
template<class T> std::string readMovedFrom(SimpleMatrix<T>& m){
    Sh s = shOf(m.dim()); size_t n = 0; T acc{};
    if (m.size() != (size_t)s.n()) return "size() of a moved-from matrix is not that of its shape";
    for (auto it = m.begin(); it != m.end(); ++it, ++n){ if (n >= m.size()) return "iteration over a moved-from matrix does not end"; T v = *it; acc = v < acc ? v : acc; }
    if (n != m.size()) return "iteration over a moved-from matrix visits a different number of elements than its shape has";
    std::vector<T> flat(n, T(1)); m = std::vector<T>(flat);
    count("moved-from matrices examined");
    return acc == T(77) ? "" : "";
}

template<class T, class U> void agree(Rng& R){
    Sh s = anyShape(R); const int N = s.n();
    sig(std::string(tname<T>()) + s.str()); sample(std::string(tname<T>()) + " matrix of " + s.str());
    std::vector<T> flat(N); for (int n = 0; n < N; n++) flat[n] = uniq<T>(n);

    // Initial value
    T init = rndVal<T>(R);
    SimpleMatrix<T> m(s.d(), init);
    { std::vector<T> f0(N, init); std::string d = readMat(m, s, f0); CHECK(d.empty(), "initial-value", d); }
    { SimpleMatrix<T> z(s.d()); std::vector<T> f0(N, T{}); std::string d = readMat(z, s, f0); CHECK(d.empty(), "default-value", d); }
    // Write by a random way, read by all
    switch (R.range(0, 4)){
        case 0: { int n = 0; for (int k = 0; k < s.z; k++) for (int j = 0; j < s.y; j++) for (int i = 0; i < s.x; i++) m(i, j, k) = flat[n++]; break; }
        case 1: for (int n = 0; n < N; n++) m[n] = flat[n]; break;
        case 2: { int n = 0; for (auto it = m.begin(); it != m.end(); ++it) *it = flat[n++]; break; }
        case 3: { int n = 0; for (auto& v : m) v = flat[n++]; break; }
        case 4: { int n = 0; for (int k = 0; k < s.z; k++) for (int j = 0; j < s.y; j++) for (int i = 0; i < s.x; i++) m(dim3(i, j, k)) = flat[n++]; break; }
    }
    { std::string d = readMat(m, s, flat); CHECK(d.empty(), "write-read", d); }
    // Copy, copy assignment over another shape
    SimpleMatrix<T> c(m); { std::string d = readMat(c, s, flat); CHECK(d.empty(), "copy", d); }
    SimpleMatrix<T> a(anyShape(R).d(), rndVal<T>(R)); a = m; { std::string d = readMat(a, s, flat); CHECK(d.empty(), "copy-assign", d); }
    if (N){ a[N - 1] = T(0); c[0] = T(0); std::string d = readMat(m, s, flat); CHECK(d.empty(), "copy-independent", d); }
    // Conversion to another element type and back
    std::vector<U> flatU(N); for (int n = 0; n < N; n++) flatU[n] = static_cast<U>(flat[n]);
    SimpleMatrix<U> u(m); { std::string d = readMat(u, s, flatU); CHECK(d.empty(), "convert", d << " (" << tname<T>() << " to " << tname<U>() << ")"); }
    SimpleMatrix<U> u2(anyShape(R).d()); u2 = m; { std::string d = readMat(u2, s, flatU); CHECK(d.empty(), "convert-assign", d << " (" << tname<T>() << " to " << tname<U>() << ")"); }
    // The source may be constant, a temporary, a view or an expression; the target may have held more or fewer elements
    for (int form = 0; form < 8; form++){
        const SimpleMatrix<T>& k = m; SimpleMatrix<U> t(anyShape(R).d(), U(1)); SimpleMatrix<T> tt(anyShape(R).d(), T(1)); std::string d;
        switch (form){
            case 0: t = k; tt = k; break; case 1: { t = SimpleMatrix<T>(m); tt = SimpleMatrix<T>(m); break; } case 2: { t = std::move(k); tt = std::move(k); break; }
            case 3: { auto v = m.subMatView(dim3(0, 0, 0), s.d()); t = v; tt = v; break; } case 4: { const auto v = k.subMatView(dim3(0, 0, 0), s.d()); t = v; tt = v; break; } case 5: t = k.subMatView(dim3(0, 0, 0), s.d()); tt = m.subMatView(dim3(0, 0, 0), s.d()); break;
            case 6: { auto e = my_cnn::apply(m, [](T v){ return v; }); t = e; tt = std::move(e); break; } case 7: { SimpleMatrix<U> c2(k), c3(std::move(k)), c4(k.subMatView(dim3(0, 0, 0), s.d())), c5{SimpleMatrix<T>(m)}; SimpleMatrix<T> c6(k), c7(std::move(k)), c8(k.subMatView(dim3(0, 0, 0), s.d())), c9{SimpleMatrix<T>(m)}; for (auto* c : {&c2, &c3, &c4, &c5}) d += readMat(*c, s, flatU); for (auto* c : {&c6, &c7, &c8, &c9}) d += readMat(*c, s, flat); CHECK(d.empty(), "construct-form", d << " (" << tname<T>() << " to " << tname<U>() << ")"); continue; }
        }
        d = readMat(t, s, flatU); CHECK(d.empty(), "assign-form", d << " (form " << form << ", " << tname<T>() << " to " << tname<U>() << ")"); d = readMat(tt, s, flat); CHECK(d.empty(), "assign-form", d << " (form " << form << ", " << tname<T>() << ")");
    }
    { std::string d = readMat(m, s, flat); CHECK(d.empty(), "assigned-from", d); }
    // Move
    { SimpleMatrix<T> src(m); SimpleMatrix<T> dst(std::move(src)); std::string d = readMat(dst, s, flat); CHECK(d.empty(), "move", d); d = readMovedFrom(src); CHECK(d.empty(), "moved-from", d); }
    { SimpleMatrix<T> src(m), dst(anyShape(R).d()); dst = std::move(src); std::string d = readMat(dst, s, flat); CHECK(d.empty(), "move-assign", d); d = readMovedFrom(src); CHECK(d.empty(), "move-assigned-from", d); }
    { SimpleMatrix<T> src(m), dst(anyShape(R).d()); dst = std::move(src); std::string d = readMat(dst, s, flat); CHECK(d.empty(), "move-assign", d); src = m; d = readMat(src, s, flat); CHECK(d.empty(), "reuse-moved-from", d); }
    { SimpleMatrix<T> x(m), y(anyShape(R).d(), T(1)); std::swap(x, y); std::string d = readMat(y, s, flat); CHECK(d.empty(), "swap", d); }
    // Filling from a list: row by row within each channel
    std::vector<T> list; for (int k = 0; k < s.z; k++) for (int i = 0; i < s.x; i++) for (int j = 0; j < s.y; j++) list.push_back(flat[k * s.x * s.y + j * s.x + i]);
    { SimpleMatrix<T> l(s.d(), std::vector<T>(list)); std::string d = readMat(l, s, flat); CHECK(d.empty(), "list-constructor", d);
      l.setEntries(std::vector<T>(N, T(0))); l.setEntries(std::vector<T>(list)); d = readMat(l, s, flat); CHECK(d.empty(), "setEntries", d); }
    { SimpleMatrix<T> l(s.d()); l = std::vector<T>(flat); std::string d = readMat(l, s, flat); CHECK(d.empty(), "assign-vector", d); }
    // A view of everything and an expression see the same sequence
    { auto v = m.subMatView(dim3(0, 0, 0), s.d()); std::string d = readAll(v, s, flat); CHECK(d.empty(), "full-view", d);
      const auto cv = m.subMatView(dim3(0, 0, 0), s.d()); d = readAll(cv, s, flat); CHECK(d.empty(), "const-full-view", d); }
    { auto e = m + T(0); std::string d = readAll(e, s, flat); CHECK(d.empty(), "expression-iteration", d); const auto& ce = e; d = readAll(ce, s, flat); CHECK(d.empty(), "const-expression-iteration", d); }
    { auto e = m - m; std::vector<T> z(N, T(0)); std::string d = readAll(e, s, z); CHECK(d.empty(), "binary-expression-iteration", d); }
    { auto e = my_cnn::apply(m, [](T v){ return v; }); std::string d = readAll(e, s, flat); CHECK(d.empty(), "unary-expression-iteration", d); }
}
#if VT_PART == 0
using T1 = double; using T2 = float;
#elif VT_PART == 1
using T1 = float; using T2 = double;
#elif VT_PART == 2
using T1 = int; using T2 = double;
#elif VT_PART == 3
using T1 = unsigned char; using T2 = float;
#elif VT_PART == 4
using T1 = short; using T2 = int;
#elif VT_PART == 5
using T1 = long; using T2 = int;
#else
using T1 = unsigned; using T2 = long;
#endif
SCENARIO("C01", VT_CAT(c01_agree, VT_PART), 2){ agree<T1, T2>(R); }

// Histories of shape changes against a flat reference sequence
template<class T, class O> void history(Rng& R){
    Sh s{0, 0, 0}; std::vector<T> flat; SimpleMatrix<T> m; std::string log;
    { std::string d = readMat(m, s, flat); CHECK(d.empty(), "default-constructed", d); }
    const int steps = R.range(3, 20);
    for (int st = 0; st < steps; st++){
        const int op = R.range(0, 12);
        switch (op){
            case 0: case 1: {   // resize: exactly the new shape, everything addressable
                Sh n = anyShape(R); log += " resize" + n.str();
                if (op) m.resize(n.d()); else m.resize(n.x, n.y, n.z);
                CHECK(shOf(m.dim()) == n && m.size() == (size_t)n.n(), "resize-shape", "shape " << shOf(m.dim()) << " after resize to " << n << log);
                s = n; flat.assign(s.n(), T{});
                for (int i = 0; i < s.n(); i++){ m[i] = uniq<T>(i); flat[i] = uniq<T>(i); }
                break; }
            case 2: case 3: {   // reshape
                std::vector<Sh> opts; int N = s.n();
                if (N == 0) opts = {{0, 3, 2}, {2, 0, 1}, {0, 0, 0}, {4, 1, 0}};
                else for (int x = 1; x <= N; x++) if (N % x == 0) for (int y = 1; y <= N / x; y++) if ((N / x) % y == 0) opts.push_back({x, y, N / x / y});
                Sh n = R.pick(opts); log += " reshape" + n.str();
                if (op == 2) m.reshape(n.d()); else m.reshape(n.x, n.y, n.z);
                s = n; break; }
            case 4: { Sh n = anyShape(R); log += " assign" + n.str(); SimpleMatrix<T> o(n.d()); flat.assign(n.n(), T{}); for (int i = 0; i < n.n(); i++) o[i] = flat[i] = rndVal<T>(R); if (R.chance(0.5)) m = o; else m = std::move(o); s = n; break; }
            case 5: { if (!s.n()) break; log += " write"; for (int q = 0; q < 5; q++){ int i = R.range(0, s.x - 1), j = R.range(0, s.y - 1), k = R.range(0, s.z - 1); T v = rndVal<T>(R); if (q & 1) m(i, j, k) = v; else m(dim3(i, j, k)) = v; flat[k * s.x * s.y + j * s.x + i] = v; } break; }
            case 6: { log += " vector"; for (auto& v : flat) v = rndVal<T>(R); m = std::vector<T>(flat); break; }
            case 7: { log += " roundtrip-through-copies"; SimpleMatrix<T> c(m); SimpleMatrix<T> d; d = c; m = SimpleMatrix<T>(); m = std::move(d); break; }
            case 9: case 10: {  // from a matrix of another element type, in all its forms
                Sh n = R.chance(0.2) ? s : anyShape(R); int form = R.range(0, 4); log += " convert" + std::to_string(form) + n.str(); SimpleMatrix<O> o(n.d()); flat.assign(n.n(), T{}); for (int i = 0; i < n.n(); i++){ int v = R.range(0, 100); o[i] = (O)v; flat[i] = (T)v; }
                switch (form){ case 0: m = std::as_const(o); break; case 1: m = o; break; case 2: m = std::move(o); break; case 3: if (n.n()) m = std::as_const(o).subMatView({0, 0, 0}, n.d()); else m = std::as_const(o); break; case 4: m = o + (O)0; break; }
                s = n; break; }
            case 11: {          // entries in reading order
                log += " entries"; std::vector<T> v(s.n()); size_t q = 0; for (int k = 0; k < s.z; k++) for (int i = 0; i < s.x; i++) for (int j = 0; j < s.y; j++){ v[q] = rndVal<T>(R); flat[k * s.x * s.y + j * s.x + i] = v[q++]; } m.setEntries(std::move(v)); break; }
            case 12: {          // lists of another length are refused
                int n = R.chance(0.5) ? s.n() + R.range(1, 4) : R.range(0, 60); if (n == s.n()) break; log += " refused"; bool threw = false; try{ if (R.chance(0.5)) m.setEntries(std::vector<T>(n, T{})); else m = std::vector<T>(n, T{}); }catch(const my_cnn::MatrixSizeException&){ threw = true; } CHECK(threw, "length-refused", "a list of " << n << " values was accepted by a matrix of shape " << s << " after" << log); break; }
            case 8: { log += " modify"; my_cnn::modify(m, [](T v){ return (T)(v + 1); }); for (auto& v : flat) v = (T)(v + 1); break; }
        }
        count("history steps");
        std::string d = readMat(m, s, flat);
        CHECK(d.empty(), "history", d << " after" << log);
    }
    sig(std::string(tname<T>()) + log); sample(std::string(tname<T>()) + ":" + log);
}
SCENARIO("C01", VT_CAT(c01_history, VT_PART), 1){ history<T1, T2>(R); }

#if VT_PART == 0
// dim arithmetic the indexing is built on
// Reshaping to a count that only agrees in its lower 32 bits
SCENARIO("C01", c01_wrapped_count, 1){
    int k = R.range(1, 40), q = R.range(1, 12); SimpleMatrix<short> m(R.chance(0.5) ? dim3(k, q, 1) : dim3(q, 1, k)); for (size_t i = 0; i < m.size(); i++) m[i] = (short)i; dim3 was = m.dim();
    // k*q + 2^32*j = k*q*(1 + 2^32*j/(k*q)) as a product of three extents
    long c = (long)k * q; std::vector<dim3> D; for (long j = 1; j <= 8; j++){ long t = c + (j << 32); for (long a = 1; a <= 64; a++) if (t % a == 0) for (long b = 1; b <= 4096; b *= 2) if ((t / a) % b == 0 && t / a / b < (1l << 31)) D.push_back(dim3((int)a, (int)(t / a / b), (int)b)); }
    if (D.empty()) return; dim3 d = R.pick(D); sig(std::to_string(k) + "*" + std::to_string(q) + "/" + std::to_string(d.x) + "," + std::to_string(d.y)); std::string ctx = std::to_string(c) + " elements to " + shOf(d).str();
    int o = outcome<my_cnn::MatrixTransformException>([&]{ m.reshape(d); }); CHECK(o == 1, "reshape-count", "reshaping " << ctx << " is " << outcomeName(o)); CHECK(m.dim() == was && m.size() == (size_t)c && m[c - 1] == (short)(c - 1), "reshape-effect", "a refused reshape of " << ctx << " had an effect"); count("wrapped counts");
}
// Every value that fits the other type arrives there unchanged
template<class T, class U> void convertValues(Rng& R){
    Sh s = anyShape(R); Ref<T> r(s); Ref<U> want(s); sig(std::string(tname<T>()) + tname<U>() + s.str());
    auto gen = [&]{ using L = std::numeric_limits<T>; 
        for (;;){ long double v; int b = R.range(0, L::is_integer ? L::digits : 62);
            switch (R.range(0, 5)){ case 0: v = R.range(-3, 3); break; case 1: v = std::ldexp(1.0L, b) + R.range(-2, 2); break; case 2: v = -std::ldexp(1.0L, b) + R.range(-2, 2); break; case 3: v = R.chance(0.5) ? (long double)L::max() : (long double)L::lowest(); break; case 4: v = (long double)R.uni(-1, 1) * std::ldexp(1.0L, b); break; default: v = R.uni(-300, 300); }
            if (v > (long double)L::max() || v < (long double)L::lowest()) continue; T t = static_cast<T>(v); long double q = std::trunc((long double)t);
            if (std::is_floating_point_v<T>){ long double hi = (long double)std::numeric_limits<U>::max(), lo = (long double)std::numeric_limits<U>::lowest(); if (q > hi || q < lo) continue; }
            return t; } };
    for (size_t i = 0; i < r.v.size(); i++){ r.v[i] = gen(); want.v[i] = static_cast<U>(r.v[i]); }
    SimpleMatrix<T> m = toM(r); auto same = [&](const SimpleMatrix<U>& u, const char* how){ std::string d = diff(u, want); CHECK(d.empty(), "convert-value", d << " when " << how << " " << tname<T>() << " as " << tname<U>()); count("converted elements", s.n()); };
    { SimpleMatrix<U> u(m); same(u, "constructing from"); } { SimpleMatrix<U> u; u = m; same(u, "assigning"); } { SimpleMatrix<U> u(s.d()); u = std::move(m); same(u, "moving"); m = toM(r); }
    if (s.n()){ SimpleMatrix<U> u(m.subMatView({0, 0, 0}, s.d())); same(u, "constructing from a view of"); u = std::as_const(m).subMatView({0, 0, 0}, s.d()); same(u, "assigning a view of"); SimpleMatrix<U> big(dim3(s.x + 1, s.y + 1, s.z)); auto V = big.subMatView({1, 1, 0}, s.d()); V = m; SimpleMatrix<U> w(V); same(w, "assigning to a view"); }
    if constexpr (sizeof(T) >= sizeof(int)){ SimpleMatrix<U> u(m * T(1)); same(u, "constructing from an expression of"); }
}
SCENARIO("C01", c01_conversions, 2){
    switch (R.range(0, 11)){ case 0: convertValues<double, int>(R); break; case 1: convertValues<double, float>(R); break; case 2: convertValues<float, int>(R); break; case 3: convertValues<int, double>(R); break; case 4: convertValues<int, float>(R); break; case 5: convertValues<long, double>(R); break; case 6: convertValues<double, long>(R); break; case 7: convertValues<unsigned char, float>(R); break; case 8: convertValues<float, unsigned char>(R); break; case 9: convertValues<int, unsigned char>(R); break; case 10: convertValues<int, short>(R); break; default: convertValues<float, double>(R); }
}
SCENARIO("C01", c01_dims, 1){
    Sh s = anyShape(R), t = anyShape(R); dim3 a = s.d(), b = t.d();
    CHECK(shOf(a) == s && shOf(b) == t, "dim-construct", "dim3 does not hold " << s);
    CHECK((a == b) == (s == t) && (a != b) == (s != t), "dim-equality", "comparison of " << s << " and " << t);
    CHECK(shOf(a + b) == (Sh{s.x + t.x, s.y + t.y, s.z + t.z}) && shOf(a - b) == (Sh{s.x - t.x, s.y - t.y, s.z - t.z}), "dim-arithmetic", "sum or difference of " << s << " and " << t);
    CHECK(a.size() == (size_t)s.n(), "dim-size", "size of " << s << " is " << a.size());
    if (s.n()){ Sh p{R.range(0, s.x - 1), R.range(0, s.y - 1), R.range(0, s.z - 1)}; CHECK(a.getFlatIdx(p.d()) == (size_t)(p.z * s.x * s.y + p.y * s.x + p.x), "dim-flat-index", "flat index of " << p << " in " << s); }
    dim3 c(a); dim3 d; d = a; dim3 e(std::move(c)); dim3 f; f = std::move(d);
    CHECK(shOf(e) == s && shOf(f) == s, "dim-copy-move", "copy or move of " << s);
    dim2 p(s.x, s.y), q(s.x, s.y), u(t.x, t.y); CHECK((p == u) == (s.x == t.x && s.y == t.y) && (p != u) == (s.x != t.x || s.y != t.y) && !(p == dim2(s.x, s.y + 1)) && !(p == dim2(s.x + 1, s.y)), "dim2-equality", "comparison of " << s.x << "," << s.y << " with " << t.x << "," << t.y);
    CHECK(p == q && p.size() == (size_t)(s.x * s.y), "dim2", "dim2 of " << s.x << "," << s.y);
    dim3 partial(s.x); dim3 partial2(s.x, s.y); 
    CHECK(partial2.x == s.x && partial2.y == s.y && partial2.z == 0, "dim-partial", "dim3 of two values has z " << partial2.z); (void)partial;
    sig(s.str() + t.str());
}
#endif
