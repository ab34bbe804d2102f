// C02: sub-matrix views read and write exactly their own region
#include "mat.h"
#include <climits>
using namespace vt;
using my_cnn::MatrixSizeException;

struct Box{ Sh off, dim; std::string str() const { return dim.str() + "@" + off.str(); } };
static Box rndBox(Rng& R, const Sh& s){
    Box b; auto pick = [&](int n, int& o, int& d){ d = R.chance(0.2) ? n : R.range(0, n); if (n > 0 && d == 0 && R.chance(0.8)) d = 1; o = R.range(0, n - d); };
    pick(s.x, b.off.x, b.dim.x); pick(s.y, b.off.y, b.dim.y); pick(s.z, b.off.z, b.dim.z); return b;
}
static std::string badReason;
// An offset/extent pair that does not fit into s
static Box badBox(Rng& R, const Sh& s, bool extreme){
    Box b = rndBox(R, s); int* o[3] = {&b.off.x, &b.off.y, &b.off.z}; int* d[3] = {&b.dim.x, &b.dim.y, &b.dim.z}; const int n[3] = {s.x, s.y, s.z};
    int ax = R.range(0, 2);
    switch (R.range(0, extreme ? 6 : 4)){
        case 0: *o[ax] = n[ax] - *d[ax] + R.range(1, 3); break;                 // sticks out
        case 1: *d[ax] = n[ax] - *o[ax] + R.range(1, 3); break;
        case 2: *o[ax] = -R.range(1, 3); break;                                 // negative offset
        case 3: *d[ax] = -R.range(1, 3); break;                                 // negative extent
        case 4: *o[ax] = -R.range(1, 2); *d[ax] = n[ax] + 1; break;
        case 5: *o[ax] = INT_MAX - R.range(0, 2); break;                        // overflowing sums
        case 6: *d[ax] = INT_MAX - R.range(0, 2); *o[ax] = R.range(1, 3); break;
    }
    return b;
}
template<class T> bool inBox(const Box& b, int i, int j, int k){ return i >= b.off.x && i < b.off.x + b.dim.x && j >= b.off.y && j < b.off.y + b.dim.y && k >= b.off.z && k < b.off.z + b.dim.z; }
template<class T> Ref<T> cut(const Ref<T>& r, const Box& b){ Ref<T> o(b.dim); each(b.dim, [&](int i, int j, int k){ o.at(i, j, k) = r.at(b.off.x + i, b.off.y + j, b.off.z + k); }); return o; }
template<class T> void paste(Ref<T>& r, const Box& b, const Ref<T>& v){ each(b.dim, [&](int i, int j, int k){ r.at(b.off.x + i, b.off.y + j, b.off.z + k) = v.at(i, j, k); }); }

template<class T, class V> std::string readView(V& v, const Ref<T>& want){
    std::string d = diff(v, want); if (!d.empty()) return d;
    std::ostringstream o; int n = 0;
    const V& c = v;
    for (auto it = v.begin(); it != v.end(); ++it, ++n){ if (n >= want.s.n()) return "iteration over the view does not end"; if (*it != want.flat(n)) { o << "iteration over the view sees a wrong element at step " << n; return o.str(); } }
    if (n != want.s.n()) return "iteration over the view is incomplete";
    std::string res;
    each(want.s, [&](int i, int j, int k){
        if (!res.empty()) return;
        if (v(i, j, k) != want.at(i, j, k) || c(i, j, k) != want.at(i, j, k) || c(dim3(i, j, k)) != want.at(i, j, k) || v.at(dim3(i, j, k)) != want.at(i, j, k) || c.at(dim3(i, j, k)) != want.at(i, j, k)){
            std::ostringstream q; q << "element (" << i << "," << j << "," << k << ") of the view of " << want.s << " is wrong"; res = q.str(); }
    });
    count("view elements read", want.s.n());
    return res;
}

template<class T> void views(Rng& R){
    Sh s = !underValgrind() && R.chance(0.002) ? hugeShape(R) : rndShape(R, 1, 7, 5); Ref<T> r = rndRef<T>(R, s); SimpleMatrix<T> m = toM(r); const SimpleMatrix<T>& cm = m;
    Box b = rndBox(R, s); std::string what = std::string(tname<T>()) + " " + b.str() + " of " + s.str();
    sig(what); sample("view " + what);
    { auto v = m.subMatView(b.off.d(), b.dim.d()); std::string d = readView<T>(v, cut(r, b)); CHECK(d.empty(), "view-read", d << " (" << what << ")"); }
    { auto v = cm.subMatView(b.off.d(), b.dim.d()); std::string d = readView<T>(v, cut(r, b)); CHECK(d.empty(), "const-view-read", d << " (" << what << ")"); }
    { SimpleMatrix<T> c = cm.subMatCopy(b.off.d(), b.dim.d()); std::string d = diff(c, cut(r, b)); CHECK(d.empty(), "subMatCopy", d << " (" << what << ")"); if (c.size()){ c[0] += 1; d = diff(m, r); CHECK(d.empty(), "subMatCopy-independent", d); } }
    { int k = R.range(0, s.z - 1), n = R.range(1, s.z - k); Box sb{{0, 0, k}, {s.x, s.y, n}}, s1{{0, 0, k}, {s.x, s.y, 1}};
      auto v = m.slices(k, n); std::string d = readView<T>(v, cut(r, sb)); CHECK(d.empty(), "slices-read", d);
      auto cv = cm.slices(k, n); d = readView<T>(cv, cut(r, sb)); CHECK(d.empty(), "const-slices-read", d);
      auto v1 = m.slice(k); d = readView<T>(v1, cut(r, s1)); CHECK(d.empty(), "slice-read", d);
      auto cv1 = cm.slice(k); d = readView<T>(cv1, cut(r, s1)); CHECK(d.empty(), "const-slice-read", d); }
    // View of a view, to some depth
    {
        std::vector<SubMatrixView<T>> chain; Box acc{{0, 0, 0}, s}; chain.push_back(m.subMatView(dim3(0, 0, 0), s.d()));
        int depth = R.range(1, 4);
        for (int q = 0; q < depth; q++){
            Box in = rndBox(R, acc.dim);
            if (R.chance(0.4) && acc.dim.z > 0){ int k = R.range(0, acc.dim.z - 1), n = R.range(0, acc.dim.z - k); in = {{0, 0, k}, {acc.dim.x, acc.dim.y, n}};
                if (n == 1 && R.chance(0.5)) chain.push_back(chain.back().slice(k)); else chain.push_back(chain.back().slices(k, n)); }
            else chain.push_back(SubMatrixView<T>(chain.back(), in.off.d(), in.dim.d()));
            acc = {{acc.off.x + in.off.x, acc.off.y + in.off.y, acc.off.z + in.off.z}, in.dim};
            std::string d = readView<T>(chain.back(), cut(r, acc)); CHECK(d.empty(), "nested-view-read", d << " at depth " << q + 1 << " " << acc.str() << " of " << s);
        }
        // Writing through the innermost view
        Ref<T> nv = rndRef<T>(R, acc.dim); chain.back() = toM(nv); paste(r, acc, nv);
        std::string d = diff(m, r); CHECK(d.empty(), "nested-view-write", d << " after assigning " << acc.str() << " of " << s);
        // ... is visible in the outer views at once
        d = readView<T>(chain.front(), r); CHECK(d.empty(), "nested-view-visible", d);
    }
    // Histories of writes through views
    for (int q = 0, n = R.range(1, 8); q < n; q++){
        Box w = rndBox(R, s); Ref<T> old = cut(r, w), nv = rndRef<T>(R, w.dim); const char* how = "";
        auto v = m.subMatView(w.off.d(), w.dim.d());
        int op = R.range(0, 13);
        switch (op){
            case 0: { T x = rndVal<T>(R); v = x; for (auto& e : nv.v) e = x; how = "= scalar"; break; }
            case 1: v = toM(nv); how = "= matrix"; break;
            case 2: { SimpleMatrix<T> o = toM(nv); v = o; how = "= named matrix"; break; }
            case 3: { Ref<T> big(Sh{w.dim.x + 1, w.dim.y + 2, w.dim.z}); Box in{{1, 1, 0}, w.dim}; paste(big, in, nv); SimpleMatrix<T> o = toM(big); v = o.subMatView(in.off.d(), in.dim.d()); how = "= view of another matrix"; break; }
            case 4: { SimpleMatrix<T> o = toM(nv); v = o + o; for (auto& e : nv.v) e = (T)(e + e); how = "= expression"; break; }
            case 5: { T x = rndVal<T>(R); v += x; for (size_t i = 0; i < nv.v.size(); i++) nv.v[i] = (T)(old.v[i] + x); how = "+= scalar"; break; }
            case 6: { T x = rndVal<T>(R); v -= x; for (size_t i = 0; i < nv.v.size(); i++) nv.v[i] = (T)(old.v[i] - x); how = "-= scalar"; break; }
            case 7: { v *= T(2); for (size_t i = 0; i < nv.v.size(); i++) nv.v[i] = (T)(old.v[i] * 2); how = "*= scalar"; break; }
            case 8: { SimpleMatrix<T> o = toM(nv); v += o; for (size_t i = 0; i < nv.v.size(); i++) nv.v[i] = (T)(old.v[i] + nv.v[i]); how = "+= matrix"; break; }
            case 9: { SimpleMatrix<T> o = toM(nv); v -= o; for (size_t i = 0; i < nv.v.size(); i++) nv.v[i] = (T)(old.v[i] - nv.v[i]); how = "-= matrix"; break; }
            case 10: { for (auto& e : v) e = (T)(e + 1); for (size_t i = 0; i < nv.v.size(); i++) nv.v[i] = (T)(old.v[i] + 1); how = "iteration"; break; }
            case 11: { each(w.dim, [&](int i, int j, int k){ switch ((i + j + k) % 3){ case 0: v(i, j, k) = nv.at(i, j, k); break; case 1: v(dim3(i, j, k)) = nv.at(i, j, k); break; default: v.at(dim3(i, j, k)) = nv.at(i, j, k); } }); how = "element writes"; break; }
            case 12: { my_cnn::modify(v, [](T e){ return (T)(e + 3); }); for (size_t i = 0; i < nv.v.size(); i++) nv.v[i] = (T)(old.v[i] + 3); how = "modify"; break; }
            case 13: { if (w.off.z + w.dim.z > s.z || w.dim.z == 0){ nv = old; break; } w = {{0, 0, w.off.z}, {s.x, s.y, 1}}; nv = rndRef<T>(R, w.dim); m.slice(w.off.z) = toM(nv); how = "slice ="; break; }
        }
        paste(r, w, nv); count("writes through views");
        std::string d = diff(m, r); CHECK(d.empty(), "view-write", d << " after " << how << " on " << w.str() << " of " << s << " (" << tname<T>() << ")");
        if (op != 13){ d = readView<T>(v, cut(r, w)); CHECK(d.empty(), "view-write-visible", d << " after " << how); }
        // A change made in the matrix is visible in the view
        if (w.dim.n() && op != 13){ T x = rndVal<T>(R); m(w.off.x, w.off.y, w.off.z) = x; r.at(w.off.x, w.off.y, w.off.z) = x; CHECK(v(0, 0, 0) == x, "matrix-write-visible", "view does not follow its matrix"); }
    }
}
SCENARIO("C02", c02_views, 5){ switch (R.range(0, 3)){ case 0: views<double>(R); break; case 1: views<float>(R); break; case 2: views<int>(R); break; case 3: views<unsigned char>(R); break; } }

template<class T> void refusals(Rng& R){
    Sh s = rndShape(R, 1, 6, 4); if (R.chance(0.1)) s.y = 0;
    Ref<T> r = rndRef<T>(R, s); SimpleMatrix<T> m = toM(r); const SimpleMatrix<T>& cm = m;
    for (int q = 0; q < 4; q++){
        Box b = badBox(R, s, true); int o;
        o = outcome<MatrixSizeException>([&]{ auto v = m.subMatView(b.off.d(), b.dim.d()); (void)v; });
        CHECK(o == 1, "outside-view", "view " << b.str() << " of " << s << " is " << outcomeName(o));
        o = outcome<MatrixSizeException>([&]{ auto v = cm.subMatView(b.off.d(), b.dim.d()); (void)v; });
        CHECK(o == 1, "outside-const-view", "const view " << b.str() << " of " << s << " is " << outcomeName(o));
        if (b.dim.x <= 8 && b.dim.y <= 8 && b.dim.z <= 8){ o = outcome<MatrixSizeException>([&]{ auto v = m.subMatCopy(b.off.d(), b.dim.d()); }); CHECK(o == 1, "outside-copy", "copy " << b.str() << " of " << s << " is " << outcomeName(o)); }
        o = outcome<MatrixSizeException>([&]{ SubMatrixView<T> v(m, b.off.d(), b.dim.d()); (void)v; });
        CHECK(o == 1, "outside-view-ctor", "view " << b.str() << " of " << s << " is " << outcomeName(o));
        int k = R.chance(0.5) ? -R.range(1, 3) : s.z + R.range(0, 3);
        o = outcome<MatrixSizeException>([&]{ auto v = m.slice(k); (void)v; }); CHECK(o == 1, "outside-slice", "slice " << k << " of " << s << " is " << outcomeName(o));
        o = outcome<MatrixSizeException>([&]{ auto v = cm.slice(k); (void)v; }); CHECK(o == 1, "outside-const-slice", "slice " << k << " of " << s << " is " << outcomeName(o));
        int k0 = R.range(0, s.z); int n = s.z - k0 + R.range(1, 3);
        o = outcome<MatrixSizeException>([&]{ auto v = m.slices(k0, n); (void)v; }); CHECK(o == 1, "outside-slices", "slices " << k0 << "+" << n << " of " << s << " is " << outcomeName(o));
        o = outcome<MatrixSizeException>([&]{ auto v = cm.slices(k0, -R.range(1, 2)); (void)v; }); CHECK(o == 1, "negative-slices", "negative slice count is " << outcomeName(o));
        // Views of views must stay inside the view even where the matrix would be large enough
        Box in = rndBox(R, s); SubMatrixView<T> v = m.subMatView(in.off.d(), in.dim.d()); Box bb = badBox(R, in.dim, false);
        o = outcome<MatrixSizeException>([&]{ SubMatrixView<T> w(v, bb.off.d(), bb.dim.d()); (void)w; });
        CHECK(o == 1, "outside-nested-view", "view " << bb.str() << " of view " << in.str() << " of " << s << " is " << outcomeName(o));
        int vk = R.chance(0.5) ? -1 : in.dim.z + R.range(0, 2);
        o = outcome<MatrixSizeException>([&]{ auto w = v.slice(vk); (void)w; }); CHECK(o == 1, "outside-nested-slice", "slice " << vk << " of view " << in.str() << " of " << s << " is " << outcomeName(o));
        int vk0 = R.range(0, in.dim.z), vn = in.dim.z - vk0 + R.range(1, 2);
        o = outcome<MatrixSizeException>([&]{ auto w = v.slices(vk0, vn); (void)w; }); CHECK(o == 1, "outside-nested-slices", "slices " << vk0 << "+" << vn << " of view " << in.str() << " of " << s << " is " << outcomeName(o));
        // Checked access
        Sh p{R.range(-2, in.dim.x + 1), R.range(-2, in.dim.y + 1), R.range(-2, in.dim.z + 1)};
        if (R.chance(0.1)) (&p.x)[R.range(0, 2)] = R.chance(0.5) ? INT_MAX : INT_MIN;
        bool inside = p.x >= 0 && p.y >= 0 && p.z >= 0 && p.x < in.dim.x && p.y < in.dim.y && p.z < in.dim.z;
        const SubMatrixView<T>& cv = v;
        o = outcome<std::out_of_range>([&]{ volatile T x = v.at(p.d()); (void)x; }); CHECK(o == (inside ? 0 : 1), "checked-access", "at(" << p << ") of a view of " << in.dim << " is " << outcomeName(o));
        o = outcome<std::out_of_range>([&]{ volatile T x = cv.at(p.d()); (void)x; }); CHECK(o == (inside ? 0 : 1), "const-checked-access", "at(" << p << ") of a view of " << in.dim << " is " << outcomeName(o));
        count("view requests refused", 9); sig(s.str() + b.str() + bb.str() + in.str());
    }
    std::string d = diff(m, r); CHECK(d.empty(), "refusal-changes-matrix", d);
}
SCENARIO("C02", c02_refusals, 3){ switch (R.range(0, 2)){ case 0: refusals<double>(R); break; case 1: refusals<int>(R); break; case 2: refusals<unsigned char>(R); break; } }
