// Independent double-precision reference of the network: naive loops over reference tensors
#pragma once
#include "mat.h"
#include <memory>
#include "cnn_from_scratch/ModelDescription.h"
#include "cnn_from_scratch/Layers/Softmax.h"

namespace vt{
using my_cnn::ModelLayer; using my_cnn::Kernel; using my_cnn::Pooling; using my_cnn::ConnectedLayer; using my_cnn::Activation; using my_cnn::Softmax;
using D = double; using RefD = Ref<double>; using MatD = SimpleMatrix<double>;

struct RLayer{
    enum K{CONV, POOL, FC, ACT, SOFT} k = ACT;
    Sh f; int nf = 0, stride = 1;                                   // CONV
    int px = 1, py = 1, sx = 1, sy = 1; my_cnn::PoolingType pt = my_cnn::MAX;   // POOL
    my_cnn::ModelActivationFunction act = my_cnn::LINEAR;           // ACT
    int n = 0;                                                      // FC outputs, SOFT labels
    RefD w, b; bool has_params = false;
    std::string str() const {
        std::ostringstream o;
        switch (k){
            case CONV: o << "conv" << f.x << "x" << f.y << "x" << f.z << "*" << nf << "/" << stride; break;
            case POOL: o << (pt == my_cnn::MAX ? "max" : pt == my_cnn::MIN ? "min" : "avg") << px << "x" << py << "/" << sx << "," << sy; break;
            case FC: o << "fc" << n; break;
            case ACT: o << my_cnn::toString(act); break;
            case SOFT: o << "softmax" << n; break;
        }
        return o.str();
    }
};
inline std::string strOf(const std::vector<RLayer>& v){ std::string s; for (auto& l : v) s += (s.empty() ? "" : " ") + l.str(); return s; }
inline int outN(int in, int win, int st){ int n = 0; for (int p = 0; p + win <= in; p += st) n++; return n; }
inline Sh outShape(const RLayer& l, const Sh& s){
    switch (l.k){
        case RLayer::CONV: return {outN(s.x, l.f.x, l.stride), outN(s.y, l.f.y, l.stride), l.nf};
        case RLayer::POOL: return {outN(s.x, l.px, l.sx), outN(s.y, l.py, l.sy), s.z};
        case RLayer::FC: return {l.n, 1, 1};
        default: return s;
    }
}
inline double actF(my_cnn::ModelActivationFunction a, double v){
    switch (a){
        case my_cnn::RELU: return v > 0 ? v : 0; case my_cnn::SIGMOID: return v >= 0 ? 1 / (1 + std::exp(-v)) : std::exp(v) / (1 + std::exp(v));
        case my_cnn::TANGENT: return std::tanh(v); case my_cnn::LEAKY_RELU: return v > 0 ? v : 0.1 * v; default: return v;
    }
}
// Derivative; near a kink the lower (alt 0) or upper (alt 1) one-sided value
inline double actG(my_cnn::ModelActivationFunction a, double v, int alt, double tie){
    bool up = std::fabs(v) <= tie ? alt == 1 : v > 0;
    switch (a){
        case my_cnn::RELU: return up ? 1 : 0; case my_cnn::LEAKY_RELU: return up ? 1 : 0.1;
        case my_cnn::SIGMOID: { double e = std::exp(-std::fabs(v)); return e / ((1 + e) * (1 + e)); }
        case my_cnn::TANGENT: { double c = std::cosh(v); return std::isinf(c) ? 0 : 1 / (c * c); }
        default: return 1;
    }
}
inline RefD forward(const RLayer& l, const RefD& in){
    Sh o = outShape(l, in.s); RefD out(o);
    switch (l.k){
        case RLayer::CONV: each(o, [&](int i, int j, int k){ double t = l.b.at(k, 0, 0); for (int c = 0; c < l.f.z; c++) for (int p = 0; p < l.f.x; p++) for (int q = 0; q < l.f.y; q++) t += l.w.at(p, q, k * l.f.z + c) * in.at(i * l.stride + p, j * l.stride + q, c); out.at(i, j, k) = t; }); break;
        case RLayer::POOL: each(o, [&](int i, int j, int k){ double m = in.at(i * l.sx, j * l.sy, k), t = 0; for (int p = 0; p < l.px; p++) for (int q = 0; q < l.py; q++){ double v = in.at(i * l.sx + p, j * l.sy + q, k); t += v; if (l.pt == my_cnn::MAX ? v > m : v < m) m = v; } out.at(i, j, k) = l.pt == my_cnn::AVG ? t / (l.px * l.py) : m; }); break;
        case RLayer::FC: for (int i = 0; i < l.n; i++){ double t = l.b.at(i, 0, 0); for (int j = 0; j < in.s.n(); j++) t += l.w.at(i, j, 0) * in.flat(j); out.at(i, 0, 0) = t; } break;
        case RLayer::ACT: for (size_t i = 0; i < in.v.size(); i++) out.v[i] = actF(l.act, in.v[i]); break;
        case RLayer::SOFT: { double m = in.v[0], t = 0; for (double v : in.v) m = std::max(m, v); for (size_t i = 0; i < in.v.size(); i++) t += out.v[i] = std::exp(in.v[i] - m); for (double& v : out.v) v /= t; break; }
    }
    return out;
}
// Gradient with respect to the input; parameter gradients are added to gw, gb (if given)
inline RefD backward(const RLayer& l, const RefD& in, const RefD& g, RefD* gw, RefD* gb, int alt = 0, double tie = 0){
    RefD gi(in.s); Sh o = outShape(l, in.s);
    switch (l.k){
        case RLayer::CONV:
            each(o, [&](int i, int j, int k){ double d = g.at(i, j, k); if (gb) gb->at(k, 0, 0) += d;
                for (int c = 0; c < l.f.z; c++) for (int p = 0; p < l.f.x; p++) for (int q = 0; q < l.f.y; q++){ if (gw) gw->at(p, q, k * l.f.z + c) += d * in.at(i * l.stride + p, j * l.stride + q, c); gi.at(i * l.stride + p, j * l.stride + q, c) += d * l.w.at(p, q, k * l.f.z + c); } });
            break;
        case RLayer::POOL:
            each(o, [&](int i, int j, int k){ double d = g.at(i, j, k);
                if (l.pt == my_cnn::AVG){ for (int p = 0; p < l.px; p++) for (int q = 0; q < l.py; q++) gi.at(i * l.sx + p, j * l.sy + q, k) += d / (l.px * l.py); return; }
                double best = in.at(i * l.sx, j * l.sy, k); auto better = [&](double v){ return l.pt == my_cnn::MAX ? v > best : v < best; };
                for (int q = 0; q < l.py; q++) for (int p = 0; p < l.px; p++){ double v = in.at(i * l.sx + p, j * l.sy + q, k); if (better(v)) best = v; }
                int bp = -1, bq = -1;       // first (alt 0) or last (alt 1) element within tie of the best
                for (int q = 0; q < l.py; q++) for (int p = 0; p < l.px; p++) if (std::fabs(in.at(i * l.sx + p, j * l.sy + q, k) - best) <= tie && (bp < 0 || alt == 1)){ bp = p; bq = q; }
                gi.at(i * l.sx + bp, j * l.sy + bq, k) += d; });
            break;
        case RLayer::FC:
            for (int i = 0; i < l.n; i++){ double d = g.at(i, 0, 0); if (gb) gb->at(i, 0, 0) += d; for (int j = 0; j < in.s.n(); j++){ if (gw) gw->at(i, j, 0) += d * in.flat(j); gi.flat(j) += d * l.w.at(i, j, 0); } }
            break;
        case RLayer::ACT: for (size_t i = 0; i < in.v.size(); i++) gi.v[i] = g.v[i] * actG(l.act, in.v[i], alt, tie); break;
        case RLayer::SOFT: { RefD p = forward(l, in); double t = 0; for (size_t i = 0; i < p.v.size(); i++) t += p.v[i] * g.v[i]; for (size_t i = 0; i < p.v.size(); i++) gi.v[i] = p.v[i] * (g.v[i] - t); break; }
    }
    return gi;
}
struct RNet{
    std::vector<RLayer> L; Sh in;
    std::vector<RefD> run(const RefD& x) const { std::vector<RefD> a{x}; for (auto& l : L) a.push_back(forward(l, a.back())); return a; }
    struct Grad{ std::vector<RefD> w, b; };
    Grad zero() const { Grad g; for (auto& l : L){ g.w.emplace_back(l.w.s); g.b.emplace_back(l.b.s); } return g; }
    // Gradient of -ln p[label] for one sample. The softmax layer is last.
    Grad grad(const RefD& x, int label, int alt, double tie) const {
        auto a = run(x); Grad G = zero(); RefD g = a.back(); g.flat(label) -= 1;      // softmax and cross entropy together
        for (int i = (int)L.size() - 2; i >= 0; i--) g = backward(L[i], a[i], g, L[i].has_params ? &G.w[i] : nullptr, L[i].has_params ? &G.b[i] : nullptr, alt, tie);
        return G;
    }
    // Whether the gradient is well determined at x (no kink or tie matters)
    bool smooth(const RefD& x, int label, double tie) const {
        Grad a = grad(x, label, 0, tie), b = grad(x, label, 1, tie);
        for (size_t i = 0; i < L.size(); i++){ for (size_t j = 0; j < a.w[i].v.size(); j++) if (!near(a.w[i].v[j], b.w[i].v[j], 1e-9, 1e-12)) return false; for (size_t j = 0; j < a.b[i].v.size(); j++) if (!near(a.b[i].v[j], b.b[i].v[j], 1e-9, 1e-12)) return false; }
        return true;
    }
    void step(const Grad& g, double f){ for (size_t i = 0; i < L.size(); i++){ for (size_t j = 0; j < g.w[i].v.size(); j++) L[i].w.v[j] -= f * g.w[i].v[j]; for (size_t j = 0; j < g.b[i].v.size(); j++) L[i].b.v[j] -= f * g.b[i].v[j]; } }
};

// ---- building library layers from reference layers ----
inline void fillParams(Rng& R, RLayer& l, const Sh& in, double scale = 1){
    if (l.k == RLayer::CONV){ l.w = RefD({l.f.x, l.f.y, l.f.z * l.nf}); l.b = RefD({l.nf, 1, 1}); }
    else if (l.k == RLayer::FC){ l.w = RefD({l.n, in.n(), 1}); l.b = RefD({l.n, 1, 1}); }
    else return;
    l.has_params = true; for (auto& v : l.w.v) v = R.uni(-scale, scale); for (auto& v : l.b.v) v = R.uni(-scale, scale);
}
inline std::shared_ptr<ModelLayer> makeLayer(const RLayer& l){
    switch (l.k){
        case RLayer::CONV: return std::make_shared<Kernel>(l.f.d(), (unsigned)l.nf, (unsigned)l.stride);
        case RLayer::POOL: return std::make_shared<Pooling>(dim2(l.px, l.py), dim2(l.sx, l.sy), l.pt);
        case RLayer::FC: return std::make_shared<ConnectedLayer>((unsigned)l.n);
        case RLayer::ACT: return std::make_shared<Activation>(l.act);
        default: return std::make_shared<Softmax>((size_t)l.n);
    }
}
// Give a layer the reference parameters. A connected layer first sees an input of its shape.
inline void setParams(ModelLayer& m, const RLayer& l, const Sh& in){
    if (!l.has_params) return;
    if (l.k == RLayer::FC){ MatD x(in.d(), 0.5); m.propagateForward(std::move(x), 0); }
    m.weights = toM(l.w); m.biases = toM(l.b);
}
inline void readParams(RLayer& l, const ModelLayer& m){ if (l.k == RLayer::CONV || l.k == RLayer::FC){ l.w = toRef(m.weights); l.b = toRef(m.biases); l.has_params = true; } }

template<class Model> void buildModel(Model& M, const RNet& N){
    Sh s = N.in;
    for (auto& l : N.L){
        if (l.k == RLayer::SOFT){ std::vector<std::decay_t<decltype(M.output_labels[0])>> labels; for (int i = 0; i < l.n; i++){ if constexpr (std::is_same_v<std::decay_t<decltype(M.output_labels[0])>, std::string>) labels.push_back("c" + std::to_string(i)); else labels.push_back(i); } M.setOutputLabels(labels); }
        else switch (l.k){
            case RLayer::CONV: if (l.stride == 1) M.addKernel(l.f.d(), l.nf); else M.layers.push_back(makeLayer(l)); break;
            case RLayer::POOL: M.addPooling(dim2(l.px, l.py), dim2(l.sx, l.sy), l.pt); break;
            case RLayer::FC: M.addConnectedLayer(l.n); break;
            default: M.addActivation(l.act); break;
        }
        setParams(*M.layers.back(), l, s);
        s = outShape(l, s);
    }
}
inline my_cnn::ModelActivationFunction rndAct(Rng& R, bool smooth_only = false){ static const my_cnn::ModelActivationFunction a[] = {my_cnn::SIGMOID, my_cnn::TANGENT, my_cnn::LINEAR, my_cnn::RELU, my_cnn::LEAKY_RELU}; return a[R.range(0, smooth_only ? 2 : 4)]; }
inline my_cnn::PoolingType rndPool(Rng& R){ static const my_cnn::PoolingType p[] = {my_cnn::MAX, my_cnn::MIN, my_cnn::AVG}; return p[R.range(0, 2)]; }
// Scale of random parameters that keeps the values of deep networks moderate
inline double tame(int fan_in){ return 0.8 * std::min(1.0, std::sqrt(30.0 / std::max(1, fan_in))); }
// A layer that fits on shape s
inline RLayer rndLayer(Rng& R, const Sh& s, bool smooth_only = false){
    RLayer l;
    switch (R.range(0, 6)){
        case 0: case 1: l.k = RLayer::CONV; l.f = {R.range(1, std::min(R.far(4, 4, 9), s.x)), R.range(1, std::min(R.far(4, 4, 9), s.y)), s.z}; l.nf = R.far(1, 3, 12); l.stride = R.chance(0.7) ? 1 : R.far(1, 4, 9); break;
        case 2: case 3: l.k = RLayer::POOL; l.px = R.range(1, std::min(R.far(3, 3, 8), s.x)); l.py = R.range(1, std::min(R.far(3, 3, 8), s.y)); l.sx = R.chance(0.6) ? l.px : R.far(1, 3, 9); l.sy = R.chance(0.6) ? l.py : R.far(1, 3, 9); l.pt = smooth_only ? my_cnn::AVG : rndPool(R); break;
        case 4: l.k = RLayer::FC; l.n = R.far(2, 7, 40); break;
        default: l.k = RLayer::ACT; l.act = rndAct(R, smooth_only); break;
    }
    return l;
}
inline RNet rndNet(Rng& R, bool smooth_only = false, int maxdepth = 6){
    RNet N; N.in = {R.far(3, 9, 16), R.far(3, 9, 16), R.far(1, 3, 9)}; if (R.chance(0.1)) N.in = {1, R.range(2, 9), 1};
    Sh s = N.in; int depth = R.range(0, maxdepth); if (maxdepth >= 4 && R.vastly(0.03)) depth = R.range(9, 14);
    for (int i = 0; i < depth; i++){ RLayer l = rndLayer(R, s, smooth_only); fillParams(R, l, s, tame(l.k == RLayer::CONV ? l.f.n() : s.n())); N.L.push_back(l); s = outShape(l, s); }
    RLayer so; so.k = RLayer::SOFT; bool direct = s.z == 1 && (s.x == 1 || s.y == 1) && s.n() >= 2 && s.n() <= 8 && R.chance(0.5);
    if (!direct){ RLayer f; f.k = RLayer::FC; f.n = R.far(2, 6, 30); if (N.L.size() < 3 && R.vastly(0.006)) f.n = R.range(256, 300); fillParams(R, f, s, tame(s.n())); N.L.push_back(f); s = {f.n, 1, 1}; }
    so.n = s.n(); N.L.push_back(so);
    return N;
}
inline RefD rndInput(Rng& R, const Sh& s, double m = 1){ RefD r(s); for (auto& v : r.v) v = R.uni(-m, m); return r; }
// Inputs that are exactly representable in single precision
inline RefD rndInputF(Rng& R, const Sh& s, double m = 1){ RefD r(s); for (auto& v : r.v) v = (float)R.uni(-m, m); return r; }
// Now and then everything is much smaller or larger than usual
inline double rndScale(Rng& R){ return R.chance(0.2) ? std::pow(10.0, R.range(-14, 10)) : 1; }
inline void scaleBy(RefD& r, double f){ for (auto& v : r.v) v *= f; }
inline double maxAbs(const RefD& r){ double m = 0; for (double v : r.v) m = std::max(m, std::fabs(v)); return m; }
// Largest difference between a library matrix and a reference, "" if within abs_
inline std::string diffTol(const MatD& m, const RefD& r, double rel, double abs_){
    std::ostringstream o; o.precision(12);
    if (shOf(m.dim()) != r.s){ o << "shape " << shOf(m.dim()) << " instead of " << r.s; return o.str(); }
    if (m.size() != (size_t)r.s.n()){ o << "size() " << m.size() << " for shape " << r.s; return o.str(); }
    for (int n = 0; n < r.s.n(); n++) if (!near(m[n], r.flat(n), rel, abs_)){ o << "element " << n << " of " << r.s << " is " << m[n] << " instead of " << r.flat(n); return o.str(); }
    return "";
}
} // namespace vt
