// C10: pooling selects per window and routes gradients to what it selected
#include "refnet.h"
#include <deque>
using namespace vt;

static RLayer rndP(Rng& R, Sh& in){
    RLayer l; l.k = RLayer::POOL; l.px = R.far(1, 4, 12); l.py = R.far(1, 4, 12); l.sx = R.far(1, 5, 14); l.sy = R.far(1, 5, 14); if (R.chance(0.4)){ l.sx = l.px; l.sy = l.py; } l.pt = rndPool(R);
    if (R.vastly(0.008)) switch (R.range(0, 2)){
        case 0: l.px = R.range(16, 24); l.py = R.range(16, 24); if (R.chance(0.3)){ l.px = R.range(256, 300); l.py = 1; } l.sx = R.range(1, 3); l.sy = R.range(1, 3); in = {l.px + R.range(0, 5), l.py + R.range(0, 5), R.range(1, 2)}; return l;
        case 1: l.sx = R.range(15, 60); l.sy = R.range(1, 60); in = {l.px + R.range(0, 150), l.py + R.range(0, 60), 1}; return l;
        case 2: in = {l.px + R.range(0, 2), l.py + R.range(0, 2), R.range(60, 300)}; return l;
    }
    in = {l.px + (R.chance(0.2) ? 0 : R.far(0, 7, 30)), l.py + (R.chance(0.2) ? 0 : R.far(0, 7, 30)), R.far(1, 4, 20)}; return l;
}
// All values distinct, so that every selection is determined
static RefD distinct(Rng& R, const Sh& s){ RefD r(s); int n = s.n(); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[R.range(0, i)]); double off = R.uni(-n, n); for (int i = 0; i < n; i++) r.v[i] = (p[i] + off) * 0.25; return r; }

SCENARIO("C10", c10_pool, 5){
    Sh in; RLayer l = rndP(R, in); auto P = std::static_pointer_cast<Pooling>(makeLayer(l)); const int bs = R.far(1, 4, 80); if (bs > 1 || R.chance(0.5)) P->setBatchSize(bs);
    // A history of forward and backward passes over the batch entries, with differing shapes
    struct Last{ bool set = false; RefD x; MatD X, Y; }; std::vector<Last> last(bs); std::string ctx = l.str();
    for (int st = 0, n = R.range(2, 10) + (bs > 4) * 10; st < n; st++){
        int e = bs > 8 && R.chance(0.3) ? bs - 1 - R.range(0, 3) : R.range(0, bs - 1);
        if (!last[e].set || R.chance(0.5)){
            if (R.chance(0.4)) in = {l.px + R.range(0, 7), l.py + R.range(0, 7), R.range(1, 4)};
            Last& L = last[e]; L.x = distinct(R, in); L.X = toM(L.x); L.set = true; Sh o = outShape(l, in); sig(l.str() + in.str()); sample(l.str() + " on " + in.str());
            OFFERED(*P, outputSize(in.d()), { CHECK(shOf(got) == o, "output-size", "outputSize of " << in << " is " << shOf(got) << " instead of " << o << " for " << ctx); });
            L.Y = P->propagateForward(MatD(L.X), e); std::string d = diffTol(L.Y, forward(l, L.x), 1e-12, 1e-12); CHECK(d.empty(), "forward", d << " for " << ctx << " on " << in); count("forward passes");
        } else {
            Last& L = last[e]; Sh o = outShape(l, L.x.s); RefD g = rndInput(R, o, 2); const double gs = rndScale(R); scaleBy(g, gs); MatD G = toM(g); RefD gi = backward(l, L.x, g, nullptr, nullptr);
            MatD gotX; const bool direct = R.chance(0.5), last_layer = R.chance(0.2); if (direct) OFFERED(*P, getdLdX(L.X, G, e), { gotX = got; }); if (gotX.size() == 0) gotX = P->propagateBackward(L.X, L.Y, G, e, last_layer);
            std::string d = diffTol(gotX, gi, 1e-12, 1e-12 * gs); CHECK(d.empty(), "backward", d << " for " << ctx << " on " << L.x.s << " (entry " << e << " of " << bs << ")");
            double a = 0, b = 0; for (double v : gotX) a += v; for (double v : g.v) b += v; CHECK(near(a, b, 1e-10, 1e-9 * gs), "conservation", "total gradient " << b << " became " << a << " for " << ctx << " on " << L.x.s);
            d = diffTol(L.X, L.x, 0, 0) + diffTol(G, g, 0, 0); CHECK(d.empty(), "arguments-changed", d); count("backward passes");
        }
    }
    CHECK(P->getType() == my_cnn::POOLING, "type", "layer type is " << P->getType());
}
// Ties: any selected element must be one of the extremal ones, one per window, gradient conserved
SCENARIO("C10", c10_ties, 2){
    Sh in; RLayer l = rndP(R, in); l.sx = l.px + R.range(0, 1); l.sy = l.py + R.range(0, 1); if (l.pt == my_cnn::AVG) l.pt = my_cnn::MAX; auto P = std::static_pointer_cast<Pooling>(makeLayer(l));
    RefD x(in); for (auto& v : x.v) v = R.range(-1, 1); if (R.chance(0.2)) for (auto& v : x.v) v = -3; MatD X = toM(x); MatD Y = P->propagateForward(MatD(X)); RefD y = forward(l, x); std::string d = diffTol(Y, y, 0, 0); CHECK(d.empty(), "forward-ties", d << " for " << l.str() << " on " << in);
    Sh o = outShape(l, in); RefD g(o); for (auto& v : g.v) v = R.uni(0.5, 2); MatD gx = P->propagateBackward(X, Y, toM(g), 0, false); CHECK(shOf(gx.dim()) == in, "backward-shape", "gradient of shape " << shOf(gx.dim()));
    std::vector<char> used(in.n(), 0); sig(l.str() + in.str());
    each(o, [&](int i, int j, int k){ int hits = 0; for (int p = 0; p < l.px; p++) for (int q = 0; q < l.py; q++){ int a = i * l.sx + p, b = j * l.sy + q; used[k * in.x * in.y + b * in.x + a] = 1; double v = gx(a, b, k); if (v == 0) continue; hits++; CHECK(near(v, g.at(i, j, k), 1e-12, 0) && x.at(a, b, k) == y.at(i, j, k), "tie-selection", "gradient " << v << " given to a value " << x.at(a, b, k) << " that is not the extremum " << y.at(i, j, k)); } CHECK(hits == 1, "tie-single", hits << " elements of a window received gradient"); });
    for (int n = 0; n < in.n(); n++) if (!used[n]) CHECK(gx[n] == 0, "gradient-outside-windows", "element outside every window received gradient " << gx[n]);
    count("tied windows", o.n());
}
// Negative inputs, constants, infinities excluded: selection starts from the window itself
SCENARIO("C10", c10_signs, 1){
    Sh in; RLayer l = rndP(R, in); auto P = std::static_pointer_cast<Pooling>(makeLayer(l)); double base = R.chance(0.5) ? -1e6 : 1e6; RefD x = rndInput(R, in); for (auto& v : x.v) v += base; std::string d = diffTol(P->propagateForward(toM(x)), forward(l, x), 1e-13, 0); CHECK(d.empty(), "forward-offset", d << " for " << l.str() << " on " << in << " at offset " << base); sig(l.str() + in.str());
}
// Changing the batch size keeps the layer correct
SCENARIO("C10", c10_batch_resize, 1){
    Sh in; RLayer l = rndP(R, in); auto P = std::static_pointer_cast<Pooling>(makeLayer(l));
    for (int q = 0; q < 3; q++){ int bs = R.far(1, 5, 70); P->setBatchSize(bs); std::vector<RefD> xs; std::vector<MatD> ys; std::vector<int> order; for (int e = 0; e < bs; e++){ order.push_back(e); xs.push_back(RefD()); ys.push_back(MatD()); } for (int e = bs - 1; e > 0; e--) std::swap(order[e], order[R.range(0, e)]);
        for (int e : order){ xs[e] = distinct(R, in); ys[e] = P->propagateForward(toM(xs[e]), e); }
        for (int e = 0; e < bs; e++){ RefD g = rndInput(R, outShape(l, in)); std::string d = diffTol(P->propagateBackward(toM(xs[e]), ys[e], toM(g), e, false), backward(l, xs[e], g, nullptr, nullptr), 1e-12, 1e-12); CHECK(d.empty(), "batch-entries", d << " for entry " << e << " of " << bs << " of " << l.str()); count("backward passes"); } }
    sig(l.str() + in.str());
}
// The number of windows, for inputs of any extent
SCENARIO("C10", c10_output_size, 1){
    RLayer l; l.k = RLayer::POOL; auto ext = [&](int lo){ int b = R.range(2, 31); long v = b == 31 ? 2147483647L - R.range(0, 300) : (1L << b) + R.range(-3, 3); return (int)std::max<long>(lo, v); };
    for (int q = 0; q < 20; q++){ l.px = R.chance(0.7) ? R.range(1, 5) : ext(1); l.py = R.chance(0.7) ? R.range(1, 5) : ext(1); l.sx = R.chance(0.8) ? R.range(1, 5) : ext(1); l.sy = R.chance(0.8) ? R.range(1, 5) : ext(1); l.pt = rndPool(R); auto P = std::static_pointer_cast<Pooling>(makeLayer(l)); Sh in{std::max(ext(1), l.px), std::max(ext(1), l.py), R.range(1, 9)};
        Sh o{(int)(((long)in.x - l.px) / l.sx + 1), (int)(((long)in.y - l.py) / l.sy + 1), in.z}; OFFERED(*P, outputSize(in.d()), { CHECK(shOf(got) == o, "output-size", "outputSize of " << in << " is " << shOf(got) << " instead of " << o << " for " << l.str()); }); sig(l.str() + in.str()); count("output sizes"); }
}
