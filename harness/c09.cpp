// C09: the convolution layer computes the convolution and its exact gradients
#include "refnet.h"
using namespace vt;

static RLayer rndConv(Rng& R, Sh& in){
    RLayer l; l.k = RLayer::CONV; l.f = {R.far(1, 4, 9), R.far(1, 4, 9), R.far(1, 4, 14)}; if (R.chance(0.3)) l.f.y = l.f.x; l.nf = R.far(1, 4, 14); l.stride = R.chance(0.5) ? 1 : R.far(2, 4, 9);
    if (R.vastly(0.008)) switch (R.range(0, 3)){
        case 0: l.nf = R.range(33, 300); l.f = {R.range(1, 2), R.range(1, 2), R.range(1, 2)}; in = {l.f.x + R.range(0, 2), l.f.y + R.range(0, 2), l.f.z}; return l;
        case 1: l.f = {R.range(1, 3), R.range(1, 3), R.range(17, 80)}; l.nf = R.range(1, 3); in = {l.f.x + R.range(0, 3), l.f.y + R.range(0, 3), l.f.z}; return l;
        case 2: l.stride = R.range(10, 60); in = {l.f.x + R.range(0, 130), l.f.y + R.range(0, 20), l.f.z}; if (R.chance(0.5)){ in = {l.f.x + R.range(0, 20), l.f.y + R.range(0, 130), l.f.z}; } l.nf = R.range(1, 2); return l;
        case 3: l.f = {R.range(256, 280), 1, 1}; if (R.chance(0.5)) std::swap(l.f.x, l.f.y); l.nf = R.range(1, 2); in = {l.f.x + R.range(0, 3), l.f.y + R.range(0, 3), 1}; return l;
    }
    in = {l.f.x + (R.chance(0.2) ? 0 : R.far(0, 6, 20)), l.f.y + (R.chance(0.2) ? 0 : R.far(0, 6, 20)), l.f.z}; return l;
}
// Layers are reused for several inputs of different shapes, as a model would
SCENARIO("C09", c09_conv, 5){
    Sh in; RLayer l = rndConv(R, in); fillParams(R, l, in); auto K = std::static_pointer_cast<Kernel>(makeLayer(l)); setParams(*K, l, in);
    const int bs = R.far(1, 4, 80); K->setBatchSize(bs);
    for (int rep = 0, n = R.range(1, 4); rep < n; rep++){
        if (rep) in = {l.f.x + R.range(0, 6), l.f.y + R.range(0, 6), l.f.z};
        Sh o = outShape(l, in); std::string ctx = l.str() + " on " + in.str(); sig(ctx + (l.f.x == l.f.y ? "sq" : "rect")); sample(ctx);
        const double xs = rndScale(R), gs = rndScale(R); RefD x = rndInput(R, in, 2); scaleBy(x, xs); MatD X = toM(x); const size_t idx = R.range(0, bs - 1);
        OFFERED(*K, outputSize(X), { CHECK(shOf(got) == o, "output-size", "outputSize is " << shOf(got) << " instead of " << o << " for " << ctx); });
        MatD Y = K->propagateForward(MatD(X), idx); RefD y = forward(l, x);
        std::string d = diffTol(Y, y, 1e-10, 1e-10 * std::max(1.0, xs)); CHECK(d.empty(), "forward", d << " for " << ctx);
        RefD g = rndInput(R, o, 2); scaleBy(g, gs); MatD G = toM(g); RefD gw(l.w.s), gb(l.b.s); RefD gi = backward(l, x, g, &gw, &gb);
        OFFERED(*K, getdLdW(X, G), { std::string d = diffTol(got, gw, 1e-10, 1e-10 * xs * gs); CHECK(d.empty(), "weight-gradient", d << " for " << ctx); });
        OFFERED(*K, getdLdB(G), { std::string d = diffTol(got, gb, 1e-10, 1e-10 * gs); CHECK(d.empty(), "bias-gradient", d << " for " << ctx); });
        OFFERED(*K, getdLdX(X, G), { std::string d = diffTol(got, gi, 1e-10, 1e-10 * gs); CHECK(d.empty(), "input-gradient", d << " for " << ctx); });
        d = diffTol(K->propagateBackward(X, Y, G, idx, false), gi, 1e-10, 1e-10 * gs); CHECK(d.empty(), "backward", d << " for " << ctx);
        MatD none = K->propagateBackward(X, Y, G, idx, true);   // first layer of a model: result is not needed
        d = diffTol(K->weights, l.w, 0, 0) + diffTol(K->biases, l.b, 0, 0); CHECK(d.empty(), "parameters-changed", "forward or backward changed the parameters: " << d);
        d = diffTol(X, x, 0, 0) + diffTol(G, g, 0, 0); CHECK(d.empty(), "arguments-changed", d);
        CHECK(K->getType() == my_cnn::KERNEL, "type", "layer type is " << K->getType());
        count("layer passes compared");
    }
}
// Linearity identity, independent of the naive reference: <g, conv(x)> and its gradients are consistent
SCENARIO("C09", c09_adjoint, 2){
    Sh in; RLayer l = rndConv(R, in); fillParams(R, l, in); auto K = std::static_pointer_cast<Kernel>(makeLayer(l)); setParams(*K, l, in); for (auto& b : K->biases) b = 0;
    RefD x = rndInput(R, in), g = rndInput(R, outShape(l, in)); MatD X = toM(x), G = toM(g); MatD Y = K->propagateForward(MatD(X)); sig(l.str() + in.str());
    auto ip = [](const MatD& a, const MatD& b){ double t = 0; for (size_t i = 0; i < a.size(); i++) t += a[i] * b[i]; return t; };
    double e = ip(G, Y); MatD GX = K->getdLdX(X, G), GW = K->getdLdW(X, G);
    CHECK(GX.size() == X.size() && near(e, ip(GX, X), 1e-9, 1e-9), "adjoint-input", "<g, conv x> is " << e << " but <dL/dx, x> is " << ip(GX, X) << " for " << l.str() << " on " << in);
    CHECK(GW.size() == K->weights.size() && near(e, ip(GW, K->weights), 1e-9, 1e-9), "adjoint-weights", "<g, conv x> is " << e << " but <dL/dw, w> is " << ip(GW, K->weights) << " for " << l.str() << " on " << in);
    count("adjoint identities");
}
// A new layer has finite parameters of the configured shape
SCENARIO("C09", c09_fresh, 1){
    Sh in; RLayer l = rndConv(R, in); auto K = std::static_pointer_cast<Kernel>(makeLayer(l));
    CHECK(shOf(K->weights.dim()) == (Sh{l.f.x, l.f.y, l.f.z * l.nf}) && shOf(K->biases.dim()) == (Sh{l.nf, 1, 1}) && K->num_filters == (unsigned)l.nf && K->stride == (unsigned)l.stride, "fresh-shape", "new layer " << l.str() << " has weights of " << shOf(K->weights.dim()) << " and biases of " << shOf(K->biases.dim()));
    for (double w : K->weights) CHECK(std::isfinite(w), "fresh-finite", "new layer has weight " << w);
    for (double b : K->biases) CHECK(std::isfinite(b), "fresh-finite", "new layer has bias " << b);
    readParams(l, *K); RefD x = rndInput(R, in); std::string d = diffTol(K->propagateForward(toM(x)), forward(l, x), 1e-10, 1e-10); CHECK(d.empty(), "fresh-forward", d << " for " << l.str() << " on " << in); sig(l.str() + in.str());
}
