// C11: the fully connected layer is an affine map with exact gradients
#include "refnet.h"
using namespace vt;

SCENARIO("C11", c11_affine, 5){
    Sh in = rndShape(R, 1, 6, 4); RLayer l; l.k = RLayer::FC; l.n = R.far(1, 8, 70); if (R.vastly(0.006)) l.n = R.range(256, 300); else if (R.vastly(0.006)){ in = {R.range(30, 45), R.range(35, 40), R.range(1, 2)}; l.n = R.range(1, 3); } ConnectedLayer C((unsigned)l.n); const int bs = R.far(1, 4, 80); C.setBatchSize(bs); std::string ctx = l.str() + " on " + in.str(); sig(ctx); sample(ctx);
    CHECK(shOf(C.biases.dim()) == (Sh{l.n, 1, 1}), "bias-shape", "biases of shape " << shOf(C.biases.dim()) << " for " << ctx);
    // First input creates the parameters
    RefD x0 = rndInput(R, in); MatD Y0 = C.propagateForward(toM(x0), R.range(0, bs - 1));
    CHECK(shOf(C.weights.dim()) == (Sh{l.n, in.n(), 1}) && shOf(C.biases.dim()) == (Sh{l.n, 1, 1}), "parameter-shape", "weights of " << shOf(C.weights.dim()) << " and biases of " << shOf(C.biases.dim()) << " for " << ctx);
    double q = 0, p = 0; for (double w : C.weights) q += w * w; for (double b : C.biases) p += b * b; CHECK(near(q, 1, 1e-6, 0) && near(p, 1, 1e-6, 0), "unit-norm", "weights of norm " << std::sqrt(q) << ", biases of norm " << std::sqrt(p) << " for " << ctx);
    readParams(l, C); std::string d = diffTol(Y0, forward(l, x0), 1e-11, 1e-11); CHECK(d.empty(), "first-forward", d << " for " << ctx);
    if (R.chance(0.6)){ fillParams(R, l, in, 3); C.weights = toM(l.w); C.biases = toM(l.b); }      // set by the user
    for (int rep = 0, n = R.range(1, 5); rep < n; rep++){
        const double xs = rndScale(R), gs = rndScale(R); RefD x = rndInput(R, in, 2), g = rndInput(R, {l.n, 1, 1}, 2); scaleBy(x, xs); scaleBy(g, gs); MatD X = toM(x), G = toM(g); size_t e = R.range(0, bs - 1); RefD gw(l.w.s), gb(l.b.s); RefD gi = backward(l, x, g, &gw, &gb);
        MatD Y = C.propagateForward(MatD(X), e); d = diffTol(Y, forward(l, x), 1e-11, 1e-11 * std::max(1.0, xs)); CHECK(d.empty(), "forward", d << " for " << ctx);
        OFFERED(C, getdLdW(X, G), { std::string d = diffTol(got, gw, 1e-11, 1e-11 * xs * gs); CHECK(d.empty(), "weight-gradient", d << " for " << ctx); });
        OFFERED(C, getdLdB(G), { std::string d = diffTol(got, gb, 1e-11, 1e-11 * gs); CHECK(d.empty(), "bias-gradient", d << " for " << ctx); });
        OFFERED(C, getdLdX(G), { std::string d = diffTol(got, gi, 1e-11, 1e-11 * gs); CHECK(d.empty(), "input-gradient", d << " for " << ctx); });
        d = diffTol(C.propagateBackward(X, Y, G, e, false), gi, 1e-11, 1e-11 * gs); CHECK(d.empty(), "backward", d << " for " << ctx);
        C.propagateBackward(X, Y, G, e, true);
        d = diffTol(C.weights, l.w, 0, 0) + diffTol(C.biases, l.b, 0, 0); CHECK(d.empty(), "parameters-changed", "a pass changed the parameters: " << d << " for " << ctx);
        d = diffTol(X, x, 0, 0) + diffTol(G, g, 0, 0); CHECK(d.empty(), "arguments-changed", d); count("layer passes compared");
        // The same number of elements in another shape is accepted and flattened the same way
        if (R.chance(0.3)){ MatD F = toM(x); F.reshape(F.size(), 1, 1); d = diffTol(C.propagateForward(std::move(F), e), forward(l, x), 1e-11, 1e-11 * std::max(1.0, xs)); CHECK(d.empty(), "forward-flattened", d << " for " << ctx); }
        // checkSize is a question, not an action
        if (R.chance(0.3)){ CHECK(C.checkSize(X), "checkSize", "a fitting input is refused for " << ctx); CHECK(!C.checkSize(MatD(dim3(in.n() + 1, 1, 1))), "checkSize-wrong", "an input with " << in.n() + 1 << " elements is accepted for " << ctx); d = diffTol(C.weights, l.w, 0, 0); CHECK(d.empty(), "checkSize-changes", d); }
        // Applying a batch changes them, exactly by the recorded gradient
        if (R.chance(0.3)){ C.setBatchSize(bs); C.propagateBackward(X, Y, G, e, false); const double lr = 0.5 / gs / std::max(1.0, xs); C.applyBatch(lr); for (size_t i = 0; i < gw.v.size(); i++) l.w.v[i] -= lr * gw.v[i]; for (size_t i = 0; i < gb.v.size(); i++) l.b.v[i] -= lr * gb.v[i]; d = diffTol(C.weights, l.w, 1e-11, 1e-11) + diffTol(C.biases, l.b, 1e-11, 1e-11); CHECK(d.empty(), "apply", d << " for " << ctx); l.w = toRef(C.weights); l.b = toRef(C.biases); }
    }
    CHECK(C.getType() == my_cnn::FULLY_CONNECTED, "type", "layer type is " << C.getType());
}
// A layer that has been used takes over stored parameters, for inputs of another shape
SCENARIO("C11", c11_reloaded, 2){
    Sh in = rndShape(R, 1, 6, 4), in2 = R.chance(0.4) ? Sh{in.y, in.x, in.z} : R.chance(0.5) ? Sh{in.n(), 1, 1} : rndShape(R, 1, 6, 4); RLayer l, l2; l.k = l2.k = RLayer::FC; l.n = R.range(1, 8); l2.n = R.chance(0.5) ? l.n : R.range(1, 8); if (R.chance(0.08)){ in2 = {1, 1, 1}; l2.n = R.range(1, 2); } std::string ctx = l.str() + " on " + in.str() + " reloaded as " + l2.str() + " on " + in2.str(); sig(ctx); sample(ctx);
    ConnectedLayer C((unsigned)l.n), D((unsigned)l2.n); C.setBatchSize(2); if (R.chance(0.9)) C.propagateForward(toM(rndInput(R, in)), 0); D.propagateForward(toM(rndInput(R, R.chance(0.5) ? in2 : Sh{1, in2.n(), 1})), 0); fillParams(R, l2, in2, 2); D.weights = toM(l2.w); D.biases = toM(l2.b);
    std::stringstream st; st << D.serialize(); CHECK(C.deserialize(st), "reload", "parameters are refused: " << ctx); C.setBatchSize(2); readParams(l2, C);
    for (int rep = 0; rep < 3; rep++){ RefD x = rndInput(R, in2, 2), g = rndInput(R, {l2.n, 1, 1}, 2); RefD gw(l2.w.s), gb(l2.b.s), gi = backward(l2, x, g, &gw, &gb); MatD X = toM(x), Y = C.propagateForward(toM(x), rep % 2); std::string d = diffTol(Y, forward(l2, x), 1e-11, 1e-11); CHECK(d.empty(), "reloaded-forward", d << " for " << ctx);
        d = diffTol(C.propagateBackward(X, Y, toM(g), rep % 2, false), gi, 1e-11, 1e-11); CHECK(d.empty(), "reloaded-backward", d << " for " << ctx); d = diffTol(C.weights, l2.w, 0, 0) + diffTol(C.biases, l2.b, 0, 0); CHECK(d.empty(), "parameters-changed", d << " for " << ctx); count("layer passes compared"); }
}
