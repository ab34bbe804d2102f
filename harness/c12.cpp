// C12: activation layers apply their function and its true derivative
#include "refnet.h"
using namespace vt;
static double rndX(Rng& R){ switch (R.range(0, 6)){ case 0: return R.uni(-1, 1); case 1: return R.uni(-30, 30); case 2: return R.uni(-1000, 1000); case 3: return (R.chance(0.5) ? 1 : -1) * std::pow(10, R.uni(-300, 300)); case 4: return R.chance(0.5) ? 1e-12 : -1e-12; case 5: return R.range(-3, 3) * 0.5; default: return R.uni(-5, 5); } }

SCENARIO("C12", c12_activation, 5){
    RLayer l; l.k = RLayer::ACT; l.act = rndAct(R); Activation A(l.act); std::string nm = my_cnn::toString(l.act);
    for (int rep = 0, n = R.range(1, 4); rep < n; rep++){
        Sh s = rndShape(R, 1, 6, 4); if (R.chance(0.03)) s.x = 0; RefD x(s), g = rndInput(R, s, 3); if (R.chance(0.2)) for (auto& v : g.v) v *= std::pow(10, R.uni(-12, 12)); const double rel = l.act == my_cnn::LEAKY_RELU ? 1e-6 : 1e-11; for (auto& v : x.v) v = rndX(R); MatD X = toM(x), G = toM(g); sig(nm + s.str()); sample(nm + " on " + s.str());
        A.setBatchSize(R.far(1, 3, 70)); MatD Y = A.propagateForward(MatD(X), R.range(0, 5));
        CHECK(shOf(Y.dim()) == s, "forward-shape", "shape " << shOf(Y.dim()) << " instead of " << s);
        // LEAKY_RELU has a slope of one tenth to single precision; sigmoid and tanh saturate
        RefD F = forward(l, x); for (int i = 0; i < s.n(); i++){ double w = F.flat(i); CHECK(near(Y[i], w, rel, 1e-15), "forward:" + nm, nm << "(" << x.flat(i) << ") is " << Y[i] << " instead of " << w); }
        MatD B = A.propagateBackward(X, Y, G, R.range(0, 5), R.chance(0.3));
        CHECK(shOf(B.dim()) == s, "backward-shape", "shape " << shOf(B.dim()) << " instead of " << s);
        OFFERED(A, activationGradient(X), { CHECK(shOf(got.dim()) == s, "derivative-shape", "shape " << shOf(got.dim()) << " instead of " << s); for (int i = 0; i < s.n(); i++){ double v = x.flat(i); if (v == 0 && (l.act == my_cnn::RELU || l.act == my_cnn::LEAKY_RELU)) continue; double w = actG(l.act, v, 0, 0); CHECK(near(got[i], w, rel, 1e-14), "derivative:" + nm, "derivative of " << nm << " at " << v << " is " << got[i] << " instead of " << w); } });
        for (int i = 0; i < s.n(); i++){
            double v = x.flat(i); if (v == 0 && (l.act == my_cnn::RELU || l.act == my_cnn::LEAKY_RELU)) continue;   // no derivative at the kink
            double w = actG(l.act, v, 0, 0);
            CHECK(near(B[i], w * g.flat(i), rel, 1e-14 * std::fabs(g.flat(i)) + 1e-300), "backward:" + nm, "gradient " << g.flat(i) << " through " << nm << " at " << v << " becomes " << B[i] << " instead of " << w * g.flat(i));
        }
        std::string d = diffTol(X, x, 0, 0) + diffTol(G, g, 0, 0); CHECK(d.empty(), "arguments-changed", d);
        // Element-wise and stateless: repeating and permuting gives the same values
        MatD Z = A.propagateForward(MatD(X), 0); CHECK(my_cnn::matrixEqual(Y, Z), "stateless", nm << " gives another result the second time");
        if (s.n() > 1){ MatD P(dim3(s.n(), 1, 1)); for (int i = 0; i < s.n(); i++) P[i] = x.flat(s.n() - 1 - i); MatD Q = A.propagateForward(std::move(P), 0); for (int i = 0; i < s.n(); i++) CHECK(Q[s.n() - 1 - i] == Y[i], "independent", nm << " of an element depends on its neighbours"); }
        count("activation elements compared", s.n());
    }
    CHECK(A.getType() == my_cnn::ACTIVATION && A.weights.size() == 0 && A.biases.size() == 0, "type", "activation layer is not parameter-free");
}
// The derivative is the slope of the layer's own forward pass
SCENARIO("C12", c12_slope, 2){
    my_cnn::ModelActivationFunction a = rndAct(R); Activation A(a); double x = R.uni(-6, 6); if (std::fabs(x) < 1e-3) x = 0.5; const double h = 1e-5; auto f = [&](double v){ return A.propagateForward(MatD(dim3(1, 1, 1), v))[0]; };
    double slope = (f(x + h) - f(x - h)) / (2 * h), der = A.propagateBackward(MatD(dim3(1, 1, 1), x), MatD(dim3(1, 1, 1), f(x)), MatD(dim3(1, 1, 1), 1.0), 0, false)[0]; sig(my_cnn::toString(a) + std::to_string(x)); CHECK(near(slope, der, 1e-4, 1e-6), "slope", "slope of " << my_cnn::toString(a) << " at " << x << " is " << slope << " but its derivative is " << der); count("slopes");
}
SCENARIO("C12", c12_names, 1){
    for (int i = 0; i < 5; i++){ auto f = static_cast<my_cnn::ModelActivationFunction>(i); CHECK(my_cnn::fromString(my_cnn::toString(f)) == f, "name-roundtrip", "activation " << i << " does not survive its name " << my_cnn::toString(f)); for (int j = 0; j < i; j++) CHECK(my_cnn::toString(f) != my_cnn::toString(static_cast<my_cnn::ModelActivationFunction>(j)), "name-distinct", "two activations share a name"); }
    std::string s; for (int i = 0, n = R.range(0, 8); i < n; i++) s += (char)R.range(65, 90); if (s != "RELU" && s != "SIGMOID" && s != "LINEAR" && s != "TANGENT") CHECK(outcome<std::runtime_error>([&]{ my_cnn::fromString(s); }) == 1, "unknown-name", "unknown activation name \"" << s << "\" is accepted");
    sig(s);
}
