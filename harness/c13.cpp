// C13: softmax output is a probability distribution with the right gradient
#include "refnet.h"
using namespace vt;
SCENARIO("C13", c13_softmax, 5){
    const int n = R.far(1, 12, 400); Softmax S(n); const int bs = R.far(1, 5, 80); S.setBatchSize(bs); std::vector<int> label(bs, -1); std::vector<MatD> out(bs); std::vector<RefD> in(bs);
    for (int st = 0, steps = R.range(2, 12) + (bs > 5) * 10; st < steps; st++){
        int e = R.range(0, bs - 1);
        switch (R.range(0, 3)){
            case 0: case 1: {
                Sh s = R.chance(0.7) ? Sh{n, 1, 1} : Sh{1, n, 1}; RefD x(s); int mode = R.range(0, 5); double off = R.chance(0.5) ? 0 : R.uni(-1e6, 1e6);
                for (auto& v : x.v) switch (mode){ case 0: v = R.uni(-3, 3); break; case 1: v = R.uni(-1000, 1000); break; case 2: v = 7; break; case 3: v = R.range(-1, 1); break; case 4: v = R.uni(-1, 1) * 1e300; break; case 5: v = R.uni(-1, 1) * std::pow(10, R.uni(-300, 5)); break; }
                if (mode != 4) for (auto& v : x.v) v += off;
                std::string ctx = "mode " + std::to_string(mode) + " n " + std::to_string(n) + (off != 0 ? " offset" : "") + (s.y == n ? " row" : " column"); sig(ctx + std::to_string(st)); sample(ctx);
                MatD Y = S.propagateForward(toM(x), e); CHECK(shOf(Y.dim()) == s, "shape", "shape " << shOf(Y.dim()) << " instead of " << s);
                double t = 0; for (int i = 0; i < n; i++){ CHECK(std::isfinite(Y[i]) && Y[i] >= 0 && Y[i] <= 1 + 1e-12, "range", "probability " << Y[i] << " for " << ctx); t += Y[i]; }
                CHECK(near(t, 1, 1e-9, 0), "sum", "probabilities sum to " << t << " for " << ctx);
                RLayer l; l.k = RLayer::SOFT; l.n = n; std::string d = diffTol(Y, forward(l, x), 1e-9, 1e-12); CHECK(d.empty(), "value", d << " for " << ctx);
                // Also the smallest probabilities are in proportion
                { double mx = x.v[0], den = 0; for (double v : x.v) mx = std::max(mx, v); for (double v : x.v) den += std::exp(v - mx); for (int i = 0; i < n; i++){ double w = std::exp(x.flat(i) - mx) / den; CHECK(near(Y[i], w, 1e-8, 1e-305), "proportion", "probability " << Y[i] << " instead of " << w << " for " << ctx); if (w > 0 && w < 1e-15) count("tiny probabilities"); } }
                for (int i = 0; i < n; i++) for (int jj = 0; jj < std::min(n, 30); jj++){ int j = n <= 30 ? jj : R.range(0, n - 1); if (x.flat(i) > x.flat(j)) CHECK(Y[i] >= Y[j], "order", "order of probabilities differs from the inputs'"); if (x.flat(i) == x.flat(j)) CHECK(near(Y[i], Y[j], 1e-12, 0), "order", "equal inputs get different probabilities"); }
                OFFERED(S, softMax(toM(x)), { std::string d = diffTol(got, toRef(Y), 1e-12, 1e-15); CHECK(d.empty(), "softMax", d); });
                // Adding a common offset does not matter
                if (mode == 0 && off == 0){ RefD x2 = x; for (auto& v : x2.v) v += 64; d = diffTol(S.propagateForward(toM(x2), 0), toRef(Y), 1e-9, 1e-12); CHECK(d.empty(), "offset", d); }
                out[e] = Y; in[e] = x; count("distributions"); break; }
            case 2: { int k = R.range(0, n - 1); if (e == 0 && R.chance(0.5)) S.assignTrueLabel(k); else S.assignTrueLabel(k, e); label[e] = k; break; }
            case 3: {
                if (out[e].size() == 0) break;
                MatD X = toM(in[e]), junk(out[e].dim(), 1.0);
                if (label[e] < 0){ int o = outcome<my_cnn::ModelLayerException>([&]{ S.propagateBackward(X, out[e], junk, e, false); }); CHECK(o == 1, "no-label", "backward without a label is " << outcomeName(o)); count("refusals"); break; }
                MatD g = S.propagateBackward(X, out[e], R.chance(0.5) ? junk : MatD(), e, R.chance(0.3)); CHECK(shOf(g.dim()) == shOf(out[e].dim()), "gradient-shape", "gradient of shape " << shOf(g.dim()));
                for (int i = 0; i < n; i++) CHECK(near(g[i], out[e][i] - (i == label[e] ? 1 : 0), 1e-12, 1e-15), "gradient", "gradient " << g[i] << " at " << i << " for output " << out[e][i] << " and label " << label[e]); count("gradients");
                for (int i = R.range(0, (n - 1) / 30); i < n; i += 1 + (n - 1) / 30){ OFFERED(S, getdLdX(out[e], i), { CHECK(near(got[i], out[e][i] - 1, 1e-12, 1e-15), "getdLdX", "gradient for label " << i); }); }
                break; }
        }
        // Labels outside the list are refused and leave the assigned one in place
        if (R.chance(0.2)){ int o = outcome<std::out_of_range>([&]{ S.assignTrueLabel(n + R.range(0, 3), e); }); CHECK(o == 1, "label-range", "label past the end is " << outcomeName(o)); }
    }
    CHECK(S.getType() == my_cnn::OUTPUT, "type", "layer type is " << S.getType());
}
// A new batch forgets the labels of the old one
SCENARIO("C13", c13_new_batch, 1){
    int n = R.far(2, 6, 300), bs = R.far(1, 4, 70); Softmax S(n); S.setBatchSize(bs); RefD x0 = rndInput(R, {n, 1, 1}); MatD X = toM(x0), Y = S.propagateForward(toM(x0), 0);
    for (int e = 0; e < bs; e++) S.assignTrueLabel(R.range(0, n - 1), e);
    std::vector<int> l(bs); for (int q = 0; q < 3; q++){ for (int e = bs - 1; e >= 0; e--){ l[e] = R.range(0, n - 1); S.assignTrueLabel(l[e], e); } for (int e = 0; e < bs; e++){ MatD g = S.propagateBackward(X, Y, Y, e, false); for (int i = 0; i < n; i++) CHECK(near(g[i], Y[i] - (i == l[e]), 1e-12, 1e-15), "entry-labels", "entry " << e << " of " << bs << " uses another entry's label"); } }
    sig(std::to_string(n) + "," + std::to_string(bs)); count("gradients", bs);
    // ... whatever its size
    int b2 = R.chance(0.5) ? bs : R.range(1, 2 * bs); S.setBatchSize(b2); int e2 = R.range(0, b2 - 1); int o = outcome<my_cnn::ModelLayerException>([&]{ S.propagateBackward(X, Y, Y, e2, false); }); CHECK(o == 1, "new-batch", "backward for an entry of a new batch of " << b2 << " after one of " << bs << ", without a label, is " << outcomeName(o)); count("refusals");
    S.assignTrueLabel(1, e2); MatD g = S.propagateBackward(X, Y, Y, e2, false); for (int i = 0; i < n; i++) CHECK(near(g[i], Y[i] - (i == 1), 1e-12, 1e-15), "new-batch-label", "gradient in a new batch");
}
