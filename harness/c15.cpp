// C15: back-propagation yields the true gradient of the whole network
#include "refnet.h"
using namespace vt;
typedef my_cnn::ModelDescription<float, std::string> Model;

// The oracle's gradient is itself the derivative of the oracle's loss
static bool selfCheck(Rng& R, const RNet& N, const RefD& x, int label, const RNet::Grad& g){
    auto loss = [&](const RNet& n){ return -std::log(std::max(n.run(x).back().flat(label), 1e-300)); };
    if (N.run(x).back().flat(label) < 1e-3) return true;
    for (int q = 0; q < 3; q++){
        size_t i = R.range(0, (int)N.L.size() - 1); if (!N.L[i].has_params) continue; size_t j = R.u64() % N.L[i].w.v.size(); RNet a = N, b = N; const double h = 1e-5; a.L[i].w.v[j] += h; b.L[i].w.v[j] -= h;
        if (!N.smooth(x, label, 1e-3)) continue; double fd = (loss(a) - loss(b)) / (2 * h); if (!near(fd, g.w[i].v[j], 1e-2, 1e-3)) return false; count("oracle gradients confirmed by finite differences");
    }
    return true;
}
SCENARIO("C15", c15_backprop, 6){
    RNet N = rndNet(R, R.chance(0.3), R.range(0, 7)); Model M; buildModel(M, N); const int nl = N.L.back().n; std::string ctx = strOf(N.L) + " on " + N.in.str();
    for (int rep = 0, n = R.range(1, 3); rep < n; rep++){
        const int bs = R.far(1, 3, 80), e = bs > 8 && R.chance(0.3) ? bs - 1 : R.range(0, bs - 1); for (auto& l : M.layers) l->setBatchSize(bs);
        RefD x = rndInputF(R, N.in, R.chance(0.2) ? 4 : 1); int label = R.range(0, nl - 1); double lr = R.chance(0.2) ? R.uni(-1, 1) : std::pow(10, R.uni(-3, 0.5));
        if (!N.smooth(x, label, 2e-5)){ count("skipped at kinks and ties"); continue; }
        sig(ctx); sample(ctx + ", label " + std::to_string(label));
        Ref<float> xf(N.in); for (size_t i = 0; i < xf.v.size(); i++) xf.v[i] = (float)x.v[i];
        auto g = N.grad(x, label, 0, 0); CHECK(selfCheck(R, N, x, label, g), "oracle", "the reference gradient is wrong for " << ctx);
        auto r = M.forwardPropagation(toM(xf), e); M.backwardsPropagation(r, M.output_labels[label], e);
        CHECK(r.true_label_idx == (size_t)label && r.true_label && *r.true_label == M.output_labels[label] && r.loss >= 0, "result", "back-propagation records label " << r.true_label_idx << " instead of " << label);
        for (size_t i = 0; i < N.L.size(); i++) if (N.L[i].has_params){ std::string d = diffTol(M.layers[i]->weights, N.L[i].w, 0, 0) + diffTol(M.layers[i]->biases, N.L[i].b, 0, 0); CHECK(d.empty(), "early-update", "layer " << i << " of " << ctx << " changed before the batch was applied: " << d); }
        for (auto& l : M.layers) l->applyBatch(lr);
        for (size_t i = 0; i < N.L.size(); i++){
            if (!N.L[i].has_params) continue; double tw = std::fabs(lr) * (3e-4 * maxAbs(g.w[i]) + 2e-6) + 1e-9, tb = std::fabs(lr) * (3e-4 * maxAbs(g.b[i]) + 2e-6) + 1e-9;
            RefD w = N.L[i].w, b = N.L[i].b; for (size_t j = 0; j < w.v.size(); j++) w.v[j] -= lr * g.w[i].v[j]; for (size_t j = 0; j < b.v.size(); j++) b.v[j] -= lr * g.b[i].v[j];
            std::string d = diffTol(M.layers[i]->weights, w, 0, tw); CHECK(d.empty(), "weight-step", "weights of layer " << i << " (" << N.L[i].str() << ") of " << ctx << " with rate " << lr << ": " << d);
            d = diffTol(M.layers[i]->biases, b, 0, tb); CHECK(d.empty(), "bias-step", "biases of layer " << i << " (" << N.L[i].str() << ") of " << ctx << " with rate " << lr << ": " << d);
            count("parameters compared", w.v.size() + b.v.size()); readParams(N.L[i], *M.layers[i]);
        }
        count("steps");
    }
}
// Repeated small steps on one sample reduce its loss (a network of smooth layers)
SCENARIO("C15", c15_descent, 1){
    RNet N = rndNet(R, true, 3); Model M; buildModel(M, N); int label = R.range(0, N.L.back().n - 1); RefD x = rndInputF(R, N.in); Ref<float> xf(N.in); for (size_t i = 0; i < xf.v.size(); i++) xf.v[i] = (float)x.v[i]; std::string ctx = strOf(N.L) + " on " + N.in.str(); sig(ctx);
    auto g = N.grad(x, label, 0, 0); double q = 0; for (size_t i = 0; i < N.L.size(); i++){ for (double v : g.w[i].v) q += v * v; for (double v : g.b[i].v) q += v * v; } if (q < 1e-4 || !N.smooth(x, label, 2e-4)) return;
    for (auto& l : M.layers) l->setBatchSize(1); double lr = 1e-3 / (1 + q); auto p0 = M.forwardPropagation(toM(xf)).layer_inputs.back()[label]; if (p0 > 0.99) return;
    for (int i = 0; i < 5; i++){ auto r = M.forwardPropagation(toM(xf)); M.backwardsPropagation(r, M.output_labels[label], 0); for (auto& l : M.layers) l->applyBatch(lr); }
    auto p1 = M.forwardPropagation(toM(xf)).layer_inputs.back()[label]; CHECK(p1 >= p0 - 1e-6f, "descent", "probability of the true label falls from " << p0 << " to " << p1 << " after five small steps of " << ctx); count("descents");
}
