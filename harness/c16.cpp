// C16: a batch update is the learning rate times the mean gradient of that batch
#include "refnet.h"
using namespace vt;
typedef my_cnn::ModelDescription<float, std::string> Model;

// One layer, histories of: resize the batch, record entries in any order, apply
SCENARIO("C16", c16_layer, 5){
    Sh in{R.far(1, 5, 12), R.far(1, 5, 12), R.far(1, 3, 8)}; RLayer l; if (R.chance(0.5)){ l.k = RLayer::CONV; l.f = {R.range(1, in.x), R.range(1, in.y), in.z}; l.nf = R.far(1, 3, 10); l.stride = R.range(1, 2); } else { l.k = RLayer::FC; l.n = R.far(1, 4, 40); }
    fillParams(R, l, in); auto P = makeLayer(l); setParams(*P, l, in); int bs = R.far(1, 6, 80); if (R.vastly(0.01)) bs = R.range(256, 600); P->setBatchSize(bs); std::string hist = l.str() + " on " + in.str() + ": size " + std::to_string(bs);
    const double gs = rndScale(R); std::map<int, std::pair<RefD, RefD>> rec; int applied = 0;
    for (int st = 0, steps = R.range(4, 24) + (bs > 6) * 60; st < steps; st++){
        int k = R.range(0, 9);
        if (k == 0){ bs = R.far(1, 8, 80); P->setBatchSize(bs); rec.clear(); hist += "; size " + std::to_string(bs); }
        else if (k <= 6){
            int e = R.range(0, bs - 1); if (rec.count(e)) continue; RefD x = rndInput(R, in), g = rndInput(R, outShape(l, in)); if (R.chance(0.1)) g = RefD(g.s); scaleBy(g, gs); RefD gw(l.w.s), gb(l.b.s); backward(l, x, g, &gw, &gb);
            MatD X = toM(x), G = toM(g), Y = P->propagateForward(toM(x), e); if (int f = R.range(0, bs - 1); f != e && R.chance(0.3)) P->propagateForward(toM(rndInput(R, in)), f); P->propagateBackward(X, Y, G, e, R.chance(0.3)); rec[e] = {gw, gb}; hist += "; record " + std::to_string(e); count("gradients recorded");
            std::string d = diffTol(P->weights, l.w, 0, 0) + diffTol(P->biases, l.b, 0, 0); CHECK(d.empty(), "early-update", d << " before the batch is applied: " << hist);
        }else{
            double lr = R.chance(0.1) ? 0 : (R.chance(0.1) ? R.uni(1, 20) : R.uni(-0.5, 1)) / gs; P->applyBatch(lr); hist += "; apply " + std::to_string(lr); RefD w = l.w, b = l.b;
            for (auto& [e, g] : rec){ for (size_t i = 0; i < w.v.size(); i++) w.v[i] -= lr * g.first.v[i] / rec.size(); for (size_t i = 0; i < b.v.size(); i++) b.v[i] -= lr * g.second.v[i] / rec.size(); }
            double tol = rec.empty() || lr == 0 ? 0 : 1e-8;
            std::string d = diffTol(P->weights, w, 0, tol); CHECK(d.empty(), "weights", d << " with " << rec.size() << " of " << bs << " entries filled: " << hist);
            d = diffTol(P->biases, b, 0, tol); CHECK(d.empty(), "biases", d << " with " << rec.size() << " of " << bs << " entries filled: " << hist);
            readParams(l, *P); sig(l.str() + std::to_string(rec.size()) + "/" + std::to_string(bs)); rec.clear(); applied++; count("updates");
        }
    }
    if (applied) sample(hist);
}
// Batches of hundreds of samples
SCENARIO("C16", c16_big_batch, 1){
    if (underValgrind() || !R.chance(0.15)) return; Sh in{R.range(1, 3), R.range(1, 3), 1}; RLayer l; if (R.chance(0.5)){ l.k = RLayer::CONV; l.f = {1, R.range(1, in.y), 1}; l.nf = R.range(1, 2); l.stride = 1; } else { l.k = RLayer::FC; l.n = R.range(1, 3); }
    fillParams(R, l, in); auto P = makeLayer(l); setParams(*P, l, in); const int bs = R.chance(0.1) ? R.range(1000, 3000) : R.range(100, 600); P->setBatchSize(bs); std::string ctx = l.str() + " on " + in.str() + ": " + std::to_string(bs) + " entries";
    for (int round = 0, rounds = R.range(1, 3); round < rounds; round++){
        const double part = R.chance(0.4) ? 1 : R.uni(); RefD sw(l.w.s), sb(l.b.s), w = l.w, b = l.b; int n = 0;
        for (int q = 0; q < bs; q++){ int e = round % 2 ? bs - 1 - q : q; if (!R.chance(part)) continue; RefD x = rndInput(R, in), g = rndInput(R, outShape(l, in)), gw(l.w.s), gb(l.b.s); backward(l, x, g, &gw, &gb); MatD Y = P->propagateForward(toM(x), e); P->propagateBackward(toM(x), Y, toM(g), e, true); for (size_t i = 0; i < gw.v.size(); i++) sw.v[i] += gw.v[i]; for (size_t i = 0; i < gb.v.size(); i++) sb.v[i] += gb.v[i]; n++; count("gradients recorded"); }
        double lr = R.uni(-0.5, 1); P->applyBatch(lr); if (n){ for (size_t i = 0; i < w.v.size(); i++) w.v[i] -= lr * sw.v[i] / n; for (size_t i = 0; i < b.v.size(); i++) b.v[i] -= lr * sb.v[i] / n; }
        std::string d = diffTol(P->weights, w, 0, n ? 1e-8 : 0) + diffTol(P->biases, b, 0, n ? 1e-8 : 0); CHECK(d.empty(), "big-batch", d << " with " << n << " filled of " << ctx); readParams(l, *P); count("updates"); sig(ctx + std::to_string(n)); sample(ctx + ", " + std::to_string(n) + " filled");
    }
}
// Layers without parameters are unaffected by batches
SCENARIO("C16", c16_stateless, 1){
    Activation A(my_cnn::SIGMOID); Pooling P(dim2(2, 2), dim2(1, 1), my_cnn::MAX); RefD x = rndInput(R, {4, 4, 2}); MatD a = A.propagateForward(toM(x), 0), p = P.propagateForward(toM(x), 0);
    A.setBatchSize(3); P.setBatchSize(3); A.applyBatch(0.3); P.applyBatch(0.3); std::string d = diffTol(A.propagateForward(toM(x), 2), toRef(a), 0, 0) + diffTol(P.propagateForward(toM(x), 2), toRef(p), 0, 0); CHECK(d.empty(), "stateless", d); sig("stateless"); count("updates");
}
// Whole models: consecutive, partially filled batches in any order of entries
SCENARIO("C16", c16_model, 3){
    RNet N = rndNet(R, R.chance(0.5), 4); Model M; buildModel(M, N); const int nl = N.L.back().n; std::string ctx = strOf(N.L) + " on " + N.in.str();
    int bs = R.far(1, 6, 70); for (auto& l : M.layers) l->setBatchSize(bs);
    for (int batch = 0, nb = R.range(1, 4); batch < nb; batch++){
        if (R.chance(0.2)){ bs = R.far(1, 6, 70); for (auto& l : M.layers) l->setBatchSize(bs); }
        std::vector<int> order; for (int i = 0; i < bs; i++) order.push_back(i); for (int i = bs - 1; i > 0; i--) std::swap(order[i], order[R.range(0, i)]); order.resize(R.range(0, bs));
        auto sum = N.zero(); bool ok = true; double lr = R.uni(0.01, 0.5); std::vector<my_cnn::ModelResults<std::string>> res(bs); std::vector<int> lab(bs);
        std::vector<RefD> xs; for (int e : order){ (void)e; xs.push_back(rndInputF(R, N.in)); }
        // All forward passes first, then the backward passes, or one after the other
        bool together = R.chance(0.5);
        auto fwd = [&](size_t q){ Ref<float> xf(N.in); for (size_t i = 0; i < xf.v.size(); i++) xf.v[i] = (float)xs[q].v[i]; res[order[q]] = M.forwardPropagation(toM(xf), order[q]); lab[order[q]] = R.range(0, nl - 1); };
        if (together) for (size_t q = 0; q < order.size(); q++) fwd(q);
        for (size_t q = 0; q < order.size(); q++){
            if (!together) fwd(q); int e = order[q]; M.backwardsPropagation(res[e], M.output_labels[lab[e]], e); if (!N.smooth(xs[q], lab[e], 2e-5)) ok = false;
            auto g = N.grad(xs[q], lab[e], 0, 0); for (size_t i = 0; i < N.L.size(); i++){ for (size_t j = 0; j < g.w[i].v.size(); j++) sum.w[i].v[j] += g.w[i].v[j] / order.size(); for (size_t j = 0; j < g.b[i].v.size(); j++) sum.b[i].v[j] += g.b[i].v[j] / order.size(); }
        }
        for (auto& l : M.layers) l->applyBatch(lr);
        if (!ok){ count("skipped at kinks and ties"); for (size_t i = 0; i < N.L.size(); i++) readParams(N.L[i], *M.layers[i]); continue; }
        sig(ctx + std::to_string(order.size()) + "/" + std::to_string(bs)); sample(ctx + ", " + std::to_string(order.size()) + " of " + std::to_string(bs) + " entries"); count("updates");
        for (size_t i = 0; i < N.L.size(); i++){
            if (!N.L[i].has_params) continue; double m = std::max(maxAbs(sum.w[i]), maxAbs(sum.b[i])), tol = order.empty() ? 0 : lr * (3e-4 * m + 5e-6); RefD w = N.L[i].w, b = N.L[i].b; for (size_t j = 0; j < w.v.size(); j++) w.v[j] -= lr * sum.w[i].v[j]; for (size_t j = 0; j < b.v.size(); j++) b.v[j] -= lr * sum.b[i].v[j];
            std::string d = diffTol(M.layers[i]->weights, w, 0, tol) + diffTol(M.layers[i]->biases, b, 0, tol); CHECK(d.empty(), "model-update", "layer " << i << " of " << ctx << ", batch " << batch << " with " << order.size() << " of " << bs << " entries: " << d); readParams(N.L[i], *M.layers[i]);
        }
    }
}
