// C18: multi-threaded training and inference are free of data races (meant for a ThreadSanitizer build; the observers
// here use no synchronisation of their own that could order the library's accesses)
#include "train.h"
#include <fstream>
#include <unistd.h>
using namespace vt;

// Unsynchronised source, as a user would write it
struct PlainSource : my_cnn::DataGenerator<float>{
    const std::vector<Sample>& s; const std::vector<std::string>& labels; size_t pos = 0; long draws = 0;
    PlainSource(const std::vector<Sample>& s_, const std::vector<std::string>& l) : s(s_), labels(l){}
    my_cnn::LabeledInput<float> getNextDataPoint() override { my_cnn::LabeledInput<float> d; const Sample& p = s.at(pos++); draws++; d.data = toM(p.x); d.label = labels[p.label]; return d; }
    size_t size() override { return s.size(); }
    bool hasAvailableData() override { return pos < s.size(); }
    void reset() override { pos = 0; }
};
// A network with every kind of layer somewhere; connected layers without parameters at first
static void addLayers(Rng& R, TModel& M, RNet& N){
    Sh s = N.in;
    for (int i = 0, n = R.range(1, 4); i < n; i++){
        RLayer l = rndLayer(R, s, false); if (l.k == RLayer::CONV) l.stride = 1;
        switch (l.k){ case RLayer::CONV: M.addKernel(l.f.d(), l.nf); break; case RLayer::POOL: M.addPooling(dim2(l.px, l.py), dim2(l.sx, l.sy), l.pt); break; case RLayer::FC: M.addConnectedLayer(l.n); break; default: M.addActivation(l.act); }
        N.L.push_back(l); s = outShape(l, s);
    }
    RLayer f; f.k = RLayer::FC; f.n = R.range(2, 5); M.addConnectedLayer(f.n); N.L.push_back(f); RLayer so; so.k = RLayer::SOFT; so.n = f.n; N.L.push_back(so); std::vector<std::string> lab; for (int i = 0; i < f.n; i++) lab.push_back("label " + std::to_string(i)); M.setOutputLabels(lab);
}
SCENARIO("C18", c18_train, 5){
    RNet N; N.in = {R.range(3, 8), R.range(3, 8), R.range(1, 2)}; TModel M; addLayers(R, M, N); const int nt = R.far(2, 8, 24), n = R.far(4, 30, 120), bs = R.far(2, 16, 100); auto s = mkSamples(R, N, n);
    bool loaded = R.chance(0.3); TModel L; TModel* m = &M;
    if (loaded){ if (R.chance(0.7)) M.forwardPropagation(toM(s[0].x)); std::string f = scratchDir() + "/c18.model"; CHECK(M.saveModel(f), "save", "could not save"); CHECK(L.loadModel(f), "load", "could not load " << strOf(N.L)); unlink(f.c_str()); m = &L; }
    PlainSource src(s, m->output_labels); TModel::Hyperparameters hp; hp.learning_rate = 0.01; hp.batch_size = bs; hp.num_threads = nt; hp.num_epochs = R.range(1, 2);
    std::string ctx = strOf(N.L) + ", " + std::to_string(n) + " samples, batch " + std::to_string(bs) + ", " + std::to_string(nt) + " threads" + (loaded ? ", loaded" : ", new"); sig(ctx); sample(ctx);
    { CoutCapture c; m->train(src, hp); } CHECK(src.draws == (long)n * hp.num_epochs, "draws", src.draws << " draws of " << n << " samples in " << hp.num_epochs << " epochs"); count("trainings"); count("samples trained", src.draws);
}
SCENARIO("C18", c18_inference, 4){
    RNet N; N.in = {R.range(3, 8), R.range(3, 8), R.range(1, 2)}; TModel M; addLayers(R, M, N); const int nt = R.far(2, 8, 24), each_ = R.range(1, 5); auto s = mkSamples(R, N, R.range(2, 8)); bool fresh = R.chance(0.5); for (auto& l : M.layers) l->setBatchSize(nt);
    if (!fresh) M.forwardPropagation(toM(s[0].x)); std::string ctx = strOf(N.L) + ", " + std::to_string(nt) + " threads" + (fresh ? ", new" : ", used"); sig(ctx); sample(ctx);
    std::vector<std::vector<std::pair<int, std::vector<float>>>> got(nt); std::vector<std::thread> t; uint64_t seed = R.u64();
    for (int k = 0; k < nt; k++) t.emplace_back([&, k]{ Rng Q(seed + k); for (int i = 0; i < each_; i++){ int w = Q.range(0, (int)s.size() - 1); auto r = M.forwardPropagation(toM(s[w].x), k); std::vector<float> o; for (float v : r.layer_inputs.back()) o.push_back(v); o.push_back((float)r.label_idx); got[k].emplace_back(w, o); } });
    for (auto& x : t) x.join();
    for (auto& g : got) for (auto& [w, o] : g){ auto r = M.forwardPropagation(toM(s[w].x), 0); std::vector<float> q; for (float v : r.layer_inputs.back()) q.push_back(v); q.push_back((float)r.label_idx); CHECK(q == o, "concurrent-result", "inference among other threads gives another result than alone in " << ctx); count("concurrent inferences"); }
}
// One layer shared by threads through distinct batch entries: forward and backward of each entry stay independent
SCENARIO("C18", c18_layer, 3){
    Sh in{R.range(2, 7), R.range(2, 7), R.range(1, 3)}; RLayer l; do l = rndLayer(R, in, false); while (false); if (R.chance(0.2)){ l = RLayer(); l.k = RLayer::SOFT; l.n = R.far(2, 6, 60); in = {l.n, 1, 1}; }
    fillParams(R, l, in); auto P = makeLayer(l); setParams(*P, l, in); const int nt = R.far(2, 6, 40); P->setBatchSize(nt); std::vector<std::string> bad(nt); std::vector<std::thread> t; uint64_t seed = R.u64(); std::string ctx = l.str() + " on " + in.str() + " with " + std::to_string(nt) + " threads"; sig(ctx); sample(ctx);
    std::vector<RefD> gw(nt), gb(nt);
    for (int k = 0; k < nt; k++) t.emplace_back([&, k]{
        Rng Q(seed * 31 + k); RefD x = rndInput(Q, in); MatD X = toM(x), Y = P->propagateForward(MatD(X), k); bad[k] = diffTol(Y, forward(l, x), 2e-8, 2e-7); if (Q.chance(0.5)) std::this_thread::yield();
        if (l.k == RLayer::SOFT){ int lab = Q.range(0, l.n - 1); static_cast<Softmax*>(P.get())->assignTrueLabel(lab, k); MatD g = P->propagateBackward(X, Y, MatD(), k, false); for (int i = 0; i < l.n; i++) if (!near(g[i], Y[i] - (i == lab), 1e-12, 1e-14)) bad[k] = "softmax gradient of another entry"; return; }
        RefD g = rndInput(Q, outShape(l, in)), tw(l.w.s), tb(l.b.s); RefD gi = backward(l, x, g, &tw, &tb, 0, 0); bad[k] += diffTol(P->propagateBackward(X, Y, toM(g), k, false), gi, 2e-8, 2e-7); gw[k] = tw; gb[k] = tb; });
    for (auto& x : t) x.join();
    for (auto& b : bad) CHECK(b.empty(), "entry-independence", b << " in " << ctx);
    count("shared layer passes", nt);
    if (l.has_params){ P->applyBatch(1); RefD w = l.w; for (auto& g : gw) for (size_t i = 0; i < w.v.size(); i++) w.v[i] -= g.v[i] / nt; std::string d = diffTol(P->weights, w, 0, 1e-6); CHECK(d.empty(), "batch", d << " in " << ctx); }
}
