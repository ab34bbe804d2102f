// C14: inference is the composition of the layers, repeatable and pure
// VT_PARTS 3
#include "refnet.h"
using namespace vt;
#if VT_PART == 0
typedef float In; typedef std::string Lab;
#elif VT_PART == 1
typedef double In; typedef int Lab;
#else
typedef int In; typedef std::string Lab;
#endif
static void mkLabel_(Rng& R, int i, std::string& o){ if (R.chance(0.15)) o = "a label with a rather long beginning that all of them share, number "; else if (R.chance(0.1)) o = R.chance(0.5) ? "Number " : "number "; for (int k = R.range(0, 3); k > 0; k--) o += "ab c-"[R.range(0, 4)]; o += std::to_string(i); if (R.chance(0.2)) o += R.chance(0.5) ? " " : "x"; }
static void mkLabel_(Rng&, int i, int& o){ o = i * 7 - 3; }
static Lab mkLabel(Rng& R, int i){ Lab l{}; mkLabel_(R, i, l); return l; }
static Ref<In> inputFor(Rng& R, const Sh& s){ Ref<In> r(s); for (auto& v : r.v) v = std::is_integral_v<In> ? (In)R.range(-3, 3) : (In)R.uni(-1.5, 1.5); return r; }
typedef my_cnn::ModelDescription<In, Lab> Model;

SCENARIO("C14", VT_CAT(c14_inference, VT_PART), 5){
    RNet N = rndNet(R); Model M; buildModel(M, N); const int nl = N.L.back().n, bs = R.far(1, 4, 80); bool batch = R.chance(0.7);
    // Outputs that are all but tied
    if (N.L.size() >= 2 && N.L[N.L.size() - 2].k == RLayer::FC && R.chance(0.2)){ RLayer& f = N.L[N.L.size() - 2]; for (auto& v : f.w.v) v *= 1e-9; for (auto& v : f.b.v) v = 0.3 + R.uni(-1, 1) * std::pow(10, -R.range(5, 8)); ModelLayer& P = *M.layers[N.L.size() - 2]; P.weights = toM(f.w); P.biases = toM(f.b); count("all but tied outputs"); }
    if (batch) for (auto& l : M.layers) l->setBatchSize(bs);
    std::vector<Lab> labels; for (int i = 0; i < nl; i++) labels.push_back(mkLabel(R, i)); for (int i = nl - 1; i > 0; i--) std::swap(labels[i], labels[R.range(0, i)]); M.output_labels = labels;
    std::string ctx = strOf(N.L) + " on " + N.in.str(); sig(ctx); sample(ctx);
    const int ni = R.range(1, 3); std::vector<Ref<In>> X; for (int i = 0; i < ni; i++) X.push_back(inputFor(R, N.in));
    std::vector<std::vector<std::vector<float>>> seen(ni); std::vector<size_t> seen_label(ni);
    for (int call = 0, calls = R.range(2, 8); call < calls; call++){
        int w = R.range(0, ni - 1); size_t e = batch ? R.range(0, bs - 1) : 0; SimpleMatrix<In> in = toM(X[w]);
        auto r = (e == 0 && R.chance(0.5)) ? M.forwardPropagation(in) : M.forwardPropagation(in, e); count("inferences");
        std::string d = diff(in, X[w]); CHECK(d.empty(), "input-changed", d);
        CHECK(r.layer_inputs.size() == N.L.size() + 1, "record-count", r.layer_inputs.size() << " recorded values for " << N.L.size() << " layers of " << ctx);
        RefD x(N.in); for (size_t i = 0; i < x.v.size(); i++) x.v[i] = (double)X[w].v[i]; auto a = N.run(x);
        for (size_t i = 0; i < a.size(); i++){
            const auto& rec = r.layer_inputs[i]; CHECK(shOf(rec.dim()) == a[i].s && rec.size() == (size_t)a[i].s.n(), "record-shape", "value " << i << " has shape " << shOf(rec.dim()) << " instead of " << a[i].s << " in " << ctx);
            double tol = 2e-5 * (1 + maxAbs(a[i])); for (int k = 0; k < a[i].s.n(); k++) CHECK(std::fabs(rec[k] - a[i].flat(k)) <= tol, "record-value", "element " << k << " of recorded value " << i << " is " << rec[k] << " instead of " << a[i].flat(k) << " in " << ctx);
        }
        const auto& out = r.layer_inputs.back(); float mx = out[0]; for (size_t k = 0; k < out.size(); k++) mx = std::max(mx, out[k]);
        CHECK(r.label_idx < (size_t)nl && out[r.label_idx] >= mx, "label-index", "label index " << r.label_idx << " has output " << out[r.label_idx] << " but the largest is " << mx << " in " << ctx);
        CHECK(near(r.confidence, out[r.label_idx], 1e-5, 1e-6), "confidence", "confidence " << r.confidence << " for output " << out[r.label_idx]);
        std::vector<std::vector<float>> now; for (auto& m : r.layer_inputs){ now.emplace_back(); for (float v : m) now.back().push_back(v); }
        if (seen[w].empty()){ seen[w] = now; seen_label[w] = r.label_idx; } else { CHECK(now == seen[w] && r.label_idx == seen_label[w], "repeatable", "inference " << call << " of the same input gives another result in " << ctx); count("repetitions compared"); }
        for (size_t i = 0; i < N.L.size(); i++) if (N.L[i].has_params){ d = diffTol(M.layers[i]->weights, N.L[i].w, 0, 0) + diffTol(M.layers[i]->biases, N.L[i].b, 0, 0); CHECK(d.empty(), "parameters-changed", d << " after inference in " << ctx); }
        // Loss
        int li = R.range(0, nl - 1); M.assignLoss(r, labels[li]); double p = out[li], ce = -std::log2(std::max(p, 1e-300)), lo = -std::log2(p + 1.2e-5);
        CHECK(r.true_label_idx == (size_t)li && r.true_label && *r.true_label == labels[li], "true-label", "label at position " << li << " gets index " << r.true_label_idx);
        CHECK(r.loss >= 0 && r.loss <= ce + 1e-4 * (1 + ce) && r.loss >= std::max(0.0, lo) - 1e-4 * (1 + std::fabs(lo)), "loss", "loss " << r.loss << " for probability " << p << ", whose cross entropy is " << ce << " bits"); count("losses");
        if (nl > 1 && R.chance(0.5)){      // a result may be given another label later
            int lj = (li + R.range(1, nl - 1)) % nl; auto q = r; M.assignLoss(q, labels[lj]); double pj = out[lj], cj = -std::log2(std::max(pj, 1e-300)), low = -std::log2(pj + 1.2e-5);
            CHECK(q.true_label_idx == (size_t)lj && q.true_label && *q.true_label == labels[lj], "true-label-again", "the label at position " << lj << " gets index " << q.true_label_idx << " and is recorded as another one after the label at " << li << " in " << ctx);
            CHECK(q.loss >= 0 && q.loss <= cj + 1e-4 * (1 + cj) && q.loss >= std::max(0.0, low) - 1e-4 * (1 + std::fabs(low)), "loss-again", "loss " << q.loss << " for probability " << pj); CHECK(q.label_idx == r.label_idx && q.confidence == r.confidence, "loss-pure", "assigning a label changes the prediction in " << ctx); count("losses");
        }
        SimpleMatrix<double> P(dim3(nl, 1, 1)); for (int k = 0; k < nl; k++) P[k] = out[k]; OFFERED(M, lossFcn(P, li), { CHECK(near(got, r.loss, 1e-5, 1e-6), "lossFcn", "lossFcn gives " << got << " instead of " << r.loss); });
    }
    CHECK(M.output_labels == labels, "labels-changed", "inference changed the labels");
}
// Models put together through the building functions of the model, starting without connected-layer parameters
SCENARIO("C14", VT_CAT(c14_fresh_model, VT_PART), 2){
    Sh in{R.far(4, 9, 20), R.far(4, 9, 20), R.far(1, 3, 6)}, s = in; Model M; RNet N; N.in = in; size_t expected = 0;
    for (int i = 0, n = R.range(0, 4); i < n; i++){
        RLayer l = rndLayer(R, s, false); if (l.k == RLayer::CONV) l.stride = 1;
        switch (l.k){
            case RLayer::CONV: { Kernel& k = M.addKernel(l.f.d(), l.nf); CHECK(&k == M.layers.back().get() && !k.name.empty(), "add", "addKernel returns another layer"); break; }
            case RLayer::POOL: { auto& k = M.addPooling(dim2(l.px, l.py), dim2(l.sx, l.sy), l.pt); CHECK(&k == M.layers.back().get(), "add", "addPooling returns another layer"); break; }
            case RLayer::FC: { auto& k = M.addConnectedLayer(l.n); CHECK(&k == M.layers.back().get(), "add", "addConnectedLayer returns another layer"); break; }
            default: { auto& k = M.addActivation(l.act); CHECK(&k == M.layers.back().get(), "add", "addActivation returns another layer"); }
        }
        N.L.push_back(l); s = outShape(l, s); CHECK(M.layers.size() == ++expected, "add-count", M.layers.size() << " layers after adding " << expected);
    }
    RLayer f; f.k = RLayer::FC; f.n = R.far(2, 5, 80); M.addConnectedLayer(f.n); N.L.push_back(f); std::vector<Lab> labels; for (int i = 0; i < f.n; i++) labels.push_back(mkLabel(R, i)); M.setOutputLabels(labels); RLayer so; so.k = RLayer::SOFT; so.n = f.n; N.L.push_back(so);
    CHECK(M.layers.size() == N.L.size() && M.output_labels == labels, "labels", "setOutputLabels gives " << M.layers.size() << " layers instead of " << N.L.size());
    std::string ctx = strOf(N.L) + " on " + in.str(); sig(ctx); Ref<In> x0 = inputFor(R, in);
    for (int call = 0; call < 3; call++){
        Ref<In> x = call == 1 ? inputFor(R, in) : x0; auto r = M.forwardPropagation(toM(x)); count("inferences");
        if (call == 0) for (size_t i = 0; i < N.L.size(); i++) readParams(N.L[i], *M.layers[i]);
        RefD xd(in); for (size_t i = 0; i < xd.v.size(); i++) xd.v[i] = (double)x.v[i]; auto a = N.run(xd);
        for (size_t i = 0; i < a.size(); i++){ CHECK(shOf(r.layer_inputs.at(i).dim()) == a[i].s, "fresh-shape", "value " << i << " of " << ctx); double tol = 2e-5 * (1 + maxAbs(a[i])); for (int k = 0; k < a[i].s.n(); k++) CHECK(std::fabs(r.layer_inputs[i][k] - a[i].flat(k)) <= tol, "fresh-value", "element " << k << " of recorded value " << i << " is " << r.layer_inputs[i][k] << " instead of " << a[i].flat(k) << " at call " << call << " of " << ctx); }
    }
}
// Loss of given probabilities, including certain and impossible ones
SCENARIO("C14", VT_CAT(c14_loss, VT_PART), 1){
    Model M; int n = R.far(1, 6, 300); SimpleMatrix<double> P(dim3(n, 1, 1)); double t = 0; for (auto& p : P) t += p = R.chance(0.2) ? 0 : R.uni(); if (t == 0){ P[0] = 1; t = 1; } for (auto& p : P) p /= t; if (R.chance(0.2)){ for (auto& p : P) p = 0; P[R.range(0, n - 1)] = 1; }
    for (int i = 0; i < n; i++) OFFERED(M, lossFcn(P, i), { double p = P[i], ce = p > 0 ? -std::log2(p) : 1e300, l = got, lo = std::max(0.0, -std::log2(p + 1.2e-5)); CHECK(std::isfinite(l) && l >= 0 && l <= ce + 1e-4 * (1 + ce) && l >= lo - 1e-4 * (1 + lo), "loss-value", "loss " << l << " for probability " << p); count("losses"); });
    sig(std::to_string(n) + "," + std::to_string(P[0]));
}
