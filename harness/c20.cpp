// C20: a saved model loads as the same model
#include "train.h"
#include <fstream>
#include <unistd.h>
using namespace vt;
typedef my_cnn::ModelDescription<double, int> IModel;

static std::string slurp(const std::string& f){ std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
struct TmpFile{ std::string p; explicit TmpFile(const char* n) : p(scratchDir() + "/" + n){} ~TmpFile(){ unlink(p.c_str()); } };
static std::vector<std::string> rndLabels(Rng& R, int n){
    static const std::vector<std::string> w{"cat", "dog", "zero one", "a b c", "  leading", "trailing ", "Output labels 3", "Kernel", "(0) ----------", "12", "3.5", "-1", "x y", "Softmax", "\ttab", "name-with-dash", "\"quoted\"", "\xc3\xa9t\xc3\xa9", "biases", ""};
    std::set<std::string> used; std::vector<std::string> v;
    while ((int)v.size() < n){ std::string l = R.vastly(0.02) ? std::string(R.range(200, 9000), (char)R.range(97, 122)) + "end" : R.chance(0.6) ? R.pick(w) : "label " + std::to_string(R.range(0, 9999)); if (used.insert(l).second) v.push_back(l); }
    return v;
}
template<class M> static void setLabels(Rng& R, M& m, int n){ if constexpr (std::is_same_v<M, TModel>) m.output_labels = rndLabels(R, n); else { std::set<int> u; m.output_labels.clear(); while ((int)u.size() < n){ int v = R.range(-50, 1000); if (u.insert(v).second) m.output_labels.push_back(v); } } }
static std::string diffW(const MatD& a, const MatD& b){
    std::ostringstream o; o.precision(12); if (shOf(a.dim()) != shOf(b.dim())){ o << "shape " << shOf(a.dim()) << " instead of " << shOf(b.dim()); return o.str(); }
    for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 5.001e-7 + 1e-15 * std::fabs(b[i]))){ o << "number " << i << " is " << a[i] << " instead of " << b[i]; return o.str(); }
    return "";
}
// Everything but predictions
template<class Mod> static std::string same(Mod& a, Mod& b){
    if (a.layers.size() != b.layers.size()) return std::to_string(b.layers.size()) + " layers instead of " + std::to_string(a.layers.size());
    if (a.output_labels != b.output_labels) return "another label list";
    for (size_t i = 0; i < a.layers.size(); i++){
        auto& p = *a.layers[i]; auto& q = *b.layers[i]; std::string at = " in layer " + std::to_string(i);
        if (typeid(p) != typeid(q)) return "another kind of layer" + at;
        if (p.serialize() != q.serialize()) return "another configuration" + at + ":\n" + q.serialize() + "instead of\n" + p.serialize();
        std::string d = diffW(q.weights, p.weights); if (!d.empty()) return d + " in the weights" + at; d = diffW(q.biases, p.biases); if (!d.empty()) return d + " in the biases" + at;
    }
    return "";
}
// Compare the predictions of the loaded model with the reference for its (rounded) parameters, and with the original
template<class Mod, class T> static std::string predictions(Rng& R, Mod& A, Mod& B, RNet N, int n){
    for (size_t i = 0; i < N.L.size(); i++) readParams(N.L[i], *B.layers[i]);
    for (int k = 0; k < n; k++){
        RefD x = rndInputF(R, N.in, 1); Ref<T> xt(N.in); for (size_t i = 0; i < x.v.size(); i++) xt.v[i] = (T)x.v[i];
        auto r = B.forwardPropagation(toM(xt)), o = A.forwardPropagation(toM(xt)); auto a = N.run(x); std::ostringstream e; e.precision(10);
        if (r.layer_inputs.size() != a.size()) return "wrong number of recorded values";
        const RefD& p = a.back(); for (int i = 0; i < p.s.n(); i++){ if (!near(r.layer_inputs.back()[i], p.flat(i), 1e-4, 2e-5)){ e << "output " << i << " of the loaded model is " << r.layer_inputs.back()[i] << " instead of " << p.flat(i); return e.str(); } if (!near(r.layer_inputs.back()[i], o.layer_inputs.back()[i], 0, 2e-3)){ e << "output " << i << " of the loaded model is " << r.layer_inputs.back()[i] << ", of the original " << o.layer_inputs.back()[i]; return e.str(); } }
        if (r.label_idx != o.label_idx){ double best = p.flat((int)r.label_idx), orig = p.flat((int)o.label_idx); if (std::fabs(best - orig) > 1e-3) return "another predicted label"; }
        count("predictions compared");
    }
    return "";
}
// A net whose outputs do not amplify the rounding of the file beyond the tolerance used above
static RNet tameNet(Rng& R){ return rndNet(R, false, 4); }
template<class Mod, class T> static void roundTrip(Rng& R){
    RNet N = tameNet(R); Mod A; buildModel(A, N); setLabels(R, A, N.L.back().n); TmpFile f("m.model"), g("n.model"); std::string ctx = strOf(N.L) + " on " + N.in.str() + " with " + std::to_string(N.L.back().n) + " labels"; sig(ctx); sample(ctx);
    bool fresh = R.chance(0.2);             // connected layers without parameters
    if (fresh){ for (auto& l : N.L) l.has_params = false; Mod F; auto lab = A.output_labels; buildModel(F, N); F.output_labels = lab; A = F; }
    if (R.chance(0.3)){ std::ofstream(f.p) << std::string(R.range(1, 100000), 'x'); }        // the file had a longer content before
    CHECK(A.saveModel(f.p), "save", "could not save " << ctx); std::string before = slurp(f.p);
    Mod B; CHECK(B.loadModel(f.p), "load", "could not load " << ctx << (fresh ? " (new)" : "") << " from\n" << before.substr(0, 1500));
    std::string d = same(A, B); CHECK(d.empty(), "content", d << " in the loaded " << ctx);
    CHECK(B.saveModel(g.p), "resave", "could not save the loaded " << ctx); CHECK(slurp(g.p) == before, "refile", "the loaded model writes another file than the original " << ctx);
    CHECK(A.saveModel(g.p) && slurp(g.p) == before, "save-changed", "saving changed the model " << ctx);
    if (!fresh){ d = predictions<Mod, T>(R, A, B, N, 3); CHECK(d.empty(), "prediction", d << " in " << ctx); }
    else { auto r = B.forwardPropagation(SimpleMatrix<T>(N.in.d(), T(0.5))); CHECK((int)r.layer_inputs.back().size() == N.L.back().n, "fresh-use", "a loaded new model gives " << r.layer_inputs.back().size() << " outputs"); double s = 0; for (float v : r.layer_inputs.back()) s += v; CHECK(near(s, 1, 0, 1e-4), "fresh-use", "outputs of a loaded new model sum to " << s); }
    count("models restored");
}
SCENARIO("C20", c20_string, 6){ roundTrip<TModel, float>(R); }
SCENARIO("C20", c20_int, 3){ roundTrip<IModel, double>(R); }
// Train, save, load, and train both further
SCENARIO("C20", c20_further, 4){
    RNet N = rndNet(R, R.chance(0.5), 3); TModel A; buildModel(A, N); auto s = mkSamples(R, N, R.range(4, 16)); TModel::Hyperparameters hp; hp.learning_rate = 0.05; hp.batch_size = R.range(1, 6); hp.num_threads = R.range(1, 3);
    std::string ctx = strOf(N.L) + ", " + std::to_string(s.size()) + " samples, batch " + std::to_string(hp.batch_size); sig(ctx); sample(ctx); TmpFile f("t.model");
    CoutCapture cc; if (R.chance(0.7)){ Source src(s, nullptr, 0, &A.output_labels); A.train(src, hp); }
    CHECK(A.saveModel(f.p), "save", "could not save " << ctx); TModel B; CHECK(B.loadModel(f.p), "load", "could not load " << ctx); std::string d = same(A, B); CHECK(d.empty(), "content", d << " in the trained and loaded " << ctx);
    RNet M = N; std::vector<int> at, order; for (size_t i = 0; i < M.L.size(); i++){ readParams(M.L[i], *B.layers[i]); at.push_back((int)i); } for (size_t i = 0; i < s.size(); i++) order.push_back((int)i);
    RefTrain T(M); Source sa(s, nullptr, 0, &A.output_labels), sb(s, nullptr, 0, &B.output_labels); int ep = R.range(1, 2); hp.num_epochs = ep; A.train(sa, hp); B.train(sb, hp);
    for (int e = 0; e < ep; e++) T.epoch(s, order, hp.batch_size, hp.learning_rate); if (!T.ok){ count("skipped as ill-conditioned"); return; }
    d = diffParams(B, T.N, at, T.tol); CHECK(d.empty(), "further", d << " after training the loaded model further, " << ctx); d = diffParams(A, T.N, at, 2 * T.tol + 1e-5); CHECK(d.empty(), "further-original", d << " of the original after further training, " << ctx); count("further trainings compared");
}

// Sizes far beyond those of the other scenarios: many labels, many layers, large layers
SCENARIO("C20", c20_big, 1){
    RNet N; int kind = R.range(0, 2); TModel A; std::string ctx; std::vector<std::string> lab;
    if (kind == 0){ int n = R.range(300, 3000); A.addConnectedLayer(n); for (int i = 0; i < n; i++) lab.push_back("class " + std::to_string(i * 7919 % 100003)); if (R.chance(0.5)) for (int q = R.range(1, 9), i = 0; q > 0; q--) i = R.range(1, n - 1), lab[i] = lab[R.chance(0.5) ? i - 1 : R.range(0, n - 1)]; ctx = std::to_string(n) + " labels"; A.setOutputLabels(lab); A.forwardPropagation(SimpleMatrix<float>({1, 2, 1}, 0.25f)); }
    else if (kind == 1){ int n = R.range(30, 150); for (int i = 0; i < n; i++) switch (R.range(0, 3)){ case 0: A.addActivation((my_cnn::ModelActivationFunction)R.range(0, 4)); break; case 1: A.addPooling({1, 1}, {1, 1}, (my_cnn::PoolingType)R.range(0, 2)); break; case 2: A.addKernel({1, 1, 2}, 2); break; default: A.addActivation(my_cnn::LINEAR); }
        A.addConnectedLayer(3); lab = {"a", "b b", "c"}; A.setOutputLabels(lab); A.forwardPropagation(SimpleMatrix<float>({2, 3, 2}, 0.25f)); ctx = std::to_string(n) + " layers"; }
    else { int f = R.range(20, 80); A.addKernel({R.range(3, 9), R.range(3, 9), 3}, f); A.addPooling({2, 2}, {2, 2}, my_cnn::AVG); A.addConnectedLayer(R.range(40, 120)); A.addConnectedLayer(5); lab = {"1", "2", "3", "4", "5"}; A.setOutputLabels(lab); A.forwardPropagation(SimpleMatrix<float>({16, 14, 3}, 0.25f)); ctx = "a wide model of " + std::to_string(f) + " filters"; }
    sig(ctx); sample(ctx); TmpFile f("big.model"), g("big2.model");
    CHECK(A.saveModel(f.p), "save", "could not save " << ctx); TModel B; CHECK(B.loadModel(f.p), "load", "could not load " << ctx); CHECK(B.output_labels == lab, "big-labels", "loaded " << B.output_labels.size() << " labels differently, " << ctx);
    std::string d = same(A, B); CHECK(d.empty(), "content", d << " in the loaded " << ctx); CHECK(B.saveModel(g.p) && slurp(g.p) == slurp(f.p), "refile", "the loaded model writes another file than the original with " << ctx); count("big models restored");
}

// Labels that are numbers or characters come back exactly; labels that do not fit on a line are refused or come back as they were
template<class L> static L rndLabel(Rng& R){ if constexpr (std::is_floating_point_v<L>) return (L)(R.chance(0.3) ? R.range(-20, 20) : R.uni(-1, 1) * std::pow(10.0, R.range(-12, 12))); else if constexpr (sizeof(L) == 1) return (L)R.range(std::is_signed_v<L> ? 32 : 0, 126); else return (L)(R.chance(0.5) ? R.range(-9, 99) : (long)R.u64()); }
template<class L> static void labelType(Rng& R, const char* nm){
    my_cnn::ModelDescription<float, L> A, B; std::set<L> u; int n = R.range(1, 12); while ((int)u.size() < n) u.insert(rndLabel<L>(R)); std::vector<L> lab(u.begin(), u.end()); for (int i = n - 1; i > 0; i--) std::swap(lab[i], lab[R.range(0, i)]);
    A.addConnectedLayer(n); A.setOutputLabels(lab); auto r = A.forwardPropagation(SimpleMatrix<float>({2, 2, 1}, 0.5f)); std::ostringstream c; c << n << " labels of type " << nm; for (L l : lab) c << " " << +l; sig(c.str()); sample(c.str()); TmpFile f("l.model"), g("l2.model");
    bool line = sizeof(L) == 1 && u.count((L)'\n'), saved = A.saveModel(f.p); if (line && !saved){ count("labels refused"); return; }
    CHECK(saved && B.loadModel(f.p), "label-types", (saved ? "could not load " : "could not save ") << c.str()); CHECK(B.output_labels == lab, "label-types", "another label list is loaded for " << c.str()); std::string d = same(A, B); CHECK(d.empty(), "content", d << " with " << c.str());
    CHECK(B.saveModel(g.p) && slurp(g.p) == slurp(f.p), "refile", "the loaded model writes another file than the original with " << c.str()); auto q = B.forwardPropagation(SimpleMatrix<float>({2, 2, 1}, 0.5f)); B.assignLoss(q, lab[n - 1]); CHECK(q.true_label_idx == (size_t)n - 1 && near(q.confidence, r.confidence, 1e-4, 2e-5), "prediction", "the loaded model predicts otherwise with " << c.str()); count("label types restored");
}
SCENARIO("C20", c20_label_types, 2){ switch (R.range(0, 5)){ case 0: labelType<double>(R, "double"); break; case 1: labelType<float>(R, "float"); break; case 2: labelType<char>(R, "char"); break; case 3: labelType<unsigned char>(R, "unsigned char"); break; case 4: labelType<long>(R, "long"); break; default: labelType<double>(R, "double"); } }
SCENARIO("C20", c20_label_lines, 1){
    TModel A, B; int n = R.range(1, 5), w = R.range(0, n - 1); std::vector<std::string> lab; for (int i = 0; i < n; i++) lab.push_back("label " + std::to_string(i)); static const std::vector<std::string> odd{"\n", "a\n", "\nb", "two\nlines", "one\r\ntwo", "x\n\n", "with return\r", "tab\t", " ", std::string("nul\0byte", 8)}; lab[w] = R.pick(odd);
    A.addConnectedLayer(n); A.setOutputLabels(lab); A.forwardPropagation(SimpleMatrix<float>({2, 1, 1}, 0.5f)); TmpFile f("e.model"); std::string c = std::to_string(n) + " labels with \"" + lab[w] + "\" at " + std::to_string(w); sig(c); bool line = lab[w].find('\n') != std::string::npos;
    bool saved = A.saveModel(f.p); if (line && !saved){ count("labels refused"); return; } CHECK(saved && B.loadModel(f.p) && B.output_labels == lab, "label-lines", (saved ? "saving reports success, but another model is loaded (" : "could not save (") << c << ")"); count("odd labels restored");
}
