// C26: layers and models are objects of their own; copies continue like the original
#include "train.h"
#include <deque>
#include <optional>
using namespace vt;

// A layer together with everything that is expected of it
struct Unit{
    struct Entry{ bool fwd = false; RefD x; MatD X, Y; std::optional<int> label; };
    struct Rec{ RefD w, b; };
    std::shared_ptr<ModelLayer> P; RLayer l; Sh in; int bs = 1; std::vector<Entry> e; std::map<int, Rec> rec;
    std::string str() const { return l.str() + " on " + in.str(); }
};
template<class T> static std::shared_ptr<ModelLayer> dup(ModelLayer& m, bool move){ if (move) return std::make_shared<T>(std::move(static_cast<T&>(m))); return std::make_shared<T>(static_cast<const T&>(m)); }
static std::shared_ptr<ModelLayer> dup(Unit& u, bool move){
    switch (u.l.k){ case RLayer::CONV: return dup<Kernel>(*u.P, move); case RLayer::POOL: return dup<Pooling>(*u.P, move); case RLayer::FC: return dup<ConnectedLayer>(*u.P, move); case RLayer::ACT: return dup<Activation>(*u.P, move); default: return dup<Softmax>(*u.P, move); }
}
// false if layers of this kind cannot be assigned
template<class T> static bool put(ModelLayer& a, ModelLayer& b, bool move){ if constexpr (std::is_copy_assignable_v<T> && std::is_move_assignable_v<T>){ if (move) static_cast<T&>(a) = std::move(static_cast<T&>(b)); else static_cast<T&>(a) = static_cast<const T&>(b); return true; } else return false; }
static bool put(Unit& a, Unit& b, bool move){
    switch (a.l.k){ case RLayer::CONV: return put<Kernel>(*a.P, *b.P, move); case RLayer::POOL: return put<Pooling>(*a.P, *b.P, move); case RLayer::FC: return put<ConnectedLayer>(*a.P, *b.P, move); case RLayer::ACT: return put<Activation>(*a.P, *b.P, move); default: return put<Softmax>(*a.P, *b.P, move); }
}
static Unit rndUnit(Rng& R){
    Unit u; u.in = {R.range(2, 6), R.range(2, 6), R.range(1, 3)}; int k = R.range(0, 7);
    if (k == 7){ u.l.k = RLayer::SOFT; u.l.n = R.range(2, 6); u.in = {u.l.n, 1, 1}; } else { do u.l = rndLayer(R, u.in); while (k < 5 && u.l.k == RLayer::ACT); }
    fillParams(R, u.l, u.in); u.P = makeLayer(u.l); setParams(*u.P, u.l, u.in); u.bs = R.range(1, 4); u.P->setBatchSize(u.bs); u.e.resize(u.bs); return u;
}
static std::string stateDiff(const Unit& u){ if (!u.l.has_params) return ""; std::string d = diffTol(u.P->weights, u.l.w, 0, 0); return d.empty() ? diffTol(u.P->biases, u.l.b, 0, 0) : d; }
static void pass(Unit& u, int e, Rng& R, const std::string& hist){
    Unit::Entry& E = u.e[e];
    if (!E.fwd || R.chance(0.4)){
        E.x = rndInput(R, u.in); E.X = toM(E.x); E.fwd = true; E.Y = u.P->propagateForward(MatD(E.X), e); std::string d = diffTol(E.Y, forward(u.l, E.x), u.l.k == RLayer::ACT ? 1e-7 : 1e-9 /* slope 0.1f */, 1e-9); CHECK(d.empty(), "forward", d << " of " << u.str() << " after " << hist); count("passes");
    } else {
        RefD g = rndInput(R, outShape(u.l, u.in)), gw(u.l.w.s), gb(u.l.b.s), gi;
        if (u.l.k == RLayer::SOFT){
            if (!E.label || R.chance(0.3)){ E.label = R.range(0, u.l.n - 1); static_cast<Softmax&>(*u.P).assignTrueLabel(*E.label, e); }
            gi = forward(u.l, E.x); gi.v[*E.label] -= 1;
        } else gi = backward(u.l, E.x, g, u.l.has_params ? &gw : nullptr, u.l.has_params ? &gb : nullptr);
        MatD got = u.P->propagateBackward(E.X, E.Y, toM(g), e, false); std::string d = diffTol(got, gi, 1e-9, 1e-9); CHECK(d.empty(), "backward", d << " of " << u.str() << ", entry " << e << ", after " << hist);
        if (u.l.has_params) u.rec[e] = {gw, gb}; count("passes");
    }
}
SCENARIO("C26", c26_layers, 4){
    std::vector<Unit> U; for (int i = 0, n = R.range(2, 5); i < n; i++) U.push_back(rndUnit(R)); std::string hist = std::to_string(U.size()) + " layers"; for (auto& u : U) hist += ", " + u.str(); std::string start = hist; int changes = 0;
    for (int st = 0, n = R.range(10, 60); st < n; st++){
        int i = R.range(0, (int)U.size() - 1); Unit& u = U[i]; int op = R.range(0, 19); std::string N = std::to_string(i);
        if (op <= 9){ int e = R.range(0, u.bs - 1); hist += "; pass " + N; pass(u, e, R, hist); }
        else if (op <= 11){
            double lr = R.uni(-0.3, 0.5); hist += "; apply " + N; u.P->applyBatch(lr); changes++;
            if (u.l.has_params && !u.rec.empty()){
                RefD w = u.l.w, b = u.l.b; for (auto& [e, g] : u.rec){ for (size_t q = 0; q < w.v.size(); q++) w.v[q] -= lr * g.w.v[q] / u.rec.size(); for (size_t q = 0; q < b.v.size(); q++) b.v[q] -= lr * g.b.v[q] / u.rec.size(); }
                std::string d = diffTol(u.P->weights, w, 1e-9, 1e-9) + diffTol(u.P->biases, b, 1e-9, 1e-9); CHECK(d.empty(), "update", d << " of " << u.str() << " with " << u.rec.size() << " recorded entries after " << hist); if (!d.empty()) return; readParams(u.l, *u.P); u.rec.clear(); count("updates");
            }
        }
        else if (op == 12){ u.bs = R.range(1, 5); hist += "; resize " + N; u.P->setBatchSize(u.bs); u.e.assign(u.bs, {}); u.rec.clear(); }
        else if (op == 13){ hist += "; write " + N; std::string t = u.P->serialize(), again = u.P->serialize(); CHECK(t == again, "serialize", "writing " << u.str() << " twice gives different texts after " << hist); }
        else if (op == 14 && U.size() < 9){ bool mv = R.chance(0.3); hist += (mv ? "; move " : "; copy ") + N; if (mv) u.P = dup(u, true); else { Unit c = u; c.P = dup(u, false); U.push_back(c); } changes++; count(mv ? "layers moved" : "layers copied"); }
        else if (op <= 16){
            std::vector<int> same; for (int q = 0; q < (int)U.size(); q++) if (U[q].l.k == u.l.k && q != i) same.push_back(q); if (same.empty()) continue; int j = R.pick(same); bool mv = R.chance(0.3) && U.size() > 2; hist += (mv ? "; move-assign " : "; assign ") + N + " to " + std::to_string(j);
            if (!put(U[j], u, mv)) continue; auto keep = U[j].P; U[j] = u; U[j].P = keep; if (mv) U.erase(U.begin() + i); changes++; count("layers assigned");
        }
        else if (op == 17 && U.size() > 2){ hist += "; destroy " + N; U.erase(U.begin() + i); }
        else if (op == 18 && U.size() < 9){ hist += "; create"; U.push_back(rndUnit(R)); }
        else if (op == 19){
            std::vector<int> same; for (int q = 0; q < (int)U.size(); q++) if (U[q].l.k == u.l.k && U[q].l.k != RLayer::SOFT && q != i) same.push_back(q); if (same.empty()) continue; int j = R.pick(same); Unit& v = U[j]; hist += "; read " + std::to_string(j) + " from " + N;
            std::istringstream in(u.P->serialize()); CHECK(v.P->deserialize(in), "deserialize", "could not read back " << u.str() << " after " << hist); v.l = u.l; v.in = u.in; if (v.l.has_params){ std::string d = diffTol(v.P->weights, u.l.w, 0, 6e-7) + diffTol(v.P->biases, u.l.b, 0, 6e-7); CHECK(d.empty(), "deserialize", d << " of " << u.str() << " after " << hist); readParams(v.l, *v.P); }
            v.bs = R.range(1, 4); v.P->setBatchSize(v.bs); v.e.assign(v.bs, {}); v.rec.clear();
        }
        for (size_t q = 0; q < U.size(); q++){ std::string d = stateDiff(U[q]); CHECK(d.empty(), "other-layer", "parameters of layer " << q << " (" << U[q].str() << "): " << d << " after " << hist); if (!d.empty()) return; count("layers compared"); }
    }
    if (changes){ sig(start + std::to_string(changes)); sample(hist); }
}
// Several models whose work is interleaved end up like models that worked alone
struct Job{
    struct Step{ int kind, entry, label; double lr; Ref<float> x; };
    RNet N; int bs; std::vector<Step> steps; typedef my_cnn::ModelDescription<float, std::string> Model;
    explicit Job(Rng& R) : N(rndNet(R, false, 3)), bs(R.range(1, 3)){ for (int i = 0, n = R.range(3, 14); i < n; i++){ Step s{R.chance(0.75) ? 0 : 1, R.range(0, bs - 1), R.range(0, N.L.back().n - 1), R.uni(0, 0.5), Ref<float>(N.in)}; for (auto& v : s.x.v) v = (float)R.uni(-1, 1); steps.push_back(s); } }
    void init(Model& M) const { buildModel(M, N); for (auto& l : M.layers) l->setBatchSize(bs); }
    void step(Model& M, size_t i, std::vector<double>& out) const {
        const Step& s = steps[i]; if (s.kind){ for (auto& l : M.layers) l->applyBatch(s.lr); return; }
        auto r = M.forwardPropagation(toM(s.x), s.entry); M.backwardsPropagation(r, M.output_labels[s.label], s.entry); out.push_back(r.label_idx); out.push_back(r.confidence); out.push_back(r.loss); for (auto& m : r.layer_inputs) for (size_t q = 0; q < m.size(); q++) out.push_back(m[q]);
    }
    static std::string diff(const Model& A, const Model& B){ for (size_t i = 0; i < A.layers.size(); i++){ std::string d = diffTol(A.layers[i]->weights, toRef(B.layers[i]->weights), 1e-9, 1e-12) + diffTol(A.layers[i]->biases, toRef(B.layers[i]->biases), 1e-9, 1e-12); if (!d.empty()) return "layer " + std::to_string(i) + ": " + d; } return ""; }
    static std::string diff(const std::vector<double>& a, const std::vector<double>& b){ if (a.size() != b.size()) return "another number of results"; for (size_t i = 0; i < a.size(); i++) if (!near(a[i], b[i], 1e-9, 1e-9)) return "result " + std::to_string(i) + " is " + std::to_string(a[i]) + " instead of " + std::to_string(b[i]); return ""; }
};
SCENARIO("C26", c26_models, 2){
    const int n = R.range(2, 4); const bool threads = R.chance(0.4); std::deque<Job> J; std::deque<Job::Model> solo(n), M(n); std::vector<std::vector<double>> so(n), mo(n); std::string ctx = threads ? "in threads:" : "interleaved:";
    for (int i = 0; i < n; i++){ J.emplace_back(R); ctx += " [" + strOf(J[i].N.L) + " on " + J[i].N.in.str() + "]"; J[i].init(solo[i]); for (size_t k = 0; k < J[i].steps.size(); k++) J[i].step(solo[i], k, so[i]); }
    if (threads){ std::vector<std::thread> T; for (int i = 0; i < n; i++) T.emplace_back([&, i]{ J[i].init(M[i]); for (size_t k = 0; k < J[i].steps.size(); k++) J[i].step(M[i], k, mo[i]); }); for (auto& t : T) t.join(); }
    else {
        for (int i = 0; i < n; i++) J[i].init(M[i]); std::vector<size_t> at(n, 0); std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
        while (!left.empty()){ int q = R.range(0, (int)left.size() - 1), i = left[q]; J[i].step(M[i], at[i], mo[i]); if (++at[i] == J[i].steps.size()) left.erase(left.begin() + q); }
    }
    for (int i = 0; i < n; i++){ std::string d = Job::diff(M[i], solo[i]); CHECK(d.empty(), "models-parameters", "model " << i << " of " << ctx << ": " << d << " compared with working alone"); d = Job::diff(mo[i], so[i]); CHECK(d.empty(), "models-results", "model " << i << " of " << ctx << ": " << d << " compared with working alone"); count("models compared"); }
    sig(ctx); sample(ctx);
}
