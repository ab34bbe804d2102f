// Observers of training at the public boundary of the library: a data source and probe layers that log events
#pragma once
#include "refnet.h"
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include <iostream>

namespace vt{
typedef my_cnn::ModelDescription<float, std::string> TModel;
struct Sample{ int id; Ref<float> x; RefD xd; int label; };

inline std::vector<Sample> mkSamples(Rng& R, const RNet& N, int n){
    std::vector<Sample> v;
    for (int i = 0; i < n; i++){ Sample s; s.id = i; s.label = R.range(0, N.L.back().n - 1); s.xd = rndInputF(R, N.in); s.xd.flat(0) = (i + 1) / 1024.0; s.x = Ref<float>(N.in); for (size_t k = 0; k < s.x.v.size(); k++) s.x.v[k] = (float)s.xd.v[k]; v.push_back(s); }
    return v;
}
struct Ev{ enum T{DRAW, FWD, BWD, LABEL, APPLY, SIZE, RESET} t; int id, entry, aux; double lr; };
struct Log{
    std::mutex m; std::vector<Ev> v;
    void add(Ev e){ std::lock_guard<std::mutex> l(m); v.push_back(e); }
};
// Deterministic per event, different for every event: decides where threads are delayed
inline void jitter(uint64_t seed, uint64_t what){
    Rng q(seed * 1000003 + what); q.u64(); int k = q.range(0, 11);
    if (k < 4) std::this_thread::yield(); else if (k == 4) std::this_thread::sleep_for(std::chrono::microseconds(q.range(1, 300)));
}
// The data source. It is not protected by a lock of its own: like the MNIST one, it relies on being used by one thread at a time.
struct Source : my_cnn::DataGenerator<float>{
    const std::vector<Sample>& s; size_t pos = 0; Log* log; uint64_t jit; std::atomic<int> inside{0}, overlaps{0}, overdraws{0}; const std::vector<std::string>* labels;
    int fail_at = -1, fail_kind = 0; size_t batch = 0; std::function<void()> batch_start; std::atomic<long> calls{0};
    Source(const std::vector<Sample>& s_, Log* l, uint64_t j, const std::vector<std::string>* lab) : s(s_), log(l), jit(j), labels(lab){}
    struct In{ Source& g; In(Source& g_) : g(g_){ g.calls++; if (g.inside.fetch_add(1) != 0) g.overlaps++; } ~In(){ g.inside.fetch_sub(1); } };
    struct SourceError : std::runtime_error{ using std::runtime_error::runtime_error; }; struct PlainError{ int id; };
    my_cnn::LabeledInput<float> getNextDataPoint() override {
        In in(*this); my_cnn::LabeledInput<float> d;
        if (pos >= s.size()){ overdraws++; d.data = toM(s.at(0).x); d.label = (*labels)[0]; return d; }
        if (batch && batch_start && pos % batch == 0) batch_start();
        if (log && jit) jitter(jit, pos * 7 + 1);
        const Sample& p = s[pos++]; if (log) log->add({Ev::DRAW, p.id, -1, p.label, 0});
        d.data = toM(p.x); d.label = (*labels)[p.label];
        if (fail_kind != 5 && fail_at >= 0 && p.id == fail_at) switch (fail_kind){
            case 0: d.label = "no such label"; break;
            case 1: d.data = SimpleMatrix<float>(dim3(p.x.s.x + 1, p.x.s.y, p.x.s.z + 1), 0.5f); break;
            case 2: throw SourceError("source failed at " + std::to_string(p.id));
            case 4: throw PlainError{p.id};
        }
        return d;
    }
    size_t size() override { return s.size(); }
    bool hasAvailableData() override { In in(*this); if (fail_at >= 0 && fail_kind == 3 && (int)pos == fail_at) throw SourceError("source failed at " + std::to_string(pos)); return pos < s.size(); }
    void reset() override { In in(*this); if (fail_kind == 5 && fail_at-- == 0) throw SourceError("reset failed"); pos = 0; if (log) log->add({Ev::RESET, -1, -1, -1, 0}); }
};
// First layer: sees every sample's data; hands everything on unchanged
struct DataProbe : ModelLayer{
    Log& log; const std::vector<Sample>& s; uint64_t jit; std::atomic<int> bad{0}, inflight{0};
    DataProbe(Log& l, const std::vector<Sample>& s_, uint64_t j) : log(l), s(s_), jit(j){}
    int idOf(const MatD& m){ int id = m.size() ? (int)std::lround(m[0] * 1024) - 1 : -1; if (id < 0 || id >= (int)s.size() || shOf(m.dim()) != s[id].x.s) return -1; for (int k = 0; k < s[id].x.s.n(); k++) if ((float)m[k] != s[id].x.flat(k)) return -1; return id; }
    my_cnn::ModelFlowMode getType() const override { return my_cnn::UNSPECIFIED; }
    void setBatchSize(size_t n) override { log.add({Ev::SIZE, -1, -1, (int)n, 0}); }
    void applyBatch(double lr) override { log.add({Ev::APPLY, -1, -1, -1, lr}); }
    MatD propagateForward(MatD&& in, size_t e) override { int id = idOf(in); if (id < 0) bad++; log.add({Ev::FWD, id, (int)e, -1, 0}); if (jit) jitter(jit, 1000 + e * 31 + id); return std::move(in); }
    MatD propagateBackward(const MatD& in, const MatD& out, const MatD& g, size_t e, bool) override { int id = idOf(in); if (id < 0 || idOf(out) != id) bad++; if (jit) jitter(jit, 5000 + e * 31 + id); log.add({Ev::BWD, id, (int)e, -1, 0}); return g; }
    std::string serialize() const override { return ""; }
    bool deserialize(std::istream&) override { return true; }
};
// In front of the softmax: sees the predicted and, on the way back, the assigned label of an entry
struct LabelProbe : ModelLayer{
    Log& log; uint64_t jit; LabelProbe(Log& l, uint64_t j) : log(l), jit(j){}
    my_cnn::ModelFlowMode getType() const override { return my_cnn::UNSPECIFIED; }
    MatD propagateForward(MatD&& in, size_t e) override { size_t b = 0; for (size_t k = 0; k < in.size(); k++) if (in[k] > in[b]) b = k; log.add({Ev::LABEL, 0, (int)e, (int)b, 0}); if (jit) jitter(jit, 9000 + e); return std::move(in); }
    MatD propagateBackward(const MatD&, const MatD&, const MatD& g, size_t e, bool) override { int l = -1; for (size_t k = 0; k < g.size(); k++) if (g[k] < 0 && (l < 0 || g[k] < g[l])) l = (int)k; log.add({Ev::LABEL, 1, (int)e, l, 0}); return g; }
    std::string serialize() const override { return ""; }
    bool deserialize(std::istream&) override { return true; }
};
// Captures std::cout while in scope
struct CoutCapture{ std::ostringstream o; std::streambuf* b; CoutCapture() : b(std::cout.rdbuf(o.rdbuf())){} ~CoutCapture(){ std::cout.rdbuf(b); } };

// Reference stochastic gradient descent over samples in the given order. A second, slightly perturbed copy is trained
// alongside and tells how much this training amplifies rounding: the comparison tolerance follows from it, and where it
// is large (diverging or chaotic training, kinks, ties) no comparison is made.
struct RefTrain{
    RNet N, T; bool ok = true; double tol = 1e-5;
    explicit RefTrain(const RNet& n) : N(n), T(n){ Rng q(99); for (auto& l : T.L){ for (auto& v : l.w.v) v *= 1 + (q.chance(0.5) ? 1e-6 : -1e-6); for (auto& v : l.b.v) v *= 1 + (q.chance(0.5) ? 1e-6 : -1e-6); } }
    static void batch(RNet& n, const std::vector<Sample>& s, const std::vector<int>& o, size_t i, size_t c, double lr){
        auto sum = n.zero();
        for (size_t k = 0; k < c; k++){ const Sample& p = s[o[i + k]]; auto g = n.grad(p.xd, p.label, 0, 0); for (size_t l = 0; l < n.L.size(); l++){ for (size_t j = 0; j < g.w[l].v.size(); j++) sum.w[l].v[j] += g.w[l].v[j] / c; for (size_t j = 0; j < g.b[l].v.size(); j++) sum.b[l].v[j] += g.b[l].v[j] / c; } }
        n.step(sum, lr);
    }
    bool epoch(const std::vector<Sample>& s, const std::vector<int>& o, int bs, double lr){
        for (size_t i = 0; ok && i < o.size(); i += bs){
            size_t c = std::min((size_t)bs, o.size() - i); for (size_t k = 0; k < c; k++) if (!N.smooth(s[o[i + k]].xd, s[o[i + k]].label, 5e-5)) ok = false;
            batch(N, s, o, i, c, lr); batch(T, s, o, i, c, lr); for (auto& l : N.L) if (!(maxAbs(l.w) < 20) || !(maxAbs(l.b) < 20)) ok = false;
        }
        double d = 0; for (size_t i = 0; i < N.L.size(); i++){ for (size_t j = 0; j < N.L[i].w.v.size(); j++) d = std::max(d, std::fabs(N.L[i].w.v[j] - T.L[i].w.v[j])); for (size_t j = 0; j < N.L[i].b.v.size(); j++) d = std::max(d, std::fabs(N.L[i].b.v[j] - T.L[i].b.v[j])); }
        tol = 1e-5 + 20 * d; if (!(tol < 2e-3)) ok = false; return ok;
    }
};
// Compare parameters of a model (with library layers at the given positions) with a reference network
inline std::string diffParams(TModel& M, const RNet& N, const std::vector<int>& at, double tol){
    for (size_t i = 0; i < N.L.size(); i++) if (N.L[i].has_params){ auto& l = *M.layers[at[i]]; double t = tol; std::string d = diffTol(l.weights, N.L[i].w, 0, t); if (!d.empty()) return "weights of layer " + std::to_string(i) + ": " + d; d = diffTol(l.biases, N.L[i].b, 0, t); if (!d.empty()) return "biases of layer " + std::to_string(i) + ": " + d; }
    return "";
}
} // namespace vt
