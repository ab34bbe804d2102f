// C17: data sets with more samples than a single precision number can count
#include "train.h"
using namespace vt;

namespace{
constexpr int BASE = 4096;
struct BigSource : my_cnn::DataGenerator<float>{
    size_t n, i = 0, overdrawn = 0; BigSource(size_t n_) : n(n_){}
    my_cnn::LabeledInput<float> getNextDataPoint() override { if (i >= n) overdrawn++; my_cnn::LabeledInput<float> d; d.data = SimpleMatrix<float>(dim3(2, 1, 1)); d.data[0] = (float)(i % BASE); d.data[1] = (float)(i / BASE); d.label = "a"; i++; return d; }
    size_t size() override { return n; }
    bool hasAvailableData() override { return i < n; }
    void reset() override { i = 0; }
};
// Marks the samples that pass through; they are handed on unchanged
struct Marks : ModelLayer{
    std::vector<std::atomic<unsigned char>> f, b; std::atomic<long> twice{0}, unknown{0}, batches{0}, longest{0}, in_batch{0};
    explicit Marks(size_t n) : f(n), b(n){}
    void mark(std::vector<std::atomic<unsigned char>>& v, const MatD& m){ size_t id = (size_t)m[0] + (size_t)m[1] * BASE; if (id >= v.size()) unknown++; else if (v[id].fetch_add(1) != 0) twice++; }
    my_cnn::ModelFlowMode getType() const override { return my_cnn::UNSPECIFIED; }
    void applyBatch(double) override { batches++; longest = std::max(longest.load(), in_batch.exchange(0)); }
    MatD propagateForward(MatD&& in, size_t) override { mark(f, in); in_batch++; return std::move(in); }
    MatD propagateBackward(const MatD& in, const MatD&, const MatD& g, size_t, bool) override { mark(b, in); return g; }
    std::string serialize() const override { return ""; }
    bool deserialize(std::istream&) override { return true; }
};
}
SCENARIO("C17", c17_huge, 1){
    const int bs = R.chance(0.5) ? 1 << R.range(12, 19) : 4 * R.range(1000, 80000), nt = R.range(1, 6); const size_t n = ((1u << 24) / bs + (bs & (bs - 1) ? 1 : 0)) * (size_t)bs + R.range(1, 2); std::ostringstream c; c << n << " samples, batch " << bs << ", " << nt << " threads"; sig(c.str()); sample(c.str());
    BigSource src(n); my_cnn::ModelDescription<float, std::string> M; auto P = std::make_shared<Marks>(n); M.layers.push_back(P); M.setOutputLabels({"a", "b"}, my_cnn::SOFTMAX);
    my_cnn::ModelDescription<float, std::string>::Hyperparameters hp; hp.learning_rate = 0.1; hp.batch_size = bs; hp.num_threads = nt; hp.num_epochs = 1; { CoutCapture cc; M.train(src, hp); }
    size_t fw = 0, bw = 0, first = n; for (size_t k = 0; k < n; k++){ fw += P->f[k] == 1; bw += P->b[k] == 1; if ((P->f[k] != 1 || P->b[k] != 1) && first == n) first = k; }
    CHECK(fw == n && bw == n && P->twice == 0 && P->unknown == 0 && src.overdrawn == 0, "exactly-once", fw << " forward and " << bw << " backward of " << n << " samples used exactly once; first other sample " << first << ", " << c.str());
    CHECK(P->longest <= bs, "batch-overrun", P->longest << " samples in a batch of " << bs); CHECK(P->in_batch == 0, "update-missing", P->in_batch << " samples at the end of the epoch were not followed by an update, " << c.str());
    CHECK(P->batches >= (long)((n + bs - 1) / bs), "batch-count", P->batches << " updates, " << c.str()); count("samples of huge trainings", n);
}
