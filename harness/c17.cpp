// C17: training uses every sample exactly once per epoch, independent of threads
#include "train.h"
using namespace vt;

// Checks the event log of one training run against the protocol; returns the drawn order per epoch
static bool checkLog(const std::vector<Ev>& v, const std::vector<Sample>& s, int bs, double lr, int epochs, std::vector<int>& success, std::vector<std::vector<int>>& orders, const std::string& ctx){
#define LCHECK(c, k, m) do{ count("checks"); if (!(c)){ std::ostringstream o_; o_ << m << " in " << ctx; fail(k, o_.str()); return false; } }while(0)
    std::vector<int> drawn(s.size(), 0), fwd(s.size(), 0), bwd(s.size(), 0); std::map<int, int> entry_of, id_of; std::map<int, int> pred, lab; size_t in_batch = 0, drawn_epoch = 0, fw = 0, bw = 0; std::vector<int> order; int succ = 0; bool sized = false; int pending_apply = 0;
    auto endEpoch = [&](){
        LCHECK(in_batch == 0, "update-missing", in_batch << " samples at the end of an epoch were not followed by an update");
        LCHECK(drawn_epoch == s.size(), "exactly-once", drawn_epoch << " of " << s.size() << " samples drawn in epoch " << orders.size());
        for (size_t i = 0; i < s.size(); i++) LCHECK(drawn[i] == 1 && fwd[i] == 1 && bwd[i] == 1, "exactly-once", "sample " << i << " drawn " << drawn[i] << ", forward " << fwd[i] << ", backward " << bwd[i] << " times in epoch " << orders.size());
        orders.push_back(order); success.push_back(succ); order.clear(); succ = 0; drawn_epoch = 0; std::fill(drawn.begin(), drawn.end(), 0); std::fill(fwd.begin(), fwd.end(), 0); std::fill(bwd.begin(), bwd.end(), 0); return true;
    };
    for (auto& e : v){
        count("events");
        switch (e.t){
            case Ev::SIZE: LCHECK(e.aux == bs, "batch-size", "batch size " << e.aux << " instead of " << bs); sized = true; break;
            case Ev::DRAW: drawn[e.id]++; drawn_epoch++; order.push_back(e.id); in_batch++; LCHECK((int)in_batch <= bs, "batch-overrun", "more than " << bs << " samples drawn without an update"); break;
            case Ev::FWD: LCHECK(e.id >= 0 && drawn[e.id] == 1 && fwd[e.id] == 0, "forward-data", "a forward pass with data of sample " << e.id << ", which was not just drawn"); LCHECK(e.entry >= 0 && e.entry < bs, "entry-range", "batch entry " << e.entry << " of " << bs); LCHECK(!id_of.count(e.entry), "entry-reused", "batch entry " << e.entry << " used twice in one batch"); fwd[e.id]++; entry_of[e.id] = e.entry; id_of[e.entry] = e.id; fw++; break;
            case Ev::LABEL: LCHECK(id_of.count(e.entry), "label-entry", "label event for unused entry " << e.entry); if (e.id == 0) pred[e.entry] = e.aux; else { lab[e.entry] = e.aux; LCHECK(e.aux == -1 || e.aux == s[id_of[e.entry]].label, "own-label", "sample " << id_of[e.entry] << " with label " << s[id_of[e.entry]].label << " is trained with label " << e.aux); } break;
            case Ev::BWD: LCHECK(e.id >= 0 && fwd[e.id] == 1 && bwd[e.id] == 0 && entry_of.count(e.id) && entry_of[e.id] == e.entry, "backward-data", "backward pass of entry " << e.entry << " with data of sample " << e.id); LCHECK(lab.count(e.entry), "label-seen", "no label reached entry " << e.entry); bwd[e.id]++; bw++; if (pred[e.entry] == s[e.id].label) succ++; break;
            case Ev::APPLY:
                if (in_batch == 0 && fw == 0){ pending_apply++; break; }     // nothing to apply
                LCHECK(fw == in_batch && bw == in_batch, "update-early", "an update after " << in_batch << " draws, " << fw << " forward and " << bw << " backward passes");
                LCHECK((int)in_batch == bs || drawn_epoch == s.size(), "batch-short", "an update after only " << in_batch << " of " << bs << " samples");
                LCHECK(e.lr == lr, "learning-rate", "learning rate " << e.lr << " instead of " << lr); in_batch = fw = bw = 0; entry_of.clear(); id_of.clear(); pred.clear(); lab.clear(); break;
            case Ev::RESET: if (drawn_epoch == 0 && fw == 0 && in_batch == 0) break; if (!endEpoch()) return false; break;
        }
    }
    if (!order.empty() || (int)orders.size() < epochs) if (!endEpoch()) return false;
    LCHECK(sized, "batch-size", "no batch size was set"); LCHECK((int)orders.size() == epochs, "epochs", orders.size() << " epochs instead of " << epochs);
    return true;
#undef LCHECK
}
static RNet smallNet(Rng& R, bool smooth = false){ for (;;){ RNet N = rndNet(R, smooth || R.chance(0.5), R.range(0, 3)); if (N.in.n() <= 120) return N; } }

SCENARIO("C17", c17_train, 5){
    const int n = R.chance(0.1) ? R.range(1, 3) : R.far(1, 40, 300), bs = R.chance(0.15) ? n + R.range(1, 10) : R.chance(0.3) ? R.range(1, 4) : R.far(1, 17, 280), nt = R.chance(0.3) ? 1 : R.far(2, 8, 40), ep = R.far(1, 3, 6); RNet N = smallNet(R, n * ep > 100); double lr = R.uni(0.01, 0.2);
    auto s = mkSamples(R, N, n); std::vector<int> plain; for (int i = 0; i < n; i++) plain.push_back(i);
    { RefTrain T(N); for (int e = 0; e < ep; e++) if (!T.epoch(s, plain, bs, lr)){ count("skipped as ill-conditioned"); return; } }
    Log log; uint64_t jit = R.chance(0.8) ? R.u64() | 1 : 0; TModel M; auto dp = std::make_shared<DataProbe>(log, s, jit); auto lp = std::make_shared<LabelProbe>(log, jit);
    M.layers.push_back(dp); buildModel(M, N); M.layers.insert(M.layers.end() - 1, lp); std::vector<int> at; for (size_t i = 0; i < N.L.size(); i++) at.push_back((int)i + 1 + (i + 1 == N.L.size()));
    Source src(s, &log, jit, &M.output_labels); TModel::Hyperparameters hp; hp.learning_rate = lr; hp.batch_size = bs; hp.num_threads = nt; hp.num_epochs = ep;
    std::string ctx = strOf(N.L) + ", " + std::to_string(n) + " samples, batch " + std::to_string(bs) + ", " + std::to_string(nt) + " threads, " + std::to_string(ep) + " epochs"; sample(ctx);
    std::string text; int ret = -1; bool direct = ep == 1 && R.chance(0.4);
    { CoutCapture c; if (direct){ for (auto& l : M.layers) l->setBatchSize(bs); ret = M.runEpoch(src, hp); } else M.train(src, hp); text = c.o.str(); }
    CHECK(src.overlaps == 0, "source-overlap", "the data source was used by two threads at once in " << ctx); CHECK(src.overdraws == 0, "source-overdraw", "a sample was requested when none was available in " << ctx); CHECK(dp->bad == 0, "data", dp->bad << " passes with data that is no sample's in " << ctx);
    std::vector<int> succ; std::vector<std::vector<int>> orders; if (!checkLog(log.v, s, bs, lr, ep, succ, orders, ctx)) return;
    std::string inter; for (auto& e : log.v) inter += (char)('A' + e.t), inter += std::to_string(e.entry); sig(inter + ctx); count("trainings"); if (nt > 1) count("multi-threaded trainings");
    // Reported success
    if (direct) CHECK(ret == succ[0], "success-count", "reported " << ret << " correct predictions of " << succ[0] << " in " << ctx);
    else { size_t p = 0; for (int e = 0; e < ep; e++){ std::string tag = "Epoch " + std::to_string(e) + ": Accuracy was "; p = text.find(tag, p); CHECK(p != std::string::npos, "accuracy-line", "no accuracy reported for epoch " << e << " in " << ctx); double a = atof(text.c_str() + p + tag.size()); CHECK(near(a, 100.0 * succ[e] / n, 1e-3, 1e-3), "accuracy", "reported " << a << "% for " << succ[e] << " of " << n << " in " << ctx); } }
    // Parameters as by sequential training on the drawn order
    RefTrain Q(N); for (auto& o : orders) Q.epoch(s, o, bs, lr); if (!Q.ok){ count("skipped as ill-conditioned"); return; }
    std::string d = diffParams(M, Q.N, at, Q.tol); CHECK(d.empty(), "parameters", d << " (tolerance " << Q.tol << ") after " << ctx); count("final parameters compared");
}
// The same data and model trained with different thread counts, without any observer in the pipeline
SCENARIO("C17", c17_threads, 3){
    const int n = R.far(1, 30, 200), bs = R.far(1, 12, 150), ep = R.range(1, 2); RNet N = smallNet(R, n > 60); double lr = R.uni(0.01, 0.2); auto s = mkSamples(R, N, n); std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); RefTrain Q(N); for (int e = 0; e < ep; e++) Q.epoch(s, ord, bs, lr); if (!Q.ok){ count("skipped as ill-conditioned"); return; }
    std::vector<int> at; for (size_t i = 0; i < N.L.size(); i++) at.push_back((int)i); sig(strOf(N.L) + std::to_string(n) + "/" + std::to_string(bs));
    for (int nt : {1, R.range(2, 4), R.far(5, 12, 70)}){
        TModel M; buildModel(M, N); Source src(s, nullptr, 0, &M.output_labels); TModel::Hyperparameters hp; hp.learning_rate = lr; hp.batch_size = bs; hp.num_threads = nt; hp.num_epochs = ep; { CoutCapture c; M.train(src, hp); }
        std::string d = diffParams(M, Q.N, at, Q.tol); CHECK(d.empty(), "threads", d << " with " << nt << " threads, batch " << bs << ", " << n << " samples of " << strOf(N.L)); count("trainings"); count("final parameters compared");
        CHECK(src.overlaps == 0 && src.overdraws == 0, "source-use", "the data source was used by several threads at once or past its end");
    }
}
// Several trainings with one source and one model, each with its own batch size, rate and threads
SCENARIO("C17", c17_again, 2){
    const int n = R.far(1, 16, 80); RNet N = smallNet(R, n > 30); auto s = mkSamples(R, N, n); std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); RefTrain Q(N); TModel M; buildModel(M, N); Log log; Source src(s, &log, 0, &M.output_labels); std::vector<int> at; for (size_t i = 0; i < N.L.size(); i++) at.push_back((int)i); std::string ctx = strOf(N.L) + ", " + std::to_string(n) + " samples:"; int epochs = 0;
    for (int q = 0, k = R.range(2, 3); q < k; q++){
        TModel::Hyperparameters hp; hp.learning_rate = R.chance(0.1) ? 0 : R.uni(0.01, 0.2); hp.batch_size = R.chance(0.3) ? R.range(1, 3) : R.range(1, n + 4); hp.num_threads = R.range(1, 6); hp.num_epochs = R.range(1, 2); ctx += " batch " + std::to_string(hp.batch_size) + " threads " + std::to_string(hp.num_threads) + " epochs " + std::to_string(hp.num_epochs);
        for (int e = 0; e < (int)hp.num_epochs; e++) if (!Q.epoch(s, ord, hp.batch_size, hp.learning_rate)){ count("skipped as ill-conditioned"); return; }
        { CoutCapture c; M.train(src, hp); } epochs += hp.num_epochs; count("trainings");
        std::vector<int> drawn(n, 0); for (auto& e : log.v) if (e.t == Ev::DRAW) drawn[e.id]++; for (int i = 0; i < n; i++) CHECK(drawn[i] == epochs, "again-draws", "sample " << i << " was drawn " << drawn[i] << " times in " << epochs << " epochs of " << ctx);
        if (!Q.ok){ count("skipped as ill-conditioned"); return; } std::string d = diffParams(M, Q.N, at, Q.tol); CHECK(d.empty(), "again", d << " (tolerance " << Q.tol << ") after training " << q << " of " << ctx); count("final parameters compared"); count("trainings repeated");
    }
    sig(ctx); sample(ctx);
}

// Samples that are finished by all threads at the same instant: the count of right predictions misses none
struct Gate : ModelLayer{
    const int n; std::atomic<long> come{0}, together{0}; explicit Gate(int n_) : n(n_){}
    my_cnn::ModelFlowMode getType() const override { return my_cnn::UNSPECIFIED; }
    MatD propagateForward(MatD&& in, size_t) override { return std::move(in); }
    MatD propagateBackward(const MatD&, const MatD&, const MatD& g, size_t, bool) override {
        MatD out = g; long k = ++come, want = (k + n - 1) / n * n; auto end = std::chrono::steady_clock::now() + std::chrono::microseconds(300);
        while (come < want && std::chrono::steady_clock::now() < end) ; if (come >= want) together++; return out;
    }
    std::string serialize() const override { return ""; }
    bool deserialize(std::istream&) override { return true; }
};
SCENARIO("C17", c17_tied_finishes, 1){
    if (underValgrind() || !R.chance(0.25)) return;
    const int nt = R.range(2, 6), bs = nt * R.range(10, 60), n = bs * R.range(1, 3); RNet N; N.in = {1, 1, 1}; RLayer so; so.k = RLayer::SOFT; so.n = 1; N.L.push_back(so);
    auto s = mkSamples(R, N, n); TModel M; auto gate = std::make_shared<Gate>(nt); M.layers.push_back(gate); buildModel(M, N); Source src(s, nullptr, 0, &M.output_labels); TModel::Hyperparameters hp; hp.learning_rate = 0.1; hp.batch_size = bs; hp.num_threads = nt;
    for (auto& l : M.layers) l->setBatchSize(bs); int got; { CoutCapture c; got = M.runEpoch(src, hp); } count("trainings"); count("samples finished together", gate->together); sig(std::to_string(nt) + "/" + std::to_string(bs) + "/" + std::to_string(n));
    CHECK(got == n && src.pos == (size_t)n, "success-count-tied", "reported " << got << " right predictions of " << n << ", all of which were right, with " << nt << " threads and batches of " << bs);
}
