// C25: errors during training reach the caller and leave the model usable
#include <climits>
#include "train.h"
using namespace vt;

SCENARIO("C25", c25_failing_sample, 5){
    RNet N; for (;;){ N = rndNet(R, true, R.range(0, 2)); if (N.in.n() <= 120) break; }
    const int n = R.far(1, 25, 150), bs = R.chance(0.3) ? R.range(1, 3) : R.far(1, 12, 140), nt = R.chance(0.25) ? 1 : R.far(2, 8, 40), ep = R.range(1, 2), at_id = R.range(0, n - 1); int kind = R.range(0, 4); if (kind == 1 && (N.L[0].k == RLayer::POOL || N.L[0].k == RLayer::ACT)) kind = 0; double lr = R.uni(0.01, 0.2);
    auto s = mkSamples(R, N, n); TModel M; buildModel(M, N); std::vector<int> at; for (size_t i = 0; i < N.L.size(); i++) at.push_back((int)i); Log log; uint64_t jit = R.u64() | 1; Source src(s, &log, jit, &M.output_labels); src.fail_at = at_id; src.fail_kind = kind;
    std::string ctx = strOf(N.L) + ", " + std::to_string(n) + " samples, batch " + std::to_string(bs) + ", " + std::to_string(nt) + " threads, " + (kind == 0 ? "unknown label" : kind == 1 ? "wrong shape" : kind == 2 ? "source error at drawing" : kind == 4 ? "source error without a standard type" : "source error at asking") + " at " + std::to_string(at_id); sig(ctx); sample(ctx);
    // Parameters at the start of the batch of the failing sample
    std::vector<RLayer> before = N.L; src.batch = bs; src.batch_start = [&]{ if ((int)src.pos / bs == at_id / bs) for (size_t i = 0; i < before.size(); i++) readParams(before[i], *M.layers[i]); };
    TModel::Hyperparameters hp; hp.learning_rate = lr; hp.batch_size = bs; hp.num_threads = nt; hp.num_epochs = ep; std::string got; bool direct = R.chance(0.3);
    if (kind == 3 && at_id % bs == 0){ // the batch may not even start drawing
        src.batch_start = nullptr; }
    { CoutCapture c; try{ if (direct){ for (auto& l : M.layers) l->setBatchSize(bs); M.runEpoch(src, hp); } else M.train(src, hp); } catch(const my_cnn::ModelLayerException& e){ got = "layer"; } catch(const std::out_of_range& e){ got = "label"; } catch(const Source::SourceError& e){ got = std::string("source: ") + e.what(); } catch(const Source::PlainError& e){ got = "plain " + std::to_string(e.id); } catch(...){ got = "other"; } }
    std::string want = kind == 0 ? "label" : kind == 1 ? "layer" : kind == 4 ? "plain " + std::to_string(at_id) : "source: source failed at " + std::to_string(at_id);
    CHECK(got == want, "error-raised", "training " << (got.empty() ? "ends without an error" : "raises \"" + got + "\" instead of \"" + want + "\"") << " in " << ctx); count("errors raised");
    // All workers are done
    long calls = src.calls; size_t ev = log.v.size(); if (R.chance(0.2)) std::this_thread::sleep_for(std::chrono::milliseconds(2)); CHECK(src.calls == calls && log.v.size() == ev && src.inside == 0, "workers-done", "the data source is still used after training ended in " << ctx); CHECK(src.overlaps == 0, "source-overlap", "the data source was used by two threads at once in " << ctx);
    // Parameters: those of the complete batches before the failing one
    RefTrain Q(N); std::vector<int> ord; for (int i = 0; i < (at_id / bs) * bs; i++) ord.push_back(i);
    if (Q.epoch(s, ord, bs, lr)){ std::string d = diffParams(M, Q.N, at, Q.tol); CHECK(d.empty(), "parameters", d << " after the error in " << ctx); count("parameters compared"); }
    if (src.batch_start) for (size_t i = 0; i < before.size(); i++) if (before[i].has_params){ std::string d = diffTol(M.layers[i]->weights, before[i].w, 0, 0) + diffTol(M.layers[i]->biases, before[i].b, 0, 0); CHECK(d.empty(), "batch-applied", "layer " << i << " was moved by the failing batch: " << d << " in " << ctx); }
    // Usable: inference and further training behave as for any model with these parameters
    RNet W = N; for (size_t i = 0; i < W.L.size(); i++) readParams(W.L[i], *M.layers[i]);
    auto r = M.forwardPropagation(toM(s[0].x)); auto a = W.run(s[0].xd); double tol = 2e-5 * (1 + maxAbs(a.back())); for (int k = 0; k < a.back().s.n(); k++) CHECK(std::fabs(r.layer_inputs.back()[k] - a.back().flat(k)) <= tol, "usable-inference", "inference after the error in " << ctx);
    auto s2 = s; if (R.chance(0.4)) s2.resize(R.range(1, n)); Source good(s2, nullptr, 0, &M.output_labels); ord.clear(); for (size_t i = 0; i < s2.size(); i++) ord.push_back((int)i); bool same = direct || R.chance(0.5); int bs2 = same ? bs : R.far(1, 9, 80); RefTrain Z(W); Z.epoch(s2, ord, bs2, lr); hp.batch_size = bs2; hp.num_epochs = 1; hp.num_threads = R.range(1, 4);
    int o = outcome<std::exception>([&]{ CoutCapture c; if (same && R.chance(0.7)) M.runEpoch(good, hp); else M.train(good, hp); }); CHECK(o == 0, "usable-training", "training after the error is refused in " << ctx);
    if (Z.ok){ std::string d = diffParams(M, Z.N, at, Z.tol); CHECK(d.empty(), "usable-parameters", d << " after training again after the error in " << ctx); count("trainings after an error"); }
}
// Several failing samples: still one error, one end
SCENARIO("C25", c25_many_failures, 1){
    RNet N; for (;;){ N = rndNet(R, true, R.range(0, 2)); if (N.in.n() <= 120) break; }
    const int n = R.far(2, 25, 150), bs = R.far(1, 12, 140), nt = R.far(1, 8, 40); auto s = mkSamples(R, N, n); TModel M; buildModel(M, N); auto labels = M.output_labels; std::vector<std::string> wrong = labels; int first = n; for (auto& l : wrong) l += "?";
    struct Mixed : Source{ using Source::Source; std::vector<bool> bad; const std::vector<std::string>* w; my_cnn::LabeledInput<float> getNextDataPoint() override { size_t p = pos; auto d = Source::getNextDataPoint(); if (p < bad.size() && bad[p]) d.label += "?"; return d; } } src(s, nullptr, R.u64() | 1, &M.output_labels);
    src.bad.assign(n, false); for (int i = 0; i < n; i++) if (R.chance(0.4)){ src.bad[i] = true; first = std::min(first, i); } if (first == n){ src.bad[0] = true; first = 0; }
    TModel::Hyperparameters hp; hp.learning_rate = 0.1; hp.batch_size = bs; hp.num_threads = nt; sig(std::to_string(n) + "," + std::to_string(bs) + "," + std::to_string(nt) + "," + std::to_string(first));
    int o = outcome<std::out_of_range>([&]{ CoutCapture c; M.train(src, hp); }); CHECK(o == 1, "error-raised", "training with several unknown labels is " << outcomeName(o)); count("errors raised");
    RefTrain Q(N); std::vector<int> ord, at; for (int i = 0; i < (first / bs) * bs; i++) ord.push_back(i); for (size_t i = 0; i < N.L.size(); i++) at.push_back((int)i); if (Q.epoch(s, ord, bs, 0.1)){ std::string d = diffParams(M, Q.N, at, Q.tol); CHECK(d.empty(), "parameters", d << " after several errors"); count("parameters compared"); }
}

// The source fails between two epochs
SCENARIO("C25", c25_reset_fails, 1){
    RNet N; for (;;){ N = rndNet(R, true, R.range(0, 2)); if (N.in.n() <= 120) break; }
    const int n = R.far(1, 20, 100), bs = R.far(1, 8, 80), ep = R.range(1, 3), at_ep = R.range(0, ep - 1); double lr = R.uni(0.01, 0.2); auto s = mkSamples(R, N, n); TModel M; buildModel(M, N); std::vector<int> at, ord; for (size_t i = 0; i < N.L.size(); i++) at.push_back((int)i); for (int i = 0; i < n; i++) ord.push_back(i);
    Source src(s, nullptr, 0, &M.output_labels); src.fail_kind = 5; src.fail_at = at_ep; TModel::Hyperparameters hp; hp.learning_rate = lr; hp.batch_size = bs; hp.num_threads = R.range(1, 5); hp.num_epochs = ep; std::string ctx = std::to_string(n) + " samples, batch " + std::to_string(bs) + ", reset failing after epoch " + std::to_string(at_ep); sig(ctx);
    int o = outcome<Source::SourceError>([&]{ CoutCapture c; M.train(src, hp); }); CHECK(o == 1, "error-raised", "training is " << outcomeName(o) << " with " << ctx); count("errors raised");
    RefTrain Q(N); bool ok = true; for (int e = 0; e <= at_ep && ok; e++) ok = Q.epoch(s, ord, bs, lr); if (ok){ std::string d = diffParams(M, Q.N, at, Q.tol); CHECK(d.empty(), "parameters", d << " with " << ctx); count("parameters compared"); }
}

// A training that no sample could be processed with
SCENARIO("C25", c25_no_workers, 1){
    RNet N; for (;;){ N = rndNet(R, true, R.range(0, 2)); if (N.in.n() <= 120) break; }
    const int n = R.range(1, 12); auto s = mkSamples(R, N, n); TModel M; buildModel(M, N); std::vector<int> at, ord; for (size_t i = 0; i < N.L.size(); i++) at.push_back((int)i); for (int i = 0; i < n; i++) ord.push_back(i);
    Source src(s, nullptr, 0, &M.output_labels); TModel::Hyperparameters hp; hp.learning_rate = 0.1; hp.batch_size = R.range(1, 5); hp.num_threads = R.range(1, 4); bool th = R.chance(0.5); static const int bad[] = {0, 0, -1, -7, INT_MIN}; int v = bad[R.range(0, 4)]; (th ? hp.num_threads : hp.batch_size) = v; bool epoch = R.chance(0.3); std::string ctx = std::to_string(v) + (th ? " threads" : " samples in a batch") + (epoch ? ", one epoch" : ""); sig(ctx + strOf(N.L)); sample(ctx);
    int o = outcome<std::exception>([&]{ CoutCapture c; if (epoch) M.runEpoch(src, hp); else M.train(src, hp); }); CHECK(o == 1, "no-workers", "training is " << outcomeName(o) << " with " << ctx); CHECK(src.pos == 0 && src.calls == 0, "no-workers-source", "training refused with " << ctx << " drew samples"); count("trainings refused");
    std::string d = diffParams(M, N, at, 0); CHECK(d.empty(), "parameters", d << " with " << ctx); hp.batch_size = R.range(1, 5); hp.num_threads = R.range(1, 4); RefTrain Z(N); Z.epoch(s, ord, hp.batch_size, 0.1);
    o = outcome<std::exception>([&]{ CoutCapture c; M.train(src, hp); }); CHECK(o == 0, "usable-training", "training after the refused one is " << outcomeName(o) << ": " << ctx); if (Z.ok){ d = diffParams(M, Z.N, at, Z.tol); CHECK(d.empty(), "usable-parameters", d << " after training again after " << ctx); count("trainings after an error"); }
}
// A worker thread cannot be started (the system is short of threads): the library's entry point for starting one is replaced
#include <dlfcn.h>
#include <system_error>
static std::atomic<long> starts_left{-1};
void std::thread::_M_start_thread(_State_ptr s, void (*dep)()){
    typedef void (*Start)(std::thread*, _State_ptr, void (*)());
    static const Start real = (Start)dlsym(RTLD_NEXT, "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
    long left = starts_left.load(); while (left > 0 && !starts_left.compare_exchange_weak(left, left - 1)); 
    if (left == 0){ starts_left = -1; throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "no more threads"); }
    real(this, std::move(s), dep);
}
SCENARIO("C25", c25_no_thread, 2){
    RNet N; for (;;){ N = rndNet(R, true, R.range(0, 2)); if (N.in.n() <= 120) break; }
    const int n = R.far(1, 20, 100), bs = R.far(1, 8, 80), nt = R.far(1, 8, 40), nb = (n + bs - 1) / bs; double lr = R.uni(0.01, 0.2); auto s = mkSamples(R, N, n); TModel M; buildModel(M, N); std::vector<int> at, ord; for (size_t i = 0; i < N.L.size(); i++) at.push_back((int)i);
    Source src(s, nullptr, R.chance(0.5) ? R.u64() | 1 : 0, &M.output_labels); TModel::Hyperparameters hp; hp.learning_rate = lr; hp.batch_size = bs; hp.num_threads = nt; int k = R.range(0, nt * nb - 1); std::string ctx = strOf(N.L) + ", " + std::to_string(n) + " samples, batch " + std::to_string(bs) + ", " + std::to_string(nt) + " threads, start " + std::to_string(k) + " failing"; sig(ctx); sample(ctx);
    starts_left = k; int o = outcome<std::system_error>([&]{ CoutCapture c; M.train(src, hp); }); bool hit = starts_left < 0; starts_left = -1; CHECK(src.inside == 0, "workers-done", "the data source is in use after the end of " << ctx);
    if (!hit){ count("thread starts that did not come"); return; }
    long calls = src.calls; std::this_thread::yield(); CHECK(src.calls == calls && src.overlaps == 0, "workers-done", "the data source is still used after training ended in " << ctx);
    if (o == 0){ CHECK(src.pos == 0 || (int)src.pos == n, "error-raised", "training ends without an error after " << src.pos << " samples of " << ctx); count("trainings with fewer threads"); for (int i = 0; i < n; i++) ord.push_back(i); }
    else { CHECK(o == 1, "error-raised", "training is " << outcomeName(o) << " with " << ctx); count("errors raised"); count("threads that could not be started"); }
    bool fits = false; std::string d; int b = (int)src.pos / bs;
    for (int t : {b, src.pos % bs == 0 ? b - 1 : b}){ if (o != 0){ ord.clear(); for (int i = 0; i < std::min(n, t * bs); i++) ord.push_back(i); } if (t < 0) continue; RefTrain Q(N); if (!Q.epoch(s, ord, bs, lr)){ fits = true; break; } d = diffParams(M, Q.N, at, Q.tol); if (d.empty()){ fits = true; count("parameters compared"); break; } }
    CHECK(fits, "parameters", d << " after " << src.pos << " samples of " << ctx);
    RNet W = N; for (size_t i = 0; i < W.L.size(); i++) readParams(W.L[i], *M.layers[i]); Source good(s, nullptr, 0, &M.output_labels); ord.clear(); for (int i = 0; i < n; i++) ord.push_back(i); RefTrain Z(W); Z.epoch(s, ord, bs, lr);
    o = outcome<std::exception>([&]{ CoutCapture c; M.train(good, hp); }); CHECK(o == 0, "usable-training", "training after the error is refused in " << ctx); if (Z.ok){ d = diffParams(M, Z.N, at, Z.tol); CHECK(d.empty(), "usable-parameters", d << " after training again after the error in " << ctx); count("trainings after an error"); }
}
