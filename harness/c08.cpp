// C08: no public operation performs an invalid memory access or undefined step. The deciding observers are the sanitizers
// and memcheck; the scenarios here drive object lifetimes and long mixed histories. (All other scenarios run here, too.)
#include "train.h"
#include "cnn_from_scratch/imageUtil.h"
#include "cnn_from_scratch/MNISTReader.h"
#include <fstream>
#include <deque>
#include <unistd.h>
using namespace vt;
using my_cnn::matrixMultiply; using my_cnn::convolve; using my_cnn::dot; using my_cnn::transpose; using my_cnn::rotate;

// Occupy and free heap and stack, so that what a dangling reference points to is overwritten
__attribute__((noinline)) static void clutter(Rng& R){
    volatile unsigned char st[4096]; for (size_t i = 0; i < sizeof st; i++) st[i] = 0xA5; std::vector<std::vector<double>> v; for (int i = 0; i < 12; i++) v.emplace_back((size_t)R.range(1, 200), -7.77e77); (void)st[R.range(0, 4095)];
}
template<class E> static double total(const E& e){ double t = 0; each(shOf(e.dim()), [&](int i, int j, int k){ t += (double)e(dim3(i, j, k)); }); return t; }

template<class T> static SimpleMatrix<T> mk(const Ref<T>& r){ return toM(r); }
// Expressions that outlive the objects they were written with
template<class T> static auto sumOf(const Ref<T>& a, const Ref<T>& b){ return mk(a) + mk(b); }
template<class T> static auto mixOf(const Ref<T>& a, const Ref<T>& b){ return (mk(a) * T(2) - mk(b)) * (T(3) + mk(a)); }
template<class T> static auto trOf(const Ref<T>& a){ return transpose(mk(a)); }
template<class T> static auto rotOf(const Ref<T>& a){ return rotate<2>(mk(a)); }
template<class T> static auto mulOf(const Ref<T>& a, const Ref<T>& b){ return matrixMultiply(mk(a), transpose(mk(b))); }
template<class T> static auto convOf(const Ref<T>& a, const Ref<T>& b){ return convolve(mk(a), mk(b), dim2(1, 1)); }
template<class T> static auto deepOf(const Ref<T>& a, const Ref<T>& b){ return transpose(transpose(mk(a) + mk(b))) - (mk(a) - T(1)) * (mk(b) + T(1)); }
template<class T> static void lifetimes(Rng& R){
    Sh s = rndShape(R, 1, 6, 3); Ref<T> a = rndRef<T>(R, s), b = rndRef<T>(R, s); sig(std::string(tname<T>()) + s.str()); sample(std::string(tname<T>()) + " " + s.str());
    auto check = [&](auto&& e, auto want, const char* what){ clutter(R); double t = 0; std::string bad; each(shOf(e.dim()), [&](int i, int j, int k){ T v = (T)e(dim3(i, j, k)), w = want(i, j, k); t += (double)v; if (!nearT<T>(v, w) && bad.empty()){ std::ostringstream o; o << "(" << i << "," << j << "," << k << ") is " << +v << " instead of " << +w; bad = o.str(); } }); CHECK(bad.empty(), std::string("lifetime:") + what, what << " read after its operands went out of scope: " << bad); count("outlived expressions read"); };
    { auto e = sumOf(a, b); check(e, [&](int i, int j, int k){ return (T)(a.at(i, j, k) + b.at(i, j, k)); }, "sum of temporaries"); auto c = e; check(c, [&](int i, int j, int k){ return (T)(a.at(i, j, k) + b.at(i, j, k)); }, "copy of a sum"); auto m = std::move(c); check(m, [&](int i, int j, int k){ return (T)(a.at(i, j, k) + b.at(i, j, k)); }, "moved sum"); }
    { auto e = mixOf(a, b); check(e, [&](int i, int j, int k){ return (T)((a.at(i, j, k) * T(2) - b.at(i, j, k)) * (T(3) + a.at(i, j, k))); }, "nested temporaries"); }
    { auto e = trOf(a); check(e, [&](int i, int j, int k){ return a.at(j, i, k); }, "transpose of a temporary"); }
    { auto e = rotOf(a); check(e, [&](int i, int j, int k){ return a.at(s.x - 1 - i, s.y - 1 - j, k); }, "rotation of a temporary"); }
    { auto e = mulOf(a, b); check(e, [&](int i, int j, int k){ T t{}; for (int q = 0; q < s.y; q++) t += a.at(i, q, k) * b.at(j, q, k); return t; }, "product of temporaries"); }
    if (s.z == 1){ Sh d{R.range(1, s.x), R.range(1, s.y), 1}; Ref<T> f = rndRef<T>(R, d); auto e = convOf(a, f); check(e, [&](int i, int j, int){ T t{}; for (int p = 0; p < d.x; p++) for (int q = 0; q < d.y; q++) t += a.at(i + p, j + q, 0) * f.at(p, q, 0); return t; }, "convolution of temporaries"); }
    { auto e = deepOf(a, b); check(e, [&](int i, int j, int k){ return (T)((a.at(i, j, k) + b.at(i, j, k)) - (a.at(i, j, k) - T(1)) * (b.at(i, j, k) + T(1))); }, "deep expression"); }
    // range-for over temporaries, references to elements of temporaries stored by value
    { T t{}; for (auto&& v : mk(a)) t += v; T w{}; each(s, [&](int i, int j, int k){ w += a.at(i, j, k); }); CHECK(nearT<T>(t, w), "range-for", "sum over a temporary is " << +t << " instead of " << +w); double u = 0; auto e = mk(a) + mk(b); for (auto&& v : e) u += (double)v; (void)u; }
}
SCENARIO("C08", c08_lifetimes_double, 3){ lifetimes<double>(R); }
SCENARIO("C08", c08_lifetimes_int, 2){ lifetimes<int>(R); }

// Long mixed histories over a pool of matrices, with refused requests in between
SCENARIO("C08", c08_pool, 6){
    std::deque<SimpleMatrix<double>> P; std::deque<SimpleMatrix<float>> F; for (int i = 0; i < 3; i++){ P.push_back(toM(rndRef<double>(R, rndShape(R, 1, 6, 4, false)))); F.push_back(toM(rndRef<float>(R, rndShape(R, 1, 6, 4, false)))); } double acc = 0; std::string h;
    auto any = [&]() -> SimpleMatrix<double>& { return P[R.range(0, (int)P.size() - 1)]; }; auto anyF = [&]() -> SimpleMatrix<float>& { return F[R.range(0, (int)F.size() - 1)]; };
    for (int step = 0, n = R.range(10, 40); step < n; step++){
        int op = R.range(0, 27); h += (char)('A' + op);
        try{ switch (op){
            case 0: P.push_back(any()); break; case 1: if (P.size() > 2) P.erase(P.begin() + R.range(0, (int)P.size() - 1)); break; case 2: any() = any(); break; case 3: any() = any() + any(); break; case 4: any() += any(); break; case 5: any() = transpose(any()); break;
            case 6: any() = rotate<1>(any()); break; case 7: any() = rotate<2>(any()); break; case 8: any() = matrixMultiply(any(), any()); break; case 9: any() = convolve(any().slice(0), any().slice(0), dim2(R.range(1, 2), R.range(1, 2))); break; case 10: acc += dot(any(), any()); break;
            case 11: { auto& m = any(); m.reshape(R.range(0, 6), R.range(0, 6), R.range(0, 3)); break; } case 12: any().resize(R.range(0, 6), R.range(0, 6), R.range(0, 3)); break; case 13: { auto& m = any(); auto v = m.subMatView(dim3(R.range(-1, 4), R.range(-1, 4), R.range(-1, 2)), dim3(R.range(0, 4), R.range(0, 4), R.range(0, 2))); v += 1.0; acc += total(v); break; }
            case 14: any().slice(R.range(-1, 3)) = any().slice(0); break; case 15: any() = any().subMatCopy(dim3(R.range(0, 3), R.range(0, 3), 0), dim3(R.range(0, 3), R.range(0, 3), 1)); break; case 16: any() = anyF(); break; case 17: anyF() = any() * anyF(); break; case 18: acc += any()(dim3(0, 0, 0)) ; break;
            case 19: { std::vector<double> v((size_t)R.range(0, 30), 1.5); any() = std::move(v); break; } case 20: { std::vector<double> v((size_t)R.range(0, 30), 1.5); any().setEntries(std::move(v)); break; } case 21: acc += sum(any()) + mean(any()); break; case 22: acc += max(any()) + min(any()) + l2Norm(any()); break;
            case 23: { std::stringstream s; any().serialize(s); if (R.chance(0.5)) any().deserialize(s); else anyF().deserialize(s); break; } case 24: { std::ostringstream s; s << any() << anyF() + anyF(); break; } case 25: { SimpleMatrix<double> t = std::move(any()); any() = std::move(t); break; } case 26: any() *= anyF(); break; case 27: { auto& m = any(); if (m.size()) m /= m[0] == 0 ? 1.0 : m[0]; break; }
        } count("operations"); } catch(const std::exception&){ count("operations refused"); }
        // A read of an empty matrix is out of contract
        for (auto& m : P) if (m.size() == 0){ m = SimpleMatrix<double>(dim3(2, 2, 1), 0.5); } for (auto& m : F) if (m.size() == 0) m = SimpleMatrix<float>(dim3(1, 2, 1), 0.5f); while (P.size() > 8) P.pop_front();
        for (auto& m : P) for (double& v : m) if (!(std::fabs(v) < 1e6)) v = 1; for (auto& m : F) for (float& v : m) if (!(std::fabs(v) < 1e6)) v = 1;
    }
    sig(h); sample(h);
    // every element of every survivor is initialised: branching on it tells memcheck
    for (auto& m : P){ CHECK(m.size() == (size_t)(m.dim().x * m.dim().y * m.dim().z), "pool-size", "size and shape disagree"); for (double v : m) if (v > 1e300) count("never"); } for (auto& m : F) for (float v : m) if (v > 1e30f) count("never");
}
// Newly sized storage: nothing that was not written may reach a result
SCENARIO("C08", c08_fresh, 3){
    clutter(R); Sh s = rndShape(R, 1, 6, 3); dim3 d0; dim2 d2; CHECK(d0.x == 0 && d0.y == 0 && d0.z == 0 && d2.x == 0 && d2.y == 0, "fresh-dim", "a new dimension is (" << d0.x << "," << d0.y << "," << d0.z << ")"); SimpleMatrix<double> none; CHECK(none.size() == 0 && none.dim().x == 0, "fresh-empty", "a new matrix has size " << none.size());
    SimpleMatrix<int> z(s.d()); for (int v : z) CHECK(v == 0, "fresh-zero", "an element of a new matrix is " << v); SimpleMatrix<double> m(s.d(), 2.5); Sh b{s.x + R.range(0, 3), s.y + R.range(0, 3), s.z + R.range(0, 2)}; m.resize(b.d()); double t = 0; for (double v : m) if (v > 1e9) t += v; (void)t; sig(s.str() + b.str());
    clutter(R); Kernel K(dim3(R.range(1, 3), R.range(1, 3), R.range(1, 2)), (unsigned)R.range(1, 3), 1); for (double v : K.weights) CHECK(std::isfinite(v) && std::fabs(v) < 1e3, "fresh-kernel", "a new filter holds " << v); for (double v : K.biases) CHECK(std::isfinite(v) && std::fabs(v) < 1e3, "fresh-kernel", "a new bias is " << v);
    ConnectedLayer C((unsigned)R.range(1, 6)); MatD y = C.propagateForward(toM(rndInput(R, s)), 0); for (double v : y) CHECK(std::isfinite(v) && std::fabs(v) < 1e4, "fresh-connected", "a new connected layer gives " << v); Softmax So((size_t)s.n()); MatD x = toM(rndInput(R, {s.n(), 1, 1})); y = So.propagateForward(std::move(x), 0); for (double v : y) CHECK(v >= 0 && v <= 1, "fresh-softmax", "a new softmax gives " << v);
    my_cnn::ModelResults<std::string> res; CHECK(!res.true_label && res.loss == -1.0f && res.layer_inputs.empty(), "fresh-result", "a new result is not empty"); count("operations", 6);
}
// Whole lives of models: built, used, copied, trained, saved, loaded, destroyed, with refusals in between
SCENARIO("C08", c08_model, 4){
    RNet N = rndNet(R, false, 4); auto M = std::make_unique<TModel>(); buildModel(*M, N); auto s = mkSamples(R, N, R.range(2, 8)); std::string f = scratchDir() + "/c08.model", h; unlink(f.c_str()); CoutCapture cc; sig(strOf(N.L)); sample(strOf(N.L));
    for (int k = 0, n = R.range(3, 9); k < n; k++){
        int op = R.range(0, 8); h += (char)('a' + op);
        try{ switch (op){
            case 0: { auto r = M->forwardPropagation(toM(s[0].x)); M->assignLoss(r, M->output_labels[0]); break; }
            case 1: { Source src(s, nullptr, 0, &M->output_labels); TModel::Hyperparameters hp; hp.learning_rate = 0.01; hp.batch_size = R.range(1, 9); hp.num_threads = R.range(1, 4); hp.num_epochs = R.range(1, 2); M->train(src, hp); break; }
            case 2: M->saveModel(f); break; case 3: { auto L = std::make_unique<TModel>(); if (L->loadModel(f)) M = std::move(L); break; }
            case 4: { TModel C = *M; C.forwardPropagation(toM(s[0].x)); break; }       // shares the layers
            case 5: { auto r = M->forwardPropagation(toM(s[0].x)); M->assignLoss(r, "no such label"); break; }
            case 6: M->forwardPropagation(SimpleMatrix<float>(dim3(N.in.x + 1, N.in.y, N.in.z + 1), 1.f)); break;
            case 7: { Source src(s, nullptr, 0, &M->output_labels); src.fail_at = R.range(0, (int)s.size() - 1); src.fail_kind = R.range(0, 4); TModel::Hyperparameters hp; hp.learning_rate = 0.01; hp.batch_size = R.range(1, 9); hp.num_threads = R.range(1, 4); try{ M->train(src, hp); } catch(const Source::PlainError&){ count("plain errors passed on"); } break; }
            case 8: { int bs = R.range(1, 4); for (auto& l : M->layers) l->setBatchSize(bs); std::vector<my_cnn::ModelResults<std::string>> rs; for (int e = 0; e < bs; e++) rs.push_back(M->forwardPropagation(toM(s[e % s.size()].x), e)); for (int e = 0; e < bs; e++) M->backwardsPropagation(rs[e], M->output_labels[0], e); for (auto& l : M->layers) l->applyBatch(0.01); break; }
        } count("operations"); } catch(const std::exception&){ count("operations refused"); }
    }
    unlink(f.c_str());
}
// Layers used in any order: before a batch is set up, after it shrank, with inputs they refuse, over loading
SCENARIO("C08", c08_layers, 4){
    Sh in{R.range(1, 6), R.range(1, 6), R.range(1, 3)}; RLayer l = rndLayer(R, in); if (R.chance(0.15)){ l.k = RLayer::SOFT; l.n = R.range(1, 6); in = {l.n, 1, 1}; } auto P = makeLayer(l); auto Q = makeLayer(l); int bs = -1; std::string h; sig(l.str()); sample(l.str()); double acc = 0; std::vector<std::pair<MatD, MatD>> seen;
    for (int k = 0, n = R.range(4, 24); k < n; k++){
        int op = R.range(0, 9); h += (char)('a' + op); size_t e = bs < 0 ? (size_t)R.range(0, 1) : R.chance(0.8) ? (size_t)R.range(0, std::max(0, bs - 1)) : (size_t)R.range(0, bs + 3); if (R.chance(0.01)) e = (size_t)-1;
        try{ switch (op){
            case 0: bs = R.range(0, 5); P->setBatchSize(bs); break;
            case 1: case 2: case 3: { MatD x = toM(rndInput(R, in)), k = x; MatD y = P->propagateForward(std::move(x), e); for (double v : y) acc += v; seen.emplace_back(std::move(k), std::move(y)); break; }
            case 4: case 5: { MatD x = seen.empty() ? toM(rndInput(R, in)) : seen[R.range(0, (int)seen.size() - 1)].first, y = seen.empty() ? toM(rndInput(R, outShape(l, in))) : seen[R.range(0, (int)seen.size() - 1)].second; MatD g = P->propagateBackward(x, y, toM(rndInput(R, outShape(l, in))), e, R.chance(0.3)); for (double v : g) acc += v; break; }
            case 6: P->applyBatch(0.01); break;
            case 7: { Sh t{R.range(0, 7), R.range(0, 7), R.range(0, 4)}; if (t == in || l.k == RLayer::POOL || l.k == RLayer::CONV || l.k == RLayer::ACT) break; MatD y = P->propagateForward(MatD(t.d(), 0.5), e); break; }     // a layer that accepts it is in contract with it
            case 8: { std::stringstream s; s << P->serialize(); if (R.chance(0.5)) P->deserialize(s); else { Q->deserialize(s); std::swap(P, Q); } break; }
            case 9: if (l.k == RLayer::SOFT){ auto* S = static_cast<Softmax*>(P.get()); S->assignTrueLabel((size_t)R.range(0, l.n), e); } else acc += P->checkSize(toM(rndInput(R, in))); break;
        } count("operations"); } catch(const std::exception&){ count("operations refused"); }
        for (double v : P->weights) if (v > 1e300) count("never"); for (double v : P->biases) if (v > 1e300) count("never");
    }
    if (acc > 1e300) count("never");
}
