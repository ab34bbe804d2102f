// C07: ill-shaped requests are refused with a typed error and without effect
// VT_PARTS 4
#include "refnet.h"
using namespace vt;
using my_cnn::MatrixSizeException; using my_cnn::MatrixTransformException; using my_cnn::ModelLayerException;

#if VT_PART < 3
#if VT_PART == 0
typedef double TA; typedef double TB;
#elif VT_PART == 1
typedef int TA; typedef float TB;
#else
typedef unsigned char TA; typedef int TB;
#endif
// A shape that differs from s: one extent changed, extents exchanged, or an unrelated shape
static Sh otherShape(Rng& R, const Sh& s){
    for (;;){
        Sh o = s;
        switch (R.range(0, 5)){
            case 0: o.x += R.range(1, 2); break; case 1: o.y += R.range(1, 2); break; case 2: o.z += R.range(1, 2); break;
            case 3: std::swap(o.x, o.y); break; case 4: std::swap(o.y, o.z); break; default: o = rndShape(R, 1, 5, 3); if (R.chance(0.1)) o.z = 0;
        }
        if (o != s) return o;
    }
}
template<class E, class M1, class M2, class F> static void refused(const char* what, const std::string& ctx, const M1& a, const Ref<TA>& ra, const M2& b, const Ref<TB>& rb, F f){
    int o = outcome<E>(f);
    CHECK(o == 1, std::string("refusal-") + what, what << " of " << ctx << " is " << outcomeName(o)); count("refusals");
    std::string d = diff(a, ra); CHECK(d.empty(), std::string("left-operand-changed-") + what, d << " after refused " << what << " of " << ctx);
    d = diff(b, rb); CHECK(d.empty(), std::string("right-operand-changed-") + what, d << " after refused " << what << " of " << ctx);
}
SCENARIO("C07", VT_CAT(c07_elementwise, VT_PART), 4){
    Sh s = rndShape(R, 1, 5, 3), t = otherShape(R, s); Ref<TA> ra = rndRef<TA>(R, s); Ref<TB> rb = rndRef<TB>(R, t); for (auto& v : rb.v) if (v == 0) v = 1;
    std::string ctx = s.str() + " and " + t.str(); sig(ctx); sample(ctx);
    SimpleMatrix<TA> A = toM(ra); SimpleMatrix<TB> B = toM(rb);
    // The right operand as a view into a bigger matrix or as an expression is refused just the same
    SimpleMatrix<TB> big(dim3(t.x + 2, t.y + 2, t.z + 1)); auto V = big.subMatView(dim3(1, 2, 1), t.d()); V = B; auto X = B * TB(1);
#define EW(op, nm) refused<MatrixSizeException>(nm, ctx, A, ra, B, rb, [&]{ auto e = A op B; SimpleMatrix<TA> r = e; }); \
    refused<MatrixSizeException>(nm, ctx + " (reversed)", A, ra, B, rb, [&]{ auto e = B op A; SimpleMatrix<TB> r = e; }); \
    refused<MatrixSizeException>(nm, ctx + " (view)", A, ra, V, rb, [&]{ auto e = A op V; SimpleMatrix<TA> r = e; }); \
    refused<MatrixSizeException>(nm, ctx + " (expression)", A, ra, X, rb, [&]{ auto e = A op X; SimpleMatrix<TA> r = e; });
    switch (R.range(0, 4)){
        case 0: EW(+, "+") EW(-, "-") break; case 1: EW(*, "*") EW(/, "/") break; case 2: EW(<, "<") EW(<=, "<=") break; case 3: EW(>, ">") EW(>=, ">=") break; default: EW(==, "==") EW(!=, "!=")
    }
#undef EW
#define CU(op, nm) refused<MatrixSizeException>(nm, ctx, A, ra, B, rb, [&]{ A op B; }); refused<MatrixSizeException>(nm, ctx + " (view)", A, ra, V, rb, [&]{ A op V; }); \
    refused<MatrixSizeException>(nm, ctx + " (expression)", A, ra, X, rb, [&]{ A op X; }); refused<MatrixSizeException>(nm, ctx + " (view updated)", A, ra, V, rb, [&]{ V op A; }); refused<MatrixSizeException>(nm, ctx + " (temporary)", A, ra, B, rb, [&]{ A op (B + B); });
    switch (R.range(0, 3)){ case 0: CU(+=, "+=") break; case 1: CU(-=, "-=") break; case 2: CU(*=, "*=") break; default: CU(/=, "/=") }
#undef CU
    // Still usable
    Ref<TA> rc = rndRef<TA>(R, s); SimpleMatrix<TA> C = toM(rc); SimpleMatrix<TA> sum = A + C; Ref<TA> rs(s); for (size_t i = 0; i < rs.v.size(); i++) rs.v[i] = (TA)(ra.v[i] + rc.v[i]);
    std::string d = diff(sum, rs); CHECK(d.empty(), "usable", d << " after refusals");
}
SCENARIO("C07", VT_CAT(c07_algebra, VT_PART), 3){
    Sh s = rndShape(R, 1, 5, 3), t = rndShape(R, 1, 5, 3); Ref<TA> ra = rndRef<TA>(R, s); Ref<TB> rb = rndRef<TB>(R, t); SimpleMatrix<TA> A = toM(ra); SimpleMatrix<TB> B = toM(rb); std::string ctx = s.str() + " and " + t.str(); sig(ctx); sample(ctx);
    SimpleMatrix<TB> big(dim3(t.x + 2, t.y + 2, t.z + 1)); auto V = big.subMatView(dim3(1, 2, 1), t.d()); V = B;
    bool mm = s.y == t.x && s.z == t.z;
    if (!mm){ refused<MatrixSizeException>("product", ctx, A, ra, B, rb, [&]{ auto e = matrixMultiply(A, B); SimpleMatrix<TA> r = e; }); refused<MatrixSizeException>("product", ctx + " (view)", A, ra, V, rb, [&]{ SimpleMatrix<TA> r = matrixMultiply(A, V); }); }
    else { int o = outcome<MatrixSizeException>([&]{ SimpleMatrix<TA> r = matrixMultiply(A, B); }); CHECK(o == 0, "product-accept", "conforming product of " << ctx << " is " << outcomeName(o)); count("accepted"); }
    bool va = s.z == 1 && (s.x == 1 || s.y == 1), vb = t.z == 1 && (t.x == 1 || t.y == 1), dt = va && vb && s.n() == t.n();
    if (!dt){ refused<MatrixSizeException>("dot", ctx, A, ra, B, rb, [&]{ (void)dot(A, B); }); refused<MatrixSizeException>("dot", ctx + " (view)", A, ra, V, rb, [&]{ (void)dot(A, V); }); }
    else { int o = outcome<MatrixSizeException>([&]{ (void)dot(A, B); }); CHECK(o == 0, "dot-accept", "conforming dot product of " << ctx << " is " << outcomeName(o)); count("accepted"); }
    if (s.x != s.y){
        refused<MatrixTransformException>("quarter turn", ctx, A, ra, B, rb, [&]{ SimpleMatrix<TA> r = my_cnn::rotate<1>(A); });
        refused<MatrixTransformException>("three quarter turn", ctx, A, ra, B, rb, [&]{ SimpleMatrix<TA> r = my_cnn::rotate<3>(A); });
    }else{ int o = outcome<MatrixTransformException>([&]{ SimpleMatrix<TA> r = my_cnn::rotate<1>(A), q = my_cnn::rotate<3>(A); }); CHECK(o == 0, "rotate-accept", "quarter turn of " << s << " is " << outcomeName(o)); count("accepted"); }
    { Sh f{s.x, s.y, 1}, g{t.x, t.y, 1}; SimpleMatrix<TA> fa = A.slice(0); SimpleMatrix<TB> fb = B.slice(0); dim2 st(R.range(1, 3), R.range(1, 3)); Ref<TA> r1 = toRef(fa); Ref<TB> r2 = toRef(fb);
      if (f.x < g.x || f.y < g.y) refused<MatrixSizeException>("convolution", f.str() + " with " + g.str(), fa, r1, fb, r2, [&]{ SimpleMatrix<TA> r = convolve(fa, fb, st); });
      else { int o = outcome<MatrixSizeException>([&]{ SimpleMatrix<TA> r = convolve(fa, fb, st); }); CHECK(o == 0, "convolve-accept", "convolution of " << f << " with " << g << " is " << outcomeName(o)); count("accepted"); } }
}
SCENARIO("C07", VT_CAT(c07_fill, VT_PART), 3){
    Sh s = rndShape(R, 1, 5, 3); if (R.chance(0.2)) switch (R.range(0, 4)){ case 0: s.x = 0; break; case 1: s.y = 0; break; case 2: s.z = 0; break; case 3: s.x = s.y = 0; break; default: s = {0, 0, 0}; } Ref<TA> ra = rndRef<TA>(R, s); SimpleMatrix<TA> A = toM(ra); Ref<TB> rb = rndRef<TB>(R, {1, 1, 1}); SimpleMatrix<TB> B = toM(rb); sig(s.str()); sample(s.str());
    for (int rep = 0; rep < 4; rep++){
        int n = R.chance(0.5) ? s.n() + (R.chance(0.5) ? 1 : -1) : R.range(0, 2 * s.n() + 2); if (n < 0 || n == s.n()) n = s.n() + 1; std::vector<TA> v(n, TA(3)); std::string ctx = s.str() + " and " + std::to_string(n) + " values";
        refused<MatrixSizeException>("list assignment", ctx, A, ra, B, rb, [&]{ A = std::vector<TA>(v); });
        refused<MatrixSizeException>("list filling", ctx, A, ra, B, rb, [&]{ A.setEntries(std::vector<TA>(v)); });
        refused<MatrixSizeException>("list construction", ctx, A, ra, B, rb, [&]{ SimpleMatrix<TA> M(s.d(), std::vector<TA>(v)); });
        Sh t = rndShape(R, 1, 6, 4); if (R.chance(0.15)) t.z = 0; if (R.chance(0.1)){ t.x = -t.x; t.y = -t.y; } if (R.chance(0.05)) t = {65536, 65536, R.range(0, 1)};
        bool ok = t.x >= 0 && (int64_t)t.x * t.y * t.z == s.n(); ctx = s.str() + " to " + t.str();
        if (!ok) refused<MatrixTransformException>("reshape", ctx, A, ra, B, rb, [&]{ if (R.chance(0.5)) A.reshape(t.x, t.y, t.z); else A.reshape(t.d()); });
        // A view only takes its own shape
        if (s.n() == 0) continue; Sh p{R.range(0, s.x - 1), R.range(0, s.y - 1), R.range(0, s.z - 1)}; Sh q{R.range(1, s.x - p.x), R.range(1, s.y - p.y), R.range(1, s.z - p.z)}; Sh w = otherShape(R, q); Ref<TB> rw = rndRef<TB>(R, w); SimpleMatrix<TB> W = toM(rw); auto V = A.subMatView(p.d(), q.d());
        refused<MatrixSizeException>("view assignment", q.str() + " from " + w.str(), A, ra, W, rw, [&]{ V = W; });
        refused<MatrixSizeException>("view assignment", q.str() + " from expression of " + w.str(), A, ra, W, rw, [&]{ V = W + W; });
        Sh out = q; switch (R.range(0, 2)){ case 0: out.x = s.x - p.x + R.range(1, 3); break; case 1: out.y = s.y - p.y + R.range(1, 3); break; default: out.z = s.z - p.z + R.range(1, 3); }
        refused<MatrixSizeException>("view", out.str() + " at " + p.str() + " of " + s.str(), A, ra, W, rw, [&]{ auto v = A.subMatView(p.d(), out.d()); });
        refused<MatrixSizeException>("copy", out.str() + " at " + p.str() + " of " + s.str(), A, ra, W, rw, [&]{ auto v = A.subMatCopy(p.d(), out.d()); });
        refused<MatrixSizeException>("slice", std::to_string(s.z) + " of " + s.str(), A, ra, W, rw, [&]{ if (R.chance(0.5)) A.slice(s.z + R.range(0, 2)); else A.slices(R.range(0, s.z - 1), s.z + 1); });
        refused<std::out_of_range>("checked access", "view " + q.str(), A, ra, W, rw, [&]{ dim3 i(0, 0, 0); int ax = R.range(0, 2); i.data[ax] = R.chance(0.5) ? -R.range(1, 3) : (&q.x)[ax] + R.range(0, 3); V.at(i); });
    }
    A = std::vector<TA>(s.n(), TA(2)); CHECK(A.size() == (size_t)s.n() && (s.n() == 0 || A[0] == TA(2)), "usable", "filling after refusals");
}
#else
// Layers: wrong inputs, interleaved with good ones and with an unfinished batch
SCENARIO("C07", c07_layers, 8){
    Sh in{R.far(2, 7, 20), R.far(2, 7, 20), R.far(1, 3, 12)}; RLayer l; std::vector<Sh> bad; auto vary = [&](Sh t){ bad.push_back(t); };
    switch (R.range(0, 3)){
        case 0: l.k = RLayer::CONV; l.f = {R.range(1, in.x), R.range(1, in.y), in.z}; l.nf = R.range(1, 3); l.stride = R.range(1, 3);
            vary({in.x, in.y, in.z + 1}); if (in.z > 1) vary({in.x, in.y, in.z - 1}); vary({in.x, in.y, 0}); vary({l.f.x - 1, in.y, in.z}); vary({in.x, l.f.y - 1, in.z}); vary({l.f.x - 1, l.f.y - 1, in.z}); vary({0, 0, 0}); vary({in.x, in.y, in.z * 2}); break;
        case 1: l.k = RLayer::POOL; l.px = R.range(1, in.x); l.py = R.range(1, in.y); l.sx = R.range(1, 3); l.sy = R.range(1, 3); l.pt = (my_cnn::PoolingType)R.range(0, 2);
            vary({l.px - 1, in.y, in.z}); vary({in.x, l.py - 1, in.z}); vary({0, 0, in.z}); break;
        case 2: l.k = RLayer::FC; l.n = R.range(1, 5); vary({in.x + 1, in.y, in.z}); vary({in.x - 1, in.y, in.z}); vary({in.x, in.y, in.z + 1}); vary({in.n() + 1, 1, 1}); vary({1, in.n() - 1, 1}); vary({0, 1, 1}); break;
        default: l.k = RLayer::SOFT; l.n = R.far(2, 6, 300); in = R.chance(0.5) ? Sh{l.n, 1, 1} : Sh{1, l.n, 1}; vary({l.n + 1, 1, 1}); vary({l.n - 1, 1, 1}); vary({1, l.n + 1, 1}); vary({l.n, 2, 1}); vary({l.n, 1, 2}); vary({1, 1, l.n}); if (l.n % 2 == 0 && l.n > 2) vary({2, l.n / 2, 1}); vary({0, 1, 1}); break;
    }
    fillParams(R, l, in); auto P = makeLayer(l); setParams(*P, l, in); if (l.k != RLayer::SOFT && R.chance(0.4)){ auto Q = makeLayer(l); std::istringstream text(P->serialize()); CHECK(Q->deserialize(text), "restore", "cannot restore " << l.str()); P = Q; if (l.has_params) readParams(l, *P); } const int bs = R.far(1, 3, 70); P->setBatchSize(bs); std::string ctx = l.str() + " for " + in.str(); sig(ctx); sample(ctx);
    Softmax* S = l.k == RLayer::SOFT ? static_cast<Softmax*>(P.get()) : nullptr;
    std::vector<RefD> gw(bs), gb(bs), X(bs); std::vector<MatD> Y(bs); std::vector<bool> have(bs); std::vector<int> label(bs, -1);
    for (int st = 0, steps = R.range(4, 14); st < steps; st++){
        int e = R.range(0, bs - 1);
        if (R.chance(0.5)){
            Sh t = R.pick(bad); MatD m(t.d(), 0.25); int o = outcome<ModelLayerException>([&]{ P->propagateForward(MatD(m), e); });
            CHECK(o == 1, "layer-refusal", "input of " << t << " is " << outcomeName(o) << " by " << ctx); count("refusals");
            CHECK(!P->checkSize(m), "layer-checkSize", "checkSize accepts " << t << " for " << ctx);
            if (S){ int o2 = outcome<std::out_of_range>([&]{ S->assignTrueLabel(R.chance(0.5) ? l.n : R.chance(0.5) ? l.n + R.range(1, 9) : (size_t)-1, e); }); CHECK(o2 == 1, "label-refusal", "label past the end is " << outcomeName(o2)); count("refusals"); }
            // There is no such entry in the batch
            { size_t past = R.chance(0.7) ? (size_t)bs + R.range(0, 2) : R.chance(0.5) ? (size_t)bs * 1000 + 7 : (size_t)-1; RefD x = rndInput(R, in); MatD y = toM(forward(l, x)), g(y.dim(), 1.0); int o3 = outcome<std::out_of_range>([&]{ P->propagateBackward(toM(x), y, g, past, R.chance(0.5)); });
              CHECK(o3 == 1, "entry-refusal", "backward pass for entry " << past << " of a batch of " << bs << " is " << outcomeName(o3) << " by " << ctx); count("refusals");
              if (S){ o3 = outcome<std::out_of_range>([&]{ S->assignTrueLabel(0, past); }); CHECK(o3 == 1, "entry-refusal", "label for entry " << past << " of a batch of " << bs << " is " << outcomeName(o3)); }
              if (l.k == RLayer::POOL){ o3 = outcome<std::out_of_range>([&]{ P->propagateForward(toM(x), past); }); CHECK(o3 == 1, "entry-refusal", "forward pass for entry " << past << " of a batch of " << bs << " is " << outcomeName(o3) << " by " << ctx); } }
            std::string d = l.has_params ? diffTol(P->weights, l.w, 0, 0) + diffTol(P->biases, l.b, 0, 0) : ""; CHECK(d.empty(), "layer-parameters", d << " after a refused input to " << ctx);
        }else if (R.chance(0.6)){
            X[e] = rndInput(R, in); Y[e] = P->propagateForward(toM(X[e]), e); have[e] = true; std::string d = diffTol(Y[e], forward(l, X[e]), 1e-9, 1e-9); CHECK(d.empty(), "layer-forward", d << " among refusals by " << ctx); count("accepted");
        }else if (have[e] && gw[e].v.empty()){
            // The state of the latest accepted pass is still the one used
            if (S){ if (label[e] < 0 || R.chance(0.5)){ label[e] = R.range(0, l.n - 1); S->assignTrueLabel(label[e], e); } MatD g = P->propagateBackward(toM(X[e]), Y[e], MatD(), e, false); for (int i = 0; i < l.n; i++) CHECK(near(g[i], Y[e][i] - (i == label[e]), 1e-12, 1e-14), "layer-backward", "softmax gradient among refusals"); continue; }
            RefD g = rndInput(R, outShape(l, in)); RefD tw(l.w.s), tb(l.b.s); RefD gi = backward(l, X[e], g, &tw, &tb); MatD G = P->propagateBackward(toM(X[e]), Y[e], toM(g), e, false);
            std::string d = diffTol(G, gi, 1e-9, 1e-9); CHECK(d.empty(), "layer-backward", d << " among refusals by " << ctx); count("accepted");
            if (l.has_params){ gw[e] = tw; gb[e] = tb; }
        }
    }
    // A batch update applies the gradients of the accepted passes only
    if (!l.has_params) return; int filled = 0; RefD w = l.w, b = l.b; for (auto& g : gw) filled += !g.v.empty(); P->applyBatch(0.5);
    for (int e = 0; e < bs; e++){ if (gw[e].v.empty()) continue; for (size_t i = 0; i < w.v.size(); i++) w.v[i] -= 0.5 * gw[e].v[i] / filled; for (size_t i = 0; i < b.v.size(); i++) b.v[i] -= 0.5 * gb[e].v[i] / filled; }
    std::string d = diffTol(P->weights, w, 1e-9, 1e-9) + diffTol(P->biases, b, 1e-9, 1e-9); CHECK(d.empty(), "layer-batch", d << " when applying a batch with refused inputs to " << ctx);
}
// Whole models: wrong inputs and labels, in between good ones
SCENARIO("C07", c07_model, 4){
    RNet N = rndNet(R, false, 3); my_cnn::ModelDescription<float, std::string> M; buildModel(M, N); Sh in = N.in; sig(strOf(N.L) + in.str()); sample(strOf(N.L) + " on " + in.str()); const int labels = N.L.back().n;
    for (auto& l : M.layers) l->setBatchSize(2);
    auto same = [&]{ std::string d; for (size_t i = 0; i < N.L.size(); i++) if (N.L[i].has_params) d += diffTol(M.layers[i]->weights, N.L[i].w, 0, 0) + diffTol(M.layers[i]->biases, N.L[i].b, 0, 0); return d; };
    RefD x = rndInputF(R, in); Ref<float> xf(in); for (size_t i = 0; i < xf.v.size(); i++) xf.v[i] = x.v[i]; auto first = M.forwardPropagation(toM(xf), 0);
    for (int q = 0; q < 6; q++){
        // First layer decides which inputs cannot be taken
        Sh t = in; const RLayer& f = N.L[0]; bool sure = false;
        if (f.k == RLayer::CONV){ if (R.chance(0.5)) t.z += 1; else t.x = f.f.x - 1; sure = true; } else if (f.k == RLayer::POOL){ t.y = f.py - 1; sure = true; } else if (f.k == RLayer::FC){ t.x += 1; sure = true; } else if (f.k == RLayer::SOFT){ t.x += 1; sure = true; }
        if (sure){ int o = outcome<ModelLayerException>([&]{ M.forwardPropagation(SimpleMatrix<float>(t.d(), 0.5f), R.range(0, 1)); }); CHECK(o == 1, "model-input", "input of " << t << " is " << outcomeName(o) << " by " << strOf(N.L)); count("refusals"); }
        auto r = M.forwardPropagation(toM(xf), R.range(0, 1));
        CHECK(toRef(r.layer_inputs.back()).v == toRef(first.layer_inputs.back()).v && r.label_idx == first.label_idx, "model-repeat", "inference differs after a refusal"); count("accepted");
        std::string bad = R.chance(0.3) ? "" : R.chance(0.5) ? "C0" : "c" + std::to_string(labels + R.range(0, 3)); auto keep = r;
        int o = outcome<std::out_of_range>([&]{ M.assignLoss(r, bad); }); CHECK(o == 1, "unknown-label", "label \"" << bad << "\" is " << outcomeName(o) << " by assignLoss"); count("refusals");
        CHECK(r.loss == keep.loss && r.true_label == keep.true_label && r.label_idx == keep.label_idx && (!keep.true_label || r.true_label_idx == keep.true_label_idx) && r.confidence == keep.confidence && r.layer_inputs.size() == keep.layer_inputs.size(), "unknown-label-effect", "assignLoss changed the result it refused");
        o = outcome<std::out_of_range>([&]{ M.backwardsPropagation(r, bad, 0); }); CHECK(o == 1, "unknown-label-backward", "label \"" << bad << "\" is " << outcomeName(o) << " by backwardsPropagation"); count("refusals");
        // Neither leaves anything behind that a batch update would apply
        if (R.chance(0.5)) for (auto& l : M.layers) l->applyBatch(1.0);
        std::string d = same(); CHECK(d.empty(), "model-parameters", d << " after refused requests to " << strOf(N.L));
    }
}
#endif
