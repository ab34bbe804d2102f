// C10: inputs with more rows or columns than single precision can count
#include "refnet.h"
using namespace vt;

SCENARIO("C10", c10_long, 1){
    const bool tall = R.chance(0.5); const int n = (1 << 24) + R.range(1, 4000), p = R.range(1, 3), st = R.range(1, 3); static const my_cnn::PoolingType T[3] = {my_cnn::MAX, my_cnn::MIN, my_cnn::AVG}; const int t = R.range(0, 2); Pooling P(tall ? dim2(p, 1) : dim2(1, p), tall ? dim2(st, 1) : dim2(1, st), T[t]);
    std::string ctx = std::to_string(p) + " wide windows, stride " + std::to_string(st) + ", on " + std::to_string(n) + (tall ? " rows" : " columns"); sig(ctx); sample(ctx);
    try{
        MatD X(tall ? dim3(n, 1, 1) : dim3(1, n, 1)); for (int i = 0; i < n; i++) X[i] = (i * 7919L % 100003) * 0.5 - 20000; const int o = (n - p) / st + 1; MatD x0 = X; MatD Y = P.propagateForward(std::move(x0));
        CHECK(Y.size() == (size_t)o && (tall ? Y.dim().x : Y.dim().y) == o, "forward", Y.size() << " outputs instead of " << o << " for " << ctx);
        MatD G(Y.dim(), 1.0); MatD B = P.propagateBackward(X, Y, G, 0, false); CHECK(B.dim() == X.dim(), "backward", "the gradient has another shape for " << ctx); double total = 0; for (int i = 0; i < n; i++) total += B[i]; CHECK(std::fabs(total - o) < 1e-3, "conservation", "total gradient " << o << " became " << total << " for " << ctx);
        for (int q = 0; q < 20000; q++){ int w = q < 5000 ? o - 1 - q : R.range(0, o - 1); double want = X[w * st]; double s = 0; for (int k = 0; k < p; k++){ double v = X[w * st + k]; s += v; want = t == 0 ? std::max(want, v) : t == 1 ? std::min(want, v) : want; } if (t == 2) want = s / p; CHECK(near(Y[w], want, 1e-12, 1e-9), "forward", "output " << w << " is " << Y[w] << " instead of " << want << " for " << ctx); count("windows of long inputs"); }
    }catch(const std::bad_alloc&){ count("not enough memory for a long input"); }
}
