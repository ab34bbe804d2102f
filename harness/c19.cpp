// C19: matrices and layers survive writing and reading back
#include "refnet.h"
#include <iostream>
#include <iomanip>
using namespace vt;

template<class T> static T wideVal(Rng& R, int mode){
    if constexpr (std::is_floating_point_v<T>){
        switch (mode){
            case 0: return (T)R.uni(-4, 4);
            case 1: return (T)(R.uni(-1, 1) * std::pow(10.0, R.range(-9, 9)));
            case 2: { double lim = std::is_same_v<T, float> ? 37 : 300; return (T)(R.uni(-1, 1) * std::pow(10.0, R.uni(-lim, lim))); }
            case 3: return (T)(R.range(-4000000, 4000000) / 2e6);             // exactly between two written decimals
            case 4: { static const double v[] = {0.0, -0.0, 1, -1, 0.0000005, -0.0000005, 999999.9999995, 9.9999996, 1e-7, 123456789.125}; return (T)v[R.range(0, 9)]; }
            default: return R.chance(0.5) ? std::numeric_limits<T>::max() : (T)R.uni(-1e6, 1e6);
        }
    }else{
        if (mode & 1) return R.chance(0.5) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
        return (T)R.u64();
    }
}
template<class T> static bool closeEnough(T a, T b){
    if constexpr (std::is_floating_point_v<T>) return std::fabs((long double)a - (long double)b) <= 5.001e-7L + std::numeric_limits<T>::epsilon() * std::fabs((long double)b);
    else return a == b;
}
template<class T> static std::string diffWritten(const SimpleMatrix<T>& m, const Ref<T>& r){
    std::ostringstream o; o.precision(17);
    if (shOf(m.dim()) != r.s){ o << "shape " << shOf(m.dim()) << " instead of " << r.s; return o.str(); }
    std::string res; each(r.s, [&](int i, int j, int k){ if (res.empty() && !closeEnough<T>(m(i, j, k), r.at(i, j, k))){ o << "element (" << i << "," << j << "," << k << ") is " << +m(i, j, k) << " instead of " << +r.at(i, j, k); res = o.str(); } });
    return res;
}
template<class T> static void matrixCase(Rng& R){
    int n = R.range(1, 3); std::stringstream s; std::vector<Ref<T>> refs; std::vector<SimpleMatrix<T>> src; std::string desc = tname<T>();
    for (int i = 0; i < n; i++){
        Sh sh = !underValgrind() && R.chance(0.001) ? hugeShape(R) : rndShape(R, R.chance(0.25) ? 0 : 1, 7, 4); int mode = R.range(0, 5); Ref<T> r(sh); for (auto& v : r.v) v = wideVal<T>(R, mode);
        refs.push_back(r); src.push_back(toM(r)); src.back().serialize(s); s << "after " << i << "\n"; desc += " " + sh.str() + "/" + std::to_string(mode);
    }
    sig(desc); sample(desc); std::istringstream in(s.str());
    for (int i = 0; i < n; i++){
        CHECK(diff(src[i], refs[i]).empty(), "matrix-changed", "writing changed the matrix " << desc);
        SimpleMatrix<T> m; if (R.chance(0.5)) m = toM(rndRef<T>(R, rndShape(R)));          // whatever was in it before
        CHECK(m.deserialize(in), "matrix-read", "could not read back matrix " << i << " of " << desc << " from:\n" << s.str());
        std::string d = diffWritten(m, refs[i]); CHECK(d.empty(), "matrix-content", d << " in matrix " << i << " of " << desc);
        CHECK(m.size() == (size_t)refs[i].s.n(), "matrix-size", "size " << m.size() << " of " << refs[i].s);
        std::string line; std::getline(in, line); CHECK(line == "after " + std::to_string(i), "stream-position", "the stream goes on with '" << line << "' after matrix " << i << " of " << desc);
        std::ostringstream a, b; src[i].serialize(a); m.serialize(b); CHECK(a.str() == b.str(), "matrix-rewrite", "writing again gives\n" << b.str() << "instead of\n" << a.str());
        count("matrices restored"); count("numbers restored", refs[i].s.n());
    }
}
SCENARIO("C19", c19_matrix_double, 4){ matrixCase<double>(R); }
SCENARIO("C19", c19_matrix_float, 4){ matrixCase<float>(R); }
SCENARIO("C19", c19_matrix_int, 2){ matrixCase<int>(R); }
SCENARIO("C19", c19_matrix_uchar, 2){ matrixCase<unsigned char>(R); }
SCENARIO("C19", c19_matrix_short, 1){ matrixCase<short>(R); }

// What is written reads back however the stream was set up, and the set-up is left as it was
SCENARIO("C19", c19_formatted_stream, 2){
    std::ostringstream o;
    std::vector<std::ios_base::fmtflags> fl{std::ios::scientific, std::ios::fixed, std::ios::hex, std::ios::oct | std::ios::showbase, std::ios::showpos, std::ios::left, std::ios::internal, std::ios::showpoint, std::ios::uppercase, std::ios::scientific | std::ios::fixed, std::ios::unitbuf};
    std::string desc; if (R.chance(0.7)){ int k = R.range(0, (int)fl.size() - 1); if (fl[k] & std::ios::basefield) o.setf(fl[k], std::ios::basefield | fl[k]); else if (fl[k] & std::ios::floatfield) o.setf(fl[k], std::ios::floatfield); else if (fl[k] & std::ios::adjustfield) o.setf(fl[k], std::ios::adjustfield); else o.setf(fl[k]); desc += " flags " + std::to_string((int)o.flags()); }
    if (R.chance(0.5)){ o.precision(R.range(0, 17)); desc += " precision " + std::to_string((int)o.precision()); } if (R.chance(0.4)){ o.fill(R.pick(std::vector<char>{'0', '*', '-', '1'})); desc += std::string(" fill ") + o.fill(); }
    auto f = o.flags(); auto p = o.precision(); char c = o.fill(); sig(desc); sample(desc);
    auto go = [&](auto tag){ using T = decltype(tag); Ref<T> r = rndRef<T>(R, rndShape(R, 0, 5, 3)); toM(r).serialize(o);
        CHECK(o.flags() == f && o.precision() == p && o.fill() == c, "stream-state", "the formatting of a stream with" << desc << " is changed by writing a matrix");
        std::istringstream in(o.str()); SimpleMatrix<T> m; CHECK(m.deserialize(in), "stream-format", "could not read back what was written to a stream with" << desc << ":\n" << o.str());
        std::string d = diffWritten(m, r); CHECK(d.empty(), "stream-format", d << " in a matrix written to a stream with" << desc << ":\n" << o.str()); count("formatted streams"); };
    int form = R.range(0, 2); if (form == 0) go(0.0); else if (form == 1) go(0.0f); else go(0);
}
// Writing must not disturb what else is written to the same stream
SCENARIO("C19", c19_stream, 1){
    std::ostringstream o; o << 0.5 << " "; std::string before = o.str(); MatD m = toM(rndRef<double>(R, rndShape(R))); std::ostringstream only; m.serialize(only); m.serialize(o); o << 0.25 << "\n";
    CHECK(o.str() == before + only.str() + "0.25\n", "stream-other", "text around a written matrix: " << o.str()); sig(std::to_string(m.dim().x) + "x" + std::to_string(m.dim().y));
}

static RLayer anyLayer(Rng& R, Sh& in){
    in = {R.far(1, 9, 16), R.far(1, 9, 16), R.far(1, 3, 9)}; RLayer l = rndLayer(R, in); if (l.k == RLayer::CONV) l.stride = R.far(1, 4, 300); if (l.k == RLayer::POOL){ l.sx = R.far(1, 12, 300); l.sy = R.far(1, 12, 300); }
    if (R.chance(0.1)){ l = RLayer(); l.k = RLayer::SOFT; l.n = R.far(1, 8, 300); in = {l.n, 1, 1}; }
    return l;
}
// A layer of the same kind but another configuration, to read into
static std::shared_ptr<ModelLayer> otherLayer(Rng& R, const RLayer& l){
    RLayer o = l; o.has_params = false;
    switch (l.k){ case RLayer::CONV: o.f = {R.range(1, 3), R.range(1, 3), R.range(1, 3)}; o.nf = R.range(1, 3); o.stride = R.range(1, 3); break; case RLayer::POOL: o.px = R.range(1, 3); o.py = R.range(1, 3); o.sx = R.range(1, 3); o.sy = R.range(1, 3); o.pt = rndPool(R); break; case RLayer::FC: o.n = R.range(1, 9); break; case RLayer::ACT: o.act = rndAct(R); break; default: break; }
    auto p = makeLayer(o);
    if (R.chance(0.5) && l.k != RLayer::SOFT){ Sh s{R.range(4, 6), R.range(4, 6), l.k == RLayer::CONV ? o.f.z : R.range(1, 2)}; p->propagateForward(toM(rndInput(R, s)), 0); }
    return p;
}
static std::string writtenParams(const MatD& got, const MatD& was){ return diffWritten(got, toRef(was)); }
SCENARIO("C19", c19_layer, 12){
    Sh in; RLayer l = anyLayer(R, in); double scale = R.chance(0.3) ? std::pow(10.0, R.range(-7, 6)) : 1; fillParams(R, l, in, scale); auto P = makeLayer(l); setParams(*P, l, in);
    std::string text = P->serialize(), ctx = l.str() + " on " + in.str(); sig(ctx); sample(ctx);
    auto Q = otherLayer(R, l); std::istringstream s(text + "sentinel 7\n");
    CHECK(Q->deserialize(s), "layer-read", "could not read back " << ctx << " from\n" << text);
    std::string rest; std::getline(s, rest); CHECK(rest == "sentinel 7", "layer-stream-position", "the stream goes on with '" << rest << "' after " << ctx);
    CHECK(Q->serialize() == text, "layer-rewrite", "writing the restored " << ctx << " again gives\n" << Q->serialize() << "instead of\n" << text);
    CHECK(Q->getType() == P->getType(), "layer-type", "kind of the restored " << ctx); CHECK(P->serialize() == text, "layer-changed", "reading another layer changed " << ctx);
    RLayer q = l;
    if (l.has_params){ std::string d = writtenParams(Q->weights, P->weights); CHECK(d.empty(), "layer-weights", d << " in the weights of " << ctx); d = writtenParams(Q->biases, P->biases); CHECK(d.empty(), "layer-biases", d << " in the biases of " << ctx); readParams(q, *Q); }
    double sc = std::max(1.0, std::max(maxAbs(q.w), maxAbs(q.b))); Q->setBatchSize(1);
    for (int i = 0; i < 2; i++){
        RefD x = rndInput(R, in, 2); MatD X = toM(x), Y = Q->propagateForward(MatD(X), 0); std::string d = diffTol(Y, forward(q, x), 1e-7, 2e-7 * sc); CHECK(d.empty(), "layer-forward", d << " in the output of the restored " << ctx);
        count("restored layer passes");
        if (l.k == RLayer::SOFT) continue;
        RefD g = rndInput(R, outShape(l, in)), tw(q.w.s), tb(q.b.s), gi = backward(q, x, g, &tw, &tb, 0, 0); d = diffTol(Q->propagateBackward(X, Y, toM(g), 0, false), gi, 1e-7, 2e-7 * sc); CHECK(d.empty(), "layer-backward", d << " in the gradient of the restored " << ctx);
        if (l.has_params){ Q->applyBatch(0.5); for (size_t k = 0; k < q.w.v.size(); k++) q.w.v[k] -= 0.5 * tw.v[k]; for (size_t k = 0; k < q.b.v.size(); k++) q.b.v[k] -= 0.5 * tb.v[k]; d = diffTol(Q->weights, q.w, 1e-9, 1e-9 * sc); CHECK(d.empty(), "layer-update", d << " after an update of the restored " << ctx); d = diffTol(Q->biases, q.b, 1e-9, 1e-9 * sc); CHECK(d.empty(), "layer-update", d << " after an update of the restored " << ctx); }
    }
    count("layers restored");
}
// Connected layers that have not seen an input yet
SCENARIO("C19", c19_fresh, 2){
    int n = R.far(1, 9, 300); ConnectedLayer C(n), D_(R.range(1, 9)); std::string text = C.serialize(); std::istringstream s(text + "sentinel\n"); if (R.chance(0.4)) D_.propagateForward(toM(rndInput(R, {R.range(1, 4), R.range(1, 4), 1})), 0);
    CHECK(D_.deserialize(s), "fresh-read", "could not read back a new connected layer from\n" << text); std::string rest; std::getline(s, rest); CHECK(rest == "sentinel", "fresh-position", "the stream goes on with '" << rest << "'");
    CHECK(D_.serialize() == text, "fresh-rewrite", "writing it again gives\n" << D_.serialize() << "instead of\n" << text); Sh in{R.range(1, 5), R.range(1, 5), R.range(1, 2)}; sig(std::to_string(n) + in.str());
    RefD x = rndInput(R, in); MatD Y = D_.propagateForward(toM(x), 0); RLayer l; l.k = RLayer::FC; l.n = n; CHECK(shOf(D_.weights.dim()) == (Sh{n, in.n(), 1}), "fresh-shape", "weights " << shOf(D_.weights.dim()) << " for " << n << " outputs of " << in); readParams(l, D_);
    std::string d = diffTol(Y, forward(l, x), 1e-9, 1e-9); CHECK(d.empty(), "fresh-forward", d); count("layers restored");
}
// Layers one after the other in one stream, as in a model file
SCENARIO("C19", c19_sequence, 2){
    int n = R.range(2, 5); std::vector<RLayer> L; std::vector<std::shared_ptr<ModelLayer>> P; std::stringstream s; std::string ctx;
    for (int i = 0; i < n; i++){ Sh in; RLayer l = anyLayer(R, in); fillParams(R, l, in); auto p = makeLayer(l); setParams(*p, l, in); s << p->serialize(); L.push_back(l); P.push_back(p); ctx += l.str() + " "; }
    sig(ctx); sample(ctx);
    for (int i = 0; i < n; i++){ auto q = otherLayer(R, L[i]); CHECK(q->deserialize(s), "sequence-read", "could not read layer " << i << " of " << ctx); CHECK(q->serialize() == P[i]->serialize(), "sequence-content", "layer " << i << " of " << ctx << " came back as\n" << q->serialize()); count("layers restored"); }
}
