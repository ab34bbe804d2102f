// Independent evaluation for C24: reads model and data files with its own parsers, trains and runs the reference network.
//   ref DATA_DIR final.model [initial.model]     prints key value lines
#include "../train.h"
#include <fstream>
#include <unistd.h>
using namespace vt;
namespace vt{ void fail(const std::string&, const std::string&){} void count(const char*, uint64_t){} void sig(const std::string&){} void sample(const std::string&){} bool thorough(){ return false; } bool underValgrind(){ return false; } const std::string& scratchDir(){ static std::string s; return s; } std::vector<Scenario>& scenarios(){ static std::vector<Scenario> v; return v; } }

static bool matrix(std::istream& f, RefD& m){ int x, y, z; if (!(f >> x >> y >> z)) return false; m = RefD({x, y, z}); for (int k = 0; k < z; k++) for (int i = 0; i < x; i++) for (int j = 0; j < y; j++) if (!(f >> m.at(i, j, k))) return false; return true; }
static bool word(std::istream& f, const std::string& w){ std::string s; return (f >> s) && s == w; }
static bool readModel(const std::string& path, RNet& N, std::vector<std::string>& labels){
    std::ifstream f(path); std::string s; if (!f) return false;
    while (f >> s){
        if (s == "Output"){ int n; if (!word(f, "labels") || !(f >> n)) return false; std::getline(f, s); for (int i = 0; i < n; i++){ if (!std::getline(f, s)) return false; labels.push_back(s); } if (!N.L.empty() && N.L.back().k == RLayer::SOFT) N.L.back().n = n; return true; }
        if (s[0] != '(' || !(f >> s) || !(f >> s)) return false; RLayer l;
        if (s == "Kernel"){ l.k = RLayer::CONV; if (!word(f, "x") || !(f >> l.f.x) || !word(f, "y") || !(f >> l.f.y) || !word(f, "z") || !(f >> l.f.z) || !word(f, "n") || !(f >> l.nf)) return false; f >> s; if (s == "stride"){ f >> l.stride; f >> s; } if (s != "weights" || !matrix(f, l.w) || !word(f, "biases") || !matrix(f, l.b)) return false; l.has_params = true; if (l.w.s != (Sh{l.f.x, l.f.y, l.f.z * l.nf}) || l.b.s != (Sh{l.nf, 1, 1})) return false; }
        else if (s == "Pooling"){ l.k = RLayer::POOL; f >> s; l.pt = s == "MAX" ? my_cnn::MAX : s == "MIN" ? my_cnn::MIN : my_cnn::AVG; if (!word(f, "x") || !(f >> l.px) || !word(f, "y") || !(f >> l.py) || !word(f, "stride") || !word(f, "x") || !(f >> l.sx) || !word(f, "y") || !(f >> l.sy)) return false; }
        else if (s == "Connected"){ int x, y; l.k = RLayer::FC; if (!word(f, "Layer") || !word(f, "x") || !(f >> x) || !word(f, "y") || !(f >> y) || !word(f, "weights") || !matrix(f, l.w) || !word(f, "biases") || !matrix(f, l.b)) return false; l.n = l.b.s.x; l.has_params = true; }
        else if (s == "Activation"){ l.k = RLayer::ACT; f >> s; bool ok = false; for (auto a : {my_cnn::SIGMOID, my_cnn::TANGENT, my_cnn::LINEAR, my_cnn::RELU, my_cnn::LEAKY_RELU}) if (my_cnn::toString(a) == s){ l.act = a; ok = true; } if (!ok) return false; }
        else if (s == "Softmax") l.k = RLayer::SOFT; else return false;
        N.L.push_back(l);
    }
    return false;
}
static uint32_t be(std::istream& f){ uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (unsigned char)f.get(); return v; }
static std::vector<Sample> readData(const std::string& img, const std::string& lab){
    std::ifstream a(img, std::ios::binary), b(lab, std::ios::binary); be(a); int n = (int)be(a), h = (int)be(a), w = (int)be(a); be(b); be(b); std::vector<Sample> v;
    for (int i = 0; i < n; i++){ Sample s; s.id = i; s.xd = RefD({h, w, 1}); for (int r = 0; r < h; r++) for (int c = 0; c < w; c++) s.xd.at(r, c, 0) = (float)((a.get() - 128) / 255.0f); s.label = b.get(); v.push_back(s); }
    return v;
}
// How many samples the network labels correctly: certainly, and possibly (near ties)
static void correct(const RNet& N, const Sample& s, double margin, int& lo, int& hi){ auto a = N.run(s.xd); const RefD& p = a.back(); double best = -1, other = -1; for (int i = 0; i < p.s.n(); i++) if (i != s.label) other = std::max(other, p.flat(i)); best = p.flat(s.label); lo += best > other + margin; hi += best > other - margin; }
int main(int argc, char** argv){
    std::string d = argv[1]; RNet F; std::vector<std::string> labels; if (!readModel(argv[2], F, labels)){ printf("unreadable 1\n"); return 0; }
    bool names = labels.size() == 10; for (size_t i = 0; i < labels.size(); i++) if (labels[i] != std::to_string(i)) names = false; printf("labels %d\n", names);
    auto test = readData(d + "/MNIST Test Images.ubyte-img", d + "/MNIST Test Labels.ubyte-label"); auto train = readData(d + "/MNIST Train Images.ubyte-img", d + "/MNIST Train Labels.ubyte-label"); F.in = test[0].xd.s; int lo = 0, hi = 0; for (auto& s : test) correct(F, s, 1e-4, lo, hi); printf("test_lo %d\ntest_hi %d\n", lo, hi); for (size_t i = 0; i < test.size(); i++){ auto all = F.run(test[i].xd); const RefD& q = all.back(); int best = 0; for (int j = 1; j < q.s.n(); j++) if (q.flat(j) > q.flat(best)) best = j; printf("pred_%zu %d\n", i, best); }
    if (argc < 4) return 0; RNet I; std::vector<std::string> l2; if (!readModel(argv[3], I, l2)){ printf("unreadable 1\n"); return 0; } if (I.L.size() != F.L.size()){ printf("layers 0\n"); return 0; } I.in = F.in;
    double moved = 0; for (size_t i = 0; i < F.L.size(); i++) for (size_t j = 0; j < F.L[i].w.v.size() && j < I.L[i].w.v.size(); j++) moved = std::max(moved, std::fabs(F.L[i].w.v[j] - I.L[i].w.v[j])); printf("moved %.6f\n", moved);
    for (int skip = 0; skip < 2; skip++){          // the program leaves out the first training image: either is accepted
        RefTrain T(I); std::vector<int> o; for (int i = skip; i < (int)train.size(); i++) o.push_back(i); const int bs = 32; const double lr = 0.03;
        for (int e = 0; e < 2; e++){ int slo = 0, shi = 0; for (size_t i = 0; i < o.size(); i += bs){ size_t c = std::min((size_t)bs, o.size() - i); for (size_t k = 0; k < c; k++) correct(T.N, train[o[i + k]], 2e-3, slo, shi); RefTrain::batch(T.N, train, o, i, c, lr); RefTrain::batch(T.T, train, o, i, c, lr); } printf("epoch%d_lo_%d %d\nepoch%d_hi_%d %d\n", e, skip, slo, e, skip, shi); }
        double tw = 0, df = 0; for (size_t i = 0; i < F.L.size(); i++){ auto cmp = [&](const RefD& a, const RefD& b, const RefD& c){ if (a.s != b.s){ df = 1e9; return; } for (size_t j = 0; j < a.v.size(); j++){ df = std::max(df, std::fabs(a.v[j] - b.v[j])); tw = std::max(tw, std::fabs(a.v[j] - c.v[j])); } }; cmp(T.N.L[i].w, F.L[i].w, T.T.L[i].w); cmp(T.N.L[i].b, F.L[i].b, T.T.L[i].b); }
        printf("train_diff_%d %.8f\ntrain_twin_%d %.8f\n", skip, df, skip, tw);
    }
}
