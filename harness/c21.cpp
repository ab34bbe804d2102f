// C21: failed saves and damaged or missing files are reported, never accepted
#include "train.h"
#include <fstream>
#include <csignal>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace vt;

static std::string slurp(const std::string& f){ std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(const std::string& f, const std::string& t){ std::ofstream o(f, std::ios::binary | std::ios::trunc); o << t; }
struct TmpFile{ std::string p; explicit TmpFile(const char* n) : p(scratchDir() + "/" + n){} ~TmpFile(){ unlink(p.c_str()); } };
struct Quiet{ CoutCapture c; };

static RNet smallNet(Rng& R){
    for (;;){ RNet N = rndNet(R, false, 4); size_t n = 0; for (auto& l : N.L) n += l.w.v.size() + l.b.v.size(); if (n <= 120) return N; }
}
static std::string makeFile(Rng& R, TModel& M, const RNet& N, const std::string& path){ buildModel(M, N); for (auto& l : M.output_labels) if (R.chance(0.4)) l = "the " + l; return M.saveModel(path) ? slurp(path) : ""; }
// true: accepted. Any exception out of loadModel is a failure to report through the return value
static int load(const std::string& path){ Quiet q; TModel M; try{ return M.loadModel(path) ? 1 : 0; } catch(...){ return 2; } }
static const char* loadName(int r){ return r == 1 ? "accepted" : "ended by an exception"; }

struct Lines{
    std::vector<std::string> v; explicit Lines(const std::string& t){ std::istringstream i(t); std::string l; while (std::getline(i, l)) v.push_back(l); }
    std::string text() const { std::string t; for (auto& l : v) t += l + "\n"; return t; }
    int labelsAt() const { for (size_t i = v.size(); i-- > 0;) if (v[i].rfind("Output labels ", 0) == 0) return (int)i; return -1; }
};
static bool isKeyLine(const std::string& l){ static const std::set<std::string> k{"Kernel", "Pooling", "Connected Layer", "Activation", "Softmax", "weights", "biases", "stride", "MAX", "MIN", "AVG", "RELU", "SIGMOID", "TANGENT", "LEAKY_RELU", "LINEAR"}; return k.count(l) > 0; }
static bool isSetting(const std::string& l){ for (const char* k : {"x ", "y ", "z ", "n ", "stride "}) if (l.rfind(k, 0) == 0) return true; return false; }
static bool isRow(const std::string& l){ return !l.empty() && l[0] == ' ' && l.find('.') != std::string::npos; }
static bool isDims(const std::string& l){ int a, b, c; char x; return sscanf(l.c_str(), "%d %d %d%c", &a, &b, &c, &x) == 3 && l.find('.') == std::string::npos; }

// Cut the file at every byte (in the quick tier: a window of them, all of the short files)
SCENARIO("C21", c21_truncated, 6){
    TmpFile f("m.model"); RNet N = smallNet(R); TModel M; std::string t = makeFile(R, M, N, f.p); CHECK(!t.empty(), "save", "could not save"); CHECK(load(f.p) == 1, "complete", "the complete file is not accepted:\n" << t);
    size_t end = t.find_last_not_of('\n') + 2;              // just after the last label
    std::string ctx = strOf(N.L); sig(ctx); sample("all cuts of a file of " + std::to_string(t.size()) + " bytes: " + ctx);
    size_t from = 0, to = end; if (end > 1200){ from = R.range(0, (int)end - 800); to = from + 800; }
    for (size_t c = from; c < to; c++){ spit(f.p, t.substr(0, c)); int r = load(f.p); CHECK(r == 0, "truncated", "a file cut after " << c << " of " << t.size() << " bytes is " << loadName(r) << ": ..." << t.substr(c > 80 ? c - 80 : 0, std::min<size_t>(c, 80)) << "|"); count("cut files"); }
    for (size_t c = end > 60 ? end - 60 : 0; c < end; c++){ spit(f.p, t.substr(0, c)); int r = load(f.p); CHECK(r == 0, "truncated", "a file cut " << end - c << " bytes before the end of its labels is " << loadName(r)); count("cut files"); }
}
static std::string damageWord(Rng& R, std::string w){
    size_t p = R.range(0, (int)w.size() - 1);
    const char c = "qqj0.-7K"[R.range(0, 7)], r = w[p] == c ? '#' : c;
    switch (R.range(0, 3)){ case 0: w[p] = r; break; case 1: w.erase(p, 1); break; case 2: w.insert(p, 1, c); break; default: w += c; }
    return w;
}
SCENARIO("C21", c21_keywords, 4){
    TmpFile f("m.model"); RNet N = smallNet(R); TModel M; std::string t = makeFile(R, M, N, f.p); Lines L(t); int lab = L.labelsAt(); CHECK(lab > 0, "save", "no label section"); sig(strOf(N.L));
    for (int i = 0; i < lab; i++) if (isKeyLine(L.v[i])){
        Lines D = L; D.v[i] = damageWord(R, L.v[i]); if (isKeyLine(D.v[i])) continue; spit(f.p, D.text()); int r = load(f.p); CHECK(r == 0, "keyword", "a file with '" << D.v[i] << "' instead of '" << L.v[i] << "' in line " << i << " is " << loadName(r)); count("damaged names"); sample("'" + L.v[i] + "' -> '" + D.v[i] + "'");
        D = L; D.v.erase(D.v.begin() + i); spit(f.p, D.text()); r = load(f.p); CHECK(r == 0, "line-missing", "a file without line " << i << " '" << L.v[i] << "' is " << loadName(r)); count("missing lines");
    }
    Lines D = L; D.v[lab] = damageWord(R, "Output labels") + L.v[lab].substr(13); spit(f.p, D.text()); int r = load(f.p); CHECK(r == 0, "keyword", "a file with '" << D.v[lab] << "' is " << loadName(r));
    if (R.chance(0.3)){ D = L; std::string swap = R.pick(std::vector<std::string>{"Kernel", "Pooling", "Connected Layer", "Activation"}); for (int i = 0; i < lab; i++) if (isKeyLine(L.v[i]) && i > 0 && L.v[i - 1].find("----") != std::string::npos && L.v[i] != swap && L.v[i] != "Softmax"){ D = L; D.v[i] = swap; spit(f.p, D.text()); r = load(f.p); CHECK(r == 0, "wrong-section", "a file with " << swap << " over the data of " << L.v[i] << " is " << loadName(r)); } }
}
SCENARIO("C21", c21_numbers, 6){
    TmpFile f("m.model"); RNet N = smallNet(R); TModel M; std::string t = makeFile(R, M, N, f.p); Lines L(t); int lab = L.labelsAt(); CHECK(lab > 0, "save", "no label section"); sig(strOf(N.L));
    static const std::vector<std::string> junk{"abc", "--1", "q", "", "1e99999", ".", "#", "0x", "_"};
    auto tryIt = [&](const Lines& D, const char* key, int i){ spit(f.p, D.text()); int r = load(f.p); count("damaged numbers"); CHECK(r == 0, key, "a file with '" << D.v[i] << "' instead of '" << L.v[i] << "' in line " << i << " is " << loadName(r)); };
    for (int i = 0; i < lab; i++){
        const std::string& l = L.v[i];
        if (isSetting(l)){
            Lines D = L; std::string k = l.substr(0, l.find(' ') + 1); D.v[i] = k + R.pick(junk); tryIt(D, "setting", i); D.v[i] = l + R.pick(std::vector<std::string>{"q", " 7", ".5", "-", " 0", " -"}); tryIt(D, "setting-tail", i); D.v[i] = k + "99999999999999999999"; tryIt(D, "setting-huge", i); D.v[i] = k + "-" + l.substr(k.size()); tryIt(D, "setting-negative", i); D.v[i] = k + "0"; tryIt(D, "setting-zero", i);
            if (l.rfind("stride ", 0) == 0) continue;         // files written before it was recorded do not have it
            D = L; D.v.erase(D.v.begin() + i); spit(f.p, D.text()); int r = load(f.p); CHECK(r == 0, "line-missing", "a file without line " << i << " '" << l << "' is " << loadName(r)); sample("'" + l + "'");
        }else if (isRow(l)){
            std::istringstream s(l); std::vector<std::string> w; std::string x; while (s >> x) w.push_back(x); size_t p = R.range(0, (int)w.size() - 1);
            auto put = [&](std::vector<std::string> u){ Lines D = L; D.v[i] = ""; for (auto& y : u) D.v[i] += " " + y; return D; }; auto u = w;
            u[p] = R.pick(junk); tryIt(put(u), "number", i); u = w; u[p] = "nan"; tryIt(put(u), "number", i); u = w; u[p] += "q"; tryIt(put(u), "number-tail", i); u = w; u.push_back(R.pick(std::vector<std::string>{"0.5", "0", "0.000000", "00", "-0", "1e3", "."})); tryIt(put(u), "number-extra", i); if (R.chance(0.5)){ Lines D = L; D.v.erase(D.v.begin() + i); spit(f.p, D.text()); int r = load(f.p); CHECK(r == 0, "line-missing", "a file without row " << i << " is " << loadName(r)); D = L; D.v.insert(D.v.begin() + i, l); spit(f.p, D.text()); r = load(f.p); CHECK(r == 0, "line-extra", "a file with row " << i << " twice is " << loadName(r)); }
        }else if (isDims(l)){
            int d[3]; sscanf(l.c_str(), "%d %d %d", d, d + 1, d + 2);
            for (int q = 0; q < 8; q++){ int e[3] = {d[0], d[1], d[2]}; static const int big[] = {0, 1, -1, 2, 7, 1000, 65536, 2147483647}; int c = R.range(0, 2); e[c] = R.chance(0.4) ? e[c] + (R.chance(0.5) ? 1 : -1) : big[R.range(0, 7)]; if (R.chance(0.2)) std::swap(e[0], e[1]); if (R.chance(0.2)) e[R.range(0, 2)] = 2147483647; if (R.chance(0.1)) for (int& y : e) y = big[R.range(0, 7)];
                if (e[0] == d[0] && e[1] == d[1] && e[2] == d[2]) continue; Lines D = L; D.v[i] = std::to_string(e[0]) + " " + std::to_string(e[1]) + " " + std::to_string(e[2]); tryIt(D, "dimensions", i); }
            Lines D = L; D.v[i] = R.pick(std::vector<std::string>{"", "3", "3 4", "a b c", l + " 1", l + " 0", l + "q", "99999999999 1 1"}); if (D.v[i] != l) tryIt(D, "dimensions", i);
        }
    }
}
// Settings changed to other plausible values: a convolution or connected layer then disagrees with its parameters
// Labels may be empty, and a count that is too low then leaves them and the last one behind
SCENARIO("C21", c21_empty_labels, 1){
    TmpFile f("m.model"); RNet N = smallNet(R); TModel M; buildModel(M, N); int n = N.L.back().n; for (int i = 0; i + 1 < n; i++) if (R.chance(0.9)) M.output_labels[i] = ""; M.output_labels[n - 1] = "last"; CHECK(M.saveModel(f.p), "save", "could not save"); std::string t = slurp(f.p); Lines L(t); int lab = L.labelsAt(); CHECK(lab > 0, "save", "no label section"); sig(strOf(N.L));
    { TModel B; CHECK(B.loadModel(f.p) && B.output_labels == M.output_labels, "complete", "a complete file with empty labels is not loaded as saved"); }
    for (int w = 0; w < n; w++){ Lines D = L; D.v[lab] = "Output labels " + std::to_string(w); spit(f.p, D.text()); int r = load(f.p); CHECK(r == 0, "label-count", "a file announcing " << w << " labels instead of " << n << " (some of them empty) is " << loadName(r)); count("inconsistent sizes"); }
}
SCENARIO("C21", c21_sizes, 4){
    TmpFile f("m.model"); RNet N = smallNet(R); TModel M; std::string t = makeFile(R, M, N, f.p); Lines L(t); int lab = L.labelsAt(); CHECK(lab > 0, "save", "no label section"); sig(strOf(N.L)); std::string sect;
    for (int i = 0; i < lab; i++){
        if (isKeyLine(L.v[i]) && i && L.v[i - 1].find("----") != std::string::npos) sect = L.v[i];
        if ((sect == "Kernel" || sect == "Connected Layer") && isSetting(L.v[i]) && L.v[i].rfind("stride", 0) != 0){ std::string k = L.v[i].substr(0, 2); long v = std::stol(L.v[i].substr(2)); for (long w : {v + 1, v - 1, v * 2 + 1, v + 256, v + 65536, 2147483647L - v, 4294967296L + v}) if (w >= 0 && w != v){ Lines D = L; D.v[i] = k + std::to_string(w); spit(f.p, D.text()); int r = load(f.p); CHECK(r == 0, "sizes", "a " << sect << " section with '" << D.v[i] << "' instead of '" << L.v[i] << "' is " << loadName(r)); count("inconsistent sizes"); } sample(sect + " '" + L.v[i] + "'"); }
    }
    int n = std::stoi(L.v[lab].substr(14)); for (long w : {(long)n + 2, (long)n + 100, -1L, (long)n - 1, 0L, -2147483648L, 2147483647L}) if (w != n){ Lines D = L; D.v[lab] = "Output labels " + std::to_string(w); spit(f.p, D.text()); int r = load(f.p); CHECK(r == 0, "label-count", "a file announcing " << w << " labels instead of " << n << " is " << loadName(r)); count("inconsistent sizes"); }
    for (const char* w : {"", "q", "3q", "99999999999"}){ Lines D = L; D.v[lab] = std::string("Output labels ") + w; spit(f.p, D.text()); int r = load(f.p); CHECK(r == 0, "label-count", "a file with '" << D.v[lab] << "' is " << loadName(r)); }
}
// Labels that are numbers can be damaged as well
SCENARIO("C21", c21_number_labels, 2){
    typedef my_cnn::ModelDescription<float, int> IModel; typedef my_cnn::ModelDescription<float, double> DModel;
    TmpFile f("m.model"); RNet N = smallNet(R); int n = N.L.back().n; std::vector<int> lab; std::set<int> u; while ((int)lab.size() < n){ int v = R.range(-50, 1000); if (u.insert(v).second) lab.push_back(v); }
    bool whole = R.chance(0.6); Quiet q; sig(strOf(N.L) + (whole ? "int" : "double"));
    auto load = [&]{ try{ if (whole){ IModel M; return M.loadModel(f.p) ? (M.output_labels == lab ? 1 : 3) : 0; } DModel M; return M.loadModel(f.p) ? (M.output_labels == std::vector<double>(lab.begin(), lab.end()) ? 1 : 3) : 0; } catch(...){ return 2; } };
    if (whole){ IModel M; buildModel(M, N); M.output_labels = lab; CHECK(M.saveModel(f.p), "save", "could not save"); } else { DModel M; buildModel(M, N); M.output_labels.assign(lab.begin(), lab.end()); CHECK(M.saveModel(f.p), "save", "could not save"); }
    std::string t = slurp(f.p); Lines L(t); int at = L.labelsAt(); CHECK(at > 0, "save", "no label section"); CHECK(load() == 1, "complete", "a complete file with numbers as labels is not loaded as saved");
    static const std::vector<std::string> junk{"abc", "--1", "q", "", ".", "#", "_", "1q", "3 4", "99999999999999999999999x"};
    for (int i = 1; i <= n; i++) for (const auto& j : junk){ Lines D = L; D.v[at + i] = j; spit(f.p, D.text()); int r = load(); CHECK(r == 0, "number-label", "a file with the label '" << j << "' instead of '" << L.v[at + i] << "' is " << (r == 2 ? "ended by an exception" : "accepted")); count("damaged numbers"); }
    size_t end = t.find_last_not_of('\n') + 2; for (size_t c = end > 40 ? end - 40 : 0; c < end; c++){ spit(f.p, t.substr(0, c)); int r = load(); CHECK(r == 0, "truncated", "a file cut " << end - c << " bytes before the end of its labels is " << (r == 2 ? "ended by an exception" : "accepted")); count("cut files"); }
}
// No file, no access, no file content, something else
SCENARIO("C21", c21_missing, 2){
    std::string d = scratchDir(); TmpFile f("m.model"); CHECK(load(d + "/no such file") == 0, "missing", "a missing file is accepted"); CHECK(load(d + "/no/such/dir") == 0, "missing", "a missing directory is accepted"); CHECK(load(d) == 0, "directory", "a directory is accepted"); CHECK(load("") == 0, "missing", "an empty name is accepted"); CHECK(load("/dev/null") == 0, "empty", "/dev/null is accepted");
    spit(f.p, ""); CHECK(load(f.p) == 0, "empty", "an empty file is accepted");
    std::string junk; int n = R.range(1, 3000), mode = R.range(0, 2); for (int i = 0; i < n; i++) junk += mode == 0 ? (char)R.range(0, 255) : mode == 1 ? (char)R.pick(std::vector<int>{'\n', ' ', '0', '1', '-', '.', 'K', 'x'}) : '\n'; spit(f.p, junk); CHECK(load(f.p) == 0, "junk", "a file of random bytes is accepted"); sig(std::to_string(mode) + "/" + std::to_string(n)); count("missing files", 7);
    TModel M; RNet N = smallNet(R); buildModel(M, N); Quiet q;
    for (const std::string& p : {d + "/no/dir/model", d, std::string(""), std::string("/dev/full"), std::string("/proc/self/nothing")}){ int r; try{ r = M.saveModel(p); } catch(...){ r = 2; } CHECK(r == 0, "save-failure", "saving to '" << p << "' is " << (r == 1 ? "reported as a success" : "ended by an exception")); count("failed saves"); }
}
// The device is full after some bytes, as a file size limit: every save that does not fit is a failure
SCENARIO("C21", c21_full, 3){
    TmpFile f("m.model"); TModel M; RNet N = R.chance(0.5) ? smallNet(R) : rndNet(R, false, 4); if (R.chance(0.2)){ RLayer l; l.k = RLayer::FC; l.n = R.range(20, 40); N.L.clear(); N.in = {9, 9, 1}; fillParams(R, l, N.in); N.L.push_back(l); RLayer s; s.k = RLayer::SOFT; s.n = l.n; N.L.push_back(s); }
    buildModel(M, N); CHECK(M.saveModel(f.p), "save", "could not save"); std::string t = slurp(f.p); sig(strOf(N.L) + std::to_string(t.size())); sample("limits below " + std::to_string(t.size()) + " bytes"); signal(SIGXFSZ, SIG_IGN); rlimit old; getrlimit(RLIMIT_FSIZE, &old);
    std::set<size_t> at{0, 1, t.size() - 1, t.size() - 2, t.size() / 2}; for (int i = 0; i < 12; i++) at.insert((size_t)R.range(0, (int)t.size() - 1)); for (size_t k = 4096; k < t.size(); k += 4096){ at.insert(k); at.insert(k - 1); }
    for (size_t n : at){ unlink(f.p.c_str()); rlimit lim = old; lim.rlim_cur = n; int r; { Quiet q; setrlimit(RLIMIT_FSIZE, &lim); try{ r = M.saveModel(f.p); } catch(...){ r = 2; } setrlimit(RLIMIT_FSIZE, &old); }
        CHECK(r == 0, "save-full", "a save of " << t.size() << " bytes of which " << n << " fit is " << (r == 1 ? "reported as a success" : "ended by an exception")); count("failed saves"); }
    unlink(f.p.c_str()); CHECK(M.saveModel(f.p) && slurp(f.p) == t, "save-after", "saving with enough room after failures writes another file");
}
// Layers and matrices on their own: cut or damaged text is refused or raises an error
SCENARIO("C21", c21_layer, 5){
    Sh in{R.range(1, 6), R.range(1, 6), R.range(1, 2)}; RLayer l = rndLayer(R, in); fillParams(R, l, in); auto P = makeLayer(l); setParams(*P, l, in); std::string t = P->serialize(); sig(l.str() + in.str()); sample(l.str());
    size_t e = t.find_last_not_of(" \n"), b = t.find_last_of(" \n", e); CHECK(b != std::string::npos, "format", "unexpected text");
    auto read = [&](const std::string& x){ RLayer o; o.k = l.k; o.f = {1, 1, 1}; o.nf = 1; o.n = 2; auto q = makeLayer(o); std::istringstream s(x); try{ return q->deserialize(s) ? 1 : 0; } catch(const std::exception&){ return 0; } catch(...){ return 2; } };
    size_t from = 0; if (b > 900) from = R.range(0, (int)b - 900); for (size_t c = from; c <= std::min(b, from + 900); c++){ int r = read(t.substr(0, c)); CHECK(r == 0, "layer-truncated", "a layer cut after " << c << " bytes is " << loadName(r) << ": " << t.substr(0, c)); count("cut layers"); }
    static const std::vector<std::string> heads{"", "q", "kernel", "Pool", "0", "Kerne", "Softma", "\n"}; std::string d = R.pick(heads) + t.substr(t.find('\n')); CHECK(read(d) == 0, "layer-name", "a layer text starting with '" << d.substr(0, d.find('\n')) << "' is accepted as " << l.str());
}
template<class T> static void matrixDamage(Rng& R){
    Sh s = rndShape(R, 1, 5, 3, false); SimpleMatrix<T> m = toM(rndRef<T>(R, s)); std::ostringstream o; m.serialize(o); std::string t = o.str(); size_t e = t.find_last_not_of(" \n"), b = t.find_last_of(" \n", e);
    auto read = [&](const std::string& x){ SimpleMatrix<T> q; std::istringstream i(x); try{ return q.deserialize(i) ? 1 : 0; } catch(const std::exception&){ return 0; } catch(...){ return 2; } }; sig(std::string(tname<T>()) + s.str());
    for (size_t c = 0; c <= b; c++){ int r = read(t.substr(0, c)); CHECK(r == 0, "matrix-truncated", "a matrix of " << s << " cut after " << c << " of " << t.size() << " bytes is " << loadName(r)); count("cut matrices"); }
    std::string data = t.substr(t.find('\n'));
    // other dimensions over the same numbers, followed by other text as in a file
    for (int q = 0; q < 12; q++){ Sh w = s; int c = R.range(0, 3); if (c == 0) w.x += R.range(-1, 2); else if (c == 1) w.y += R.range(-1, 2); else if (c == 2) w.z += R.range(-1, 2); else w = {R.range(1, 6), R.range(1, 6), R.range(1, 3)}; if (R.chance(0.1)) w.x = 2147483647; if (R.chance(0.1)) w.y = 2147483647; if (R.chance(0.1)) w.z = 2147483647; if (R.chance(0.1)) (R.chance(0.5) ? w.x : w.y) *= -1; if (w == s || w.x == 0 || w.y == 0 || w.z == 0) continue; bool more = (double)w.x * w.y * w.z > s.n() || w.x < 0 || w.y < 0, cut = w.y < s.y || (w.y == s.y && w.x < s.x); if (!more && !cut) continue;   // otherwise numbers are left over for whoever reads on
        std::string x = std::to_string(w.x) + " " + std::to_string(w.y) + " " + std::to_string(w.z) + data + "biases\n"; int r = read(x); CHECK(r == 0, "matrix-dimensions", "the numbers of a matrix of " << s << " are " << loadName(r) << " for " << w); count("inconsistent sizes"); }
}
SCENARIO("C21", c21_matrix, 3){ switch (R.range(0, 2)){ case 0: matrixDamage<double>(R); break; case 1: matrixDamage<float>(R); break; default: matrixDamage<int>(R); } }
// Random damage: whatever the verdict, no undefined behaviour, crash or hang; and a model that was accepted is complete enough to be saved again
SCENARIO("C21", c21_random, 5){
    TmpFile f("m.model"), g("n.model"); RNet N = smallNet(R); TModel M; std::string t = makeFile(R, M, N, f.p); sig(strOf(N.L));
    for (int k = 0; k < 12; k++){
        std::string d = t; int n = R.range(1, 4);
        for (int i = 0; i < n && !d.empty(); i++){ size_t p = R.u64() % d.size(); switch (R.range(0, 5)){ case 0: d[p] = (char)R.range(0, 255); break; case 1: d.erase(p, R.range(1, 40)); break; case 2: d.insert(p, d.substr(R.u64() % d.size(), R.range(1, 60))); break; case 3: d[p] = R.pick(std::vector<int>{'0', '9', '-', '\n', ' ', '.'}); break; case 4: d.insert(p, std::to_string((long)R.u64())); break; default: std::swap(d[p], d[R.u64() % d.size()]); } }
        spit(f.p, d); Quiet q; TModel L; int r; try{ r = L.loadModel(f.p); } catch(...){ r = 2; } CHECK(r != 2, "load-exception", "loading a damaged file ends by an exception"); count("randomly damaged files"); if (r == 1){ count("randomly damaged files accepted"); CHECK(L.saveModel(g.p), "resave", "an accepted model cannot be saved"); }
    }
}
