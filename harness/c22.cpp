// C22: the MNIST reader returns exactly the stored image and label at every index
#include "mat.h"
#include "cnn_from_scratch/MNISTReader.h"
#include <fstream>
#include <iostream>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace vt;
using my_cnn::MNISTReader; using my_cnn::Image;

typedef std::vector<unsigned char> Bytes;
static void be32(Bytes& b, uint32_t v){ for (int s = 24; s >= 0; s -= 8) b.push_back((unsigned char)(v >> s)); }
static void spit(const std::string& f, const Bytes& b){ std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write((const char*)b.data(), (std::streamsize)b.size()); }
struct Files{
    std::string img, lab; explicit Files(const std::string& s = "") : img(scratchDir() + "/i" + s + ".bin"), lab(scratchDir() + "/l" + s + ".bin"){} ~Files(){ unlink(img.c_str()); unlink(lab.c_str()); }
    int n, h, w; Bytes pix, labels, I, L;
    void make(Rng& R, int n_, int h_, int w_){
        n = n_; h = h_; w = w_; be32(I, 2051); be32(I, n); be32(I, h); be32(I, w); be32(L, 2049); be32(L, n); int mode = R.range(0, 3);
        for (int i = 0; i < n * h * w; i++) pix.push_back((unsigned char)(mode == 0 ? R.range(0, 255) : mode == 1 ? R.pick(std::vector<int>{0, 10, 13, 26, 127, 128, 255}) : mode == 2 ? i % 256 : R.range(120, 136))); for (int i = 0; i < n; i++) labels.push_back((unsigned char)(R.chance(0.7) ? R.range(0, 9) : R.range(0, 255)));
        I.insert(I.end(), pix.begin(), pix.end()); L.insert(L.end(), labels.begin(), labels.end());
    }
    void write(){ spit(img, I); spit(lab, L); }
    std::string str() const { return std::to_string(n) + " images of " + std::to_string(h) + "x" + std::to_string(w); }
    std::string check(const Image& m, int i) const {
        std::ostringstream o; if (shOf(m.data.dim()) != (Sh{h, w, 1}) || m.data.size() != (size_t)(h * w)){ o << "image " << i << " has shape " << shOf(m.data.dim()) << " (" << m.data.size() << ") instead of " << h << "x" << w; return o.str(); }
        for (int r = 0; r < h; r++) for (int c = 0; c < w; c++){ int b = pix[((size_t)i * h + r) * w + c]; float want = (float)((b - 128) / 255.0); if (!(std::fabs(m.data(r, c, 0) - want) <= 1e-6)){ o << "pixel (" << r << "," << c << ") of image " << i << " is " << m.data(r, c, 0) << " instead of " << want << " (byte " << b << ")"; return o.str(); } }
        if (m.label != labels[i]){ o << "label of image " << i << " is " << +m.label << " instead of " << +labels[i]; return o.str(); }
        return "";
    }
};
struct Mute{ std::ostringstream o; std::streambuf* b; Mute() : b(std::cout.rdbuf(o.rdbuf())){} ~Mute(){ std::cout.rdbuf(b); } };

SCENARIO("C22", c22_history, 8){
    Files F; { int n = R.chance(0.1) ? 0 : R.far(1, 14, 700), h = R.far(1, 9, n > 60 ? 20 : 300), w = R.far(1, 9, n > 60 || h > 60 ? 20 : 300); F.make(R, n, h, w); } if (R.chance(0.2)){ for (int i = 0; i < 40; i++) F.I.push_back(77), F.L.push_back(77); } F.write(); Mute mute; MNISTReader D(F.img, F.lab);
    CHECK((long)D.numImages() == F.n, "count", D.numImages() << " images reported of " << F.str()); size_t pos = 0; std::string hist = F.str() + ":"; int steps = R.range(5, 40);
    for (int k = 0; k < steps; k++){
        CHECK(D.imageIndex() == pos, "index", "index " << D.imageIndex() << " instead of " << pos << " in " << hist);
        int op = R.range(0, 9); bool past = false; size_t i = 0; std::string what;
        if (op < 4){ i = pos; past = pos >= (size_t)F.n; what = " next"; }
        else if (op < 8 && F.n){ i = R.chance(0.2) ? F.n - 1 : R.range(0, F.n - 1); what = " get" + std::to_string(i); }
        else { static const std::vector<size_t> far{0, 1, 2, 1000, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x100000000u, 0x7fffffffffffffffu, (size_t)-1 - 20}; i = R.pick(far); if (i < (size_t)-1 - 1000) i += F.n; past = true; what = " get" + std::to_string(i); }
        hist += what;
        try{
            Image m = op < 4 ? D.nextImage() : D.getImage(i); CHECK(!past, "past-end", "a read past the end was answered in " << hist); std::string d = F.check(m, (int)i); CHECK(d.empty(), "content", d << " in " << hist); pos = i + 1; count("images compared");
        }catch(const std::exception& e){ CHECK(past, "refused", "a valid read was refused (" << e.what() << ") in " << hist); count("reads refused"); }
    }
    sig(hist); sample(hist);
}
// Files that end early: what is there is read, what is not there is reported
SCENARIO("C22", c22_truncated, 6){
    Files F; F.make(R, R.range(1, 8), R.range(1, 7), R.range(1, 7)); bool img = R.chance(0.6); Bytes& B = img ? F.I : F.L; size_t head = img ? 16 : 8; size_t cut = R.chance(0.2) ? R.range(0, (int)head - 1) : R.range((int)head, (int)B.size() - 1); B.resize(cut); F.write(); Mute mute; std::unique_ptr<MNISTReader> D; std::string ctx = F.str() + ", " + (img ? "image" : "label") + " file of " + std::to_string(cut) + " bytes"; sig(ctx); sample(ctx);
    try{ D = std::make_unique<MNISTReader>(F.img, F.lab); CHECK(cut >= head, "header", "a file with a cut header was accepted: " << ctx); } catch(const std::exception&){ CHECK(cut < head, "header", "a complete header was refused: " << ctx); count("reads refused"); return; }
    int whole = img ? (int)((cut - 16) / (F.h * F.w)) : (int)(cut - 8);
    for (int k = 0; k < 16; k++){ int i = R.range(0, F.n - 1); bool there = i < whole; try{ Image m = D->getImage(i); CHECK(there, "invented", "image " << i << " that is not in the file was answered: " << ctx); std::string d = F.check(m, i); CHECK(d.empty(), "content", d << " in " << ctx); count("images compared"); if (R.chance(0.4) && i + 1 < whole){ d = F.check(D->nextImage(), i + 1); CHECK(d.empty(), "content", d << " in the next after " << i << ", " << ctx); } } catch(const std::exception& e){ CHECK(!there, "refused", "image " << i << " was refused (" << e.what() << "): " << ctx); count("reads refused"); } }
    // in sequence
    MNISTReader S(F.img, F.lab); for (int i = 0; i < whole; i++){ std::string d = F.check(S.nextImage(), i); CHECK(d.empty(), "content", d << " in sequence, " << ctx); } int o = outcome<std::exception>([&]{ S.nextImage(); }); CHECK(o == 1, "invented", "reading on after the last complete image is " << outcomeName(o) << ": " << ctx);
}
// Images of realistic size; several readers at once, on the same or on different files, interleaved
SCENARIO("C22", c22_pair, 2){
    Files F, G("2"); F.make(R, R.range(2, 5), 28, R.chance(0.7) ? 28 : R.range(10, 40)); F.write(); G.make(R, R.range(1, 9), R.range(1, 12), R.range(1, 12)); G.write(); Mute mute; MNISTReader A(F.img, F.lab), B(F.img, F.lab), C(G.img, G.lab); sig(F.str() + G.str()); struct Seat{ MNISTReader* D; Files* F; size_t pos; } seats[] = {{&A, &F, 0}, {&B, &F, 0}, {&C, &G, 0}};
    for (int k = 0, n = R.range(6, 24); k < n; k++){
        int q = R.range(0, 2); Seat& s = seats[q]; bool next = R.chance(0.6); size_t i = next ? s.pos : R.range(0, s.F->n); std::string ctx = (next ? "next of reader " : "read " + std::to_string(i) + " of reader ") + std::to_string(q) + " on " + s.F->str();
        CHECK(s.D->imageIndex() == s.pos && (int)s.D->numImages() == s.F->n, "several-position", "reader " << q << " is at " << s.D->imageIndex() << " of " << s.D->numImages() << " instead of " << s.pos << " of " << s.F->n);
        try{ Image m = next ? s.D->nextImage() : s.D->getImage(i); CHECK((int)i < s.F->n, "several-past-end", "answered: " << ctx); std::string d = (int)i < s.F->n ? s.F->check(m, (int)i) : ""; CHECK(d.empty(), "several-content", d << ", " << ctx); s.pos = i + 1; count("images compared"); }
        catch(const std::exception& e){ CHECK((int)i >= s.F->n, "several-refused", "refused (" << e.what() << "): " << ctx); count("reads refused"); }
    }
}
// Positions beyond 2 and 4 GiB (files with holes)
SCENARIO("C22", c22_large, 1){
    const long h = 28, w = 28, n = R.chance(0.5) ? 2900000 : 6000000; Files F; F.n = (int)n; F.h = (int)h; F.w = (int)w; be32(F.I, 2051); be32(F.I, (uint32_t)n); be32(F.I, h); be32(F.I, w); be32(F.L, 2049); be32(F.L, (uint32_t)n); F.write();
    if (truncate(F.img.c_str(), 16 + n * h * w) || truncate(F.lab.c_str(), 8 + n)){ count("large files not possible here"); return; }
    int fi = open(F.img.c_str(), O_RDWR), fl = open(F.lab.c_str(), O_RDWR); std::vector<long> at{0, n - 1, 2147483648L / (h * w), 2147483648L / (h * w) + 1}; if (n > 5500000) at.push_back(4294967296L / (h * w)); for (int i = 0; i < 3; i++) at.push_back(R.u64() % n);
    std::map<long, std::pair<Bytes, unsigned char>> want; for (long i : at){ Bytes b(h * w); for (auto& v : b) v = (unsigned char)R.range(0, 255); unsigned char l = (unsigned char)R.range(0, 9); want[i] = {b, l}; (void)!pwrite(fi, b.data(), b.size(), 16 + i * h * w); (void)!pwrite(fl, &l, 1, 8 + i); } close(fi); close(fl);
    Mute mute; MNISTReader D(F.img, F.lab); CHECK((long)D.numImages() == n, "count", D.numImages() << " images reported of " << n); sig(std::to_string(n));
    for (auto& [i, c] : want){ Image m = D.getImage((size_t)i); CHECK(m.label == c.second, "large-label", "label of image " << i << " of " << n << " is " << +m.label << " instead of " << +c.second); for (int r = 0; r < h; r++) for (int q = 0; q < w; q++) CHECK(std::fabs(m.data(r, q, 0) - (c.first[r * w + q] - 128) / 255.0) < 1e-6, "large-content", "pixel (" << r << "," << q << ") of image " << i << " of " << n); count("images compared"); count("images beyond 2 GiB compared", i * h * w > 2147483647L); }
}
