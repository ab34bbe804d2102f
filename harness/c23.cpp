// C23: rendering shows every element faithfully and only touches its own stream
#include "mat.h"
#include "cnn_from_scratch/imageUtil.h"
#include "cnn_from_scratch/LoadingBar.h"
#include <array>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <fcntl.h>
#include <unistd.h>
using namespace vt;

struct Fmt{ std::ios::fmtflags f; std::streamsize p, w; char c; explicit Fmt(std::ostream& o) : f(o.flags()), p(o.precision()), w(o.width()), c(o.fill()){} bool operator==(const Fmt& o) const { return f == o.f && p == o.p && w == o.w && c == o.c; } };
static void restyle(Rng& R, std::ostream& o, bool numbers){
    if (R.chance(0.3)) o << std::setprecision(R.range(0, 12)); if (R.chance(0.2)) o << std::scientific; if (R.chance(0.2)) o << std::left; if (R.chance(0.1)) o << std::boolalpha; if (R.chance(0.1)) o << std::showpoint; if (R.chance(0.1)) o << std::uppercase; if (R.chance(0.2)) o << std::setfill(R.chance(0.5) ? '*' : ' ');
    if (R.chance(0.2)) o << std::showpos; if (R.chance(0.1)) o << std::unitbuf; if (R.chance(0.1)) o << std::showbase; if (R.chance(0.1)) o << std::noskipws;
    if (!numbers && R.chance(0.3)) o << std::hex;
}
// Read the text of a matrix back: groups[row][channel][column]; "" if it has the documented layout
template<class T> static std::string parse(const std::string& t, const Ref<T>& r, char fill){
    std::vector<std::string> lines; std::istringstream s(t); std::string l; while (std::getline(s, l)) lines.push_back(l); std::ostringstream e; e.precision(10);
    if (lines.empty() || !lines[0].empty()){ e << "does not start with an empty line"; return e.str(); }
    if ((int)lines.size() != r.s.x + 1 || t.back() != '\n'){ e << lines.size() - 1 << " rows instead of " << r.s.x; return e.str(); }
    for (int i = 0; i < r.s.x; i++){
        const std::string& q = lines[i + 1]; size_t p = 0;
        for (int k = 0; k < r.s.z; k++){
            while (p < q.size() && q[p] == ' ') p++;
            if (p >= q.size() || q[p++] != '['){ e << "no group " << k << " in row " << i; return e.str(); }
            for (int j = 0; j < r.s.y; j++){
                size_t end = q.find_first_of(",]", p); if (end == std::string::npos || (q[end] == ']') != (j == r.s.y - 1)){ e << "group " << k << " of row " << i << " has not " << r.s.y << " elements"; return e.str(); }
                std::string w = q.substr(p, end - p); p = end + 1; std::string c; for (char ch : w) if (ch != ' ' && ch != fill && ch != '+') c += ch;
                char* stop; double v = strtod(c.c_str(), &stop); if (c.empty() || *stop){ e << "'" << w << "' is no number"; return e.str(); }
                double want = (double)r.at(i, j, k); if constexpr (std::is_floating_point_v<T>){ size_t dot = c.find('.'); if (dot == std::string::npos || c.size() - dot != 3){ e << "'" << w << "' has not two decimals"; return e.str(); } }
                if (std::fabs(v - want) > (std::is_floating_point_v<T> ? 0.00501 + 1e-7 * std::fabs(want) * (std::is_same_v<T, float>) : 0) || (want < 0 && c[0] != '-') || (want >= 0 && c[0] == '-' && v != 0)){ e << "element (" << i << "," << j << "," << k << ") shown as '" << w << "' instead of " << want; return e.str(); }
            }
        }
        while (p < q.size() && q[p] == ' ') p++; if (p != q.size()){ e << "row " << i << " goes on with '" << q.substr(p) << "'"; return e.str(); }
    }
    return "";
}
template<class T> static void printCase(Rng& R){
    Sh s = rndShape(R, 1, 6, 4); if (!underValgrind() && R.chance(0.0005)) s = hugeShape(R); Ref<T> r = rndRef<T>(R, s); if (R.chance(0.4)) for (auto& v : r.v){ if constexpr (std::is_floating_point_v<T>) v = (T)(R.uni(-1, 1) * std::pow(10.0, R.range(-4, 8))); else if constexpr (std::is_signed_v<T>) v = (T)R.range(-2000000, 2000000); else v = (T)R.range(0, 255); } if (R.chance(0.1)) for (auto& v : r.v) v = T(0); if constexpr (std::is_floating_point_v<T>) if (R.chance(0.2)) for (auto& v : r.v) v = (T)(R.range(-4000, 4000) * 0.005);
    int form = R.range(0, VT_FORM_COUNT - 1); std::ostringstream o, other; restyle(R, o, true); Fmt was(o), cout_was(std::cout), other_was(other);
    withForm<T>(form, r, R, [&](auto&& m, const char* fname){
        std::string ctx = std::string(tname<T>()) + " " + fname + " " + s.str(); sig(ctx); sample(ctx); std::ostringstream captured; auto* b = std::cout.rdbuf(captured.rdbuf()); auto* b2 = std::cerr.rdbuf(captured.rdbuf()); std::ostream* ret = &(o << m); std::cout.rdbuf(b); std::cerr.rdbuf(b2);
        CHECK(ret == &o, "chaining", "another stream returned"); CHECK(captured.str().empty(), "other-output", "printing to one stream wrote '" << captured.str() << "' to another, " << ctx);
        CHECK(Fmt(o) == was, "format-state", "printing changed the stream's formatting, " << ctx); CHECK(Fmt(std::cout) == cout_was && Fmt(other) == other_was, "other-format", "printing changed the formatting of another stream, " << ctx);
        std::string d = parse(o.str(), r, was.c); CHECK(d.empty(), "content", d << " in the print of " << ctx << ":" << o.str()); count("matrices printed"); count("elements read back", s.n());
        std::string once = o.str(); o.str(""); o << m; CHECK(o.str() == once, "repeat", "printing " << ctx << " again gives" << o.str() << "instead of" << once); d = diff(m, r); CHECK(d.empty(), "changed", d << " after printing");
    });
}
SCENARIO("C23", c23_double, 4){ printCase<double>(R); }
SCENARIO("C23", c23_float, 4){ printCase<float>(R); }
SCENARIO("C23", c23_int, 4){ printCase<int>(R); }
SCENARIO("C23", c23_uchar, 2){ printCase<unsigned char>(R); }

// ---- images ----
struct StdoutToFile{
    std::string p = scratchDir() + "/out.txt"; int old;
    StdoutToFile(){ std::cout.flush(); fflush(stdout); old = dup(1); int f = open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(f, 1); close(f); }
    std::string end(){ std::cout.flush(); fflush(stdout); dup2(old, 1); close(old); old = -1; std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); unlink(p.c_str()); return o.str(); }
    ~StdoutToFile(){ if (old >= 0) end(); }
};
// Cells of the image in the order they take effect. printf and cout may share a buffer or not: std::cout is in sync with stdio by default.
static std::string cells(const std::string& t, int rows, int cols, std::vector<std::array<int, 3>>& out){
    std::ostringstream e; size_t p = 0;
    for (int i = 0; i < rows; i++){
        for (int j = 0; j < cols; j++){
            int r, g, b, n = 0; if (sscanf(t.c_str() + p, "\033[48;2;%d;%d;%dm%n", &r, &g, &b, &n) != 3 || n == 0){ e << "no cell " << j << " in row " << i << " of " << rows << "x" << cols; return e.str(); }
            p += n; size_t q = p; while (q < t.size() && t[q] == ' ') q++; if (q == p){ e << "empty cell"; return e.str(); } p = q; out.push_back({r, g, b}); for (int c : {r, g, b}) if (c < 0 || c > 255){ e << "intensity " << c; return e.str(); }
        }
        if (t.compare(p, 5, "\033[0m\n") != 0){ e << "row " << i << " does not end after " << cols << " cells"; return e.str(); } p += 5;
    }
    if (p != t.size()) e << "more output after the image"; return e.str();
}
template<class T> static void imageCase(Rng& R, bool color){
    Sh s{R.far(1, 8, 30), R.far(1, 8, 30), color ? 3 : 1}; Ref<T> r(s); int mode = R.range(0, 6); double a = R.uni(-5, 5), m = std::pow(10.0, R.range(-3, 6));
    for (auto& v : r.v){ if constexpr (std::is_floating_point_v<T>) switch (mode){ case 0: v = (T)R.uni(-0.5, 0.5); break; case 1: v = (T)R.uni(0, 255); break; case 2: v = (T)(a * m); break; case 3: v = (T)(R.uni(-1, 1) * m); break; case 4: v = (T)R.uni(-9, -1); break; case 5: v = (T)(R.chance(0.5) ? 0 : 1); break; default: v = (T)((R.range(0, 255) - 128) / 255.0); } else v = (T)(mode == 2 ? 7 : mode == 3 ? R.range(0, 1) : mode == 4 ? R.range(200, 255) : R.range(0, 255)); }
    std::string ctx = std::string(tname<T>()) + (color ? " colour " : " grey ") + s.str() + " mode " + std::to_string(mode); sig(ctx); sample(ctx); SimpleMatrix<T> M = toM(r); std::string t; restyle(R, std::cout, false); Fmt was(std::cout);
    { StdoutToFile f; my_cnn::printImage(M); t = f.end(); } bool fmt = Fmt(std::cout) == was; std::cout.copyfmt(std::ios(nullptr)); CHECK(fmt, "image-format-state", "printing an image changed the formatting of std::cout, " << ctx);
    std::string d0 = diff(M, r); CHECK(d0.empty(), "image-changed", d0 << " after printing " << ctx);
    if ((was.f & std::ios::basefield) == std::ios::hex){ count("images printed to a hexadecimal stream"); return; }     // how numbers come out is then up to the route they take
    std::vector<std::array<int, 3>> c; std::string d = cells(t, s.x, s.y, c); CHECK(d.empty(), "image-layout", d << " for " << ctx << ":\n" << t); count("images printed"); count("cells", c.size());
    int hi = 0; for (auto& q : c) for (int v : q) hi = std::max(hi, v); T mx = r.v[0]; for (T v : r.v) mx = std::max(mx, v);
    for (int k = 0; k < s.z; k++) for (int i = 0; i < s.x; i++) for (int j = 0; j < s.y; j++){
        int ch = color ? k : 0; int v = c[i * s.y + j][ch]; if (!color) CHECK(c[i * s.y + j][1] == v && c[i * s.y + j][2] == v, "image-grey", "a grey pixel is shown in colour in " << ctx);
        if (r.at(i, j, k) == mx) CHECK(v == hi, "image-brightest", "the brightest pixel (" << i << "," << j << ") is shown with " << v << ", another with " << hi << " in " << ctx << ":\n" << t);
        for (int q = 0; q < s.z; q++) for (int x = 0; x < s.x; x++) for (int y = 0; y < s.y; y++) if (r.at(x, y, q) >= r.at(i, j, k)) CHECK(c[x * s.y + y][color ? q : 0] >= v, "image-order", "pixel value " << +r.at(i, j, k) << " is shown with " << v << ", " << +r.at(x, y, q) << " with " << c[x * s.y + y][color ? q : 0] << " in " << ctx);
    }
    // Spread of intensities: distinct values over a visible range are shown with distinct intensities
    // Intensities in proportion to the value: of grey images between the lowest value and the brightest intensity, of colour images between 0 and the brightest
    T mn = r.v[0]; for (T v : r.v) mn = std::min(mn, v); double top = std::is_integral_v<T> ? 255 : std::max(1.0, (double)mx), low = color ? 0 : (double)mn;
    if (std::is_floating_point_v<T> && mx < 1){ count("dark images"); return; }       // an image without a pixel of full brightness: its order is what counts
    if (top > low) for (int k = 0; k < s.z; k++) for (int i = 0; i < s.x; i++) for (int j = 0; j < s.y; j++){ double want = std::min(255.0, std::max(0.0, 255.0 * ((double)r.at(i, j, k) - low) / (top - low))); int v = c[i * s.y + j][color ? k : 0]; CHECK(std::fabs(v - want) <= 1.6, "image-scale", "pixel value " << +r.at(i, j, k) << " from " << +low << " to " << top << " is shown with " << v << " instead of about " << want << " in " << ctx); }
    count("image scales compared");
}
SCENARIO("C23", c23_image_float, 4){ imageCase<float>(R, false); }
SCENARIO("C23", c23_image_double, 2){ imageCase<double>(R, false); }
SCENARIO("C23", c23_image_uchar, 2){ imageCase<unsigned char>(R, false); }
SCENARIO("C23", c23_image_colour, 3){ if (R.chance(0.5)) imageCase<float>(R, true); else imageCase<unsigned char>(R, true); }

// ---- the progress bar ----
SCENARIO("C23", c23_bar, 1){
    const int total = R.chance(0.2) ? R.range(1000, 200000) : R.range(1, 300), steps = R.range(2, 12); const bool dflt = R.chance(0.5); const int width = dflt ? 50 : R.range(1, 120); std::vector<int> at; for (int i = 0; i < steps; i++) at.push_back(R.range(0, total - 1)); if (R.chance(0.5)) at.push_back(0); if (R.chance(0.5)) at.push_back(total - 1); std::sort(at.begin(), at.end());
    int fillWas = -1, pctWas = -1; std::string ctx = "width " + std::to_string(width) + ", total " + std::to_string(total); sig(ctx + std::to_string(at[0])); sample("progress bar of " + ctx);
    for (int v : at){
        restyle(R, std::cout, false); if (R.chance(0.2)) std::cout << std::showpos; Fmt was(std::cout); std::string t; { StdoutToFile f; if (dflt) loadingBar(v, total); else loadingBar(v, total, width); t = f.end(); } bool fmt = Fmt(std::cout) == was; std::cout.copyfmt(std::ios(nullptr));
        CHECK(fmt, "bar-format-state", "drawing the progress bar changed the formatting of std::cout, " << ctx);
        size_t p = t.find('\r'), q = t.find(']'), o = t.find('['  , p == std::string::npos ? 0 : p); CHECK(p != std::string::npos && o == p + 1 && q != std::string::npos && q > o, "bar-layout", "no bar in '" << t << "' for " << v << " with " << ctx); if (p == std::string::npos || o != p + 1 || q == std::string::npos) return;
        std::string in = t.substr(o + 1, q - o - 1); int fill = (int)std::min(in.find_first_not_of('='), in.size()); CHECK(in.find_first_not_of(' ', fill) == std::string::npos, "bar-layout", "bar '" << in << "' for " << v << " with " << ctx);
        CHECK((int)in.size() == width - 1, "bar-width", "the bar has " << in.size() << " cells instead of " << width - 1 << " at " << v << " with " << ctx);
        double want = (double)v / total; CHECK(std::fabs(fill - want * width) <= 1.001, "bar-filled", fill << " cells filled at " << v << " with " << ctx);
        int pct = -1, n = 0; bool ok = sscanf(t.c_str() + q + 1, " %d%%%n", &pct, &n) == 1 && n > 0; CHECK(ok, "bar-percentage", "no percentage in '" << t << "' at " << v << " with " << ctx);
        CHECK(pct >= 1 && pct <= 100 && std::fabs(pct - 100 * want) <= 1.001, "bar-percentage", pct << "% shown at " << v << " with " << ctx); CHECK(fill >= fillWas && pct >= pctWas, "bar-backwards", "the bar went back from " << pctWas << "% to " << pct << "% at " << v << " with " << ctx); fillWas = fill; pctWas = pct; count("progress bars read");
    }
}
