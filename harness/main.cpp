#include "common.h"
#include <csignal>
#include <fcntl.h>
#include <mutex>
#include <unordered_set>
#include <unordered_map>
#include <unistd.h>
#include <sys/stat.h>
#include <exception>
#include <algorithm>

namespace vt{

static struct State{
    uint64_t seed = 1; long cur = 0; const char* scn = "";
    std::string report, scratch;
    bool san_only = false, thorough = false, valgrind = false, quiet = true;
    std::map<std::string, uint64_t> counters, per_scn;
    std::unordered_map<const char*, uint64_t> counts;
    std::unordered_set<uint64_t> sigs; uint64_t case_sig = 0;
    std::vector<std::string> samples;
    std::map<std::string, int> samples_per_scn;
    std::map<std::string, int> fails;
    FILE* rep = nullptr; int crumb = -1; long nfail = 0;
    std::mutex m;
} S;

std::vector<Scenario>& scenarios(){ static std::vector<Scenario> v; return v; }

static std::string esc(const std::string& s){
    std::string o;
    for (unsigned char c : s){
        if (c == '"' || c == '\\'){ o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f){ char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
void fail(const std::string& key, const std::string& msg){
    std::lock_guard<std::mutex> l(S.m);
    if (S.san_only){ S.counters["functional mismatches ignored (other properties)"]++; return; }
    S.nfail++;
    if (S.fails[key]++ < 3 && S.rep){
        fprintf(S.rep, "{\"fail\":\"%s\",\"scenario\":\"%s\",\"case\":%ld,\"msg\":\"%s\"}\n", esc(key).c_str(), S.scn, S.cur, esc(msg.substr(0, 2000)).c_str());
        fflush(S.rep);
    }
}
void count(const char* what, uint64_t n){
    // Keyed by the literal's address here, by its text in the report
    std::lock_guard<std::mutex> l(S.m);
    S.counts[what] += n;
}
void sig(const std::string& w){
    std::lock_guard<std::mutex> l(S.m);
    if (!S.case_sig){ S.case_sig = 1469598103934665603ull; for (const char* p = S.scn; *p; p++) S.case_sig = (S.case_sig ^ (unsigned char)*p) * 1099511628211ull; }
    for (unsigned char c : w) S.case_sig = (S.case_sig ^ c) * 1099511628211ull;
}
void sample(const std::string& w){
    std::lock_guard<std::mutex> l(S.m);
    if (S.samples_per_scn[S.scn]++ < 1 && S.samples.size() < 12) S.samples.push_back(std::string(S.scn) + ": " + w.substr(0, 400));
}
const std::string& scratchDir(){
    if (S.scratch.empty()){ S.scratch = S.report + ".scratch"; mkdir(S.scratch.c_str(), 0700); }
    return S.scratch;
}
bool thorough(){ return S.thorough; }
bool underValgrind(){ return S.valgrind; }

static void crumb(long i, const char* n){
    if (S.crumb < 0) return;
    char b[160]; int k = snprintf(b, sizeof b, "%-12ld %-140s\n", i, n); (void)!pwrite(S.crumb, b, k, 0);
}
} // namespace vt

int main(int argc, char** argv){
    using namespace vt;
    long cases = 100, only_case = -1, first = 0; std::string prop, only;
    for (int i = 1; i < argc; i++){
        std::string a = argv[i];
        auto nx = [&]{ return std::string(argv[++i]); };
        if (a == "--seed") S.seed = std::stoull(nx());
        else if (a == "--cases") cases = std::stol(nx());
        else if (a == "--first") first = std::stol(nx());
        else if (a == "--case") only_case = std::stol(nx());
        else if (a == "--report") S.report = nx();
        else if (a == "--prop") prop = nx();
        else if (a == "--only") only = nx();
        else if (a == "--san-only") S.san_only = true;
        else if (a == "--thorough") S.thorough = true;
        else if (a == "--valgrind") S.valgrind = true;
        else if (a == "--verbose") S.quiet = false;
        else if (a == "--list"){ for (auto& s : scenarios()) fprintf(stderr, "%s %s %d\n", s.prop, s.name, s.weight); return 0; }
    }
    if (S.report.empty()) S.report = "/tmp/vt_report." + std::to_string(getpid());
    S.rep = fopen(S.report.c_str(), "w");
    S.crumb = open((S.report + ".crumb").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    if (S.quiet){ int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
    std::vector<Scenario> list;
    std::vector<Scenario> all = scenarios();
    std::sort(all.begin(), all.end(), [](auto& a, auto& b){ return std::make_pair(std::string(a.prop), std::string(a.name)) < std::make_pair(std::string(b.prop), std::string(b.name)); });
    // Spread the weights so that every scenario is reached early
    int maxw = 0; for (auto& s : all) maxw = std::max(maxw, s.weight);
    for (int w = 0; w < maxw; w++) for (auto& s : all)
        if (s.weight > w && (prop.empty() || prop == s.prop) && (only.empty() || only == s.name)) list.push_back(s);
    if (list.empty()){ fprintf(stderr, "no scenario\n"); return 3; }
    long done = 0;
    for (long i = first; i < first + cases; i++){
        if (only_case >= 0 && i != only_case) continue;
        const Scenario& sc = list[i % list.size()];
        S.cur = i; S.scn = sc.name; crumb(i, sc.name);
        Rng R(S.seed * 0x9E3779B97F4A7C15ull ^ ((uint64_t)i + 1) * 0xD1B54A32D192ED03ull);
        R.u64();
        { std::lock_guard<std::mutex> l(S.m); S.per_scn[sc.name]++; }
        try{ sc.fn(R); }
        catch(const std::exception& e){ fail(std::string(sc.name) + ":unexpected-exception", e.what()); }
        catch(...){ fail(std::string(sc.name) + ":unexpected-exception", "non-std exception"); }
        done++;
        if (S.case_sig) S.sigs.insert(S.case_sig);
        S.case_sig = 0;
    }
    crumb(-1, "done");
    fprintf(S.rep, "{\"summary\":1,\"cases\":%ld,\"failures\":%ld,\"counters\":{", done, S.nfail);
    bool f = true;
    for (auto& [k, v] : S.counts) S.counters[k] += v;
    for (auto& [k, v] : S.counters){ fprintf(S.rep, "%s\"%s\":%llu", f ? "" : ",", esc(k).c_str(), (unsigned long long)v); f = false; }
    fprintf(S.rep, "},\"scenarios\":{"); f = true;
    for (auto& [k, v] : S.per_scn){ fprintf(S.rep, "%s\"%s\":%llu", f ? "" : ",", esc(k).c_str(), (unsigned long long)v); f = false; }
    fprintf(S.rep, "},\"samples\":["); f = true;
    for (auto& s : S.samples){ fprintf(S.rep, "%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
    fprintf(S.rep, "]}\n");
    fclose(S.rep);
    FILE* sf = fopen((S.report + ".sig").c_str(), "w");
    for (uint64_t h : S.sigs) fwrite(&h, 8, 1, sf);
    fclose(sf);
    if (!S.scratch.empty()) rmdir(S.scratch.c_str());
    return S.nfail ? 10 : 0;
}
