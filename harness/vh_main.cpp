#include "vh.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cstdlib>
#include <fstream>
#include <unordered_set>

namespace vh {
std::vector<Section>& sections() { static std::vector<Section> s; return s; }
namespace {
std::map<std::string, uint64_t> events;
std::unordered_set<uint64_t> hashes;
std::vector<std::string> samples;
std::map<std::string, uint64_t> caseCount, sampleCount;
struct Viol { std::string section; long index; std::string kind, msg, desc; };
std::vector<Viol> viols;
std::map<std::string, int> violKinds;
uint64_t violTotal = 0;
std::string curDesc;
char* curMap = nullptr;
const size_t curSize = 8192;
std::string curPrefix;
void cur(const std::string& s) {
    if (!curMap) return;
    size_t n = std::min(s.size(), curSize - 1);
    memcpy(curMap, s.data(), n);
    memset(curMap + n, 0, curSize - n);
}
std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
}
void Case::ev(const std::string& n, uint64_t k) { events[n] += k; }
void Case::distinct(uint64_t h) { hashes.insert(comb(hashStr(section), h)); }
void Case::sample(const std::string& s) { if (sampleCount[section]++ < 2) samples.push_back(section + "#" + std::to_string(index) + ": " + s.substr(0, 500)); }
void Case::desc(const std::string& s) { curDesc = s; cur(curPrefix + s); }
void Case::fail(const std::string& kind, const std::string& msg) {
    violTotal++;
    if (violKinds[section + "/" + kind]++ < 3) viols.push_back(Viol{section, index, kind, msg.substr(0, 4000), curDesc.substr(0, 6000)});
}
}

using namespace vh;
int main(int argc, char** argv) {
    uint64_t seed = 1; std::string tier = "quick", out, curf, only, hashf, scratch, filter; long onlyCase = -1; long shard = 0, nsh = 1, skip = 0; double scale = 1; 
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tier") tier = nx();
        else if (a == "--out") out = nx();
        else if (a == "--cur") curf = nx();
        else if (a == "--hashes") hashf = nx();
        else if (a == "--scratch") scratch = nx();
        else if (a == "--section") only = nx();
        else if (a == "--case") onlyCase = atol(nx().c_str());
        else if (a == "--shard") shard = atol(nx().c_str());
        else if (a == "--nshards") nsh = atol(nx().c_str());
        else if (a == "--skip") skip = atol(nx().c_str());
        else if (a == "--scale") scale = atof(nx().c_str());
        else if (a == "--only-sections") filter = nx();
        else if (a == "--list") { for (auto& s : sections()) printf("%s %ld %ld\n", s.name.c_str(), s.quick, s.thorough); return 0; }
    }
    if (!curf.empty()) {
        int fd = open(curf.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, curSize) == 0) curMap = static_cast<char*>(mmap(nullptr, curSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
    bool thorough = tier == "thorough";
    long ordinal = 0; // running number over all cases of this shard (used to resume after a crash)
    uint64_t total = 0;
    for (auto& s : sections()) {
        if (!only.empty() && s.name != only) continue;
        if (!filter.empty() && ("," + filter + ",").find("," + s.name + ",") == std::string::npos) continue;
        long n = thorough ? s.thorough : s.quick;
        bool huge = s.name.compare(0, 4, "huge") == 0; // few expensive cases: their number is not scaled up, and they are left out where everything is slow
        if (huge) { if (scale < .5 && onlyCase < 0) n = 0; }
        else if (scale != 1) n = std::max<long>(1, static_cast<long>(n * scale));
        for (long k = 0; k < n; k++) {
            if (onlyCase >= 0 && k != onlyCase) continue;
            if (onlyCase < 0 && ((k + (huge ? static_cast<long>(hashStr(s.name) % 64) : 0)) % nsh) != shard) continue;
            ordinal++;
            if (ordinal <= skip) continue;
            Case c;
            c.rng = Rng(comb(comb(seed, hashStr(s.name)), static_cast<uint64_t>(k)));
            c.section = s.name; c.index = k; c.thorough = thorough; c.scratch = scratch;
            curDesc.clear();
            curPrefix = std::to_string(ordinal) + "\n" + s.name + "\n" + std::to_string(k) + "\n";
            cur(curPrefix);
            try { s.fn(c); }
            catch (const CaseFail&) {}
            catch (const std::exception& e) { c.fail("unexpected-exception", std::string("exception escaped: ") + e.what()); }
            catch (...) { c.fail("unexpected-exception", "unknown exception escaped"); }
            caseCount[s.name]++; total++;
        }
    }
    cur("done\n");
    if (!out.empty()) {
        std::ofstream o(out + ".tmp");
        o << "{\"cases\":" << total << ",\"viol_total\":" << violTotal << ",\"sections\":{";
        bool f = true;
        for (auto& p : caseCount) { if (!f) o << ","; f = false; o << jesc(p.first) << ":" << p.second; }
        o << "},\"events\":{"; f = true;
        for (auto& p : events) { if (!f) o << ","; f = false; o << jesc(p.first) << ":" << p.second; }
        o << "},\"samples\":["; f = true;
        for (auto& p : samples) { if (!f) o << ","; f = false; o << jesc(p); }
        o << "],\"violations\":["; f = true;
        for (auto& v : viols) { if (!f) o << ","; f = false; o << "{\"section\":" << jesc(v.section) << ",\"case\":" << v.index << ",\"kind\":" << jesc(v.kind) << ",\"msg\":" << jesc(v.msg) << ",\"desc\":" << jesc(v.desc) << "}"; }
        o << "]}\n"; o.close();
        rename((out + ".tmp").c_str(), out.c_str());
        if (!hashf.empty()) {
            std::ofstream h(hashf, std::ios::binary);
            for (uint64_t x : hashes) h.write(reinterpret_cast<const char*>(&x), 8);
        }
    }
    return violTotal ? 3 : 0;
}
