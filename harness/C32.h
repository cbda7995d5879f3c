// Threads released together, and what is shared between the units of C32.
#include "geo.h"
#include "io.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <atomic>
#include <thread>
#include <functional>
namespace ct {
// All threads leave the gate together; the trace of finished operations uses relaxed atomics, which order nothing.
struct Gate { std::atomic<int> n{0}; int want; explicit Gate(int w) : want(w) {} void wait() { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < want) std::this_thread::yield(); } };
typedef std::function<std::string()> Op; // returns a description of the result
struct Group { // runs the operations of every thread concurrently and compares the results with the sequential ones
    vh::Case& c; std::vector<std::vector<std::pair<std::string, Op>>> todo; std::vector<std::vector<std::string>> want;
    template<class Seq> void run(const char* kind, Seq sequential) {
        int T = int(todo.size()); std::vector<std::vector<std::string>> got(T); std::vector<uint64_t> seeds; for (int t = 0; t < T; t++) seeds.push_back(c.rng.u64());
        for (int t = 0; t < T; t++) got[t].resize(todo[t].size());
        std::vector<int> order(4096, -1); std::atomic<int> pos{0}; Gate g(T); std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] { vh::Rng r(seeds[t]); g.wait(); for (size_t i = 0; i < todo[t].size(); i++) { for (uint64_t y = r.below(4); y > 0; y--) std::this_thread::yield(); try { got[t][i] = todo[t][i].second(); } catch (const std::exception& e) { got[t][i] = std::string("exception ") + e.what(); } int p = pos.fetch_add(1, std::memory_order_relaxed); if (p < 4096) order[size_t(p)] = t * 256 + int(i); } });
        for (auto& t : th) t.join();
        sequential();
        for (int t = 0; t < T; t++) for (size_t i = 0; i < todo[t].size(); i++) { VH_CHECK(c, got[t][i] == want[t][i], kind, "thread " << t << ", operation " << todo[t][i].first << " gave\n" << got[t][i].substr(0, 600) << "\nalone it gives\n" << want[t][i].substr(0, 600)); c.ev("concurrent operations"); }
        c.distinct(vh::hashBytes(order.data(), size_t(std::min(4096, int(pos))) * sizeof(int))); c.ev("concurrent runs");
    }
};
std::vector<std::pair<std::string, Op>> independent(uint64_t seed, const std::string& scratch, int thread); // C32b.cpp
}
