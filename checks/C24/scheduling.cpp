// Job-to-agent distribution used to balance batches.
#include "sx_api.h"
#include <cstddef>
#include <string>
#include <utility>
#include <nil/blueprint/detail/huang_lu.hpp>
using namespace nil::blueprint::components::detail;
template<int N, int A> static void run(uint64_t maxsz, uint64_t minsz, bool ratio, bool sorted = false) {
    std::list<std::pair<std::size_t, std::size_t>> l;
    std::size_t sz[N], sum = 0, big = 0;
    for (int i = 0; i < N; i++) {
        sz[i] = sx::u64(("s" + std::to_string(i)).c_str(), minsz, maxsz);
        if (sorted && i) SX_ASSUME(sz[i - 1] >= sz[i]);
        l.push_back({10 * i + 3, sz[i]}); sum += sz[i]; big = sx::max(big, sz[i]);
    }
    SX_ASSUME(sum > 0);
    auto r = huang_lu(l, A);
    SX_ASSERT(r.size() == N, "every job is placed exactly once");
    std::size_t load[A] = {0};
    for (int i = 0; i < N; i++) {
        auto it = r.find(10 * i + 3);
        SX_ASSERT(it != r.end(), "every job is placed"); SX_ASSERT(it->second < A, "agent exists");
        load[it->second] += sz[i];
    }
    std::size_t mk = 0; for (int a = 0; a < A; a++) mk = sx::max(mk, load[a]);
    if (ratio) {   // compare with an arbitrary other placement
        std::size_t other[A] = {0};
        for (int i = 0; i < N; i++) { std::size_t o = sx::u64(("o" + std::to_string(i)).c_str(), 0, A - 1); for (int a = 0; a < A; a++) other[a] += sx::sel(o == (std::size_t)a, sz[i], 0); }
        std::size_t mo = 0; for (int a = 0; a < A; a++) mo = sx::max(mo, other[a]);
        SX_ASSERT(9 * mk <= 11 * mo, "the largest load is within 11/9 of any other placement");
    }
    SX_REACH("placed");
}
SX_CASE(jobs1_agents1) { run<1, 1>(1000, 1, true); }
SX_CASE(jobs1_agents3) { run<1, 3>(1000, 1, true); }
SX_CASE(jobs2_agents2) { run<2, 2>(15, 1, true); }
SX_CASE(jobs3_agents2) { run<3, 2>(15, 0, true); }
SX_CASE(jobs4_agents2) { run<4, 2>(7, 1, true); }
SX_CASE(jobs4_agents3) { run<4, 3>(7, 1, true); }
SX_CASE(jobs5_agents2_sorted) { run<5, 2>(7, 0, true, true); }
SX_CASE(jobs5_agents3_sorted) { run<5, 3>(6, 1, true, true); }
SX_CASE_THOROUGH(jobs6_agents3_sorted) { run<6, 3>(9, 1, true, true); }
SX_CASE_THOROUGH(jobs6_agents2_sorted) { run<6, 2>(12, 1, true, true); }
SX_CASE_THOROUGH(jobs5_agents4_sorted) { run<5, 4>(12, 1, true, true); }
