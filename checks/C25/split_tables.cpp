// Embedded reverse-sparse tables for SHA-256 and the table reader.
#include "sx_api.h"
#include "sx_getline.h"
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <nil/blueprint/detail/lookup_table_loaders.hpp>
using namespace nil::blueprint::components::detail;
struct F { using value_type = std::uint64_t; using integral_type = std::uint64_t; static constexpr std::size_t modulus_bits = 255; };
using Tab = std::vector<std::vector<std::uint64_t>>;
// digits of b in the given base, two bits per digit; false if b is not eight digits 0..3
static bool pack(std::uint64_t b, unsigned base, std::uint32_t &out) {
    out = 0; for (unsigned i = 0; i < 8; i++) { unsigned d = b % base; b /= base; if (d > 3) return false; out |= d << (2 * i); } return b == 0;
}
// digits (bit a_i + bit b_i + bit c_i) of three overlapping eight-bit windows of a 32-bit word
static void sums(unsigned r1, unsigned r2, unsigned r3, std::uint32_t &dig, std::uint32_t &par) {
    std::uint32_t w = sx::u32("word", 0, ~0u);
    auto bit = [&](unsigned p) { return (w >> (p % 32)) & 1; };
    dig = par = 0;
    for (unsigned i = 0; i < 8; i++) { std::uint32_t a = bit(i + r1), b = bit(i + r2), c = bit(i + r3), s = a ^ b ^ c, m = (a & b) | (a & c) | (b & c); dig |= (s | (m << 1)) << (2 * i); par |= s << i; }
}
static void content(const char *name, unsigned base, std::size_t rows, unsigned r1, unsigned r2, unsigned r3) {
    Tab t;
    SX_ASSERT(load_lookup_table_from_bin<F>(name, t), "table loads");
    SX_ASSERT(t.size() == 2 && t[0].size() == rows && t[1].size() == rows, "table shape");
    std::uint32_t dig, par; sums(r1, r2, r3, dig, par);
    std::vector<bool> seen(65536, false);
    for (std::size_t i = 0; i < rows; i++) {
        std::uint32_t p; SX_ASSERT(pack(t[1][i], base, p), "row holds eight digits below four");
        std::uint32_t bits = 0; for (unsigned k = 0; k < 8; k++) bits |= ((p >> (2 * k)) & 1) << k;
        SX_ASSERT(t[0][i] == bits, "row pairs digits with their parities");
        SX_ASSERT(!seen[p], "no digit string twice"); seen[p] = true;
    }
    // membership of the symbolic digit string, as a decision tree over its sixteen bits
    std::vector<std::uint64_t> lvl(65536); for (std::size_t i = 0; i < 65536; i++) lvl[i] = seen[i];
    for (unsigned k = 0; k < 16; k++) { std::vector<std::uint64_t> nx(lvl.size() / 2); bool c = (dig >> k) & 1; for (std::size_t i = 0; i < nx.size(); i++) nx[i] = sx::sel(c, lvl[2 * i + 1], lvl[2 * i]); lvl.swap(nx); }
    bool found = lvl[0] == 1;
    SX_ASSERT(found, "every sum of three rotations of a word has its row");
    SX_REACH("content");
}
SX_CASE(split_4_content) { content("8_split_4", 4, 65536, 2, 13, 22); }
SX_CASE(split_7_content) { content("8_split_7", 7, 43904, 6, 11, 25); }
SX_CASE(unknown_table) { Tab t; SX_ASSERT(!load_lookup_table_from_bin<F>("8_split_5", t), "unknown table is refused"); SX_REACH("unknown"); }
// reader: symbolic hexadecimal digits come back as the written numbers
static char hexc(std::uint32_t d) { return (char)sx::sel(d < 10, '0' + d, 'a' + d - 10); }
SX_CASE(reader_two_columns) {
    std::uint32_t x = sx::u32("x", 0, 15), y = sx::u32("y", 0, 15), z = sx::u32("z", 0, 15);
    std::string s = std::string("2\n") + hexc(x) + "1 2" + hexc(y) + "\n" + hexc(z) + " ff\n";
    std::stringstream ss(s); Tab t;
    SX_ASSERT(parse_lookup_table<F>(ss, 2, t), "well formed text is accepted");
    SX_ASSERT(t.size() == 2 && t[0].size() == 2 && t[1].size() == 2, "shape");
    SX_ASSERT(t[0][0] == 16 * x + 1, "first column holds the written number"); SX_ASSERT(t[1][0] == 32 + y, "second column holds the written number");
    SX_ASSERT(t[0][1] == z, "short numbers are read"); SX_ASSERT(t[1][1] == 255, "rows are independent");
    SX_REACH("reader");
}
SX_CASE(reader_rejects_short_rows) {
    std::string s = "1\n"; std::uint32_t d = sx::u32("d", 0, 15); s += hexc(d); s += '\n';
    std::stringstream ss(s); Tab t;
    SX_ASSERT(!parse_lookup_table<F>(ss, 2, t), "a row with a missing column is refused"); SX_REACH("short");
}
// files: the first readable, well formed candidate is used
SX_CASE(file_candidates) {
    char dir[] = "/tmp/sxtabXXXXXX"; if (!mkdtemp(dir)) return;
    std::set<std::string> cand; std::uint32_t st[3];
    for (unsigned k = 0; k < 3; k++) {
        st[k] = sx::fork<std::uint32_t>(sx::u32(("state" + std::to_string(k)).c_str(), 0, 2));   // 0 missing, 1 malformed, 2 good
        std::string f = std::string(dir) + "/t" + std::to_string(k); cand.insert(f);
        if (st[k] == 1) std::ofstream(f) << "3\n1 2\nzz 4\n5 6\n";
        if (st[k] == 2) std::ofstream(f) << "2\na" << k << " b\n1c d" << k << "\n";
    }
    Tab t; bool ok = load_lookup_table<F>(cand, 2, t);
    for (unsigned k = 0; k < 3; k++) unlink((std::string(dir) + "/t" + std::to_string(k)).c_str());
    rmdir(dir);
    int first = st[0] == 2 ? 0 : st[1] == 2 ? 1 : st[2] == 2 ? 2 : -1;
    SX_ASSERT(ok == (first >= 0), "loads iff some candidate is readable and well formed");
    if (first >= 0) SX_ASSERT((t == Tab{{0xa0u + first, 0x1c}, {0xb, 0xd0u + first}}), "holds the first good candidate");
    SX_REACH("files");
}
SX_CASE(reader_wide_numbers) {   // up to the full width of a table entry
    std::uint32_t x = sx::u32("x", 0, 15), n = sx::fork<std::uint32_t>(sx::u32("len", 1, 15));
    std::string num; std::uint64_t v = 0; for (unsigned i = 0; i < n; i++) { std::uint32_t d = i == 0 ? x : (i * 7 + 3) & 15; num += hexc(d); v = v * 16 + d; }
    std::stringstream ss("1\n" + num + " " + num + "  7\n"); Tab t;
    SX_ASSERT(parse_lookup_table<F>(ss, 3, t) && t.size() == 3 && t[0].size() == 1, "three columns are read");
    SX_ASSERT(t[0][0] == v, "first"); SX_ASSERT(t[1][0] == v, "second"); SX_ASSERT(t[2][0] == 7, "third");
    SX_REACH("wide");
}
