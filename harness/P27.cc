// P27: the distinct-count sketch.  The oracle has its own hash (XXH32, seed 0),
// rank and estimate.
#include "h.h"
#include <cmath>
#include <stdexcept>
#include "mlio-py/mlio/contrib/insights/hll/hyperloglog.h"
struct Sketch : hll::HyperLogLog {
    using hll::HyperLogLog::HyperLogLog;
    const std::vector<uint8_t> &regs() const { return M_; }
    void set(std::vector<uint8_t> v) { M_ = std::move(v); }
};
static uint32_t rol(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint32_t xx(const std::string &s)
{
    const uint32_t P1 = 2654435761U, P2 = 2246822519U, P3 = 3266489917U, P4 = 668265263U, P5 = 374761393U;
    auto u32 = [&](size_t i) { uint32_t v = 0; for (size_t k = 0; k < 4; k++) v |= static_cast<uint32_t>(static_cast<uint8_t>(s[i + k])) << (8 * k); return v; };
    size_t i = 0, n = s.size();
    uint32_t h;
    if (n >= 16) {
        uint32_t v[4] = {P1 + P2, P2, 0, 0u - P1};
        for (; i + 16 <= n; i += 16)
            for (size_t k = 0; k < 4; k++) v[k] = rol(v[k] + u32(i + 4 * k) * P2, 13) * P1;
        h = rol(v[0], 1) + rol(v[1], 7) + rol(v[2], 12) + rol(v[3], 18);
    }
    else h = P5;
    h += static_cast<uint32_t>(n);
    for (; i + 4 <= n; i += 4) h = rol(h + u32(i) * P3, 17) * P4;
    for (; i < n; i++) h = rol(h + static_cast<uint8_t>(s[i]) * P5, 11) * P1;
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16;
    return h;
}
using Regs = std::vector<uint8_t>;
static void put(Regs &r, int b, const std::string &s)
{
    uint32_t v = xx(s), idx = v >> (32 - b);
    int rank = 1;
    for (int i = 31 - b; i >= 0 && !((v >> i) & 1); i--) rank++;
    r[idx] = std::max(r[idx], static_cast<uint8_t>(rank));
}
static double guess(const Regs &r)
{
    double m = static_cast<double>(r.size()), sum = 0, zeros = 0;
    double alpha = r.size() == 16 ? 0.673 : r.size() == 32 ? 0.697 : r.size() == 64 ? 0.709 : 0.7213 / (1 + 1.079 / m);
    for (auto v : r) { sum += std::ldexp(1.0, -v); if (!v) zeros++; }
    double e = alpha * m * m / sum;
    if (e <= 2.5 * m) { if (zeros > 0) e = m * std::log(m / zeros); }
    else if (e > 4294967296.0 / 30) e = -4294967296.0 * std::log(1 - e / 4294967296.0);
    return e;
}
static void same(const Sketch &s, const Regs &r, const std::string &what)
{
    h::eq(s.regs().size(), r.size(), what + ": number of registers");
    h::eq(size_t{s.register_size()}, r.size(), what + ": register_size");
    for (size_t i = 0; i < r.size(); i++)
        if (s.regs()[i] != r[i]) h::fail(what + ": register " + std::to_string(i) + ": expected " + std::to_string(r[i]) + ", got " + std::to_string(s.regs()[i]));
    double a = s.estimate(), e = guess(r);
    if (!(std::fabs(a - e) <= 1e-9 * std::fabs(e) || (std::isnan(a) && std::isnan(e)) || a == e)) h::fail(what + ": estimate " + std::to_string(a) + ", expected " + std::to_string(e));
}
static std::string value()
{
    switch (h::rnd(4)) {
    case 0: return std::to_string(h::rnd(100000));
    case 1: return h::letters("ab", h::rnd(5));
    case 2: return h::letters(LIT("ab\0\xff,\n "), h::rnd(40));
    default: return h::letters("0123456789abcdef", 1 + h::rnd(70));
    }
}
static void bounds()
{
    for (int b = 0; b < 256; b++) {
        if (b > 20 && b <= 30 && b != 22) continue;        // gigabytes of registers
        h::begin("HyperLogLog(" + std::to_string(b) + ")");
        auto r = h::raised<std::invalid_argument>([&] { Sketch s{static_cast<uint8_t>(b)}; same(s, Regs(size_t{1} << b, 0), "new sketch"); });
        h::eqs(r, b < 4 || b > 30 ? "expected" : "", "invalid bit width");
    }
}
static void ranks()
{
    // every possible register value: search values whose rank is high
    for (int b : {4, 5, 6, 7}) {
        std::vector<std::string> best(33);
        for (int i = 0; i < 60000; i++) { auto s = "v" + std::to_string(i); uint32_t v = xx(s); int rank = 1; for (int k = 31 - b; k >= 0 && !((v >> k) & 1); k--) rank++; best[static_cast<size_t>(rank)] = s; }
        Sketch s{static_cast<uint8_t>(b)};
        Regs r(size_t{1} << b, 0);
        for (auto &v : best) if (!v.empty()) { h::begin("bit width " + std::to_string(b) + ", add " + h::esc(v)); s.add(v); put(r, b, v); same(s, r, "after add"); h::nontrivial(); }
    }
}
static void one()
{
    int b = static_cast<int>(4 + h::rnd(h::coin(4) ? 9 : 3));
    size_t n = h::coin(3) ? 200 + h::rnd(400) : h::rnd(30);
    std::vector<std::string> v;
    for (size_t i = 0; i < n; i++) v.push_back(h::coin(5) && i ? v[h::rnd(i)] : value());
    h::begin("bit width " + std::to_string(b) + ", values " + h::str(v));
    Sketch s{static_cast<uint8_t>(b)}, t{static_cast<uint8_t>(b)}, x{static_cast<uint8_t>(b)}, y{static_cast<uint8_t>(b)};
    Regs r(size_t{1} << b, 0), rx = r;
    for (auto &e : v) {
        Regs before = s.regs();
        s.add(e); put(r, b, e);
        size_t changed = 0;
        for (size_t i = 0; i < r.size(); i++) { CHECK(s.regs()[i] >= before[i], "a register is never lowered"); changed += s.regs()[i] != before[i]; }
        CHECK(changed <= 1, "one register per value");
    }
    same(s, r, "sketch of the values");
    auto w = v;
    for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[h::rnd(i)]);
    for (auto &e : w) { t.add(e); if (h::coin(3)) t.add(e); }
    same(t, r, "other order, repeated values");
    size_t cut = h::rnd(n + 1);
    for (size_t i = 0; i < n; i++) { if (i < cut || h::coin(5)) { x.add(v[i]); put(rx, b, v[i]); } if (i >= cut) y.add(v[i]); }
    Regs ry = y.regs();
    x.merge(y);
    same(x, r, "merged parts");
    same(y, ry, "the merged sketch itself");
    x.merge(y); same(x, r, "merged again");
    x.merge(x); same(x, r, "merged with itself");
    Sketch z{static_cast<uint8_t>(b)};
    z.merge(s); same(z, r, "merged into an empty one");
    z.merge(Sketch{static_cast<uint8_t>(b)}); same(z, r, "merged with an empty one");
    int c = b == 4 ? 5 : b - 1;
    Sketch other{static_cast<uint8_t>(c)};
    h::eqs(h::raised<std::invalid_argument>([&] { x.merge(other); }), "expected", "merge of another size");
    same(x, r, "after a refused merge");
    x.clear(); same(x, Regs(r.size(), 0), "cleared");
    for (auto &e : w) x.add(e);
    same(x, r, "refilled after clear");
    // register contents that real values reach only after billions of additions
    Regs any(r.size());
    size_t top = 1 + h::rnd(static_cast<size_t>(33 - b));
    for (auto &e : any) e = static_cast<uint8_t>(h::coin(8) ? h::rnd(top + 1) : top - h::rnd(std::min<size_t>(top, 3)));
    x.set(any); same(x, any, "given registers");
    for (size_t i = 0; i < any.size(); i++) any[i] = std::max(any[i], r[i]);
    x.merge(s); same(x, any, "merged into given registers");
    if (n > 5) h::nontrivial();
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double deadline, bool) {
        bounds();
        ranks();
        while (h::now() < deadline) one();
    });
}
