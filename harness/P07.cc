// P07: concatenated Parquet-like files against an independent splitter.
#include "records.h"
#define private public
#define protected public
#include "mlio/record_readers/parquet_record_reader.h"
#undef private
#undef protected

static std::string le(uint32_t v) { return std::string(reinterpret_cast<char *>(&v), 4); }
static uint32_t rd(const std::string &t, size_t i) { uint32_t v; memcpy(&v, t.data() + i, 4); return v; }
static const std::string heads = "\x15\x29\x36\x49\x59\x68\x79";

// length of the first file, 0: none yet, -1: not a file
static long first(const std::string &t)
{
    if (t.size() < 4) return 0;
    if (t.compare(0, 4, "PAR1") != 0) return -1;
    for (size_t p = 8; p + 4 <= t.size(); p++) {
        if (t.compare(p, 4, "PAR1") != 0) continue;
        uint64_t m = rd(t, p - 4);
        if (m < 9 || m + 4 > p - 4) continue;
        if (t[p - 5] != 0 || heads.find(t[p - 4 - m]) == std::string::npos) continue;
        return static_cast<long>(p + 4);
    }
    return 0;
}
static void whole(const std::string &t, h::Shape sh, size_t buf, bool peeks)
{
    h::begin("parquet data " + h::esc(t) + " over a " + h::describe(sh) + ", buffer " + std::to_string(buf));
    rec::Outcome o;
    for (std::string s = t; !s.empty();) {
        long n = first(s);
        if (n <= 0) { o.error = "corrupt"; break; }
        o.records.push_back(s.substr(0, static_cast<size_t>(n))); o.kinds.push_back(0);
        s = s.substr(static_cast<size_t>(n));
    }
    if (o.records.size() > 1) h::nontrivial();
    auto r = wrap_intrusive(new detail::Parquet_record_reader{h::stream(t, sh)});
    rec::compare(rec::drain(*r, buf, peeks), o);
}
static void direct(const std::string &t, bool ignore)
{
    h::begin("decode_record of " + h::esc(t) + (ignore ? " (more may come)" : " (end)"));
    auto r = wrap_intrusive(new detail::Parquet_record_reader{h::stream("")});
    Memory_slice c = h::slice(t);
    long n = first(t);
    try {
        auto x = r->decode_record(c, ignore);
        if (!x) {
            CHECK(t.empty() || (ignore && n == 0), "a record or an error is withheld");
            h::eqs(h::text(c), t, "data after waiting");
            return;
        }
        CHECK(n > 0, "a record from data without a file");
        h::eqs(h::text(x->payload()), t.substr(0, static_cast<size_t>(n)), "file");
        h::eqs(h::text(c), t.substr(static_cast<size_t>(n)), "rest");
        h::nontrivial();
    }
    catch (const Corrupt_record_error &) { CHECK(!t.empty() && (n < 0 || (n == 0 && !ignore)), "a good or incomplete file is rejected"); }
}
static std::string file(const std::string &body, char head, const std::string &meta) { return "PAR1" + body + head + meta + LIT("\0") + le(static_cast<uint32_t>(meta.size() + 2)) + "PAR1"; }
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        // every head byte, metadata sizes around the minimum and around the file size
        for (int c = 0; c < 256; c++) { direct(file("xy", static_cast<char>(c), "abcdefg"), false); direct(file("", static_cast<char>(c), "abcdefg"), true); }
        for (size_t m = 0; m < 14; m++) for (size_t b = 0; b < 3; b++) {
            std::string f = file(std::string(b, 'x'), '\x15', std::string(m, 'm'));
            for (uint32_t d : {0u, 1u, 2u, 8u, 9u, 10u, 14u, 0x7fffffffu, 0x80000000u, 0xfffffffcu, 0xffffffffu}) {
                std::string g = f; memcpy(&g[g.size() - 8], le(d).data(), 4); direct(g, false); direct(g, true); direct(g + f, false);
            }
            for (size_t k = 0; k <= f.size(); k++) for (bool ig : {false, true}) { direct(f.substr(0, k), ig); direct(f + f.substr(0, k), ig); }
            for (size_t k = 0; k < f.size(); k++) { std::string g = f; g[k] ^= 1; direct(g, false); direct(g, true); whole(g + f, {}, 1, false); }
            whole(f + f + f, {false, false, {1}}, 1, true);
        }
        for (size_t m : {7, 8, 9, 10, 11, 12, 13}) direct("PAR1" + LIT("\x15") + std::string(m, '\0') + le(static_cast<uint32_t>(m + 1)) + "PAR1", false);
        while (h::now() < end) {
            std::string t;
            for (size_t i = 0, n = h::rnd(h::pick({2, 4, 10})); i < n; i++) {
                std::string b;
                for (size_t j = 0, k = h::rnd(4); j < k; j++) b += h::coin() ? "PAR1" : h::coin() ? LIT("\0") + le(static_cast<uint32_t>(h::rnd(30))) + "PAR1" : h::letters(LIT("\0\x15\x09PAR1"), h::rnd(20));
                t += file(b, heads[h::rnd(heads.size())], h::letters(LIT("ab\0\x15"), 7 + h::rnd(h::pick({1, 5, 60}))));
            }
            if (h::coin(3) && !t.empty()) t.resize(h::rnd(t.size()));
            if (h::coin(4) && !t.empty()) t[h::rnd(t.size())] = static_cast<char>(h::rnd(256));
            whole(t, h::shape(), rec::buffer(), h::coin());
            direct(t, h::coin());
        }
    });
}
