// P05: RecordIO byte sequences against an independent decoder: valid frames,
// every truncation of them, changed headers, through the whole reader and
// through decode_record itself.
#include "records.h"
#define private public
#define protected public
#include "mlio/record_readers/recordio_record_reader.h"
#undef private
#undef protected

static std::string le(uint32_t v) { return std::string(reinterpret_cast<char *>(&v), 4); }
static uint32_t rd(const std::string &t, size_t i) { uint32_t v; memcpy(&v, t.data() + i, 4); return v; }
static std::string frame(uint32_t kind, const std::string &p) { return le(0xced7230a) + le((kind << 29) | static_cast<uint32_t>(p.size())) + p + std::string((4 - p.size() % 4) % 4, '\0'); }

static rec::Outcome want(const std::string &t)
{
    rec::Outcome o;
    for (size_t i = 0; i < t.size();) {
        if (t.size() - i < 8 || rd(t, i) != 0xced7230a) { o.error = "corrupt"; break; }
        uint32_t w = rd(t, i + 4);
        size_t n = w & 0x1fffffff, a = (n + 3) / 4 * 4;
        if (t.size() - i - 8 < a) { o.error = "corrupt"; break; }
        o.records.push_back(t.substr(i + 8, n));
        o.kinds.push_back(static_cast<int>(w >> 29));
        i += 8 + a;
    }
    return o;
}
static void whole(const std::string &t, h::Shape sh, size_t buf, bool peeks)
{
    h::begin("recordio data " + h::esc(t) + " over a " + h::describe(sh) + ", buffer " + std::to_string(buf));
    auto o = want(t);
    if (o.records.size() > 1) h::nontrivial();
    auto r = wrap_intrusive(new detail::Recordio_record_reader{h::stream(t, sh)});
    rec::compare(rec::drain(*r, buf, peeks), o);
}
// one call of decode_record on an exactly sized buffer
static void direct(const std::string &t, bool ignore)
{
    h::begin("decode_record of " + h::esc(t) + (ignore ? " (more may come)" : " (end)"));
    auto r = wrap_intrusive(new detail::Recordio_record_reader{h::stream("")});
    Memory_slice c = h::slice(t);
    auto o = want(t);
    bool bad = t.size() >= 8 && rd(t, 0) != 0xced7230a;
    try {
        auto x = r->decode_record(c, ignore);
        if (!x) {
            CHECK(t.empty() || (ignore && !bad && o.records.empty()), "a record or an error is withheld");
            h::eqs(h::text(c), t, "data after waiting");
            return;
        }
        CHECK(!o.records.empty(), "a record from corrupt data");
        h::eqs(h::text(x->payload()), o.records[0], "payload");
        h::eq(static_cast<int>(x->kind()), o.kinds[0], "part kind");
        h::eqs(h::text(c), t.substr(8 + (o.records[0].size() + 3) / 4 * 4), "rest");
        h::nontrivial();
    }
    catch (const Corrupt_record_error &) { CHECK(!t.empty() && o.records.empty() && (bad || !ignore), "a good or incomplete record is rejected"); }
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        for (uint32_t k = 0; k < 8; k++) for (size_t n = 0; n < 14; n++) {
            std::string f = frame(k, std::string(n, 'x')), t = f + frame(0, "abc");
            for (size_t m = 0; m <= t.size(); m++) for (bool ig : {false, true}) direct(t.substr(0, m), ig);
            for (size_t m = 0; m < 8; m++) for (int b = 0; b < 8; b++) {
                std::string x = t; x[m] = static_cast<char>(x[m] ^ (1 << b));
                for (bool ig : {false, true}) direct(x, ig);
                whole(x, {}, 1, false);
            }
            whole(t, {false, false, {1}}, 1, true);
        }
        direct(le(0xced7230a) + le(0x1fffffff) + "abc", true);
        direct(le(0xced7230a) + le(0xffffffff) + "abc", false);
        whole(frame(0, std::string(3000, 'a')) + frame(1, std::string(5001, 'b')) + frame(3, "c"), {}, 64, false);
        while (h::now() < end) {
            std::string t;
            for (size_t i = 0, n = h::rnd(h::pick({2, 5, 20})); i < n; i++) t += frame(static_cast<uint32_t>(h::rnd(h::coin(4) ? 8 : 4)), h::letters(LIT("ab\n\r\0\x0a\x23\xd7\xce"), h::rnd(h::pick({3, 9, 40, 300}))));
            if (h::coin(3) && !t.empty()) t.resize(h::rnd(t.size()));
            if (h::coin(4) && !t.empty()) t[h::rnd(t.size())] = static_cast<char>(h::rnd(256));
            whole(t, h::shape(), rec::buffer(), h::coin());
            direct(t, h::coin());
        }
    });
}
