// P04: texts built from known records, read through every stream record reader
// under scripted read sizes, buffer sizes, size hints, peeks and zero-copy; the
// records must be the ones the text was built from and must not change later.
#include "records.h"
#include "mlio/csv_reader.h"
#include "mlio/record_readers/csv_record_reader.h"
#include "mlio/record_readers/parquet_record_reader.h"
#include "mlio/record_readers/recordio_record_reader.h"
#include "mlio/record_readers/text_line_record_reader.h"

enum Kind { LINES, CSV, RECORDIO, PARQUET };
static const char *names[] = {"text lines", "csv rows", "recordio", "parquet"};
static std::string le(uint32_t v) { return std::string(reinterpret_cast<char *>(&v), 4); }

static std::string build(Kind k, const std::vector<std::string> &rs, const std::vector<int> &kinds, rec::Outcome &want)
{
    std::string t;
    for (size_t i = 0; i < rs.size(); i++) {
        want.kinds.push_back(0);
        switch (k) {
        case LINES: want.records.push_back(rs[i]); t += rs[i] + (i % 3 == 0 ? "\n" : i % 3 == 1 ? "\r\n" : "\n"); break;
        case CSV: want.records.push_back("\"" + rs[i] + "\n" + rs[i] + "\",1"); t += want.records.back() + (i % 2 ? "\n" : "\r\n"); break;
        case RECORDIO: {
            want.records.push_back(rs[i]);
            want.kinds.back() = kinds[i];
            static const uint32_t flag[] = {0, 1, 2, 3};
            t += le(0xced7230a) + le((flag[kinds[i]] << 29) | static_cast<uint32_t>(rs[i].size())) + rs[i] + std::string((4 - rs[i].size() % 4) % 4, '\0');
            break;
        }
        case PARQUET: want.records.push_back("PAR1" + rs[i] + LIT("\x15""abcdefg\0") + le(9) + "PAR1"); t += want.records.back(); break;
        }
    }
    return t;
}
// part kinds as the header encodes them: 0 complete, 1 begin, 2 middle, 3 end
static int kind_value(int enc)
{
    return static_cast<int>(enc == 0 ? Record_kind::complete : enc == 1 ? Record_kind::begin : enc == 2 ? Record_kind::middle : Record_kind::end);
}
static void one(Kind k, const std::vector<std::string> &rs, const std::vector<int> &kinds, h::Shape sh, size_t buf, size_t hint, bool peeks)
{
    h::begin(std::string(names[k]) + " of " + h::str(rs) + " over a " + h::describe(sh) + ", buffer " + std::to_string(buf) + ", hint " + std::to_string(hint));
    rec::Outcome want;
    std::string t = build(k, rs, kinds, want);
    if (k == RECORDIO) for (auto &x : want.kinds) x = kind_value(x);
    auto *c = new h::Chunky{t, sh};
    auto s = wrap_intrusive(static_cast<Input_stream *>(c));
    Intrusive_ptr<Stream_record_reader> r;
    Csv_params p{};
    p.allow_quoted_new_lines = true;
    switch (k) {
    case LINES: r = wrap_intrusive(static_cast<Stream_record_reader *>(new detail::Text_line_record_reader{s, false})); break;
    case CSV: r = wrap_intrusive(static_cast<Stream_record_reader *>(new detail::Csv_record_reader{s, p})); break;
    case RECORDIO: r = wrap_intrusive(static_cast<Stream_record_reader *>(new detail::Recordio_record_reader{s})); break;
    case PARQUET: r = wrap_intrusive(static_cast<Stream_record_reader *>(new detail::Parquet_record_reader{s})); break;
    }
    rec::tune_reader(*r, buf, 0);
    if (hint) {
        r->set_record_size_hint(hint);
        CHECK(sh.zero_copy || r->record_size_hint() >= hint, "the record size hint is not honoured");
    }
    if (rs.size() > 1) h::nontrivial();
    rec::compare(rec::drain(*r, sh.zero_copy ? 64 : r->record_size_hint() ? r->record_size_hint() : 1, peeks), want);
    CHECK(c->position() == t.size() || t.empty(), "not all of the stream was read");
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        for (size_t n : {0, 1, 3, 40}) for (size_t len : {0, 1, 5, 30}) for (Kind k : {LINES, CSV, RECORDIO, PARQUET}) {
            std::vector<std::string> rs; std::vector<int> ks;
            for (size_t i = 0; i < n; i++) { rs.push_back(std::string(len ? (len + i) : 0, static_cast<char>('a' + i % 26))); ks.push_back(static_cast<int>(i % 4)); }
            one(k, rs, ks, {}, 1, 0, false);
            one(k, rs, ks, {true, true, {}}, 1, 0, true);
            one(k, rs, ks, {false, false, {1}}, 4, 0, true);
            one(k, rs, ks, {true, true, {3, 1000}}, 4, 0, false);
            one(k, rs, ks, {true, false, {3, 1}}, 16, 100, false);
            one(k, rs, ks, {true, false, {}}, 0x2000000, 0, false);
        }
        while (h::now() < end) {
            Kind k = static_cast<Kind>(h::rnd(4));
            std::vector<std::string> rs; std::vector<int> ks;
            size_t n = h::rnd(h::pick({2, 6, 30}));
            for (size_t i = 0; i < n; i++) {
                rs.push_back(h::letters("abcdefgh ", h::rnd(h::pick({3, 9, 30, h::coin(20) ? size_t{5000} : size_t{100}}))));
                ks.push_back(static_cast<int>(h::rnd(4)));
            }
            one(k, rs, ks, h::shape(), rec::buffer(), h::coin(4) ? 1 + h::rnd(300) : 0, h::coin());
        }
    });
}
