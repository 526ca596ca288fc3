// P01: the tokenizer, the blob reset path and the whole CSV reader against the
// quoting rules, written down independently.
#include "h.h"
#include "mlio/csv_record_tokenizer.h"
#include "mlio/record_readers/record_error.h"
using namespace mlio::detail;

struct Field { std::string v; bool trunc; };
// the rules; nullopt: the row is corrupt
static std::optional<std::vector<Field>> rules(const std::string &t, char d, char q, std::optional<size_t> max)
{
    std::vector<std::string> full;
    size_t i = 0;
    for (;;) {
        std::string f;
        // a field: quoted parts and plain text up to a delimiter outside quotes
        bool open = false;
        if (i < t.size() && t[i] == q) { open = true; i++; }
        bool end = false;
        for (;;) {
            if (open) {
                size_t k = t.find(q, i);
                if (k == std::string::npos) return {};
                f += t.substr(i, k - i);
                i = k + 1;
                if (i < t.size() && t[i] == q && t[i] != d) { f += q; i++; continue; }
                if (i < t.size() && t[i] == q && t[i] == d) { /* q == d: delimiter wins */ }
                // after a closing quote the rest of the field is plain text
                open = false;
                continue;
            }
            if (i >= t.size()) { end = true; break; }
            if (t[i] == d) { i++; break; }
            f += t[i++];
        }
        full.push_back(f);
        if (end) break;
    }
    std::vector<Field> r;
    for (auto &f : full) r.push_back(max && f.size() > *max ? Field{f.substr(0, *max), true} : Field{f, false});
    return r;
}

static void one(const std::string &t, char d, char q, std::optional<size_t> max, Csv_record_tokenizer *reuse)
{
    h::begin("tokenize " + h::esc(t) + " delimiter " + h::esc(std::string(1, d)) + " quote " + h::esc(std::string(1, q)) +
             " max_field_length " + (max ? std::to_string(*max) : "none"));
    auto want = rules(t, d, q, max);
    Csv_params p{};
    p.delimiter = d; p.quote_char = q; p.max_field_length = max;
    auto blob = h::slice(t);
    Csv_record_tokenizer fresh{p, Memory_span{blob}};
    Csv_record_tokenizer *tk = &fresh;
    if (reuse) { reuse->reset(Memory_span{blob}); tk = reuse; }
    std::vector<Field> got;
    bool corrupt = false;
    try {
        while (tk->next()) {
            got.push_back({tk->value(), tk->truncated()});
            CHECK(!tk->eof(), "eof reported while a field was returned");
            CHECK(got.size() <= t.size() + 2, "more fields than possible");
        }
    }
    catch (const Corrupt_record_error &) { corrupt = true; }
    if (t.find(q) != std::string::npos) h::nontrivial();
    CHECK(corrupt == !want.has_value(), corrupt ? "row rejected although its quotes are closed" : "row ending inside quotes accepted");
    if (!want) {
        // complete fields before the open one are still exact
        return;
    }
    CHECK(got.size() == want->size(), "number of fields " + std::to_string(got.size()) + ", expected " + std::to_string(want->size()));
    for (size_t i = 0; i < got.size(); i++) {
        h::eqs(got[i].v, (*want)[i].v, "field " + std::to_string(i));
        CHECK(got[i].trunc == (*want)[i].trunc, "truncation flag of field " + std::to_string(i));
    }
    CHECK(tk->eof(), "eof after the last field");
    CHECK(!tk->next(), "next() after the end");
}

int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        Csv_params p{};
        for (auto max : {std::optional<size_t>{}, std::optional<size_t>{0}, std::optional<size_t>{1}, std::optional<size_t>{2}}) {
            p.max_field_length = max;
            Csv_record_tokenizer re{p};
            h::strings(",\"a", thorough ? 9 : 7, [&](const std::string &s) { one(s, ',', '"', max, nullptr); one(s, ',', '"', max, &re); });
        }
        const std::string al = std::string(",\"'|;\t \r\nabc", 12) + std::string("\0\xff\x80", 3);
        while (h::now() < end) {
            char d = ",;\t|a\0\xff"[h::rnd(7)], q = "\"'|\xff"[h::rnd(4)];
            if (d == q) continue;
            std::string s;
            size_t n = h::pick({3, 10, 40, 200});
            for (size_t i = 0, m = h::rnd(n); i < m; i++) s += h::coin(3) ? d : h::coin(3) ? q : al[h::rnd(al.size())];
            std::optional<size_t> max;
            if (h::coin()) max = h::rnd(h::coin() ? 4 : 30);
            one(s, d, q, max, nullptr);
        }
    });
}
