// P03: rows of a CSV text against an independent splitter, through the whole
// CSV record reader.
#include "records.h"
#include "mlio/csv_reader.h"
#include "mlio/record_readers/csv_record_reader.h"

static rec::Outcome rows(std::string t, const Csv_params &p)
{
    rec::Outcome o;
    if (t.rfind("\xEF\xBB\xBF", 0) == 0) t = t.substr(3);
    auto nl = [&](size_t i) { return t[i] == '\n' || t[i] == '\r'; };
    for (size_t i = 0; i < t.size();) {
        bool comment = p.comment_char && t[i] == *p.comment_char;
        size_t k = i;
        bool start = true, open = false;
        for (; k < t.size(); k++) {
            bool quotes = !comment && p.allow_quoted_new_lines;
            if (open) {
                if (t[k] == p.quote_char) {
                    if (k + 1 < t.size() && t[k + 1] == p.quote_char && p.quote_char != p.delimiter) { k++; continue; }
                    open = false;
                }
                continue;
            }
            if (quotes && start && t[k] == p.quote_char && t[k] != p.delimiter) { open = true; start = false; continue; }
            if (nl(k)) break;
            start = t[k] == p.delimiter;
        }
        std::string row = t.substr(i, k - i);
        bool last = k >= t.size();
        if (!comment && p.max_line_length && row.size() > *p.max_line_length) { o.error = "too large"; return o; }
        if (last && open) { o.error = "corrupt"; return o; }
        if (!comment && !(p.skip_blank_lines && row.empty())) { o.records.push_back(row); o.kinds.push_back(0); }
        if (last) break;
        i = k + (t[k] == '\r' && k + 1 < t.size() && t[k + 1] == '\n' ? 2 : 1);
    }
    return o;
}
static void one(const std::string &t, const Csv_params &p, h::Shape sh, size_t buf, bool peeks)
{
    h::begin("CSV rows of " + h::esc(t) + " delimiter " + h::esc(std::string(1, p.delimiter)) + " quote " + h::esc(std::string(1, p.quote_char)) + " comment " +
             (p.comment_char ? h::esc(std::string(1, *p.comment_char)) : "none") + (p.allow_quoted_new_lines ? " quoted new lines" : "") + (p.skip_blank_lines ? " skip blanks" : "") + " max line length " +
             (p.max_line_length ? std::to_string(*p.max_line_length) : "none") + " over a " + h::describe(sh) + ", buffer " + std::to_string(buf));
    auto want = rows(t, p);
    if (want.records.size() > 1 || !want.error.empty()) h::nontrivial();
    auto r = wrap_intrusive(new detail::Csv_record_reader{h::stream(t, sh), p});
    rec::compare(rec::drain(*r, buf, peeks), want);
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        Csv_params p{};
        for (bool q : {true, false}) for (bool sk : {true, false}) for (int c = 0; c < 2; c++) for (auto m : {std::optional<size_t>{}, std::optional<size_t>{2}}) {
            p = Csv_params{};
            p.allow_quoted_new_lines = q; p.skip_blank_lines = sk; p.max_line_length = m;
            if (c) p.comment_char = 'a';
            h::strings("\n\r\",a", thorough ? 6 : m || c ? 4 : 5, [&](const std::string &s) { one(s, p, {}, 64, false); });
            h::strings("\n\r\"a", thorough ? 6 : 4, [&](const std::string &s) { one(s, p, {false, false, {1}}, 1, false); one(s, p, {true, true, {}}, 1, false); });
        }
        const std::string al = LIT("\n\r\n\"\"\",,;'#abc\0\xff\t \n");
        while (h::now() < end) {
            p = Csv_params{};
            p.delimiter = ",;\t|a\0\xff"[h::rnd(7)]; p.quote_char = "\"\"\"'|\xff"[h::rnd(6)];
            if (p.delimiter == p.quote_char) continue;
            if (h::coin()) p.comment_char = "#a\",'"[h::rnd(5)];
            p.allow_quoted_new_lines = !h::coin(3); p.skip_blank_lines = h::coin();
            if (h::coin(3)) p.max_line_length = h::rnd(12);
            std::string s;
            for (size_t n = h::rnd(h::pick({4, 12, 60, 300})); n; n--) s += h::coin(8) ? p.quote_char : h::coin(8) ? p.delimiter : al[h::rnd(al.size())];
            if (h::coin(8)) s = "\xEF\xBB\xBF" + s;
            one(s, p, h::shape(), rec::buffer(), h::coin());
        }
    });
}
