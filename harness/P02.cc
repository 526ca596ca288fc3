// P02: lines of a text against an independent splitter, through the whole text
// line record reader, and read_line itself with a maximum length.
#include "records.h"
#include "mlio/record_readers/detail/text_line.h"
#include "mlio/record_readers/text_line_record_reader.h"

static std::vector<std::string> lines(std::string t, bool bom, bool skip)
{
    if (bom && t.rfind("\xEF\xBB\xBF", 0) == 0) t = t.substr(3);
    std::vector<std::string> r;
    for (size_t i = 0; i < t.size();) {
        size_t k = t.find_first_of("\r\n", i);
        std::string l = t.substr(i, k == std::string::npos ? k : k - i);
        if (!skip || !l.empty()) r.push_back(l);
        if (k == std::string::npos) break;
        i = k + (t[k] == '\r' && k + 1 < t.size() && t[k + 1] == '\n' ? 2 : 1);
    }
    return r;
}
static void reader(const std::string &t, bool skip, h::Shape sh, size_t buf, bool peeks)
{
    h::begin("text lines of " + h::esc(t) + (skip ? " skipping blanks" : "") + " over a " + h::describe(sh) + ", buffer " + std::to_string(buf));
    rec::Outcome want;
    want.records = lines(t, true, skip);
    want.kinds.assign(want.records.size(), 0);
    if (want.records.size() > 1) h::nontrivial();
    auto r = wrap_intrusive(new detail::Text_line_record_reader{h::stream(t, sh), skip});
    rec::compare(rec::drain(*r, buf, peeks), want);
}
static void direct(const std::string &t, bool ignore, std::optional<size_t> max)
{
    h::begin("read_line of " + h::esc(t) + (ignore ? " (more may come)" : " (end of text)") + " max " + (max ? std::to_string(*max) : "none"));
    Memory_slice c = h::slice(t);
    auto ls = lines(t, false, false);
    std::string first = ls[0];
    size_t used = first.size();
    bool open = used == t.size();
    bool cr_end = !open && t[used] == '\r' && used + 1 == t.size();
    if (!open) used += t[used] == '\r' && used + 1 < t.size() && t[used + 1] == '\n' ? 2 : 1;
    bool wait = ignore && (open || cr_end);
    bool large = max && first.size() > *max;
    try {
        auto r = detail::read_line(c, ignore, max);
        if (!r) {
            CHECK(wait, "a complete line is withheld");
            h::eqs(h::text(c), t, "text after waiting");
            return;
        }
        CHECK(!wait, "an incomplete line is delivered");
        CHECK(!large, "a line longer than the maximum is delivered");
        h::eqs(h::text(r->payload()), first, "line");
        h::eqs(h::text(c), t.substr(used), "rest");
        if (!open) h::nontrivial();
    }
    catch (const Record_too_large_error &) { CHECK(large, "a line that fits is rejected"); }
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        h::strings("\n\ra", thorough ? 7 : 5, [&](const std::string &s) {
            if (!s.empty())
                for (bool ig : {false, true}) for (auto m : {std::optional<size_t>{}, std::optional<size_t>{0}, std::optional<size_t>{1}, std::optional<size_t>{2}, std::optional<size_t>{SIZE_MAX}}) direct(s, ig, m);
            for (bool skip : {false, true}) {
                reader(s, skip, {}, 1, false);
                reader(s, skip, {}, 64, true);
                reader(s, skip, {true, true, {}}, 64, false);
                reader("\xEF\xBB\xBF" + s, skip, {false, false, {1}}, 2, false);
            }
        });
        h::strings("\xEF\xBB\xBF\n", 4, [&](const std::string &s) { reader(s, false, {}, 1, false); reader(s, true, {}, 8, true); reader(s, false, {true, true, {}}, 8, true); });
        reader(std::string(300000, 'x') + "\r\n" + std::string(70000, '\n') + "y", true, {}, 4096, false);
        const std::string al = LIT("\n\r\n\r\nabc\0\xff\xEF\xBB\xBF ");
        while (h::now() < end) {
            std::string s = h::letters(al, h::rnd(h::pick({4, 12, 60, 400})));
            if (h::coin(4)) s = "\xEF\xBB\xBF" + s;
            reader(s, h::coin(), h::shape(), rec::buffer(), h::coin());
            if (!s.empty()) direct(s, h::coin(), h::coin() ? std::optional<size_t>{h::rnd(8)} : std::nullopt);
        }
    });
}
