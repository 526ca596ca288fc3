// P17: text streams against texts whose UTF-8 form is known: made from code
// points by an encoder of this file, or converted in one piece by iconv.
#include "h.h"
#include <iconv.h>
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/streams/stream_error.h"
#include "mlio/streams/utf8_input_stream.h"
#include "mlio/text_encoding.h"
using Cps = std::vector<uint32_t>;
static std::string utf8(const Cps &t)
{
    std::string r;
    for (auto c : t) {
        auto p = [&](uint32_t x) { r.push_back(static_cast<char>(x)); };
        if (c < 0x80) p(c);
        else if (c < 0x800) { p(0xC0 | c >> 6); p(0x80 | (c & 63)); }
        else if (c < 0x10000) { p(0xE0 | c >> 12); p(0x80 | (c >> 6 & 63)); p(0x80 | (c & 63)); }
        else { p(0xF0 | c >> 18); p(0x80 | (c >> 12 & 63)); p(0x80 | (c >> 6 & 63)); p(0x80 | (c & 63)); }
    }
    return r;
}
static std::string encode(const Cps &t, int unit, bool big)
{
    std::string r;
    auto put = [&](uint32_t x) { for (int i = 0; i < unit; i++) r.push_back(static_cast<char>(x >> 8 * (big ? unit - 1 - i : i))); };
    for (auto c : t)
        if (unit == 2 && c >= 0x10000) { put(0xD800 | (c - 0x10000) >> 10); put(0xDC00 | ((c - 0x10000) & 0x3FF)); }
        else put(c);
    return r;
}
static Cps text(size_t n, int unit)
{
    Cps r;
    for (size_t i = 0; i < n; i++) {
        uint32_t c = 0;
        switch (h::rnd(unit == 1 ? 2 : 4)) {
        case 0: c = 'a' + static_cast<uint32_t>(h::rnd(26)); break;
        case 1: c = unit == 1 ? static_cast<uint32_t>(1 + h::rnd(255)) : static_cast<uint32_t>(h::pick({'\n', '\r', ',', '"', 0x80, 0xFF, 0x7FF, 0x800})); break;
        case 2: do c = static_cast<uint32_t>(1 + h::rnd(0xFFFD)); while ((c >= 0xD800 && c < 0xE000) || c == 0xFEFF || c == 0xFFFE); break;
        case 3: c = static_cast<uint32_t>(0x10000 + h::rnd(0x100000)); break;
        }
        r.push_back(c);
    }
    return r;
}
static std::string drain(Input_stream &in, std::string &got, const std::vector<size_t> &sizes, bool slices)
{
    size_t k = 0;
    try {
        for (size_t idle = 0;;) {
            size_t n = sizes[k++ % sizes.size()], m;
            if (slices) {
                auto s = in.read(n);
                m = s.size();
                if (m > n) h::fail("read returned " + std::to_string(m) + " bytes when " + std::to_string(n) + " were asked for");
                got += h::text(s);
            }
            else {
                std::string buf(n + 16, '\x5a');
                m = in.read(Mutable_memory_span{reinterpret_cast<std::byte *>(buf.data() + 8), n});
                if (m > n) h::fail("read returned " + std::to_string(m) + " for a destination of " + std::to_string(n));
                if (buf.substr(0, 8) != std::string(8, '\x5a') || buf.substr(8 + n) != std::string(8, '\x5a')) h::fail("bytes outside the destination were written");
                got.append(buf, 8, m);
            }
            if (n != 0 && m == 0 && ++idle == 2) return "";        // the end stays the end
        }
    }
    catch (const Stream_error &) { return "stream error"; }
    catch (const std::exception &e) { return std::string{"other error: "} + e.what(); }
}
static const std::string MARK = "\xEF\xBB\xBF";
// want: the text as UTF-8; error: the text cannot be converted as a whole (want is then what may come before the error)
static void deliver(const std::string &data, std::optional<std::string> enc, const std::string &want, bool error, bool mark_allowed, const h::Shape &sh, const std::vector<size_t> &sizes, bool slices)
{
    std::optional<Text_encoding> e;
    if (enc) e = Text_encoding{*enc};
    std::string got, o;
    Intrusive_ptr<Input_stream> in;
    // the stream may have been read or sought before: the text starts where it stands
    in = make_utf8_stream(h::stream(data, sh), e);
    o = drain(*in, got, sizes, slices);
    if (mark_allowed && got.substr(0, 3) == MARK && want.substr(0, 3) != MARK) got = got.substr(3);
    if (error) {
        h::eqs(o, "stream error", "outcome of a text that cannot be converted (delivered: " + h::esc(got.substr(0, 100)) + ")");
        if (want.substr(0, got.size()) != got) h::fail("delivered before the error: " + h::esc(got.substr(0, 300)) + ", the text begins with " + h::esc(want.substr(0, 300)));
    }
    else {
        h::eqs(o, "", "outcome");
        if (got != want) {
            size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
            h::fail("delivered " + std::to_string(got.size()) + " bytes, the text has " + std::to_string(want.size()) + "; the first difference is at byte " + std::to_string(i) + ": " + h::esc(got.substr(i > 20 ? i - 20 : 0, 60)) + " instead of " + h::esc(want.substr(i > 20 ? i - 20 : 0, 60)));
        }
    }
    h::nontrivial();
    in->close();
    h::eq(in->closed(), true, "closed()");
    std::byte b[4];
    if (h::coin(8)) h::eqs(h::raised<Stream_error>([&] { in->read(Mutable_memory_span{b, 4}); if (dynamic_cast<Utf8_input_stream *>(in.get()) == nullptr) throw Stream_error{"the source itself"}; }), "expected", "reading a closed stream");
}
static std::vector<size_t> reads()
{
    std::vector<size_t> sizes;
    for (size_t i = 0, n = 1 + h::rnd(3); i < n; i++) sizes.push_back(h::coin(8) ? 0 : h::coin() ? 1 + h::rnd(6) : 1 + h::rnd(200));
    if (sizes == std::vector<size_t>(sizes.size(), 0)) sizes.push_back(h::pick({1, 2, 3, 4, 7}));
    return sizes;
}
static std::string show(const std::vector<size_t> &v, bool slices)
{
    std::string r = ", caller reads of [";
    for (auto n : v) r += std::to_string(n) + " ";
    return r + (slices ? "] as slices" : "]");
}
static void unicode()
{
    struct E { const char *name; int unit; bool big, marked; };
    static const E es[] = {{"UTF-16LE", 2, false, false}, {"UTF-16BE", 2, true, false}, {"UTF-32LE", 4, false, false}, {"UTF-32BE", 4, true, false}, {"8859_1", 1, false, false}, {"UTF-16", 2, false, true}, {"UTF-16", 2, true, true}, {"UTF-32", 4, false, true}, {"UTF-32", 4, true, true}};
    auto &e = es[h::rnd(9)];
    auto t = text(h::coin(3) ? h::rnd(3) : h::coin(4) ? h::rnd(300) : h::rnd(20), e.unit);
    bool infer = e.unit != 1 && h::coin(), mark = infer || e.marked || (e.unit != 1 && h::coin(4));
    auto m = encode({0xFEFF}, e.unit, e.big), body = encode(t, e.unit, e.big), data = (mark ? m : "") + body, want = utf8(t);
    bool error = false;
    std::string how;
    if (e.unit > 1 && h::coin(4)) {
        // a text that ends inside a character, or an invalid unit
        size_t k = h::rnd(t.size() + 1);
        auto head = Cps(t.begin(), t.begin() + static_cast<std::ptrdiff_t>(k)), tail = Cps(t.begin() + static_cast<std::ptrdiff_t>(k), t.end());
        std::string bad;
        if (h::coin()) { auto x = encode({h::coin() ? 0x10FFFFu : 0x41u}, e.unit, e.big); bad = x.substr(0, 1 + h::rnd(x.size() - 1)); tail.clear(); how = ", ending inside a character"; }
        else { for (int i = 0; i < e.unit; i++) bad.push_back(static_cast<char>((e.unit == 2 ? 0xDC01u : 0x00110000u) >> 8 * (e.big ? e.unit - 1 - i : i))); how = ", with an invalid sequence"; }
        data = (mark ? m : "") + encode(head, e.unit, e.big) + bad + encode(tail, e.unit, e.big);
        want = utf8(head);
        error = true;
    }
    auto sh = h::shape();
    auto rd = reads();
    bool sl = h::coin(3);
    h::begin(std::string(infer ? "encoding inferred from the mark of " : "encoding given as ") + e.name + (e.big ? " (big endian)" : "") + how + ", text " + h::esc(data.substr(0, 400)) + " " + h::describe(sh) + show(rd, sl));
    if (infer && e.unit == 2 && data.size() >= 4 && data.substr(2, 2) == std::string(2, '\0')) return;      // looks like the mark of UTF-32
    deliver(data, infer ? std::nullopt : std::optional<std::string>{e.name}, want, error, mark, sh, rd, sl);
}
static void plain()
{
    std::string d;
    size_t n = h::coin(3) ? h::rnd(6) : h::rnd(200);
    if (h::coin(3)) d = MARK;
    else if (h::coin(4)) d = h::pick({0, 1}) ? "\xEF\xBB" : "\xEF";
    for (size_t i = 0; i < n; i++) d.push_back(static_cast<char>(h::coin() ? 'a' + h::rnd(26) : h::rnd(256)));
    bool given = h::coin(3);
    auto b = [&](size_t i) { return i < d.size() ? static_cast<unsigned char>(d[i]) : 256u; };
    if (!given && ((b(0) == 0xFE && b(1) == 0xFF) || (b(0) == 0xFF && b(1) == 0xFE) || (b(0) == 0 && b(1) == 0 && b(2) == 0xFE && b(3) == 0xFF))) return;
    auto sh = h::shape();
    auto rd = reads();
    bool sl = h::coin(3);
    h::begin(std::string(given ? "UTF-8 given" : "no encoding given, no other mark") + ", text " + h::esc(d) + " " + h::describe(sh) + show(rd, sl));
    deliver(d, given ? std::optional<std::string>{"UTF-8"} : std::nullopt, d, false, false, sh, rd, sl);
}
static const std::string BAD = "\1bad";
// the whole text in one piece, with the character held back at the end
static std::string piece(const std::string &d, const char *enc)
{
    auto cd = iconv_open("UTF-8", enc);
    if (cd == reinterpret_cast<iconv_t>(-1)) return BAD;
    std::string r(d.size() * 12 + 64, '\0');
    char *i = const_cast<char *>(d.data()), *o = r.data();
    size_t il = d.size(), ol = r.size();
    bool ok = iconv(cd, &i, &il, &o, &ol) != static_cast<size_t>(-1) && iconv(cd, nullptr, nullptr, &o, &ol) != static_cast<size_t>(-1);
    iconv_close(cd);
    if (!ok) return BAD;
    r.resize(r.size() - ol);
    return r;
}
static void legacy()
{
    static const char *es[] = {"CP1258", "CP1255", "TCVN", "SHIFT_JIS", "EUC-JP", "GB18030", "BIG5", "ISO-2022-JP", "KOI8-R", "CP1252"};
    auto e = es[h::rnd(10)];
    std::string d, w;
    for (int tries = 0; tries < 50; tries++) {
        d.clear();
        for (size_t i = 0, n = h::rnd(14); i < n; i++) {
            if (!strcmp(e, "ISO-2022-JP")) d += h::coin(3) ? "\x1b$B\x24\x22\x24\x24\x1b(B" : h::coin(3) ? "\x1b$B\x1b(B" : "a";
            else d.push_back(static_cast<char>(h::coin(3) ? 'A' + h::rnd(26) : 0x80 + h::rnd(0x80)));
        }
        w = piece(d, e);
        if (w != BAD) break;
    }
    if (w == BAD) return;
    auto sh = h::shape();
    auto rd = reads();
    bool sl = h::coin(3);
    h::begin(std::string("encoding given as ") + e + ", text " + h::esc(d) + " " + h::describe(sh) + show(rd, sl));
    deliver(d, e, w, false, false, sh, rd, sl);
}
// texts longer than any buffer, with characters across every boundary
static void large(int i)
{
    static const struct { const char *name; int unit; bool big; } es[] = {{"UTF-16LE", 2, false}, {"EUC-JP", 0, false}, {"UTF-32BE", 4, true}, {"GB18030", 0, false}};
    auto &e = es[i % 4];
    Cps one = e.unit ? Cps{0x10437, 'x', 0x20AC} : Cps{};
    std::string u = e.unit ? encode(one, e.unit, e.big) : i % 4 == 1 ? std::string{"\xa4\xa2"} : std::string{"\x81\x30\x81\x30"}, v = e.unit ? utf8(one) : piece(u, e.name);
    std::string head, whead, d, w;
    Cps a(h::rnd(5), 'a');
    head = e.unit ? encode(a, e.unit, e.big) : std::string(a.size(), 'a');
    size_t n = (0x2000000 + h::rnd(100000)) / u.size() + 2;
    d.reserve(head.size() + n * u.size());
    d = head; w = utf8(a);
    for (size_t k = 0; k < n; k++) { d += u; w += v; }
    bool cut = h::coin(4);
    if (cut) d.resize(d.size() - 1);
    h::Shape sh;
    sh.seekable = h::coin();
    if (h::coin()) sh.reads = {h::pick({1000003, 65536, 33554431, 4000000})};
    std::vector<size_t> rd{h::pick({4, 5}) * 250001 + h::rnd(5)};
    h::begin(std::string("encoding given as ") + e.name + ", " + std::to_string(d.size()) + " bytes: " + std::to_string(a.size()) + " letters, then " + h::esc(u) + " repeated" + (cut ? ", cut inside the last character" : "") + " " + h::describe(sh) + show(rd, false));
    if (cut) w.resize(w.size() - 1);
    deliver(d, e.name, w, cut, false, sh, rd, false);
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    return h::run(argc, argv, [](double end, bool) {
        int k = static_cast<int>(h::rnd(4));
        // many small ones, then those larger than any buffer
        for (int i = 0; i < 500; i++) { unicode(); unicode(); plain(); legacy(); }
        for (int i = 0; i < 4; i++) large(k++);
        while (h::now() < end) { for (int i = 0; i < 20; i++) { unicode(); unicode(); plain(); legacy(); } if (h::coin(400)) large(k++); }
    });
}
