// P18: numbers are parsed and converted exactly or refused.  The oracle reads
// decimal numbers digit by digit into 128 bits.
#include "h.h"
#include <cmath>
#include <limits>
#include "mlio/cpu_array.h"
#include "mlio/data_type.h"
#include "mlio/parser.h"
#include "mlio/util/cast.h"
#include "mlio/util/number.h"
#include "mlio/util/string.h"
using I = __int128;
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string cut(const std::string &s)
{
    size_t b = 0, e = s.size();
    while (b < e && space(s[b])) b++;
    while (e > b && space(s[e - 1])) e--;
    return s.substr(b, e - b);
}
struct Dec { bool is = false, neg = false; I v = 0; };
static const I BIG = I(1) << 100;
static Dec dec(const std::string &t)
{
    std::string s = cut(t);
    Dec d;
    size_t i = 0;
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) { d.neg = s[0] == '-'; i = 1; }
    if (i == s.size()) return d;
    for (; i < s.size(); i++) {
        if (s[i] < '0' || s[i] > '9') return d;
        d.v = std::min(BIG, d.v * 10 + (s[i] - '0'));
    }
    d.is = true;
    if (d.neg) d.v = -d.v;
    return d;
}
static std::string dig(I v)
{
    bool n = v < 0;
    std::string r;
    if (n) v = -v;
    do { r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v);
    return n ? "-" + r : r;
}
template<typename T>
static I lo() { return std::numeric_limits<T>::min(); }
template<typename T>
static I hi() { return std::numeric_limits<T>::max(); }
static const char *nm(Parse_result r) { return r == Parse_result::ok ? "ok" : r == Parse_result::failed ? "failed" : "overflowed"; }
template<typename T>
static void expect_int(const std::string &s, Parse_result r, T v, const std::string &what)
{
    Dec d = dec(s);
    if (d.is && d.neg && d.v == 0 && !std::is_signed_v<T>) {       // "-0": zero or refused
        if (r == Parse_result::ok) CHECK(v == 0, what);
        return;
    }
    Parse_result e = !d.is ? Parse_result::failed : d.v < lo<T>() || d.v > hi<T>() ? Parse_result::overflowed : Parse_result::ok;
    if (r != e) h::fail(what + ": expected " + nm(e) + ", got " + nm(r));
    if (r == Parse_result::ok && static_cast<I>(v) != d.v) h::fail(what + ": expected " + dig(d.v) + ", got " + dig(v));
}
template<typename T>
static void ints(const std::string &s, const char *n)
{
    h::begin(std::string("try_parse_int<") + n + ">(" + h::esc(s) + ")");
    T v = 77;
    Parse_result r = try_parse_int<T>(s, v);
    expect_int<T>(s, r, v, n);
}
// the value of a number without exponent tricks is what the C library reads
template<typename T>
static bool same(T a, T b) { return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }
static bool real(const std::string &s)
{
    if (s.empty() || space(s[0])) return false;
    char *e = nullptr;
    strtod(s.c_str(), &e);
    return e == s.c_str() + s.size();
}
template<typename T>
static void expect_float(const std::string &s, const std::unordered_set<std::string> &nans, Parse_result r, T v, const std::string &what)
{
    std::string t = cut(s);
    Parse_result e;
    T w = 0;
    if (real(t)) {
        w = sizeof(T) == 4 ? static_cast<T>(strtof(t.c_str(), nullptr)) : static_cast<T>(strtod(t.c_str(), nullptr));
        e = std::isinf(w) ? Parse_result::overflowed : Parse_result::ok;
    }
    else if (nans.count(t)) { w = std::numeric_limits<T>::quiet_NaN(); e = Parse_result::ok; }
    else e = Parse_result::failed;
    if (r != e) h::fail(what + ": expected " + nm(e) + ", got " + nm(r));
    if (r == Parse_result::ok && !same(v, w)) h::fail(what + ": expected " + std::to_string(w) + ", got " + std::to_string(v));
}
template<typename T>
static void floats(const std::string &s, const std::unordered_set<std::string> &nans, bool list, const char *n)
{
    h::begin(std::string("try_parse_float<") + n + ">(" + h::esc(s) + ") with " + (list ? std::to_string(nans.size()) + " NaN texts" : "no NaN list"));
    T v = 77;
    Parse_result r = list ? try_parse_float<T>(s, v, {&nans}) : try_parse_float<T>(s, v);
    expect_float<T>(s, list ? nans : std::unordered_set<std::string>{}, r, v, n);
}
static std::string near_bound()
{
    static const std::vector<I> B = {0, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, I(9223372036854775807LL), I(9223372036854775807LL) + 1, -I(9223372036854775807LL) - 1, -I(9223372036854775807LL) - 2, I(18446744073709551615ULL), I(18446744073709551615ULL) + 1, I(1) << 65, -(I(1) << 65)};
    I v = h::pick(B) + static_cast<I>(h::rnd(5)) - 2;
    if (h::coin(4)) v = static_cast<I>(h::rnd()) >> h::rnd(64);
    if (h::coin(6)) v = -v;
    return dig(v);
}
static std::string text()
{
    std::string s = h::coin(3) ? h::letters(std::string("0123456789-+. eEx\t_af", 21), h::rnd(9)) : near_bound();
    if (h::coin(3) && !s.empty() && s[0] != '-') s.insert(0, "+");
    if (h::coin(5)) s.insert(s[0] == '-' || s[0] == '+' ? 1 : 0, std::string(1 + h::rnd(h::coin(5) ? 40 : 3), '0'));
    if (h::coin(4)) s.insert(0, h::letters(std::string(" \t\n\v\f\r", 6), 1 + h::rnd(3)));
    if (h::coin(4)) s += h::letters(std::string(" \t\n\v\f\r", 6), 1 + h::rnd(3));
    if (h::coin(8)) s.insert(h::rnd(s.size() + 1), h::letters(std::string("-+ .,x_'eE5\0", 12), 1));
    return s;
}
static std::string ftext()
{
    static const std::vector<std::string> W = {"", ".", "1.", ".5", "1e5", "1E-5", "1e400", "-1e400", "1e39", "3.5e38", "3.4028235e38", "1e-400", "1.7976931348623157e308", "1.8e308", "inf", "-inf", "infinity", "Infinity", "nan", "NaN", "-nan", "na", "NA", "n/a", "null", "none", "1e", "1e+", "e5", "0x10", "1,5", "1.5.2", "--1", "+-1", "+1.5", "-0", "-0.0", "16777217", "9007199254740993", "1_0", "1d5"};
    std::string s = h::coin(3) ? h::pick(W) : h::coin() ? text() : std::to_string(static_cast<double>(h::rnd()) / static_cast<double>(1 + h::rnd(100000)));
    if (h::coin(3)) s += "e" + std::to_string(static_cast<int>(h::rnd(90)) - 45);
    if (h::coin(4)) s = h::letters(std::string(" \t\n", 3), 1 + h::rnd(2)) + s;
    if (h::coin(4)) s += h::letters(std::string(" \t\n", 3), 1 + h::rnd(2));
    return s;
}
// plus signs before a minus and texts with NUL bytes are refused by both sides
static bool c_readable(const std::string &s) { return s.find('\0') == std::string::npos; }
template<typename T, typename U>
static void narrow(U u)
{
    T t{};
    h::begin("try_narrow of " + dig(static_cast<I>(u)) + " from " + (std::is_signed_v<U> ? "int" : "uint") + std::to_string(sizeof(U) * 8) + " to " + (std::is_signed_v<T> ? "int" : "uint") + std::to_string(sizeof(T) * 8));
    bool r = try_narrow(u, t), e = static_cast<I>(u) >= lo<T>() && static_cast<I>(u) <= hi<T>();
    h::eq(r, e, "representable");
    if (r && static_cast<I>(t) != static_cast<I>(u)) h::fail("got " + dig(static_cast<I>(t)));
}
template<typename U>
static void narrows()
{
    U u = static_cast<U>(h::coin() ? static_cast<I>(h::rnd()) : dec(near_bound()).v);
    narrow<int8_t>(u); narrow<int16_t>(u); narrow<int32_t>(u); narrow<int64_t>(u);
    narrow<uint8_t>(u); narrow<uint16_t>(u); narrow<uint32_t>(u); narrow<uint64_t>(u);
}
static const std::vector<Data_type> DT = {Data_type::size, Data_type::float16, Data_type::float32, Data_type::float64, Data_type::int8, Data_type::int16, Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16, Data_type::uint32, Data_type::uint64, Data_type::string};
template<Data_type dt>
static void parser_int(const std::string &s, Parse_result r, Device_array &a, size_t i, size_t n)
{
    using T = data_type_t<dt>;
    auto *p = static_cast<T *>(a.data());
    expect_int<T>(s, r, p[i], "parser");
    for (size_t k = 0; k < n; k++) if (k != i && p[k] != 0) h::fail("element " + std::to_string(k) + " was overwritten");
}
template<typename T>
static void parser_float(const std::string &s, const std::unordered_set<std::string> &nans, Parse_result r, Device_array &a, size_t i, size_t n)
{
    auto *p = static_cast<T *>(a.data());
    expect_float<T>(s, nans, r, p[i], "parser");
    for (size_t k = 0; k < n; k++) if (k != i && p[k] != 0) h::fail("element " + std::to_string(k) + " was overwritten");
}
static void parsers()
{
    Parser_options o;
    for (size_t k = h::rnd(3); k; k--) o.nan_values.insert(h::pick(std::vector<std::string>{"na", "n/a", "null", ""}));
    Data_type dt = h::pick(DT);
    std::string s = dt == Data_type::float32 || dt == Data_type::float64 ? ftext() : text();
    if (!c_readable(s)) return;
    size_t n = 1 + h::rnd(5), i = h::rnd(n);
    h::begin("parser of data type " + std::to_string(static_cast<int>(dt)) + " on " + h::esc(s) + " with " + std::to_string(o.nan_values.size()) + " NaN texts, element " + std::to_string(i) + " of " + std::to_string(n));
    auto arr = make_cpu_array(dt, n);
    CHECK(arr->data_type() == dt, "array type");
    h::eq(arr->size(), n, "array size");
    Parser p = make_parser(dt, o);
    Parse_result r = p(s, *arr, i);
    if (r == Parse_result::ok) h::nontrivial();
    switch (dt) {
    case Data_type::size: parser_int<Data_type::size>(s, r, *arr, i, n); break;
    case Data_type::float16: CHECK(r == Parse_result::failed, "half precision is refused"); break;
    case Data_type::float32: parser_float<float>(s, o.nan_values, r, *arr, i, n); break;
    case Data_type::float64: parser_float<double>(s, o.nan_values, r, *arr, i, n); break;
    case Data_type::int8: parser_int<Data_type::int8>(s, r, *arr, i, n); break;
    case Data_type::int16: parser_int<Data_type::int16>(s, r, *arr, i, n); break;
    case Data_type::int32: parser_int<Data_type::int32>(s, r, *arr, i, n); break;
    case Data_type::int64: parser_int<Data_type::int64>(s, r, *arr, i, n); break;
    case Data_type::uint8: parser_int<Data_type::uint8>(s, r, *arr, i, n); break;
    case Data_type::uint16: parser_int<Data_type::uint16>(s, r, *arr, i, n); break;
    case Data_type::uint32: parser_int<Data_type::uint32>(s, r, *arr, i, n); break;
    case Data_type::uint64: parser_int<Data_type::uint64>(s, r, *arr, i, n); break;
    case Data_type::string: {
        CHECK(r == Parse_result::ok, "any text is a string");
        auto *q = static_cast<std::string *>(arr->data());
        for (size_t k = 0; k < n; k++) h::eqs(q[k], k == i ? s : "", "element " + std::to_string(k));
    }
    }
}
static void infer()
{
    std::string s = h::coin() ? text() : ftext();
    if (!c_readable(s)) return;
    h::begin("infer_data_type(" + h::esc(s) + ")");
    Dec d = dec(s);
    Data_type e;
    double v;
    if (s.empty()) e = Data_type::string;
    else if (d.is && d.v >= lo<int64_t>() && d.v <= hi<int64_t>()) e = Data_type::int64;
    else if (d.is && d.v >= 0 && d.v <= hi<uint64_t>()) e = Data_type::uint64;
    else if (real(cut(s)) && !std::isinf(v = strtod(cut(s).c_str(), nullptr))) e = Data_type::float64;
    else e = Data_type::string;
    h::eq(static_cast<int>(infer_data_type(s)), static_cast<int>(e), "data type");
}
static void strings_()
{
    std::string s = h::letters(std::string("ab \t\n\v\f\r\0\x85\xa0", 11), h::rnd(12));
    h::begin("trim(" + h::esc(s) + ")");
    h::eqs(trim(s), cut(s), "trim");
    h::eq(is_whitespace_only(s), cut(s).empty(), "is_whitespace_only");
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double deadline, bool) {
        for (long n = 0; h::now() < deadline; n++) {
            std::string s = text();
            Dec d = dec(s);
            if (d.is) h::nontrivial();
            ints<int8_t>(s, "int8"); ints<int16_t>(s, "int16"); ints<int32_t>(s, "int32"); ints<int64_t>(s, "int64");
            ints<uint8_t>(s, "uint8"); ints<uint16_t>(s, "uint16"); ints<uint32_t>(s, "uint32"); ints<uint64_t>(s, "uint64");
            h::begin("try_parse_size_t(" + h::esc(s) + ")");
            size_t z = 77;
            Parse_result r = try_parse_size_t(s, z);
            expect_int<size_t>(s, r, z, "try_parse_size_t");
            std::string f = ftext();
            if (c_readable(f)) {
                std::unordered_set<std::string> nans;
                for (size_t k = h::rnd(3); k; k--) nans.insert(h::pick(std::vector<std::string>{"na", "NA", "n/a", "null", "", "x"}));
                floats<float>(f, nans, h::coin(), "float"); floats<double>(f, nans, h::coin(), "double");
            }
            narrows<int8_t>(); narrows<int16_t>(); narrows<int32_t>(); narrows<int64_t>();
            narrows<uint8_t>(); narrows<uint16_t>(); narrows<uint32_t>(); narrows<uint64_t>();
            parsers();
            infer();
            strings_();
        }
    });
}
