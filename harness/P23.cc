// P23: examples of the CSV reader.  Tables of known cells are written as text;
// names, types, rows and padding are computed from the cells here.
#include <cmath>
#include <map>
#include "h.h"
#include "mlio/csv_reader.h"
#include "mlio/data_reader_error.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/example.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/tensor.h"
struct Cell { int kind; long long v; double d; std::string s; };        // 0 integer, 1 fraction, 2 text
using Row = std::vector<Cell>;
static Cell text(const std::string &s) { return {2, 0, 0, s}; }
static Cell whole(long long v) { return {0, v, double(v), std::to_string(v)}; }
static Cell any(bool odd)
{
    if (h::coin(3)) { double d = double(static_cast<long>(h::rnd(4000)) - 2000) / 4; char b[32]; snprintf(b, 32, "%.2f", d); return {1, 0, d, b}; }
    if (h::coin(3)) return text(h::letters(odd ? "gjkq,\"q" : "gjkq", h::rnd(odd ? 12 : 5)));
    return whole(h::coin(4) ? static_cast<long long>(h::pick({127, 128, 255, 256, 32767, 32768, 65535, 65536, 0})) : static_cast<long long>(h::rnd(300)) - 100);
}
static const std::vector<Data_type> types = {Data_type::size, Data_type::float32, Data_type::float64, Data_type::int8, Data_type::int16, Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16, Data_type::uint32, Data_type::uint64, Data_type::string};
static const char *tname[] = {"size", "float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "string"};
// the text of a value as compared below; nothing: the cell is not of the type
static std::optional<std::string> value(const Cell &c, Data_type t)
{
    auto in = [&](long long lo, long long hi) -> std::optional<std::string> { if (c.kind == 0 && c.v >= lo && c.v <= hi) return std::to_string(c.v); return {}; };
    switch (t) {
    case Data_type::string: return "'" + c.s;
    case Data_type::float32: if (c.kind == 2) return {}; return std::to_string(c.d == 0 ? 0.0F : static_cast<float>(c.d));
    case Data_type::float64: if (c.kind == 2) return {}; return std::to_string(c.d == 0 ? 0.0 : c.d);
    case Data_type::int8: return in(-128, 127);
    case Data_type::int16: return in(-32768, 32767);
    case Data_type::int32: case Data_type::int64: return in(-1000000, 1000000);
    case Data_type::uint8: return in(0, 255);
    case Data_type::uint16: return in(0, 65535);
    default: return in(0, 1000000);
    }
}
static std::string zero(Data_type t) { return t == Data_type::string ? "'" : t == Data_type::float32 || t == Data_type::float64 ? std::to_string(0.0) : "0"; }
static Data_type inferred(const Cell &c) { return c.kind == 0 ? Data_type::int64 : c.kind == 1 ? Data_type::float64 : Data_type::string; }
template<typename T>
static std::vector<std::string> all(const Dense_tensor &t)
{
    std::vector<std::string> r;
    for (auto v : t.data().as<T>()) r.push_back(std::to_string(v == 0 ? T{} : v));
    return r;
}
static std::vector<std::string> values(const Tensor &x)
{
    auto *t = dynamic_cast<const Dense_tensor *>(&x);
    CHECK(t != nullptr, "a dense tensor");
    switch (t->data_type()) {
    case Data_type::size: return all<std::size_t>(*t);
    case Data_type::float32: return all<float>(*t);
    case Data_type::float64: return all<double>(*t);
    case Data_type::int8: return all<std::int8_t>(*t);
    case Data_type::int16: return all<std::int16_t>(*t);
    case Data_type::int32: return all<std::int32_t>(*t);
    case Data_type::int64: return all<std::int64_t>(*t);
    case Data_type::uint8: return all<std::uint8_t>(*t);
    case Data_type::uint16: return all<std::uint16_t>(*t);
    case Data_type::uint32: return all<std::uint32_t>(*t);
    case Data_type::uint64: return all<std::uint64_t>(*t);
    default: { std::vector<std::string> r; for (auto &v : t->data().as<std::string>()) r.push_back("'" + v); return r; }
    }
}
static std::string line(const Row &r, bool spare)
{
    std::string s;
    for (size_t i = 0; i < r.size(); i++) {
        if (i) s += ',';
        bool q = r[i].s.find_first_of(",\"\n") != std::string::npos || (r.size() == 1 && r[i].s.empty()) || (spare && h::coin(5));
        if (!q) { s += r[i].s; continue; }
        s += '"';
        for (char c : r[i].s) { if (c == '"') s += '"'; s += c; }
        s += '"';
    }
    return s;
}
struct Want { std::vector<std::vector<std::string>> columns; size_t padding, size; };
static void one()
{
    size_t C = h::pick({1, 2, 2, 3, 4, 6}), nstores = h::pick({1, 1, 2, 3});
    Csv_params p;
    Data_reader_params d;
    bool header = h::coin();
    size_t hdr = header ? h::pick({0, 0, 1, 2}) : 0;
    if (header) p.header_row_index = hdr; else p.header_row_index = std::nullopt;
    p.has_single_header = header && h::coin(3);
    p.dedupe_column_names = !h::coin(4);
    if (h::coin(3)) p.name_prefix = h::pick<std::string>({"c", "x_", "1"});
    std::vector<std::string> heads, names;
    size_t maxlen = h::coin(4) ? 2 + h::rnd(6) : 0;
    for (size_t i = 0; i < C; i++) heads.push_back(h::coin(3) ? h::pick<std::string>({"a", "b", "a_1", "a_2", ""}) : "n" + std::to_string(i));
    if (h::coin(3)) {
        for (size_t i = 0; i < C; i++) p.column_names.push_back(h::coin(3) ? h::pick<std::string>({"a", "a_1", "u"}) : "g" + std::to_string(i));
        names = p.column_names;
    }
    else if (header) for (auto &n : heads) names.push_back(p.name_prefix + (maxlen ? n.substr(0, maxlen) : n));
    else for (size_t i = 0; i < C; i++) names.push_back(p.name_prefix + std::to_string(i + 1));
    // the cells
    std::vector<Cell> proto;
    for (size_t i = 0; i < C; i++) proto.push_back(any(false));
    bool wild = h::coin();
    if (maxlen) { p.max_field_length = maxlen; p.max_field_length_handling = static_cast<Max_field_length_handling>(h::rnd(3)); }
    std::vector<Row> rows;
    std::vector<std::string> files;
    auto seq = 0;
    for (size_t f = 0; f < nstores; f++) {
        std::string s;
        auto end = [&] { s += h::coin(6) ? "\r\n" : "\n"; if (h::coin(12)) s += "\n"; };
        if (header && (f == 0 || !p.has_single_header)) {
            for (size_t i = 0; i < hdr; i++) { s += h::pick<std::string>({"junk", "1,2,3,4,5,6,7", "a,\"b\",c"}); end(); }
            Row r;
            for (auto &n : heads) r.push_back(text(n));
            s += line(r, true);
            end();
        }
        for (size_t n = h::pick({0, 1, 3, 5, 9}); n; n--) {
            Row r;
            for (size_t i = 0; i < C; i++) {
                if (wild && h::coin(10)) { r.push_back(any(true)); continue; }
                Cell c = proto[i];
                if (c.kind == 0) c = whole(static_cast<long long>(h::coin(3) ? h::rnd(100) : static_cast<size_t>(seq++ % 120)));
                else if (c.kind == 1) { c.d = double(1 + seq++) / 4; char b[32]; snprintf(b, 32, "%.2f", c.d); c.s = b; }
                else c = text("k" + std::to_string(seq++) + h::letters("gj", h::rnd(4)));
                r.push_back(c);
            }
            if (!rows.empty() && wild && h::coin(8)) { if (h::coin() && C > 1) r.resize(1 + h::rnd(C - 1)); else for (size_t k = 1 + h::rnd(2); k; k--) r.push_back(h::coin() ? text("") : whole(7)); }
            rows.push_back(r);
            s += line(r, true);
            if (n > 1 || h::coin()) end();
        }
        files.push_back(s);
    }
    // types and selection
    if (h::coin(3)) p.default_data_type = h::pick(types);
    std::vector<Data_type> ty;
    for (size_t i = 0; i < C; i++) ty.push_back(p.default_data_type ? *p.default_data_type : rows.empty() ? Data_type::string : [&] { Cell c = rows[0][i]; if (maxlen && c.s.size() > maxlen) { c.s.resize(maxlen); if (c.kind != 2) { char *e; strtod(c.s.c_str(), &e); c.kind = c.s == "-" ? 2 : c.s.find('.') != std::string::npos ? 1 : 0; } } return inferred(c); }());
    if (h::coin()) for (size_t i = 0; i < C; i++) if (h::coin(4)) p.column_types_by_index[i] = ty[i] = h::coin(3) || rows.empty() ? h::pick(types) : rows[0][i].kind == 0 ? h::pick<Data_type>({Data_type::int32, Data_type::uint8, Data_type::float32, Data_type::size, Data_type::string}) : rows[0][i].kind == 1 ? Data_type::float32 : Data_type::string;
    std::string unknown;
    if (h::coin(3)) for (size_t i = 0; i < C; i++) if (h::coin(3) && std::count(names.begin(), names.end(), names[i]) == 1) p.column_types[names[i]] = ty[i] = h::pick(types);
    if (h::coin(25)) { unknown = "index"; p.column_types_by_index[C + h::rnd(2)] = Data_type::int8; }
    else if (h::coin(25)) { unknown = "name"; p.column_types["nobody"] = Data_type::int8; }
    if (h::coin(3)) for (size_t i = 0; i < C; i++) if (h::coin()) p.use_columns.insert(names[i]);
    if (h::coin(4)) for (size_t i = 0; i < C + 1; i++) if (h::coin(3) == false) p.use_columns_by_index.insert(i);
    std::vector<size_t> use;
    for (size_t i = 0; i < C; i++) if ((p.use_columns.empty() || p.use_columns.count(names[i])) && (p.use_columns_by_index.empty() || p.use_columns_by_index.count(i))) use.push_back(i);
    d.batch_size = h::pick({1, 2, 3, 4, 20});
    d.num_prefetched_examples = 1 + h::rnd(4);
    d.last_example_handling = static_cast<Last_example_handling>(h::rnd(5));
    d.bad_example_handling = static_cast<Bad_example_handling>(h::rnd(5));
    d.warn_bad_instances = h::coin(4);
    d.num_instances_to_skip = h::coin(6) ? h::rnd(3) : 0;
    // what the batches hold
    std::string what = "header " + (header ? std::to_string(hdr) + (p.has_single_header ? " single" : "") : std::string("none")) + ", prefix '" + p.name_prefix + "', names " + h::str(p.column_names) + ", dedupe " + std::to_string(p.dedupe_column_names) + ", types";
    for (auto t : ty) what += std::string(" ") + tname[static_cast<size_t>(t)];
    what += " (default " + std::string(p.default_data_type ? tname[static_cast<size_t>(*p.default_data_type)] : "none") + "), unknown '" + unknown + "', selected";
    for (auto i : use) what += " " + std::to_string(i);
    what += ", field limit " + std::to_string(maxlen) + " handling " + std::to_string(static_cast<int>(p.max_field_length_handling)) + ", batches of " + std::to_string(d.batch_size) + ", last " + std::to_string(static_cast<int>(d.last_example_handling)) + ", bad " + std::to_string(static_cast<int>(d.bad_example_handling)) + ", skip " + std::to_string(d.num_instances_to_skip) + ", stores " + h::str(files);
    h::begin(what);
    for (auto &f : files) d.dataset.push_back(make_intrusive<In_memory_store>(Memory_slice{[&] { auto b = make_intrusive<Heap_memory_block>(f.size()); if (!f.empty()) memcpy(b->data(), f.data(), f.size()); return b; }()}));
    if (d.num_instances_to_skip >= rows.size()) rows.clear(), d.num_instances_to_skip = 0, d.dataset.resize(0);
    if (d.dataset.empty()) return;
    std::vector<Row> data(rows.begin() + static_cast<std::ptrdiff_t>(d.num_instances_to_skip), rows.end());
    if (d.num_instances_to_skip) { if (data[0].size() != C) return; if (!p.default_data_type) return; }
    auto reader = make_intrusive<Csv_reader>(d, p);
    bool dup = false;
    { std::set<std::string> u; for (auto i : use) dup |= !u.insert(names[i]).second; }
    if (!unknown.empty()) { h::eqs(h::raised<std::invalid_argument>([&] { reader->read_schema(); }), "expected", "unknown column type override"); return; }
    if (dup && !p.dedupe_column_names) { h::eqs(h::raised<Schema_error>([&] { reader->read_schema(); }), "expected", "duplicate columns"); return; }
    auto schema = reader->read_schema();
    if (data.empty() && names.empty()) { CHECK(!schema, "no schema"); return; }
    CHECK(schema, "a schema");
    h::eq(schema->attributes().size(), use.size(), "number of attributes");
    std::set<std::string> unique;
    std::map<std::string, int> seen;
    bool plain = true;
    for (auto i : use) for (auto j : use) plain &= !(names[i].rfind("a_", 0) == 0 || names[i].find("a_") != std::string::npos) || i == j;
    for (size_t k = 0; k < use.size(); k++) {
        auto &a = schema->attributes()[k];
        const std::string &n = names[use[k]];
        int before = seen[n]++;
        CHECK(unique.insert(a.name()).second, "name '" + a.name() + "' occurs twice");
        if (plain) h::eqs(a.name(), before ? n + "_" + std::to_string(before) : n, "name of column " + std::to_string(use[k]));
        else CHECK(a.name().rfind(n, 0) == 0, "name '" + a.name() + "' of column " + n);
        CHECK(a.data_type() == ty[use[k]], "type of column " + std::to_string(use[k]) + ": expected " + tname[static_cast<size_t>(ty[use[k]])] + ", got " + tname[static_cast<size_t>(a.data_type())]);
        CHECK((a.shape() == Size_vector{d.batch_size, 1}), "shape of column " + std::to_string(use[k]));
    }
    // the rows
    auto decode = [&](const Row &r) -> std::optional<std::vector<std::string>> {
        std::vector<std::string> v;
        if (r.size() != C) return {};
        for (auto i : use) {
            Cell c = r[i];
            if (maxlen && c.s.size() > maxlen) {
                if (p.max_field_length_handling == Max_field_length_handling::treat_as_bad) return {};
                c.s.resize(maxlen);
                if (c.kind != 2) { bool frac = c.s.find('.') != std::string::npos; if (c.s == "-") c.kind = 2; else { c.d = strtod(c.s.c_str(), nullptr); c.v = strtoll(c.s.c_str(), nullptr, 10); c.kind = frac ? 1 : 0; } }
            }
            auto x = value(c, ty[i]);
            if (!x) return {};
            v.push_back(*x);
        }
        return v;
    };
    bool pads = d.bad_example_handling == Bad_example_handling::pad || d.bad_example_handling == Bad_example_handling::pad_warn, error = false;
    std::vector<Want> want;
    for (size_t b = 0; b < data.size() && !error; b += d.batch_size) {
        size_t n = std::min(d.batch_size, data.size() - b);
        bool last = n < d.batch_size, drop = d.last_example_handling == Last_example_handling::drop || d.last_example_handling == Last_example_handling::drop_warn, fill = d.last_example_handling == Last_example_handling::pad || d.last_example_handling == Last_example_handling::pad_warn;
        if (last && drop) break;
        Want w{std::vector<std::vector<std::string>>(use.size()), 0, last && !fill ? n : d.batch_size};
        size_t good = 0;
        bool bad = false;
        for (size_t i = b; i < b + n; i++) {
            auto v = decode(data[i]);
            if (!v) { bad = true; continue; }
            good++;
            for (size_t k = 0; k < use.size(); k++) w.columns[k].push_back((*v)[k]);
        }
        if (bad && d.bad_example_handling == Bad_example_handling::error) { error = true; break; }
        if (bad && !pads) continue;
        w.padding = w.size - good;
        for (size_t k = 0; k < use.size(); k++) w.columns[k].resize(w.size, zero(ty[use[k]]));
        want.push_back(w);
    }
    if (want.size() > 1 && use.size() > 1) h::nontrivial();
    for (int round = 0; round < (h::coin(3) ? 2 : 1); round++) {
        if (round) reader->reset();
        size_t k = 0;
        bool failed = false;
        try {
            for (;; k++) {
                auto e = h::coin(4) ? (reader->peek_example(), reader->read_example()) : reader->read_example();
                if (!e) break;
                CHECK(k < want.size(), "an example more than the expected " + std::to_string(want.size()));
                auto &w = want[k];
                std::string at = "example " + std::to_string(k);
                h::eq(e->features().size(), use.size(), at + " features");
                h::eq(e->padding, w.padding, at + " padding");
                for (size_t c = 0; c < use.size(); c++) {
                    auto &t = *e->features()[c];
                    CHECK((t.shape() == Size_vector{w.size, 1}), at + " shape of feature " + std::to_string(c));
                    CHECK(t.data_type() == ty[use[c]], at + " type of feature " + std::to_string(c));
                    h::eqv(values(t), w.columns[c], at + " column " + std::to_string(use[c]));
                }
            }
        }
        catch (const Invalid_instance_error &x) { failed = true; CHECK(error, std::string("unexpected error ") + x.what()); }
        catch (const std::exception &x) { h::fail(std::string("unexpected error ") + x.what()); }
        CHECK(failed == error, "the bad row is an error");
        if (!error) h::eq(k, want.size(), "number of examples");
    }
}
// batches of ten million cells are decoded in parallel
static void large(size_t bad)
{
    size_t C = 10000, n = 1000;
    Data_reader_params d{};
    Csv_params p{};
    p.default_data_type = Data_type::int32;
    p.header_row_index = {};
    size_t col = h::rnd(C);
    p.use_columns_by_index.insert(col);
    d.batch_size = n;
    d.bad_example_handling = h::pick<Bad_example_handling>({Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::skip, Bad_example_handling::skip_warn});
    size_t batches = h::coin() ? 2 : 1, at = h::rnd(batches);
    std::string s;
    s.reserve(batches * n * C * 2 + (1 << 20));
    for (size_t b = 0; b < batches; b++)
        for (size_t i = 0; i < n; i++) {
            for (size_t c = 0; c < C; c++) { if (c) s += ','; if (c == col) s += b == at && i == bad ? "x" : std::to_string(b * n + i); else s += '1'; }
            s += '\n';
        }
    h::begin(std::to_string(batches) + " batches of 1000 rows of 10000 columns, column " + std::to_string(col) + " read, row " + std::to_string(bad) + " of batch " + std::to_string(at) + " bad, handling " + std::to_string(static_cast<int>(d.bad_example_handling)));
    h::nontrivial();
    auto m = make_intrusive<Heap_memory_block>(s.size());
    memcpy(m->data(), s.data(), s.size());
    d.dataset.push_back(make_intrusive<In_memory_store>(Memory_slice{m}));
    auto reader = make_intrusive<Csv_reader>(d, p);
    std::vector<size_t> want;
    bool error = bad < n && d.bad_example_handling == Bad_example_handling::error, failed = false;
    for (size_t b = 0; b < batches; b++) if (bad >= n || b != at) want.push_back(b); else if (error) break;
    size_t k = 0;
    try {
        for (; auto e = reader->read_example(); k++) {
            CHECK(k < want.size(), "an example more than the expected " + std::to_string(want.size()));
            auto v = values(*e->features()[0]);
            h::eq(v.size(), n, "rows of example " + std::to_string(k));
            for (size_t i = 0; i < n; i++) h::eqs(v[i], std::to_string(want[k] * n + i), "row " + std::to_string(i) + " of example " + std::to_string(k));
        }
    }
    catch (const Invalid_instance_error &x) { failed = true; CHECK(error, std::string("unexpected error ") + x.what()); }
    catch (const std::exception &x) { h::fail(std::string("unexpected error ") + x.what()); }
    CHECK(failed == error, "the bad row is an error");
    if (!error) h::eq(k, want.size(), "number of examples");
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    return h::run(argc, argv, [](double deadline, bool) {
        for (int i = 0; i < 400; i++) one();
        double t = h::now();
        large(h::pick(std::vector<size_t>{0, 0, 999, 1000}));
        t = (deadline - h::now()) / 2 > h::now() - t ? h::now() + (deadline - h::now()) / 2 : deadline;
        while (h::now() < t) one();
        if (t < deadline) large(h::rnd(1100));
        while (h::now() < deadline) one();
    });
}
