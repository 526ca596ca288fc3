// P21: examples of the protobuf reader.  Records are encoded here, byte by byte;
// what the examples hold is computed from the values that were encoded.
#include <map>
#include "h.h"
#include "mlio/data_reader_error.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/example.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/not_supported_error.h"
#include "mlio/recordio_protobuf_reader.h"
#include "mlio/tensor.h"
enum Kind { f32, f64, i32, bytes, unset };
static const Data_type dts[] = {Data_type::float32, Data_type::float64, Data_type::int32};
struct Feature {
    int kind;
    std::vector<double> values;
    std::vector<uint64_t> keys, shape;
};
struct Msg { std::map<std::string, Feature> label, features; bool corrupt = false; };
// ---- the wire format
static void varint(std::string &s, uint64_t v) { for (; v >= 128; v >>= 7) s += static_cast<char>(v | 128); s += static_cast<char>(v); }
static void len(std::string &s, int field, const std::string &b) { varint(s, static_cast<uint64_t>(field << 3 | 2)); varint(s, b.size()); s += b; }
static std::string value(const Feature &f)
{
    std::string t, s;
    if (f.kind == unset) return {};
    if (f.kind == bytes) { len(t, 1, "raw"); len(s, 9, t); return s; }
    auto put = [&](double v) {
        std::string b;
        if (f.kind == f32) { float x = static_cast<float>(v); b.assign(reinterpret_cast<char *>(&x), 4); }
        else if (f.kind == f64) b.assign(reinterpret_cast<char *>(&v), 8);
        else varint(b, static_cast<uint64_t>(static_cast<int64_t>(static_cast<int32_t>(v))));
        return b;
    };
    if (h::coin(4)) for (double v : f.values) { varint(t, f.kind == f32 ? 13 : f.kind == f64 ? 9 : 8); t += put(v); }     // not packed
    else if (!f.values.empty()) { std::string p; for (double v : f.values) p += put(v); len(t, 1, p); }
    for (auto *l : {&f.keys, &f.shape}) {
        if (l->empty()) continue;
        std::string p;
        for (auto k : *l) varint(p, k);
        len(t, l == &f.keys ? 2 : 3, p);
    }
    len(s, f.kind == f32 ? 2 : f.kind == f64 ? 3 : 7, t);
    return s;
}
static std::string message(const Msg &m)
{
    std::string s;
    for (auto *l : {&m.features, &m.label})
        for (auto &[n, f] : *l) { std::string e; len(e, 1, n); len(e, 2, value(f)); len(s, l == &m.features ? 1 : 2, e); }
    if (h::coin(5)) len(s, 3, "uid");
    if (m.corrupt) s += LIT("\x0a\x7f");
    return s;
}
static std::string frame(const std::string &p)
{
    std::string s;
    uint32_t w[2] = {0xced7230a, static_cast<uint32_t>(p.size())};
    s.assign(reinterpret_cast<char *>(w), 8);
    s += p;
    while (s.size() % 4) s += '\0';
    return s;
}
// ---- what the attributes are
struct Attr { int kind; bool sparse; Size_vector shape; size_t n; };
static bool sparse(const Feature &f) { return !f.keys.empty() || (f.values.empty() && !f.shape.empty()); }
static Attr attr(const Feature &f)
{
    Attr a{f.kind, sparse(f), {}, 1};
    if (f.shape.empty()) a.shape.push_back(f.values.size());
    else for (auto d : f.shape) a.shape.push_back(d);
    for (auto d : a.shape) a.n *= d;
    return a;
}
static bool fits(const Feature &f, const Attr &a)
{
    if (f.kind != a.kind || sparse(f) != a.sparse) return false;
    Size_vector s;
    if (f.shape.empty()) s.push_back(f.values.size()); else for (auto d : f.shape) s.push_back(d);
    if (s != a.shape) return false;
    if (!a.sparse) return f.values.size() == a.n;
    if (f.keys.size() != f.values.size()) return false;
    for (auto k : f.keys) if (k >= a.n) return false;
    return true;
}
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
template<typename T>
static std::vector<std::string> all(const Device_array_view &v) { std::vector<std::string> r; for (auto x : v.as<T>()) r.push_back(num(static_cast<double>(x))); return r; }
static std::vector<std::string> all(const Device_array_view &v, int kind) { return kind == f32 ? all<float>(v) : kind == f64 ? all<double>(v) : all<int32_t>(v); }
static std::string show(const Feature &f)
{
    std::string s = "{kind " + std::to_string(f.kind) + " values";
    for (auto v : f.values) s += " " + num(v);
    s += " keys"; for (auto k : f.keys) s += " " + std::to_string(k);
    s += " shape"; for (auto k : f.shape) s += " " + std::to_string(k);
    return s + "}";
}
static double val(int kind)
{
    if (kind == i32) return static_cast<double>(h::coin(6) ? static_cast<int32_t>(h::rnd()) : static_cast<int32_t>(h::rnd(200)) - 50);
    if (kind == f32) return static_cast<double>(static_cast<float>(static_cast<double>(static_cast<int32_t>(h::rnd(1 << 20))) / 7));
    return static_cast<double>(static_cast<int64_t>(h::rnd())) / 3;
}
static void fill(Feature &f, const Attr &a, bool shaped)
{
    f.kind = a.kind; f.values.clear(); f.keys.clear(); f.shape.clear();
    if (shaped || a.sparse || a.shape.size() != 1) f.shape.assign(a.shape.begin(), a.shape.end());
    size_t n = a.sparse ? (a.n ? h::rnd(5) : 0) : a.n;
    for (size_t i = 0; i < n; i++) { f.values.push_back(val(a.kind)); if (a.sparse) f.keys.push_back(h::coin(4) ? a.n - 1 : h::rnd(a.n)); }
}
static void one()
{
    Data_reader_params d;
    Msg proto;
    std::map<std::string, Attr> attrs;
    bool bad = h::coin(), any = h::coin(3);
    size_t nf = h::pick({0, 1, 1, 2, 3}), nl = h::pick({0, 1, 1, 2});
    for (size_t i = 0; i < nf + nl; i++) {
        Feature f;
        Attr a{static_cast<int>(h::rnd(3)), h::coin(3), {}, 1};
        for (size_t k = h::pick({1, 1, 2, 3}); k; k--) a.shape.push_back(h::coin(20) ? 0 : 1 + h::rnd(4));
        for (auto x : a.shape) a.n *= x;
        fill(f, a, h::coin());
        (i < nf ? proto.features : proto.label)[h::coin(12) ? h::pick<std::string>({"label_v", "v", ""}) : i < nf ? "f" + std::to_string(i) : "l" + std::to_string(i)] = f;
    }
    bool clash = false;
    for (auto &[n, f] : proto.label) attrs["label_" + n] = attr(f);
    for (auto &[n, f] : proto.features) { clash |= attrs.count(n) != 0; attrs[n] = attr(f); }
    size_t count = h::pick({1, 1, 2, 4, 7, 11});
    std::vector<Msg> msgs;
    std::vector<bool> good;
    for (size_t i = 0; i < count; i++) {
        Msg m = proto;
        auto each = [&](auto &&fn) { for (auto *l : {&m.label, &m.features}) for (auto &[n, f] : *l) fn((l == &m.label ? "label_" : "") + n, f); };
        if (i) each([&](const std::string &n, Feature &f) { fill(f, attrs[n], h::coin()); });
        if (i && bad && h::coin(3)) {
            auto *l = h::coin() && !m.label.empty() ? &m.label : &m.features;
            if (l->empty()) l = &m.label;
            if (l->empty()) m.features["x"] = Feature{f32, {1}, {}, {}};
            else {
                auto it = l->begin();
                std::advance(it, static_cast<long>(h::rnd(l->size())));
                Feature &f = it->second;
                switch (h::rnd(11)) {
                case 0: m.corrupt = true; break;
                case 1: l->erase(it); break;
                case 2: m.features["zz"] = f; break;
                case 3: f.kind = static_cast<int>(h::rnd(5)); break;
                case 4: f.values.push_back(3); break;
                case 5: if (!f.values.empty()) f.values.pop_back(); break;
                case 6: if (!f.shape.empty()) f.shape[h::rnd(f.shape.size())] += h::coin(3) ? 1 : h::coin() ? 1ULL << 32 : ~0ULL; break;
                case 7: if (!f.shape.empty()) f.shape.push_back(1); break;
                case 8: if (!f.keys.empty()) f.keys.back() += h::coin() ? attr(proto.label.count(it->first) && l == &m.label ? proto.label[it->first] : f).n : 1ULL << 40; break;
                case 9: if (f.keys.empty()) { for (size_t k = 0; k < f.values.size(); k++) f.keys.push_back(k); } else f.keys.pop_back(); break;
                default: if (l == &m.label) { Feature g = f; m.features["label_" + it->first] = g; } else f.shape.clear();
                }
            }
        }
        if (any && i && h::coin(4) && m.features.size() > 1) std::swap(m.features.begin()->second, m.features.rbegin()->second);
        bool ok = !m.corrupt;
        size_t seen = 0;
        std::set<std::string> names;
        each([&](const std::string &n, Feature &f) { seen++; ok = ok && names.insert(n).second && attrs.count(n) && fits(f, attrs[n]); });
        ok = ok && seen == attrs.size();
        msgs.push_back(m);
        good.push_back(ok);
    }
    d.batch_size = h::pick({1, 2, 3, 4, 20});
    d.num_prefetched_examples = 1 + h::rnd(4);
    d.last_example_handling = static_cast<Last_example_handling>(h::rnd(5));
    d.bad_example_handling = static_cast<Bad_example_handling>(h::rnd(5));
    d.warn_bad_instances = h::coin(4);
    size_t nstores = h::pick({1, 1, 2});
    std::string what = "batches of " + std::to_string(d.batch_size) + ", last " + std::to_string(static_cast<int>(d.last_example_handling)) + ", bad " + std::to_string(static_cast<int>(d.bad_example_handling)) + ", records";
    for (auto &m : msgs) { what += " ("; for (auto &[n, f] : m.label) what += "label " + n + show(f) + " "; for (auto &[n, f] : m.features) what += n + show(f) + " "; what += m.corrupt ? "corrupt)" : ")"; }
    h::begin(what);
    std::vector<std::string> files(nstores);
    for (size_t i = 0; i < msgs.size(); i++) files[i * nstores / msgs.size()] += frame(message(msgs[i]));
    for (auto &f : files) d.dataset.push_back(make_intrusive<In_memory_store>(Memory_slice{[&] { auto b = make_intrusive<Heap_memory_block>(f.size()); if (!f.empty()) memcpy(b->data(), f.data(), f.size()); return b; }()}));
    auto reader = make_intrusive<Recordio_protobuf_reader>(d);
    // an empty message is a record with no bytes, which is still a record
    if (clash) { CHECK(h::throws([&] { reader->read_schema(); }), "two features of the same name"); return; }
    auto schema = reader->read_schema();
    CHECK(schema, "a schema");
    h::eq(schema->attributes().size(), attrs.size(), "number of attributes");
    for (auto &a : schema->attributes()) {
        CHECK(attrs.count(a.name()), "attribute " + a.name());
        auto &w = attrs[a.name()];
        CHECK(a.data_type() == dts[w.kind], "type of " + a.name());
        CHECK(a.sparse() == w.sparse, "kind of " + a.name());
        Size_vector s{d.batch_size};
        s.insert(s.end(), w.shape.begin(), w.shape.end());
        CHECK(a.shape() == s, "shape of " + a.name());
    }
    struct Want { std::vector<size_t> rows; size_t size, padding; };
    std::vector<Want> want;
    bool pads = d.bad_example_handling == Bad_example_handling::pad || d.bad_example_handling == Bad_example_handling::pad_warn, error = false;
    for (size_t b = 0; b < count && !error; b += d.batch_size) {
        size_t n = std::min(d.batch_size, count - b);
        bool last = n < d.batch_size, drop = d.last_example_handling == Last_example_handling::drop || d.last_example_handling == Last_example_handling::drop_warn, full = d.last_example_handling == Last_example_handling::pad || d.last_example_handling == Last_example_handling::pad_warn;
        if (last && drop) break;
        Want w{{}, last && !full ? n : d.batch_size, 0};
        for (size_t i = b; i < b + n; i++) if (good[i]) w.rows.push_back(i);
        bool one_bad = w.rows.size() != n;
        if (one_bad && d.bad_example_handling == Bad_example_handling::error) { error = true; break; }
        if (one_bad && !pads) continue;
        w.padding = w.size - w.rows.size();
        want.push_back(w);
    }
    if (want.size() > 1 && attrs.size() > 1) h::nontrivial();
    for (int round = 0; round < (h::coin(3) ? 2 : 1); round++) {
        if (round) reader->reset();
        size_t k = 0;
        bool failed = false;
        try {
            for (;; k++) {
                auto e = h::coin(4) ? (reader->peek_example(), reader->read_example()) : reader->read_example();
                if (!e) break;
                CHECK(k < want.size(), "an example more than the expected " + std::to_string(want.size()));
                auto &w = want[k];
                std::string at = "example " + std::to_string(k) + " ";
                h::eq(e->padding, w.padding, at + "padding");
                h::eq(e->features().size(), attrs.size(), at + "features");
                for (auto &[n, a] : attrs) {
                    auto t = e->find_feature(n);
                    CHECK(t, at + "has no " + n);
                    Size_vector s{w.size};
                    s.insert(s.end(), a.shape.begin(), a.shape.end());
                    CHECK(t->shape() == s, at + "shape of " + n);
                    CHECK(t->data_type() == dts[a.kind], at + "type of " + n);
                    std::vector<std::string> v;
                    auto of = [&](size_t i) -> const Feature & { auto &m = msgs[i]; if (n.rfind("label_", 0) == 0) { auto it = m.label.find(n.substr(6)); if (it != m.label.end()) return it->second; } return m.features.at(n); };
                    if (!a.sparse) {
                        for (auto i : w.rows) for (double x : of(i).values) v.push_back(num(x));
                        v.resize(w.size * a.n, num(0));
                        auto *x = dynamic_cast<Dense_tensor *>(t.get());
                        CHECK(x, at + n + " is dense");
                        h::eqv(all(x->data(), a.kind), v, at + "values of " + n);
                        continue;
                    }
                    auto *x = dynamic_cast<Coo_tensor *>(t.get());
                    CHECK(x, at + n + " is sparse");
                    std::vector<std::vector<std::string>> co(s.size());
                    for (size_t r = 0; r < w.rows.size(); r++) {
                        auto &f = of(w.rows[r]);
                        for (size_t j = 0; j < f.values.size(); j++) {
                            v.push_back(num(f.values[j]));
                            uint64_t q = f.keys[j];
                            for (size_t c = s.size(); c-- > 1;) { co[c].push_back(std::to_string(q % a.shape[c - 1])); q /= a.shape[c - 1]; }
                            co[0].push_back(std::to_string(r));
                        }
                    }
                    h::eqv(all(x->data(), a.kind), v, at + "values of " + n);
                    for (size_t c = 0; c < s.size(); c++) {
                        std::vector<std::string> g;
                        for (auto q : x->indices(c).as<std::size_t>()) g.push_back(std::to_string(q));
                        h::eqv(g, co[c], at + "coordinate " + std::to_string(c) + " of " + n);
                    }
                }
            }
        }
        catch (const Invalid_instance_error &x) { failed = true; CHECK(error, std::string("unexpected error ") + x.what()); }
        catch (const std::exception &x) { h::fail(std::string("unexpected error ") + x.what()); }
        CHECK(failed == error, "the bad record is an error");
        if (!error) h::eq(k, want.size(), "number of examples");
    }
}
// batches of ten million values are decoded in parallel
static void large(size_t bad, int how = -1, bool sp = false)
{
    size_t C = 10001, n = 1000, batches = how < 0 ? 1 + h::rnd(2) : 1, at = h::rnd(batches), tail = h::pick({0, 3});
    Data_reader_params d{};
    d.batch_size = n;
    d.bad_example_handling = h::pick(std::vector<Bad_example_handling>{Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::skip, Bad_example_handling::skip_warn, Bad_example_handling::pad});
    if (how >= 0) d.bad_example_handling = static_cast<Bad_example_handling>(how);
    bool pads = d.bad_example_handling == Bad_example_handling::pad || d.bad_example_handling == Bad_example_handling::pad_warn;
    if (at == 0 && bad == 0) at = batches - 1;
    if (at == 0 && bad == 0) bad = 1;           // the first record gives the schema
    std::string s;
    std::vector<std::vector<long>> want(1);
    for (size_t i = 0; i < batches * n + tail; i++) {
        bool ok = i != at * n + bad || bad >= n;
        std::string v, t, f, e, m;
        varint(v, i);
        v.append(C - 2 - (ok ? 0 : 1), '\1');
        varint(v, 2 * i);
        len(t, 1, v); len(f, 7, t); len(e, 1, "x"); len(e, 2, f); len(m, 1, e);
        if (sp) {
            // a sparse feature, without any value in the first record
            std::string sv, sk, ss, st, sf, se;
            varint(ss, 5000);
            if (i) { varint(sv, i); varint(sk, i); len(st, 1, sv); len(st, 2, sk); }
            len(st, 3, ss); len(sf, 7, st); len(se, 1, "y"); len(se, 2, sf); len(m, 1, se);
        }
        s += frame(m);
        if (i && i % n == 0) want.emplace_back();
        want.back().push_back(ok ? static_cast<long>(i) : -1);
    }
    h::begin(std::to_string(batches) + " batches of 1000 records of 10001 values and " + std::to_string(tail) + " records, record " + std::to_string(bad) + " of batch " + std::to_string(at) + " bad, handling " + std::to_string(static_cast<int>(d.bad_example_handling)));
    h::nontrivial();
    d.dataset.push_back(make_intrusive<In_memory_store>(h::slice(s)));
    auto reader = make_intrusive<Recordio_protobuf_reader>(d);
    bool error = false, failed = false;
    std::vector<std::vector<long>> w;
    for (auto &b : want) {
        bool has = std::count(b.begin(), b.end(), -1L) != 0;
        if (has && d.bad_example_handling == Bad_example_handling::error) { error = true; break; }
        if (has && !pads) continue;
        std::vector<long> r;
        for (auto v : b) if (v >= 0) r.push_back(v);
        r.resize(b.size(), -1);
        w.push_back(r);
    }
    size_t k = 0;
    try {
        for (; auto e = reader->read_example(); k++) {
            std::string name = "example " + std::to_string(k);
            CHECK(k < w.size(), "an example more than the expected " + std::to_string(w.size()));
            auto &t = static_cast<const Dense_tensor &>(*e->find_feature("x"));
            auto v = t.data().as<std::int32_t>();
            h::eq(v.size(), w[k].size() * C, "values of " + name);
            h::eq(e->padding, static_cast<size_t>(std::count(w[k].begin(), w[k].end(), -1L)), "padding of " + name);
            for (size_t i = 0; i < w[k].size(); i++) {
                auto *r = v.data() + i * C;
                long x = w[k][i];
                h::eq(static_cast<long>(r[0]), std::max(x, 0L), "first value of row " + std::to_string(i) + " of " + name);
                h::eq(static_cast<long>(r[1 + i % (C - 2)]), x < 0 ? 0L : 1L, "a value of row " + std::to_string(i) + " of " + name);
                h::eq(static_cast<long>(r[C - 1]), 2 * std::max(x, 0L), "last value of row " + std::to_string(i) + " of " + name);
            }
            if (!sp) continue;
            auto *y = dynamic_cast<const Coo_tensor *>(e->find_feature("y").get());
            CHECK(y, "y of " + name + " is sparse");
            std::vector<std::size_t> rows, cols, ids;
            for (size_t i = 0; i < w[k].size(); i++) if (w[k][i] > 0) { rows.push_back(i); cols.push_back(static_cast<size_t>(w[k][i])); }
            auto r = y->indices(0).as<std::size_t>(), c = y->indices(1).as<std::size_t>();
            auto z = y->data().as<std::int32_t>();
            for (auto q : z) ids.push_back(static_cast<size_t>(q));
            CHECK(std::vector<std::size_t>(r.begin(), r.end()) == rows, "rows of y of " + name);
            CHECK(std::vector<std::size_t>(c.begin(), c.end()) == cols, "columns of y of " + name);
            CHECK(ids == cols, "values of y of " + name);
        }
    }
    catch (const Invalid_instance_error &x) { failed = true; CHECK(error, std::string("unexpected error ") + x.what()); }
    catch (const std::exception &x) { h::fail(std::string("unexpected error ") + x.what()); }
    CHECK(failed == error, "the bad record is an error");
    if (!error) h::eq(k, w.size(), "number of examples");
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    return h::run(argc, argv, [](double deadline, bool) {
        for (int i = 0; i < 1000; i++) one();
        double t = h::now();
        large(h::pick(std::vector<size_t>{0, 0, 1, 999, 1000}));
        t = (deadline - h::now()) / 2 > h::now() - t ? h::now() + (deadline - h::now()) / 2 : deadline;
        while (h::now() < t) one();
        if (t < deadline) { large(h::rnd(999), 3); large(h::rnd(999), 4); large(1000, 0, true); }
        while (h::now() < deadline) one();
    });
}
