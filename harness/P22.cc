// P22: schemas, attributes and examples.  The oracle searches the list.
#include "h.h"
#include "mlio/cpu_array.h"
#include "mlio/example.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
struct Plan { std::string name; Data_type dt; Size_vector shape; Ssize_vector strides; bool sparse; };
static Ssize_vector filled(const Plan &p)
{
    if (!p.strides.empty()) return p.strides;
    Ssize_vector r(p.shape.size(), 1);
    for (size_t i = r.size(); i-- > 1;) r[i - 1] = r[i] * static_cast<ptrdiff_t>(p.shape[i]);
    return r;
}
static bool alike(const Plan &a, const Plan &b) { return a.name == b.name && a.dt == b.dt && a.shape == b.shape && filled(a) == filled(b) && a.sparse == b.sparse; }
static std::string text(const Plan &p)
{
    std::string r = h::esc(p.name) + ":" + std::to_string(static_cast<int>(p.dt)) + "(";
    for (auto s : p.shape) r += std::to_string(s) + ",";
    r += ")/(";
    for (auto s : p.strides) r += std::to_string(s) + ",";
    return r + ")" + (p.sparse ? "sparse " : " ");
}
static std::string text(const std::vector<Plan> &v) { std::string r = "["; for (auto &p : v) r += text(p); return r + "]"; }
static std::string name()
{
    switch (h::rnd(6)) {
    case 0: return "";
    case 1: return h::letters("aA", 1 + h::rnd(3));
    case 2: return h::letters(LIT("a\0b"), h::rnd(4));
    case 3: return h::letters("xyz_1 \t\xc3\xa9", 1 + h::rnd(40));
    default: return "f" + std::to_string(h::rnd(40));
    }
}
static Plan plan()
{
    Plan p;
    p.name = name();
    p.dt = static_cast<Data_type>(h::rnd(13));
    for (size_t i = 0, n = h::rnd(4); i < n; i++) p.shape.push_back(1 + h::rnd(3));
    if (h::coin()) for (size_t i = 0; i < p.shape.size(); i++) p.strides.push_back(static_cast<ptrdiff_t>(h::rnd(5)) - 1);
    p.sparse = h::coin(4);
    return p;
}
static Plan near(Plan p)
{
    switch (h::rnd(7)) {
    case 0: p.name += h::coin() ? " " : LIT("\0"); break;
    case 1: p.dt = static_cast<Data_type>((static_cast<size_t>(p.dt) + 1 + h::rnd(12)) % 13); break;
    case 2: p.shape.push_back(1); if (!p.strides.empty()) p.strides.push_back(1); break;
    case 3: if (!p.shape.empty()) p.shape[h::rnd(p.shape.size())]++; break;
    case 4: p.strides = filled(p); if (!p.strides.empty() && h::coin()) p.strides[h::rnd(p.strides.size())]++; break;
    case 5: p.sparse = !p.sparse; break;
    default: break;
    }
    return p;
}
static Attribute make(const Plan &p) { return Attribute{p.name, p.dt, p.shape, p.strides, p.sparse}; }
static std::vector<Attribute> make(const std::vector<Plan> &v) { std::vector<Attribute> r; for (auto &p : v) r.push_back(make(p)); return r; }
static void attributes()
{
    Plan a = plan(), b = h::coin(4) ? plan() : near(a);
    h::begin("attributes " + text(a) + " and " + text(b));
    Attribute x = make(a), y = make(b);
    CHECK(x.name() == a.name && x.data_type() == a.dt && x.shape() == a.shape && x.strides() == filled(a) && x.sparse() == a.sparse, "the parts given");
    CHECK((x == y) == alike(a, b), "equality");
    CHECK((y == x) == alike(a, b), "equality, other way round");
    CHECK((x != y) == !alike(a, b), "inequality");
    CHECK(x == x, "equal to itself");
    if (alike(a, b)) CHECK(std::hash<Attribute>{}(x) == std::hash<Attribute>{}(y), "equal attributes have equal hashes");
    Plan c = a;
    c.strides.assign(a.shape.size() + 1 + h::rnd(2), 1);
    h::eqs(h::raised<std::invalid_argument>([&] { make(c); }), "expected", "more strides than dimensions");
    if (a.shape.size() > 1) { c.strides.assign(a.shape.size() - 1, 1); h::eqs(h::raised<std::invalid_argument>([&] { make(c); }), "expected", "fewer strides than dimensions"); }
    h::nontrivial();
}
static void schema()
{
    std::vector<Plan> v;
    size_t n = h::coin(5) ? 40 + h::rnd(200) : h::rnd(7);
    bool unique = !h::coin(3);
    std::set<std::string> seen;
    for (size_t i = 0; i < n; i++) {
        Plan p = plan();
        if (n > 30) p.name += std::to_string(unique || h::coin(20) ? i : i % (n - 1));
        if (unique && !seen.insert(p.name).second) continue;
        v.push_back(p);
    }
    if (!v.empty() && h::coin(4)) { Plan p = plan(); p.name = h::pick(v).name; v.insert(v.begin() + static_cast<ptrdiff_t>(h::rnd(v.size() + 1)), p); }
    bool dup = false;
    seen.clear();
    for (auto &p : v) dup |= !seen.insert(p.name).second;
    h::begin("schema of " + text(v));
    Intrusive_ptr<Schema> s;
    auto r = h::raised<std::invalid_argument>([&] { s = make_intrusive<Schema>(make(v)); });
    h::eqs(r, dup ? "expected" : "", "duplicate names");
    if (dup) return;
    h::eq(s->attributes().size(), v.size(), "number of attributes");
    auto features = [&](size_t k) { std::vector<Intrusive_ptr<Tensor>> f; for (size_t i = 0; i < k; i++) f.push_back(make_intrusive<Dense_tensor>(Size_vector{1}, make_cpu_array(Data_type::float32, 1))); return f; };
    auto fs = features(v.size());
    auto copy = fs;
    Example e{s, std::move(copy)};
    for (size_t d : {v.size() + 1, v.size() ? v.size() - 1 : 2, size_t{0}})
        if (d != v.size()) h::eqs(h::raised<std::invalid_argument>([&] { Example bad{s, features(d)}; }), "expected", "another number of features");
    Schema moved{make(v)}, other{std::move(moved)}, third{other};
    auto ask = [&](const std::string &q) {
        size_t at = v.size();
        for (size_t i = 0; i < v.size(); i++) if (v[i].name == q) at = i;
        for (const Schema *x : {static_cast<const Schema *>(s.get()), static_cast<const Schema *>(&other), static_cast<const Schema *>(&third), static_cast<const Schema *>(&e.schema())}) {
            auto g = x->get_index(q);
            CHECK(g.has_value() == (at < v.size()), "get_index of " + h::esc(q));
            if (g) h::eq(*g, at, "get_index of " + h::esc(q));
        }
        auto f = e.find_feature(q);
        CHECK(f.get() == (at < v.size() ? fs[at].get() : nullptr), "find_feature of " + h::esc(q));
    };
    for (auto &p : v) { ask(p.name); ask(p.name + " "); ask(p.name + LIT("\0")); if (!p.name.empty()) ask(p.name.substr(1)); }
    for (int i = 0; i < 5; i++) ask(name());
    ask("");
    for (size_t i = 0; i < v.size(); i++) CHECK(e.features()[i].get() == fs[i].get() && s->attributes()[i] == make(v[i]), "features and attributes in order");
    // near schemas
    auto w = v;
    switch (h::rnd(4)) {
    case 0: if (!w.empty()) { auto &p = w[h::rnd(w.size())]; auto q = near(p); q.name = p.name; p = q; } break;
    case 1: if (!w.empty()) w.pop_back(); break;
    case 2: if (w.size() > 1) std::swap(w[0], w[h::rnd(w.size())]); break;
    default: break;
    }
    bool same = v.size() == w.size();
    for (size_t i = 0; same && i < v.size(); i++) same = alike(v[i], w[i]);
    Schema y{make(w)};
    CHECK((*s == y) == same, "equality with " + text(w));
    CHECK((y == *s) == same, "equality (other way) with " + text(w));
    CHECK((*s != y) == !same, "inequality with " + text(w));
    if (same) CHECK(std::hash<Schema>{}(*s) == std::hash<Schema>{}(y), "equal schemas have equal hashes");
    if (v.size() > 1) h::nontrivial();
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double deadline, bool) {
        while (h::now() < deadline) { for (int i = 0; i < 5; i++) attributes(); schema(); }
    });
}
