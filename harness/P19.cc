// P19: tensors only exist with enough data for their shape.  The arrays only
// claim their size, so that huge ones can be had; the oracle computes extents
// and strides with 128 bits (saturating).
#include "h.h"
#include "mlio/cpu_array.h"
#include "mlio/tensor.h"
#include "mlio/tensor_visitor.h"
struct Claim final : Device_array {
    size_t n; Data_type dt; mutable char d;
    Claim(size_t n, Data_type dt) : n{n}, dt{dt} {}
    std::unique_ptr<Device_array> clone() const final { return std::make_unique<Claim>(n, dt); }
    void *data() noexcept final { return &d; }
    const void *data() const noexcept final { return &d; }
    std::size_t size() const noexcept final { return n; }
    bool empty() const noexcept final { return n == 0; }
    Data_type data_type() const noexcept final { return dt; }
    Device device() const noexcept final { return Device{Device_kind::cpu()}; }
};
using W = unsigned __int128;
static const W TOP = W(1) << 100;
static W sat(W a) { return a > TOP ? TOP : a; }
static W mul(W a, W b) { return a && b > TOP / a ? TOP : sat(a * b); }
static size_t num()
{
    switch (h::rnd(8)) {
    case 0: return 0;
    case 1: case 2: case 3: return 1 + h::rnd(6);
    case 4: return size_t(1) << h::rnd(64);
    case 5: return (size_t(1) << h::rnd(64)) - 1;
    case 6: return SIZE_MAX - h::rnd(4);
    default: return h::rnd() >> h::rnd(64);
    }
}
static size_t small_num() { return h::coin(8) ? num() : h::rnd(5); }
static std::string list(const std::vector<size_t> &v) { std::string r = "("; for (auto x : v) r += std::to_string(x) + ","; return r + ")"; }
static std::string list(const std::vector<ptrdiff_t> &v) { std::string r = "("; for (auto x : v) r += std::to_string(x) + ","; return r + ")"; }
// false: not representable
static bool row_major(const Size_vector &s, Ssize_vector &r)
{
    r.assign(s.size(), 1);
    W p = 1;
    for (size_t i = s.size(); i-- > 1;) {
        if (s[i] > static_cast<size_t>(INT64_MAX)) return false;
        p = mul(p, s[i]);
        if (p > static_cast<W>(INT64_MAX)) return false;
        r[i - 1] = static_cast<ptrdiff_t>(p);
    }
    return true;
}
// number of elements the data must hold
static W needed(const Size_vector &s, const Ssize_vector &st)
{
    W e = 0;
    if (s.empty()) return 0;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == 0) return 0;
        e = sat(e + mul(s[i] - 1, st[i] < 0 ? W(0) - static_cast<W>(static_cast<__int128>(st[i])) : static_cast<W>(st[i])));
    }
    return sat(e + 1);
}
static const std::vector<Data_type> DT = {Data_type::size, Data_type::float32, Data_type::int8, Data_type::string, Data_type::uint64, Data_type::float16};
static void common(const Tensor &t, Data_type dt, const Size_vector &s, const Ssize_vector &st)
{
    CHECK(t.data_type() == dt, "data type");
    if (t.shape() != s) h::fail("shape: expected " + list(s) + ", got " + list(t.shape()));
    if (t.strides() != st) h::fail("strides: expected " + list(st) + ", got " + list(t.strides()));
}
static std::string outcome(const std::function<void()> &f)
{
    try { f(); } catch (const std::invalid_argument &) { return "refused"; } catch (const std::exception &e) { return std::string("other error: ") + e.what(); }
    return "accepted";
}
static void expect(const std::string &got, bool ok) { h::eqs(got, ok ? "accepted" : "refused", "outcome"); if (ok) h::nontrivial(); }
static void dense()
{
    bool huge = h::coin(3);
    Size_vector s(h::rnd(5));
    for (auto &x : s) x = huge ? num() : small_num();
    Ssize_vector st;
    if (h::coin()) {
        st.resize(h::coin(6) ? h::rnd(5) : s.size());
        for (auto &x : st) { x = static_cast<ptrdiff_t>(huge ? num() : h::rnd(7)); if (h::coin(3)) x = static_cast<ptrdiff_t>(0 - static_cast<size_t>(x)); }
        if (h::coin(3) && st.size() == s.size()) { Ssize_vector q; if (row_major(s, q)) st = q; }
    }
    Ssize_vector eff = st;
    bool ok = st.empty() ? row_major(s, eff) : st.size() == s.size();
    W need = ok ? needed(s, eff) : 0;
    size_t n = h::coin(4) || need > SIZE_MAX ? num() : static_cast<size_t>(need) - (need && h::coin(3)) + (need != SIZE_MAX && h::coin(3));
    Data_type dt = h::pick(DT);
    h::begin("Dense_tensor of shape " + list(s) + " with strides " + list(st) + " over " + std::to_string(n) + " elements of type " + std::to_string(static_cast<int>(dt)));
    ok = ok && need <= n;
    auto *raw = new Claim{n, dt};
    std::unique_ptr<Device_array> d{raw};
    expect(outcome([&] {
        auto t = make_intrusive<Dense_tensor>(s, std::move(d), st);
        if (!ok) return;
        common(*t, dt, s, eff);
        CHECK(t->data().data() == raw->data() && t->data().size() == n, "data");
        CHECK(static_cast<const Dense_tensor &>(*t).data().data() == raw->data(), "data");
    }), ok);
}
static void coo()
{
    Size_vector s(h::rnd(5));
    for (auto &x : s) x = h::coin(5) ? num() : small_num();
    size_t n = h::rnd(4), c = h::coin(4) ? h::rnd(6) : s.size();
    Ssize_vector eff;
    bool ok = row_major(s, eff) && c == s.size();
    std::vector<std::unique_ptr<Device_array>> lists;
    std::vector<Device_array *> raws;
    std::string what;
    for (size_t i = 0; i < c; i++) {
        size_t m = h::coin(6) ? h::rnd(5) : n;
        ok = ok && m == n;
        what += std::to_string(m) + ",";
        raws.push_back(new Claim{m, Data_type::size});
        lists.emplace_back(raws.back());
    }
    Data_type dt = h::pick(DT);
    h::begin("Coo_tensor of shape " + list(s) + " with " + std::to_string(n) + " values and coordinate lists of " + what + " entries");
    auto *raw = new Claim{n, dt};
    std::unique_ptr<Device_array> d{raw};
    expect(outcome([&] {
        auto t = make_intrusive<Coo_tensor>(s, std::move(d), std::move(lists));
        if (!ok) return;
        common(*t, dt, s, eff);
        CHECK(t->data().data() == raw->data() && t->data().size() == n, "data");
        for (size_t i = 0; i < c; i++) {
            CHECK(t->indices(i).data() == raws[i]->data(), "coordinates of dimension " + std::to_string(i));
            CHECK(static_cast<const Coo_tensor &>(*t).indices(i).data() == raws[i]->data(), "coordinates of dimension " + std::to_string(i));
        }
    }), ok);
}
static void csr()
{
    Size_vector s(h::rnd(4));
    for (auto &x : s) x = h::coin(3) ? num() : small_num();
    Ssize_vector eff;
    bool ok = row_major(s, eff) && s.size() <= 2;
    W rows = s.empty() ? 0 : s.size() == 1 ? 1 : s[0];
    size_t n = h::coin(4) ? num() : h::rnd(5), i = h::coin(4) ? num() : n, p = h::coin(4) || rows + 1 > SIZE_MAX ? (h::coin() ? h::rnd(3) : num()) : static_cast<size_t>(rows + 1) - h::coin(4);
    ok = ok && i == n && W(p) == rows + 1;
    Data_type dt = h::pick(DT);
    h::begin("Csr_tensor of shape " + list(s) + " with " + std::to_string(n) + " values, " + std::to_string(i) + " indices and " + std::to_string(p) + " index pointers");
    auto *raw = new Claim{n, dt}, *ind = new Claim{i, Data_type::size}, *ptr = new Claim{p, Data_type::size};
    std::unique_ptr<Device_array> d{raw}, a{ind}, b{ptr};
    expect(outcome([&] {
        auto t = make_intrusive<Csr_tensor>(s, std::move(d), std::move(a), std::move(b));
        if (!ok) return;
        common(*t, dt, s, eff);
        CHECK(t->data().data() == raw->data() && t->data().size() == n, "data");
        const Csr_tensor &c = *t;
        CHECK(c.data().data() == raw->data() && c.indices().data() == ind->data() && c.indptr().data() == ptr->data(), "data and lists");
    }), ok);
}
template<typename T>
static void zeros(Device_array &a, size_t n, const T &z)
{
    for (size_t i = 0; i < n; i++) if (!(static_cast<T *>(a.data())[i] == z)) h::fail("element " + std::to_string(i) + " is not zero");
}
static void arrays()
{
    static const std::vector<Data_type> all = {Data_type::size, Data_type::float16, Data_type::float32, Data_type::float64, Data_type::int8, Data_type::int16, Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16, Data_type::uint32, Data_type::uint64, Data_type::string};
    static const size_t width[] = {8, 2, 4, 8, 1, 2, 4, 8, 1, 2, 4, 8, 32};
    Data_type dt = h::pick(all);
    size_t n = h::rnd(40), w = width[static_cast<size_t>(dt)];
    h::begin("make_cpu_array of " + std::to_string(n) + " elements of type " + std::to_string(static_cast<int>(dt)));
    auto a = make_cpu_array(dt, n);
    CHECK(a->data_type() == dt, "data type");
    CHECK(a->device() == Device{Device_kind::cpu()}, "device");
    h::eq(a->size(), n, "size");
    h::eq(a->empty(), n == 0, "empty");
    if (dt == Data_type::string) zeros<std::string>(*a, n, "");
    else {
        zeros<char>(*a, n * w, 0);
        auto *p = static_cast<unsigned char *>(a->data());
        for (size_t i = 0; i < n * w; i++) p[i] = static_cast<unsigned char>(h::rnd());
        auto c = a->clone();
        CHECK(c->data_type() == dt && c->size() == n, "clone");
        CHECK(n == 0 || (c->data() != a->data() && memcmp(c->data(), p, n * w) == 0), "the clone has the elements");
    }
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double deadline, bool) {
        while (h::now() < deadline) { dense(); coo(); csr(); arrays(); }
    });
}
