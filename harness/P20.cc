// P20: sparse batches built from rows, against the rows themselves: every
// value at its row and at the row-major position of its index.
#include "h.h"
#include <algorithm>
#include "mlio/coo_tensor_builder.h"
#include "mlio/data_type.h"
#include "mlio/device_array.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
using namespace mlio::detail;
using Idx = std::vector<uint64_t>;
static std::string list(const Idx &v)
{
    std::string r;
    for (auto x : v) r += (r.empty() ? "" : " ") + std::to_string(x);
    return "(" + r + ")";
}
struct Row { Idx at; std::vector<long> values; };
template<Data_type dt>
static void build()
{
    using T = data_type_t<dt>;
    size_t rank = 1 + h::rnd(4), batch = h::rnd(6);
    Size_vector shape{batch};
    for (size_t i = 0; i < rank; i++) {
        size_t d = h::coin(12) ? 0 : h::coin(6) ? h::pick({1000, 65537, 1u << 31}) : 1 + h::rnd(5);
        unsigned __int128 p = 1;
        for (size_t j = 1; j < shape.size(); j++) p *= shape[j] ? shape[j] : 1;
        shape.push_back(p * (d ? d : 1) > (uint64_t{1} << 50) ? 1 : d);
    }
    // the number of cells of the feature (row-major)
    uint64_t cells = 1;
    for (size_t j = 1; j < shape.size(); j++) cells *= shape[j];
    Attribute attr{"feature", dt, shape, {}, true};
    size_t declared = h::coin(4) ? h::rnd(9) : batch;
    auto made = make_coo_tensor_builder(attr, declared);
    auto &b = static_cast<Coo_tensor_builder_impl<dt> &>(*made);
    std::string text = "a sparse batch of shape " + list(Idx(shape.begin(), shape.end())) + " type " + std::to_string(static_cast<int>(dt));
    std::vector<Row> rows;
    long serial = 1;
    size_t n = h::rnd(9);
    bool refused = false, some = false;
    for (size_t k = 0; k < n; k++) {
        if (h::coin(8)) {
            size_t keep = h::rnd(rows.size() + 3);
            text += "; keep " + std::to_string(keep) + " rows";
            h::begin(text);
            b.discard_rows(keep);
            if (keep < rows.size()) rows.resize(keep);
            continue;
        }
        Row r;
        bool ok = true;
        std::vector<T> values;
        for (size_t i = h::rnd(5); i > 0; i--) {
            uint64_t x = h::rnd(cells);
            if (h::coin(9) || cells == 0) {
                x = h::pick(Idx{cells, cells + 1, cells * 2, UINT64_MAX, UINT64_MAX / 2 + 1, cells + h::rnd(1000)});
                if (x < cells) x = cells;
            }
            if (h::coin(9) && cells) x = cells - 1;
            ok = ok && x < cells;
            r.at.push_back(x);
            r.values.push_back(serial);
            values.push_back(static_cast<T>(serial++ % 100 + 1));
            r.values.back() = static_cast<long>(values.back());
        }
        auto at = r.at;
        if (h::coin(9)) { ok = false; if (h::coin() && !at.empty()) at.pop_back(); else at.push_back(0); }
        text += "; append " + list(at) + " with " + std::to_string(values.size()) + " values";
        h::begin(text);
        std::vector<T> exact(values);
        exact.shrink_to_fit();
        at.shrink_to_fit();
        bool got = b.append(exact, at);
        CHECK(got == ok, std::string("the row is ") + (got ? "accepted" : "refused"));
        if (ok) { rows.push_back(r); some = some || !at.empty(); }
        else refused = true;
    }
    h::begin(text + "; build");
    auto whole = made->build();
    auto *t = dynamic_cast<Coo_tensor *>(whole.get());
    CHECK(t != nullptr, "a sparse tensor");
    CHECK(t->data_type() == dt, "data type");
    shape[0] = declared;
    CHECK(t->shape() == shape, "shape");
    std::vector<long> values;
    std::vector<Idx> at(shape.size());
    for (size_t r = 0; r < rows.size(); r++)
        for (size_t i = 0; i < rows[r].at.size(); i++) {
            values.push_back(rows[r].values[i]);
            uint64_t x = rows[r].at[i];
            at[0].push_back(r);
            Idx c(shape.size());
            for (size_t d = shape.size(); d-- > 1;) { c[d] = x % shape[d]; x /= shape[d]; }
            for (size_t d = 1; d < shape.size(); d++) at[d].push_back(c[d]);
        }
    h::eq(t->data().size(), values.size(), "number of values");
    auto got = t->data().template as<T>();
    for (size_t i = 0; i < values.size(); i++) CHECK(static_cast<long>(got[i]) == values[i], "value " + std::to_string(i));
    for (size_t d = 0; d < shape.size(); d++) {
        auto c = t->indices(d).template as<std::size_t>();
        Idx g(c.begin(), c.end());
        if (g != at[d]) h::fail("coordinates of dimension " + std::to_string(d) + ": expected " + list(at[d]) + ", got " + list(g));
    }
    if (some && refused) h::nontrivial();
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool) {
        while (h::now() < end) {
            build<Data_type::float32>();
            build<Data_type::int64>();
            build<Data_type::uint8>();
            build<Data_type::float64>();
        }
    });
}
