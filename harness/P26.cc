// P26: DLPack export.  The array counts its own life time; the expected
// element codes are DLPack's published ones.
#include "h.h"
#include <dlpack/dlpack.h>
#include "mlio/cpu_array.h"
#include "mlio/integ/dlpack.h"
#include "mlio/tensor.h"
static int alive, destroyed;
struct Arr final : Device_array {
    size_t n; Data_type dt; std::string kind; size_t id; std::vector<char> d;
    Arr(size_t n, Data_type dt, std::string k, size_t id) : n{n}, dt{dt}, kind{std::move(k)}, id{id}, d(n * 8 + 1, 'x') { alive++; }
    ~Arr() final { alive--; destroyed++; }
    std::unique_ptr<Device_array> clone() const final { return std::make_unique<Arr>(n, dt, kind, id); }
    void *data() noexcept final { return d.data(); }
    const void *data() const noexcept final { return d.data(); }
    std::size_t size() const noexcept final { return n; }
    bool empty() const noexcept final { return n == 0; }
    Data_type data_type() const noexcept final { return dt; }
    Device device() const noexcept final { return kind.empty() ? Device{Device_kind::cpu(), id} : Device{Device_kind{kind}, id}; }
};
struct Ty { Data_type dt; int code, bits; const char *name; };
static const std::vector<Ty> types = {
    {Data_type::size, 1, 64, "size"}, {Data_type::float16, 2, 16, "float16"}, {Data_type::float32, 2, 32, "float32"}, {Data_type::float64, 2, 64, "float64"},
    {Data_type::int8, 0, 8, "int8"}, {Data_type::int16, 0, 16, "int16"}, {Data_type::int32, 0, 32, "int32"}, {Data_type::int64, 0, 64, "int64"},
    {Data_type::uint8, 1, 8, "uint8"}, {Data_type::uint16, 1, 16, "uint16"}, {Data_type::uint32, 1, 32, "uint32"}, {Data_type::uint64, 1, 64, "uint64"},
    {Data_type::string, -1, 0, "string"}};
static void one(const Ty &t)
{
    Size_vector shape;
    size_t rank = h::pick({0, 1, 1, 2, 2, 3, 4, 7}), n = 1;
    for (size_t i = 0; i < rank; i++) { shape.push_back(h::coin(12) ? 0 : 1 + h::rnd(4)); n *= shape.back(); }
    Ssize_vector strides, want;
    size_t extent = n;
    bool given = rank && n && h::coin();
    if (given) {
        // a permuted, possibly broadcast layout
        strides.assign(rank, 1);
        std::vector<size_t> p;
        for (size_t i = 0; i < rank; i++) p.push_back(i);
        for (size_t i = rank; i > 1; i--) std::swap(p[i - 1], p[h::rnd(i)]);
        size_t k = 1 + h::rnd(2);
        extent = 1;
        for (auto i : p) {
            strides[i] = h::coin(8) ? 0 : static_cast<ptrdiff_t>(k);
            extent += (shape[i] - 1) * static_cast<size_t>(strides[i]);
            k *= shape[i];
        }
        want = strides;
    }
    else {
        want.assign(rank, 1);
        for (size_t i = rank; i-- > 1;) want[i - 1] = want[i] * static_cast<ptrdiff_t>(shape[i]);
    }
    std::string kind = h::coin(5) ? h::pick<std::string>({"GPU", "cpu", "CP", "CPU2", "CPU\n", "TPU"}) : h::coin(4) ? "CPU" : "";
    size_t id = h::coin(3) ? h::rnd(5) : 0;
    int form = h::coin(5) ? (h::coin() ? 1 : 2) : 0;
    size_t version = h::coin(6) ? h::pick({0, 1, 16, 20, 61, 59, 255, SIZE_MAX, DLPACK_VERSION + (size_t(1) << 32)}) : DLPACK_VERSION;
    std::string what = std::string(form == 0 ? "dense" : form == 1 ? "coo" : "csr") + " tensor of " + t.name + " on '" + (kind.empty() ? "CPU" : kind) + "' " + std::to_string(id) + ", shape (";
    for (auto s : shape) what += std::to_string(s) + ",";
    what += "), strides (";
    for (auto s : strides) what += std::to_string(s) + ",";
    h::begin("as_dlpack of a " + what + "), version " + std::to_string(version));
    alive = destroyed = 0;
    auto arr = std::make_unique<Arr>(std::max<size_t>(extent, 1), t.dt, kind, id);
    void *data = arr->data();
    Intrusive_ptr<Tensor> x;
    if (form == 0) x = make_intrusive<Dense_tensor>(shape, std::move(arr), strides);
    else if (form == 1) { size_t n0 = arr->n; x = make_intrusive<Coo_tensor>(Size_vector{n0}, std::move(arr), [&] { std::vector<std::unique_ptr<Device_array>> c; c.push_back(make_cpu_array(Data_type::size, n0)); return c; }()); }
    else { size_t n0 = arr->n; auto ptr = wrap_cpu_array<Data_type::size>(std::vector<size_t>{0, n0}); x = make_intrusive<Csr_tensor>(Size_vector{1, n0}, std::move(arr), make_cpu_array(Data_type::size, n0), std::move(ptr)); }
    bool cpu = kind.empty() || kind == "CPU";
    bool ok = form == 0 && cpu && t.code >= 0 && version == DLPACK_VERSION;
    int copies = 1 + static_cast<int>(h::rnd(3));
    std::vector<DLManagedTensor *> out;
    for (int c = 0; c < copies; c++) {
        DLManagedTensor *m = nullptr;
        bool refused = h::throws([&] { m = as_dlpack(*x, version); });
        CHECK(refused == !ok, refused ? "a representable tensor was refused" : "the tensor cannot be represented");
        if (refused) continue;
        CHECK(m, "no managed tensor");
        out.push_back(m);
    }
    for (auto m : out) {
        auto &d = m->dl_tensor;
        CHECK(d.data == data && d.byte_offset == 0, "data pointer");
        h::eq(int(d.dtype.code), t.code, "type code");
        h::eq(int(d.dtype.bits), t.bits, "bits");
        h::eq(int(d.dtype.lanes), 1, "lanes");
        h::eq(int(d.ctx.device_type), 1, "device type");
        h::eq(size_t(d.ctx.device_id), id, "device id");
        h::eq(size_t(d.ndim), rank, "rank");
        for (size_t i = 0; i < rank; i++) {
            h::eq(d.shape[i], static_cast<int64_t>(shape[i]), "shape " + std::to_string(i));
            CHECK(d.strides, "strides given");
            h::eq(d.strides[i], static_cast<int64_t>(want[i]), "stride " + std::to_string(i));
        }
    }
    bool first = h::coin();
    if (first) { x = {}; h::eq(alive, out.empty() ? 0 : 1, "arrays alive after the tensor is let go"); }
    for (size_t i = 0; i < out.size(); i++) {
        static_cast<volatile char *>(out[i]->dl_tensor.data)[0] = 'y';      // still accessible
        out[i]->deleter(out[i]);
        h::eq(alive, first && i + 1 == out.size() ? 0 : 1, "arrays alive after a deleter");
    }
    x = {};
    h::eq(alive, 0, "arrays alive at the end");
    h::eq(destroyed, 1, "times the array was released");
    if (ok) h::nontrivial();
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double deadline, bool) {
        while (h::now() < deadline) for (auto &t : types) one(t);
    });
}
