// P14: slices against the range they name, memory streams against a cursor
// over a byte string, for arbitrary (also huge) offsets and counts.
#include "h.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/streams/input_stream_base.h"
#include "mlio/streams/memory_input_stream.h"
#include "mlio/streams/stream_error.h"
#include "mlio/streams/utf8_input_stream.h"
#include <limits>
constexpr size_t max = std::numeric_limits<size_t>::max();
static size_t number(size_t n)
{
    switch (h::rnd(8)) {
    case 0: return max - h::rnd(3);
    case 1: return max / 2 + h::rnd(4);
    case 2: return n + h::rnd(3);
    case 3: return n - h::rnd(3);
    case 4: return max - n - h::rnd(2) + 1;
    default: return h::rnd(n + 2);
    }
}
static std::string bytes(size_t n)
{
    std::string r;
    while (r.size() < n) r.push_back(static_cast<char>(h::rnd(256)));
    return r;
}
// the operand is the slice [b, e) of a block holding d
static void slicing(const std::string &d, size_t b, size_t e, int op, size_t a1, size_t a2, bool rv)
{
    static const char *names[] = {"subslice(offset)", "subslice(offset, count)", "first(count)", "last(count)", "subslice(iterator)", "subslice(iterator, iterator)", "first(iterator)", "last(iterator)"};
    h::begin("slice [" + std::to_string(b) + ", " + std::to_string(e) + ") of " + std::to_string(d.size()) + " bytes, " + names[op] + (rv ? " &&" : "") + " with " + std::to_string(a1) + ", " + std::to_string(a2) + (op >= 4 ? " (offsets in the block)" : ""));
    auto blk = wrap_intrusive(new Heap_memory_block{d.size()});
    if (!d.empty()) memcpy(blk->data(), d.data(), d.size());
    auto base = blk->data();
    Memory_slice whole{blk};
    Memory_slice s = whole;
    if (b != 0 || e != d.size()) s = whole.subslice(whole.begin() + b, whole.begin() + e);
    size_t n = e - b, lo = 0, hi = 0;
    bool ok = false;
    auto it = [&](size_t o) { return blk->cbegin() + static_cast<ssize_t>(o); };
    switch (op) {
    case 0: ok = a1 <= n; lo = a1; hi = n; break;
    case 1: ok = a1 <= n && a2 <= n - a1; lo = a1; hi = a1 + a2; break;
    case 2: ok = a1 <= n; hi = a1; break;
    case 3: ok = a1 <= n; lo = n - a1; hi = n; break;
    case 4: case 7: ok = a1 >= b && a1 <= e; lo = a1 - b; hi = n; break;
    case 5: ok = a1 >= b && a1 <= a2 && a2 <= e; lo = a1 - b; hi = a2 - b; break;
    case 6: ok = a1 >= b && a1 <= e; hi = a1 - b; break;
    }
    Memory_slice r;
    bool got = false;
    auto k = h::raised<std::invalid_argument>([&] {
        Memory_slice t = s;
        switch (op) {
        case 0: r = rv ? std::move(t).subslice(a1) : t.subslice(a1); break;
        case 1: r = rv ? std::move(t).subslice(a1, a2) : t.subslice(a1, a2); break;
        case 2: r = rv ? std::move(t).first(a1) : t.first(a1); break;
        case 3: r = rv ? std::move(t).last(a1) : t.last(a1); break;
        case 4: r = rv ? std::move(t).subslice(it(a1)) : t.subslice(it(a1)); break;
        case 5: r = rv ? std::move(t).subslice(it(a1), it(a2)) : t.subslice(it(a1), it(a2)); break;
        case 6: r = rv ? std::move(t).first(it(a1)) : t.first(it(a1)); break;
        case 7: r = rv ? std::move(t).last(it(a1)) : t.last(it(a1)); break;
        }
        got = true;
    });
    h::eqs(k, ok ? "" : "expected", "outcome");
    h::eq(s.size(), n, "size of the original slice afterwards");
    if (!got) return;
    h::nontrivial();
    blk = {};
    if (h::coin()) { s = {}; whole = {}; }
    h::eq(r.size(), hi - lo, "size");
    h::eq(r.empty(), hi == lo, "empty()");
    if (hi != lo || base) h::eq(reinterpret_cast<size_t>(r.data()), reinterpret_cast<size_t>(base + b + lo), "address");
    h::eqs(h::text(r), std::string_view{d}.substr(b + lo, hi - lo), "bytes");
}
static void cursor(const std::string &d, int kind)
{
    auto in = kind == 0 ? wrap_intrusive<Input_stream>(new Memory_input_stream{h::slice(d)}) : kind == 1 ? wrap_intrusive<Input_stream>(new Memory_input_stream{{}}) : In_memory_store{h::slice(d)}.open_read();
    std::string what = (kind == 1 ? "stream over an empty slice" : "stream over " + std::to_string(d.size()) + " bytes") + std::string(kind == 2 ? " of a store" : "") + ":";
    size_t pos = 0;
    bool closed = false;
    std::vector<std::pair<Memory_slice, std::string>> kept;
    for (int i = 0, n = 1 + static_cast<int>(h::rnd(12)); i < n; i++) {
        size_t op = h::rnd(12), c = number(d.size());
        auto refused = [&](auto &&f) { h::eqs(h::raised<Stream_error>(f), closed ? "expected" : "", "outcome"); };
        switch (op) {
        case 0: case 1: case 2: {
            c = h::rnd(d.size() + 4);
            what += " read(span of " + std::to_string(c) + ")";
            h::begin(what);
            std::string buf(c + 8, '\x5a');
            size_t got = 0;
            refused([&] { got = in->read(Mutable_memory_span{reinterpret_cast<std::byte *>(buf.data() + 4), c}); });
            size_t w = closed ? 0 : std::min(c, d.size() - pos);
            if (!closed) h::eq(got, w, "bytes read");
            h::eqs(buf, std::string(4, '\x5a') + d.substr(pos, w) + std::string(c + 4 - w, '\x5a'), "destination");
            pos += w;
            break;
        }
        case 3: case 4: case 5: {
            what += " read(" + std::to_string(c) + ")";
            h::begin(what);
            Memory_slice s;
            refused([&] { s = in->read(c); });
            size_t w = closed ? 0 : std::min(c, d.size() - pos);
            h::eqs(h::text(s), d.substr(pos, w), "slice read");
            kept.emplace_back(s, d.substr(pos, w));
            pos += w;
            break;
        }
        case 6: case 7:
            what += " seek(" + std::to_string(c) + ")";
            h::begin(what);
            refused([&] { in->seek(c); });
            if (!closed) pos = std::min(c, d.size());
            break;
        case 8:
            if (!h::coin(3)) break;
            what += " close()";
            h::begin(what);
            in->close();
            closed = true;
            break;
        default:
            h::begin(what);
        }
        size_t sz = 0, ps = 0;
        refused([&] { sz = in->size(); });
        refused([&] { ps = in->position(); });
        if (!closed) { h::eq(sz, d.size(), "size()"); h::eq(ps, pos, "position()"); }
        h::eq(in->closed(), closed, "closed()");
        h::eq(in->seekable() && in->supports_zero_copy(), true, "seekable() and supports_zero_copy()");
    }
    h::nontrivial();
    in = {};
    for (auto &[s, t] : kept) h::eqs(h::text(s), t, "a slice read earlier, after the stream is gone");
}
class Base final : public Input_stream_base {
public:
    explicit Base(std::string d, size_t step) : d_{std::move(d)}, step_{step} {}
    using Input_stream_base::read;
    size_t read(Mutable_memory_span dst) override
    {
        size_t n = std::min({dst.size(), d_.size() - pos_, step_});
        if (n) memcpy(dst.data(), d_.data() + pos_, n);
        pos_ += n;
        return n;
    }
    void close() noexcept override {}
    bool closed() const noexcept override { return false; }
private:
    std::string d_;
    size_t step_, pos_ = 0;
};
static void base(const std::string &d, size_t step)
{
    Base b{d, step};
    size_t pos = 0;
    std::string what = "stream of " + std::to_string(d.size()) + " bytes with reads of at most " + std::to_string(step) + ":";
    for (int i = 0; i < 5; i++) {
        size_t c = h::rnd(d.size() + 3), w = std::min({c, d.size() - pos, step});
        what += " read(" + std::to_string(c) + ")";
        h::begin(what);
        h::eqs(h::text(b.read(c)), d.substr(pos, w), "slice read");
        pos += w;
    }
    h::nontrivial();
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    return h::run(argc, argv, [](double end, bool) {
        for (size_t n = 0; n <= 3; n++) for (size_t b = 0; b <= n; b++) for (size_t e = b; e <= n; e++) for (int op = 0; op < 8; op++) for (bool rv : {false, true})
            for (size_t a : {size_t{0}, size_t{1}, size_t{2}, size_t{3}, size_t{4}, max, max - 1, max / 2, max / 2 + 1, max / 2 + 2}) for (size_t c : {size_t{0}, size_t{1}, size_t{2}, size_t{3}, max, max - 1, max - 2, max / 2, max / 2 + 1}) {
                if (op >= 4 && (a > n || c > n)) continue;
                slicing(bytes(n), b, e, op, a, c, rv);
            }
        while (h::now() < end) {
            size_t n = h::coin(4) ? h::rnd(3000) : h::rnd(12), b = h::rnd(n + 1), e = b + h::rnd(n - b + 1);
            for (int k = 0; k < 5; k++) {
                int op = static_cast<int>(h::rnd(8));
                slicing(bytes(n), b, e, op, op < 4 ? number(e - b) : h::rnd(n + 1), op < 4 ? number(e - b) : h::rnd(n + 1), h::coin());
            }
            for (int k = 0; k < 10; k++) { int kd = static_cast<int>(h::rnd(3)); cursor(kd == 1 ? "" : bytes(h::coin(8) ? h::rnd(70000) : h::rnd(20)), kd); }
            base(bytes(h::coin(8) ? h::rnd(3000) : h::rnd(20)), 1 + h::rnd(10));
        }
    });
}
