// P15: blocks of every kind against a byte string through arbitrary sequences
// of resizes, the reference count against the pointers that exist.
#include "h.h"
#include "mlio/memory/external_memory_block.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/file_backed_memory_block.h"
#include "mlio/memory/heap_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/memory/util.h"
#include <thread>
static size_t size(size_t th)
{
    switch (h::rnd(8)) {
    case 0: return 0;
    case 1: return 4096 * h::rnd(4);
    case 2: return 4096 * h::rnd(4) + 1;
    case 3: return th;
    case 4: return th + 1;
    case 5: return h::rnd(20000);
    default: return h::rnd(100);
    }
}
static std::string bytes(size_t n)
{
    std::string r(n, '\0');
    for (auto &c : r) c = static_cast<char>(1 + h::rnd(255));
    return r;
}
struct Fixed final : Mutable_memory_block {      // a block that cannot be resized
    explicit Fixed(std::string d) : d_{std::move(d)} {}
    void resize(size_type) override { h::fail("a block that cannot be resized is resized"); }
    pointer data() noexcept override { return reinterpret_cast<std::byte *>(d_.data()); }
    const_pointer data() const noexcept override { return reinterpret_cast<const std::byte *>(d_.data()); }
    size_type size() const noexcept override { return d_.size(); }
    bool resizable() const noexcept override { return false; }
    std::string d_;
};
static void same(Mutable_memory_block &b, const std::string &d)
{
    h::eq(b.size(), d.size(), "size()");
    h::eq(static_cast<size_t>(b.end() - b.begin()), d.size(), "end() - begin()");
    h::eqs(std::string_view{reinterpret_cast<const char *>(b.data()), b.size()}, d, "contents");
}
static void life(int kind)
{
    static const char *names[] = {"heap block", "file-backed block", "block of the file-backed allocator", "block of the heap allocator", "block that cannot be resized"};
    size_t th = h::pick({1, 10, 4096, 5000, 1u << 20}), n = size(th);
    std::string what = std::string(names[kind]) + (kind == 2 ? " with threshold " + std::to_string(th) : "") + " of " + std::to_string(n) + " bytes,";
    h::begin(what);
    File_backed_memory_allocator fa{th};
    Heap_memory_allocator ha;
    std::string d;
    Intrusive_ptr<Mutable_memory_block> b;
    switch (kind) {
    case 0: b = make_intrusive<Heap_memory_block>(n); break;
    case 1: b = make_intrusive<File_backed_memory_block>(n); break;
    case 2: b = fa.allocate(n); break;
    case 3: b = ha.allocate(n); break;
    case 4: b = make_intrusive<Fixed>(std::string(n, 'x')); break;
    }
    h::eq(b->size(), n, "size()");
    auto fill = [&] {
        d = bytes(b->size());
        if (!d.empty()) memcpy(b->data(), d.data(), d.size());
    };
    fill();
    std::vector<std::pair<Intrusive_ptr<Mutable_memory_block>, std::string>> others;
    for (int i = 0, k = 1 + static_cast<int>(h::rnd(6)); i < k; i++) {
        size_t m = size(th);
        bool util = kind == 4 || h::coin();
        what += (util ? " resize_memory_block to " : " resized to ") + std::to_string(m) + ",";
        h::begin(what);
        if (util) {
            auto old = b;
            auto p = old.get();
            b = resize_memory_block(old, m);
            if (b.get() != p && old) same(*old, d);
        }
        else b->resize(m);
        std::string w = d.substr(0, std::min(m, d.size()));
        h::eq(b->size(), m, "size()");
        h::eqs(std::string_view{reinterpret_cast<const char *>(b->data()), w.size()}, w, "the bytes kept");
        if (h::coin(3)) {
            // the new part may hold anything: give it known contents
            fill();
        }
        else {
            for (size_t j = w.size(); j < m; j++) b->data()[j] = static_cast<std::byte>(7);
            d = w + std::string(m - w.size(), 7);
        }
        same(*b, d);
        for (auto &[o, t] : others) same(*o, t);
        if (h::coin(3)) {
            auto o = fa.allocate(size(th));
            auto t = bytes(o->size());
            if (!t.empty()) memcpy(o->data(), t.data(), t.size());
            others.emplace_back(o, t);
        }
    }
    h::nontrivial();
}
struct Tracked final : Memory_block {
    explicit Tracked(int &live) : live_{live} { live_++; }
    ~Tracked() override { live_--; }
    const_pointer data() const noexcept override { return reinterpret_cast<const std::byte *>(this); }
    size_type size() const noexcept override { return 4; }
    int &live_;
};
using Ptr = Intrusive_ptr<Memory_block>;
static void references()
{
    int live = 0;
    std::vector<Ptr> p(5);
    std::vector<int> id(5, -1);      // which object each pointer refers to
    std::vector<const Memory_block *> raw;
    std::vector<Memory_slice> slices;
    std::vector<int> sid;
    std::string what = "5 pointers:";
    for (int i = 0, k = 1 + static_cast<int>(h::rnd(25)); i < k; i++) {
        size_t x = h::rnd(5), y = h::rnd(5);
        auto s = std::to_string(x), t = std::to_string(y);
        switch (h::rnd(10)) {
        case 0: case 1: what += " p" + s + " = new,"; h::begin(what); p[x] = Ptr{make_intrusive<Tracked>(live)}; raw.push_back(p[x].get()); id[x] = static_cast<int>(raw.size()) - 1; break;
        case 2: case 3: what += " p" + s + " = p" + t + ","; h::begin(what); p[x] = p[y]; id[x] = id[y]; break;
        case 4: what += " p" + s + " = move(p" + t + "),"; h::begin(what); if (x != y) { p[x] = std::move(p[y]); id[x] = id[y]; id[y] = -1; } break;
        case 5: what += " p" + s + " = nullptr,"; h::begin(what); p[x] = nullptr; id[x] = -1; break;
        case 6: what += " p" + s + " released and wrapped again,"; h::begin(what); { auto r = p[x].release(); if (p[x]) h::fail("a released pointer is null"); p[x] = Ptr{r, false}; } break;
        case 7: what += " slice of p" + s + ","; h::begin(what); if (p[x]) { slices.emplace_back(p[x]); sid.push_back(id[x]); if (h::coin()) slices.back() = slices.back().first(h::rnd(5)); } break;
        case 8: what += " drop a slice,"; h::begin(what); if (!slices.empty()) { slices.pop_back(); sid.pop_back(); } break;
        case 9: what += " copies of p" + s + ","; h::begin(what); { Ptr a{p[x]}; Intrusive_ptr<const Memory_block> c{a}; Ptr m{std::move(a)}; if (a) h::fail("a moved-from pointer is null"); if (m.get() != p[x].get() || c.get() != p[x].get()) h::fail("a copy refers to the same object"); } break;
        }
        std::set<int> alive;
        for (int v : id) if (v >= 0) alive.insert(v);
        for (int v : sid) alive.insert(v);
        h::eq(live, static_cast<int>(alive.size()), "objects alive");
        for (size_t j = 0; j < 5; j++) {
            if ((id[j] < 0) != !p[j] || (id[j] >= 0 && p[j].get() != raw[static_cast<size_t>(id[j])])) h::fail("pointer " + std::to_string(j) + " does not refer to its object");
            if (id[j] < 0) continue;
            size_t n = 0;
            for (int v : id) n += v == id[j];
            for (int v : sid) n += v == id[j];
            h::eq(p[j]->use_count(), n, "use_count()");
        }
    }
    h::nontrivial();
    what += " all dropped";
    h::begin(what);
    p.clear();
    slices.clear();
    h::eq(live, 0, "objects alive at the end");
}
static void threads()
{
    h::begin("4 threads copying and dropping a shared pointer");
    int live = 0;
    Ptr p{make_intrusive<Tracked>(live)};
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; i++) ts.emplace_back([q = p] { for (int k = 0; k < 20000; k++) { Ptr a{q}; Ptr b; b = a; a = nullptr; } });
    for (auto &t : ts) t.join();
    ts.clear();
    h::eq(p->use_count(), size_t{1}, "use_count()");
    h::eq(live, 1, "objects alive");
    p = nullptr;
    h::eq(live, 0, "objects alive");
    h::nontrivial();
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>(5000));
    return h::run(argc, argv, [](double end, bool) {
        for (int i = 0; i < 5; i++) threads();
        while (h::now() < end) {
            for (int k = 0; k < 5; k++) life(k);
            for (int i = 0; i < 20; i++) references();
        }
    });
}
