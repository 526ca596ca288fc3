// Drives the real stack of instance readers over in-memory datasets and
// compares what it delivers with an independent selection.
#pragma once
#include <algorithm>
#include <cmath>
#include <map>
#include "h.h"
#include "mlio/data_reader.h"
#include "mlio/data_reader_error.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/instance.h"
#include "mlio/instance_readers/instance_reader.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/record_readers/text_line_record_reader.h"
#include "mlio/streams/input_stream.h"

namespace ins {
inline int init = (set_memory_allocator(std::make_unique<File_backed_memory_allocator>()), 0);
// stores with the given numbers of instances; instance i of store s is the
// line "s.i"
struct Data {
    std::vector<size_t> sizes;
    std::vector<std::string> all;
    std::vector<Intrusive_ptr<Data_store>> stores;
    explicit Data(std::vector<size_t> n) : sizes{std::move(n)}
    {
        for (size_t s = 0; s < sizes.size(); s++) {
            std::string t;
            for (size_t i = 0; i < sizes[s]; i++) {
                all.push_back(std::to_string(s) + "." + std::to_string(i));
                t += all.back() + "\n";
            }
            stores.push_back(make_intrusive<In_memory_store>(h::slice(t)));
        }
    }
};
inline std::string show(const Data_reader_params &p, const Data &d)
{
    std::string r = "stores of";
    for (size_t n : d.sizes) r += " " + std::to_string(n);
    r += " instances, skip " + std::to_string(p.num_instances_to_skip) + ", read " + (p.num_instances_to_read ? std::to_string(*p.num_instances_to_read) : "all") + ", shard " + std::to_string(p.shard_index) + " of " + std::to_string(p.num_shards) +
         ", sample " + (p.sample_ratio ? std::to_string(*p.sample_ratio) : "no");
    if (p.shuffle_instances) r += ", shuffle window " + std::to_string(p.shuffle_window) + " seed " + (p.shuffle_seed ? std::to_string(*p.shuffle_seed) : "none") + (p.reshuffle_each_epoch ? " each epoch" : " once");
    return r;
}
inline std::unique_ptr<detail::Instance_reader> make(Data_reader_params &p, const Data &d)
{
    p.dataset = d.stores;
    return detail::make_instance_reader(p, [](const Data_store &s) -> Intrusive_ptr<Record_reader> { return make_intrusive<detail::Text_line_record_reader>(s.open_read(), false); });
}
// at most limit instances; each is checked to carry its number and store
inline std::vector<std::string> drain(detail::Instance_reader &r, const Data &d, bool peeks, size_t limit = static_cast<size_t>(-1))
{
    std::vector<std::string> v;
    while (v.size() < limit) {
        std::string seen;
        int np = peeks && h::coin() ? 1 + static_cast<int>(h::rnd(2)) : 0;
        bool pe = false;
        for (int k = 0; k < np; k++) {
            auto p = r.peek_instance();
            std::string t = p ? h::text(p->bits()) : "";
            CHECK(k == 0 || (seen == t && pe == !p), "two peeks differ");
            seen = t; pe = !p;
        }
        auto i = r.read_instance();
        if (np) CHECK(pe == !i && (!i || seen == h::text(i->bits())), "peek and read differ");
        if (!i) {
            CHECK(!r.read_instance() && !r.peek_instance(), "an instance after the end");
            break;
        }
        v.push_back(h::text(i->bits()));
        size_t s = strtoul(v.back().c_str(), nullptr, 10), n = strtoul(v.back().c_str() + v.back().find('.') + 1, nullptr, 10);
        h::eq(i->index(), n, "number of instance " + v.back());
        CHECK(s < d.stores.size() && &i->data_store() == d.stores[s].get(), "data store of instance " + v.back());
        if (v.size() > 2 * d.all.size() + 10) h::fail("more instances than the dataset has");
    }
    return v;
}
// the selection before shuffling
inline std::vector<std::string> select(const Data_reader_params &p, const Data &d)
{
    std::vector<std::string> a, b, c;
    for (size_t i = 0; i < d.all.size(); i++)
        if (i >= p.num_instances_to_skip && (!p.num_instances_to_read || i - p.num_instances_to_skip < *p.num_instances_to_read)) a.push_back(d.all[i]);
    for (size_t i = 0; i < a.size(); i++)
        if (p.num_shards < 2 || i % p.num_shards == p.shard_index) b.push_back(a[i]);
    if (!p.sample_ratio) return b;
    for (size_t i = 0; i < b.size(); i += 100) {
        size_t m = std::min<size_t>(100, b.size() - i);
        size_t k = static_cast<size_t>(std::floor(*p.sample_ratio * static_cast<float>(m)));
        for (size_t j = 0; j < k; j++) c.push_back(b[i + j]);
    }
    return c;
}
inline void whole(Data_reader_params p, const Data &d)
{
    h::begin(show(p, d));
    auto want = select(p, d);
    if (want.size() > 1) h::nontrivial();
    auto r = make(p, d);
    std::vector<std::string> first;
    for (int epoch = 0; epoch < 3; epoch++) {
        bool part = epoch == 1 && h::coin();
        size_t lim = part ? h::rnd(want.size() + 1) : static_cast<size_t>(-1);
        auto got = drain(*r, d, h::coin(), lim);
        std::string at = "epoch " + std::to_string(epoch) + (part ? " (stopped early)" : "");
        if (part) want.resize(std::min(lim, want.size()));
        if (!p.shuffle_instances) h::eqv(got, want, at);
        else if (!part) {
            auto x = got, y = want;
            std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            h::eqv(x, y, at + ": instances, sorted");
            if (p.shuffle_window == 1) h::eqv(got, want, at + ": a window of one keeps the order");
            std::map<std::string, size_t> pos;
            for (size_t i = 0; i < want.size(); i++) pos[want[i]] = i;
            if (p.shuffle_window) for (size_t i = 0; i < got.size(); i++)
                CHECK(pos[got[i]] <= i + p.shuffle_window - 1, at + ": instance " + got[i] + " delivered at " + std::to_string(i) + " was outside the window");
            if (epoch && !p.reshuffle_each_epoch) h::eqv(got, first, at + ": order of the first epoch");
            if (!epoch && p.shuffle_seed) {
                auto q = make(p, d);
                h::eqv(drain(*q, d, false), got, "a second reader with the same seed");
            }
        }
        if (!epoch) first = got;
        r->reset();
        if (part) want = select(p, d);
    }
}
inline Data data() { std::vector<size_t> n(h::rnd(4)); for (auto &x : n) x = h::rnd(h::pick({1, 4, 30, 250})); return Data{n}; }
inline void any_range(Data_reader_params &p, size_t n)
{
    if (h::coin()) p.num_instances_to_skip = h::coin(8) ? h::pick({n, n + 1, ~size_t{0}}) : h::rnd(n + 2);
    if (h::coin()) p.num_instances_to_read = h::coin(8) ? h::pick({0, n, ~size_t{0}}) : h::rnd(n + 2);
}
inline void any_shard(Data_reader_params &p) { p.num_shards = 1 + h::rnd(5); p.shard_index = h::rnd(p.num_shards); }
inline void any_shuffle(Data_reader_params &p)
{
    p.shuffle_instances = true; p.shuffle_window = h::pick({0, 1, 2, 3, 7, 100, 1000});
    if (h::coin()) p.shuffle_seed = h::coin(8) ? h::pick({0, ~size_t{0}}) : h::rnd(1000);
    p.reshuffle_each_epoch = h::coin();
}
inline void any_sample(Data_reader_params &p) { p.sample_ratio = h::coin(3) ? 0.001F + 0.02F * static_cast<float>(h::rnd(49)) : (1.0F + static_cast<float>(h::rnd(998))) / 1000.0F; }
}  // namespace ins
