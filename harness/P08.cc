// P08: every shard of many datasets against the positions it must deliver.
#include "instances.h"
static void rejected(size_t n, size_t i)
{
    h::begin("shard index " + std::to_string(i) + " of " + std::to_string(n));
    ins::Data d{{3}};
    Data_reader_params p{}; p.num_shards = n; p.shard_index = i;
    bool bad = n > 1 ? i >= n : i > 0;
    auto k = h::raised<std::invalid_argument>([&] { ins::make(p, d); });
    if (bad) h::eqs(k, "expected", "outcome");
    else h::eqs(k, "", "outcome");
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        for (size_t n : {0, 1, 2, 3, 7}) for (size_t i : {size_t{0}, size_t{1}, n - 1, n, n + 1, ~size_t{0}}) if (n || !i) rejected(n, i);
        for (size_t n = 0; n < 14; n++) for (size_t s = 1; s < 6; s++) {
            ins::Data d{{n / 2, 0, n - n / 2}};
            for (size_t i = 0; i < s; i++) { Data_reader_params p{}; p.num_shards = s; p.shard_index = i; ins::whole(p, d); }
        }
        while (h::now() < end) {
            Data_reader_params p{};
            auto d = ins::data();
            ins::any_shard(p);
            if (h::coin(3)) ins::any_range(p, d.all.size());
            if (h::coin(4)) ins::any_sample(p);
            if (h::coin(4)) ins::any_shuffle(p);
            if (h::coin(50)) { p.num_shards = ~size_t{0} - h::rnd(3); p.shard_index = h::rnd(d.all.size() + 2); }
            ins::whole(p, d);
        }
    });
}
