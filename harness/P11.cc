// P11: sampled readers against the leading part of every window of 100.
#include "instances.h"
#include <limits>
static void ratio(float r)
{
    h::begin("sample ratio " + std::to_string(r));
    ins::Data d{{3}};
    Data_reader_params p{}; p.sample_ratio = r;
    auto k = h::raised<std::invalid_argument>([&] { ins::make(p, d); });
    h::eqs(k, r > 0 && r < 1 ? "" : "expected", "outcome");
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        for (float r : {0.0F, -0.0F, 1.0F, -1.0F, 2.0F, 1e-30F, 0.5F, 0.999999F, NAN, INFINITY, -INFINITY, std::numeric_limits<float>::denorm_min()}) ratio(r);
        for (size_t n : {0, 1, 2, 50, 99, 100, 101, 150, 199, 200, 201, 350, 1000}) for (float r : {0.001F, 0.004F, 0.01F, 0.0099F, 0.1F, 0.25F, 0.29F, 0.5F, 0.57F, 0.99F, 0.999F}) {
            Data_reader_params p{}; p.sample_ratio = r;
            ins::whole(p, ins::Data{{n / 2, n - n / 2}});
        }
        while (h::now() < end) {
            Data_reader_params p{};
            auto d = ins::data();
            ins::any_sample(p);
            if (h::coin(5)) ins::any_shard(p);
            if (h::coin(5)) ins::any_range(p, d.all.size());
            if (h::coin(5)) ins::any_shuffle(p);
            ins::whole(p, d);
        }
    });
}
