// P10: shuffled readers: every epoch is a permutation of the dataset inside the
// window, the same for the same seed, and repeated when reshuffling is off.
#include "instances.h"
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        for (size_t n = 0; n < 9; n++) for (size_t w = 0; w < 11; w++) for (bool seeded : {false, true}) for (bool re : {false, true}) {
            ins::Data d{{n / 3, 0, n - n / 3}};
            Data_reader_params p{}; p.shuffle_instances = true; p.shuffle_window = w; p.reshuffle_each_epoch = re;
            if (seeded) p.shuffle_seed = n * w;
            ins::whole(p, d);
        }
        while (h::now() < end) {
            Data_reader_params p{};
            auto d = ins::data();
            ins::any_shuffle(p);
            if (h::coin(5)) ins::any_shard(p);
            if (h::coin(5)) ins::any_range(p, d.all.size());
            if (h::coin(5)) ins::any_sample(p);
            ins::whole(p, d);
        }
    });
}
