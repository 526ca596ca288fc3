// P09: ranges of many datasets, alone and before the other selections.
#include "instances.h"
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool thorough) {
        for (size_t n = 0; n < 8; n++) for (size_t s = 0; s < 10; s++) for (size_t l = 0; l < 11; l++) {
            ins::Data d{{n / 3, 0, n - n / 3}};
            Data_reader_params p{}; p.num_instances_to_skip = s; if (l < 10) p.num_instances_to_read = l;
            ins::whole(p, d);
            if (h::coin(4)) { ins::any_shard(p); ins::whole(p, d); }
        }
        while (h::now() < end) {
            Data_reader_params p{};
            auto d = ins::data();
            ins::any_range(p, d.all.size());
            if (h::coin(3)) ins::any_shard(p);
            if (h::coin(3)) ins::any_sample(p);
            if (h::coin(3)) ins::any_shuffle(p);
            ins::whole(p, d);
        }
    });
}
