// P12: batches of real instance readers and the examples made of them against
// plain chunking.
#include "instances.h"
#include "mlio/csv_reader.h"
#include "mlio/example.h"
#include "mlio/instance_batch.h"
#include "mlio/instance_batch_reader.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
#include "mlio/text_line_reader.h"
static const char *names[] = {"none", "drop", "drop_warn", "pad", "pad_warn"};
struct Batch { size_t index, size; std::vector<std::string> items; };
static std::vector<Batch> chunk(const std::vector<std::string> &v, size_t b, int how)
{
    std::vector<Batch> r;
    for (size_t i = 0; i < v.size();) {
        Batch x{r.size(), 0, {}};
        while (x.items.size() < b && i < v.size()) x.items.push_back(v[i++]);
        if (x.items.size() < b && (how == 1 || how == 2)) break;
        x.size = how >= 3 ? b : x.items.size();
        r.push_back(x);
    }
    return r;
}
static std::string show(const Batch &b) { return "#" + std::to_string(b.index) + " size " + std::to_string(b.size) + " " + h::str(b.items); }
static void batches(Data_reader_params p, const ins::Data &d, size_t b, int how)
{
    p.batch_size = b;
    p.last_example_handling = static_cast<Last_example_handling>(how);
    h::begin("batches of " + std::to_string(b) + ", last " + names[how] + ", " + ins::show(p, d));
    auto all = ins::select(p, d);
    auto want = chunk(all, b, how);
    if (want.size() > 1) h::nontrivial();
    auto r = ins::make(p, d);
    detail::Instance_batch_reader br{p, *r};
    for (int epoch = 0; epoch < 3; epoch++) {
        std::vector<std::string> got, w;
        size_t lim = epoch == 1 ? h::rnd(want.size() + 1) : want.size() + 3;
        for (size_t i = 0; i < lim; i++) {
            if (h::coin(8)) r->peek_instance();
            auto x = br.read_instance_batch();
            if (!x) {
                CHECK(i == want.size(), "epoch " + std::to_string(epoch) + ": end after " + std::to_string(i) + " of " + std::to_string(want.size()) + " batches");
                CHECK(!br.read_instance_batch(), "a batch after the end");
                break;
            }
            Batch y{x->index(), x->size(), {}};
            size_t bytes = 0;
            for (auto &n : x->instances()) { y.items.push_back(h::text(n.bits())); bytes += y.items.back().size(); }
            h::eq(x->size_bytes(), bytes, "size in bytes");
            got.push_back(show(y));
        }
        for (size_t i = 0; i < std::min(lim, want.size()); i++) w.push_back(show(want[i]));
        h::eqv(got, w, "epoch " + std::to_string(epoch));
        br.reset();
    }
}
static void examples(size_t n, size_t b, int how, bool csv, size_t prefetch, size_t reads)
{
    h::begin(std::string(csv ? "csv" : "text line") + " examples of " + std::to_string(n) + " lines, batches of " + std::to_string(b) + ", last " + names[how] + ", prefetch " + std::to_string(prefetch) + ", parallel " + std::to_string(reads));
    std::string t;
    std::vector<std::string> all, want;
    for (size_t i = 0; i < n; i++) { all.push_back(std::to_string(i + 1)); t += all.back() + "\n"; }
    for (auto &x : chunk(all, b, how)) {
        std::string s = std::to_string(x.size) + " rows, padding " + std::to_string(x.size - x.items.size()) + ":";
        for (auto &i : x.items) s += " " + i;
        for (size_t i = x.items.size(); i < x.size; i++) s += csv ? " 0" : " ";
        want.push_back(s);
    }
    Data_reader_params p{};
    p.dataset = {make_intrusive<In_memory_store>(h::slice(t))};
    p.batch_size = b; p.last_example_handling = static_cast<Last_example_handling>(how); p.num_prefetched_examples = prefetch; p.num_parallel_reads = reads;
    Intrusive_ptr<Data_reader> r{};
    if (csv) {
        Csv_params c{};
        c.header_row_index = std::nullopt;
        c.default_data_type = Data_type::size;
        r = make_intrusive<Csv_reader>(p, c);
    }
    else r = make_intrusive<Text_line_reader>(p);
    if (want.size() > 1) h::nontrivial();
    for (int epoch = 0; epoch < 2; epoch++) {
        std::vector<std::string> got;
        while (auto e = r->read_example()) {
            auto &f = static_cast<Dense_tensor &>(*e->features()[0]);
            std::string s = std::to_string(f.shape()[0]) + " rows, padding " + std::to_string(e->padding) + ":";
            if (csv) for (auto v : f.data().as<size_t>()) s += " " + std::to_string(v);
            else for (auto &v : f.data().as<std::string>()) s += " " + v;
            got.push_back(s);
            if (got.size() > want.size() + 3) break;
        }
        h::eqv(got, want, "epoch " + std::to_string(epoch));
        r->reset();
    }
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool) {
        for (int how = 0; how < 5; how++) for (size_t n = 0; n < 8; n++) for (size_t b = 1; b < 5; b++) batches({}, ins::Data{{n}}, b, how);
        h::begin("batches of zero");
        { Data_reader_params p{}; ins::Data d{{3}}; p.batch_size = 0; auto r = ins::make(p, d); h::eqs(h::raised<std::invalid_argument>([&] { detail::Instance_batch_reader{p, *r}; }), "expected", "outcome"); }
        for (int i = 0; h::now() < end; i++) {
            auto d = ins::data();
            Data_reader_params p{};
            if (h::coin(3)) ins::any_range(p, d.all.size());
            if (h::coin(3)) ins::any_shard(p);
            batches(p, d, 1 + h::rnd(h::pick({2, 10, 300})), static_cast<int>(h::rnd(5)));
            if (i % 3 == 0) examples(h::rnd(14), 1 + h::rnd(6), static_cast<int>(h::rnd(5)), h::coin(), 1 + h::rnd(4), h::rnd(4));
        }
    });
}
