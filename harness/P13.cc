// P13: random sequences of reads, peeks and resets of record, instance and
// data readers against reads alone.
#include "instances.h"
#include "mlio/csv_reader.h"
#include "mlio/text_line_reader.h"
#include "mlio/example.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
#include "mlio/record_readers/record.h"
#include "mlio/record_readers/record_reader_base.h"
#include "mlio/record_readers/csv_record_reader.h"
// any sequence of operations; get/peek return "" at the end
struct Ops { std::function<std::string()> read, peek; std::function<void()> reset; };
static void drive(const std::vector<std::string> &want, Ops o, size_t steps)
{
    size_t at = 0;
    std::string trace;
    for (size_t i = 0; i < steps; i++) {
        std::string expect = at < want.size() ? want[at] : "";
        size_t op = h::rnd(o.reset && h::coin(6) ? 3 : 2);
        trace += "rpR"[op];
        if (op == 2) { o.reset(); at = 0; continue; }
        std::string got = op ? o.peek() : o.read();
        h::eqs(got, expect, "operation " + std::to_string(i) + " of " + trace + " (read, peek, Reset)");
        if (!op && at < want.size()) at++;
    }
}
static std::string text(const std::optional<Record> &r) { return r ? h::text(r->payload()) + "/" + std::to_string(static_cast<int>(r->kind())) : ""; }
struct Kinds final : Record_reader_base {
    size_t n, i = 0, calls = 0;
    explicit Kinds(size_t x) : n{x} {}
    std::optional<Record> read_record_core() final
    {
        calls++;
        if (i == n) return {};
        auto k = i++;
        return Record{h::slice(k % 5 == 3 ? "" : "r" + std::to_string(k)), static_cast<Record_kind>(k % 4)};
    }
};
static void records(size_t n)
{
    h::begin("record reader of " + std::to_string(n) + " records");
    std::vector<std::string> want;
    for (size_t i = 0; i < n; i++) want.push_back((i % 5 == 3 ? "" : "r" + std::to_string(i)) + "/" + std::to_string(i % 4));
    if (n > 1) h::nontrivial();
    Kinds k{n};
    drive(want, {[&] { return text(k.read_record()); }, [&] { return text(k.peek_record()); }, {}}, 3 * n + 6);
    std::string t, sep = h::coin() ? "\n" : "\r\n";
    want.clear();
    bool blank = h::coin();
    for (size_t i = 0; i < n; i++) { want.push_back(std::string(h::rnd(3) + (blank ? 0 : 1), static_cast<char>('a' + i % 26)) + "/0"); t += want.back().substr(0, want.back().size() - 2) + sep; }
    detail::Text_line_record_reader r{In_memory_store{h::slice(t)}.open_read(), !blank && h::coin()};
    drive(want, {[&] { return text(r.read_record()); }, [&] { return text(r.peek_record()); }, {}}, 3 * n + 6);
}
static void instances(Data_reader_params p, const ins::Data &d)
{
    h::begin("instance reader, " + ins::show(p, d));
    auto want = ins::select(p, d);
    if (want.size() > 1) h::nontrivial();
    auto r = ins::make(p, d);
    auto t = [](const std::optional<Instance> &i) { return i ? h::text(i->bits()) : std::string{}; };
    drive(want, {[&] { return t(r->read_instance()); }, [&] { return t(r->peek_instance()); }, [&] { r->reset(); }}, 3 * want.size() + 20);
}
static std::string show(const Intrusive_ptr<Example> &e)
{
    if (!e) return "";
    std::string s = "padding " + std::to_string(e->padding) + ":";
    for (auto &f : e->features()) {
        auto &t = static_cast<Dense_tensor &>(*f);
        auto v = t.data().as<std::string>();
        for (auto &x : v) s += " " + x;
    }
    return s;
}
static void examples(size_t n, size_t batch, bool csv, size_t prefetch, int seed)
{
    h::begin(std::string(csv ? "csv" : "text line") + " reader of " + std::to_string(n) + " lines, batches of " + std::to_string(batch) + ", prefetch " + std::to_string(prefetch));
    std::string t;
    std::vector<std::string> want;
    Data_reader_params p{};
    for (size_t i = 0; i < n; i++) {
        std::string l = "v" + std::to_string(i) + (csv ? ",w" + std::to_string(i) : "");
        t += l + "\n";
    }
    for (size_t b = 0; b * batch < n; b++) {
        size_t m = std::min(batch, n - b * batch);
        std::string s = "padding 0:";
        for (int c = 0; c < (csv ? 2 : 1); c++) for (size_t i = 0; i < m; i++) s += " " + std::string(c ? "w" : "v") + std::to_string(b * batch + i);
        want.push_back(s);
    }
    p.dataset = {make_intrusive<In_memory_store>(h::slice(t))};
    p.batch_size = batch;
    p.num_prefetched_examples = prefetch;
    p.num_parallel_reads = seed % 3;
    Intrusive_ptr<Data_reader> r{};
    if (csv) {
        Csv_params c{};
        c.header_row_index = std::nullopt;
        c.default_data_type = Data_type::string;
        r = make_intrusive<Csv_reader>(p, c);
    }
    else r = make_intrusive<Text_line_reader>(p);
    if (want.size() > 1) h::nontrivial();
    if (h::coin()) r->read_schema();
    drive(want, {[&] { return show(r->read_example()); }, [&] { return show(r->peek_example()); }, [&] { r->reset(); }}, 3 * want.size() + 10);
    if (h::coin()) { r->reset(); r->read_schema(); drive(want, {[&] { return show(r->read_example()); }, [&] { return show(r->peek_example()); }, {}}, want.size() + 3); }
}
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool) {
        for (size_t n = 0; n < 5; n++) for (int k = 0; k < 20; k++) records(n);
        for (int i = 0; h::now() < end; i++) {
            records(h::rnd(20));
            Data_reader_params p{};
            ins::Data d{{h::rnd(8), 0, h::rnd(5), h::coin(10) ? h::rnd(300) : 1}};
            if (h::coin(3)) ins::any_range(p, d.all.size());
            if (h::coin(3)) ins::any_shard(p);
            if (h::coin(3)) ins::any_sample(p);
            instances(p, d);
            if (i % 4 == 0) examples(h::rnd(12), 1 + h::rnd(4), h::coin(), 1 + h::rnd(4), i);
        }
    });
}
