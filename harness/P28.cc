// P28: prefetching.  A reader with known batches, whose decoding takes
// arbitrary time, gives no example for some batches and fails where told, is
// read, reset and destroyed at arbitrary times.
#include <mutex>
#include <thread>
#include <tbb/tbb.h>
#include "h.h"
#include "mlio/cpu_array.h"
#include "mlio/csv_reader.h"
#include "mlio/data_type.h"
#include "mlio/example.h"
#include "mlio/instance_batch.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/parallel_data_reader.h"
#include "mlio/record_readers/record.h"
#include "mlio/record_readers/record_reader.h"
#include "mlio/recordio_protobuf_reader.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
#include "mlio/text_line_reader.h"
// failures of several kinds
struct Fault { virtual ~Fault() = default; };
struct Fault_a : std::runtime_error, Fault { using std::runtime_error::runtime_error; };
struct Fault_b : std::invalid_argument, Fault { using std::invalid_argument::invalid_argument; };
struct Fault_c : std::bad_alloc, Fault {};
[[noreturn]] static void fault(int kind, const char *what) { if (kind == 0) throw Fault_a{what}; if (kind == 1) throw Fault_b{what}; throw Fault_c{}; }
struct Plan {
    size_t rows = 0, batch = 1;
    std::set<size_t> none;                  // batches without example
    size_t bad_batch = SIZE_MAX, bad_row = SIZE_MAX;        // decoding fails, reading fails
    int kind = 0; 
    int slow = 0;                           // microseconds at most
    bool once = false, no_schema = false;
    mutable std::atomic<int> active{0}, decoded{0}, most{0};
    mutable std::atomic<bool> mended{false};
    mutable std::atomic<uint64_t> seq{1};
    bool fails() const { return !mended; }
};
static void nap(const Plan &p) { if (p.slow) { uint64_t z = p.seq.fetch_add(0x9e3779b97f4a7c15ULL); z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ULL; z ^= z >> 32; if (z & 1) std::this_thread::sleep_for(std::chrono::microseconds(z % static_cast<uint64_t>(p.slow))); } }
class Rows final : public Record_reader {
public:
    explicit Rows(const Plan &p) : p_{&p} {}
    std::optional<Record> read_record() override
    {
        p_->active++;
        nap(*p_);
        p_->active--;
        if (at_ == p_->bad_row && p_->fails()) fault(p_->kind, "row");
        if (at_ >= p_->rows) return {};
        return Record{h::slice(std::to_string(at_++) + ";")};
    }
    std::optional<Record> peek_record() override { size_t k = at_; auto r = read_record(); at_ = k; return r; }
private:
    const Plan *p_;
    size_t at_ = 0;
};
class Probe final : public Parallel_data_reader {
public:
    Probe(Data_reader_params d, const Plan &p) : Parallel_data_reader{std::move(d)}, p_{&p} {}
    ~Probe() override { stop(); }
private:
    Intrusive_ptr<Record_reader> make_record_reader(const Data_store &) override { return wrap_intrusive(static_cast<Record_reader *>(new Rows{*p_})); }
    Intrusive_ptr<const Schema> infer_schema(const std::optional<Instance> &) override
    {
        if (p_->no_schema && p_->fails()) fault(p_->kind, "schema");
        std::vector<Attribute> a{};
        a.emplace_back("value", Data_type::int64, Size_vector{1, 1});
        return make_intrusive<Schema>(std::move(a));
    }
    Intrusive_ptr<Example> decode(const Instance_batch &b) const override
    {
        int n = ++p_->active;
        for (int m = p_->most; n > m && !p_->most.compare_exchange_weak(m, n);) {}
        p_->decoded++;
        nap(*p_);
        struct Leave { const Plan *p; ~Leave() { --p->active; } } leave{p_};
        if (b.index() == p_->bad_batch && p_->fails()) fault(p_->kind, "batch");
        if (p_->none.count(b.index())) return nullptr;
        size_t k = b.index() * p_->batch;
        for (auto &i : b.instances()) CHECK(h::text(i.bits()) == std::to_string(k++) + ";", "the rows of batch " + std::to_string(b.index()));
        auto arr = make_cpu_array(Data_type::int64, 1);
        static_cast<std::int64_t *>(const_cast<void *>(static_cast<const void *>(arr->data())))[0] = static_cast<std::int64_t>(b.index());
        std::vector<Intrusive_ptr<Tensor>> t{};
        t.emplace_back(make_intrusive<Dense_tensor>(Size_vector{1, 1}, std::move(arr)));
        auto e = make_intrusive<Example>(schema(), std::move(t));
        e->padding = b.index();
        return e;
    }
    const Plan *p_;
};
template<typename F> static bool again(F f) { try { f(); } catch (const Fault &) { return true; } return false; }
static void one()
{
    Plan p;
    p.batch = h::pick({1, 1, 2, 3});
    p.rows = h::pick({0, 1, 2, 5, 9, 20, 60});
    p.kind = static_cast<int>(h::rnd(3));
    p.slow = static_cast<int>(h::pick({0, 0, 30, 300, 1500}));
    p.seq = h::rnd() | 1;
    size_t batches = (p.rows + p.batch - 1) / p.batch;
    for (size_t i = 0; i < batches; i++) if (h::coin(6)) p.none.insert(i);
    if (h::coin(4) && batches) p.bad_batch = h::rnd(batches);
    else if (h::coin(4) && p.rows) p.bad_row = h::rnd(p.rows);
    else if (h::coin(12)) p.no_schema = true;
    Data_reader_params d;
    d.dataset.push_back(h::store("s", "x"));
    d.batch_size = p.batch;
    d.num_prefetched_examples = h::pick({0, 1, 1, 2, 3, 5});
    d.num_parallel_reads = h::pick({0, 1, 2, 4, 9});
    std::string what = std::to_string(p.rows) + " rows in batches of " + std::to_string(p.batch) + ", none for";
    for (auto i : p.none) what += " " + std::to_string(i);
    auto num = [](size_t n) { return n == SIZE_MAX ? std::string("-") : std::to_string(n); };
    what += ", decoding fails at batch " + num(p.bad_batch) + ", reading at row " + num(p.bad_row) + (p.no_schema ? ", no schema" : "") + ", prefetched " + std::to_string(d.num_prefetched_examples) + ", parallel " + std::to_string(d.num_parallel_reads) + ", slow " + std::to_string(p.slow);
    size_t fail = std::min(p.bad_batch, p.bad_row == SIZE_MAX ? SIZE_MAX : p.bad_row / p.batch);
    std::vector<size_t> want;
    for (size_t i = 0; i < batches; i++) if (!p.none.count(i)) want.push_back(i);
    int epochs = static_cast<int>(1 + h::rnd(4)), mend = static_cast<int>(h::rnd(3));
    std::vector<size_t> stops;
    for (int e = 0; e < epochs; e++) stops.push_back(h::coin(3) ? h::rnd(want.size() + 3) : SIZE_MAX);
    what += ", mended after epoch " + std::to_string(mend) + ", epochs of";
    for (auto s : stops) what += " " + (s == SIZE_MAX ? std::string("all") : std::to_string(s));
    h::begin(what);
    if (want.size() > 4) h::nontrivial();
    size_t keep = d.num_prefetched_examples ? d.num_prefetched_examples : static_cast<size_t>(tbb::info::default_concurrency()), par = d.num_parallel_reads == 0 || d.num_parallel_reads > keep ? keep : d.num_parallel_reads;
    {
        auto r = wrap_intrusive(static_cast<Data_reader *>(new Probe{d, p}));
        for (int e = 0; e < epochs; e++) {
            std::string at = "epoch " + std::to_string(e) + ": ";
            if (e) { r->reset(); CHECK(p.active == 0, at + "work goes on after a reset"); h::eq(r->num_bytes_read(), size_t{0}, at + "bytes after a reset"); }
            if (e > mend) p.mended = true;
            p.decoded = 0;
            bool fails = p.fails() && (fail != SIZE_MAX || p.no_schema);
            size_t k = 0;
            bool failed = false;
            if (h::coin(5)) try { r->peek_example(); } catch (const Fault &) { CHECK(fails, at + "a failure"); }
            for (; k < stops[static_cast<size_t>(e)]; k++) {
                if (h::coin(8)) nap(p);
                Intrusive_ptr<Example> x;
                try { x = h::coin(4) ? (r->peek_example(), r->read_example()) : r->read_example(); }
                catch (const Fault &) { failed = true; CHECK(fails, at + "a failure"); break; }
                if (!x) { CHECK(!fails, at + "the end instead of a failure"); h::eq(k, want.size(), at + "number of examples"); CHECK(!r->read_example(), at + "an example after the end"); break; }
                CHECK(k < want.size(), at + "an example too many");
                h::eq(static_cast<size_t>(x->padding), want[k], at + "example " + std::to_string(k) + " is that of batch");
                CHECK(!fails || p.no_schema || want[k] < fail, at + "an example after the failure");
                // without examples that never come, what is decoded is kept or delivered
                if (p.none.empty() && k) CHECK(static_cast<size_t>(p.decoded) <= k + 1 + 2 * keep + par + 1, at + "more than asked for is prefetched");
            }
            if (failed) for (int n = 0; n < 2; n++) CHECK(again([&] { auto x = r->read_example(); }), at + "the failure is forgotten");
            if (h::coin(4)) std::this_thread::sleep_for(std::chrono::milliseconds(2));      // the queue fills up
            CHECK(static_cast<size_t>(p.most) <= std::max<size_t>(par, 1) + 1, at + "more batches at a time than asked for");
        }
    }
    CHECK(p.active == 0, "work goes on after the reader is destroyed");
    int n = p.decoded;
    if (h::coin(20)) { std::this_thread::sleep_for(std::chrono::milliseconds(3)); CHECK(p.decoded == n, "work goes on after the reader is destroyed"); }
}
// the readers of the library are stopped as well: destroyed at any time
template<typename F>
static void destroyed(const char *name, const std::string &bytes, F make)
{
    Data_reader_params d;
    d.dataset.push_back(h::store("s", bytes));
    d.batch_size = 1;
    d.num_prefetched_examples = h::pick({1, 2, 30});
    size_t n = h::rnd(12);
    h::begin(std::string(name) + " destroyed after " + std::to_string(n) + " reads, prefetched " + std::to_string(d.num_prefetched_examples));
    auto r = make(d);
    try { for (size_t i = 0; i < n; i++) r->read_example(); } catch (const std::exception &) {}
    if (h::coin()) std::this_thread::sleep_for(std::chrono::microseconds(h::rnd(3000)));
}
static void readers()
{
    std::string text;
    for (int i = 0; i < 40; i++) text += std::to_string(i) + "\n";
    destroyed("a text line reader", text, [](auto &d) { return make_intrusive<Text_line_reader>(d); });
    destroyed("a CSV reader", text, [](auto &d) { return make_intrusive<Csv_reader>(d); });
    destroyed("a RecordIO-protobuf reader", text, [](auto &d) { return make_intrusive<Recordio_protobuf_reader>(d); });
}
int main(int argc, char **argv)
{
    set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    return h::run(argc, argv, [](double deadline, bool) { readers(); while (h::now() < deadline) { one(); if (h::coin(40)) readers(); } });
}
