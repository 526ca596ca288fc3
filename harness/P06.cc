// P06: datasets of stores with records of every kind, empty stores and stores
// without records, against an independent concatenation.
#include "instances.h"
#include "mlio/record_readers/record.h"
#include "mlio/record_readers/record_reader_base.h"
#include "mlio/record_readers/record_error.h"
struct Part { Record_kind kind; std::string bytes; };
struct Store { bool whole = false; std::string bytes; std::vector<Part> parts; };
struct Parts_reader final : Record_reader_base {
    const Store *s; size_t i = 0;
    explicit Parts_reader(const Store &x) : s{&x} {}
    std::optional<Record> read_record_core() final
    {
        if (i == s->parts.size()) return {};
        auto &p = s->parts[i++];
        return Record{h::slice(p.bytes), p.kind};
    }
};
static char letter(Record_kind k) { return k == Record_kind::complete ? 'c' : k == Record_kind::begin ? 'b' : k == Record_kind::middle ? 'm' : 'e'; }
static std::string show(const std::vector<Store> &v)
{
    std::string r = "stores";
    for (auto &s : v) {
        r += " [";
        if (s.whole) r += "whole " + h::esc(s.bytes);
        for (auto &p : s.parts) r += std::string(1, letter(p.kind)) + h::esc(p.bytes) + " ";
        r += "]";
    }
    return r;
}
// what must come out: "store.index:bytes", "store.whole:bytes"; "error" is
// last when the parts are in a wrong order
static std::vector<std::string> concat(const std::vector<Store> &v)
{
    std::vector<std::string> out;
    for (size_t s = 0; s < v.size(); s++) {
        if (v[s].whole) { out.push_back(std::to_string(s) + ".whole:" + v[s].bytes); continue; }
        size_t n = 0; bool open = false; std::string acc;
        for (auto &p : v[s].parts) {
            char k = letter(p.kind);
            if (open ? (k == 'c' || k == 'b') : (k == 'm' || k == 'e')) { out.push_back("error"); return out; }
            if (k == 'b') { open = true; acc.clear(); }
            acc = (k == 'c' ? "" : acc) + p.bytes;
            if (k == 'e') open = false;
            if (!open) out.push_back(std::to_string(s) + "." + std::to_string(n++) + ":" + acc);
        }
        if (open) { out.push_back("error"); return out; }
    }
    return out;
}
static void one(const std::vector<Store> &v)
{
    h::begin(show(v));
    std::vector<Intrusive_ptr<Data_store>> stores;
    for (auto &s : v) stores.push_back(make_intrusive<In_memory_store>(h::slice(s.bytes)));
    Data_reader_params p{};
    p.dataset = stores;
    auto r = detail::make_instance_reader(p, [&](const Data_store &d) -> Intrusive_ptr<Record_reader> {
        for (size_t i = 0; i < stores.size(); i++) if (stores[i].get() == &d) return v[i].whole ? Intrusive_ptr<Record_reader>{} : Intrusive_ptr<Record_reader>{make_intrusive<Parts_reader>(v[i])};
        h::fail("a store outside the dataset");
        return {};
    });
    auto all = concat(v);
    if (all.size() > 1) h::nontrivial();
    for (int epoch = 0; epoch < 3; epoch++) {
        auto want = all;
        bool part = epoch == 1;
        if (part) want.resize(h::rnd(want.size() + 1));
        std::vector<std::string> got;
        bool peeks = h::coin();
        while (got.size() < all.size() + 2 && !(part && got.size() == want.size())) {
            try {
                if (peeks && h::coin()) r->peek_instance();
                auto i = r->read_instance();
                if (!i) break;
                size_t s = 0;
                while (s < stores.size() && stores[s].get() != &i->data_store()) s++;
                got.push_back(std::to_string(s) + (s < v.size() && v[s].whole ? ".whole:" : "." + std::to_string(i->index()) + ":") + h::text(i->bits()));
            }
            catch (const Data_reader_error &) {
                got.push_back("error");
                for (int k = 0; k < 3; k++) h::eqs(h::raised<Data_reader_error>([&] { r->read_instance(); }), "expected", "read after an error");
                break;
            }
        }
        h::eqv(got, want, "epoch " + std::to_string(epoch) + " instances");
        r->reset();
    }
}
static std::string bytes() { std::string s(h::coin(3) ? 0 : h::rnd(9), 'a'); for (auto &c : s) c = static_cast<char>('a' + h::rnd(26)); return s; }
static Record_kind kind(size_t i) { return i == 0 ? Record_kind::complete : i == 1 ? Record_kind::begin : i == 2 ? Record_kind::middle : Record_kind::end; }
int main(int argc, char **argv)
{
    return h::run(argc, argv, [](double end, bool) {
        // every sequence of up to four parts, alone, and split over two stores
        for (size_t n = 0; n < 5; n++) for (size_t c = 0; c < (size_t{1} << (2 * n)); c++) for (size_t cut = 0; cut <= n; cut++) {
            std::vector<Store> v(cut ? 2 : 1);
            for (size_t i = 0; i < n; i++) v[i < cut ? 0 : v.size() - 1].parts.push_back({kind(c >> (2 * i) & 3), std::string(1 + i, static_cast<char>('a' + i))});
            one(v);
        }
        while (h::now() < end) {
            std::vector<Store> v(h::rnd(5));
            for (auto &s : v) {
                if (h::coin(6)) { s.whole = true; s.bytes = bytes() + "w"; continue; }
                size_t n = h::coin(3) ? 0 : h::rnd(6);
                for (size_t i = 0; i < n; i++) {
                    if (h::coin(2)) s.parts.push_back({Record_kind::complete, bytes()});
                    else if (h::coin(20)) s.parts.push_back({kind(h::rnd(4)), bytes()});
                    else {
                        s.parts.push_back({Record_kind::begin, bytes()});
                        for (size_t m = h::rnd(h::coin(5) ? 40 : 3); m; m--) s.parts.push_back({Record_kind::middle, bytes()});
                        s.parts.push_back({Record_kind::end, bytes()});
                    }
                }
            }
            one(v);
        }
    });
}
