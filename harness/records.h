// Drives the real stream record readers under scripted stream and buffer shapes.
#pragma once
#include <algorithm>
#include <memory>
#include <utility>
#include <type_traits>
#include <sstream>
#include "h.h"
#define private public
#define protected public
#include "mlio/record_readers/stream_record_reader.h"
#include "mlio/record_readers/detail/default_chunk_reader.h"
#include "mlio/record_readers/detail/in_memory_chunk_reader.h"
#undef private
#undef protected
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/record_readers/record.h"
#include "mlio/record_readers/record_error.h"

namespace rec {
// what mlio::initialize() does
inline int init = (set_memory_allocator(std::make_unique<File_backed_memory_allocator>()), 0);
template<typename T>
auto tune(T &t, size_t n, int) -> decltype(t.next_chunk_size_ = n, void()) { t.next_chunk_size_ = n; }
template<typename T>
void tune(T &, size_t, long) {}
template<typename T>
auto tune_reader(T &t, size_t n, int) -> decltype(t.chunk_reader_.get(), void())
{
    if (auto *d = dynamic_cast<detail::Default_chunk_reader *>(t.chunk_reader_.get())) tune(*d, n, 0);
}
template<typename T>
void tune_reader(T &, size_t, long) {}

struct Outcome {
    std::vector<std::string> records;
    std::vector<int> kinds;
    std::string error;  // "", or the kind of error that ended the sequence
    bool operator==(const Outcome &o) const { return records == o.records && kinds == o.kinds && error == o.error; }
};
inline std::string show(const Outcome &o)
{
    std::string k;
    for (int i : o.kinds) k += std::to_string(i) + " ";
    return h::str(o.records) + " kinds [" + k + "] then " + (o.error.empty() ? "end" : o.error);
}
// reads everything; every record is held until the end and looked at again, so
// that a later change of its bytes is seen
template<typename R>
Outcome drain(R &r, size_t buffer, bool peeks = false)
{
    tune_reader(r, buffer, 0);
    Outcome o;
    std::vector<Record> held;
    try {
        for (size_t i = 0;; i++) {
            if (peeks && h::coin()) {
                auto p = r.peek_record();
                auto q = r.read_record();
                CHECK(p.has_value() == q.has_value(), "peek and read disagree");
                if (!q) break;
                h::eqs(h::text(p->payload()), h::text(q->payload()), "peeked record");
                held.push_back(*q);
            }
            else {
                auto q = r.read_record();
                if (!q) break;
                held.push_back(*q);
            }
            o.records.push_back(h::text(held.back().payload()));
            o.kinds.push_back(static_cast<int>(held.back().kind()));
            if (i > 100000) h::fail("more than 100000 records: the reader does not end");
        }
        if (r.read_record()) h::fail("a record after the end");
    }
    catch (const Record_too_large_error &) { o.error = "too large"; }
    catch (const Corrupt_record_error &) { o.error = "corrupt"; }
    catch (const std::exception &e) { o.error = std::string("other error: ") + e.what(); }
    for (size_t i = 0; i < held.size(); i++) h::eqs(h::text(held[i].payload()), o.records[i], "bytes of record " + std::to_string(i) + " after later reads");
    return o;
}
inline size_t buffer() { return h::pick({1, 1, 2, 3, 4, 7, 16, 64, 4096}); }
inline void compare(const Outcome &got, const Outcome &want)
{
    if (!(got == want)) h::fail("expected " + show(want) + ", got " + show(got));
}
}  // namespace rec
