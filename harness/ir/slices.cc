// Makes the compiler emit the inline functions of the real headers that are
// put under contract; nothing here is verified itself.
#include "mlio/memory/memory_block.h"
#include "mlio/memory/memory_slice.h"
using namespace mlio;
using It = Memory_block::iterator;
void use(Memory_slice &s, std::size_t n, It i, Memory_slice *out)
{
    out[0] = s.subslice(n);
    out[1] = s.subslice(n, n);
    out[2] = s.subslice(i);
    out[3] = s.subslice(i, i);
    out[4] = s.first(n);
    out[5] = s.first(i);
    out[6] = s.last(n);
    out[7] = s.last(i);
    out[8] = std::move(s).subslice(n);
    out[9] = std::move(s).subslice(n, n);
    out[10] = std::move(s).subslice(i);
    out[11] = std::move(s).subslice(i, i);
    out[12] = std::move(s).first(n);
    out[13] = std::move(s).first(i);
    out[14] = std::move(s).last(n);
    out[15] = std::move(s).last(i);
}
Memory_block::pointer data(Memory_slice &s) { return s.size() && !s.empty() ? s.data() : nullptr; }
Memory_slice whole(Intrusive_ptr<Memory_block> b) { return Memory_slice{std::move(b)}; }
