// Makes the compiler emit the inline reference counting functions that are put
// under contract; nothing here is verified itself.
#include "mlio/intrusive_ptr.h"
#include "mlio/memory/memory_block.h"
using namespace mlio;
template class mlio::Intrusive_ptr<Memory_block>;
void use(const Intrusive_ref_counter<Memory_block> *p) { intrusive_ptr_inc_ref(p); intrusive_ptr_dec_ref(p); }
