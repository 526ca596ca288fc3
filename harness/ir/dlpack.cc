// The consumer's side of an export: uses the tensor and calls its deleter.
#include <dlpack/dlpack.h>
#include "mlio/integ/dlpack.h"
#include "mlio/tensor.h"
extern const unsigned long verif_dlpack_version;
const unsigned long verif_dlpack_version = DLPACK_VERSION;
void verif_export_and_release(mlio::Tensor &t)
{
    auto *p = mlio::as_dlpack(t, DLPACK_VERSION);
    p->deleter(p);
}
