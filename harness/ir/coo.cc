// Makes the compiler emit the builders of sparse batches of the real header;
// nothing here is verified itself.
#include "mlio/coo_tensor_builder.h"
#include "mlio/data_type.h"
template class mlio::detail::Coo_tensor_builder_impl<mlio::Data_type::float32>;
template class mlio::detail::Coo_tensor_builder_impl<mlio::Data_type::int64>;
