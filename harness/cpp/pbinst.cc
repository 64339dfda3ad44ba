// Explicit instantiations so that copies of repeated scalar fields are symbolically executed too.
#include "google/protobuf/repeated_field.h"
namespace google { namespace protobuf {
template class RepeatedField<float>;
template class RepeatedField<double>;
template class RepeatedField<int32>;
template class RepeatedField<int64>;
template class RepeatedField<bool>;
}}
