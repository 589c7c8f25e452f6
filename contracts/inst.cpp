// Explicit instantiations of /repo's container templates with an opaque-ish scalar element, so that
// every member function of the real template code is emitted into the IR and put under contract.
#include <string>
#include "array_list.h"
#include "circular_buffer.h"
template class array_list<long>;
template class circular_buffer<long>;
