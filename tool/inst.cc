// Instantiates header templates so that every member is analysed, used or not.
#if __has_include(<lttoolbox/buffer.h>)
#include <lttoolbox/buffer.h>
template class Buffer<int>;
#endif
