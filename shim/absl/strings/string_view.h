#ifndef VP_ABSL_SV
#define VP_ABSL_SV
#include <string_view>
namespace absl { using string_view = std::string_view; }
#endif
