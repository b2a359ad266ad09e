#pragma once
#include <vector>
namespace absl { inline std::vector<char*> ParseCommandLine(int, char**) { return {}; } }
