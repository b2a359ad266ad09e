// A main program of the repository as a function: its exit is seen by the harness.
// Everything the program may include is included before the names are replaced.
#ifndef TOOL_H
#define TOOL_H
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/memory/memory.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include "base/base.h"
#include "base/history.h"
#include "base/side_input.h"
#include "eval/eval.h"
#include "logging/csv_logger.h"
#include "traders/trader_factory.h"
#include "util/proto.h"
#include "util/time.h"
#include "files.h"
#include "vp.h"
static void after_main(int code);      // the harness' checks, exactly once
namespace std {
[[noreturn]] inline void vp_tool_exit(int code) {
  after_main(code);
  vp_done();
}
}
using std::vp_tool_exit;
namespace google { namespace protobuf { inline void vp_no_shutdown() {} } }
#define exit vp_tool_exit
#define main vp_tool_main
#define ShutdownProtobufLibrary vp_no_shutdown
#endif
