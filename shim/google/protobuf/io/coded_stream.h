#pragma once
#include "google/protobuf/io/zero_copy_stream.h"
