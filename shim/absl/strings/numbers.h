#pragma once
#include "absl/strings/str_cat.h"
