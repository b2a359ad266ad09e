#include "../../shim/vp.h"
